// Command gosym checks properties of Go code by symbolic execution of its SSA with an SMT solver.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"
)

func main() {
	id := flag.String("id", "", "property id")
	only := flag.String("only", "", "run only harnesses whose name contains this")
	root := flag.String("root", "/verif", "framework directory")
	nw := flag.Int("j", min(8, runtime.NumCPU()), "workers")
	solver := flag.String("solver", defaultSolver(), "z3, z3-new or cvc5")
	budget := flag.Duration("budget", 0, "total exploration time")
	flag.Parse()
	tierName := os.Getenv("VERIF_TIER")
	if tierName != "thorough" {
		tierName = "quick"
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	os.Exit(runCheck(*id, *only, *root, *nw, *solver, *budget, tierName, seed))
}

func runCheck(id, only, root string, nw int, solver string, budget time.Duration, tierName string, seed int64) int {
	t0 := time.Now()
	hdir := filepath.Join(root, "harness")
	bdir, err := os.MkdirTemp("", "gosym")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(bdir)
	tier := 0
	if tierName == "thorough" {
		tier = 1
	}
	if budget == 0 {
		budget = 420 * time.Second
		if tier == 1 {
			budget = 600 * time.Second
		}
	}
	rep := &Replayer{dir: hdir, build: bdir, tier: tier}
	go rep.binary(false)
	eng, pkg, err := load(hdir)
	if err != nil {
		fmt.Fprintln(os.Stderr, "error:", err)
		return 2
	}
	eng.solver = solver
	eng.tier = tier
	hs := harnesses(pkg, id)
	if only != "" {
		k := hs[:0]
		for _, h := range hs {
			if strings.Contains(h.Name(), only) {
				k = append(k, h)
			}
		}
		hs = k
	}
	if len(hs) == 0 {
		fmt.Fprintln(os.Stderr, "no harness for", id)
		return 2
	}
	if _, err := rep.binary(false); err != nil {
		fmt.Fprintln(os.Stderr, "error:", err)
		return 2
	}
	ex := newExplorer(eng, rep, nw, seed)
	defer func() {
		for _, w := range ex.workers {
			w.sol.close()
		}
	}()
	var reports []*HarnessReport
	var bad *HarnessReport
	known := 0
	end := time.Now().Add(budget)
	for i, h := range hs {
		left := time.Until(end)
		share := left / time.Duration(len(hs)-i)
		// a harness may borrow from the later ones, which are mostly short
		share = min(left, share*4)
		if share < 3*time.Second {
			share = 3 * time.Second
		}
		hr := ex.explore(h, share, 2000000)
		ex.validate(hr)
		reports = append(reports, hr)
		fmt.Printf("%s: paths=%d asserts=%d (solver %d) unencodable=%d cut=%d pending=%d unknown=%d queries=%d+%d solver=%.1fs wall=%.1fs validated=%d\n",
			hr.Name, hr.Paths, hr.Asserts, hr.Solved, hr.Unsup, hr.Cut, hr.Pending, hr.Unknown, hr.Queries, hr.Cached, hr.SolverS, hr.WallS, hr.Validated)
		var rs []string
		for r, n := range hr.Reasons {
			rs = append(rs, fmt.Sprintf("  %d x %s", n, r))
		}
		sort.Strings(rs)
		for _, r := range rs {
			fmt.Println(r)
		}
		for _, u := range hr.Unconf {
			fmt.Println("  not reproduced:", u)
		}
		for _, u := range hr.Mismatches {
			fmt.Println("  MISMATCH:", u)
		}
		if hr.confirmed != nil {
			if what, ok := knownFinding(root, id, hr.confirmed.c.Harness, hr.confirmed.c.Msg); ok {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, what)
				known++
				continue
			}
			bad = hr
			break
		}
	}
	code := 0
	viol := 0
	if bad != nil {
		viol = 1
		code = 1
		odir := filepath.Join(root, "out")
		_ = os.MkdirAll(odir, 0o755)
		path := filepath.Join(odir, id+"-replay.json")
		c := bad.confirmed.c
		b, _ := json.MarshalIndent(map[string]any{"property": id, "harness": c.Harness, "kind": c.Kind, "message": c.Msg, "inputs": c.Inputs, "map_order": c.MapOrder, "tier": tier, "native": bad.confirmed.native, "replay_cmd": root + "/bin/replay.sh " + path}, "", " ")
		_ = os.WriteFile(path, b, 0o644)
		fmt.Printf("counterexample: %s: %s\n  inputs %s\n  natively: %s\n", c.Harness, c.Msg, inputsText(c), cut(bad.confirmed.native, 1500))
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
	} else {
		total := 0
		for _, r := range reports {
			total += r.Paths
			if len(r.Mismatches) > 0 {
				fmt.Println("note: the encoding disagrees with the real code in", r.Name, "-- its verdict is not claimed for this run")
			}
			if r.Paths == 0 && r.confirmed == nil {
				fmt.Println("note: no path of", r.Name, "could be encoded to its end -- nothing is claimed for it in this run")
			}
		}
		if total == 0 {
			fmt.Fprintln(os.Stderr, "error: nothing could be encoded")
			code = 2
		}
	}
	if err := writeEvidence(root, id, tierName, seed, eng, reports, solver, time.Since(t0), viol, known); err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		if code == 0 {
			code = 2
		}
	}
	return code
}

func writeEvidence(root, id, tier string, seed int64, e *Engine, reports []*HarnessReport, solver string, wall time.Duration, viol, known int) error {
	var fns, lib []string
	e.encoded.Range(func(k, v any) bool {
		s := k.(string)
		switch {
		case strings.Contains(s, "go-andiamo/aitch"):
			fns = append(fns, s)
		case strings.HasPrefix(s, "aitchverif") || strings.Contains(s, "aitchverif/"):
		default:
			lib = append(lib, s)
		}
		return true
	})
	sort.Strings(fns)
	sort.Strings(lib)
	var cached, tabled, inherited, paths, val, q, solved, folded, asserts, unsup, cutN, pend, unk int
	var dec, steps int64
	var ss float64
	var samples []any
	exh := true
	for _, r := range reports {
		paths += r.Paths
		val += r.Validated
		q += r.Queries
		cached += r.Cached
		tabled += r.Tabled
		inherited += r.Inherited
		solved += r.Solved
		folded += r.Folded
		asserts += r.Asserts
		unsup += r.Unsup
		cutN += r.Cut
		pend += r.Pending
		unk += r.Unknown
		dec += r.Decisions
		steps += r.Steps
		ss += r.SolverS
		exh = exh && r.Exhausted
		for i, s := range r.samples {
			if i < 2 {
				samples = append(samples, map[string]any{"harness": s.Harness, "inputs": s.Inputs, "observed": s.Obs})
			}
		}
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "model_checking",
		"wall_s": wall.Seconds(), "violations": viol, "known_findings": known,
		"coverage": map[string]any{
			"states":                           paths,
			"transitions":                      dec,
			"traces_validated_against_impl":    val,
			"samples":                          samples,
			"exhaustive":                       exh,
			"states_are":                       "completed symbolic paths (each a set of inputs given by its path condition)",
			"transitions_are":                  "symbolic decisions taken along all paths (branches, choices, map orders, concretisations)",
			"ssa_blocks_steps":                 steps,
			"solver":                           solver,
			"solver_queries":                   q,
			"solver_verdicts_reused":           cached,
			"solver_seconds":                   ss,
			"branches_decided_by_byte_domains": tabled,
			"assertions_reached":               asserts,
			"assertions_unsat_by_solver":       solved,
			"assertions_by_simplification":     folded,
			"assertions_decided_on_the_path_branched_from": inherited,
			"solver_unknown":              unk,
			"paths_not_encodable":         unsup,
			"paths_cut_by_bounds":         cutN,
			"paths_pending_at_time_limit": pend,
			"functions_encoded_of_aitch":  fns,
			"library_functions_encoded":   len(lib),
			"bounds":                      boundsText(root, id),
			"step_bound":                  e.maxSteps,
			"map_orders":                  "all permutations up to 4 live entries, 4 representative orders above",
			"harnesses":                   reports,
			"load_seconds":                e.loadTime.Seconds(),
			"init_warnings":               e.warnings(),
		},
		"assumptions": []string{
			"the SSA of golang.org/x/tools and the engine's instruction semantics are faithful (sampled paths are replayed natively and their outputs compared on every run)",
			"symbolic strings and slices have the lengths listed in the bounds; claims hold for every content within them",
			"library models: sync, sync/atomic, reflect, strconv integer formatting, byte search, html/template (contract stub); strconv.FormatFloat is uninterpreted on symbolic floats; strconv.IsPrint as a decision tree; x/net's atom.Lookup finds nothing (it only serves to share strings)",
			"branch feasibility over single bytes is decided by truth tables of the encoded terms over the byte, or by a found value; assertions are decided by the solver or by simplification of the formula",
			"the SMT solver's unsat answers are trusted",
		},
	}
	dir := filepath.Join(root, "evidence")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, id+".json"), b, 0o644)
}

// knownFinding looks a confirmed violation up in the committed list of findings, by harness and assertion.
func knownFinding(root, id, harness, msg string) (string, bool) {
	b, err := os.ReadFile(filepath.Join(root, "known_findings.txt"))
	if err != nil {
		return "", false
	}
	for _, l := range strings.Split(string(b), "\n") {
		// finding: property=ID harness=NAME assertion="..." what fails
		if rest, ok := strings.CutPrefix(l, "finding: property="+id+" harness="+harness+" assertion="); ok {
			if q, err := strconv.QuotedPrefix(rest); err == nil {
				if m, _ := strconv.Unquote(q); m == msg {
					return strings.TrimSpace(rest[len(q):]), true
				}
			}
		}
	}
	return "", false
}

// boundsText reads the bounds a property's harness file states in its "Bounds:" comment.
func boundsText(root, id string) string {
	b, err := os.ReadFile(filepath.Join(root, "harness", "props", strings.ToLower(id)+".go"))
	if err != nil {
		return ""
	}
	var out []string
	in := false
	for _, l := range strings.Split(string(b), "\n") {
		t := strings.TrimSpace(strings.TrimPrefix(l, "//"))
		if strings.HasPrefix(l, "//") && strings.HasPrefix(t, "Bounds:") {
			in = true
		}
		if in {
			if !strings.HasPrefix(l, "//") {
				break
			}
			out = append(out, t)
		}
	}
	return strings.Join(out, " ")
}

// defaultSolver is the newer z3 when it is there.
func defaultSolver() string {
	if _, err := exec.LookPath("z3-new"); err == nil {
		return "z3-new"
	}
	return "z3"
}
