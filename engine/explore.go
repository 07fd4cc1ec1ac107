package main

import (
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// HarnessReport is what one harness's exploration covered.
type HarnessReport struct {
	Name       string         `json:"name"`
	Paths      int            `json:"paths_completed"`
	Assumed    int            `json:"paths_outside_assumptions"`
	Cut        int            `json:"paths_cut_by_bounds"`
	Unsup      int            `json:"paths_not_encodable"`
	Pending    int            `json:"paths_not_explored"`
	Exhausted  bool           `json:"exhausted_within_bounds"`
	Asserts    int            `json:"assertions_reached"`
	Folded     int            `json:"assertions_decided_by_simplification"`
	Solved     int            `json:"assertions_decided_unsat_by_solver"`
	Unknown    int            `json:"solver_unknown"`
	Queries    int            `json:"solver_queries"`
	Cached     int            `json:"solver_verdicts_reused"`
	Tabled     int            `json:"branches_decided_by_byte_domains"`
	Inherited  int            `json:"assertions_decided_on_the_path_branched_from"`
	SolverS    float64        `json:"solver_seconds"`
	WallS      float64        `json:"wall_seconds"`
	Decisions  int64          `json:"symbolic_decisions"`
	Steps      int64          `json:"ssa_steps"`
	Reached    map[string]int `json:"reached"`
	Reasons    map[string]int `json:"reasons,omitempty"`
	Validated  int            `json:"paths_replayed_natively"`
	Unconf     []string       `json:"candidates_not_reproduced,omitempty"`
	Mismatches []string       `json:"translator_mismatches,omitempty"`
	confirmed  *confirmedCex
	samples    []*candidate
	probes     []*candidate
}

type confirmedCex struct {
	c      *candidate
	native string
}

type explorer struct {
	eng     *Engine
	rep     *Replayer
	workers []*Worker
	seed    int64
}

func newExplorer(e *Engine, rep *Replayer, n int, seed int64) *explorer {
	x := &explorer{eng: e, rep: rep, seed: seed}
	for i := 0; i < n; i++ {
		x.workers = append(x.workers, newWorker(i, e))
	}
	return x
}

func (x *explorer) explore(fn *ssa.Function, budget time.Duration, maxPaths int) *HarnessReport {
	t0 := time.Now()
	x.eng.cur = fn.Name()
	hr := &HarnessReport{Name: fn.Name(), Reached: map[string]int{}, Reasons: map[string]int{}}
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	queue := []pathJob{{}}
	active := 0
	stop := false
	var tries = map[string]int{}
	rng := rand.New(rand.NewSource(x.seed))
	deadline := t0.Add(budget)
	for _, w := range x.workers {
		w.deadline = deadline.Add(5 * time.Second)
	}
	pops := 0
	var wg sync.WaitGroup
	var dec, steps int64
	for _, w := range x.workers {
		wg.Add(1)
		q0, d0, c0, t0 := w.sol.queries, w.sol.dur, w.sol.cached, w.sol.tabled
		go func(w *Worker) {
			defer wg.Done()
			defer func() {
				mu.Lock()
				hr.Queries += w.sol.queries - q0
				hr.Cached += w.sol.cached - c0
				hr.Tabled += w.sol.tabled - t0
				hr.SolverS += (w.sol.dur - d0).Seconds()
				mu.Unlock()
			}()
			for {
				mu.Lock()
				for len(queue) == 0 && active > 0 && !stop {
					cond.Wait()
				}
				if stop || len(queue) == 0 {
					mu.Unlock()
					cond.Broadcast()
					return
				}
				if time.Now().After(deadline) || hr.Paths >= maxPaths {
					stop = true
					mu.Unlock()
					cond.Broadcast()
					return
				}
				// mostly depth first; now and then a random pending prefix, for spread
				i := len(queue) - 1
				pops++
				if pops%4 == 0 {
					i = rng.Intn(len(queue))
				}
				p := queue[i]
				queue[i] = queue[len(queue)-1]
				queue = queue[:len(queue)-1]
				active++
				mu.Unlock()

				res := w.runPath(fn, p)
				atomic.AddInt64(&dec, int64(len(w.decs)))
				atomic.AddInt64(&steps, w.steps)
				var sample *candidate
				if res.status == "ok" {
					mu.Lock()
					n := hr.Paths
					mu.Unlock()
					if n < 24 || n%97 == 0 && n < 8000 {
						sample = w.sampleInputs()
					}
				}
				alts := w.alts

				mu.Lock()
				active--
				queue = append(queue, alts...)
				hr.Asserts += res.asserts
				hr.Folded += res.trivial
				hr.Inherited += res.inherited
				hr.Solved += res.solved
				hr.Unknown += res.unknown
				for k, v := range res.reached {
					hr.Reached[k] += v
				}
				switch res.status {
				case "ok":
					hr.Paths++
					if sample != nil {
						hr.samples = append(hr.samples, sample)
					}
				case "assume":
					hr.Assumed++
				case "limit":
					hr.Cut++
					hr.Reasons[cut("bound: "+res.msg, 300)]++
				case "unsupported":
					hr.Unsup++
					hr.Reasons[cut("not encodable: "+res.msg, 400)]++
				}
				if res.sample != nil && len(hr.probes) < 64 {
					hr.probes = append(hr.probes, res.sample)
				}
				var todo []*candidate
				for _, c := range res.violations {
					k := c.Kind + c.Msg
					if tries[k] < 6 && len(tries) < 40 {
						tries[k]++
						todo = append(todo, c)
					}
				}
				mu.Unlock()
				cond.Broadcast()
				for _, c := range todo {
					ok, how := x.rep.confirm(c)
					mu.Lock()
					if ok {
						if hr.confirmed == nil {
							hr.confirmed = &confirmedCex{c, how}
						}
						stop = true
					} else {
						hr.Unconf = append(hr.Unconf, c.Kind+": "+c.Msg+" inputs="+inputsText(c)+" -- "+how)
					}
					mu.Unlock()
					cond.Broadcast()
				}
				if os.Getenv("GOSYM_TRACE") != "" {
					fmt.Fprintf(os.Stderr, "[%d] %s %s %s asserts=%d dec=%s obs=%d\n", w.id, fn.Name(), res.status, cut(res.msg, 600), res.asserts, decText(w.decs), len(w.obs))
				}
			}
		}(w)
	}
	wg.Wait()
	hr.Pending = len(queue)
	hr.Exhausted = len(queue) == 0 && hr.Cut == 0 && hr.Unsup == 0 && hr.confirmed == nil && hr.Unknown == 0
	hr.Decisions, hr.Steps = dec, steps
	hr.WallS = time.Since(t0).Seconds()
	return hr
}

func decText(d []Decision) string {
	var sb strings.Builder
	for _, x := range d {
		sb.WriteByte(x.k)
		if x.k == 'C' || x.k == 'M' || x.k == 'E' || x.k == 'e' {
			fmt.Fprint(&sb, x.v)
		}
	}
	return sb.String()
}

func inputsText(c *candidate) string {
	var p []string
	for _, i := range c.Inputs {
		p = append(p, i.K+":"+i.V)
	}
	return "[" + strings.Join(p, " ") + "]"
}

// validate replays sampled paths natively and compares the observations.
func (x *explorer) validate(hr *HarnessReport) {
	if hr.confirmed != nil || len(hr.samples) == 0 && len(hr.probes) == 0 {
		return
	}
	sort.SliceStable(hr.samples, func(i, j int) bool { return len(hr.samples[i].Inputs) > len(hr.samples[j].Inputs) })
	if len(hr.samples) > 60 {
		hr.samples = hr.samples[:60]
	}
	all := append(append([]*candidate{}, hr.samples...), hr.probes...)
	var jobs []replayJob
	for _, c := range all {
		rep := 1
		if c.MapOrder {
			rep = 60
		}
		jobs = append(jobs, replayJob{c.Harness, c.Inputs, x.rep.tier, rep})
	}
	res, err := x.rep.run(jobs, false, 120*time.Second)
	for i, r := range res {
		c := all[i]
		if r.Status == "assert" || r.Status == "panic" {
			if !r.Desync {
				c.Kind = "native-" + r.Status
				c.Msg = r.Msg
				hr.confirmed = &confirmedCex{c, r.Status + ": " + r.Msg}
				return
			}
			continue
		}
		if c.Kind == "probe" {
			continue
		}
		if r.Desync || r.Status != "ok" {
			hr.Mismatches = append(hr.Mismatches, fmt.Sprintf("%s %s: native %s desync=%v", c.Harness, inputsText(c), r.Status, r.Desync))
			continue
		}
		hr.Validated++
		match := false
		for _, o := range r.Obs {
			if obsEqual(o, c.Obs) {
				match = true
			}
		}
		if !match && !c.MapOrder {
			hr.Mismatches = append(hr.Mismatches, fmt.Sprintf("%s %s: engine %v native %v", c.Harness, inputsText(c), c.Obs, r.Obs))
		}
	}
	if err != nil {
		if len(res) < len(all) {
			c := all[len(res)]
			if strings.Contains(err.Error(), "replay died") && c.Kind != "probe" {
				hr.confirmed = &confirmedCex{c, "the real code crashed: " + err.Error()}
				return
			}
		}
		hr.Unconf = append(hr.Unconf, "validation: "+err.Error())
	}
}

func obsEqual(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] && b[i] != "-" {
			return false
		}
	}
	return true
}
