package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Decision is one recorded nondeterministic step of a path.
type Decision struct {
	k byte // 'T','F' branch; 't','f' implied branch; 'E','N' pick; 'e' implied pick; 'C' choice; 'M' map order
	v uint64
}

// Input is one nondeterministic value handed to the harness.
type Input struct {
	Kind  string
	Terms []*Term
	Conc  uint64
	Width uint8
}

// Worker executes paths; it owns its store, solver and package state.
type Worker struct {
	ticks     int
	deadline  time.Time // of the path being run
	id        int
	eng       *Engine
	st        *Store
	sol       *Solver
	globals   map[*ssa.Global]*Object
	initDone  map[*ssa.Package]bool
	initing   int
	asserting bool
	initPkg   *ssa.Package
	methods   map[methodKey]*ssa.Function
	impl      map[implKey]bool

	prefix []Decision
	pos    int
	decs   []Decision
	pc     []*Term
	model  *Model
	atoms  []*Term
	isAtom map[int32]bool

	inputs    []Input
	obs       []obsRec
	steps     int64
	objID     int64
	persID    int64
	freeze    int64
	dirty     map[*Object][]Value
	dirtyMap  map[*MapObj]*MapObj
	depth     int
	mapSched  bool
	alts      []pathJob
	start     []varVal // a model of the path condition at the end of the prefix, or nil
	res       *pathResult
	nondetSeq int
	fr        *frame
	side      map[string]Value // engine side tables (sync.Pool contents, ...)
}

// pathJob is a path to explore: the decisions that lead to it and, when known, input values that take it.
type pathJob struct {
	decs []Decision
	vals []varVal
}

type varVal struct {
	name string
	w    uint8
	v    uint64
}

type obsRec struct {
	tag  string
	data []*Term
}

type methodKey struct {
	t    types.Type
	name string
}
type implKey struct {
	a, b types.Type
}

type pathResult struct {
	status     string // ok, assume, unsupported, limit, violation, panic
	msg        string
	violations []*candidate
	asserts    int
	trivial    int
	solved     int
	inherited  int // decided on the path this one branched off from
	unknown    int
	reached    map[string]int
	sample     *candidate // a solved input vector of a completed path
}

type candidate struct {
	Harness  string     `json:"harness"`
	Msg      string     `json:"message"`
	Kind     string     `json:"kind"`
	Inputs   []cexInput `json:"inputs"`
	MapOrder bool       `json:"map_order"`
	Obs      []string   `json:"observed,omitempty"`
	Site     string     `json:"site,omitempty"`
}

type cexInput struct {
	K string `json:"k"`
	V string `json:"v"`
}

func newWorker(id int, eng *Engine) *Worker {
	w := &Worker{id: id, eng: eng, globals: map[*ssa.Global]*Object{}, initDone: map[*ssa.Package]bool{}, methods: map[methodKey]*ssa.Function{}, impl: map[implKey]bool{}}
	w.st = newStore()
	w.sol = newSolver(eng.solver)
	w.dirty = map[*Object][]Value{}
	w.dirtyMap = map[*MapObj]*MapObj{}
	return w
}

func (w *Worker) unsup(format string, a ...any) {
	where := ""
	for f := w.fr; f != nil && len(where) < 300; f = f.caller {
		where += " < " + f.c.fn.String()
	}
	panic(unsupported(fmt.Sprintf(format, a...) + where))
}

func (w *Worker) newObj(n int, what string) *Object {
	o := &Object{slots: make([]Value, n), what: what}
	w.stamp(o)
	return o
}

func (w *Worker) stamp(o *Object) {
	if w.initing > 0 {
		w.persID--
		o.id = w.persID
		o.persist = true
	} else {
		w.objID++
		o.id = w.objID
	}
}

func (w *Worker) newZero(t types.Type, what string) *Object {
	o := w.newObj(layoutOf(t).n, what)
	fillZero(t, o.slots)
	return o
}

func (w *Worker) newMap(keyT types.Type) *MapObj {
	m := &MapObj{idx: map[string]*mapEntry{}, keyT: keyT}
	if w.initing > 0 {
		w.persID--
		m.id = w.persID
		m.persist = true
	} else {
		w.objID++
		m.id = w.objID
	}
	return m
}

// touch prepares an object for a write.
func (w *Worker) touch(o *Object) {
	if o.persist && w.initing == 0 {
		if _, ok := w.dirty[o]; !ok {
			w.dirty[o] = append([]Value(nil), o.slots...)
		}
	}
	if w.freeze > 0 && o.id <= w.freeze && w.initing == 0 {
		w.sharedWrite(o.what)
	}
}

func (w *Worker) touchMap(m *MapObj) {
	if m.persist && w.initing == 0 {
		if _, ok := w.dirtyMap[m]; !ok {
			w.dirtyMap[m] = m.clone()
		}
	}
	if w.freeze > 0 && m.id <= w.freeze && w.initing == 0 {
		w.sharedWrite("map")
	}
}

var slowQuery = func() time.Duration {
	if d, err := time.ParseDuration(os.Getenv("GOSYM_SLOW")); err == nil {
		return d
	}
	return time.Second
}()

// where names the functions being executed, innermost first.
func (w *Worker) where() string {
	var out []string
	for f := w.fr; f != nil && len(out) < 5; f = f.caller {
		out = append(out, f.c.fn.String())
	}
	return strings.Join(out, " < ")
}

func (w *Worker) sharedWrite(what string) {
	site := ""
	for f := w.fr; f != nil; f = f.caller {
		site = f.c.fn.String()
		if !strings.HasPrefix(site, "sync.") {
			break
		}
	}
	key := "shared:" + site
	for _, v := range w.res.violations {
		if v.Site == key {
			return
		}
	}
	w.report("sharedwrite", "a store to state shared between concurrent renders ("+what+") in "+site, key)
}

func (m *MapObj) clone() *MapObj {
	c := &MapObj{idx: make(map[string]*mapEntry, len(m.idx)), symKeys: m.symKeys, live: m.live}
	for _, e := range m.entries {
		ne := &mapEntry{e.k, e.v, e.dead}
		c.entries = append(c.entries, ne)
	}
	return c
}

func (w *Worker) undo() {
	for o, s := range w.dirty {
		o.slots = s
		delete(w.dirty, o)
	}
	for m, c := range w.dirtyMap {
		m.entries = c.entries
		m.symKeys = c.symKeys
		m.live = c.live
		m.idx = map[string]*mapEntry{}
		for _, e := range m.entries {
			if !e.dead {
				if ks, ok := concKey(e.k); ok {
					m.idx[ks] = e
				}
			}
		}
		delete(w.dirtyMap, m)
	}
}

// ---- decisions ----

func (w *Worker) addPC(c *Term) {
	if c.isConst() {
		return
	}
	w.pc = append(w.pc, c)
}

func (w *Worker) next() (Decision, bool) {
	if w.pos < len(w.prefix) {
		d := w.prefix[w.pos]
		w.pos++
		w.decs = append(w.decs, d)
		if d.k != 'C' && d.k != 'M' {
			w.model = nil // a model found earlier on this path need not satisfy the constraint now added
		}
		if w.pos == len(w.prefix) {
			w.resume()
		}
		return d, true
	}
	return Decision{}, false
}

// resume takes up the values known to lead to the end of the prefix.
func (w *Worker) resume() {
	if w.start == nil {
		return
	}
	w.model = &Model{vals: map[int32]uint64{}, memo: map[int32]uint64{}}
	for _, v := range w.start {
		w.model.vals[w.st.Var(v.name, v.w).id] = v.v
	}
}

func (w *Worker) alt(d Decision, m *Model) {
	p := make([]Decision, len(w.decs)+1)
	copy(p, w.decs)
	p[len(w.decs)] = d
	j := pathJob{decs: p}
	if m != nil {
		j.vals = make([]varVal, 0, len(w.atoms))
		for _, a := range w.atoms {
			if v, ok := m.vals[a.id]; ok && a.op == OpVar {
				j.vals = append(j.vals, varVal{a.name, a.w, v})
			}
		}
	}
	w.alts = append(w.alts, j)
}

// assumed adds a constraint on a new input that the given value satisfies.
func (w *Worker) assumed(c, v *Term, k uint64) {
	w.addPC(c)
	if w.model != nil {
		m := &Model{vals: map[int32]uint64{v.id: k}, memo: map[int32]uint64{}}
		for i, x := range w.model.vals {
			if i != v.id {
				m.vals[i] = x
			}
		}
		w.model = m
	}
}

func (w *Worker) check(extra *Term) (SatResult, *Model) {
	return w.sol.check(w.pc, extra, w.atoms)
}

// slice returns the conjuncts of the path condition that share variables with c, directly or through others.
// The rest is satisfiable by itself (every path condition is) and independent of c.
func (w *Worker) slice(c *Term) (conj []*Term, vars map[int32]*Term) {
	vars = map[int32]*Term{}
	for _, v := range w.st.varsOf(c) {
		vars[v.id] = v
	}
	used := make([]bool, len(w.pc))
	for changed := true; changed; {
		changed = false
		for i, p := range w.pc {
			if used[i] {
				continue
			}
			vs := w.st.varsOf(p)
			hit := false
			for _, v := range vs {
				if vars[v.id] != nil {
					hit = true
					break
				}
			}
			if hit {
				used[i], changed = true, true
				for _, v := range vs {
					vars[v.id] = v
				}
			}
		}
	}
	for i, u := range used {
		if u {
			conj = append(conj, w.pc[i])
		}
	}
	return
}

// feasible decides pc ∧ c through its slice, with cached verdicts; the model is complete for the path or nil.
func (w *Worker) feasible(c *Term) (SatResult, *Model) {
	conj, vars := w.slice(c)
	ids := make([]int, 0, len(conj))
	for _, p := range conj {
		ids = append(ids, int(p.id))
	}
	sort.Ints(ids)
	key := make([]byte, 0, 4*len(ids)+4)
	for _, i := range ids {
		key = append(key, byte(i), byte(i>>8), byte(i>>16), byte(i>>24))
	}
	key = append(key, byte(c.id), byte(c.id>>8), byte(c.id>>16), byte(c.id>>24))
	e, ok := w.st.verdicts[string(key)]
	if !ok {
		var atoms []*Term
		for _, v := range vars {
			if v != ufVar {
				atoms = append(atoms, v)
			}
		}
		sort.Slice(atoms, func(i, j int) bool { return atoms[i].id < atoms[j].id })
		t0 := time.Now()
		var r SatResult
		var m *Model
		if m = w.nearby(conj, c); m != nil {
			r = Sat
			w.sol.tabled++
		} else {
			r, m = w.sol.check(conj, c, atoms)
		}
		if d := time.Since(t0); d > slowQuery && os.Getenv("GOSYM_DEBUG") != "" {
			fmt.Fprintf(os.Stderr, "slow query %.1fs r=%d conj=%d vars=%d in %s: %s\n", d.Seconds(), r, len(conj), len(vars), w.where(), c.show(12))
		}
		e = verdict{r: r}
		if m != nil {
			e.vals = map[int32]uint64{}
			for _, a := range atoms {
				e.vals[a.id] = m.vals[a.id]
			}
		}
		if len(w.st.verdicts) > 300000 {
			w.st.verdicts = map[string]verdict{}
		}
		if r != Unknown {
			w.st.verdicts[string(key)] = e
		}
	} else {
		w.sol.cached++
	}
	if e.r != Sat || c.uf {
		return e.r, nil
	}
	if w.model == nil && len(conj) < len(w.pc) {
		return Sat, nil
	}
	m := &Model{vals: map[int32]uint64{}, memo: map[int32]uint64{}}
	if w.model != nil {
		for k, v := range w.model.vals {
			m.vals[k] = v
		}
	}
	for k, v := range e.vals {
		m.vals[k] = v
	}
	return Sat, m
}

// nearby looks for values satisfying the conjuncts and c that differ from the current ones in one byte only.
func (w *Worker) nearby(conj []*Term, c *Term) *Model {
	if w.model == nil || w.asserting || c.uf {
		return nil
	}
	for _, p := range conj {
		if p.uf {
			return nil
		}
	}
	for _, v := range w.st.varsOf(c) {
		if v.w != 8 {
			continue
		}
	next:
		for k := uint64(0); k < 256; k++ {
			m := &Model{vals: map[int32]uint64{}, memo: map[int32]uint64{}}
			for i, x := range w.model.vals {
				m.vals[i] = x
			}
			m.vals[v.id] = k
			if x, ok := m.eval(c); !ok || x == 0 {
				continue
			}
			for _, p := range conj {
				if x, ok := m.eval(p); !ok || x == 0 {
					continue next
				}
			}
			return m
		}
	}
	return nil
}

// domain is the set of values left to a byte by the constraints on it alone; joint tells whether others relate it to
// other variables. ok is false when a constraint cannot be tabulated.
func (w *Worker) domain(v *Term) (tab [4]uint64, joint, ok bool) {
	tab = [4]uint64{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}
	for _, p := range w.pc {
		vs := w.st.varsOf(p)
		hit := false
		for _, x := range vs {
			hit = hit || x == v
		}
		if !hit {
			continue
		}
		if len(vs) > 1 || p.uf {
			joint = true
			continue
		}
		t, ok := w.st.table(p, v)
		if !ok {
			return tab, joint, false
		}
		for i := range tab {
			tab[i] &= t[i]
		}
	}
	return tab, joint, true
}

// refuted tells whether c contradicts the domains of single bytes; false says nothing.
func (w *Worker) refuted(c *Term, neg bool, depth int) bool {
	switch {
	case c.isConst():
		return (c.k == 1) == neg
	case c.uf || depth > 40:
		return false
	case c.op == OpNot:
		return w.refuted(c.args[0], !neg, depth+1)
	}
	if vs := w.st.varsOf(c); len(vs) == 1 {
		if vs[0] == ufVar || vs[0].w != 8 {
			return false
		}
		tab, ok := w.st.table(c, vs[0])
		if !ok {
			return false
		}
		dom, _, ok := w.domain(vs[0])
		if !ok {
			return false
		}
		for i := range tab {
			t := tab[i]
			if neg {
				t = ^t
			}
			if t&dom[i] != 0 {
				return false
			}
		}
		return true
	}
	switch {
	case c.op == OpAnd && !neg, c.op == OpOr && neg:
		return w.refuted(c.args[0], neg, depth+1) || w.refuted(c.args[1], neg, depth+1)
	case c.op == OpAnd, c.op == OpOr:
		return w.refuted(c.args[0], neg, depth+1) && w.refuted(c.args[1], neg, depth+1)
	}
	return false
}

// branchFeasible decides the feasibility of a branch: where single bytes decide it, by the truth tables of the terms over
// that byte, otherwise by the solver.
func (w *Worker) branchFeasible(c *Term) (SatResult, *Model) {
	if c.uf {
		return w.feasible(c)
	}
	if w.refuted(c, false, 0) {
		w.sol.tabled++
		return Unsat, nil
	}
	vs := w.st.varsOf(c)
	if len(vs) != 1 || vs[0] == ufVar || vs[0].w != 8 {
		return w.feasible(c)
	}
	v := vs[0]
	tab, ok := w.st.table(c, v)
	if !ok {
		return w.feasible(c)
	}
	dom, joint, ok := w.domain(v)
	if !ok || joint {
		return w.feasible(c)
	}
	for i := range tab {
		tab[i] &= dom[i]
	}
	w.sol.tabled++
	for k := 0; k < 256; k++ {
		if tab[k>>6]>>(k&63)&1 == 0 {
			continue
		}
		if w.model == nil && len(w.pc) > 0 {
			return Sat, nil
		}
		m := &Model{vals: map[int32]uint64{}, memo: map[int32]uint64{}}
		if w.model != nil {
			for k, x := range w.model.vals {
				m.vals[k] = x
			}
		}
		m.vals[v.id] = uint64(k)
		return Sat, m
	}
	return Unsat, nil
}

// table is the truth table of a condition over one byte.
func (s *Store) table(c, v *Term) ([4]uint64, bool) {
	if t, ok := s.tables[c.id]; ok {
		return t, true
	}
	ms := s.byteModels[v.id]
	if ms == nil || len(ms[0].memo) > 20000 {
		ms = make([]*Model, 256)
		for i := range ms {
			ms[i] = &Model{vals: map[int32]uint64{v.id: uint64(i)}, memo: map[int32]uint64{}}
		}
		s.byteModels[v.id] = ms
	}
	var t [4]uint64
	for i, m := range ms {
		k, ok := m.eval(c)
		if !ok {
			return t, false
		}
		t[i>>6] |= (k & 1) << (i & 63)
	}
	s.tables[c.id] = t
	return t, true
}

func (w *Worker) noteAtom(t *Term) {
	if !w.isAtom[t.id] {
		w.isAtom[t.id] = true
		w.atoms = append(w.atoms, t)
	}
}

// branch decides a condition, forking when both sides are feasible.
func (w *Worker) branch(c *Term) bool {
	if c.isConst() {
		return c.k == 1
	}
	if w.initing > 0 {
		w.unsup("symbolic branch during package initialisation")
	}
	if d, ok := w.next(); ok {
		switch d.k {
		case 'T':
			w.addPC(c)
			return true
		case 'F':
			w.addPC(w.st.Not(c))
			return false
		case 't':
			return true
		case 'f':
			return false
		}
		panic(fmt.Sprintf("decision mismatch: branch got %c", d.k))
	}
	if w.model != nil && os.Getenv("GOSYM_CHK") != "" {
		for i, p := range w.pc {
			if v, ok := w.model.eval(p); ok && v == 0 {
				panic(fmt.Sprintf("model violates pc %d of %d: %v; decs %s prefix %d vals %v", i, len(w.pc), p.op, decText(w.decs), len(w.prefix), w.model.vals))
			}
		}
	}
	nc := w.st.Not(c)
	var ft, ff SatResult = Unknown, Unknown
	var mt, mf *Model
	if w.model != nil {
		if v, ok := w.model.eval(c); ok {
			if v == 1 {
				ft, mt = Sat, w.model
			} else {
				ff, mf = Sat, w.model
			}
		}
	}
	if ft == Unknown {
		ft, mt = w.branchFeasible(c)
	}
	if ff == Unknown {
		if ft == Unsat {
			ff = Sat // pc is satisfiable by construction
		} else {
			ff, mf = w.branchFeasible(nc)
		}
	}
	if ft == Unknown || ff == Unknown {
		w.res.unknown++
		if os.Getenv("GOSYM_DEBUG") != "" {
			fmt.Fprintf(os.Stderr, "unknown at fork: %v %v pc=%d\n", ft, ff, len(w.pc))
		}
	}
	switch {
	case ft == Unsat:
		w.decs = append(w.decs, Decision{k: 'f'})
		if mf != nil {
			w.model = mf
		}
		return false
	case ff == Unsat:
		w.decs = append(w.decs, Decision{k: 't'})
		if mt != nil {
			w.model = mt
		}
		return true
	}
	if w.model != nil && mt != w.model && mf == w.model {
		// keep the side the current model takes
		w.alt(Decision{k: 'T'}, mt)
		w.decs = append(w.decs, Decision{k: 'F'})
		w.addPC(nc)
		return false
	}
	w.alt(Decision{k: 'F'}, mf)
	w.decs = append(w.decs, Decision{k: 'T'})
	w.addPC(c)
	w.model = mt
	return true
}

// pick concretises a term, forking over its feasible values.
func (w *Worker) pick(t *Term, limit int) uint64 {
	if t.isConst() {
		return t.k
	}
	if w.initing > 0 {
		w.unsup("symbolic value during package initialisation")
	}
	for n := 0; ; n++ {
		if n > limit {
			panic(&pathAbort{"limit", fmt.Sprintf("more than %d values for one concretised term", limit)})
		}
		if d, ok := w.next(); ok {
			eq := w.st.Eq(t, mkConst(t.w, d.v))
			switch d.k {
			case 'E':
				w.addPC(eq)
				return d.v
			case 'e':
				return d.v
			case 'N':
				w.addPC(w.st.Not(eq))
				continue
			}
			panic(fmt.Sprintf("decision mismatch: pick got %c", d.k))
		}
		m := w.model
		var v uint64
		ok := false
		if m != nil {
			v, ok = m.eval(t)
		}
		if !ok {
			if t.uf || t.op == OpUF {
				w.noteTermAtoms(t)
			}
			r, mm := w.check(nil)
			if r != Sat {
				panic(&pathAbort{"limit", "solver could not produce a value"})
			}
			m = mm
			v, ok = m.eval(t)
			if !ok {
				w.unsup("no value for term")
			}
			w.model = m
		}
		eq := w.st.Eq(t, mkConst(t.w, v))
		r, mn := w.branchFeasible(w.st.Not(eq))
		if r == Unsat {
			w.decs = append(w.decs, Decision{'e', v})
			return v
		}
		w.alt(Decision{'N', v}, mn)
		w.decs = append(w.decs, Decision{'E', v})
		w.addPC(eq)
		return v
	}
}

func (w *Worker) noteTermAtoms(t *Term) {
	if t.op == OpUF || t.op == OpVar {
		w.noteAtom(t)
	}
	for _, a := range t.args {
		w.noteTermAtoms(a)
	}
}

// choice forks over 0..n-1 without a solver call.
func (w *Worker) choice(n int, kind byte) int {
	if n <= 1 {
		return 0
	}
	if d, ok := w.next(); ok {
		if d.k != kind {
			panic(fmt.Sprintf("decision mismatch: choice got %c want %c", d.k, kind))
		}
		return int(d.v)
	}
	for i := n - 1; i >= 1; i-- {
		w.alt(Decision{kind, uint64(i)}, w.model)
	}
	w.decs = append(w.decs, Decision{kind, 0})
	return 0
}

// ---- reporting ----

func (w *Worker) concretize(m *Model) []cexInput {
	var out []cexInput
	for _, in := range w.inputs {
		if in.Terms == nil {
			out = append(out, cexInput{in.Kind, fmt.Sprint(in.Conc)})
			continue
		}
		if in.Kind == "string" {
			s := ""
			for _, t := range in.Terms {
				v, _ := m.eval(t)
				s += fmt.Sprintf("%02x", v)
			}
			out = append(out, cexInput{in.Kind, s})
			continue
		}
		v, _ := m.eval(in.Terms[0])
		if in.Kind == "int" {
			out = append(out, cexInput{in.Kind, fmt.Sprint(sx(v, in.Width))})
		} else {
			out = append(out, cexInput{in.Kind, fmt.Sprint(v)})
		}
	}
	return out
}

func (w *Worker) usedMapOrder() bool {
	for _, d := range w.decs {
		if d.k == 'M' {
			return true
		}
	}
	return false
}

func (w *Worker) anyModel() *Model {
	r, m := w.check(nil)
	if r != Sat {
		return nil
	}
	return m
}

// report records a candidate violation on the current path.
func (w *Worker) report(kind, msg, site string) {
	m := w.anyModel()
	if m == nil {
		w.res.unknown++
		if os.Getenv("GOSYM_DEBUG") != "" {
			fmt.Fprintf(os.Stderr, "unknown at report: %s %s\n", kind, msg)
		}
		return
	}
	w.reportModel(kind, msg, site, m)
}

func (w *Worker) reportModel(kind, msg, site string, m *Model) {
	w.res.violations = append(w.res.violations, &candidate{Harness: w.eng.cur, Msg: msg, Kind: kind, Inputs: w.concretize(m), MapOrder: w.usedMapOrder(), Site: site})
}

// assertTerm checks a property assertion: solver verdict over every value of the path.
func (w *Worker) assertTerm(c *Term, msg string) {
	w.res.asserts++
	if c.isConst() {
		if c.k == 1 {
			w.res.trivial++
			return
		}
		w.report("assert", msg, "")
		panic(&pathAbort{"violation", msg})
	}
	if w.pos < len(w.prefix) {
		// decided on the path this one branched off from, in the same state
		w.res.inherited++
		return
	}
	nc := w.st.Not(c)
	if c.uf {
		w.noteTermAtoms(c)
	}
	w.asserting = true
	r, m := w.feasible(nc)
	w.asserting = false
	if r == Sat {
		r, m = w.check(nc)
	}
	switch r {
	case Unsat:
		w.res.solved++
		return // the path condition implies c
	case Sat:
		w.reportModel("assert", msg, "", m)
		panic(&pathAbort{"violation", msg})
	default:
		w.res.unknown++
	}
	w.addPC(c)
	w.model = nil
}

// runPath executes the harness once along prefix.
func (w *Worker) runPath(fn *ssa.Function, job pathJob) (res *pathResult) {
	w.prefix, w.pos, w.start = job.decs, 0, job.vals
	w.decs = w.decs[:0]
	w.pc = w.pc[:0]
	w.model = nil
	w.atoms = nil
	w.isAtom = map[int32]bool{}
	w.inputs = nil
	w.obs = nil
	w.steps = 0
	w.objID = 1
	w.freeze = 0
	w.depth = 0
	w.alts = nil
	w.nondetSeq = 0
	w.fr = nil
	w.mapSched = true
	w.side = map[string]Value{}
	if len(w.st.m) > 300000 {
		w.st = newStore()
		w.sol.close()
		w.sol.start()
	}
	w.sol.recycle()
	if len(w.prefix) == 0 {
		w.model = &Model{vals: map[int32]uint64{}, memo: map[int32]uint64{}}
	}
	res = &pathResult{reached: map[string]int{}}
	w.res = res
	defer w.undo()
	defer func() {
		if r := recover(); r != nil {
			w.initing = 0
			switch p := r.(type) {
			case *pathAbort:
				res.status, res.msg = p.kind, p.msg
				if p.kind == "unsupported" || p.kind == "limit" {
					if m := w.anyModel(); m != nil {
						res.sample = &candidate{Harness: w.eng.cur, Kind: "probe", Msg: p.msg, Inputs: w.concretize(m), MapOrder: w.usedMapOrder()}
					}
				}
			case *TargetPanic:
				res.status = "panic"
				res.msg = describe(p.v) + " at " + p.where
				w.report("panic", "unexpected panic: "+res.msg, "")
			default:
				if os.Getenv("GOSYM_DEBUG") != "" {
					panic(r)
				}
				res.status, res.msg = "unsupported", fmt.Sprintf("engine: %v", r)
				for f := w.fr; f != nil && len(res.msg) < 500; f = f.caller {
					res.msg += " < " + f.c.fn.String()
				}
			}
		}
	}()
	w.call(fn, nil, nil)
	res.status = "ok"
	return res
}

// sampleInputs solves the path for one input vector with its observations.
func (w *Worker) sampleInputs() *candidate {
	r, m := w.check(nil)
	if r != Sat {
		return nil
	}
	c := &candidate{Harness: w.eng.cur, Kind: "sample", Inputs: w.concretize(m), MapOrder: w.usedMapOrder()}
	for _, o := range w.obs {
		s := o.tag + "="
		for _, t := range o.data {
			v, ok := m.eval(t)
			if !ok || t.uf {
				s = "-"
				break
			}
			s += fmt.Sprintf("%02x", v)
		}
		c.Obs = append(c.Obs, s)
	}
	return c
}
