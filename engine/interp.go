package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type getter func(fr *frame) Value
type instrFn func(fr *frame)

type cblock struct {
	phis   []cphi
	preds  []int
	instrs []instrFn
	term   func(fr *frame) int
}

type cphi struct {
	dst   int
	edges []getter
}

// code is the compiled form of an ssa.Function.
type code struct {
	fn     *ssa.Function
	nregs  int
	blocks []*cblock
	intr   intrinsic
	redir  *ssa.Function
	model  func(*Worker, []Value) (Value, bool) // used only where it answers, on symbolic arguments
	err    string
	rec    int // recover block, -1 when none
	idx    map[ssa.Value]int
}

type deferred struct {
	fn   func() // performs the call
	next *deferred
}

type frame struct {
	w         *Worker
	c         *code
	regs      []Value
	caller    *frame
	result    Value
	defers    []func(fr *frame)
	panicking bool
	panicVal  any
	prev      int
}

type Engine struct {
	prog      *ssa.Program
	codes     sync.Map // *ssa.Function -> *code
	redirects map[string]*ssa.Function
	solver    string
	cur       string
	maxSteps  int64
	sizes     types.Sizes
	rtErr     types.Type // runtime.errorString
	rtypePtr  types.Type
	stubPkg   *ssa.Package
	encoded   sync.Map // function name -> true (functions executed symbolically)

	decodeRune   *ssa.Function
	reflectValue types.Type
	tier         int
	fullPerm     int
	loadTime     time.Duration
	dict         dictionary
	warnMu       sync.Mutex
	warned       map[string]bool
}

func (e *Engine) code(fn *ssa.Function) *code {
	if c, ok := e.codes.Load(fn); ok {
		return c.(*code)
	}
	c := compile(e, fn)
	v, _ := e.codes.LoadOrStore(fn, c)
	return v.(*code)
}

func fnKey(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

// call executes fn.
func (w *Worker) call(fn *ssa.Function, args []Value, env []Value) Value {
	c := w.eng.code(fn)
	if c.intr != nil {
		return c.intr(w, fn, args)
	}
	if c.redir != nil {
		return w.call(c.redir, args, env)
	}
	if c.model != nil {
		if v, ok := c.model(w, args); ok {
			return v
		}
	}
	if c.err != "" {
		w.unsup("%s", c.err)
	}
	if w.initing > 0 && fn.Synthetic == "package initializer" && fn.Pkg != w.initPkg {
		return nil
	}
	if w.depth > 3000 {
		panic(&pathAbort{"limit", "call depth"})
	}
	fr := &frame{w: w, c: c, caller: w.fr, regs: make([]Value, c.nregs), prev: -1}
	copy(fr.regs, args)
	copy(fr.regs[len(fn.Params):], env)
	w.fr = fr
	w.depth++
	fr.run(0)
	w.depth--
	w.fr = fr.caller
	return fr.result
}

func (fr *frame) run(start int) {
	defer func() {
		if fr.prev == -2 { // normal completion
			return
		}
		r := recover()
		if r == nil {
			return
		}
		tp, ok := r.(*TargetPanic)
		if !ok {
			panic(r)
		}
		w := fr.w
		fr.panicking = true
		fr.panicVal = tp
		// unwind to this frame
		d := 0
		for f := fr; f != nil; f = f.caller {
			d++
		}
		w.fr = fr
		w.depth = d
		fr.runDefers()
		if fr.panicking {
			panic(fr.panicVal)
		}
		// recovered
		if fr.c.rec >= 0 {
			fr.prev = -1
			fr.exec(fr.c.rec)
			fr.prev = -2
			return
		}
		if fr.result == nil {
			fr.result = zeroResults(fr.c.fn)
		}
		fr.prev = -2
	}()
	fr.exec(start)
	fr.prev = -2
}

func zeroResults(fn *ssa.Function) Value {
	rs := fn.Signature.Results()
	switch rs.Len() {
	case 0:
		return nil
	case 1:
		return zeroValue(rs.At(0).Type())
	}
	return zeroValue(rs)
}

func (fr *frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				if r := recover(); r != nil {
					if tp, ok := r.(*TargetPanic); ok {
						fr.panicking = true
						fr.panicVal = tp
						fr.w.fr = fr
						return
					}
					panic(r)
				}
			}()
			d(fr)
		}()
	}
	if fr.panicking {
		return
	}
}

func (fr *frame) exec(bi int) {
	w := fr.w
	prev := -1
	for bi >= 0 {
		b := fr.c.blocks[bi]
		if len(b.phis) > 0 {
			e := 0
			for i, p := range b.preds {
				if p == prev {
					e = i
					break
				}
			}
			if len(b.phis) == 1 {
				fr.regs[b.phis[0].dst] = b.phis[0].edges[e](fr)
			} else {
				vals := make([]Value, len(b.phis))
				for i := range b.phis {
					vals[i] = b.phis[i].edges[e](fr)
				}
				for i := range b.phis {
					fr.regs[b.phis[i].dst] = vals[i]
				}
			}
		}
		for _, f := range b.instrs {
			f(fr)
		}
		w.steps += int64(len(b.instrs) + 1)
		if w.ticks++; w.ticks&1023 == 0 && w.initing == 0 && !w.deadline.IsZero() && time.Now().After(w.deadline) {
			panic(&pathAbort{"limit", "time limit reached in " + fr.c.fn.String()})
		}
		if w.steps > w.eng.maxSteps && w.initing == 0 {
			panic(&pathAbort{"limit", "step limit (unwinding bound) reached in " + fr.c.fn.String()})
		}
		prev = bi
		bi = b.term(fr)
	}
}

// compiler state
type comp struct {
	e   *Engine
	c   *code
	fn  *ssa.Function
	idx map[ssa.Value]int
}

func compile(e *Engine, fn *ssa.Function) (c *code) {
	c = &code{fn: fn, rec: -1}
	key := fnKey(fn)
	if r, ok := e.redirects[key]; ok && r != fn {
		c.redir = r
		return c
	}
	if in, ok := intrinsics[key]; ok {
		c.intr = in
		return c
	}
	c.model = symModels[key]
	if len(fn.Blocks) == 0 {
		c.err = "no body and no model for " + key
		return c
	}
	e.encoded.Store(key, true)
	k := &comp{e: e, c: c, fn: fn, idx: map[ssa.Value]int{}}
	for _, p := range fn.Params {
		k.idx[p] = len(k.idx)
	}
	for _, p := range fn.FreeVars {
		k.idx[p] = len(k.idx)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				k.idx[v] = len(k.idx)
			}
		}
	}
	c.nregs = len(k.idx)
	c.idx = k.idx
	defer func() {
		if r := recover(); r != nil {
			if pa, ok := r.(*pathAbort); ok {
				c.err = pa.msg + " in " + key
				return
			}
			panic(r)
		}
	}()
	c.blocks = make([]*cblock, len(fn.Blocks))
	for i, b := range fn.Blocks {
		cb := &cblock{}
		for _, p := range b.Preds {
			cb.preds = append(cb.preds, p.Index)
		}
		for _, in := range b.Instrs {
			if ph, ok := in.(*ssa.Phi); ok {
				cp := cphi{dst: k.idx[ph]}
				for _, ed := range ph.Edges {
					cp.edges = append(cp.edges, k.get(ed))
				}
				cb.phis = append(cb.phis, cp)
				continue
			}
			k.instr(cb, in)
		}
		if cb.term == nil {
			cb.term = func(fr *frame) int { panic("block without terminator") }
		}
		c.blocks[i] = cb
	}
	if fn.Recover != nil {
		c.rec = fn.Recover.Index
	}
	return c
}

func constValue(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return zeroValue(t)
	}
	if tp, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case tp.Info()&types.IsBoolean != 0:
			return mkBool(constant.BoolVal(c.Value))
		case tp.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return Str{s: constant.StringVal(c.Value)}
			}
			r, _ := constant.Int64Val(c.Value)
			return Str{s: string(rune(r))}
		case tp.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(c.Value)
			if tp.Kind() == types.Float32 {
				f32, _ := constant.Float32Val(c.Value)
				return mkConst(32, uint64(math.Float32bits(f32)))
			}
			return mkConst(64, math.Float64bits(f))
		case tp.Info()&types.IsInteger != 0:
			w, _ := basicWidth(tp)
			v := constant.ToInt(c.Value)
			if i, ok := constant.Int64Val(v); ok {
				return mkConst(w, uint64(i))
			}
			u, _ := constant.Uint64Val(v)
			return mkConst(w, u)
		case tp.Kind() == types.UnsafePointer:
			return Ptr{}
		}
	}
	panic(unsupported("constant " + c.String()))
}

func (k *comp) get(v ssa.Value) getter {
	switch x := v.(type) {
	case *ssa.Const:
		val := constValue(x)
		return func(fr *frame) Value { return val }
	case *ssa.Global:
		return func(fr *frame) Value { return Ptr{obj: fr.w.global(x)} }
	case *ssa.Function:
		cl := &Closure{fn: x}
		return func(fr *frame) Value { return cl }
	case *ssa.Builtin:
		cl := &Closure{bi: x}
		return func(fr *frame) Value { return cl }
	}
	i, ok := k.idx[v]
	if !ok {
		panic(unsupported(fmt.Sprintf("operand %T %s", v, v)))
	}
	return func(fr *frame) Value { return fr.regs[i] }
}

var noInit = map[string]bool{"runtime": true, "os": true, "syscall": true, "reflect": true, "time": true, "sync": true, "unsafe": true, "sync/atomic": true, "unique": true, "iter": true}

func skipInit(path string) bool {
	switch path {
	case "internal/strconv", "internal/fmtsort", "internal/itoa":
		return false
	}
	return noInit[path] || strings.HasPrefix(path, "internal/") || strings.HasPrefix(path, "runtime/") || strings.HasPrefix(path, "vendor/")
}

// global returns the object of a package-level variable, initialising its package on first use.
func (w *Worker) global(g *ssa.Global) *Object {
	if o, ok := w.globals[g]; ok {
		return o
	}
	pkg := g.Pkg
	w.initing++
	for _, m := range pkg.Members {
		if gg, ok := m.(*ssa.Global); ok {
			if _, ok := w.globals[gg]; !ok {
				o := w.newZero(gg.Type().(*types.Pointer).Elem(), gg.String())
				w.globals[gg] = o
			}
		}
	}
	w.initing--
	w.initPackage(pkg)
	return w.globals[g]
}

func (w *Worker) initPackage(pkg *ssa.Package) {
	if w.initDone[pkg] {
		return
	}
	w.initDone[pkg] = true
	if skipInit(pkg.Pkg.Path()) {
		return
	}
	f := pkg.Func("init")
	if f == nil {
		return
	}
	savedPkg, savedFr, savedDepth, savedSteps := w.initPkg, w.fr, w.depth, w.steps
	savedFreeze := w.freeze
	w.freeze = 0
	w.initing++
	w.initPkg = pkg
	defer func() {
		w.initing--
		w.initPkg, w.fr, w.depth, w.steps = savedPkg, savedFr, savedDepth, savedSteps
		w.freeze = savedFreeze
		if r := recover(); r != nil {
			if pa, ok := r.(*pathAbort); ok && pa.kind == "unsupported" {
				if strings.HasPrefix(pkg.Pkg.Path(), "github.com/go-andiamo") {
					panic(r)
				}
				w.eng.warn("init of %s incomplete: %s", pkg.Pkg.Path(), pa.msg)
				return
			}
			panic(r)
		}
	}()
	w.depth = 0
	w.call(f, nil, nil)
}

func (w *Worker) throw(msg string) {
	where := ""
	if w.fr != nil {
		where = w.fr.c.fn.String()
	}
	panic(&TargetPanic{v: Iface{t: w.eng.rtErr, v: Str{s: msg}}, where: where})
}

func (w *Worker) load(p Ptr, t types.Type) Value {
	if p.obj == nil {
		w.throw("invalid memory address or nil pointer dereference")
	}
	l := layoutOf(t)
	if p.sym != nil {
		if !l.agg {
			return w.loadSym(p)
		}
		p = w.resolveClass(p, l.n)
	}
	if l.agg {
		a := make(Agg, l.n)
		copy(a, p.obj.slots[p.off:p.off+l.n])
		return a
	}
	return p.obj.slots[p.off]
}

// loadSym reads an element at a symbolic index as an ite chain.
func (w *Worker) loadSym(p Ptr) Value {
	s := p.sym
	vals := make([]*Term, s.n)
	for i := range vals {
		t, ok := p.obj.slots[p.off+i*s.stride].(*Term)
		if !ok {
			q := w.resolveClass(p, 1)
			return q.obj.slots[q.off]
		}
		vals[i] = t
	}
	return w.selectTerm(vals, s.idx)
}

func (w *Worker) selectTerm(vals []*Term, idx *Term) *Term {
	st := w.st
	// runs of equal values, or of constants that count up
	type run struct {
		lo, hi int
		v      *Term
		up     bool
	}
	var runs []run
	for i, v := range vals {
		if n := len(runs) - 1; n >= 0 {
			r := &runs[n]
			if same(r.v, v) && !r.up {
				r.hi = i
				continue
			}
			if v.w > 0 && r.v.isConst() && v.isConst() && v.k == r.v.k+uint64(i-r.lo) && (r.up || r.lo == r.hi) {
				r.hi, r.up = i, true
				continue
			}
		}
		runs = append(runs, run{i, i, v, false})
	}
	val := func(r run) *Term {
		if !r.up {
			return r.v
		}
		x := idx
		if x.w > r.v.w {
			x = st.Trunc(r.v.w, x)
		} else {
			x = st.Zext(r.v.w, x)
		}
		return st.Bin(OpAdd, x, mkConst(r.v.w, r.v.k-uint64(r.lo)))
	}
	conds := make([]*Term, len(runs))
	last := len(runs) - 1
	for i := range runs {
		conds[i] = tTrue
		if i < len(runs)-1 {
			conds[i] = st.Bin(OpUle, idx, mkConst(idx.w, uint64(runs[i].hi)))
			for _, c := range w.pc {
				if c == conds[i] {
					conds[i] = tTrue
				}
			}
		}
		if conds[i] == tTrue {
			last = i
			break
		}
	}
	r := val(runs[last])
	for i := last - 1; i >= 0; i-- {
		r = st.Ite(conds[i], val(runs[i]), r)
	}
	return r
}

func (w *Worker) resolve(p Ptr) Ptr {
	if p.sym == nil {
		return p
	}
	i := int(w.pick(p.sym.idx, 1<<16))
	return Ptr{obj: p.obj, off: p.off + i*p.sym.stride}
}

// resolveClass decides which of the elements of different contents (n slots each) a read at a symbolic index sees.
func (w *Worker) resolveClass(p Ptr, n int) Ptr {
	type class struct {
		at   []int
		cond *Term
	}
	var order []*class
	byKey := map[string]*class{}
	for i := 0; i < p.sym.n; i++ {
		key := ""
		for j := 0; j < n; j++ {
			k, ok := slotKey(p.obj.slots[p.off+i*p.sym.stride+j])
			if !ok {
				k = fmt.Sprintf("#%d", i)
			}
			key += k + "|"
		}
		c := byKey[key]
		if c == nil {
			c = &class{}
			byKey[key] = c
			order = append(order, c)
		}
		c.at = append(c.at, i)
	}
	if len(order) > 64 {
		return w.resolve(p)
	}
	big := order[0]
	for _, c := range order {
		if len(c.at) > len(big.at) {
			big = c
		}
	}
	idx := p.sym.idx
	pick := big
	for _, c := range order {
		if c == big {
			continue
		}
		cond := tFalse
		for i := 0; i < len(c.at); {
			j := i
			for j+1 < len(c.at) && c.at[j+1] == c.at[j]+1 {
				j++
			}
			lo, hi := mkConst(idx.w, uint64(c.at[i])), mkConst(idx.w, uint64(c.at[j]))
			if i == j {
				cond = w.st.Or(cond, w.st.Eq(idx, lo))
			} else {
				cond = w.st.Or(cond, w.st.And(w.st.Bin(OpUle, lo, idx), w.st.Bin(OpUle, idx, hi)))
			}
			i = j + 1
		}
		if w.branch(cond) {
			pick = c
			break
		}
	}
	return Ptr{obj: p.obj, off: p.off + pick.at[0]*p.sym.stride}
}

// slotKey identifies the content of a slot: equal keys are equal contents.
func slotKey(v Value) (string, bool) {
	switch x := v.(type) {
	case nil:
		return "nil", true
	case *Term:
		if x.isConst() {
			return fmt.Sprintf("c%d:%d", x.w, x.k), true
		}
		return fmt.Sprintf("t%d", x.id), true
	case Str:
		if s, ok := x.concrete(); ok {
			return fmt.Sprintf("%q", s), true
		}
	case Slice:
		return fmt.Sprintf("s%p.%d.%d.%d.%d", x.obj, x.off, x.len, x.cap, x.stride), true
	case Ptr:
		if x.sym == nil {
			return fmt.Sprintf("p%p.%d", x.obj, x.off), true
		}
	case *Closure:
		return fmt.Sprintf("f%p", x), true
	case *MapObj:
		return fmt.Sprintf("m%p", x), true
	case Iface:
		if x.t == nil {
			return "inil", true
		}
		if k, ok := slotKey(x.v); ok {
			return "i" + x.t.String() + k, true
		}
	}
	return "", false
}

func (w *Worker) storeTo(p Ptr, t types.Type, v Value) {
	if p.obj == nil {
		w.throw("invalid memory address or nil pointer dereference")
	}
	if p.sym != nil {
		p = w.resolve(p)
	}
	w.touch(p.obj)
	l := layoutOf(t)
	if l.agg {
		copy(p.obj.slots[p.off:p.off+l.n], v.(Agg))
		return
	}
	p.obj.slots[p.off] = v
}

// index resolves an element index with a bounds check.
func (w *Worker) boundsCheck(i *Term, n int) {
	if i.isConst() {
		if int64(i.k) < 0 && i.w == 64 || i.k >= uint64(n) {
			w.throw(fmt.Sprintf("index out of range [%d] with length %d", int64(i.k), n))
		}
		return
	}
	if !w.branch(w.st.Bin(OpUlt, i, mkConst(i.w, uint64(n)))) {
		w.throw("index out of range")
	}
}

func toInt(st *Store, v Value, t types.Type) *Term {
	x := v.(*Term)
	if x.w == 64 {
		return x
	}
	if isSigned(t) {
		return st.Sext(64, x)
	}
	return st.Zext(64, x)
}

func (k *comp) instr(cb *cblock, in ssa.Instruction) {
	add := func(f instrFn) { cb.instrs = append(cb.instrs, f) }
	dst := -1
	if v, ok := in.(ssa.Value); ok {
		dst = k.idx[v]
	}
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		et := x.Type().Underlying().(*types.Pointer).Elem()
		l := layoutOf(et)
		zero := make([]Value, l.n)
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(*pathAbort); !ok {
						panic(r)
					}
					zero = nil
				}
			}()
			fillZero(et, zero)
		}()
		if zero == nil && l.n > 0 {
			msg := "alloc of " + et.String()
			add(func(fr *frame) { fr.w.unsup("%s", msg) })
			return
		}
		what := et.String()
		add(func(fr *frame) {
			o := fr.w.newObj(l.n, what)
			copy(o.slots, zero)
			fr.regs[dst] = Ptr{obj: o}
		})
	case *ssa.BinOp:
		a, b := k.get(x.X), k.get(x.Y)
		op, tx, ty := x.Op, x.X.Type(), x.Y.Type()
		add(func(fr *frame) { fr.regs[dst] = fr.w.binop(op, tx, ty, a(fr), b(fr)) })
	case *ssa.UnOp:
		a := k.get(x.X)
		switch x.Op {
		case token.MUL:
			t := x.Type()
			add(func(fr *frame) { fr.regs[dst] = fr.w.load(a(fr).(Ptr), t) })
		case token.NOT:
			add(func(fr *frame) { fr.regs[dst] = fr.w.st.Not(a(fr).(*Term)) })
		case token.SUB:
			t := x.X.Type()
			add(func(fr *frame) {
				v := a(fr).(*Term)
				if isFloat(t) {
					fr.regs[dst] = fr.w.floatNeg(v)
				} else {
					fr.regs[dst] = fr.w.st.Un(OpNeg, v)
				}
			})
		case token.XOR:
			add(func(fr *frame) { fr.regs[dst] = fr.w.st.Un(OpBNot, a(fr).(*Term)) })
		default:
			panic(unsupported("unop " + x.Op.String()))
		}
	case *ssa.ChangeType:
		a := k.get(x.X)
		add(func(fr *frame) { fr.regs[dst] = a(fr) })
	case *ssa.ChangeInterface:
		a := k.get(x.X)
		add(func(fr *frame) { fr.regs[dst] = a(fr) })
	case *ssa.MakeInterface:
		a := k.get(x.X)
		t := x.X.Type()
		add(func(fr *frame) { fr.regs[dst] = Iface{t, a(fr)} })
	case *ssa.Convert:
		a := k.get(x.X)
		from, to := x.X.Type(), x.Type()
		_, isc := x.X.(*ssa.Const)
		add(func(fr *frame) { fr.regs[dst] = fr.w.convert(from, to, a(fr), isc) })
	case *ssa.MultiConvert:
		a := k.get(x.X)
		from, to := x.X.Type(), x.Type()
		add(func(fr *frame) { fr.regs[dst] = fr.w.convert(from, to, a(fr), false) })
	case *ssa.Extract:
		a := k.get(x.Tuple)
		i := x.Index
		add(func(fr *frame) { fr.regs[dst] = a(fr).(Tuple)[i] })
	case *ssa.Field:
		a := k.get(x.X)
		l := layoutOf(x.X.Type())
		off := l.offs[x.Field]
		fl := layoutOf(x.Type())
		add(func(fr *frame) {
			ag := a(fr).(Agg)
			if fl.agg {
				fr.regs[dst] = ag[off : off+fl.n : off+fl.n]
			} else {
				fr.regs[dst] = ag[off]
			}
		})
	case *ssa.FieldAddr:
		a := k.get(x.X)
		st := x.X.Type().Underlying().(*types.Pointer).Elem()
		off := layoutOf(st).offs[x.Field]
		add(func(fr *frame) {
			p := a(fr).(Ptr)
			if p.obj == nil {
				fr.w.throw("invalid memory address or nil pointer dereference")
			}
			if p.sym != nil {
				p = fr.w.resolve(p)
			}
			fr.regs[dst] = Ptr{obj: p.obj, off: p.off + off}
		})
	case *ssa.IndexAddr:
		a, ix := k.get(x.X), k.get(x.Index)
		it := x.Index.Type()
		var al *layout
		n := -1
		if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			at := pt.Elem().Underlying().(*types.Array)
			n = int(at.Len())
			al = layoutOf(pt.Elem())
		}
		add(func(fr *frame) {
			w := fr.w
			i := toInt(w.st, ix(fr), it)
			var p Ptr
			var cnt, stride int
			switch v := a(fr).(type) {
			case Slice:
				p, cnt, stride = Ptr{obj: v.obj, off: v.off}, v.len, v.stride
			case Ptr:
				if v.obj == nil {
					w.throw("invalid memory address or nil pointer dereference")
				}
				v = w.resolve(v)
				p, cnt, stride = v, n, al.stride
			}
			w.boundsCheck(i, cnt)
			if i.isConst() {
				p.off += int(i.k) * stride
			} else {
				p.sym = &symIndex{i, cnt, stride}
			}
			fr.regs[dst] = p
		})
	case *ssa.Index:
		a, ix := k.get(x.X), k.get(x.Index)
		it := x.Index.Type()
		xt := x.X.Type()
		add(func(fr *frame) {
			w := fr.w
			i := toInt(w.st, ix(fr), it)
			switch v := a(fr).(type) {
			case Str:
				fr.regs[dst] = w.strIndex(v, i)
			case Agg:
				l := layoutOf(xt)
				n := int(xt.Underlying().(*types.Array).Len())
				w.boundsCheck(i, n)
				j := int(w.pick(i, 1<<16))
				el := v[j*l.stride : (j+1)*l.stride]
				if layoutOf(xt.Underlying().(*types.Array).Elem()).agg {
					fr.regs[dst] = Agg(el)
				} else {
					fr.regs[dst] = el[0]
				}
			default:
				w.unsup("index of %T", v)
			}
		})
	case *ssa.Lookup:
		a, ix := k.get(x.X), k.get(x.Index)
		it := x.Index.Type()
		if mt, ok := x.X.Type().Underlying().(*types.Map); ok {
			vt := mt.Elem()
			commaOk := x.CommaOk
			add(func(fr *frame) {
				v, ok := fr.w.mapLookup(a(fr).(*MapObj), ix(fr))
				if !ok {
					v = zeroValue(vt)
				}
				if commaOk {
					fr.regs[dst] = Tuple{v, mkBool(ok)}
				} else {
					fr.regs[dst] = v
				}
			})
		} else {
			add(func(fr *frame) {
				fr.regs[dst] = fr.w.strIndex(a(fr).(Str), toInt(fr.w.st, ix(fr), it))
			})
		}
	case *ssa.MakeMap:
		kt := x.Type().Underlying().(*types.Map).Key()
		add(func(fr *frame) { fr.regs[dst] = fr.w.newMap(kt) })
	case *ssa.MakeSlice:
		ln, cp := k.get(x.Len), k.get(x.Cap)
		lt, ct := x.Len.Type(), x.Cap.Type()
		et := x.Type().Underlying().(*types.Slice).Elem()
		add(func(fr *frame) {
			w := fr.w
			n := int(int64(w.pick(toInt(w.st, ln(fr), lt), 256)))
			c := int(int64(w.pick(toInt(w.st, cp(fr), ct), 256)))
			if n < 0 || c < n {
				w.throw("makeslice: len out of range")
			}
			if c > 1<<22 {
				w.unsup("makeslice of %d", c)
			}
			fr.regs[dst] = w.makeSlice(et, n, c)
		})
	case *ssa.MapUpdate:
		m, kk, v := k.get(x.Map), k.get(x.Key), k.get(x.Value)
		add(func(fr *frame) { fr.w.mapUpdate(m(fr).(*MapObj), kk(fr), v(fr)) })
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		var bs []getter
		for _, b := range x.Bindings {
			bs = append(bs, k.get(b))
		}
		add(func(fr *frame) {
			env := make([]Value, len(bs))
			for i, b := range bs {
				env[i] = b(fr)
			}
			fr.regs[dst] = &Closure{fn: fn, env: env}
		})
	case *ssa.Range:
		a := k.get(x.X)
		add(func(fr *frame) { fr.regs[dst] = fr.w.rangeIter(a(fr)) })
	case *ssa.Next:
		a := k.get(x.Iter)
		tt := x.Type().(*types.Tuple)
		add(func(fr *frame) { fr.regs[dst] = fr.w.nextIter(a(fr).(Native).v, tt) })
	case *ssa.Slice:
		a := k.get(x.X)
		var lo, hi, mx getter
		gi := func(v ssa.Value) getter {
			if v == nil {
				return nil
			}
			g := k.get(v)
			t := v.Type()
			return func(fr *frame) Value { return toInt(fr.w.st, g(fr), t) }
		}
		lo, hi, mx = gi(x.Low), gi(x.High), gi(x.Max)
		var arrN int
		var arrL *layout
		if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			arrN = int(pt.Elem().Underlying().(*types.Array).Len())
			arrL = layoutOf(pt.Elem())
		}
		add(func(fr *frame) {
			w := fr.w
			ev := func(g getter, def int) int {
				if g == nil {
					return def
				}
				return int(int64(w.pick(g(fr).(*Term), 256)))
			}
			switch v := a(fr).(type) {
			case Str:
				l := ev(lo, 0)
				h := ev(hi, v.length())
				if l < 0 || h < l || h > v.length() {
					w.throw(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", l, h, v.length()))
				}
				fr.regs[dst] = v.slice(l, h)
			case Slice:
				l := ev(lo, 0)
				h := ev(hi, v.len)
				m := ev(mx, v.cap)
				if l < 0 || h < l || m < h || m > v.cap {
					w.throw(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", l, h, m, v.cap))
				}
				fr.regs[dst] = Slice{obj: v.obj, off: v.off + l*v.stride, len: h - l, cap: m - l, stride: v.stride}
			case Ptr:
				if v.obj == nil {
					w.throw("invalid memory address or nil pointer dereference")
				}
				v = w.resolve(v)
				l := ev(lo, 0)
				h := ev(hi, arrN)
				m := ev(mx, arrN)
				if l < 0 || h < l || m < h || m > arrN {
					w.throw("slice bounds out of range")
				}
				fr.regs[dst] = Slice{obj: v.obj, off: v.off + l*arrL.stride, len: h - l, cap: m - l, stride: arrL.stride}
			default:
				w.unsup("slice of %T", v)
			}
		})
	case *ssa.SliceToArrayPointer:
		a := k.get(x.X)
		n := int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		add(func(fr *frame) {
			s := a(fr).(Slice)
			if s.len < n {
				fr.w.throw("cannot convert slice to array pointer: length too short")
			}
			fr.regs[dst] = Ptr{obj: s.obj, off: s.off}
		})
	case *ssa.Store:
		p, v := k.get(x.Addr), k.get(x.Val)
		t := x.Val.Type()
		add(func(fr *frame) { fr.w.storeTo(p(fr).(Ptr), t, v(fr)) })
	case *ssa.TypeAssert:
		a := k.get(x.X)
		t := x.AssertedType
		co := x.CommaOk
		add(func(fr *frame) { fr.regs[dst] = fr.w.typeAssert(a(fr), t, co) })
	case *ssa.Call:
		f := k.callPrep(&x.Call)
		add(func(fr *frame) {
			r := f(fr)()
			fr.regs[dst] = r
		})
	case *ssa.Defer:
		f := k.callPrep(&x.Call)
		if x.DeferStack != nil {
			ds := k.get(x.DeferStack)
			add(func(fr *frame) {
				c := f(fr)
				target := ds(fr).(Native).v.(*frame)
				target.defers = append(target.defers, func(*frame) { c() })
			})
			return
		}
		add(func(fr *frame) {
			c := f(fr)
			fr.defers = append(fr.defers, func(*frame) { c() })
		})
	case *ssa.RunDefers:
		add(func(fr *frame) {
			fr.runDefers()
			if fr.panicking {
				panic(fr.panicVal)
			}
		})
	case *ssa.Panic:
		a := k.get(x.X)
		cb.term = func(fr *frame) int {
			panic(&TargetPanic{v: a(fr).(Iface), where: fr.c.fn.String()})
		}
	case *ssa.Go:
		add(func(fr *frame) { fr.w.unsup("go statement") })
	case *ssa.Send, *ssa.Select, *ssa.MakeChan:
		add(func(fr *frame) { fr.w.unsup("channel operation") })
	case *ssa.If:
		c := k.get(x.Cond)
		s := x.Block().Succs
		t, f := s[0].Index, s[1].Index
		cb.term = func(fr *frame) int {
			if fr.w.branch(c(fr).(*Term)) {
				return t
			}
			return f
		}
	case *ssa.Jump:
		n := x.Block().Succs[0].Index
		cb.term = func(fr *frame) int { return n }
	case *ssa.Return:
		var rs []getter
		for _, r := range x.Results {
			rs = append(rs, k.get(r))
		}
		cb.term = func(fr *frame) int {
			switch len(rs) {
			case 0:
			case 1:
				fr.result = rs[0](fr)
			default:
				t := make(Tuple, len(rs))
				for i, r := range rs {
					t[i] = r(fr)
				}
				fr.result = t
			}
			return -1
		}
	default:
		panic(unsupported(fmt.Sprintf("instruction %T", in)))
	}
}

// callPrep evaluates callee and arguments, returning the call thunk.
func (k *comp) callPrep(c *ssa.CallCommon) func(fr *frame) func() Value {
	var args []getter
	for _, a := range c.Args {
		args = append(args, k.get(a))
	}
	evalArgs := func(fr *frame, pre int) []Value {
		vs := make([]Value, pre+len(args))
		for i, a := range args {
			vs[pre+i] = a(fr)
		}
		return vs
	}
	if c.IsInvoke() {
		recv := k.get(c.Value)
		m := c.Method
		return func(fr *frame) func() Value {
			w := fr.w
			iv := recv(fr).(Iface)
			if iv.t == nil {
				w.throw("invalid memory address or nil pointer dereference (nil interface " + m.Name() + ")")
			}
			vs := evalArgs(fr, 1)
			vs[0] = iv.v
			fn := w.findMethod(iv.t, m.Pkg(), m.Name())
			return func() Value { return w.call(fn, vs, nil) }
		}
	}
	switch f := c.Value.(type) {
	case *ssa.Function:
		return func(fr *frame) func() Value {
			vs := evalArgs(fr, 0)
			w := fr.w
			return func() Value { return w.call(f, vs, nil) }
		}
	case *ssa.Builtin:
		name := f.Name()
		var ts []types.Type
		for _, a := range c.Args {
			ts = append(ts, a.Type())
		}
		sig := c.Signature()
		return func(fr *frame) func() Value {
			vs := evalArgs(fr, 0)
			return func() Value { return fr.w.builtin(fr, name, vs, ts, sig) }
		}
	}
	callee := k.get(c.Value)
	return func(fr *frame) func() Value {
		cl, _ := callee(fr).(*Closure)
		vs := evalArgs(fr, 0)
		w := fr.w
		return func() Value { return w.callClosure(cl, vs) }
	}
}

func (w *Worker) callClosure(cl *Closure, vs []Value) Value {
	if cl == nil {
		w.throw("invalid memory address or nil pointer dereference (nil func)")
	}
	if cl.nat != nil {
		return cl.nat(w, vs)
	}
	if cl.bi != nil {
		w.unsup("builtin value %s", cl.bi.Name())
	}
	return w.call(cl.fn, vs, cl.env)
}

func (w *Worker) findMethod(t types.Type, pkg *types.Package, name string) *ssa.Function {
	key := methodKey{t, name}
	if pkg != nil && !token.IsExported(name) {
		key.name = pkg.Path() + "." + name
	}
	if f, ok := w.methods[key]; ok {
		return f
	}
	f := w.eng.lookupMethod(t, pkg, name)
	if f == nil {
		w.unsup("method %s of %s", name, t)
	}
	w.methods[key] = f
	return f
}

func (e *Engine) lookupMethod(t types.Type, pkg *types.Package, name string) *ssa.Function {
	ms := e.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(pkg, name)
	if sel == nil {
		return nil
	}
	return e.prog.MethodValue(sel)
}

func (e *Engine) warn(format string, a ...any) {
	e.warnMu.Lock()
	defer e.warnMu.Unlock()
	if e.warned == nil {
		e.warned = map[string]bool{}
	}
	e.warned[fmt.Sprintf(format, a...)] = true
}

func (e *Engine) warnings() []string {
	e.warnMu.Lock()
	defer e.warnMu.Unlock()
	r := []string{}
	for k := range e.warned {
		r = append(r, cut(k, 300))
	}
	return r
}
