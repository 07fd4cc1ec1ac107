package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(w *Worker, fn *ssa.Function, args []Value) Value

var intrinsics = map[string]intrinsic{}

func reg(name string, f func(w *Worker, a []Value) Value) {
	intrinsics[name] = func(w *Worker, fn *ssa.Function, args []Value) Value { return f(w, args) }
}

func (w *Worker) concStr(v Value, what string) string {
	s, ok := v.(Str).concrete()
	if !ok {
		w.unsup("symbolic string for %s", what)
	}
	return s
}

func (w *Worker) concInt(v Value) int { return int(int64(w.pick(v.(*Term), 4096))) }

func (w *Worker) seqTerms(v Value) []*Term {
	switch x := v.(type) {
	case Str:
		return x.terms()
	case Slice:
		return w.sliceTerms(x)
	}
	w.unsup("byte sequence %T", v)
	return nil
}

func (w *Worker) seqStr(v Value) Str {
	switch x := v.(type) {
	case Str:
		return x
	case Slice:
		return w.sliceStr(x)
	}
	w.unsup("byte sequence %T", v)
	return Str{}
}

func (w *Worker) index(a, sub Str) int {
	n := sub.length()
	for i := 0; i+n <= a.length(); i++ {
		if w.branch(w.strEq(a.slice(i, i+n), sub)) {
			return i
		}
	}
	return -1
}

func (w *Worker) lastIndex(a, sub Str) int {
	n := sub.length()
	for i := a.length() - n; i >= 0; i-- {
		if w.branch(w.strEq(a.slice(i, i+n), sub)) {
			return i
		}
	}
	return -1
}

func byteStr(t *Term) Str { return mkStr([]*Term{t}) }

func (w *Worker) fresh(width uint8) *Term {
	w.nondetSeq++
	// names are per path position, so hash-consing keeps them shared between paths
	return w.st.Var(fmt.Sprintf("n%d_%d", w.nondetSeq, width), width)
}

func (w *Worker) scalarInput(kind string, width uint8) *Term {
	t := w.fresh(width)
	w.noteAtom(t)
	w.inputs = append(w.inputs, Input{Kind: kind, Terms: []*Term{t}, Width: width})
	return t
}

func (w *Worker) strInput(minL, maxL int) []*Term {
	n := minL + w.choice(maxL-minL+1, 'C')
	b := make([]*Term, n)
	for i := range b {
		b[i] = w.fresh(8)
		w.noteAtom(b[i])
	}
	in := Input{Kind: "string", Terms: b, Width: 8}
	if b == nil || n == 0 {
		in.Terms = []*Term{}
	}
	w.inputs = append(w.inputs, in)
	return b
}

const symPkg = "aitchverif/sym."

func init() {
	// ---- harness API ----
	reg(symPkg+"Bool", func(w *Worker, a []Value) Value { return w.scalarInput("bool", 0) })
	for _, k := range []struct {
		n string
		w uint8
	}{{"Byte", 8}, {"Int8", 8}, {"Int16", 16}, {"Int32", 32}, {"Int64", 64}, {"Uint16", 16}, {"Uint32", 32}, {"Uint64", 64}, {"Float32", 32}, {"Float64", 64}} {
		kind := "uint"
		if strings.HasPrefix(k.n, "Int") {
			kind = "int"
		}
		reg(symPkg+k.n, func(w *Worker, a []Value) Value { return w.scalarInput(kind, k.w) })
	}
	reg(symPkg+"Int", func(w *Worker, a []Value) Value {
		t := w.scalarInput("int", 64)
		c := w.st.And(w.st.Bin(OpSle, a[0].(*Term), t), w.st.Bin(OpSle, t, a[1].(*Term)))
		w.assumed(c, t, a[0].(*Term).k)
		if !a[0].(*Term).isConst() || !a[1].(*Term).isConst() {
			w.model = nil
		}
		return t
	})
	reg(symPkg+"String", func(w *Worker, a []Value) Value {
		return mkStr(w.strInput(w.concInt(a[0]), w.concInt(a[1])))
	})
	reg(symPkg+"Bytes", func(w *Worker, a []Value) Value {
		b := w.strInput(w.concInt(a[0]), w.concInt(a[1]))
		return w.bytesSlice(b, len(b))
	})
	reg(symPkg+"StringOf", func(w *Worker, a []Value) Value {
		alpha := w.concStr(a[2], "alphabet")
		b := w.strInput(w.concInt(a[0]), w.concInt(a[1]))
		for _, t := range b {
			c := tFalse
			for i := 0; i < len(alpha); i++ {
				c = w.st.Or(c, w.st.Eq(t, mkConst(8, uint64(alpha[i]))))
			}
			w.assumed(c, t, uint64(alpha[0]))
		}
		return mkStr(b)
	})
	reg(symPkg+"Choice", func(w *Worker, a []Value) Value {
		n := w.concInt(a[0])
		i := w.choice(n, 'C')
		w.inputs = append(w.inputs, Input{Kind: "choice", Conc: uint64(i)})
		return mkInt(i)
	})
	word := func(w *Worker, ws []wordShape) Value {
		if len(ws) == 0 {
			panic(&pathAbort{"assume", ""})
		}
		ww := ws[w.choice(len(ws), 'C')]
		b := []*Term{}
		for i := 0; i < len(ww.pre); i++ {
			b = append(b, mkConst(8, uint64(ww.pre[i])))
		}
		if ww.mid {
			t := w.fresh(8)
			w.noteAtom(t)
			b = append(b, t)
		}
		for i := 0; i < len(ww.post); i++ {
			b = append(b, mkConst(8, uint64(ww.post[i])))
		}
		w.inputs = append(w.inputs, Input{Kind: "string", Terms: b, Width: 8})
		return mkStr(b)
	}
	reg(symPkg+"Word", func(w *Worker, a []Value) Value { return word(w, w.eng.dict.words) })
	reg(symPkg+"Near", func(w *Worker, a []Value) Value { return word(w, w.eng.dict.words[:w.eng.dict.near]) })
	reg(symPkg+"Size", func(w *Worker, a []Value) Value {
		max := w.concInt(a[0])
		var of []int
		for _, t := range w.sliceTerms(a[1].(Slice)) {
			of = append(of, w.concInt(t))
		}
		fixed := map[int]bool{}
		for _, n := range of {
			fixed[n] = true
		}
		for _, n := range w.eng.dict.sizes {
			if n <= max && !fixed[n] {
				of = append(of, n)
			}
		}
		if len(of) == 0 {
			panic(&pathAbort{"assume", ""})
		}
		n := of[w.choice(len(of), 'C')]
		w.inputs = append(w.inputs, Input{Kind: "int", Conc: uint64(n)})
		return mkInt(n)
	})
	reg(symPkg+"Tier", func(w *Worker, a []Value) Value { return mkInt(w.eng.tier) })
	reg(symPkg+"Symbolic", func(w *Worker, a []Value) Value { return tTrue })
	reg(symPkg+"Assume", func(w *Worker, a []Value) Value {
		c := a[0].(*Term)
		if c.isConst() {
			if c.k == 0 {
				panic(&pathAbort{"assume", ""})
			}
			return nil
		}
		if w.pos < len(w.prefix) {
			w.addPC(c)
			w.model = nil
			return nil
		}
		if w.model != nil {
			if v, ok := w.model.eval(c); ok && v == 1 {
				w.addPC(c)
				return nil
			}
		}
		r, m := w.branchFeasible(c)
		if r == Unsat {
			panic(&pathAbort{"assume", ""})
		}
		w.addPC(c)
		w.model = m
		return nil
	})
	reg(symPkg+"Assert", func(w *Worker, a []Value) Value {
		w.assertTerm(a[0].(*Term), w.msgStr(a[1]))
		return nil
	})
	reg(symPkg+"Fail", func(w *Worker, a []Value) Value {
		w.assertTerm(tFalse, w.msgStr(a[0]))
		return nil
	})
	reg(symPkg+"Reach", func(w *Worker, a []Value) Value {
		w.res.reached[w.concStr(a[0], "reach label")]++
		return nil
	})
	reg(symPkg+"Observe", func(w *Worker, a []Value) Value {
		w.obs = append(w.obs, obsRec{w.concStr(a[0], "tag"), w.sliceTerms(a[1].(Slice))})
		return nil
	})
	reg(symPkg+"And", func(w *Worker, a []Value) Value { return w.st.And(a[0].(*Term), a[1].(*Term)) })
	reg(symPkg+"Or", func(w *Worker, a []Value) Value { return w.st.Or(a[0].(*Term), a[1].(*Term)) })
	reg(symPkg+"Implies", func(w *Worker, a []Value) Value { return w.st.Or(w.st.Not(a[0].(*Term)), a[1].(*Term)) })
	reg(symPkg+"SameBytes", func(w *Worker, a []Value) Value {
		return w.strEq(w.sliceStr(a[0].(Slice)), w.sliceStr(a[1].(Slice)))
	})
	reg(symPkg+"IteByte", func(w *Worker, a []Value) Value {
		return w.st.Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term))
	})
	reg(symPkg+"MapOrder", func(w *Worker, a []Value) Value {
		w.mapSched = a[0].(*Term).k == 1
		return nil
	})
	reg(symPkg+"Concurrent", func(w *Worker, a []Value) Value {
		saved := w.freeze
		if w.objID > w.freeze {
			w.freeze = w.objID
		}
		defer func() { w.freeze = saved }()
		w.callClosure(a[0].(*Closure), []Value{mkInt(0)})
		w.freeze = w.objID
		w.callClosure(a[0].(*Closure), []Value{mkInt(1)})
		return nil
	})

	// ---- bytealg, strings, bytes ----
	idxByte := func(w *Worker, a []Value) Value {
		b := w.seqTerms(a[0])
		for i, t := range b {
			if w.branch(w.st.Eq(t, a[1].(*Term))) {
				return mkInt(i)
			}
		}
		return mkInt(-1)
	}
	lastIdxByte := func(w *Worker, a []Value) Value {
		b := w.seqTerms(a[0])
		for i := len(b) - 1; i >= 0; i-- {
			if w.branch(w.st.Eq(b[i], a[1].(*Term))) {
				return mkInt(i)
			}
		}
		return mkInt(-1)
	}
	for _, n := range []string{"internal/bytealg.IndexByte", "internal/bytealg.IndexByteString", "strings.IndexByte", "bytes.IndexByte"} {
		reg(n, idxByte)
	}
	for _, n := range []string{"internal/bytealg.LastIndexByte", "internal/bytealg.LastIndexByteString", "strings.LastIndexByte", "bytes.LastIndexByte"} {
		reg(n, lastIdxByte)
	}
	cnt := func(w *Worker, a []Value) Value {
		c := 0
		for _, t := range w.seqTerms(a[0]) {
			if w.branch(w.st.Eq(t, a[1].(*Term))) {
				c++
			}
		}
		return mkInt(c)
	}
	reg("internal/bytealg.Count", cnt)
	reg("internal/bytealg.CountString", cnt)
	reg("internal/bytealg.Equal", func(w *Worker, a []Value) Value { return w.strEq(w.seqStr(a[0]), w.seqStr(a[1])) })
	idx := func(w *Worker, a []Value) Value { return mkInt(w.index(w.seqStr(a[0]), w.seqStr(a[1]))) }
	for _, n := range []string{"internal/bytealg.Index", "internal/bytealg.IndexString", "strings.Index", "bytes.Index"} {
		reg(n, idx)
	}
	lidx := func(w *Worker, a []Value) Value { return mkInt(w.lastIndex(w.seqStr(a[0]), w.seqStr(a[1]))) }
	reg("strings.LastIndex", lidx)
	reg("bytes.LastIndex", lidx)
	cmp := func(w *Worker, a []Value) Value {
		x, y := w.seqStr(a[0]), w.seqStr(a[1])
		lt, eq := w.strLess(x, y, false), w.strEq(x, y)
		return w.st.Ite(lt, mkInt(-1), w.st.Ite(eq, mkInt(0), mkInt(1)))
	}
	for _, n := range []string{"internal/bytealg.Compare", "internal/bytealg.CompareString", "strings.Compare", "bytes.Compare", "runtime.cmpstring"} {
		reg(n, cmp)
	}
	reg("internal/bytealg.MakeNoZero", func(w *Worker, a []Value) Value {
		n := w.concInt(a[0])
		return w.makeSlice(types.Typ[types.Byte], n, roundSize(n, true))
	})
	reg("internal/abi.NoEscape", func(w *Worker, a []Value) Value { return a[0] })
	reg("internal/abi.Escape", func(w *Worker, a []Value) Value { return a[0] })
	reg("internal/stringslite.Index", idx)
	reg("internal/stringslite.IndexByte", idxByte)

	// ---- strconv ----
	reg("strconv.FormatInt", func(w *Worker, a []Value) Value { return w.fmtInt(a[0].(*Term), a[1], true) })
	reg("strconv.FormatUint", func(w *Worker, a []Value) Value { return w.fmtInt(a[0].(*Term), a[1], false) })
	reg("strconv.Itoa", func(w *Worker, a []Value) Value { return w.fmtInt(a[0].(*Term), mkInt(10), true) })
	app := func(w *Worker, dst Value, s Str) Value {
		return w.appendSlice(types.Typ[types.Byte], dst.(Slice), s.length(), func(i int) []Value { return []Value{s.at(i)} })
	}
	reg("strconv.AppendInt", func(w *Worker, a []Value) Value { return app(w, a[0], w.fmtInt(a[1].(*Term), a[2], true)) })
	reg("strconv.AppendUint", func(w *Worker, a []Value) Value { return app(w, a[0], w.fmtInt(a[1].(*Term), a[2], false)) })
	reg("strconv.FormatFloat", func(w *Worker, a []Value) Value { return w.fmtFloat(a[0], a[1], a[2], a[3]) })
	reg("strconv.AppendFloat", func(w *Worker, a []Value) Value { return app(w, a[0], w.fmtFloat(a[1], a[2], a[3], a[4])) })

	// ---- sync ----
	nop := func(w *Worker, a []Value) Value { return nil }
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "(*internal/sync.Mutex).Lock", "(*internal/sync.Mutex).Unlock", "internal/race.Acquire", "internal/race.Release", "internal/race.Disable", "internal/race.Enable", "runtime.KeepAlive", "runtime.GC", "runtime.Gosched"} {
		reg(n, nop)
	}
	reg("(*sync.Mutex).TryLock", func(w *Worker, a []Value) Value { return tTrue })
	poolKey := func(p Ptr) string { return fmt.Sprintf("pool%d.%d", p.obj.id, p.off) }
	intrinsics["(*sync.Pool).Get"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
		p := a[0].(Ptr)
		k := poolKey(p)
		if l, ok := w.side[k].([]Value); ok && len(l) > 0 {
			v := l[len(l)-1]
			w.side[k] = l[:len(l)-1]
			return v
		}
		pt := fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem()
		st := pt.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "New" {
				c, _ := p.obj.slots[p.off+layoutOf(pt).offs[i]].(*Closure)
				if c != nil {
					return w.callClosure(c, nil)
				}
			}
		}
		return Iface{}
	}
	reg("(*sync.Pool).Put", func(w *Worker, a []Value) Value {
		k := poolKey(a[0].(Ptr))
		l, _ := w.side[k].([]Value)
		// pooled objects belong to nobody: exempt them from the frame condition
		w.side[k] = append(append([]Value(nil), l...), a[1])
		return nil
	})
	anyT := types.NewInterfaceType(nil, nil)
	smap := func(w *Worker, p Value) *MapObj {
		k := smKey(p)
		m, _ := w.side[k].(*MapObj)
		if m == nil {
			s := w.freeze
			w.freeze = 0
			m = w.newMap(anyT)
			w.freeze = s
			w.side[k] = m
		}
		return m
	}
	unfrozen := func(w *Worker, f func() Value) Value {
		s := w.freeze
		w.freeze = 0
		defer func() { w.freeze = s }()
		return f()
	}
	reg("(*sync.Map).Load", func(w *Worker, a []Value) Value {
		v, ok := w.mapLookup(smap(w, a[0]), a[1])
		if !ok {
			v = Iface{}
		}
		return Tuple{v, mkBool(ok)}
	})
	reg("(*sync.Map).Store", func(w *Worker, a []Value) Value {
		return unfrozen(w, func() Value { w.mapUpdate(smap(w, a[0]), a[1], a[2]); return nil })
	})
	reg("(*sync.Map).LoadOrStore", func(w *Worker, a []Value) Value {
		return unfrozen(w, func() Value {
			m := smap(w, a[0])
			if v, ok := w.mapLookup(m, a[1]); ok {
				return Tuple{v, tTrue}
			}
			w.mapUpdate(m, a[1], a[2])
			return Tuple{a[2], tFalse}
		})
	})
	reg("(*sync.Map).Delete", func(w *Worker, a []Value) Value {
		return unfrozen(w, func() Value { w.mapDelete(smap(w, a[0]), a[1]); return nil })
	})
	// ---- sync/atomic ----
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		wd := map[string]uint8{"Int32": 32, "Uint32": 32}[ty]
		if wd == 0 {
			wd = 64
		}
		for _, pk := range []string{"sync/atomic.", "internal/runtime/atomic."} {
			reg(pk+"Load"+ty, func(w *Worker, a []Value) Value { return w.atomLoad(a[0]) })
			reg(pk+"Store"+ty, func(w *Worker, a []Value) Value { w.atomStore(a[0], a[1]); return nil })
			reg(pk+"Swap"+ty, func(w *Worker, a []Value) Value { o := w.atomLoad(a[0]); w.atomStore(a[0], a[1]); return o })
			reg(pk+"Add"+ty, func(w *Worker, a []Value) Value {
				n := w.st.Bin(OpAdd, w.atomLoad(a[0]).(*Term), a[1].(*Term))
				w.atomStore(a[0], n)
				return n
			})
			reg(pk+"CompareAndSwap"+ty, func(w *Worker, a []Value) Value {
				cur := w.atomLoad(a[0])
				var eq *Term
				if p, ok := cur.(Ptr); ok {
					eq = w.ptrEq(p, a[1].(Ptr))
				} else {
					eq = w.st.Eq(cur.(*Term), a[1].(*Term))
				}
				if w.branch(eq) {
					w.atomStore(a[0], a[2])
					return tTrue
				}
				return tFalse
			})
		}
	}
	reg("(*sync/atomic.Value).Load", func(w *Worker, a []Value) Value {
		if v, ok := w.side["av"+smKey(a[0])]; ok {
			return v
		}
		return Iface{}
	})
	reg("(*sync/atomic.Value).Store", func(w *Worker, a []Value) Value { w.side["av"+smKey(a[0])] = a[1]; return nil })

	// ---- runtime, os, time ----
	reg("runtime.FuncForPC", func(w *Worker, a []Value) Value {
		t := a[0].(*Term)
		if !t.isConst() {
			w.unsup("symbolic pc")
		}
		if f, ok := w.eng.funcByPC(t.k); ok {
			o := &Object{id: -1 << 40, what: "func", slots: []Value{Native{f}}}
			return Ptr{obj: o}
		}
		return Ptr{}
	})
	reg("(*runtime.Func).Name", func(w *Worker, a []Value) Value {
		p := a[0].(Ptr)
		if p.obj == nil {
			return Str{}
		}
		return Str{s: p.obj.slots[0].(Native).v.(*ssa.Function).String()}
	})
	reg("os.Getenv", func(w *Worker, a []Value) Value { return Str{} })
	reg("internal/godebug.New", func(w *Worker, a []Value) Value { return Ptr{} })
	reg("(*internal/godebug.Setting).Value", func(w *Worker, a []Value) Value { return Str{} })
	reg("(*internal/godebug.Setting).IncNonDefault", nop)
	reg("internal/godebug.setUpdate", nop)
	_ = token.ADD
}

func smKey(p Value) string { return fmt.Sprintf("smap%d.%d", p.(Ptr).obj.id, p.(Ptr).off) }

func (w *Worker) msgStr(v Value) string {
	s := v.(Str)
	if c, ok := s.concrete(); ok {
		return c
	}
	return describe(s)
}

func (w *Worker) atomLoad(p Value) Value {
	q := p.(Ptr)
	if q.obj == nil {
		w.throw("invalid memory address or nil pointer dereference")
	}
	return q.obj.slots[q.off]
}

func (w *Worker) atomStore(p, v Value) {
	q := p.(Ptr)
	if q.obj == nil {
		w.throw("invalid memory address or nil pointer dereference")
	}
	s := w.freeze
	w.freeze = 0
	w.touch(q.obj)
	w.freeze = s
	q.obj.slots[q.off] = v
}

// fmtInt gives the exact decimal text of an integer term, forking on sign and digit count.
func (w *Worker) fmtInt(t *Term, base Value, signed bool) Str {
	st := w.st
	b := w.concInt(base)
	if t.isConst() {
		if signed {
			return Str{s: strconv.FormatInt(int64(t.k), b)}
		}
		return Str{s: strconv.FormatUint(t.k, b)}
	}
	if b != 10 {
		w.unsup("FormatInt base %d of a symbolic value", b)
	}
	var out []*Term
	u := t
	if signed && t.op != OpZext && w.branch(st.Bin(OpSlt, t, mkConst(64, 0))) {
		out = append(out, mkConst(8, '-'))
		u = st.Un(OpNeg, t)
	}
	// digit count
	nd := 1
	p := uint64(10)
	var pows []uint64
	pows = append(pows, 1)
	for nd < 20 {
		if w.branch(st.Bin(OpUlt, u, mkConst(64, p))) {
			break
		}
		pows = append(pows, p)
		nd++
		if nd < 20 {
			p *= 10
		}
	}
	for i := nd - 1; i >= 0; i-- {
		q := st.Bin(OpUDiv, u, mkConst(64, pows[i]))
		d := q
		if i < nd-1 {
			d = st.Bin(OpURem, q, mkConst(64, 10))
		}
		out = append(out, st.Bin(OpAdd, st.Trunc(8, d), mkConst(8, '0')))
	}
	return mkStr(out)
}

// fmtFloat models FormatFloat: exact for constants, an uninterpreted text of fixed length otherwise.
func (w *Worker) fmtFloat(f, fm, prec, bs Value) Str {
	ft, fmtT, pt, bt := f.(*Term), fm.(*Term), prec.(*Term), bs.(*Term)
	if ft.isConst() && fmtT.isConst() && pt.isConst() && bt.isConst() {
		return Str{s: strconv.FormatFloat(toF(ft), byte(fmtT.k), int(int64(pt.k)), int(bt.k))}
	}
	if ft.op == OpUF && ft.name == "f32to64" {
		w.noteAtom(ft)
	}
	out := make([]*Term, 4)
	for i := range out {
		out[i] = w.st.UF(fmt.Sprintf("fmtfloat%d", i), 8, ft, fmtT, pt, bt)
		w.noteAtom(out[i])
	}
	return mkStr(out)
}
