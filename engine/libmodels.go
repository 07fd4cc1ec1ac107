package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Models of library functions that reach into the runtime's representations.

// sortSlice orders a slice held in an interface by insertion with the caller's less, as sort.Slice does for short ones.
func (w *Worker) sortSlice(x Iface, less Value) Value {
	if x.t == nil {
		w.rpanic("reflect: call of Swapper on zero Value")
	}
	s, ok := x.v.(Slice)
	if !ok {
		w.rpanic("reflect: call of Swapper on " + kindOf(x.t).String() + " Value")
	}
	lt := func(i, j int) bool {
		return w.branch(w.callClosure(less.(*Closure), []Value{mkInt(i), mkInt(j)}).(*Term))
	}
	for i := 1; i < s.len; i++ {
		for j := i; j > 0 && lt(j, j-1); j-- {
			w.touch(s.obj)
			a, b := s.obj.slots[s.off+j*s.stride:], s.obj.slots[s.off+(j-1)*s.stride:]
			for k := 0; k < s.stride; k++ {
				a[k], b[k] = b[k], a[k]
			}
		}
	}
	return nil
}

// errorsIs walks an error's tree as errors.Is does.
func (w *Worker) errorsIs(x, y Iface) bool {
	for x.t != nil {
		if y.t != nil && types.Comparable(y.t) && types.Comparable(x.t) && w.branch(w.ifaceEq(x, y)) {
			return true
		}
		if f := w.eng.lookupMethod(x.t, nil, "Is"); f != nil && f.Signature.Params().Len() == 1 {
			if t, ok := w.call(f, []Value{x.v, y}, nil).(*Term); ok && w.branch(t) {
				return true
			}
		}
		f := w.eng.lookupMethod(x.t, nil, "Unwrap")
		if f == nil {
			return false
		}
		switch n := w.call(f, []Value{x.v}, nil).(type) {
		case Iface:
			x = n
		case Slice:
			for i := 0; i < n.len; i++ {
				if w.errorsIs(n.obj.slots[n.off+i*n.stride].(Iface), y) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return y.t == nil
}

func (w *Worker) errorsAs(x Iface, p Ptr, t types.Type) bool {
	for x.t != nil {
		if types.AssignableTo(x.t, t) {
			if _, ok := t.Underlying().(*types.Interface); ok {
				w.storeTo(p, t, x)
			} else {
				w.storeTo(p, t, x.v)
			}
			return true
		}
		f := w.eng.lookupMethod(x.t, nil, "Unwrap")
		if f == nil {
			return false
		}
		switch n := w.call(f, []Value{x.v}, nil).(type) {
		case Iface:
			x = n
		case Slice:
			for i := 0; i < n.len; i++ {
				if w.errorsAs(n.obj.slots[n.off+i*n.stride].(Iface), p, t) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}

type rvMapIter struct {
	r  *RV
	it *mapIter
	e  Tuple
}

func init() {
	reg("sort.Slice", func(w *Worker, a []Value) Value { return w.sortSlice(a[0].(Iface), a[1]) })
	reg("sort.SliceStable", func(w *Worker, a []Value) Value { return w.sortSlice(a[0].(Iface), a[1]) })
	reg("errors.Is", func(w *Worker, a []Value) Value { return mkBool(w.errorsIs(a[0].(Iface), a[1].(Iface))) })
	reg("errors.As", func(w *Worker, a []Value) Value {
		x, tg := a[0].(Iface), a[1].(Iface)
		p, ok := tg.v.(Ptr)
		if tg.t == nil || !ok || p.obj == nil {
			w.rpanic("errors: target must be a non-nil pointer")
		}
		return mkBool(w.errorsAs(x, p, tg.t.Underlying().(*types.Pointer).Elem()))
	})
	reg("maps.clone", func(w *Worker, a []Value) Value {
		x := a[0].(Iface)
		m, _ := x.v.(*MapObj)
		if m == nil {
			return x
		}
		n := w.newMap(x.t)
		for _, e := range m.entries {
			if !e.dead {
				w.mapUpdate(n, e.k, e.v)
			}
		}
		return Iface{x.t, n}
	})

	reg("(reflect.Value).UnsafePointer", func(w *Worker, a []Value) Value {
		r := rvOf(a[0])
		if r == nil {
			w.rpanic("reflect: call of reflect.Value.UnsafePointer on zero Value")
		}
		switch x := w.rvGet(r).(type) {
		case Ptr:
			return x
		case Slice:
			return Ptr{obj: x.obj, off: x.off}
		case *MapObj:
			if x == nil {
				return Ptr{}
			}
			o, ok := w.side[fmt.Sprintf("mapaddr%d", x.id)].(Ptr)
			if !ok {
				w.objID++
				o = Ptr{obj: &Object{id: w.objID, what: "map address", slots: []Value{Native{x}}}}
				w.side[fmt.Sprintf("mapaddr%d", x.id)] = o
			}
			return o
		}
		w.unsup("UnsafePointer of %s", r.t)
		return nil
	})

	// what sync.Once runs happens before everything after it
	reg("(*sync.Once).Do", func(w *Worker, a []Value) Value {
		p := a[0].(Ptr)
		if p.obj == nil {
			w.throw("invalid memory address or nil pointer dereference")
		}
		at := p.off
		for {
			if t, ok := p.obj.slots[at].(*Term); ok && t.w != 0 {
				break
			}
			at++
		}
		done := p.obj.slots[at].(*Term)
		if done.k != 0 {
			return nil
		}
		s := w.freeze
		w.freeze = 0
		defer func() {
			w.touch(p.obj)
			w.freeze = s
			p.obj.slots[at] = mkConst(done.w, 1)
		}()
		w.callClosure(a[1].(*Closure), nil)
		return nil
	})

	// reflect map iteration
	tup := func(mt *types.Map) *types.Tuple {
		return types.NewTuple(types.NewVar(0, nil, "", types.Typ[types.Bool]), types.NewVar(0, nil, "", mt.Key()), types.NewVar(0, nil, "", mt.Elem()))
	}
	reg("(reflect.Value).MapRange", func(w *Worker, a []Value) Value {
		r := rvOf(a[0])
		if r == nil || kindOf(r.t).String() != "map" {
			w.rpanic("reflect: call of reflect.Value.MapRange on " + r.kind().String() + " Value")
		}
		it := w.rangeIter(w.rvGet(r).(*MapObj)).(Native).v.(*mapIter)
		w.objID++
		return Ptr{obj: &Object{id: w.objID, what: "reflect.MapIter", slots: []Value{Native{&rvMapIter{r: r, it: it}}}}}
	})
	mi := func(a []Value) *rvMapIter { return a[0].(Ptr).obj.slots[0].(Native).v.(*rvMapIter) }
	reg("(*reflect.MapIter).Next", func(w *Worker, a []Value) Value {
		m := mi(a)
		m.e = w.nextIter(m.it, tup(m.r.t.Underlying().(*types.Map))).(Tuple)
		return m.e[0]
	})
	part := func(i int) func(w *Worker, a []Value) Value {
		return func(w *Worker, a []Value) Value {
			m := mi(a)
			if m.e == nil {
				w.rpanic("MapIter used before Next")
			}
			mt := m.r.t.Underlying().(*types.Map)
			t := mt.Key()
			if i == 2 {
				t = mt.Elem()
			}
			return w.mkRV(&RV{t: t, v: m.e[i], ro: m.r.ro, emb: m.r.emb})
		}
	}
	reg("(*reflect.MapIter).Key", part(1))
	reg("(*reflect.MapIter).Value", part(2))

	// the rest of sync.Map
	smap := func(w *Worker, p Value) *MapObj {
		m, _ := w.side[smKey(p)].(*MapObj)
		return m
	}
	reg("(*sync.Map).Range", func(w *Worker, a []Value) Value {
		m := smap(w, a[0])
		if m == nil {
			return nil
		}
		it := w.rangeIter(m).(Native).v.(*mapIter)
		anyT := types.NewInterfaceType(nil, nil)
		tt := types.NewTuple(types.NewVar(0, nil, "", types.Typ[types.Bool]), types.NewVar(0, nil, "", anyT), types.NewVar(0, nil, "", anyT))
		for {
			e := w.nextIter(it, tt).(Tuple)
			if e[0].(*Term) != tTrue || !w.branch(w.callClosure(a[1].(*Closure), []Value{e[1], e[2]}).(*Term)) {
				return nil
			}
		}
	})
	unfrozen := func(w *Worker, f func() Value) Value {
		s := w.freeze
		w.freeze = 0
		defer func() { w.freeze = s }()
		return f()
	}
	reg("(*sync.Map).LoadAndDelete", func(w *Worker, a []Value) Value {
		m := smap(w, a[0])
		if m == nil {
			return Tuple{Iface{}, tFalse}
		}
		v, ok := w.mapLookup(m, a[1])
		if !ok {
			return Tuple{Iface{}, tFalse}
		}
		unfrozen(w, func() Value { w.mapDelete(m, a[1]); return nil })
		return Tuple{v, tTrue}
	})
	reg("(*sync.Map).Clear", func(w *Worker, a []Value) Value { delete(w.side, smKey(a[0])); return nil })
	_ = ssa.If{}
}
