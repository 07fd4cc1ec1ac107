package main

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"sync"

	"golang.org/x/tools/go/ssa"
)

var pcMu sync.Mutex
var pcTab = map[uint64]*ssa.Function{}
var pcOf = map[*ssa.Function]uint64{}

func (e *Engine) pcFor(f *ssa.Function) uint64 {
	pcMu.Lock()
	defer pcMu.Unlock()
	if k, ok := pcOf[f]; ok {
		return k
	}
	k := uint64(0x400000 + 16*len(pcOf))
	pcOf[f] = k
	pcTab[k] = f
	return k
}

func (e *Engine) funcByPC(k uint64) (*ssa.Function, bool) {
	pcMu.Lock()
	defer pcMu.Unlock()
	f, ok := pcTab[k]
	return f, ok
}

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Pointer:
		return reflect.Pointer
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Map:
		return reflect.Map
	case *types.Struct:
		return reflect.Struct
	case *types.Interface:
		return reflect.Interface
	case *types.Signature:
		return reflect.Func
	case *types.Chan:
		return reflect.Chan
	}
	return reflect.Invalid
}

func rvOf(v Value) *RV {
	a := v.(Agg)
	if n, ok := a[0].(Native); ok {
		return n.v.(*RV)
	}
	return nil
}

func (w *Worker) mkRV(r *RV) Value {
	return Agg{Native{r}, Ptr{}, mkConst(64, 1)}
}

func (w *Worker) zeroRV() Value { return Agg{Ptr{}, Ptr{}, mkConst(64, 0)} }

func (w *Worker) rtype(t types.Type) Value {
	return Iface{w.eng.rtypePtr, Native{RT{t}}}
}

func (w *Worker) rpanic(msg string) {
	where := ""
	if w.fr != nil {
		where = w.fr.c.fn.String()
	}
	panic(&TargetPanic{v: Iface{t: types.Typ[types.String], v: Str{s: msg}}, where: where})
}

func (r *RV) kind() reflect.Kind {
	if r == nil {
		return reflect.Invalid
	}
	return kindOf(r.t)
}

func (w *Worker) rvGet(r *RV) Value {
	if r.addr != nil {
		return w.load(*r.addr, r.t)
	}
	return r.v
}

func (w *Worker) rvInterface(r *RV) Iface {
	v := w.rvGet(r)
	if kindOf(r.t) == reflect.Interface {
		return v.(Iface)
	}
	return Iface{r.t, v}
}

func (w *Worker) rvField(r *RV, i int) *RV {
	st := r.t.Underlying().(*types.Struct)
	l := layoutOf(r.t)
	f := st.Field(i)
	fl := layoutOf(f.Type())
	sticky := r.ro && !r.emb
	n := &RV{t: f.Type(), ro: sticky || !f.Exported(), emb: !sticky && !f.Exported() && f.Embedded()}
	if r.addr != nil {
		p := *r.addr
		p.off += l.offs[i]
		n.addr = &p
		return n
	}
	ag := r.v.(Agg)
	if fl.agg {
		n.v = ag[l.offs[i] : l.offs[i]+fl.n]
	} else {
		n.v = ag[l.offs[i]]
	}
	return n
}

// fieldPath resolves a (possibly promoted) field by name as reflect does.
func fieldPath(t types.Type, name string) ([]int, *types.Var) {
	return fieldMatch(t, func(n string) bool { return n == name })
}

// fieldMatch finds the field that alone satisfies match at the least depth where any does.
func fieldMatch(t types.Type, match func(string) bool) ([]int, *types.Var) {
	type item struct {
		t    types.Type
		path []int
	}
	cur := []item{{t, nil}}
	seen := map[types.Type]bool{}
	for len(cur) > 0 {
		var next []item
		var found []int
		var fv *types.Var
		n := 0
		for _, it := range cur {
			tt := it.t
			if p, ok := tt.Underlying().(*types.Pointer); ok {
				tt = p.Elem()
			}
			if seen[tt] {
				continue
			}
			seen[tt] = true
			st, ok := tt.Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				p := append(append([]int{}, it.path...), i)
				if match(f.Name()) {
					n++
					found, fv = p, f
				}
				if f.Embedded() {
					next = append(next, item{f.Type(), p})
				}
			}
		}
		if n == 1 {
			return found, fv
		}
		if n > 1 {
			return nil, nil
		}
		cur = next
	}
	return nil, nil
}

func allFieldNames(t types.Type, depth int, out map[string]bool, order *[]string) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok || depth > 5 {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if !out[f.Name()] {
			out[f.Name()] = true
			*order = append(*order, f.Name())
		}
		if f.Embedded() {
			allFieldNames(f.Type(), depth+1, out, order)
		}
	}
}

// resolveName forks a symbolic field name over the fields there are.
func (w *Worker) resolveName(t types.Type, s Str) (string, bool) {
	if c, ok := s.concrete(); ok {
		return c, true
	}
	var order []string
	allFieldNames(t, 0, map[string]bool{}, &order)
	for _, n := range order {
		if len(n) == s.length() && w.branch(w.strEq(s, Str{s: n})) {
			return n, true
		}
	}
	return "", false
}

// exported is the exported methods of the type, in the order of their names.
func (w *Worker) exported(t types.Type) []*types.Selection {
	ms := w.eng.prog.MethodSets.MethodSet(t)
	var out []*types.Selection
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Exported() {
			out = append(out, ms.At(i))
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Obj().Name() < out[j].Obj().Name() })
	return out
}

// rvMethod is the method bound to the value.
func (w *Worker) rvMethod(r *RV, sel *types.Selection) Value {
	if kindOf(r.t) == reflect.Interface {
		w.unsup("method of an interface by reflection")
	}
	f := w.findMethod(r.t, sel.Obj().Pkg(), sel.Obj().Name())
	recv := w.rvGet(r)
	sig := sel.Obj().Type().(*types.Signature)
	t := types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), sig.Variadic())
	return w.mkRV(&RV{t: t, v: &Closure{fn: f, nat: func(w *Worker, args []Value) Value {
		return w.call(f, append([]Value{recv}, args...), nil)
	}}, ro: r.ro})
}

// tagAt is the tag of the field at the path.
func tagAt(t types.Type, path []int) string {
	tag := ""
	for _, i := range path {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		st := t.Underlying().(*types.Struct)
		tag, t = st.Tag(i), st.Field(i).Type()
	}
	return tag
}

// structField builds a reflect.StructField aggregate.
func (w *Worker) structField(sft types.Type, f *types.Var, path []int, tag string) Value {
	st := sft.Underlying().(*types.Struct)
	a := zeroValue(sft).(Agg)
	l := layoutOf(sft)
	for i := 0; i < st.NumFields(); i++ {
		o := l.offs[i]
		switch st.Field(i).Name() {
		case "Name":
			a[o] = Str{s: f.Name()}
		case "PkgPath":
			if !f.Exported() && f.Pkg() != nil {
				a[o] = Str{s: f.Pkg().Path()}
			}
		case "Type":
			a[o] = w.rtype(f.Type())
		case "Tag":
			a[o] = Str{s: tag}
		case "Index":
			s := w.makeSlice(types.Typ[types.Int], len(path), len(path))
			for j, p := range path {
				s.obj.slots[j] = mkInt(p)
			}
			a[o] = s
		case "Anonymous":
			a[o] = mkBool(f.Embedded())
		}
	}
	return a
}

func (w *Worker) rvByIndex(r *RV, path []int) *RV {
	for i, x := range path {
		if i > 0 && kindOf(r.t) == reflect.Pointer {
			if _, ok := r.t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct); ok {
				p := w.rvGet(r).(Ptr)
				if p.obj == nil {
					w.rpanic("reflect: indirection through nil pointer to embedded struct")
				}
				r = &RV{t: r.t.Underlying().(*types.Pointer).Elem(), addr: &p, ro: r.ro, emb: r.emb}
			}
		}
		r = w.rvField(r, x)
	}
	return r
}

func (w *Worker) intSlice(v Value) []int {
	s := v.(Slice)
	var r []int
	for i := 0; i < s.len; i++ {
		r = append(r, w.concInt(s.obj.slots[s.off+i]))
	}
	return r
}

func (w *Worker) rvNeed(r *RV, m string, ks ...reflect.Kind) {
	for _, k := range ks {
		if r.kind() == k {
			return
		}
	}
	w.rpanic("reflect: call of reflect.Value." + m + " on " + r.kind().String() + " Value")
}

func init() {
	V := func(n string, f func(w *Worker, r *RV, a []Value) Value) {
		reg("(reflect.Value)."+n, func(w *Worker, a []Value) Value { return f(w, rvOf(a[0]), a[1:]) })
	}
	reg("reflect.ValueOf", func(w *Worker, a []Value) Value {
		i := a[0].(Iface)
		if i.t == nil {
			return w.zeroRV()
		}
		return w.mkRV(&RV{t: i.t, v: i.v})
	})
	reg("reflect.TypeOf", func(w *Worker, a []Value) Value {
		i := a[0].(Iface)
		if i.t == nil {
			return Iface{}
		}
		return w.rtype(i.t)
	})
	intrinsics["reflect.TypeFor"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
		return w.rtype(fn.TypeArgs()[0])
	}
	reg("internal/reflectlite.TypeOf", func(w *Worker, a []Value) Value {
		i := a[0].(Iface)
		if i.t == nil {
			return Iface{}
		}
		return Iface{w.eng.rtypePtr, Native{RT{i.t}}}
	})
	reg("reflect.Zero", func(w *Worker, a []Value) Value {
		t := a[0].(Iface).v.(Native).v.(RT).t
		return w.mkRV(&RV{t: t, v: zeroValue(t)})
	})
	reg("reflect.Indirect", func(w *Worker, a []Value) Value {
		r := rvOf(a[0])
		if r.kind() != reflect.Pointer {
			return a[0]
		}
		p := w.rvGet(r).(Ptr)
		if p.obj == nil {
			return w.zeroRV()
		}
		return w.mkRV(&RV{t: r.t.Underlying().(*types.Pointer).Elem(), addr: &p, ro: r.ro, emb: r.emb})
	})
	V("Kind", func(w *Worker, r *RV, a []Value) Value { return mkConst(64, uint64(r.kind())) })
	V("IsValid", func(w *Worker, r *RV, a []Value) Value { return mkBool(r != nil) })
	V("CanInterface", func(w *Worker, r *RV, a []Value) Value {
		if r == nil {
			w.rpanic("reflect: call of reflect.Value.CanInterface on zero Value")
		}
		return mkBool(!r.ro)
	})
	V("Interface", func(w *Worker, r *RV, a []Value) Value {
		if r == nil {
			w.rpanic("reflect: call of reflect.Value.Interface on zero Value")
		}
		if r.ro {
			w.rpanic("reflect.Value.Interface: cannot return value obtained from unexported field or method")
		}
		return w.rvInterface(r)
	})
	V("Type", func(w *Worker, r *RV, a []Value) Value {
		if r == nil {
			w.rpanic("reflect: call of reflect.Value.Type on zero Value")
		}
		return w.rtype(r.t)
	})
	V("IsNil", func(w *Worker, r *RV, a []Value) Value {
		w.rvNeed(r, "IsNil", reflect.Pointer, reflect.Map, reflect.Slice, reflect.Func, reflect.Interface, reflect.Chan, reflect.UnsafePointer)
		return mkBool(isNilValue(w.rvGet(r)))
	})
	V("IsZero", func(w *Worker, r *RV, a []Value) Value {
		if r == nil {
			w.rpanic("reflect: call of reflect.Value.IsZero on zero Value")
		}
		switch v := w.rvGet(r).(type) {
		case Slice, *MapObj, *Closure, Iface, Native:
			return mkBool(isNilValue(v))
		default:
			return w.eqValues(r.t, v, zeroValue(r.t))
		}
	})
	V("Elem", func(w *Worker, r *RV, a []Value) Value {
		w.rvNeed(r, "Elem", reflect.Pointer, reflect.Interface)
		v := w.rvGet(r)
		if i, ok := v.(Iface); ok {
			if i.t == nil {
				return w.zeroRV()
			}
			return w.mkRV(&RV{t: i.t, v: i.v, ro: r.ro, emb: r.emb})
		}
		p := v.(Ptr)
		if p.obj == nil {
			return w.zeroRV()
		}
		return w.mkRV(&RV{t: r.t.Underlying().(*types.Pointer).Elem(), addr: &p, ro: r.ro, emb: r.emb})
	})
	V("Len", func(w *Worker, r *RV, a []Value) Value {
		w.rvNeed(r, "Len", reflect.Slice, reflect.String, reflect.Array, reflect.Map)
		switch x := w.rvGet(r).(type) {
		case Slice:
			return mkInt(x.len)
		case Str:
			return mkInt(x.length())
		case *MapObj:
			if x == nil {
				return mkInt(0)
			}
			return mkInt(x.live)
		}
		return mkInt(int(r.t.Underlying().(*types.Array).Len()))
	})
	V("Index", func(w *Worker, r *RV, a []Value) Value {
		w.rvNeed(r, "Index", reflect.Slice, reflect.String, reflect.Array)
		i := w.concInt(a[0])
		switch x := w.rvGet(r).(type) {
		case Slice:
			if i < 0 || i >= x.len {
				w.rpanic("reflect: slice index out of range")
			}
			et := r.t.Underlying().(*types.Slice).Elem()
			return w.mkRV(&RV{t: et, addr: &Ptr{obj: x.obj, off: x.off + i*x.stride}, ro: r.ro, emb: r.emb})
		case Str:
			if i < 0 || i >= x.length() {
				w.rpanic("reflect: string index out of range")
			}
			return w.mkRV(&RV{t: types.Typ[types.Uint8], v: x.at(i), ro: r.ro, emb: r.emb})
		case Agg:
			at := r.t.Underlying().(*types.Array)
			l := layoutOf(at.Elem())
			if i < 0 || i >= int(at.Len()) {
				w.rpanic("reflect: array index out of range")
			}
			var v Value = x[i*l.n]
			if l.agg {
				v = x[i*l.n : (i+1)*l.n]
			}
			return w.mkRV(&RV{t: at.Elem(), v: v, ro: r.ro, emb: r.emb})
		}
		w.unsup("reflect Index")
		return nil
	})
	assignable := func(w *Worker, k *RV, to types.Type, what string) Value {
		v := w.rvGet(k)
		if kindOf(to) == reflect.Interface {
			if kindOf(k.t) == reflect.Interface {
				return v
			}
			if !types.Implements(k.t, to.Underlying().(*types.Interface)) {
				w.rpanic(what + ": value of type " + k.t.String() + " is not assignable to type " + to.String())
			}
			return Iface{k.t, v}
		}
		if !types.AssignableTo(k.t, to) {
			w.rpanic(what + ": value of type " + k.t.String() + " is not assignable to type " + to.String())
		}
		return v
	}
	V("MapIndex", func(w *Worker, r *RV, a []Value) Value {
		w.rvNeed(r, "MapIndex", reflect.Map)
		mt := r.t.Underlying().(*types.Map)
		k := rvOf(a[0])
		if k == nil {
			w.rpanic("reflect.Value.MapIndex: zero Value key")
		}
		kv := assignable(w, k, mt.Key(), "reflect.Value.MapIndex")
		v, ok := w.mapLookup(w.rvGet(r).(*MapObj), kv)
		if !ok {
			return w.zeroRV()
		}
		return w.mkRV(&RV{t: mt.Elem(), v: v, ro: r.ro || k.ro})
	})
	V("MapKeys", func(w *Worker, r *RV, a []Value) Value {
		w.rvNeed(r, "MapKeys", reflect.Map)
		mt := r.t.Underlying().(*types.Map)
		m := w.rvGet(r).(*MapObj)
		vt := w.eng.reflectValue
		if m == nil {
			return w.makeSlice(vt, 0, 0)
		}
		it := w.rangeIter(m).(Native).v.(*mapIter)
		n := len(it.rest)
		s := w.makeSlice(vt, n, n)
		tt := types.NewTuple(types.NewVar(0, nil, "", types.Typ[types.Bool]), types.NewVar(0, nil, "", mt.Key()), types.NewVar(0, nil, "", mt.Elem()))
		for i := 0; i < n; i++ {
			e := w.nextIter(it, tt).(Tuple)
			copy(s.obj.slots[i*s.stride:], w.mkRV(&RV{t: mt.Key(), v: e[1], ro: r.ro, emb: r.emb}).(Agg))
		}
		return s
	})
	V("NumField", func(w *Worker, r *RV, a []Value) Value {
		w.rvNeed(r, "NumField", reflect.Struct)
		return mkInt(r.t.Underlying().(*types.Struct).NumFields())
	})
	V("Field", func(w *Worker, r *RV, a []Value) Value {
		w.rvNeed(r, "Field", reflect.Struct)
		i := w.concInt(a[0])
		if i < 0 || i >= r.t.Underlying().(*types.Struct).NumFields() {
			w.rpanic("reflect: Field index out of range")
		}
		return w.mkRV(w.rvField(r, i))
	})
	V("FieldByIndex", func(w *Worker, r *RV, a []Value) Value {
		w.rvNeed(r, "FieldByIndex", reflect.Struct)
		return w.mkRV(w.rvByIndex(r, w.intSlice(a[0])))
	})
	V("FieldByIndexErr", func(w *Worker, r *RV, a []Value) Value {
		w.rvNeed(r, "FieldByIndexErr", reflect.Struct)
		for i, x := range w.intSlice(a[0]) {
			if i > 0 && kindOf(r.t) == reflect.Pointer {
				p := w.rvGet(r).(Ptr)
				if p.obj == nil {
					return append(append(Tuple{}, w.zeroRV()), Iface{w.eng.rtErr, Str{s: "reflect: indirection through nil pointer to embedded struct field"}})
				}
				r = &RV{t: r.t.Underlying().(*types.Pointer).Elem(), addr: &p, ro: r.ro, emb: r.emb}
			}
			r = w.rvField(r, x)
		}
		return Tuple{w.mkRV(r), Iface{}}
	})
	V("FieldByName", func(w *Worker, r *RV, a []Value) Value {
		w.rvNeed(r, "FieldByName", reflect.Struct)
		n, ok := w.resolveName(r.t, a[0].(Str))
		if !ok {
			return w.zeroRV()
		}
		p, _ := fieldPath(r.t, n)
		if p == nil {
			return w.zeroRV()
		}
		return w.mkRV(w.rvByIndex(r, p))
	})
	V("FieldByNameFunc", func(w *Worker, r *RV, a []Value) Value {
		w.rvNeed(r, "FieldByNameFunc", reflect.Struct)
		match := a[0].(*Closure)
		p, _ := fieldMatch(r.t, func(n string) bool {
			return w.branch(w.callClosure(match, []Value{Str{s: n}}).(*Term))
		})
		if p == nil {
			return w.zeroRV()
		}
		return w.mkRV(w.rvByIndex(r, p))
	})
	V("Pointer", func(w *Worker, r *RV, a []Value) Value {
		w.rvNeed(r, "Pointer", reflect.Pointer, reflect.Map, reflect.Slice, reflect.Func, reflect.Chan, reflect.UnsafePointer)
		switch x := w.rvGet(r).(type) {
		case *Closure:
			if x == nil {
				return mkConst(64, 0)
			}
			if x.fn == nil {
				w.unsup("pc of a builtin")
			}
			return mkConst(64, w.eng.pcFor(x.fn))
		case Ptr:
			if x.obj == nil {
				return mkConst(64, 0)
			}
			return mkConst(64, uint64(x.obj.id)<<20+uint64(x.off)*8+1<<40)
		}
		w.unsup("reflect Pointer")
		return nil
	})
	V("String", func(w *Worker, r *RV, a []Value) Value {
		if r == nil {
			return Str{s: "<invalid Value>"}
		}
		if s, ok := w.rvGet(r).(Str); ok {
			return s
		}
		return Str{s: "<" + r.t.String() + " Value>"}
	})
	V("Int", func(w *Worker, r *RV, a []Value) Value {
		w.rvNeed(r, "Int", reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64)
		return w.st.Sext(64, w.rvGet(r).(*Term))
	})
	V("Uint", func(w *Worker, r *RV, a []Value) Value {
		w.rvNeed(r, "Uint", reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr)
		return w.st.Zext(64, w.rvGet(r).(*Term))
	})
	V("Float", func(w *Worker, r *RV, a []Value) Value {
		w.rvNeed(r, "Float", reflect.Float32, reflect.Float64)
		return w.convert(r.t, types.Typ[types.Float64], w.rvGet(r), false)
	})
	V("Bool", func(w *Worker, r *RV, a []Value) Value {
		w.rvNeed(r, "Bool", reflect.Bool)
		return w.rvGet(r)
	})
	V("Bytes", func(w *Worker, r *RV, a []Value) Value {
		w.rvNeed(r, "Bytes", reflect.Slice)
		return w.rvGet(r)
	})
	V("NumMethod", func(w *Worker, r *RV, a []Value) Value {
		return mkInt(len(w.exported(r.t)))
	})
	V("Method", func(w *Worker, r *RV, a []Value) Value {
		return w.rvMethod(r, w.exported(r.t)[w.concInt(a[0])])
	})
	V("MethodByName", func(w *Worker, r *RV, a []Value) Value {
		if r == nil {
			w.rpanic("reflect: call of reflect.Value.MethodByName on zero Value")
		}
		s := a[0].(Str)
		for _, sel := range w.exported(r.t) {
			if n := sel.Obj().Name(); len(n) == s.length() && w.branch(w.strEq(s, Str{s: n})) {
				return w.rvMethod(r, sel)
			}
		}
		return w.zeroRV()
	})
	V("Call", func(w *Worker, r *RV, a []Value) Value {
		w.rvNeed(r, "Call", reflect.Func)
		sig := r.t.Underlying().(*types.Signature)
		in := a[0].(Slice)
		if sig.Variadic() || in.len != sig.Params().Len() {
			w.unsup("reflect.Value.Call with these arguments")
		}
		cl := w.rvGet(r).(*Closure)
		var args []Value
		for i := 0; i < sig.Params().Len(); i++ {
			av := rvOf(Agg(in.obj.slots[in.off+i*in.stride : in.off+i*in.stride+3]))
			pt := sig.Params().At(i).Type()
			if av == nil || !types.AssignableTo(av.t, pt) {
				w.rpanic("reflect: Call using a value not assignable to type " + pt.String())
			}
			if kindOf(pt) == reflect.Interface {
				args = append(args, w.rvInterface(av))
			} else {
				args = append(args, w.rvGet(av))
			}
		}
		out := w.callClosure(cl, args)
		n := sig.Results().Len()
		res := Slice{obj: w.newObj(3*n, "[]reflect.Value"), len: n, cap: n, stride: 3}
		for i := 0; i < n; i++ {
			v := out
			if n > 1 {
				v = out.(Tuple)[i]
			}
			copy(res.obj.slots[i*3:], w.mkRV(&RV{t: sig.Results().At(i).Type(), v: v}).(Agg))
		}
		return res
	})
	V("Convert", func(w *Worker, r *RV, a []Value) Value {
		t := a[0].(Iface).v.(Native).v.(RT).t
		if r == nil || !types.ConvertibleTo(r.t, t) {
			w.rpanic("reflect.Value.Convert: value cannot be converted to type " + t.String())
		}
		v := w.rvGet(r)
		if kindOf(t) == reflect.Interface {
			if kindOf(r.t) != reflect.Interface {
				v = Iface{r.t, v}
			}
		} else {
			v = w.convert(r.t, t, v, false)
		}
		return w.mkRV(&RV{t: t, v: v, ro: r.ro, emb: r.emb})
	})
	V("CanConvert", func(w *Worker, r *RV, a []Value) Value {
		t := a[0].(Iface).v.(Native).v.(RT).t
		return mkBool(types.ConvertibleTo(r.t, t))
	})
	V("Comparable", func(w *Worker, r *RV, a []Value) Value { return mkBool(r == nil || types.Comparable(r.t)) })
	V("CanAddr", func(w *Worker, r *RV, a []Value) Value { return mkBool(r.addr != nil) })

	T := func(n string, f func(w *Worker, t types.Type, fn *ssa.Function, a []Value) Value) {
		intrinsics["(*reflect.rtype)."+n] = func(w *Worker, fn *ssa.Function, a []Value) Value {
			nv, ok := a[0].(Native)
			if !ok {
				w.throw("invalid memory address or nil pointer dereference (reflect.Type)")
			}
			return f(w, nv.v.(RT).t, fn, a[1:])
		}
	}
	T("Kind", func(w *Worker, t types.Type, fn *ssa.Function, a []Value) Value {
		return mkConst(64, uint64(kindOf(t)))
	})
	T("Comparable", func(w *Worker, t types.Type, fn *ssa.Function, a []Value) Value { return mkBool(types.Comparable(t)) })
	T("String", func(w *Worker, t types.Type, fn *ssa.Function, a []Value) Value {
		return Str{s: types.TypeString(t, func(p *types.Package) string { return p.Name() })}
	})
	T("Name", func(w *Worker, t types.Type, fn *ssa.Function, a []Value) Value {
		switch n := t.(type) {
		case *types.Named:
			return Str{s: n.Obj().Name()}
		case *types.Basic:
			return Str{s: n.Name()}
		}
		return Str{}
	})
	T("PkgPath", func(w *Worker, t types.Type, fn *ssa.Function, a []Value) Value {
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return Str{s: n.Obj().Pkg().Path()}
		}
		return Str{}
	})
	T("Key", func(w *Worker, t types.Type, fn *ssa.Function, a []Value) Value {
		m, ok := t.Underlying().(*types.Map)
		if !ok {
			w.rpanic("reflect: Key of non-map type " + t.String())
		}
		return w.rtype(m.Key())
	})
	T("Elem", func(w *Worker, t types.Type, fn *ssa.Function, a []Value) Value {
		switch u := t.Underlying().(type) {
		case *types.Map:
			return w.rtype(u.Elem())
		case *types.Pointer:
			return w.rtype(u.Elem())
		case *types.Slice:
			return w.rtype(u.Elem())
		case *types.Array:
			return w.rtype(u.Elem())
		}
		w.rpanic("reflect: Elem of invalid type " + t.String())
		return nil
	})
	T("Len", func(w *Worker, t types.Type, fn *ssa.Function, a []Value) Value {
		return mkInt(int(t.Underlying().(*types.Array).Len()))
	})
	T("NumMethod", func(w *Worker, t types.Type, fn *ssa.Function, a []Value) Value {
		return mkInt(len(w.exported(t)))
	})
	T("NumField", func(w *Worker, t types.Type, fn *ssa.Function, a []Value) Value {
		return mkInt(t.Underlying().(*types.Struct).NumFields())
	})
	T("Field", func(w *Worker, t types.Type, fn *ssa.Function, a []Value) Value {
		st := t.Underlying().(*types.Struct)
		i := w.concInt(a[0])
		return w.structField(fn.Signature.Results().At(0).Type(), st.Field(i), []int{i}, st.Tag(i))
	})
	T("FieldByName", func(w *Worker, t types.Type, fn *ssa.Function, a []Value) Value {
		sft := fn.Signature.Results().At(0).Type()
		if kindOf(t) != reflect.Struct {
			w.rpanic("reflect: FieldByName of non-struct type " + t.String())
		}
		n, ok := w.resolveName(t, a[0].(Str))
		if ok {
			if p, f := fieldPath(t, n); p != nil {
				return Tuple{w.structField(sft, f, p, tagAt(t, p)), tTrue}
			}
		}
		return Tuple{zeroValue(sft), tFalse}
	})
	T("FieldByNameFunc", func(w *Worker, t types.Type, fn *ssa.Function, a []Value) Value {
		sft := fn.Signature.Results().At(0).Type()
		if kindOf(t) != reflect.Struct {
			w.rpanic("reflect: FieldByNameFunc of non-struct type " + t.String())
		}
		match := a[0].(*Closure)
		p, f := fieldMatch(t, func(n string) bool {
			return w.branch(w.callClosure(match, []Value{Str{s: n}}).(*Term))
		})
		if p == nil {
			return Tuple{zeroValue(sft), tFalse}
		}
		return Tuple{w.structField(sft, f, p, tagAt(t, p)), tTrue}
	})
	two := func(f func(a, b types.Type) bool) func(w *Worker, t types.Type, fn *ssa.Function, a []Value) Value {
		return func(w *Worker, t types.Type, fn *ssa.Function, a []Value) Value {
			return mkBool(f(t, a[0].(Iface).v.(Native).v.(RT).t))
		}
	}
	T("Implements", two(func(a, b types.Type) bool { return types.Implements(a, b.Underlying().(*types.Interface)) }))
	T("AssignableTo", two(types.AssignableTo))
	T("ConvertibleTo", two(types.ConvertibleTo))
	_ = fmt.Sprint
}
