package main

import (
	"fmt"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Value is a symbolic-machine value: *Term, Str, Ptr, Slice, *MapObj, Iface, *Closure, Agg, Tuple or Native.
type Value any

// Str is a string: concrete (b == nil) or a vector of byte terms.
type Str struct {
	s string
	b []*Term
}

func (s Str) length() int {
	if s.b != nil {
		return len(s.b)
	}
	return len(s.s)
}

func (s Str) at(i int) *Term {
	if s.b != nil {
		return s.b[i]
	}
	return smallConst[8][s.s[i]]
}

func (s Str) slice(lo, hi int) Str {
	if s.b != nil {
		return mkStr(s.b[lo:hi])
	}
	return Str{s: s.s[lo:hi]}
}

func (s Str) terms() []*Term {
	if s.b != nil {
		return s.b
	}
	r := make([]*Term, len(s.s))
	for i := range r {
		r[i] = smallConst[8][s.s[i]]
	}
	return r
}

func (s Str) concrete() (string, bool) {
	if s.b == nil {
		return s.s, true
	}
	return "", false
}

// mkStr builds a string from byte terms, normalising concrete contents.
func mkStr(b []*Term) Str {
	for _, t := range b {
		if !t.isConst() {
			return Str{b: b}
		}
	}
	bs := make([]byte, len(b))
	for i, t := range b {
		bs[i] = byte(t.k)
	}
	return Str{s: string(bs)}
}

// Object is a heap object: a flat vector of slots.
type Object struct {
	id      int64
	slots   []Value
	persist bool // created by package initialisation; undone after every path
	what    string
}

// Ptr points at a slot of an object.
type Ptr struct {
	obj *Object
	off int
	sym *symIndex // lazily resolved symbolic element
}

type symIndex struct {
	idx    *Term
	n      int
	stride int
}

type Slice struct {
	obj           *Object
	off, len, cap int // in elements; off in slots
	stride        int
}

type mapEntry struct {
	k, v Value
	dead bool
}

// MapObj is a map with insertion-ordered entries.
type MapObj struct {
	id      int64
	entries []*mapEntry
	idx     map[string]*mapEntry // concrete keys
	symKeys bool
	live    int
	persist bool
	keyT    types.Type
}

// Iface is an interface value; t == nil is nil.
type Iface struct {
	t types.Type
	v Value
}

// Closure is a function value.
type Closure struct {
	fn   *ssa.Function
	bi   *ssa.Builtin
	env  []Value
	recv Value // bound native method
	nat  func(w *Worker, args []Value) Value
}

type Agg []Value
type Tuple []Value

// RT is the payload of a reflect.Type value.
type RT struct{ t types.Type }

// RV is the payload of a reflect.Value.
type RV struct {
	t    types.Type
	v    Value
	addr *Ptr
	ro   bool
	emb  bool // read-only only because an embedded field is unexported
}

type layout struct {
	n      int
	offs   []int // field offsets (struct)
	stride int   // element slots (array)
	agg    bool
}

var layoutCache sync.Map

func layoutOf(t types.Type) *layout {
	if l, ok := layoutCache.Load(t); ok {
		return l.(*layout)
	}
	l := &layout{n: 1}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		l.agg = true
		l.n = 0
		for i := 0; i < u.NumFields(); i++ {
			l.offs = append(l.offs, l.n)
			l.n += layoutOf(u.Field(i).Type()).n
		}
	case *types.Array:
		l.agg = true
		l.stride = layoutOf(u.Elem()).n
		l.n = l.stride * int(u.Len())
	case *types.Tuple:
		l.agg = true
	}
	layoutCache.Store(t, l)
	return l
}

// basicWidth gives the bit width of a basic type (0 for bool).
func basicWidth(b *types.Basic) (uint8, bool) {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, true
	case types.Int8, types.Uint8:
		return 8, true
	case types.Int16, types.Uint16:
		return 16, true
	case types.Int32, types.Uint32, types.UntypedRune, types.Float32:
		return 32, true
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.UntypedInt, types.Float64, types.UntypedFloat:
		return 64, true
	}
	return 0, false
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func zeroScalar(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, ok := basicWidth(u); ok {
			return mkConst(w, 0)
		}
		switch u.Kind() {
		case types.String, types.UntypedString:
			return Str{}
		case types.UnsafePointer:
			return Ptr{}
		case types.UntypedNil:
			return Iface{}
		case types.Complex64, types.Complex128, types.UntypedComplex:
			return Native{complex128(0)}
		}
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return Slice{stride: layoutOf(u.Elem()).n}
	case *types.Map:
		return (*MapObj)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Chan:
		return Native{nil}
	}
	panic(unsupported("zero of " + t.String()))
}

// Native wraps an engine-internal value.
type Native struct{ v any }

func fillZero(t types.Type, dst []Value) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		o := 0
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			n := layoutOf(ft).n
			fillZero(ft, dst[o:o+n])
			o += n
		}
	case *types.Array:
		n := layoutOf(u.Elem()).n
		if n == 1 && u.Len() > 0 {
			fillZero(u.Elem(), dst[:1])
			for i := range dst {
				dst[i] = dst[0]
			}
			return
		}
		for i := 0; i < int(u.Len()); i++ {
			fillZero(u.Elem(), dst[i*n:(i+1)*n])
		}
	default:
		dst[0] = zeroScalar(t)
	}
}

func zeroValue(t types.Type) Value {
	if tt, ok := t.(*types.Tuple); ok {
		r := make(Tuple, tt.Len())
		for i := range r {
			r[i] = zeroValue(tt.At(i).Type())
		}
		return r
	}
	l := layoutOf(t)
	if l.agg {
		a := make(Agg, l.n)
		fillZero(t, a)
		return a
	}
	return zeroScalar(t)
}

type pathAbort struct {
	kind string // unsupported, limit, assume, violation, stop
	msg  string
}

func unsupported(msg string) *pathAbort { return &pathAbort{"unsupported", msg} }

// TargetPanic is a Go panic raised by the program under execution.
type TargetPanic struct {
	v     Iface
	where string
}

func isNilValue(v Value) bool {
	switch x := v.(type) {
	case Ptr:
		return x.obj == nil
	case Slice:
		return x.obj == nil
	case *MapObj:
		return x == nil
	case *Closure:
		return x == nil
	case Iface:
		return x.t == nil
	case Native:
		return x.v == nil
	}
	return false
}

func describe(v Value) string {
	switch x := v.(type) {
	case nil:
		return "<nil>"
	case *Term:
		if x.isConst() {
			return fmt.Sprintf("%d", sx(x.k, max(x.w, 1)))
		}
		return fmt.Sprintf("sym%d", x.id)
	case Str:
		if c, ok := x.concrete(); ok {
			return fmt.Sprintf("%q", c)
		}
		var sb strings.Builder
		for _, t := range x.b {
			if t.isConst() {
				sb.WriteByte(byte(t.k))
			} else {
				sb.WriteString("?")
			}
		}
		return fmt.Sprintf("sym%q", sb.String())
	case Iface:
		if x.t == nil {
			return "nil"
		}
		return x.t.String() + "(" + describe(x.v) + ")"
	case Ptr:
		if x.obj == nil {
			return "nil"
		}
		return fmt.Sprintf("&obj%d+%d", x.obj.id, x.off)
	}
	return fmt.Sprintf("%T", v)
}
