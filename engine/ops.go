package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strings"
	"unicode/utf8"
)

func (w *Worker) floatNeg(v *Term) Value {
	return w.st.Bin(OpBXor, v, mkConst(v.w, uint64(1)<<(v.w-1)))
}

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundSize(n int, noscan bool) int {
	h := 0
	if !noscan && n > 512 {
		h = 8
	}
	n += h
	for _, c := range sizeClasses {
		if n <= c {
			return c - h
		}
	}
	return (n + 8191) / 8192 * 8192
}

func hasPointers(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.String || u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPointers(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return u.Len() > 0 && hasPointers(u.Elem())
	}
	return true
}

// growCap models runtime.growslice's capacity choice.
func (w *Worker) growCap(et types.Type, oldCap, newLen int) int {
	newcap := oldCap
	switch {
	case newLen > 2*oldCap:
		newcap = newLen
	case oldCap < 256:
		newcap = 2 * oldCap
	default:
		for newcap < newLen {
			newcap += (newcap + 3*256) >> 2
		}
	}
	sz := int(w.eng.sizes.Sizeof(et))
	if sz == 0 {
		return newLen
	}
	return roundSize(newcap*sz, !hasPointers(et)) / sz
}

func (w *Worker) makeSlice(et types.Type, n, c int) Slice {
	l := layoutOf(et)
	o := w.newObj(l.n*c, "[]"+et.String())
	if c > 0 {
		z := zeroValue(et)
		if a, ok := z.(Agg); ok {
			for i := 0; i < c; i++ {
				copy(o.slots[i*l.n:], a)
			}
		} else {
			for i := range o.slots {
				o.slots[i] = z
			}
		}
	}
	return Slice{obj: o, len: n, cap: c, stride: l.n}
}

func (w *Worker) bytesSlice(b []*Term, c int) Slice {
	if c < len(b) {
		c = len(b)
	}
	o := w.newObj(c, "[]byte")
	for i, t := range b {
		o.slots[i] = t
	}
	for i := len(b); i < c; i++ {
		o.slots[i] = smallConst[8][0]
	}
	return Slice{obj: o, len: len(b), cap: c, stride: 1}
}

// sliceTerms returns the elements of a slice of scalars.
func (w *Worker) sliceTerms(s Slice) []*Term {
	r := make([]*Term, s.len)
	for i := range r {
		r[i] = s.obj.slots[s.off+i].(*Term)
	}
	return r
}

func (w *Worker) sliceStr(s Slice) Str { return mkStr(w.sliceTerms(s)) }

func (w *Worker) strIndex(s Str, i *Term) Value {
	w.boundsCheck(i, s.length())
	if i.isConst() {
		return s.at(int(i.k))
	}
	return w.selectTerm(s.terms(), i)
}

// ---- equality and ordering ----

func (w *Worker) strEq(a, b Str) *Term {
	if a.length() != b.length() {
		return tFalse
	}
	if a.b == nil && b.b == nil {
		return mkBool(a.s == b.s)
	}
	r := tTrue
	for i := 0; i < a.length(); i++ {
		r = w.st.And(r, w.st.Eq(a.at(i), b.at(i)))
		if r == tFalse {
			return r
		}
	}
	return r
}

func (w *Worker) strLess(a, b Str, orEq bool) *Term {
	if a.b == nil && b.b == nil {
		if orEq {
			return mkBool(a.s <= b.s)
		}
		return mkBool(a.s < b.s)
	}
	n := min(a.length(), b.length())
	var r *Term
	if orEq {
		r = mkBool(a.length() <= b.length())
	} else {
		r = mkBool(a.length() < b.length())
	}
	for i := n - 1; i >= 0; i-- {
		x, y := a.at(i), b.at(i)
		r = w.st.Or(w.st.Bin(OpUlt, x, y), w.st.And(w.st.Eq(x, y), r))
	}
	return r
}

func (w *Worker) ptrEq(a, b Ptr) *Term {
	if a.obj != b.obj {
		return tFalse
	}
	if a.obj == nil {
		return tTrue
	}
	if a.sym != nil || b.sym != nil {
		a, b = w.resolve(a), w.resolve(b)
	}
	return mkBool(a.off == b.off)
}

// eqValues compares two values of type t.
func (w *Worker) eqValues(t types.Type, a, b Value) *Term {
	switch x := a.(type) {
	case *Term:
		y := b.(*Term)
		if isFloat(t) {
			if x.isConst() && y.isConst() {
				return mkBool(toF(x) == toF(y))
			}
			return w.floatCmp("==", x, y)
		}
		return w.st.Eq(x, y)
	case Str:
		return w.strEq(x, b.(Str))
	case Ptr:
		return w.ptrEq(x, b.(Ptr))
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			w.unsup("compare interface with %T", b)
		}
		return w.ifaceEq(x, y)
	case *MapObj:
		y, _ := b.(*MapObj)
		return mkBool(x == y)
	case *Closure:
		y, _ := b.(*Closure)
		return mkBool(x == y)
	case Slice:
		y, _ := b.(Slice)
		return mkBool(x.obj == nil && y.obj == nil)
	case Native:
		y, _ := b.(Native)
		if rx, ok := x.v.(RT); ok {
			ry, ok := y.v.(RT)
			return mkBool(ok && types.Identical(rx.t, ry.t))
		}
		return mkBool(x.v == y.v)
	case Agg:
		y := b.(Agg)
		r := tTrue
		switch u := t.Underlying().(type) {
		case *types.Struct:
			o := 0
			for i := 0; i < u.NumFields(); i++ {
				ft := u.Field(i).Type()
				l := layoutOf(ft)
				if u.Field(i).Name() != "_" {
					if l.agg {
						r = w.st.And(r, w.eqValues(ft, x[o:o+l.n], y[o:o+l.n]))
					} else {
						r = w.st.And(r, w.eqValues(ft, x[o], y[o]))
					}
				}
				o += l.n
			}
		case *types.Array:
			l := layoutOf(u.Elem())
			for i := 0; i < int(u.Len()); i++ {
				if l.agg {
					r = w.st.And(r, w.eqValues(u.Elem(), x[i*l.n:(i+1)*l.n], y[i*l.n:(i+1)*l.n]))
				} else {
					r = w.st.And(r, w.eqValues(u.Elem(), x[i], y[i]))
				}
			}
		}
		return r
	}
	w.unsup("comparison of %T", a)
	return nil
}

func (w *Worker) ifaceEq(x, y Iface) *Term {
	if x.t == nil || y.t == nil {
		return mkBool(x.t == nil && y.t == nil)
	}
	if x.t != y.t && !types.Identical(x.t, y.t) {
		return tFalse
	}
	if !types.Comparable(x.t) {
		w.throw("comparing uncomparable type " + x.t.String())
	}
	return w.eqValues(x.t, x.v, y.v)
}

func toF(t *Term) float64 {
	if t.w == 32 {
		return float64(math.Float32frombits(uint32(t.k)))
	}
	return math.Float64frombits(t.k)
}

func fromF(w uint8, f float64) *Term {
	if w == 32 {
		return mkConst(32, uint64(math.Float32bits(float32(f))))
	}
	return mkConst(64, math.Float64bits(f))
}

// floatCmp compares float bit patterns by their IEEE order encoded over bit-vectors.
func (w *Worker) floatCmp(op string, x, y *Term) *Term {
	st := w.st
	wd := x.w
	mb := uint64(23)
	if wd == 64 {
		mb = 52
	}
	inf := mkConst(wd, (mask(wd)>>1)&^(uint64(1)<<mb-1))
	abs := func(t *Term) *Term { return st.Bin(OpBAnd, t, mkConst(wd, mask(wd)>>1)) }
	nan := st.Or(st.Bin(OpUlt, inf, abs(x)), st.Bin(OpUlt, inf, abs(y)))
	zero := mkConst(wd, 0)
	bothZero := st.And(st.Eq(abs(x), zero), st.Eq(abs(y), zero))
	neg := func(t *Term) *Term { return st.Bin(OpSlt, t, zero) }
	eq := st.Or(st.Eq(x, y), bothZero)
	lt := st.And(st.Not(bothZero), st.Ite(neg(x), st.Ite(neg(y), st.Bin(OpUlt, y, x), tTrue), st.Ite(neg(y), tFalse, st.Bin(OpUlt, x, y))))
	switch op {
	case "==":
		return st.And(st.Not(nan), eq)
	case "<":
		return st.And(st.Not(nan), lt)
	default: // <=
		return st.And(st.Not(nan), st.Or(lt, eq))
	}
}

func (w *Worker) binop(op token.Token, tx, ty types.Type, a, b Value) Value {
	st := w.st
	switch op {
	case token.EQL:
		return w.eqMixed(tx, ty, a, b)
	case token.NEQ:
		return st.Not(w.eqMixed(tx, ty, a, b))
	}
	if x, ok := a.(Str); ok {
		y := b.(Str)
		switch op {
		case token.ADD:
			if x.b == nil && y.b == nil {
				return Str{s: x.s + y.s}
			}
			t := make([]*Term, 0, x.length()+y.length())
			t = append(t, x.terms()...)
			t = append(t, y.terms()...)
			return mkStr(t)
		case token.LSS:
			return w.strLess(x, y, false)
		case token.LEQ:
			return w.strLess(x, y, true)
		case token.GTR:
			return w.strLess(y, x, false)
		case token.GEQ:
			return w.strLess(y, x, true)
		}
		w.unsup("string op %s", op)
	}
	x, ok := a.(*Term)
	if !ok {
		w.unsup("binop %s on %T", op, a)
	}
	y := b.(*Term)
	if isFloat(tx) {
		return w.floatOp(op, x, y)
	}
	signed := isSigned(tx)
	switch op {
	case token.ADD:
		return st.Bin(OpAdd, x, y)
	case token.SUB:
		return st.Bin(OpSub, x, y)
	case token.MUL:
		return st.Bin(OpMul, x, y)
	case token.QUO, token.REM:
		if y.isConst() {
			if y.k == 0 {
				w.throw("integer divide by zero")
			}
		} else if w.branch(st.Eq(y, mkConst(y.w, 0))) {
			w.throw("integer divide by zero")
		}
		if op == token.QUO {
			if signed {
				return w.sdiv(OpSDiv, OpUDiv, x, y)
			}
			return st.Bin(OpUDiv, x, y)
		}
		if signed {
			return w.sdiv(OpSRem, OpURem, x, y)
		}
		return st.Bin(OpURem, x, y)
	case token.AND:
		if x.w == 0 {
			return st.And(x, y)
		}
		return st.Bin(OpBAnd, x, y)
	case token.OR:
		if x.w == 0 {
			return st.Or(x, y)
		}
		return st.Bin(OpBOr, x, y)
	case token.XOR:
		return st.Bin(OpBXor, x, y)
	case token.AND_NOT:
		return st.Bin(OpBAnd, x, st.Un(OpBNot, y))
	case token.SHL, token.SHR:
		if isSigned(ty) {
			if y.isConst() {
				if sx(y.k, y.w) < 0 {
					w.throw("negative shift amount")
				}
			} else if w.branch(st.Bin(OpSlt, y, mkConst(y.w, 0))) {
				w.throw("negative shift amount")
			}
		}
		return w.shift(op, signed, x, y)
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		if op == token.GTR || op == token.GEQ {
			x, y = y, x
		}
		lt := op == token.LSS || op == token.GTR
		switch {
		case signed && lt:
			return st.Bin(OpSlt, x, y)
		case signed:
			return st.Bin(OpSle, x, y)
		case lt:
			return st.Bin(OpUlt, x, y)
		}
		return st.Bin(OpUle, x, y)
	}
	w.unsup("binop %s", op)
	return nil
}

// sdiv uses the unsigned operator when both operands are syntactically non-negative.
func (w *Worker) sdiv(s, u Op, x, y *Term) *Term {
	nn := func(t *Term) bool {
		return t.op == OpZext || t.isConst() && sx(t.k, t.w) >= 0
	}
	if nn(x) && nn(y) {
		return w.st.Bin(u, x, y)
	}
	return w.st.Bin(s, x, y)
}

func (w *Worker) shift(op token.Token, signed bool, x, y *Term) *Term {
	st := w.st
	o := OpShl
	if op == token.SHR {
		o = OpLShr
		if signed {
			o = OpAShr
		}
	}
	if y.isConst() {
		k := y.k
		if k >= uint64(x.w) {
			if o == OpAShr {
				k = uint64(x.w) - 1
			} else {
				return mkConst(x.w, 0)
			}
		}
		return st.Bin(o, x, mkConst(x.w, k))
	}
	if y.w <= x.w {
		return st.Bin(o, x, st.Zext(x.w, y)) // SMT shifts saturate as Go's do
	}
	big := st.Bin(OpUle, mkConst(y.w, uint64(x.w)), y)
	var over *Term
	if o == OpAShr {
		over = st.Bin(OpAShr, x, mkConst(x.w, uint64(x.w)-1))
	} else {
		over = mkConst(x.w, 0)
	}
	return st.Ite(big, over, st.Bin(o, x, st.Trunc(x.w, y)))
}

func (w *Worker) eqMixed(tx, ty types.Type, a, b Value) *Term {
	xi, xok := a.(Iface)
	yi, yok := b.(Iface)
	_, tix := tx.Underlying().(*types.Interface)
	_, tiy := ty.Underlying().(*types.Interface)
	if xok && yok && (tix || tiy) {
		return w.ifaceEq(xi, yi)
	}
	if tix && !tiy {
		return w.ifaceEq(xi, Iface{ty, b})
	}
	if tiy && !tix {
		return w.ifaceEq(Iface{tx, a}, yi)
	}
	// untyped nil operands
	if xok && xi.t == nil && !tix {
		return mkBool(isNilValue(b))
	}
	if yok && yi.t == nil && !tiy {
		return mkBool(isNilValue(a))
	}
	return w.eqValues(tx, a, b)
}

func (w *Worker) floatOp(op token.Token, x, y *Term) Value {
	switch op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if op == token.GTR || op == token.GEQ {
			x, y = y, x
		}
		if x.isConst() && y.isConst() {
			if op == token.LSS || op == token.GTR {
				return mkBool(toF(x) < toF(y))
			}
			return mkBool(toF(x) <= toF(y))
		}
		if op == token.LSS || op == token.GTR {
			return w.floatCmp("<", x, y)
		}
		return w.floatCmp("<=", x, y)
	}
	if !x.isConst() || !y.isConst() {
		return w.st.UF("fp"+op.String()+fmt.Sprint(x.w), x.w, x, y)
	}
	a, b := toF(x), toF(y)
	switch op {
	case token.ADD:
		return fromF(x.w, a+b)
	case token.SUB:
		return fromF(x.w, a-b)
	case token.MUL:
		return fromF(x.w, a*b)
	case token.QUO:
		return fromF(x.w, a/b)
	}
	w.unsup("float op %s", op)
	return nil
}

// ---- conversions ----

func (w *Worker) convert(from, to types.Type, v Value, isConst bool) Value {
	st := w.st
	fu, tu := from.Underlying(), to.Underlying()
	// type parameters never occur: generics are instantiated
	if tb, ok := tu.(*types.Basic); ok {
		switch {
		case tb.Info()&types.IsString != 0:
			switch x := v.(type) {
			case Str:
				return x
			case Slice:
				et := fu.(*types.Slice).Elem().Underlying().(*types.Basic)
				if et.Kind() == types.Byte || et.Kind() == types.Uint8 {
					return w.sliceStr(x)
				}
				var out []*Term
				for i := 0; i < x.len; i++ {
					out = append(out, w.encodeRune(x.obj.slots[x.off+i].(*Term))...)
				}
				return mkStr(out)
			case *Term:
				return mkStr(w.encodeRune(toInt(st, x, from)))
			}
		case tb.Kind() == types.UnsafePointer:
			if p, ok := v.(Ptr); ok {
				return p
			}
			if t, ok := v.(*Term); ok && t.isConst() && t.k == 0 {
				return Ptr{}
			}
		case tb.Info()&types.IsInteger != 0:
			wd, _ := basicWidth(tb)
			if t, ok := v.(*Term); ok {
				if isFloat(from) {
					if !t.isConst() {
						return st.UF("f2i"+fmt.Sprint(t.w)+"_"+fmt.Sprint(wd)+fmt.Sprint(isSigned(to)), wd, t)
					}
					f := toF(t)
					if isSigned(to) {
						return mkConst(wd, uint64(int64(f)))
					}
					return mkConst(wd, uint64(f))
				}
				if t.w == wd {
					return t
				}
				if t.w > wd {
					return st.Trunc(wd, t)
				}
				if isSigned(from) {
					return st.Sext(wd, t)
				}
				return st.Zext(wd, t)
			}
			if p, ok := v.(Ptr); ok { // uintptr(unsafe.Pointer)
				if p.obj == nil {
					return mkConst(wd, 0)
				}
				return mkConst(wd, uint64(p.obj.id)<<20+uint64(p.off)*8+1<<40)
			}
		case tb.Info()&types.IsFloat != 0:
			wd, _ := basicWidth(tb)
			t := v.(*Term)
			if isFloat(from) {
				if t.w == wd {
					return t
				}
				if t.isConst() {
					return fromF(wd, toF(t))
				}
				if wd == 64 {
					return st.UF("f32to64", 64, t)
				}
				if t.op == OpUF && t.name == "f32to64" {
					return t.args[0]
				}
				return st.UF("f64to32", 32, t)
			}
			if !t.isConst() {
				return st.UF(fmt.Sprintf("i2f%d_%d%v", t.w, wd, isSigned(from)), wd, t)
			}
			if isSigned(from) {
				return fromF(wd, float64(sx(t.k, t.w)))
			}
			return fromF(wd, float64(t.k))
		case tb.Info()&types.IsBoolean != 0:
			return v
		}
	}
	if ts, ok := tu.(*types.Slice); ok {
		if s, ok := v.(Str); ok {
			eb := ts.Elem().Underlying().(*types.Basic)
			if eb.Kind() == types.Byte || eb.Kind() == types.Uint8 {
				n := s.length()
				c := n
				if !isConst {
					c = roundSize(n, true)
				}
				return w.bytesSlice(s.terms(), c)
			}
			var rs []Value
			it := &strIter{s: s}
			for {
				ok, _, r := w.strNext(it)
				if !ok {
					break
				}
				rs = append(rs, r)
			}
			sl := w.makeSlice(ts.Elem(), len(rs), len(rs))
			copy(sl.obj.slots, rs)
			return sl
		}
		return v
	}
	if _, ok := tu.(*types.Pointer); ok {
		if p, ok := v.(Ptr); ok {
			return p
		}
	}
	switch v.(type) {
	case Ptr, Slice, *MapObj, *Closure, Iface, Agg, Native:
		return v
	}
	w.unsup("conversion %s -> %s (%T)", from, to, v)
	return nil
}

// encodeRune gives the UTF-8 bytes of a rune term, forking on its length.
func (w *Worker) encodeRune(r *Term) []*Term {
	st := w.st
	if r.isConst() {
		v := sx(r.k, r.w)
		rr := rune(v)
		if v < 0 || v > utf8.MaxRune {
			rr = utf8.RuneError
		}
		return Str{s: string(rr)}.terms()
	}
	u := r
	if u.w < 32 {
		u = st.Zext(32, u)
	}
	wd := u.w
	c := func(k uint64) *Term { return mkConst(wd, k) }
	by := func(t *Term) *Term { return st.Trunc(8, t) }
	lo := func(t *Term, sh uint64) *Term {
		return by(st.Bin(OpBOr, c(0x80), st.Bin(OpBAnd, st.Bin(OpLShr, t, c(sh)), c(0x3f))))
	}
	if w.branch(st.Bin(OpUlt, u, c(0x80))) {
		return []*Term{by(u)}
	}
	if w.branch(st.Bin(OpUlt, u, c(0x800))) {
		return []*Term{by(st.Bin(OpBOr, c(0xc0), st.Bin(OpLShr, u, c(6)))), lo(u, 0)}
	}
	surr := st.And(st.Bin(OpUle, c(0xd800), u), st.Bin(OpUle, u, c(0xdfff)))
	bad := st.Or(surr, st.Bin(OpUlt, c(0x10ffff), u))
	if w.branch(bad) {
		return Str{s: string(utf8.RuneError)}.terms()
	}
	if w.branch(st.Bin(OpUlt, u, c(0x10000))) {
		return []*Term{by(st.Bin(OpBOr, c(0xe0), st.Bin(OpLShr, u, c(12)))), lo(u, 6), lo(u, 0)}
	}
	return []*Term{by(st.Bin(OpBOr, c(0xf0), st.Bin(OpLShr, u, c(18)))), lo(u, 12), lo(u, 6), lo(u, 0)}
}

// ---- maps ----

func concKey(k Value) (string, bool) {
	switch x := k.(type) {
	case *Term:
		if x.isConst() {
			return fmt.Sprintf("i%d:%d", x.w, x.k), true
		}
	case Str:
		if c, ok := x.concrete(); ok {
			return "s" + c, true
		}
	case Iface:
		if x.t == nil {
			return "nil", true
		}
		if s, ok := concKey(x.v); ok {
			return "I" + types.TypeString(x.t, nil) + "|" + s, true
		}
	case Ptr:
		if x.obj == nil {
			return "p0", true
		}
		if x.sym == nil {
			return fmt.Sprintf("p%d.%d", x.obj.id, x.off), true
		}
	case Agg:
		var sb strings.Builder
		sb.WriteString("A")
		for _, e := range x {
			s, ok := concKey(e)
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%d:%s", len(s), s)
		}
		return sb.String(), true
	case Native:
		if rt, ok := x.v.(RT); ok {
			return "T" + types.TypeString(rt.t, nil), true
		}
	}
	return "", false
}

func (w *Worker) checkHashable(k Value) {
	if i, ok := k.(Iface); ok && i.t != nil && !types.Comparable(i.t) {
		w.throw("hash of unhashable type " + i.t.String())
	}
}

func (w *Worker) mapFind(m *MapObj, k Value) *mapEntry {
	w.checkHashable(k)
	ks, conc := concKey(k)
	if conc && !m.symKeys {
		return m.idx[ks]
	}
	if conc {
		if e := m.idx[ks]; e != nil {
			return e
		}
	}
	for _, e := range m.entries {
		if e.dead {
			continue
		}
		if conc {
			if _, ec := concKey(e.k); ec {
				continue
			}
		}
		if w.branch(w.eqValues(m.keyT, e.k, k)) {
			return e
		}
	}
	return nil
}

func (w *Worker) mapLookup(m *MapObj, k Value) (Value, bool) {
	if m == nil {
		w.checkHashable(k)
		return nil, false
	}
	if e := w.mapFind(m, k); e != nil {
		return e.v, true
	}
	return nil, false
}

func (w *Worker) mapUpdate(m *MapObj, k, v Value) {
	if m == nil {
		w.throw("assignment to entry in nil map")
	}
	w.touchMap(m)
	if e := w.mapFind(m, k); e != nil {
		e.v = v
		return
	}
	e := &mapEntry{k: k, v: v}
	m.entries = append(m.entries, e)
	m.live++
	if ks, ok := concKey(k); ok {
		m.idx[ks] = e
	} else {
		m.symKeys = true
	}
}

func (w *Worker) mapDelete(m *MapObj, k Value) {
	if m == nil {
		return
	}
	w.touchMap(m)
	if e := w.mapFind(m, k); e != nil {
		e.dead = true
		m.live--
		if ks, ok := concKey(e.k); ok {
			delete(m.idx, ks)
		}
	}
}

// ---- iteration ----

type strIter struct {
	s   Str
	pos int
}

type mapIter struct {
	m    *MapObj
	rest []*mapEntry
	mode int
}

func (w *Worker) rangeIter(v Value) Value {
	switch x := v.(type) {
	case Str:
		return Native{&strIter{s: x}}
	case *MapObj:
		it := &mapIter{m: x}
		if x != nil {
			for _, e := range x.entries {
				if !e.dead {
					it.rest = append(it.rest, e)
				}
			}
		}
		n := len(it.rest)
		if w.initing > 0 || !w.mapSched || n < 2 {
			it.mode = -1
		} else if n > w.eng.fullPerm {
			// a few representative orders: insertion, reverse, rotations
			it.mode = -1
			switch c := w.choice(4, 'M'); c {
			case 1:
				for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
					it.rest[i], it.rest[j] = it.rest[j], it.rest[i]
				}
			case 2:
				it.rest = append(it.rest[1:], it.rest[0])
			case 3:
				h := n / 2
				it.rest = append(append([]*mapEntry{}, it.rest[h:]...), it.rest[:h]...)
			}
		}
		return Native{it}
	}
	w.unsup("range over %T", v)
	return nil
}

func (w *Worker) nextIter(v any, tt *types.Tuple) Value {
	switch it := v.(type) {
	case *strIter:
		ok, pos, r := w.strNext(it)
		if !ok {
			return Tuple{tFalse, mkInt(0), mkConst(32, 0)}
		}
		return Tuple{tTrue, mkInt(pos), r}
	case *mapIter:
		for len(it.rest) > 0 {
			i := 0
			if it.mode == 0 {
				i = w.choice(len(it.rest), 'M')
			}
			e := it.rest[i]
			if i == 0 {
				it.rest = it.rest[1:]
			} else {
				it.rest = append(append([]*mapEntry{}, it.rest[:i]...), it.rest[i+1:]...)
			}
			if !e.dead {
				return Tuple{tTrue, e.k, e.v}
			}
		}
		z := Tuple{tFalse, nil, nil}
		for i := 1; i < 3; i++ {
			if t := tt.At(i).Type(); t != nil && t != types.Typ[types.Invalid] {
				z[i] = zeroValue(t)
			}
		}
		return z
	}
	w.unsup("next on %T", v)
	return nil
}

func (w *Worker) strNext(it *strIter) (bool, int, *Term) {
	n := it.s.length()
	if it.pos >= n {
		return false, 0, nil
	}
	p := it.pos
	if c, ok := it.s.concrete(); ok {
		r, sz := utf8.DecodeRuneInString(c[p:])
		it.pos += sz
		return true, p, mkConst(32, uint64(uint32(r)))
	}
	b := it.s.at(p)
	if w.branch(w.st.Bin(OpUlt, b, mkConst(8, 0x80))) {
		it.pos++
		return true, p, w.st.Zext(32, b)
	}
	end := min(n, p+4)
	res := w.call(w.eng.decodeRune, []Value{it.s.slice(p, end)}, nil).(Tuple)
	sz := int(w.pick(res[1].(*Term), 8))
	it.pos += sz
	return true, p, res[0].(*Term)
}

// ---- interfaces ----

func (w *Worker) implements(t types.Type, it types.Type) bool {
	key := implKey{t, it}
	if r, ok := w.impl[key]; ok {
		return r
	}
	r := types.Implements(t, it.Underlying().(*types.Interface))
	w.impl[key] = r
	return r
}

func (w *Worker) identical(a, b types.Type) bool {
	if a == b {
		return true
	}
	key := implKey{a, b}
	if r, ok := w.impl[key]; ok {
		return r
	}
	r := types.Identical(a, b)
	w.impl[key] = r
	return r
}

func (w *Worker) typeAssert(v Value, t types.Type, commaOk bool) Value {
	x := v.(Iface)
	ok := false
	var res Value
	if x.t != nil {
		if _, isI := t.Underlying().(*types.Interface); isI {
			if w.implements(x.t, t) {
				ok, res = true, x
			}
		} else if w.identical(x.t, t) {
			ok, res = true, x.v
		}
	}
	if !ok {
		if !commaOk {
			from := "nil"
			if x.t != nil {
				from = x.t.String()
			}
			w.throw("interface conversion: interface is " + from + ", not " + t.String())
		}
		res = zeroValue(t)
	}
	if commaOk {
		return Tuple{res, mkBool(ok)}
	}
	return res
}

// ---- builtins ----

func (w *Worker) appendSlice(et types.Type, a Slice, n int, get func(i int) []Value) Slice {
	if n == 0 {
		return a
	}
	st := layoutOf(et).n
	if a.stride == 0 {
		a.stride = st
	}
	nl := a.len + n
	if nl <= a.cap {
		w.touch(a.obj)
		tmp := make([]Value, 0, n*st)
		for i := 0; i < n; i++ {
			tmp = append(tmp, get(i)...)
		}
		copy(a.obj.slots[a.off+a.len*st:], tmp)
		a.len = nl
		return a
	}
	c := w.growCap(et, a.cap, nl)
	r := w.makeSlice(et, nl, c)
	if a.obj != nil {
		copy(r.obj.slots, a.obj.slots[a.off:a.off+a.len*st])
	}
	for i := 0; i < n; i++ {
		copy(r.obj.slots[(a.len+i)*st:], get(i))
	}
	return r
}

func (w *Worker) builtin(fr *frame, name string, vs []Value, ts []types.Type, sig *types.Signature) Value {
	st := w.st
	switch name {
	case "len":
		switch x := vs[0].(type) {
		case Str:
			return mkInt(x.length())
		case Slice:
			return mkInt(x.len)
		case *MapObj:
			if x == nil {
				return mkInt(0)
			}
			return mkInt(x.live)
		}
		if at, ok := ts[0].Underlying().(*types.Array); ok {
			return mkInt(int(at.Len()))
		}
		if pt, ok := ts[0].Underlying().(*types.Pointer); ok {
			return mkInt(int(pt.Elem().Underlying().(*types.Array).Len()))
		}
	case "cap":
		switch x := vs[0].(type) {
		case Slice:
			return mkInt(x.cap)
		}
		if at, ok := ts[0].Underlying().(*types.Array); ok {
			return mkInt(int(at.Len()))
		}
	case "append":
		a := vs[0].(Slice)
		et := ts[0].Underlying().(*types.Slice).Elem()
		if len(vs) == 1 {
			return a
		}
		switch b := vs[1].(type) {
		case Str:
			return w.appendSlice(et, a, b.length(), func(i int) []Value { return []Value{b.at(i)} })
		case Slice:
			sd := layoutOf(et).n
			if b.len > 0 && b.obj == nil && sd > 0 {
				w.unsup("append of corrupt slice")
			}
			return w.appendSlice(et, a, b.len, func(i int) []Value {
				return b.obj.slots[b.off+i*sd : b.off+(i+1)*sd]
			})
		}
	case "copy":
		a := vs[0].(Slice)
		switch b := vs[1].(type) {
		case Str:
			n := min(a.len, b.length())
			if n > 0 {
				w.touch(a.obj)
			}
			for i := 0; i < n; i++ {
				a.obj.slots[a.off+i] = b.at(i)
			}
			return mkInt(n)
		case Slice:
			n := min(a.len, b.len)
			if n > 0 {
				w.touch(a.obj)
				copy(a.obj.slots[a.off:a.off+n*a.stride], b.obj.slots[b.off:b.off+n*b.stride])
			}
			return mkInt(n)
		}
	case "delete":
		w.mapDelete(vs[0].(*MapObj), vs[1])
		return nil
	case "clear":
		switch x := vs[0].(type) {
		case *MapObj:
			if x != nil {
				w.touchMap(x)
				for _, e := range x.entries {
					e.dead = true
				}
				x.entries = nil
				x.idx = map[string]*mapEntry{}
				x.live = 0
				x.symKeys = false
			}
		case Slice:
			if x.len > 0 {
				w.touch(x.obj)
				et := ts[0].Underlying().(*types.Slice).Elem()
				for i := 0; i < x.len; i++ {
					fillZero(et, x.obj.slots[x.off+i*x.stride:x.off+(i+1)*x.stride])
				}
			}
		}
		return nil
	case "panic":
		panic(&TargetPanic{v: vs[0].(Iface), where: fr.c.fn.String()})
	case "recover":
		c := fr.caller
		if c != nil && c.panicking {
			c.panicking = false
			return c.panicVal.(*TargetPanic).v
		}
		return Iface{}
	case "print", "println":
		return nil
	case "min", "max":
		r := vs[0]
		for _, v := range vs[1:] {
			var c *Term
			switch x := v.(type) {
			case Str:
				c = w.strLess(x, r.(Str), false)
				if name == "max" {
					c = w.strLess(r.(Str), x, false)
				}
				if w.branch(c) {
					r = x
				}
				continue
			case *Term:
				op := token.LSS
				if name == "max" {
					op = token.GTR
				}
				c = w.binop(op, ts[0], ts[0], x, r).(*Term)
				r = st.Ite(c, x, r.(*Term))
			default:
				w.unsup("min/max of %T", v)
			}
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := vs[0].(Ptr); ok && p.obj == nil {
			w.throw("invalid memory address or nil pointer dereference (nil receiver)")
		}
		return vs[0]
	case "ssa:deferstack":
		return Native{fr}
	case "String": // unsafe.String
		p := vs[0].(Ptr)
		n := int(w.pick(toInt(st, vs[1], ts[1]), 256))
		if n == 0 {
			return Str{}
		}
		b := make([]*Term, n)
		for i := range b {
			b[i] = p.obj.slots[p.off+i].(*Term)
		}
		return mkStr(b)
	case "StringData":
		s := vs[0].(Str)
		sl := w.bytesSlice(s.terms(), s.length())
		return Ptr{obj: sl.obj}
	case "SliceData":
		s := vs[0].(Slice)
		return Ptr{obj: s.obj, off: s.off}
	case "Slice":
		p := vs[0].(Ptr)
		n := int(w.pick(toInt(st, vs[1], ts[1]), 256))
		et := ts[0].Underlying().(*types.Pointer).Elem()
		if p.obj == nil {
			return Slice{stride: layoutOf(et).n}
		}
		return Slice{obj: p.obj, off: p.off, len: n, cap: n, stride: layoutOf(et).n}
	case "close":
	case "Add":
		p := vs[0].(Ptr)
		n := int(w.pick(toInt(st, vs[1], ts[1]), 256))
		if n == 0 {
			return p
		}
	}
	w.unsup("builtin %s", name)
	return nil
}
