package main

import (
	"fmt"
	"math/bits"
	"strings"
)

// Op is the operator of a Term.
type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpUF
	OpNot // bool
	OpAnd
	OpOr
	OpXorB
	OpEq // any sort -> bool
	OpIte
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpURem
	OpSDiv
	OpSRem
	OpBAnd
	OpBOr
	OpBXor
	OpBNot
	OpNeg
	OpShl
	OpLShr
	OpAShr
	OpZext
	OpSext
	OpExtract // low w bits (truncate)
)

var opNames = map[Op]string{OpNot: "not", OpAnd: "and", OpOr: "or", OpXorB: "xor", OpEq: "=", OpIte: "ite", OpUlt: "bvult", OpUle: "bvule", OpSlt: "bvslt", OpSle: "bvsle", OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUDiv: "bvudiv", OpURem: "bvurem", OpSDiv: "bvsdiv", OpSRem: "bvsrem", OpBAnd: "bvand", OpBOr: "bvor", OpBXor: "bvxor", OpBNot: "bvnot", OpNeg: "bvneg", OpShl: "bvshl", OpLShr: "bvlshr", OpAShr: "bvashr"}

// Term is a hash-consed SMT term: w == 0 is Bool, otherwise a bit-vector of w bits.
// Constants are not hash-consed; compare terms with same().
type Term struct {
	op   Op
	w    uint8
	id   int32 // >0 for hash-consed terms, 0 for constants
	k    uint64
	name string
	args []*Term
	uf   bool // contains an uninterpreted function application
}

func (t *Term) isConst() bool { return t.op == OpConst }

func same(a, b *Term) bool {
	return a == b || (a.op == OpConst && b.op == OpConst && a.w == b.w && a.k == b.k)
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sx(k uint64, w uint8) int64 {
	if w >= 64 {
		return int64(k)
	}
	s := 64 - uint(w)
	return int64(k<<s) >> s
}

var smallConst [65][]*Term
var tTrue = &Term{op: OpConst, w: 0, k: 1}
var tFalse = &Term{op: OpConst, w: 0, k: 0}

func init() {
	for _, w := range []uint8{8, 16, 32, 64} {
		smallConst[w] = make([]*Term, 1024)
		for i := range smallConst[w] {
			smallConst[w][i] = &Term{op: OpConst, w: w, k: uint64(i) & mask(w)}
		}
	}
}

func mkConst(w uint8, k uint64) *Term {
	if w == 0 {
		return mkBool(k != 0)
	}
	k &= mask(w)
	if k < 1024 && smallConst[w] != nil {
		return smallConst[w][k]
	}
	return &Term{op: OpConst, w: w, k: k}
}

func mkInt(i int) *Term { return mkConst(64, uint64(int64(i))) }

func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

type tkey struct {
	op         Op
	w          uint8
	k          uint64
	a, b, c    int32
	ak, bk, ck uint64
}

// Store hash-conses terms; one per worker.
type Store struct {
	tables     map[int32][4]uint64 // truth tables of conditions over one byte
	byteModels map[int32][]*Model  // the 256 values of a byte
	m          map[tkey]*Term
	vars       map[string]*Term
	ufs        map[string]*Term
	next       int32

	varSets  map[int32][]*Term
	verdicts map[string]verdict
}

// verdict is a cached solver answer for a set of conjuncts.
type verdict struct {
	r    SatResult
	vals map[int32]uint64
}

// ufVar stands for all uninterpreted functions in variable sets: formulas that mention any are never separated.
var ufVar = &Term{op: OpVar, w: 8, name: "uf", id: -1}

// varsOf lists the variables of a term.
func (s *Store) varsOf(t *Term) []*Term {
	if t.isConst() {
		return nil
	}
	if t.op == OpVar {
		return []*Term{t}
	}
	if vs, ok := s.varSets[t.id]; ok {
		return vs
	}
	var out []*Term
	if t.op == OpUF {
		out = append(out, ufVar)
	}
	for _, a := range t.args {
	next:
		for _, v := range s.varsOf(a) {
			for _, o := range out {
				if o == v {
					continue next
				}
			}
			out = append(out, v)
		}
	}
	s.varSets[t.id] = out
	return out
}

func newStore() *Store {
	return &Store{m: map[tkey]*Term{}, vars: map[string]*Term{}, ufs: map[string]*Term{}, next: 1, varSets: map[int32][]*Term{}, verdicts: map[string]verdict{}, tables: map[int32][4]uint64{}, byteModels: map[int32][]*Model{}}
}

func (s *Store) mk(op Op, w uint8, k uint64, args ...*Term) *Term {
	key := tkey{op: op, w: w, k: k}
	uf := false
	for i, a := range args {
		switch i {
		case 0:
			key.a, key.ak = a.id, 0
			if a.id == 0 {
				key.ak = a.k
				key.a = -1 - int32(a.w)
			}
		case 1:
			key.b, key.bk = a.id, 0
			if a.id == 0 {
				key.bk = a.k
				key.b = -1 - int32(a.w)
			}
		case 2:
			key.c, key.ck = a.id, 0
			if a.id == 0 {
				key.ck = a.k
				key.c = -1 - int32(a.w)
			}
		}
		uf = uf || a.uf
	}
	if t, ok := s.m[key]; ok {
		return t
	}
	cp := make([]*Term, len(args))
	copy(cp, args)
	t := &Term{op: op, w: w, k: k, args: cp, id: s.next, uf: uf}
	s.next++
	s.m[key] = t
	return t
}

// Var returns the variable of that name and width.
func (s *Store) Var(name string, w uint8) *Term {
	if t, ok := s.vars[name]; ok {
		return t
	}
	t := &Term{op: OpVar, w: w, name: name, id: s.next}
	s.next++
	s.vars[name] = t
	return t
}

// UF applies an uninterpreted function.
func (s *Store) UF(name string, w uint8, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(name)
	for _, a := range args {
		if a.id == 0 {
			fmt.Fprintf(&sb, ",c%d:%d", a.w, a.k)
		} else {
			fmt.Fprintf(&sb, ",%d", a.id)
		}
	}
	key := sb.String()
	if t, ok := s.ufs[key]; ok {
		return t
	}
	cp := make([]*Term, len(args))
	copy(cp, args)
	t := &Term{op: OpUF, w: w, name: name, args: cp, id: s.next, uf: true}
	s.next++
	s.ufs[key] = t
	return t
}

func (s *Store) Not(a *Term) *Term {
	if a.isConst() {
		return mkBool(a.k == 0)
	}
	if a.op == OpNot {
		return a.args[0]
	}
	return s.mk(OpNot, 0, 0, a)
}

func isNeg(a, b *Term) bool {
	return (a.op == OpNot && a.args[0] == b) || (b.op == OpNot && b.args[0] == a)
}

func (s *Store) And(a, b *Term) *Term {
	if a.isConst() {
		if a.k == 0 {
			return tFalse
		}
		return b
	}
	if b.isConst() {
		if b.k == 0 {
			return tFalse
		}
		return a
	}
	if a == b {
		return a
	}
	if isNeg(a, b) {
		return tFalse
	}
	return s.mk(OpAnd, 0, 0, a, b)
}

func (s *Store) Or(a, b *Term) *Term {
	if a.isConst() {
		if a.k == 1 {
			return tTrue
		}
		return b
	}
	if b.isConst() {
		if b.k == 1 {
			return tTrue
		}
		return a
	}
	if a == b {
		return a
	}
	if isNeg(a, b) {
		return tTrue
	}
	return s.mk(OpOr, 0, 0, a, b)
}

func (s *Store) Eq(a, b *Term) *Term {
	if same(a, b) {
		return tTrue
	}
	if a.isConst() && b.isConst() {
		return mkBool(a.k == b.k)
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d", a.w, b.w))
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.w == 0 {
		if b.isConst() {
			if b.k == 1 {
				return a
			}
			return s.Not(a)
		}
	}
	if b.isConst() {
		switch a.op {
		case OpUDiv:
			if b.k == 0 && a.args[1].isConst() && a.args[1].k != 0 {
				return s.Bin(OpUlt, a.args[0], a.args[1])
			}
		case OpZext:
			x := a.args[0]
			if b.k > mask(x.w) {
				return tFalse
			}
			return s.Eq(x, mkConst(x.w, b.k))
		case OpSext:
			x := a.args[0]
			if uint64(sx(b.k&mask(x.w), x.w))&mask(a.w) != b.k {
				return tFalse
			}
			return s.Eq(x, mkConst(x.w, b.k))
		case OpIte:
			// ite of constants compared with a constant
			if a.args[1].isConst() && a.args[2].isConst() {
				t1, t2 := a.args[1].k == b.k, a.args[2].k == b.k
				switch {
				case t1 && t2:
					return tTrue
				case t1:
					return a.args[0]
				case t2:
					return s.Not(a.args[0])
				}
				return tFalse
			}
		}
	} else if a.op == OpZext && b.op == OpZext && a.args[0].w == b.args[0].w {
		return s.Eq(a.args[0], b.args[0])
	} else if a.id > b.id {
		a, b = b, a
	}
	return s.mk(OpEq, 0, 0, a, b)
}

func (s *Store) Ite(c, a, b *Term) *Term {
	if c.isConst() {
		if c.k == 1 {
			return a
		}
		return b
	}
	if same(a, b) {
		return a
	}
	if a.w == 0 {
		if a.isConst() && b.isConst() {
			if a.k == 1 {
				return c
			}
			return s.Not(c)
		}
		if a.isConst() {
			if a.k == 1 {
				return s.Or(c, b)
			}
			return s.And(s.Not(c), b)
		}
		if b.isConst() {
			if b.k == 1 {
				return s.Or(s.Not(c), a)
			}
			return s.And(c, a)
		}
	}
	return s.mk(OpIte, a.w, 0, c, a, b)
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// evalOp computes an operator on constants.
func evalOp(op Op, w uint8, aw uint8, a, b uint64) uint64 {
	switch op {
	case OpNot:
		return a ^ 1
	case OpAnd, OpBAnd:
		return a & b
	case OpOr, OpBOr:
		return a | b
	case OpXorB, OpBXor:
		return a ^ b
	case OpEq:
		return b2u(a == b)
	case OpUlt:
		return b2u(a < b)
	case OpUle:
		return b2u(a <= b)
	case OpSlt:
		return b2u(sx(a, aw) < sx(b, aw))
	case OpSle:
		return b2u(sx(a, aw) <= sx(b, aw))
	case OpAdd:
		return (a + b) & mask(w)
	case OpSub:
		return (a - b) & mask(w)
	case OpMul:
		return (a * b) & mask(w)
	case OpUDiv:
		if b == 0 {
			return mask(w)
		}
		return a / b
	case OpURem:
		if b == 0 {
			return a
		}
		return a % b
	case OpSDiv:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return mask(w)
		}
		if y == -1 {
			return uint64(-x) & mask(w)
		}
		return uint64(x/y) & mask(w)
	case OpSRem:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & mask(w)
	case OpBNot:
		return ^a & mask(w)
	case OpNeg:
		return -a & mask(w)
	case OpShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & mask(w)
	case OpLShr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OpAShr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sx(a, w)>>b) & mask(w)
	case OpZext:
		return a
	case OpSext:
		return uint64(sx(a, aw)) & mask(w)
	case OpExtract:
		return a & mask(w)
	}
	panic("evalOp")
}

// Bin builds a binary bit-vector operation or comparison.
func (s *Store) Bin(op Op, a, b *Term) *Term {
	w := a.w
	rw := w
	switch op {
	case OpUlt, OpUle, OpSlt, OpSle:
		rw = 0
	}
	if a.isConst() && b.isConst() {
		return mkConst(rw, evalOp(op, rw, w, a.k, b.k))
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Bin %v width mismatch %d %d", op, a.w, b.w))
	}
	switch op {
	case OpUlt:
		if a == b {
			return tFalse
		}
		if b.isConst() {
			if b.k == 0 {
				return tFalse
			}
			if a.op == OpZext && b.k > mask(a.args[0].w) {
				return tTrue
			}
			if a.op == OpZext {
				return s.Bin(OpUlt, a.args[0], mkConst(a.args[0].w, b.k))
			}
		}
		if a.isConst() && b.op == OpZext {
			if a.k >= mask(b.args[0].w) {
				return tFalse
			}
			return s.Bin(OpUlt, mkConst(b.args[0].w, a.k), b.args[0])
		}
		// x/c < d is x < c*d, d < x/c is x >= c*(d+1)
		if b.isConst() && a.op == OpUDiv && a.args[1].isConst() && a.args[1].k != 0 {
			if hi, lo := bits.Mul64(a.args[1].k, b.k); hi == 0 && lo <= mask(w) {
				return s.Bin(OpUlt, a.args[0], mkConst(w, lo))
			}
			return tTrue
		}
		if a.isConst() && b.op == OpUDiv && b.args[1].isConst() && b.args[1].k != 0 && a.k < mask(w) {
			if hi, lo := bits.Mul64(b.args[1].k, a.k+1); hi == 0 && lo <= mask(w) {
				return s.Not(s.Bin(OpUlt, b.args[0], mkConst(w, lo)))
			}
			return tFalse
		}
		if a.op == OpZext && b.op == OpZext && a.args[0].w == b.args[0].w {
			return s.Bin(OpUlt, a.args[0], b.args[0])
		}
	case OpUle:
		return s.Not(s.Bin(OpUlt, b, a))
	case OpSle:
		return s.Not(s.Bin(OpSlt, b, a))
	case OpSlt:
		if a == b {
			return tFalse
		}
		// zero-extended operands are non-negative
		if a.op == OpZext && b.isConst() {
			if sx(b.k, w) <= 0 {
				return tFalse
			}
			return s.Bin(OpUlt, a, b)
		}
		if b.op == OpZext && a.isConst() {
			if sx(a.k, w) < 0 {
				return tTrue
			}
			return s.Bin(OpUlt, a, b)
		}
		if a.op == OpZext && b.op == OpZext {
			return s.Bin(OpUlt, a, b)
		}
		if a.op == OpSext && b.isConst() {
			x := a.args[0]
			bk := sx(b.k, w)
			hi := int64(1) << (x.w - 1)
			if bk >= hi {
				return tTrue
			}
			if bk < -hi {
				return tFalse
			}
			return s.Bin(OpSlt, x, mkConst(x.w, b.k))
		}
		if b.op == OpSext && a.isConst() {
			x := b.args[0]
			ak := sx(a.k, w)
			hi := int64(1) << (x.w - 1)
			if ak >= hi-1 {
				return tFalse
			}
			if ak < -hi {
				return tTrue
			}
			return s.Bin(OpSlt, mkConst(x.w, a.k), x)
		}
	case OpAdd:
		if b.isConst() && b.k == 0 {
			return a
		}
		if a.isConst() && a.k == 0 {
			return b
		}
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && a.op == OpAdd && a.args[1].isConst() {
			return s.Bin(OpAdd, a.args[0], mkConst(w, a.args[1].k+b.k))
		}
	case OpSub:
		if b.isConst() {
			return s.Bin(OpAdd, a, mkConst(w, -b.k))
		}
		if a == b {
			return mkConst(w, 0)
		}
		// x - x/c*c is x%c
		if b.op == OpMul && b.args[1].isConst() {
			c := b.args[1]
			if q := b.args[0]; q.op == OpUDiv || q.op == OpZext {
				if s.Bin(OpUDiv, a, c) == q {
					return s.Bin(OpURem, a, c)
				}
				if a.op == OpAdd && a.args[1].isConst() && s.Bin(OpUDiv, a.args[0], c) == q {
					return s.Bin(OpAdd, s.Bin(OpURem, a.args[0], c), a.args[1])
				}
			}
		}
	case OpMul:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.k == 0 {
				return b
			}
			if b.k == 1 {
				return a
			}
			if bits.OnesCount64(b.k) == 1 {
				return s.Bin(OpShl, a, mkConst(w, uint64(bits.TrailingZeros64(b.k))))
			}
		}
	case OpUDiv:
		if b.isConst() && b.k == 1 {
			return a
		}
		if b.isConst() && b.k != 0 && a.op == OpUDiv && a.args[1].isConst() && a.args[1].k != 0 {
			if hi, lo := bits.Mul64(a.args[1].k, b.k); hi == 0 && lo <= mask(w) {
				return s.Bin(OpUDiv, a.args[0], mkConst(w, lo))
			}
			return mkConst(w, 0)
		}
		if b.isConst() && a.op == OpZext && b.k <= mask(a.args[0].w) && b.k != 0 {
			x := a.args[0]
			return s.Zext(w, s.Bin(OpUDiv, x, mkConst(x.w, b.k)))
		}
	case OpURem:
		if b.isConst() && a.op == OpZext && b.k <= mask(a.args[0].w) && b.k != 0 {
			x := a.args[0]
			return s.Zext(w, s.Bin(OpURem, x, mkConst(x.w, b.k)))
		}
	case OpBAnd:
		if a.isConst() {
			a, b = b, a
		}
		if a == b {
			return a
		}
		if b.isConst() {
			if b.k == 0 {
				return b
			}
			if b.k == mask(w) {
				return a
			}
			if a.op == OpZext && b.k&mask(a.args[0].w) == mask(a.args[0].w) {
				return a
			}
		}
	case OpBOr:
		if a.isConst() {
			a, b = b, a
		}
		if a == b {
			return a
		}
		if b.isConst() && b.k == 0 {
			return a
		}
	case OpBXor:
		if a.isConst() {
			a, b = b, a
		}
		if a == b {
			return mkConst(w, 0)
		}
		if b.isConst() && b.k == 0 {
			return a
		}
	case OpShl, OpLShr, OpAShr:
		if b.isConst() && b.k == 0 {
			return a
		}
		if b.isConst() && b.k >= uint64(w) && op != OpAShr {
			return mkConst(w, 0)
		}
	}
	return s.mk(op, rw, 0, a, b)
}

func (s *Store) Un(op Op, a *Term) *Term {
	if a.isConst() {
		return mkConst(a.w, evalOp(op, a.w, a.w, a.k, 0))
	}
	return s.mk(op, a.w, 0, a)
}

func (s *Store) Zext(w uint8, a *Term) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return mkConst(w, a.k)
	}
	if a.op == OpZext {
		return s.Zext(w, a.args[0])
	}
	return s.mk(OpZext, w, 0, a)
}

func (s *Store) Sext(w uint8, a *Term) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return mkConst(w, uint64(sx(a.k, a.w)))
	}
	if a.op == OpZext {
		return s.Zext(w, a.args[0])
	}
	if a.op == OpSext {
		return s.Sext(w, a.args[0])
	}
	return s.mk(OpSext, w, 0, a)
}

func (s *Store) Trunc(w uint8, a *Term) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return mkConst(w, a.k)
	}
	if a.op == OpZext || a.op == OpSext {
		x := a.args[0]
		if x.w == w {
			return x
		}
		if x.w > w {
			return s.Trunc(w, x)
		}
		if a.op == OpZext {
			return s.Zext(w, x)
		}
		return s.Sext(w, x)
	}
	if a.op == OpExtract {
		return s.Trunc(w, a.args[0])
	}
	if a.op == OpAdd && a.args[1].isConst() {
		return s.Bin(OpAdd, s.Trunc(w, a.args[0]), mkConst(w, a.args[1].k))
	}
	return s.mk(OpExtract, w, 0, a)
}

// Model maps atom (variable or UF application) ids to values.
type Model struct {
	vals map[int32]uint64
	memo map[int32]uint64
}

// eval evaluates t under m; ok is false when m lacks a UF application.
func (m *Model) eval(t *Term) (uint64, bool) {
	if t.isConst() {
		return t.k, true
	}
	switch t.op {
	case OpVar:
		return m.vals[t.id], true
	case OpUF:
		v, ok := m.vals[t.id]
		return v, ok
	}
	if v, ok := m.memo[t.id]; ok {
		return v, true
	}
	var r uint64
	switch t.op {
	case OpIte:
		c, ok := m.eval(t.args[0])
		if !ok {
			return 0, false
		}
		i := 2
		if c == 1 {
			i = 1
		}
		r, ok = m.eval(t.args[i])
		if !ok {
			return 0, false
		}
	default:
		a, ok := m.eval(t.args[0])
		if !ok {
			return 0, false
		}
		var b uint64
		if len(t.args) > 1 {
			if b, ok = m.eval(t.args[1]); !ok {
				return 0, false
			}
		}
		r = evalOp(t.op, t.w, t.args[0].w, a, b)
	}
	m.memo[t.id] = r
	return r, true
}

// show writes a term out to some depth, for debugging.
func (t *Term) show(d int) string {
	if t.isConst() {
		return fmt.Sprintf("%d:%d", t.k, t.w)
	}
	if t.op == OpVar {
		return t.name
	}
	if d == 0 {
		return fmt.Sprintf("#%d", t.id)
	}
	s := fmt.Sprintf("(%v:%d", opNames[t.op], t.w)
	if opNames[t.op] == "" {
		s = fmt.Sprintf("(op%d:%d", t.op, t.w)
	}
	for _, a := range t.args {
		s += " " + a.show(d-1)
	}
	return s + ")"
}
