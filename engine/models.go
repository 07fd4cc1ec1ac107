package main

import (
	"strconv"
	"sync"
)

// symModels are library functions whose source is executed on concrete arguments but modelled on symbolic ones.
var symModels = map[string]func(*Worker, []Value) (Value, bool){}

// printable holds the limits of the ranges of printable runes: below runes[0] nothing is printable, up to runes[1] everything, and so on.
var printable = sync.OnceValue(func() (lim []rune) {
	was := false
	for r := rune(0); r <= 0x110000; r++ {
		if is := r <= 0x10FFFF && strconv.IsPrint(r); is != was {
			lim = append(lim, r)
			was = is
		}
	}
	return
})

func init() {
	// Whether a rune is printable, as a decision tree over the ranges of the real function.
	symModels["strconv.IsPrint"] = func(w *Worker, a []Value) (Value, bool) {
		r := a[0].(*Term)
		if r.isConst() {
			return nil, false
		}
		lim := printable()
		var tree func(lo, hi int) *Term // the answer for runes known to lie in [lim[lo-1], lim[hi])
		tree = func(lo, hi int) *Term {
			if lo == hi {
				return mkBool(lo%2 == 1)
			}
			mid := (lo + hi) / 2
			return w.st.Ite(w.st.Bin(OpUlt, r, mkConst(32, uint64(lim[mid]))), tree(lo, mid), tree(mid+1, hi))
		}
		return tree(0, len(lim)), true
	}
	// The tokenizer uses atoms to share the strings of known names; the name it reports is the same without.
	symModels["golang.org/x/net/html/atom.Lookup"] = func(w *Worker, a []Value) (Value, bool) {
		for _, t := range w.sliceTerms(a[0].(Slice)) {
			if !t.isConst() {
				return mkConst(32, 0), true
			}
		}
		return nil, false
	}
}
