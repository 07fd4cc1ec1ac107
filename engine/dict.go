package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// The dictionary of a tree: the strings and small integers that aitch's own code compares its inputs with. Harnesses ask for
// them (sym.Word, sym.Size) so that the lengths and sizes they explore include those at which the code can tell inputs apart,
// beyond the lengths up to which strings are arbitrary throughout. It is collected anew from the tree on every run.

// wordShape is a string of fixed text around an optional arbitrary byte.
type wordShape struct {
	pre, post string
	mid       bool
}

type dictionary struct {
	near  int // how many of the words are single ones, the first ones
	words []wordShape
	sizes []int
	own   []string // the strings themselves
}

const (
	maxTable = 20   // tables with more string entries than this are data, not cases
	maxSize  = 4200 // larger integers are no sizes
	maxOwn   = 60
	maxSizes = 24
)

func collectDictionary(prog *ssa.Program) dictionary {
	strs := map[string]int{} // bit 0: compared, bit 1: prefix/suffix/substring
	ints := map[int]bool{}
	globalText := map[*ssa.Global]string{}
	str := func(v ssa.Value) (string, bool) {
		for {
			switch t := v.(type) {
			case *ssa.Convert:
				v = t.X
				continue
			case *ssa.ChangeType:
				v = t.X
				continue
			case *ssa.MakeInterface:
				v = t.X
				continue
			case *ssa.UnOp:
				if g, ok := t.X.(*ssa.Global); ok && t.Op == token.MUL {
					s, ok := globalText[g]
					return s, ok
				}
			case *ssa.Const:
				if t.Value != nil && t.Value.Kind() == constant.String {
					return constant.StringVal(t.Value), true
				}
			}
			return "", false
		}
	}
	add := func(s string, how int) {
		if len(s) > 0 && len(s) <= 200 {
			strs[s] |= how
		}
	}
	num := func(v ssa.Value) {
		if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
			if b, ok := c.Type().(*types.Basic); !ok || b.Kind() == types.Uint8 || b.Kind() == types.Int32 {
				return // bytes, runes and enumerations
			}
			if n, ok := constant.Int64Val(c.Value); ok && n >= 2 && n <= maxSize {
				ints[int(n)] = true
			}
		}
	}
	var fns []*ssa.Function
	for fn := range ssautil.AllFunctions(prog) {
		root := fn
		for root.Parent() != nil {
			root = root.Parent()
		}
		pk := root.Pkg
		if pk == nil && root.Origin() != nil {
			pk = root.Origin().Pkg
		}
		if pk != nil && strings.HasPrefix(pk.Pkg.Path(), "github.com/go-andiamo/aitch") {
			fns = append(fns, fn)
		}
	}
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok {
						if s, ok := str(st.Val); ok {
							globalText[g] = s
						}
					}
				}
			}
		}
	}
	for _, fn := range fns {
		table := map[ssa.Value][]string{}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch t := in.(type) {
				case *ssa.BinOp:
					switch t.Op {
					case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
						for _, v := range []ssa.Value{t.X, t.Y} {
							if s, ok := str(v); ok {
								add(s, 1)
							}
							num(v)
						}
					case token.REM, token.AND, token.SHL, token.SHR:
						num(t.Y)
					}
				case *ssa.Call:
					c := t.Common()
					if f := c.StaticCallee(); f != nil && f.Pkg != nil {
						how := 0
						switch f.Pkg.Pkg.Path() {
						case "strings", "bytes", "regexp":
							how = 2
							if n := f.Name(); n == "Compare" || n == "Equal" || n == "EqualFold" {
								how = 1
							} else if n == "ContainsAny" || n == "IndexAny" || strings.HasPrefix(n, "Trim") && !strings.HasSuffix(n, "fix") || strings.HasPrefix(n, "NewReplacer") || n == "MustCompile" || n == "Compile" {
								how = 0
							}
						case "slices", "unicode", "maps":
							how = 1
						}
						if strings.HasPrefix(f.Pkg.Pkg.Path(), "github.com/go-andiamo/aitch") && fn.Name() != "init" {
							// a helper of the package itself may do the comparing
							how = 1
							if t := f.Signature.Results(); t.Len() == 0 || !types.Identical(t.At(0).Type(), types.Typ[types.Bool]) {
								how = 0
							}
						}
						if how > 0 {
							for _, a := range c.Args {
								if s, ok := str(a); ok {
									add(s, how)
								}
							}
						}
					}
				case *ssa.Lookup:
					if s, ok := str(t.Index); ok {
						add(s, 1)
					}
				case *ssa.MapUpdate:
					if s, ok := str(t.Key); ok {
						table[t.Map] = append(table[t.Map], s)
					}
				case *ssa.Store:
					if ia, ok := t.Addr.(*ssa.IndexAddr); ok {
						if s, ok := str(t.Val); ok {
							if _, iface := t.Val.(*ssa.MakeInterface); !iface {
								table[ia.X] = append(table[ia.X], s)
							}
						}
					}
					if g, ok := t.Addr.(*ssa.Global); ok {
						// a variable of type string: a case of its own
						if s, ok := str(t.Val); ok && types.Identical(g.Type().(*types.Pointer).Elem().Underlying(), types.Typ[types.String]) {
							add(s, 1)
						}
					}
				case *ssa.MakeSlice:
					num(t.Cap)
					num(t.Len)
				case *ssa.Alloc:
					if a, ok := t.Type().(*types.Pointer).Elem().Underlying().(*types.Array); ok && t.Comment != "varargs" && t.Comment != "slicelit" {
						if n := a.Len(); n >= 2 && n <= maxSize {
							ints[int(n)] = true
						}
					}
				}
			}
		}
		for _, ss := range table {
			if len(ss) <= maxTable {
				for _, s := range ss {
					add(s, 1)
				}
			}
		}
	}
	d := dictionary{}
	var fix []string
	for s, how := range strs {
		d.own = append(d.own, s)
		if how&2 != 0 {
			fix = append(fix, s)
		}
	}
	sort.Strings(d.own)
	sort.Strings(fix)
	if len(d.own) > maxOwn {
		// keep the longest: the short ones are within what is arbitrary anyway
		sort.SliceStable(d.own, func(i, j int) bool { return len(d.own[i]) > len(d.own[j]) })
		d.own = d.own[:maxOwn]
		sort.Strings(d.own)
	}
	seen := map[wordShape]bool{}
	put := func(s wordShape) {
		if !seen[s] {
			seen[s] = true
			d.words = append(d.words, s)
		}
	}
	for _, s := range d.own {
		put(wordShape{s, "", false})
		put(wordShape{s, "", true})
		put(wordShape{"", s, true})
	}
	d.near = len(d.words)
	if len(fix) > 12 {
		sort.SliceStable(fix, func(i, j int) bool { return len(fix[i]) > len(fix[j]) })
		fix = fix[:12]
	}
	for _, p := range fix {
		for _, s := range d.own {
			put(wordShape{p, s, false})
			if len(fix) <= 8 {
				put(wordShape{p, s, true})
			}
		}
	}
	for _, s := range strings.Fields(os.Getenv("GOSYM_SIZES")) { // for trying the harnesses out
		n, _ := strconv.Atoi(s)
		ints[n] = true
	}
	for n := range ints {
		d.sizes = append(d.sizes, n)
	}
	sort.Ints(d.sizes)
	if len(d.sizes) > maxSizes {
		d.sizes = d.sizes[:maxSizes]
	}
	all := map[int]bool{}
	for _, n := range d.sizes {
		all[n-1], all[n], all[n+1], all[2*n] = true, true, true, true
	}
	d.sizes = nil
	for n := range all {
		d.sizes = append(d.sizes, n)
	}
	sort.Ints(d.sizes)
	if os.Getenv("GOSYM_DICT") != "" {
		println("dictionary:", len(d.own), len(fix), len(d.words), strings.Join(d.own, "|"))
		for _, n := range d.sizes {
			print(n, " ")
		}
		println()
	}
	return d
}
