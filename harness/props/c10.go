package props

// Bounds: item lists of up to 2 items (3 in thorough runs) of 10 kinds (string, integer, map of any, nil, other map, bytes,
// empty map, struct, nil map, a map redefining the iterated key) with symbolic contents; three sources (function, data key,
// yielding function), data keys holding 22 kinds of value; iterations nested up to 3 deep with every pair of sources; the
// enclosing data and cargo compared after every iteration; every body holding an attribute node that must be ignored.
// Also iterations nested deeper, data restored at every level.
// Items of every kind (wide.go), up to 130 items, iterations nested 33 deep (more.go).
// Strings the code itself compares with, alone, with an arbitrary byte before or after, and after one another (words.go).
// Sizes include those at which the code itself makes a difference (constants of its comparisons, up to about 600).
// Also: two texts that differ in one arbitrary byte or in length, side by side and after each other (history.go).
// Also: cargoes, data and keys that nearly are what is looked for; items behind pointers (lures.go).

import (
	"aitchverif/sym"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
	"github.com/go-andiamo/aitch/html"
)

func init() {
	sym.Register("C10_single", C10_single)
	sym.Register("C10_nested", C10_nested)
	sym.Register("C10_slices", C10_slices)
	sym.Register("C10_scope", C10_scope)
	sym.Register("C10_deep", C10_deep)
}

type item struct {
	v    any
	text string         // what "." writes
	data map[string]any // the data of the iteration, when it is the item's own
	own  bool
}

type someStruct struct{ A int }
type namedList []string
type namedAny []any

const nItems = 10

func mkItem(k int) item {
	switch k {
	case 0:
		s := letters(1)
		return item{v: s, text: refEscape(s)}
	case 1:
		return item{v: 42, text: "42"}
	case 2:
		m := map[string]any{"k": raw(1)}
		return item{v: m, data: m, own: true}
	case 3:
		return item{}
	case 4:
		return item{v: map[string]string{"k": "no", "e": "no"}}
	case 5:
		b := raw(2)
		return item{v: b, text: string(b)}
	case 6:
		m := map[string]any{}
		return item{v: m, data: m, own: true}
	case 7:
		return item{v: someStruct{1}}
	case 8:
		return item{v: map[string]any(nil), own: true}
	}
	m := map[string]any{"e": raw(1), "l": []any{1, 2}}
	return item{v: m, data: m, own: true}
}

// scope is the specified context of an iteration.
type scope struct {
	data   map[string]any
	cargo  item
	parent *scope
}

func (s *scope) enter(it item) *scope {
	if it.own {
		return &scope{it.data, it, s}
	}
	return &scope{s.data, it, s}
}

func dataText(d map[string]any, k string) string {
	switch v := d[k].(type) {
	case []byte:
		return string(v)
	case string:
		return refEscape(v)
	}
	return ""
}

// body prints all that is visible of the context.
func body() []aitch.Node {
	return []aitch.Node{
		html.Class("ignored"),
		aitch.Text("(", aitch.DynamicValueKey("."), "|", aitch.DynamicValueKey("k"), "|"),
		html.B(aitch.Attribute("id", aitch.DynamicValueKey("e"))),
		aitch.When("k", aitch.Text("k")),
		aitch.Text(")"),
	}
}

func bodySpec(s *scope) string {
	out := "(" + s.cargo.text + "|" + dataText(s.data, "k") + "|" + `<b id="` + dataText(s.data, "e") + `"></b>`
	if _, ok := s.data["k"]; ok {
		out += "k"
	}
	return out + ")"
}

// source makes an iteration over the items from one of the three sources; key must be in the data for source 1.
func source(i int, items []any, nodes ...aitch.Node) aitch.Node {
	switch i {
	case 0:
		return aitch.Iterate(func(*context.Context) []any { return items }, nodes...)
	case 1:
		return aitch.IterateKey("l", nodes...)
	}
	return aitch.IterateYield(func(ctx *context.Context, yield func(any)) {
		d, c, p := len(ctx.Data), ctx.Cargo, ctx.Parent
		for _, it := range items {
			yield(it)
			sym.Assert(len(ctx.Data) == d && ctx.Parent == p, "the enclosing context is the same after a yield")
			if n, ok := c.(int); ok {
				m, ok := ctx.Cargo.(int)
				sym.Assert(ok && m == n, "the enclosing cargo is the same after a yield")
			}
		}
	}, nodes...)
}

func itemValues(its []item) []any {
	r := make([]any, 0, len(its))
	for _, it := range its {
		r = append(r, it.v)
	}
	return r
}

func runIter(n aitch.Node, data map[string]any, want string, msg string) {
	keep := len(data)
	w := &failWriter{failAt: -1}
	ctx := context.New(w, data, 77)
	for i := 0; i < 2; i++ {
		w.out = nil
		err := n.Render(ctx)
		sym.Assert(err == nil, msg+": no error")
		sym.Observe("out", w.out)
		sym.Assert(string(w.out) == want, msg)
		sym.Assert(ctx.Cargo == any(77), "cargo is unchanged")
		sym.Assert(ctx.Parent == nil, "parent is unchanged")
		sym.Assert(ctx.Error == nil, "no error in the context")
		sym.Assert(len(ctx.Data) == keep, "data is unchanged")
		if keep > 0 {
			_, ok := ctx.Data["e"]
			sym.Assert(ok, "data keeps its keys")
		}
	}
}

// C10_single: one iteration over every list of items.
func C10_single() {
	n := sym.Choice(3 + sym.Tier())
	var its []item
	for i := 0; i < n; i++ {
		its = append(its, mkItem(sym.Choice(nItems)))
	}
	e := letters(1)
	vals := itemValues(its)
	data := map[string]any{"e": e, "l": vals}
	root := &scope{data: data, cargo: item{v: 77, text: "77"}}
	want := "<p>"
	for _, it := range its {
		want += bodySpec(root.enter(it))
	}
	want += bodySpec(root) + "</p>"
	node := aitch.Element("p", source(sym.Choice(3), vals, body()...), aitch.Collection(body()[1:]...))
	runIter(node, data, want, "iteration")
}

// C10_nested: an iteration within an iteration.
func C10_nested() {
	e, k := raw(1), raw(1)
	outer := []item{mkItem(sym.Choice(nItems)), mkItem([]int{1, 2, 9}[sym.Choice(3)])}
	inner := []item{mkItem(sym.Choice(nItems)), mkItem([]int{0, 2}[sym.Choice(2)])}
	s1, s2 := sym.Choice(3), sym.Choice(3)
	data := map[string]any{"e": e, "k": k, "l": itemValues(outer)}
	in := source(s2, itemValues(inner), body()...)
	nodes := append(append([]aitch.Node{}, in), body()...)
	node := source(s1, itemValues(outer), nodes...)
	root := &scope{data: data, cargo: item{v: 77, text: "77"}}
	want := ""
	for _, o := range outer {
		s := root.enter(o)
		its := inner
		if s2 == 1 {
			// the key is looked up in the data of the outer iteration
			its = nil
			if l, ok := s.data["l"]; ok {
				its = outer
				if len(l.([]any)) > 0 && o.own {
					its = []item{{v: 1, text: "1"}, {v: 2, text: "2"}}
				}
			}
		}
		for _, i := range its {
			want += bodySpec(s.enter(i))
		}
		want += bodySpec(s)
	}
	runIter(node, data, want, "nested iteration")
}

// C10_slices: what a data key may hold.
func C10_slices() {
	a, b := sym.String(1, 1), raw(1)
	var v any
	var texts []string
	present := true
	switch sym.Choice(22) {
	case 17:
		v = []map[string]any{{"e": a}, {}, nil, {"x": 1}}
		want := "<ul><li>" + refEscape(a) + "</li><li></li><li></li><li></li></ul>"
		runIter(html.Ul(aitch.IterateKey("l", html.Li(aitch.DynamicValueKey("."), aitch.DynamicValueKey("e")))), map[string]any{"e": "e", "l": v}, want, "slice of maps")
		return
	case 18:
		v = []string{"", a, ""}
		texts = []string{"", refEscape(a), ""}
	case 19:
		v = []any{nil, nil}
		texts = []string{"", ""}
	case 20:
		v = []error{nil, nil}
		texts = []string{"", ""}
	case 21:
		v = []int{0, 7, 0}
		texts = []string{"0", "7", "0"}
	case 0:
		present = false
	case 1:
		v = nil
	case 2:
		v = []string{a, "x"}
		texts = []string{refEscape(a), "x"}
	case 3:
		i := sym.Byte()
		v = []uint8{i, 'y'}
		texts = []string{"", ""}
		_ = i
	case 4:
		v = [][]byte{b, []byte("z")}
		texts = []string{string(b), "z"}
	case 5:
		v = namedList{a}
		texts = []string{refEscape(a)}
	case 6:
		v = namedAny{a, b}
		texts = []string{refEscape(a), string(b)}
	case 7:
		v = []bool{true, false}
		texts = []string{"true", "false"}
	case 8:
		v = [2]int{1, 2} // an array is not a slice
	case 9:
		v = []int(nil)
	case 10:
		v = []any{}
	case 11:
		v = a
	case 12:
		v = map[string]any{"k": a}
	case 13:
		v = []any{a, nil, b}
		texts = []string{refEscape(a), "", string(b)}
	case 14:
		v = []someStruct{{1}, {2}}
		texts = []string{"", ""}
	case 15:
		v = []*someStruct{nil}
		texts = []string{""}
	case 16:
		v = &[]any{a}
	}
	if u, ok := v.([]uint8); ok {
		// the items are unsigned 8 bit integers
		texts = nil
		for _, x := range u {
			texts = append(texts, decimal(x))
		}
	}
	data := map[string]any{"e": "e"}
	if present {
		data["l"] = v
	}
	want := "<ul>"
	for _, t := range texts {
		want += "<li>" + t + "e</li>"
	}
	want += "</ul>"
	runIter(html.Ul(aitch.IterateKey("l", html.Id("ignored"), html.Li(aitch.DynamicValueKey("."), aitch.DynamicValueKey("e")))), data, want, "slice of a data key")
}

// decimal writes a byte as a number.
func decimal(x byte) string {
	out := ""
	if x >= 100 {
		out += string([]byte{'0' + x/100})
	}
	if x >= 10 {
		out += string([]byte{'0' + x/10%10})
	}
	return out + string([]byte{'0' + x%10})
}

// C10_scope: the contexts seen inside are children of the enclosing ones.
func C10_scope() {
	var outerCtx, innerCtx *context.Context
	outerSeen, innerSeen := 0, 0
	e := raw(1)
	items := []any{}
	n := sym.Choice(3)
	for i := 0; i < n; i++ {
		items = append(items, mkItem(sym.Choice(nItems)).v)
	}
	s1, s2 := sym.Choice(3), sym.Choice(3)
	rootCtx := context.New(&failWriter{failAt: -1}, map[string]any{"e": e, "l": items}, 77)
	inner := source(s2, []any{5}, aitch.ContentCollect(func(ctx *context.Context) []aitch.Node {
		innerCtx = ctx
		innerSeen++
		sym.Assert(ctx.Parent == outerCtx, "parent of the inner iteration is the outer one")
		sym.Assert(ctx != outerCtx, "the inner iteration has its own context")
		if s2 != 1 {
			sym.Assert(ctx.Cargo == any(5), "cargo of the inner iteration")
		}
		return nil
	}))
	node := source(s1, items, aitch.ContentCollect(func(ctx *context.Context) []aitch.Node {
		outerCtx = ctx
		sym.Assert(ctx.Parent == rootCtx, "parent of the iteration is the render's context")
		sym.Assert(ctx != rootCtx, "the iteration has its own context")
		sym.Assert(ctx.Writer == rootCtx.Writer, "the writer is the render's one")
		if m, ok := items[outerSeen].(map[string]any); ok {
			sym.Assert(len(ctx.Data) == len(m) && (ctx.Data == nil) == (m == nil), "the item is the data")
			mc, ok := ctx.Cargo.(map[string]any)
			sym.Assert(ok && len(mc) == len(m), "the item is the cargo")
		} else {
			_, ok := ctx.Data["e"]
			sym.Assert(ok && len(ctx.Data) == 2, "the data is the enclosing one")
			sym.Assert((ctx.Cargo == nil) == (items[outerSeen] == nil), "the cargo is the item")
		}
		outerSeen++
		return nil
	}), inner, aitch.Imperative(func(ic aitch.ImperativeContext) error {
		sym.Assert(ic.Context() == outerCtx, "the outer context again after the inner iteration")
		if m, ok := items[outerSeen-1].(map[string]any); ok {
			mc, ok := ic.Context().Cargo.(map[string]any)
			sym.Assert(ok && len(mc) == len(m), "the outer item is still the cargo")
		}
		return nil
	}))
	err := node.Render(rootCtx)
	sym.Assert(err == nil, "no error")
	sym.Assert(outerSeen == n, "once per item")
	if s2 != 1 {
		sym.Assert(innerSeen == n, "the inner iteration once per outer item")
	}
	sym.Assert(rootCtx.Cargo == any(77) && rootCtx.Parent == nil && len(rootCtx.Data) == 2, "the enclosing context is unchanged")
	_ = innerCtx
}

// C10_deep: three levels with mixed items.
func C10_deep() {
	a, b, c := letters(1), raw(1), raw(1)
	m1 := map[string]any{"k": b, "l": []string{a}}
	first := []any{m1, "n"}
	if sym.Choice(2) == 1 {
		first = []any{"n", m1}
	}
	s1, s2, s3 := sym.Choice(3), sym.Choice(3), sym.Choice(3)
	data := map[string]any{"e": "e", "k": c, "l": first}
	leaf := aitch.Text("[", aitch.DynamicValueKey("k"), aitch.DynamicValueKey("."), "]")
	third := source(s3, []any{7}, leaf)
	second := source(s2, []any{map[string]any{"k": "2", "l": []int{8}}, 3}, third, leaf)
	node := source(s1, first, second, leaf)
	leafSpec := func(s *scope) string { return "[" + dataText(s.data, "k") + s.cargo.text + "]" }
	toItems := func(v any) []item {
		var r []item
		switch l := v.(type) {
		case []any:
			for _, x := range l {
				switch y := x.(type) {
				case map[string]any:
					r = append(r, item{v: y, data: y, own: true})
				case string:
					r = append(r, item{v: y, text: refEscape(y)})
				case int:
					r = append(r, item{v: y, text: string([]byte{'0' + byte(y)})})
				}
			}
		case []string:
			for _, y := range l {
				r = append(r, item{v: y, text: refEscape(y)})
			}
		case []int:
			for _, y := range l {
				r = append(r, item{v: y, text: string([]byte{'0' + byte(y)})})
			}
		}
		return r
	}
	pick := func(src int, s *scope, given []any) []item {
		if src == 1 {
			return toItems(s.data["l"])
		}
		return toItems(given)
	}
	root := &scope{data: data}
	want := ""
	for _, i1 := range pick(s1, root, first) {
		sc1 := root.enter(i1)
		for _, i2 := range pick(s2, sc1, []any{map[string]any{"k": "2", "l": []int{8}}, 3}) {
			sc2 := sc1.enter(i2)
			for _, i3 := range pick(s3, sc2, []any{7}) {
				want += leafSpec(sc2.enter(i3))
			}
			want += leafSpec(sc2)
		}
		want += leafSpec(sc1)
	}
	runIter(node, data, want, "three levels of iteration")
}
