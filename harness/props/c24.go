package props

// Bounds: every function taking place (value function in text, attribute, delimited attribute, comment and concatenation,
// func() any, collector (also one that gives no nodes), imperative block (also an empty one), iteration source, yielding source, condition) in trees of two such places
// (three in thorough runs) below 8 containers nested up to twice, with symbolic truths of the conditions, up to 2 items
// per iteration; the log of calls and the contexts they are given are compared with the specified ones over two renders.
// Also attributes as places and iterations without nodes.
// Up to 65 functions or calls in 9 forms (more.go).
// Chains of 4..12 conditions (extra.go); collected lists of up to 5.
// Sizes include those at which the code itself makes a difference (constants of its comparisons, up to about 600).
// Also: nodes within themselves to depth 5 (history.go).

import (
	"aitchverif/sym"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
	"github.com/go-andiamo/aitch/html"
)

func init() {
	sym.Register("C24_calls", C24_calls)
	sym.Register("C24_conditions", C24_conditions)
	sym.Register("C24_collected", C24_collected)
	sym.Register("C24_attributes", C24_attributes)
}

// caller records the calls of functions.
type caller struct {
	log  []int
	ctxs []*context.Context
	seen []any // the cargo at the call
}

func (c *caller) call(id int, ctx *context.Context) {
	c.log = append(c.log, id)
	c.ctxs = append(c.ctxs, ctx)
	c.seen = append(c.seen, ctx.Cargo)
}

func (c *caller) value(id int) aitch.DynamicValueFunc {
	return func(ctx *context.Context) []byte {
		c.call(id, ctx)
		return []byte{'0' + byte(id)}
	}
}

// place is a node with functions; ids are those of the calls in order.
func (c *caller) place(kind, id int) (aitch.Node, []int, string) {
	d := string([]byte{'0' + byte(id)})
	d2 := string([]byte{'0' + byte(id+1)})
	switch kind {
	case 0:
		return aitch.Text("a", c.value(id), "b", c.value(id+1)), []int{id, id + 1}, "a" + d + "b" + d2
	case 1:
		return aitch.Comment(c.value(id)), []int{id}, "<!--" + d + "-->"
	case 2:
		return aitch.Element("i", "x", aitch.Attribute("id", c.value(id)), aitch.DynamicValueFunc(c.value(id+1))), []int{id, id + 1}, `<i id="` + d + `">x` + d2 + "</i>"
	case 3:
		return html.Br(html.Class(c.value(id), c.value(id+1))), []int{id, id + 1}, `<br class="` + d + " " + d2 + `">`
	case 4:
		return aitch.ContentCollect(func(ctx *context.Context) []aitch.Node {
			c.call(id, ctx)
			return []aitch.Node{aitch.Text(c.value(id + 1)), nil, html.Class(c.value(id + 1)), aitch.Text("c")}
		}), []int{id, id + 1}, d2 + "c"
	case 5:
		return aitch.Imperative(func(ic aitch.ImperativeContext) error {
			c.call(id, ic.Context())
			ic.Start([]byte("u"), false, html.Id(c.value(id+1)))
			ic.WriteNodes(aitch.Text(c.value(id)))
			ic.End()
			return nil
		}), []int{id, id + 1, id}, `<u id="` + d2 + `">` + d + "</u>"
	case 6:
		return aitch.Fragment(aitch.NewConcatValue(c.value(id), func(ctx *context.Context) []byte { c.call(id+1, ctx); return nil })), []int{id, id + 1}, d
	case 7:
		return aitch.Iterate(func(ctx *context.Context) []any {
			c.call(id, ctx)
			return nil
		}, aitch.Text(c.value(id+1))), []int{id}, ""
	}
	switch kind {
	case 8:
		return aitch.IterateYield(func(ctx *context.Context, yield func(any)) { c.call(id, ctx) }, aitch.Text(c.value(id+1))), []int{id}, ""
	case 9:
		return aitch.ContentCollect(func(ctx *context.Context) []aitch.Node {
			c.call(id, ctx)
			return nil
		}), []int{id}, ""
	case 10:
		return aitch.ContentCollect(func(ctx *context.Context) []aitch.Node {
			c.call(id, ctx)
			return []aitch.Node{nil, html.Id(c.value(id + 1))}
		}), []int{id}, ""
	case 11:
		return aitch.Imperative(func(ic aitch.ImperativeContext) error {
			c.call(id, ic.Context())
			return nil
		}), []int{id}, ""
	case 12: // without nodes: nothing to write, but the function is called all the same
		return aitch.IterateYield(func(ctx *context.Context, yield func(any)) { c.call(id, ctx); yield(1); yield(2); c.call(id+1, ctx) }), []int{id, id + 1}, ""
	case 13:
		return aitch.Iterate(func(ctx *context.Context) []any {
			c.call(id, ctx)
			return []any{1, 2}
		}), []int{id}, ""
	case 14:
		return aitch.IterateYield(func(ctx *context.Context, yield func(any)) { yield(nil); c.call(id, ctx) }, nil, html.Id(c.value(id+1))), []int{id}, ""
	case 15:
		return aitch.Element("s", aitch.ContentCollect(func(ctx *context.Context) []aitch.Node {
			c.call(id, ctx)
			return nil
		}), aitch.Imperative(func(ic aitch.ImperativeContext) error {
			c.call(id+1, ic.Context())
			return nil
		})), []int{id, id + 1}, "<s></s>"
	}
	return html.B(html.Title("", c.value(id)), aitch.DynamicValueFunc(func(ctx *context.Context) []byte { c.call(id+1, ctx); return []byte{} })), []int{id, id + 1}, `<b title="` + d + `"></b>`
}

const nPlaces = 17

// step is an expected call: the function and the cargo of the context it is given.
type step struct {
	id    int
	cargo any
}

// around wraps nodes: it gives for the calls below it, per repetition, the cargo seen (or absent when false).
func (c *caller) around(kind int, t bool, id int, ns ...aitch.Node) (n aitch.Node, before []int, items []any, same bool, open, close string) {
	switch kind {
	case 0:
		return aitch.Collection(ns...), nil, nil, true, "", ""
	case 1:
		return aitch.Element("p", anysOf(ns)...), nil, nil, true, "<p>", "</p>"
	case 2:
		its := []any{}
		if t {
			its = append(its, id)
		}
		return aitch.Conditional(func(*context.Context) bool { return t }, ns...), nil, its[:0], t, "", ""
	case 3:
		return aitch.Iterate(func(ctx *context.Context) []any {
			c.call(id, ctx)
			return []any{id, id + 1}
		}, ns...), []int{id}, []any{id, id + 1}, false, "", ""
	case 4:
		return aitch.IterateKey("l", ns...), nil, []any{"i"}, false, "", ""
	case 5:
		return aitch.ContentCollect(func(ctx *context.Context) []aitch.Node {
			c.call(id, ctx)
			return ns
		}), []int{id}, nil, true, "", ""
	case 6:
		return aitch.Imperative(func(ic aitch.ImperativeContext) error {
			c.call(id, ic.Context())
			ic.WriteNodes(ns...)
			return nil
		}), []int{id}, nil, true, "", ""
	}
	return aitch.When("k", ns...), nil, nil, true, "", ""
}

const nArounds = 8

func (c *caller) check(node aitch.Node, want []step, out string) {
	w := &failWriter{failAt: -1}
	ctx := context.New(w, map[string]any{"l": []string{"i"}, "k": t1}, 77)
	for r := 0; r < 2; r++ {
		c.log, c.ctxs, c.seen, w.out = nil, nil, nil, nil
		err := node.Render(ctx)
		sym.Observe("out", w.out)
		sym.Assert(err == nil, "no error")
		sym.Assert(string(w.out) == out, "what the functions give stands at its place")
		sym.Assert(len(c.log) == len(want), "each function is called once per rendering of its node")
		for i := range want {
			sym.Assert(c.log[i] == want[i].id, "functions are called in document order")
			sym.Assert(c.seen[i] == want[i].cargo, "functions get the context of the innermost iteration")
			top := c.ctxs[i]
			for top.Parent != nil {
				top = top.Parent
			}
			sym.Assert(top == ctx, "functions get the context of the render")
		}
	}
}

var t1 = struct{}{}

// C24_calls: places below containers.
func C24_calls() {
	c := &caller{}
	a, ida, outa := c.place(sym.Choice(nPlaces), 0)
	b, idb, outb := c.place([]int{0, 4, 5}[sym.Choice(3)], 2)
	inner, ib, iitems, isame, io, icl := c.around(sym.Choice(nArounds), sym.Bool(), 4, a, aitch.Text("-"), b)
	last, idl, outl := c.place([]int{0, 2, 5}[sym.Choice(3)], 6)
	outer, ob, oitems, osame, oo, ocl := c.around(sym.Choice(nArounds), sym.Bool(), 8, inner, last)
	var want []step
	out := ""
	steps := func(ids []int, cargo any) {
		for _, id := range ids {
			want = append(want, step{id, cargo})
		}
	}
	leaf := func(cargo any) {
		steps(ida, cargo)
		steps(idb, cargo)
		out += outa + "-" + outb
	}
	mid := func(cargo any) {
		steps(ib, cargo)
		out += io
		if isame {
			leaf(cargo)
		}
		for _, it := range iitems {
			leaf(it)
		}
		out += icl
		steps(idl, cargo)
		out += outl
	}
	steps(ob, 77)
	out += oo
	if osame {
		mid(77)
	}
	for _, it := range oitems {
		mid(it)
	}
	out += ocl
	c.check(outer, want, out)
}

// C24_conditions: conditions get the innermost context and those under a false one are not asked.
func C24_conditions() {
	c := &caller{}
	ts := []bool{sym.Bool(), sym.Bool(), sym.Bool()}
	cond := func(id int, ns ...aitch.Node) aitch.Node {
		return aitch.Conditional(func(ctx *context.Context) bool {
			c.call(id, ctx)
			return ts[id]
		}, ns...)
	}
	v := rawVal(1)
	leaf := []aitch.Node{aitch.Text(v.given), html.Id(v.given)}
	how := sym.Choice(3)
	var in aitch.Node
	switch how {
	case 0:
		in = cond(0, append(leaf, cond(1, append(leaf, cond(2, leaf...))...))...)
	case 1:
		in = cond(0, aitch.Collection(leaf...), aitch.Collection(cond(1, html.Class(v.given), cond(2, html.Title(v.given), aitch.Text(v.given)))))
	case 2:
		in = cond(0, aitch.Iterate(func(*context.Context) []any { return []any{1} }, cond(1, leaf[0], cond(2, leaf[0]))))
	}
	node := html.Div(in)
	w := &failWriter{failAt: -1}
	ctx := context.New(w, nil, 77)
	err := node.Render(ctx)
	sym.Assert(err == nil, "no error")
	seen := [3]bool{}
	for i, id := range c.log {
		seen[id] = true
		want := any(77)
		if how == 2 && id > 0 {
			want = 1
		}
		sym.Assert(c.seen[i] == want, "conditions get the innermost context")
	}
	sym.Assert(seen[0], "the outermost condition is asked")
	sym.Assert(seen[1] == ts[0], "a condition is asked exactly when the enclosing one holds")
	sym.Assert(seen[2] == (ts[0] && ts[1]), "a nested condition is asked exactly when all enclosing ones hold")
}

// C24_collected: collected nodes stand at their place, attributes and nils ignored.
func C24_collected() {
	a, b, d := rawVal(1), rawVal(1), rawVal(1)
	all := []aitch.Node{aitch.Text(a.given), nil, html.Class("no"), html.B(b.given), html.Hidden(), aitch.Collection(aitch.Text(d.given), html.Id("no"))}
	texts := []string{a.text, "", "", "<b>" + b.text + "</b>", "", d.text}
	var picked []aitch.Node
	want := "<p>["
	n := sym.Choice(6)
	for i := 0; i < n; i++ {
		k := sym.Choice(len(all))
		picked = append(picked, all[k])
		want += texts[k]
	}
	want += "]</p>"
	coll := aitch.ContentCollect(func(ctx *context.Context) []aitch.Node { return picked })
	var wrap aitch.Node
	switch sym.Choice(4) {
	case 0:
		wrap = coll
	case 1:
		wrap = aitch.Collection(coll)
	case 2:
		wrap = aitch.When("!no", coll)
	case 3:
		wrap = aitch.ContentCollect(func(ctx *context.Context) []aitch.Node { return []aitch.Node{coll} })
	}
	node := html.P("[", wrap, "]")
	expect(node, nil, nil, want, "collected nodes")
	expect(node, nil, nil, want, "collected nodes again")
}

// C24_attributes: functions of attributes that are not written are not called, the others once.
func C24_attributes() {
	c := &caller{}
	t := sym.Bool()
	cond := func(ns ...aitch.Node) aitch.Node {
		return aitch.Conditional(func(*context.Context) bool { return t }, ns...)
	}
	var node aitch.Node
	var want []int
	out := ""
	switch sym.Choice(5) {
	case 0:
		node = html.P(html.Id(c.value(0)), cond(html.Title(c.value(1))), aitch.Text(c.value(2)))
		want = []int{0, 2}
		out = `<p id="0">2</p>`
		if t {
			want = []int{0, 1, 2}
			out = `<p id="0" title="1">2</p>`
		}
	case 1:
		node = html.P(html.Class(c.value(0)), cond(html.Class(c.value(1))), html.Class(c.value(2)))
		want = []int{0, 2}
		out = `<p class="0 2"></p>`
		if t {
			want = []int{0, 2, 1}
			out = `<p class="0 2 1"></p>`
		}
	case 2:
		node = html.P(html.Id(c.value(0)), html.Id(c.value(1)), cond(html.Id(c.value(2))))
		want = []int{1}
		out = `<p id="1"></p>`
		if t {
			want = []int{2}
			out = `<p id="2"></p>`
		}
	case 3:
		node = html.Br(cond(html.Id(c.value(0)), cond(html.Class(c.value(1)))), html.Class(c.value(2)))
		want = []int{2}
		out = `<br class="2">`
		if t {
			want = []int{2, 1, 0}
			out = `<br class="2 1" id="0">`
		}
	case 4:
		node = aitch.Imperative(func(ic aitch.ImperativeContext) error {
			ic.Start([]byte("p"), true, html.Id(c.value(0)), html.Class(c.value(1)), html.Id(c.value(2)), html.Class(c.value(3)))
			return nil
		})
		want = []int{2, 1, 3}
		out = `<p id="2" class="1 3">`
	}
	var steps []step
	for _, id := range want {
		steps = append(steps, step{id, 77})
	}
	c.check(node, steps, out)
}
