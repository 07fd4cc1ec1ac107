package props

// Bounds: a node (text, element, attribute) wrapped in 0..7 (thorough 0..9) layers, each a condition (symbolic truth) or a
// collection, beside one or two sibling conditions at each layer from a chosen depth; two renders with independent truths
// read from the data; up to 3 chains under one element; contents and attributes interleaved at every layer.
// Also the 15 documented constructs as members of conditions at every layer, and conditions owning several elements.
// 16 kinds of node under 7 arrangements of conditions; up to 130 conditions beside or within each other (more.go).
// Strings the code itself compares with, alone, with an arbitrary byte before or after, and after one another (words.go).
// Sizes include those at which the code itself makes a difference (constants of its comparisons, up to about 600).
// Also: two texts that differ in one arbitrary byte or in length, side by side and after each other (history.go).
// Also: the order in which conditions are asked (lures.go).

import (
	"aitchverif/sym"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
)

func init() {
	sym.Register("C05_chain", C05_chain)
	sym.Register("C05_siblings", C05_siblings)
	sym.Register("C05_tree", C05_tree)
	sym.Register("C05_shapes", C05_shapes)
	sym.Register("C05_owner", C05_owner)
	sym.Register("C05_rerender", C05_rerender)
}

func oneAttr(name string) *rn { return &rn{k: kAttr, name: name, vals: []val{rawVal(1)}} }
func oneText() *rn            { return &rn{k: kText, vals: []val{rawVal(1)}} }

// C05_chain: one node under a chain of conditions and collections.
func C05_chain() {
	n := sym.Choice(8 + 2*sym.Tier())
	var cur *rn
	switch sym.Choice(3) {
	case 0:
		cur = oneText()
	case 1:
		cur = oneAttr("id")
	case 2:
		cur = &rn{k: kElem, name: "b", kids: []*rn{oneAttr("id"), oneText()}}
	}
	for i := 0; i < n; i++ {
		if i < 4 && sym.Choice(2) == 1 {
			cur = &rn{k: kColl, kids: []*rn{cur}}
		} else {
			cur = &rn{k: kCond, truth: sym.Bool(), kids: []*rn{cur}}
		}
	}
	root := rootKind()
	root.kids = []*rn{cur}
	expect(root.build(), nil, nil, root.emit(), "written exactly when all conditions hold")
}

// C05_siblings: at depth d, two or three sibling conditions with attributes and contents of their own.
func C05_siblings() {
	d := sym.Choice(7 + 2*sym.Tier())
	sibs := 2 + sym.Choice(2)
	coll := sym.Choice(2) == 1
	var kids []*rn
	for i := 0; i < sibs; i++ {
		kids = append(kids, &rn{k: kCond, truth: sym.Bool(), kids: []*rn{oneAttr("s" + string(rune('a'+i))), oneText()}})
	}
	if sym.Choice(2) == 1 {
		// the first sibling has a nested one
		kids[0].kids = append(kids[0].kids, &rn{k: kCond, truth: sym.Bool(), kids: []*rn{oneAttr("n")}})
	}
	outer := sym.Bool()
	for i := 0; i < d; i++ {
		t := true
		if i == d-1 || i == 0 {
			t = outer
		}
		g := &rn{k: kCond, truth: t, kids: kids}
		if coll {
			g = &rn{k: kCond, truth: t, kids: []*rn{{k: kColl, kids: kids}}}
		}
		kids = []*rn{g}
	}
	root := &rn{k: kElem, name: "p", kids: kids}
	expect(root.build(), nil, nil, root.emit(), "siblings are independent")
}

type condGen struct{ n int }

func (g *condGen) tree(d int) []*rn {
	var kids []*rn
	n := 1 + sym.Choice(2)
	for i := 0; i < n; i++ {
		g.n++
		var leafs []*rn
		attr := oneAttr("a" + string(rune('a'+g.n)))
		what := sym.Choice(3)
		if what == 0 {
			leafs = append(leafs, attr, oneText())
		} else if d == 0 {
			leafs = append(leafs, attr)
		}
		if d > 0 && what > 0 {
			leafs = append(leafs, g.tree(d-1)...)
		}
		if d > 0 && what == 2 {
			leafs = append(leafs, attr)
		}
		kids = append(kids, &rn{k: kCond, truth: sym.Bool(), kids: leafs})
	}
	return kids
}

// C05_tree: trees of conditions.
func C05_tree() {
	g := &condGen{}
	root := &rn{k: kElem, name: "p"}
	root.kids = g.tree(1 + sym.Tier())
	expect(root.build(), nil, nil, root.emit(), "condition trees")
}

// C05_owner: conditional attributes belong to the nearest element.
func C05_owner() {
	in := &rn{k: kElem, name: "b", kids: []*rn{{k: kCond, truth: sym.Bool(), kids: []*rn{oneAttr("id"), oneText()}}, oneText()}}
	mid := []*rn{
		{k: kCond, truth: sym.Bool(), kids: []*rn{in, oneAttr("id")}},
		{k: kCond, truth: sym.Bool(), kids: []*rn{{k: kVoid, name: "br", kids: []*rn{{k: kCond, truth: sym.Bool(), kids: []*rn{oneAttr("id")}}}}}},
	}
	switch sym.Choice(3) {
	case 0:
		root := &rn{k: kElem, name: "p", kids: mid}
		expect(root.build(), nil, nil, root.emit(), "nearest element")
	case 1:
		root := &rn{k: kElem, name: "p", kids: []*rn{{k: kElem, name: "i", kids: mid}, {k: kColl, kids: mid}}}
		expect(root.build(), nil, nil, root.emit(), "nearest element")
	case 2:
		root := &rn{k: kColl, kids: append(mid, oneAttr("x"))}
		expect(root.build(), nil, nil, root.emit(), "no element: attributes are dropped")
	}
}

// C05_rerender: the conditions are asked in each render's own context.
func C05_rerender() {
	keys := []string{"a", "b", "c"}
	var n aitch.Node = aitch.Collection(aitch.Attribute("id", "x"), aitch.Text("t"))
	depth := 1 + sym.Choice(3)
	for i := 0; i < depth; i++ {
		k := keys[i]
		n = aitch.Conditional(func(ctx *context.Context) bool { return ctx.Data[k].(bool) }, n)
	}
	p := aitch.Element("p", n, aitch.Conditional(func(ctx *context.Context) bool { return ctx.Data["d"].(bool) }, aitch.Attribute("title", "y")))
	for r := 0; r < 2; r++ {
		data := map[string]any{"a": sym.Bool(), "b": sym.Bool(), "c": sym.Bool(), "d": sym.Bool()}
		all := true
		for i := 0; i < depth; i++ {
			all = all && data[keys[i]].(bool)
		}
		want := "<p"
		if all {
			want += ` id="x"`
		}
		if data["d"].(bool) {
			want += ` title="y"`
		}
		want += ">"
		if all {
			want += "t"
		}
		expect(p, data, nil, want+"</p>", "render's own conditions")
	}
}

// C05_shapes: any sequence of conditions opened, attributes and contents given and conditions closed.
func C05_shapes() {
	root := &rn{k: kElem, name: "p"}
	stack := []*rn{root}
	n := 8 + sym.Tier()
	attrs := 0
	for i := 0; i < n; i++ {
		cur := stack[len(stack)-1]
		switch sym.Choice(4) {
		case 0:
			if i == n-1 {
				return
			}
			c := &rn{k: kCond, truth: sym.Bool()}
			cur.kids = append(cur.kids, c)
			stack = append(stack, c)
		case 1:
			attrs++
			cur.kids = append(cur.kids, oneAttr("a"+string(rune('a'+attrs))))
		case 2:
			if len(stack) == 1 {
				return
			}
			stack = stack[:len(stack)-1]
		case 3:
			cur.kids = append(cur.kids, &rn{k: kElem, name: "b", kids: []*rn{oneText()}})
		}
	}
	expect(root.build(), nil, nil, root.emit(), "shapes of conditions")
}
