package props

// Bounds: a root (element, void element, collection or collected group) with 0..3 contents of 18 kinds or 4 contents of 9
// kinds (thorough: 4 of 18), conditional contents and attributes with arbitrary conditions among them; trees of elements,
// collections, texts and attributes nested to depth 3 below the root, with
// up to 2 contents each, beside a subtree of depth 2 (thorough: 3); values-only nodes (1 or 2 of 13 kinds) given as
// contents of text, comment, fragment, attribute and PI; up to 33 contents of one shape; every value is one or two
// arbitrary bytes, element names are arbitrary letters.
// Also contents of every kind of value (wide.go) in lists of up to 3.
// Up to 257 contents, and elements, collections and conditions nested 257 deep (more.go).
// Nodes of 17 types of one's own in 12 places (extra.go).
// Strings the code itself compares with, alone, with an arbitrary byte before or after, and after one another (words.go).
// Sizes include those at which the code itself makes a difference (constants of its comparisons, up to about 600).
// Also: two texts that differ in one arbitrary byte or in length, side by side and after each other (history.go).
// Also: writers that are more than io.Writer (lures.go).

import (
	"aitchverif/sym"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
)

func init() {
	sym.Register("C02_flat", C02_flat)
	sym.Register("C02_deep", C02_deep)
	sym.Register("C02_values", C02_values)
	sym.Register("C02_named", C02_named)
	sym.Register("C02_wide", C02_wide)
}

type gen struct{ attrs int }

func (g *gen) attrName() string {
	g.attrs++
	return "a" + string(rune('0'+g.attrs%10)) + string(rune('0'+g.attrs/10))
}

func rawVal(n int) val {
	b := raw(n)
	return val{b, string(b)}
}

func (g *gen) leaf(k int) *rn {
	switch k {
	case 0:
		return &rn{k: kText, vals: []val{rawVal(1)}}
	case 1:
		return &rn{k: kAttr, name: g.attrName(), vals: []val{rawVal(1)}}
	case 2:
		return &rn{k: kElem, name: letters(1)}
	case 3:
		return &rn{k: kVoid, name: letters(1)}
	case 4:
		return nil
	case 5:
		return &rn{k: kComment, vals: []val{rawVal(1)}}
	case 6:
		return &rn{k: kPI, name: letters(2), vals: []val{rawVal(1)}}
	case 7:
		return &rn{k: kFragment, vals: []val{rawVal(2), rawVal(1)}}
	case 8:
		return &rn{k: kBool, name: g.attrName()}
	case 9:
		return &rn{k: kDelim, name: g.attrName(), delim: " ", vals: []val{rawVal(1), rawVal(1)}}
	case 10:
		return &rn{k: kColl, kids: []*rn{g.leaf(0), g.leaf(1), nil, g.leaf(2)}}
	case 11:
		return &rn{k: kCollect, kids: []*rn{g.leaf(0), g.leaf(1), nil, g.leaf(2)}}
	case 12:
		return &rn{k: kElem, name: "div", kids: []*rn{g.leaf(0), g.leaf(1), g.leaf(8)}}
	case 13:
		return &rn{k: kColl, kids: []*rn{g.leaf(1), {k: kColl, kids: []*rn{g.leaf(0), g.leaf(1)}}, g.leaf(0)}}
	case 14:
		return &rn{k: kVoid, name: "img", kids: []*rn{g.leaf(0), g.leaf(1), g.leaf(2), g.leaf(8)}}
	case 15:
		return &rn{k: kCond, truth: sym.Bool(), kids: []*rn{g.leaf(1), g.leaf(0), g.leaf(9)}}
	case 16:
		return &rn{k: kVoid, name: "br", kids: []*rn{g.leaf(0), {k: kCond, truth: sym.Bool(), kids: []*rn{g.leaf(8), g.leaf(1), g.leaf(0)}}}}
	case 17:
		return &rn{k: kElem, name: "b", kids: []*rn{{k: kCond, truth: sym.Bool(), kids: []*rn{g.leaf(1), g.leaf(2)}}, {k: kColl, kids: []*rn{{k: kCond, truth: sym.Bool(), kids: []*rn{g.leaf(0), g.leaf(8)}}}}}}
	}
	return nil
}

// C02_flat: a root with any sequence of contents.
func C02_flat() {
	g := &gen{}
	roots := []kind{kElem, kVoid, kColl, kCollect}
	root := &rn{k: roots[sym.Choice(len(roots))], name: letters(1)}
	n := sym.Choice(5)
	for i := 0; i < n; i++ {
		k := 18
		if n > 3 && sym.Tier() == 0 {
			k = 9
		}
		root.kids = append(root.kids, g.leaf(sym.Choice(k)))
	}
	expect(root.build(), nil, nil, root.emit(), "flat tree")
}

func (g *gen) tree(d int) *rn {
	if d == 0 {
		return g.leaf(sym.Choice(2))
	}
	switch sym.Choice(4) {
	case 0:
		return g.leaf(0)
	case 1:
		return g.leaf(1)
	case 2:
		return g.fill(&rn{k: kElem, name: letters(1)}, d-1)
	default:
		return g.fill(&rn{k: kColl}, d-1)
	}
}

func (g *gen) fill(r *rn, d int) *rn {
	n := sym.Choice(3)
	for i := 0; i < n; i++ {
		r.kids = append(r.kids, g.tree(d))
	}
	return r
}

// C02_deep: nested elements and collections.
func C02_deep() {
	g := &gen{}
	root := &rn{k: kElem, name: "p"}
	before := sym.Choice(3)
	if before > 0 {
		root.kids = append(root.kids, g.leaf(before-1))
	}
	root.kids = append(root.kids, g.tree(2))
	if sym.Tier() == 1 && before == 0 {
		root.kids = append(root.kids, g.tree(2))
	} else {
		root.kids = append(root.kids, g.tree(1))
	}
	expect(root.build(), nil, nil, root.emit(), "deep tree")
}

// valueNode is a node standing where values are expected: it contributes only its values.
func valueNode(k int) (any, string) {
	a, b := rawVal(1), rawVal(1)
	switch k {
	case 0:
		return aitch.Text(a.given, b.given), a.text + b.text
	case 1:
		return aitch.Comment(a.given), a.text
	case 2:
		return aitch.Fragment(a.given, nil, b.given), a.text + b.text
	case 3:
		return aitch.Element("p", a.given), ""
	case 4:
		return aitch.Collection(aitch.Text(a.given), aitch.Element("p", "x"), nil, aitch.Collection(aitch.Comment(b.given))), a.text + b.text
	case 5:
		return aitch.PI("xml", a.given), a.text
	case 6:
		return aitch.Attribute("id", a.given, b.given), a.text + b.text
	case 7:
		return aitch.BooleanAttribute("checked"), ""
	case 8:
		return aitch.Conditional(func(*context.Context) bool { return true }, aitch.Text(a.given)), ""
	case 9:
		return aitch.VoidElement("br"), ""
	case 10:
		return aitch.NewConcatValue(a.given, b.given), a.text + b.text
	case 11:
		return a.given, a.text
	default:
		return nil, ""
	}
}

// C02_values: nodes as contents of values-only nodes.
func C02_values() {
	var vs []any
	want := ""
	n := 1 + sym.Choice(2)
	for i := 0; i < n; i++ {
		v, t := valueNode(sym.Choice(13))
		vs = append(vs, v)
		want += t
	}
	switch sym.Choice(5) {
	case 0:
		expect(aitch.Text(vs...), nil, nil, want, "text of nodes")
	case 1:
		expect(aitch.Comment(vs...), nil, nil, "<!--"+want+"-->", "comment of nodes")
	case 2:
		expect(aitch.Fragment(vs...), nil, nil, want, "fragment of nodes")
	case 3:
		expect(aitch.NewAttribute([]byte("id"), vs...), nil, nil, ` id="`+want+`"`, "attribute of nodes")
	case 4:
		expect(aitch.PI("xml", vs...), nil, nil, "<!xml "+want+">\n", "PI of nodes")
	}
}

// C02_named: the checked constructors build the same trees.
func C02_named() {
	name := sym.StringOf(1, 3, "abhrdiv")
	v := rawVal(1)
	w := rawVal(1)
	void := name == "hr" || name == "br"
	n := aitch.Element(name, aitch.Attribute("id", v.given), w.given, aitch.BooleanAttribute("hidden"))
	want := "<" + name + ` id="` + v.text + `" hidden>`
	if !void {
		want += w.text + "</" + name + ">"
	}
	expect(n, nil, nil, want, "checked element")
	expect(aitch.VoidElement(name, w.given, aitch.DelimitedAttribute("class", ",", v.given, w.given)), nil, nil, "<"+name+` class="`+v.text+","+w.text+`">`, "checked void element")
}

// C02_wide: many contents, beyond small capacities.
func C02_wide() {
	sizes := []int{1, 4, 5, 8, 9, 16, 17, 33}
	n := sizes[sym.Choice(len(sizes))]
	form := sym.Choice(4)
	root := &rn{k: kElem, name: "ul"}
	for i := 0; i < n; i++ {
		t := &rn{k: kText, vals: []val{rawVal(1)}}
		a := &rn{k: kAttr, name: "a" + string(rune('A'+i)), vals: []val{rawVal(1)}}
		switch form {
		case 0:
			root.kids = append(root.kids, t)
		case 1:
			root.kids = append(root.kids, a, t)
		case 2:
			root.kids = append(root.kids, &rn{k: kColl, kids: []*rn{t, a}})
		case 3:
			root.kids = append(root.kids, &rn{k: kElem, name: "li", kids: []*rn{a, t}})
		}
	}
	expect(root.build(), nil, nil, root.emit(), "wide tree")
}
