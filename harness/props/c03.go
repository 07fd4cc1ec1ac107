package props

// Bounds: 1..4 (thorough 1..5) attributes with names from {a, b}, all plain, all delimited, all boolean or a mixture by
// name, each given directly, in a collection, in a nested collection, under a condition (symbolic truth), under two
// conditions, or in a collection under a condition; on elements and void elements; each value one arbitrary byte; plus up
// to 18 repetitions of one attribute. Attributes of different kinds sharing one name are outside the claim.
// Name pairs that differ in case, length or last byte keep their own attributes.
// Up to 130 names of up to 258 bytes, each given once or twice; values of every kind (more.go).
// Strings the code itself compares with, alone, with an arbitrary byte before or after, and after one another (words.go).
// Sizes include those at which the code itself makes a difference (constants of its comparisons, up to about 600).
// Also: two texts that differ in one arbitrary byte or in length, side by side and after each other (history.go).

import (
	"aitchverif/sym"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
	"github.com/go-andiamo/aitch/css"
	"github.com/go-andiamo/aitch/html"
	"github.com/go-andiamo/aitch/htmx"
)

func init() {
	sym.Register("C03_merge", C03_merge)
	sym.Register("C03_many", C03_many)
	sym.Register("C03_order", C03_order)
	sym.Register("C03_symnames", C03_symnames)
	sym.Register("C03_named", C03_named)
	sym.Register("C03_same", C03_same)
}

func place(a *rn, how int) *rn {
	switch how {
	case 1:
		return &rn{k: kColl, kids: []*rn{a}}
	case 2:
		return &rn{k: kCond, truth: sym.Bool(), kids: []*rn{a}}
	case 3:
		return &rn{k: kCond, truth: sym.Bool(), kids: []*rn{{k: kColl, kids: []*rn{a}}}}
	case 4:
		return &rn{k: kCond, truth: sym.Bool(), kids: []*rn{{k: kCond, truth: sym.Bool(), kids: []*rn{a}}}}
	case 5:
		return &rn{k: kColl, kids: []*rn{{k: kColl, kids: []*rn{a}}}}
	case 6:
		return &rn{k: kColl, kids: []*rn{{k: kCond, truth: sym.Bool(), kids: []*rn{a}}}}
	}
	return a
}

func rootKind() *rn {
	if sym.Choice(2) == 1 {
		return &rn{k: kVoid, name: "hr"}
	}
	return &rn{k: kElem, name: "p"}
}

// C03_merge: any sequence of attributes over two names.
func C03_merge() {
	root := rootKind()
	kinds := [][2]kind{{kAttr, kAttr}, {kDelim, kDelim}, {kBool, kAttr}, {kDelim, kAttr}}[sym.Choice(4)]
	n := 1 + sym.Choice(3+sym.Tier())
	for i := 0; i < n; i++ {
		j := sym.Choice(2)
		a := &rn{k: kinds[j], name: string(rune('a' + j)), delim: ";", vals: []val{rawVal(1)}}
		hows := 7
		if n > 2 {
			hows = 3
		}
		root.kids = append(root.kids, place(a, sym.Choice(hows)))
	}
	expect(root.build(), nil, nil, root.emit(), "each attribute name once")
}

// C03_order: four attributes, several under one condition or collection, in any order.
func C03_order() {
	root := rootKind()
	delim := sym.Choice(2) == 1
	stack := []*rn{root}
	for i := 0; i < 4; i++ {
		a := &rn{k: kAttr, name: string(rune('a' + sym.Choice(2))), delim: ", ", vals: []val{rawVal(1)}}
		if delim {
			a.k = kDelim
		}
		how := sym.Choice(4)
		if how == 3 && len(stack) > 1 {
			stack = stack[:len(stack)-1]
		}
		cur := stack[len(stack)-1]
		switch how {
		case 0, 3:
			cur.kids = append(cur.kids, a)
		case 1, 2:
			g := &rn{k: kColl, kids: []*rn{a}}
			if how == 1 {
				g.k, g.truth = kCond, sym.Bool()
			}
			cur.kids = append(cur.kids, g)
			stack = append(stack, g)
		}
	}
	expect(root.build(), nil, nil, root.emit(), "attributes in the order given")
}

// C03_many: many repetitions of one delimited or plain attribute.
func C03_many() {
	sizes := []int{2, 4, 5, 8, 9, 18}
	n := sizes[sym.Choice(len(sizes))]
	delim := sym.Choice(2) == 1
	how := sym.Choice(3)
	root := &rn{k: kElem, name: "p"}
	for i := 0; i < n; i++ {
		a := &rn{k: kAttr, name: "class", delim: " ", vals: []val{rawVal(1)}}
		if delim {
			a.k = kDelim
			a.vals = append(a.vals, rawVal(1))
		}
		switch how {
		case 0:
			root.kids = append(root.kids, a)
		case 1:
			root.kids = append(root.kids, &rn{k: kColl, kids: []*rn{a}}, &rn{k: kText, vals: []val{rawVal(1)}})
		case 2:
			root.kids = append(root.kids, &rn{k: kCond, truth: i%3 != 1, kids: []*rn{a}})
		}
	}
	expect(root.build(), nil, nil, root.emit(), "many attributes of one name")
}

// C03_symnames: names are compared byte by byte.
func C03_symnames() {
	x := sym.StringOf(1, 2, "abAB")
	y := sym.StringOf(1, 2, "abAB")
	a := &rn{k: kAttr, name: x, delim: ";", vals: []val{rawVal(1)}}
	b := &rn{k: kAttr, name: y, delim: ";", vals: []val{rawVal(1)}}
	if sym.Choice(2) == 1 {
		a.k, b.k = kDelim, kDelim
	}
	root := rootKind()
	root.kids = []*rn{a, b}
	expect(root.build(), nil, nil, root.emit(), "symbolic names")
}

// C03_named: the list-like html and css attributes merge.
func C03_named() {
	u, v, w := rawVal(1), rawVal(1), rawVal(1)
	t := sym.Bool()
	cond := func(*context.Context) bool { return t }
	switch sym.Choice(4) {
	case 0:
		want := `<p class="` + u.text + " " + v.text
		if t {
			want += " " + w.text
		}
		expect(html.P(html.Class(u.given), aitch.Conditional(cond, html.Class(w.given)), html.Class(v.given)), nil, nil, want+`"></p>`, "class merges")
	case 1:
		want := `<p style="color:` + u.text + "; width:" + v.text
		if t {
			want += "; height:" + w.text
		}
		expect(html.P(css.Color(u.given), css.Width(v.given), aitch.Conditional(cond, css.Height(w.given))), nil, nil, want+`"></p>`, "css declarations merge")
	case 2:
		want := `<p style="` + u.text + "; color:" + v.text + `" id="` + w.text + `"></p>`
		expect(html.P(html.Style(u.given), html.Id("x"), css.Color(v.given), html.Id(w.given)), nil, nil, want, "style and css merge")
	case 3:
		want := `<p hx-trigger="` + u.text + " " + v.text + `">` + w.text + `</p>`
		expect(html.P(htmx.Trigger(u.given), w.given, htmx.Trigger(v.given)), nil, nil, want, "trigger merges")
	}
}

// C03_same: the same attribute node, or one with the same values, given several times.
func C03_same() {
	root := rootKind()
	v, w := rawVal(1), rawVal(1)
	mk := func(name string, vs ...val) *rn {
		switch sym.Choice(3) {
		case 0:
			return &rn{k: kAttr, name: name, vals: vs}
		case 1:
			return &rn{k: kBool, name: name}
		}
		return &rn{k: kDelim, name: name, delim: " ", vals: vs}
	}
	a := mk("a", v)
	b := &rn{k: a.k, name: "a", delim: " ", vals: []val{w}}
	if sym.Choice(2) == 1 {
		b.vals = []val{v}
	}
	o := &rn{k: kAttr, name: "o", vals: []val{w}}
	na, nb, no := a.build(), b.build(), o.build()
	a.made = func() aitch.Node { return na }
	b.made = func() aitch.Node { return nb }
	o.made = func() aitch.Node { return no }
	all := []*rn{a, b, o}
	n := 2 + sym.Choice(2+sym.Tier())
	for i := 0; i < n; i++ {
		root.kids = append(root.kids, place(all[sym.Choice(3)], sym.Choice(4)))
	}
	expect(root.build(), nil, nil, root.emit(), "the same attribute several times")
}
