package props

// Bounds: every iteration order of every map ranged over by the code (all permutations up to 4 entries); elements with up
// to 4 unconditional and 4 conditional attribute names (symbolic truths, arbitrary value bytes); header maps of 2..4
// entries with keys of 1..2 letters (both cases), digits and dashes; imperative starts with 4 attributes; templates of 3 nodes; data maps of 3
// entries; each node rendered twice and built twice.
// Also 3..34 attributes of three kinds with none, half or all of them under conditions, one of symbolic truth (4
// representative orders of maps above 4 entries).
// Header names with common beginnings of 0..256 bytes (extra.go).
// Sizes include those at which the code itself makes a difference (constants of its comparisons, up to about 600).

import (
	"bytes"

	"aitchverif/sym"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
	"github.com/go-andiamo/aitch/htmx"
)

func init() {
	sym.Register("C07_attributes", C07_attributes)
	sym.Register("C07_conditionals", C07_conditionals)
	sym.Register("C07_many", C07_many)
	sym.Register("C07_headers", C07_headers)
	sym.Register("C07_imperative", C07_imperative)
	sym.Register("C07_data", C07_data)
	sym.Register("C07_template", C07_template)
}

// twice renders a node twice and the same tree built anew once; all three must equal the specification.
func twice(build func() aitch.Node, data map[string]any, want string, msg string) {
	n := build()
	expect(n, data, nil, want, msg)
	expect(n, data, nil, want, msg+" (again)")
	expect(build(), data, nil, want, msg+" (built anew)")
}

// C07_attributes: several unconditional attributes and a conditional one.
func C07_attributes() {
	names := []string{"d", "b", "c", "a"}
	n := 2 + sym.Choice(3)
	root := rootKind()
	for i := 0; i < n; i++ {
		k := kAttr
		if i%2 == 1 {
			k = kDelim
		}
		root.kids = append(root.kids, &rn{k: k, name: names[i], delim: " ", vals: []val{rawVal(1)}})
	}
	extra := &rn{k: kAttr, name: names[sym.Choice(n+1)%len(names)], vals: []val{rawVal(1)}}
	for _, c := range root.kids {
		if c.name == extra.name {
			extra.k, extra.delim = c.k, c.delim
		}
	}
	root.kids = append(root.kids, &rn{k: kCond, truth: sym.Bool(), kids: []*rn{extra}})
	twice(root.build, nil, root.emit(), "attributes in declared order")
}

// C07_conditionals: several conditional attributes of different names.
func C07_conditionals() {
	names := []string{"d", "b", "c", "a"}
	n := 2 + sym.Choice(2+sym.Tier())
	un := sym.Choice(3)
	root := &rn{k: kElem, name: "p"}
	for i := 0; i < n; i++ {
		k := kAttr
		if i%2 == 1 {
			k = kDelim
		}
		root.kids = append(root.kids, &rn{k: kCond, truth: sym.Bool(), kids: []*rn{{k: k, name: names[i], delim: " ", vals: []val{rawVal(1)}}}})
	}
	for i := 0; i < un; i++ {
		root.kids = append(root.kids, &rn{k: kAttr, name: "u" + names[i], vals: []val{rawVal(1)}})
	}
	twice(root.build, nil, root.emit(), "conditional attributes in declared order")
}

// C07_headers: header maps are written in key order.
func C07_headers() {
	n := 2 + sym.Choice(2+sym.Tier())
	keys := make([]string, n)
	vals := make([]val, n)
	for i := range keys {
		keys[i] = sym.StringOf(1, 2-i/2, "abcABC-z9")
		vals[i] = rawVal(1)
		for j := 0; j < i; j++ {
			sym.Assume(keys[i] != keys[j])
		}
	}
	order := make([]int, n)
	for i := range order {
		order[i] = i
	}
	for i := range order {
		for j := i + 1; j < n; j++ {
			if keys[order[j]] < keys[order[i]] {
				order[i], order[j] = order[j], order[i]
			}
		}
	}
	body := "{"
	for i, o := range order {
		if i > 0 {
			body += ", "
		}
		body += "'" + keys[o] + "': " + vals[o].text
	}
	body += "}"
	how := sym.Choice(3)
	build := func() aitch.Node {
		switch how {
		case 0:
			m := htmx.HeadersMap{}
			for i, k := range keys {
				m[k] = vals[i].given
			}
			return htmx.Headers(m)
		case 1:
			m := htmx.HeadersMap{}
			m2 := htmx.HeadersMap{}
			for i, k := range keys {
				if i < n/2 {
					m[k] = vals[i].given
				} else {
					m2[k] = vals[i].given
				}
			}
			return htmx.Headers(m, m2)
		}
		m := htmx.HeadersMap{}
		for i, k := range keys {
			m[k] = vals[i].given
		}
		return htmx.HeadersJS(m)
	}
	pre := ""
	if how == 2 {
		pre = "js:"
	}
	twice(build, nil, ` hx-headers="`+pre+body+`"`, "headers in key order")
}

// C07_imperative: attributes of an imperative start in the order given.
func C07_imperative() {
	names := []string{"d", "b", "c", "a"}
	n := 2 + sym.Choice(3)
	var list []attrUse
	for i := 0; i < n; i++ {
		k := kAttr
		if i == 2 {
			k = kDelim
		}
		list = append(list, attrUse{&rn{k: k, name: names[i], delim: " ", vals: []val{rawVal(1)}}, true})
	}
	again := &rn{k: list[1].a.k, name: list[1].a.name, vals: []val{rawVal(1)}}
	list = append(list, attrUse{again, true})
	build := func() aitch.Node {
		var as []aitch.Node
		for _, u := range list {
			as = append(as, u.a.build())
		}
		return aitch.Imperative(func(ic aitch.ImperativeContext) error {
			ic.Start([]byte("p"), false, as...)
			ic.EndAll()
			return nil
		})
	}
	twice(build, nil, "<p"+attrListText(list)+"></p>", "imperative attributes in the order given")
}

// C07_data: several data entries, cargo and iteration.
func C07_data() {
	a, b, c := rawVal(1), rawVal(1), rawVal(1)
	data := map[string]any{"c": c.given, "a": a.given, "b": b.given}
	build := func() aitch.Node {
		return aitch.Collection(
			aitch.Text(aitch.DynamicValueKey("b"), aitch.DynamicValueKey("a")),
			aitch.When("a", aitch.Text(aitch.DynamicValueKey("c"))),
			aitch.Iterate(func(ctx *context.Context) []any { return []any{data, "x"} }, aitch.Text(aitch.DynamicValueKey("a"))),
		)
	}
	twice(build, data, b.text+a.text+c.text+a.text+a.text, "data by key")
}

// C07_template: nodes are placed by their own names.
func C07_template() {
	a, b, c := rawVal(1), rawVal(1), rawVal(1)
	want := a.text + "-" + b.text + c.text
	for i := 0; i < 2; i++ {
		t, err := aitch.NewTemplate("t", "{{a .}}-{{b .}}{{c .}}", aitch.NodeMap{"a": aitch.Text(a.given), "b": aitch.Text(b.given), "c": aitch.Text(c.given)})
		sym.Assert(err == nil, "template is built")
		var buf bytes.Buffer
		err = t.Execute(&buf, nil, nil)
		sym.Assert(err == nil, "template is executed")
		sym.Observe("out", buf.Bytes())
		sym.Assert(buf.String() == want, "template output")
	}
}

// C07_many: many attributes of all kinds, all, none or every other of them given under conditions.
func C07_many() {
	n := sym.Size(140, 3, 5, 6, 7, 9, 17, 34)
	mode := sym.Choice(4)
	kinds := sym.Choice(3)
	t := sym.Bool()
	v := rawVal(1)
	root := &rn{k: kElem, name: "p"}
	at := func(i int) *rn {
		r := &rn{k: kAttr, name: string([]byte{'z' - byte(i*7%26), 'a' + byte(i/26)}), delim: " ", vals: []val{v}}
		switch {
		case kinds == 1:
			r.k = kDelim
		case kinds == 2 && i%3 == 1:
			r.k = kBool
		case kinds == 2 && i%3 == 2:
			r.k = kDelim
		}
		return r
	}
	under := &rn{k: kCond, truth: true}
	for i := 0; i < n; i++ {
		a := at(i)
		switch {
		case mode == 0 || mode == 1 && i%2 == 0:
			root.kids = append(root.kids, a)
		case mode == 3: // one condition around all of them
			under.kids = append(under.kids, a)
		default:
			tt := true
			if i == n/2 {
				tt = t
			}
			root.kids = append(root.kids, &rn{k: kCond, truth: tt, kids: []*rn{a}})
		}
	}
	if mode == 3 {
		under.truth = t
		root.kids = append(root.kids, under)
	}
	if kinds == 1 { // one of them given again, under a condition
		a := at(1)
		root.kids = append(root.kids, &rn{k: kCond, truth: true, kids: []*rn{a}})
	}
	expect(root.build(), nil, nil, root.emit(), "many attributes in declared order")
}
