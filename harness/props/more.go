package props

// Harnesses of many properties that differ from the others in their domain: values of every kind (wide.go), and sizes well
// beyond those of ordinary use.

import (
	"strconv"
	"strings"

	"aitchverif/sym"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
	"github.com/go-andiamo/aitch/css"
	"github.com/go-andiamo/aitch/html"
	"github.com/go-andiamo/aitch/htmx"
	"github.com/go-andiamo/aitch/svg"
)

func init() {
	sym.Register("C01_big", C01_big)
	sym.Register("C02_kinds", C02_kinds)
	sym.Register("C02_sizes", C02_sizes)
	sym.Register("C03_sizes", C03_sizes)
	sym.Register("C03_kinds", C03_kinds)
	sym.Register("C04_sizes", C04_sizes)
	sym.Register("C05_kinds", C05_kinds)
	sym.Register("C05_sizes", C05_sizes)
	sym.Register("C06_kinds", C06_kinds)
	sym.Register("C08_sizes", C08_sizes)
	sym.Register("C10_kinds", C10_kinds)
	sym.Register("C10_sizes", C10_sizes)
	sym.Register("C12_sizes", C12_sizes)
	sym.Register("C14_sizes", C14_sizes)
	sym.Register("C15_sizes", C15_sizes)
	sym.Register("C15_kinds", C15_kinds)
	sym.Register("C16_sizes", C16_sizes)
	sym.Register("C17_kinds", C17_kinds)
	sym.Register("C19_sizes", C19_sizes)
	sym.Register("C20_sizes", C20_sizes)
	sym.Register("C22_sizes", C22_sizes)
	sym.Register("C23_sizes", C23_sizes)
	sym.Register("C24_sizes", C24_sizes)
}

// oneOf chooses one of the sizes.
// dims chooses a value of each list; one of them may be a size of the code under test instead, the others then being among the
// first two of their lists.
func dims(max int, lists ...[]int) []int {
	k := sym.Choice(len(lists) + 1)
	var out []int
	for i, l := range lists {
		switch {
		case i == k:
			out = append(out, sym.Size(max))
		case k < len(lists):
			out = append(out, oneOf(l[:min(2, len(l))]...))
		default:
			out = append(out, oneOf(l...))
		}
	}
	return out
}

func oneOf(of ...int) int { return of[sym.Choice(len(of))] }

func yes(*context.Context) bool { return true }

// C01_big: an arbitrary byte in a long value, among ordinary and special ones.
func C01_big() {
	n := 0
	if sym.Tier() == 0 {
		n = sym.Size(8200, 128, 129, 256, 257, 1024, 1025, 4097)
	} else {
		n = sym.Size(8200, 127, 255, 511, 512, 513, 1023, 2048, 4095, 4096, 8193, 128, 129, 256, 257, 1024, 1025, 4097)
	}
	at := oneOf(0, 1, n/2, n-2, n-1)
	b := []byte(strings.Repeat([]string{"x", "<", "a&b 'c' "}[sym.Choice(3)], n)[:n])
	copy(b[at:], sym.Bytes(1, 1))
	s := string(b)
	want := refEscape(s)
	switch sym.Choice(6) {
	case 0:
		expect(aitch.Text(s), nil, nil, want, "text")
	case 1:
		expect(html.P(html.Id(s), s), nil, nil, `<p id="`+want+`">`+want+"</p>", "attribute and content")
	case 2:
		expect(aitch.Comment(key("k")), map[string]any{"k": s}, nil, "<!--"+want+"-->", "data")
	case 3:
		expect(aitch.Text(strer{s}), nil, nil, want, "Stringer")
	case 4:
		expect(aitch.Imperative(func(ic aitch.ImperativeContext) error { ic.WriteString(s); return nil }), nil, nil, want, "imperative text")
	case 5:
		expect(aitch.Text(b), nil, nil, s, "raw bytes")
	}
}

// C02_kinds: contents of every kind among others.
func C02_kinds() {
	x := wideContent()
	y := rawVal(1)
	at := aitch.NewAttribute([]byte("id"), y.given)
	el := aitch.NewElement([]byte("b"), y.given)
	elT := "<b>" + y.text + "</b>"
	var list []any
	attrs, texts := "", ""
	switch sym.Choice(7) {
	case 0:
		list, texts = []any{x.given}, x.text
	case 1:
		list, texts = []any{y.given, x.given, y.given}, y.text+x.text+y.text
	case 2:
		list, attrs, texts = []any{x.given, at, x.given}, ` id="`+y.text+`"`, x.text+x.text
	case 3:
		list, texts = []any{el, x.given, el}, elT+x.text+elT
	case 4:
		list, texts = []any{x.given, aitch.Collection(aitch.Text(x.given), nil, el), x.given}, x.text+x.text+elT+x.text
	case 5:
		list, attrs, texts = []any{aitch.Conditional(yes, at, aitch.Text(x.given)), x.given}, ` id="`+y.text+`"`, x.text+x.text
	case 6:
		list, texts = []any{nil, x.given, aitch.NewVoidElement([]byte("br"), x.given), nil, x.given}, x.text+"<br>"+x.text
	}
	switch sym.Choice(5) {
	case 0:
		expect(aitch.NewElement([]byte("p"), list...), wideData(nil), wideCargo, "<p"+attrs+">"+texts+"</p>", "contents in the order given")
	case 1:
		expect(aitch.NewVoidElement([]byte("hr"), list...), wideData(nil), wideCargo, "<hr"+attrs+">", "a void element has no contents")
	case 2:
		expect(html.Div(aitch.NewElement([]byte("p"), list...), "z"), wideData(nil), wideCargo, "<div><p"+attrs+">"+texts+"</p>z</div>", "nested contents in the order given")
	case 3:
		expect(aitch.Element("p", list...), wideData(nil), wideCargo, "<p"+attrs+">"+texts+"</p>", "contents of a checked element")
	case 4:
		expect(svg.G(list...), wideData(nil), wideCargo, "<g"+attrs+">"+texts+"</g>", "contents of an svg element")
	}
}

// C02_sizes: many contents and deep nesting.
func C02_sizes() {
	n := sym.Size(300, 20, 32, 34, 50, 64, 65, 100, 128, 129, 257)
	v := rawVal(1)
	text := &rn{k: kText, vals: []val{v}}
	root := &rn{k: kElem, name: "p"}
	form := sym.Choice(8)
	if form < 4 {
		for i := 0; i < n; i++ {
			k := form
			if form == 3 {
				k = i % 3
			}
			switch k {
			case 0:
				root.kids = append(root.kids, &rn{k: kText, vals: []val{{i, strconv.Itoa(i)}}})
			case 1:
				root.kids = append(root.kids, &rn{k: kAttr, name: "a" + strconv.Itoa(i), vals: []val{v}}, nil)
			case 2:
				root.kids = append(root.kids, &rn{k: kElem, name: "e" + strconv.Itoa(i), kids: []*rn{text}})
			}
		}
		root.k = []kind{kElem, kVoid, kColl, kCollect}[sym.Choice(4)]
		expect(root.build(), nil, nil, root.emit(), "many contents")
		return
	}
	cur := &rn{k: kColl, kids: []*rn{text, {k: kAttr, name: "id", vals: []val{v}}}}
	for i := 0; i < n; i++ {
		k := form
		if form == 7 {
			k = 4 + i%3
		}
		switch k {
		case 4:
			cur = &rn{k: kElem, name: "e" + strconv.Itoa(i%10), kids: []*rn{cur}}
		case 5:
			cur = &rn{k: kColl, kids: []*rn{cur}}
		case 6:
			cur = &rn{k: kCond, truth: true, kids: []*rn{cur, text}}
		}
	}
	root.kids = []*rn{text, cur, text}
	expect(root.build(), nil, nil, root.emit(), "deep tree")
}

// C03_sizes: many attribute names, long ones with common beginnings, each given once or twice.
func C03_sizes() {
	ds := dims(300, []int{5, 9, 17, 20, 33, 65, 130}, []int{1, 7, 8, 15, 16, 31, 64, 255})
	n, pre := ds[0], strings.Repeat("a", ds[1])
	kk := []kind{kAttr, kDelim, kBool}[sym.Choice(3)]
	v, w := rawVal(1), rawVal(1)
	root := rootKind()
	for r := 0; r < 2; r++ {
		x := v
		if r == 1 {
			x = w
		}
		for i := 0; i < n; i++ {
			if r == 1 && i%3 == 1 {
				continue
			}
			a := &rn{k: kk, name: pre + strconv.Itoa(i), delim: ", ", vals: []val{x}}
			if r == 1 && i%3 == 2 {
				a = &rn{k: kCond, truth: i%2 == 0, kids: []*rn{a}}
			}
			root.kids = append(root.kids, a)
		}
	}
	expect(root.build(), nil, nil, root.emit(), "each attribute name once")
}

// C03_kinds: repeated attributes with values of every kind.
func C03_kinds() {
	x, many := wideOne(false)
	y := rawVal(1)
	kk := []kind{kAttr, kDelim}[sym.Choice(2)]
	if kk == kDelim {
		sym.Assume(!many && x.text != "")
	}
	root := rootKind()
	a := &rn{k: kk, name: "a", delim: ", ", vals: []val{x}}
	b := &rn{k: kk, name: "a", delim: ", ", vals: []val{y}}
	switch sym.Choice(4) {
	case 0:
		root.kids = []*rn{a, b}
	case 1:
		root.kids = []*rn{b, a}
	case 2:
		root.kids = []*rn{b, {k: kCond, truth: sym.Bool(), kids: []*rn{a}}}
	case 3:
		root.kids = []*rn{a, {k: kCond, truth: sym.Bool(), kids: []*rn{b, a}}, {k: kBool, name: "z"}}
	}
	expect(root.build(), wideData(nil), wideCargo, root.emit(), "values of every kind")
}

// C04_sizes: long lists, long values and long delimiters.
func C04_sizes() {
	ds := dims(600, []int{2, 3, 16, 31, 33, 64, 65, 130, 257}, []int{0, 1, 8, 20}, []int{1, 40})
	n, d, ln := ds[0], strings.Repeat(", ", ds[1]), ds[2]
	v := rawVal(1)
	var vs []val
	pat := sym.Choice(4)
	for i := 0; i < n; i++ {
		switch {
		case pat == 1 && i%2 == 0 || pat == 2 && i > 0 && i < n-1 || pat == 3 && i%5 > 0:
			vs = append(vs, []val{{"", ""}, {nil, ""}, {key("none"), ""}}[i%3])
		default:
			vs = append(vs, val{append([]byte(strings.Repeat("v", ln)), v.text...), strings.Repeat("v", ln) + v.text})
		}
	}
	checkDelim(aitch.Element("hr", aitch.NewDelimitedAttribute([]byte("class"), []byte(d), givens(vs)...)), nil, `<hr class="`, `">`, vs, d)
	half := n / 2
	checkDelim(aitch.Element("hr", aitch.NewDelimitedAttribute([]byte("class"), []byte(d), givens(vs[:half])...), aitch.NewDelimitedAttribute([]byte("class"), []byte(d), givens(vs[half:])...)), nil, `<hr class="`, `">`, vs, d)
}

// condItem is a node of one of many kinds and its text.
func condItem(k int, y val) (aitch.Node, string) {
	in := aitch.Text(y.given)
	switch k {
	case 0:
		return html.B(html.Id(y.given), y.given), `<b id="` + y.text + `">` + y.text + "</b>"
	case 1:
		return html.Br(html.Class(y.given)), `<br class="` + y.text + `">`
	case 2:
		return aitch.Comment(y.given), "<!--" + y.text + "-->"
	case 3:
		return aitch.PI("x", y.given), "<!x " + y.text + ">\n"
	case 4:
		return aitch.Fragment(y.given, "f"), y.text + "f"
	case 5:
		return aitch.Imperative(func(ic aitch.ImperativeContext) error {
			ic.Start([]byte("u"), false, html.Id(y.given))
			ic.WriteNodes(in)
			ic.EndAll()
			return nil
		}), `<u id="` + y.text + `">` + y.text + "</u>"
	case 6:
		return aitch.Iterate(func(*context.Context) []any { return []any{1, 2} }, in, aitch.Text(key("."))), y.text + "1" + y.text + "2"
	case 7:
		return aitch.IterateYield(func(_ *context.Context, yield func(any)) { yield(3) }, in, html.Id("no")), y.text
	case 8:
		return aitch.IterateKey("wu", html.I(in)), "<i>" + y.text + "</i>"
	case 9:
		return aitch.ContentCollect(func(*context.Context) []aitch.Node { return []aitch.Node{in, html.Id("no"), html.I()} }), y.text + "<i></i>"
	case 10:
		return html.Document(nil, nil, []any{in}), "<!DOCTYPE html>\n<html><body>" + y.text + "</body></html>"
	case 11:
		return aitch.Collection(in, aitch.Collection(in)), y.text + y.text
	case 12:
		return aitch.When("wz", in, aitch.When("!wz", in)), y.text
	case 13:
		return svg.Svg(svg.Width(y.given), svg.G()), `<svg width="` + y.text + `"><g></g></svg>`
	case 14:
		return ownText{}, "own"
	}
	return aitch.Text(key("ws"), y.given, key(".")), "&lt;" + y.text + "c&gt;"
}

const nCondItems = 16

type ownText struct{}

func (ownText) Render(ctx *context.Context) error {
	_, ctx.Error = ctx.Writer.Write([]byte("own"))
	return ctx.Error
}
func (ownText) Type() aitch.NodeType { return aitch.TextNode }
func (ownText) Name() string         { return "" }

// C05_kinds: nodes of every kind under conditions.
func C05_kinds() {
	y := rawVal(1)
	n, text := condItem(sym.Choice(nCondItems), y)
	m, text2 := condItem([]int{0, 5, 9, 11}[sym.Choice(4)], y)
	t1, t2 := sym.Bool(), sym.Bool()
	c1 := func(*context.Context) bool { return t1 }
	c2 := func(*context.Context) bool { return t2 }
	id := aitch.Attribute("id", y.given)
	var node aitch.Node
	attrs, out := "", ""
	switch sym.Choice(7) {
	case 0:
		node = aitch.Conditional(c1, n)
		if t1 {
			out = text
		}
	case 1:
		node = aitch.Conditional(c1, id, n, aitch.Conditional(c2, m))
		if t1 {
			attrs, out = ` id="`+y.text+`"`, text
			if t2 {
				out += text2
			}
		}
	case 2:
		node = aitch.Conditional(c1, aitch.Conditional(c2, n, id), m)
		if t1 {
			if t2 {
				attrs, out = ` id="`+y.text+`"`, text
			}
			out += text2
		}
	case 3:
		node = aitch.Collection(aitch.Conditional(c1, aitch.Collection(n, aitch.Conditional(c2, id, m))), aitch.Text("-"))
		if t1 {
			out = text
			if t2 {
				attrs = ` id="` + y.text + `"`
				out += text2
			}
		}
		out += "-"
	case 4:
		node = aitch.Conditional(c1, n, aitch.Conditional(nil, m, id))
		if t1 {
			attrs, out = ` id="`+y.text+`"`, text+text2
		}
	case 5: // beside each other
		node = aitch.Collection(aitch.Conditional(c1, n), aitch.Conditional(c2, m, id), aitch.Conditional(c1, n))
		if t1 {
			out += text
		}
		if t2 {
			out += text2
			attrs = ` id="` + y.text + `"`
		}
		if t1 {
			out += text
		}
	case 6: // in places of their own
		node = aitch.Collection(aitch.Iterate(func(*context.Context) []any { return []any{wideCargo, wideCargo} }, aitch.Conditional(c1, n)), aitch.ContentCollect(func(*context.Context) []aitch.Node { return []aitch.Node{aitch.Conditional(c2, m)} }))
		if t1 {
			out += text + text
		}
		if t2 {
			out += text2
		}
	}
	switch sym.Choice(4) {
	case 0:
		expect(node, wideData(nil), wideCargo, out, "on its own")
	case 1:
		expect(html.P(node, "z"), wideData(nil), wideCargo, "<p"+attrs+">"+out+"z</p>", "in an element")
	case 2:
		expect(html.Hr(node), wideData(nil), wideCargo, "<hr"+attrs+">", "in a void element")
	case 3:
		p := html.P(html.Title("t"), node)
		want := `<p title="t"` + attrs + ">" + out + "</p>"
		expect(p, wideData(nil), wideCargo, want, "beside an attribute")
		expect(p, wideData(nil), wideCargo, want, "again")
	}
}

// C05_sizes: many conditions beside and within each other.
func C05_sizes() {
	n := sym.Size(300, 10, 17, 32, 33, 40, 64, 65, 130)
	ts := []bool{sym.Bool(), sym.Bool(), sym.Bool()}
	v := rawVal(1)
	root := &rn{k: kElem, name: "p"}
	switch sym.Choice(4) {
	case 0: // beside each other
		for i := 0; i < n; i++ {
			root.kids = append(root.kids, &rn{k: kCond, truth: ts[i%3], kids: []*rn{{k: kAttr, name: "a" + strconv.Itoa(i), vals: []val{v}}, {k: kText, vals: []val{{i, strconv.Itoa(i)}}}}})
		}
	case 1: // within each other, one or two of them symbolic
		cur := &rn{k: kCond, truth: ts[0], kids: []*rn{oneText(), oneAttr("id")}}
		for i := 0; i < n; i++ {
			t := true
			if i == n/2 || i == n-1 {
				t = ts[1]
			}
			cur = &rn{k: kCond, truth: t, kids: []*rn{cur, {k: kAttr, name: "b" + strconv.Itoa(i), vals: []val{v}}}}
		}
		root.kids = []*rn{cur}
	case 2: // one with many members
		c := &rn{k: kCond, truth: ts[0]}
		for i := 0; i < n; i++ {
			c.kids = append(c.kids, &rn{k: kAttr, name: "a" + strconv.Itoa(i), vals: []val{v}}, &rn{k: kElem, name: "i"})
		}
		root.kids = []*rn{c}
	case 3: // elements between the conditions
		cur := &rn{k: kElem, name: "b", kids: []*rn{oneText()}}
		for i := 0; i < n; i++ {
			t := true
			if i == n/2 || i == n-2 {
				t = ts[2]
			}
			cur = &rn{k: kElem, name: "i", kids: []*rn{{k: kCond, truth: t, kids: []*rn{cur, {k: kAttr, name: "a", vals: []val{v}}}}}}
		}
		root.kids = []*rn{cur}
	}
	expect(root.build(), nil, nil, root.emit(), "many conditions")
}

// C06_kinds: presence decides whatever the value, for keys of all lengths.
func C06_kinds() {
	x := wideAt(sym.Choice(nWides), raw(1))
	name := []string{"key", strings.Repeat("k", 40), "!", "!!", "", ".", " ", "a.b", "\x00", "K\u00e9y", "!x", "true", "nil"}[sym.Choice(13)]
	k := name
	if sym.Choice(2) == 1 {
		k = "!" + name
	}
	data := map[string]any{"other": true}
	if sym.Choice(2) == 1 {
		data[name] = x.v
	}
	want := "<p>"
	if whenHolds(k, data) {
		want = `<p id="x">y`
	}
	n := html.P(aitch.When(key(k), aitch.Attribute("id", "x"), aitch.Text("y")))
	expect(n, data, x.v, want+"</p>", "presence decides")
	expect(aitch.Iterate(func(*context.Context) []any { return []any{1, data} }, n), map[string]any(data), nil, want+"</p>"+want+"</p>", "presence decides in iterations")
}

// C08_sizes: large trees and much data, rendered by two at once and again.
func C08_sizes() {
	n := sym.Size(600, 9, 33, 70)
	k := key("k")
	var node aitch.Node
	spec := func(string) string { return "" }
	rep := func(f func(i int) string) string {
		s := ""
		for i := 0; i < n; i++ {
			s += f(i)
		}
		return s
	}
	var args []any
	var ns []aitch.Node
	how := sym.Choice(8)
	switch how {
	case 0: // values
		for i := 0; i < n; i++ {
			args = append(args, k, i)
		}
		node = aitch.Text(args...)
		spec = func(v string) string { return rep(func(i int) string { return v + strconv.Itoa(i) }) }
	case 1: // attributes, half under conditions
		for i := 0; i < n; i++ {
			a := aitch.NewAttribute([]byte("a"+strconv.Itoa(i)), k)
			if i >= n/2 {
				a = aitch.When("k", a)
			}
			args = append(args, a)
		}
		node = html.Br(args...)
		spec = func(v string) string {
			return "<br" + rep(func(i int) string { return " a" + strconv.Itoa(i) + `="` + v + `"` }) + ">"
		}
	case 2: // merged attributes
		for i := 0; i < n; i++ {
			a := html.Class(k, i)
			if i%2 == 1 {
				a = aitch.Conditional(yes, a)
			}
			args = append(args, a)
		}
		node = html.P(args...)
		spec = func(v string) string {
			s := ""
			for r := 0; r < 2; r++ {
				for i := r; i < n; i += 2 {
					s += " " + v + " " + strconv.Itoa(i)
				}
			}
			return `<p class="` + s[1:] + `"></p>`
		}
	case 3: // iterations
		items := make([]any, n)
		for i := range items {
			items[i] = i
		}
		node = aitch.Iterate(func(*context.Context) []any { return items }, html.Li(key("."), k))
		spec = func(v string) string {
			return rep(func(i int) string { return "<li>" + strconv.Itoa(i) + v + "</li>" })
		}
	case 4: // an imperative block
		node = aitch.Imperative(func(ic aitch.ImperativeContext) error {
			for i := 0; i < n; i++ {
				ic.Start([]byte("i"), false, html.Id(k))
			}
			ic.EndAll()
			return nil
		})
		spec = func(v string) string {
			return strings.Repeat(`<i id="`+v+`">`, n) + strings.Repeat("</i>", n)
		}
	case 5: // nested elements
		node = html.B(html.Id(k), k)
		for i := 1; i < n; i++ {
			node = html.B(html.Id(k), node)
		}
		spec = func(v string) string {
			return strings.Repeat(`<b id="`+v+`">`, n) + v + strings.Repeat("</b>", n)
		}
	case 6: // headers
		m := htmx.HeadersMap{}
		for i := 0; i < n; i++ {
			m["h"+strconv.Itoa(100+i)] = k
		}
		node = html.Br(htmx.Headers(m))
		spec = func(v string) string {
			s := rep(func(i int) string { return ", 'h" + strconv.Itoa(100+i) + "': " + v })
			return `<br hx-headers="{` + s[2:] + `}">`
		}
	case 7: // collected nodes
		for i := 0; i < n; i++ {
			ns = append(ns, aitch.Text(k), html.Br())
		}
		node = html.P(aitch.ContentCollect(func(*context.Context) []aitch.Node { return ns }), aitch.Collection(ns...))
		spec = func(v string) string { return "<p>" + strings.Repeat(v+"<br>", 2*n) + "</p>" }
	}
	d1, d2 := map[string]any{"k": "one"}, map[string]any{"k": "a & b"}
	expect(node, d1, nil, spec("one"), "first render")
	expect(node, d2, nil, spec("a &amp; b"), "with other data")
	expect(node, d1, nil, spec("one"), "as the first")
	sym.Concurrent(func(id int) {
		out, err := render(node, d1, nil)
		sym.Assert(err == nil, "no error")
		sym.Assert(out == spec("one"), "concurrent render")
	})
}

// C10_kinds: items of every kind.
func C10_kinds() {
	x := wideAt(sym.Choice(nWides), raw(1))
	v := x.v
	text := x.text
	// an item is shown as the cargo: what is built from values and nodes is not text
	switch v.(type) {
	case aitch.Value, aitch.Node, aitch.DynamicValueKey, aitch.DynamicValueFunc, func(*context.Context) []byte:
		text = ""
	}
	m, own := v.(map[string]any)
	outer := wideData(map[string]any{"l": []any{v}, "e": "E"})
	e := "E"
	if own {
		e = ""
		_ = m
	}
	node := aitch.Collection(source(sym.Choice(3), []any{v}, aitch.Text("(", key("."), ")", key("e")), aitch.When("e", aitch.Text("w"))), aitch.Text(key("e"), key(".")))
	want := "(" + text + ")" + e
	if e != "" {
		want += "w"
	}
	want += "E77"
	runIter(node, outer, want, "item of any kind")
}

// C10_sizes: many items, and iterations deep within each other.
func C10_sizes() {
	n := sym.Size(600, 4, 7, 8, 9, 16, 17, 31, 33, 64, 65, 100, 130)
	items := make([]any, n)
	v := rawVal(1)
	src := sym.Choice(3)
	form := sym.Choice(4)
	data := map[string]any{"e": "E"}
	want := ""
	switch form {
	case 0:
		for i := range items {
			items[i] = i
			want += "(" + strconv.Itoa(i) + v.text + "E)"
		}
	case 1: // every other one with data of its own
		for i := range items {
			if i%2 == 0 {
				items[i] = map[string]any{"e": i}
				want += "(" + v.text + strconv.Itoa(i) + ")"
			} else {
				want += "(" + v.text + "E)"
			}
		}
	case 2: // large data of its own
		big := map[string]any{}
		for i := 0; i < n; i++ {
			big["k"+strconv.Itoa(i)] = i
		}
		items = []any{big, "s", big}
		want = "(" + v.text + ")(s" + v.text + "E)(" + v.text + ")"
	}
	if form < 3 {
		data["l"] = items
		runIter(source(src, items, aitch.Text("(", key("."), v.given, key("e"), ")")), data, want, "many items")
		return
	}
	// nested
	depth := sym.Size(120, 4, 6, 9, 17, 33)
	data["l"] = []any{1}
	var node aitch.Node = aitch.Text(key("e"), key("."), v.given)
	inner, after := "", ""
	for i := 0; i < depth; i++ {
		it := any(i)
		if i == depth/2 {
			it = map[string]any{"e": v.given, "l": []any{1}}
		}
		node = source(src, []any{it}, node, aitch.Text("-"))
		after += "-"
	}
	// the outermost iteration is the last one made
	e, c := "E", "77"
	for i := depth - 1; i >= 0; i-- {
		c = strconv.Itoa(i)
		if src == 1 {
			c = "1"
		} else if i == depth/2 {
			c, e = "", v.text
		}
	}
	inner = e + c + v.text
	runIter(node, data, inner+after, "deep iterations")
}

// C12_sizes: long and many keys, and many dynamic values in one node.
func C12_sizes() {
	ds := dims(600, []int{3, 9, 17, 33, 65, 130}, []int{1, 15, 16, 17, 32, 64, 100, 300})
	n, ln := ds[0], ds[1]
	pre := strings.Repeat("k", ln)
	v := rawVal(1)
	data := map[string]any{}
	var args []any
	want := ""
	for i := 0; i < n; i++ {
		name := pre + strconv.Itoa(i)
		if i%3 != 2 {
			data[name] = val{i, strconv.Itoa(i)}.given
			want += strconv.Itoa(i)
		}
		if i == n/2 {
			args = append(args, v.given)
			want += v.text
		}
		args = append(args, key(name))
		// order of the argument list: the byte stands before its key
		if i == n/2 && i%3 != 2 {
			want = want[:len(want)-len(v.text)-len(strconv.Itoa(i))] + v.text + strconv.Itoa(i)
		}
	}
	switch sym.Choice(3) {
	case 0:
		expect(aitch.Text(args...), data, nil, want, "many keys")
	case 1:
		expect(html.P(html.Id(args...)), data, nil, `<p id="`+want+`"></p>`, "many keys in an attribute")
	case 2:
		expect(aitch.Comment(aitch.NewConcatValue(args...)), data, nil, "<!--"+want+"-->", "many keys in a concatenation")
	}
}

// C14_sizes: a start with many attributes, and many calls.
func C14_sizes() {
	n := sym.Size(300, 5, 9, 17, 33, 65, 130)
	v := rawVal(1)
	var rs []*rn
	kk := sym.Choice(4)
	for i := 0; i < n; i++ {
		k := []kind{kAttr, kDelim, kBool}[min(kk, 2)]
		if kk == 3 {
			k = []kind{kAttr, kDelim, kBool}[i%3]
		}
		name := "n" + strconv.Itoa(i%3)
		if sym.Tier() == 0 && i%2 == 0 {
			name = "m" + strconv.Itoa(i-i%6) + string([]byte{'a' + byte(i%3)})
		}
		if kk == 3 {
			name += string([]byte{'x' + byte(i%3)})
		}
		rs = append(rs, &rn{k: k, name: name, delim: " ", vals: []val{v, {i, strconv.Itoa(i)}}})
	}
	var nodes []aitch.Node
	for _, r := range rs {
		nodes = append(nodes, r.build())
	}
	calls := sym.Size(600, 1, 40)
	node := aitch.Imperative(func(ic aitch.ImperativeContext) error {
		for i := 0; i < calls; i++ {
			ic.Start([]byte("b"), false)
			ic.WriteString("<")
			ic.WriteRaw([]byte(v.text))
			ic.WriteNodes(aitch.Text(i), html.Br())
			ic.End()
		}
		ic.Start([]byte("p"), false, nodes...)
		ic.Start([]byte("q"), true, nodes...)
		return nil
	})
	want := ""
	for i := 0; i < calls; i++ {
		want += "<b>&lt;" + v.text + strconv.Itoa(i) + "<br></b>"
	}
	at := attrText(rs)
	want += "<p" + at + "><q" + at + ">"
	expect(node, nil, nil, want, "many attributes and calls")
}

// C15_sizes: many arguments with nils among them.
func C15_sizes() {
	n := sym.Size(600, 4, 7, 9, 16, 17, 33, 65)
	v := rawVal(1)
	pat := sym.Choice(5)
	var nils []any
	want := ""
	for i := 0; i < n; i++ {
		isNil := false
		switch pat {
		case 0:
			isNil = i%2 == 0
		case 1:
			isNil = i%2 == 1
		case 2:
			isNil = i < n-1
		case 3:
			isNil = i > 0
		case 4:
			isNil = i == n/2
		}
		if isNil {
			nils = append(nils, nil)
			continue
		}
		nils = append(nils, aitch.Text(v.given, i))
		want += v.text + strconv.Itoa(i)
	}
	ns := toNodes(nils)
	var node aitch.Node
	switch sym.Choice(10) {
	case 0:
		node = aitch.Text(nils...)
	case 1:
		node, want = html.P(nils...), "<p>"+want+"</p>"
	case 2:
		node = aitch.Collection(ns...)
	case 3:
		node = aitch.Conditional(yes, ns...)
	case 4:
		node = aitch.Iterate(func(*context.Context) []any { return []any{1} }, ns...)
	case 5:
		node = aitch.ContentCollect(func(*context.Context) []aitch.Node { return ns })
	case 6:
		node = aitch.Imperative(func(ic aitch.ImperativeContext) error {
			ic.WriteNodes(ns...)
			ic.Start([]byte("q"), true, ns...)
			return nil
		})
		want += "<q>"
	case 7:
		node, want = aitch.Attribute("id", nils...), ` id="`+want+`"`
	case 8:
		node, want = html.Document(nil, nil, nils), "<!DOCTYPE html>\n<html><body>"+want+"</body></html>"
	case 9:
		node, want = css.Color(css.Px(nils...), nil), ` style="color:`+want+`px"`
	}
	out, ok := tryRender(func() aitch.Node { return node }, nil)
	sym.Assert(ok, "no panic and no error with nils")
	sym.Assert(out == want, "the output is the same as without nils")
}

// C15_kinds: nils beside values of every kind.
func C15_kinds() {
	x, many := wideOne(false)
	var list []any
	switch sym.Choice(4) {
	case 0:
		list = []any{nil, x.given}
	case 1:
		list = []any{x.given, nil}
	case 2:
		list = []any{nil, x.given, nil, x.given, nil}
	case 3:
		list = []any{nil, nil, x.given, nil, nil}
	}
	var plain []any
	for _, v := range list {
		if v != nil {
			plain = append(plain, v)
		}
	}
	build := sym.Choice(8)
	_ = many
	mk := func(l []any) aitch.Node {
		switch build {
		case 0:
			return aitch.Text(l...)
		case 1:
			return html.P(l...)
		case 2:
			return html.Br(html.Id(l...), html.Class(l...))
		case 3:
			return aitch.Comment(aitch.NewConcatValue(l...))
		case 4:
			return css.Width(css.Em(l...))
		case 5:
			return htmx.On("click", l...)
		case 6:
			return html.Document("en", append([]any{html.Meta()}, l...), l)
		}
		return aitch.Collection(aitch.PI("x", l...), aitch.Fragment(l...))
	}
	a, err := render(mk(list), wideData(nil), wideCargo)
	sym.Assert(err == nil, "no error with nils")
	b, err := render(mk(plain), wideData(nil), wideCargo)
	sym.Assert(err == nil, "no error without nils")
	sym.Observe("out", []byte(a))
	sym.Assert(a == b, "the output is the same as without nils")
}

// C16_sizes: long keys, maps of many entries, structs behind.
func C16_sizes() {
	ds := dims(600, []int{1, 8, 9, 17, 33, 65, 130}, []int{1, 8, 16, 31, 32, 33, 64, 100, 300})
	n, ln := ds[0], ds[1]
	pre := strings.Repeat("k", ln)
	m := map[string]any{}
	typed := map[string]int{}
	for i := 0; i < n; i++ {
		m[pre+strconv.Itoa(i)] = i
		typed[pre+strconv.Itoa(i)] = i
	}
	var data map[string]any
	var cargo any
	switch sym.Choice(5) {
	case 0:
		data = m
	case 1:
		cargo = m
	case 2:
		cargo = typed
	case 3:
		cargo = &m
	case 4:
		data, cargo = map[string]any{pre: 0, pre + "0": "other"}, typed
	}
	ctx := context.New(nil, data, cargo)
	for _, i := range []int{0, n / 2, n - 1, n, -1} {
		got, ok := try[int](ctx, pre+strconv.Itoa(i))
		sym.Assert(ok == (i >= 0 && i < n), "found exactly when present")
		sym.Assert(!ok || got == i, "the value of that entry")
		_, ok = try[string](ctx, pre+strconv.Itoa(i))
		sym.Assert(ok == (i == 0 && data != nil && cargo != nil), "not found with another type")
	}
}

// C17_kinds: contents of every kind in every element.
func C17_kinds() {
	es := htmlElements
	if sym.Choice(2) == 1 {
		es = svgElements
	}
	e := es[sym.Choice(len(es))]
	sym.Assume(e.name != "track")
	x := wideContent()
	want := "<" + e.name + ` id="i">`
	if !e.void {
		want += x.text + "</" + e.name + ">"
	}
	expect(e.fn(aitch.Attribute("id", "i"), x.given), wideData(nil), wideCargo, want, "contents of every kind")
}

// C19_sizes: many declarations on one element.
func C19_sizes() {
	n := sym.Size(600, 3, 5, 9, 16, 17, 33, 65, len(cssProperties))
	from := oneOf(0, len(cssProperties)/2)
	v := rawVal(1)
	var args []any
	var ns []aitch.Node
	var parts, late []string
	form := sym.Choice(3)
	for i := 0; i < n; i++ {
		p := cssProperties[(from+i)%len(cssProperties)]
		a := p.fn(css.Px(i), v.given)
		text := p.name + ":" + strconv.Itoa(i) + "px" + v.text
		if form == 1 && i%2 == 1 {
			a = aitch.Conditional(yes, a)
			late = append(late, text)
		} else {
			parts = append(parts, text)
		}
		args = append(args, a)
		ns = append(ns, a)
	}
	want := strings.Join(append(parts, late...), "; ")
	if form == 2 {
		expect(aitch.Imperative(func(ic aitch.ImperativeContext) error { ic.Start([]byte("i"), true, ns...); return nil }), nil, nil, `<i style="`+want+`">`, "many declarations")
		return
	}
	expect(aitch.NewVoidElement([]byte("i"), args...), nil, nil, `<i style="`+want+`">`, "many declarations")
}

// C20_sizes: many headers and variables.
func C20_sizes() {
	n := sym.Size(130, 5, 7, 9, 16, 17, 33, 65)
	v := rawVal(1)
	if sym.Choice(3) == 0 {
		var vars []any
		var parts []string
		for i := 0; i < n; i++ {
			vars = append(vars, htmx.Var("v"+strconv.Itoa(i), aitch.NewConcatValue(i, v.given)))
			parts = append(parts, "v"+strconv.Itoa(i)+": "+strconv.Itoa(i)+v.text)
		}
		expect(htmx.Vars(vars...), nil, nil, ` hx-vars="`+strings.Join(parts, ", ")+`"`, "many variables")
		return
	}
	maps := oneOf(1, 2, 3, n)
	var es []entry
	long := strings.Repeat("X", oneOf(0, 30))
	for i := 0; i < n; i++ {
		es = append(es, entry{long + strconv.Itoa(i*7%n), val{append([]byte{}, v.text...), v.text}, i % maps})
		if i%4 == 3 && maps > 1 {
			es = append(es, entry{long + strconv.Itoa((i-1)*7%n), val{i, strconv.Itoa(i)}, maps - 1})
		}
	}
	// the last map of each key wins: in the order of the maps
	var sorted []entry
	for m := 0; m < maps; m++ {
		for _, e := range es {
			if e.in == m {
				sorted = append(sorted, e)
			}
		}
	}
	js := sym.Choice(2) == 1
	expect(headersNode(js, headerMaps(maps, sorted)), nil, nil, ` hx-headers="`+jsPrefix(js)+headersText(sorted)+`"`, "many headers")
}

// C22_sizes: long static text, many nodes and markers.
func C22_sizes() {
	ds := dims(600, []int{9, 17, 33, 65}, []int{1, 300, 1025}, []int{1, 40})
	n, long, name := ds[0], strings.Repeat("t", ds[1]), strings.Repeat("n", ds[2])
	m := aitch.NodeMap{}
	src, want := "", ""
	rep := oneOf(1, 2)
	for r := 0; r < rep; r++ {
		for i := 0; i < n; i++ {
			nm := name + strconv.Itoa(i)
			m[nm] = aitch.Text(key("k"), i)
			src += long[:1+i%len(long)%20] + "{{" + nm + " .}}"
			want += long[:1+i%len(long)%20] + "d" + strconv.Itoa(i)
		}
	}
	src += long
	want += long
	t, err := aitch.NewTemplate("t", src, m)
	sym.Assert(err == nil, "the template is made")
	executed(t, map[string]any{"k": "d"}, nil, want, "many nodes")
	executed(t, map[string]any{"k": "d"}, nil, want, "many nodes again")
}

// C23_sizes: many head and body members.
func C23_sizes() {
	n := sym.Size(600, 5, 9, 17, 33, 65, 130)
	v := rawVal(1)
	var head, body []any
	h, b, at := "", "", ""
	for i := 0; i < n; i++ {
		head = append(head, html.Meta(html.Name(i, v.given)))
		h += `<meta name="` + strconv.Itoa(i) + v.text + `">`
		if i%3 == 1 {
			body = append(body, aitch.Attribute("a"+strconv.Itoa(i), v.given), nil)
			at += " a" + strconv.Itoa(i) + `="` + v.text + `"`
			continue
		}
		body = append(body, html.P(i, v.given), v.given)
		b += "<p>" + strconv.Itoa(i) + v.text + "</p>" + v.text
	}
	switch sym.Choice(3) {
	case 0:
		expect(html.Document("en", head, body), nil, nil, "<!DOCTYPE html>\n<html lang=\"en\"><head>"+h+"</head><body"+at+">"+b+"</body></html>", "many members")
	case 1:
		expect(html.Document(nil, nil, body), nil, nil, "<!DOCTYPE html>\n<html><body"+at+">"+b+"</body></html>", "many body members")
	case 2:
		expect(html.Document(nil, head, nil), nil, nil, "<!DOCTYPE html>\n<html><head>"+h+"</head><body></body></html>", "many head members")
	}
}

// C24_sizes: many functions, and many calls of one.
func C24_sizes() {
	n := sym.Size(600, 5, 9, 17, 33, 65)
	calls := 0
	count := func(ctx *context.Context) []byte {
		calls++
		return []byte("(" + strconv.Itoa(calls) + ")")
	}
	var args []any
	var ns []aitch.Node
	want := ""
	for i := 0; i < n; i++ {
		args = append(args, count, "-")
		ns = append(ns, aitch.Text(count, "-"))
		want += "(" + strconv.Itoa(i+1) + ")-"
	}
	var node aitch.Node
	switch sym.Choice(9) {
	case 0:
		node = aitch.Text(args...)
	case 1:
		node, want = html.Br(html.Id(args...)), `<br id="`+want+`">`
	case 2:
		node, want = html.P(args...), "<p>"+want+"</p>"
	case 3:
		node = aitch.Collection(ns...)
	case 4:
		node = aitch.ContentCollect(func(*context.Context) []aitch.Node { return ns })
	case 5:
		items := make([]any, n)
		node = aitch.Iterate(func(*context.Context) []any { return items }, aitch.Text(count, "-"))
	case 6:
		node = aitch.IterateYield(func(_ *context.Context, yield func(any)) {
			for i := 0; i < n; i++ {
				yield(i)
			}
		}, aitch.Conditional(yes, ns[0]))
	case 7:
		node = aitch.Imperative(func(ic aitch.ImperativeContext) error { ic.WriteNodes(ns...); return nil })
	case 8:
		node = aitch.Text(aitch.NewConcatValue(args...))
	}
	expect(node, nil, nil, want, "each function once, in order")
	sym.Assert(calls == n, "each function is called once")
}
