package props

// Bounds: 19 node shapes rendered 3 times with 2 different data maps in between; two elements, collections, conditionals or
// imperative starts that share one attribute, value, node or argument slice (10 sharing patterns, each in both building
// orders, elements and void elements, plain and delimited attributes, nil arguments leaving spare capacity); argument
// slices with up to 2 spare slots checked element by element; raw byte slices and names with spare capacity; concurrent
// renders of the 19 shapes with own contexts (writes to anything allocated before, or by the other render, are reported
// and confirmed by the race detector). Values are arbitrary bytes.
// Also programs of up to 6 steps that build nodes from nodes built before, and values of every kind (wide.go) at 6
// places rendered by two at once and again with longer data in between.
// Trees and data of 9..70 parts of 8 forms (more.go).
// Sizes include those at which the code itself makes a difference (constants of its comparisons, up to about 600).
// Also: uses repeated up to 70 times, with other uses in between (history.go).
// Also: conditions within conditions with and without each key (lures.go).

import (
	"bytes"
	"strings"

	"aitchverif/sym"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
	"github.com/go-andiamo/aitch/css"
	"github.com/go-andiamo/aitch/html"
	"github.com/go-andiamo/aitch/htmx"
	"github.com/go-andiamo/aitch/svg"
)

func init() {
	sym.Register("C08_rerender", C08_rerender)
	sym.Register("C08_sharedattr", C08_sharedattr)
	sym.Register("C08_sharednode", C08_sharednode)
	sym.Register("C08_args", C08_args)
	sym.Register("C08_bytes", C08_bytes)
	sym.Register("C08_concurrent", C08_concurrent)
	sym.Register("C08_wide", C08_wide)
	sym.Register("C08_start", C08_start)
	sym.Register("C08_template", C08_template)
	sym.Register("C08_program", C08_program)
}

// shape builds one of the node shapes and gives its specified output for data {"k": string, "t": bool, "l": []any}.
func shape(i int, a, b []byte) (aitch.Node, func(k string, t bool) string) {
	key := aitch.DynamicValueKey("k")
	switch i {
	case 0:
		return aitch.Text(a, key, b), func(k string, t bool) string { return string(a) + refEscape(k) + string(b) }
	case 1:
		return aitch.Element("p", aitch.Attribute("id", a, key), html.Class(b, key)), func(k string, t bool) string {
			s := `<p id="` + string(a) + refEscape(k) + `" class="` + string(b) + " "
			return s + refEscape(k) + `"></p>`
		}
	case 2:
		return html.Div(html.Class(a), aitch.When("t", html.Class(b), html.Id(key))), func(k string, t bool) string {
			if t {
				return `<div class="` + string(a) + " " + string(b) + `" id="` + refEscape(k) + `"></div>`
			}
			return `<div class="` + string(a) + `"></div>`
		}
	case 3:
		return aitch.Conditional(func(ctx *context.Context) bool { return ctx.Data["t"].(bool) }, aitch.Text(key), aitch.Conditional(func(ctx *context.Context) bool { return true }, aitch.Text(b))), func(k string, t bool) string {
			if t {
				return refEscape(k) + string(b)
			}
			return ""
		}
	case 4:
		return aitch.IterateKey("l", html.Li(aitch.Text(aitch.DynamicValueKey(".")), a)), func(k string, t bool) string {
			return "<li>1" + string(a) + "</li><li>" + refEscape(k) + string(a) + "</li>"
		}
	case 5:
		return aitch.Iterate(func(ctx *context.Context) []any { return []any{ctx.Data["k"], a} }, aitch.Element("b", aitch.Attribute("id", aitch.DynamicValueKey(".")))), func(k string, t bool) string {
			return `<b id="` + refEscape(k) + `"></b><b id="` + string(a) + `"></b>`
		}
	case 6:
		return aitch.IterateYield(func(ctx *context.Context, yield func(any)) { yield(ctx.Data["k"]); yield(b) }, aitch.Comment(aitch.DynamicValueKey("."))), func(k string, t bool) string {
			return "<!--" + refEscape(k) + "--><!--" + string(b) + "-->"
		}
	case 7:
		return aitch.ContentCollect(func(ctx *context.Context) []aitch.Node {
			return []aitch.Node{aitch.Text(ctx.Data["k"]), nil, aitch.Text(a)}
		}), func(k string, t bool) string { return refEscape(k) + string(a) }
	case 8:
		return aitch.Imperative(func(ic aitch.ImperativeContext) error {
				ic.Start([]byte("b"), false, html.Id(a), html.Class(b), html.Class(key))
				ic.WriteString(ic.Context().Data["k"].(string))
				ic.Start([]byte("i"), false)
				ic.WriteNodes(aitch.Text(b))
				ic.EndAll()
				return nil
			}), func(k string, t bool) string {
				return `<b id="` + string(a) + `" class="` + string(b) + " " + refEscape(k) + `">` + refEscape(k) + "<i>" + string(b) + "</i></b>"
			}
	case 9:
		return html.Document(a, []any{html.TitleElement(key)}, []any{html.P(b)}), func(k string, t bool) string {
			return "<!DOCTYPE html>\n<html lang=\"" + string(a) + "\"><head><title>" + refEscape(k) + "</title></head><body><p>" + string(b) + "</p></body></html>"
		}
	case 10:
		return svg.Svg(svg.Width(a), css.Filter(b, key)), func(k string, t bool) string {
			return `<svg width="` + string(a) + `" style="filter:` + string(b) + refEscape(k) + `"></svg>`
		}
	case 11:
		return html.Button(htmx.Headers(htmx.HeadersMap{"b": key, "a": a})), func(k string, t bool) string {
			return `<button hx-headers="{'a': ` + string(a) + `, 'b': ` + refEscape(k) + `}"></button>`
		}
	case 12:
		return aitch.Collection(aitch.PI("xml", key), html.Br(html.Id(a)), aitch.Fragment(b), aitch.BooleanAttribute("x")), func(k string, t bool) string {
			return "<!xml " + refEscape(k) + ">\n<br id=\"" + string(a) + `">` + string(b)
		}
	case 13:
		return aitch.Fragment(key, a), func(k string, t bool) string { return refEscape(k) + string(a) }
	case 14:
		return aitch.Element("u", aitch.Attribute("x", a, aitch.NewConcatValue(key, b)), aitch.Comment(key), aitch.Text(aitch.NewValue(key), " "), aitch.Fragment(key)), func(k string, t bool) string {
			e := refEscape(k)
			return `<u x="` + string(a) + e + string(b) + `"><!--` + e + "-->" + e + " " + e + "</u>"
		}
	case 15:
		return aitch.NewVoidElement([]byte("v"), aitch.NewDelimitedAttribute([]byte("d"), []byte(","), a, key), aitch.DelimitedAttribute("d", ",", b)), func(k string, t bool) string {
			e := refEscape(k)
			if e != "" {
				e += ","
			}
			return `<v d="` + string(a) + "," + e + string(b) + `">`
		}
	case 16:
		return html.Section(html.H1(key, aitch.When("!t", aitch.IterateKey("l", html.I(aitch.DynamicValueKey("."))))), html.P(a, html.B(b), key)), func(k string, t bool) string {
			e := refEscape(k)
			s := "<section><h1>" + e
			if !t {
				s += "<i>1</i><i>" + e + "</i>"
			}
			return s + "</h1><p>" + string(a) + "<b>" + string(b) + "</b>" + e + "</p></section>"
		}
	case 17:
		// the nils leave spare room behind the values
		return html.Div(html.Class(a, nil, nil), aitch.When("t", html.Class(b)), aitch.When("k", html.Style(a, nil, nil)), aitch.When("l", html.Style(key))), func(k string, t bool) string {
			s := `<div class="` + string(a)
			if t {
				s += " " + string(b)
			}
			return s + `" style="` + string(a) + "; " + refEscape(k) + `"></div>`
		}
	default:
		return html.P(css.Color(key), css.Width(css.Px(a)), aitch.When("t", css.Height(b))), func(k string, t bool) string {
			s := `<p style="color:` + refEscape(k) + "; width:" + string(a) + "px"
			if t {
				s += "; height:" + string(b)
			}
			return s + `"></p>`
		}
	}
}

const nShapes = 19

func shapeData(k string, t bool) map[string]any {
	return map[string]any{"k": k, "t": t, "l": []any{1, k}}
}

// C08_rerender: rendering leaves no trace in the node.
func C08_rerender() {
	n, spec := shape(sym.Choice(nShapes), raw(1), raw(1))
	k1, k2 := letters(2), sym.String(1, 1)
	t1, t2 := sym.Bool(), sym.Bool()
	d1 := shapeData(k1, t1)
	expect(n, d1, nil, spec(k1, t1), "first render")
	expect(n, shapeData(k2, t2), nil, spec(k2, t2), "second render")
	expect(n, d1, nil, spec(k1, t1), "third render as the first")
	sym.Assert(len(d1) == 3, "data keeps its entries")
	sym.Assert(d1["k"] == any(k1), "data is unchanged")
}

// C08_sharedattr: an attribute used in two elements.
func C08_sharedattr() {
	kk := []kind{kDelim, kAttr}[sym.Choice(2)]
	mk := func(nils int) *rn {
		r := &rn{k: kk, name: "class", delim: " ", vals: []val{rawVal(1)}}
		for i := 0; i < nils; i++ {
			r.vals = append(r.vals, val{nil, ""})
		}
		return r
	}
	shared := mk(sym.Choice(3))
	other := mk(sym.Choice(2))
	third := mk(0)
	sn, on, tn := shared.build(), other.build(), third.build()
	fix := func(r *rn, n aitch.Node) *rn { c := *r; c.made = func() aitch.Node { return n }; return &c }
	s, o, t := fix(shared, sn), fix(other, on), fix(third, tn)
	first := &rn{k: kElem, name: "p"}
	if sym.Choice(2) == 1 {
		first.k = kVoid
	}
	how := sym.Choice(8)
	switch how {
	case 0:
		first.kids = []*rn{s, o}
	case 1:
		first.kids = []*rn{o, s}
	case 2:
		first.kids = []*rn{s, s}
	case 3:
		first.kids = []*rn{s, {k: kCond, truth: true, kids: []*rn{o}}}
	case 4:
		first.kids = []*rn{{k: kCond, truth: true, kids: []*rn{s, o}}, {k: kCond, truth: true, kids: []*rn{t}}}
	case 5:
		first.kids = []*rn{{k: kColl, kids: []*rn{s, o, t}}}
	case 6:
		first.kids = []*rn{s, o, {k: kCond, truth: true, kids: []*rn{t}}}
	case 7:
		first.kids = []*rn{{k: kCond, truth: true, kids: []*rn{s}}, o, t}
	}
	n1 := first.build()
	second := &rn{k: kElem, name: "q", kids: []*rn{s, t}}
	if sym.Choice(2) == 1 {
		second.kids = []*rn{s}
	}
	if sym.Choice(2) == 1 {
		expect(n1, nil, nil, first.emit(), "first user rendered before the second is built")
	}
	n2 := second.build()
	expect(n2, nil, nil, second.emit(), "second user of a shared attribute")
	expect(n1, nil, nil, first.emit(), "first user of a shared attribute")
	expect(sn, nil, nil, attrListText([]attrUse{{s, true}}), "the shared attribute itself")
	expect(on, nil, nil, attrListText([]attrUse{{o, true}}), "the other attribute itself")
	expect(n2, nil, nil, second.emit(), "second user again")
}

// C08_sharednode: a node placed in several trees.
func C08_sharednode() {
	g := &gen{}
	kinds := []int{0, 2, 3, 5, 6, 7, 10, 11, 12, 13, 14}
	r := g.leaf(kinds[sym.Choice(len(kinds))])
	n := r.build()
	r.made = func() aitch.Node { return n }
	x := rawVal(1)
	mk := func(name string, how int) *rn {
		root := &rn{k: kElem, name: name}
		switch how {
		case 0:
			root.kids = []*rn{r, {k: kAttr, name: "id", vals: []val{x}}}
		case 1:
			root.kids = []*rn{{k: kCond, truth: sym.Bool(), kids: []*rn{r, {k: kAttr, name: "id", vals: []val{x}}}}}
		case 2:
			root.kids = []*rn{{k: kColl, kids: []*rn{r, r}}, r}
		case 3:
			root.k = kVoid
			root.kids = []*rn{r, {k: kDelim, delim: " ", name: "class", vals: []val{x}}}
		}
		return root
	}
	h1, h2 := sym.Choice(4), sym.Choice(4)
	r1 := mk("p", h1)
	n1 := r1.build()
	r2 := mk("q", h2)
	n2 := r2.build()
	expect(n1, nil, nil, r1.emit(), "first tree")
	expect(n2, nil, nil, r2.emit(), "second tree")
	expect(n1, nil, nil, r1.emit(), "first tree again")
	if r.k != kColl {
		expect(n, nil, nil, r.emit(), "the node itself")
	}
}

// C08_args: argument slices are left as given, including their spare capacity.
func C08_args() {
	n := sym.Choice(3)
	spare := sym.Choice(3)
	whole := make([]any, n+spare)
	texts := ""
	for i := range whole {
		v := rawVal(1)
		whole[i] = v.given
		if i < n {
			texts += v.text
		}
	}
	if n > 0 && sym.Choice(2) == 1 {
		whole[0] = nil
	}
	keep := append([]any{}, whole...)
	args := whole[:n]
	texts = ""
	for _, a := range args {
		if a != nil {
			texts += string(a.([]byte))
		}
	}
	nodes := make([]aitch.Node, n+spare)
	for i := range nodes {
		nodes[i] = aitch.Text(keep[i])
	}
	if n > 0 && keep[0] != nil && sym.Choice(2) == 1 {
		nodes[0] = aitch.NewAttribute([]byte("id"), keep[0])
	}
	keepN := append([]aitch.Node{}, nodes...)
	ns := nodes[:n]
	var built, second aitch.Node
	units := []func(...any) aitch.Value{css.Px, css.Pt, css.Pc, css.In, css.Cm, css.Mm, css.Em, css.Rem, css.Percent, css.Vw, css.Vh, css.VMin, css.VMax, css.Ch, css.Ex}
	names := []string{"px", "pt", "pc", "in", "cm", "mm", "em", "rem", "%", "vw", "vh", "vmin", "vmax", "ch", "ex"}
	want := ""
	how := sym.Choice(18)
	switch how {
	case 0:
		built = aitch.Text(args...)
		want = texts
	case 1:
		built = aitch.NewAttribute([]byte("x"), args...)
		want = ` x="` + texts + `"`
	case 2:
		built = html.P(args...)
		want = "<p>" + texts + "</p>"
	case 3:
		u := sym.Choice(len(units))
		built = aitch.Text(units[u](args...))
		second = aitch.Text(units[(u+1)%len(units)](args...))
		want = texts + names[u]
	case 4:
		built = css.Color(args...)
		want = ` style="color:` + texts + `"`
	case 5:
		built = aitch.Text(aitch.NewConcatValue(args...))
		second = aitch.Text(aitch.NewConcatValue(append(args[:n:n], "z")...))
		want = texts
	case 6:
		built = aitch.Collection(ns...)
	case 7:
		built = aitch.Conditional(func(*context.Context) bool { return true }, ns...)
	case 8:
		built = aitch.Element("q", aitch.When("!x", ns...))
	case 9:
		built = aitch.Iterate(func(*context.Context) []any { return []any{1, 2} }, ns...)
	case 10:
		built = aitch.IterateKey("l", ns...)
	case 11:
		built = aitch.ContentCollect(func(*context.Context) []aitch.Node { return ns })
	case 12:
		built = aitch.Imperative(func(ic aitch.ImperativeContext) error {
			ic.Start([]byte("p"), false, ns...)
			ic.WriteNodes(ns...)
			ic.End()
			return nil
		})
	case 13:
		built = html.Document(nil, args, args)
		want = "<!DOCTYPE html>\n<html>"
		if n > 0 {
			want += "<head>" + texts + "</head>"
		}
		want += "<body>" + texts + "</body></html>"
	case 14:
		built = html.Class(args...)
	case 15:
		built = htmx.Headers(args...)
		want = ` hx-headers="` + texts + `"`
	case 16:
		built = aitch.NewVoidElement([]byte("hr"), args...)
		want = "<hr>"
	case 17:
		built = aitch.Comment(args...)
		want = "<!--" + texts + "-->"
	}
	got1, _ := render(built, nil, nil)
	got2, _ := render(built, nil, nil)
	sym.Assert(got1 == got2, "renders alike twice")
	if want != "" || how == 0 {
		sym.Assert(got1 == want, "rendered as given")
	}
	if second != nil {
		got3, _ := render(built, nil, nil)
		sym.Assert(got1 == got3, "not changed by a second value made from the same slice")
	}
	for i := range keep {
		sym.Assert((whole[i] == nil) == (keep[i] == nil), "argument slice keeps its nils")
		if keep[i] != nil {
			b, ok := whole[i].([]byte)
			sym.Assert(ok && string(b) == string(keep[i].([]byte)), "argument slice is unchanged")
		}
		sym.Assert(nodes[i] == keepN[i], "node slice is unchanged")
	}
}

// C08_bytes: names, delimiters and raw values are only read.
func C08_bytes() {
	mkBytes := func() ([]byte, []byte) {
		b := sym.StringOf(3, 3, "abcdef")
		whole := []byte(b)
		return whole, []byte(b)
	}
	name, nameKeep := mkBytes()
	v, vKeep := mkBytes()
	d, dKeep := mkBytes()
	var n aitch.Node
	want := ""
	switch sym.Choice(7) {
	case 0:
		n = aitch.NewElement(name[:1], v[:1], aitch.NewAttribute(d[:1], v[:2]))
		want = "<" + string(name[:1]) + " " + string(d[:1]) + `="` + string(v[:2]) + `">` + string(v[:1]) + "</" + string(name[:1]) + ">"
	case 1:
		n = aitch.NewDelimitedAttribute(name[:1], d[:1], v[:1], v[1:2], v)
		want = " " + string(name[:1]) + `="` + string(v[:1]) + string(d[:1]) + string(v[1:2]) + string(d[:1]) + string(v) + `"`
	case 2:
		n = aitch.Text(css.Px(v[:1]), v[:2], aitch.NewConcatValue(v[:1], d[:1]))
		want = string(v[:1]) + "px" + string(v[:2]) + string(v[:1]) + string(d[:1])
	case 3:
		n = aitch.NewVoidElement(name[:2], aitch.NewBooleanAttribute(d[:1]), v)
		want = "<" + string(name[:2]) + " " + string(d[:1]) + ">"
	case 4:
		n = aitch.Imperative(func(ic aitch.ImperativeContext) error {
			ic.Start(name[:1], false, aitch.NewAttribute(d[:1], v[:1]))
			ic.WriteRaw(v[:2])
			ic.Start(name[:2], false)
			ic.EndAll()
			return nil
		})
		want = "<" + string(name[:1]) + " " + string(d[:1]) + `="` + string(v[:1]) + `">` + string(v[:2]) + "<" + string(name[:2]) + "></" + string(name[:2]) + "></" + string(name[:1]) + ">"
	case 5:
		n = aitch.Text(aitch.DynamicValueFunc(func(*context.Context) []byte { return v[:2] }), aitch.DynamicValueKey("."))
		want = string(v[:2])
	case 6:
		n = htmx.On(string(name), v[:1], d[:1])
		second := htmx.On(string(d), v)
		expect(second, nil, nil, " hx-on:"+string(d)+`="`+string(v)+`"`, "second hx-on")
		want = " hx-on:" + string(name) + `="` + string(v[:1]) + string(d[:1]) + `"`
	}
	expect(n, nil, nil, want, "rendered from prefixes")
	expect(n, nil, nil, want, "rendered again")
	sym.Assert(string(name) == string(nameKeep), "name bytes are unchanged")
	sym.Assert(string(v) == string(vKeep), "value bytes are unchanged")
	sym.Assert(string(d) == string(dKeep), "delimiter bytes are unchanged")
}

// C08_concurrent: renders write nothing that another render can reach.
func C08_concurrent() {
	n, spec := shape(sym.Choice(nShapes), raw(1), raw(1))
	k := letters(1)
	t := sym.Bool()
	data := shapeData(k, t)
	sym.Concurrent(func(id int) {
		var buf bytes.Buffer
		err := n.Render(context.New(&buf, data, nil))
		sym.Assert(err == nil, "no error")
		sym.Assert(buf.String() == spec(k, t), "concurrent render")
	})
}

// C08_start: imperative starts leave the attributes they are given alone.
func C08_start() {
	var nils []any
	for i := 0; i < sym.Choice(3); i++ {
		nils = append(nils, nil)
	}
	a, b, c := rawVal(1), rawVal(1), rawVal(1)
	kinds := sym.Choice(3)
	mk := func(v val) aitch.Node {
		if kinds == 0 {
			return aitch.NewAttribute([]byte("class"), append([]any{v.given}, nils...)...)
		}
		return aitch.NewDelimitedAttribute([]byte("class"), []byte(" "), append([]any{v.given}, nils...)...)
	}
	x, y, z := mk(a), mk(b), mk(c)
	if kinds == 2 {
		// a plain attribute first: what it becomes is not claimed, that it stays as it is is
		x = aitch.NewAttribute([]byte("class"), append([]any{a.given}, nils...)...)
	}
	start := func(as ...aitch.Node) (string, error) {
		return render(aitch.Imperative(func(ic aitch.ImperativeContext) error {
			ic.Start([]byte("p"), true, as...)
			return nil
		}), nil, nil)
	}
	w1, _ := start(x, y)
	w2, _ := start(x, z)
	again1, _ := start(x, y)
	again2, _ := start(x, z)
	sym.Assert(w1 == again1, "first start is repeatable")
	sym.Assert(w2 == again2, "second start is repeatable")
	if kinds == 1 {
		sym.Assert(w1 == `<p class="`+a.text+" "+b.text+`">`, "delimited start")
		sym.Assert(w2 == `<p class="`+a.text+" "+c.text+`">`, "second delimited start")
	}
	for _, p := range []struct {
		n aitch.Node
		v val
	}{{x, a}, {y, b}, {z, c}} {
		expect(p.n, nil, nil, ` class="`+p.v.text+`"`, "attribute after use in a start")
	}
	// concurrent starts share the attributes
	fn := aitch.Imperative(func(ic aitch.ImperativeContext) error {
		ic.Start([]byte("p"), true, x, y, z)
		return nil
	})
	want, _ := render(fn, nil, nil)
	sym.Concurrent(func(id int) {
		got, _ := render(fn, nil, nil)
		sym.Assert(got == want, "concurrent starts")
	})
}

// C08_template: one template executed repeatedly and concurrently.
func C08_template() {
	a := rawVal(1)
	tm, err := aitch.NewTemplate("t", "[{{x .}}]", aitch.NodeMap{"x": aitch.Text(a.given, aitch.DynamicValueKey("k"), aitch.DynamicValueKey("."))})
	sym.Assert(err == nil, "template is built")
	for i := 0; i < 2; i++ {
		k, c := letters(1), letters(1)
		var buf bytes.Buffer
		err = tm.Execute(&buf, map[string]any{"k": k}, c)
		sym.Assert(err == nil, "no error")
		sym.Assert(buf.String() == "["+a.text+k+c+"]", "each execution its own data")
	}
}

// valuesOf is what a node contributes as contents of a text, comment or attribute: its values.
func valuesOf(r *rn) []val {
	switch r.k {
	case kText, kFragment, kComment, kAttr, kDelim, kPI:
		var vs []val
		for _, v := range r.vals {
			if v.given != nil {
				vs = append(vs, v)
			}
		}
		return vs
	case kColl:
		var vs []val
		for _, c := range r.kids {
			if c != nil {
				vs = append(vs, valuesOf(c)...)
			}
		}
		return vs
	}
	return nil
}

// C08_program: nodes built from each other, step by step; each renders as specified whatever else was built from it.
func C08_program() {
	var pool []*rn
	// add builds the node of a description whose members are already built, and describes it by its values
	add := func(r *rn, values []*rn, extra ...any) *rn {
		var given []any
		var vs []val
		for _, c := range values {
			if c == nil {
				given = append(given, nil)
				continue
			}
			given = append(given, c.build())
			if r.k != kElem && r.k != kColl {
				vs = append(vs, valuesOf(c)...)
			}
		}
		r.kids = nil
		switch r.k {
		case kElem, kColl:
			r.kids = values
			n := r.build()
			r.made = func() aitch.Node { return n }
		default:
			for _, e := range extra {
				given = append(given, e)
				if e != nil {
					vs = append(vs, val{e, string(e.([]byte))})
				}
			}
			var asGiven []val
			for _, g := range given {
				asGiven = append(asGiven, val{g, ""})
			}
			r.vals = asGiven
			n := r.build()
			r.vals = vs
			r.made = func() aitch.Node { return n }
		}
		pool = append(pool, r)
		return r
	}
	mk := func(i int) *rn {
		switch i {
		case 0:
			return &rn{k: kText}
		case 1:
			return &rn{k: kDelim, name: "class", delim: " "}
		case 2:
			return &rn{k: kColl}
		case 3:
			return &rn{k: kAttr, name: "id"}
		case 4:
			return &rn{k: kComment}
		case 5:
			return &rn{k: kElem, name: "p"}
		}
		return &rn{k: kFragment}
	}
	a := add(mk(0), nil, raw(1))
	e := add(mk(5), nil)
	first := mk(sym.Choice(4))
	var one *rn
	switch sym.Choice(4) {
	case 0:
		one = add(first, []*rn{a})
	case 1:
		one = add(first, []*rn{a, nil}, nil)
	case 2:
		one = add(first, []*rn{a, e})
	case 3:
		one = add(first, []*rn{a, nil, a}, raw(1))
	}
	second := mk(sym.Choice(7))
	var two *rn
	switch sym.Choice(3) {
	case 0:
		two = add(second, []*rn{one})
	case 1:
		two = add(second, []*rn{one, nil}, raw(1))
	case 2:
		two = add(second, []*rn{one, one}, nil)
	}
	base := []*rn{one, two}
	for i := 0; i < 2; i++ {
		b := base[sym.Choice(2)]
		add(mk([]int{0, 1, 3, 4, 5}[sym.Choice(5)]), []*rn{b, a}, raw(1))
	}
	for _, r := range pool {
		if r.isAttr() {
			expect(r.build(), nil, nil, attrListText([]attrUse{{r, true}}), "attribute as built")
		} else {
			expect(r.build(), nil, nil, r.emit(), "node as built")
		}
	}
}

// C08_wide: values of every kind at every place, rendered by two at once and again with other data in between.
func C08_wide() {
	place := sym.Choice(6)
	x := wideVal()
	y := rawVal(1)
	k := aitch.DynamicValueKey("k")
	var n aitch.Node
	spec := func(string) string { return "" }
	switch place {
	case 0:
		n = aitch.Text(x.given, k, y.given)
		spec = func(s string) string { return x.text + s + y.text }
	case 1:
		n = html.P(html.Id(k, x.given), y.given)
		spec = func(s string) string { return `<p id="` + s + x.text + `">` + y.text + "</p>" }
	case 2:
		n = aitch.IterateKey("l", html.B(html.Title(x.given), k))
		spec = func(s string) string {
			return `<b title="` + x.text + `">` + s + "</b>" + `<b title="` + x.text + `">` + s + "</b>"
		}
		sym.Assume(x.given != any(key(".")))
	case 3:
		n = htmx.Headers(htmx.HeadersMap{"a": k, "b": x.given})
		spec = func(s string) string {
			return ` hx-headers="` + "{'a': " + s + ", 'b': " + x.text + `}"`
		}
		if x.text == "" {
			n, spec = aitch.Comment(k, x.given), func(s string) string { return "<!--" + s + "-->" }
		}
	case 4:
		n = html.I(aitch.When("k", html.Id(k), html.Title(x.given)))
		spec = func(s string) string { return `<i id="` + s + `" title="` + x.text + `"></i>` }
	case 5:
		n = aitch.Imperative(func(ic aitch.ImperativeContext) error {
			ic.Start([]byte("i"), true, html.Id(x.given))
			ic.WriteNodes(aitch.Text(k, x.given))
			return nil
		})
		spec = func(s string) string { return `<i id="` + x.text + `">` + s + x.text }
	}
	long := []string{"four", "<long & 'longer' than that>", strings.Repeat("m", 65)}
	d1 := wideData(map[string]any{"k": long[0], "l": []int{1, 2}})
	d2 := wideData(map[string]any{"k": long[1], "l": []int{1, 2}})
	d3 := wideData(map[string]any{"k": long[2], "l": []int{1, 2}})
	expect(n, d1, wideCargo, spec(long[0]), "first render")
	expect(n, d2, wideCargo, spec(refEscape(long[1])), "with other data")
	expect(n, d3, wideCargo, spec(long[2]), "with longer data")
	expect(n, d1, wideCargo, spec(long[0]), "as the first")
	sym.Concurrent(func(id int) {
		var buf bytes.Buffer
		err := n.Render(context.New(&buf, d2, wideCargo))
		sym.Assert(err == nil, "no error")
		sym.Assert(buf.String() == spec(refEscape(long[1])), "concurrent render")
	})
}
