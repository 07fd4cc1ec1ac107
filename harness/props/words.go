package props

// Harnesses whose strings are the ones the code under test itself mentions (sym.Word), each with its neighbours: where code treats
// some text specially, it is tried at every place that takes text, however long it is. Strings that are arbitrary throughout, but
// shorter, are the domain of the other harnesses.

import (
	"strings"

	"aitchverif/sym"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
	"github.com/go-andiamo/aitch/css"
	"github.com/go-andiamo/aitch/html"
	"github.com/go-andiamo/aitch/htmx"
	"github.com/go-andiamo/aitch/svg"
)

func init() {
	sym.Register("C01_words", C01_words)
	sym.Register("C02_words", C02_words)
	sym.Register("C03_words", C03_words)
	sym.Register("C04_words", C04_words)
	sym.Register("C05_words", C05_words)
	sym.Register("C06_words", C06_words)
	sym.Register("C10_words", C10_words)
	sym.Register("C11_words", C11_words)
	sym.Register("C12_words", C12_words)
	sym.Register("C14_words", C14_words)
	sym.Register("C16_words", C16_words)
	sym.Register("C17_words", C17_words)
	sym.Register("C18_words", C18_words)
	sym.Register("C19_words", C19_words)
	sym.Register("C20_words", C20_words)
	sym.Register("C21_words", C21_words)
	sym.Register("C22_words", C22_words)
	sym.Register("C23_words", C23_words)
}

// C01_words: escaped at every position.
func C01_words() {
	w := sym.Word()
	e := refEscape(w)
	data := map[string]any{"k": w, "f": func() any { return w }, "s": strer{w}}
	switch sym.Choice(4) {
	case 0:
		expect(html.Div(w, html.Id(w), html.Class(w), aitch.Comment(w), aitch.PI("x", w), aitch.Text(w, strer{w}, func() any { return w }), aitch.Fragment(w)), data, w,
			`<div id="`+e+`" class="`+e+`">`+e+"<!--"+e+"--><!x "+e+">\n"+e+e+e+e+"</div>", "given directly")
	case 1:
		expect(html.P(html.Title(key("k"), key(".")), html.Style(key("f"), w), key("s"), aitch.Comment(key("k")), aitch.Fragment(key("."))), data, w,
			`<p title="`+e+e+`" style="`+e+"; "+e+`">`+e+"<!--"+e+"-->"+e+"</p>", "from data and cargo")
	case 2:
		expect(aitch.Imperative(func(ic aitch.ImperativeContext) error {
			ic.Start([]byte("p"), false, aitch.Attribute("a", w), html.Class(w))
			ic.WriteString(w)
			ic.WriteNodes(html.B(w), html.Br(html.Alt(w)))
			ic.EndAll()
			return nil
		}), data, w, `<p a="`+e+`" class="`+e+`">`+e+"<b>"+e+`</b><br alt="`+e+`"></p>`, "written imperatively")
	case 3:
		expect(aitch.Collection(css.Color(w), htmx.Vals(w), aitch.Text(css.Px(w), aitch.NewConcatValue(w, w), aitch.NewValue(w)), aitch.ContentCollect(func(*context.Context) []aitch.Node { return []aitch.Node{svg.Text(w)} }),
			aitch.Iterate(func(*context.Context) []any { return []any{w} }, aitch.Text(key(".")))), data, w, e+"px"+e+e+e+e+e, "in other places")
	}
}

// C02_words: bytes, names and fragments verbatim.
func C02_words() {
	w := sym.Word()
	b := []byte(w)
	switch sym.Choice(3) {
	case 0:
		expect(aitch.NewElement(b, aitch.NewAttribute(b, b), b, aitch.NewElement(b), aitch.NewVoidElement(b, b, aitch.NewBooleanAttribute(b))), nil, nil,
			"<"+w+" "+w+`="`+w+`">`+w+"<"+w+"></"+w+"><"+w+" "+w+"></"+w+">", "names and bytes")
	case 1:
		expect(aitch.Collection(aitch.Text(b), aitch.Fragment(b, b), aitch.Comment(b), aitch.PI(w, b), aitch.Collection(aitch.Text(b), aitch.NewElement([]byte("p"), b))), nil, nil,
			w+w+w+"<!--"+w+"--><!"+w+" "+w+">\n"+w+"<p>"+w+"</p>", "content of every kind")
	case 2:
		expect(html.Ul(html.Li(b), html.Li(b, html.B(b), b), b), nil, nil, "<ul><li>"+w+"</li><li>"+w+"<b>"+w+"</b>"+w+"</li>"+w+"</ul>", "nested elements")
	}
}

// C03_words: attribute names and values.
func C03_words() {
	w := sym.Word()
	b := []byte(w)
	x := "x"
	if w == "x" {
		x = "y"
	}
	t := sym.Bool()
	cond := func(ns ...aitch.Node) aitch.Node {
		return aitch.Conditional(func(*context.Context) bool { return t }, ns...)
	}
	el := func(args ...any) aitch.Node {
		if sym.Choice(2) == 1 {
			return aitch.NewVoidElement([]byte("p"), args...)
		}
		return aitch.NewElement([]byte("p"), append(args, aitch.NewElement([]byte("p"), args...))...)
	}
	n := func(attrs string, node aitch.Node) {
		want := "<p" + attrs + ">"
		if s, _ := render(node, nil, nil); strings.HasSuffix(s, "</p>") {
			want = "<p" + attrs + "><p" + attrs + "></p></p>"
		}
		expect(node, nil, nil, want, "each name once")
	}
	switch sym.Choice(4) {
	case 0: // last wins
		last := "2"
		if t {
			last = "3"
		}
		n(" "+w+`="`+last+`" `+x+`="0"`, el(aitch.NewAttribute(b, 1), aitch.NewAttribute([]byte(x), 0), aitch.Collection(aitch.NewAttribute(b, 2)), cond(aitch.NewAttribute(b, 3))))
	case 1: // delimited values merge
		last := ""
		if t {
			last = ";3"
		}
		d := []byte(";")
		n(" "+w+`="1;2`+last+`" `+x+`="0"`, el(aitch.NewDelimitedAttribute(b, d, 1), aitch.NewDelimitedAttribute([]byte(x), d, 0), aitch.NewDelimitedAttribute(b, d, 2), cond(aitch.NewDelimitedAttribute(b, d, 3))))
	case 2: // names only under conditions follow
		last := ""
		if t {
			last = " " + w + `="2"`
		}
		n(" "+x+`="0"`+last, el(cond(aitch.NewAttribute(b, 1)), aitch.NewAttribute([]byte(x), 0), cond(cond(aitch.NewAttribute(b, 2)))))
	case 3: // as values
		last := ";b"
		if t {
			last = ";b;" + w
		}
		d := []byte(";")
		n(` a="`+w+`" d="`+w+last+`"`, el(aitch.NewAttribute([]byte("a"), "x"), aitch.NewAttribute([]byte("a"), b), aitch.NewDelimitedAttribute([]byte("d"), d, b), aitch.NewDelimitedAttribute([]byte("d"), d, "b"), cond(aitch.NewDelimitedAttribute([]byte("d"), d, b))))
	}
}

// C04_words: as values, delimiter and name.
func C04_words() {
	w := sym.Word()
	b := []byte(w)
	d := []string{" ", "; ", ",", "", w}[sym.Choice(5)]
	name := "a"
	if sym.Choice(2) == 1 {
		name = w
	}
	vs := []any{b, "x", b, key("k"), key("none")}
	want := []string{w, "x", w, w}
	switch sym.Choice(4) {
	case 1:
		vs, want = append([]any{nil, key("none")}, vs...), want
	case 2:
		vs, want = append(vs, "z"), append(want, "z")
	case 3:
		vs, want = []any{"x", b, nil, "y"}, []string{"x", w, "y"}
	}
	t := strings.Join(want, d)
	node := aitch.NewDelimitedAttribute([]byte(name), []byte(d), vs...)
	got, err := render(node, map[string]any{"k": b}, nil)
	sym.Observe("out", []byte(got))
	sym.Assert(err == nil && (got == " "+name+`="`+t+`"` || got == " "+name+`="`+t+d+`"`), "one delimiter between neighbouring non-empty values")
}

// C05_words: names, keys and values of what stands under conditions.
func C05_words() {
	w := sym.Word()
	b := []byte(w)
	sym.Assume(w[0] != '!')
	s, t := sym.Bool(), sym.Bool()
	data := map[string]any{w: t}
	cond := func(ns ...aitch.Node) aitch.Node {
		return aitch.Conditional(func(*context.Context) bool { return s }, ns...)
	}
	attr, text := "", ""
	if s && t {
		attr, text = " "+w+`="`+w+`"`, w+"<"+w+">"+w+"</"+w+">"
	}
	in := []aitch.Node{aitch.NewAttribute(b, b), aitch.Text(b), aitch.NewElement(b, b)}
	var c aitch.Node
	switch sym.Choice(3) {
	case 0:
		c = cond(aitch.When(key(w), in...))
	case 1:
		c = aitch.When(key(w), aitch.Collection(cond(in...)))
	case 2:
		c = aitch.Collection(cond(aitch.Conditional(nil, aitch.When(key(w), in...))))
	}
	expect(aitch.NewElement([]byte("p"), c, b), data, nil, "<p"+attr+">"+text+w+"</p>", "written exactly when all conditions hold")
}

// C06_words: as the key, and as the value under it.
func C06_words() {
	w := sym.Word()
	sym.Assume(w[0] != '!')
	k := "k"
	var v any = w
	data := map[string]any{}
	want := true
	switch sym.Choice(9) {
	case 0:
		data[k] = w
	case 1:
		data[k] = []byte(w)
	case 2:
		data[k] = strer{w}
	case 3:
		data[k] = keyName(w)
	case 4:
		k = w
		data[k] = sym.Bool()
		want = data[k].(bool)
	case 5:
		k = w
		want = false
	case 6:
		k, want = w, false
		data[w+"x"], data["x"+w], data["!"+w], data[""] = true, true, true, true
	case 7:
		k = w
		data[k] = nil
	case 8:
		data[k] = map[string]any{w: false}
	}
	_ = v
	text := func(b bool) string {
		if b {
			return "x"
		}
		return ""
	}
	expect(aitch.When(key(k), aitch.Text("x")), data, map[string]any{k: !want}, text(want), "When")
	expect(aitch.When(key("!"+k), aitch.Text("x")), data, map[string]any{k: want}, text(!want), "When negated")
}

// C10_words: as the key of the items, as an item, and in the data of an item.
func C10_words() {
	w := sym.Word()
	e := refEscape(w)
	nodes := []aitch.Node{aitch.Text("[", key("."), key(w), "]")}
	if w == "." {
		return
	}
	switch sym.Choice(4) {
	case 0:
		expect(aitch.Collection(aitch.IterateKey(w, nodes...), aitch.IterateKey(w+"x", nodes...)), map[string]any{w: []string{w, "b"}, "x" + w: []int{1}}, nil, "["+e+"][b]", "the items of the key")
	case 1:
		expect(aitch.IterateKey("l", nodes...), map[string]any{"l": []any{w, map[string]any{w: w}, []byte(w)}, w: "o"}, nil, "["+e+"o]["+e+"]["+w+"o]", "each item")
	case 2:
		expect(aitch.Iterate(func(*context.Context) []any { return []any{w, strer{w}, map[string]any{w: 1}} }, nodes...), map[string]any{w: "o"}, nil, "["+e+"o]["+e+"o][1]", "each item")
	case 3:
		expect(aitch.IterateYield(func(_ *context.Context, yield func(any)) {
			yield(w)
			yield(map[string]any{w: 1})
			yield(w)
		}, nodes...), map[string]any{w: "o"}, nil, "["+e+"o][1]["+e+"o]", "each item")
	}
}

// C11_words: as a name.
func C11_words() {
	w := sym.Word()
	if sym.Choice(2) == 1 {
		nameCase(w)
		return
	}
	if !validName(w) {
		return
	}
	void := false
	for _, v := range voidNames {
		if w == v {
			void = true
		}
	}
	want := "<" + w + ` id="1">`
	if !void {
		want += "t</" + w + ">"
	}
	expect(aitch.Element(w, "t", aitch.Attribute("id", 1)), nil, nil, want, "void exactly for the void names")
}

// C12_words: as a key.
func C12_words() {
	w := sym.Word()
	sym.Assume(w != ".")
	e := refEscape(w)
	data := map[string]any{w: 1, w + "x": 2, "x" + w: 3, "k": w, strings.ToUpper(w) + "_": 5}
	cargo := map[string]any{w: 4, w + "y": 5}
	parts := func() []any { return []any{key(w), key(w + "y"), key("k"), key("x" + w)} }
	want := "1" + e + "3"
	switch sym.Choice(4) {
	case 0:
		expect(aitch.Text(parts()...), data, cargo, want, "the entry of exactly that name")
	case 1:
		expect(aitch.Attribute("a", parts()...), data, cargo, ` a="`+want+`"`, "in an attribute")
	case 2:
		n := aitch.Collection(aitch.Comment(parts()...), aitch.Text(aitch.NewConcatValue(parts()...)))
		expect(n, data, cargo, "<!--"+want+"-->"+want, "in a comment and concatenated")
		expect(n, nil, cargo, "<!---->", "without data")
	case 3:
		expect(aitch.Text(key("k"), func(*context.Context) []byte { return []byte(w) }, key(".")), data, w, e+w+e, "as value, as function's result and as cargo")
	}
}

// C14_words: as element name, text and attributes.
func C14_words() {
	w := sym.Word()
	b := []byte(w)
	at := func() []aitch.Node {
		return []aitch.Node{aitch.NewAttribute(b, b), aitch.NewDelimitedAttribute([]byte("-"+w), b, b, "x"), aitch.NewDelimitedAttribute([]byte("-"+w), b, b), aitch.NewBooleanAttribute([]byte("--" + w)), aitch.NewAttribute(b, "2", b)}
	}
	as := " " + w + `="2` + w + `" -` + w + `="` + w + w + "x" + w + w + `" --` + w
	want := "<" + w + as + "><" + w + as + ">" + refEscape(w) + w + "<b>" + refEscape(w) + "</b></" + w + ">"
	expect(aitch.Imperative(func(ic aitch.ImperativeContext) error {
		ic.Start(b, false, at()...)
		ic.Start(b, true, at()...)
		ic.WriteString(w)
		ic.WriteRaw(b)
		ic.WriteNodes(html.B(w))
		ic.End()
		ic.End()
		return nil
	}), nil, nil, want, "balanced and as declared")
	var args []any
	for _, a := range at() {
		args = append(args, a)
	}
	expect(aitch.NewVoidElement(b, args...), nil, nil, "<"+w+as+">", "declared")
}

// C16_words: as the key.
func C16_words() {
	w := sym.Word()
	form := sym.Choice(6)
	var cargo any
	found, want := false, ""
	data := map[string]any{w + "x": "a", "x" + w: "b", strings.ToUpper(w) + "_": "c"}
	switch form {
	case 0:
		data[w] = w
		cargo = map[string]any{w: "cargo"}
		found, want = true, w
	case 1:
		cargo = map[string]any{w: w, w + "x": "d"}
		found, want = true, w
	case 2:
		data[w] = 5
		cargo = map[string]string{w: w}
		found, want = true, w
	case 3:
		cargo = &map[keyName]string{keyName(w): w}
		found, want = true, w
	case 4:
		cargo = map[string]any{w + "x": "d", "": "e"}
	case 5:
		cargo = st{A: "a", C: 1, D: "d"}
		switch w {
		case "A":
			found, want = true, "a"
		case "D":
			found, want = true, "d"
		}
	}
	ctx := context.New(nil, data, cargo)
	ctx.Parent = context.New(nil, map[string]any{w: "parent"}, nil)
	got, ok := try[string](ctx, w)
	sym.Assert(ok == found && got == want, "the entry of exactly that name")
}

// C17_words: as content of every element.
func C17_words() {
	w := sym.Near()
	e := refEscape(w)
	es := htmlElements
	if sym.Choice(2) == 1 {
		es = svgElements
	}
	for _, c := range es {
		if c.name == "track" {
			continue
		}
		want := "<" + c.name + ` id="` + e + `">`
		if !c.void {
			want += e + "</" + c.name + ">"
		}
		got, err := render(c.fn(w, aitch.Attribute("id", w)), nil, nil)
		sym.Assert(err == nil && got == want, "the element is written with its own tag, attributes and contents")
	}
}

// C18_words: as value of every attribute, and as the name given to those that take one.
func C18_words() {
	w := sym.Near()
	e := refEscape(w)
	var as []attrCtor
	switch sym.Choice(4) {
	case 0:
		as = htmlAttributes
	case 1:
		as = svgAttributes
	case 2:
		as = htmxAttributes
	case 3:
		for i, f := range []func(string, ...any) aitch.Node{html.Data, html.Aria, htmx.On} {
			p := []string{"data-", "aria-", "hx-on:"}[i]
			n, m := f(w, w, 1), f(w+"X")
			sym.Assert(n.Name() == p+w && m.Name() == p+w+"X", "the name is the prefix and the name given")
			expect(aitch.Element("i", n, m), nil, nil, "<i "+p+w+`="`+e+"1\" "+p+w+`X=""></i>`, "the attribute is written with its value")
		}
		return
	}
	for _, a := range as {
		n := a.fn(w, "v", w)
		got, err := render(n, nil, nil)
		sym.Assert(n.Name() == a.name && err == nil && got == " "+a.name+`="`+strings.Join([]string{e, "v", e}, a.delim)+`"`, "the attribute is written with all its values")
		got, err = render(aitch.Collection(aitch.Element("i", a.fn(w))), nil, nil)
		sym.Assert(err == nil && got == "<i "+a.name+`="`+e+`"></i>`, "the attribute is written with its value")
	}
}

// C19_words: as value of every property and unit.
func C19_words() {
	w := sym.Near()
	e := refEscape(w)
	units := []struct {
		fn func(...any) aitch.Value
		u  string
	}{{css.Px, "px"}, {css.Pt, "pt"}, {css.Pc, "pc"}, {css.In, "in"}, {css.Cm, "cm"}, {css.Mm, "mm"}, {css.Em, "em"}, {css.Rem, "rem"}, {css.Percent, "%"}, {css.Vw, "vw"}, {css.Vh, "vh"}, {css.VMin, "vmin"}, {css.VMax, "vmax"}, {css.Ch, "ch"}, {css.Ex, "ex"}}
	if sym.Choice(2) == 0 {
		for _, u := range units {
			got, err := render(aitch.Text(u.fn(w), u.fn("1", w)), nil, nil)
			sym.Assert(err == nil && got == e+u.u+"1"+e+u.u, "the value and its own unit")
		}
		return
	}
	for _, p := range cssProperties {
		got, err := render(aitch.Element("i", p.fn(w), p.fn("v", w), p.fn(w, "v"), p.fn(w, "v", w)), nil, nil)
		sym.Assert(err == nil && got == `<i style="`+p.name+":"+e+"; "+p.name+":v"+e+"; "+p.name+":"+e+"v; "+p.name+":"+e+"v"+e+`"></i>`, "the property with its values")
	}
}

// C20_words: as header names and values.
func C20_words() {
	w := sym.Word()
	e := refEscape(w)
	for i := 0; i < len(w); i++ {
		sym.Assume(w[i] != '\'' && w[i] != '\\' && w[i] != '"')
	}
	js := sym.Choice(2) == 1
	switch sym.Choice(3) {
	case 0:
		es := []entry{{w, val{1, "1"}, 0}, {w + "-", val{w, e}, 0}, {"0" + w, val{nil, ""}, 0}}
		ms := headerMaps(1, es)
		expect(headersNode(js, ms), nil, nil, ` hx-headers="`+jsPrefix(js)+headersText(es)+`"`, "every header once")
		unchanged(ms, es)
	case 1:
		es := []entry{{w, val{1, "1"}, 0}, {"m", val{2, "2"}, 0}, {w, val{w, e}, 1}, {"m", val{w, e}, 2}, {w, val{3, "3"}, 2}}
		if w == "m" {
			return
		}
		ms := headerMaps(3, es)
		expect(headersNode(js, ms), nil, nil, ` hx-headers="`+jsPrefix(js)+headersText(es)+`"`, "a later map replaces the values")
	case 2:
		expect(htmx.Vars(htmx.Var(w, w), htmx.Var("b", []byte(w))), nil, nil, ` hx-vars="`+e+": "+e+", b: "+w+`"`, "variables")
		expect(htmx.Headers(w, "x", w), nil, nil, ` hx-headers="`+e+"x"+e+`"`, "other values")
	}
}

// C21_words: in markup.
func C21_words() {
	form := sym.Choice(5)
	w := ""
	if form == 0 {
		w = sym.Word()
	} else {
		w = sym.Near()
	}
	isSvg := sym.Choice(2) == 1
	quoted := strings.ReplaceAll(strings.ReplaceAll(w, "&", "&amp;"), `"`, "&quot;")
	switch form {
	case 0:
		rebuilds(`<p title="`+quoted+`" id="`+quoted+`x">`+quoted+"</p>x<!--"+w+"-->", isSvg)
	case 1:
		rebuilds("<"+w+" id=i>t</"+w+"><b></b>", isSvg)
	case 2:
		rebuilds("<p "+w+`="`+quoted+`">t</p>`, isSvg)
	case 3:
		rebuilds("<p "+w+">t<"+w+"/></p>", isSvg)
	case 4:
		rebuilds("<!DOCTYPE "+w+"><p>"+w+"<br>"+w+"</p>"+w, isSvg)
	}
}

// C22_words: in static text, nodes, data and as the template's name.
func C22_words() {
	w := sym.Word()
	for i := 0; i < len(w); i++ {
		sym.Assume(w[i] != '<' && w[i] != '{' && w[i] != '}' && w[i] != 0)
	}
	e := refEscape(w)
	t, err := aitch.NewTemplate(w, "<p>"+w+"{{a .}}"+w+"</p>{{b .}}", aitch.NodeMap{"a": html.B(w, html.Id(w)), "b": aitch.Text(key("k"), key("."))})
	sym.Assert(err == nil, "the template is made")
	executed(t, map[string]any{"k": w}, w, "<p>"+w+`<b id="`+e+`">`+e+"</b>"+w+"</p>"+e+e, "static text and nodes in order")
}

// C23_words: as language and contents.
func C23_words() {
	w := sym.Word()
	e := refEscape(w)
	data := map[string]any{"k": w}
	want := "<!DOCTYPE html>\n<html lang=\"" + e + `"><head><title>` + e + "</title>" + e + "</head><body>" + e + "<p>" + e + "</p></body></html>"
	var lang any = w
	switch sym.Choice(3) {
	case 1:
		lang = key("k")
	case 2:
		lang = strer{w}
	}
	expect(html.Document(lang, []any{html.TitleElement(w), w}, []any{w, html.P(w)}), data, nil, want, "the document")
	expect(html.Document(nil, nil, []any{html.Id(w)}), data, nil, `<!DOCTYPE html>`+"\n<html><body id=\""+e+`"></body></html>`, "the document without head")
}
