package props

// Bounds: all 114 element constructors of html and 66 of svg; contents of 0..5 arguments: string and raw values of 1..2 arbitrary
// bytes, attributes before, between and after the contents, nil, nested elements, collections,
// conditionals with either truth, data keys; every element as a child of every other one of its package; all attributes of the
// package on every element at once (in thorough runs also each alone); the Text, Comment and PI helpers of both packages with 0..3 values of 0..1 bytes (0..2 in thorough runs), the second raw or string.
// Also values of every kind as content.
// Strings the code itself compares with, alone, with an arbitrary byte before or after, and after one another (words.go).
// Sizes include those at which the code itself makes a difference (constants of its comparisons, up to about 600).

import (
	"aitchverif/sym"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
	"github.com/go-andiamo/aitch/html"
	"github.com/go-andiamo/aitch/svg"
)

func init() {
	sym.Register("C17_html", C17_html)
	sym.Register("C17_svg", C17_svg)
	sym.Register("C17_children", C17_children)
	sym.Register("C17_attributes", C17_attributes)
	sym.Register("C17_values", C17_values)
	sym.Register("C17_track", C17_track)
	sym.Register("C17_void_track", C17_void_track)
}

// strVal is a string value, which is escaped.
func strVal(n int) val {
	s := sym.String(n, n)
	return val{s, refEscape(s)}
}

// elementOf checks one element constructor with one shape of contents.
func elementOf(e elemCtor) {
	open, end := "<"+e.name, "</"+e.name+">"
	if e.void {
		end = ""
	}
	keep := func(s string) string {
		if e.void {
			return ""
		}
		return s
	}
	data := map[string]any{}
	var args []any
	attrs, body := "", ""
	switch sym.Choice(7) {
	case 0:
	case 1:
		v := strVal(1 + sym.Tier())
		args, body = []any{v.given}, v.text
	case 2:
		v := rawVal(2)
		args, attrs = []any{aitch.Attribute("id", v.given)}, ` id="`+v.text+`"`
	case 3:
		v, w, x := strVal(1), rawVal(1), rawVal(1)
		args = []any{v.given, aitch.Attribute("id", x.given), nil, w.given, aitch.BooleanAttribute("q")}
		attrs, body = ` id="`+x.text+`" q`, v.text+w.text
	case 4:
		v, w, x := rawVal(1), rawVal(1), rawVal(1)
		args = []any{aitch.Element("u", w.given, aitch.Attribute("x", "y")), v.given, aitch.Collection(aitch.Attribute("id", x.given), aitch.Text(x.given))}
		attrs, body = ` id="`+x.text+`"`, `<u x="y">`+w.text+`</u>`+v.text+x.text
	case 5:
		v, t := rawVal(1), sym.Bool()
		args = []any{aitch.Conditional(func(*context.Context) bool { return t }, aitch.Attribute("id", v.given), aitch.Text(v.given)), "z"}
		if t {
			attrs, body = ` id="`+v.text+`"`, v.text
		}
		body += "z"
	case 6:
		v := strVal(1)
		data["k"] = v.given
		args = []any{aitch.DynamicValueKey("k"), aitch.DelimitedAttribute("class", " ", "a", aitch.DynamicValueKey("k")), aitch.DelimitedAttribute("class", " ", "b")}
		attrs, body = ` class="a `+v.text+` b"`, v.text
		sym.Assume(v.text != "")
	}
	n := e.fn(args...)
	sym.Assert(n != nil, "an element is made")
	sym.Assert(n.Name() == e.name, "the element has its own name")
	sym.Assert(n.Type() == aitch.ElementNode, "it is an element")
	want := open + attrs + ">" + keep(body) + end
	if sym.Choice(2) == 1 {
		n, want = aitch.Element("div", "(", n, ")"), "<div>("+want+")</div>"
	}
	expect(n, data, nil, want, "the element is written with its own tag, attributes and contents")
}

// C17_html: each element constructor of the html package.
func C17_html() {
	e := htmlElements[sym.Choice(len(htmlElements))]
	// <track> has a harness of its own
	sym.Assume(e.name != "track")
	elementOf(e)
}

// C17_track: html.Track with attributes only; whether it is void is decided by C17_void_track (a known finding).
func C17_track() {
	v := rawVal(1)
	args := []any{aitch.Attribute("id", v.given), nil, aitch.BooleanAttribute("default")}
	attrs := ` id="` + v.text + `" default`
	n := html.Track(args[:sym.Choice(4)]...)
	switch {
	case n == nil:
		sym.Assert(false, "an element is made")
	case n.Name() != "track" || n.Type() != aitch.ElementNode:
		sym.Assert(false, "it is the track element")
	}
	got, err := render(html.Track(args...), nil, nil)
	sym.Assert(err == nil, "no error")
	sym.Assert(got == "<track"+attrs+">" || got == "<track"+attrs+"></track>", "the track element is written with its own tag and attributes")
}

// C17_void_track: <track> is a void element.
func C17_void_track() {
	got, err := render(html.Track(aitch.Attribute("id", "1")), nil, nil)
	sym.Assert(err == nil, "no error")
	sym.Assert(got == `<track id="1">`, "html.Track is void")
}

// C17_children: every element as a child of every other one of its package, between other contents.
func C17_children() {
	es := htmlElements
	if sym.Choice(2) == 1 {
		es = svgElements
	}
	e := es[sym.Choice(len(es))]
	f := es[sym.Choice(len(es))]
	sym.Assume(e.name != "track" && f.name != "track")
	v, w := rawVal(1), rawVal(1)
	child := "<" + f.name + ` id="` + w.text + `">`
	if !f.void {
		child += "</" + f.name + ">"
	}
	want := "<" + e.name + ` title="t">`
	if !e.void {
		want += v.text + child + v.text + child + "</" + e.name + ">"
	}
	c := f.fn(aitch.Attribute("id", w.given))
	expect(e.fn(v.given, c, aitch.Attribute("title", "t"), v.given, c), nil, nil, want, "children in the order given")
}

// C17_attributes: every attribute on every element of its package.
func C17_attributes() {
	es, as, bs := htmlElements, htmlAttributes, boolAttributes
	if sym.Choice(2) == 1 {
		es, as, bs = svgElements, svgAttributes, nil
	}
	e := es[sym.Choice(len(es))]
	sym.Assume(e.name != "track")
	w := rawVal(1)
	args := []any{w.given, aitch.Attribute("q-q", w.given)}
	want := "<" + e.name + ` q-q="` + w.text + `"`
	if sym.Tier() > 0 {
		// one by one
		if k := sym.Choice(len(as) + len(bs)); k < len(as) {
			as, bs = as[k:k+1], nil
		} else {
			as, bs = nil, bs[k-len(as):k-len(as)+1]
		}
	}
	for _, a := range as {
		args = append(args, a.fn(w.given))
		want += " " + a.name + `="` + w.text + `"`
	}
	for _, b := range bs {
		args = append(args, b.fn())
		want += " " + b.name
	}
	want += ">"
	if !e.void {
		want += w.text + "</" + e.name + ">"
	}
	expect(e.fn(args...), nil, nil, want, "all attributes in the order given")
}

// C17_svg: each element constructor of the svg package.
func C17_svg() {
	elementOf(svgElements[sym.Choice(len(svgElements))])
}

// C17_values: the text, comment and processing instruction helpers.
func C17_values() {
	vs := make([]val, sym.Choice(4))
	for i := range vs {
		if i == 1 && sym.Choice(2) == 0 {
			vs[i] = strVal(sym.Choice(2 + sym.Tier()))
		} else {
			vs[i] = rawVal(sym.Choice(2 + sym.Tier()))
		}
	}
	t := joinVals(vs)
	switch sym.Choice(5) {
	case 0:
		expect(html.Text(givens(vs)...), nil, nil, t, "html.Text")
	case 1:
		expect(svg.Text(givens(vs)...), nil, nil, t, "svg.Text")
	case 2:
		expect(html.Comment(givens(vs)...), nil, nil, "<!--"+t+"-->", "html.Comment")
	case 3:
		expect(svg.Comment(givens(vs)...), nil, nil, "<!--"+t+"-->", "svg.Comment")
	case 4:
		n := letters(2)
		expect(html.PI(n, givens(vs)...), nil, nil, "<!"+n+" "+t+">\n", "html.PI")
	}
}
