package props

// Bounds: every attribute constructor of html, svg and htmx (all of them, by table) with 0..3 values of 0..2 arbitrary bytes, as
// string, raw bytes, data key, function or nil, written alone or on an element, once or twice; all 27 boolean attributes; names
// of 1..3 characters for the prefixed constructors, also several made one after another. Strings of 3 bytes in thorough runs.
// Also one value of every kind (wide.go), and 4..130 values, for every constructor.
// Prefixed names of 2..129 bytes in any casing; prefixed constructors with values of every kind (extra.go).
// Strings the code itself compares with, alone, with an arbitrary byte before or after, and after one another (words.go).
// Sizes include those at which the code itself makes a difference (constants of its comparisons, up to about 600).
// Also: two texts that differ in one arbitrary byte or in length, side by side and after each other (history.go).
// Also: every keyword constant (keywords.go).

import (
	"strconv"
	"strings"

	"aitchverif/sym"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
	"github.com/go-andiamo/aitch/html"
	"github.com/go-andiamo/aitch/htmx"
)

func init() {
	sym.Register("C18_wide", C18_wide)
	sym.Register("C18_many", C18_many)
	sym.Register("C18_html", C18_html)
	sym.Register("C18_svg", C18_svg)
	sym.Register("C18_htmx", C18_htmx)
	sym.Register("C18_boolean", C18_boolean)
	sym.Register("C18_prefixed", C18_prefixed)
}

// attrVals makes a list of values; dynamic ones are answered by data.
func attrVals(data map[string]any) []val {
	switch sym.Choice(6) {
	case 0:
		return nil
	case 1:
		return []val{strVal(1 + 2*sym.Tier())}
	case 2:
		return []val{rawVal(1), {"x", "x"}, rawVal(2)}
	case 3:
		s := strVal(1)
		data["k"] = s.given
		return []val{rawVal(1), {aitch.DynamicValueKey("k"), s.text}}
	case 4:
		r := rawVal(2)
		return []val{{aitch.DynamicValueFunc(func(*context.Context) []byte { return []byte(r.text) }), r.text}, {nil, ""}, {42, "42"}}
	}
	return []val{{nil, ""}, rawVal(1), {true, "true"}}
}

// attrOut is the value specified for a list of values.
func attrOut(delim string, vs []val) string {
	var parts []string
	for _, v := range vs {
		if v.given != nil && v.text != "" {
			parts = append(parts, v.text)
		}
	}
	return strings.Join(parts, delim)
}

func attributeOf(a attrCtor) {
	data := map[string]any{}
	vs := attrVals(data)
	if a.delim != "" {
		// a trailing empty value may leave a delimiter
		for _, v := range vs {
			sym.Assume(v.given == nil || v.text != "")
		}
	}
	args := givens(vs)
	n := a.fn(args...)
	sym.Assert(n != nil, "an attribute is made")
	sym.Assert(n.Name() == a.name, "the attribute has its own name")
	sym.Assert(n.Type() == aitch.AttributeNode, "it is an attribute")
	want := " " + a.name + `="` + attrOut(a.delim, vs) + `"`
	switch sym.Choice(4) {
	case 0:
		expect(n, data, nil, want, "the attribute is written with its own name and all its values")
	case 1:
		expect(aitch.Element("i", n, "t"), data, nil, "<i"+want+">t</i>", "the attribute is written in the start tag")
	case 2:
		// given twice: the list-like ones are merged, the others replaced
		x := rawVal(1)
		m := a.fn(x.given)
		v := x.text
		if a.delim != "" {
			v = attrOut(a.delim, append(append([]val{}, vs...), x))
		}
		expect(aitch.Element("i", n, m), data, nil, "<i "+a.name+`="`+v+`"></i>`, "the attribute is given twice")
	case 3:
		// another attribute beside it
		x := rawVal(1)
		expect(aitch.VoidElement("i", aitch.Attribute("zz", x.given), n), data, nil, `<i zz="`+x.text+`"`+want+">", "another attribute stands beside it")
	}
	for i, v := range vs {
		if s, ok := v.given.(string); ok {
			sym.Assert(args[i] == any(s), "the arguments are left as they are")
		}
	}
}

// C18_html: each attribute constructor of the html package.
func C18_html() { attributeOf(htmlAttributes[sym.Choice(len(htmlAttributes))]) }

// C18_svg: each attribute constructor of the svg package.
func C18_svg() { attributeOf(svgAttributes[sym.Choice(len(svgAttributes))]) }

// C18_htmx: each attribute constructor of the htmx package.
func C18_htmx() { attributeOf(htmxAttributes[sym.Choice(len(htmxAttributes))]) }

// C18_boolean: each boolean attribute.
func C18_boolean() {
	b := boolAttributes[sym.Choice(len(boolAttributes))]
	n := b.fn()
	sym.Assert(n != nil && n.Name() == b.name && n.Type() == aitch.AttributeNode, "the attribute has its own name")
	x := rawVal(1)
	switch sym.Choice(3) {
	case 0:
		expect(n, nil, nil, " "+b.name, "the bare name is written")
	case 1:
		expect(aitch.Element("i", x.given, n), nil, nil, "<i "+b.name+">"+x.text+"</i>", "the bare name is written in the start tag")
	case 2:
		expect(aitch.Element("i", n, b.fn(), aitch.Attribute("zz", x.given)), nil, nil, "<i "+b.name+` zz="`+x.text+`"></i>`, "the name is written once")
	}
}

// C18_prefixed: the constructors that make the name from a prefix and a name given.
func C18_prefixed() {
	type prefixed struct {
		prefix string
		fn     func(string, ...any) aitch.Node
	}
	ps := []prefixed{{"data-", html.Data}, {"aria-", html.Aria}, {"hx-on:", htmx.On}}
	p := ps[sym.Choice(len(ps))]
	const alphabet = "abcdefghijklmnopqrstuvwxyz-"
	ln := 1 + sym.Choice(3)
	a, b := sym.StringOf(ln, ln, alphabet), sym.StringOf(ln, ln, alphabet)
	data := map[string]any{}
	vs := attrVals(data)
	w := rawVal(1)
	m := p.fn(a, givens(vs)...)
	n := p.fn(b, w.given)
	sym.Assert(m != nil && m.Name() == p.prefix+a && m.Type() == aitch.AttributeNode, "the first attribute keeps its name")
	sym.Assert(n != nil && n.Name() == p.prefix+b, "the second attribute has its own name")
	wm, wn := " "+p.prefix+a+`="`+attrOut("", vs)+`"`, " "+p.prefix+b+`="`+w.text+`"`
	expect(m, data, nil, wm, "the first attribute")
	expect(n, data, nil, wn, "the second attribute")
	if a == b {
		expect(aitch.Element("i", m, n), data, nil, "<i"+wn+"></i>", "the last value wins")
	} else {
		expect(aitch.Element("i", m, n), data, nil, "<i"+wm+wn+"></i>", "both attributes are written")
	}
}

// C18_wide: each attribute constructor with one value of any kind, or two of a chosen constructor.
func C18_wide() {
	var a attrCtor
	switch sym.Choice(3) {
	case 0:
		a = htmlAttributes[sym.Choice(len(htmlAttributes))]
	case 1:
		a = svgAttributes[sym.Choice(len(svgAttributes))]
	case 2:
		a = htmxAttributes[sym.Choice(len(htmxAttributes))]
	}
	x := wideVal()
	n := a.fn(x.given)
	sym.Assert(n != nil && n.Name() == a.name, "the attribute has its own name")
	expect(n, wideData(nil), wideCargo, " "+a.name+`="`+x.text+`"`, "the attribute is written with its value")
}

// C18_many: each attribute constructor with many values.
func C18_many() {
	var a attrCtor
	switch sym.Choice(3) {
	case 0:
		a = htmlAttributes[sym.Choice(len(htmlAttributes))]
	case 1:
		a = svgAttributes[sym.Choice(len(svgAttributes))]
	case 2:
		a = htmxAttributes[sym.Choice(len(htmxAttributes))]
	}
	n := sym.Size(600, 4, 5, 8, 9, 17, 33, 65, 130)
	v := rawVal(1)
	vs := []val{}
	for i := 0; i < n; i++ {
		switch {
		case i == n-1 || i == n/2:
			vs = append(vs, v)
		case i%5 == 4:
			vs = append(vs, val{nil, ""})
		case i%5 == 3:
			vs = append(vs, val{key("ws"), "&lt;"})
		default:
			vs = append(vs, val{i, strconv.Itoa(i)})
		}
	}
	m := a.fn(givens(vs)...)
	sym.Assert(m != nil && m.Name() == a.name, "the attribute has its own name")
	expect(m, wideData(nil), nil, " "+a.name+`="`+attrOut(a.delim, vs)+`"`, "the attribute is written with all its values")
}
