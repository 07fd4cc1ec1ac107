package props

// Bounds: strings of 0..5 bytes (thorough 0..7) in a text node; 46 fragments (entities, markup, white space, ...) between 0..1 arbitrary bytes; 0..2 (thorough 0..3) arbitrary bytes in each of the
// value positions (text, element content, attribute, delimited attribute, comment, PI, fragment, concatenated value, css
// value, htmx header, conditional attribute, iterated item, collected text, document language, template marker,
// imperative text and attribute) combined with each route (direct, data key, cargo, Stringer, pointer Stringer,
// producing function, each also through data and cargo); one or two arbitrary bytes within otherwise fixed text of up
// to 130 bytes.
// Also one of some 140 given values (wide.go: every documented kind, own Stringers of every underlying kind, unsupported
// kinds, nested functions, keys of every form) at each position.
// Values of 128..4097 bytes (17 lengths up to 8193 in thorough runs) with an arbitrary byte at 5 places (more.go).
// Strings the code itself compares with, alone, with an arbitrary byte before or after, and after one another (words.go).
// Sizes include those at which the code itself makes a difference (constants of its comparisons, up to about 600).
// Also: two texts that differ in one arbitrary byte or in length, side by side and after each other (history.go).
// Also: writers that are more than io.Writer (lures.go).

import (
	"bytes"
	"strings"

	"aitchverif/sym"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
	"github.com/go-andiamo/aitch/css"
	"github.com/go-andiamo/aitch/html"
	"github.com/go-andiamo/aitch/htmx"
)

func init() {
	sym.Register("C01_wide", C01_wide)
	sym.Register("C01_text", C01_text)
	sym.Register("C01_routes", C01_routes)
	sym.Register("C01_long", C01_long)
	sym.Register("C01_neighbours", C01_neighbours)
	sym.Register("C01_fragments", C01_fragments)
}

// C01_text: one string value in a text node.
func C01_text() {
	s := sym.String(0, 5+2*sym.Tier())
	expect(aitch.Text(s), nil, nil, refEscape(s), "text is escaped")
}

type position func(v any) (n aitch.Node, pre, post string)

var positions = []position{
	func(v any) (aitch.Node, string, string) { return aitch.Text(v), "", "" },
	func(v any) (aitch.Node, string, string) { return aitch.NewElement([]byte("p"), v), "<p>", "</p>" },
	func(v any) (aitch.Node, string, string) { return aitch.NewAttribute([]byte("id"), v), ` id="`, `"` },
	func(v any) (aitch.Node, string, string) {
		return aitch.Element("p", aitch.Attribute("id", v)), `<p id="`, `"></p>`
	},
	func(v any) (aitch.Node, string, string) {
		return aitch.NewDelimitedAttribute([]byte("class"), []byte(" "), "x", v), ` class="x `, `"`
	},
	func(v any) (aitch.Node, string, string) { return aitch.Comment(v), "<!--", "-->" },
	func(v any) (aitch.Node, string, string) { return aitch.PI("xml", v), "<!xml ", ">\n" },
	func(v any) (aitch.Node, string, string) { return aitch.Fragment(v), "", "" },
	func(v any) (aitch.Node, string, string) {
		return aitch.NewAttribute([]byte("id"), aitch.NewConcatValue("x", v, "y")), ` id="x`, `y"`
	},
	func(v any) (aitch.Node, string, string) { return css.Color(v), ` style="color:`, `"` },
	func(v any) (aitch.Node, string, string) {
		return css.Width(css.Px(v)), ` style="width:`, `px"`
	},
	func(v any) (aitch.Node, string, string) {
		return htmx.Headers(htmx.HeadersMap{"a": v}), ` hx-headers="{'a': `, `}"`
	},
	func(v any) (aitch.Node, string, string) {
		return htmx.Vars(htmx.Var("a", v)), ` hx-vars="a: `, `"`
	},
	func(v any) (aitch.Node, string, string) {
		return aitch.Element("p", aitch.Conditional(func(*context.Context) bool { return true }, aitch.NewAttribute([]byte("id"), v))), `<p id="`, `"></p>`
	},
	func(v any) (aitch.Node, string, string) {
		return aitch.ContentCollect(func(*context.Context) []aitch.Node { return []aitch.Node{aitch.Text(v)} }), "", ""
	},
	func(v any) (aitch.Node, string, string) {
		return html.Document(v, nil, nil), "<!DOCTYPE html>\n<html lang=\"", "\"><body></body></html>"
	},
	func(v any) (aitch.Node, string, string) {
		return aitch.Imperative(func(ic aitch.ImperativeContext) error {
			ic.Start([]byte("b"), true, aitch.NewAttribute([]byte("id"), v))
			return nil
		}), `<b id="`, `">`
	},
	func(v any) (aitch.Node, string, string) {
		return aitch.Imperative(func(ic aitch.ImperativeContext) error {
			ic.Start([]byte("b"), true, aitch.NewDelimitedAttribute([]byte("class"), []byte(" "), v, "z"))
			return nil
		}), `<b class="`, ` z">`
	},
	func(v any) (aitch.Node, string, string) { return aitch.Text(aitch.NewValue(v)), "", "" },
	func(v any) (aitch.Node, string, string) { return aitch.Text(aitch.Collection(aitch.Text(v))), "", "" },
	func(v any) (aitch.Node, string, string) { return html.Text(v), "", "" },
	func(v any) (aitch.Node, string, string) { return html.Comment(v), "<!--", "-->" },
}

// route turns a string into a value to give, with the data and cargo that carry it; raw tells that it is verbatim.
type route func(s string) (v any, data map[string]any, cargo any)

var routes = []route{
	func(s string) (any, map[string]any, any) { return s, nil, nil },
	func(s string) (any, map[string]any, any) {
		return aitch.DynamicValueKey("k"), map[string]any{"k": s}, nil
	},
	func(s string) (any, map[string]any, any) { return aitch.DynamicValueKey("."), nil, s },
	func(s string) (any, map[string]any, any) { return strer{s}, nil, nil },
	func(s string) (any, map[string]any, any) { return &pstrer{s}, nil, nil },
	func(s string) (any, map[string]any, any) { return func() any { return s }, nil, nil },
	func(s string) (any, map[string]any, any) {
		return aitch.DynamicValueKey("k"), map[string]any{"k": strer{s}}, nil
	},
	func(s string) (any, map[string]any, any) {
		return aitch.DynamicValueKey("k"), map[string]any{"k": func() any { return s }}, nil
	},
	func(s string) (any, map[string]any, any) { return aitch.DynamicValueKey("."), nil, &pstrer{s} },
	func(s string) (any, map[string]any, any) {
		return func() any { return func() any { return strer{s} } }, nil, nil
	},
	// a dynamic function delegating to Text through the documented API
	func(s string) (any, map[string]any, any) {
		return aitch.Text(s), nil, nil
	},
}

// C01_routes: every route into every position.
func C01_routes() {
	p := sym.Choice(len(positions))
	r := sym.Choice(len(routes))
	if r == len(routes)-1 && (p == 1) {
		// a text node as element content is content itself: same output
	}
	s := sym.String(0, 1+sym.Tier())
	t := sym.Choice(2)
	if t == 1 {
		s = "a" + s
	}
	v, data, cargo := routes[r](s)
	n, pre, post := positions[p](v)
	expect(n, data, cargo, pre+refEscape(s)+post, "escaped in every position through every route")
}

// fragments are texts that code might treat specially: entities, markup, delimiters, other syntaxes, white space.
var fragments = []string{"&amp;", "&lt;", "&quot;", "&apos;", "&#39;", "&#x27;", "&nbsp;", "&copy", "<b>", "</p>", "<!--", "-->", "<![CDATA[", "]]>", "<script>", "</script>", "{{", "}}", "javascript:", "http://a/?b=1&c=2",
	"%3C", "\\u003c", "\xef\xbb\xbf", "\xef\xbf\xbd", "\r\n", "\xe2\x80\xa8", "\xc2\xa0", "\xc3\xa9", "\xff", "\x80<", " \t ", "true", "nil", "<nil>", "0", "-", ".", "!", "''", "\"\"", "\x00\x00", "<\x00/", "<br/>", "html:", "raw:", "@"}

// C01_fragments: texts with a fragment that might be treated specially, and arbitrary bytes around it.
func C01_fragments() {
	s := sym.String(0, 1) + fragments[sym.Choice(len(fragments))] + sym.String(0, 1)
	if sym.Tier() > 0 {
		s += fragments[sym.Choice(len(fragments))]
	}
	switch sym.Choice(7) {
	case 0:
		expect(aitch.Text(s), nil, nil, refEscape(s), "text is escaped")
	case 1:
		expect(aitch.Element("p", s), nil, nil, "<p>"+refEscape(s)+"</p>", "content is escaped")
	case 2:
		expect(aitch.NewAttribute([]byte("id"), s), nil, nil, ` id="`+refEscape(s)+`"`, "attribute value is escaped")
	case 3:
		expect(aitch.Imperative(func(ic aitch.ImperativeContext) error { ic.WriteString(s); return nil }), nil, nil, refEscape(s), "imperative text is escaped")
	case 4:
		expect(aitch.Comment(aitch.DynamicValueKey("k")), map[string]any{"k": s}, nil, "<!--"+refEscape(s)+"-->", "data is escaped")
	case 5:
		expect(aitch.NewDelimitedAttribute([]byte("class"), []byte(" "), "y", aitch.NewConcatValue("-", aitch.DynamicValueKey("."))), nil, strer{s}, ` class="y -`+refEscape(s)+`"`, "the Stringer is escaped")
	case 6:
		expect(html.Script(s, html.Src(func() any { return s })), nil, nil, `<script src="`+refEscape(s)+`">`+refEscape(s)+"</script>", "script text is escaped")
	}
}

// C01_long: arbitrary bytes within longer text.
func C01_long() {
	sizes := []int{3, 7, 8, 15, 16, 31, 32, 33, 63, 64, 127}
	n := sizes[sym.Choice(len(sizes))]
	where := sym.Choice(4)
	b := sym.String(1, 1+sym.Tier())
	c := "x"
	if where == 3 {
		c = sym.String(1, 1)
	}
	fill := strings.Repeat("m", n)
	var s string
	switch where {
	case 0:
		s = b + fill
	case 1:
		s = fill + b
	case 2:
		s = fill[:n/2] + b + fill[n/2:]
	case 3:
		s = b + fill + c
	}
	switch sym.Choice(3) {
	case 0:
		expect(aitch.Text(s), nil, nil, refEscape(s), "long text is escaped")
	case 1:
		expect(aitch.NewAttribute([]byte("id"), aitch.DynamicValueKey("k")), map[string]any{"k": s}, nil, ` id="`+refEscape(s)+`"`, "long dynamic attribute value is escaped")
	case 2:
		expect(aitch.Imperative(func(ic aitch.ImperativeContext) error { ic.WriteString(s); return nil }), nil, nil, refEscape(s), "long imperative text is escaped")
	}
}

// C01_neighbours: several values in one node, mixing strings (escaped) and raw bytes (verbatim), by several routes.
func C01_neighbours() {
	n := 2
	var vs []any
	want := ""
	data := map[string]any{}
	for i := 0; i < n; i++ {
		switch sym.Choice(8) {
		case 0:
			s := sym.String(1, 1)
			vs = append(vs, s)
			want += refEscape(s)
		case 1:
			b := raw(2)
			vs = append(vs, b)
			want += string(b)
		case 2:
			s := sym.String(1, 1)
			k := "k" + string(rune('0'+i))
			data[k] = s
			vs = append(vs, aitch.DynamicValueKey(k))
			want += refEscape(s)
		case 3:
			b := raw(2)
			k := "k" + string(rune('0'+i))
			data[k] = b
			vs = append(vs, aitch.DynamicValueKey(k))
			want += string(b)
		case 4:
			b := raw(2)
			vs = append(vs, aitch.DynamicValueFunc(func(*context.Context) []byte { return b }))
			want += string(b)
		case 5:
			b := raw(2)
			vs = append(vs, func(*context.Context) []byte { return b })
			want += string(b)
		case 6:
			s := sym.String(1, 1)
			vs = append(vs, strer{s})
			want += refEscape(s)
		case 7:
			b := raw(2)
			vs = append(vs, func() any { return b })
			want += string(b)
		}
	}
	switch sym.Choice(4) {
	case 0:
		expect(aitch.Text(vs...), data, nil, want, "text values")
	case 1:
		expect(aitch.NewAttribute([]byte("id"), vs...), data, nil, ` id="`+want+`"`, "attribute values")
	case 2:
		expect(aitch.Comment(vs...), data, nil, "<!--"+want+"-->", "comment values")
	case 3:
		var buf bytes.Buffer
		ctx := context.New(&buf, data, nil)
		err := aitch.Imperative(func(ic aitch.ImperativeContext) error {
			ic.WriteNodes(aitch.Fragment(vs...))
			ic.Start([]byte("hr"), true, aitch.NewAttribute([]byte("id"), vs...))
			return nil
		}).Render(ctx)
		sym.Observe("out", buf.Bytes())
		sym.Assert(err == nil, "no error")
		sym.Assert(buf.String() == want+`<hr id="`+want+`">`, "imperative values")
	}
}

// C01_wide: values of every kind in every position.
func C01_wide() {
	x, many := wideOne(true)
	n, pre, post := positions[sym.Choice(len(positions))](x.given)
	sym.Assume(!many || post != ` z">` && pre != ` class="x `) // a delimited list has delimiters between them
	got, err := render(n, wideData(nil), wideCargo)
	sym.Observe("out", []byte(got))
	sym.Assert(err == nil, "no error")
	want := pre + x.text + post
	ok := got == want
	if x.text == "" {
		// a nil language is none; an empty value has no delimiter beside it
		ok = ok || pre == ` class="x ` && got == ` class="x"` || post == ` z">` && got == `<b class="z">` || x.given == nil && got == "<!DOCTYPE html>\n<html><body></body></html>"
	}
	sym.Assert(ok, "the text of the value and nothing else")
}
