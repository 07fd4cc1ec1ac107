package props

// Bounds: 0..4 (thorough 0..5) values, each of up to 12 kinds (raw bytes of length 0..1, an arbitrary string of length 0..1,
// a function, a key present or missing, nil, concatenations of empty and non-empty parts, nested concatenations, nodes)
// with arbitrary bytes; delimiters of 1 or 2 arbitrary bytes; rendered alone, in an element, merged from two attributes,
// and merged with a conditional attribute; 7 fixed delimited html/css/svg/htmx attributes with 3 values.
// Also values of every kind (wide.go) among others, and up to 130 values in one attribute.
// Delimiters of up to 40 bytes and up to 257 values (more.go).
// Strings the code itself compares with, alone, with an arbitrary byte before or after, and after one another (words.go).
// Sizes include those at which the code itself makes a difference (constants of its comparisons, up to about 600).

import (
	"aitchverif/sym"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
	"github.com/go-andiamo/aitch/css"
	"github.com/go-andiamo/aitch/html"
	"github.com/go-andiamo/aitch/htmx"
	"github.com/go-andiamo/aitch/svg"
)

func init() {
	sym.Register("C04_wide", C04_wide)
	sym.Register("C04_values", C04_values)
	sym.Register("C04_merged", C04_merged)
	sym.Register("C04_named", C04_named)
	sym.Register("C04_many", C04_many)
}

// delimVal is one value of a delimited attribute, and its text.
func delimVal(k int, data map[string]any, i int) val {
	switch k {
	case 0:
		return rawVal(1)
	case 1:
		return rawVal(0)
	case 2:
		return val{nil, ""}
	case 3:
		b := sym.Bytes(0, 1)
		return val{func(*context.Context) []byte { return b }, string(b)}
	case 4:
		return val{aitch.DynamicValueKey("missing"), ""}
	case 5:
		b := raw(1)
		k := "k" + string(rune('0'+i))
		data[k] = b
		return val{aitch.DynamicValueKey(k), string(b)}
	case 6:
		b := raw(1)
		return val{aitch.NewConcatValue("", b, aitch.DynamicValueKey("missing")), string(b)}
	case 7:
		return val{aitch.NewConcatValue("", aitch.DynamicValueKey("missing")), ""}
	case 8:
		s := sym.String(0, 1)
		return val{s, refEscape(s)}
	case 9:
		b := sym.Bytes(0, 1)
		return val{aitch.NewConcatValue(aitch.NewConcatValue(), aitch.NewConcatValue(b, "")), string(b)}
	case 10:
		return val{aitch.NewConcatValue(), ""}
	default:
		b := raw(1)
		return val{aitch.Text(b), string(b)}
	}
}

// delimOK tells whether got is the values joined by the delimiter, with one more only where trailing values are empty.
func delimOK(got, pre, post string, vs []val, delim string) bool {
	want := ""
	some := false
	lastEmpty := false
	for _, v := range vs {
		if v.given == nil {
			continue
		}
		if v.text == "" {
			lastEmpty = true
			continue
		}
		if some {
			want += delim
		}
		some = true
		lastEmpty = false
		want += v.text
	}
	if got == pre+want+post {
		return true
	}
	return some && lastEmpty && got == pre+want+delim+post
}

func checkDelim(n aitch.Node, data map[string]any, pre, post string, vs []val, delim string) {
	got, err := render(n, data, nil)
	sym.Observe("out", []byte(got))
	sym.Assert(err == nil, "no error")
	sym.Assert(delimOK(got, pre, post, vs, delim), "one delimiter between neighbouring non-empty values")
}

// C04_values: any sequence of values.
func C04_values() {
	data := map[string]any{}
	d := raw(1 + sym.Choice(2))
	n := sym.Choice(5 + sym.Tier())
	var vs []val
	for i := 0; i < n; i++ {
		k := []int{12, 12, 12, 8, 5, 4}[n]
		if sym.Tier() == 1 {
			k = []int{12, 12, 12, 12, 6, 5}[n]
		}
		vs = append(vs, delimVal(sym.Choice(k), data, i))
	}
	if sym.Choice(2) == 0 {
		checkDelim(aitch.NewDelimitedAttribute([]byte("class"), d, givens(vs)...), data, ` class="`, `"`, vs, string(d))
	} else {
		checkDelim(aitch.Element("hr", aitch.DelimitedAttribute("class", string(d), givens(vs)...)), data, `<hr class="`, `">`, vs, string(d))
	}
}

// C04_merged: values spread over two attributes, the second possibly under a condition.
func C04_merged() {
	data := map[string]any{}
	d := raw(1)
	n := 2 + sym.Choice(2)
	cut := sym.Choice(n + 1)
	var vs []val
	for i := 0; i < n; i++ {
		vs = append(vs, delimVal(sym.Choice(8), data, i))
	}
	a := aitch.NewDelimitedAttribute([]byte("class"), d, givens(vs[:cut])...)
	b := aitch.NewDelimitedAttribute([]byte("class"), d, givens(vs[cut:])...)
	switch sym.Choice(4) {
	case 0:
		checkDelim(aitch.Element("hr", a, b), data, `<hr class="`, `">`, vs, string(d))
	case 1:
		t := sym.Bool()
		c := aitch.Conditional(func(*context.Context) bool { return t }, b)
		if !t {
			vs = vs[:cut]
		}
		checkDelim(aitch.Element("hr", a, c), data, `<hr class="`, `">`, vs, string(d))
	case 2:
		c := aitch.Conditional(func(*context.Context) bool { return true }, a, b)
		checkDelim(aitch.Element("p", c), data, `<p class="`, `"></p>`, vs, string(d))
	case 3:
		c := aitch.Collection(aitch.Conditional(func(*context.Context) bool { return true }, b))
		checkDelim(aitch.Element("p", c, a), data, `<p class="`, `"></p>`, vs, string(d))
	}
}

// C04_named: the list-like attributes of the packages.
func C04_named() {
	data := map[string]any{}
	var vs []val
	for i := 0; i < 3; i++ {
		vs = append(vs, delimVal([]int{0, 1, 2, 3, 4}[sym.Choice(5)], data, i))
	}
	g := givens(vs)
	switch sym.Choice(8) {
	case 0:
		checkDelim(html.Class(g...), data, ` class="`, `"`, vs, " ")
	case 1:
		checkDelim(html.Style(g...), data, ` style="`, `"`, vs, "; ")
	case 2:
		checkDelim(svg.Style(g...), data, ` style="`, `"`, vs, "; ")
	case 3:
		checkDelim(htmx.Trigger(g...), data, ` hx-trigger="`, `"`, vs, " ")
	case 4:
		checkDelim(htmx.Params(g...), data, ` hx-params="`, `"`, vs, " ")
	case 5:
		checkDelim(htmx.Inherit(g...), data, ` hx-inherit="`, `"`, vs, " ")
	case 6:
		checkDelim(htmx.Vars(g...), data, ` hx-vars="`, `"`, vs, ", ")
	case 7:
		want := "color:" + vs[0].text + "; width:" + vs[1].text + "; height:" + vs[2].text
		expect(html.P(css.Color(g[0]), css.Width(g[1]), css.Height(g[2])), data, nil, `<p style="`+want+`"></p>`, "css declarations")
	}
}

// C04_many: long value lists with runs of empty values.
func C04_many() {
	data := map[string]any{}
	sizes := []int{6, 8, 9, 17}
	n := sizes[sym.Choice(len(sizes))]
	d := raw(1)
	var vs []val
	pat := sym.Choice(6)
	for i := 0; i < n; i++ {
		k := 0
		switch pat {
		case 1:
			k = i % 2
		case 2:
			k = 1 - i%2
		case 3:
			if i > 0 && i < n-1 {
				k = 1
			}
		case 4:
			if i < n-1 {
				k = 4
			}
		case 5:
			k = []int{0, 2, 1, 5, 6, 7, 0}[i%7]
		}
		vs = append(vs, delimVal(k, data, i))
	}
	checkDelim(aitch.Element("hr", aitch.NewDelimitedAttribute([]byte("class"), d, givens(vs)...)), data, `<hr class="`, `">`, vs, string(d))
}

// C04_wide: values of every kind between two others.
func C04_wide() {
	x, y := wideVal(), wideVal()
	a := rawVal(1)
	var vs []val
	switch sym.Choice(4) {
	case 0:
		vs = []val{a, x, y}
	case 1:
		vs = []val{x, a, y}
	case 2:
		vs = []val{x, y, a}
	case 3:
		vs = []val{x, y}
	}
	g := givens(vs)
	cut := sym.Choice(len(vs))
	n := aitch.VoidElement("hr", html.Class(g[:cut]...), html.Class(g[cut:]...))
	got, err := render(n, wideData(nil), wideCargo)
	sym.Observe("out", []byte(got))
	sym.Assert(err == nil, "no error")
	sym.Assert(delimOK(got, `<hr class="`, `">`, vs, " "), "one delimiter between neighbouring non-empty values")
}
