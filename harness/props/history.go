package props

// Harnesses over histories: the same operation on two inputs that are nearly the same, one after the other; nodes, templates and
// the generator used many times; nodes that contain themselves. What was rendered, built or looked up before is to leave no trace.

import (
	"bytes"
	"strconv"
	"strings"

	"aitchverif/sym"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
	"github.com/go-andiamo/aitch/css"
	"github.com/go-andiamo/aitch/html"
	"github.com/go-andiamo/aitch/htmx"
	"github.com/go-andiamo/aitch/svg"
)

func init() {
	sym.Register("C01_pairs", C01_pairs)
	sym.Register("C02_pairs", C02_pairs)
	sym.Register("C03_pairs", C03_pairs)
	sym.Register("C05_pairs", C05_pairs)
	sym.Register("C06_pairs", C06_pairs)
	sym.Register("C10_pairs", C10_pairs)
	sym.Register("C11_pairs", C11_pairs)
	sym.Register("C12_pairs", C12_pairs)
	sym.Register("C13_pairs", C13_pairs)
	sym.Register("C14_pairs", C14_pairs)
	sym.Register("C14_left", C14_left)
	sym.Register("C16_pairs", C16_pairs)
	sym.Register("C18_pairs", C18_pairs)
	sym.Register("C19_pairs", C19_pairs)
	sym.Register("C19_numbers", C19_numbers)
	sym.Register("C20_pairs", C20_pairs)
	sym.Register("C08_often", C08_often)
	sym.Register("C21_after", C21_after)
	sym.Register("C22_after", C22_after)
	sym.Register("C23_pairs", C23_pairs)
	sym.Register("C24_recursive", C24_recursive)
	sym.Register("C24_within", C24_within)
}

const nameBytes = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.:"

// pair is two strings of the same length that differ in one place only, where each has any byte of the alphabet (any byte, if
// there is none).
func pair(pattern, alphabet string) (string, string) {
	n := max(1, sym.Size(300, 1, 3, 8, 9, 10, 17, 25, 33, 65))
	at := []int{n - 1, n / 2, 0}[sym.Choice(min(n, 3))]
	s := []byte(strings.Repeat(pattern, n/len(pattern)+1)[:n])
	t := append([]byte(nil), s...)
	var x string
	if alphabet == "" {
		x = sym.String(2, 2)
	} else {
		x = sym.StringOf(2, 2, alphabet)
	}
	sym.Assume(x[0] != x[1])
	s[at], t[at] = x[0], x[1]
	return string(s), string(t)
}

// C01_pairs: each is written as itself, escaped.
func C01_pairs() {
	s, t := pair([]string{"<abcdef>", "abcdefgh"}[sym.Choice(2)], "")
	how := sym.Choice(6)
	one := func(s, msg string) {
		e := refEscape(s)
		switch how {
		case 0:
			expect(aitch.Text(s), nil, nil, e, msg)
		case 1:
			expect(html.Br(html.Alt(s), html.Class(s)), nil, nil, `<br alt="`+e+`" class="`+e+`">`, msg)
		case 2:
			expect(aitch.Text(key("k"), key(".")), map[string]any{"k": s}, strer{s}, e+e, msg)
		case 3:
			expect(aitch.Imperative(func(ic aitch.ImperativeContext) error { ic.WriteString(s); return nil }), nil, nil, e, msg)
		case 4:
			expect(aitch.Collection(aitch.Comment(s), aitch.Fragment(s)), nil, nil, "<!--"+e+"-->"+e, msg)
		case 5:
			expect(aitch.Collection(html.P(css.Color(s), htmx.Vals(aitch.NewConcatValue(s, css.Px(s)))), svg.Title(s)), nil, nil, `<p style="color:`+e+`" hx-vals="`+e+e+`px"></p>`+"<title>"+e+"</title>", msg)
		}
	}
	n := aitch.Text(s)
	one(s, "one string")
	one(t, "another one, nearly the same")
	one(s, "the first again")
	expect(n, nil, nil, refEscape(s), "one built before")
}

// C02_pairs: each name is written as given.
func C02_pairs() {
	s, t := pair("abcdefgh", nameBytes)
	one := func(s string) aitch.Node {
		return aitch.Collection(aitch.Element("a"+s, aitch.Attribute("a"+s, "1"), aitch.BooleanAttribute("b"+s), s), aitch.VoidElement("a"+s, aitch.DelimitedAttribute("a"+s, s, "x", "y")),
			aitch.PI(s, s), aitch.NewElement([]byte(s), aitch.NewAttribute([]byte(s), s)), aitch.Fragment([]byte(s)))
	}
	spec := func(s string) string {
		return "<a" + s + " a" + s + `="1" b` + s + ">" + s + "</a" + s + "><a" + s + " a" + s + `="x` + s + `y"><!` + s + " " + s + ">\n<" + s + " " + s + `="` + s + `"></` + s + ">" + s
	}
	a := one(s)
	b := one(t)
	sym.Assert(aitch.Element("a"+s).Name() == "a"+s && aitch.Attribute("a"+t).Name() == "a"+t, "the names are those given")
	expect(b, nil, nil, spec(t), "one")
	expect(a, nil, nil, spec(s), "the one built before")
	expect(one(s), nil, nil, spec(s), "built again")
}

// C03_pairs: two names are two attributes.
func C03_pairs() {
	s, t := pair("abcdefgh", nameBytes)
	s, t = "a"+s, "a"+t
	v := rawVal(1)
	void := sym.Choice(2) == 1
	el := func(args ...any) aitch.Node {
		if void {
			return aitch.VoidElement("p", args...)
		}
		return aitch.NewElement([]byte("p"), args...)
	}
	end := "></p>"
	if void {
		end = ">"
	}
	switch sym.Choice(3) {
	case 0:
		expect(el(aitch.Attribute(s, "1"), aitch.Attribute(t, v.given), aitch.Attribute(s, v.given, "2")), nil, nil, "<p "+s+`="`+v.text+`2" `+t+`="`+v.text+`"`+end, "plain attributes")
	case 1:
		d := func(n string, v ...any) aitch.Node { return aitch.DelimitedAttribute(n, ";", v...) }
		expect(el(d(s, "1"), d(t, v.given), d(s, v.given), d(t, "x")), nil, nil, "<p "+s+`="1;`+v.text+`" `+t+`="`+v.text+`;x"`+end, "delimited attributes")
	case 2:
		expect(el(aitch.Conditional(yes, aitch.Attribute(s, "1"), aitch.Attribute(t, v.given)), aitch.BooleanAttribute(t)), nil, nil, "<p "+t+`="`+v.text+`" `+s+`="1"`+end, "attributes under conditions")
	}
}

// C05_pairs: conditions over keys that are nearly the same.
func C05_pairs() {
	s, t := pair("abcdefgh", nameBytes)
	v := rawVal(1)
	p, q := sym.Bool(), sym.Bool()
	attrs, text := "", ""
	if p {
		attrs += " a" + s + `="` + v.text + `"`
		text += "1"
	}
	if q {
		attrs += " a" + t + `="` + v.text + `"`
		text += "2"
	}
	n := aitch.Element("p", aitch.When(key(s), aitch.Attribute("a"+s, v.given), aitch.Text(1)), aitch.When(key(t), aitch.Attribute("a"+t, v.given), aitch.Text(2)))
	expect(n, map[string]any{s: p, t: q}, nil, "<p"+attrs+">"+text+"</p>", "each by its own condition")
	if !p {
		expect(n, map[string]any{s: true}, nil, "<p a"+s+`="`+v.text+`">1</p>`, "each by its own condition, again")
	}
}

// C06_pairs: each key for itself.
func C06_pairs() {
	s, t := pair("abcdefgh", []string{nameBytes, ""}[sym.Choice(2)])
	sym.Assume(s[0] != '!' && t[0] != '!')
	d := map[string]any{s: 1, "a longer key": true}
	if sym.Choice(2) == 0 {
		d[t] = false
	}
	var wantS, wantT string
	x := aitch.Text("x")
	a, b := aitch.When(key(s), x), aitch.When(key(t), x)
	na, nb := aitch.When(key("!"+s), x), aitch.When(key("!"+t), x)
	wantS, wantT = "x", ""
	expect(aitch.Collection(a, aitch.Text("|"), b), d, nil, wantS+"|"+wantT, "present and not")
	expect(aitch.Collection(na, aitch.Text("|"), nb), d, nil, "|x", "absent and not")
	expect(aitch.Collection(a, aitch.Text("|"), b), map[string]any{t: "y"}, nil, "|x", "the other way round")
	expect(aitch.Collection(na, aitch.Text("|"), nb), map[string]any{t: "y"}, nil, "x|", "the other way round, absent")
}

// C10_pairs: each iteration over its own key.
func C10_pairs() {
	s, t := pair("abcdefgh", []string{nameBytes, ""}[sym.Choice(2)])
	v := rawVal(1)
	d := map[string]any{s: []any{v.given, "1"}, "e": []int{9}}
	sym.Assume(s != "e" && t != "e")
	more := ""
	if sym.Choice(2) == 0 {
		d[t] = []string{"2"}
		more = "[2]"
	}
	in := aitch.Text([]byte("["), key("."), []byte("]"))
	a, b := aitch.IterateKey(s, in), aitch.IterateKey(t, in)
	runIter(aitch.Collection(a, aitch.Text("|"), b), d, "["+v.text+"][1]|"+more, "each key its own items")
	runIter(aitch.Collection(a, aitch.Text("|"), b), map[string]any{t: []any{3}, "e": 1}, "|[3]", "with other data")
	runIter(aitch.Collection(b, aitch.Text("|"), a), d, more+"|["+v.text+"][1]", "again")
}

// C11_pairs: each name by itself.
func C11_pairs() {
	s, t := pair("abcdefgh", "")
	s, t = "a"+s, "a"+t
	ok := func(s string) bool {
		for i := 0; i < len(s); i++ {
			c := s[i]
			if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '.' || c == '_' || c == '-' || c == ':') {
				return false
			}
		}
		return true
	}
	for _, n := range []string{s, t, s} {
		good := ok(n)
		sym.Assert((aitch.Element(n) != nil) == good, "element: exactly when valid")
		sym.Assert((aitch.VoidElement(n) != nil) == good, "void element: exactly when valid")
		sym.Assert((aitch.Attribute(n) != nil) == good, "attribute: exactly when valid")
		sym.Assert((aitch.BooleanAttribute(n) != nil) == good, "boolean attribute: exactly when valid")
		sym.Assert((aitch.DelimitedAttribute(n, ";") != nil) == good, "delimited attribute: exactly when valid")
	}
}

// C12_pairs: each key its own entry.
func C12_pairs() {
	s, t := pair("abcdefgh", []string{nameBytes, ""}[sym.Choice(2)])
	sym.Assume(s != "." && t != ".")
	v, w := rawVal(1), rawVal(1)
	d := map[string]any{s: v.given}
	second := ""
	if sym.Choice(2) == 0 {
		d[t] = w.given
		second = w.text
	}
	i := sym.Choice(nPositions)
	a, pre, post := spot(i, key(s))
	b, _, _ := spot(i, key(t))
	expect(aitch.Collection(a, b), d, nil, pre+v.text+post+pre+second+post, "each its own value")
	expect(aitch.Collection(a, b), map[string]any{t: v.given}, nil, pre+post+pre+v.text+post, "with other data")
	expect(aitch.Collection(b, a), d, nil, pre+second+post+pre+v.text+post, "again")
}

var numbers = []struct {
	v any
	s string
}{
	{1, "1"}, {257, "257"}, {int8(1), "1"}, {int8(-1), "-1"}, {uint8(255), "255"}, {int16(-1), "-1"}, {uint16(65535), "65535"}, {int32(-1), "-1"},
	{uint32(4294967295), "4294967295"}, {int64(-1), "-1"}, {uint64(18446744073709551615), "18446744073709551615"}, {int64(4294967297), "4294967297"},
	{uint64(1), "1"}, {65537, "65537"}, {0, "0"}, {-0.0, "0"}, {0.1, "0.1"}, {float32(0.1), "0.1"}, {float64(float32(0.1)), "0.10000000149011612"},
	{1.0, "1"}, {float32(1), "1"}, {1.5, "1.5"}, {float32(1.5), "1.5"}, {true, "true"}, {false, "false"}, {"1", "1"}, {"true", "true"}, {"", ""}, {[]byte("1"), "1"},
	{[]byte{}, ""}, {100, "100"}, {1000, "1000"}, {99, "99"}, {-100, "-100"}, {256, "256"}, {-256, "-256"}, {1e21, "1e+21"}, {float32(1e21), "1e+21"},
	{int64(1e18), "1000000000000000000"}, {1e18, "1e+18"}, {strer{"1"}, "1"}, {strer{"<"}, "&lt;"}, {"<", "&lt;"}, {[]byte("<"), "<"}, {nil, ""}, {uint(7), "7"}, {uint(0), "0"},
}

// C13_pairs: a value after another one of another type or of the same bits.
func C13_pairs() {
	i, j := sym.Choice(len(numbers)), sym.Choice(len(numbers))
	a, b := numbers[i], numbers[j]
	n := aitch.Text(a.v, []byte("|"), b.v)
	expect(aitch.Text(b.v), nil, nil, b.s, "one")
	expect(n, nil, nil, a.s+"|"+b.s, "two")
	k := html.Br(html.Id(key("a"), []byte("|"), key("b"), []byte("|"), key(".")))
	expect(k, map[string]any{"a": a.v, "b": b.v}, a.v, `<br id="`+a.s+"|"+b.s+"|"+a.s+`">`, "as data")
	expect(k, map[string]any{"a": b.v, "b": a.v}, b.v, `<br id="`+b.s+"|"+a.s+"|"+b.s+`">`, "as data, the other way round")
}

// C14_pairs: names that are nearly the same, started and ended.
func C14_pairs() {
	s, t := pair("abcdefgh", nameBytes)
	v := rawVal(1)
	expect(aitch.Imperative(func(ic aitch.ImperativeContext) error {
		ic.Start([]byte(s), false, aitch.NewAttribute([]byte(s), v.given), aitch.NewAttribute([]byte(t), "1"))
		ic.Start([]byte(t), false, aitch.NewDelimitedAttribute([]byte(s), []byte(";"), "1"), aitch.NewDelimitedAttribute([]byte(t), []byte(";"), "2"), aitch.NewDelimitedAttribute([]byte(s), []byte(";"), v.given))
		ic.Start([]byte(s), true)
		ic.End()
		ic.End()
		ic.Start([]byte(t), false)
		ic.End()
		return nil
	}), nil, nil, "<"+s+" "+s+`="`+v.text+`" `+t+`="1"><`+t+" "+s+`="1;`+v.text+`" `+t+`="2"><`+s+"></"+t+"></"+s+"><"+t+"></"+t+">", "each name closes its own")
}

// C14_left: what one imperative node leaves open is not closed by another, nor by its own next render.
func C14_left() {
	open := sym.Size(60, 1, 2, 3, 9)
	v := raw(1)
	a := aitch.Imperative(func(ic aitch.ImperativeContext) error {
		for i := 0; i < open; i++ {
			ic.Start([]byte("a"+strconv.Itoa(i)), false)
		}
		ic.WriteRaw(v)
		return nil
	})
	way := sym.Choice(2)
	b := aitch.Imperative(func(ic aitch.ImperativeContext) error {
		ic.WriteRaw([]byte("["))
		if way == 0 {
			ic.End()
		}
		ic.Start([]byte("b"), false)
		ic.End()
		ic.End()
		ic.EndAll()
		ic.WriteRaw([]byte("]"))
		return nil
	})
	want := ""
	for i := 0; i < open; i++ {
		want += "<a" + strconv.Itoa(i) + ">"
	}
	want += string(v)
	bw := "[<b></b>]"
	switch sym.Choice(4) {
	case 0:
		expect(a, nil, nil, want, "left open")
		expect(b, nil, nil, bw, "nothing of another node is closed")
		expect(a, nil, nil, want, "left open again")
	case 1:
		expect(aitch.Collection(a, b, a, b), nil, nil, want+bw+want+bw, "nodes after each other")
	case 2:
		expect(aitch.Imperative(func(ic aitch.ImperativeContext) error {
			ic.Start([]byte("o"), false)
			ic.WriteNodes(a, b)
			ic.EndAll()
			ic.WriteNodes(b)
			return nil
		}), nil, nil, "<o>"+want+bw+"</o>"+bw, "nodes within another")
	case 3:
		failed := aitch.Imperative(func(ic aitch.ImperativeContext) error {
			ic.Start([]byte("f"), false)
			return errOwn
		})
		got, err := render(failed, nil, nil)
		sym.Assert(err == errOwn && got == "<f>", "the error is returned")
		expect(b, nil, nil, bw, "nothing of a failed one is closed")
	}
}

// C16_pairs: each key its own value.
func C16_pairs() {
	s, t := pair("abcdefgh", nameBytes)
	v := letters(1)
	m := map[string]any{s: v}
	has := sym.Choice(2) == 0
	if has {
		m[t] = 5
	}
	ctx := context.New(nil, nil, nil)
	switch sym.Choice(4) {
	case 0:
		ctx.Data = m
	case 1:
		ctx.Cargo = m
	case 2:
		ctx.Cargo = &m
	case 3:
		ctx.Data, ctx.Cargo = m, map[string]any{t: v, s: 5}
	}
	both := ctx.Data != nil && ctx.Cargo != nil
	{
		g, ok := try[string](ctx, s)
		sym.Assert(ok && g == v, "the string")
		n, ok := try[int](ctx, t)
		sym.Assert(ok == has && (!ok || n == 5), "the number, if it is there")
		g, ok = try[string](ctx, t)
		sym.Assert(ok == both && (!ok || g == v), "not the string of another key")
		n, ok = try[int](ctx, s)
		sym.Assert(ok == both && (!ok || n == 5), "not the number of another key")
	}
	g, ok := try[string](context.New(nil, map[string]any{t: "other"}, nil), t)
	sym.Assert(ok && g == "other", "of another context")
	_, ok = try[string](context.New(nil, nil, nil), s)
	sym.Assert(!ok, "nothing in an empty context")
}

// C18_pairs: each name its own attribute.
func C18_pairs() {
	s, t := pair("abcdefgh", nameBytes)
	v := rawVal(1)
	for i, f := range []func(string, ...any) aitch.Node{html.Data, html.Aria, htmx.On} {
		p := []string{"data-", "aria-", "hx-on:"}[i]
		a := f(s, v.given)
		b := f(t, "2")
		sym.Assert(a.Name() == p+s && b.Name() == p+t, "the names")
		expect(html.P(b, a), nil, nil, "<p "+p+t+`="2" `+p+s+`="`+v.text+`"></p>`, "two attributes")
		expect(html.P(a, f(s, "3"), b), nil, nil, "<p "+p+s+`="3" `+p+t+`="2"></p>`, "the one again")
	}
}

// C19_pairs: each value as it is.
func C19_pairs() {
	s, t := pair([]string{"0.5 ab;", "<abcdef>"}[sym.Choice(2)], "")
	es, et := refEscape(s), refEscape(t)
	a := html.P(css.Color(s), css.Width(css.Px(s)))
	b := html.P(css.Color(t), css.Width(css.Px(t)))
	expect(b, nil, nil, `<p style="color:`+et+"; width:"+et+`px"></p>`, "one")
	expect(a, nil, nil, `<p style="color:`+es+"; width:"+es+`px"></p>`, "the other")
	expect(html.P(css.Color(s), css.Color(t), css.Color(s), css.Height(s), css.Height(css.Em(t), s)), nil, nil,
		`<p style="color:`+es+"; color:"+et+"; color:"+es+"; height:"+es+"; height:"+et+"em"+es+`"></p>`, "the same property with several values")
}

// C19_numbers: numbers are given as they are, whatever the unit or the property they stand with.
func C19_numbers() {
	n := append(numbers[:len(numbers):len(numbers)], moreNumbers...)
	a := n[sym.Choice(len(n))]
	if sym.Choice(2) == 0 {
		for _, u := range units {
			expect(aitch.Text(u.fn(a.v), "|", u.fn("-", a.v), "|", u.fn(a.v, a.v)), nil, nil, a.s+u.name+"|-"+a.s+u.name+"|"+a.s+a.s+u.name, "the number and its unit")
			expect(css.Width(u.fn(a.v)), nil, nil, ` style="width:`+a.s+u.name+`"`, "the number and its unit as the value of a property")
			expect(aitch.Text(u.fn(key("n"))), map[string]any{"n": a.v}, nil, a.s+u.name, "the number from data")
		}
		return
	}
	for _, p := range cssProperties {
		expect(p.fn(a.v), nil, nil, ` style="`+p.name+":"+a.s+`"`, "a number alone")
		expect(html.B(p.fn(a.v, " ", a.v)), nil, nil, `<b style="`+p.name+":"+a.s+" "+a.s+`"></b>`, "two of them")
	}
}

// moreNumbers are more numbers with their texts.
var moreNumbers = []struct {
	v any
	s string
}{
	{0.5, "0.5"}, {-0.5, "-0.5"}, {float32(0.5), "0.5"}, {0.25, "0.25"}, {0.999, "0.999"}, {1e-3, "0.001"}, {1e-7, "1e-07"}, {12.34, "12.34"}, {100.0, "100"},
	{1000.5, "1000.5"}, {1000000, "1000000"}, {1234567, "1234567"}, {1e6, "1e+06"}, {-1, "-1"}, {-1.0, "-1"}, {int64(-9223372036854775808), "-9223372036854775808"},
	{"0", "0"}, {"0.5", "0.5"}, {"0px", "0px"}, {".5", ".5"}, {"-0", "-0"}, {"1e3", "1e3"}, {"050", "050"}, {"+1", "+1"}, {"auto", "auto"}, {"1 ", "1 "}, {" 1", " 1"}, {"1.0", "1.0"}, {"1.50", "1.50"},
}

// C20_pairs: two headers, each once.
func C20_pairs() {
	s, t := pair("Abcdefgh", nameBytes)
	v := rawVal(1)
	es := []entry{{s, v, 0}, {t, val{2, "2"}, 0}}
	maps := 1 + sym.Choice(2)
	es[1].in = maps - 1
	js := sym.Choice(2) == 1
	expect(headersNode(js, headerMaps(maps, es)), nil, nil, ` hx-headers="`+jsPrefix(js)+headersText(es)+`"`, "both headers")
	one := []entry{{t, v, 0}}
	expect(headersNode(js, headerMaps(1, one)), nil, nil, ` hx-headers="`+jsPrefix(js)+headersText(one)+`"`, "one of them afterwards")
}

// C08_often: the same however often it is rendered.
func C08_often() {
	n := sym.Size(300, 3, 9, 17, 33, 70)
	node, spec := shape(sym.Choice(nShapes), raw(1), []byte("b"))
	for i := 0; i < n; i++ {
		k := "k" + strconv.Itoa(i)
		got, err := render(node, shapeData(k, i%2 == 0), i)
		sym.Assert(err == nil && got == spec(k, i%2 == 0), "every render by its own data")
	}
	k, t := letters(1), sym.Bool()
	expect(node, shapeData(k, t), nil, spec(k, t), "the last render")
}

// C21_after: a document after another one is generated as if it were the first.
func C21_after() {
	docs := []string{
		`<input disabled="x" checked=checked>`, `<input disabled checked>`, `<p>`, `</p>text`, `<div><p>a</div>b`, `<svg viewBox="0 0 1 1"><circle r=1 /></svg>`,
		`<x-y z=1 z=2>`, `<br/><br>`, `<!-- c --><!DOCTYPE html>`, `<a href="&lt;">&amp;"`, `<P ID=a CLASS=b>`, `<script>"<b>"</script>`, "<pre>\n\t</pre>", "",
	}
	isSvg, isSvg2 := sym.Choice(2) == 1, sym.Choice(2) == 1
	a := docs[sym.Choice(len(docs))]
	b := docs[sym.Choice(len(docs))]
	var first, again bytes.Buffer
	sym.Assert(generator(isSvg)(strings.NewReader(b), &first) == nil, "no error")
	if sym.Choice(2) == 0 {
		rebuilds(a, isSvg2)
	} else {
		_ = generator(isSvg2)(strings.NewReader(a), &failWriter{failAt: 3, err: errWrite})
	}
	rebuilds(b, isSvg)
	sym.Assert(generator(isSvg)(strings.NewReader(b), &again) == nil, "no error")
	sym.Assert(first.String() == again.String(), "the same code again")
}

// C22_after: executions after each other, each with its own data and cargo, or none.
func C22_after() {
	t := aitch.MustNewTemplate("t", "{{a .}}-{{b .}}-{{c .}}", aitch.NodeMap{
		"a": aitch.Text(key("k"), key(".")),
		"b": aitch.When("k", aitch.Text("K")),
		"c": aitch.IterateKey("l", aitch.Text("(", key("."), ")")),
	})
	n := sym.Size(60, 2, 5, 17)
	one := func(i int, v string) {
		var d map[string]any
		var cargo any
		want := ""
		switch i {
		case 0:
			want = "--"
		case 1:
			d = map[string]any{"k": v, "l": []any{v, 1}}
			want = refEscape(v) + "-K-(" + refEscape(v) + ")(1)"
		case 2:
			cargo = v
			want = refEscape(v) + "--"
		case 3:
			d = map[string]any{}
			want = "--"
		case 4:
			d = map[string]any{"l": []string{v}}
			cargo = v + "c"
			want = refEscape(v) + "c--(" + refEscape(v) + ")"
		case 5: // fails
			w := &failWriter{failAt: 0, err: errWrite}
			sym.Assert(t.Execute(w, map[string]any{"k": v, "l": []any{v}}, v) != nil, "the write error is reported")
			return
		}
		executed(t, d, cargo, want, "every execution by its own data and cargo")
	}
	for i := 0; i < n; i++ {
		one(1+i%2, "v"+strconv.Itoa(i))
	}
	one(sym.Choice(6), "y")
	one(sym.Choice(6), sym.StringOf(1, 1, "d<"))
	one(sym.Choice(6), "z")
}

// C23_pairs: documents one after the other.
func C23_pairs() {
	s, t := pair("<abcdef>", "")
	mk := func(s string) aitch.Node {
		return html.Document(s, []any{html.TitleElement(s), html.Meta(html.Name(s))}, []any{html.P(s), s})
	}
	spec := func(s string) string {
		e := refEscape(s)
		return "<!DOCTYPE html>\n<html lang=\"" + e + "\"><head><title>" + e + `</title><meta name="` + e + `"></head><body><p>` + e + "</p>" + e + "</body></html>"
	}
	a, b := mk(s), mk(t)
	expect(b, nil, nil, spec(t), "one")
	expect(a, nil, nil, spec(s), "the other")
	expect(aitch.Collection(b, a), nil, nil, spec(t)+spec(s), "both")
}

// C24_recursive: nodes that contain themselves, to a depth given by the render's own context.
func C24_recursive() {
	depth := sym.Size(20, 1, 2, 3, 5)
	v := rawVal(1)
	var self aitch.Node
	level := 0
	wrap := sym.Choice(nFaultWraps - 1)
	in := func() aitch.Node { return faultWrap(wrap, self, aitch.Text(v.given)) }
	kind := sym.Choice(4)
	switch kind {
	case 0:
		self = aitch.ContentCollect(func(ctx *context.Context) []aitch.Node {
			if level++; level > depth {
				level--
				return nil
			}
			return []aitch.Node{aitch.Text("("), in(), aitch.Text(")"), leave(&level)}
		})
	case 1:
		self = aitch.Imperative(func(ic aitch.ImperativeContext) error {
			if level++; level <= depth {
				ic.Start([]byte("i"), false)
				ic.WriteNodes(in())
				ic.End()
			}
			level--
			return nil
		})
	case 2:
		self = aitch.Iterate(func(ctx *context.Context) []any {
			if level < depth {
				return []any{1, 2}[:1+(level+1)%2]
			}
			return nil
		}, aitch.Imperative(func(ic aitch.ImperativeContext) error {
			level++
			ic.WriteString("(")
			ic.WriteNodes(in())
			ic.WriteString(")")
			level--
			return nil
		}))
	case 3:
		self = aitch.IterateYield(func(ctx *context.Context, yield func(any)) {
			if level < depth {
				yield(1)
			}
			if level == depth-1 {
				yield(2)
			}
		}, aitch.Text("["), aitch.Imperative(func(ic aitch.ImperativeContext) error {
			level++
			ic.WriteNodes(in())
			level--
			return nil
		}), aitch.Text("]"))
	}
	var spec func(l int) string
	spec = func(l int) string {
		if l >= depth {
			return ""
		}
		inner := spec(l+1) + v.text
		switch wrap {
		case 2, 3, 4:
			inner += inner
		case 7:
			inner = "<p>" + inner + "</p>"
		}
		switch kind {
		case 0:
			return "(" + inner + ")"
		case 1:
			return "<i>" + inner + "</i>"
		case 2:
			if (l+1)%2 == 1 {
				return "(" + inner + ")(" + inner + ")"
			}
			return "(" + inner + ")"
		}
		if l == depth-1 {
			return "[" + inner + "][" + inner + "]"
		}
		return "[" + inner + "]"
	}
	if depth > 5 && (wrap >= 2 && wrap <= 4 || kind == 2) {
		return // doubles with every level
	}
	data := map[string]any{"l": []any{1, 2}}
	expect(self, data, nil, spec(0), "a node within itself")
	expect(self, data, nil, spec(0), "again")
}

// leave is a node that writes nothing and leaves a level.
func leave(level *int) aitch.Node {
	return aitch.Text(func(*context.Context) []byte { *level--; return nil })
}

// C24_within: items yielded while an item is being rendered, or by other means than a plain loop.
func C24_within() {
	v := rawVal(1)
	depth := sym.Size(20, 1, 2, 3)
	var y func(any)
	level := 0
	kind := sym.Choice(5)
	n := aitch.IterateYield(func(ctx *context.Context, yield func(any)) {
		y = yield
		switch kind {
		case 0:
			yield("a")
		case 1:
			yield("a")
			yield("a")
		case 2:
			func() {
				defer yield("a")
				yield("a")
			}()
		case 3:
			for i, s := range []func(any){yield, y, yield} {
				if i > 0 {
					s("a")
				}
			}
		case 4:
			func() {
				defer func() { _ = recover(); yield("a") }()
				panic("x")
			}()
		}
	}, html.B(v.given), aitch.Imperative(func(ic aitch.ImperativeContext) error {
		if level++; level < depth {
			y("b")
			ic.WriteString("-")
			y("c")
		}
		level--
		return nil
	}))
	var one func(l int) string
	one = func(l int) string {
		s := "<b>" + v.text + "</b>"
		if l+1 < depth {
			s += one(l+1) + "-" + one(l+1)
		}
		return s
	}
	if depth > 6 {
		return // doubles with every level
	}
	want := one(0)
	if kind > 0 && kind < 4 {
		want += want
	}
	expect(html.P(n), nil, nil, "<p>"+want+"</p>", "every item is rendered where it is yielded")
}
