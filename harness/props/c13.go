package props

// Bounds: every value of bool, int, int8..int64, uint, uint8..uint64 (the decimal text of strconv is the specification),
// every float32 and float64 (strconv's shortest 'g' text of that width; its digits are uninterpreted for symbolic floats,
// and exact for 22 chosen ones), bytes and strings of up to 3 arbitrary bytes, Stringers, functions nested twice, nil and 9
// unsupported types; 9 routes to the output.
// Also some 140 given values (wide.go), alone and several together.
// Also: two texts that differ in one arbitrary byte or in length, side by side and after each other (history.go).

import (
	"math"
	"strconv"

	"aitchverif/sym"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
	"github.com/go-andiamo/aitch/html"
)

func init() {
	sym.Register("C13_wide", C13_wide)
	sym.Register("C13_ints", C13_ints)
	sym.Register("C13_floats", C13_floats)
	sym.Register("C13_bytes", C13_bytes)
	sym.Register("C13_none", C13_none)
	sym.Register("C13_several", C13_several)
}

type intStringer int

func (i intStringer) String() string { return "<" + string([]byte{'0' + byte(i)}) + ">" }

const nRoutes = 10

// through renders a value through one of the routes; text is what the value stands for.
func through(i int, v any, text string, msg string) {
	key := aitch.DynamicValueKey("k")
	data := map[string]any{"k": v}
	switch i {
	case 0:
		expect(aitch.Text(v), nil, nil, text, msg+" in text")
	case 1:
		expect(aitch.Text("[", key, "]"), data, nil, "["+text+"]", msg+" from data")
	case 2:
		expect(aitch.Text("[", aitch.DynamicValueKey("."), "]"), nil, v, "["+text+"]", msg+" from cargo")
	case 3:
		expect(html.P(html.Id(v), v), nil, nil, `<p id="`+text+`">`+text+"</p>", msg+" in an element")
	case 4:
		expect(aitch.Comment(aitch.NewConcatValue("a", v, "b")), nil, nil, "<!--a"+text+"b-->", msg+" in a concatenated value")
	case 5:
		expect(aitch.Text("[", func() any { return v }, "]"), nil, nil, "["+text+"]", msg+" from a function")
	case 6:
		expect(aitch.Text(key), map[string]any{"k": func() any { return func() any { return v } }}, nil, text, msg+" from functions in data")
	case 7:
		expect(aitch.Iterate(func(*context.Context) []any { return []any{v} }, aitch.Text("(", aitch.DynamicValueKey("."), ")")), nil, nil, "("+text+")", msg+" from an item")
	case 8:
		expect(html.Br(html.Class("a", v, "b")), nil, nil, classText(text), msg+" in a delimited attribute")
	case 9:
		expect(aitch.Fragment(aitch.NewValue(v), aitch.PI("x", v)), nil, nil, text+text, msg+" in a fragment")
	}
}

func classText(text string) string {
	if text == "" {
		return `<br class="a b">`
	}
	return `<br class="a ` + text + ` b">`
}

// C13_ints: integers of every type over their whole range.
func C13_ints() {
	var v any
	var text string
	switch sym.Choice(11) {
	case 0:
		b := sym.Bool()
		v, text = b, "false"
		if b {
			text = "true"
		}
	case 1:
		x := int(sym.Int64())
		v, text = x, strconv.FormatInt(int64(x), 10)
	case 2:
		x := sym.Int8()
		v, text = x, strconv.FormatInt(int64(x), 10)
	case 3:
		x := sym.Int16()
		v, text = x, strconv.FormatInt(int64(x), 10)
	case 4:
		x := sym.Int32()
		v, text = x, strconv.FormatInt(int64(x), 10)
	case 5:
		x := sym.Int64()
		v, text = x, strconv.FormatInt(x, 10)
	case 6:
		x := uint(sym.Uint64())
		v, text = x, strconv.FormatUint(uint64(x), 10)
	case 7:
		x := sym.Byte()
		v, text = x, strconv.FormatUint(uint64(x), 10)
	case 8:
		x := sym.Uint16()
		v, text = x, strconv.FormatUint(uint64(x), 10)
	case 9:
		x := sym.Uint32()
		v, text = x, strconv.FormatUint(uint64(x), 10)
	case 10:
		x := sym.Uint64()
		v, text = x, strconv.FormatUint(x, 10)
	}
	through(sym.Choice(nRoutes), v, text, "integer")
}

// C13_floats: floats of both widths.
func C13_floats() {
	chosen := []float64{0, 1, -1.5, 0.1, 1.0 / 3, 1e20, 1e21, 1e-4, 1e-5, 1e-7, 123456789, 16777217, 3.4028234663852886e38, 1.1754943508222875e-38, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), math.NaN(), math.Copysign(0, -1), 100000, 0.3}
	i := sym.Choice(len(chosen) + 1)
	var v any
	var text string
	if sym.Choice(2) == 0 {
		var f float32
		if i < len(chosen) {
			f = float32(chosen[i])
		} else {
			f = sym.Float32()
		}
		v, text = f, strconv.FormatFloat(float64(f), 'g', -1, 32)
	} else {
		var f float64
		if i < len(chosen) {
			f = chosen[i]
		} else {
			f = sym.Float64()
		}
		v, text = f, strconv.FormatFloat(f, 'g', -1, 64)
	}
	through(sym.Choice(nRoutes), v, text, "float")
}

// C13_bytes: bytes verbatim, strings and Stringers escaped.
func C13_bytes() {
	n := sym.Choice(3 + sym.Tier())
	var v any
	var text string
	switch sym.Choice(6) {
	case 0:
		b := sym.Bytes(n, n)
		v, text = b, string(b)
	case 1:
		s := sym.String(min(n, 2), min(n, 2))
		v, text = s, refEscape(s)
	case 2:
		s := sym.String(1, 1)
		v, text = strer{s}, refEscape(s)
	case 3:
		s := sym.String(1, 1)
		v, text = &pstrer{s}, refEscape(s)
	case 4:
		v, text = intStringer(n), "&lt;"+string([]byte{'0' + byte(n)})+"&gt;"
	case 5:
		v, text = []byte(nil), ""
	}
	through(sym.Choice(nRoutes), v, text, "bytes")
}

// C13_none: nil and unsupported types render as nothing.
func C13_none() {
	var v any
	switch sym.Choice(10) {
	case 0:
		v = nil
	case 1:
		v = struct{ a int }{1}
	case 2:
		v = map[string]string{"a": "b"}
	case 3:
		v = []string{"a"}
	case 4:
		v = new(string)
	case 5:
		v = func() {}
	case 6:
		v = new(int)
	case 7:
		v = [2]byte{'a', 'b'}
	case 8:
		v = []any{"a"}
	case 9:
		v = func() any { return nil }
	}
	through(sym.Choice(nRoutes), v, "", "nothing")
}

// C13_several: values of different types side by side.
func C13_several() {
	a, b, c := sym.Int8(), sym.Uint16(), sym.Bool()
	s, r := sym.String(1, 1), raw(1)
	ct := "false"
	if c {
		ct = "true"
	}
	at, bt := strconv.FormatInt(int64(a), 10), strconv.FormatUint(uint64(b), 10)
	data := map[string]any{"a": a, "b": b, "c": c, "s": s, "r": r}
	dk := func(s string) aitch.DynamicValueKey { return aitch.DynamicValueKey(s) }
	want := at + bt + ct + refEscape(s) + string(r)
	switch sym.Choice(3) {
	case 0:
		expect(aitch.Text(a, b, c, s, r), nil, nil, want, "values in order")
	case 1:
		expect(aitch.Text(dk("a"), dk("b"), dk("c"), dk("s"), dk("r")), data, nil, want, "data in order")
	case 2:
		expect(html.P(aitch.NewConcatValue(a, dk("b"), c), s, dk("r")), data, nil, "<p>"+want+"</p>", "mixed in order")
	}
}

// C13_wide: pairs of values of every kind, as contents and as values.
func C13_wide() {
	x, y := wideContent(), wideContent()
	want := x.text + y.text
	data := wideData(nil)
	switch sym.Choice(4) {
	case 0:
		expect(aitch.Element("p", x.given, y.given), data, wideCargo, "<p>"+want+"</p>", "contents")
	case 1:
		expect(html.Br(html.Id(x.given, y.given)), data, wideCargo, `<br id="`+want+`">`, "attribute values")
	case 2:
		expect(aitch.Comment(x.given, aitch.NewConcatValue(y.given)), data, wideCargo, "<!--"+want+"-->", "comment values")
	case 3:
		expect(aitch.Text(aitch.NewConcatValue(x.given, y.given)), data, wideCargo, want, "concatenated values")
	}
}
