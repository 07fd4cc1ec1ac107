package props

// Bounds: keys of up to 2 arbitrary bytes looked up in data maps of up to 2 arbitrary keys, beside a cargo (bytes, map, struct,
// pointer, nil) or an enclosing context that has entries of that name; 6 items of different kinds in the 3 iterations; 10 positions (text, attribute,
// delimited attribute, comment, fragment, processing instruction, concatenated value, nested concatenation); 3 dynamic
// values in one node; three renders of one node with different data, cargo and function results; a nil data map.
// Also values of every kind (wide.go) reached through data, cargo and functions.
// Up to 130 keys of up to 303 bytes in one node (more.go).
// Strings the code itself compares with, alone, with an arbitrary byte before or after, and after one another (words.go).
// Sizes include those at which the code itself makes a difference (constants of its comparisons, up to about 600).
// Also: two texts that differ in one arbitrary byte or in length, side by side and after each other (history.go).
// Also: cargoes, data and keys that nearly are what is looked for (lures.go).

import (
	"aitchverif/sym"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
	"github.com/go-andiamo/aitch/html"
)

func init() {
	sym.Register("C12_wide", C12_wide)
	sym.Register("C12_lookup", C12_lookup)
	sym.Register("C12_positions", C12_positions)
	sym.Register("C12_items", C12_items)
	sym.Register("C12_fresh", C12_fresh)
	sym.Register("C12_order", C12_order)
	sym.Register("C12_function", C12_function)
}

// spot places a dynamic value; the result is what surrounds its text.
func spot(i int, v any) (aitch.Node, string, string) {
	switch i {
	case 0:
		return aitch.Text("a", v, "b"), "a", "b"
	case 1:
		return html.Br(html.Id("a", v, "b")), `<br id="a`, `b">`
	case 2:
		return html.Br(html.Class(v)), `<br class="`, `">`
	case 3:
		return aitch.Comment("a", v), "<!--a", "-->"
	case 4:
		return aitch.Fragment(v, "b"), "", "b"
	case 5:
		return aitch.PI("x", v), "<!x ", ">\n"
	case 6:
		return html.P(aitch.NewConcatValue("a", v, "b")), "<p>a", "b</p>"
	case 7:
		return aitch.Text(aitch.NewConcatValue("a", aitch.NewConcatValue(v), aitch.NewValue("b"))), "a", "b"
	case 8:
		return html.P(v, html.Br()), "<p>", "<br></p>"
	}
	return aitch.Text(aitch.NewValue(v)), "", ""
}

const nPositions = 10

// C12_lookup: the entry of exactly that name.
func C12_lookup() {
	kn := sym.Choice(3)
	key := sym.String(kn, kn)
	k1 := sym.StringOf(1, 1, "abc.!A ")
	k2n := sym.Choice(3)
	k2 := sym.StringOf(k2n, k2n, "abc.!A ")
	v1, v2, c := raw(1), raw(1), any(raw(1))
	ct := ""
	switch sym.Choice(5) {
	case 0:
		ct = string(c.([]byte))
	case 1: // a cargo with entries of its own, that only Get looks into
		c = map[string]any{key: "cargo"}
	case 2:
		c = struct{ A, B string }{"cargo", "cargo"}
	case 3:
		c = &struct{ A, B string }{"cargo", "cargo"}
	case 4:
		c = nil
	}
	data := map[string]any{k2: v2}
	data[k1] = v1
	want := ""
	if key == "." {
		want = ct
	} else if key == k1 {
		want = string(v1)
	} else if key == k2 {
		want = string(v2)
	}
	n := aitch.Text("[", aitch.DynamicValueKey(key), "]")
	if sym.Choice(2) == 0 {
		expect(n, data, c, "["+want+"]", "the entry of exactly that name")
		return
	}
	// an enclosing context has all entries, but is not looked into
	parent := context.New(nil, map[string]any{key: "parent", ".": "parent"}, "parent")
	ctx := context.New(nil, data, c)
	ctx.Parent = parent
	expectIn(n, ctx, "["+want+"]", "the entry of exactly that name in this context")
}

// C12_items: within an iteration, the data and cargo of the item.
func C12_items() {
	a, b, c := raw(1), raw(1), raw(1)
	k := dynKeys[sym.Choice(len(dynKeys))]
	items := []any{map[string]any{"own": a}, map[string]any{}, "i", map[string]any{"own": b, "out": nil}, nil, map[string]string{"own": "m"}}
	data := map[string]any{"out": c, "items": items}
	texts := map[string][]string{
		"own": {string(a), "", "", string(b), "", ""},
		"out": {"", "", string(c), "", string(c), string(c)},
		".":   {"", "", "i", "", "", ""},
		"no":  {"", "", "", "", "", ""},
	}
	n, pre, post := spot(sym.Choice(nPositions), aitch.DynamicValueKey(k))
	want := ""
	for _, t := range texts[k] {
		want += pre + t + post
	}
	var it aitch.Node
	switch sym.Choice(3) {
	case 0:
		it = aitch.IterateKey("items", n)
	case 1:
		it = aitch.Iterate(func(*context.Context) []any { return items }, n)
	case 2:
		it = aitch.IterateYield(func(_ *context.Context, yield func(any)) {
			for _, i := range items {
				yield(i)
			}
		}, n)
	}
	expect(it, data, "cargo", want, "the value of the item's context")
}

var dynKeys = []string{"own", "out", ".", "no"}

// C12_positions: it makes no difference where the value stands.
func C12_positions() {
	v, c := raw(1), raw(2)
	s := sym.String(1, 1)
	data := map[string]any{"k": v, "s": s, "n": nil, "u": []string{"x"}, "": "e"}
	key, text := any(nil), ""
	switch sym.Choice(9) {
	case 0:
		key, text = aitch.DynamicValueKey("k"), string(v)
	case 1:
		key, text = aitch.DynamicValueKey("s"), refEscape(s)
	case 2:
		key, text = aitch.DynamicValueKey("."), string(c)
	case 3:
		key = aitch.DynamicValueKey("missing")
	case 4:
		key = aitch.DynamicValueKey("n")
	case 5:
		key = aitch.DynamicValueKey("u")
	case 6:
		key, text = aitch.DynamicValueFunc(func(ctx *context.Context) []byte { return ctx.Data["k"].([]byte) }), string(v)
	case 7:
		key, text = func(ctx *context.Context) []byte { return ctx.Cargo.([]byte) }, string(c)
	case 8:
		key, text = aitch.DynamicValueKey(""), "e"
	}
	n, pre, post := spot(sym.Choice(nPositions), key)
	expect(n, data, c, pre+text+post, "dynamic value in its position")
}

// C12_fresh: values are computed anew for every render.
func C12_fresh() {
	results := [][]byte{raw(1), nil, raw(2)}
	calls := 0
	fn := func(ctx *context.Context) []byte { calls++; return results[calls-1] }
	p := sym.Choice(nPositions)
	which := sym.Choice(3)
	var dyn any
	switch which {
	case 0:
		dyn = aitch.DynamicValueKey("k")
	case 1:
		dyn = aitch.DynamicValueKey(".")
	case 2:
		dyn = fn
	}
	n, pre, post := spot(p, dyn)
	for i := 0; i < 3; i++ {
		var data map[string]any
		var cargo any
		text := ""
		if which == 2 {
			text = string(results[i])
		} else {
			switch sym.Choice(3) {
			case 0:
				b := raw(1)
				text = string(b)
				data, cargo = map[string]any{"k": b}, b
			case 1:
				data, cargo = map[string]any{"j": "x"}, nil
			case 2:
				data, cargo = map[string]any{"k": 5}, 5
				text = "5"
			}
		}
		expect(n, data, cargo, pre+text+post, "value of this render")
	}
}

// C12_order: several dynamic values in value order.
func C12_order() {
	a, b, c, f := raw(1), raw(1), raw(1), raw(1)
	data := map[string]any{"a": a, "b": b}
	vals := []any{aitch.DynamicValueKey("a"), aitch.DynamicValueKey("b"), aitch.DynamicValueKey("."), aitch.DynamicValueFunc(func(*context.Context) []byte { return f }), "s", aitch.DynamicValueKey("no")}
	texts := []string{string(a), string(b), string(c), string(f), "s", ""}
	n := 2 + sym.Choice(2)
	var given []any
	want := ""
	for i := 0; i < n; i++ {
		k := sym.Choice(len(vals))
		given = append(given, vals[k])
		want += texts[k]
	}
	switch sym.Choice(5) {
	case 0:
		expect(aitch.Text(given...), data, c, want, "text")
	case 1:
		expect(aitch.Text(aitch.NewConcatValue(given...)), data, c, want, "concatenated")
	case 2:
		expect(html.Br(html.Id(given...)), data, c, `<br id="`+want+`">`, "attribute")
	case 3:
		expect(html.P(given...), data, c, "<p>"+want+"</p>", "contents")
	case 4:
		expect(aitch.Comment(given[0], aitch.Text(given[1:]...)), data, c, "<!--"+want+"-->", "comment of nested text")
	}
}

// C12_function: a function's bytes are verbatim and its context is that of the render.
func C12_function() {
	b := sym.Bytes(2, 2)
	cargo := raw(1)
	seen := 0
	f := func(ctx *context.Context) []byte {
		seen++
		sym.Assert(string(ctx.Cargo.([]byte)) == string(cargo), "context of the render")
		return b
	}
	n, pre, post := spot(sym.Choice(nPositions), aitch.DynamicValueFunc(f))
	sym.Assert(seen == 0, "not called while building")
	expect(n, nil, cargo, pre+string(b)+post, "function bytes verbatim")
	sym.Assert(seen == 1, "called once")
}

// C12_wide: values of every kind beside a dynamic one, wherever they stand.
func C12_wide() {
	x, many := wideOne(false)
	data := wideData(nil)
	i := sym.Choice(8)
	sym.Assume(!many || i != 2) // a delimited list has delimiters between them
	n, pre, post := spot(i, x.given)
	expect(n, data, wideCargo, pre+x.text+post, "value in its position")
	sym.Assert(len(data) == len(wideData(nil)), "the data is left as it is")
}
