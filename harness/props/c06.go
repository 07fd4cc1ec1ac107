package props

// Bounds: keys of 0..3 (thorough 0..4) arbitrary bytes (so with and without leading '!'), data nil or with 0..2 entries
// under arbitrary keys of 0..2 bytes, values of 12 kinds (symbolic booleans, strings, numbers, nil, pointers, named
// booleans, slices, functions); node contents, attributes and nested Whens.
// Also values of every documented kind under the key, and negations beside each other.
// 143 values under 13 odd and long keys, also in iterations (more.go).
// Strings the code itself compares with, alone, with an arbitrary byte before or after, and after one another (words.go).
// Sizes include those at which the code itself makes a difference (constants of its comparisons, up to about 600).
// Also: two texts that differ in one arbitrary byte or in length, side by side and after each other (history.go).
// Also: cargoes, data and keys that nearly are what is looked for (lures.go).

import (
	"aitchverif/sym"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
)

func init() {
	sym.Register("C06_when", C06_when)
	sym.Register("C06_negated", C06_negated)
	sym.Register("C06_values", C06_values)
	sym.Register("C06_iterate", C06_iterate)
}

type namedBool bool

// whenHolds is the specification of When's condition.
func whenHolds(key string, data map[string]any) bool {
	neg := len(key) > 0 && key[0] == '!'
	if neg {
		key = key[1:]
	}
	v, ok := data[key]
	if ok {
		if b, is := v.(bool); is {
			ok = b
		}
	}
	if neg {
		return !ok
	}
	return ok
}

func whenValue(k int) any {
	switch k {
	case 0:
		return sym.Bool()
	case 1:
		return nil
	case 2:
		return ""
	case 3:
		return 0
	case 4:
		return namedBool(sym.Bool())
	case 5:
		var p *bool
		return p
	case 6:
		b := sym.Bool()
		return &b
	case 7:
		return []any{}
	case 8:
		return "false"
	case 9:
		return func() any { return false }
	case 10:
		return []byte(nil)
	default:
		return map[string]any{}
	}
}

// C06_when: arbitrary keys against data with arbitrary keys.
func C06_when() {
	key := sym.String(0, 2+sym.Tier())
	n := sym.Choice(4)
	var data map[string]any
	if n > 0 {
		data = map[string]any{}
	}
	for i := 1; i < n; i++ {
		data[sym.String(0, 2)] = sym.Bool()
	}
	want := "<p>"
	if whenHolds(key, data) {
		want = `<p id="x">y`
	}
	node := aitch.Element("p", aitch.When(aitch.DynamicValueKey(key), aitch.Attribute("id", "x"), aitch.Text("y")))
	// neither the cargo nor an enclosing context counts
	var parent *context.Context
	var cargo any
	switch sym.Choice(4) {
	case 1:
		cargo = map[string]any{key: true, "": false}
	case 2:
		cargo = struct{ A bool }{true}
	case 3:
		d := map[string]any{"": true}
		d[key] = 1
		parent = context.New(nil, d, nil)
	}
	ctx := context.New(nil, data, cargo)
	ctx.Parent = parent
	expectIn(node, ctx, want+"</p>", "When follows the key")
}

// C06_negated: exactly one of When(key) and When(!key) renders.
func C06_negated() {
	key := sym.String(0, 2)
	if len(key) > 0 {
		sym.Assume(key[0] != '!')
	}
	var data map[string]any
	if sym.Choice(2) == 1 {
		data = map[string]any{}
		if sym.Choice(2) == 1 {
			data[key] = whenValue(sym.Choice(12))
		} else {
			data[sym.String(0, 2)] = sym.Bool()
		}
	}
	a := aitch.When(aitch.DynamicValueKey(key), aitch.Text("a"))
	b := aitch.When(aitch.DynamicValueKey("!"+key), aitch.Text("b"))
	want := "b"
	if whenHolds(key, data) {
		want = "a"
	}
	expect(aitch.Collection(a, b), data, nil, want, "exactly one of key and !key")
	expect(aitch.Collection(b, a), data, nil, want, "exactly one of !key and key")
}

// C06_values: presence decides for all values but booleans.
func C06_values() {
	neg := sym.Choice(2) == 1
	key := "key"
	if neg {
		key = "!key"
	}
	data := map[string]any{"other": true, "!key": false}
	if sym.Choice(2) == 1 {
		data["key"] = whenValue(sym.Choice(12))
	}
	want := ""
	if whenHolds(key, data) {
		want = "<b></b>t"
	}
	expect(aitch.When(aitch.DynamicValueKey(key), aitch.Element("b"), nil2(aitch.Text("t"))), data, nil, want, "presence decides")
	// nested, in both orders
	inner := aitch.When(aitch.DynamicValueKey(key), aitch.Text("i"))
	wantI := ""
	if whenHolds(key, data) {
		wantI = "i"
	}
	expect(aitch.When("other", inner), data, nil, wantI, "nested When")
	expect(aitch.When("!other", inner), data, nil, "", "nested negated When")
}

func nil2(n aitch.Node) aitch.Node { return n }

// C06_iterate: inside an iteration over maps, the item's own entries decide.
func C06_iterate() {
	var items []any
	want := ""
	outer := sym.Bool()
	for i := 0; i < 2; i++ {
		switch sym.Choice(3) {
		case 0:
			items = append(items, map[string]any{})
			want += "n"
		case 1:
			b := sym.Bool()
			items = append(items, map[string]any{"k": b})
			if b {
				want += "y"
			} else {
				want += "n"
			}
		case 2:
			items = append(items, "s")
			if outer {
				want += "y"
			} else {
				want += "n"
			}
		}
	}
	node := aitch.Iterate(func(*context.Context) []any { return items }, aitch.When("k", aitch.Text("y")), aitch.When("!k", aitch.Text("n")))
	expect(node, map[string]any{"k": outer}, nil, want, "When inside iteration")
}
