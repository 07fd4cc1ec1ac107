package props

// Bounds: 0..3 maps with 0..3 entries in all (0..4 in thorough runs), keys of 0..2 arbitrary bytes (distinct ones and overlapping
// ones), values of 0..2 bytes as string, raw bytes, data key, function or number, every map iteration order; every sequence of 1..3
// arguments that are maps or other values; 0..3 variables in one or two attributes.
// Also values of every kind (wide.go), and odd and long keys.
// Up to 65 headers in up to 65 maps, and up to 65 variables (more.go).
// Header names with common beginnings of 0..256 bytes (extra.go).
// Strings the code itself compares with, alone, with an arbitrary byte before or after, and after one another (words.go).
// Sizes include those at which the code itself makes a difference (constants of its comparisons, up to about 600).
// Also: two texts that differ in one arbitrary byte or in length, side by side and after each other (history.go).

import (
	"strings"

	"aitchverif/sym"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
	"github.com/go-andiamo/aitch/htmx"
)

func init() {
	sym.Register("C20_wide", C20_wide)
	sym.Register("C20_odd", C20_odd)
	sym.Register("C20_keys", C20_keys)
	sym.Register("C20_merge", C20_merge)
	sym.Register("C20_mixed", C20_mixed)
	sym.Register("C20_safe", C20_safe)
	sym.Register("C20_values", C20_values)
	sym.Register("C20_vars", C20_vars)
}

// entry is a header given by one of the maps.
type entry struct {
	key string
	v   val
	in  int // which map
}

// headerMaps makes the maps.
func headerMaps(n int, es []entry) []htmx.HeadersMap {
	ms := make([]htmx.HeadersMap, n)
	for i := range ms {
		ms[i] = htmx.HeadersMap{}
	}
	for _, e := range es {
		ms[e.in][e.key] = e.v.given
	}
	return ms
}

// headersText is the list specified for the headers: each once, the last map's value, in key order.
func headersText(es []entry) string {
	var once []entry
	for _, e := range es {
		found := false
		for i := range once {
			if once[i].key == e.key {
				once[i].v = e.v
				found = true
			}
		}
		if !found {
			once = append(once, e)
		}
	}
	for i := range once {
		for j := i + 1; j < len(once); j++ {
			if once[j].key < once[i].key {
				once[i], once[j] = once[j], once[i]
			}
		}
	}
	s := "{"
	for i, e := range once {
		if i > 0 {
			s += ", "
		}
		s += "'" + e.key + "': " + e.v.text
	}
	return s + "}"
}

// headersNode builds the attribute in one of the two forms.
func headersNode(js bool, ms []htmx.HeadersMap) aitch.Node {
	if js {
		return htmx.HeadersJS(ms...)
	}
	args := make([]any, 0, len(ms))
	for _, m := range ms {
		args = append(args, m)
	}
	return htmx.Headers(args...)
}

func jsPrefix(js bool) string {
	if js {
		return "js:"
	}
	return ""
}

// unchanged asserts that the maps hold what was put into them.
func unchanged(ms []htmx.HeadersMap, es []entry) {
	n := 0
	for _, m := range ms {
		n += len(m)
	}
	sym.Assert(n == len(es), "the maps have the entries given")
	for _, e := range es {
		got, ok := ms[e.in][e.key]
		sym.Assert(ok, "an entry is kept")
		if b, isBytes := e.v.given.([]byte); isBytes {
			g, _ := got.([]byte)
			sym.Assert(string(g) == string(b), "a value is kept")
		}
	}
}

const headerName = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_"

// C20_keys: one map with distinct keys.
func C20_keys() {
	js := sym.Choice(2) == 1
	n := sym.Choice(4 + sym.Tier())
	es := make([]entry, n)
	for i := range es {
		l := 1
		if i == 0 {
			l = sym.Choice(3)
		}
		es[i] = entry{sym.StringOf(l, l, headerName), rawVal(1), 0}
		for j := 0; j < i; j++ {
			sym.Assume(es[i].key != es[j].key)
		}
	}
	ms := headerMaps(1, es)
	a := headersNode(js, ms)
	sym.Assert(a != nil && a.Name() == "hx-headers" && a.Type() == aitch.AttributeNode, "the headers attribute")
	unchanged(ms, es)
	want := ` hx-headers="` + jsPrefix(js) + headersText(es) + `"`
	expect(a, nil, nil, want, "each header once, in key order")
	expect(aitch.Element("i", a), nil, nil, "<i"+want+"></i>", "in the start tag")
	unchanged(ms, es)
}

// C20_merge: several maps that may overlap.
func C20_merge() {
	js := sym.Choice(2) == 1
	nm := sym.Choice(4)
	var es []entry
	if nm > 0 {
		n := sym.Choice(4 + sym.Tier())
		for i := 0; i < n; i++ {
			e := entry{sym.StringOf(1, 1, "Xabc"), rawVal(1), 0}
			// the maps in order
			if i > 0 {
				e.in = es[i-1].in
			}
			e.in += sym.Choice(nm - e.in)
			for _, o := range es {
				sym.Assume(o.in != e.in || o.key != e.key)
			}
			es = append(es, e)
		}
	}
	ms := headerMaps(nm, es)
	a := headersNode(js, ms)
	unchanged(ms, es)
	want := ` hx-headers="` + jsPrefix(js) + headersText(es) + `"`
	if nm == 0 && !js {
		want = ` hx-headers=""`
	}
	expect(a, nil, nil, want, "a later map replaces the values of an earlier one")
	unchanged(ms, es)
}

// C20_mixed: maps cannot be mixed with other values.
func C20_mixed() {
	n := 1 + sym.Choice(3)
	v := rawVal(1)
	var args []any
	maps, others := 0, 0
	text := ""
	for i := 0; i < n; i++ {
		switch sym.Choice(6) {
		case 0:
			args = append(args, htmx.HeadersMap{"X": v.given})
			maps++
		case 1:
			args = append(args, htmx.HeadersMap{})
			maps++
		case 2:
			args = append(args, v.given)
			text += v.text
			others++
		case 3:
			args = append(args, "s")
			text += "s"
			others++
		case 4:
			args = append(args, 1)
			text += "1"
			others++
		case 5:
			args = append(args, aitch.DynamicValueKey("k"))
			text += "d"
			others++
		}
	}
	var a aitch.Node
	p := panics(func() { a = htmx.Headers(args...) })
	sym.Assert(p == (maps > 0 && others > 0), "panics exactly when maps are mixed with other values")
	if !p && maps == 0 {
		expect(a, map[string]any{"k": "d"}, nil, ` hx-headers="`+text+`"`, "other values are written as they are")
	}
}

// unescape undoes the five entities.
func unescape(s string) string {
	ents := []struct{ from, to string }{{"&lt;", "<"}, {"&gt;", ">"}, {"&quot;", `"`}, {"&apos;", "'"}, {"&#39;", "'"}, {"&#34;", `"`}, {"&amp;", "&"}}
	out := ""
	for i := 0; i < len(s); {
		k := 1
		t := s[i : i+1]
		for _, e := range ents {
			if len(s)-i >= len(e.from) && s[i:i+len(e.from)] == e.from {
				k, t = len(e.from), e.to
				break
			}
		}
		out += t
		i += k
	}
	return out
}

// C20_safe: no bytes of a key or of a string value end the attribute.
func C20_safe() {
	js := sym.Choice(2) == 1
	kl := sym.Choice(3)
	key := sym.String(kl, kl)
	s := strVal(1)
	for i := 0; i < len(key); i++ {
		// a bare ampersand in a key may be written either way, a NUL may be dropped
		sym.Assume(key[i] != '&' && key[i] != 0)
	}
	got, err := render(headersNode(js, []htmx.HeadersMap{{key: s.given}}), nil, nil)
	sym.Assert(err == nil, "no error")
	head, tail := ` hx-headers="`, `"`
	ok := len(got) > len(head)+len(tail) && got[:len(head)] == head && got[len(got)-1:] == tail
	sym.Assert(ok, "the attribute is written")
	inner := got[len(head) : len(got)-1]
	for i := 0; i < len(inner); i++ {
		sym.Assert(inner[i] != '"', "nothing ends the attribute early")
	}
	pre := jsPrefix(js) + "{'"
	end := "': " + s.text + "}"
	sym.Assert(len(inner) >= len(pre)+len(end) && inner[:len(pre)] == pre && inner[len(inner)-len(end):] == end, "the header is written with its value")
	sym.Assert(unescape(inner[len(pre):len(inner)-len(end)]) == key, "the key is written")
}

// C20_values: values follow the rules of all values.
func C20_values() {
	js := sym.Choice(2) == 1
	data := map[string]any{}
	one := func(key string) val {
		switch sym.Choice(7) {
		case 0:
			return strVal(1 + sym.Tier())
		case 1:
			return rawVal(2)
		case 2:
			v := strVal(1)
			data[key] = v.given
			return val{aitch.DynamicValueKey(key), v.text}
		case 3:
			v := rawVal(1)
			return val{aitch.DynamicValueFunc(func(*context.Context) []byte { return []byte(v.text) }), v.text}
		case 4:
			return val{-7, "-7"}
		case 5:
			return val{true, "true"}
		}
		return val{nil, ""}
	}
	x, y := one("p"), rawVal(1)
	switch sym.Choice(3) {
	case 0:
		data["q"] = y.given
		y.given = aitch.DynamicValueKey("q")
	case 1:
		y = val{nil, ""}
	}
	if sym.Choice(2) == 1 {
		x, y = y, x
	}
	es := []entry{{"X-B", x, 0}, {"X-A", y, sym.Choice(2)}}
	a := headersNode(js, headerMaps(2, es))
	want := ` hx-headers="` + jsPrefix(js) + headersText(es) + `"`
	expect(a, data, nil, want, "values follow the rules of all values")
	// computed anew each time
	data["p"], data["q"] = "other", "other"
	for i := range es {
		if _, ok := es[i].v.given.(aitch.DynamicValueKey); ok {
			es[i].v.text = "other"
		}
	}
	expect(a, data, nil, ` hx-headers="`+jsPrefix(js)+headersText(es)+`"`, "dynamic values are taken from each render")
}

// C20_vars: variables.
func C20_vars() {
	data := map[string]any{}
	n := sym.Choice(4)
	split := sym.Choice(n + 1)
	var args []any
	want := ""
	for i := 0; i < n; i++ {
		name := sym.StringOf(2, 2, "abcdefghijklmnopqrstuvwxyz")
		v := rawVal(1)
		switch {
		case i == 0 && sym.Choice(2) == 1:
			v = strVal(1)
		case i == 1 && sym.Choice(2) == 1:
			s := strVal(1)
			data["k"] = s.given
			v = val{aitch.DynamicValueKey("k"), s.text}
		}
		args = append(args, htmx.Var(name, v.given))
		if i > 0 {
			want += ", "
		}
		want += name + ": " + v.text
	}
	a := htmx.Vars(args...)
	sym.Assert(a.Name() == "hx-vars" && a.Type() == aitch.AttributeNode, "the variables attribute")
	expect(a, data, nil, ` hx-vars="`+want+`"`, "variables are written as name: value")
	expect(aitch.Element("i", htmx.Vars(args[:split]...), htmx.Vars(args[split:]...)), data, nil, `<i hx-vars="`+want+`"></i>`, "several attributes of variables are joined")
}

// C20_wide: headers and variables with values of every kind, and keys of unusual text.
func C20_wide() {
	js := sym.Choice(2) == 1
	x, y := wideVal(), rawVal(1)
	switch sym.Choice(3) {
	case 0:
		es := []entry{{"B", x, 0}, {"A", y, 0}}
		expect(headersNode(js, headerMaps(1, es)), wideData(nil), wideCargo, ` hx-headers="`+jsPrefix(js)+headersText(es)+`"`, "values follow the rules of all values")
	case 1:
		es := []entry{{"A", y, 0}, {"A", x, 1}, {"C", x, 1}}
		expect(headersNode(js, headerMaps(2, es)), wideData(nil), wideCargo, ` hx-headers="`+jsPrefix(js)+headersText(es)+`"`, "a later map replaces the values of an earlier one")
	case 2:
		expect(htmx.Vars(htmx.Var("a", x.given), htmx.Var("b", y.given)), wideData(nil), wideCargo, ` hx-vars="a: `+x.text+", b: "+y.text+`"`, "variables are written as name: value")
	}
}

var oddKeys = []string{`"""`, `""""""""`, `a"b"c"d"e"`, "<>", "</p>", "-->", "&quot;", "&amp;\"", "X-Very-Long-Header-Name-Of-More-Than-Thirty-Two-Bytes", " ", "a b", "\u00e9", "\xff", "1", "true", "X-\n", "A:B", ",", "{", "}", "js:", "\t", "aA", "Aa", "a-", "a_"}

// C20_odd: unusual keys, given in any order, several at once.
func C20_odd() {
	js := sym.Choice(2) == 1
	k1, k2 := oddKeys[sym.Choice(len(oddKeys))], oddKeys[sym.Choice(len(oddKeys))]
	x, y := rawVal(1), rawVal(1)
	es := []entry{{k1, x, 0}}
	if k1 != k2 {
		es = append(es, entry{k2, y, 0})
	}
	got, err := render(headersNode(js, headerMaps(1, es)), nil, nil)
	sym.Assert(err == nil, "no error")
	want := headersText(es)
	head := ` hx-headers="` + jsPrefix(js)
	sym.Assert(len(got) > len(head) && got[:len(head)] == head && got[len(got)-1] == '"', "the attribute is written")
	inner := got[len(head) : len(got)-1]
	// the keys are written such that no double quote of theirs is left (the values may be one)
	exact, undone := "{", "{"
	sorted := es
	if len(es) == 2 && es[1].key < es[0].key {
		sorted = []entry{es[1], es[0]}
	}
	_ = want
	for i, e := range sorted {
		if i > 0 {
			exact += ", "
			undone += ", "
		}
		exact += "'" + strings.ReplaceAll(e.key, `"`, "&quot;") + "': " + e.v.text
		undone += "'" + refEscape(e.key) + "': " + e.v.text
	}
	sym.Assert(inner == exact+"}" || inner == undone+"}", "the keys are written, their double quotes escaped")
}
