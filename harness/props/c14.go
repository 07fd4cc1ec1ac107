package props

// Bounds: sequences of up to 5 calls (6 in thorough runs) of 10 kinds (start of an element or void element, with or without
// attributes, among them names of HTML's void elements, end, end all, string, raw, nodes, nested imperative block) with arbitrary name letters and value bytes, ending
// with or without an end of all; attribute lists of up to 4 attributes of 9 kinds in a start compared with the element built
// from the same attributes; the same within a block reused for two renders.
// Also up to 257 elements open at once and ended one by one or together; attributes with values of every kind (wide.go),
// none among them.
// Starts with up to 130 attributes, and 200 calls in one block (more.go).
// Strings the code itself compares with, alone, with an arbitrary byte before or after, and after one another (words.go).
// Sizes include those at which the code itself makes a difference (constants of its comparisons, up to about 600).
// Also: two texts that differ in one arbitrary byte or in length, side by side and after each other; uses repeated up to 70 times, with other uses in between (history.go).

import (
	"aitchverif/sym"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/html"
)

func init() {
	sym.Register("C14_wide", C14_wide)
	sym.Register("C14_sequences", C14_sequences)
	sym.Register("C14_start", C14_start)
	sym.Register("C14_text", C14_text)
	sym.Register("C14_deep", C14_deep)
}

// C14_sequences: every short sequence of calls.
func C14_sequences() {
	n := sym.Choice(6 + sym.Tier())
	ops := make([]int, n)
	names := make([]string, n)
	raws := make([][]byte, n)
	want := ""
	var open []string
	closeAll := func() {
		for i := len(open) - 1; i >= 0; i-- {
			want += "</" + open[i] + ">"
		}
		open = nil
	}
	for i := range ops {
		ops[i] = sym.Choice(8)
		switch ops[i] {
		case 0:
			names[i] = []string{letters(1), "br", "link"}[i%3]
			want += "<" + names[i] + ">"
			open = append(open, names[i])
		case 1:
			names[i] = letters(1)
			want += "<" + names[i] + ">"
		case 2:
			if len(open) > 0 {
				want += "</" + open[len(open)-1] + ">"
				open = open[:len(open)-1]
			}
		case 3:
			closeAll()
		case 4:
			want += "&lt;x&gt;"
		case 5:
			raws[i] = raw(1)
			want += string(raws[i])
		case 6:
			raws[i] = raw(1)
			want += `<b id="` + string(raws[i]) + `"></b>`
		case 7:
			// a block of its own: what it leaves open stays its own
			raws[i] = raw(1)
			want += "<q>" + string(raws[i])
		}
	}
	node := aitch.Imperative(func(ic aitch.ImperativeContext) error {
		for i, op := range ops {
			switch op {
			case 0:
				ic.Start([]byte(names[i]), false)
			case 1:
				ic.Start([]byte(names[i]), true)
			case 2:
				ic.End()
			case 3:
				ic.EndAll()
			case 4:
				ic.WriteString("<x>")
			case 5:
				ic.WriteRaw(raws[i])
			case 6:
				ic.WriteNodes(html.Id("ignored"), html.B(html.Id(raws[i])))
			case 7:
				ic.WriteNodes(aitch.Imperative(func(inner aitch.ImperativeContext) error {
					inner.End()
					inner.Start([]byte("q"), false)
					inner.WriteRaw(raws[i])
					return nil
				}))
			}
		}
		return nil
	})
	expect(node, nil, nil, want, "calls in sequence")
	if n > 0 {
		expect(html.Div(node, "t"), nil, nil, "<div>"+want+"t</div>", "calls in sequence within an element")
	}
}

// startAttr is an attribute for C14_start.
func startAttr(i int) *rn {
	switch i {
	case 0:
		return &rn{k: kAttr, name: "id", vals: []val{rawVal(1)}}
	case 1:
		return &rn{k: kAttr, name: "id", vals: []val{rawVal(1), rawVal(1)}}
	case 2:
		return &rn{k: kDelim, name: "class", delim: " ", vals: []val{rawVal(1)}}
	case 3:
		return &rn{k: kDelim, name: "class", delim: " ", vals: []val{rawVal(1), {nil, ""}, rawVal(1)}}
	case 4:
		return &rn{k: kBool, name: "hidden"}
	case 5:
		s := letters(1)
		return &rn{k: kDelim, name: "style", delim: "; ", vals: []val{{s, s}}}
	case 6:
		return &rn{k: kAttr, name: "title", vals: []val{{aitch.DynamicValueKey("k"), "d"}, rawVal(1)}}
	case 7:
		return &rn{k: kDelim, name: "class", delim: " ", vals: []val{{aitch.DynamicValueKey("k"), "d"}}}
	}
	return nil
}

// C14_start: a start tag agrees with the element built declaratively.
func C14_start() {
	n := sym.Choice(5)
	var rs []*rn
	for i := 0; i < n; i++ {
		rs = append(rs, startAttr(sym.Choice(9)))
	}
	nodes := make([]aitch.Node, n)
	for i, r := range rs {
		if r == nil {
			nodes[i] = aitch.Text("ignored") // not an attribute
		} else {
			nodes[i] = r.build()
		}
	}
	void := sym.Choice(2) == 1
	data := map[string]any{"k": "d"}
	imp := aitch.Imperative(func(ic aitch.ImperativeContext) error {
		ic.Start([]byte("p"), void, nodes...)
		ic.EndAll()
		return nil
	})
	want := "<p" + attrText(rs) + ">"
	if !void {
		want += "</p>"
	}
	expect(imp, data, nil, want, "start tag")
	var decl []any
	for i, r := range rs {
		if r != nil {
			decl = append(decl, nodes[i])
		}
	}
	el := aitch.NewElement([]byte("p"), decl...)
	if void {
		el = aitch.NewVoidElement([]byte("p"), decl...)
	}
	expect(el, data, nil, want, "the same element declaratively")
	expect(imp, data, nil, want, "start tag again")
}

// C14_text: strings are escaped, raw data is not.
func C14_text() {
	s := sym.String(2, 2)
	b := sym.Bytes(2, 2)
	node := aitch.Imperative(func(ic aitch.ImperativeContext) error {
		ic.WriteString(s)
		ic.WriteRaw(b)
		ic.WriteNodes(aitch.Text(s), nil, aitch.Text(b))
		return nil
	})
	expect(node, nil, nil, refEscape(s)+string(b)+refEscape(s)+string(b), "text")
}

// C14_deep: many elements open at once.
func C14_deep() {
	depth := 1 + sym.Choice(6)
	ends := sym.Choice(depth + 2)
	if sym.Choice(2) == 0 {
		depth = sym.Size(300, 7, 8, 9, 10, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 256, 257)
		ends = []int{0, 1, depth / 2, depth - 1, depth, depth + 1}[sym.Choice(6)]
	}
	more := sym.Choice(3)
	want := ""
	var open []string
	node := aitch.Imperative(func(ic aitch.ImperativeContext) error {
		for i := 0; i < depth; i++ {
			ic.Start([]byte{'a' + byte(i%26)}, false)
		}
		for i := 0; i < ends; i++ {
			ic.End()
		}
		for i := 0; i < more; i++ {
			ic.Start([]byte{'u' + byte(i)}, false)
			ic.Start([]byte("br"), true)
		}
		ic.EndAll()
		ic.End()
		ic.EndAll()
		ic.Start([]byte("z"), false)
		ic.End()
		return nil
	})
	for i := 0; i < depth; i++ {
		nm := string([]byte{'a' + byte(i%26)})
		open = append(open, nm)
		want += "<" + nm + ">"
	}
	for i := 0; i < ends && len(open) > 0; i++ {
		want += "</" + open[len(open)-1] + ">"
		open = open[:len(open)-1]
	}
	for i := 0; i < more; i++ {
		nm := string([]byte{'u' + byte(i)})
		open = append(open, nm)
		want += "<" + nm + "><br>"
	}
	for len(open) > 0 {
		want += "</" + open[len(open)-1] + ">"
		open = open[:len(open)-1]
	}
	want += "<z></z>"
	expect(node, nil, nil, want, "deep nesting")
	expect(node, nil, nil, want, "deep nesting again")
}

// C14_wide: attributes with values of every kind, none among them.
func C14_wide() {
	x := wideVal()
	y := rawVal(1)
	var vs []val
	switch sym.Choice(4) {
	case 0:
	case 1:
		vs = []val{x}
	case 2:
		vs = []val{y, x}
	case 3:
		vs = []val{x, y}
	}
	a := &rn{k: kAttr, name: "id", vals: vs}
	b := &rn{k: kBool, name: "b"}
	c := &rn{k: kAttr, name: "id", vals: nil}
	d := &rn{k: kAttr, name: "z", vals: vs}
	var rs []*rn
	switch sym.Choice(5) {
	case 0:
		rs = []*rn{a, b}
	case 1:
		rs = []*rn{c, a}
	case 2:
		rs = []*rn{a, c, d}
	case 3:
		// list-like attributes: all values have a text
		for _, v := range vs {
			sym.Assume(v.given == nil || v.text != "")
		}
		a.k, a.delim = kDelim, ", "
		rs = []*rn{a, d, {k: kDelim, name: "id", delim: ", ", vals: []val{y}}, b}
	case 4:
		for _, v := range vs {
			sym.Assume(v.given == nil || v.text != "")
		}
		a.k, a.delim = kDelim, "; "
		rs = []*rn{{k: kDelim, name: "id", delim: "; ", vals: nil}, a}
	}
	var nodes []aitch.Node
	var decl []any
	for _, r := range rs {
		n := r.build()
		nodes = append(nodes, n)
		decl = append(decl, n)
	}
	want := "<p" + attrText(rs) + ">"
	expect(aitch.Imperative(func(ic aitch.ImperativeContext) error {
		ic.Start([]byte("p"), true, nodes...)
		return nil
	}), wideData(nil), wideCargo, want, "start tag")
	expect(aitch.NewVoidElement([]byte("p"), decl...), wideData(nil), wideCargo, want, "the same element declaratively")
}
