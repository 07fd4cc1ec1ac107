package props

// Further harnesses: node types of one's own, values with many methods, names with long common beginnings, fields promoted from
// deep, errors of every kind, deep improper nesting and long chains of conditions.

import (
	"bytes"
	"errors"
	"io"
	"strconv"
	"strings"

	"aitchverif/sym"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
	"github.com/go-andiamo/aitch/html"
	"github.com/go-andiamo/aitch/htmx"
)

func init() {
	sym.Register("C02_own", C02_own)
	sym.Register("C07_beginnings", C07_beginnings)
	sym.Register("C16_promoted", C16_promoted)
	sym.Register("C18_names", C18_names)
	sym.Register("C18_given", C18_given)
	sym.Register("C20_beginnings", C20_beginnings)
	sym.Register("C21_errors", C21_errors)
	sym.Register("C21_improper", C21_improper)
	sym.Register("C22_kinds", C22_kinds)
	sym.Register("C24_chain", C24_chain)
}

// typedNode is a node of a type of one's own.
type typedNode struct {
	t aitch.NodeType
	n string
	s string
}

func (t *typedNode) Render(ctx *context.Context) error {
	ctx.Write([]byte("{" + t.s + "}"))
	return ctx.Error
}
func (t *typedNode) Type() aitch.NodeType { return t.t }
func (t *typedNode) Name() string         { return t.n }

// C02_own: nodes of one's own types are contents like any other.
func C02_own() {
	ts := []aitch.NodeType{aitch.ElementNode, aitch.TextNode, aitch.CommentNode, aitch.PINode, aitch.DocumentNode, aitch.FragmentNode, 12, 13, 20, 100, 255, 256, 1000, 1 << 20, -1, -2, -100}
	own := &typedNode{ts[sym.Choice(len(ts))], []string{"", "a", "id"}[sym.Choice(3)], string(raw(1))}
	s := "{" + own.s + "}"
	in := []aitch.Node{aitch.Text("a"), own, html.Id("i"), nil, own, aitch.Text("b")}
	body := "a" + s + s + "b"
	attr := ` id="i"`
	var n aitch.Node
	switch sym.Choice(12) {
	case 0:
		n = aitch.Collection(in...)
		attr = ""
	case 1:
		n = aitch.Element("p", anysOf(in)...)
		body = "<p" + attr + ">" + body + "</p>"
	case 2:
		n = aitch.Conditional(func(*context.Context) bool { return true }, in...)
	case 3:
		n = aitch.Element("p", aitch.When("k", in...))
		body = "<p" + attr + ">" + body + "</p>"
	case 4:
		n = aitch.Iterate(func(*context.Context) []any { return []any{1, 2} }, in...)
		body += body
	case 5:
		n = aitch.IterateKey("l", in...)
		body += body
	case 6:
		n = aitch.IterateYield(func(_ *context.Context, y func(any)) { y(1); y(2) }, in...)
		body += body
	case 7:
		n = aitch.ContentCollect(func(*context.Context) []aitch.Node { return in })
	case 8:
		n = aitch.Imperative(func(ic aitch.ImperativeContext) error {
			ic.Start([]byte("p"), false, in...)
			ic.WriteNodes(in...)
			ic.EndAll()
			return nil
		})
		body = "<p" + attr + ">" + body + "</p>"
	case 9:
		n = html.Document(nil, nil, anysOf(in))
		body = "<!DOCTYPE html>\n<html><body" + attr + ">" + body + "</body></html>"
	case 10:
		n = aitch.Element("p", aitch.Collection(aitch.Collection(in...)))
		body = "<p" + attr + ">" + body + "</p>"
	case 11:
		t, err := aitch.NewTemplate("t", "<p>{{a .}}</p>{{b .}}", aitch.NodeMap{"a": own, "b": aitch.Collection(in...)})
		sym.Assert(err == nil, "the template is made")
		executed(t, nil, nil, "<p>"+s+"</p>"+body, "own nodes in a template")
		return
	}
	data := map[string]any{"k": 1, "l": []string{"x", "y"}}
	expect(n, data, nil, body, "own nodes stand among the contents")
	expect(aitch.Collection(n, own), data, nil, body+s, "own nodes stand after the contents")
}

// beginnings are headers whose names share a long beginning.
func beginnings(n int) []entry {
	b := strings.Repeat("X-Long-", 100)[:sym.Size(600, 0, 1, 3, 7, 8, 9, 11, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256)]
	var es []entry
	for i := 0; i < n; i++ {
		name := b + []string{"c", "a", "", "B"}[i]
		es = append(es, entry{name, val{i, strconv.Itoa(i)}, 0})
	}
	return es
}

// C07_beginnings: in key order however long the common beginning of the names.
func C07_beginnings() {
	es := beginnings(3)
	js := sym.Choice(2) == 1
	twice(func() aitch.Node { return headersNode(js, headerMaps(1, es)) }, nil, ` hx-headers="`+jsPrefix(js)+headersText(es)+`"`, "headers in key order")
}

// C20_beginnings: every name once, with its own value.
func C20_beginnings() {
	es := beginnings(4)
	es[sym.Choice(4)].v = rawVal(1)
	maps := 1 + sym.Choice(2)
	for i := range es {
		es[i].in = i % maps
	}
	var sorted []entry
	for m := 0; m < maps; m++ {
		for _, e := range es {
			if e.in == m {
				sorted = append(sorted, e)
			}
		}
	}
	js := sym.Choice(2) == 1
	expect(headersNode(js, headerMaps(maps, sorted)), nil, nil, ` hx-headers="`+jsPrefix(js)+headersText(sorted)+`"`, "every header once")
	_ = htmx.HeadersMap{}
}

type lvl0 struct {
	Deep, Same string
	hidden     string
}
type Lvl1 struct {
	lvl0
	One string
}
type Lvl2 struct {
	*Lvl1
	Two int
}
type Lvl3 struct {
	Lvl2
	Same string
}
type Lvl4 struct {
	*Lvl3
	Four string
}
type sideA struct{ Both, Left string }
type sideB struct {
	Both, Right string
	One         int
}
type joint struct {
	sideA
	*sideB
	Lvl1
}

// C16_promoted: fields of structs embedded in structs, through pointers too.
func C16_promoted() {
	s := letters(1)
	l0 := lvl0{Deep: s + "d", Same: "no", hidden: "h"}
	l1 := Lvl1{l0, s + "1"}
	l2 := Lvl2{&l1, 2}
	l3 := Lvl3{l2, s + "s"}
	l4 := Lvl4{&l3, s + "4"}
	var cargo any
	has := map[string]any{}
	put := func(kv ...any) {
		for i := 0; i < len(kv); i += 2 {
			has[kv[i].(string)] = kv[i+1]
		}
	}
	switch sym.Choice(14) {
	case 0:
		cargo = l4
	case 1:
		cargo = &l4
	case 2:
		cargo = l3
		put("Four", nil, "Lvl3", nil)
	case 3:
		cargo = &l3
		put("Four", nil, "Lvl3", nil)
	case 4:
		cargo = l2
		put("Four", nil, "Lvl3", nil, "Lvl2", nil, "Same", "no")
	case 5:
		cargo = &l1
		put("Four", nil, "Lvl3", nil, "Lvl2", nil, "Same", "no", "Lvl1", nil, "Two", nil)
	case 6:
		cargo = Lvl4{nil, s}
		put("Four", s, "Lvl3", (*Lvl3)(nil), "Lvl2", nil, "Lvl1", nil, "Same", nil, "Two", nil, "One", nil, "Deep", nil)
	case 7:
		cargo = Lvl4{&Lvl3{Lvl2{nil, 7}, "q"}, s}
		put("Four", s, "Lvl3", cargo.(Lvl4).Lvl3, "Lvl2", Lvl2{nil, 7}, "Lvl1", (*Lvl1)(nil), "Same", "q", "Two", 7, "One", nil, "Deep", nil)
	case 8:
		cargo = &Lvl3{Lvl2{nil, 0}, ""}
		put("Four", nil, "Lvl3", nil, "Lvl2", Lvl2{nil, 0}, "Lvl1", (*Lvl1)(nil), "Same", "", "Two", 0, "One", nil, "Deep", nil)
	case 9: // neither of two at the same depth
		cargo = joint{sideA{"a", s}, &sideB{"b", s + "r", 3}, l1}
		put("Four", nil, "Lvl3", nil, "Lvl2", nil, "Two", nil, "Lvl1", l1, "Same", "no", "One", nil, "Left", s, "Right", s+"r")
	case 10:
		cargo = &joint{sideA{"a", s}, nil, l1}
		put("Four", nil, "Lvl3", nil, "Lvl2", nil, "Two", nil, "Lvl1", l1, "Same", "no", "One", nil, "Left", s)
	case 11: // structs as entries and embedded structs by name are no levels of their own
		cargo = map[string]any{"Lvl1": l1, "Deep": l0}
		put("Four", nil, "Lvl3", nil, "Lvl2", nil, "Two", nil, "Lvl1", l1, "Same", nil, "One", nil, "Deep", l0)
	case 12:
		cargo = struct {
			Lvl1
			Deep int
		}{l1, 5}
		put("Four", nil, "Lvl3", nil, "Lvl2", nil, "Two", nil, "Lvl1", l1, "Same", "no", "Deep", 5)
	case 13:
		cargo = &struct{ *Lvl4 }{&l4}
	}
	all := map[string]any{"Four": s + "4", "Lvl3": &l3, "Lvl2": l2, "Lvl1": &l1, "Same": s + "s", "Two": 2, "One": s + "1", "Deep": s + "d"}
	switch sym.Choice(3) {
	case 1:
		all["Lvl0"], all["lvl0"], all["hidden"] = nil, nil, nil
	case 2:
		has["Both"], has["sideA"], has["Lvl4.Four"], has["Lvl2.Two"] = nil, nil, nil, nil
	}
	for k, v := range has {
		all[k] = v
	}
	if _, ok := cargo.(Lvl4); ok {
		all["Lvl4"] = nil
	}
	ctx := context.New(nil, nil, cargo)
	for _, k := range []string{"Four", "Lvl3", "Lvl2", "Lvl1", "Same", "Two", "One", "Deep", "Lvl0", "lvl0", "hidden", "Both", "sideA", "Lvl4.Four", "Lvl2.Two", "four", "Left", "Right"} {
		w := all[k]
		ws, is := w.(string)
		got, ok := try[string](ctx, k)
		sym.Assert(ok == is && got == ws, "string: exactly when promoted with the type")
		wi, is := w.(int)
		gi, ok := try[int](ctx, k)
		sym.Assert(ok == is && gi == wi, "int: exactly when promoted with the type")
		g1, ok := try[*Lvl1](ctx, k)
		w1, is := w.(*Lvl1)
		sym.Assert(ok == is && g1 == w1, "embedded pointer: exactly when it is that field")
		g2, ok := try[Lvl2](ctx, k)
		w2, is := w.(Lvl2)
		sym.Assert(ok == is && g2 == w2, "embedded struct: exactly when it is that field")
	}
}

// C18_names: names given of any length and casing.
func C18_names() {
	ln := sym.Size(600, 2, 4, 7, 8, 9, 12, 15, 16, 17, 20, 31, 32, 33, 63, 64, 65, 100, 129)
	base := []byte(strings.Repeat("userNameFieldX-", 50)[:ln])
	if ln > 4200 {
		return
	}
	at := oneOf(0, ln/2, ln-1)
	base[at] = sym.StringOf(1, 1, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.:")[0]
	name := string(base)
	v := rawVal(1)
	for i, f := range []func(string, ...any) aitch.Node{html.Data, html.Aria, htmx.On} {
		p := []string{"data-", "aria-", "hx-on:"}[i]
		n, m := f(name, "1", v.given), f(name+"Z")
		sym.Assert(n.Name() == p+name && m.Name() == p+name+"Z", "the name is the prefix and the name given")
		expect(aitch.Element("i", n, m), nil, nil, "<i "+p+name+`="1`+v.text+`" `+p+name+`Z=""></i>`, "the attribute is written with its value")
	}
}

// C18_given: the prefixed constructors with values of every kind, alone and among others.
func C18_given() {
	x := wideVal()
	for i, f := range []func(string, ...any) aitch.Node{html.Data, html.Aria, htmx.On} {
		p := []string{"data-", "aria-", "hx-on:"}[i]
		name := []string{"a", "hidden", "checked", "click"}[sym.Choice(4)]
		n := f(name, x.given)
		sym.Assert(n != nil && n.Name() == p+name, "the name is the prefix and the name given")
		expect(n, wideData(nil), wideCargo, " "+p+name+`="`+x.text+`"`, "the attribute is written with its value")
		expect(aitch.Element("i", f(name, x.given, "1", x.given), f(name+"b")), wideData(nil), wideCargo, "<i "+p+name+`="`+x.text+"1"+x.text+`" `+p+name+`b=""></i>`, "the attribute is written with its values")
	}
}

// C21_errors: errors of every kind, of the reader and of the writer.
func C21_errors() {
	i := sym.Choice(nErrKinds)
	bad := errKind(i)
	src := documents[sym.Choice(len(documents))]
	gen := generator(sym.Choice(2) == 1)
	if sym.Choice(2) == 0 {
		if i == 0 {
			return // the end of the input
		}
		k := []int{0, 1, len(src) / 2, len(src)}[sym.Choice(4)]
		k = min(k, len(src))
		var buf bytes.Buffer
		err := gen(&failReader{s: src[:k], n: 7, at: sym.Choice(2) == 1, err: bad}, &buf)
		sym.Assert(err != nil && errors.Is(err, bad), "the read error is reported")
		return
	}
	ok := &failWriter{failAt: -1}
	sym.Assert(gen(strings.NewReader(src), ok) == nil, "no error")
	at := []int{0, 1, 2, ok.n / 2, ok.n - 1}[sym.Choice(5)]
	w := &failWriter{failAt: at, once: sym.Choice(2) == 1, partial: sym.Choice(2), err: bad}
	err := gen(strings.NewReader(src), w)
	sym.Assert(err != nil && errors.Is(err, bad), "the write error is reported")
	sym.Assert(!w.after, "nothing is written after the failed write")
}

// C21_improper: tags opened some levels deep, of one or two names, then closed in any way.
func C21_improper() {
	isSvg := sym.Choice(2) == 1
	pat := []string{"p", "pb", "ppb", "pbb", "bpu"}[sym.Choice(5)]
	n := 3 + sym.Choice(4+2*sym.Tier())
	var src strings.Builder
	for i := 0; i < n; i++ {
		src.WriteString("<" + string(pat[i%len(pat)]) + ">" + strconv.Itoa(i))
	}
	ends := []string{"</p>", "</b>", "<b>x", "<br>y", "</z>z"}
	m := 1 + sym.Choice(3+sym.Tier())
	for i := 0; i < m; i++ {
		src.WriteString(ends[sym.Choice(len(ends))])
	}
	src.WriteString("end")
	rebuilds(src.String(), isSvg)
}

// C22_kinds: errors of every kind, of nodes and of the writer.
func C22_kinds() {
	bad := errKind(sym.Choice(nErrKinds))
	at := sym.Choice(3)
	m := aitch.NodeMap{}
	src, want := "", ""
	how := sym.Choice(5)
	for i := 0; i < 3; i++ {
		name := string([]byte{'a' + byte(i)})
		src += "{{" + name + " .}}-"
		if i < at {
			want += name + "-"
		}
		m[name] = aitch.Text(name)
		if i != at {
			continue
		}
		switch how {
		case 0:
			m[name] = aitch.Imperative(func(ic aitch.ImperativeContext) error { return bad })
		case 1:
			m[name] = aitch.Element("p", aitch.Text(func(ctx *context.Context) []byte { ctx.Error = bad; return nil }))
			want += "<p>"
		case 2:
			m[name] = ownNode{bad}
		case 3:
			m[name] = aitch.Collection(aitch.Text("w"), ownNode{bad}, aitch.Text("never"))
			want += "w"
		}
	}
	t, err := aitch.NewTemplate("t", src, m)
	sym.Assert(err == nil, "the template is made")
	if how == 4 {
		w := &failWriter{failAt: at, once: sym.Choice(2) == 1, partial: 2 * sym.Choice(2), err: bad}
		err = t.Execute(w, nil, nil)
		sym.Assert(w.failed && errors.Is(err, bad), "the write error is reported")
		sym.Assert(!w.after, "nothing is written after the failed write")
		return
	}
	var buf bytes.Buffer
	err = t.Execute(&buf, nil, nil)
	sym.Observe("out", buf.Bytes())
	sym.Assert(err != nil && errors.Is(err, bad), "the error is reported")
	sym.Assert(buf.String() == want, "output stops at the error")
	_ = io.EOF
}

// C24_chain: conditions in conditions, each asked exactly when all around it hold.
func C24_chain() {
	n := sym.Size(60, 4, 5, 6, 8, 12)
	form := sym.Choice(5)
	c := &caller{}
	truths := make([]bool, n)
	for i := range truths {
		truths[i] = true
	}
	// the first that does not hold, if any
	no := sym.Choice(n + 1)
	if no < n {
		truths[no] = false
		for i := no + 1; i < n; i++ {
			truths[i] = i%2 == 0
		}
	}
	v := rawVal(1)
	cond := func(id int, ns ...aitch.Node) aitch.Node {
		return aitch.Conditional(func(ctx *context.Context) bool {
			c.call(id, ctx)
			return truths[id]
		}, ns...)
	}
	attrs, text := "", ""
	var in aitch.Node
	for i := n - 1; i >= 0; i-- {
		s := string([]byte{'a' + byte(i%26)}) + strconv.Itoa(i)
		var own []aitch.Node
		if form != 1 {
			own = append(own, aitch.Attribute(s, v.given))
		}
		if form != 0 {
			own = append(own, aitch.Text(s, v.given))
		}
		if in != nil {
			switch form {
			case 3:
				in = aitch.Collection(aitch.Collection(in))
			}
			own = append(own, in)
		}
		if form == 4 {
			in = cond(i, aitch.Collection(own...))
		} else {
			in = cond(i, own...)
		}
	}
	for i := 0; i < n && i < no; i++ {
		s := string([]byte{'a' + byte(i%26)}) + strconv.Itoa(i)
		if form != 1 {
			attrs += " " + s + `="` + v.text + `"`
		}
		if form != 0 {
			text += s + v.text
		}
	}
	expect(aitch.Element("p", in), nil, 77, "<p"+attrs+">"+text+"</p>", "what stands under conditions that hold")
	asked := map[int]bool{}
	for _, id := range c.log {
		asked[id] = true
	}
	for i := 0; i < n; i++ {
		sym.Assert(asked[i] == (i <= no), "a condition is asked exactly when all enclosing ones hold")
	}
}
