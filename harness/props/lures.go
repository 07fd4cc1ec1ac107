package props

// Harnesses with lures: writers with more methods than Write, and cargoes, items and data from which a value could be had in ways
// that are not the documented ones (methods, tags, other map types, dotted paths, the parent context).

import (
	"bufio"
	"bytes"
	"errors"
	"io"
	"strconv"
	"strings"

	"aitchverif/sym"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
	"github.com/go-andiamo/aitch/html"
	"github.com/go-andiamo/aitch/htmx"
)

func init() {
	sym.Register("C01_writers", C01_writers)
	sym.Register("C02_writers", C02_writers)
	sym.Register("C05_order", C05_order)
	sym.Register("C06_lures", C06_lures)
	sym.Register("C08_nested", C08_nested)
	sym.Register("C09_writers", C09_writers)
	sym.Register("C09_silent", C09_silent)
	sym.Register("C10_lures", C10_lures)
	sym.Register("C10_pointers", C10_pointers)
	sym.Register("C12_lures", C12_lures)
	sym.Register("C16_lures", C16_lures)
	sym.Register("C21_writers", C21_writers)
	sym.Register("C21_runes", C21_runes)
	sym.Register("C22_writers", C22_writers)
	sym.Register("C22_lures", C22_lures)
}

// ---- writers ----

// richWriter can do more than write; all of it ends up in the failWriter.
type richWriter struct{ *failWriter }

func (w richWriter) WriteString(s string) (int, error) { return w.Write([]byte(s)) }
func (w richWriter) WriteByte(b byte) error {
	_, err := w.Write([]byte{b})
	return err
}
func (w richWriter) WriteRune(r rune) (int, error) { return w.Write([]byte(string(r))) }
func (w richWriter) ReadFrom(r io.Reader) (int64, error) {
	b, err := io.ReadAll(r)
	n, werr := w.Write(b)
	if werr != nil {
		err = werr
	}
	return int64(n), err
}
func (w richWriter) Flush() error               { return nil }
func (w richWriter) Sync() error                { return nil }
func (w richWriter) Close() error               { return nil }
func (w richWriter) Len() int                   { return len(w.out) }
func (w richWriter) Cap() int                   { return 1 << 20 }
func (w richWriter) Size() int                  { return 4096 }
func (w richWriter) Available() int             { return 4096 }
func (w richWriter) Buffered() int              { return 0 }
func (w richWriter) Grow(int)                   {}
func (w richWriter) Bytes() []byte              { return w.out }
func (w richWriter) String() string             { return string(w.out) }
func (w richWriter) AvailableBuffer() []byte    { return nil }
func (w richWriter) Reset()                     { w.failWriter.out = nil }
func (w richWriter) Truncate(n int)             { w.failWriter.out = w.failWriter.out[:n] }
func (w richWriter) Read(p []byte) (int, error) { return 0, io.EOF }
func (w richWriter) Error() string              { return "" }
func (w richWriter) Err() error                 { return nil }
func (w richWriter) Unwrap() error              { return nil }

// flushWriter is flushed without a result, as responses are.
type flushWriter struct{ *failWriter }

func (w flushWriter) Flush()                                 { w.Write(nil) }
func (w flushWriter) WriteHeader(int)                        {}
func (w flushWriter) WriteString(s string) (int, error)      { return w.Write([]byte(s)) }
func (w flushWriter) WriteAt(p []byte, _ int64) (int, error) { return w.Write(p) }

type writeFunc func(p []byte) (int, error)

func (f writeFunc) Write(p []byte) (int, error) { return f(p) }

const nWriters = 4

// writerOf is a writer of some kind that writes to the failWriter.
func writerOf(i int, w *failWriter) io.Writer {
	switch i {
	case 0:
		return richWriter{w}
	case 1:
		return &flushWriter{w}
	case 2:
		return writeFunc(w.Write)
	}
	return struct {
		io.Writer
		io.StringWriter
		io.ByteWriter
	}{w, richWriter{w}, richWriter{w}}
}

// C01_writers: escaped whatever the writer is.
func C01_writers() {
	n := 1 + sym.Choice(2)
	s := sym.String(n, n)
	e := refEscape(s)
	w := &failWriter{failAt: -1}
	node := aitch.Collection(aitch.Text(s), html.P(html.Id(s), html.Class(s), s, aitch.Comment(s), aitch.Fragment(s), key("k")),
		aitch.Imperative(func(ic aitch.ImperativeContext) error { ic.WriteString(s); return nil }))
	err := node.Render(context.New(writerOf(sym.Choice(nWriters), w), map[string]any{"k": s}, nil))
	sym.Observe("out", w.out)
	sym.Assert(err == nil && string(w.out) == e+`<p id="`+e+`" class="`+e+`">`+e+"<!--"+e+"-->"+e+e+"</p>"+e, "escaped at every position")
}

// C02_writers: the same output to every writer.
func C02_writers() {
	node, spec := shape(sym.Choice(nShapes), raw(1), raw(1))
	k := letters(1)
	t := sym.Bool()
	node = html.Div(html.Id("i"), node, "t")
	data := shapeData(k, t)
	var plain bytes.Buffer
	sym.Assert(node.Render(context.New(&plain, data, nil)) == nil, "no error")
	sym.Assert(strings.Contains(plain.String(), spec(k, t)), "the content stands within the element")
	got := ""
	var err error
	switch i := sym.Choice(nWriters + 4); i {
	case nWriters:
		var sb strings.Builder
		err = node.Render(context.New(&sb, data, nil))
		got = sb.String()
	case nWriters + 1:
		var buf bytes.Buffer
		bw := bufio.NewWriterSize(&buf, 16)
		err = node.Render(context.New(bw, data, nil))
		sym.Assert(bw.Flush() == nil, "no error")
		got = buf.String()
	case nWriters + 2:
		var one, two bytes.Buffer
		err = node.Render(context.New(io.MultiWriter(&one, &two), data, nil))
		got = one.String()
		sym.Assert(two.String() == got, "both the same")
	case nWriters + 3: // what the writer holds already stays
		buf := bytes.NewBufferString("before")
		err = node.Render(context.New(buf, data, nil))
		got = strings.TrimPrefix(buf.String(), "before")
		sym.Assert(strings.HasPrefix(buf.String(), "before"), "what was there before")
	default:
		w := &failWriter{failAt: -1}
		err = node.Render(context.New(writerOf(i, w), data, nil))
		got = string(w.out)
	}
	sym.Assert(err == nil, "no error")
	sym.Assert(got == plain.String(), "the same to every writer")
}

// C09_writers: every write of writers that can do more fails once.
func C09_writers() {
	kind := sym.Choice(nWriters)
	var n aitch.Node
	data := shapeData("d", true)
	switch sym.Choice(2) {
	case 0:
		n, _ = shape(sym.Choice(nShapes), raw(1), []byte("b"))
		n = aitch.Collection(n, aitch.Fragment("a"), aitch.Text("b"), html.B("c"))
	case 1:
		n = html.Document("en", []any{html.TitleElement("t")}, []any{aitch.Fragment("a", []byte("bc")), html.P("x", html.Id("")), faultLeaf(sym.Choice(nFaultLeaves))})
	}
	free := &failWriter{failAt: -1}
	ctx := context.New(writerOf(kind, free), data, nil)
	sym.Assert(n.Render(ctx) == nil && ctx.Error == nil, "no error is reported when nothing fails")
	w := &failWriter{failAt: sym.Choice(free.n), partial: sym.Choice(2), once: sym.Choice(2) == 1, err: errWrite}
	ctx = context.New(writerOf(kind, w), data, nil)
	err := n.Render(ctx)
	sym.Assert(w.failed, "the write that fails is reached")
	sym.Assert(!w.after || kind == 1 && string(w.out) == string(free.out[:len(w.out)]), "nothing is written after the failed write")
	sym.Assert(prefixOf(w.out, free.out), "what was written is a prefix of the fault-free output")
	sym.Assert(errors.Is(err, errWrite) && errors.Is(ctx.Error, errWrite), "the write error is returned and kept")
}

// C21_writers: to and from readers and writers that can do more.
func C21_writers() {
	src := documents[sym.Choice(len(documents))]
	gen := generator(sym.Choice(2) == 1)
	var plain bytes.Buffer
	sym.Assert(gen(strings.NewReader(src), &plain) == nil, "no error")
	kind := sym.Choice(nWriters)
	w := &failWriter{failAt: -1}
	var r io.Reader = strings.NewReader(src)
	switch sym.Choice(3) {
	case 1:
		r = bytes.NewBufferString(src)
	case 2:
		r = bufio.NewReaderSize(strings.NewReader(src), 16)
	}
	sym.Assert(gen(r, writerOf(kind, w)) == nil, "no error")
	sym.Assert(string(w.out) == plain.String(), "the same code")
	at := []int{0, 1, w.n / 2, w.n - 1}[sym.Choice(4)]
	f := &failWriter{failAt: at, once: sym.Choice(2) == 1, partial: sym.Choice(2), err: errWrite}
	err := gen(strings.NewReader(src), writerOf(kind, f))
	sym.Assert(f.failed && errors.Is(err, errWrite), "the write error is reported")
	sym.Assert(!f.after || kind == 1, "nothing is written after the failed write")
	sym.Assert(prefixOf(f.out, plain.Bytes()), "what was written is a prefix")
}

// C22_writers: to writers that can do more.
func C22_writers() {
	src, want := pieces(1, true)
	t, err := aitch.NewTemplate("t", src, tmap())
	sym.Assert(err == nil, "the template is made")
	k, c := letters(1), "c"
	data := map[string]any{"k": k}
	kind := sym.Choice(nWriters)
	w := &failWriter{failAt: -1}
	sym.Assert(t.Execute(writerOf(kind, w), data, c) == nil, "no error")
	sym.Assert(string(w.out) == want(k, c), "the same to every writer")
	f := &failWriter{failAt: sym.Choice(w.n + 1), once: sym.Choice(2) == 1, err: []error{errWrite, io.EOF, io.ErrShortWrite, io.ErrClosedPipe}[sym.Choice(4)]}
	err = t.Execute(writerOf(kind, f), data, c)
	sym.Assert(errors.Is(err, f.err) == f.failed && (err != nil) == f.failed, "the write error is reported")
	sym.Assert(!f.after || kind == 1, "nothing is written after the failed write")
	sym.Assert(prefixOf(f.out, w.out), "the output is a prefix")
}

// C05_order: of conditions in each other the outer one is asked first, and the inner one only if it holds, for attributes too.
func C05_order() {
	depth := 2 + sym.Choice(3)
	truths := make([]bool, depth)
	for i := range truths {
		truths[i] = sym.Bool()
	}
	v := rawVal(1)
	wrongly := false
	holds := true
	var in aitch.Node
	all := true
	for i := 0; i < depth; i++ {
		all = all && truths[i]
	}
	for i := depth - 1; i >= 0; i-- {
		i := i
		fn := func(*context.Context) bool {
			for o := 0; o < i; o++ {
				if !truths[o] {
					wrongly = true
				}
			}
			return truths[i]
		}
		ns := []aitch.Node{in}
		if in == nil {
			ns = []aitch.Node{html.Id(v.given), html.Class("c"), aitch.Text("t")}
		}
		in = aitch.Conditional(fn, ns...)
		if sym.Choice(2) == 1 {
			in = aitch.Collection(in)
		}
	}
	_ = holds
	want := "<p></p>"
	if all {
		want = `<p id="` + v.text + `" class="c">t</p>`
	}
	expect(aitch.Element("p", in), nil, nil, want, "when all hold")
	sym.Assert(!wrongly, "an inner condition is not asked when an outer one does not hold")
}

// C08_nested: elements with attributes under conditions of different depths, rendered at the same time.
func C08_nested() {
	n := sym.Size(100, 3, 5, 9, 17, 33)
	form := sym.Choice(4)
	var args []any
	var own, cond string
	v := rawVal(1)
	for i := 0; i < n; i++ {
		var a aitch.Node
		s := "a" + strconv.Itoa(i)
		text := " " + s + `="` + v.text + `"`
		switch (i + form) % 4 {
		case 0:
			a = aitch.Conditional(yes, aitch.Conditional(yes, aitch.Conditional(yes, aitch.Attribute(s, v.given))))
			cond += text
		case 1:
			a = aitch.Attribute(s, v.given)
			own += text
		case 2:
			a = aitch.Conditional(yes, aitch.DelimitedAttribute(s, ";", v.given))
			cond += text
		case 3:
			a = aitch.When("k", aitch.Collection(aitch.When("k", aitch.BooleanAttribute(s))))
			cond += " " + s
		}
		args = append(args, a)
	}
	void := sym.Choice(2) == 1
	node, end := html.P(args...), "></p>"
	if void {
		node, end = html.Br(args...), ">"
	}
	name := node.Name()
	want := "<" + name + own + cond + end
	data := map[string]any{"k": 1}
	expect(node, nil, nil, want[:0]+"<"+name+own+without(cond)+end, "without the key")
	sym.Concurrent(func(id int) {
		out, err := render(node, data, nil)
		sym.Assert(err == nil && out == want, "concurrent render")
	})
	expect(node, data, nil, want, "afterwards")
}

// without is the attributes but those without a value.
func without(attrs string) string {
	out := ""
	for _, a := range strings.SplitAfter(attrs, " a")[1:] {
		a = " a" + strings.TrimSuffix(a, " a")
		if strings.Contains(a, "=") {
			out += a
		}
	}
	return out
}

// ---- lures ----

// getter has a value by many ways.
type getter map[string]any

func (g getter) at(k string) any { return g[k] }

type getAny struct{ g getter }

func (g getAny) Get(k string) any            { return g.g[k] }
func (g getAny) Value(k any) any             { return g.g[k.(string)] }
func (g getAny) Lookup(k string) (any, bool) { v, ok := g.g[k]; return v, ok }
func (g getAny) Has(k string) bool           { _, ok := g.g[k]; return ok }
func (g getAny) Data() map[string]any        { return g.g }
func (g getAny) Map() map[string]any         { return g.g }
func (g getAny) ToMap() map[string]any       { return g.g }
func (g getAny) AsMap() map[string]any       { return g.g }
func (g getAny) Keys() []string              { return []string{"K"} }
func (g getAny) Field(k string) any          { return g.g[k] }
func (g getAny) K() any                      { return g.g["K"] }
func (g getAny) GetK() any                   { return g.g["K"] }
func (g getAny) Unwrap() any                 { return map[string]any(g.g) }
func (g getAny) Cargo() any                  { return map[string]any(g.g) }
func (g getAny) Items() []any                { return []any{g.g["K"]} }
func (g getAny) All() []any                  { return []any{g.g["K"]} }
func (g getAny) Range(f func(k, v any) bool) { f("K", g.g["K"]) }

type getStr struct{ v string }

func (g getStr) Get(string) string            { return g.v }
func (g getStr) Lookup(string) (string, bool) { return g.v, true }
func (g getStr) Value(string) string          { return g.v }
func (g getStr) K() string                    { return g.v }
func (g *getStr) GetK() string                { return g.v }

type getMore struct{ g getter }

func (g getMore) Get(k string) (any, bool)   { v, ok := g.g[k]; return v, ok }
func (g getMore) Load(k any) (any, bool)     { v, ok := g.g[k.(string)]; return v, ok }
func (g getMore) Lookup(k string) any        { return g.g[k] }
func (g getMore) Value() any                 { return map[string]any(g.g) }
func (g getMore) At(k string) any            { return g.g[k] }
func (g getMore) Find(k string) (any, error) { return g.g[k], nil }

type tagged struct {
	Other  string `json:"K" aitch:"K" yaml:"K" form:"K" db:"K" xml:"K" html:"K" template:"K" name:"K"`
	Second any    `json:"K,omitempty"`
}

type strKey string
type mapOfStr map[string]string

const nLures = 26

// lure has v under the key K in some way that is not that of data.
func lure(i int, v string) any {
	g := getter{"K": v}
	switch i {
	case 0:
		return getAny{g}
	case 1:
		return &getAny{g}
	case 2:
		return getStr{v}
	case 3:
		return &getStr{v}
	case 4:
		return getMore{g}
	case 5:
		return tagged{v, v}
	case 6:
		return &tagged{v, v}
	case 7:
		return map[any]any{"K": v}
	case 8:
		return []any{"K", v}
	case 9:
		return [][2]string{{"K", v}}
	case 10:
		return func(string) any { return v }
	case 11:
		return func(string) (any, bool) { return v, true }
	case 12:
		return func() map[string]any { return g }
	case 13:
		return `{"K":"` + v + `"}`
	case 14:
		return []byte("K=" + v)
	case 15:
		return &getMore{g}
	case 16:
		return &context.Context{Data: g, Cargo: map[string]any(g)}
	case 17:
		return context.Context{Data: g}
	case 18:
		return []map[string]any{g}
	case 19:
		return [1]map[string]any{g}
	case 20:
		return func() any { return nil }
	case 21:
		return map[int]string{0: v}
	case 22:
		return map[[1]string]any{{"K"}: v}
	case 23:
		p := any(g)
		return &p
	case 24:
		m := map[string]any(g)
		p := &m
		return &p
	}
	p := &struct{ K any }{v}
	return &p
}

// lureText is what a lure is as a value.
func lureText(i int, v string) string {
	switch i {
	case 13:
		return "{&quot;K&quot;:&quot;" + v + "&quot;}"
	case 14:
		return "K=" + v
	}
	return ""
}

// maps is a cargo or item that is a map or struct with the key.
func lureMap(i int, v string) any {
	g := getter{"K": v}
	switch i {
	case 0:
		return map[string]string{"K": v}
	case 1:
		return mapOfStr{"K": v}
	case 2:
		return map[strKey]any{"K": v}
	case 3:
		return g
	case 4:
		m := map[string]any(g)
		return &m
	case 5:
		return struct{ K string }{v}
	case 6:
		return &struct{ K any }{v}
	case 7:
		return map[string][]byte{"K": []byte(v)}
	}
	return map[string][]string{"K": {v}}
}

const nLureMaps = 9

// dotted are keys that could be read as ways to K.
var dotted = []string{"d.K", "d/K", "d[K]", "d:K", "d K", "d->K", ".d.K", "$.d.K", "d.", ".K", "k", "K ", " K", "K.", "K!", "$K", "{{.K}}", "{K}", "%K", "@K", "?K", "K?", "^K", "../K", "K|d", "d,K", "!!K"}

// C12_lures: absent keys are nothing, whatever the cargo, the data and the parent are.
func C12_lures() {
	v := letters(1)
	var cargo any
	text := ""
	i := sym.Choice(nLures + nLureMaps)
	if i < nLures {
		cargo, text = lure(i, v), lureText(i, v)
	} else {
		cargo = lureMap(i-nLures, v)
	}
	switch sym.Choice(3) {
	case 0:
		data := map[string]any{"x": 1, "d": cargo}
		if sym.Choice(2) == 0 {
			data = nil
		}
		expect(html.P(key("K"), html.Id(key("K"), "i"), key(".")), data, cargo, `<p id="i">`+text+"</p>", "not from the cargo")
	case 1:
		k := dotted[sym.Choice(len(dotted))]
		m := map[string]any{"d": cargo, "K": "no"}
		expect(html.P(key(k), html.Id(key(k), "i")), m, cargo, `<p id="i"></p>`, "no way through the data")
		m[k] = v
		expect(html.P(key(k), html.Id(key(k), "i")), m, cargo, `<p id="`+v+`i">`+v+"</p>", "the very key")
	case 2:
		ctx := &context.Context{Data: map[string]any{"x": 1}, Cargo: cargo, Parent: &context.Context{Data: map[string]any{"K": v}, Cargo: map[string]any{"K": v}}}
		if sym.Choice(2) == 0 {
			ctx.Data = nil
		}
		expectIn(aitch.Text(key("K"), "|", key(".")), ctx, "|"+text, "not from the parent")
	}
}

// C06_lures: a key is present in the data or not at all.
func C06_lures() {
	v := letters(1)
	var cargo any
	i := sym.Choice(nLures + nLureMaps)
	if i < nLures {
		cargo = lure(i, v)
	} else {
		cargo = lureMap(i-nLures, v)
	}
	node := func(k string) aitch.Node {
		return html.P(aitch.When(key(k), aitch.Text("1"), html.Id("1")), aitch.When(key("!"+k), aitch.Text("0"), html.Title("0")))
	}
	const absent, present = `<p title="0">0</p>`, `<p id="1">1</p>`
	switch sym.Choice(3) {
	case 0:
		data := map[string]any{"x": 1}
		if sym.Choice(2) == 0 {
			data = nil
		}
		expect(node("K"), data, cargo, absent, "not by the cargo")
	case 1:
		k := dotted[sym.Choice(len(dotted))]
		m := map[string]any{"d": cargo, "K": "no"}
		if sym.Choice(8) == 0 {
			m["d"] = map[string]any{"K": v}
		}
		if k[0] != '!' {
			expect(node(k), m, cargo, absent, "no way through the data")
			m[k] = v
			expect(node(k), m, cargo, present, "the very key")
			m[k] = false
			expect(node(k), m, cargo, absent, "the very key, false")
		}
		m["K"] = cargo
		expect(node("K"), m, nil, present, "a value of any kind")
	case 2:
		ctx := &context.Context{Data: map[string]any{"x": 1}, Cargo: cargo, Parent: &context.Context{Data: map[string]any{"K": v}, Cargo: map[string]any{"K": v}}}
		if sym.Choice(2) == 0 {
			ctx.Data = nil
		}
		expectIn(node("K"), ctx, absent, "not by the parent")
	}
}

// C10_lures: items that are no map[string]any leave the data as it is; keys find what the data has.
func C10_lures() {
	v := letters(1)
	var it any
	text := ""
	i := sym.Choice(nLures + nLureMaps)
	if i < nLures {
		it, text = lure(i, v), lureText(i, v)
	} else {
		it = lureMap(i-nLures, v)
	}
	data := map[string]any{"o": "O", "e": "e", "l": []any{it, 1}}
	nodes := []aitch.Node{aitch.Text("("), aitch.Text(key("K"), key("o"), key(".")), aitch.When("K", aitch.Text("never")), aitch.Text(")")}
	switch sym.Choice(2) {
	case 0:
		seen := 0
		nodes = append(nodes, aitch.Imperative(func(ic aitch.ImperativeContext) error {
			if seen++; len(ic.Context().Data) != 3 || ic.Context().Data["o"] != any("O") {
				ic.WriteString("other data")
			}
			return nil
		}))
		runIter(source(sym.Choice(3), []any{it, 1}, nodes...), data, "(O"+text+")(O1)", "the data of the outer context")
	case 1:
		k := "K"
		if j := sym.Choice(len(dotted) + 1); j < len(dotted) {
			k = dotted[j]
		}
		d := map[string]any{"d": it}
		if k != "K" {
			d["K"] = []any{1}
		}
		var buf bytes.Buffer
		ctx := context.New(&buf, d, it)
		ctx.Parent = &context.Context{Data: map[string]any{k: []any{1}}}
		expectIn(aitch.IterateKey(k, nodes...), ctx, "", "no items for an absent key")
	}
}

type ptrItem struct{ N string }

func (p *ptrItem) String() string { return p.N }

// C10_pointers: the items are the elements themselves.
func C10_pointers() {
	v := letters(1)
	p, q := &ptrItem{v}, &ptrItem{"q"}
	m1, m2 := map[string]any{"K": v}, map[string]any{"K": "2"}
	s := "s"
	var want []any
	var l any
	switch sym.Choice(11) {
	case 0:
		l, want = []*ptrItem{p, q, p}, []any{p, q, p}
	case 1:
		l, want = []*map[string]any{&m1, &m2}, []any{&m1, &m2}
	case 2:
		l, want = []*string{&s, nil, &s}, []any{&s, (*string)(nil), &s}
	case 3:
		l, want = []ptrItem{{v}, {"q"}}, []any{ptrItem{v}, ptrItem{"q"}}
	case 4:
		l, want = []interface{ String() string }{p, strer{"x"}}, []any{p, strer{"x"}}
	case 5:
		l, want = []chan int{nil}, []any{(chan int)(nil)}
	case 6:
		l, want = [][2]string{{v, "b"}, {"c"}}, []any{[2]string{v, "b"}, [2]string{"c", ""}}
	case 7:
		pp := &p
		l, want = []**ptrItem{pp}, []any{pp}
	case 8:
		l, want = []keyName{keyName(v), "b"}, []any{keyName(v), keyName("b")}
	case 9:
		l, want = []any{p, &m1, strer{v}, 1.5, nil}, []any{p, &m1, strer{v}, 1.5, nil}
	case 10:
		l, want = []error{errOwn, nil}, []any{errOwn, nil}
	}
	i := 0
	right := true
	n := aitch.IterateKey("l", aitch.Imperative(func(ic aitch.ImperativeContext) error {
		if i >= len(want) || ic.Context().Cargo != want[i] || ic.Context().Data["o"] != any("O") {
			right = false
		}
		i++
		return nil
	}))
	expect(n, map[string]any{"l": l, "o": "O"}, nil, "", "nothing is written")
	sym.Assert(right && i == len(want), "every item is the element itself")
}

// C16_lures: found by name in a string-keyed map or a struct, and in no other way.
func C16_lures() {
	v := letters(1)
	k := "K"
	ctx := context.New(nil, nil, nil)
	var want any
	i := sym.Choice(nLures + nLureMaps)
	if i < nLures {
		ctx.Cargo = lure(i, v)
	} else {
		ctx.Cargo = lureMap(i-nLures, v)
		switch i - nLures {
		case 7:
			want = []byte(v)
		case 8:
			want = []string{v}
		default:
			want = v
		}
	}
	if i == 3 || i == 1 { // also by a struct that embeds it
		if sym.Choice(2) == 1 {
			ctx.Cargo = struct{ *getStr }{&getStr{v}}
		}
	}
	switch sym.Choice(3) {
	case 1:
		k = dotted[sym.Choice(len(dotted))]
		want = nil
	case 2: // the data is looked at by the very key too
		ctx.Data = map[string]any{"d": ctx.Cargo, "D": map[string]any{"K": v}}
	}
	ctx.Parent = &context.Context{Data: map[string]any{k: v}, Cargo: map[string]any{k: v}}
	gs, ok := try[string](ctx, k)
	ws, is := want.(string)
	sym.Assert(ok == is && gs == ws, "a string: in no other way")
	ga, ok := context.Get[any](ctx, k)
	sym.Assert(ok == (want != nil), "anything: in no other way")
	_ = ga
	gb, ok := context.Get[[]byte](ctx, k)
	_, is = want.([]byte)
	sym.Assert(ok == is && (!is || string(gb) == v), "bytes: in no other way")
}

// C22_lures: markers are given the data and cargo of the execution, whatever they are.
func C22_lures() {
	v := letters(1)
	i := sym.Choice(nLures + nLureMaps)
	var cargo any
	text := ""
	if i < nLures {
		cargo, text = lure(i, v), lureText(i, v)
	} else {
		cargo = lureMap(i-nLures, v)
	}
	same := true
	m := aitch.NodeMap{"a": aitch.Text(key("K"), "|", key("."), "|", key("o")), "b": aitch.Imperative(func(ic aitch.ImperativeContext) error {
		if i == 1 || i == 3 || i == 6 || i == 16 {
			same = ic.Context().Cargo == cargo
		}
		ic.WriteString(strconv.Itoa(len(ic.Context().Data)))
		return nil
	})}
	t := aitch.MustNewTemplate("t", "<p>{{a .}}</p>{{b .}}", m)
	data := map[string]any{"o": "O", "d": cargo}
	if sym.Choice(2) == 0 {
		executed(t, nil, cargo, "<p>|"+text+"|</p>0", "no data")
	} else {
		executed(t, data, cargo, "<p>|"+text+"|O</p>2", "data")
	}
	sym.Assert(same, "the cargo itself")
	_ = htmx.AttrGet
}

// runes that are written or treated specially here and there.
var specialRunes = []string{
	"\u0000", "\u0001", "\u0007", "\b", "\t", "\n", "\v", "\f", "\r", "\u001b", " ", "\"", "#", "$", "%", "&", "'", "`", "\\", "/", "<", ">", "{", "}", "\u007f",
	"\u0080", "\u0085", "\u0092", "\u009f", "\u00a0", "\u00ad", "\u00b5", "\u00df", "\u00e9", "\u00ff", "\u0130", "\u0131", "\u017f", "\u01c5", "\u0300", "\u0378", "\u061c", "\u1680", "\u180e",
	"\u2000", "\u200a", "\u200b", "\u200c", "\u200d", "\u200e", "\u200f", "\u2028", "\u2029", "\u202a", "\u202e", "\u202f", "\u205f", "\u2060", "\u2066", "\u2069", "\u20ac", "\u212a", "\u3000",
	"\ud7ff", "\ue000", "\uf8ff", "\ufdd0", "\ufe0f", "\ufeff", "\ufff9", "\ufffc", "\ufffd", "\ufffe", "\uffff",
	"\U00010000", "\U0001d11e", "\U0001f600", "\U0001ffff", "\U000e0001", "\U000e0100", "\U000f0000", "\U0010fffd", "\U0010ffff",
	"\x80", "\xbf", "\xc0", "\xc0\x80", "\xc2", "\xe2\x80", "\xed\xa0\x80", "\xed\xbf\xbf", "\xf0\x9f", "\xf4\x90\x80\x80", "\xfe", "\xff", "e\u0301", "\r\n", "\n\r", "\\n", "\\u2028", "&#x2028;", "&#0;", "&#128;", "&#xd800;", "&#x110000;", "&lt;", "&nbsp;", "&notit;", "&NotEqualTilde;",
}

// C21_runes: characters that are special somewhere, everywhere.
func C21_runes() {
	r := specialRunes[sym.Choice(len(specialRunes))]
	src := ""
	switch sym.Choice(9) {
	case 0:
		src = "<p>a" + r + "b</p>"
	case 1:
		src = "<p>" + r + "</p>" + r
	case 2:
		src = `<p id="a` + r + `b" x="` + r + `">`
	case 3:
		src = "<!--a" + r + "b-->"
	case 4:
		src = "<!DOCTYPE a" + r + "b><i>"
	case 5:
		src = "<script>" + r + "b</script>"
	case 6:
		src = "<p a" + r + "b=c " + r + "d>"
	case 7:
		src = "<p" + r + "b>x</p" + r + "b>"
	case 8:
		src = "<textarea>\n" + r + r + "</textarea><title>" + r + "</title>"
	}
	rebuilds(src, sym.Choice(2) == 1)
}

// C09_silent: nothing that a tree holds writes after an error, even what writes past the context.
func C09_silent() {
	w := &failWriter{failAt: 1 << 30, err: errWrite}
	over := false // the error has happened
	shout := func(ctx *context.Context) {
		if over {
			_, _ = ctx.Writer.Write([]byte("#"))
		}
	}
	var failing aitch.Node
	switch sym.Choice(10) {
	case 6:
		failing = loudNode{func(ctx *context.Context) error { over = true; ctx.Error = errWrite; return nil }}
	case 7:
		failing = loudNode{func(ctx *context.Context) error { over = true; ctx.Error = errWrite; return errOwn }}
	case 8:
		failing = aitch.Imperative(func(ic aitch.ImperativeContext) error { over = true; ic.Context().Error = errWrite; return errOwn })
	case 9:
		failing = aitch.Imperative(func(ic aitch.ImperativeContext) error {
			ic.WriteNodes(loudNode{func(ctx *context.Context) error { over = true; ctx.Error = errWrite; return nil }}, aitch.Text("#"))
			ic.WriteString("#")
			ic.WriteRaw([]byte("#"))
			ic.Start([]byte("#"), false)
			ic.End()
			return nil
		})
	case 0:
		failing = aitch.Imperative(func(ic aitch.ImperativeContext) error { over = true; return errWrite })
	case 1:
		failing = loudNode{func(ctx *context.Context) error { over = true; return errWrite }}
	case 2:
		failing = aitch.Text(func(ctx *context.Context) []byte { over = true; ctx.Error = errWrite; return []byte("#") })
	case 3:
		failing = aitch.ContentCollect(func(ctx *context.Context) []aitch.Node { over = true; ctx.Error = errWrite; return nil })
	case 4:
		failing = aitch.Text(func(ctx *context.Context) []byte { over = true; w.failAt = w.n; return []byte("#") })
	case 5:
		failing = aitch.Conditional(func(ctx *context.Context) bool { over = true; ctx.Error = errWrite; return true }, aitch.Text("#"))
	}
	var loud aitch.Node
	switch sym.Choice(8) {
	case 0:
		loud = loudNode{func(ctx *context.Context) error { shout(ctx); return nil }}
	case 1:
		loud = aitch.Text(func(ctx *context.Context) []byte { shout(ctx); return nil })
	case 2:
		loud = aitch.Conditional(func(ctx *context.Context) bool { shout(ctx); return true }, aitch.Text("#"))
	case 3:
		loud = aitch.Iterate(func(ctx *context.Context) []any { shout(ctx); return []any{1} }, aitch.Text("#"))
	case 4:
		loud = aitch.IterateYield(func(ctx *context.Context, yield func(any)) { shout(ctx); yield(1) }, aitch.Text("#"))
	case 5:
		loud = aitch.ContentCollect(func(ctx *context.Context) []aitch.Node { shout(ctx); return []aitch.Node{aitch.Text("#")} })
	case 6:
		loud = aitch.Imperative(func(ic aitch.ImperativeContext) error { shout(ic.Context()); return nil })
	case 7:
		loud = html.I(aitch.Fragment(func(ctx *context.Context) []byte { shout(ctx); return nil }))
	}
	if sym.Choice(3) == 0 {
		over = true
		ctx := &context.Context{Data: map[string]any{"l": []int{1, 2}}, Writer: w, Error: errWrite}
		err := faultWrap(sym.Choice(nFaultWraps), loud, html.B(loud)).Render(ctx)
		sym.Assert(err == errWrite && ctx.Error == errWrite && len(w.out) == 0, "nothing is written to a context with an error")
		err = loud.Render(ctx)
		if _, ok := loud.(loudNode); !ok {
			sym.Assert(err == errWrite && ctx.Error == errWrite && len(w.out) == 0, "nothing is written to a context with an error")
		}
		return
	}
	k := sym.Choice(nFaultWraps)
	n := faultWrap(k, failing, loud, html.B(loud))
	k = sym.Choice(nFaultWraps)
	n = faultWrap(k, n, loud, html.B(loud))
	ctx := &context.Context{Data: map[string]any{"l": []int{1, 2}}, Writer: w}
	err := n.Render(ctx)
	sym.Assert(err == errWrite && ctx.Error == errWrite, "the error is returned and kept")
	sym.Assert(!w.after && !bytes.Contains(w.out, []byte("#")), "nothing is written after the error")
}

type loudNode struct{ fn func(*context.Context) error }

func (l loudNode) Render(ctx *context.Context) error { return l.fn(ctx) }
func (l loudNode) Type() aitch.NodeType              { return aitch.ElementNode }
func (l loudNode) Name() string                      { return "loud" }
