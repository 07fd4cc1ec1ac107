package props

// Bounds: templates of up to 2 pieces (3 in thorough runs), each one of: 0..2 arbitrary bytes of static text other than '<', '{' and
// '}'; a marker (with or without inner spaces) in text, in an attribute value, or in attribute position, for one of eight nodes
// reading data, cargo or neither; static tags. Data and cargo values of 1..2 arbitrary bytes; up to three executions of one
// template; every failing write, transient or permanent, with every partial count. html/template itself is represented by its
// contract for such texts (static text is copied, {{name .}} calls the function and writes the escaped result); natively replayed
// paths run the real one.
// Also values and nodes of every kind (wide.go) under markers.
// Up to 65 nodes and 130 markers, static text of up to 1025 bytes (more.go).
// Errors of 19 kinds from nodes and the writer (extra.go).
// Strings the code itself compares with, alone, with an arbitrary byte before or after, and after one another (words.go).
// Sizes include those at which the code itself makes a difference (constants of its comparisons, up to about 600).
// Also: uses repeated up to 70 times, with other uses in between (history.go).
// Also: writers that are more than io.Writer; cargoes, data and keys that nearly are what is looked for (lures.go).

import (
	"bytes"
	"errors"
	"strings"

	"aitchverif/sym"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
	"github.com/go-andiamo/aitch/html"
)

func init() {
	sym.Register("C22_errors", C22_errors)
	sym.Register("C22_faults", C22_faults)
	sym.Register("C22_markers", C22_markers)
	sym.Register("C22_nodes", C22_nodes)
	sym.Register("C22_repeat", C22_repeat)
	sym.Register("C22_unknown", C22_unknown)
	sym.Register("C22_wide", C22_wide)
}

// tnode is a node of a template and what it renders.
type tnode struct {
	name string
	attr bool
	node func() aitch.Node
	text func(k, cargo string) string
}

// tnodes read the key k, expected to be a string, and the cargo, expected to be a string.
var tnodes = []tnode{
	{"a", false, func() aitch.Node { return aitch.Text("a&", aitch.DynamicValueKey("k")) },
		func(k, c string) string { return "a&amp;" + refEscape(k) }},
	{"b_1", false, func() aitch.Node { return html.P(html.Id(aitch.DynamicValueKey(".")), "t") },
		func(k, c string) string { return `<p id="` + refEscape(c) + `">t</p>` }},
	{"When", false, func() aitch.Node { return aitch.When("k", html.Br(), aitch.Text(aitch.DynamicValueKey("k"))) },
		func(k, c string) string { return "<br>" + refEscape(k) }},
	{"not", false, func() aitch.Node { return aitch.When("!k", html.Br()) },
		func(k, c string) string { return "" }},
	{"e", false, func() aitch.Node {
		return aitch.Iterate(func(*context.Context) []any { return []any{"x", "y"} }, aitch.Text(aitch.DynamicValueKey("."), aitch.DynamicValueKey("k")))
	}, func(k, c string) string { return "x" + refEscape(k) + "y" + refEscape(k) }},
	{"fn", false, func() aitch.Node {
		return aitch.ContentCollect(func(ctx *context.Context) []aitch.Node {
			return []aitch.Node{aitch.Fragment([]byte("<!>"), ctx.Cargo), html.Br()}
		})
	}, func(k, c string) string { return "<!>" + refEscape(c) + "<br>" }},
	{"at", true, func() aitch.Node { return html.Id(aitch.DynamicValueKey("k")) },
		func(k, c string) string { return ` id="` + refEscape(k) + `"` }},
	{"cl", true, func() aitch.Node { return html.Class("c", aitch.DynamicValueKey(".")) },
		func(k, c string) string {
			return ` class="` + strings.Join([]string{"c", refEscape(c)}, " ") + `"`
		}},
}

func tmap() aitch.NodeMap {
	m := aitch.NodeMap{}
	for _, n := range tnodes {
		m[n.name] = n.node()
	}
	return m
}

// static is text of a template that html/template leaves alone.
func static(n int) string {
	s := sym.String(n, n)
	for i := 0; i < n; i++ {
		sym.Assume(s[i] != '<' && s[i] != '{' && s[i] != '}')
	}
	return s
}

// place1 is a piece of a template and what it renders.
func place1(i, n int, simple bool) (src string, want func(k, c string) string) {
	var t tnode
	if simple {
		t = tnodes[[]int{1, 2, 5, 7}[sym.Choice(4)]]
	} else {
		t = tnodes[sym.Choice(len(tnodes))]
	}
	m := "{{" + t.name + " .}}"
	if n < 3 && !simple && sym.Choice(2) == 1 {
		m = "{{ " + t.name + "  . }}"
	}
	if t.attr {
		return "<i " + m + ">", func(k, c string) string { return "<i " + t.text(k, c) + ">" }
	}
	if i == 0 && sym.Choice(2) == 1 {
		return `<b title="` + m + `">`, func(k, c string) string { return `<b title="` + t.text(k, c) + `">` }
	}
	return m, func(k, c string) string { return t.text(k, c) }
}

func fixed(s string) func(k, c string) string { return func(k, c string) string { return s } }

// pieces is a template and the text it renders.
func pieces(n int, simple bool) (src string, want func(k, c string) string) {
	var ws []func(k, c string) string
	for i := 0; i < n; i++ {
		switch sym.Choice(3) {
		case 0:
			s := static(2)
			src += s
			ws = append(ws, fixed(s))
		case 1:
			s, w := place1(i, n, simple)
			src += s
			ws = append(ws, w)
		case 2:
			s := []string{"<p class='x'>\n", "<!DOCTYPE html>", "&amp;</p><br/>"}[sym.Choice(3)]
			src += s
			ws = append(ws, fixed(s))
		}
	}
	return src, func(k, c string) string {
		out := ""
		for _, w := range ws {
			out += w(k, c)
		}
		return out
	}
}

func executed(t *aitch.Template, data map[string]any, cargo any, want, msg string) {
	var buf bytes.Buffer
	err := t.Execute(&buf, data, cargo)
	sym.Observe("out", buf.Bytes())
	sym.Assert(err == nil, "no error")
	sym.Assert(buf.String() == want, msg)
}

// C22_markers: text and markers.
func C22_markers() {
	src, want := pieces(1+sym.Choice(2+sym.Tier()), false)
	t, err := aitch.NewTemplate("t", src, tmap())
	sym.Assert(err == nil, "the template is made")
	k, c := sym.String(1, 1), sym.StringOf(1, 1, "c\"")
	executed(t, map[string]any{"k": k}, c, want(k, c), "static text and nodes in order")
}

// C22_nodes: a node renders in a template what it renders alone with the same data and cargo.
func C22_nodes() {
	var n aitch.Node
	switch sym.Choice(7) {
	case 0:
		n = html.P(html.Class("a", aitch.DynamicValueKey("k")), aitch.DynamicValueKey("."))
	case 1:
		n = aitch.Conditional(func(ctx *context.Context) bool { return ctx.Parent == nil && ctx.Cargo == nil }, html.B("x"))
	case 2:
		n = html.Document("en", nil, []any{aitch.DynamicValueKey("k")})
	case 3:
		n = aitch.Imperative(func(ic aitch.ImperativeContext) error {
			ic.Start([]byte("i"), false, html.Id(aitch.DynamicValueKey("k")))
			ic.WriteString("s")
			return nil
		})
	case 4:
		n = aitch.Collection(aitch.Text("a"), html.Id("b"), nil, aitch.Comment(aitch.DynamicValueKey("k")))
	case 5:
		n = aitch.IterateKey("k", aitch.Text(aitch.DynamicValueKey(".")))
	case 6:
		n = aitch.Text(func(ctx *context.Context) []byte {
			_, found := context.Get[string](ctx, "k")
			if found {
				return []byte("found")
			}
			return []byte("none")
		})
	}
	var data map[string]any
	switch sym.Choice(4) {
	case 0:
		data = map[string]any{"k": sym.String(2, 2)}
	case 1:
		data = map[string]any{"k": []string{sym.String(1, 1), "z"}}
	case 2:
		data = map[string]any{"k": sym.Bool()}
	}
	var cargo any
	switch sym.Choice(6) {
	case 0:
		cargo = sym.String(1, 1)
	case 1:
		cargo = map[string]any{"k": "cargo", ".": "dot"}
	case 2:
		cargo = struct{ k, K string }{"cargo", "cargo"}
	case 3:
		cargo = []string{"cargo"}
	case 4:
		cargo = &map[string]any{"k": "cargo"}
	}
	want, err := render(n, data, cargo)
	sym.Assert(err == nil, "no error alone")
	t, err := aitch.NewTemplate("t", "[{{n .}}]", aitch.NodeMap{"n": n})
	sym.Assert(err == nil, "the template is made")
	executed(t, data, cargo, "["+want+"]", "the node renders what it renders alone")
}

// C22_wide: values of every kind, in nodes of every kind.
func C22_wide() {
	x, _ := wideOne(false)
	var n aitch.Node
	switch sym.Choice(6) {
	case 0:
		n = aitch.Text("a", x.given, "b")
	case 1:
		n = html.P(html.Id(x.given), html.Class("c", x.given, "d"), x.given)
	case 2:
		n = aitch.Comment(x.given)
	case 3:
		n = aitch.Collection(aitch.Text(x.given), aitch.Iterate(func(*context.Context) []any { return []any{1, map[string]any{"ws": "item"}} }, aitch.Text(x.given)))
	case 4:
		n = aitch.When("wt", html.Br(html.Style(x.given)))
	case 5:
		n = aitch.Imperative(func(ic aitch.ImperativeContext) error {
			ic.Start([]byte("i"), true, html.Id(x.given))
			ic.WriteNodes(aitch.Fragment(x.given))
			return nil
		})
	}
	data := wideData(nil)
	if sym.Choice(4) == 0 {
		data = map[string]any{"wt": nil, "ws": "s"}
	}
	want, err := render(n, data, wideCargo)
	sym.Assert(err == nil, "no error alone")
	t, err := aitch.NewTemplate("t", "<p>{{n .}}</p>", aitch.NodeMap{"n": n})
	sym.Assert(err == nil, "the template is made")
	executed(t, data, wideCargo, "<p>"+want+"</p>", "the node renders what it renders alone")
}

// C22_repeat: one template, several executions with other data.
func C22_repeat() {
	src, want := pieces(2, true)
	m := tmap()
	t := aitch.MustNewTemplate("t", src, m)
	// later changes of the map do not matter
	m["a"] = aitch.Text("other")
	delete(m, "at")
	t2 := aitch.MustNewTemplate("t", "{{a .}}", m)
	k, c := "k", "&"
	executed(t, map[string]any{"k": k}, c, want(k, c), "first")
	k2, c2 := sym.String(1, 1), sym.StringOf(1, 1, "d<")
	executed(t, map[string]any{"k": k2}, c2, want(k2, c2), "second, with other data")
	executed(t2, nil, nil, "other", "another template")
	executed(t, map[string]any{"k": k}, c, want(k, c), "again, with the first data")
}

// C22_unknown: markers without a node.
func C22_unknown() {
	names := []string{"a", "b", "c"}
	m := aitch.NodeMap{}
	known := map[string]bool{}
	for _, n := range names {
		switch sym.Choice(3) {
		case 0:
			m[n] = aitch.Text(n)
			known[n] = true
		case 1:
			m[n] = nil
		}
	}
	if len(m) == 0 && sym.Choice(2) == 1 {
		m = nil
	}
	src, want := static(1), ""
	want = src
	ok := true
	for i := 0; i < 2; i++ {
		n := names[sym.Choice(3)]
		src += "{{" + n + " .}}"
		want += n
		ok = ok && known[n]
	}
	t, err := aitch.NewTemplate("t", src, m)
	sym.Assert((err == nil) == ok, "an error exactly when a marker has no node")
	sym.Assert((t != nil) == ok, "a template exactly when there is no error")
	panics := false
	func() {
		defer func() { panics = recover() != nil }()
		aitch.MustNewTemplate("t", src, m)
	}()
	sym.Assert(panics == !ok, "MustNewTemplate panics exactly when there is an error")
	if ok {
		executed(t, nil, nil, want, "the nodes")
	}
}

// C22_faults: a failing write.
func C22_faults() {
	src, want := pieces(2, true)
	t, err := aitch.NewTemplate("t", src, tmap())
	sym.Assert(err == nil, "the template is made")
	k, c := "k<", "c"
	data := map[string]any{"k": k}
	ok := &failWriter{failAt: -1}
	sym.Assert(t.Execute(ok, data, c) == nil, "no error")
	sym.Assert(string(ok.out) == want(k, c), "the fault-free output")
	w := &failWriter{failAt: sym.Choice(ok.n + 1), once: sym.Choice(2) == 1, partial: sym.Choice(3), err: errWrite}
	err = t.Execute(w, data, c)
	sym.Observe("out", w.out)
	sym.Assert(errors.Is(err, errWrite) == w.failed, "the write error is reported")
	sym.Assert(!w.after, "nothing is written after the failed write")
	sym.Assert(len(w.out) <= len(ok.out) && string(w.out) == string(ok.out[:len(w.out)]), "the output is a prefix")
	// the next execution is not affected
	executed(t, data, c, want(k, c), "the next execution")
}

// C22_errors: an error of a node.
func C22_errors() {
	errNode := errors.New("node failed")
	at := sym.Choice(3)
	m := aitch.NodeMap{}
	src, want := "", ""
	for i := 0; i < 3; i++ {
		name := string([]byte{'a' + byte(i)})
		src += "{{" + name + " .}}-"
		if i != at {
			m[name] = aitch.Text(name)
			want += name + "-"
			continue
		}
		if sym.Choice(2) == 0 {
			m[name] = aitch.Imperative(func(ic aitch.ImperativeContext) error {
				ic.WriteString("w")
				return errNode
			})
			src = strings.ReplaceAll(src, "!", "")
		} else {
			m[name] = aitch.Text("w", func(ctx *context.Context) []byte { ctx.Error = errNode; return nil })
		}
		want += "w"
	}
	want = want[:strings.Index(want, "w")+1]
	t, err := aitch.NewTemplate("t", src, m)
	sym.Assert(err == nil, "the template is made")
	var buf bytes.Buffer
	err = t.Execute(&buf, nil, nil)
	sym.Observe("out", buf.Bytes())
	sym.Assert(errors.Is(err, errNode), "the error is reported")
	sym.Assert(buf.String() == want, "output stops at the error")
}
