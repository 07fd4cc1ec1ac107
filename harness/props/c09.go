package props

// Bounds: every position of the failing write in 14 node shapes and in reference trees of up to 3 nodes below an element
// (15 node kinds, with empty values and missing keys among them, nested), with the writer failing for good or once, after 0 or 1 bytes; an error already in the context;
// an error from an imperative function, from a node type of the user's own, or put into the context by a function,
// at 12 places of the tree with output before and after it, with and without a later failing write. Values are arbitrary bytes.
// Also errors of 19 kinds (io.EOF, short writes, wrapped, joined, empty, errno, own types) from the writer, functions,
// own nodes or the context; values of 1025 bytes (4097 in thorough runs) written, failing or following an error.
// Also: writers that are more than io.Writer; nodes and functions that write past the context after an error (lures.go).

import (
	"bytes"
	gocontext "context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"strings"
	"syscall"

	"aitchverif/sym"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
	"github.com/go-andiamo/aitch/css"
	"github.com/go-andiamo/aitch/html"
	"github.com/go-andiamo/aitch/htmx"
)

func init() {
	sym.Register("C09_shapes", C09_shapes)
	sym.Register("C09_trees", C09_trees)
	sym.Register("C09_preset", C09_preset)
	sym.Register("C09_origin", C09_origin)
	sym.Register("C09_first", C09_first)
	sym.Register("C09_kinds", C09_kinds)
	sym.Register("C09_big", C09_big)
}

func prefixOf(p, s []byte) bool {
	return len(p) <= len(s) && string(p) == string(s[:len(p)])
}

// failing renders n fault free, then with the k-th write failing, and asserts the error contract.
func failing(n aitch.Node, data map[string]any, cargo any) {
	free := &failWriter{failAt: -1}
	ctx := context.New(free, data, cargo)
	err := n.Render(ctx)
	sym.Assert(err == nil && ctx.Error == nil, "no error is reported when nothing fails")
	if free.n == 0 {
		return
	}
	w := &failWriter{failAt: sym.Choice(free.n), partial: sym.Choice(2), once: sym.Choice(2) == 1, err: errWrite}
	ctx = context.New(w, data, cargo)
	err = n.Render(ctx)
	sym.Assert(w.failed, "the write that fails is reached")
	sym.Assert(!w.after, "nothing is written after the failed write")
	sym.Assert(prefixOf(w.out, free.out), "what was written is a prefix of the fault-free output")
	sym.Assert(errors.Is(err, errWrite), "the write error is returned")
	sym.Assert(errors.Is(ctx.Error, errWrite), "the context keeps the write error")
}

// C09_shapes: every write of every shape fails once.
func C09_shapes() {
	n, _ := shape(sym.Choice(nShapes), raw(1), raw(1))
	failing(n, shapeData(letters(1), sym.Bool()), nil)
}

// faultLeaf is a node for C09_trees.
func faultLeaf(i int) aitch.Node {
	key := aitch.DynamicValueKey("k")
	v := rawVal(1).given
	switch i {
	case 0:
		return aitch.Text(v, key)
	case 1:
		return aitch.Comment(key, v)
	case 2:
		return aitch.Fragment(aitch.NewConcatValue(v, key, v), v)
	case 3:
		return aitch.PI("x", v, key)
	case 4:
		return html.Br(html.Id(key), aitch.When("k", html.Id(v)))
	case 5:
		return html.Class(v, key, v)
	case 6:
		return aitch.When("k", html.Title(v), html.Class(key), html.Hidden())
	case 7:
		return aitch.Attribute("id", aitch.NewConcatValue(v, key), v)
	case 8:
		return aitch.Imperative(func(ic aitch.ImperativeContext) error {
			ic.Start([]byte("b"), false, html.Id(key), html.Class(v, v))
			ic.WriteString("x")
			ic.WriteNodes(aitch.Text(v), html.B(v), aitch.Text(key))
			ic.WriteRaw([]byte("y"))
			ic.End()
			ic.Start([]byte("i"), false)
			ic.EndAll()
			return nil
		})
	case 9:
		return aitch.ContentCollect(func(*context.Context) []aitch.Node {
			return []aitch.Node{aitch.Text(v), html.B(key), aitch.Text(v)}
		})
	case 10:
		return aitch.Text(aitch.DynamicValueFunc(func(*context.Context) []byte { return []byte("f") }), v)
	}
	switch i {
	case 11:
		return html.Document("en", []any{v}, []any{key})
	case 12: // values that are empty: their writes fail too
		return html.P(html.Id(v, ""), html.Class("", v, []byte{}), html.Title(""), "", v, []byte{}, aitch.DynamicValueKey("none"))
	case 13:
		return aitch.Imperative(func(ic aitch.ImperativeContext) error {
			ic.Start([]byte{'b'}, false, html.Id(""), html.Class("", v))
			ic.WriteString("")
			ic.WriteRaw(nil)
			ic.WriteNodes(aitch.Text(""), aitch.Text(v, "", aitch.NewConcatValue("", v)))
			ic.EndAll()
			return nil
		})
	}
	return aitch.Collection(aitch.Comment(""), aitch.Text("", []byte(nil)), aitch.PI("x", ""), aitch.Fragment("", aitch.DynamicValueFunc(func(*context.Context) []byte { return nil })))
}

const nFaultLeaves = 15

// faultWrap puts nodes into a container.
func faultWrap(i int, ns ...aitch.Node) aitch.Node {
	switch i {
	case 0:
		return aitch.Collection(ns...)
	case 1:
		return aitch.Conditional(func(*context.Context) bool { return true }, ns...)
	case 2:
		return aitch.Iterate(func(*context.Context) []any { return []any{1, map[string]any{"k": "m"}} }, ns...)
	case 3:
		return aitch.IterateKey("l", ns...)
	case 4:
		return aitch.IterateYield(func(ctx *context.Context, yield func(any)) { yield("y"); yield("z") }, ns...)
	case 5:
		return aitch.ContentCollect(func(*context.Context) []aitch.Node { return ns })
	case 6:
		return aitch.Imperative(func(ic aitch.ImperativeContext) error {
			ic.WriteNodes(ns...)
			return nil
		})
	case 7:
		return aitch.Element("p", anysOf(ns)...)
	}
	return html.Document(nil, nil, anysOf(ns))
}

const nFaultWraps = 9

func anysOf(ns []aitch.Node) []any {
	r := make([]any, len(ns))
	for i, n := range ns {
		r[i] = n
	}
	return r
}

// C09_trees: two leaves and a trailing text within up to two containers within an element.
func C09_trees() {
	a := sym.Choice(nFaultLeaves)
	inner := faultWrap(sym.Choice(nFaultWraps), faultLeaf(a), aitch.Text("t"))
	var n aitch.Node
	if sym.Tier() > 0 {
		inner = faultWrap(sym.Choice(nFaultWraps), inner, faultLeaf((a+5)%nFaultLeaves), aitch.Text("u"))
	}
	n = html.Div(inner, "x")
	failing(n, map[string]any{"k": "d", "l": []int{1, 2}}, "c")
}

// C09_preset: a context that carries an error writes nothing.
func C09_preset() {
	var n aitch.Node
	if sym.Choice(2) == 0 {
		n, _ = shape(sym.Choice(nShapes), raw(1), raw(1))
	} else {
		n = faultWrap(sym.Choice(nFaultWraps), faultLeaf(sym.Choice(nFaultLeaves)), aitch.Text("t"))
	}
	w := &failWriter{failAt: -1}
	data := shapeData("d", true)
	ctx := context.New(w, data, nil)
	first := errors.New("first")
	ctx.Error = first
	err := n.Render(ctx)
	sym.Assert(w.n == 0, "a context with an error writes nothing")
	sym.Assert(err == first, "the first error is returned")
	sym.Assert(ctx.Error == first, "the first error is kept")
}

type ownNode struct{ err error }

func (o ownNode) Render(ctx *context.Context) error { return o.err }
func (o ownNode) Type() aitch.NodeType              { return aitch.TextNode }
func (o ownNode) Name() string                      { return "own" }

var errOwn = errors.New("own error")

// faulty is a node that reports errOwn without any write failing.
func faulty(i int) aitch.Node {
	switch i {
	case 0:
		return aitch.Imperative(func(ic aitch.ImperativeContext) error { return errOwn })
	case 1:
		return aitch.Imperative(func(ic aitch.ImperativeContext) error {
			ic.Start([]byte("b"), false)
			return errOwn
		})
	case 2:
		return ownNode{errOwn}
	case 3:
		return aitch.Text("v", aitch.DynamicValueFunc(func(ctx *context.Context) []byte {
			ctx.Error = errOwn
			return []byte("never")
		}), "w")
	case 4:
		return aitch.Imperative(func(ic aitch.ImperativeContext) error {
			ic.WriteRaw([]byte("r"))
			ic.Context().Error = errOwn
			ic.WriteString("s")
			ic.WriteNodes(aitch.Text("t"))
			ic.Start([]byte("b"), false, html.Id("i"))
			ic.EndAll()
			return nil
		})
	case 5:
		return aitch.ContentCollect(func(ctx *context.Context) []aitch.Node {
			ctx.Error = errOwn
			return []aitch.Node{aitch.Text("never")}
		})
	case 6:
		return aitch.Iterate(func(ctx *context.Context) []any {
			ctx.Error = errOwn
			return []any{1}
		}, aitch.Text("never"))
	case 7:
		return aitch.IterateYield(func(ctx *context.Context, yield func(any)) {
			yield(1)
			ctx.Error = errOwn
			yield(2)
		}, aitch.Text("i"))
	case 8:
		return aitch.Conditional(func(ctx *context.Context) bool {
			ctx.Error = errOwn
			return true
		}, aitch.Text("never"))
	}
	return aitch.Imperative(func(ic aitch.ImperativeContext) error {
		ic.WriteNodes(aitch.Text("m"), ownNode{errOwn}, aitch.Text("never"))
		return nil
	})
}

// faultyText is what faulty writes before its error.
var faultyText = []string{"", "<b>", "", "v", "r", "", "", "i", "", "m"}

// C09_origin: errors from functions and own nodes stop the output and are reported.
func C09_origin() {
	i := sym.Choice(len(faultyText))
	v := rawVal(1)
	before := aitch.Text(v.given)
	inner := faultWrap(sym.Choice(nFaultWraps), before, faulty(i), aitch.Text("after"))
	n := html.Div(inner, html.P("x"), "y")
	outer := sym.Choice(nFaultWraps + 1)
	if outer < nFaultWraps {
		n = faultWrap(outer, n, aitch.Text("z"))
	}
	w := &failWriter{failAt: -1}
	ctx := context.New(w, map[string]any{"l": []any{1}}, nil)
	err := n.Render(ctx)
	sym.Assert(errors.Is(err, errOwn), "the error is returned")
	sym.Assert(errors.Is(ctx.Error, errOwn), "the context keeps the error")
	out := string(w.out)
	tail := v.text + faultyText[i]
	sym.Assert(len(out) >= len(tail) && out[len(out)-len(tail):] == tail, "output stops at the error")
	// the same place without the error writes on
	sym.Observe("out", w.out)
}

// C09_first: the first of two errors is the one reported.
func C09_first() {
	i := sym.Choice(len(faultyText))
	second := errors.New("second")
	bad := []aitch.Node{ownNode{second}, aitch.Imperative(func(ic aitch.ImperativeContext) error { return second })}[sym.Choice(2)]
	n := faultWrap(sym.Choice(nFaultWraps), faulty(i), bad)
	w := &failWriter{failAt: -1}
	ctx := context.New(w, map[string]any{"l": []any{1}}, nil)
	err := n.Render(ctx)
	sym.Assert(errors.Is(err, errOwn), "the first error is returned")
	sym.Assert(errors.Is(ctx.Error, errOwn), "the context keeps the first error")
	// a failing write, then an imperative function that returns its own error
	w = &failWriter{failAt: sym.Choice(2), err: errWrite}
	n = faultWrap(sym.Choice(nFaultWraps), aitch.Text("a"), aitch.Imperative(func(ic aitch.ImperativeContext) error {
		ic.WriteString("b")
		return second
	}), bad)
	ctx = context.New(w, map[string]any{"l": []any{1}}, nil)
	err = n.Render(ctx)
	sym.Assert(w.failed, "a write fails")
	sym.Assert(errors.Is(err, errWrite), "the write error is returned, not a later one")
	sym.Assert(errors.Is(ctx.Error, errWrite), "the context keeps the write error, not a later one")
	sym.Assert(!w.after, "nothing after the failed write")
}

var sizes = []int{1025, 4097}

// C09_big: long values, written after an error and failing themselves.
func C09_big() {
	n := sizes[sym.Choice(1+sym.Tier())]
	s := strings.Repeat("x", n)
	b := []byte(s)
	var v any = b
	if sym.Choice(2) == 0 {
		v = s
	}
	var node aitch.Node
	switch sym.Choice(10) {
	case 0:
		node = aitch.Text("a", v, "b", v)
	case 1:
		node = html.P(html.Id(v, v), html.Class(v, "c", v), v)
	case 2:
		node = aitch.Comment(v, v)
	case 3:
		node = aitch.PI("x", v, v)
	case 4:
		node = aitch.NewElement(b, aitch.NewAttribute(b, v), aitch.NewBooleanAttribute(append([]byte("z"), b...)), v)
	case 5:
		node = aitch.Imperative(func(ic aitch.ImperativeContext) error {
			ic.WriteRaw(b)
			ic.WriteString(s)
			ic.Start(append([]byte("a"), b...), false, html.Id(v))
			ic.WriteNodes(aitch.Text(v))
			ic.EndAll()
			ic.WriteRaw(b)
			ic.WriteString(s)
			return nil
		})
	case 6:
		node = aitch.Fragment(aitch.NewConcatValue(v, "a", v), func(*context.Context) []byte { return b })
	case 7:
		node = html.Document(v, []any{v}, []any{v})
	case 8:
		node = html.P(css.Width(css.Px(v)), css.Color(v), htmx.Headers(htmx.HeadersMap{"a": v, "b": v}))
	case 9:
		node = aitch.IterateKey("l", aitch.Text(v), html.B(html.Id(v)))
	}
	node = faultWrap([]int{0, 3, 6, 7}[sym.Choice(4)], aitch.Text("t"), node, aitch.Text("u", v))
	data := map[string]any{"l": []int{1, 2}}
	if sym.Choice(2) == 0 {
		failing(node, data, nil)
		return
	}
	// an error before it: nothing of it is written
	i := sym.Choice(len(faultyText))
	w := &failWriter{failAt: -1}
	ctx := context.New(w, data, nil)
	outer := html.Div(faulty(i), node)
	if sym.Choice(2) == 0 {
		outer = aitch.Imperative(func(ic aitch.ImperativeContext) error {
			ic.Start([]byte("div"), false)
			ic.WriteNodes(faulty(i), node)
			ic.WriteRaw(b)
			ic.WriteString(s)
			ic.Start(b, false, html.Id(v))
			ic.EndAll()
			return nil
		})
	}
	err := outer.Render(ctx)
	sym.Assert(errors.Is(err, errOwn), "the error is returned")
	sym.Assert(string(w.out) == "<div>"+faultyText[i], "output stops at the error")
}

type emptyErr struct{}

func (emptyErr) Error() string { return "" }

type listErr []error

func (l listErr) Error() string { return "several" }

type deepErr struct{ in error }

func (d *deepErr) Error() string        { return "deep" }
func (d *deepErr) Unwrap() error        { return d.in }
func (d *deepErr) Timeout() bool        { return true }
func (d *deepErr) Temporary() bool      { return true }
func (d *deepErr) Is(target error) bool { return target == io.EOF }

// errKind is an error of some kind.
func errKind(i int) error {
	switch i {
	case 0:
		return io.EOF
	case 1:
		return io.ErrShortWrite
	case 2:
		return io.ErrClosedPipe
	case 3:
		return io.ErrUnexpectedEOF
	case 4:
		return errors.New("")
	case 5:
		return emptyErr{}
	case 6:
		return fmt.Errorf("wrapped: %w", io.EOF)
	case 7:
		return &deepErr{errOwn}
	case 8:
		return &deepErr{nil}
	case 9:
		return syscall.EPIPE
	case 10:
		return syscall.EAGAIN
	case 11:
		return errors.New("EOF")
	case 12:
		return io.ErrShortBuffer
	case 13:
		return errors.Join(io.EOF, errOwn)
	case 14:
		return gocontext.Canceled
	case 15:
		return gocontext.DeadlineExceeded
	case 16:
		return bytes.ErrTooLarge
	case 17:
		return io.ErrNoProgress
	}
	return &fs.PathError{Op: "write", Path: "x", Err: syscall.EINTR}
}

const nErrKinds = 19

// C09_kinds: errors of every kind, of the writer, of functions and of own nodes, are returned as they are.
func C09_kinds() {
	bad := errKind(sym.Choice(nErrKinds))
	data := shapeData("d", true)
	var n aitch.Node
	var cargo any
	from := sym.Choice(4)
	w := &failWriter{failAt: -1, err: bad}
	switch from {
	case 0: // the writer
		n, _ = shape(sym.Choice(nShapes), []byte("a"), []byte("b"))
		w.failAt = sym.Choice(4)
		w.once = sym.Choice(2) == 1
		w.partial = 2 * sym.Choice(2)
		n = html.Div(n, html.P("x", html.Id("i")))
	case 1: // a function
		how := sym.Choice(3)
		n = aitch.Imperative(func(ic aitch.ImperativeContext) error {
			ic.Start([]byte("b"), false)
			switch how {
			case 0:
				return bad
			case 1:
				ic.Context().Error = bad
			case 2:
				ic.WriteNodes(ownNode{bad})
			}
			ic.WriteRaw([]byte("never"))
			ic.EndAll()
			return nil
		})
		n = faultWrap(sym.Choice(nFaultWraps), n, aitch.Text("never"))
	case 2: // an own node
		n = faultWrap(sym.Choice(nFaultWraps), ownNode{bad}, aitch.Text("never"))
	case 3: // one given with the context
		n, _ = shape(sym.Choice(nShapes), []byte("a"), []byte("b"))
	}
	ctx := context.New(w, data, cargo)
	if from == 3 {
		ctx.Error = bad
	}
	err := n.Render(ctx)
	sym.Assert(err != nil && ctx.Error != nil, "an error is returned and kept")
	sym.Assert(errors.Is(err, bad) && errors.Is(ctx.Error, bad), "it is that error")
	sym.Assert(!w.after, "nothing is written after the failed write")
	sym.Assert(from != 0 || w.failed, "the write that fails is reached")
	sym.Assert(from != 3 || w.n == 0, "a context with an error writes nothing")
	sym.Assert(!strings.Contains(string(w.out), "never"), "output stops at the error")
}
