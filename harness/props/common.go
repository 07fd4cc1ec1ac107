// Package props holds the harnesses: each states one property over aitch's public API for symbolic inputs.
package props

import (
	"bytes"
	"errors"
	"strings"

	"aitchverif/sym"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
)

// refEscape is the specification of HTML escaping.
func refEscape(s string) string {
	out := []byte{}
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case 0:
		case '<':
			out = append(out, "&lt;"...)
		case '>':
			out = append(out, "&gt;"...)
		case '&':
			out = append(out, "&amp;"...)
		case '"':
			out = append(out, "&quot;"...)
		case '\'':
			out = append(out, "&apos;"...)
		default:
			out = append(out, s[i])
		}
	}
	return string(out)
}

// render renders a node and returns what was written.
func render(n aitch.Node, data map[string]any, cargo any) (string, error) {
	var buf bytes.Buffer
	err := n.Render(context.New(&buf, data, cargo))
	return buf.String(), err
}

// expectIn is expect with a context made by the harness, whose writer it replaces.
func expectIn(n aitch.Node, ctx *context.Context, want string, msg string) {
	var buf bytes.Buffer
	ctx.Writer = &buf
	err := n.Render(ctx)
	sym.Observe("out", buf.Bytes())
	sym.Assert(err == nil && ctx.Error == nil, msg+": no error")
	sym.Assert(buf.String() == want, msg)
}

// expect asserts that a node renders to want without error.
func expect(n aitch.Node, data map[string]any, cargo any, want string, msg string) {
	got, err := render(n, data, cargo)
	sym.Observe("out", []byte(got))
	sym.Assert(err == nil, msg+": no error")
	sym.Assert(got == want, msg)
}

// raw is a symbolic byte slice of length n, rendered verbatim.
func raw(n int) []byte { return sym.Bytes(n, n) }

// letters is a symbolic lower case string of length n.
func letters(n int) string { return sym.StringOf(n, n, "abcdefghijklmnopqrstuvwxyz") }

type strer struct{ s string }

func (s strer) String() string { return s.s }

type pstrer struct{ s string }

func (s *pstrer) String() string { return s.s }

// ---- reference model of node trees ----

type kind int

const (
	kText kind = iota
	kFragment
	kComment
	kPI
	kElem
	kVoid
	kColl
	kCond
	kAttr
	kBool
	kDelim
	kCollect
	kNil
)

// val is one value: what is given to the API, and the text it stands for.
type val struct {
	given any
	text  string
}

// rn is a node of the reference model.
type rn struct {
	k     kind
	name  string
	delim string
	vals  []val
	kids  []*rn
	truth bool        // kCond: the truth of the condition
	fn    func() bool // kCond: if set, the condition itself
	made  func() aitch.Node
}

func givens(vs []val) []any {
	r := make([]any, 0, len(vs))
	for _, v := range vs {
		r = append(r, v.given)
	}
	return r
}

func (r *rn) nodes() []aitch.Node {
	ns := make([]aitch.Node, 0, len(r.kids))
	for _, c := range r.kids {
		ns = append(ns, c.build())
	}
	return ns
}

func (r *rn) anys() []any {
	ns := make([]any, 0, len(r.kids))
	for _, c := range r.kids {
		if n := c.build(); n != nil {
			ns = append(ns, n)
		} else {
			ns = append(ns, nil)
		}
	}
	return ns
}

// build makes the real node.
func (r *rn) build() aitch.Node {
	if r == nil {
		return nil
	}
	if r.made != nil {
		return r.made()
	}
	switch r.k {
	case kText:
		return aitch.Text(givens(r.vals)...)
	case kFragment:
		return aitch.Fragment(givens(r.vals)...)
	case kComment:
		return aitch.Comment(givens(r.vals)...)
	case kPI:
		return aitch.PI(r.name, givens(r.vals)...)
	case kElem:
		return aitch.NewElement([]byte(r.name), r.anys()...)
	case kVoid:
		return aitch.NewVoidElement([]byte(r.name), r.anys()...)
	case kColl:
		return aitch.Collection(r.nodes()...)
	case kCond:
		t := r.truth
		f := r.fn
		return aitch.Conditional(func(*context.Context) bool {
			if f != nil {
				return f()
			}
			return t
		}, r.nodes()...)
	case kAttr:
		return aitch.NewAttribute([]byte(r.name), givens(r.vals)...)
	case kBool:
		return aitch.NewBooleanAttribute([]byte(r.name))
	case kDelim:
		return aitch.NewDelimitedAttribute([]byte(r.name), []byte(r.delim), givens(r.vals)...)
	case kCollect:
		ns := r.nodes()
		return aitch.ContentCollect(func(*context.Context) []aitch.Node { return ns })
	}
	return nil
}

func (r *rn) isAttr() bool { return r.k == kAttr || r.k == kBool || r.k == kDelim }

func joinVals(vs []val) string {
	s := ""
	for _, v := range vs {
		s += v.text
	}
	return s
}

func (r *rn) condTrue() bool {
	if r.fn != nil {
		return r.fn()
	}
	return r.truth
}

// attrUse is an attribute that reaches the enclosing element, and whether the conditions around it hold.
type attrUse struct {
	a     *rn
	holds bool
}

// gather lists the attributes that reach the enclosing element: the unconditional ones and those under conditions.
func gather(kids []*rn, under, holds bool, un, co *[]attrUse) {
	for _, c := range kids {
		if c == nil {
			continue
		}
		switch c.k {
		case kAttr, kBool, kDelim:
			if under {
				*co = append(*co, attrUse{c, holds})
			} else {
				*un = append(*un, attrUse{c, true})
			}
		case kColl:
			gather(c.kids, under, holds, un, co)
		case kCond:
			gather(c.kids, true, holds && c.condTrue(), un, co)
		}
	}
}

// attrText is the specified text of an element's attributes.
func attrText(kids []*rn) string {
	var un, co []attrUse
	gather(kids, false, true, &un, &co)
	return attrListText(append(append([]attrUse{}, un...), co...))
}

func attrListText(all []attrUse) string {
	out := ""
	for i, u := range all {
		name := u.a.name
		seen := false
		for j := 0; j < i; j++ {
			if all[j].a.name == name {
				seen = true
			}
		}
		if seen {
			continue
		}
		var given []*rn
		for _, b := range all {
			if b.a.name == name && b.holds {
				given = append(given, b.a)
			}
		}
		if len(given) == 0 {
			continue
		}
		last := given[len(given)-1]
		switch last.k {
		case kBool:
			out += " " + name
		case kAttr:
			out += " " + name + `="` + joinVals(last.vals) + `"`
		case kDelim:
			var vs []string
			for _, b := range given {
				for _, v := range b.vals {
					if v.given != nil {
						vs = append(vs, v.text)
					}
				}
			}
			out += " " + name + `="` + strings.Join(vs, last.delim) + `"`
		}
	}
	return out
}

// emit is the specified output of a node standing among contents.
func (r *rn) emit() string {
	if r == nil {
		return ""
	}
	switch r.k {
	case kText, kFragment:
		return joinVals(r.vals)
	case kComment:
		return "<!--" + joinVals(r.vals) + "-->"
	case kPI:
		return "<!" + r.name + " " + joinVals(r.vals) + ">\n"
	case kElem:
		return "<" + r.name + attrText(r.kids) + ">" + emitAll(r.kids) + "</" + r.name + ">"
	case kVoid:
		return "<" + r.name + attrText(r.kids) + ">"
	case kColl, kCollect:
		return emitAll(r.kids)
	case kCond:
		if r.condTrue() {
			return emitAll(r.kids)
		}
	}
	return ""
}

func emitAll(kids []*rn) string {
	s := ""
	for _, c := range kids {
		if c != nil {
			s += c.emit()
		}
	}
	return s
}

// ---- writers ----

var errWrite = errors.New("write failed")

// failWriter accepts writes until the failAt-th one, which fails after partial bytes.
type failWriter struct {
	out     []byte
	n       int
	failAt  int
	partial int
	once    bool // only that write fails
	after   bool // a write came after the failure
	failed  bool
	err     error
}

func (w *failWriter) Write(p []byte) (int, error) {
	if w.failed {
		w.after = true
		if !w.once {
			return 0, w.err
		}
	}
	if !w.failed && w.n == w.failAt {
		w.failed = true
		k := w.partial
		if k > len(p) {
			k = len(p)
		}
		w.out = append(w.out, p[:k]...)
		return k, w.err
	}
	w.n++
	w.out = append(w.out, p...)
	return len(p), nil
}
