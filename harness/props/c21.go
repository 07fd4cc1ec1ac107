package props

// Bounds: both generators. Markup of one element with 1..2 arbitrary bytes (3 in thorough runs) in its tag name, attribute key, quoted
// attribute value, text, comment or doctype, and 1 (3 in thorough runs) in a bare, boolean or data- attribute; 2 arbitrary bytes of markup (3 in thorough runs); every sequence of 0..4 tags and texts (5 in thorough runs) out of nine, properly
// nested or not; every element and attribute name known to the packages; every failing write, transient or permanent, with every
// partial count, and every failing read in four documents. The token stream is that of golang.org/x/net/html.
// Also 5..65 attributes, children, levels or siblings; texts, comments, attribute values, scripts and titles of
// 300..2101 bytes (4201 in thorough runs); edge documents with odd spacing, casing, duplicate attributes and unclosed
// constructs.
// 3..6 elements opened within each other (8 in thorough runs) and then 1..3 end tags or other tags in any order; read and write errors of 19 kinds (extra.go).
// Strings the code itself compares with, alone, with an arbitrary byte before or after, and after one another (words.go).
// Sizes include those at which the code itself makes a difference (constants of its comparisons, up to about 600).
// Also: uses repeated up to 70 times, with other uses in between (history.go).
// Also: writers that are more than io.Writer; names with letters that only unicode folds to ASCII (lures.go).

import (
	"bytes"
	"errors"
	"io"
	"strings"
	"unicode/utf8"

	"aitchverif/sym"

	"github.com/go-andiamo/aitch/html"
	"github.com/go-andiamo/aitch/svg"
	xhtml "golang.org/x/net/html"
)

func init() {
	sym.Register("C21_attr", C21_attr)
	sym.Register("C21_bytes", C21_bytes)
	sym.Register("C21_edges", C21_edges)
	sym.Register("C21_long", C21_long)
	sym.Register("C21_sizes", C21_sizes)
	sym.Register("C21_faults", C21_faults)
	sym.Register("C21_known", C21_known)
	sym.Register("C21_nesting", C21_nesting)
	sym.Register("C21_order", C21_order)
	sym.Register("C21_reads", C21_reads)
	sym.Register("C21_tag", C21_tag)
	sym.Register("C21_text", C21_text)
}

// gnode is a node of a document, as parsed or as built by the generated code.
type gnode struct {
	k     byte // e element, t text, c comment, d doctype
	name  string
	text  string
	attrs []gattr
	kids  []*gnode
}

type gattr struct{ k, v string }

// ---- the document of the token stream ----

func isVoidName(name string) bool {
	for _, v := range voidNames {
		if v == name {
			return true
		}
	}
	return false
}

// tokenTree is the document of some markup.
func tokenTree(src string, isSvg bool) []*gnode {
	z := xhtml.NewTokenizer(strings.NewReader(src))
	top := &gnode{}
	stack := []*gnode{top}
	add := func(n *gnode) {
		p := stack[len(stack)-1]
		p.kids = append(p.kids, n)
	}
	for {
		switch z.Next() {
		case xhtml.ErrorToken:
			return top.kids
		case xhtml.TextToken:
			if t := z.Token(); strings.Trim(t.Data, " \n\t") != "" {
				add(&gnode{k: 't', text: t.Data})
			}
		case xhtml.StartTagToken:
			n := tagNode(z.Token())
			add(n)
			if isSvg || !isVoidName(n.name) {
				stack = append(stack, n)
			}
		case xhtml.SelfClosingTagToken:
			add(tagNode(z.Token()))
		case xhtml.EndTagToken:
			t := z.Token()
			// it closes the nearest open element of its name, with what is open within
			for i := len(stack) - 1; i > 0; i-- {
				if stack[i].name == t.Data {
					stack = stack[:i]
					break
				}
			}
		case xhtml.CommentToken:
			add(&gnode{k: 'c', text: z.Token().Data})
		case xhtml.DoctypeToken:
			t := z.Token()
			if !isSvg {
				add(&gnode{k: 'd', text: t.Data})
			}
		}
	}
}

func tagNode(t xhtml.Token) *gnode {
	n := &gnode{k: 'e', name: t.Data}
	for _, a := range t.Attr {
		n.attrs = append(n.attrs, gattr{a.Key, a.Val})
	}
	return n
}

// ---- the generated code ----

// goCode parses the generated code.
type goCode struct {
	s string
	i int
}

func (p *goCode) peek() byte {
	if p.i < len(p.s) {
		return p.s[p.i]
	}
	return 0
}

// skip passes over white space; a line may end only where the language inserts no semicolon.
func (p *goCode) skip(lines bool) {
	for p.peek() == ' ' || p.peek() == '\t' || p.peek() == '\n' && lines {
		p.i++
	}
}

func (p *goCode) need(what string) {
	ok := strings.HasPrefix(p.s[p.i:], what)
	sym.Assert(ok, "the code goes on with "+what)
	p.i += len(what)
}

func (p *goCode) ident() string {
	start := p.i
	for c := p.peek(); c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || p.i > start && c >= '0' && c <= '9' || c == '_'; c = p.peek() {
		p.i++
	}
	sym.Assert(p.i > start, "an identifier")
	return p.s[start:p.i]
}

func (p *goCode) digits(n int, base rune) rune {
	v := rune(0)
	for k := 0; k < n; k++ {
		c := p.peek()
		p.i++
		d := rune(sym.IteByte(sym.And(c >= '0', c <= '9'), c-'0',
			sym.IteByte(sym.And(c >= 'a', c <= 'f'), c-'a'+10,
				sym.IteByte(sym.And(c >= 'A', c <= 'F'), c-'A'+10, 99))))
		sym.Assert(d < base, "a digit of an escape")
		v = v*base + d
	}
	return v
}

// literal decodes a string literal.
func (p *goCode) literal() string {
	p.need(`"`)
	start := p.i
	out := []byte{}
	for {
		sym.Assert(p.i < len(p.s), "the literal ends")
		c := p.s[p.i]
		if c == '"' {
			break
		}
		sym.Assert(c != '\n', "the literal holds no line end")
		p.i++
		if c != '\\' {
			out = append(out, c)
			continue
		}
		c = p.peek()
		p.i++
		switch c {
		case 'n':
			out = append(out, '\n')
		case 't':
			out = append(out, '\t')
		case 'r':
			out = append(out, '\r')
		case 'a':
			out = append(out, '\a')
		case 'b':
			out = append(out, '\b')
		case 'f':
			out = append(out, '\f')
		case 'v':
			out = append(out, '\v')
		case '\\', '"':
			out = append(out, c)
		case 'x':
			out = append(out, byte(p.digits(2, 16)))
		case 'u':
			out = utf8.AppendRune(out, p.digits(4, 16))
		case 'U':
			out = utf8.AppendRune(out, p.digits(8, 16))
		case '0', '1', '2', '3':
			p.i--
			out = append(out, byte(p.digits(3, 8)))
		default:
			sym.Assert(false, "a known escape")
		}
	}
	sym.Assert(sourceText(p.s[start:p.i]), "the literal is valid Go source text")
	p.i++
	return string(out)
}

// sourceText tells whether Go source may hold the text: UTF-8 without NUL and byte order marks.
func sourceText(s string) bool {
	ascii := true
	for i := 0; i < len(s); i++ {
		ascii = sym.And(ascii, sym.And(s[i] > 0, s[i] < utf8.RuneSelf))
	}
	if ascii {
		return true
	}
	for i := 0; i < len(s); {
		if s[i] < utf8.RuneSelf {
			if s[i] == 0 {
				return false
			}
			i++
			continue
		}
		r, n := utf8.DecodeRuneInString(s[i:])
		if r == utf8.RuneError && n == 1 || r == 0xFEFF {
			return false
		}
		i += n
	}
	return true
}

// call is a function call of the generated code.
type call struct {
	fn   string
	strs []string // the leading string arguments
	args []*call
}

func (p *goCode) call() *call {
	c := &call{fn: p.ident()}
	p.need(".")
	c.fn += "." + p.ident()
	p.need("(")
	for {
		p.skip(true)
		if p.peek() == ')' {
			break
		}
		if p.peek() == '"' {
			sym.Assert(len(c.args) == 0, "strings come first")
			c.strs = append(c.strs, p.literal())
		} else {
			c.args = append(c.args, p.call())
		}
		p.skip(false)
		if p.peek() != ')' {
			p.need(",")
		}
	}
	p.need(")")
	return c
}

// codeTree parses the generated code and returns the document it builds.
func codeTree(code string) []*gnode {
	p := &goCode{s: code}
	p.need("var template = ")
	root := p.call()
	p.skip(true)
	sym.Assert(p.i == len(p.s), "one balanced expression")
	sym.Assert(root.fn == "aitch.Collection" && len(root.strs) == 0, "the expression is a collection")
	var kids []*gnode
	for _, a := range root.args {
		n, at := a.node()
		sym.Assert(n != nil && at == nil, "the document holds nodes")
		kids = append(kids, n)
	}
	return kids
}

// node is what a call builds: a node or an attribute.
func (c *call) node() (*gnode, *gattr) {
	switch c.fn {
	case "html.Text", "svg.Text", "aitch.Text":
		c.has(1, false)
		return &gnode{k: 't', text: c.strs[0]}, nil
	case "html.Comment", "svg.Comment", "aitch.Comment":
		c.has(1, false)
		return &gnode{k: 'c', text: c.strs[0]}, nil
	case "html.PI", "aitch.PI":
		c.has(2, false)
		sym.Assert(c.strs[0] == "DOCTYPE", "a doctype")
		return &gnode{k: 'd', text: c.strs[1]}, nil
	case "aitch.Attribute":
		c.has(2, false)
		return nil, &gattr{c.strs[0], c.strs[1]}
	case "aitch.BooleanAttribute":
		c.has(1, false)
		return nil, &gattr{c.strs[0], ""}
	case "aitch.Element", "aitch.VoidElement":
		c.has(1, true)
		return c.element(c.strs[0]), nil
	}
	for _, t := range [][]elemCtor{htmlElements, svgElements} {
		for _, e := range t {
			if e.go_ == c.fn {
				c.has(0, true)
				return c.element(e.name), nil
			}
		}
	}
	for _, t := range [][]attrCtor{htmlAttributes, svgAttributes} {
		for _, a := range t {
			if a.go_ == c.fn {
				c.has(1, false)
				return nil, &gattr{a.name, c.strs[0]}
			}
		}
	}
	for _, b := range boolAttributes {
		if b.go_ == c.fn {
			c.has(0, false)
			return nil, &gattr{b.name, ""}
		}
	}
	sym.Assert(false, "a constructor that exists: "+c.fn)
	return nil, nil
}

func (c *call) has(strs int, args bool) {
	sym.Assert(len(c.strs) == strs && (args || len(c.args) == 0), "the arguments of "+c.fn)
}

func (c *call) element(name string) *gnode {
	e := &gnode{k: 'e', name: name}
	for _, a := range c.args {
		n, at := a.node()
		if at != nil {
			e.attrs = append(e.attrs, *at)
		} else {
			e.kids = append(e.kids, n)
		}
	}
	return e
}

// ---- comparison ----

var lowerElements, lowerAttributes []string

func init() {
	for _, e := range svgElements {
		lowerElements = append(lowerElements, strings.ToLower(e.name))
	}
	for _, a := range svgAttributes {
		lowerAttributes = append(lowerAttributes, strings.ToLower(a.name))
	}
}

// sameName compares a name of the document with the one built; the names of svg are known in their own case.
func sameName(tok, built string, isSvg, isAttr bool) bool {
	if isSvg {
		known := ""
		if isAttr {
			for i, l := range lowerAttributes {
				if l == tok {
					known = svgAttributes[i].name
				}
			}
		} else {
			for i, l := range lowerElements {
				if l == tok {
					known = svgElements[i].name
				}
			}
		}
		if known != "" {
			return built == known
		}
		return built == tok || asciiLower(built) == tok
	}
	return built == tok
}

func asciiLower(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 'a' - 'A'
		}
	}
	return string(b)
}

func sameTrees(want, got []*gnode, isSvg bool) {
	sym.Assert(len(want) == len(got), "as many nodes as in the document")
	for i, w := range want {
		g := got[i]
		sym.Assert(w.k == g.k, "nodes of the same kinds in the same order")
		if w.k != 'e' {
			sym.Assert(w.text == g.text, "the text is that of the document")
			continue
		}
		sym.Assert(sameName(w.name, g.name, isSvg, false), "the element has its name")
		sym.Assert(len(w.attrs) == len(g.attrs), "the element has all its attributes")
		for j, a := range w.attrs {
			sym.Assert(sameName(a.k, g.attrs[j].k, isSvg, true), "the attribute has its name")
			sym.Assert(a.v == g.attrs[j].v, "the attribute has its value")
		}
		sameTrees(w.kids, g.kids, isSvg)
	}
}

// generator is the generator asked for; C21_order decides that it does not depend on map orders.
func generator(isSvg bool) func(io.Reader, io.Writer) error {
	sym.MapOrder(false)
	if isSvg {
		return svg.GenerateCode
	}
	return html.GenerateCode
}

// C21_order: the generated code does not depend on the iteration order of the mappings.
func C21_order() {
	src := documents[sym.Choice(len(documents))]
	isSvg := sym.Choice(2) == 1
	var a, b bytes.Buffer
	gen := generator(isSvg)
	err := gen(strings.NewReader(src), &a)
	sym.MapOrder(true)
	err2 := gen(strings.NewReader(src), &b)
	sym.Assert(err == nil && err2 == nil, "no error")
	sym.Assert(a.String() == b.String(), "the code does not depend on map orders")
}

// rebuilds asserts that the code generated from the markup builds its document.
func rebuilds(src string, isSvg bool) {
	var buf bytes.Buffer
	err := generator(isSvg)(strings.NewReader(src), &buf)
	sym.Assert(err == nil, "no error")
	code := buf.String()
	sym.Observe("code", []byte(code))
	got := codeTree(code)
	sameTrees(tokenTree(src, isSvg), got, isSvg)
}

func size() int { return 1 + sym.Choice(2+sym.Tier()) }

// C21_tag: any bytes as a tag name.
func C21_tag() {
	n := size()
	s := sym.String(n, n)
	isSvg := sym.Choice(2) == 1
	switch sym.Choice(4) {
	case 0:
		rebuilds("<"+s+">x</"+s+">", isSvg)
	case 1:
		rebuilds("<g"+s+"/>", isSvg)
	case 2:
		rebuilds("<p"+s+" id=a>", isSvg)
	case 3:
		rebuilds("<i></"+s+"></i>", isSvg)
	}
}

// C21_attr: any bytes as attribute keys and values.
func C21_attr() {
	where := sym.Choice(8)
	n := 1
	if where < 4 || sym.Tier() > 0 {
		n = size()
	}
	s := sym.String(n, n)
	isSvg := sym.Choice(2) == 1
	switch where {
	case 0:
		rebuilds("<p a"+s+"=1>t</p>", isSvg)
	case 1:
		rebuilds("<p "+s+">t</p>", isSvg)
	case 2:
		rebuilds(`<p id="`+s+`">t</p>`, isSvg)
	case 3:
		rebuilds(`<g zz='`+s+`'/>`, isSvg)
	case 4:
		rebuilds(`<g id=`+s+` class=c/>`, isSvg)
	case 5:
		rebuilds(`<p hidden="`+s+`">t</p>`, isSvg)
	case 6:
		rebuilds(`<p data-`+s+`="v" aria-`+s+`>t</p>`, isSvg)
	case 7:
		rebuilds(`<br translate=`+s+`>`, isSvg)
	}
}

// C21_text: any bytes as text, comment or doctype.
func C21_text() {
	n := size()
	s := sym.String(n, n)
	isSvg := sym.Choice(2) == 1
	switch sym.Choice(6) {
	case 0:
		rebuilds("<p>"+s+"</p>", isSvg)
	case 1:
		rebuilds("a"+s+"b", isSvg)
	case 2:
		rebuilds("<!--"+s+"-->", isSvg)
	case 3:
		rebuilds("<!DOCTYPE "+s+"><b>", isSvg)
	case 4:
		rebuilds("<style>"+s+"</style>", isSvg)
	case 5:
		rebuilds("<p>&"+s+";</p>", isSvg)
	}
}

// C21_bytes: any markup.
func C21_bytes() {
	n := 2 + sym.Choice(1+sym.Tier())
	s := sym.String(n, n)
	isSvg := sym.Choice(2) == 1
	switch sym.Choice(4) {
	case 0:
		rebuilds(s, isSvg)
	case 1:
		rebuilds("<"+s, isSvg)
	case 2:
		rebuilds("<b>"+s+"</b>", isSvg)
	case 3:
		rebuilds("<b"+s+"</b>", isSvg)
	}
}

// C21_nesting: sequences of tags.
func C21_nesting() {
	pieces := []string{"<p>", "</p>", "<b id=i>", "</b>", "<br>", "<br/>", "<u k=v/>", "t", "</br>"}
	n := sym.Choice(5 + sym.Tier())
	src := ""
	for i := 0; i < n; i++ {
		src += pieces[sym.Choice(len(pieces))]
	}
	rebuilds(src, sym.Choice(2) == 1)
}

// C21_known: the names the packages know.
func C21_known() {
	v := sym.StringOf(0, 1, "ab\"\\\n&<")
	quoted := strings.ReplaceAll(v, `"`, "&quot;")
	switch sym.Choice(3) {
	case 0:
		e := htmlElements[sym.Choice(len(htmlElements))]
		src := "<" + e.name + ` id="` + quoted + `">`
		if !e.void {
			src += "</" + e.name + ">"
		}
		rebuilds("<i>"+src+"</i>", false)
	case 1:
		e := svgElements[sym.Choice(len(svgElements))]
		rebuilds("<svg><"+e.name+` id="`+quoted+`"></`+e.name+"><"+e.name+"/></svg>", true)
	case 2:
		var name string
		isSvg := false
		switch sym.Choice(3) {
		case 0:
			name = htmlAttributes[sym.Choice(len(htmlAttributes))].name
		case 1:
			name = svgAttributes[sym.Choice(len(svgAttributes))].name
			isSvg = true
		case 2:
			name = boolAttributes[sym.Choice(len(boolAttributes))].name
			if sym.Choice(2) == 0 {
				rebuilds("<p "+name+"></p>", false)
				return
			}
		}
		rebuilds("<p "+name+`="`+quoted+`"></p>`, isSvg)
	}
}

var documents = []string{
	"<!DOCTYPE html><!--c--><html lang=en><body class=\"a\" hidden x=y><br><p>t</p></body></html>",
	"<svg width=1><g/><path d=\"M\">t</path></svg>",
	"t<i",
	"",
}

// C21_faults: a failing write.
func C21_faults() {
	src := documents[sym.Choice(len(documents))]
	gen := generator(sym.Choice(2) == 1)
	ok := &failWriter{failAt: -1}
	sym.Assert(gen(strings.NewReader(src), ok) == nil, "no error")
	w := &failWriter{failAt: sym.Choice(ok.n), once: sym.Choice(2) == 1, partial: sym.Choice(3), err: errWrite}
	err := gen(strings.NewReader(src), w)
	sym.Observe("out", w.out)
	sym.Assert(errors.Is(err, errWrite), "the write error is reported")
	sym.Assert(!w.after, "nothing is written after the failed write")
	sym.Assert(len(w.out) <= len(ok.out) && string(w.out) == string(ok.out[:len(w.out)]), "the output is a prefix")
}

var errRead = errors.New("read failed")

// failReader yields some bytes at a time, then an error.
type failReader struct {
	s   string
	n   int
	at  bool // the error comes with the last bytes
	err error
}

func (r *failReader) Read(p []byte) (int, error) {
	if len(r.s) == 0 {
		return 0, r.err
	}
	n := min(r.n, len(p), len(r.s))
	copy(p, r.s[:n])
	r.s = r.s[n:]
	if r.at && len(r.s) == 0 {
		return n, r.err
	}
	return n, nil
}

// C21_reads: a failing read.
func C21_reads() {
	src := documents[sym.Choice(len(documents))]
	k := sym.Choice(len(src) + 1)
	gen := generator(sym.Choice(2) == 1)
	n := 1 + 6*sym.Choice(2)
	at := sym.Choice(2) == 1
	var buf, all bytes.Buffer
	if sym.Choice(2) == 0 {
		err := gen(&failReader{s: src[:k], n: n, at: at, err: errRead}, &buf)
		sym.Assert(errors.Is(err, errRead), "the read error is reported")
		return
	}
	// input in pieces makes no difference
	err := gen(&failReader{s: src[:k], n: n, at: at, err: io.EOF}, &buf)
	sym.Assert(err == nil, "the end of the input is no error")
	err = gen(strings.NewReader(src[:k]), &all)
	sym.Assert(err == nil && buf.String() == all.String(), "input in pieces makes no difference")
}

// C21_sizes: documents with many or long parts.
func C21_sizes() {
	n := sym.Size(130, 5, 8, 9, 15, 16, 17, 31, 33, 64, 65)
	name := func(i int) string { return string([]byte{'x', 'a' + byte(i/26), 'a' + byte(i%26)}) }
	src := ""
	switch sym.Choice(8) {
	case 0: // attributes
		src = "<p"
		for i := 0; i < n; i++ {
			src += " " + name(i) + "=" + name(n-i)
		}
		src += ">t</p>"
	case 1: // children
		for i := 0; i < n; i++ {
			src += "<b>" + name(i) + "</b><br>"
		}
		src = "<div>" + src + "</div>"
	case 2: // depth
		for i := 0; i < n; i++ {
			src += "<" + name(i) + "><br>"
		}
		for i := n - 1; i >= 0; i-- {
			src += "t</" + name(i) + ">"
		}
	case 3: // the same element nested, left unclosed
		src = strings.Repeat("<p>t", n) + "</p></b>"
	case 4: // long names and texts
		long := strings.Repeat("abcde", n)
		src = "<" + long + " " + long + `="` + long + `">` + long + "<!--" + long + "--></" + long + ">"
	case 5: // void elements with attributes that are on and off
		src = "<p>" + strings.Repeat("<input disabled name=a>", n) + "</p>"
	case 6: // closing tags without open ones
		src = strings.Repeat("</p>", n) + "<p>t</p>"
	case 7: // many top level nodes
		src = strings.Repeat("t<!--c--><b/>", n)
	}
	rebuilds(src, sym.Choice(2) == 1)
}

// C21_edges: texts with unusual edges among and within elements of every kind.
func C21_edges() {
	texts := []string{"\n\nx", "\nx", "\r\nx", " x", "x ", "x\n", "\tx\t", "\u00a0", "\u00a0x", "\u2028", "\ufeff", "\ufffd", "\x00x", "\x0b", "\x0c", "\r", "&#13;", "&#10;x", "&nbsp;", "&lt;b&gt;", "&amp;amp;",
		"&quot;", "\\n", "\\", "\\\"", "`", "\"", "'", "${x}", "{{.}}", "%d", "<", "a<1", "</", "]]>", "\u00e9\u4e16\U0001f600", "\x80", "\xff", "\xc3", "\u0301", "\u200b", "\x7f", "\x1b", "\u0085", "0", "x x  x"}
	t := texts[sym.Choice(len(texts))]
	isSvg := sym.Choice(2) == 1
	els := []string{"p", "pre", "textarea", "script", "style", "title", "table", "td", "select", "svg", "math", "template", "noscript", "iframe", "xmp", "plaintext", "listing", "zz", "text", "a"}
	e := els[sym.Choice(len(els))]
	src := ""
	switch sym.Choice(7) {
	case 0:
		src = "<" + e + ">" + t + "</" + e + ">"
	case 1:
		src = "<" + e + "><b>x</b>" + t + "</" + e + ">y"
	case 2:
		src = "<p>" + t + "<" + e + ">y</" + e + ">" + t + "</p>"
	case 3:
		src = "<" + e + `  title="` + strings.ReplaceAll(t, `"`, "&quot;") + `" id='` + strings.ReplaceAll(t, "'", "&#39;") + "'></" + e + ">"
	case 4:
		src = "<!--" + t + "--><" + e + "/><!--" + t + "-->"
	case 5:
		src = "<" + strings.ToUpper(e) + " ID=" + e + " Class>" + "x" + t + "</" + strings.ToUpper(e) + ">"
	case 6:
		src = "<" + e + " id=a id=b data-x=" + e + "><" + e + ">" + t + "</" + e + "></p></" + e + ">"
	}
	rebuilds(src, isSvg)
}

// C21_long: long texts, comments and attribute values.
func C21_long() {
	n := sym.Size(4200, []int{300, 1025, 2100, 4200}[:3+sym.Tier()]...)
	s := strings.Repeat([]string{"x", "a b ", "&lt;"}[sym.Choice(3)], n)[:n] + sym.StringOf(1, 1, "yz&")
	src := ""
	switch sym.Choice(5) {
	case 0:
		src = "<p>" + s + "</p>"
	case 1:
		src = "<!--" + s + "--><br>"
	case 2:
		src = "<p title=\"" + s + "\" id=i>t</p>"
	case 3:
		src = "t<script>" + s + "</script>"
	case 4:
		src = "<title>" + s + "</title>"
	}
	rebuilds(src, sym.Choice(2) == 1)
}
