package props

// Bounds: languages none, constant, empty, symbolic string of 1 byte, bytes, data key (all of them where head or body is left out, and for one shape with both); head and body lists of up to 3 members (4 in thorough
// runs) out of eleven kinds (text, element, void element, attributes, nil, conditional, dynamic key, collection, nested element)
// with symbolic values; head and body nil, empty or given; Nbsps for every count from -2 to 32 (60 in thorough runs), counts
// up to 5001 around powers of two, and the least integers.
// Also head, body and language values of every kind (wide.go), and elements named html, head, body, title, document,
// template and frameset as content.
// Up to 130 members (more.go).
// Strings the code itself compares with, alone, with an arbitrary byte before or after, and after one another (words.go).
// Sizes include those at which the code itself makes a difference (constants of its comparisons, up to about 600).
// Also: two texts that differ in one arbitrary byte or in length, side by side and after each other (history.go).

import (
	"strings"

	"aitchverif/sym"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/html"
)

func init() {
	sym.Register("C23_document", C23_document)
	sym.Register("C23_parts", C23_parts)
	sym.Register("C23_wide", C23_wide)
	sym.Register("C23_nbsp", C23_nbsp)
	sym.Register("C23_repeat", C23_repeat)
}

// nonEmpty is a symbolic string that is not empty, so that values follow the rules of delimited ones without exceptions.
func nonEmpty(n int) string {
	s := sym.String(n, n)
	for i := 0; i < n; i++ {
		sym.Assume(s[i] != 0)
	}
	return s
}

// docItem is a member of a head or body list.
func docItem(v string) any {
	var r *rn
	t := val{v, refEscape(v)}
	switch sym.Choice(11) {
	case 9:
		r = &rn{k: kText, vals: []val{{"", ""}}}
	case 10:
		r = &rn{k: kColl}
	case 0:
		r = &rn{k: kText, vals: []val{t}}
	case 1:
		r = &rn{k: kElem, name: "p", kids: []*rn{{k: kText, vals: []val{t}}}}
	case 2:
		r = &rn{k: kVoid, name: "meta", kids: []*rn{{k: kAttr, name: "name", vals: []val{t}}}}
	case 3:
		r = &rn{k: kAttr, name: "id", vals: []val{t}}
	case 4:
		r = &rn{k: kDelim, name: "class", delim: " ", vals: []val{t}}
	case 5:
		r = nil
	case 6:
		r = &rn{k: kCond, truth: sym.Bool(), kids: []*rn{{k: kBool, name: "hidden"}, {k: kText, vals: []val{t}}}}
	case 7:
		r = &rn{k: kColl, kids: []*rn{{k: kAttr, name: "id", vals: []val{{"c", "c"}}}, {k: kVoid, name: "br"}}}
	case 8:
		r = &rn{k: kText, vals: []val{{aitch.DynamicValueKey("d"), "D"}}}
	}
	return r
}

// docList is a head or body list: the arguments given, and the model.
func docList(n int) (given []any, model []*rn) {
	given = []any{}
	for i := 0; i < n; i++ {
		v := []string{"x", "<"}[i%2]
		if i == 0 {
			v = nonEmpty(1)
		}
		r := docItem(v).(*rn)
		model = append(model, r)
		if r == nil {
			given = append(given, nil)
		} else if r.k == kText && sym.Choice(2) == 1 {
			given = append(given, r.vals[0].given) // the value itself
		} else {
			given = append(given, r.build())
		}
	}
	return given, model
}

func docText(lang string, head, body []*rn, hasHead bool) string {
	s := "<!DOCTYPE html>\n<html" + lang + ">"
	if hasHead {
		s += "<head" + attrText(head) + ">" + emitAll(head) + "</head>"
	}
	return s + "<body" + attrText(body) + ">" + emitAll(body) + "</body></html>"
}

func docLang() (any, string) {
	switch sym.Choice(7) {
	case 1:
		return "en", ` lang="en"`
	case 5:
		return "", ` lang=""`
	case 6:
		return []byte(nil), ` lang=""`
	case 2:
		s := sym.String(1, 1)
		return s, ` lang="` + refEscape(s) + `"`
	case 3:
		return aitch.DynamicValueKey("d"), ` lang="D"`
	case 4:
		return []byte("fr"), ` lang="fr"`
	}
	return nil, ""
}

var docData = map[string]any{"d": "D"}

// C23_document: any body list.
func C23_document() {
	n := 1 + sym.Choice(3+sym.Tier())
	given, model := docList(n)
	if sym.Choice(2) == 0 {
		expect(html.Document(nil, nil, given), docData, nil, docText("", nil, model, false), "a document with a body")
		return
	}
	if len(model) == 1 && model[0] == nil {
		return // a head list of nils only: not claimed
	}
	all := true
	for _, r := range model {
		all = all && r == nil
	}
	if all {
		return
	}
	expect(html.Document(nil, given, nil), docData, nil, docText("", model, nil, true), "a document with a head")
}

// C23_parts: every combination of parts.
func C23_parts() {
	var head, body []any
	var hm, bm []*rn
	hasHead := false
	switch sym.Choice(3) {
	case 1:
		head = []any{}
	case 2:
		head, hm = docList(1)
		if hm[0] == nil {
			return
		}
		hasHead = true
	}
	switch sym.Choice(3) {
	case 1:
		body = []any{}
	case 2:
		body, bm = docList(1)
	}
	var lang any = "en"
	langText := ` lang="en"`
	if hm == nil || bm == nil || sym.Tier() > 0 {
		lang, langText = docLang()
	}
	expect(html.Document(lang, head, body), docData, nil, docText(langText, hm, bm, hasHead), "the parts given")
}

// C23_repeat: documents are nodes like others: rendered again, with other data, and among other documents.
func C23_repeat() {
	lang, langText := docLang()
	body, bm := docList(2)
	d := html.Document(lang, []any{html.TitleElement("t")}, body)
	head := "<head><title>t</title></head>"
	want := "<!DOCTYPE html>\n<html" + langText + ">" + head + "<body" + attrText(bm) + ">" + emitAll(bm) + "</body></html>"
	expect(d, docData, nil, want, "first")
	html.Document("de", []any{html.Meta()}, []any{html.Id("z")})
	expect(d, docData, nil, want, "again")
	out, err := render(d, nil, nil)
	sym.Assert(err == nil, "no error")
	sym.Assert(strings.HasPrefix(out, "<!DOCTYPE html>\n<html") && strings.HasSuffix(out, "</body></html>"), "a document without data")
}

// C23_nbsp: the helpers.
func C23_nbsp() {
	n := 0
	many := []int{-1 << 63, -1 << 31, -255, -256, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1024, 2049, 4096, 5001}
	if k := sym.Choice(len(many) + 35 + 28*sym.Tier()); k < len(many) {
		n = many[k]
	} else {
		n = k - len(many) - 2
	}
	want := strings.Repeat("&nbsp;", max(n, 0))
	b := aitch.Nbsps(n)
	sym.Assert(string(b) == want, "exactly n entities")
	c := aitch.Nbsps(n)
	one := aitch.Nbsp()
	sym.Assert(string(one) == "&nbsp;", "one entity")
	two := append(aitch.Nbsp(), 'x')
	// fresh memory: writing to one changes no other
	for i := range b {
		b[i] = 'z'
	}
	_ = append(b, 'y')
	for i := range one {
		one[i] = 'w'
	}
	sym.Assert(string(c) == want && string(aitch.Nbsps(n)) == want, "fresh memory")
	sym.Assert(string(aitch.Nbsp()) == "&nbsp;" && string(two) == "&nbsp;x", "fresh memory for one")
	expect(html.P(aitch.Nbsps(n)), nil, nil, "<p>"+want+"</p>", "as content")
}

// C23_wide: values of every kind in the head and body, and elements that are named as the document's own.
func C23_wide() {
	own := []string{"html", "head", "body", "title", "document", "template", "frameset"}
	var x any
	var text string
	var model *rn
	at := &rn{k: kAttr, name: "id", vals: []val{{"i", "i"}}}
	k := sym.Choice(4)
	switch k {
	case 0:
		v := wideContent()
		x, text = v.given, v.text
		model = &rn{k: kText, vals: []val{v}}
	case 1:
		model = &rn{k: kElem, name: own[sym.Choice(len(own))], kids: []*rn{{k: kText, vals: []val{rawVal(1)}}}}
		if sym.Choice(2) == 0 {
			model.kids = append(model.kids, at)
		}
	case 2:
		model = &rn{k: kVoid, name: own[sym.Choice(len(own))], kids: []*rn{at}}
	case 3:
		in := &rn{k: kElem, name: own[sym.Choice(len(own))], kids: []*rn{{k: kText, vals: []val{rawVal(1)}}}}
		model = &rn{k: []kind{kColl, kCond, kCollect}[sym.Choice(3)], truth: true, kids: []*rn{in}}
	}
	if k > 0 {
		x, text = model.build(), model.emit()
	}
	list := []any{x}
	texts := text
	attrs := ""
	switch sym.Choice(5) {
	case 1:
		list = []any{x, "t"}
		texts = text + "t"
	case 2:
		list = []any{at.build(), x}
		attrs = ` id="i"`
	case 3:
		list = []any{x, html.B("b"), x}
		texts = text + "<b>b</b>" + text
	case 4:
		list = []any{html.TitleElement("t"), x}
		texts = "<title>t</title>" + text
	}
	if x == nil && len(list) == 1 {
		return // a list of nothing but nil: not claimed
	}
	head := "<head" + attrs + ">" + texts + "</head>"
	body := "<body" + attrs + ">" + texts + "</body>"
	switch sym.Choice(4) {
	case 0:
		expect(html.Document(nil, nil, list), wideData(nil), wideCargo, "<!DOCTYPE html>\n<html>"+body+"</html>", "body content")
	case 1:
		expect(html.Document("en", list, nil), wideData(nil), wideCargo, "<!DOCTYPE html>\n<html lang=\"en\">"+head+"<body></body></html>", "head content")
	case 2:
		expect(html.Document(nil, list, list), wideData(nil), wideCargo, "<!DOCTYPE html>\n<html>"+head+body+"</html>", "head and body content")
	case 3:
		if k > 0 || x == nil {
			return
		}
		expect(html.Document(x, nil, []any{"b"}), wideData(nil), wideCargo, "<!DOCTYPE html>\n<html lang=\""+text+"\"><body>b</body></html>", "language")
	}
}
