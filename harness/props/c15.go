package props

// Bounds: 34 constructors and calls taking lists, each given up to 2 arguments (3 in thorough runs) with a nil before, between and after
// them in every combination; nil functions; nil returned by functions; values arbitrary bytes. Lists given to Document as
// head hold at least one argument that is not nil or are empty.
// Up to 65 arguments with nils in 5 patterns; nils beside values of every kind (more.go).

import (
	"aitchverif/sym"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
	"github.com/go-andiamo/aitch/css"
	"github.com/go-andiamo/aitch/html"
	"github.com/go-andiamo/aitch/htmx"
	"github.com/go-andiamo/aitch/svg"
)

func init() {
	sym.Register("C15_contents", C15_contents)
	sym.Register("C15_values", C15_values)
	sym.Register("C15_nodes", C15_nodes)
	sym.Register("C15_functions", C15_functions)
	sym.Register("C15_results", C15_results)
}

// withNils gives the list with and without nils, at symbolic places.
func withNils(list []any) ([]any, []any) {
	var r []any
	for i := 0; i <= len(list); i++ {
		if sym.Choice(2) == 1 {
			r = append(r, nil)
		}
		if i < len(list) {
			r = append(r, list[i])
		}
	}
	return r, list
}

func toNodes(list []any) []aitch.Node {
	var r []aitch.Node
	for _, x := range list {
		if x == nil {
			r = append(r, nil)
		} else {
			r = append(r, x.(aitch.Node))
		}
	}
	return r
}

// tryRender builds and renders, telling whether it panicked.
func tryRender(build func() aitch.Node, data map[string]any) (out string, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			ok = false
		}
	}()
	n := build()
	if n == nil {
		return "nil", true
	}
	s, err := render(n, data, nil)
	s2, err2 := render(n, data, nil)
	return s, err == nil && err2 == nil && s == s2
}

func sameWithNils(build func(list []any) aitch.Node, list []any, data map[string]any, msg string) {
	nils, plain := withNils(list)
	want, ok := tryRender(func() aitch.Node { return build(plain) }, data)
	sym.Assert(ok, msg+": renders without nils")
	got, ok := tryRender(func() aitch.Node { return build(nils) }, data)
	sym.Observe("out", []byte(got))
	sym.Assert(ok, msg+": no panic and no error with nils")
	sym.Assert(got == want, msg+": the output is the same as without nils")
}

func nodeArgs() []any {
	n := sym.Choice(3 + sym.Tier())
	var list []any
	for i := 0; i < n; i++ {
		switch sym.Choice(5) {
		case 0:
			list = append(list, aitch.Text(raw(1)))
		case 1:
			list = append(list, html.Id(raw(1)))
		case 2:
			list = append(list, html.Class(raw(1)))
		case 3:
			list = append(list, html.B(raw(1)))
		case 4:
			list = append(list, aitch.When("k", aitch.Text(raw(1)), html.Class(raw(1))))
		}
	}
	return list
}

// C15_contents: contents of elements and documents.
func C15_contents() {
	which := sym.Choice(8)
	list := nodeArgs()
	if len(list) > 0 && sym.Choice(2) == 1 {
		list[0] = raw(1) // contents may also be values
	}
	build := func(l []any) aitch.Node {
		switch which {
		case 0:
			return aitch.Element("p", l...)
		case 1:
			return aitch.VoidElement("hr", l...)
		case 2:
			return aitch.NewElement([]byte("q"), l...)
		case 3:
			return aitch.NewVoidElement([]byte("hr"), l...)
		case 4:
			return html.Div(l...)
		case 5:
			return svg.G(l...)
		case 6:
			return html.Document(nil, nil, l)
		}
		h := l
		if len(list) == 0 {
			h = nil
		}
		return html.Document("en", h, l)
	}
	sameWithNils(build, list, map[string]any{"k": true}, "contents")
}

// C15_values: values of attributes, texts and the like.
func C15_values() {
	which := sym.Choice(18)
	n := sym.Choice(3 + sym.Tier())
	var list []any
	for i := 0; i < n; i++ {
		switch sym.Choice(3) {
		case 0:
			list = append(list, raw(1))
		case 1:
			list = append(list, aitch.DynamicValueKey("k"))
		case 2:
			list = append(list, "s")
		}
	}
	build := func(l []any) aitch.Node {
		switch which {
		case 0:
			return aitch.Text(l...)
		case 1:
			return aitch.Comment(l...)
		case 2:
			return aitch.Fragment(l...)
		case 3:
			return aitch.PI("x", l...)
		case 4:
			return aitch.Attribute("id", l...)
		case 5:
			return aitch.NewAttribute([]byte("id"), l...)
		case 6:
			return aitch.DelimitedAttribute("class", " ", l...)
		case 7:
			return aitch.NewDelimitedAttribute([]byte("class"), []byte(", "), l...)
		case 8:
			return aitch.Text(aitch.NewConcatValue(l...))
		case 9:
			return html.Class(l...)
		case 10:
			return html.Style(l...)
		case 11:
			return css.Color(l...)
		case 12:
			return css.Width(css.Px(l...))
		case 13:
			return htmx.Trigger(l...)
		case 14:
			return htmx.On("click", l...)
		case 15:
			return html.Data("x", l...)
		case 16:
			return svg.Style(l...)
		}
		return html.P(html.Class("a"), html.Class(l...), aitch.When("k", html.Class(l...)))
	}
	sameWithNils(build, list, map[string]any{"k": 5}, "values")
}

// C15_nodes: lists of nodes.
func C15_nodes() {
	which := sym.Choice(12)
	list := nodeArgs()
	inElement := sym.Choice(2) == 1
	build := func(l []any) aitch.Node {
		ns := toNodes(l)
		var n aitch.Node
		switch which {
		case 0:
			n = aitch.Collection(ns...)
		case 1:
			n = aitch.Conditional(func(*context.Context) bool { return true }, ns...)
		case 2:
			n = aitch.Conditional(nil, ns...)
		case 3:
			n = aitch.When("k", ns...)
		case 4:
			n = aitch.When("!k", ns...)
		case 5:
			n = aitch.Iterate(func(*context.Context) []any { return []any{1, nil} }, ns...)
		case 6:
			n = aitch.IterateKey("l", ns...)
		case 7:
			n = aitch.IterateYield(func(_ *context.Context, yield func(any)) { yield(nil) }, ns...)
		case 8:
			n = aitch.ContentCollect(func(*context.Context) []aitch.Node { return ns })
		case 9:
			n = aitch.Imperative(func(ic aitch.ImperativeContext) error {
				ic.Start([]byte("u"), false, ns...)
				ic.WriteNodes(ns...)
				ic.EndAll()
				return nil
			})
		case 10:
			n = aitch.Text("[", aitch.Collection(ns...), "]")
		case 11:
			n = aitch.Collection(aitch.Conditional(func(*context.Context) bool { return true }, append([]aitch.Node{aitch.Collection(ns...)}, ns...)...))
		}
		if inElement {
			return html.P("x", n)
		}
		return n
	}
	sameWithNils(build, list, map[string]any{"k": true, "l": []int{1}}, "nodes")
}

// panics tells whether f panics.
func panics(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			p = true
		}
	}()
	f()
	return false
}

// C15_functions: nil functions.
func C15_functions() {
	v := rawVal(1)
	t := aitch.Text(v.given)
	switch sym.Choice(9) {
	case 0:
		sym.Assert(panics(func() { aitch.Iterate(nil, t) }), "Iterate of a nil function panics when built")
	case 1:
		sym.Assert(panics(func() { aitch.IterateYield(nil, t) }), "IterateYield of a nil function panics when built")
	case 2:
		expect(aitch.ContentCollect(nil), nil, nil, "", "nil collector")
	case 3:
		expect(html.P("a", aitch.ContentCollect(nil), t), nil, nil, "<p>a"+v.text+"</p>", "nil collector in an element")
	case 4:
		expect(aitch.Conditional(nil, t, html.Class("no")), nil, nil, v.text, "nil condition")
	case 5:
		expect(html.P(aitch.Conditional(nil, t, html.Id(v.given))), nil, nil, `<p id="`+v.text+`">`+v.text+"</p>", "nil condition in an element")
	case 6:
		expect(html.P(aitch.Imperative(nil), t), nil, nil, "<p>"+v.text+"</p>", "nil imperative function")
	case 7:
		expect(aitch.Text(aitch.DynamicValueFunc(nil), v.given), nil, nil, v.text, "nil value function")
	case 8:
		var f func(*context.Context) []byte
		expect(html.P(html.Id(f, v.given)), nil, nil, `<p id="`+v.text+`"></p>`, "nil value function in an attribute")
	}
}

// C15_results: functions that return nil.
func C15_results() {
	v := rawVal(1)
	nilData := sym.Choice(2) == 1
	var data map[string]any
	if !nilData {
		data = map[string]any{"k": nil, "l": nil}
	}
	switch sym.Choice(9) {
	case 0:
		expect(html.P(aitch.ContentCollect(func(*context.Context) []aitch.Node { return nil }), v.given), data, nil, "<p>"+v.text+"</p>", "collector of nil")
	case 1:
		expect(html.P(aitch.Iterate(func(*context.Context) []any { return nil }, aitch.Text("x")), v.given), data, nil, "<p>"+v.text+"</p>", "iteration of nil")
	case 2:
		expect(html.P(aitch.IterateKey("l", aitch.Text("x")), v.given), data, nil, "<p>"+v.text+"</p>", "iteration of a nil key")
	case 3:
		expect(html.P(html.Id(aitch.DynamicValueKey("k"), aitch.DynamicValueKey("."), func(*context.Context) []byte { return nil }), v.given), data, nil, `<p id="">`+v.text+"</p>", "nil values")
	case 4:
		expect(aitch.Text(func() any { return nil }, v.given), data, nil, v.text, "function of nil")
	case 5:
		expect(html.Document(nil, nil, nil), data, nil, "<!DOCTYPE html>\n<html><body></body></html>", "document of nils")
	case 6:
		expect(html.P(aitch.Element("no good"), aitch.Attribute("no good", "x"), aitch.VoidElement(""), v.given), data, nil, "<p>"+v.text+"</p>", "nodes of invalid names")
	case 7:
		expect(html.P(html.Class(nil), html.Id(nil)), data, nil, `<p class="" id=""></p>`, "attributes of nil")
	case 8:
		expect(aitch.Iterate(func(*context.Context) []any { return []any{nil, v.given} }, aitch.Text("(", aitch.DynamicValueKey("."), ")")), data, nil, "()("+v.text+")", "nil items")
	}
}
