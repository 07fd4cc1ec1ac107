package props

// Bounds: all 133 properties with 0..3 values of 0..2 arbitrary bytes (and with up to 17 values), as string, raw bytes, data key, number, unit value or nil;
// pairs and triples of declarations (every property with every other in the first two places of thorough runs, with a chosen
// few otherwise), beside a plain style attribute and under conditions; all 15 units with 0..3 values, also given as a slice of up to 9 values with
// 0..3 elements of spare capacity used again afterwards.
// Also one value of every kind (wide.go) for every property.
// All properties on one element (more.go).
// Strings the code itself compares with, alone, with an arbitrary byte before or after, and after one another (words.go).
// Sizes include those at which the code itself makes a difference (constants of its comparisons, up to about 600).
// Also: two texts that differ in one arbitrary byte or in length, side by side and after each other; 75 numbers at every unit and property (history.go).
// Also: every keyword constant (keywords.go).

import (
	"aitchverif/sym"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
	"github.com/go-andiamo/aitch/css"
	"github.com/go-andiamo/aitch/html"
)

func init() {
	sym.Register("C19_wide", C19_wide)
	sym.Register("C19_property", C19_property)
	sym.Register("C19_joined", C19_joined)
	sym.Register("C19_unit", C19_unit)
	sym.Register("C19_slice", C19_slice)
}

type unit struct {
	name string
	fn   func(...any) aitch.Value
}

var units = []unit{
	{"px", css.Px}, {"pt", css.Pt}, {"pc", css.Pc}, {"in", css.In}, {"cm", css.Cm}, {"mm", css.Mm}, {"em", css.Em}, {"rem", css.Rem},
	{"%", css.Percent}, {"vw", css.Vw}, {"vh", css.Vh}, {"vmin", css.VMin}, {"vmax", css.VMax}, {"ch", css.Ch}, {"ex", css.Ex},
}

// C19_property: one declaration.
func C19_property() {
	p := cssProperties[sym.Choice(len(cssProperties))]
	data := map[string]any{}
	var vs []val
	if sym.Choice(2) == 0 {
		vs = attrVals(data)
	} else {
		x := rawVal(1)
		vs = []val{{css.Px(x.given), x.text + "px"}, {" ", " "}, {css.Em(1, "/", 2), "1/2em"}}
		// and more values
		for i := []int{0, 1, 2, 5, 14}[sym.Choice(5)]; i > 0; i-- {
			y := rawVal(1)
			vs = append(vs, y)
		}
	}
	args := givens(vs)
	n := p.fn(args...)
	sym.Assert(n != nil && n.Name() == "style" && n.Type() == aitch.AttributeNode, "a style attribute is made")
	want := ` style="` + p.name + ":" + joinVals(vs) + `"`
	if sym.Choice(2) == 0 {
		expect(n, data, nil, want, "the declaration is written")
	} else {
		expect(aitch.Element("i", n, "t"), data, nil, "<i"+want+">t</i>", "the declaration is written in the start tag")
	}
}

// C19_joined: several declarations on one element.
func C19_joined() {
	p := cssProperties[sym.Choice(len(cssProperties))]
	few := []attrCtor{cssProperties[0], {name: "width", fn: css.Width}, {name: "z-index", fn: css.ZIndex}}
	if sym.Tier() > 0 {
		few = cssProperties
	}
	q := few[sym.Choice(len(few))]
	x, y, z := strVal(1), rawVal(1), rawVal(1)
	a, b := p.fn(x.given), q.fn(y.given, "!")
	wa, wb := p.name+":"+x.text, q.name+":"+y.text+"!"
	var n aitch.Node
	want := ""
	switch sym.Choice(6) {
	case 0:
		n, want = aitch.Element("i", a, b), wa+"; "+wb
	case 1:
		n, want = aitch.Element("i", b, aitch.Collection(nil, a), p.fn("3")), wb+"; "+wa+"; "+p.name+":3"
	case 2:
		n, want = aitch.Element("i", html.Style("u:v", z.given), a), "u:v; "+z.text+"; "+wa
	case 3:
		n, want = aitch.Element("i", a, html.Style("u:", "v"), b), wa+"; u:; v; "+wb
	case 4:
		t := sym.Bool()
		n, want = aitch.Element("i", aitch.Conditional(func(*context.Context) bool { return t }, a), b), wb
		if t {
			want += "; " + wa
		}
	case 5:
		n, want = aitch.Imperative(func(ctx aitch.ImperativeContext) error {
			ctx.Start([]byte("i"), false, a, b)
			ctx.End()
			return nil
		}), wa+"; "+wb
	}
	expect(n, nil, nil, `<i style="`+want+`"></i>`, "the declarations are joined")
}

// C19_unit: one value with its unit.
func C19_unit() {
	u := units[sym.Choice(len(units))]
	data := map[string]any{}
	vs := attrVals(data)
	args := givens(vs)
	v := u.fn(args...)
	for i := []int{0, 1, 6}[sym.Choice(3)]; i > 0; i-- {
		vs = append(vs, rawVal(1))
	}
	args = givens(vs)
	v = u.fn(args...)
	want := joinVals(vs) + u.name
	switch sym.Choice(5) {
	case 0:
		expect(aitch.Text(v), data, nil, want, "the value is followed by its unit")
	case 1:
		expect(css.Margin(v, " ", v), data, nil, ` style="margin:`+want+" "+want+`"`, "the value is used twice")
	case 2:
		expect(aitch.Attribute("a", "(", v, ")"), data, nil, ` a="(`+want+`)"`, "the value stands in an attribute")
	case 3:
		w := units[sym.Choice(len(units))]
		expect(aitch.Text(w.fn("calc", v), v), data, nil, "calc"+want+w.name+want, "units nest")
	case 4:
		expect(aitch.Comment(aitch.NewConcatValue(v, "+", u.fn(2))), data, nil, "<!--"+want+"+2"+u.name+"-->", "the value stands in a concatenated value")
	}
}

// C19_slice: the argument slice belongs to the caller.
func C19_slice() {
	n := []int{0, 1, 2, 3, 4, 5, 9}[sym.Choice(7)]
	spare := sym.Choice(4)
	backing := make([]any, n+spare)
	for i := range backing {
		backing[i] = string(rune('0' + i))
	}
	args := backing[:n]
	want := ""
	for i := range args {
		want += string(rune('0' + i))
	}
	var a, b, wa, wb = "", "", "", ""
	if sym.Choice(2) == 0 {
		u, w := units[sym.Choice(len(units))], units[sym.Choice(2)]
		x, y := u.fn(args...), w.fn(args...)
		a, _ = render(aitch.Text(x), nil, nil)
		b, _ = render(aitch.Text(y), nil, nil)
		wa, wb = want+u.name, want+w.name
	} else {
		p, q := cssProperties[sym.Choice(len(cssProperties))], cssProperties[sym.Choice(2)]
		x, y := p.fn(args...), q.fn(args...)
		a, _ = render(x, nil, nil)
		b, _ = render(y, nil, nil)
		wa, wb = ` style="`+p.name+":"+want+`"`, ` style="`+q.name+":"+want+`"`
	}
	sym.Assert(a == wa, "the first use of the slice")
	sym.Assert(b == wb, "the second use of the slice")
	for i := range backing {
		sym.Assert(backing[i] == any(string(rune('0'+i))), "the slice is left as it is")
	}
}

// C19_wide: each property and unit with one value of any kind.
func C19_wide() {
	x := wideVal()
	if sym.Choice(2) == 0 {
		p := cssProperties[sym.Choice(len(cssProperties))]
		expect(p.fn(x.given), wideData(nil), wideCargo, ` style="`+p.name+":"+x.text+`"`, "the declaration is written")
		return
	}
	u := units[sym.Choice(len(units))]
	switch sym.Choice(3) {
	case 0:
		expect(aitch.Text(u.fn(x.given)), wideData(nil), wideCargo, x.text+u.name, "the value is followed by its unit")
	case 1:
		expect(css.Width(u.fn("-", x.given)), wideData(nil), wideCargo, ` style="width:-`+x.text+u.name+`"`, "the value is followed by its unit")
	case 2:
		expect(aitch.Text(u.fn(x.given, x.given)), wideData(nil), wideCargo, x.text+x.text+u.name, "the values are followed by their unit")
	}
}
