package props

// Bounds: names of 0..3 arbitrary bytes (0..4 in thorough runs), and 1..2 arbitrary bytes before, within or after a valid name;
// five constructors, both settings of the panic switch; valid names of 1..4 bytes over the whole alphabet written and
// reported; the 14 void names and their near misses.
// Also names of 20 lengths up to 1025 with an arbitrary byte at one of 5 places.
// Strings the code itself compares with, alone, with an arbitrary byte before or after, and after one another (words.go).
// Sizes include those at which the code itself makes a difference (constants of its comparisons, up to about 600).
// Also: two texts that differ in one arbitrary byte or in length, side by side and after each other (history.go).

import (
	"strings"

	"aitchverif/sym"

	"github.com/go-andiamo/aitch"
)

func init() {
	sym.Register("C11_accept", C11_accept)
	sym.Register("C11_within", C11_within)
	sym.Register("C11_long", C11_long)
	sym.Register("C11_written", C11_written)
	sym.Register("C11_void", C11_void)
}

func letter(c byte) bool {
	return sym.Or(sym.And(c >= 'a', c <= 'z'), sym.And(c >= 'A', c <= 'Z'))
}

func nameByte(c byte) bool {
	return sym.Or(sym.Or(letter(c), sym.And(c >= '0', c <= '9')), sym.Or(sym.Or(c == '.', c == '_'), sym.Or(c == '-', c == ':')))
}

// validName is the specification of names.
func validName(s string) bool {
	if len(s) == 0 {
		return false
	}
	ok := letter(s[0])
	for i := 1; i < len(s); i++ {
		ok = sym.And(ok, nameByte(s[i]))
	}
	return ok
}

// named calls one of the constructors; panicked tells whether it panicked.
func named(which int, name string) (n aitch.Node, panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			n, panicked = nil, true
		}
	}()
	switch which {
	case 0:
		n = aitch.Element(name)
	case 1:
		n = aitch.VoidElement(name)
	case 2:
		n = aitch.Attribute(name, "v")
	case 3:
		n = aitch.BooleanAttribute(name)
	case 4:
		n = aitch.DelimitedAttribute(name, " ", "v")
	}
	return
}

func nameCase(name string) {
	which := sym.Choice(5)
	strict := sym.Choice(2) == 1
	was := aitch.PanicOnInvalidName
	aitch.PanicOnInvalidName = strict
	n, panicked := named(which, name)
	aitch.PanicOnInvalidName = was
	valid := validName(name)
	sym.Assert((n != nil) == valid, "a node is made exactly for a valid name")
	sym.Assert(panicked == sym.And(strict, !valid), "panics exactly for an invalid name when enabled")
	if n != nil {
		sym.Assert(n.Name() == name, "the node reports the name")
	}
}

// C11_accept: every short name.
func C11_accept() {
	n := sym.Choice(4 + sym.Tier())
	nameCase(sym.String(n, n))
}

// C11_within: arbitrary bytes at the ends or within a longer name.
func C11_within() {
	n := 1 + sym.Choice(1+sym.Tier())
	s := sym.String(n, n)
	switch sym.Choice(4) {
	case 0:
		nameCase(s + "data-x")
	case 1:
		nameCase("data-x" + s)
	case 2:
		nameCase("da" + s + "ta")
	case 3:
		nameCase("br" + s)
	}
}

// C11_written: a valid name is written as it is.
func C11_written() {
	n := 1 + sym.Choice(3)
	name := sym.StringOf(1, 1, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ") + sym.StringOf(n-1, n-1, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789._-:")
	which := sym.Choice(5)
	want := ""
	switch which {
	case 0:
		for _, v := range voidNames {
			sym.Assume(name != v)
		}
		want = "<" + name + "></" + name + ">"
	case 1:
		want = "<" + name + ">"
	case 2, 4:
		want = " " + name + `="v"`
	case 3:
		want = " " + name
	}
	node, panicked := named(which, name)
	sym.Assert(node != nil && !panicked, "a valid name is accepted")
	sym.Assert(node.Name() == name, "the node reports its name")
	if which < 2 {
		sym.Assert(node.Type() == aitch.ElementNode, "an element")
	} else {
		sym.Assert(node.Type() == aitch.AttributeNode, "an attribute")
	}
	expect(node, nil, nil, want, "the name is written unchanged")
}

var voidNames = []string{"area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "param", "source", "track", "wbr"}

// C11_void: Element makes void elements exactly of the void names.
func C11_void() {
	v := voidNames[sym.Choice(len(voidNames))]
	x := rawVal(1)
	switch sym.Choice(5) {
	case 0:
		expect(aitch.Element(v, "c", aitch.Attribute("id", x.given)), nil, nil, "<"+v+` id="`+x.text+`">`, "void by name")
	case 1:
		n := v + "x"
		expect(aitch.Element(n, x.given), nil, nil, "<"+n+">"+x.text+"</"+n+">", "a longer name is not void")
	case 2:
		n := v[:1]
		expect(aitch.Element(n, x.given), nil, nil, "<"+n+">"+x.text+"</"+n+">", "a shorter name is not void")
	case 3:
		n := []string{"p", "div", "a", "b", "i", "u", "script", "style", "svg", "path", "circle", "command", "keygen", "frame"}[sym.Choice(14)]
		expect(aitch.Element(n, x.given), nil, nil, "<"+n+">"+x.text+"</"+n+">", "an ordinary name is not void")
	case 4:
		expect(aitch.NewElement([]byte(v), x.given), nil, nil, "<"+v+">"+x.text+"</"+v+">", "NewElement makes what it is asked for")
	}
}

// C11_long: an arbitrary byte somewhere in a long name.
func C11_long() {
	n := sym.Size(4200, 5, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 1025)
	at := []int{0, 1, n / 2, n - 2, n - 1}[sym.Choice(5)]
	s := strings.Repeat([]string{"a", "Z", "a0-_:."}[sym.Choice(3)], n)[:n]
	nameCase(s[:at] + sym.String(1, 1) + s[at+1:])
}
