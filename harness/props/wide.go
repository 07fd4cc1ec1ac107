package props

import (
	"fmt"
	"math"
	"time"

	"aitchverif/sym"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
	"github.com/go-andiamo/aitch/css"
)

// wide is a value of any of the documented kinds, with unusual ones among them, and the text it stands for.
type wide struct {
	v    any
	text string
	fit  bool // may stand as an element's content with the same text
	many bool // a node: contributes several values or none
}

// wideData is the data and cargo that the dynamic ones among wides read.
func wideData(extra map[string]any) map[string]any {
	d := map[string]any{"ws": "<", "wb": []byte("<b>"), "wz": 0, "wn": nil, "wf": false, "wt": true, "wu": []string{"x"}, "we": "", "wi": -12, "w.m": "dot", "w": map[string]any{"m": "<nested>", "n": "<inner>", "": "<empty>"}, "!wn": "bang", "ww": strer{"'"}, "wg": func() any { return "&" }, "wx": &bothErr{"x"}, "wl": plainErr{}}
	for k, v := range extra {
		d[k] = v
	}
	return d
}

const wideCargo = "c>"

func key(s string) aitch.DynamicValueKey { return aitch.DynamicValueKey(s) }

func widePtr() any { x := 5; return &x }

// wideAt is the i-th of the values; every one is concrete but for a symbolic byte.
func wideAt(i int, b []byte) wide {
	t := string(b)
	switch i {
	case 0:
		return wide{b, t, true, false}
	case 1:
		return wide{nil, "", true, false}
	case 2:
		return wide{"", "", true, false}
	case 3:
		return wide{[]byte(nil), "", true, false}
	case 4:
		return wide{[]byte{}, "", true, false}
	case 5:
		return wide{" ", " ", true, false}
	case 6:
		return wide{"a<b", "a&lt;b", true, false}
	case 7:
		return wide{"&amp;", "&amp;amp;", true, false}
	case 8:
		return wide{" x ", " x ", true, false}
	case 9:
		return wide{"x\ty\nz", "x\ty\nz", true, false}
	case 10:
		return wide{"\x00", "", true, false}
	case 11:
		return wide{"0", "0", true, false}
	case 12:
		return wide{"true", "true", true, false}
	case 13:
		return wide{"a;b", "a;b", true, false}
	case 14:
		return wide{"UPPER", "UPPER", true, false}
	case 15:
		return wide{"\xff\xc3\xa9", "\xff\xc3\xa9", true, false}
	case 16:
		return wide{0, "0", true, false}
	case 17:
		return wide{1, "1", true, false}
	case 18:
		return wide{-7, "-7", true, false}
	case 19:
		return wide{100, "100", true, false}
	case 20:
		return wide{int8(0), "0", true, false}
	case 21:
		return wide{int16(-300), "-300", true, false}
	case 22:
		return wide{int32(0), "0", true, false}
	case 23:
		return wide{int64(0), "0", true, false}
	case 24:
		return wide{int64(math.MinInt64), "-9223372036854775808", true, false}
	case 25:
		return wide{uint(0), "0", true, false}
	case 26:
		return wide{uint8(65), "65", true, false}
	case 27:
		return wide{uint16(0), "0", true, false}
	case 28:
		return wide{uint32(65), "65", true, false}
	case 29:
		return wide{uint64(math.MaxUint64), "18446744073709551615", true, false}
	case 30:
		return wide{0.0, "0", true, false}
	case 31:
		return wide{1.5, "1.5", true, false}
	case 32:
		return wide{float32(0), "0", true, false}
	case 33:
		return wide{float32(0.1), "0.1", true, false}
	case 34:
		return wide{-100000.0, "-100000", true, false}
	case 35:
		return wide{1e21, "1e+21", true, false}
	case 36:
		return wide{true, "true", true, false}
	case 37:
		return wide{false, "false", true, false}
	case 38:
		return wide{key("ws"), "&lt;", true, false}
	case 39:
		return wide{key("wb"), "<b>", true, false}
	case 40:
		return wide{key("wz"), "0", true, false}
	case 41:
		return wide{key("wn"), "", true, false}
	case 42:
		return wide{key("wf"), "false", true, false}
	case 43:
		return wide{key("wt"), "true", true, false}
	case 44:
		return wide{key("wu"), "", true, false}
	case 45:
		return wide{key("we"), "", true, false}
	case 46:
		return wide{key("wi"), "-12", true, false}
	case 47:
		return wide{key("w.m"), "dot", true, false}
	case 48:
		return wide{key("w.n"), "", true, false}
	case 49:
		return wide{key("w"), "", true, false}
	case 50:
		return wide{key("w."), "", true, false}
	case 51:
		return wide{key("!wn"), "bang", true, false}
	case 52:
		return wide{key("!wt"), "", true, false}
	case 53:
		return wide{key("WS"), "", true, false}
	case 54:
		return wide{key("ww"), "&apos;", true, false}
	case 55:
		return wide{key("wg"), "&amp;", true, false}
	case 56:
		return wide{key("no"), "", true, false}
	case 57:
		return wide{key(""), "", true, false}
	case 58:
		return wide{key("."), "c&gt;", true, false}
	case 59:
		return wide{key(".."), "", true, false}
	case 60:
		return wide{key(".ws"), "", true, false}
	case 61:
		return wide{func(*context.Context) []byte { return b }, t, true, false}
	case 62:
		return wide{aitch.DynamicValueFunc(func(*context.Context) []byte { return nil }), "", true, false}
	case 63:
		return wide{func(ctx *context.Context) []byte { return []byte(ctx.Data["ws"].(string)) }, "<", true, false}
	case 64:
		return wide{func() any { return nil }, "", true, false}
	case 65:
		return wide{func() any { return "\"" }, "&quot;", true, false}
	case 66:
		return wide{func() any { return func() any { return b } }, t, true, false}
	case 67:
		return wide{func() any { return strer{"<"} }, "&lt;", true, false}
	case 68:
		return wide{func() any { return 0 }, "0", true, false}
	case 69:
		return wide{strer{"a&b"}, "a&amp;b", true, false}
	case 70:
		return wide{&pstrer{"it's"}, "it&apos;s", true, false}
	case 71:
		return wide{strer{""}, "", true, false}
	case 72:
		return wide{intStringer(3), "&lt;3&gt;", true, false}
	case 73:
		return wide{bothErr{"a<b"}, "s:a&lt;b", true, false}
	case 74:
		return wide{&bothErr{"p"}, "s:p", true, false}
	case 75:
		return wide{strList{"a", "<"}, "a,&lt;,", true, false}
	case 76:
		return wide{strList(nil), "", true, false}
	case 77:
		return wide{strMap{"a": "&"}, "&amp;", true, false}
	case 78:
		return wide{strFunc(func() string { return "f'" }), "f&apos;", true, false}
	case 79:
		return wide{namedBytes("<n>"), "b:&lt;n&gt;", true, false}
	case 80:
		return wide{plainBytes("n"), "", true, false}
	case 81:
		return wide{plainString("n"), "", true, false}
	case 82:
		return wide{plainInt(5), "", true, false}
	case 83:
		return wide{plainBool(true), "", true, false}
	case 84:
		return wide{plainErr{}, "", true, false}
	case 85:
		return wide{errWrite, "", true, false}
	case 86:
		return wide{withStrer{strer{"<e>"}, 1}, "&lt;e&gt;", true, false}
	case 87:
		return wide{&withStrer{strer{"e"}, 1}, "e", true, false}
	case 88:
		return wide{withIface{strer{"i"}}, "i", true, false}
	case 89:
		return wide{pstrer{"not"}, "", true, false}
	case 90:
		return wide{marshaler{}, "", true, false}
	case 91:
		return wide{boolStringer(false), "off", true, false}
	case 92:
		return wide{floatStringer(2), "two", true, false}
	case 93:
		return wide{1500 * time.Millisecond, "1.5s", true, false}
	case 94:
		return wide{func() any { return &bothErr{"q"} }, "s:q", true, false}
	case 95:
		return wide{func() any { return plainErr{} }, "", true, false}
	case 96:
		return wide{key("wx"), "s:x", true, false}
	case 97:
		return wide{key("wl"), "", true, false}
	case 98:
		return wide{aitch.Value{}, "", true, false}
	case 99:
		return wide{aitch.NewValue(b), t, true, false}
	case 100:
		return wide{aitch.NewValue("<"), "&lt;", true, false}
	case 101:
		return wide{aitch.NewValue(nil), "", true, false}
	case 102:
		return wide{aitch.NewValue(aitch.Text("a", b)), "a" + t, true, false}
	case 103:
		return wide{aitch.NewConcatValue(), "", true, false}
	case 104:
		return wide{aitch.NewConcatValue(nil, "", key("no")), "", true, false}
	case 105:
		return wide{aitch.NewConcatValue("<", 0, b, key("ws"), nil, 0.5), "&lt;0" + t + "&lt;0.5", true, false}
	case 106:
		return wide{aitch.NewConcatValue(aitch.NewConcatValue(b), aitch.NewConcatValue(), "z"), t + "z", true, false}
	case 107:
		return wide{css.Px(0), "0px", true, false}
	case 108:
		return wide{css.Percent(), "%", true, false}
	case 109:
		return wide{css.Em("-", 1.5), "-1.5em", true, false}
	case 110:
		return wide{aitch.Text(b), t, true, true}
	case 111:
		return wide{aitch.Text(b, "<"), t + "&lt;", true, true}
	case 112:
		return wide{aitch.Text(), "", true, true}
	case 113:
		return wide{aitch.Text(nil, ""), "", true, true}
	case 114:
		return wide{aitch.Fragment(key("ws"), b), "&lt;" + t, true, true}
	case 115:
		return wide{aitch.Comment(b), t, false, true}
	case 116:
		return wide{aitch.PI("x", b), t, false, true}
	case 117:
		return wide{aitch.Attribute("a", b, "z"), t + "z", false, true}
	case 118:
		return wide{aitch.DelimitedAttribute("a", ";", b, "z"), t + "z", false, true}
	case 119:
		return wide{aitch.BooleanAttribute("a"), "", false, true}
	case 120:
		return wide{aitch.Collection(), "", true, true}
	case 121:
		return wide{aitch.Collection(aitch.Text(b), nil, aitch.Text("<")), t + "&lt;", true, true}
	case 122:
		return wide{aitch.Collection(aitch.Collection(aitch.Text("p"), aitch.Comment("q")), aitch.Element("b", "no"), aitch.Text(b)), "pq" + t, false, true}
	case 123:
		return wide{aitch.Element("b", b), "", false, true}
	case 124:
		return wide{aitch.VoidElement("br"), "", false, true}
	case 125:
		return wide{aitch.When("ws", aitch.Text("no")), "", false, true}
	case 126:
		return wide{aitch.Imperative(func(ic aitch.ImperativeContext) error { ic.WriteString("no"); return nil }), "", false, true}
	case 127:
		return wide{aitch.IterateKey("wu", aitch.Text("no")), "", false, true}
	case 128:
		return wide{aitch.ContentCollect(func(*context.Context) []aitch.Node { return []aitch.Node{aitch.Text("no")} }), "", false, true}
	case 129:
		return wide{struct{ a int }{1}, "", true, false}
	case 130:
		return wide{map[string]string{"a": "b"}, "", true, false}
	case 131:
		return wide{[]string{"a"}, "", true, false}
	case 132:
		return wide{[]any{"a"}, "", true, false}
	case 133:
		return wide{[]int{1}, "", true, false}
	case 134:
		return wide{map[string]any{"ws": 1}, "", true, false}
	case 135:
		return wide{widePtr(), "", true, false}
	case 136:
		return wide{[2]byte{'a', 'b'}, "", true, false}
	case 137:
		return wide{func() {}, "", true, false}
	case 138:
		return wide{func() string { return "x" }, "", true, false}
	case 139:
		return wide{uintptr(3), "", true, false}
	case 140:
		return wide{sink{}, "", true, false}
	case 141:
		return wide{&sink{}, "", true, false}
	case 142:
		return wide{sinkStr{}, "s&lt;", true, false}
	}
	panic("no such value")
}

const nWides = 143

// wideVal chooses one of the values that are not nodes.
func wideVal() val {
	x := wideAt(sym.Choice(nWides), raw(1))
	sym.Assume(!x.many)
	return val{x.v, x.text}
}

// wideAny chooses one of the values.
func wideAny() val {
	x := wideAt(sym.Choice(nWides), raw(1))
	return val{x.v, x.text}
}

// wideContent chooses one of the values that render alike as an element's content.
func wideContent() val {
	x := wideAt(sym.Choice(nWides), raw(1))
	sym.Assume(x.fit)
	return val{x.v, x.text}
}

// wideOne chooses one of the values, and tells whether it may stand for several.
func wideOne(content bool) (val, bool) {
	x := wideAt(sym.Choice(nWides), raw(1))
	sym.Assume(x.fit || !content)
	return val{x.v, x.text}, x.many
}

type bothErr struct{ s string }

func (b bothErr) Error() string    { return "e:" + b.s }
func (b bothErr) String() string   { return "s:" + b.s }
func (b bothErr) GoString() string { return "g:" + b.s }

type strList []string

func (l strList) String() string {
	s := ""
	for _, x := range l {
		s += x + ","
	}
	return s
}

type strMap map[string]string

func (m strMap) String() string { return m["a"] }

type strFunc func() string

func (f strFunc) String() string { return f() }

type namedBytes []byte

func (n namedBytes) String() string { return "b:" + string(n) }

type plainBytes []byte
type plainString string
type plainInt int
type plainBool bool
type plainErr struct{}

func (plainErr) Error() string { return "no" }

type withStrer struct {
	strer
	n int
}
type withIface struct{ fmt.Stringer }
type marshaler struct{}

func (marshaler) MarshalText() ([]byte, error) { return []byte("no"), nil }
func (marshaler) MarshalJSON() ([]byte, error) { return []byte("no"), nil }
func (marshaler) GoString() string             { return "no" }

type boolStringer bool

func (b boolStringer) String() string {
	if b {
		return "on"
	}
	return "off"
}

type floatStringer float64

func (f floatStringer) String() string { return "two" }

// sink has many a method that is not asked for.
type sink struct{}

func (sink) Bool() bool                          { return false }
func (sink) IsTrue() bool                        { return false }
func (sink) IsZero() bool                        { return true }
func (sink) IsNil() bool                         { return true }
func (sink) IsEmpty() bool                       { return true }
func (sink) Empty() bool                         { return true }
func (sink) Valid() bool                         { return false }
func (sink) IsValid() bool                       { return false }
func (sink) Ok() bool                            { return false }
func (sink) Enabled() bool                       { return false }
func (sink) Len() int                            { return 0 }
func (sink) Size() int                           { return 0 }
func (sink) Int() int                            { return 7 }
func (sink) Int64() int64                        { return 7 }
func (sink) Uint64() uint64                      { return 7 }
func (sink) Float64() float64                    { return 7 }
func (sink) Error() string                       { return "error" }
func (sink) GoString() string                    { return "gostring" }
func (sink) MarshalText() ([]byte, error)        { return []byte("text"), nil }
func (sink) MarshalJSON() ([]byte, error)        { return []byte("json"), nil }
func (sink) MarshalBinary() ([]byte, error)      { return []byte("binary"), nil }
func (sink) AppendText(b []byte) ([]byte, error) { return append(b, "appended"...), nil }
func (sink) Format(f fmt.State, verb rune)       { f.Write([]byte("format")) }
func (sink) Unwrap() error                       { return nil }
func (sink) Interface() any                      { return "interface" }
func (sink) Get() any                            { return "get" }
func (sink) Any() any                            { return "any" }
func (sink) Bytes() []byte                       { return []byte("bytes") }
func (sink) Text() string                        { return "text" }
func (sink) HTML() string                        { return "html" }
func (sink) Str() string                         { return "str" }
func (sink) Name() string                        { return "name" }
func (sink) Key() string                         { return "key" }
func (sink) Read(p []byte) (int, error)          { return 0, errWrite }
func (sink) Write(p []byte) (int, error)         { return 0, errWrite }
func (sink) Close() error                        { return errWrite }

type sinkStr struct{ sink }

func (sinkStr) String() string { return "s<" }
