package props

// Bounds: keys of up to 2 arbitrary bytes against data maps and map cargos of 2 arbitrary one-byte keys, and 12 chosen keys
// against 26 shapes of cargo (maps of 6 key and value types, structs with exported, unexported, embedded, shadowed and
// pointer-embedded fields, pointers to them, nil pointers, nil maps, pointers to pointers, scalars, nil), each requested as
// 6 types; with and without an entry of another type in the data; MustGet compared with Get.
// Also 48 values (zero ones, pointers, interfaces, named and unexported types) held in 4 places requested as 17 types;
// entries of maps and fields with types of their own; slices, maps and functions; 60 chosen odd keys.
// Maps of up to 130 entries with keys of up to 303 bytes (more.go).
// Fields promoted through up to five embedded structs and pointers, ambiguous and shadowed ones (extra.go).
// Strings the code itself compares with, alone, with an arbitrary byte before or after, and after one another (words.go).
// Also: two texts that differ in one arbitrary byte or in length, side by side and after each other (history.go).
// Also: cargoes, data and keys that nearly are what is looked for (lures.go).

import (
	"fmt"

	"aitchverif/sym"

	"github.com/go-andiamo/aitch/context"
)

func init() {
	sym.Register("C16_keys", C16_keys)
	sym.Register("C16_shapes", C16_shapes)
	sym.Register("C16_data", C16_data)
	sym.Register("C16_kinds", C16_kinds)
	sym.Register("C16_typed", C16_typed)
	sym.Register("C16_nil", C16_nil)
	sym.Register("C16_types", C16_types)
}

type keyName string
type emb struct {
	E string
	F int
	g string
}
type Emb2 struct {
	H string
	F string
}
type st struct {
	A string
	b string
	C int
	D any
	I fmt.Stringer
	P *string
}
type withEmb struct {
	emb
	A string
}
type withPtr struct {
	*Emb2
	A string
}
type withUnexpPtr struct {
	*emb
	A string
}
type shadow struct {
	Emb2
	H int
}

// try calls Get and MustGet and gives what they say.
func try[T any](ctx *context.Context, key string) (v T, ok bool) {
	sym.Assert(!panics(func() { v, ok = context.Get[T](ctx, key) }), "Get never panics")
	var m T
	p := panics(func() { m = context.MustGet[T](ctx, key) })
	sym.Assert(p == !ok, "MustGet panics exactly when Get reports false")
	if ok {
		sym.Assert(any(m) == any(v), "MustGet gives what Get gives")
	} else {
		var zero T
		sym.Assert(any(v) == any(zero), "the zero value when not found")
	}
	return
}

// C16_keys: the entry of exactly that name, data first.
func C16_keys() {
	n := sym.Choice(3)
	key := sym.String(n, n)
	d1, d2 := sym.String(1, 1), sym.String(1, 1)
	v1, v2, c1, c2 := letters(1), letters(1), letters(1), letters(1)
	data := map[string]any{}
	data[d1] = v1
	wrong := sym.Bool()
	if wrong {
		data[d1] = 5
	}
	cm := map[string]any{}
	m1 := sym.String(1, 1)
	cm[m1] = c1
	var cargo any = cm
	switch sym.Choice(4) {
	case 1:
		cargo = map[string]string{m1: c1, d2: c2}
	case 2:
		cargo = &map[string]string{m1: c1}
	case 3:
		cargo = map[keyName]string{keyName(m1): c1}
	}
	_ = v2
	want, found := "", false
	if key == d1 && !wrong {
		want, found = v1, true
	} else {
		if m, ok := cargo.(map[string]string); ok && key == d2 {
			want, found = m[d2], true
		} else if key == m1 {
			want, found = c1, true
		}
	}
	ctx := context.New(nil, data, cargo)
	if sym.Choice(2) == 1 {
		// an enclosing context does not count
		ctx.Parent = context.New(nil, map[string]any{key: "parent"}, map[string]any{key: "parent"})
	}
	got, ok := try[string](ctx, key)
	sym.Assert(ok == found, "found exactly when present with the type")
	sym.Assert(got == want, "the value of that entry")
}

// C16_shapes: every shape of cargo.
func C16_shapes() {
	s := letters(1)
	i := int(sym.Int8())
	keys := []string{"A", "b", "C", "D", "I", "P", "E", "F", "g", "H", "emb", "Emb2", "", "Z", "a", "B", "c", "emb2", "A.H", "Emb2.H", " A"}
	key := keys[sym.Choice(len(keys))]
	e2 := &Emb2{H: s, F: s}
	base := st{A: s, b: s, C: i, D: s, I: strer{s}, P: &s}
	pb := &base
	var cargo any
	// what each key stands for
	fields := map[string]any{}
	switch sym.Choice(26) {
	case 0:
		cargo = nil
	case 1:
		cargo, fields = base, map[string]any{"A": s, "C": i, "D": s, "I": strer{s}, "P": &s}
	case 2:
		cargo, fields = pb, map[string]any{"A": s, "C": i, "D": s, "I": strer{s}, "P": &s}
	case 3:
		cargo = (*st)(nil)
	case 4:
		cargo = &pb
	case 5:
		cargo, fields = st{}, map[string]any{"A": "", "C": 0, "P": (*string)(nil)}
	case 6:
		cargo, fields = withEmb{emb{s, i, s}, s}, map[string]any{"A": s, "E": s, "F": i}
	case 7:
		cargo, fields = &withEmb{emb{s, i, s}, s}, map[string]any{"A": s, "E": s, "F": i}
	case 8:
		cargo, fields = withPtr{e2, s}, map[string]any{"A": s, "H": s, "F": s, "Emb2": e2}
	case 9:
		cargo, fields = withPtr{nil, s}, map[string]any{"A": s, "Emb2": (*Emb2)(nil)}
	case 10:
		cargo, fields = &withPtr{nil, s}, map[string]any{"A": s, "Emb2": (*Emb2)(nil)}
	case 11:
		cargo, fields = withUnexpPtr{nil, s}, map[string]any{"A": s}
	case 12:
		cargo, fields = withUnexpPtr{&emb{s, i, s}, s}, map[string]any{"A": s, "E": s, "F": i}
	case 13:
		cargo, fields = shadow{*e2, i}, map[string]any{"H": i, "F": s, "Emb2": *e2}
	case 14:
		cargo, fields = map[string]any{"A": s, "C": i, "D": nil}, map[string]any{"A": s, "C": i}
	case 15:
		cargo, fields = map[string]string{"A": s, "": s}, map[string]any{"A": s, "": s}
	case 16:
		cargo, fields = map[keyName]any{"A": s, "C": i}, map[string]any{"A": s, "C": i}
	case 17:
		cargo, fields = &map[string]int{"C": i}, map[string]any{"C": i}
	case 18:
		cargo = map[int]string{1: s}
	case 19:
		cargo = map[string]any(nil)
	case 20:
		cargo = (*map[string]any)(nil)
	case 21:
		cargo = s
	case 22:
		cargo = i
	case 23:
		cargo = []string{s}
	case 24:
		cargo = map[any]any{"A": s}
	case 25:
		cargo = func() {}
	}
	data := map[string]any{}
	switch sym.Choice(3) {
	case 0:
		data = nil
	case 1:
		data[key] = struct{ x int }{1} // an entry of a type that is asked for only as any
	}
	ctx := context.New(nil, data, cargo)
	want, has := fields[key]
	switch sym.Choice(6) {
	case 0:
		w, is := want.(string)
		got, ok := try[string](ctx, key)
		sym.Assert(ok == (has && is), "string: found exactly when present with the type")
		sym.Assert(!ok || got == w, "string: the value")
	case 1:
		w, is := want.(int)
		got, ok := try[int](ctx, key)
		sym.Assert(ok == (has && is), "int: found exactly when present with the type")
		sym.Assert(!ok || got == w, "int: the value")
	case 2:
		got, ok := try[any](ctx, key)
		if data != nil && len(data) > 0 {
			_, is := got.(struct{ x int })
			sym.Assert(ok && is, "any: the data comes first")
		} else {
			sym.Assert(ok == (has && want != nil), "any: found exactly when present")
			sym.Assert(!ok || got == want, "any: the value")
		}
	case 3:
		w, is := want.(fmt.Stringer)
		got, ok := try[fmt.Stringer](ctx, key)
		sym.Assert(ok == (has && is), "interface: found exactly when present with the type")
		sym.Assert(!ok || got == w, "interface: the value")
	case 4:
		w, is := want.(*string)
		got, ok := try[*string](ctx, key)
		sym.Assert(ok == (has && is), "pointer: found exactly when present with the type")
		sym.Assert(!ok || got == w, "pointer: the value")
	case 5:
		w, is := want.(*Emb2)
		got, ok := try[*Emb2](ctx, key)
		sym.Assert(ok == (has && is), "embedded: found exactly when present with the type")
		sym.Assert(!ok || got == w, "embedded: the value")
	}
}

type label string
type namedMap map[string]any
type ptrStringer struct{ s string }

func (p *ptrStringer) String() string { return p.s }

// wanted asks for a value that is held somewhere: it is found exactly when it has the type.
func wanted[T any](ctx *context.Context, v any) {
	w, is := v.(T)
	got, ok := try[T](ctx, "K")
	sym.Assert(ok == is, "found exactly when present with the type")
	sym.Assert(!ok || any(got) == any(w), "the value itself")
}

// C16_types: values of many types asked for as many types.
func C16_types() {
	s := letters(1)
	n := label(s)
	i, k := 5, int64(5)
	var np *string
	var e error
	vals := []any{s, n, &s, &n, np, i, k, &i, int32(5), uint(5), 1.5, float32(1.5), true, 'x', byte('x'), nil, e, strer{s}, &strer{s}, ptrStringer{s}, &ptrStringer{s},
		Emb2{s, s}, &Emb2{s, s}, [1]string{s}, struct{ A string }{s}, fmt.Stringer(strer{s}), errWrite, (*strer)(nil), uintptr(5),
		"", label(""), 0, int64(0), 0.0, false, byte(0), rune(0), strer{}, (*Emb2)(nil), Emb2{}, &Emb2{}, ptrStringer{}, (*ptrStringer)(nil), struct{ A string }{}, (*label)(nil), [0]string{}, -1, true}
	v := vals[sym.Choice(len(vals))]
	where := sym.Choice(4)
	ctx := context.New(nil, map[string]any{"K": v}, map[string]any{"K": &i, "k": s})
	switch where {
	case 1:
		ctx = context.New(nil, nil, map[string]any{"K": v})
	case 2:
		ctx = context.New(nil, map[string]any{"K": func() {}, "k": v}, struct{ K any }{v})
	case 3:
		ctx = context.New(nil, map[string]any{}, &map[label]any{"K": v})
	}
	if where == 0 {
		// an entry of another type than asked for gives way to the cargo's
		if _, is := v.(*int); !is {
			got, ok := try[*int](ctx, "K")
			sym.Assert(ok && got == &i, "the cargo's entry when the data's has another type")
		}
		ctx.Cargo = nil
	}
	switch sym.Choice(17) {
	case 0:
		wanted[string](ctx, v)
	case 1:
		wanted[label](ctx, v)
	case 2:
		wanted[*string](ctx, v)
	case 3:
		wanted[int](ctx, v)
	case 4:
		wanted[int64](ctx, v)
	case 5:
		wanted[float64](ctx, v)
	case 6:
		wanted[bool](ctx, v)
	case 7:
		wanted[fmt.Stringer](ctx, v)
	case 8:
		wanted[Emb2](ctx, v)
	case 9:
		wanted[*Emb2](ctx, v)
	case 10:
		wanted[error](ctx, v)
	case 11:
		wanted[rune](ctx, v)
	case 12:
		wanted[byte](ctx, v)
	case 13:
		wanted[ptrStringer](ctx, v)
	case 14:
		wanted[*ptrStringer](ctx, v)
	case 15:
		wanted[struct{ A string }](ctx, v)
	case 16:
		wanted[*label](ctx, v)
	}
}

// C16_kinds: slices, maps and functions, which are not comparable.
func C16_kinds() {
	l := []string{letters(1)}
	m := map[string]any{"K": l}
	var v any
	switch sym.Choice(6) {
	case 0:
		v = l
	case 1:
		v = m
	case 2:
		v = namedMap(m)
	case 3:
		v = &l
	case 4:
		v = []any{l[0]}
	case 5:
		v = []byte(l[0])
	}
	ctx := context.New(nil, nil, nil)
	switch sym.Choice(4) {
	case 0:
		ctx.Data = map[string]any{"K": v}
	case 1:
		ctx.Cargo = map[string]any{"K": v}
	case 2:
		ctx.Cargo = struct{ K any }{v}
	case 3:
		ctx.Cargo = &struct{ K any }{v}
	}
	_, is := v.([]string)
	gl, ok := context.Get[[]string](ctx, "K")
	sym.Assert(ok == is, "a slice exactly when it is one")
	sym.Assert(!ok || len(gl) == 1 && &gl[0] == &l[0], "the slice itself")
	_, is = v.(map[string]any)
	gm, ok := context.Get[map[string]any](ctx, "K")
	sym.Assert(ok == is, "a map exactly when it is one of that type")
	if ok {
		gm["new"] = 1
		sym.Assert(len(m) == 2, "the map itself")
	}
	_, is = v.([]byte)
	gb, ok := context.Get[[]byte](ctx, "K")
	sym.Assert(ok == is && len(gb) == len(gl)*0+map[bool]int{true: 1}[is], "bytes exactly when they are")
	_, is = v.(namedMap)
	_, ok = context.Get[namedMap](ctx, "K")
	sym.Assert(ok == is, "a named map exactly when it is one")
	_, is = v.(*[]string)
	gp, ok := context.Get[*[]string](ctx, "K")
	sym.Assert(ok == is && (!ok || gp == &l), "a pointer exactly when it is one")
	_, is = v.([]any)
	ga, ok := context.Get[[]any](ctx, "K")
	sym.Assert(ok == is && (!ok || len(ga) == 1), "a slice of any exactly when it is one")
}

// C16_data: the data entry wins when it has the type.
func C16_data() {
	a, b := letters(1), letters(1)
	var cargo any
	switch sym.Choice(3) {
	case 0:
		cargo = map[string]any{"A": b}
	case 1:
		cargo = st{A: b}
	case 2:
		cargo = &st{A: b}
	}
	data := map[string]any{"A": a}
	want := a
	switch sym.Choice(4) {
	case 1:
		data["A"] = 5
		want = b
	case 2:
		data["A"] = nil
		want = b
	case 3:
		delete(data, "A")
		want = b
	}
	got, ok := try[string](context.New(nil, data, cargo), "A")
	sym.Assert(ok, "found")
	sym.Assert(got == want, "data first, then cargo")
	sym.Assert(len(data) <= 1, "data is unchanged")
}

// C16_nil: a nil context has nothing.
func C16_nil() {
	key := sym.String(1, 1)
	_, ok := try[string](nil, key)
	sym.Assert(!ok, "a nil context has nothing")
	_, ok = try[any](&context.Context{}, key)
	sym.Assert(!ok, "an empty context has nothing")
	_, ok = try[any](&context.Context{Parent: context.New(nil, map[string]any{key: 1}, map[string]any{key: 1})}, key)
	sym.Assert(!ok, "an empty context has nothing though an enclosing one does")
	_, ok = try[int](&context.Context{Cargo: map[string]any{"x": map[string]any{key: 1}}}, key)
	sym.Assert(ok == false, "the entries of entries do not count")
}

type typedFields struct {
	A string
	B int
	C bool
	D float64
	E *string
	F []string
	G map[string]string
	H any
	I error
	J func() string
	K label
	L byte
	M Emb2
}

// C16_typed: entries of maps and fields with types of their own, zero values among them.
func C16_typed() {
	s := []string{"", "x", "0", " "}[sym.Choice(4)]
	i := []int{0, 1, -1}[sym.Choice(3)]
	b := sym.Bool()
	var cargo any
	switch sym.Choice(9) {
	case 0:
		cargo = map[string]string{"A": s, "": "e"}
	case 1:
		cargo = map[string]int{"B": i}
	case 2:
		cargo = map[string]bool{"C": b}
	case 3:
		cargo = &map[label]label{"K": label(s), "A": "no"}
	case 4:
		cargo = map[label]string{"A": s}
	case 5:
		cargo = typedFields{A: s, B: i, C: b, D: float64(i), K: label(s), L: byte(i), M: Emb2{s, ""}}
	case 6:
		cargo = &typedFields{A: s, B: i, C: b, D: float64(i), E: &s, F: []string{}, G: map[string]string{}, H: s, I: errWrite, K: label(s), L: byte(i), M: Emb2{"", s}}
	case 7:
		cargo = map[string]any{"A": s, "B": i, "C": b, "D": float64(i), "K": label(s), "L": byte(i), "M": Emb2{s, s}}
	case 8:
		cargo = map[string]any{"A": nil, "B": nil, "E": (*string)(nil), "F": []string(nil), "G": map[string]string(nil), "I": error(nil)}
	}
	data := map[string]any{}
	inData := sym.Choice(3)
	m, isMap := cargo.(map[string]any)
	sym.Assume(isMap || inData < 2)
	switch inData {
	case 1: // the data holds the keys with another type
		for _, k := range []string{"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M"} {
			data[k] = other{}
		}
	case 2:
		data, cargo = m, nil
	}
	ctx := context.New(nil, data, cargo)
	hold := cargo
	if inData == 2 {
		hold = data
	}
	// what each key stands for
	has := map[string]any{}
	switch h := hold.(type) {
	case map[string]string:
		has["A"] = s
	case map[label]string:
		has["A"] = s
	case map[string]int:
		has["B"] = i
	case map[string]bool:
		has["C"] = b
	case *map[label]label:
		has["K"], has["A"] = label(s), label("no")
	case typedFields:
		has = fieldsOf(&h)
	case *typedFields:
		has = fieldsOf(h)
	case map[string]any:
		has = h
	}
	switch sym.Choice(8) {
	case 0:
		typedWant[string](ctx, "A", has)
	case 1:
		typedWant[int](ctx, "B", has)
	case 2:
		typedWant[bool](ctx, "C", has)
	case 3:
		typedWant[float64](ctx, "D", has)
	case 4:
		typedWant[*string](ctx, "E", has)
	case 5:
		typedWant[label](ctx, "K", has)
	case 6:
		typedWant[byte](ctx, "L", has)
	case 7:
		typedWant[Emb2](ctx, "M", has)
	}
	_, ok := context.Get[[]string](ctx, "F")
	_, is := has["F"].([]string)
	sym.Assert(ok == is, "a slice exactly when it is one")
	_, ok = context.Get[map[string]string](ctx, "G")
	_, is = has["G"].(map[string]string)
	sym.Assert(ok == is, "a map exactly when it is one")
	_, ok = context.Get[func() string](ctx, "J")
	_, is = has["J"].(func() string)
	sym.Assert(ok == is, "a function exactly when it is one")
}

type other struct{}

func fieldsOf(t *typedFields) map[string]any {
	return map[string]any{"A": t.A, "B": t.B, "C": t.C, "D": t.D, "E": t.E, "F": t.F, "G": t.G, "H": t.H, "I": t.I, "J": t.J, "K": t.K, "L": t.L, "M": t.M}
}

func typedWant[T any](ctx *context.Context, key string, has map[string]any) {
	w, is := has[key].(T)
	got, ok := try[T](ctx, key)
	sym.Assert(ok == is, "found exactly when present with the type")
	sym.Assert(!ok || any(got) == any(w), "the value itself")
}
