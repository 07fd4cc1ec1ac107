package props

// SELF: the engine's own check that library code refactorings may come to use can be encoded. Not a property of aitch.

import (
	"bufio"
	"bytes"
	"cmp"
	"container/list"
	gocontext "context"
	"encoding/json"
	"errors"
	"fmt"
	stdhtml "html"
	"html/template"
	"io"
	"iter"
	"maps"
	"net/url"
	"reflect"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	texttemplate "text/template"
	"time"
	"unicode"
	"unicode/utf8"

	"aitchverif/sym"
)

func init() {
	for i := range selfs {
		_ = i
	}
	sym.Register("SELF_all", SELF_all)
}

type selfT struct {
	name string
	f    func()
}

func eqs(got, want string) { sym.Assert(got == want, "got "+got) }

type byLen []string

func (b byLen) Len() int           { return len(b) }
func (b byLen) Less(i, j int) bool { return len(b[i]) < len(b[j]) }
func (b byLen) Swap(i, j int)      { b[i], b[j] = b[j], b[i] }

type selfPair struct{ a, b string }

type selfTagged struct {
	A string `json:"first"`
	B string `json:"second,omitempty" y:""`
}

func (s selfTagged) Join(sep string) string { return s.A + sep + s.B }
func (s *selfTagged) Set(b string)          { s.B = b }

func seqOf(xs ...string) iter.Seq[string] {
	return func(yield func(string) bool) {
		for _, x := range xs {
			if !yield(x) {
				return
			}
		}
	}
}

type wrapErr struct{ error }

func (w *wrapErr) Unwrap() error { return w.error }

var selfs = []selfT{
	{"sort.Slice", func() {
		a := letters(1)
		s := []string{"m", a, "c"}
		sort.Slice(s, func(i, j int) bool { return s[i] < s[j] })
		sym.Assert(s[0] <= s[1] && s[1] <= s[2], "sorted")
	}},
	{"sort.SliceStable", func() {
		a := letters(1)
		s := []selfPair{{"m", "1"}, {a, "2"}, {"m", "3"}}
		sort.SliceStable(s, func(i, j int) bool { return s[i].a < s[j].a })
		sym.Assert(s[0].a <= s[1].a && s[1].a <= s[2].a, "sorted")
	}},
	{"sort.Sort", func() { s := []string{"abc", "a", "ab"}; sort.Sort(byLen(s)); eqs(s[0], "a") }},
	{"slices.Sort", func() { a := letters(1); s := []string{"m", a}; slices.Sort(s); sym.Assert(s[0] <= s[1], "sorted") }},
	{"slices.SortFunc", func() {
		s := []string{"m", "c", "z"}
		slices.SortFunc(s, func(a, b string) int { return cmp.Compare(a, b) })
		eqs(s[0], "c")
	}},
	{"slices.Sorted maps.Keys", func() {
		m := map[string]int{letters(1): 1, "z": 2, "!": 3}
		s := slices.Sorted(maps.Keys(m))
		eqs(s[0], "!")
	}},
	{"slices misc", func() {
		s := slices.Clone([]string{"a", "b"})
		s = slices.Insert(s, 1, "x")
		s = slices.Delete(s, 0, 1)
		slices.Reverse(s)
		s = slices.Concat(s, []string{"q"})
		s = slices.Grow(s, 10)
		sym.Assert(slices.Contains(s, "q") && slices.Index(s, "x") == 1 && slices.IndexFunc(s, func(x string) bool { return x == "b" }) == 0, "slices")
		s = slices.Compact(s)
		s = slices.Clip(s)
		eqs(strings.Join(s, ""), "bxq")
		sym.Assert(slices.Equal(s, []string{"b", "x", "q"}) && slices.ContainsFunc(s, func(x string) bool { return x == "q" }), "equal")
	}},
	{"maps misc", func() {
		m := map[string]any{"a": 1}
		c := maps.Clone(m)
		maps.Copy(c, map[string]any{"b": 2})
		n := 0
		for k := range maps.Keys(c) {
			n += len(k)
		}
		for range maps.Values(c) {
			n++
		}
		maps.DeleteFunc(c, func(k string, v any) bool { return k == "a" })
		sym.Assert(n == 4 && len(c) == 1, "maps")
		clear(c)
		sym.Assert(len(c) == 0, "clear")
	}},
	{"iter", func() {
		s := slices.Collect(seqOf("a", "b"))
		out := ""
		for x := range seqOf("a", "b", "c") {
			if x == "c" {
				break
			}
			out += x
		}
		for i := range 3 {
			out += strconv.Itoa(i)
		}
		eqs(out+strings.Join(s, ""), "ab012ab")
	}},
	{"strings.Builder", func() {
		var b strings.Builder
		b.Grow(8)
		a := letters(1)
		b.WriteString(a)
		b.WriteByte('x')
		b.WriteRune('é')
		fmt.Fprint(&b, "q")
		eqs(b.String(), a+"xéq")
	}},
	{"strings.NewReplacer", func() {
		s := sym.String(1, 1)
		r := strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;", `"`, "&quot;", "'", "&apos;", "\x00", "")
		eqs(r.Replace("a"+s), refEscape("a"+s))
	}},
	{"strings.NewReplacer generic", func() {
		s := letters(1)
		r := strings.NewReplacer("ab", "x", "a", "y")
		eqs(r.Replace("b"+s+"!"), map[bool]string{true: "by!", false: "b" + s + "!"}[s == "a"])
	}},
	{"strings misc", func() {
		a := letters(1)
		eqs(strings.ToUpper("x"+a), "X"+strings.ToUpper(a))
		eqs(strings.ToLower("X"+a), "x"+a)
		eqs(strings.TrimSpace(" "+a+"\n"), a)
		eqs(strings.Trim("!"+a+"!", "!"), a)
		eqs(strings.TrimPrefix("!"+a, "!"), a)
		eqs(strings.TrimSuffix(a+"!", "!"), a)
		eqs(strings.TrimFunc("1"+a+"2", unicode.IsDigit), a)
		eqs(strings.Repeat(a, 3), a+a+a)
		eqs(strings.Join(strings.Split("a,"+a+",c", ","), "-"), "a-"+a+"-c")
		eqs(strings.Join(strings.Fields(" a "+a+"\tc "), "-"), "a-"+a+"-c")
		eqs(strings.Join(strings.SplitN("a,"+a+",c", ",", 2), "-"), "a-"+a+",c")
		x, y, ok := strings.Cut("k="+a, "=")
		sym.Assert(ok && x == "k" && y == a, "cut")
		sym.Assert(strings.EqualFold("A"+a, "a"+a), "fold")
		eqs(strings.Map(func(r rune) rune {
			if r == '!' {
				return -1
			}
			return r
		}, "!"+a), a)
		sym.Assert(strings.IndexAny("!"+a, "?!") == 0 && strings.ContainsRune("!"+a, '!') && strings.Count("!"+a+"!", "!") == 2, "index")
		sym.Assert(strings.IndexFunc("1"+a, unicode.IsLetter) == 1 && strings.LastIndexByte("!"+a, '!') == 0, "indexfunc")
		sym.Assert(strings.HasSuffix(a+"!", "!") && strings.HasPrefix("!"+a, "!"), "fix")
		eqs(strings.Title("abc"), "Abc")
		rd := strings.NewReader(a)
		b, _ := io.ReadAll(rd)
		eqs(string(b), a)
	}},
	{"bytes misc", func() {
		a := raw(1)
		sym.Assert(bytes.Equal(append([]byte("x"), a...), []byte("x"+string(a))), "equal")
		eqs(string(bytes.Join([][]byte{a, []byte("b")}, []byte(","))), string(a)+",b")
		eqs(string(bytes.Repeat([]byte("ab"), 2)), "abab")
		eqs(string(bytes.ReplaceAll([]byte("a!b"), []byte("!"), a)), "a"+string(a)+"b")
		sym.Assert(bytes.HasPrefix([]byte("ab"), []byte("a")) && bytes.Contains([]byte("abc"), []byte("bc")), "prefix")
		eqs(string(bytes.Clone(a)), string(a))
		eqs(string(bytes.TrimSpace([]byte(" x "))), "x")
		eqs(string(bytes.ToLower([]byte("AB"))), "ab")
		var b bytes.Buffer
		b.Write(a)
		b.WriteString("x")
		b.WriteByte('y')
		b.Grow(100)
		eqs(b.String(), string(a)+"xy")
		b.Truncate(1)
		b.Reset()
		_, _ = b.ReadFrom(strings.NewReader("zz"))
		var c bytes.Buffer
		_, _ = b.WriteTo(&c)
		eqs(c.String(), "zz")
		nb := bytes.NewBuffer(make([]byte, 0, 64))
		nb.WriteString("q")
		eqs(string(nb.Bytes()), "q")
	}},
	{"html.EscapeString", func() {
		s := sym.String(1, 1)
		sym.Assume(s != "\x00" && s != "'" && s != `"`)
		eqs(stdhtml.EscapeString("a"+s), refEscape("a"+s))
	}},
	{"fmt strings", func() {
		a := letters(1)
		eqs(fmt.Sprintf("%s=%s", "k", a), "k="+a)
		eqs(fmt.Sprintf("<%s%v>", []byte("x"), a), "<x"+a+">")
		eqs(fmt.Sprint("a", a), "a"+a)
		eqs(fmt.Sprintf("%d", 5), "5")
		eqs(fmt.Sprintf("%q", "a\n"), `"a\n"`)
	}},
	{"fmt quote symbolic", func() { a := letters(1); eqs(fmt.Sprintf("%q", a), `"`+a+`"`) }},
	{"fmt writer", func() { a := letters(1); var b bytes.Buffer; fmt.Fprintf(&b, "[%s]", a); eqs(b.String(), "["+a+"]") }},
	{"fmt errors", func() {
		e := errors.New("x")
		sym.Assert(errors.Is(fmt.Errorf("a: %w", e), e), "wrapped")
	}},
	{"errors", func() {
		e := errors.New("x")
		sym.Assert(errors.Is(errors.Join(nil, e), e), "joined")
		var w *wrapErr
		sym.Assert(errors.As(error(&wrapErr{e}), &w) && w.error == e, "as")
		sym.Assert(errors.Unwrap(&wrapErr{e}) == e, "unwrap")
	}},
	{"io", func() {
		a := letters(1)
		var b, c bytes.Buffer
		_, _ = io.WriteString(&b, a)
		_, _ = io.Copy(&c, &b)
		m := io.MultiWriter(&b, &c)
		_, _ = m.Write([]byte("z"))
		eqs(b.String()+c.String(), "z"+a+"z")
		_, _ = io.Discard.Write(nil)
	}},
	{"bufio", func() {
		a := letters(1)
		var b bytes.Buffer
		w := bufio.NewWriter(&b)
		_, _ = w.WriteString(a)
		_ = w.WriteByte('x')
		_ = w.Flush()
		eqs(b.String(), a+"x")
	}},
	{"strconv", func() {
		i := sym.Uint16()
		eqs(string(strconv.AppendUint(nil, uint64(i), 10)), strconv.FormatUint(uint64(i), 10))
		eqs(strconv.FormatBool(true), "true")
		n, err := strconv.Atoi("42")
		sym.Assert(err == nil && n == 42, "atoi")
		q := letters(1)
		eqs(strconv.Quote(q+"\""), "\""+q+"\\\"\"")
	}},
	{"utf8", func() {
		s := letters(1) + "é"
		n := 0
		for _, r := range s {
			if r >= utf8.RuneSelf {
				n++
			}
		}
		sym.Assert(n == 1 && utf8.RuneCountInString(s) == 2 && utf8.ValidString(s), "runes")
		eqs(string([]rune(s)), s)
		eqs(string(utf8.AppendRune(nil, 'x')), "x")
		sym.Assert(unicode.IsLetter('x') && unicode.ToUpper('x') == 'X', "unicode")
	}},
	{"sync", func() {
		var o sync.Once
		n := 0
		o.Do(func() { n++ })
		o.Do(func() { n++ })
		f := sync.OnceValue(func() int { n++; return n })
		sym.Assert(f() == 2 && f() == 2 && n == 2, "once")
		var mu sync.Mutex
		mu.Lock()
		defer mu.Unlock()
		p := sync.Pool{New: func() any { return new(bytes.Buffer) }}
		b := p.Get().(*bytes.Buffer)
		b.Reset()
		p.Put(b)
		var m sync.Map
		m.Store("a", 1)
		v, ok := m.Load("a")
		sym.Assert(ok && v == 1, "map")
		var i atomic.Int64
		i.Add(2)
		var ab atomic.Bool
		ab.Store(true)
		var ap atomic.Pointer[selfPair]
		ap.Store(&selfPair{"a", "b"})
		sym.Assert(i.Load() == 2 && ab.Load() && ap.Load().a == "a", "atomic")
		var rw sync.RWMutex
		rw.RLock()
		rw.RUnlock()
	}},
	{"sync.Map range", func() {
		var m sync.Map
		m.Store("a", 1)
		m.Store("b", 2)
		n := 0
		m.Range(func(k, v any) bool { n += v.(int); return true })
		v, _ := m.LoadAndDelete("a")
		sym.Assert(n == 3 && v == 1, "range")
	}},
	{"reflect", func() {
		v := reflect.ValueOf([]string{"a", "b"})
		sym.Assert(v.Kind() == reflect.Slice && v.Len() == 2 && v.Index(1).Interface() == any("b") && v.Index(0).String() == "a", "slice")
		m := reflect.ValueOf(map[string]int{"a": 1})
		for it := m.MapRange(); it.Next(); {
			sym.Assert(it.Key().String() == "a" && it.Value().Int() == 1, "range")
		}
		sym.Assert(len(m.MapKeys()) == 1 && m.Type().Key().Kind() == reflect.String && m.Type().Elem().Kind() == reflect.Int, "keys")
		n := selfPair{"x", "y"}
		s := reflect.ValueOf(&n)
		s = reflect.Indirect(s)
		sym.Assert(s.NumField() == 2 && s.Type().Field(0).Name == "a" && !s.Type().Field(0).IsExported(), "struct")
		sym.Assert(reflect.TypeOf(n) == reflect.TypeFor[selfPair]() && reflect.TypeOf(n).Kind() == reflect.Struct, "type")
		sym.Assert(reflect.DeepEqual([]string{"a"}, []string{"a"}), "deep")
		var p *selfPair
		sym.Assert(reflect.ValueOf(p).IsNil() && !reflect.ValueOf(nil).IsValid() && reflect.ValueOf(0).IsZero(), "nil")
		e := reflect.ValueOf(struct{ A any }{A: "q"}).FieldByName("A")
		sym.Assert(e.Kind() == reflect.Interface && e.Elem().String() == "q" && e.CanInterface(), "elem")
		sym.Assert(!reflect.ValueOf(n).FieldByName("zz").IsValid(), "missing field")
		c := reflect.ValueOf("k").Convert(reflect.TypeFor[namedStr]())
		sym.Assert(c.Type().ConvertibleTo(reflect.TypeFor[string]()) && c.Interface() == any(namedStr("k")), "convert")
		sym.Assert(reflect.TypeOf("").AssignableTo(reflect.TypeFor[any]()), "assignable")
	}},
	{"reflect methods and tags", func() {
		a := letters(1)
		v := reflect.ValueOf(selfTagged{A: a, B: "b"})
		m := v.MethodByName("Join")
		sym.Assert(m.IsValid() && m.Kind() == reflect.Func, "method")
		out := m.Call([]reflect.Value{reflect.ValueOf("-")})
		sym.Assert(len(out) == 1 && out[0].String() == a+"-b", "call")
		sym.Assert(!v.MethodByName("none").IsValid() && !v.MethodByName("Set").IsValid() && v.NumMethod() == 1, "no method")
		p := &selfTagged{A: a}
		pv := reflect.ValueOf(p)
		sym.Assert(pv.NumMethod() == 2, "methods of the pointer")
		pv.MethodByName("Set").Call([]reflect.Value{reflect.ValueOf("z")})
		sym.Assert(p.B == "z", "set")
		f, ok := v.Type().FieldByName("A")
		sym.Assert(ok && f.Tag.Get("json") == "first" && f.Tag.Get("x") == "", "tag")
		_, ok = v.Type().FieldByName("C")
		sym.Assert(!ok, "no field")
		sym.Assert(v.Type().Field(1).Tag.Get("json") == "second,omitempty", "tag of the field")
		t, ok := v.Type().Field(1).Tag.Lookup("y")
		sym.Assert(ok && t == "", "lookup")
		g := v.FieldByNameFunc(func(n string) bool { return n == "B" })
		sym.Assert(g.String() == "b", "field by func")
	}},
	{"language", func() {
		a := letters(1)
		arr := [3]string{a, "x"}
		brr := arr
		brr[0] = "qq"
		sym.Assert(arr[0] == a && arr != brr, "arrays")
		m := map[selfPair]int{{a, "b"}: 1}
		m[selfPair{"z", "b"}]++
		sym.Assert(m[selfPair{a, "b"}] >= 1, "struct keys")
		f := func() (r string) {
			defer func() {
				if p := recover(); p != nil {
					r = fmt.Sprint(p)
				}
			}()
			panic("p" + a)
		}
		eqs(f(), "p"+a)
		x := min(1, 2) + max(3, 4)
		sym.Assert(x == 5, "minmax")
		i := 0
	loop:
		for {
			switch {
			case i > 3:
				break loop
			case i == 2:
				i += 2
				fallthrough
			default:
				i++
			}
		}
		var s fmt.Stringer = strer{a}
		g := s.String
		eqs(g(), a)
		h := strer.String
		eqs(h(strer{a}), a)
		bs := []byte("abcd")
		copy(bs[1:], bs)
		eqs(string(bs), "aabc")
		eqs(string(bs[:2:3]), "aa")
		ar := [4]byte(bs)
		eqs(string(ar[:]), "aabc")
		var e any = 3
		switch t := e.(type) {
		case string:
			eqs(t, "")
		case int, int8:
			sym.Assert(t == any(3), "switch")
		}
		sym.Assert(generic([]string{a, "b"}, func(s string) string { return s + "!" })[0] == a+"!", "generic")
	}},
	{"unsafe string", func() {
		a := raw(2)
		s := string(a)
		b := []byte(s)
		eqs(string(b), s)
	}},
	{"switch table", func() {
		s := sym.String(1, 1)
		tab := [256]string{'<': "&lt;", '>': "&gt;"}
		r := tab[s[0]]
		if r == "" {
			r = s
		}
		want := s
		if s == "<" {
			want = "&lt;"
		}
		if s == ">" {
			want = "&gt;"
		}
		eqs(r, want)
	}},
	{"regexp", func() {
		a := string(raw(2))
		ok := regexp.MustCompile(`^[a-z][a-z0-9-]*$`).MatchString(a)
		want := len(a) > 0 && a[0] >= 'a' && a[0] <= 'z'
		for i := 1; i < len(a); i++ {
			want = want && (a[i] >= 'a' && a[i] <= 'z' || a[i] >= '0' && a[i] <= '9' || a[i] == '-')
		}
		sym.Assert(ok == want, "regexp")
	}},
	{"regexp replace", func() {
		a := string(raw(2))
		got := regexp.MustCompile(`[<>&]`).ReplaceAllStringFunc(a, func(s string) string { return "_" })
		sym.Assert(len(got) == len(a), "replaced")
	}},
	{"json", func() {
		a := letters(1)
		b, err := json.Marshal(a)
		sym.Assert(err == nil && string(b) == `"`+a+`"`, "string")
		b, err = json.Marshal(map[string]any{"k": a, "a": 1})
		sym.Assert(err == nil && string(b) == `{"a":1,"k":"`+a+`"}`, "map")
	}},
	{"json raw", func() {
		a := sym.String(1, 1)
		b, err := json.Marshal(a)
		sym.Assert(err == nil && len(b) >= 3, "string")
	}},
	{"url", func() {
		a := sym.String(1, 1)
		sym.Assert(len(url.QueryEscape(a)) >= 1, "escape")
		eqs(url.PathEscape("a b"), "a%20b")
	}},
	{"unicode", func() {
		r := []rune(sym.String(1, 2))
		for _, c := range r {
			sym.Assert(!unicode.IsLetter(c) || !unicode.IsControl(c), "classes")
			if unicode.IsUpper(c) {
				sym.Assert(!unicode.IsDigit(c) && !unicode.IsSpace(c), "upper")
			}
		}
	}},
	{"template escapers", func() {
		a := string(raw(1))
		sym.Assert(len(template.HTMLEscapeString(a)) >= len(a), "html")
		sym.Assert(len(template.JSEscapeString(a)) >= len(a), "js")
		var b bytes.Buffer
		template.HTMLEscape(&b, []byte(a))
		eqs(b.String(), template.HTMLEscapeString(a))
		sym.Assert(len(texttemplate.URLQueryEscaper(a)) >= len(a), "url")
	}},
	{"strings more", func() {
		a := string(raw(2))
		n := len(strings.FieldsFunc(a, func(r rune) bool { return r == ',' }))
		sym.Assert(n <= 2, "fields")
		m := strings.Map(func(r rune) rune {
			if r == 'x' {
				return -1
			}
			return r
		}, a)
		sym.Assert(!strings.ContainsRune(m, 'x'), "map")
		sym.Assert(strings.EqualFold("ABC", "abc"), "fold")
		sym.Assert(strings.ContainsFunc(a, unicode.IsUpper) == (strings.IndexFunc(a, unicode.IsUpper) >= 0), "func")
		eqs(strings.ToValidUTF8("a\xff", "?"), "a?")
		eqs(strings.ToTitle("ab"), "AB")
		eqs(strings.Repeat("ab", 2), "abab")
		l, r, ok := strings.Cut(a, ":")
		sym.Assert(!ok || l+":"+r == a, "cut")
		eqs(strings.Join(strings.SplitAfter(a, ","), ""), a)
		eqs(strings.Join(strings.SplitN(a, ",", 2), ","), a)
		rd := strings.NewReader(a)
		bs, err := io.ReadAll(rd)
		sym.Assert(err == nil && string(bs) == a, "reader")
	}},
	{"fold symbolic", func() {
		a := sym.String(1, 2)
		sym.Assert(a[0] >= 0x80 || a[len(a)-1] >= 0x80 || strings.EqualFold(a, strings.ToLower(a)), "fold")
	}},
	{"text writers", func() {
		a := letters(2)
		var b strings.Builder
		w := io.MultiWriter(&b, io.Discard)
		_, _ = io.WriteString(w, a)
		_, _ = io.Copy(w, strings.NewReader("z"))
		eqs(b.String(), a+"z")
		var bb bytes.Buffer
		tw := io.TeeReader(strings.NewReader(a), &bb)
		_, _ = io.ReadAll(tw)
		eqs(bb.String(), a)
	}},
	{"stringer verbs", func() {
		a := letters(1)
		eqs(fmt.Sprintf("%v|%s|%5s|%-3s|%t|%x", a, strer{a}, "q", "r", true, 255), a+"|"+a+"|    q|r  |true|ff")
		eqs(fmt.Sprintf("%v %+v %T", []string{a}, selfPair{a, "b"}, a), "["+a+"] {a:"+a+" b:b} string")
		eqs(fmt.Sprintf("%08.3f %g %e", 1.5, 2.25, 3.0), "0001.500 2.25 3.000000e+00")
		eqs(fmt.Sprintln(a, 1), a+" 1\n")
		i := sym.Byte()
		eqs(fmt.Sprintf("%d", i), strconv.Itoa(int(i)))
		eqs(fmt.Sprint(nil, []any{1, nil}), "<nil> [1 <nil>]")
	}},
	{"strconv more", func() {
		a := string(raw(1))
		eqs(strconv.Quote("a\"b"), `"a\"b"`)
		sym.Assert(len(strconv.Quote(a)) >= len(a)+2, "quote")
		sym.Assert(len(strconv.AppendQuote(nil, a)) >= len(a)+2, "append quote")
		n, err := strconv.Atoi(a)
		sym.Assert(err != nil || n >= 0 && n < 10, "atoi")
		_, err = strconv.ParseBool(a)
		f, err2 := strconv.ParseFloat("1.5", 64)
		sym.Assert((err == nil || err != nil) && err2 == nil && f == 1.5, "parse")
		eqs(strconv.FormatBool(sym.Bool() && false), "false")
	}},
	{"container", func() {
		a := letters(1)
		l := list.New()
		l.PushBack(a)
		eqs(l.Front().Value.(string), a)
	}},
	{"context and time", func() {
		eqs((3 * time.Second).String(), "3s")
		ctx := gocontext.WithValue(gocontext.Background(), selfPair{}, "v")
		eqs(ctx.Value(selfPair{}).(string), "v")
	}},
	{"text/template", func() {
		var b bytes.Buffer
		t := texttemplate.Must(texttemplate.New("x").Parse("a{{.}}b"))
		sym.Assert(t.Execute(&b, "q") == nil, "runs")
		eqs(b.String(), "aqb")
	}},
	{"fmt integers", func() {
		switch sym.Choice(4) {
		case 0:
			u := sym.Uint64()
			eqs(fmt.Sprintf("%d", u), strconv.FormatUint(u, 10))
		case 1:
			u := sym.Int32()
			eqs(fmt.Sprint(u), strconv.Itoa(int(u)))
		case 2:
			u := sym.Int64()
			eqs(fmt.Sprint(u), strconv.FormatInt(u, 10))
		case 3:
			u := sym.Uint16()
			var b [8]byte
			i := len(b)
			for n := u; ; n /= 10 {
				i--
				b[i] = '0' + byte(n%10)
				if n < 10 {
					break
				}
			}
			eqs(string(b[i:]), strconv.FormatUint(uint64(u), 10))
		}
	}},
	{"range bytes", func() {
		s := sym.String(2, 2)
		var out []byte
		for i := 0; i < len(s); i++ {
			if s[i] != 0 {
				out = append(out, s[i])
			}
		}
		n := 0
		for _, r := range s {
			if r == 0 {
				n++
			}
		}
		sym.Assert(len(out)+n == 2, "nul")
	}},
}

type namedStr string

func generic[T, U any](in []T, f func(T) U) []U {
	out := make([]U, 0, len(in))
	for _, x := range in {
		out = append(out, f(x))
	}
	return out
}

// SELF_all runs each of them.
func SELF_all() {
	i := sym.Choice(len(selfs))
	sym.Reach(selfs[i].name)
	selfs[i].f()
}
