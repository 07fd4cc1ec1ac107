package stubs

import (
	"fmt"
	"sort"
	"strconv"
)

const hexDigits = "0123456789abcdef"

func jsonString(b []byte, s string) []byte {
	b = append(b, '"')
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case c == '"' || c == '\\':
			b = append(b, '\\', c)
		case c == '\n':
			b = append(b, `\n`...)
		case c == '\r':
			b = append(b, `\r`...)
		case c == '\t':
			b = append(b, `\t`...)
		case c == '\b':
			b = append(b, `\b`...)
		case c == '\f':
			b = append(b, `\f`...)
		case c < 0x20 || c == '<' || c == '>' || c == '&':
			b = append(b, '\\', 'u', '0', '0', hexDigits[c>>4], hexDigits[c&15])
		default:
			b = append(b, c)
		}
	}
	return append(b, '"')
}

// JSONMarshal models encoding/json.Marshal for plain values (ASCII and valid UTF-8 strings).
func JSONMarshal(v any) ([]byte, error) { return jsonValue(nil, v) }

func jsonValue(b []byte, v any) (_ []byte, err error) {
	switch x := v.(type) {
	case nil:
		return append(b, "null"...), nil
	case bool:
		return strconv.AppendBool(b, x), nil
	case string:
		return jsonString(b, x), nil
	case int:
		return strconv.AppendInt(b, int64(x), 10), nil
	case int64:
		return strconv.AppendInt(b, x, 10), nil
	case []string:
		if x == nil {
			return append(b, "null"...), nil
		}
		b = append(b, '[')
		for i, e := range x {
			if i > 0 {
				b = append(b, ',')
			}
			b = jsonString(b, e)
		}
		return append(b, ']'), nil
	case []any:
		if x == nil {
			return append(b, "null"...), nil
		}
		b = append(b, '[')
		for i, e := range x {
			if i > 0 {
				b = append(b, ',')
			}
			if b, err = jsonValue(b, e); err != nil {
				return nil, err
			}
		}
		return append(b, ']'), nil
	case map[string]string:
		m := make(map[string]any, len(x))
		for k, e := range x {
			m[k] = e
		}
		if x == nil {
			m = nil
		}
		return jsonValue(b, m)
	case map[string]any:
		if x == nil {
			return append(b, "null"...), nil
		}
		keys := make([]string, 0, len(x))
		for k := range x {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		b = append(b, '{')
		for i, k := range keys {
			if i > 0 {
				b = append(b, ',')
			}
			b = append(jsonString(b, k), ':')
			if b, err = jsonValue(b, x[k]); err != nil {
				return nil, err
			}
		}
		return append(b, '}'), nil
	}
	return nil, fmt.Errorf("json: unsupported type: %T", v)
}
