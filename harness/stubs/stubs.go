// Package stubs holds contract models the engine substitutes for library code outside the encoding's reach.
package stubs

import (
	"errors"
	"html/template"
	"io"
	"strings"

	"github.com/go-andiamo/aitch/context"
)

// Tmpl models html/template.Template for texts whose only actions are {{name .}}.
type Tmpl struct {
	name  string
	funcs template.FuncMap
	parts []part
}

type part struct {
	text string
	fn   any
}

func New(name string) *Tmpl { return &Tmpl{name: name} }

func Funcs(t *Tmpl, m template.FuncMap) *Tmpl {
	if t.funcs == nil {
		t.funcs = template.FuncMap{}
	}
	for k, v := range m {
		t.funcs[k] = v
	}
	return t
}

func Parse(t *Tmpl, text string) (*Tmpl, error) {
	for {
		i := strings.Index(text, "{{")
		if i < 0 {
			break
		}
		if i > 0 {
			t.parts = append(t.parts, part{text: text[:i]})
		}
		text = text[i+2:]
		j := strings.Index(text, "}}")
		if j < 0 {
			return nil, errors.New("template: unclosed action")
		}
		act := strings.TrimSpace(text[:j])
		text = text[j+2:]
		if !strings.HasSuffix(act, " .") {
			return nil, errors.New("template: unsupported action " + act)
		}
		name := strings.TrimSpace(act[:len(act)-2])
		f, ok := t.funcs[name]
		if !ok {
			return nil, errors.New("template: function not defined: " + name)
		}
		t.parts = append(t.parts, part{fn: f})
	}
	if text != "" {
		t.parts = append(t.parts, part{text: text})
	}
	return t, nil
}

func Execute(t *Tmpl, wr io.Writer, data any) error {
	ctx, _ := data.(*context.Context)
	for _, p := range t.parts {
		if p.fn == nil {
			if _, err := io.WriteString(wr, p.text); err != nil {
				return err
			}
			continue
		}
		var s string
		var err error
		switch f := p.fn.(type) {
		case func(*context.Context) (template.HTML, error):
			var h template.HTML
			h, err = f(ctx)
			s = string(h)
		case func(*context.Context) (template.HTMLAttr, error):
			var h template.HTMLAttr
			h, err = f(ctx)
			s = string(h)
		case func(*context.Context) (string, error):
			s, err = f(ctx)
			s = template.HTMLEscapeString(s)
		default:
			return errors.New("template: unsupported function type")
		}
		if err != nil {
			return err
		}
		if s != "" {
			if _, err = io.WriteString(wr, s); err != nil {
				return err
			}
		}
	}
	return nil
}

func Option(t *Tmpl, opt ...string) *Tmpl { return t }

func Name(t *Tmpl) string { return t.name }
