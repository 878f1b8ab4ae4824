// Package vjson stands for the encoding half of encoding/json.
package vjson

import (
	"bytes"
	"fmt"
	"io"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

// Marshal is json.Marshal.
func Marshal(v any) ([]byte, error) {
	e := &state{html: true}
	if err := e.value(reflect.ValueOf(v), 0); err != nil {
		return nil, err
	}
	return e.b.Bytes(), nil
}

// MarshalIndent is json.MarshalIndent.
func MarshalIndent(v any, prefix, indent string) ([]byte, error) {
	e := &state{html: true, prefix: prefix, indent: indent, pretty: true}
	if err := e.value(reflect.ValueOf(v), 0); err != nil {
		return nil, err
	}
	return e.b.Bytes(), nil
}

// Encoder is json.Encoder.
type Encoder struct {
	w io.Writer
	e state
}

func NewEncoder(w io.Writer) *Encoder { return &Encoder{w: w, e: state{html: true}} }

func (e *Encoder) SetEscapeHTML(on bool) { e.e.html = on }
func (e *Encoder) SetIndent(prefix, indent string) {
	e.e.prefix, e.e.indent, e.e.pretty = prefix, indent, prefix != "" || indent != ""
}

func (e *Encoder) Encode(v any) error {
	s := &state{html: e.e.html, prefix: e.e.prefix, indent: e.e.indent, pretty: e.e.pretty}
	if err := s.value(reflect.ValueOf(v), 0); err != nil {
		return err
	}
	s.b.WriteByte('\n')
	_, err := e.w.Write(s.b.Bytes())
	return err
}

type state struct {
	b              bytes.Buffer
	html, pretty   bool
	prefix, indent string
}

func (s *state) nl(depth int) {
	if s.pretty {
		s.b.WriteString("\n" + s.prefix + strings.Repeat(s.indent, depth))
	}
}

func (s *state) colon() {
	if s.pretty {
		s.b.WriteString(": ")
	} else {
		s.b.WriteByte(':')
	}
}

const hex = "0123456789abcdef"

func (s *state) str(x string) {
	s.b.WriteByte('"')
	for i := 0; i < len(x); i++ {
		c := x[i]
		switch {
		case c == '"' || c == '\\':
			s.b.WriteByte('\\')
			s.b.WriteByte(c)
		case c == '\n':
			s.b.WriteString(`\n`)
		case c == '\r':
			s.b.WriteString(`\r`)
		case c == '\t':
			s.b.WriteString(`\t`)
		case c == '\b':
			s.b.WriteString(`\b`)
		case c == '\f':
			s.b.WriteString(`\f`)
		case c < ' ' || s.html && (c == '<' || c == '>' || c == '&'):
			s.b.WriteString(`\u00`)
			s.b.WriteByte(hex[c>>4])
			s.b.WriteByte(hex[c&15])
		default:
			s.b.WriteByte(c)
		}
	}
	s.b.WriteByte('"')
}

func (s *state) value(v reflect.Value, depth int) error {
	switch v.Kind() {
	case reflect.Invalid:
		s.b.WriteString("null")
	case reflect.Bool:
		if v.Bool() {
			s.b.WriteString("true")
		} else {
			s.b.WriteString("false")
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		s.b.WriteString(strconv.FormatInt(v.Int(), 10))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		s.b.WriteString(strconv.FormatUint(v.Uint(), 10))
	case reflect.String:
		s.str(v.String())
	case reflect.Interface, reflect.Pointer:
		if v.IsNil() {
			s.b.WriteString("null")
			return nil
		}
		return s.value(v.Elem(), depth)
	case reflect.Map:
		if v.IsNil() {
			s.b.WriteString("null")
			return nil
		}
		if v.Type().Key().Kind() != reflect.String {
			return fmt.Errorf("json: unsupported type: %s", v.Type().String())
		}
		keys := v.MapKeys()
		sort.Slice(keys, func(i, j int) bool { return keys[i].String() < keys[j].String() })
		s.b.WriteByte('{')
		for i, k := range keys {
			if i > 0 {
				s.b.WriteByte(',')
			}
			s.nl(depth + 1)
			s.str(k.String())
			s.colon()
			if err := s.value(v.MapIndex(k), depth+1); err != nil {
				return err
			}
		}
		if len(keys) > 0 {
			s.nl(depth)
		}
		s.b.WriteByte('}')
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			s.b.WriteString("null")
			return nil
		}
		s.b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				s.b.WriteByte(',')
			}
			s.nl(depth + 1)
			if err := s.value(v.Index(i), depth+1); err != nil {
				return err
			}
		}
		if v.Len() > 0 {
			s.nl(depth)
		}
		s.b.WriteByte(']')
	case reflect.Struct:
		t := v.Type()
		s.b.WriteByte('{')
		n := 0
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if f.PkgPath != "" {
				continue
			}
			name := f.Name
			omit := false
			if tag := f.Tag.Get("json"); tag != "" {
				if tag == "-" {
					continue
				}
				p := strings.Split(tag, ",")
				if p[0] != "" {
					name = p[0]
				}
				for _, o := range p[1:] {
					omit = omit || o == "omitempty"
				}
			}
			x := v.Field(i)
			if omit && empty(x) {
				continue
			}
			if n > 0 {
				s.b.WriteByte(',')
			}
			n++
			s.nl(depth + 1)
			s.str(name)
			s.colon()
			if err := s.value(x, depth+1); err != nil {
				return err
			}
		}
		if n > 0 {
			s.nl(depth)
		}
		s.b.WriteByte('}')
	default:
		return fmt.Errorf("json: unsupported type: %s", v.Type().String())
	}
	return nil
}

func empty(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Array, reflect.Map, reflect.Slice, reflect.String:
		return v.Len() == 0
	}
	return v.IsZero()
}
