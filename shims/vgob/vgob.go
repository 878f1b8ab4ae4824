// Package vgob stands for encoding/gob: values survive unchanged, anything else is an error.
package vgob

import (
	"io"

	"github.com/metrumresearchgroup/pkgr/verifsym/sym"
)

type Encoder struct{ w io.Writer }
type Decoder struct{ r io.Reader }

func NewEncoder(w io.Writer) *Encoder { return &Encoder{w} }
func NewDecoder(r io.Reader) *Decoder { return &Decoder{r} }

// Encode writes in two pieces, as gob does (type definitions, then the value).
func (e *Encoder) Encode(v any) error {
	b, err := sym.Serialize(v)
	if err != nil {
		return err
	}
	h := len(b) / 2
	if _, err := e.w.Write(b[:h]); err != nil {
		return err
	}
	_, err = e.w.Write(b[h:])
	return err
}

func (d *Decoder) Decode(v any) error {
	b, err := io.ReadAll(d.r)
	if err != nil {
		return err
	}
	if len(b) == 0 {
		return io.EOF
	}
	return sym.Deserialize(b, v)
}

func Register(v any) {}
