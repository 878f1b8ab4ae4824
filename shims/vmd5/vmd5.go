// Package vmd5 stands for crypto/md5: a hash without collisions among the inputs of one run.
package vmd5

import (
	"hash"

	"github.com/metrumresearchgroup/pkgr/verifsym/sym"
)

type digest struct{ b []byte }

func New() hash.Hash { return &digest{} }

func (d *digest) Write(p []byte) (int, error) { d.b = append(d.b, p...); return len(p), nil }
func (d *digest) WriteString(p string) (int, error) {
	d.b = append(d.b, p...)
	return len(p), nil
}
func (d *digest) Sum(in []byte) []byte {
	s := sym.Digest(d.b)
	return append(in, s[:]...)
}
func (d *digest) Reset()         { d.b = nil }
func (d *digest) Size() int      { return 16 }
func (d *digest) BlockSize() int { return 64 }

func Sum(data []byte) [16]byte { return sym.Digest(data) }

const (
	Size      = 16
	BlockSize = 64
)
