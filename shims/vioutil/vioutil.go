// Package vioutil stands for io/ioutil.
package vioutil

import (
	"io"
	"io/fs"

	os "github.com/metrumresearchgroup/pkgr/verifsym/vos"
)

var Discard = io.Discard

func ReadAll(r io.Reader) ([]byte, error)               { return io.ReadAll(r) }
func ReadFile(p string) ([]byte, error)                 { return os.ReadFile(p) }
func WriteFile(p string, b []byte, m fs.FileMode) error { return os.WriteFile(p, b, m) }
func NopCloser(r io.Reader) io.ReadCloser               { return io.NopCloser(r) }
func TempDir(dir, pattern string) (string, error)       { return os.MkdirTemp(dir, pattern) }
func TempFile(dir, pattern string) (*os.File, error)    { return os.CreateTemp(dir, pattern) }
func ReadDir(p string) ([]fs.FileInfo, error) {
	es, err := os.ReadDir(p)
	if err != nil {
		return nil, err
	}
	r := make([]fs.FileInfo, 0, len(es))
	for _, e := range es {
		i, _ := e.Info()
		r = append(r, i)
	}
	return r, nil
}
