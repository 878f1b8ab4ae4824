// Package varchives stands for mholt/archives: a tarball of the model is a file whose content names a
// registered list of entries.
package varchives

import (
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"path"
	"strings"
	"time"

	"github.com/metrumresearchgroup/pkgr/verifsym/sym"
)

var NoMatch = fmt.Errorf("no formats matched")

// Entry is one member of an archive.
type Entry struct {
	Name string
	Mode fs.FileMode // ModeDir, ModeSymlink, ... ; 0 for a regular file
	Link string
	Data string
	Err  error // reading the member fails
}

var registry = map[string][]Entry{}

// Reset forgets all archives.
func Reset() { registry = map[string][]Entry{} }

// Tarball registers an archive and gives the content of its file.
func Tarball(id string, es ...Entry) string {
	registry[id] = es
	return "TAR:" + id + ":END"
}

type FileInfo struct {
	fs.FileInfo
	Header        any
	NameInArchive string
	LinkTarget    string
	Open          func() (fs.File, error)
}

func (f FileInfo) Stat() (fs.FileInfo, error) { return f.FileInfo, nil }

type FileHandler func(ctx context.Context, info FileInfo) error

type MatchResult struct{ ByName, ByStream bool }

func (m MatchResult) Matched() bool { return m.ByName || m.ByStream }

type Format interface {
	Extension() string
	MediaType() string
	Match(ctx context.Context, filename string, stream io.Reader) (MatchResult, error)
}

type Extractor interface {
	Extract(ctx context.Context, archive io.Reader, handleFile FileHandler) error
}

type Archival interface {
	Format
	Extractor
}

type Extraction interface {
	Format
	Extractor
}

type tarGz struct{ ext string }

func (t tarGz) Extension() string { return t.ext }
func (t tarGz) MediaType() string { return "application/x-tar" }
func (t tarGz) Match(ctx context.Context, filename string, stream io.Reader) (MatchResult, error) {
	return MatchResult{ByName: strings.HasSuffix(filename, t.ext)}, nil
}

type info struct {
	name string
	mode fs.FileMode
	size int64
}

func (i info) Name() string       { return i.name }
func (i info) Size() int64        { return i.size }
func (i info) Mode() fs.FileMode  { return i.mode }
func (i info) ModTime() time.Time { return time.Unix(0, 0) }
func (i info) IsDir() bool        { return i.mode.IsDir() }
func (i info) Sys() any           { return nil }

type member struct {
	io.Reader
	inf info
}

func (m member) Stat() (fs.FileInfo, error) { return m.inf, nil }
func (m member) Close() error               { return nil }

type failing struct {
	r   io.Reader
	err error
}

func (f failing) Read(b []byte) (int, error) {
	n, err := f.r.Read(b)
	if err == io.EOF {
		err = f.err
	}
	return n, err
}

func (t tarGz) Extract(ctx context.Context, archive io.Reader, handle FileHandler) error {
	b, err := io.ReadAll(archive)
	if err != nil {
		return err
	}
	s := string(b)
	if !strings.HasPrefix(s, "TAR:") {
		return errors.New("gzip: invalid header")
	}
	s = s[4:]
	cut := true
	if i := strings.LastIndex(s, ":END"); i >= 0 {
		s = s[:i]
		cut = false
	}
	es, ok := registry[s]
	if !ok {
		return io.ErrUnexpectedEOF
	}
	if cut {
		es = es[:len(es)/2]
	}
	for _, e := range es {
		if err := ctx.Err(); err != nil {
			return err
		}
		sym.Gate()
		inf := info{name: path.Base(e.Name), mode: e.Mode | 0o644, size: int64(len(e.Data))}
		if e.Mode.IsDir() {
			inf.mode |= 0o111
		}
		e := e
		var rd io.Reader = strings.NewReader(e.Data)
		if e.Err != nil {
			rd = failing{rd, e.Err}
		}
		err := handle(ctx, FileInfo{FileInfo: inf, NameInArchive: e.Name, LinkTarget: e.Link,
			Open: func() (fs.File, error) { return member{rd, inf}, nil }})
		if errors.Is(err, fs.SkipAll) {
			return nil
		}
		if err != nil && !errors.Is(err, fs.SkipDir) {
			return fmt.Errorf("handling file: %s: %w", e.Name, err)
		}
	}
	if cut {
		return io.ErrUnexpectedEOF
	}
	return nil
}

var exts = []string{".tar.gz", ".tgz", ".tar.bz2", ".tar.xz", ".tar.zst", ".tar", ".zip"}

func Identify(ctx context.Context, filename string, stream io.Reader) (Format, io.Reader, error) {
	for _, x := range exts {
		if strings.HasSuffix(path.Base(filename), x) {
			return tarGz{x}, stream, nil
		}
	}
	if stream != nil {
		return tarGz{".tar.gz"}, stream, nil
	}
	return nil, nil, NoMatch
}
