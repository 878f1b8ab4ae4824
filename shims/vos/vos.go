// Package vos is the environment model that stands for package os: one in-memory file system, the process
// environment and the working directory.  The same model runs in the symbolic executor and natively.
package vos

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	real "os"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/metrumresearchgroup/pkgr/verifsym/sym"
)

// Node is a file, directory or symbolic link.
type Node struct {
	name  string
	dir   bool
	link  string
	data  []byte
	mode  fs.FileMode
	mtime int64
	kids  []*Node
	ino   int
}

var (
	root    = &Node{dir: true, mode: fs.ModeDir | 0o755}
	inos    int
	cwd     = "/"
	environ []string

	// OnOp is asked before every operation that changes the file system (and before "open" for reading);
	// a non-nil error makes the operation fail without effect.
	OnOp func(op, path string, n int) error
	// Ops counts the changing operations.
	Ops int
	// Trace lists the changing operations.
	Trace []string
	// Sched makes every changing operation a scheduling point.
	Sched bool
	// Clock gives the modification times.
	Clock = func() int64 { return 1700000000 }
)

func step(op, path string) error {
	sym.Gate()
	if Sched {
		sym.Event(op + " " + path)
	}
	n := Ops
	if op != "open" {
		Ops++
		Trace = append(Trace, op+" "+path)
	}
	if OnOp != nil {
		return OnOp(op, path, n)
	}
	return nil
}

// Reset empties the model.
func Reset() {
	root = &Node{dir: true, mode: fs.ModeDir | 0o755}
	cwd = "/"
	environ = nil
	OnOp = nil
	Ops = 0
	Trace = nil
	Sched = false
}

// ---- direct access for harnesses (no operations counted) ----

// Put creates a file and its directories.
func Put(path, data string) {
	sym.Lock()
	defer sym.Unlock()
	d, base := mkdirs(path)
	n := child(d, base)
	if n == nil {
		n = newNode(base, false, 0o644)
		add(d, n)
	}
	n.data = []byte(data)
	n.mtime = Clock()
}

// PutDir creates a directory and its parents.
func PutDir(path string) {
	sym.Lock()
	defer sym.Unlock()
	mkdirs(path + "/x")
}

// PutLink creates a symbolic link.
func PutLink(path, to string) {
	sym.Lock()
	defer sym.Unlock()
	d, base := mkdirs(path)
	n := newNode(base, false, fs.ModeSymlink|0o777)
	n.link = to
	add(d, n)
}

// Has reports whether the path exists.
func Has(path string) bool {
	n, _ := lookup(path, true)
	return n != nil
}

// IsDirectory reports whether the path is a directory.
func IsDirectory(path string) bool {
	n, _ := lookup(path, true)
	return n != nil && n.dir
}

// Cat gives the content of a file ("" when there is none).
func Cat(path string) string {
	n, _ := lookup(path, true)
	if n == nil {
		return ""
	}
	return string(n.data)
}

// Names lists a directory in order.
func Names(path string) []string {
	n, _ := lookup(path, true)
	var r []string
	if n != nil {
		for _, k := range n.kids {
			r = append(r, k.name)
		}
	}
	return r
}

// Tree lists everything below path, files as path=content.
func Tree(path string) []string {
	n, _ := lookup(path, true)
	if n == nil {
		return nil
	}
	var r []string
	var walk func(p string, n *Node)
	walk = func(p string, n *Node) {
		for _, k := range n.kids {
			q := p + "/" + k.name
			if k.dir {
				r = append(r, q+"/")
				walk(q, k)
			} else if k.link != "" {
				r = append(r, q+"->"+k.link)
			} else {
				r = append(r, q+"="+string(k.data))
			}
		}
	}
	walk(strings.TrimSuffix(path, "/"), n)
	return r
}

// Delete removes a path and everything below it.
func Delete(path string) {
	p, base, _ := lookupParent(path)
	if p != nil {
		del(p, base)
	}
}

// ---- nodes ----

func newNode(name string, dir bool, mode fs.FileMode) *Node {
	inos++
	return &Node{name: name, dir: dir, mode: mode, mtime: Clock(), ino: inos}
}

func child(d *Node, name string) *Node {
	for _, k := range d.kids {
		if k.name == name {
			return k
		}
	}
	return nil
}

func add(d *Node, n *Node) {
	i := 0
	for i < len(d.kids) && d.kids[i].name < n.name {
		i++
	}
	d.kids = append(d.kids, nil)
	copy(d.kids[i+1:], d.kids[i:])
	d.kids[i] = n
	d.mtime = Clock()
}

func del(d *Node, name string) {
	for i, k := range d.kids {
		if k.name == name {
			d.kids = append(append([]*Node(nil), d.kids[:i]...), d.kids[i+1:]...)
			d.mtime = Clock()
			return
		}
	}
}

func abs(path string) string {
	if len(path) > 0 && path[0] == '/' {
		return path
	}
	return cwd + "/" + path
}

func split(path string) []string {
	var r []string
	st := 0
	for i := 0; i <= len(path); i++ {
		if i == len(path) || path[i] == '/' {
			if i > st {
				r = append(r, path[st:i])
			}
			st = i + 1
		}
	}
	return r
}

func mkdirs(path string) (*Node, string) {
	parts := split(abs(path))
	d := root
	for _, p := range parts[:len(parts)-1] {
		if p == "." {
			continue
		}
		k := child(d, p)
		if k == nil {
			k = newNode(p, true, fs.ModeDir|0o755)
			add(d, k)
		}
		d = k
	}
	return d, parts[len(parts)-1]
}

// walk resolves the components; it returns the stack of directories from the root.
func resolve(parts []string, follow bool, depth int) ([]*Node, error) {
	stack := []*Node{root}
	return resolveFrom(stack, parts, follow, depth)
}

func resolveFrom(stack []*Node, parts []string, follow bool, depth int) ([]*Node, error) {
	if depth > 20 {
		return nil, syscall.ELOOP
	}
	for i, p := range parts {
		cur := stack[len(stack)-1]
		if !cur.dir {
			return nil, syscall.ENOTDIR
		}
		if p == "." {
			continue
		}
		if p == ".." {
			if len(stack) > 1 {
				stack = stack[:len(stack)-1]
			}
			continue
		}
		k := child(cur, p)
		if k == nil {
			return nil, syscall.ENOENT
		}
		if k.link != "" && (follow || i < len(parts)-1) {
			st := append([]*Node(nil), stack...)
			if k.link[0] == '/' {
				st = st[:1]
			}
			st, err := resolveFrom(st, split(k.link), true, depth+1)
			if err != nil {
				return nil, err
			}
			stack = st
			continue
		}
		stack = append(append([]*Node(nil), stack...), k)
	}
	return stack, nil
}

func lookup(path string, follow bool) (*Node, error) {
	if path == "" {
		return nil, syscall.ENOENT
	}
	st, err := resolve(split(abs(path)), follow, 0)
	if err != nil {
		return nil, err
	}
	n := st[len(st)-1]
	if !n.dir && path[len(path)-1] == '/' {
		return nil, syscall.ENOTDIR
	}
	return n, nil
}

func lookupParent(path string) (*Node, string, error) {
	parts := split(abs(path))
	if len(parts) == 0 {
		return nil, "", syscall.EBUSY
	}
	base := parts[len(parts)-1]
	if path == "" {
		return nil, "", syscall.ENOENT
	}
	if base == "." || base == ".." {
		return nil, "", syscall.EINVAL
	}
	st, err := resolve(parts[:len(parts)-1], true, 0)
	if err != nil {
		return nil, "", err
	}
	d := st[len(st)-1]
	if !d.dir {
		return nil, "", syscall.ENOTDIR
	}
	return d, base, nil
}

func perr(op, path string, err error) error {
	return &fs.PathError{Op: op, Path: path, Err: err}
}

// ---- file info ----

type info struct {
	name  string
	size  int64
	mode  fs.FileMode
	mtime int64
	ino   int
}

func (i *info) Name() string               { return i.name }
func (i *info) Size() int64                { return i.size }
func (i *info) Mode() fs.FileMode          { return i.mode }
func (i *info) ModTime() time.Time         { return time.Unix(i.mtime, 0) }
func (i *info) IsDir() bool                { return i.mode&fs.ModeDir != 0 }
func (i *info) Sys() any                   { return nil }
func (i *info) Type() fs.FileMode          { return i.mode & fs.ModeType }
func (i *info) Info() (fs.FileInfo, error) { return i, nil }
func (i *info) String() string             { return i.name }

func mkInfo(n *Node, name string) *info {
	return &info{name: name, size: int64(len(n.data)), mode: n.mode, mtime: n.mtime, ino: n.ino}
}

func lastName(path string) string {
	p := split(path)
	if len(p) == 0 {
		return "/"
	}
	return p[len(p)-1]
}

func SameFile(a, b fs.FileInfo) bool {
	x, ok1 := a.(*info)
	y, ok2 := b.(*info)
	return ok1 && ok2 && x.ino == y.ino
}

func Stat(path string) (fs.FileInfo, error) {
	sym.Gate()
	sym.Lock()
	defer sym.Unlock()
	n, err := lookup(path, true)
	if err != nil {
		return nil, perr("stat", path, err)
	}
	return mkInfo(n, lastName(path)), nil
}

func Lstat(path string) (fs.FileInfo, error) {
	sym.Gate()
	sym.Lock()
	defer sym.Unlock()
	n, err := lookup(path, false)
	if err != nil {
		return nil, perr("lstat", path, err)
	}
	return mkInfo(n, lastName(path)), nil
}

// ---- files ----

// File stands for *os.File.
type File struct {
	n      *Node
	path   string
	off    int
	flag   int
	closed bool
	std    int
	dirpos int
}

var (
	Stdin  = &File{std: 1, path: "/dev/stdin"}
	Stdout = &File{std: 2, path: "/dev/stdout"}
	Stderr = &File{std: 3, path: "/dev/stderr"}
	Args   = []string{"pkgr"}
)

func OpenFile(path string, flag int, perm fs.FileMode) (*File, error) {
	if err := openStep(path, flag); err != nil {
		return nil, perr("open", path, err)
	}
	sym.Lock()
	defer sym.Unlock()
	return openFile(path, flag, perm)
}

func openStep(path string, flag int) error {
	op := "open"
	if flag&(real.O_CREATE|real.O_TRUNC|real.O_WRONLY|real.O_RDWR) != 0 {
		op = "create"
	}
	return step(op, path)
}

func openFile(path string, flag int, perm fs.FileMode) (*File, error) {
	n, err := lookup(path, true)
	if err != nil && (err != syscall.ENOENT || flag&real.O_CREATE == 0) {
		return nil, perr("open", path, err)
	}
	if n == nil {
		d, base, err := lookupParent(path)
		if err != nil {
			return nil, perr("open", path, err)
		}
		if l := child(d, base); l != nil {
			return nil, perr("open", path, syscall.ENOENT) // dangling link
		}
		if path[len(path)-1] == '/' {
			return nil, perr("open", path, syscall.EISDIR)
		}
		n = newNode(base, false, perm&^0o022&fs.ModePerm)
		add(d, n)
	} else {
		if flag&real.O_CREATE != 0 && flag&real.O_EXCL != 0 {
			return nil, perr("open", path, syscall.EEXIST)
		}
		if n.dir && flag&(real.O_WRONLY|real.O_RDWR|real.O_TRUNC) != 0 {
			return nil, perr("open", path, syscall.EISDIR)
		}
		if flag&real.O_TRUNC != 0 {
			n.data = nil
			n.mtime = Clock()
		}
	}
	return &File{n: n, path: path, flag: flag}, nil
}

func Open(path string) (*File, error) { return OpenFile(path, real.O_RDONLY, 0) }
func Create(path string) (*File, error) {
	return OpenFile(path, real.O_RDWR|real.O_CREATE|real.O_TRUNC, 0o666)
}

func (f *File) check(op string) error {
	if f == nil {
		return fs.ErrInvalid
	}
	if f.closed {
		return perr(op, f.path, fs.ErrClosed)
	}
	return nil
}

func (f *File) Name() string { return f.path }
func (f *File) Fd() uintptr  { return 9 }
func (f *File) Sync() error  { return f.check("sync") }

func (f *File) Close() error {
	if f == nil {
		return fs.ErrInvalid
	}
	if f.closed {
		return perr("close", f.path, fs.ErrClosed)
	}
	if f.std == 0 {
		f.closed = true
	}
	return nil
}

func (f *File) Read(b []byte) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	sym.Gate()
	if f.std != 0 {
		return 0, io.EOF
	}
	if f.n.dir {
		return 0, perr("read", f.path, syscall.EISDIR)
	}
	if f.flag&(real.O_WRONLY) != 0 {
		return 0, perr("read", f.path, syscall.EBADF)
	}
	sym.Lock()
	defer sym.Unlock()
	if len(b) == 0 {
		return 0, nil
	}
	if f.off >= len(f.n.data) {
		return 0, io.EOF
	}
	n := copy(b, f.n.data[f.off:])
	f.off += n
	return n, nil
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	sym.Lock()
	defer sym.Unlock()
	if off >= int64(len(f.n.data)) {
		return 0, io.EOF
	}
	n := copy(b, f.n.data[off:])
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

func (f *File) put(b []byte) {
	sym.Lock()
	defer sym.Unlock()
	if f.flag&real.O_APPEND != 0 {
		f.off = len(f.n.data)
	}
	var d []byte
	d = append(d, f.n.data...)
	for len(d) < f.off {
		d = append(d, 0)
	}
	d = append(d[:f.off], b...)
	if f.off+len(b) < len(f.n.data) {
		d = append(d, f.n.data[f.off+len(b):]...)
	}
	f.n.data = d
	f.off += len(b)
	f.n.mtime = Clock()
}

// Write is two operations: a crash or a fault may leave the first half behind.
func (f *File) Write(b []byte) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	if f.std == 2 {
		fmt.Print(string(b))
	}
	if f.std != 0 {
		return len(b), nil
	}
	if f.flag&(real.O_WRONLY|real.O_RDWR) == 0 {
		return 0, perr("write", f.path, syscall.EBADF)
	}
	if err := step("write", f.path); err != nil {
		return 0, perr("write", f.path, err)
	}
	h := len(b) / 2
	if h > 0 {
		f.put(b[:h])
		if err := step("write2", f.path); err != nil {
			return h, perr("write", f.path, err)
		}
	}
	f.put(b[h:])
	return len(b), nil
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	old := f.off
	f.off = int(off)
	n, err := f.Write(b)
	f.off = old
	return n, err
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.check("seek"); err != nil {
		return 0, err
	}
	switch whence {
	case io.SeekStart:
		f.off = int(off)
	case io.SeekCurrent:
		f.off += int(off)
	case io.SeekEnd:
		f.off = len(f.n.data) + int(off)
	}
	return int64(f.off), nil
}

func (f *File) Truncate(size int64) error {
	if err := f.check("truncate"); err != nil {
		return err
	}
	if err := step("truncate", f.path); err != nil {
		return perr("truncate", f.path, err)
	}
	sym.Lock()
	defer sym.Unlock()
	d := append([]byte(nil), f.n.data...)
	for int64(len(d)) < size {
		d = append(d, 0)
	}
	f.n.data = d[:size]
	return nil
}

func (f *File) Stat() (fs.FileInfo, error) {
	if err := f.check("stat"); err != nil {
		return nil, err
	}
	if f.std != 0 {
		return &info{name: f.path, mode: fs.ModeDevice | fs.ModeCharDevice | 0o666}, nil
	}
	return mkInfo(f.n, lastName(f.path)), nil
}

func (f *File) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{f}, r)
}

func (f *File) WriteTo(w io.Writer) (int64, error) {
	return io.Copy(w, struct{ io.Reader }{f})
}

func (f *File) Chown(uid, gid int) error { return f.check("chown") }

func (f *File) Chdir() error {
	if err := f.check("chdir"); err != nil {
		return err
	}
	return Chdir(f.path)
}

func (f *File) SetDeadline(time.Time) error      { return fs.ErrInvalid }
func (f *File) SetReadDeadline(time.Time) error  { return fs.ErrInvalid }
func (f *File) SetWriteDeadline(time.Time) error { return fs.ErrInvalid }

func (f *File) Chmod(mode fs.FileMode) error {
	if err := f.check("chmod"); err != nil {
		return err
	}
	f.n.mode = f.n.mode&^fs.ModePerm | mode&fs.ModePerm
	return nil
}

func (f *File) Readdir(n int) ([]fs.FileInfo, error) {
	if err := f.check("readdir"); err != nil {
		return nil, err
	}
	sym.Gate()
	if !f.n.dir {
		return nil, perr("readdirent", f.path, syscall.ENOTDIR)
	}
	sym.Lock()
	defer sym.Unlock()
	var r []fs.FileInfo
	for f.dirpos < len(f.n.kids) && (n <= 0 || len(r) < n) {
		k := f.n.kids[f.dirpos]
		f.dirpos++
		r = append(r, mkInfo(k, k.name))
	}
	if n > 0 && len(r) == 0 {
		return nil, io.EOF
	}
	return r, nil
}

func (f *File) Readdirnames(n int) ([]string, error) {
	fi, err := f.Readdir(n)
	var r []string
	for _, i := range fi {
		r = append(r, i.Name())
	}
	return r, err
}

func (f *File) ReadDir(n int) ([]fs.DirEntry, error) {
	fi, err := f.Readdir(n)
	var r []fs.DirEntry
	for _, i := range fi {
		r = append(r, i.(*info))
	}
	return r, err
}

func ReadDir(path string) ([]fs.DirEntry, error) {
	f, err := Open(path)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return f.ReadDir(-1)
}

func ReadFile(path string) ([]byte, error) {
	f, err := Open(path)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if f.n.dir {
		return nil, perr("read", path, syscall.EISDIR)
	}
	return append([]byte{}, f.n.data...), nil
}

func WriteFile(path string, data []byte, perm fs.FileMode) error {
	f, err := OpenFile(path, real.O_WRONLY|real.O_CREATE|real.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	f.Close()
	return err
}

func Truncate(path string, size int64) error {
	f, err := OpenFile(path, real.O_WRONLY, 0)
	if err != nil {
		return err
	}
	return f.Truncate(size)
}

// ---- directories and names ----

func Mkdir(path string, perm fs.FileMode) error {
	if err := step("mkdir", path); err != nil {
		return perr("mkdir", path, err)
	}
	sym.Lock()
	defer sym.Unlock()
	return mkdir(path)
}

func mkdir(path string) error {
	if n, _ := lookup(path, false); n != nil {
		return perr("mkdir", path, syscall.EEXIST)
	}
	d, base, err := lookupParent(path)
	if err != nil {
		return perr("mkdir", path, err)
	}
	add(d, newNode(base, true, fs.ModeDir|0o755))
	return nil
}

func MkdirAll(path string, perm fs.FileMode) error {
	sym.Gate()
	if n, err := lookup(path, true); err == nil {
		if n.dir {
			return nil
		}
		return perr("mkdir", path, syscall.ENOTDIR)
	}
	parts := split(abs(path))
	cur := ""
	for _, p := range parts {
		cur += "/" + p
		n, err := lookup(cur, true)
		if err == nil {
			if !n.dir {
				return perr("mkdir", cur, syscall.ENOTDIR)
			}
			continue
		}
		if err := step("mkdir", cur); err != nil {
			return perr("mkdir", cur, err)
		}
		sym.Lock()
		err = mkdir(cur)
		sym.Unlock()
		if err != nil {
			if n, _ := lookup(cur, true); n != nil && n.dir {
				continue
			}
			return err
		}
	}
	return nil
}

func Remove(path string) error {
	if err := step("remove", path); err != nil {
		return perr("remove", path, err)
	}
	sym.Lock()
	defer sym.Unlock()
	return remove(path)
}

func remove(path string) error {
	n, err := lookup(path, false)
	if err != nil {
		return perr("remove", path, err)
	}
	if n.dir && len(n.kids) > 0 {
		return perr("remove", path, syscall.ENOTEMPTY)
	}
	d, base, err := lookupParent(path)
	if err != nil {
		return perr("remove", path, err)
	}
	del(d, base)
	return nil
}

func RemoveAll(path string) error {
	sym.Gate()
	if path == "" {
		return nil
	}
	n, err := lookup(path, false)
	if err != nil {
		if err == syscall.ENOTDIR {
			return perr("unlinkat", path, err)
		}
		return nil
	}
	if n.dir {
		for _, k := range append([]*Node(nil), n.kids...) {
			if err := RemoveAll(path + "/" + k.name); err != nil {
				return err
			}
		}
	}
	if err := step("remove", path); err != nil {
		return perr("unlinkat", path, err)
	}
	sym.Lock()
	defer sym.Unlock()
	if _, err := lookup(path, false); err != nil {
		return nil
	}
	return remove(path)
}

func Rename(from, to string) error {
	if err := step("rename", from+" "+to); err != nil {
		return &real.LinkError{Op: "rename", Old: from, New: to, Err: err}
	}
	sym.Lock()
	defer sym.Unlock()
	le := func(err error) error { return &real.LinkError{Op: "rename", Old: from, New: to, Err: err} }
	n, err := lookup(from, false)
	if err != nil {
		return le(err)
	}
	fd, fb, err := lookupParent(from)
	if err != nil {
		return le(err)
	}
	td, tb, err := lookupParent(to)
	if err != nil {
		return le(err)
	}
	if t := child(td, tb); t != nil {
		if t == n {
			return nil
		}
		if t.dir && !n.dir {
			return le(syscall.EEXIST)
		}
		if !t.dir && n.dir {
			return le(syscall.ENOTDIR)
		}
		if t.dir && len(t.kids) > 0 {
			return le(syscall.ENOTEMPTY)
		}
	}
	// a directory cannot be moved below itself
	if n.dir {
		st, _ := resolve(split(abs(to))[:len(split(abs(to)))-1], true, 0)
		for _, s := range st {
			if s == n {
				return le(syscall.EINVAL)
			}
		}
	}
	del(td, tb)
	del(fd, fb)
	n.name = tb
	add(td, n)
	return nil
}

func Symlink(to, path string) error {
	if err := step("symlink", path); err != nil {
		return &real.LinkError{Op: "symlink", Old: to, New: path, Err: err}
	}
	if n, _ := lookup(path, false); n != nil {
		return &real.LinkError{Op: "symlink", Old: to, New: path, Err: syscall.EEXIST}
	}
	d, base, err := lookupParent(path)
	if err != nil {
		return &real.LinkError{Op: "symlink", Old: to, New: path, Err: err}
	}
	n := newNode(base, false, fs.ModeSymlink|0o777)
	n.link = to
	add(d, n)
	return nil
}

func Link(from, to string) error {
	if err := step("link", to); err != nil {
		return &real.LinkError{Op: "link", Old: from, New: to, Err: err}
	}
	n, err := lookup(from, true)
	if err == nil && n.dir {
		err = syscall.EPERM
	}
	if err == nil {
		if x, _ := lookup(to, false); x != nil {
			err = syscall.EEXIST
		}
	}
	if err == nil {
		var d *Node
		var base string
		d, base, err = lookupParent(to)
		if err == nil {
			// hard links share the content at the time of linking
			c := newNode(base, false, n.mode)
			c.data = n.data
			add(d, c)
		}
	}
	if err != nil {
		return &real.LinkError{Op: "link", Old: from, New: to, Err: err}
	}
	return nil
}

func Readlink(path string) (string, error) {
	n, err := lookup(path, false)
	if err != nil {
		return "", perr("readlink", path, err)
	}
	if n.link == "" {
		return "", perr("readlink", path, syscall.EINVAL)
	}
	return n.link, nil
}

func Chmod(path string, mode fs.FileMode) error {
	if err := step("chmod", path); err != nil {
		return perr("chmod", path, err)
	}
	n, err := lookup(path, true)
	if err != nil {
		return perr("chmod", path, err)
	}
	n.mode = n.mode&^fs.ModePerm | mode&fs.ModePerm
	return nil
}

func Chown(path string, uid, gid int) error  { return nil }
func Lchown(path string, uid, gid int) error { return nil }

func Chtimes(path string, atime, mtime time.Time) error {
	n, err := lookup(path, true)
	if err != nil {
		return perr("chtimes", path, err)
	}
	n.mtime = mtime.Unix()
	return nil
}

// SetMtime sets a modification time (for harnesses).
func SetMtime(path string, sec int64) {
	if n, _ := lookup(path, true); n != nil {
		n.mtime = sec
	}
}

func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = TempDir()
	}
	pre, suf := pattern, ""
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	return OpenFile(dir+"/"+pre+unique()+suf, real.O_RDWR|real.O_CREATE|real.O_EXCL, 0o600)
}

var temps int

// unique is the random part of the name of a temporary file; it is never used twice.
func unique() string {
	sym.Lock()
	defer sym.Unlock()
	temps++
	return digits(100000 + temps*7)
}

func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = TempDir()
	}
	pre, suf := pattern, ""
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	name := dir + "/" + pre + unique() + suf
	return name, Mkdir(name, 0o700)
}

func digits(n int) string {
	s := ""
	for n > 0 {
		s = string([]byte{byte('0' + n%10)}) + s
		n /= 10
	}
	return s
}

// ---- process state ----

func Getwd() (string, error) { return cwd, nil }

func Chdir(dir string) error {
	n, err := lookup(dir, true)
	if err != nil {
		return perr("chdir", dir, err)
	}
	if !n.dir {
		return perr("chdir", dir, syscall.ENOTDIR)
	}
	var out []string
	for _, p := range split(abs(dir)) {
		if p == "." {
			continue
		}
		if p == ".." {
			if len(out) > 0 {
				out = out[:len(out)-1]
			}
			continue
		}
		out = append(out, p)
	}
	cwd = "/" + strings.Join(out, "/")
	return nil
}

func TempDir() string {
	if d := Getenv("TMPDIR"); d != "" {
		return d
	}
	return "/tmp"
}

func UserHomeDir() (string, error) {
	if h := Getenv("HOME"); h != "" {
		return h, nil
	}
	return "", errors.New("$HOME is not defined")
}

func UserCacheDir() (string, error) {
	if d := Getenv("XDG_CACHE_HOME"); d != "" {
		return d, nil
	}
	h := Getenv("HOME")
	if h == "" {
		return "", errors.New("neither $XDG_CACHE_HOME nor $HOME are defined")
	}
	return h + "/.cache", nil
}

func UserConfigDir() (string, error) {
	h := Getenv("HOME")
	if h == "" {
		return "", errors.New("neither $XDG_CONFIG_HOME nor $HOME are defined")
	}
	return h + "/.config", nil
}

func find(key string) int {
	for i, e := range environ {
		if len(e) > len(key) && e[len(key)] == '=' && e[:len(key)] == key {
			return i
		}
	}
	return -1
}

func LookupEnv(key string) (string, bool) {
	sym.Lock()
	defer sym.Unlock()
	if i := find(key); i >= 0 {
		return environ[i][len(key)+1:], true
	}
	return "", false
}

func Getenv(key string) string {
	v, _ := LookupEnv(key)
	return v
}

func Setenv(key, value string) error {
	if key == "" || strings.Contains(key, "=") {
		return real.NewSyscallError("setenv", syscall.EINVAL)
	}
	sym.Lock()
	defer sym.Unlock()
	if i := find(key); i >= 0 {
		environ[i] = key + "=" + value
	} else {
		environ = append(environ, key+"="+value)
	}
	return nil
}

func Unsetenv(key string) error {
	sym.Lock()
	defer sym.Unlock()
	if i := find(key); i >= 0 {
		environ = append(append([]string(nil), environ[:i]...), environ[i+1:]...)
	}
	return nil
}

func Clearenv()         { environ = nil }
func Environ() []string { return append([]string(nil), environ...) }

func ExpandEnv(s string) string { return real.Expand(s, Getenv) }

func Exit(code int) { sym.Exit(code) }

func Getpid() int                 { return 4242 + sym.Tag() }
func Getppid() int                { return 4241 }
func Getuid() int                 { return 1000 }
func Geteuid() int                { return 1000 }
func Getgid() int                 { return 1000 }
func Hostname() (string, error)   { return "host", nil }
func Executable() (string, error) { return "/usr/local/bin/pkgr", nil }

// ---- os.Root ----

// Root stands for *os.Root: names that lead outside are refused.
type Root struct {
	name   string
	n      *Node
	closed bool
}

var errEscapes = errors.New("path escapes from parent")

func OpenRoot(name string) (*Root, error) {
	n, err := lookup(name, true)
	if err != nil {
		return nil, perr("open", name, err)
	}
	if !n.dir {
		return nil, perr("open", name, errors.New("not a directory"))
	}
	return &Root{name: name, n: n}, nil
}

func (r *Root) Name() string { return r.name }
func (r *Root) Close() error { r.closed = true; return nil }

// within resolves a name below the root: the directory that holds its last component and that component.
func (r *Root) within(op, name string) (*Node, string, error) {
	if r.closed {
		return nil, "", perr(op, name, fs.ErrClosed)
	}
	if name == "" {
		return nil, "", perr(op, name, syscall.ENOENT)
	}
	if name[0] == '/' {
		return nil, "", perr(op, name, errEscapes)
	}
	parts := split(name)
	stack := []*Node{r.n}
	for i := 0; i < len(parts); i++ {
		p := parts[i]
		if p == "." {
			continue
		}
		if p == ".." {
			if len(stack) == 1 {
				return nil, "", perr(op, name, errEscapes)
			}
			stack = stack[:len(stack)-1]
			continue
		}
		cur := stack[len(stack)-1]
		k := child(cur, p)
		last := i == len(parts)-1
		if k != nil && k.link != "" {
			if len(parts) > 200 {
				return nil, "", perr(op, name, syscall.ELOOP)
			}
			if k.link[0] == '/' {
				return nil, "", perr(op, name, errEscapes)
			}
			parts = append(append([]string(nil), split(k.link)...), parts[i+1:]...)
			i = -1
			continue
		}
		if last {
			return cur, p, nil
		}
		if k == nil {
			return nil, "", perr(op, name, syscall.ENOENT)
		}
		if !k.dir {
			return nil, "", perr(op, name, syscall.ENOTDIR)
		}
		stack = append(append([]*Node(nil), stack...), k)
	}
	return stack[len(stack)-1], ".", nil
}

func (r *Root) node(op, name string) (*Node, error) {
	d, base, err := r.within(op, name)
	if err != nil {
		return nil, err
	}
	if base == "." {
		return d, nil
	}
	n := child(d, base)
	if n == nil {
		return nil, perr(op, name, syscall.ENOENT)
	}
	return n, nil
}

func (r *Root) OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	d, base, err := r.within("openat", name)
	if err != nil {
		return nil, err
	}
	if err := openStep(r.name+"/"+name, flag); err != nil {
		return nil, perr("openat", name, err)
	}
	sym.Lock()
	defer sym.Unlock()
	var n *Node
	if base == "." {
		n = d
	} else {
		n = child(d, base)
	}
	if n == nil {
		if flag&real.O_CREATE == 0 {
			return nil, perr("openat", name, syscall.ENOENT)
		}
		n = newNode(base, false, perm&^0o022&fs.ModePerm)
		add(d, n)
	} else {
		if flag&real.O_CREATE != 0 && flag&real.O_EXCL != 0 {
			return nil, perr("openat", name, syscall.EEXIST)
		}
		if n.dir && flag&(real.O_WRONLY|real.O_RDWR) != 0 {
			return nil, perr("openat", name, syscall.EISDIR)
		}
		if flag&real.O_TRUNC != 0 {
			n.data = nil
		}
	}
	return &File{n: n, path: r.name + "/" + name, flag: flag}, nil
}

func (r *Root) Open(name string) (*File, error) { return r.OpenFile(name, real.O_RDONLY, 0) }
func (r *Root) Create(name string) (*File, error) {
	return r.OpenFile(name, real.O_RDWR|real.O_CREATE|real.O_TRUNC, 0o666)
}

func (r *Root) Mkdir(name string, perm fs.FileMode) error {
	d, base, err := r.within("mkdirat", name)
	if err != nil {
		return err
	}
	if base == "." || child(d, base) != nil {
		return perr("mkdirat", name, syscall.EEXIST)
	}
	if err := step("mkdir", r.name+"/"+name); err != nil {
		return perr("mkdirat", name, err)
	}
	add(d, newNode(base, true, fs.ModeDir|0o755))
	return nil
}

func (r *Root) MkdirAll(name string, perm fs.FileMode) error {
	cur := ""
	for _, p := range split(name) {
		if cur != "" {
			cur += "/"
		}
		cur += p
		n, err := r.node("mkdirat", cur)
		if err == nil {
			if !n.dir {
				return perr("mkdirat", name, syscall.ENOTDIR)
			}
			continue
		}
		if !errors.Is(err, fs.ErrNotExist) {
			return err
		}
		if err := r.Mkdir(cur, perm); err != nil {
			return err
		}
	}
	if len(name) > 0 && name[0] == '/' {
		return perr("mkdirat", name, errEscapes)
	}
	return nil
}

func (r *Root) Stat(name string) (fs.FileInfo, error) {
	n, err := r.node("statat", name)
	if err != nil {
		return nil, err
	}
	return mkInfo(n, lastName(name)), nil
}

func (r *Root) Lstat(name string) (fs.FileInfo, error) { return r.Stat(name) }

func (r *Root) Remove(name string) error {
	d, base, err := r.within("unlinkat", name)
	if err != nil {
		return err
	}
	n := child(d, base)
	if n == nil {
		return perr("unlinkat", name, syscall.ENOENT)
	}
	if n.dir && len(n.kids) > 0 {
		return perr("unlinkat", name, syscall.ENOTEMPTY)
	}
	if err := step("remove", r.name+"/"+name); err != nil {
		return perr("unlinkat", name, err)
	}
	del(d, base)
	return nil
}

func (r *Root) RemoveAll(name string) error {
	d, base, err := r.within("unlinkat", name)
	if err != nil {
		if errors.Is(err, fs.ErrNotExist) {
			return nil
		}
		return err
	}
	if base == "." {
		return perr("unlinkat", name, syscall.EINVAL)
	}
	n := child(d, base)
	if n == nil {
		return nil
	}
	if n.dir {
		for _, k := range append([]*Node(nil), n.kids...) {
			if err := r.RemoveAll(name + "/" + k.name); err != nil {
				return err
			}
		}
	}
	if err := step("remove", r.name+"/"+name); err != nil {
		return perr("unlinkat", name, err)
	}
	del(d, base)
	return nil
}

func (r *Root) Rename(from, to string) error {
	if _, _, err := r.within("renameat", from); err != nil {
		return err
	}
	if _, _, err := r.within("renameat", to); err != nil {
		return err
	}
	return Rename(r.name+"/"+from, r.name+"/"+to)
}

func (r *Root) Symlink(to, name string) error {
	d, base, err := r.within("symlinkat", name)
	if err != nil {
		return err
	}
	if err := step("symlink", r.name+"/"+name); err != nil {
		return perr("symlinkat", name, err)
	}
	if base == "." || child(d, base) != nil {
		return perr("symlinkat", name, syscall.EEXIST)
	}
	n := newNode(base, false, fs.ModeSymlink|0o777)
	n.link = to
	add(d, n)
	return nil
}

func (r *Root) Chmod(name string, mode fs.FileMode) error {
	n, err := r.node("chmodat", name)
	if err != nil {
		return err
	}
	n.mode = n.mode&^fs.ModePerm | mode&fs.ModePerm
	return nil
}

func (r *Root) Chtimes(name string, atime, mtime time.Time) error {
	n, err := r.node("chtimesat", name)
	if err != nil {
		return err
	}
	n.mtime = mtime.Unix()
	return nil
}

func (r *Root) OpenRoot(name string) (*Root, error) {
	n, err := r.node("openat", name)
	if err != nil {
		return nil, err
	}
	if !n.dir {
		return nil, perr("openat", name, syscall.ENOTDIR)
	}
	return &Root{name: r.name + "/" + name, n: n}, nil
}

func (r *Root) WriteFile(name string, data []byte, perm fs.FileMode) error {
	f, err := r.OpenFile(name, real.O_WRONLY|real.O_CREATE|real.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	f.Close()
	return err
}

func (r *Root) ReadFile(name string) ([]byte, error) {
	f, err := r.Open(name)
	if err != nil {
		return nil, err
	}
	return append([]byte{}, f.n.data...), nil
}

// DirFS is not modelled as a lazy file system; it serves the model's files.
func DirFS(dir string) fs.FS { return dirFS(dir) }

type dirFS string

func (d dirFS) Open(name string) (fs.File, error) {
	f, err := Open(string(d) + "/" + name)
	if err != nil {
		return nil, err
	}
	return f, nil
}

var _ = sort.Strings

// EvalSymlinks is filepath.EvalSymlinks.
func EvalSymlinks(path string) (string, error) {
	st, err := resolve(split(abs(path)), true, 0)
	if err != nil {
		return "", perr("lstat", path, err)
	}
	s := ""
	for _, n := range st[1:] {
		s += "/" + n.name
	}
	if s == "" {
		s = "/"
	}
	return s, nil
}
