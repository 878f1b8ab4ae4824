// Package vfilepath stands for path/filepath: the functions that touch the file system use the model.
package vfilepath

import (
	"io/fs"
	real "path/filepath"

	os "github.com/metrumresearchgroup/pkgr/verifsym/vos"
)

func Abs(p string) (string, error) {
	if real.IsAbs(p) {
		return real.Clean(p), nil
	}
	wd, err := os.Getwd()
	if err != nil {
		return "", err
	}
	return real.Join(wd, p), nil
}

func EvalSymlinks(p string) (string, error) { return os.EvalSymlinks(p) }

func Walk(root string, fn real.WalkFunc) error {
	info, err := os.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, info, fn)
	}
	if err == real.SkipDir || err == real.SkipAll {
		return nil
	}
	return err
}

func walk(path string, info fs.FileInfo, fn real.WalkFunc) error {
	if !info.IsDir() {
		return fn(path, info, nil)
	}
	es, err := os.ReadDir(path)
	err1 := fn(path, info, err)
	if err != nil || err1 != nil {
		return err1
	}
	for _, e := range es {
		p := real.Join(path, e.Name())
		fi, err := os.Lstat(p)
		if err != nil {
			if err := fn(p, fi, err); err != nil && err != real.SkipDir {
				return err
			}
		} else {
			if err = walk(p, fi, fn); err != nil {
				if !fi.IsDir() || err != real.SkipDir {
					return err
				}
			}
		}
	}
	return nil
}

func WalkDir(root string, fn fs.WalkDirFunc) error {
	info, err := os.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walkDir(root, fs.FileInfoToDirEntry(info), fn)
	}
	if err == real.SkipDir || err == real.SkipAll {
		return nil
	}
	return err
}

func walkDir(path string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(path, d, nil); err != nil || !d.IsDir() {
		if err == real.SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	es, err := os.ReadDir(path)
	if err != nil {
		if err = fn(path, d, err); err != nil {
			if err == real.SkipDir {
				err = nil
			}
			return err
		}
	}
	for _, e := range es {
		if err := walkDir(real.Join(path, e.Name()), e, fn); err != nil {
			if err == real.SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

func Glob(pattern string) ([]string, error) {
	if _, err := real.Match(pattern, ""); err != nil {
		return nil, err
	}
	dir, file := real.Split(pattern)
	d := real.Clean(dir)
	if dir == "" {
		d = "."
	}
	dirs := []string{d}
	for i := 0; i < len(d); i++ {
		if d[i] == '*' || d[i] == '?' || d[i] == '[' {
			m, err := Glob(d)
			if err != nil {
				return nil, err
			}
			dirs = m
			break
		}
	}
	var r []string
	for _, x := range dirs {
		es, err := os.ReadDir(x)
		if err != nil {
			continue
		}
		for _, e := range es {
			if ok, _ := real.Match(file, e.Name()); ok {
				r = append(r, real.Join(x, e.Name()))
			}
		}
	}
	return r, nil
}
