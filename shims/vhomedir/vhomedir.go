// Package vhomedir stands for go-homedir.
package vhomedir

import (
	"errors"
	"path/filepath"

	os "github.com/metrumresearchgroup/pkgr/verifsym/vos"
)

var DisableCache bool

func Reset() {}

func Dir() (string, error) {
	if h := os.Getenv("HOME"); h != "" {
		return h, nil
	}
	return "", errors.New("could not find home directory")
}

func Expand(path string) (string, error) {
	if len(path) == 0 {
		return path, nil
	}
	if path[0] != '~' {
		return path, nil
	}
	if len(path) > 1 && path[1] != '/' && path[1] != '\\' {
		return "", errors.New("cannot expand user-specific home dir")
	}
	dir, err := Dir()
	if err != nil {
		return "", err
	}
	return filepath.Join(dir, path[1:]), nil
}
