// Package simfilepath stands in for path/filepath: what touches the disk uses
// the simulated one.
package simfilepath

import (
	"io/fs"
	"path/filepath"
	"strings"
	"syscall"

	"dst/simos"
)

type WalkFunc func(path string, info simos.FileInfo, err error) error

func Abs(p string) (string, error) {
	if !filepath.IsAbs(p) {
		p = "/" + p
	}
	return filepath.Clean(p), nil
}

func EvalSymlinks(p string) (string, error) {
	for n := 0; n < 255; n++ {
		parts := strings.Split(filepath.Clean(p), "/")
		changed := false
		for i := 1; i <= len(parts); i++ {
			pre := strings.Join(parts[:i], "/")
			if pre == "" {
				continue
			}
			fi, err := simos.Lstat(pre)
			if err != nil {
				return "", err
			}
			if fi.Mode()&fs.ModeSymlink != 0 {
				t, err := simos.Readlink(pre)
				if err != nil {
					return "", err
				}
				if !filepath.IsAbs(t) {
					t = filepath.Dir(pre) + "/" + t
				}
				p = t + "/" + strings.Join(parts[i:], "/")
				changed = true
				break
			}
		}
		if !changed {
			return filepath.Clean(p), nil
		}
	}
	return "", &fs.PathError{Op: "lstat", Path: p, Err: syscall.ELOOP}
}

func Walk(root string, fn filepath.WalkFunc) error {
	info, err := simos.Lstat(root)
	if err != nil {
		return fn(root, nil, err)
	}
	err = walk(root, info, fn)
	if err == filepath.SkipDir || err == filepath.SkipAll {
		return nil
	}
	return err
}

func walk(p string, info simos.FileInfo, fn filepath.WalkFunc) error {
	if err := fn(p, info, nil); err != nil {
		if info.IsDir() && err == filepath.SkipDir {
			return nil
		}
		return err
	}
	if !info.IsDir() {
		return nil
	}
	es, err := simos.ReadDir(p)
	if err != nil {
		return fn(p, info, err)
	}
	for _, e := range es {
		i, _ := e.Info()
		if err := walk(p+"/"+e.Name(), i, fn); err != nil {
			return err
		}
	}
	return nil
}

func WalkDir(root string, fn fs.WalkDirFunc) error {
	return Walk(root, func(p string, info simos.FileInfo, err error) error {
		if info == nil {
			return fn(p, nil, err)
		}
		return fn(p, fs.FileInfoToDirEntry(info), err)
	})
}

func Glob(pattern string) ([]string, error) {
	dir, pat := filepath.Split(pattern)
	if dir == "" {
		dir = "/"
	}
	es, err := simos.ReadDir(dir)
	if err != nil {
		return nil, nil
	}
	var r []string
	for _, e := range es {
		ok, err := filepath.Match(pat, e.Name())
		if err != nil {
			return nil, err
		}
		if ok {
			r = append(r, dir+e.Name())
		}
	}
	return r, nil
}
