// Package simioutil stands in for io/ioutil.
package simioutil

import (
	"io"

	"dst/simos"
)

func ReadFile(name string) ([]byte, error) { return simos.ReadFile(name) }
func WriteFile(name string, data []byte, perm simos.FileMode) error {
	return simos.WriteFile(name, data, perm)
}
func TempFile(dir, pattern string) (*simos.File, error) { return simos.CreateTemp(dir, pattern) }
func TempDir(dir, pattern string) (string, error)       { return simos.MkdirTemp(dir, pattern) }
func ReadAll(r io.Reader) ([]byte, error)               { return io.ReadAll(r) }
func NopCloser(r io.Reader) io.ReadCloser               { return io.NopCloser(r) }

var Discard = io.Discard

func ReadDir(name string) ([]simos.FileInfo, error) {
	es, err := simos.ReadDir(name)
	if err != nil {
		return nil, err
	}
	var r []simos.FileInfo
	for _, e := range es {
		i, err := e.Info()
		if err != nil {
			return nil, err
		}
		r = append(r, i)
	}
	return r, nil
}
