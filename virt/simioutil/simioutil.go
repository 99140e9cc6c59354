// Package simioutil stands in for io/ioutil.
package simioutil

import (
	"io"
	"io/fs"
	"sort"

	"github.com/frk/gosql/zzsim/simos"
)

var Discard = io.Discard

func ReadAll(r io.Reader) ([]byte, error)               { return io.ReadAll(r) }
func NopCloser(r io.Reader) io.ReadCloser               { return io.NopCloser(r) }
func ReadFile(n string) ([]byte, error)                 { return simos.ReadFile(n) }
func WriteFile(n string, b []byte, p fs.FileMode) error { return simos.WriteFile(n, b, p) }
func TempFile(dir, pattern string) (*simos.File, error) { return simos.CreateTemp(dir, pattern) }
func TempDir(dir, pattern string) (string, error)       { return simos.MkdirTemp(dir, pattern) }
func ReadDir(dirname string) ([]fs.FileInfo, error) {
	l, err := simos.ReadDir(dirname)
	if err != nil {
		return nil, err
	}
	var out []fs.FileInfo
	for _, e := range l {
		i, err := e.Info()
		if err != nil {
			return nil, err
		}
		out = append(out, i)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out, nil
}
