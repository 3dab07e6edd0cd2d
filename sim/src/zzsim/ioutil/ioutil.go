// Package ioutil is a drop-in replacement backed by the simulated os package.
package ioutil

import (
	"io"
	"io/fs"

	"github.com/KarmaPenny/pdfparser/zzsim/os"
)

var Discard = io.Discard

func NopCloser(r io.Reader) io.ReadCloser  { return io.NopCloser(r) }
func ReadAll(r io.Reader) ([]byte, error)  { return io.ReadAll(r) }
func ReadFile(name string) ([]byte, error) { return os.ReadFile(name) }
func WriteFile(name string, data []byte, perm fs.FileMode) error {
	return os.WriteFile(name, data, perm)
}
func TempFile(dir, pattern string) (*os.File, error) { return os.CreateTemp(dir, pattern) }
func TempDir(dir, pattern string) (string, error)    { return os.MkdirTemp(dir, pattern) }
func ReadDir(dir string) ([]fs.FileInfo, error) {
	es, err := os.ReadDir(dir)
	var out []fs.FileInfo
	for _, e := range es {
		i, _ := e.Info()
		out = append(out, i)
	}
	return out, err
}
