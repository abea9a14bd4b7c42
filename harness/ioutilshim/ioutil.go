// Package ioutil is io/ioutil over the in-memory file system.
package ioutil

import (
	"io"
	"io/fs"

	"github.com/rdimitrov/go-tuf-metadata/zzverif/osshim"
)

var Discard io.Writer = io.Discard

func ReadAll(r io.Reader) ([]byte, error)    { return io.ReadAll(r) }
func NopCloser(r io.Reader) io.ReadCloser    { return io.NopCloser(r) }
func ReadFile(name string) ([]byte, error)   { return os.ReadFile(name) }
func TempDir(d, p string) (string, error)    { return os.MkdirTemp(d, p) }
func TempFile(d, p string) (*os.File, error) { return os.CreateTemp(d, p) }
func WriteFile(name string, data []byte, perm fs.FileMode) error {
	return os.WriteFile(name, data, perm)
}
func ReadDir(name string) ([]fs.FileInfo, error) {
	l, err := os.ReadDir(name)
	if err != nil {
		return nil, err
	}
	var out []fs.FileInfo
	for _, e := range l {
		i, err := e.Info()
		if err != nil {
			return nil, err
		}
		out = append(out, i)
	}
	return out, nil
}
