// Package filepath is path/filepath over the in-memory file system.
package filepath

import (
	"io/fs"
	"path/filepath"

	"github.com/rdimitrov/go-tuf-metadata/zzverif/osshim"
)

const (
	Separator     = filepath.Separator
	ListSeparator = filepath.ListSeparator
)

var (
	ErrBadPattern = filepath.ErrBadPattern
	SkipDir       = filepath.SkipDir
	SkipAll       = filepath.SkipAll
)

type WalkFunc = filepath.WalkFunc

func Base(p string) string                     { return filepath.Base(p) }
func Clean(p string) string                    { return filepath.Clean(p) }
func Dir(p string) string                      { return filepath.Dir(p) }
func Ext(p string) string                      { return filepath.Ext(p) }
func FromSlash(p string) string                { return filepath.FromSlash(p) }
func ToSlash(p string) string                  { return filepath.ToSlash(p) }
func HasPrefix(p, prefix string) bool          { return len(p) >= len(prefix) && p[:len(prefix)] == prefix }
func IsAbs(p string) bool                      { return filepath.IsAbs(p) }
func IsLocal(p string) bool                    { return filepath.IsLocal(p) }
func Join(e ...string) string                  { return filepath.Join(e...) }
func Match(pattern, name string) (bool, error) { return filepath.Match(pattern, name) }
func Rel(a, b string) (string, error)          { return filepath.Rel(a, b) }
func Split(p string) (string, string)          { return filepath.Split(p) }
func SplitList(p string) []string              { return filepath.SplitList(p) }
func VolumeName(p string) string               { return "" }
func Localize(p string) (string, error) {
	if !fs.ValidPath(p) {
		return "", fs.ErrInvalid
	}
	return p, nil
}

func Abs(p string) (string, error) {
	if filepath.IsAbs(p) {
		return filepath.Clean(p), nil
	}
	wd, err := os.Getwd()
	if err != nil {
		return "", err
	}
	return filepath.Join(wd, p), nil
}

func EvalSymlinks(p string) (string, error) {
	if _, err := os.Lstat(p); err != nil {
		return "", err
	}
	return filepath.Clean(p), nil
}

func Glob(pattern string) ([]string, error) {
	if _, err := filepath.Match(pattern, ""); err != nil {
		return nil, err
	}
	dir := filepath.Dir(pattern)
	l, err := os.ReadDir(dir)
	if err != nil {
		return nil, nil
	}
	var out []string
	for _, e := range l {
		p := filepath.Join(dir, e.Name())
		if ok, _ := filepath.Match(pattern, p); ok {
			out = append(out, p)
		}
	}
	return out, nil
}

func Walk(root string, fn WalkFunc) error {
	return WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if d == nil {
			return fn(p, nil, err)
		}
		i, _ := d.Info()
		return fn(p, i, err)
	})
}

func WalkDir(root string, fn fs.WalkDirFunc) error {
	i, err := os.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, fs.FileInfoToDirEntry(i), fn)
	}
	if err == SkipDir || err == SkipAll {
		return nil
	}
	return err
}

func walk(p string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(p, d, nil); err != nil || !d.IsDir() {
		if err == SkipDir && d.IsDir() {
			return nil
		}
		return err
	}
	l, err := os.ReadDir(p)
	if err != nil {
		return fn(p, d, err)
	}
	for _, e := range l {
		if err := walk(filepath.Join(p, e.Name()), e, fn); err != nil {
			if err == SkipDir {
				return nil
			}
			return err
		}
	}
	return nil
}
