// Package ioutil replaces io/ioutil in the rewritten code.
package ioutil

import (
	"io/fs"
	"sort"

	vos "verif/shim/os"
)

func ReadDir(dir string) ([]fs.FileInfo, error) {
	entries, err := vos.ReadDir(dir)
	list := make([]fs.FileInfo, 0, len(entries))
	if err != nil {
		return nil, err
	}
	for _, e := range entries {
		info, err := e.Info()
		if err != nil {
			return nil, err
		}
		list = append(list, info)
	}
	sort.Slice(list, func(i, j int) bool { return list[i].Name() < list[j].Name() })
	return list, nil
}
func ReadFile(a string) ([]byte, error)                 { return vos.ReadFile(a) }
func WriteFile(a string, b []byte, m fs.FileMode) error { return vos.WriteFile(a, b, m) }
func TempFile(dir, pattern string) (*vos.File, error)   { return vos.CreateTemp(dir, pattern) }
func TempDir(dir, pattern string) (string, error)       { return vos.MkdirTemp(dir, pattern) }
