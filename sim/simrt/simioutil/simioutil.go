// Package simioutil stands in for package io/ioutil.
package simioutil

import (
	"io"
	rioutil "io/ioutil"
	"os"

	rt "github.com/arl/go-detour/verifsimrt"
)

var Discard = rioutil.Discard

func ReadFile(name string) ([]byte, error) { return rt.ReadFile(name) }
func WriteFile(name string, data []byte, perm os.FileMode) error {
	return rt.WriteFile(name, data, perm)
}
func ReadAll(r io.Reader) ([]byte, error) { return rioutil.ReadAll(r) }
func NopCloser(r io.Reader) io.ReadCloser { return rioutil.NopCloser(r) }
func TempFile(dir, pattern string) (*rt.File, error) {
	return rt.OpenFile(rt.TempName(dir, pattern), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
}

func TempDir(dir, pattern string) (string, error) {
	n := rt.TempName(dir, pattern)
	return n, rt.Mkdir(n, 0700)
}
func ReadDir(name string) ([]os.FileInfo, error) {
	l, err := rt.ReadDir(name)
	var out []os.FileInfo
	for _, e := range l {
		fi, _ := e.Info()
		out = append(out, fi)
	}
	return out, err
}
