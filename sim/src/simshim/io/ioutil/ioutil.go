// Package ioutil is the simulated io/ioutil.
package ioutil

import (
	real "io/ioutil"
	"simshim/os"
)

var (
	Discard   = real.Discard
	NopCloser = real.NopCloser
	ReadAll   = real.ReadAll
	ReadFile  = os.ReadFile
	WriteFile = os.WriteFile
)

// ReadDir is ioutil.ReadDir.
func ReadDir(dir string) ([]os.FileInfo, error) {
	l, err := os.ReadDir(dir)
	var out []os.FileInfo
	for _, e := range l {
		i, _ := e.Info()
		out = append(out, i)
	}
	return out, err
}

// TempFile is ioutil.TempFile.
func TempFile(dir, pattern string) (*os.File, error) { return os.CreateTemp(dir, pattern) }

// TempDir is ioutil.TempDir.
func TempDir(dir, pattern string) (string, error) { return os.MkdirTemp(dir, pattern) }
