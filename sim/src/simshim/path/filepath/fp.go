// Package filepath is path/filepath on the simulated file system.
package filepath

import (
	"io/fs"
	real "path/filepath"
	"simshim/os"
)

const (
	ListSeparator = real.ListSeparator
	Separator     = real.Separator
)

var (
	Base          = real.Base
	Clean         = real.Clean
	Dir           = real.Dir
	ErrBadPattern = real.ErrBadPattern
	Ext           = real.Ext
	FromSlash     = real.FromSlash
	IsAbs         = real.IsAbs
	IsLocal       = real.IsLocal
	Join          = real.Join
	Localize      = real.Localize
	Match         = real.Match
	Rel           = real.Rel
	SkipAll       = real.SkipAll
	SkipDir       = real.SkipDir
	Split         = real.Split
	SplitList     = real.SplitList
	ToSlash       = real.ToSlash
	VolumeName    = real.VolumeName
)

// WalkFunc is filepath.WalkFunc.
type WalkFunc = real.WalkFunc

// Abs is filepath.Abs.
func Abs(p string) (string, error) {
	if IsAbs(p) {
		return Clean(p), nil
	}
	wd, err := os.Getwd()
	return Join(wd, p), err
}

// EvalSymlinks: the simulated file system has no symbolic links.
func EvalSymlinks(p string) (string, error) {
	_, err := os.Lstat(p)
	return Clean(p), err
}

// Glob is filepath.Glob for patterns in the last element.
func Glob(pattern string) ([]string, error) {
	dir, pat := Split(pattern)
	if dir == "" {
		dir = "."
	}
	l, err := os.ReadDir(Clean(dir))
	if err != nil {
		return nil, nil
	}
	var out []string
	for _, e := range l {
		ok, err := Match(pat, e.Name())
		if err != nil {
			return nil, err
		}
		if ok {
			out = append(out, Join(dir, e.Name()))
		}
	}
	return out, nil
}

// WalkDir is filepath.WalkDir.
func WalkDir(root string, fn fs.WalkDirFunc) error {
	i, err := os.Lstat(root)
	if err != nil {
		return fn(root, nil, err)
	}
	return walk(root, fs.FileInfoToDirEntry(i), fn)
}

func walk(p string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(p, d, nil); err != nil || !d.IsDir() {
		if err == SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	l, err := os.ReadDir(p)
	if err != nil {
		return fn(p, d, err)
	}
	for _, e := range l {
		if err := walk(Join(p, e.Name()), e, fn); err != nil {
			if err == SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

// Walk is filepath.Walk.
func Walk(root string, fn WalkFunc) error {
	return WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		var i fs.FileInfo
		if d != nil {
			i, _ = d.Info()
		}
		return fn(p, i, err)
	})
}
