package os

import (
	"errors"
	"io"
	"io/fs"
	"path/filepath"
	"simfs"
	"simrt"
	"sort"
	"strings"
	"syscall"
	"time"
)

func fsys() *simfs.FS { return simfs.Current() }

func perr(op, path string, err error) error {
	if err == nil {
		return nil
	}
	return &PathError{Op: op, Path: path, Err: err}
}

// File is a simulated open file.
type File struct {
	name   string
	node   *simfs.Node
	off    int64
	flag   int
	closed bool
	std    bool
	dirPos int
	wrote  bool
}

// Standard streams discard their output.
var (
	Stdin  = &File{name: "/dev/stdin", std: true}
	Stdout = &File{name: "/dev/stdout", std: true}
	Stderr = &File{name: "/dev/stderr", std: true}
)

// OpenFile is os.OpenFile.
func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	f := fsys()
	if err, _ := f.Enter("open", name, flag); err != nil {
		return nil, perr("open", name, err)
	}
	n, err := f.Lookup(name)
	if err == syscall.ENOENT && flag&O_CREATE != 0 {
		d, b, perrr := f.Parent(name)
		if perrr != nil {
			return nil, perr("open", name, perrr)
		}
		if !f.IsRoot && d.Mode&0200 == 0 {
			return nil, perr("open", name, syscall.EACCES)
		}
		n = &simfs.Node{Mode: perm & 0777 &^ 022, Mtime: simrt.Now()}
		d.Kids[b] = n
	} else if err != nil {
		return nil, perr("open", name, err)
	} else {
		if flag&O_CREATE != 0 && flag&O_EXCL != 0 {
			return nil, perr("open", name, syscall.EEXIST)
		}
		if n.IsDir && flag&(O_WRONLY|O_RDWR) != 0 {
			return nil, perr("open", name, syscall.EISDIR)
		}
		if !f.IsRoot {
			if flag&(O_WRONLY|O_RDWR) != 0 && n.Mode&0200 == 0 || flag&O_WRONLY == 0 && n.Mode&0400 == 0 {
				return nil, perr("open", name, syscall.EACCES)
			}
		}
		if flag&O_TRUNC != 0 {
			n.Data = nil
		}
	}
	return &File{name: name, node: n, flag: flag}, nil
}

// Open is os.Open.
func Open(name string) (*File, error) { return OpenFile(name, O_RDONLY, 0) }

// Create is os.Create.
func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0666) }

// CreateTemp is os.CreateTemp.
func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = TempDir()
	}
	if strings.ContainsRune(pattern, PathSeparator) {
		return nil, perr("createtemp", pattern, errors.New("pattern contains path separator"))
	}
	pre, suf := pattern, ""
	if i := strings.LastIndex(pattern, "*"); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	for try := 0; ; try++ {
		f, err := OpenFile(filepath.Join(dir, pre+fsys().TmpName()+suf), O_RDWR|O_CREATE|O_EXCL, 0600)
		if err != nil && IsExist(err) && try < 1000 {
			continue
		}
		return f, err
	}
}

// MkdirTemp is os.MkdirTemp.
func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = TempDir()
	}
	pre, suf := pattern, ""
	if i := strings.LastIndex(pattern, "*"); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	p := filepath.Join(dir, pre+fsys().TmpName()+suf)
	return p, Mkdir(p, 0700)
}

func (f *File) check(op string) error {
	if f == nil {
		return ErrInvalid
	}
	if f.closed {
		return &PathError{Op: op, Path: f.name, Err: ErrClosed}
	}
	return nil
}

// Name is File.Name.
func (f *File) Name() string { return f.name }

// Fd is File.Fd.
func (f *File) Fd() uintptr { return 99 }

func (f *File) Read(b []byte) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if f.std {
		return 0, io.EOF
	}
	n, err := f.readAt(b, f.off)
	f.off += int64(n)
	return n, err
}

func (f *File) readAt(b []byte, off int64) (int, error) {
	s := fsys()
	if err, _ := s.Enter("read", f.name, len(b)); err != nil {
		return 0, perr("read", f.name, err)
	}
	if f.node.IsDir {
		return 0, perr("read", f.name, syscall.EISDIR)
	}
	if off >= int64(len(f.node.Data)) {
		if len(b) == 0 {
			return 0, nil
		}
		return 0, io.EOF
	}
	n := copy(b, f.node.Data[off:])
	if n > s.MaxChunk {
		n = s.MaxChunk
	}
	return n, nil
}

// ReadAt is File.ReadAt.
func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	t := 0
	for t < len(b) {
		n, err := f.readAt(b[t:], off+int64(t))
		t += n
		if err != nil {
			return t, err
		}
	}
	return t, nil
}

// Write is File.Write.
func (f *File) Write(b []byte) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	if f.std {
		return len(b), nil
	}
	if f.flag&(O_WRONLY|O_RDWR) == 0 {
		return 0, perr("write", f.name, syscall.EBADF)
	}
	t := 0
	for t < len(b) || t == 0 {
		if f.flag&O_APPEND != 0 {
			f.off = int64(len(f.node.Data))
		}
		c := b[t:]
		if m := fsys().MaxChunk; len(c) > m {
			c = c[:m]
		}
		f.wrote = true
		n, err := fsys().Write(f.name, f.node, int(f.off), c)
		f.off += int64(n)
		t += n
		if err != nil {
			return t, perr("write", f.name, err)
		}
		if len(b) == 0 {
			break
		}
	}
	return t, nil
}

// WriteString is File.WriteString.
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

// WriteAt is File.WriteAt.
func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	f.wrote = true
	n, err := fsys().Write(f.name, f.node, int(off), b)
	return n, perr("write", f.name, err)
}

// ReadFrom is File.ReadFrom.
func (f *File) ReadFrom(r io.Reader) (int64, error) {
	b, err := io.ReadAll(r)
	n, werr := f.Write(b)
	if err == nil {
		err = werr
	}
	return int64(n), err
}

// Seek is File.Seek.
func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.check("seek"); err != nil {
		return 0, err
	}
	switch whence {
	case 1:
		off += f.off
	case 2:
		off += int64(len(f.node.Data))
	}
	if off < 0 {
		return 0, perr("seek", f.name, syscall.EINVAL)
	}
	f.off = off
	return off, nil
}

// Truncate is File.Truncate.
func (f *File) Truncate(size int64) error {
	if err := f.check("truncate"); err != nil {
		return err
	}
	if err, _ := fsys().Enter("truncate", f.name, int(size)); err != nil {
		return perr("truncate", f.name, err)
	}
	trunc(f.node, size)
	return nil
}

func trunc(n *simfs.Node, size int64) {
	for int64(len(n.Data)) < size {
		n.Data = append(n.Data, 0)
	}
	n.Data = n.Data[:size:size]
}

// Sync is File.Sync.
func (f *File) Sync() error {
	if err := f.check("sync"); err != nil {
		return err
	}
	if f.std {
		return nil
	}
	err, _ := fsys().Enter("sync", f.name, 0)
	return perr("sync", f.name, err)
}

// Close is File.Close.
func (f *File) Close() error {
	if err := f.check("close"); err != nil {
		return err
	}
	f.closed = true
	if f.std {
		return nil
	}
	n := 0
	if f.wrote && f.node != nil {
		n = len(f.node.Data)
	}
	err, short := fsys().Enter("close", f.name, n)
	if err != nil && short >= 0 && short < n {
		// What was written late got lost.
		f.node.Data = f.node.Data[:short:short]
	}
	return perr("close", f.name, err)
}

// Stat is File.Stat.
func (f *File) Stat() (FileInfo, error) {
	if err := f.check("stat"); err != nil {
		return nil, err
	}
	if err, _ := fsys().Enter("stat", f.name, 0); err != nil {
		return nil, perr("stat", f.name, err)
	}
	return simfs.MakeInfo(filepath.Base(f.name), f.node), nil
}

// Chmod is File.Chmod.
func (f *File) Chmod(m FileMode) error {
	if err := f.check("chmod"); err != nil {
		return err
	}
	f.node.Mode = f.node.Mode&^0777 | m&0777
	return nil
}

// Chown is File.Chown.
func (f *File) Chown(u, g int) error { return nil }

// SetDeadline is File.SetDeadline.
func (f *File) SetDeadline(t time.Time) error { return ErrNoDeadline }

// ReadDir is File.ReadDir.
func (f *File) ReadDir(n int) ([]DirEntry, error) { return ReadDir(f.name) }

// Readdirnames is File.Readdirnames.
func (f *File) Readdirnames(n int) ([]string, error) {
	l, err := ReadDir(f.name)
	var out []string
	for _, e := range l {
		out = append(out, e.Name())
	}
	return out, err
}

// Readdir is File.Readdir.
func (f *File) Readdir(n int) ([]FileInfo, error) {
	l, err := ReadDir(f.name)
	var out []FileInfo
	for _, e := range l {
		i, _ := e.Info()
		out = append(out, i)
	}
	return out, err
}

// Stat is os.Stat.
func Stat(name string) (FileInfo, error) {
	f := fsys()
	if err, _ := f.Enter("stat", name, 0); err != nil {
		return nil, perr("stat", name, err)
	}
	n, err := f.Lookup(name)
	if err != nil {
		return nil, perr("stat", name, err)
	}
	return simfs.MakeInfo(filepath.Base(name), n), nil
}

// Lstat is os.Lstat.
func Lstat(name string) (FileInfo, error) { return Stat(name) }

// Mkdir is os.Mkdir.
func Mkdir(name string, perm FileMode) error {
	f := fsys()
	if err, _ := f.Enter("mkdir", name, 0); err != nil {
		return perr("mkdir", name, err)
	}
	d, b, err := f.Parent(name)
	if err != nil {
		return perr("mkdir", name, err)
	}
	if d.Kids[b] != nil || b == "/" {
		return perr("mkdir", name, syscall.EEXIST)
	}
	d.Kids[b] = &simfs.Node{IsDir: true, Mode: fs.ModeDir | perm&0777&^022, Kids: map[string]*simfs.Node{}, Mtime: simrt.Now()}
	return nil
}

// MkdirAll is os.MkdirAll.
func MkdirAll(path string, perm FileMode) error {
	if i, err := Stat(path); err == nil {
		if i.IsDir() {
			return nil
		}
		return perr("mkdir", path, syscall.ENOTDIR)
	}
	if p := filepath.Dir(fsys().Abs(path)); p != "/" {
		if err := MkdirAll(p, perm); err != nil {
			return err
		}
	}
	err := Mkdir(path, perm)
	if err != nil {
		if i, e2 := Stat(path); e2 == nil && i.IsDir() {
			return nil
		}
	}
	return err
}

// Remove is os.Remove.
func Remove(name string) error {
	f := fsys()
	if err, _ := f.Enter("remove", name, 0); err != nil {
		return perr("remove", name, err)
	}
	d, b, err := f.Parent(name)
	if err != nil {
		return perr("remove", name, err)
	}
	n := d.Kids[b]
	if n == nil {
		return perr("remove", name, syscall.ENOENT)
	}
	if n.IsDir && len(n.Kids) > 0 {
		return perr("remove", name, syscall.ENOTEMPTY)
	}
	delete(d.Kids, b)
	return nil
}

// RemoveAll is os.RemoveAll.
func RemoveAll(name string) error {
	f := fsys()
	if err, _ := f.Enter("removeall", name, 0); err != nil {
		return perr("removeall", name, err)
	}
	d, b, err := f.Parent(name)
	if err != nil {
		return nil
	}
	delete(d.Kids, b)
	return nil
}

// Rename is os.Rename.
func Rename(o, n string) error {
	f := fsys()
	le := func(err error) error { return &LinkError{Op: "rename", Old: o, New: n, Err: err} }
	if err, _ := f.Enter("rename", o, 0); err != nil {
		return le(err)
	}
	d1, b1, err := f.Parent(o)
	if err != nil {
		return le(err)
	}
	d2, b2, err := f.Parent(n)
	if err != nil {
		return le(err)
	}
	x := d1.Kids[b1]
	if x == nil {
		return le(syscall.ENOENT)
	}
	if y := d2.Kids[b2]; y != nil && y.IsDir != x.IsDir {
		if y.IsDir {
			return le(syscall.EISDIR)
		}
		return le(syscall.ENOTDIR)
	}
	f.Enter("renamed", n, 0)
	delete(d1.Kids, b1)
	d2.Kids[b2] = x
	return nil
}

// Link is os.Link.
func Link(o, n string) error {
	f := fsys()
	le := func(err error) error { return &LinkError{Op: "link", Old: o, New: n, Err: err} }
	if err, _ := f.Enter("link", o, 0); err != nil {
		return le(err)
	}
	x, err := f.Lookup(o)
	if err != nil {
		return le(err)
	}
	d2, b2, err := f.Parent(n)
	if err != nil {
		return le(err)
	}
	if d2.Kids[b2] != nil {
		return le(syscall.EEXIST)
	}
	d2.Kids[b2] = x
	return nil
}

// Symlink is not supported by the simulated file system.
func Symlink(o, n string) error {
	return &LinkError{Op: "symlink", Old: o, New: n, Err: syscall.ENOSYS}
}

// Truncate is os.Truncate.
func Truncate(name string, size int64) error {
	f := fsys()
	if err, _ := f.Enter("truncate", name, int(size)); err != nil {
		return perr("truncate", name, err)
	}
	n, err := f.Lookup(name)
	if err != nil {
		return perr("truncate", name, err)
	}
	trunc(n, size)
	return nil
}

// Chmod is os.Chmod.
func Chmod(name string, m FileMode) error {
	f := fsys()
	if err, _ := f.Enter("chmod", name, int(m)); err != nil {
		return perr("chmod", name, err)
	}
	n, err := f.Lookup(name)
	if err != nil {
		return perr("chmod", name, err)
	}
	n.Mode = n.Mode&^0777 | m&0777
	return nil
}

// Chown is os.Chown.
func Chown(name string, u, g int) error { return nil }

// Chtimes is os.Chtimes.
func Chtimes(name string, a, m time.Time) error { _, err := Stat(name); return err }

// ReadFile is os.ReadFile: open, stat, reads until end of file, close.
func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var out []byte
	buf := make([]byte, 512)
	for {
		n, err := f.Read(buf)
		out = append(out, buf[:n]...)
		if err != nil {
			if err == io.EOF {
				err = nil
			}
			return out, err
		}
	}
}

// WriteFile is os.WriteFile: open with truncation, write, close.
func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

// ReadDir is os.ReadDir.
func ReadDir(name string) ([]DirEntry, error) {
	f := fsys()
	if err, _ := f.Enter("readdir", name, 0); err != nil {
		return nil, perr("readdir", name, err)
	}
	n, err := f.Lookup(name)
	if err != nil {
		return nil, perr("open", name, err)
	}
	if !n.IsDir {
		return nil, perr("readdirent", name, syscall.ENOTDIR)
	}
	var out []DirEntry
	for _, k := range n.Names() {
		out = append(out, simfs.MakeInfo(k, n.Kids[k]))
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out, nil
}

// SameFile is os.SameFile.
func SameFile(a, b FileInfo) bool {
	x, ok1 := a.(simfs.Info)
	y, ok2 := b.(simfs.Info)
	return ok1 && ok2 && x.No == y.No
}

// Getwd is os.Getwd.
func Getwd() (string, error) { return fsys().Cwd, nil }

// TempDir is os.TempDir.
func TempDir() string { return "/tmp" }

// Executable is os.Executable.
func Executable() (string, error) {
	return (&simfs.FS{Cwd: fsys().Cwd}).Abs(Args[0]), nil
}

// Args is os.Args.
var Args = []string{"/cwd/server"}

// Exit ends the simulated process.
func Exit(code int) { simrt.Fatal("os.Exit(%d) called", code); panic("os.Exit") }

// Getpid is os.Getpid.
func Getpid() int { return 4242 }

// Getuid is os.Getuid.
func Getuid() int {
	if fsys().IsRoot {
		return 0
	}
	return 1000
}

// Hostname is os.Hostname.
func Hostname() (string, error) { return "sim", nil }
