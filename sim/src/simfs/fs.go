// Package simfs is an in-memory file system with fault injection and process
// kill points. Every operation is a scheduling point.
package simfs

import (
	"io/fs"
	"path/filepath"
	"simrt"
	"sort"
	"strings"
	"syscall"
	"time"
)

// Node is a file or directory.
type Node struct {
	IsDir bool
	Mode  fs.FileMode
	Data  []byte
	Kids  map[string]*Node
	Mtime int64
}

// FS is a simulated file system.
type FS struct {
	Root *Node
	Cwd  string
	// IsRoot: permission bits are ignored (uid 0).
	IsRoot bool
	// Fault is asked before every operation; it may return an error, or for
	// writes a number of bytes (>=0) after which the write fails with err.
	Fault func(op, path string, n int) (errno error, short int)
	// KillAt kills group Victim when the operation counter reaches it (0: never).
	KillAt  int
	Victim  *simrt.Group
	TornLen func(n int) int
	Killed  bool
	Ops     int
	Log     []string
	// Escapes lists touched paths outside AllowedDir.
	AllowedDir string
	Escapes    []string
	Injected   map[string]int
	tmpN       int
	MaxChunk   int
}

// New makes an empty file system.
func New() *FS {
	f := &FS{Root: &Node{IsDir: true, Mode: 0755 | fs.ModeDir, Kids: map[string]*Node{}}, Cwd: "/cwd",
		IsRoot: true, Injected: map[string]int{}, MaxChunk: 1 << 20}
	f.mk("/cwd")
	f.mk("/tmp")
	f.mk("/data")
	f.mk("/srv")
	return f
}

func (f *FS) mk(p string) {
	f.Root.Kids[p[1:]] = &Node{IsDir: true, Mode: 0755 | fs.ModeDir, Kids: map[string]*Node{}}
}

// Current returns the file system of the run (creating one if needed).
func Current() *FS {
	if x, ok := simrt.FS().(*FS); ok && x != nil {
		return x
	}
	f := New()
	if simrt.Active() {
		simrt.SetFS(f)
	}
	return f
}

// Abs makes p absolute and clean.
func (f *FS) Abs(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = f.Cwd + "/" + p
	}
	return filepath.Clean(p)
}

// Enter is called before every operation.
func (f *FS) Enter(op, path string, n int) (error, int) {
	simrt.Yield()
	f.Ops++
	p := f.Abs(path)
	if f.AllowedDir != "" && p != f.AllowedDir && !strings.HasPrefix(p, f.AllowedDir+"/") &&
		!(op == "mkdir" || op == "stat" && strings.HasPrefix(f.AllowedDir, p)) {
		f.Escapes = append(f.Escapes, op+" "+p)
	}
	simrt.Note("fs %s %s %d", op, p, n)
	if f.KillAt > 0 && f.Ops == f.KillAt && f.Victim != nil && !f.Killed {
		f.Killed = true
		torn := -1
		if op == "write" && f.TornLen != nil {
			torn = f.TornLen(n)
		}
		if torn > 0 {
			return errKill, torn
		}
		simrt.Kill(f.Victim)
	}
	if f.Fault != nil {
		if err, short := f.Fault(op, p, n); err != nil {
			f.Injected[op]++
			simrt.Note("fs fault %s %s: %v", op, p, err)
			return err, short
		}
	}
	return nil, -1
}

type killErr struct{}

func (killErr) Error() string { return "killed" }

var errKill error = killErr{}

func (f *FS) walk(p string) (*Node, error) {
	n := f.Root
	if p == "/" {
		return n, nil
	}
	for _, part := range strings.Split(p[1:], "/") {
		if !n.IsDir {
			return nil, syscall.ENOTDIR
		}
		if !f.IsRoot && n.Mode&0100 == 0 {
			return nil, syscall.EACCES
		}
		if len(part) > 255 {
			return nil, syscall.ENAMETOOLONG
		}
		k := n.Kids[part]
		if k == nil {
			return nil, syscall.ENOENT
		}
		n = k
	}
	return n, nil
}

// Lookup finds a node without side effects.
func (f *FS) Lookup(path string) (*Node, error) {
	if strings.IndexByte(path, 0) >= 0 {
		return nil, syscall.EINVAL
	}
	if path == "" {
		return nil, syscall.ENOENT
	}
	if strings.HasSuffix(path, "/") {
		n, err := f.walk(f.Abs(path))
		if err == nil && !n.IsDir {
			return nil, syscall.ENOTDIR
		}
		return n, err
	}
	return f.walk(f.Abs(path))
}

// Parent finds the directory of path and the last element.
func (f *FS) Parent(path string) (*Node, string, error) {
	if strings.IndexByte(path, 0) >= 0 {
		return nil, "", syscall.EINVAL
	}
	if path == "" {
		return nil, "", syscall.ENOENT
	}
	p := f.Abs(path)
	d, err := f.walk(filepath.Dir(p))
	if err != nil {
		return nil, "", err
	}
	if !d.IsDir {
		return nil, "", syscall.ENOTDIR
	}
	b := filepath.Base(p)
	if len(b) > 255 {
		return nil, "", syscall.ENAMETOOLONG
	}
	if !f.IsRoot && d.Mode&0100 == 0 {
		return nil, "", syscall.EACCES
	}
	return d, b, nil
}

// Clone copies the tree (what survives a kill).
func (n *Node) Clone() *Node {
	c := *n
	c.Data = append([]byte(nil), n.Data...)
	if n.Kids != nil {
		c.Kids = map[string]*Node{}
		for k, v := range n.Kids {
			c.Kids[k] = v.Clone()
		}
	}
	return &c
}

// Names lists a directory, sorted.
func (n *Node) Names() []string {
	var out []string
	for k := range n.Kids {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// TmpName returns a fresh temporary-name suffix.
func (f *FS) TmpName() string {
	f.tmpN++
	const d = "0123456789"
	s := ""
	for x := uint32(f.tmpN)*2654435761 + 17; x > 0; x /= 10 {
		s += string(d[x%10])
	}
	return s
}

// Info is a FileInfo.
type Info struct {
	N  string
	No *Node
	Sz int64
	Md fs.FileMode
	Mt int64
}

func (i Info) Name() string       { return i.N }
func (i Info) Size() int64        { return i.Sz }
func (i Info) Mode() fs.FileMode  { return i.Md }
func (i Info) ModTime() time.Time { return time.Unix(1_600_000_000, i.Mt).UTC() }
func (i Info) IsDir() bool        { return i.Md.IsDir() }
func (i Info) Sys() any           { return nil }

// Type and Info implement DirEntry.
func (i Info) Type() fs.FileMode          { return i.Md.Type() }
func (i Info) Info() (fs.FileInfo, error) { return i, nil }

// MakeInfo describes a node.
func MakeInfo(name string, n *Node) Info {
	return Info{N: name, No: n, Sz: int64(len(n.Data)), Md: n.Mode, Mt: n.Mtime}
}

// Write performs a write at off with faults and torn kills applied.
func (f *FS) Write(path string, n *Node, off int, b []byte) (int, error) {
	err, short := f.Enter("write", path, len(b))
	put := func(b []byte) {
		for len(n.Data) < off+len(b) {
			n.Data = append(n.Data, 0)
		}
		copy(n.Data[off:], b)
		n.Mtime = simrt.Now()
	}
	if err == errKill {
		put(b[:short])
		simrt.Kill(f.Victim)
		return 0, syscall.EIO
	}
	if err != nil {
		if short > 0 {
			if short > len(b) {
				short = len(b)
			}
			put(b[:short])
			return short, err
		}
		return 0, err
	}
	put(b)
	return len(b), nil
}
