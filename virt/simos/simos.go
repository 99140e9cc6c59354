// Package simos stands in for package os in the tool. It works on real files
// below a scratch directory, asks the simulation before every operation for a
// fault or a crash, and keeps what would survive a loss of power: the content
// of a file is durable once it was synced (a synced file's directory entry
// too, as on journaling file systems).
package simos

import (
	"bytes"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/frk/gosql/zzsim/rt"
)

// Op is one operation of the program on its operating system.
type Op struct {
	Kind string // open create opentrunc openwrite read readdir write sync close remove rename stat chdir mkdir truncate ...
	Path string
	Len  int // bytes of a write
}

// Mutates says whether the operation changes the file system.
func (o Op) Mutates() bool {
	switch o.Kind {
	case "create", "opentrunc", "openwrite", "write", "sync", "remove", "rename", "mkdir", "truncate", "link", "chmod":
		return true
	}
	return false
}

// Fault is what the simulation decides about an operation.
type Fault struct {
	Err   error
	Short int  // bytes of a failing write that reach the file
	Crash bool // the machine stops before the operation (after Short bytes of a write)
}

// Crashed is the panic by which a simulated crash unwinds the program.
type Crashed struct{}

// ExitPanic is the panic by which os.Exit unwinds the program.
type ExitPanic struct{ Code int }

var (
	On     bool
	Root   string // mutations below Root only
	Decide func(op Op) Fault
	// Events of the current simulated process.
	Dead     bool
	Outside  []string // refused operations
	Mutated  map[string]bool
	dirty    map[string]*durable // files whose durable content differs from what is visible, or may
	handles  []*File
	cwd      string
	StderrTo bytes.Buffer
	StdoutTo bytes.Buffer
	Shuffle  bool
	OnExit   func()
)

type durable struct {
	exists bool
	data   []byte
	// only the name is not durable: old or new, nothing in between
	atomic bool
}

// Begin starts a simulated process; dir is its working directory.
func Begin(root, dir string) {
	On, Dead, Root = true, false, root
	Outside, Mutated = nil, map[string]bool{}
	if dirty == nil {
		dirty = map[string]*durable{}
	}
	handles = nil
	StderrTo.Reset()
	StdoutTo.Reset()
	cwd = dir
	_ = os.Chdir(dir)
}

// End ends the process and closes what it left open.
func End() {
	On = false
	for _, h := range handles {
		if h.f != nil {
			_ = h.f.Close()
		}
	}
	handles = nil
}

// OpenHandles counts the files that are open.
func OpenHandles() int {
	n := 0
	for _, h := range handles {
		if h.f != nil && !h.std {
			n++
		}
	}
	return n
}

// Forget makes everything visible durable (a new run).
func Forget() { dirty = map[string]*durable{} }

// Dirty lists the files whose visible content is not yet durable.
func Dirty() []string {
	var out []string
	for p, d := range dirty {
		if d.atomic {
			continue
		}
		b, err := os.ReadFile(p)
		if (err == nil) != d.exists || err == nil && !bytes.Equal(b, d.data) {
			out = append(out, p)
		}
	}
	sort.Strings(out)
	return out
}

// PowerLoss replaces the visible content of every dirty file by something a
// disk could hold afterwards. pick(n) draws.
func PowerLoss(pick func(n int) int) []string {
	var names, log []string
	for p := range dirty {
		names = append(names, p)
	}
	sort.Strings(names)
	for _, p := range names {
		d := dirty[p]
		cur, err := os.ReadFile(p)
		put := func(b []byte, what string) {
			_ = os.WriteFile(p, b, 0o644)
			log = append(log, filepath.Base(p)+": "+what)
		}
		n := 5
		if d.atomic {
			n = 2
		}
		switch pick(n) {
		case 0: // as seen
			log = append(log, filepath.Base(p)+": kept")
		case 1: // as last synced
			if d.exists {
				put(d.data, "as last synced")
			} else {
				_ = os.Remove(p)
				log = append(log, filepath.Base(p)+": gone")
			}
		case 2: // size without data
			if err == nil {
				put(make([]byte, len(cur)), "zeros")
			}
		case 3: // torn
			if err == nil && len(cur) > 0 {
				n := pick(len(cur))
				put(append([]byte{}, cur[:n]...), "torn")
			}
		case 4:
			if err == nil {
				put(nil, "empty")
			}
		}
	}
	Forget()
	return log
}

func abs(p string) string {
	if filepath.IsAbs(p) {
		return filepath.Clean(p)
	}
	return filepath.Join(cwd, p)
}

// deref resolves symbolic links of the directory part, so that no link leads
// a change out of the scratch directory.
func inside(p string) bool {
	p = abs(p)
	dir, err := filepath.EvalSymlinks(filepath.Dir(p))
	if err != nil {
		dir = filepath.Dir(p)
	}
	q := filepath.Join(dir, filepath.Base(p))
	if r, err := filepath.EvalSymlinks(q); err == nil {
		q = r
	}
	root, err := filepath.EvalSymlinks(Root)
	if err != nil {
		return false
	}
	return Root != "" && strings.HasPrefix(q, root+"/")
}

func perr(kind, path string, err error) error {
	return &fs.PathError{Op: kind, Path: path, Err: err}
}

// ask consults the simulation. The returned Fault has Err set when the
// operation must not be carried out.
func ask(kind, path string, n int) Fault {
	if !On {
		return Fault{}
	}
	op := Op{Kind: kind, Path: abs(path), Len: n}
	if Dead {
		return Fault{Err: syscall.EIO}
	}
	if op.Mutates() && kind != "write" && kind != "sync" {
		if !inside(op.Path) {
			Outside = append(Outside, kind+" "+op.Path)
			return Fault{Err: syscall.EPERM}
		}
		Mutated[op.Path] = true
	}
	var f Fault
	if Decide != nil {
		f = Decide(op)
	}
	if f.Crash && kind != "write" {
		Dead = true
		panic(Crashed{})
	}
	return f
}

// snap remembers the durable content of a file before its first change.
func snap(path string) {
	if !On {
		return
	}
	p := abs(path)
	if d, ok := dirty[p]; ok {
		d.atomic = false
		return
	}
	b, err := os.ReadFile(p)
	dirty[p] = &durable{exists: err == nil, data: b}
}

// ---- files ----

// File stands in for os.File.
type File struct {
	f     *os.File
	path  string
	sync_ bool // opened with O_SYNC
	std   bool
	buf   *bytes.Buffer
	names []string
}

var (
	Stdin  = &File{f: os.Stdin, path: "/dev/stdin", std: true}
	Stdout = &File{path: "/dev/stdout", std: true, buf: &StdoutTo}
	Stderr = &File{path: "/dev/stderr", std: true, buf: &StderrTo}
	Args   = append([]string(nil), os.Args...)
)

func Exit(code int) {
	if !On {
		os.Exit(code)
	}
	if OnExit != nil {
		OnExit()
	}
	Dead = true // deferred functions do not run in reality
	panic(ExitPanic{code})
}

func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}

func OpenFile(name string, flag int, perm os.FileMode) (*File, error) {
	kind := "open"
	write := flag&(os.O_WRONLY|os.O_RDWR) != 0 || flag&(os.O_CREATE|os.O_TRUNC) != 0
	switch {
	case !write:
	case flag&os.O_TRUNC != 0 && flag&os.O_CREATE != 0:
		kind = "create"
	case flag&os.O_TRUNC != 0:
		kind = "opentrunc"
	default:
		kind = "openwrite"
	}
	if ft := ask(kind, name, 0); ft.Err != nil {
		return nil, perr("open", name, ft.Err)
	}
	if write {
		snap(name)
	}
	f, err := os.OpenFile(name, flag, perm)
	if err != nil {
		return nil, err
	}
	h := &File{f: f, path: name, sync_: flag&os.O_SYNC != 0}
	if On {
		h.path = abs(name)
	}
	handles = append(handles, h)
	return h, nil
}

func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = os.TempDir()
	}
	if ft := ask("create", filepath.Join(dir, pattern), 0); ft.Err != nil {
		return nil, perr("open", filepath.Join(dir, pattern), ft.Err)
	}
	f, err := os.CreateTemp(dir, pattern)
	if err != nil {
		return nil, err
	}
	if On {
		dirty[abs(f.Name())] = &durable{}
		Mutated[abs(f.Name())] = true
	}
	h := &File{f: f, path: f.Name()}
	handles = append(handles, h)
	return h, nil
}

func (f *File) Name() string {
	if f.f != nil {
		return f.f.Name()
	}
	return f.path
}

func (f *File) Write(b []byte) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	if f.buf != nil {
		if !Dead {
			f.buf.Write(b)
		}
		return len(b), nil
	}
	if f.f == nil {
		return 0, perr("write", f.path, os.ErrClosed)
	}
	ft := ask("write", f.path, len(b))
	if ft.Crash || ft.Err != nil {
		n := ft.Short
		if n > len(b) {
			n = len(b)
		}
		if n > 0 && !Dead {
			n, _ = f.f.Write(b[:n])
		}
		if ft.Crash {
			Dead = true
			panic(Crashed{})
		}
		return n, perr("write", f.path, ft.Err)
	}
	n, err := f.f.Write(b)
	if err == nil && f.sync_ {
		f.settle()
	}
	return n, err
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if f.f == nil {
		return 0, perr("write", f.path, os.ErrClosed)
	}
	ft := ask("write", f.path, len(b))
	if ft.Crash {
		Dead = true
		panic(Crashed{})
	}
	if ft.Err != nil {
		return 0, perr("write", f.path, ft.Err)
	}
	return f.f.WriteAt(b, off)
}

func (f *File) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{f}, r)
}

func (f *File) Read(b []byte) (int, error) {
	if f == nil || f.f == nil {
		return 0, os.ErrInvalid
	}
	if f.std {
		return f.f.Read(b)
	}
	if ft := ask("read", f.path, 0); ft.Err != nil {
		return 0, perr("read", f.path, ft.Err)
	}
	return f.f.Read(b)
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if ft := ask("read", f.path, 0); ft.Err != nil {
		return 0, perr("read", f.path, ft.Err)
	}
	return f.f.ReadAt(b, off)
}

func (f *File) Seek(off int64, whence int) (int64, error) { return f.f.Seek(off, whence) }

// settle makes the visible content durable.
func (f *File) settle() {
	if On {
		delete(dirty, abs(f.path))
	}
}

func (f *File) Sync() error {
	if f.f == nil {
		return perr("sync", f.path, os.ErrClosed)
	}
	if ft := ask("sync", f.path, 0); ft.Err != nil {
		return perr("sync", f.path, ft.Err)
	}
	f.settle()
	return nil
}

func (f *File) Close() error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.f == nil {
		if f.buf != nil {
			return nil
		}
		return perr("close", f.path, os.ErrClosed)
	}
	ft := ask("close", f.path, 0)
	err := f.f.Close()
	f.f = nil
	if ft.Err != nil {
		return perr("close", f.path, ft.Err)
	}
	return err
}

func (f *File) Stat() (os.FileInfo, error) {
	if ft := ask("stat", f.path, 0); ft.Err != nil {
		return nil, perr("stat", f.path, ft.Err)
	}
	return f.f.Stat()
}

func (f *File) Truncate(n int64) error {
	if ft := ask("truncate", f.path, 0); ft.Err != nil {
		return perr("truncate", f.path, ft.Err)
	}
	snap(f.path)
	return f.f.Truncate(n)
}

func (f *File) Chmod(m os.FileMode) error { return f.f.Chmod(m) }
func (f *File) Fd() uintptr               { return f.f.Fd() }

func (f *File) SetDeadline(t time.Time) error { return f.f.SetDeadline(t) }

func order[T any](l []T, name func(T) string) []T {
	sort.Slice(l, func(i, j int) bool { return name(l[i]) < name(l[j]) })
	if On && Shuffle {
		rt.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	}
	return l
}

func (f *File) Readdir(n int) ([]os.FileInfo, error) {
	ft := ask("readdir", f.path, 0)
	l, err := f.f.Readdir(n)
	l = order(l, os.FileInfo.Name)
	if ft.Err != nil {
		return part(l), perr("readdirent", f.path, ft.Err)
	}
	return l, err
}

func (f *File) Readdirnames(n int) ([]string, error) {
	ft := ask("readdir", f.path, 0)
	l, err := f.f.Readdirnames(n)
	l = order(l, func(s string) string { return s })
	if ft.Err != nil {
		return part(l), perr("readdirent", f.path, ft.Err)
	}
	return l, err
}

func (f *File) ReadDir(n int) ([]os.DirEntry, error) {
	ft := ask("readdir", f.path, 0)
	l, err := f.f.ReadDir(n)
	l = order(l, os.DirEntry.Name)
	if ft.Err != nil {
		return part(l), perr("readdirent", f.path, ft.Err)
	}
	return l, err
}

// ---- functions ----

// part is what was read of a directory before the failure.
func part[T any](l []T) []T {
	n := rt.Draw(len(l) + 2)
	if n > len(l) {
		n = len(l)
	}
	return l[:n]
}

func ReadDir(name string) ([]os.DirEntry, error) {
	if ft := ask("readdir", name, 0); ft.Err != nil {
		return nil, perr("open", name, ft.Err)
	}
	return os.ReadDir(name) // sorted by name
}

func ReadFile(name string) ([]byte, error) {
	if ft := ask("open", name, 0); ft.Err != nil {
		return nil, perr("open", name, ft.Err)
	}
	if ft := ask("read", name, 0); ft.Err != nil {
		return nil, perr("read", name, ft.Err)
	}
	return os.ReadFile(name)
}

func WriteFile(name string, data []byte, perm os.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func Remove(name string) error {
	if ft := ask("remove", name, 0); ft.Err != nil {
		return perr("remove", name, ft.Err)
	}
	snap(name)
	return os.Remove(name)
}

func RemoveAll(name string) error {
	if ft := ask("remove", name, 0); ft.Err != nil {
		return perr("unlinkat", name, ft.Err)
	}
	snap(name)
	return os.RemoveAll(name)
}

func Rename(a, b string) error {
	ft := ask("rename", a, 0)
	if ft.Err == nil && On && !inside(b) {
		Outside = append(Outside, "rename to "+abs(b))
		ft.Err = syscall.EPERM
	}
	if ft.Err != nil {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: ft.Err}
	}
	if On {
		pa, pb := abs(a), abs(b)
		Mutated[pb] = true
		if da, unsynced := dirty[pa]; unsynced {
			snap(b)
			delete(dirty, pa)
			if da.exists { // the old name may come back
				dirty[pa] = da
			}
		} else {
			delete(dirty, pb)
			snap(b)
			if d := dirty[pb]; d != nil {
				d.atomic = true
			}
		}
	}
	return os.Rename(a, b)
}

func Mkdir(name string, perm os.FileMode) error {
	if ft := ask("mkdir", name, 0); ft.Err != nil {
		return perr("mkdir", name, ft.Err)
	}
	return os.Mkdir(name, perm)
}

func MkdirAll(name string, perm os.FileMode) error {
	if ft := ask("mkdir", name, 0); ft.Err != nil {
		return perr("mkdir", name, ft.Err)
	}
	return os.MkdirAll(name, perm)
}

func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = os.TempDir()
	}
	if ft := ask("mkdir", filepath.Join(dir, pattern), 0); ft.Err != nil {
		return "", perr("mkdir", pattern, ft.Err)
	}
	return os.MkdirTemp(dir, pattern)
}

func Truncate(name string, n int64) error {
	if ft := ask("truncate", name, 0); ft.Err != nil {
		return perr("truncate", name, ft.Err)
	}
	snap(name)
	return os.Truncate(name, n)
}

func Symlink(a, b string) error {
	if ft := ask("link", b, 0); ft.Err != nil {
		return perr("symlink", b, ft.Err)
	}
	return os.Symlink(a, b)
}

func Link(a, b string) error {
	if ft := ask("link", b, 0); ft.Err != nil {
		return perr("link", b, ft.Err)
	}
	snap(b)
	return os.Link(a, b)
}

func Chmod(name string, m os.FileMode) error {
	if ft := ask("chmod", name, 0); ft.Err != nil {
		return perr("chmod", name, ft.Err)
	}
	return os.Chmod(name, m)
}

func Chtimes(name string, a, m time.Time) error {
	if ft := ask("chmod", name, 0); ft.Err != nil {
		return perr("chtimes", name, ft.Err)
	}
	return os.Chtimes(name, a, m)
}

func Chdir(dir string) error {
	if ft := ask("chdir", dir, 0); ft.Err != nil {
		return perr("chdir", dir, ft.Err)
	}
	d := abs(dir)
	if err := os.Chdir(dir); err != nil {
		return err
	}
	if On {
		cwd = d
	}
	return nil
}

func Stat(name string) (os.FileInfo, error) {
	if ft := ask("stat", name, 0); ft.Err != nil {
		return nil, perr("stat", name, ft.Err)
	}
	return os.Stat(name)
}

func Lstat(name string) (os.FileInfo, error) {
	if ft := ask("stat", name, 0); ft.Err != nil {
		return nil, perr("lstat", name, ft.Err)
	}
	return os.Lstat(name)
}

func DirFS(dir string) fs.FS { return os.DirFS(dir) }

// Cwd is the working directory of the simulated process.
func Cwd() string { return cwd }
