package vsim

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
)

// The simulated disk. Every file has a live content, seen by all processes, and a journal of what happened to it
// since it was last made durable; a power loss keeps some outcome of that journal.

type wop struct {
	off  int64
	data []byte
	size int64 // truncation to size, if >= 0
}

type inode struct {
	live    []byte
	durable []byte
	journal []wop
	mode    fs.FileMode
	mtime   time.Time
	dir     bool
	link    string
}

type dirop struct {
	path string
	ino  *inode // nil: entry removed
}

// Disk is the simulated file system.
type Disk struct {
	w        *World
	files    map[string]*inode
	durable  map[string]*inode
	dirops   []dirop
	Mutated  []string // every path written, created, removed, renamed, in order
	Reads    []string
	tmpSeq   int
	opSeq    int
	open     int
	MaxOpen  int
	Capacity int64 // bytes the disk may hold; 0: no limit
	Faults   []*DiskFault
	Trap     int    // at this operation ...
	OnTrap   func() // ... run this, with the operation not yet done
}

// DiskFault makes one operation fail.
type DiskFault struct {
	Op     string // open, create, write, close, read, sync, rename, remove, stat, any
	Path   string // "" any
	After  int    // skip this many matching operations
	Err    error
	Short  int // write/read: this many bytes get through first (scaled down to the request)
	Sticky bool
	Fired  bool
}

func newDisk(w *World) *Disk {
	d := &Disk{w: w, files: map[string]*inode{}, durable: map[string]*inode{}}
	for _, p := range []string{"/", "/tmp", "/data"} {
		n := &inode{dir: true, mode: fs.ModeDir | 0o755}
		d.files[p], d.durable[p] = n, n
	}
	return d
}

func clean(p string) string {
	if p == "" {
		return ""
	}
	if !filepath.IsAbs(p) {
		p = "/data/" + p
	}
	return filepath.Clean(p)
}

func (d *Disk) fault(op, path string) *DiskFault {
	d.opSeq++
	Charge(50)
	if d.Trap > 0 && d.opSeq >= d.Trap && d.OnTrap != nil {
		f := d.OnTrap
		d.OnTrap = nil
		d.w.At(0, f)
		d.w.Yield()
	}
	if d.w.cur != nil && d.w.Cfg.MaxQuantum > 0 && d.w.cur.quantumLeft < 1000 {
		d.w.Yield() // system calls are where threads change hands
	}
	for _, f := range d.Faults {
		if f.Op != op && f.Op != "any" || f.Path != "" && !beside(clean(f.Path), path) || f.Fired && !f.Sticky {
			continue
		}
		if f.After > 0 {
			f.After--
			continue
		}
		f.Fired = true
		if f.Err != nil || op == "write" {
			d.w.Fired("disk-" + op + "-error")
			// a file is not lost when looking at it, removing it or flushing its directory fails
			n := d.files[path]
			if d.w.cur != nil && op != "stat" && op != "remove" && (n == nil || !n.dir) {
				d.w.cur.DiskErrs++
				if op != "read" && op != "open" {
					d.w.cur.WriteErrs++
				}
			}
		} else {
			d.w.Fired("disk-short-" + op)
		}
		d.w.Log("disk fault: %s %s: %v", op, path, f.Err)
		return f
	}
	return nil
}

// beside reports whether path is target or a file next to it that is named after it.
func beside(target, path string) bool {
	return path == target || filepath.Dir(path) == filepath.Dir(target) && strings.Contains(filepath.Base(path), filepath.Base(target))
}

func perr(op, path string, err error) error { return &fs.PathError{Op: op, Path: path, Err: err} }

func cur() *Disk {
	if W == nil {
		panic("vsim: file access outside a run")
	}
	return W.Disk
}

func (d *Disk) used() int64 {
	var n int64
	for _, f := range d.files {
		n += int64(len(f.live))
	}
	return n
}

// File stands for os.File.
type File struct {
	d      *Disk
	path   string
	given  string
	ino    *inode
	pos    int64
	flag   int
	closed bool
	stream string
	w      *World
	owner  *Task
}

// Standard streams.
var (
	Stdout = &File{stream: "stdout", given: "/dev/stdout"}
	Stderr = &File{stream: "stderr", given: "/dev/stderr"}
	Stdin  = &File{stream: "stdin", given: "/dev/stdin"}
)

// OpenFile stands for os.OpenFile.
func OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	d := cur()
	p := clean(name)
	if p == "" {
		return nil, perr("open", name, syscall.ENOENT)
	}
	creating := flag&os.O_CREATE != 0
	op := "open"
	if flag&(os.O_WRONLY|os.O_RDWR) != 0 {
		op = "create"
	}
	if f := d.fault(op, p); f != nil {
		return nil, perr("open", name, f.Err)
	}
	ino := d.lookup(p, 0)
	if ino == nil {
		if !creating {
			return nil, perr("open", name, syscall.ENOENT)
		}
		parent := d.lookup(filepath.Dir(p), 0)
		if parent == nil {
			return nil, perr("open", name, syscall.ENOENT)
		}
		if !parent.dir {
			return nil, perr("open", name, syscall.ENOTDIR)
		}
		if parent.mode&0o200 == 0 {
			return nil, perr("open", name, syscall.EACCES)
		}
		ino = &inode{mode: perm, mtime: d.w.now}
		d.set(p, ino)
		d.mutated("create", p)
	} else {
		if ino.dir {
			if flag&(os.O_WRONLY|os.O_RDWR) != 0 {
				return nil, perr("open", name, syscall.EISDIR)
			}
		}
		if creating && flag&os.O_EXCL != 0 {
			return nil, perr("open", name, syscall.EEXIST)
		}
		if flag&(os.O_WRONLY|os.O_RDWR) != 0 && ino.mode&0o200 == 0 {
			return nil, perr("open", name, syscall.EACCES)
		}
		if flag&os.O_TRUNC != 0 && flag&(os.O_WRONLY|os.O_RDWR) != 0 {
			d.truncate(ino, 0)
			d.mutated("truncate", p)
		}
	}
	d.open++
	if d.open > d.MaxOpen {
		d.MaxOpen = d.open
	}
	return &File{d: d, path: p, given: name, ino: ino, flag: flag, w: W, owner: W.cur}, nil
}

func (d *Disk) lookup(p string, depth int) *inode {
	n := d.files[p]
	if n != nil && n.link != "" && depth < 8 {
		t := n.link
		if !filepath.IsAbs(t) {
			t = filepath.Join(filepath.Dir(p), t)
		}
		return d.lookup(filepath.Clean(t), depth+1)
	}
	return n
}

func (d *Disk) set(p string, ino *inode) {
	if ino == nil {
		delete(d.files, p)
	} else {
		d.files[p] = ino
	}
	d.dirops = append(d.dirops, dirop{p, ino})
}

func (d *Disk) mutated(op, p string) { d.Mutated = append(d.Mutated, op+" "+p) }

func (d *Disk) truncate(ino *inode, size int64) {
	if size < int64(len(ino.live)) {
		ino.live = append([]byte(nil), ino.live[:size]...)
	} else {
		ino.live = append(append([]byte(nil), ino.live...), make([]byte, size-int64(len(ino.live)))...)
	}
	ino.journal = append(ino.journal, wop{size: size})
}

func writeAt(b []byte, off int64, p []byte) []byte {
	if need := off + int64(len(p)); need > int64(len(b)) {
		b = append(append([]byte(nil), b...), make([]byte, need-int64(len(b)))...)
	} else {
		b = append([]byte(nil), b...)
	}
	copy(b[off:], p)
	return b
}

// Open stands for os.Open.
func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }

// Create stands for os.Create.
func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}

func (f *File) check(op string) error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.closed {
		return perr(op, f.given, os.ErrClosed)
	}
	return nil
}

// Name stands for os.File.Name.
func (f *File) Name() string { return f.given }

// Fd stands for os.File.Fd.
func (f *File) Fd() uintptr { return 3 }

// Read stands for os.File.Read.
func (f *File) Read(p []byte) (int, error) {
	if f.stream != "" {
		return 0, io.EOF
	}
	n, err := f.readAt(p, f.pos)
	f.pos += int64(n)
	return n, err
}

func (f *File) readAt(p []byte, off int64) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if f.flag&os.O_WRONLY != 0 {
		return 0, perr("read", f.given, syscall.EBADF)
	}
	if f.ino.dir {
		return 0, perr("read", f.given, syscall.EISDIR)
	}
	f.d.Reads = append(f.d.Reads, f.path)
	if ft := f.d.fault("read", f.path); ft != nil {
		if ft.Err == nil { // a legitimate short read
			if len(p) > ft.Short && ft.Short > 0 {
				p = p[:ft.Short]
			}
		} else {
			return 0, perr("read", f.given, ft.Err)
		}
	}
	if len(p) == 0 {
		return 0, nil
	}
	if off >= int64(len(f.ino.live)) {
		return 0, io.EOF
	}
	return copy(p, f.ino.live[off:]), nil
}

// ReadAt stands for os.File.ReadAt.
func (f *File) ReadAt(p []byte, off int64) (n int, err error) {
	for n < len(p) && err == nil {
		var m int
		m, err = f.readAt(p[n:], off+int64(n))
		n += m
	}
	return
}

// Write stands for os.File.Write.
func (f *File) Write(p []byte) (int, error) {
	if f.stream != "" {
		out(f.stream, string(p))
		return len(p), nil
	}
	if err := f.check("write"); err != nil {
		return 0, err
	}
	if f.flag&os.O_APPEND != 0 {
		f.pos = int64(len(f.ino.live))
	}
	n, err := f.writeAt(p, f.pos)
	f.pos += int64(n)
	return n, err
}

func (f *File) writeAt(p []byte, off int64) (int, error) {
	if f.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, perr("write", f.given, syscall.EBADF)
	}
	var ferr error
	n := len(p)
	if ft := f.d.fault("write", f.path); ft != nil {
		ferr = ft.Err
		n = min(n, ft.Short)
		if ferr == nil {
			ferr = io.ErrShortWrite
		}
	}
	if f.d.Capacity > 0 {
		grow := off + int64(n) - int64(len(f.ino.live))
		if free := f.d.Capacity - f.d.used(); grow > free {
			n = max(0, n-int(grow-max(free, 0)))
			ferr = syscall.ENOSPC
			f.d.w.Fired("disk-full")
			if f.d.w.cur != nil {
				f.d.w.cur.DiskErrs++
				f.d.w.cur.WriteErrs++
			}
		}
	}
	if n > 0 {
		data := append([]byte(nil), p[:n]...)
		// Writes reach the disk block by block.
		for o := 0; o < n; o += 512 {
			e := min(n, o+512)
			f.ino.journal = append(f.ino.journal, wop{off: off + int64(o), data: data[o:e], size: -1})
		}
		f.ino.live = writeAt(f.ino.live, off, data)
		f.ino.mtime = f.d.w.now
	}
	f.d.mutated("write", f.path)
	if ferr != nil {
		return n, perr("write", f.given, ferr)
	}
	return n, nil
}

// WriteAt stands for os.File.WriteAt.
func (f *File) WriteAt(p []byte, off int64) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	return f.writeAt(p, off)
}

// WriteString stands for os.File.WriteString.
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

// Seek stands for os.File.Seek.
func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.check("seek"); err != nil {
		return 0, err
	}
	switch whence {
	case io.SeekCurrent:
		off += f.pos
	case io.SeekEnd:
		off += int64(len(f.ino.live))
	}
	if off < 0 {
		return 0, perr("seek", f.given, syscall.EINVAL)
	}
	f.pos = off
	return off, nil
}

// Sync stands for os.File.Sync.
func (f *File) Sync() error {
	if f.stream != "" {
		return nil
	}
	if err := f.check("sync"); err != nil {
		return err
	}
	if ft := f.d.fault("sync", f.path); ft != nil {
		return perr("sync", f.given, ft.Err)
	}
	f.d.syncInode(f.ino)
	// An entry whose file was synced is found again.
	for i := len(f.d.dirops) - 1; i >= 0; i-- {
		if f.d.dirops[i].ino == f.ino {
			f.d.durable[f.d.dirops[i].path] = f.ino
			f.d.dirops = append(f.d.dirops[:i], f.d.dirops[i+1:]...)
		}
	}
	return nil
}

func (d *Disk) syncInode(n *inode) {
	n.durable = append([]byte(nil), n.live...)
	n.journal = nil
}

// Close stands for os.File.Close.
func (f *File) Close() error {
	if f.stream != "" {
		return nil
	}
	if err := f.check("close"); err != nil {
		return err
	}
	f.closed = true
	f.d.open--
	if ft := f.d.fault("close", f.path); ft != nil {
		if f.flag&(os.O_WRONLY|os.O_RDWR) == 0 && f.d.w.cur != nil && ft.Err != nil {
			f.d.w.cur.DiskErrs--
			f.d.w.cur.WriteErrs-- // nothing is lost when closing what was only read fails
		}
		return perr("close", f.given, ft.Err)
	}
	return nil
}

// Truncate stands for os.File.Truncate.
func (f *File) Truncate(size int64) error {
	if err := f.check("truncate"); err != nil {
		return err
	}
	if ft := f.d.fault("write", f.path); ft != nil {
		return perr("truncate", f.given, ft.Err)
	}
	f.d.truncate(f.ino, size)
	f.d.mutated("truncate", f.path)
	return nil
}

// Chmod stands for os.File.Chmod.
func (f *File) Chmod(m fs.FileMode) error {
	if err := f.check("chmod"); err != nil {
		return err
	}
	f.ino.mode = m
	return nil
}

// Stat stands for os.File.Stat.
func (f *File) Stat() (fs.FileInfo, error) {
	if f.stream != "" {
		return info{f.given, &inode{mode: fs.ModeCharDevice}}, nil
	}
	if err := f.check("stat"); err != nil {
		return nil, err
	}
	if ft := f.d.fault("stat", f.path); ft != nil {
		return nil, perr("stat", f.given, ft.Err)
	}
	return info{filepath.Base(f.path), f.ino}, nil
}

// SetDeadline and the like are accepted.
func (f *File) SetDeadline(time.Time) error { return nil }

type info struct {
	name string
	n    *inode
}

func (i info) Name() string               { return i.name }
func (i info) Size() int64                { return int64(len(i.n.live)) }
func (i info) Mode() fs.FileMode          { return i.n.mode }
func (i info) ModTime() time.Time         { return i.n.mtime }
func (i info) IsDir() bool                { return i.n.dir }
func (i info) Sys() any                   { return nil }
func (i info) Type() fs.FileMode          { return i.n.mode.Type() }
func (i info) Info() (fs.FileInfo, error) { return i, nil }

// ReadFile stands for os.ReadFile.
func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var b []byte
	buf := make([]byte, 512)
	for {
		n, err := f.Read(buf)
		b = append(b, buf[:n]...)
		if err == io.EOF {
			return b, nil
		}
		if err != nil {
			return b, err
		}
	}
}

// WriteFile stands for os.WriteFile: open, write, close, each of which may fail.
func WriteFile(name string, data []byte, perm fs.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if e := f.Close(); e != nil && err == nil {
		err = e
	}
	return err
}

// Stat stands for os.Stat.
func Stat(name string) (fs.FileInfo, error) {
	d, p := cur(), clean(name)
	if ft := d.fault("stat", p); ft != nil {
		return nil, perr("stat", name, ft.Err)
	}
	n := d.lookup(p, 0)
	if n == nil {
		return nil, perr("stat", name, syscall.ENOENT)
	}
	return info{filepath.Base(p), n}, nil
}

// Lstat stands for os.Lstat.
func Lstat(name string) (fs.FileInfo, error) {
	d, p := cur(), clean(name)
	if ft := d.fault("stat", p); ft != nil {
		return nil, perr("lstat", name, ft.Err)
	}
	n := d.files[p]
	if n == nil {
		return nil, perr("lstat", name, syscall.ENOENT)
	}
	return info{filepath.Base(p), n}, nil
}

// Remove stands for os.Remove.
func Remove(name string) error {
	d, p := cur(), clean(name)
	if ft := d.fault("remove", p); ft != nil {
		return perr("remove", name, ft.Err)
	}
	if d.files[p] == nil {
		return perr("remove", name, syscall.ENOENT)
	}
	d.set(p, nil)
	d.mutated("remove", p)
	return nil
}

// RemoveAll stands for os.RemoveAll.
func RemoveAll(name string) error {
	d, p := cur(), clean(name)
	if ft := d.fault("remove", p); ft != nil {
		return perr("unlinkat", name, ft.Err)
	}
	var gone []string
	for q := range d.files {
		if q == p || strings.HasPrefix(q, p+"/") {
			gone = append(gone, q)
		}
	}
	sort.Strings(gone)
	for _, q := range gone {
		d.set(q, nil)
		d.mutated("remove", q)
	}
	return nil
}

// Rename stands for os.Rename.
func Rename(from, to string) error {
	d, p, q := cur(), clean(from), clean(to)
	if ft := d.fault("rename", p); ft != nil {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: ft.Err}
	}
	n := d.files[p]
	if n == nil || d.lookup(filepath.Dir(q), 0) == nil {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: syscall.ENOENT}
	}
	if t := d.files[q]; t != nil && t.dir {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: syscall.EISDIR}
	}
	if p == q {
		return nil
	}
	// One directory operation: the new entry appears and the old one goes together.
	d.files[q] = n
	delete(d.files, p)
	d.dirops = append(d.dirops, dirop{q, n}, dirop{p, nil})
	d.mutated("rename", p)
	d.mutated("rename", q)
	return nil
}

// Mkdir stands for os.Mkdir.
func Mkdir(name string, perm fs.FileMode) error {
	d, p := cur(), clean(name)
	if ft := d.fault("create", p); ft != nil {
		return perr("mkdir", name, ft.Err)
	}
	if d.files[p] != nil {
		return perr("mkdir", name, syscall.EEXIST)
	}
	if d.lookup(filepath.Dir(p), 0) == nil {
		return perr("mkdir", name, syscall.ENOENT)
	}
	d.set(p, &inode{dir: true, mode: fs.ModeDir | perm})
	d.mutated("mkdir", p)
	return nil
}

// MkdirAll stands for os.MkdirAll.
func MkdirAll(name string, perm fs.FileMode) error {
	p := clean(name)
	if n := cur().lookup(p, 0); n != nil {
		if !n.dir {
			return perr("mkdir", name, syscall.ENOTDIR)
		}
		return nil
	}
	if err := MkdirAll(filepath.Dir(p), perm); err != nil {
		return err
	}
	return Mkdir(name, perm)
}

func tempName(dir, pattern string) string {
	if dir == "" {
		dir = "/tmp"
	}
	d := cur()
	for {
		d.tmpSeq++
		s := fmt.Sprintf("%09d", Mix(d.w.Seed, uint64(d.tmpSeq))%1_000_000_000)
		var n string
		if i := strings.LastIndex(pattern, "*"); i >= 0 {
			n = pattern[:i] + s + pattern[i+1:]
		} else {
			n = pattern + s
		}
		if d.files[clean(filepath.Join(dir, n))] == nil {
			return filepath.Join(dir, n)
		}
	}
}

// CreateTemp stands for os.CreateTemp.
func CreateTemp(dir, pattern string) (*File, error) {
	return OpenFile(tempName(dir, pattern), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0o600)
}

// MkdirTemp stands for os.MkdirTemp.
func MkdirTemp(dir, pattern string) (string, error) {
	n := tempName(dir, pattern)
	return n, Mkdir(n, 0o700)
}

// TempDir stands for os.TempDir.
func TempDir() string { return "/tmp" }

// Chmod stands for os.Chmod.
func Chmod(name string, m fs.FileMode) error {
	n := cur().lookup(clean(name), 0)
	if n == nil {
		return perr("chmod", name, syscall.ENOENT)
	}
	n.mode = n.mode&fs.ModeDir | m
	return nil
}

// Chtimes stands for os.Chtimes.
func Chtimes(name string, _, m time.Time) error {
	n := cur().lookup(clean(name), 0)
	if n == nil {
		return perr("chtimes", name, syscall.ENOENT)
	}
	n.mtime = m
	return nil
}

// Truncate stands for os.Truncate.
func Truncate(name string, size int64) error {
	f, err := OpenFile(name, os.O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(size)
}

// Link stands for os.Link.
func Link(from, to string) error {
	d, p, q := cur(), clean(from), clean(to)
	n := d.files[p]
	if n == nil {
		return &os.LinkError{Op: "link", Old: from, New: to, Err: syscall.ENOENT}
	}
	if d.files[q] != nil {
		return &os.LinkError{Op: "link", Old: from, New: to, Err: syscall.EEXIST}
	}
	d.set(q, n)
	d.mutated("link", q)
	return nil
}

// Symlink stands for os.Symlink.
func Symlink(from, to string) error {
	d, q := cur(), clean(to)
	if d.files[q] != nil {
		return &os.LinkError{Op: "symlink", Old: from, New: to, Err: syscall.EEXIST}
	}
	d.set(q, &inode{link: from, mode: fs.ModeSymlink | 0o777})
	d.mutated("symlink", q)
	return nil
}

// ReadDir stands for os.ReadDir.
func ReadDir(name string) ([]fs.DirEntry, error) {
	d, p := cur(), clean(name)
	if n := d.lookup(p, 0); n == nil || !n.dir {
		return nil, perr("open", name, syscall.ENOENT)
	}
	var l []fs.DirEntry
	for _, q := range d.List() {
		if filepath.Dir(q) == p && q != p {
			l = append(l, info{filepath.Base(q), d.files[q]})
		}
	}
	return l, nil
}

// ---- what scenarios do to the disk ---------------------------------------------------------------------

// Ops is how many operations the disk has served.
func (d *Disk) Ops() int { return d.opSeq }

// List is every path on the disk.
func (d *Disk) List() []string {
	var l []string
	for p := range d.files {
		l = append(l, p)
	}
	sort.Strings(l)
	return l
}

// Peek is the live content of a file, nil if there is none.
func (d *Disk) Peek(name string) []byte {
	if n := d.lookup(clean(name), 0); n != nil && !n.dir {
		return append([]byte{}, n.live...)
	}
	return nil
}

// Put makes a durable file, outside any operation of the code under test.
func (d *Disk) Put(name string, b []byte) {
	n := &inode{live: append([]byte(nil), b...), durable: append([]byte(nil), b...), mode: 0o644}
	d.files[clean(name)], d.durable[clean(name)] = n, n
}

// PutDir makes a durable directory.
func (d *Disk) PutDir(name string, mode fs.FileMode) {
	n := &inode{dir: true, mode: fs.ModeDir | mode}
	d.files[clean(name)], d.durable[clean(name)] = n, n
}

// SetMode changes permissions.
func (d *Disk) SetMode(name string, mode fs.FileMode) {
	if n := d.files[clean(name)]; n != nil {
		n.mode = n.mode&fs.ModeDir | mode
	}
}

// Damage replaces the content of a file, live and durable.
func (d *Disk) Damage(name string, b []byte) { d.Put(name, b) }

// Sync makes everything durable, as the passage of time does.
func (d *Disk) Sync() {
	for _, n := range d.files {
		d.syncInode(n)
	}
	d.durable = map[string]*inode{}
	for p, n := range d.files {
		d.durable[p] = n
	}
	d.dirops = nil
}

// PowerLoss keeps the durable state plus some outcome, decided by the tape, of what was in flight.
func (d *Disk) PowerLoss() string {
	t := d.w.T
	how := t.Weighted(2, 2, 3, 3)
	desc := [...]string{"lost", "kept", "prefix", "subset"}[how]
	// Directory operations apply in order, up to a point; a rename's two entries stand together.
	nd := 0
	switch how {
	case 1:
		nd = len(d.dirops)
	case 2, 3:
		nd = t.Int(len(d.dirops) + 1)
		for nd > 0 && nd < len(d.dirops) && d.dirops[nd].ino == nil && d.dirops[nd-1].ino != nil {
			nd++ // do not split a rename
		}
	}
	files := map[string]*inode{}
	for p, n := range d.durable {
		files[p] = n
	}
	for _, o := range d.dirops[:nd] {
		if o.ino == nil {
			delete(files, o.path)
		} else {
			files[o.path] = o.ino
		}
	}
	var order []string
	for p := range files {
		order = append(order, p)
	}
	sort.Strings(order)
	done := map[*inode]bool{}
	for _, p := range order {
		n := files[p]
		if n.dir || done[n] {
			continue
		}
		done[n] = true
		if len(n.journal) == 0 && string(n.live) == string(n.durable) {
			continue
		}
		b := append([]byte(nil), n.durable...)
		k := 0
		torn := false
		switch how {
		case 1:
			k = len(n.journal)
		case 2:
			k = t.Int(len(n.journal) + 1)
			torn = t.Int(2) == 1
		case 3:
			k = len(n.journal)
		}
		for i, o := range n.journal {
			if i > k || i == k && !torn {
				break
			}
			if how == 3 && o.size < 0 && t.Int(2) == 1 {
				if need := o.off + int64(len(o.data)); t.Int(2) == 1 && need > int64(len(b)) {
					b = writeAt(b, o.off, make([]byte, len(o.data))) // size updated, data not
				}
				continue
			}
			if o.size >= 0 {
				if i == k {
					continue
				}
				if o.size < int64(len(b)) {
					b = b[:o.size]
				} else {
					b = append(b, make([]byte, o.size-int64(len(b)))...)
				}
				continue
			}
			data := o.data
			if i == k {
				data = data[:t.Int(len(data)+1)]
				d.w.Hit("torn-write")
			}
			b = writeAt(b, o.off, data)
		}
		n.live = b
		d.syncInode(n)
	}
	d.files = files
	d.durable = map[string]*inode{}
	for p, n := range files {
		d.durable[p] = n
	}
	d.dirops = nil
	d.open = 0
	d.w.Fired("power-loss-" + desc)
	d.w.Log("power loss: unsynced writes %s", desc)
	return desc
}

// IsFault reports whether an error is one the simulator injected or the disk model returned.
func IsFault(err error) bool {
	var pe *fs.PathError
	return errors.As(err, &pe)
}
