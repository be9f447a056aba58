// Package zzos stands in for package os: a small file system in memory whose
// every operation can be made to fail by the harness.
package zzos

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"time"
)

type (
	PathError = fs.PathError
	FileMode  = fs.FileMode
	FileInfo  = fs.FileInfo
	DirEntry  = fs.DirEntry
)

var (
	ErrNotExist   = fs.ErrNotExist
	ErrExist      = fs.ErrExist
	ErrPermission = fs.ErrPermission
	ErrClosed     = fs.ErrClosed
	ErrInvalid    = fs.ErrInvalid
)

const (
	O_RDONLY = 0x0
	O_WRONLY = 0x1
	O_RDWR   = 0x2
	O_APPEND = 0x400
	O_CREATE = 0x40
	O_EXCL   = 0x80
	O_SYNC   = 0x101000
	O_TRUNC  = 0x200

	ModePerm = fs.ModePerm
	ModeDir  = fs.ModeDir

	PathSeparator     = '/'
	PathListSeparator = ':'
	DevNull           = "/dev/null"
)

// ---- harness side

// Entry is a file or directory.
type Entry struct {
	Path string
	Dir  bool
	Data []byte
}

var (
	Disk   []*Entry
	Calls  []string // "op path", in order
	Opened int
	Closed int
	// Fault decides whether an operation fails; nil means never.
	Fault func(op, path string) error
	// Short makes a read or write handle at most this many bytes per call; 0 means all.
	Short int
	// Partial is how many bytes a failing write writes, all but one at most.
	Partial int
	temps   int
)

// Reset empties the file system.
func Reset() {
	Disk, Calls, Opened, Closed, Fault, Short, Partial, temps = nil, nil, 0, 0, nil, 0, 1, 0
	Disk = append(Disk, &Entry{Path: ".", Dir: true}, &Entry{Path: "/", Dir: true}, &Entry{Path: "/tmp", Dir: true})
}

// Put creates a file.
func Put(path string, data []byte) {
	Disk = append(Disk, &Entry{Path: filepath.Clean(path), Data: append([]byte(nil), data...)})
}

// PutDir creates a directory.
func PutDir(path string) { Disk = append(Disk, &Entry{Path: filepath.Clean(path), Dir: true}) }

// Get returns a file's content.
func Get(path string) ([]byte, bool) {
	if e := find(path); e != nil && !e.Dir {
		return e.Data, true
	}
	return nil, false
}

// HasDir tells whether the directory exists.
func HasDir(path string) bool {
	e := find(path)
	return e != nil && e.Dir
}

// Called counts the calls of op.
func Called(op string) int {
	n := 0
	for _, c := range Calls {
		if len(c) > len(op) && c[:len(op)] == op && c[len(op)] == ' ' {
			n++
		}
	}
	return n
}

func find(path string) *Entry {
	path = filepath.Clean(path)
	for _, e := range Disk {
		if e.Path == path {
			return e
		}
	}
	return nil
}

func fault(op, path string) error {
	Calls = append(Calls, op+" "+path)
	if Fault != nil {
		if err := Fault(op, path); err != nil {
			return &PathError{Op: op, Path: path, Err: err}
		}
	}
	return nil
}

func perr(op, path string, err error) error { return &PathError{Op: op, Path: path, Err: err} }

// ---- package os side

type File struct {
	e      *Entry
	name   string
	off    int
	read   bool
	write  bool
	app    bool
	closed bool
}

func Open(name string) (*File, error)   { return openFile("open", name, O_RDONLY) }
func Create(name string) (*File, error) { return openFile("create", name, O_RDWR|O_CREATE|O_TRUNC) }
func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	if flag&O_CREATE != 0 {
		return openFile("create", name, flag)
	}
	return openFile("open", name, flag)
}

func openFile(op, name string, flag int) (*File, error) {
	if err := fault(op, name); err != nil {
		return nil, err
	}
	e := find(name)
	if e == nil {
		if flag&O_CREATE == 0 || !HasDir(filepath.Dir(name)) {
			return nil, perr("open", name, ErrNotExist)
		}
		e = &Entry{Path: filepath.Clean(name)}
		Disk = append(Disk, e)
	} else if flag&O_EXCL != 0 && flag&O_CREATE != 0 {
		return nil, perr("open", name, ErrExist)
	}
	acc := flag & (O_WRONLY | O_RDWR)
	if e.Dir && acc != O_RDONLY {
		return nil, perr("open", name, errors.New("is a directory"))
	}
	if flag&O_TRUNC != 0 {
		e.Data = nil
	}
	Opened++
	return &File{e: e, name: name, read: acc != O_WRONLY, write: acc != O_RDONLY, app: flag&O_APPEND != 0}, nil
}

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr  { return 3 }

func (f *File) Read(b []byte) (int, error) {
	if f == nil {
		return 0, ErrInvalid
	}
	if f.closed {
		return 0, perr("read", f.name, ErrClosed)
	}
	if err := fault("read", f.name); err != nil {
		// a failing read may still deliver what it has
		n := 0
		if f.off < len(f.e.Data) && len(b) > 0 {
			b[0] = f.e.Data[f.off]
			f.off++
			n = 1
		}
		return n, err
	}
	if f.e.Dir || !f.read {
		return 0, perr("read", f.name, errors.New("bad file descriptor"))
	}
	if len(b) == 0 {
		return 0, nil
	}
	if f.off >= len(f.e.Data) {
		return 0, io.EOF
	}
	n := len(b)
	if Short > 0 && n > Short {
		n = Short
	}
	n = copy(b[:n], f.e.Data[f.off:])
	f.off += n
	return n, nil
}

func (f *File) Write(b []byte) (int, error) {
	if f == nil {
		return 0, ErrInvalid
	}
	if f == Stdout {
		return os.Stdout.Write(b)
	}
	if f == Stderr {
		return os.Stderr.Write(b)
	}
	if f.closed {
		return 0, perr("write", f.name, ErrClosed)
	}
	if err := fault("write", f.name); err != nil {
		n := Partial
		if n >= len(b) {
			n = len(b) - 1
		}
		if n < 0 {
			n = 0
		}
		f.put(b[:n])
		return n, err
	}
	if !f.write {
		return 0, perr("write", f.name, errors.New("bad file descriptor"))
	}
	f.put(b)
	return len(b), nil
}

func (f *File) put(b []byte) {
	if f.app {
		f.off = len(f.e.Data)
	}
	d := append([]byte(nil), f.e.Data...)
	for len(d) < f.off {
		d = append(d, 0)
	}
	k := copy(d[f.off:], b)
	d = append(d, b[k:]...)
	f.e.Data = d
	f.off += len(b)
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	o := f.off
	f.off = int(off)
	n, err := f.Write(b)
	f.off = o
	return n, err
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	o := f.off
	f.off = int(off)
	n, err := f.Read(b)
	f.off = o
	if err == nil && n < len(b) {
		err = io.EOF
	}
	return n, err
}

func (f *File) Seek(offset int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		offset += int64(f.off)
	case io.SeekEnd:
		offset += int64(len(f.e.Data))
	}
	f.off = int(offset)
	return offset, nil
}

func (f *File) Truncate(size int64) error {
	if err := fault("truncate", f.name); err != nil {
		return err
	}
	d := append([]byte(nil), f.e.Data...)
	for int64(len(d)) < size {
		d = append(d, 0)
	}
	f.e.Data = d[:size]
	return nil
}

func (f *File) Sync() error {
	if f == nil {
		return ErrInvalid
	}
	return fault("sync", f.name)
}
func (f *File) Chmod(mode FileMode) error { return fault("chmod", f.name) }

func (f *File) Close() error {
	if f == nil {
		return ErrInvalid
	}
	if f.closed {
		return perr("close", f.name, ErrClosed)
	}
	f.closed = true
	Closed++
	return fault("close", f.name)
}

func (f *File) Stat() (FileInfo, error) {
	if err := fault("stat", f.name); err != nil {
		return nil, err
	}
	return &info{f.e}, nil
}

type info struct{ e *Entry }

func (i *info) Name() string       { return filepath.Base(i.e.Path) }
func (i *info) Size() int64        { return int64(len(i.e.Data)) }
func (i *info) Mode() FileMode     { return 0o644 }
func (i *info) ModTime() time.Time { return time.Time{} }
func (i *info) IsDir() bool        { return i.e.Dir }
func (i *info) Sys() any           { return nil }

func Stat(name string) (FileInfo, error) {
	if err := fault("stat", name); err != nil {
		return nil, err
	}
	if e := find(name); e != nil {
		return &info{e}, nil
	}
	return nil, perr("stat", name, ErrNotExist)
}

func Lstat(name string) (FileInfo, error) { return Stat(name) }

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func MkdirAll(path string, perm FileMode) error {
	if err := fault("mkdir", path); err != nil {
		return err
	}
	p := filepath.Clean(path)
	for p != "." && p != "/" {
		e := find(p)
		if e == nil {
			Disk = append(Disk, &Entry{Path: p, Dir: true})
		} else if !e.Dir {
			return perr("mkdir", path, errors.New("not a directory"))
		}
		p = filepath.Dir(p)
	}
	return nil
}

func Mkdir(path string, perm FileMode) error {
	if err := fault("mkdir", path); err != nil {
		return err
	}
	if find(path) != nil {
		return perr("mkdir", path, ErrExist)
	}
	if !HasDir(filepath.Dir(path)) {
		return perr("mkdir", path, ErrNotExist)
	}
	PutDir(path)
	return nil
}

func Remove(name string) error {
	if err := fault("remove", name); err != nil {
		return err
	}
	p := filepath.Clean(name)
	for i, e := range Disk {
		if e.Path == p {
			Disk = append(append([]*Entry(nil), Disk[:i]...), Disk[i+1:]...)
			return nil
		}
	}
	return perr("remove", name, ErrNotExist)
}

func RemoveAll(name string) error {
	if err := fault("remove", name); err != nil {
		return err
	}
	p := filepath.Clean(name)
	var d []*Entry
	for _, e := range Disk {
		if e.Path == p || (len(e.Path) > len(p) && e.Path[:len(p)] == p && e.Path[len(p)] == '/') {
			continue
		}
		d = append(d, e)
	}
	Disk = d
	return nil
}

func Rename(from, to string) error {
	if err := fault("rename", to); err != nil {
		return err
	}
	e := find(from)
	if e == nil || !HasDir(filepath.Dir(to)) {
		return perr("rename", from, ErrNotExist)
	}
	t := filepath.Clean(to)
	var d []*Entry
	for _, x := range Disk {
		if x == e || x.Path != t {
			d = append(d, x)
		}
	}
	Disk = d
	e.Path = t
	return nil
}

func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = "/tmp"
	}
	temps++
	name := pattern
	for i := 0; i < len(pattern); i++ {
		if pattern[i] == '*' {
			name = pattern[:i] + string(rune('0'+temps)) + pattern[i+1:]
		}
	}
	if name == pattern {
		name += string(rune('0' + temps))
	}
	return openFile("create", filepath.Join(dir, name), O_RDWR|O_CREATE|O_EXCL)
}

func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = "/tmp"
	}
	temps++
	p := filepath.Join(dir, pattern+string(rune('0'+temps)))
	return p, Mkdir(p, 0o700)
}

func Chmod(name string, mode FileMode) error { return fault("chmod", name) }

func under(err error) error {
	if p, ok := err.(*PathError); ok {
		return p.Err
	}
	return err
}

func IsNotExist(err error) bool   { return under(err) == ErrNotExist }
func IsExist(err error) bool      { return under(err) == ErrExist }
func IsPermission(err error) bool { return under(err) == ErrPermission }
func TempDir() string             { return "/tmp" }
func Getwd() (string, error)      { return "/", nil }
func Getenv(string) string        { return "" }
func LookupEnv(string) (string, bool) {
	return "", false
}
func IsPathSeparator(c uint8) bool { return c == '/' }
func Getpid() int                  { return 1 }

var (
	Stdin, Stdout, Stderr = &File{}, &File{}, &File{} // what is written reaches the real ones
	Args                  []string
)

func Exit(code int) { panic("os.Exit") }

func ReadDir(name string) ([]DirEntry, error) {
	if err := fault("readdir", name); err != nil {
		return nil, err
	}
	return nil, perr("open", name, ErrNotExist)
}
