// Package vos is an in-memory stand-in for the file functions of package os. It is used both by the
// symbolic executor and by the native replay. It keeps, next to the current content, what is known
// to be on the disk, so that a crash or a fault can be placed after any operation.
package vos

import (
	"errors"
	"io"
	"os"

	"VERIFMODULE/verifsym"
)

type (
	Signal    = os.Signal
	FileMode  = os.FileMode
	FileInfo  = os.FileInfo
	PathError = os.PathError
)

var (
	Interrupt   = os.Interrupt
	Kill        = os.Kill
	Stdin       = os.Stdin
	Stdout      = os.Stdout
	Stderr      = os.Stderr
	ErrNotExist = errors.New("file does not exist")
	ErrExist    = errors.New("file already exists")
	ErrClosed   = errors.New("file already closed")
	ErrFault    = errors.New("input/output error")
)

const (
	O_RDONLY = os.O_RDONLY
	O_WRONLY = os.O_WRONLY
	O_RDWR   = os.O_RDWR
	O_APPEND = os.O_APPEND
	O_CREATE = os.O_CREATE
	O_EXCL   = os.O_EXCL
	O_SYNC   = os.O_SYNC
	O_TRUNC  = os.O_TRUNC
	ModePerm = os.ModePerm
)

func Exit(code int)               { panic("exit") }
func Getenv(k string) string      { return "" }
func Getpid() int                 { return 1 }
func Hostname() (string, error)   { return "host", nil }
func IsNotExist(err error) bool   { return errors.Is(err, ErrNotExist) }
func IsExist(err error) bool      { return errors.Is(err, ErrExist) }
func IsPermission(err error) bool { return false }

type inode struct {
	data, synced []byte
	dir          bool
}

type entry struct {
	name string
	n    *inode
}

var (
	dir     []entry   // current names
	history [][]entry // names after each change since the start
	ops     int       // changes so far
	crashAt int       // the machine stops after that many changes, -1: never
	failAt  int       // that change fails, -1: none
	crashed *image
	writing *File // the last change was a write to that file
)

type image struct {
	history [][]entry
	files   []*inode // all inodes known
	data    [][]byte // their content at the crash
	synced  [][]byte
}

// Reset empties the disk.
func Reset() {
	dir = nil
	history = nil
	restart()
}

func restart() {
	ops = 0
	crashAt = -1
	failAt = -1
	crashed = nil
	writing = nil
	history = [][]entry{append([]entry(nil), dir...)}
}

// CrashAt lets the machine stop after n changes of the disk, FailAt lets the n-th change fail.
func CrashAt(n int) { ops = 0; crashAt = n; check() }
func FailAt(n int)  { ops = 0; failAt = n }

// Ops is the number of changes of the disk since the last call of CrashAt, FailAt or Restart.
func Ops() int { return ops }

// Crashed says whether the crash point has been reached.
func Crashed() bool { return crashed != nil }

func check() {
	if crashed != nil || crashAt < 0 || ops < crashAt {
		return
	}
	im := &image{}
	for _, h := range history {
		im.history = append(im.history, append([]entry(nil), h...))
		for _, e := range h {
			known := false
			for _, f := range im.files {
				known = known || f == e.n
			}
			if !known {
				im.files = append(im.files, e.n)
				im.data = append(im.data, append([]byte(nil), e.n.data...))
				im.synced = append(im.synced, append([]byte(nil), e.n.synced...))
			}
		}
	}
	crashed = im
}

func done() {
	writing = nil
	ops++
	check()
}

func named() {
	history = append(history, append([]entry(nil), dir...))
	done()
}

func fault() bool {
	if failAt >= 0 && ops == failAt {
		ops++
		return true
	}
	return false
}

// Recover puts the disk into a state it may have after the crash: the changes of names made since
// the start have reached the disk up to some point, and what was not synced is any of the old
// content, nothing, half of it or all of it.
func Recover() {
	im := crashed
	if im == nil {
		crashAt = ops
		check()
		im = crashed
	}
	k := verifsym.Choose("vos:names", 0, len(im.history)-1)
	dir = nil
	for _, e := range im.history[k] {
		for i, f := range im.files {
			if f != e.n {
				continue
			}
			n := &inode{dir: f.dir}
			n.data = im.data[i]
			if string(im.data[i]) != string(im.synced[i]) {
				switch verifsym.Choose("vos:content", 0, 3) {
				case 0:
					n.data = im.synced[i]
				case 1:
					n.data = nil
				case 2:
					n.data = n.data[:len(n.data)/2]
				}
			}
			n.synced = n.data
			dir = append(dir, entry{e.name, n})
		}
	}
	restart()
}

// Restart stops the program without losing anything.
func Restart() { restart() }

// Names lists the files.
func Names() []string {
	var r []string
	for _, e := range dir {
		r = append(r, e.name)
	}
	return r
}

func find(name string) *inode {
	for _, e := range dir {
		if e.name == name {
			return e.n
		}
	}
	return nil
}

func unlink(name string) {
	for i, e := range dir {
		if e.name == name {
			dir = append(append([]entry(nil), dir[:i]...), dir[i+1:]...)
			return
		}
	}
}

// File is an open file.
type File struct {
	n      *inode
	name   string
	pos    int
	app    bool
	closed bool
}

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	n := find(name)
	if n == nil {
		if flag&O_CREATE == 0 {
			return nil, &PathError{Op: "open", Path: name, Err: ErrNotExist}
		}
		if fault() {
			return nil, ErrFault
		}
		n = &inode{}
		dir = append(append([]entry(nil), dir...), entry{name, n})
		named()
	} else {
		if flag&O_EXCL != 0 {
			return nil, &PathError{Op: "open", Path: name, Err: ErrExist}
		}
		if flag&O_TRUNC != 0 && len(n.data) > 0 {
			if fault() {
				return nil, ErrFault
			}
			n.data = nil
			done()
		}
	}
	return &File{n: n, name: name, app: flag&O_APPEND != 0}, nil
}

func Open(name string) (*File, error) { return OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0o666)
}

func (f *File) Name() string { return f.name }

func (f *File) Write(b []byte) (int, error) {
	if f == nil || f.closed {
		return 0, ErrClosed
	}
	if f.app {
		f.pos = len(f.n.data)
	}
	// consecutive writes are one change
	n := len(b)
	var err error
	more := writing == f
	if !more && fault() {
		n = n / 2
		err = ErrFault
	}
	d := append([]byte(nil), f.n.data...)
	for len(d) < f.pos+n {
		d = append(d, 0)
	}
	copy(d[f.pos:], b[:n])
	f.n.data = d
	f.pos += n
	switch {
	case more && crashed != nil && ops == crashAt:
		for i, g := range crashed.files {
			if g == f.n {
				crashed.data[i] = d
			}
		}
	case err == nil && !more:
		done()
		writing = f
	}
	return n, err
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) Read(b []byte) (int, error) {
	if f == nil || f.closed {
		return 0, ErrClosed
	}
	if len(b) == 0 {
		return 0, nil
	}
	if f.pos >= len(f.n.data) {
		return 0, io.EOF
	}
	k := copy(b, f.n.data[f.pos:])
	f.pos += k
	return k, nil
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case 0:
		f.pos = int(off)
	case 1:
		f.pos += int(off)
	default:
		f.pos = len(f.n.data) + int(off)
	}
	return int64(f.pos), nil
}

func (f *File) Truncate(n int64) error {
	if fault() {
		return ErrFault
	}
	for int64(len(f.n.data)) < n {
		f.n.data = append(f.n.data, 0)
	}
	f.n.data = append([]byte(nil), f.n.data[:n]...)
	done()
	return nil
}

func (f *File) Sync() error {
	if f == nil || f.closed {
		return ErrClosed
	}
	if fault() {
		return ErrFault
	}
	f.n.synced = append([]byte(nil), f.n.data...)
	done()
	return nil
}

func (f *File) Close() error {
	if f == nil || f.closed {
		return ErrClosed
	}
	f.closed = true
	return nil
}

func (f *File) Chmod(mode FileMode) error { return nil }

func Rename(from, to string) error {
	n := find(from)
	if n == nil {
		return &PathError{Op: "rename", Path: from, Err: ErrNotExist}
	}
	if fault() {
		return ErrFault
	}
	unlink(from)
	unlink(to)
	dir = append(append([]entry(nil), dir...), entry{to, n})
	named()
	return nil
}

func Remove(name string) error {
	if find(name) == nil {
		return &PathError{Op: "remove", Path: name, Err: ErrNotExist}
	}
	if fault() {
		return ErrFault
	}
	unlink(name)
	named()
	return nil
}

func RemoveAll(name string) error {
	if find(name) == nil {
		return nil
	}
	return Remove(name)
}

func Link(from, to string) error {
	n := find(from)
	if n == nil {
		return &PathError{Op: "link", Path: from, Err: ErrNotExist}
	}
	if find(to) != nil {
		return &PathError{Op: "link", Path: to, Err: ErrExist}
	}
	if fault() {
		return ErrFault
	}
	dir = append(append([]entry(nil), dir...), entry{to, n})
	named()
	return nil
}

func Stat(name string) (FileInfo, error) {
	if find(name) == nil {
		return nil, &PathError{Op: "stat", Path: name, Err: ErrNotExist}
	}
	return nil, nil
}

func Mkdir(name string, perm FileMode) error    { return nil }
func MkdirAll(name string, perm FileMode) error { return nil }
func Chmod(name string, mode FileMode) error    { return nil }

func ReadFile(name string) ([]byte, error) {
	n := find(name)
	if n == nil {
		return nil, &PathError{Op: "open", Path: name, Err: ErrNotExist}
	}
	return append([]byte{}, n.data...), nil
}

func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

// Exists says whether there is such a file.
func Exists(name string) bool { return find(name) != nil }
