// Package os replaces the standard package in the rewritten code: the real
// file system confined to one scratch directory, with scheduling points,
// fault injection and crash points before every operation.
package os

import (
	"io"
	"io/fs"
	std "os"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"verif/vsched"
)

// Op describes one file system operation about to happen.
type Op struct {
	Kind  string // open create write close rename remove stat mkdir chown readdir sync truncate read
	Path  string
	Path2 string
	Data  []byte
}

// Action is the environment's answer.
type Action struct {
	Err        error // fail with this error
	Short      int   // for write: number of bytes written before failing (with Err)
	CrashAfter bool  // perform the operation (Short bytes of a write if Err is set), then crash
	Crash      bool  // crash before the operation
}

// Root is the only directory in which the code under test may change anything.
var Root string

// Hook, if set, decides every operation.
var Hook func(op *Op) Action

// After, if set, is told about every operation that was performed.
var After func(op *Op, err error)

// Escapes lists refused operations outside Root.
var Escapes []string

func inside(path string) bool {
	if Root == "" {
		return false
	}
	if !filepath.IsAbs(path) {
		wd, _ := std.Getwd()
		path = filepath.Join(wd, path)
	}
	path = filepath.Clean(path)
	return path == Root || strings.HasPrefix(path, Root+"/")
}

func guard(op *Op) error {
	for _, p := range []string{op.Path, op.Path2} {
		if p != "" && !inside(p) {
			Escapes = append(Escapes, op.Kind+" "+p)
			return &std.PathError{Op: op.Kind, Path: p, Err: syscall.EPERM}
		}
	}
	return nil
}

// do runs one operation. mutating operations are confined to Root.
func do(op *Op, mutating bool, f func() error) error {
	if vsched.Killing() {
		return &std.PathError{Op: op.Kind, Path: op.Path, Err: syscall.EIO}
	}
	vsched.Point("fs." + op.Kind)
	if vsched.Killing() {
		return &std.PathError{Op: op.Kind, Path: op.Path, Err: syscall.EIO}
	}
	if mutating {
		if err := guard(op); err != nil {
			return err
		}
	}
	var a Action
	if Hook != nil {
		a = Hook(op)
	}
	if a.Crash {
		vsched.Crash()
	}
	err := a.Err
	if err == nil {
		err = f()
	}
	if After != nil {
		After(op, err)
	}
	if a.CrashAfter {
		vsched.Crash()
	}
	return err
}

type File struct {
	*std.File
	path string
}

var Stdin = &File{std.Stdin, "/dev/stdin"}
var Stdout = &File{std.Stdout, "/dev/stdout"}
var Stderr = &File{std.Stderr, "/dev/stderr"}

func wrap(f *std.File, err error) (*File, error) {
	if err != nil || f == nil {
		return nil, err
	}
	return &File{f, f.Name()}, nil
}

func NewFile(fd uintptr, name string) *File {
	f := std.NewFile(fd, name)
	if f == nil {
		return nil
	}
	return &File{f, name}
}

func OpenFile(name string, flag int, perm fs.FileMode) (ret *File, err error) {
	kind, mut := "open", flag&(std.O_WRONLY|std.O_RDWR|std.O_CREATE|std.O_TRUNC|std.O_APPEND) != 0
	if flag&std.O_CREATE != 0 {
		kind = "create"
	}
	err = do(&Op{Kind: kind, Path: name}, mut, func() error {
		f, e := std.OpenFile(name, flag, perm)
		ret, e = wrap(f, e)
		return e
	})
	if err != nil {
		return nil, err
	}
	return ret, nil
}

func Open(name string) (*File, error) { return OpenFile(name, std.O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, std.O_RDWR|std.O_CREATE|std.O_TRUNC, 0666)
}
func CreateTemp(dir, pattern string) (*File, error) {
	if !inside(dir) {
		Escapes = append(Escapes, "createtemp "+dir)
		return nil, &std.PathError{Op: "createtemp", Path: dir, Err: syscall.EPERM}
	}
	return wrap(std.CreateTemp(dir, pattern))
}

func (f *File) std() bool { return f.File == std.Stdout || f.File == std.Stderr || f.File == std.Stdin }

func (f *File) Write(b []byte) (n int, err error) {
	if f == nil {
		return 0, std.ErrInvalid
	}
	if f.std() {
		return f.File.Write(b)
	}
	return f.write(b, func(b []byte) (int, error) { return f.File.Write(b) })
}

func (f *File) write(b []byte, w func([]byte) (int, error)) (n int, err error) {
	op := &Op{Kind: "write", Path: f.path, Data: b}
	if vsched.Killing() {
		return 0, &std.PathError{Op: "write", Path: f.path, Err: syscall.EIO}
	}
	vsched.Point("fs.write")
	if vsched.Killing() {
		return 0, &std.PathError{Op: "write", Path: f.path, Err: syscall.EIO}
	}
	var a Action
	if Hook != nil {
		a = Hook(op)
	}
	if a.Crash {
		vsched.Crash()
	}
	if a.Err != nil {
		if a.Short > 0 {
			n, _ = w(b[:a.Short])
		}
		err = a.Err
	} else {
		n, err = w(b)
	}
	if After != nil {
		After(op, err)
	}
	if a.CrashAfter {
		vsched.Crash()
	}
	return n, err
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }
func (f *File) WriteAt(b []byte, off int64) (int, error) {
	return f.write(b, func(b []byte) (int, error) { return f.File.WriteAt(b, off) })
}
func (f *File) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{f}, r)
}
func (f *File) Close() error {
	if f == nil {
		return std.ErrInvalid
	}
	if f.std() {
		return nil
	}
	if vsched.Killing() {
		return f.File.Close()
	}
	vsched.Point("fs.close")
	op := &Op{Kind: "close", Path: f.path}
	var a Action
	if Hook != nil {
		a = Hook(op)
	}
	if a.Crash {
		f.File.Close()
		vsched.Crash()
	}
	err := f.File.Close() // the descriptor is released even when close reports an error
	if a.Err != nil {
		err = a.Err
	}
	if After != nil {
		After(op, err)
	}
	if a.CrashAfter {
		vsched.Crash()
	}
	return err
}
func (f *File) Sync() error {
	if f.std() {
		return nil
	}
	return do(&Op{Kind: "sync", Path: f.path}, false, func() error { return nil })
}
func (f *File) Truncate(n int64) error {
	return do(&Op{Kind: "truncate", Path: f.path}, true, func() error { return f.File.Truncate(n) })
}
func (f *File) Stat() (fi fs.FileInfo, err error) {
	err = do(&Op{Kind: "stat", Path: f.path}, false, func() error { fi, err = f.File.Stat(); return err })
	return fi, err
}
func (f *File) Chmod(m fs.FileMode) error {
	return do(&Op{Kind: "chmod", Path: f.path}, true, func() error { return f.File.Chmod(m) })
}
func (f *File) Chown(u, g int) error {
	return do(&Op{Kind: "chown", Path: f.path}, true, func() error { return f.File.Chown(u, g) })
}

func Rename(a, b string) error {
	return do(&Op{Kind: "rename", Path: a, Path2: b}, true, func() error { return std.Rename(a, b) })
}
func Link(a, b string) error {
	return do(&Op{Kind: "link", Path: a, Path2: b}, true, func() error { return std.Link(a, b) })
}
func Symlink(a, b string) error {
	return do(&Op{Kind: "symlink", Path: a, Path2: b}, true, func() error { return std.Symlink(a, b) })
}
func Remove(a string) error {
	return do(&Op{Kind: "remove", Path: a}, true, func() error { return std.Remove(a) })
}
func RemoveAll(a string) error {
	return do(&Op{Kind: "remove", Path: a}, true, func() error { return std.RemoveAll(a) })
}
func Truncate(a string, n int64) error {
	return do(&Op{Kind: "truncate", Path: a}, true, func() error { return std.Truncate(a, n) })
}
func Mkdir(a string, m fs.FileMode) error {
	return do(&Op{Kind: "mkdir", Path: a}, true, func() error { return std.Mkdir(a, m) })
}
func MkdirAll(a string, m fs.FileMode) error {
	return do(&Op{Kind: "mkdir", Path: a}, true, func() error { return std.MkdirAll(a, m) })
}
func MkdirTemp(dir, pattern string) (string, error) {
	if !inside(dir) {
		Escapes = append(Escapes, "mkdirtemp "+dir)
		return "", &std.PathError{Op: "mkdirtemp", Path: dir, Err: syscall.EPERM}
	}
	return std.MkdirTemp(dir, pattern)
}
func Chown(a string, u, g int) error {
	return do(&Op{Kind: "chown", Path: a}, true, func() error { return std.Chown(a, u, g) })
}
func Lchown(a string, u, g int) error {
	return do(&Op{Kind: "chown", Path: a}, true, func() error { return std.Lchown(a, u, g) })
}
func Chmod(a string, m fs.FileMode) error {
	return do(&Op{Kind: "chmod", Path: a}, true, func() error { return std.Chmod(a, m) })
}
func Chtimes(a string, at, mt time.Time) error {
	return do(&Op{Kind: "chtimes", Path: a}, true, func() error { return std.Chtimes(a, at, mt) })
}
func Stat(a string) (fi fs.FileInfo, err error) {
	err = do(&Op{Kind: "stat", Path: a}, false, func() error { fi, err = std.Stat(a); return err })
	return fi, err
}
func Lstat(a string) (fi fs.FileInfo, err error) {
	err = do(&Op{Kind: "stat", Path: a}, false, func() error { fi, err = std.Lstat(a); return err })
	return fi, err
}
func ReadDir(a string) (r []fs.DirEntry, err error) {
	err = do(&Op{Kind: "readdir", Path: a}, false, func() error { r, err = std.ReadDir(a); return err })
	return r, err
}
func ReadFile(a string) (r []byte, err error) {
	err = do(&Op{Kind: "read", Path: a}, false, func() error { r, err = std.ReadFile(a); return err })
	return r, err
}
func WriteFile(a string, b []byte, m fs.FileMode) error {
	f, err := OpenFile(a, std.O_WRONLY|std.O_CREATE|std.O_TRUNC, m)
	if err != nil {
		return err
	}
	_, err = f.Write(b)
	if e := f.Close(); err == nil {
		err = e
	}
	return err
}

func Chdir(string) error          { return std.ErrPermission }
func Setenv(string, string) error { return nil }
func Unsetenv(string) error       { return nil }
func Clearenv()                   {}

// Exit is recorded as a panic: code under test must not end the process.
func Exit(code int) { panic("os.Exit called by the code under test") }
