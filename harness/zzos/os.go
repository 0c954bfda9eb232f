// Package zzos stands in for package os in programs under check: files are
// kept in memory, Exit panics.
package zzos

import (
	"io"
	"io/fs"
	"time"
)

type (
	// FileMode and others are as in package os.
	FileMode  = fs.FileMode
	FileInfo  = fs.FileInfo
	PathError = fs.PathError
	// Signal is not used.
	Signal interface{ Signal() }
)

const (
	O_RDONLY = 0
	O_WRONLY = 1
	O_RDWR   = 2
	O_APPEND = 0x400
	O_CREATE = 0x40
	O_EXCL   = 0x80
	O_SYNC   = 0x101000
	O_TRUNC  = 0x200

	PathSeparator     = '/'
	PathListSeparator = ':'
	DevNull           = "/dev/null"

	ModePerm = fs.ModePerm
)

var (
	Args          []string
	Stdin         = &File{name: "/dev/stdin", std: true}
	Stdout        = &File{name: "/dev/stdout", std: true}
	Stderr        = &File{name: "/dev/stderr", std: true}
	ErrNotExist   = fs.ErrNotExist
	ErrExist      = fs.ErrExist
	ErrPermission = fs.ErrPermission
	ErrInvalid    = fs.ErrInvalid
	ErrClosed     = fs.ErrClosed
	Files         map[string][]byte // the file system
	Writes        int               // files written
	ReadOnly      bool              // writes fail
	WorkDir       = "/"
	Printed       []byte // written to Stdout
)

// ExitCode is the panic value of Exit.
type ExitCode int

// Reset empties the file system.
func Reset(args ...string) {
	Args, Files, Writes, ReadOnly, Printed = args, map[string][]byte{}, 0, false, nil
}

// Exit ends the program.
func Exit(code int) { panic(ExitCode(code)) }

func abs(name string) string {
	if name == "" || name[0] != '/' {
		return WorkDir + name
	}
	return name
}

// ReadFile reads a file.
func ReadFile(name string) ([]byte, error) {
	b, ok := Files[abs(name)]
	if !ok {
		return nil, &PathError{Op: "open", Path: name, Err: ErrNotExist}
	}
	return append([]byte{}, b...), nil
}

// WriteFile writes a file.
func WriteFile(name string, data []byte, perm FileMode) error {
	if ReadOnly || name == "" {
		return &PathError{Op: "open", Path: name, Err: ErrPermission}
	}
	Files[abs(name)] = append([]byte{}, data...)
	Writes++
	return nil
}

// File is an open file.
type File struct {
	name   string
	std    bool
	closed bool
	pos    int
}

// Open opens a file for reading.
func Open(name string) (*File, error) { return OpenFile(name, O_RDONLY, 0) }

// Create makes an empty file.
func Create(name string) (*File, error) {
	return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0o666)
}

// OpenFile opens a file.
func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	n := abs(name)
	b, ok := Files[n]
	if flag&(O_WRONLY|O_RDWR) != 0 && (ReadOnly || name == "") {
		return nil, &PathError{Op: "open", Path: name, Err: ErrPermission}
	}
	if !ok && flag&O_CREATE == 0 {
		return nil, &PathError{Op: "open", Path: name, Err: ErrNotExist}
	}
	if ok && flag&O_CREATE != 0 && flag&O_EXCL != 0 {
		return nil, &PathError{Op: "open", Path: name, Err: ErrExist}
	}
	if !ok || flag&O_TRUNC != 0 {
		Files[n] = []byte{}
		Writes++
	}
	f := &File{name: n}
	if flag&O_APPEND != 0 {
		f.pos = len(b)
	}
	return f, nil
}

// Name is the name of the file.
func (f *File) Name() string { return f.name }

// Write writes at the position.
func (f *File) Write(b []byte) (int, error) {
	if f.closed {
		return 0, ErrClosed
	}
	if f.std {
		if f == Stdout {
			Printed = append(Printed, b...)
		}
		return len(b), nil
	}
	o := Files[f.name]
	n := append(append([]byte{}, o[:f.pos]...), b...)
	if f.pos+len(b) < len(o) {
		n = append(n, o[f.pos+len(b):]...)
	}
	f.pos += len(b)
	Files[f.name] = n
	return len(b), nil
}

// WriteString writes at the position.
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

// Read reads at the position.
func (f *File) Read(b []byte) (int, error) {
	if f.closed {
		return 0, ErrClosed
	}
	o := Files[f.name]
	if f.pos >= len(o) {
		return 0, io.EOF
	}
	n := copy(b, o[f.pos:])
	f.pos += n
	return n, nil
}

type fileInfo struct {
	name string
	size int64
}

func (i fileInfo) Name() string       { return i.name }
func (i fileInfo) Size() int64        { return i.size }
func (i fileInfo) Mode() FileMode     { return 0o644 }
func (i fileInfo) ModTime() time.Time { return time.Time{} }
func (i fileInfo) IsDir() bool        { return false }
func (i fileInfo) Sys() any           { return nil }

// Stat gives name and size.
func (f *File) Stat() (FileInfo, error) {
	return fileInfo{f.name, int64(len(Files[f.name]))}, nil
}

// Stat gives name and size of a file.
func Stat(name string) (FileInfo, error) {
	b, ok := Files[abs(name)]
	if !ok {
		return nil, &PathError{Op: "stat", Path: name, Err: ErrNotExist}
	}
	return fileInfo{name, int64(len(b))}, nil
}

// Close closes the file.
func (f *File) Close() error {
	if f.closed {
		return ErrClosed
	}
	f.closed = true
	return nil
}

// Sync does nothing.
func (f *File) Sync() error { return nil }

// Chmod does nothing.
func (f *File) Chmod(mode FileMode) error { return nil }

// Remove removes a file.
func Remove(name string) error {
	n := abs(name)
	if _, ok := Files[n]; !ok {
		return &PathError{Op: "remove", Path: name, Err: ErrNotExist}
	}
	delete(Files, n)
	return nil
}

// Rename renames a file.
func Rename(from, to string) error {
	f := abs(from)
	b, ok := Files[f]
	if !ok || ReadOnly {
		return &PathError{Op: "rename", Path: from, Err: ErrNotExist}
	}
	delete(Files, f)
	Files[abs(to)] = b
	Writes++
	return nil
}

// IsNotExist, IsExist and IsPermission are as in package os.
func IsNotExist(e error) bool   { return is(e, ErrNotExist) }
func IsExist(e error) bool      { return is(e, ErrExist) }
func IsPermission(e error) bool { return is(e, ErrPermission) }

func is(e, target error) bool {
	p, ok := e.(*PathError)
	return e == target || ok && p.Err == target
}

// Getwd is the working directory.
func Getwd() (string, error) { return WorkDir, nil }

// Getenv is empty.
func Getenv(string) string { return "" }

// LookupEnv finds nothing.
func LookupEnv(string) (string, bool) { return "", false }

// MkdirAll and Mkdir do nothing.
func MkdirAll(string, FileMode) error { return nil }
func Mkdir(string, FileMode) error    { return nil }

// Chmod does nothing.
func Chmod(string, FileMode) error { return nil }

// TempDir is a directory.
func TempDir() string { return "/tmp" }

// CreateTemp makes a file.
func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = "/tmp"
	}
	return Create(dir + "/" + pattern + "1")
}
