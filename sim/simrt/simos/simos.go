// Package simos stands in for package os.
package simos

import (
	"errors"
	ros "os"

	rt "github.com/arl/go-detour/verifsimrt"
)

type (
	File         = rt.File
	FileInfo     = ros.FileInfo
	FileMode     = ros.FileMode
	PathError    = ros.PathError
	LinkError    = ros.LinkError
	SyscallError = ros.SyscallError
	Signal       = ros.Signal
	DirEntry     = ros.DirEntry
)

const (
	O_RDONLY = ros.O_RDONLY
	O_WRONLY = ros.O_WRONLY
	O_RDWR   = ros.O_RDWR
	O_APPEND = ros.O_APPEND
	O_CREATE = ros.O_CREATE
	O_EXCL   = ros.O_EXCL
	O_SYNC   = ros.O_SYNC
	O_TRUNC  = ros.O_TRUNC

	SEEK_SET = 0
	SEEK_CUR = 1
	SEEK_END = 2

	ModePerm          = ros.ModePerm
	ModeDir           = ros.ModeDir
	ModeCharDevice    = ros.ModeCharDevice
	ModeType          = ros.ModeType
	ModeSymlink       = ros.ModeSymlink
	ModeNamedPipe     = ros.ModeNamedPipe
	ModeDevice        = ros.ModeDevice
	ModeAppend        = ros.ModeAppend
	ModeExclusive     = ros.ModeExclusive
	ModeTemporary     = ros.ModeTemporary
	ModeIrregular     = ros.ModeIrregular
	PathListSeparator = ros.PathListSeparator
	PathSeparator     = ros.PathSeparator
	DevNull           = ros.DevNull
)

var (
	Stdin  = rt.Stdin
	Stdout = rt.Stdout
	Stderr = rt.Stderr
	Args   = []string{"recast"}

	ErrInvalid    = ros.ErrInvalid
	ErrPermission = ros.ErrPermission
	ErrExist      = ros.ErrExist
	ErrNotExist   = ros.ErrNotExist
	ErrClosed     = ros.ErrClosed

	ErrDeadlineExceeded = ros.ErrDeadlineExceeded
	ErrProcessDone      = ros.ErrProcessDone
	ErrNoDeadline       = ros.ErrNoDeadline
	Interrupt           = ros.Interrupt
	Kill                = ros.Kill
)

func Exit(code int)                       { rt.DoExit(code, "os.Exit") }
func Create(name string) (*File, error)   { return rt.OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0666) }
func Open(name string) (*File, error)     { return rt.OpenFile(name, O_RDONLY, 0) }
func Stat(name string) (FileInfo, error)  { return rt.Stat(name) }
func Lstat(name string) (FileInfo, error) { return rt.Stat(name) }
func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	return rt.OpenFile(name, flag, perm)
}
func IsNotExist(err error) bool                               { return ros.IsNotExist(err) }
func IsExist(err error) bool                                  { return ros.IsExist(err) }
func IsPermission(err error) bool                             { return ros.IsPermission(err) }
func IsTimeout(err error) bool                                { return ros.IsTimeout(err) }
func ReadFile(name string) ([]byte, error)                    { return rt.ReadFile(name) }
func WriteFile(name string, data []byte, perm FileMode) error { return rt.WriteFile(name, data, perm) }
func Rename(a, b string) error                                { return rt.Rename(a, b) }
func Remove(name string) error                                { return rt.Remove(name) }
func RemoveAll(name string) error {
	err := rt.Remove(name)
	if errors.Is(err, ErrNotExist) {
		return nil
	}
	return err
}
func Mkdir(name string, perm FileMode) error    { return rt.Mkdir(name, perm) }
func MkdirAll(name string, perm FileMode) error { return rt.MkdirAll(name, perm) }
func Chmod(string, FileMode) error              { return nil }
func Truncate(name string, n int64) error {
	f, err := rt.OpenFile(name, O_RDWR, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(n)
}
func CreateTemp(dir, pattern string) (*File, error) {
	return rt.OpenFile(rt.TempName(dir, pattern), O_RDWR|O_CREATE|O_EXCL, 0600)
}
func TempDir() string                 { return "/tmp" }
func Getwd() (string, error)          { return "/work", nil }
func Getenv(string) string            { return "" }
func LookupEnv(string) (string, bool) { return "", false }
func Getpid() int                     { return 1 }
func SameFile(a, b FileInfo) bool     { return rt.SameFile(a, b) }
func Environ() []string               { return nil }
func Setenv(string, string) error     { return nil }
func Unsetenv(string) error           { return nil }
func ExpandEnv(s string) string       { return ros.Expand(s, func(string) string { return "" }) }
func Expand(s string, f func(string) string) string {
	return ros.Expand(s, f)
}
func Hostname() (string, error)    { return "sim", nil }
func Executable() (string, error)  { return "/work/recast", nil }
func UserHomeDir() (string, error) { return "/work", nil }
func Getppid() int                 { return 1 }
func Getuid() int                  { return 1 }
func Geteuid() int                 { return 1 }
func Getpagesize() int             { return 4096 }
func IsPathSeparator(c uint8) bool { return ros.IsPathSeparator(c) }
func Chdir(string) error           { return nil }
func MkdirTemp(dir, pattern string) (string, error) {
	n := rt.TempName(dir, pattern)
	return n, rt.Mkdir(n, 0700)
}
func ReadDir(name string) ([]DirEntry, error) { return rt.ReadDir(name) }
func NewSyscallError(s string, err error) error {
	return ros.NewSyscallError(s, err)
}
