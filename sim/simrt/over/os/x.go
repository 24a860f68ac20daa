package os

import (
	"io/fs"
	ro "os"
	"simrt"
	"sort"
	"strings"
	"syscall"
)

type File = simrt.File

var (
	Stdin  = simrt.Stdin
	Stdout = simrt.Stdout
	Stderr = simrt.Stderr
)

// Args is rewritten to a call by the rewriter (it differs per process).
func Args() []string { return append([]string{}, simrt.CurNode().Args...) }

func Open(n string) (*File, error)                                  { return simrt.Open(n) }
func Create(n string) (*File, error)                                { return simrt.Create(n) }
func OpenFile(n string, f int, p fs.FileMode) (*File, error)        { return simrt.OpenFile(n, f, p) }
func CreateTemp(d, p string) (*File, error)                         { return simrt.CreateTemp(d, p) }
func MkdirTemp(d, p string) (string, error)                         { return simrt.MkdirTemp(d, p) }
func Remove(n string) error                                         { return simrt.Remove(n) }
func RemoveAll(n string) error                                      { return simrt.RemoveAll(n) }
func Rename(a, b string) error                                      { return simrt.Rename(a, b) }
func Mkdir(n string, p fs.FileMode) error                           { return simrt.Mkdir(n, p) }
func MkdirAll(n string, p fs.FileMode) error                        { return simrt.MkdirAll(n, p) }
func ReadFile(n string) ([]byte, error)                             { return simrt.ReadFile(n) }
func WriteFile(n string, b []byte, p fs.FileMode) error             { return simrt.WriteFile(n, b, p) }
func Stat(n string) (fs.FileInfo, error)                            { return simrt.Stat(n) }
func Lstat(n string) (fs.FileInfo, error)                           { return simrt.Stat(n) }
func ReadDir(n string) ([]fs.DirEntry, error)                       { return simrt.ReadDir(n) }
func Chdir(d string) error                                          { return simrt.Chdir(d) }
func Chmod(n string, m fs.FileMode) error                           { return simrt.Chmod(n, m) }
func Getwd() (string, error)                                        { return simrt.Getwd() }
func TempDir() string                                               { return "/tmp" }
func Getpid() int                                                   { return 100 + simrt.CurNode().Idx }
func Getppid() int                                                  { return 1 }
func Hostname() (string, error)                                     { return simrt.CurNode().Host, nil }
func Exit(code int)                                                 { simrt.Exit(code, "exit", "") }
func UserHomeDir() (string, error)                                  { return "/home/finch", nil }
func Getenv(k string) string                                        { return simrt.CurNode().Env[k] }
func LookupEnv(k string) (string, bool)                             { v, ok := simrt.CurNode().Env[k]; return v, ok }
func Setenv(k, v string) error                                      { simrt.CurNode().Env[k] = v; return nil }
func Unsetenv(k string) error                                       { delete(simrt.CurNode().Env, k); return nil }
func Environ() []string {
	var out []string
	for k, v := range simrt.CurNode().Env {
		out = append(out, k+"="+v)
	}
	sort.Strings(out)
	return out
}
func ExpandEnv(s string) string { return ro.Expand(s, Getenv) }

// Process of another or the own process: signals only.
type Process struct{ Pid int }

func FindProcess(pid int) (*Process, error) { return &Process{pid}, nil }
func (p *Process) Signal(s ro.Signal) error {
	n := simrt.CurNode()
	if p.Pid == Getpid() {
		n.Signal(s)
		return nil
	}
	return syscall.ESRCH
}

var _ = strings.TrimSpace
