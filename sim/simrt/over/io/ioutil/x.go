package ioutil

import (
	"io/fs"
	"simrt"
)

func ReadFile(n string) ([]byte, error)                 { return simrt.ReadFile(n) }
func WriteFile(n string, b []byte, p fs.FileMode) error { return simrt.WriteFile(n, b, p) }
func TempDir(d, p string) (string, error)               { return simrt.MkdirTemp(d, p) }
func TempFile(d, p string) (*simrt.File, error)         { return simrt.CreateTemp(d, p) }
