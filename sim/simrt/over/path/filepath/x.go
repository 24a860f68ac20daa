package filepath

import (
	rf "path/filepath"
	"simrt"
)

func Abs(p string) (string, error) {
	if rf.IsAbs(p) {
		return rf.Clean(p), nil
	}
	wd, _ := simrt.Getwd()
	return rf.Join(wd, p), nil
}
