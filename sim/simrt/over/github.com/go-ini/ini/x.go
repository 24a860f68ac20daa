// Package ini is the real package, reading files of the simulated file system.
package ini

import (
	"io"

	ri "github.com/go-ini/ini"
	"simrt"
)

type (
	File        = ri.File
	Section     = ri.Section
	Key         = ri.Key
	LoadOptions = ri.LoadOptions
)

func in(source any) (any, error) {
	s, ok := source.(string)
	if !ok {
		return source, nil
	}
	f, err := simrt.OpenFile(s, 0, 0)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

func LoadSources(opts LoadOptions, source any, others ...any) (*File, error) {
	var err error
	if source, err = in(source); err != nil {
		if !opts.Loose {
			return nil, err
		}
		source = []byte{}
	}
	o := make([]any, len(others))
	for i := range others {
		if o[i], err = in(others[i]); err != nil {
			if !opts.Loose {
				return nil, err
			}
			o[i] = []byte{}
		}
	}
	return ri.LoadSources(opts, source, o...)
}

func Load(source any, others ...any) (*File, error) {
	return LoadSources(LoadOptions{}, source, others...)
}
func LooseLoad(source any, others ...any) (*File, error) {
	return LoadSources(LoadOptions{Loose: true}, source, others...)
}
func InsensitiveLoad(source any, others ...any) (*File, error) {
	return LoadSources(LoadOptions{Insensitive: true}, source, others...)
}
func Empty(opts ...LoadOptions) *File { return ri.Empty(opts...) }
