package rand

import (
	"io"
	"math/big"
	"simrt"
)

type rd struct{}

func (rd) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(simrt.RandU64())
	}
	return len(p), nil
}

var Reader io.Reader = rd{}

func Read(p []byte) (int, error) { return rd{}.Read(p) }
func Int(r io.Reader, max *big.Int) (*big.Int, error) {
	return new(big.Int).Mod(new(big.Int).SetUint64(simrt.RandU64()), max), nil
}
