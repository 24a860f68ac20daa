package xid

import (
	rx "github.com/rs/xid"
	"simrt"
)

func New() rx.ID {
	var b [12]byte
	x := simrt.RandU64()
	y := simrt.RandU64()
	for i := 0; i < 8; i++ {
		b[i] = byte(x >> (8 * i))
	}
	for i := 0; i < 4; i++ {
		b[8+i] = byte(y >> (8 * i))
	}
	id, _ := rx.FromBytes(b[:])
	return id
}
func NewWithTime(any) rx.ID { return New() }
