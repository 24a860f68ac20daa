package net

import (
	"context"
	"errors"
	rn "net"
	"simrt/simnet"
	"time"
)

func Listen(network, addr string) (rn.Listener, error) { return simnet.Listen(addr) }
func Dial(network, addr string) (rn.Conn, error) {
	return nil, errors.New("simulated network: raw connections are not supported")
}
func DialTimeout(network, addr string, d time.Duration) (rn.Conn, error) { return Dial(network, addr) }

type Dialer struct {
	Timeout, KeepAlive, FallbackDelay time.Duration
	Deadline                          time.Time
}

func (d *Dialer) Dial(network, addr string) (rn.Conn, error) { return Dial(network, addr) }
func (d *Dialer) DialContext(ctx context.Context, network, addr string) (rn.Conn, error) {
	return Dial(network, addr)
}
func LookupHost(h string) ([]string, error) { return []string{h}, nil }
