// Package net replaces the standard package under the model checker: Listen
// and Dial use an in-memory network.
package net

import (
	"context"
	"time"

	"gmc/vnet"
)

func Listen(network, address string) (Listener, error) { return vnet.Listen(network, address) }
func Dial(network, address string) (Conn, error)       { return vnet.Dial(network, address) }
func DialTimeout(network, address string, d time.Duration) (Conn, error) {
	return vnet.Dial(network, address)
}
func Pipe() (Conn, Conn) {
	a, b := vnet.Pair()
	return a, b
}

type Dialer struct {
	Timeout   time.Duration
	Deadline  time.Time
	LocalAddr Addr
	KeepAlive time.Duration
}

func (d *Dialer) Dial(network, address string) (Conn, error) { return vnet.Dial(network, address) }
func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {
	return vnet.Dial(network, address)
}

type ListenConfig struct{ KeepAlive time.Duration }

func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {
	return vnet.Listen(network, address)
}
