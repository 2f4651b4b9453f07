// Package rand replaces crypto/rand under the model checker.
package rand

import (
	"io"

	"gmc/mc"
)

type reader struct{}

func (reader) Read(b []byte) (int, error) {
	if f := mc.RandHook; f != nil {
		if f(b) {
			return len(b), nil
		}
	}
	for i := range b {
		b[i] = byte(mc.Rand64() >> 8)
	}
	return len(b), nil
}

// Reader is deterministic.
var Reader io.Reader = reader{}

func Read(b []byte) (int, error) { return io.ReadFull(Reader, b) }
