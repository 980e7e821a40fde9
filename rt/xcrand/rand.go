// Package rand replaces crypto/rand by a counter: fresh, deterministic bytes.
package rand

import (
	"io"
	"math/big"

	"github.com/luxfi/zmq/v4/internal/zzmc/mc"
)

type reader struct{}

// Every read yields different bytes that depend only on the reading
// goroutine's history.
func (reader) Read(p []byte) (int, error) {
	k := mc.CurKey()
	for i := range p {
		if i%8 == 0 && i > 0 {
			k = k*0x9e3779b97f4a7c15 + 1
		}
		p[i] = byte(k >> (8 * (i % 8)))
	}
	return len(p), nil
}

var Reader io.Reader = reader{}

func Read(b []byte) (int, error) { return io.ReadFull(Reader, b) }

func Text() string {
	var b [26]byte
	Read(b[:])
	for i := range b {
		b[i] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"[b[i]%32]
	}
	return string(b[:])
}

func Int(r io.Reader, max *big.Int) (*big.Int, error) {
	var b [8]byte
	Read(b[:])
	return new(big.Int).Mod(new(big.Int).SetBytes(b[:]), max), nil
}
