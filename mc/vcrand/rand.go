// Package vcrand replaces crypto/rand.
package vcrand

import (
	"io"

	"vmc/vs"
)

type reader struct{}

func (reader) Read(p []byte) (int, error) {
	for i := 0; i < len(p); i += 8 {
		v := vs.Rand64()
		for j := i; j < len(p) && j < i+8; j++ {
			p[j] = byte(v)
			v >>= 8
		}
	}
	return len(p), nil
}

// Reader is deterministic.
var Reader io.Reader = reader{}

// Read fills p.
func Read(p []byte) (int, error) { return Reader.Read(p) }

// Text is rand.Text.
func Text() string {
	const al = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"
	b := make([]byte, 26)
	Read(b)
	for i := range b {
		b[i] = al[b[i]%32]
	}
	return string(b)
}
