// Package vbufpool replaces github.com/chronos-tachyon/bufferpool: same
// contract, deterministic reuse, and the memory of a returned buffer is
// overwritten so that any use after return becomes visible.
package vbufpool

import (
	"bytes"

	"verif.local/sim/vsync"
)

var gPool = vsync.Pool{
	New: func() interface{} {
		buf := new(bytes.Buffer)
		buf.Grow(256)
		return buf
	},
}

// Get returns an empty buffer.
func Get() *bytes.Buffer { return gPool.Get().(*bytes.Buffer) }

// Put returns a buffer to the pool.
func Put(buf *bytes.Buffer) {
	if buf == nil {
		panic("bufferpool: nil buffer")
	}
	b := buf.Bytes()
	b = b[:cap(b)]
	for i := range b {
		b[i] = 0xA5
	}
	buf.Reset()
	buf.Grow(256)
	gPool.Put(buf)
}
