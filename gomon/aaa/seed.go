// Package aaa makes crypto/rand reproducible; its path sorts before the packages under test,
// so it is initialised before they capture the reader.
package aaa

import (
	cryptorand "crypto/rand"
	"errors"
	"io"
	"sync"
)

// splitmix is a small generator: packages beyond those of the library under test would delay
// the initialisation of this one.
type splitmix uint64

func (s *splitmix) next() uint64 {
	*s += 0x9e3779b97f4a7c15
	z := uint64(*s)
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

type Reader struct {
	mu      sync.Mutex
	src     splitmix
	n       int64 // bytes handed out so far
	pattern []byte
	pos     int
	short   bool
	mode    string
	failed  bool
}

func (r *Reader) Read(b []byte) (int, error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.mode != "" {
		r.failed = true
		switch r.mode {
		case "eof":
			return 0, io.EOF
		case "partial":
			r.mode = "error"
			for i := 0; i < len(b) && i < 3; i++ {
				b[i] = 7
			}
			return min(3, len(b)), nil
		}
		return 0, errors.New("no randomness")
	}
	if r.short && len(b) > 1 {
		b = b[:1+int(r.src.next()%uint64(min(len(b), 13)))]
	}
	r.n += int64(len(b))
	if r.pattern != nil {
		for i := range b {
			b[i] = r.pattern[r.pos]
			r.pos = (r.pos + 1) % len(r.pattern)
		}
		return len(b), nil
	}
	for i := 0; i < len(b); {
		w := r.src.next()
		for k := 0; k < 8 && i < len(b); k++ {
			b[i] = byte(w >> (8 * k))
			i++
		}
	}
	return len(b), nil
}

var r = &Reader{src: 1}

// Seed restarts the stream; bytes buffered elsewhere are still used up first.
func Seed(seed uint64) {
	r.mu.Lock()
	r.src = splitmix(seed)
	r.mu.Unlock()
}

// SetPattern makes the stream repeat the bytes (nil: random again).
func SetPattern(p []byte) {
	r.mu.Lock()
	r.pattern, r.pos = p, 0
	r.mu.Unlock()
}

// SetShort makes the source return a few bytes at a time.
func SetShort(s bool) {
	r.mu.Lock()
	r.short = s
	r.mu.Unlock()
}

// Fail makes the source fail from now on.
func Fail(mode string) {
	r.mu.Lock()
	r.mode = mode
	r.mu.Unlock()
}

func Failed() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.failed
}

// Handed is the number of bytes handed out so far.
func Handed() int64 {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.n
}

func init() { cryptorand.Reader = r }
