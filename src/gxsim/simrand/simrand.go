// Package simrand is the system's random source under the simulator's control.
package simrand

import (
	"errors"
	"io"
	"math/big"
	"unsafe"

	crand "crypto/rand"

	"gxsim/rng"
	"gxsim/simrt"
)

// Src decides what a read of the random source delivers. A run sets it.
var Src = &Source{R: rng.New(1)}

// Source is a seeded stream with injected failures.
type Source struct {
	R     *rng.R
	Reads int
	// Fail, if set, says how the n-th read (from 0) fails; nil: it succeeds.
	Fail func(n int) error
}

// ErrEntropy is the injected failure.
var ErrEntropy = errors.New("simrand: no entropy")

type reader struct{}

var hb [8]byte

func (reader) Read(b []byte) (int, error) {
	if len(b) == 1 {
		// The standard library reads single bytes at random, to keep callers
		// from relying on its use of the source; they leave no trace here.
		b[0] = 0x5a
		return 1, nil
	}
	simrt.YS()
	simrt.RaceAcquire(unsafe.Pointer(&hb))
	defer simrt.RaceRelease(unsafe.Pointer(&hb))
	n := Src.Reads
	Src.Reads++
	if Src.Fail != nil {
		if e := Src.Fail(n); e != nil {
			return 0, e
		}
	}
	copy(b, Src.R.Bytes(len(b)))
	return len(b), nil
}

// Reader stands in for crypto/rand.Reader.
var Reader io.Reader = reader{}

// Read as crypto/rand.Read.
func Read(b []byte) (int, error) { return io.ReadFull(Reader, b) }

// Int as crypto/rand.Int.
func Int(r io.Reader, max *big.Int) (*big.Int, error) { return crand.Int(r, max) }
