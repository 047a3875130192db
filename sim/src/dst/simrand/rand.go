// Package simrand stands in for crypto/rand: the simulator's entropy.
package simrand

import (
	"errors"
	"io"
	"math/big"

	crand "crypto/rand"

	"dst/sim"
)

type reader struct{}

// ErrEntropy is the failure of the entropy source.
var ErrEntropy = errors.New("crypto/rand: entropy source failed")

func (reader) Read(b []byte) (int, error) {
	if !sim.Active() {
		for i := range b {
			b[i] = byte(i * 7)
		}
		return len(b), nil
	}
	return sim.W.ReadEntropy(b)
}

var Reader io.Reader = reader{}

func Read(b []byte) (int, error) { return io.ReadFull(Reader, b) }

// With the simulator's reader these are the library's own algorithms.
func Int(r io.Reader, max *big.Int) (*big.Int, error) { return crand.Int(r, max) }

func Prime(r io.Reader, bits int) (*big.Int, error) {
	for {
		b := make([]byte, (bits+7)/8)
		if _, err := io.ReadFull(r, b); err != nil {
			return nil, err
		}
		p := new(big.Int).SetBytes(b)
		p.Rsh(p, uint(len(b)*8-bits))
		p.SetBit(p, bits-1, 1)
		p.SetBit(p, bits-2, 1)
		p.SetBit(p, 0, 1)
		if p.ProbablyPrime(20) {
			return p, nil
		}
	}
}

func Text() string {
	const al = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"
	b := make([]byte, 26)
	if _, err := Read(b); err != nil {
		panic(err)
	}
	for i := range b {
		b[i] = al[b[i]%32]
	}
	return string(b)
}

func init() {
	sim.SetCryptoReader(reader{})
	sim.RegisterPackage("crypto/rand", func() { Reader = reader{} }, func() func() {
		r := Reader
		return func() { Reader = r }
	})
}
