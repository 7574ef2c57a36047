package main

import (
	"crypto/rand"
	"errors"
	"io"
	"math/big"
	"math/bits"
	"sync"
)

var sysRand = rand.Reader

// choices is an entropy source that enumerates: every draw is a choice in
// 0..q-1, and successive runs go through all choice sequences.  Whether the
// number is taken from the low or from the high bits of a byte, or all of it is
// reduced modulo q, different choices are different numbers below q.
type choices struct {
	q     int
	path  []int
	pos   int
	other bool // something other than reads of a number was asked for
}

func (c *choices) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if len(p) > 64 {
		c.other = true
		for i := range p {
			p[i] = byte(rng.Intn(256))
		}
		return len(p), nil
	}
	if c.pos == len(c.path) {
		c.path = append(c.path, 0)
	}
	v := c.path[c.pos]
	for i := range p {
		p[i] = 0
	}
	p[len(p)-1] = byte(v)
	if len(p) == 1 {
		p[0] |= byte(v << uint(8-bits.Len(uint(c.q-1))))
	}
	c.pos++
	return len(p), nil
}

func (c *choices) next() bool {
	c.path = c.path[:c.pos]
	for i := len(c.path) - 1; i >= 0; i-- {
		if c.path[i]+1 < c.q {
			c.path[i]++
			c.path = c.path[:i+1]
			c.pos = 0
			return true
		}
	}
	return false
}

// enumerate runs f once for every outcome of its random draws (at most max
// runs).  complete is false if that was cut short or was not possible.
func enumerate(q, max int, f func(path []int)) (runs int, complete bool) {
	c := &choices{q: q}
	defer func() { rand.Reader = sysRand }()
	for {
		c.pos = 0
		rand.Reader = c
		f(c.path)
		rand.Reader = sysRand
		runs++
		if c.other {
			return runs, false
		}
		if !c.next() {
			return runs, true
		}
		if runs >= max {
			return runs, false
		}
	}
}

// scripted returns the given scalars (32 bytes big-endian each), then random ones.
type scripted struct {
	mu   sync.Mutex
	vals []*big.Int
	buf  []byte
}

func (s *scripted) Read(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if len(p) == 32 && len(s.buf) == 0 && len(s.vals) > 0 {
		s.vals[0].FillBytes(p)
		s.vals = s.vals[1:]
		return 32, nil
	}
	return io.ReadFull(sysRand, p)
}

func withReader(r io.Reader, f func()) {
	rand.Reader = r
	inReader++
	defer func() { rand.Reader = sysRand; inReader-- }()
	f()
}

// inReader is not zero while the source of entropy is not the system's.
var inReader int

var errEntropy = errors.New("entropy source failed")

// seeded is a deterministic random source.
type seeded struct{ mu sync.Mutex }

func (s *seeded) Read(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for i := range p {
		p[i] = byte(rng.Intn(256))
	}
	return len(p), nil
}
