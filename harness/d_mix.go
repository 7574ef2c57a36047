package main

import "strings"

// mix <driver:arg:arg...> ...: runs several drivers in one process, one at a
// time, and switches between them after events.  What one of them leaves behind
// in the code under test (caches, tables, parameters) is there for the others.

type turnT struct {
	ready []chan bool // of the drivers that are not running
	self  chan bool   // of the one that is
	left  int
}

var turns *turnT

func init() { drivers["mix"] = dMix }

// turn lets another driver go on, perhaps.
func turn() {
	t := turns
	if t == nil || inReader > 0 || len(t.ready) == 0 || rng.Intn(3) == 0 {
		return
	}
	i := rng.Intn(len(t.ready))
	next, me := t.ready[i], t.self
	t.ready[i] = me
	t.self = next
	next <- true
	<-me
}

func dMix(a []string) {
	t := &turnT{}
	done := make(chan bool)
	for _, spec := range a {
		f := strings.Split(spec, ":")
		d, ok := drivers[f[0]]
		if !ok {
			fatal("mix: no driver %s", f[0])
		}
		c := make(chan bool)
		t.ready = append(t.ready, c)
		go func() {
			<-c
			d(f[1:])
			if len(t.ready) == 0 {
				close(done)
				return
			}
			next := t.ready[len(t.ready)-1]
			t.ready = t.ready[:len(t.ready)-1]
			t.self = next
			next <- true
		}()
	}
	turns = t
	t.self = t.ready[len(t.ready)-1]
	t.ready = t.ready[:len(t.ready)-1]
	t.self <- true
	<-done
	turns = nil
}
