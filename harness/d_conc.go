package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"os"
	"strconv"
	"sync"
	"time"
	"unsafe"

	z "github.com/mit-dci/zksigma"
	"github.com/mit-dci/zksigma/btcec"
	"github.com/mit-dci/zksigma/wire"
)

func init() {
	drivers["hold"] = dHold
	drivers["conc"] = dConc
}

// ---- forced schedules of writers and readers that keep their buffer ----

var (
	cellMu  sync.Mutex
	cellIDs = map[uintptr]int{}
	holdIDs int
	keep    [][]byte // everything ever seen stays alive, so that no address comes again
)

func cells(b []byte) []int {
	r := []int{}
	for i := range b {
		a := uintptr(unsafe.Pointer(&b[i]))
		id, ok := cellIDs[a]
		if !ok {
			id = len(cellIDs) + 1
			cellIDs[a] = id
		}
		r = append(r, id)
	}
	return r
}

func hold(kind string, t int, b []byte) int {
	cellMu.Lock()
	defer cellMu.Unlock()
	holdIDs++
	keep = append(keep, b)
	emit(M{"op": "hold", "id": strconv.Itoa(holdIDs), "kind": kind, "t": t, "cells": cells(b), "data": hb(b)})
	return holdIDs
}

func release(id, t int, b []byte) {
	cellMu.Lock()
	defer cellMu.Unlock()
	emit(M{"op": "release", "id": strconv.Itoa(id), "t": t, "data": hb(b)})
}

// actor is a thread of a schedule: it is told to enter a call, or to leave the
// innermost one it is in, and answers when it has.
type actor struct {
	t    int
	cmd  chan string
	ack  chan bool
	list []item
	n    int
}

// item is one call to make.
type item struct {
	f  string
	v  uint64
	b  []byte
	by int // readers: bytes at a time
}

// inside is called in a writer or reader that holds a buffer.
func (a *actor) inside() {
	a.ack <- true
	for {
		if <-a.cmd == "leave" {
			return
		}
		a.call()
		a.ack <- true
	}
}

// visit is the one time that an actor stays inside a call.
type visit struct{ done bool }

func (v *visit) at(a *actor, now bool) {
	if now && !v.done {
		v.done = true
		a.inside()
	}
}

type holdWriter struct {
	a     *actor
	visit *visit
	got   bytes.Buffer
	total int
	seen  int
}

func (w *holdWriter) Write(b []byte) (int, error) {
	if len(b) > 16 { // the caller's own bytes
		w.got.Write(b)
		return len(b), nil
	}
	id := hold("write", w.a.t, b)
	w.seen += len(b)
	w.visit.at(w.a, w.seen >= w.total)
	release(id, w.a.t, b)
	w.got.Write(b)
	return len(b), nil
}

type holdReader struct {
	a     *actor
	visit *visit
	in    []byte
	by    int
	total int
	seen  int
}

func (r *holdReader) Read(p []byte) (int, error) {
	if len(p) > 16 { // the result of the call, not a temporary buffer
		n := copy(p, r.in)
		r.in = r.in[n:]
		return n, nil
	}
	if len(r.in) == 0 {
		return 0, io.EOF
	}
	n := len(p)
	if n > r.by {
		n = r.by
	}
	if n > len(r.in) {
		n = len(r.in)
	}
	copy(p, r.in[:n])
	r.in = r.in[n:]
	r.seen += n
	// the part still to be filled belongs to the reader as well
	id := hold("read", r.a.t, p)
	r.visit.at(r.a, r.seen >= r.total)
	release(id, r.a.t, p)
	return n, nil
}

func (a *actor) call() {
	it := a.list[a.n%len(a.list)]
	a.n++
	m := M{"op": "done", "f": it.f, "t": a.t}
	v0 := new(visit)
	res := guard(func() {
		var err error
		switch it.f {
		case "writeint":
			w := &holdWriter{a: a, visit: v0, total: len(varint(it.v))}
			err = wire.WriteVarInt(w, it.v)
			m["v"], m["out"] = strconv.FormatUint(it.v, 16), hb(w.got.Bytes())
		case "readint":
			in := varint(it.v)
			var v uint64
			v, err = wire.ReadVarInt(&holdReader{a: a, visit: v0, in: in, by: it.by, total: len(in)})
			m["v"], m["got"] = strconv.FormatUint(it.v, 16), strconv.FormatUint(v, 16)
		case "writebytes":
			w := &holdWriter{a: a, visit: v0, total: len(varint(uint64(len(it.b))))} // kept at its length
			err = wire.WriteVarBytes(w, it.b)
			m["v"], m["out"] = hb(it.b), hb(w.got.Bytes())
		case "readbytes":
			in := varint(uint64(len(it.b)))
			total := len(in)
			var b []byte
			b, err = wire.ReadVarBytes(&holdReader{a: a, visit: v0, in: append(in, it.b...), by: it.by, total: total}, 1000, "x")
			m["v"], m["got"] = hb(it.b), hb(b)
		}
		m["res"] = "ok"
		if err != nil {
			m["res"] = "error"
		}
	})
	if res != "ok" {
		m["res"] = res
	}
	v0.at(a, true) // the library may use no temporary buffer at all
	emit(m)
}

func varint(v uint64) []byte {
	var w bytes.Buffer
	encVarInt(&w, v)
	return w.Bytes()
}

// hold <behaviours> <n>: schedules of FreeList.tla, forced on the real code
func dHold(args []string) {
	f, err := os.Open(args[0])
	if err != nil {
		fatal("%v", err)
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	var all [][]struct {
		T  int
		Do string
	}
	for sc.Scan() {
		var b struct {
			Sched []struct {
				T  int
				Do string
			}
		}
		if err := json.Unmarshal(sc.Bytes(), &b); err != nil {
			fatal("behaviour: %v", err)
		}
		all = append(all, b.Sched)
	}
	if len(args) > 3 { // more threads than the library keeps buffers for
		type step = struct {
			T  int
			Do string
		}
		n := atoi(args[3])
		order := rng.Perm(n)
		var crowd []step
		for i := 0; i < n; i++ {
			crowd = append(crowd, step{i + 1, "enter"})
		}
		for _, i := range order {
			crowd = append(crowd, step{i + 1, "leave"})
		}
		for i := 0; i < 40; i++ {
			crowd = append(crowd, step{i + 1, "enter"})
		}
		for i := 0; i < 40; i++ {
			crowd = append(crowd, step{i + 1, "leave"})
		}
		all = append(all[:0], crowd)
	}
	emit(M{"op": "begin"})
	for rep := 0; rep < atoi(args[1]); rep++ {
		for si, sched := range all {
			if len(sched) > 1000 {
				note("a crowd")
			}
			actors := map[int]*actor{}
			for _, s := range sched {
				if actors[s.T] == nil {
					a := &actor{t: s.T, cmd: make(chan string), ack: make(chan bool)}
					for i := 0; i < 40; i++ {
						it := item{f: []string{"writeint", "readint", "writebytes", "readbytes"}[rng.Intn(4)], v: rng.Uint64() >> uint(rng.Intn(64)), by: []int{1, 2, 3, 100}[rng.Intn(4)]}
						it.b = make([]byte, 1+rng.Intn(8))
						if rng.Intn(4) == 0 {
							it.b = make([]byte, 253+rng.Intn(200))
						}
						rng.Read(it.b)
						a.list = append(a.list, it)
					}
					actors[s.T] = a
					go func() {
						for c := range a.cmd {
							if c == "enter" {
								a.call()
								a.ack <- true
							}
						}
					}()
				}
			}
			for i, s := range sched {
				if len(sched) < 1000 {
					note("schedule %d (%v) step %d", si, sched, i)
				}
				a := actors[s.T]
				a.cmd <- s.Do
				select {
				case <-a.ack:
				case <-time.After(120 * time.Second):
					emit(M{"op": "hang", "sched": fmt.Sprint(len(sched), sched[:i+1]), "step": i})
					return
				}
			}
			for _, a := range actors {
				close(a.cmd)
			}
		}
	}
}

// ---- everything at once ----

// task is a call on shared objects. run returns the result if it is a function
// of the arguments, which key identifies.
type task struct {
	f, key string
	run    func() (string, error)
}

func (t task) do() M {
	var val string
	var err error
	res := guard(func() { val, err = t.run() })
	if res == "ok" && err != nil {
		res, val = "error", "error"
	}
	m := M{"op": "call", "f": t.f, "res": res, "after": M{}}
	if t.key != "" && val != "" {
		m["key"], m["val"] = t.f+" "+dg(t.key), dg(val)
	}
	return m
}

// together runs every task g times at once, in different orders.  Nothing of
// the harness orders the calls of one goroutine and another (events are written
// at the end), so that the race detector sees what the library leaves unordered.
func together(tasks []func() M, g int) {
	var start, end sync.WaitGroup
	start.Add(1)
	results := make([][]M, g)
	for i := 0; i < g; i++ {
		i := i
		order := rng.Perm(len(tasks))
		if i%2 == 1 { // half of them all the same way: the same calls meet
			for j := range order {
				order[j] = j
			}
		}
		end.Add(1)
		go func() {
			defer end.Done()
			start.Wait()
			for _, j := range order {
				results[i] = append(results[i], tasks[j]())
			}
		}()
	}
	start.Done()
	end.Wait()
	for _, r := range results {
		for _, m := range r {
			emit(m)
		}
	}
}

// firstCalls has one task of every name done by all goroutines at once, before
// any other of that name.
func firstCalls(names []string, tasks []func() M, g int) {
	seen := map[string]bool{}
	for _, i := range rng.Perm(len(tasks)) {
		if !seen[names[i]] {
			seen[names[i]] = true
			together(tasks[i:i+1], g)
		}
	}
}

// conc <env> <what> <n> <goroutines> [seed]
// what: "pure" everything that is a function, judged by FrameTrace;
// "prove" proofs, judged by SigmaTrace; "nonce" the same, judged by NonceTrace.
func dConc(a []string) {
	e := envByName(a[0])
	n, g := atoi(a[2]), atoi(a[3])
	// all that is shared is made without the code under test, so that its
	// first calls are already concurrent
	ps, vs := points(e, 4), scalars(e.N(), 10)
	kinds := append(append([]string{}, sigmaKinds...), "ineq", "range")
	if e.toy != nil {
		kinds = kinds[:6]
	}
	switch a[1] {
	case "prove", "nonce":
		var tasks []func() M
		var names []string
		for i := 0; i < n; i++ {
			k := kinds[i%len(kinds)]
			st, w := instance(e, k, ps, vs)
			names = append(names, k)
			if a[1] == "prove" {
				if i%5 == 4 && k != "range" {
					st, w = corrupt(e, k, st, w, ps, vs)
				}
				tasks = append(tasks, func() M { return proveShared(e, k, st, w) })
				continue
			}
			for isZeroInst(st, w) {
				st, w = instance(e, k, ps, vs)
			}
			tasks = append(tasks, func() M { return nonceEvent(e, k, st, w) })
		}
		if a[1] == "nonce" {
			emit(M{"op": "start", "k": "conc"})
		}
		firstCalls(names, tasks, g)
		together(tasks, g)
	case "pure":
		emit(M{"op": "begin"})
		h := &memory{all: true}
		h.packageState()
		var tasks []func() M
		var names []string
		for i := 0; i < n; i++ {
			var ts []task
			ts = append(ts, proofTasks(e, h, kinds[i%len(kinds)], ps, vs)...)
			ts = append(ts, pointTasks(e, h, ps, vs)...)
			ts = append(ts, wireTasks(h, ps, vs)...)
			ts = append(ts, keyTasks(h)...)
			for _, t := range ts {
				t := t
				tasks = append(tasks, t.do)
				names = append(names, t.f)
			}
		}
		rng.Shuffle(len(tasks), func(i, j int) {
			tasks[i], tasks[j] = tasks[j], tasks[i]
			names[i], names[j] = names[j], names[i]
		})
		firstCalls(names, tasks, g)
		together(tasks, g)
		emit(M{"op": "call", "f": "together", "res": "ok", "after": h.after()})
		for _, t := range tasks {
			emit(t())
		}
		emit(M{"op": "call", "f": "alone", "res": "ok", "after": h.after()})
	}
}

func isZeroInst(st St, w W) bool {
	for _, p := range st {
		if isZero(p) {
			return true
		}
	}
	return w.Base.X != nil && isZero(w.Base)
}

// proveShared is proveEvent on objects that others use at the same time.
func proveShared(e *env, k string, st St, w W) M {
	m := e.hdr(M{"op": "prove", "k": k, "st": st.ev(), "w": w.ev(), "ver": "none", "full": 0, "rand": "0"})
	real, extra, res := prove(e, k, st, w)
	m["res"] = res
	if real != nil {
		vst := verifierSt(e, k, st, real)
		m["ver"] = verifyReal(e, k, vst, real)
		m["vst"] = vst.ev()
		if res == "proof" {
			var p *Pf
			if o := guard(func() { p = toPf(k, real) }); o == "ok" && p != nil {
				m["pf"], m["full"] = p.ev(), 1
			}
		}
	}
	if extra != nil {
		m["rand"] = hx(extra)
	}
	return m
}

func proofTasks(e *env, h *memory, k string, ps []z.ECPoint, vs []*big.Int) []task {
	st, w := instance(e, k, ps, vs)
	h.st(st)
	for _, v := range w.S {
		h.int(v)
	}
	id := each(k, sig1(st), w.ev(), rng.Int63())
	var once sync.Once
	var real interface{}
	var own *Pf
	if k != "abc" && k != "ineq" && k != "range" {
		own = ownProve(e, k, st, w, ownOpt{})
	}
	get := func() interface{} {
		once.Do(func() {
			if own != nil {
				real, _ = fromPf(k, own)
				return
			}
			real, _, _ = prove(e, k, st, w)
		})
		return real
	}
	bad := st.clone()
	for n := range bad {
		bad[n] = pickP(ps)
	}
	badRange := pickP(ps)
	h.st(bad)
	r := []task{
		{"prove-verify-" + k, id, func() (string, error) {
			p, _, res := prove(e, k, st, w)
			if res != "proof" {
				return res, nil
			}
			return verifyReal(e, k, verifierSt(e, k, st, p), p), nil
		}},
		{"verify-" + k, id, func() (string, error) {
			p := get()
			return verifyReal(e, k, verifierSt(e, k, st, p), p), nil
		}},
		{"verify-bad-" + k, id, func() (string, error) {
			p := get()
			s := verifierSt(e, k, bad, p)
			if k == "range" {
				s = St{"CM": badRange}
			}
			return verifyReal(e, k, s, p), nil
		}},
	}
	if k == "ineq" {
		return r
	}
	return append(r,
		task{"bytes-" + k, id, func() (string, error) { b, res := encodeReal(get()); return res + hb(b), nil }},
		task{"decode-" + k, id, func() (string, error) {
			p := get()
			b, _ := encodeReal(p)
			q, err := decodeReal(k, b)
			if err != nil {
				return "", err
			}
			return each(toPf(k, q).flat(k), verifyReal(e, k, verifierSt(e, k, st, p), q)), nil
		}})
}

func pointTasks(e *env, h *memory, ps []z.ECPoint, vs []*big.Int) []task {
	p, q, s, r := pickP(ps), pickP(ps), pick(vs), pick(vs)
	switch rng.Intn(5) {
	case 0:
		p = e.zp.G
	case 1:
		p = e.zp.H
	case 2:
		q = z.Zero
	case 3:
		s = z.BigZero
	}
	h.point(p)
	h.point(q)
	h.int(s)
	h.int(r)
	parts := [][]byte{roomy(p.X.Bytes()), roomy(q.X.Bytes()), roomy(s.Bytes())}
	for _, b := range parts {
		h.buf(b)
	}
	id := each(pt(p), pt(q), hx(s), hx(r))
	P := func(x z.ECPoint) (string, error) { return hx(x.X) + "," + hx(x.Y), nil }
	cm := e.commit(s, r)
	h.point(cm)
	return []task{
		{"mult", id, func() (string, error) { return P(e.zp.Mult(p, s)) }},
		{"multq", id, func() (string, error) { return P(e.zp.Mult(q, r)) }},
		{"multG", id, func() (string, error) { return P(e.zp.Mult(e.zp.G, r)) }},
		{"multH", id, func() (string, error) { return P(e.zp.Mult(e.zp.H, s)) }},
		{"add", id, func() (string, error) { return P(e.zp.Add(p, q)) }},
		{"sub", id, func() (string, error) { return P(e.zp.Sub(p, q)) }},
		{"neg", id, func() (string, error) { return P(e.zp.Neg(p)) }},
		{"equal", id, func() (string, error) { return fmt.Sprint(p.Equal(q)), nil }},
		{"commit", id, func() (string, error) { return P(z.PedCommitR(e.zp, s, r)) }},
		{"token", id, func() (string, error) { return P(z.CommitR(e.zp, p, r)) }},
		{"open", id, func() (string, error) { return fmt.Sprint(z.Open(e.zp, s, r, cm), z.Open(e.zp, r, s, q)), nil }},
		{"verifyr", id, func() (string, error) { return fmt.Sprint(z.VerifyR(e.zp, p, q, r)), nil }},
		{"point-bytes", id, func() (string, error) { return hb(p.Bytes()), nil }},
		{"challenge", id, func() (string, error) { return hx(z.GenerateChallenge(e.zp, parts...)), nil }},
		{"pedcommit", id, func() (string, error) {
			c, x, err := z.PedCommit(e.zp, s)
			if err != nil {
				return "", err
			}
			return fmt.Sprint(z.Open(e.zp, s, x, c)), nil
		}},
		{"keygen", id, func() (string, error) {
			pk, sk := z.KeyGen(e.zp.C, e.zp.H)
			return fmt.Sprint(e.zp.Mult(e.zp.H, sk).Equal(pk)), nil
		}},
	}
}

func wireTasks(h *memory, ps []z.ECPoint, vs []*big.Int) []task {
	v := rng.Uint64() >> uint(rng.Intn(64))
	b := make([]byte, []int{0, 1, 2, 10, 252, 253, 300, 2000}[rng.Intn(8)])
	rng.Read(b)
	b = h.bytes(b)
	p, s := h.point(pickP(ps)), h.int(pick(vs))
	id := each(v, hb(b), pt(p), hx(s))
	var iv, ib, ip, is bytes.Buffer
	encVarInt(&iv, v)
	encBytes(&ib, b)
	encPoint(&ip, p)
	encInt(&is, s)
	in := [][]byte{h.bytes(iv.Bytes()), h.bytes(ib.Bytes()), h.bytes(ip.Bytes()), h.bytes(is.Bytes())}
	wr := func(f func(w io.Writer) error) func() (string, error) {
		return func() (string, error) {
			var w bytes.Buffer
			err := f(&w)
			return hb(w.Bytes()), err
		}
	}
	return []task{
		{"w-int", id, wr(func(w io.Writer) error { return wire.WriteVarInt(w, v) })},
		{"w-bytes", id, wr(func(w io.Writer) error { return wire.WriteVarBytes(w, b) })},
		{"w-point", id, wr(func(w io.Writer) error { return z.WriteECPoint(w, p) })},
		{"w-big", id, wr(func(w io.Writer) error { return z.WriteBigInt(w, s) })},
		{"r-int", id, func() (string, error) {
			x, err := wire.ReadVarInt(bytes.NewReader(in[0]))
			return fmt.Sprint(x), err
		}},
		{"r-bytes", id, func() (string, error) {
			x, err := wire.ReadVarBytes(bytes.NewReader(in[1]), 4000, "x")
			return "=" + hb(x), err
		}},
		{"r-point", id, func() (string, error) {
			x, err := z.ReadECPoint(bytes.NewReader(in[2]))
			if err != nil {
				return "", err
			}
			return each(pt(x)), nil
		}},
		{"r-big", id, func() (string, error) {
			x, err := z.ReadBigInt(bytes.NewReader(in[3]))
			if err != nil {
				return "", err
			}
			return hx(x), nil
		}},
		{"random", "", func() (string, error) { _, err := wire.RandomUint64(); return "", err }},
	}
}

func keyTasks(h *memory) []task {
	c := btcec.S256()
	e := secpEnv()
	ds := secretKeys(4)
	mk := func() *btcec.PrivateKey {
		d := cp(ds[rng.Intn(len(ds))])
		q := e.mul(e.zp.G, d)
		k := &btcec.PrivateKey{}
		k.D, k.X, k.Y, k.Curve = d, q.X, q.Y, c
		h.key(k)
		return k
	}
	k, k2 := mk(), mk()
	pub := k.PubKey()
	h.add("pub", func() string { return hx(pub.X) + hx(pub.Y) })
	hash := h.bytes(append(someHash(), 1))
	kb := h.bytes(scalarBytes(c))
	msg := make([]byte, rng.Intn(70))
	rng.Read(msg)
	msg = h.bytes(msg)
	id := each(hx(k.D), hx(k2.D), hb(hash), hb(kb), hb(msg))
	var once sync.Once
	var sig *btcec.Signature
	get := func() *btcec.Signature {
		once.Do(func() { sig, _ = k.Sign(hash) })
		return sig
	}
	comp := append([]byte{2 + byte(pub.Y.Bit(0))}, pub.X.FillBytes(make([]byte, 32))...)
	comp = h.bytes(comp)
	P := func(x, y *big.Int) (string, error) { return hx(x) + "," + hx(y), nil }
	return []task{
		{"sign", id, func() (string, error) {
			s, err := k.Sign(hash)
			if err != nil {
				return "", err
			}
			return hx(s.R) + "," + hx(s.S), nil
		}},
		{"sig-verify", id, func() (string, error) { return fmt.Sprint(get().Verify(hash, pub), get().Verify(kb, pub)), nil }},
		{"sig-ser", id, func() (string, error) { return hb(get().Serialize()), nil }},
		{"sig-parse", id, func() (string, error) {
			s, err := btcec.ParseDERSignature(get().Serialize(), c)
			if err != nil {
				return "", err
			}
			return fmt.Sprint(s.IsEqual(get())), nil
		}},
		{"key-ser", id, func() (string, error) {
			return hb(k.Serialize()) + hb(pub.SerializeCompressed()) + hb(pub.SerializeUncompressed()) + hb(pub.SerializeHybrid()), nil
		}},
		{"parsepub", id, func() (string, error) {
			q, err := btcec.ParsePubKey(comp, c)
			if err != nil {
				return "", err
			}
			return P(q.X, q.Y)
		}},
		{"privkey", id, func() (string, error) {
			q, _ := btcec.PrivKeyFromBytes(c, kb)
			return P(q.X, q.Y)
		}},
		{"newkey", id, func() (string, error) {
			q, err := btcec.NewPrivateKey(c)
			if err != nil {
				return "", err
			}
			return fmt.Sprint(c.IsOnCurve(q.X, q.Y)), nil
		}},
		{"compact", id, func() (string, error) {
			s, err := btcec.SignCompact(c, k, hash, true)
			if err != nil {
				return "", err
			}
			q, b, err := btcec.RecoverCompact(c, s, hash)
			if err != nil {
				return "", err
			}
			return each(hb(s), b, q.IsEqual(pub)), nil
		}},
		{"encrypt", id, func() (string, error) {
			ct, err := btcec.Encrypt(pub, msg)
			if err != nil {
				return "", err
			}
			m, err := btcec.Decrypt(k, ct)
			return "=" + hb(m), err
		}},
		{"secret", id, func() (string, error) {
			return hb(btcec.GenerateSharedSecret(k, k2.PubKey())) + hb(btcec.GenerateSharedSecret(k2, pub)), nil
		}},
		{"c-mul", id, func() (string, error) { return P(c.ScalarMult(k.X, k.Y, kb)) }},
		{"c-base", id, func() (string, error) { return P(c.ScalarBaseMult(kb)) }},
		{"c-baseH", id, func() (string, error) { return P(c.ScalarBaseMultH(kb)) }},
		{"c-add", id, func() (string, error) { return P(c.Add(k.X, k.Y, k2.X, k2.Y)) }},
		{"c-dbl", id, func() (string, error) { return P(c.Double(k.X, k.Y)) }},
		{"c-on", id, func() (string, error) { return fmt.Sprint(c.IsOnCurve(k.X, k.Y)), nil }},
		{"naf", id, func() (string, error) { x, y := btcec.NAF(kb); return hb(x) + "," + hb(y), nil }},
	}
}
