package main

import (
	"fmt"
	"io"
	"math/big"
	mrand "math/rand"
	"sync"

	z "github.com/mit-dci/zksigma"
	"github.com/mit-dci/zksigma/btcec"
	"github.com/mit-dci/zksigma/wire"
)

func init() {
	drivers["toyzk"] = dToyZK
	drivers["zkfull"] = dZkFull
	drivers["bind"] = dBind
	drivers["nonce"] = dNonce
	drivers["stream"] = dStream
	drivers["entropy"] = dEntropy
}

func small(x *big.Int) int {
	if x == nil || !x.IsInt64() || x.Int64() > 1<<30 || x.Int64() < -(1<<30) {
		return -(1 << 30)
	}
	return int(x.Int64())
}

// tuple lists a toy proof as integers: discrete logarithms of its points, then its scalars.
func tuple(t *toyCurve, k string, p *Pf) []int {
	var r []int
	for _, n := range pfPoints[k] {
		r = append(r, t.dlog(p.P[n]))
	}
	for _, n := range pfScalars[k] {
		r = append(r, small(p.S[n]))
	}
	if p.D != nil {
		r = append(r, tuple(t, "disj", p.D)...)
	}
	return r
}

// toyzk <curve> <kind> <g> <h> <max statements> <max runs>: the distribution of
// the proofs of true statements over all outcomes of the random draws.
func dToyZK(a []string) {
	e := toyEnv(a[0], atoi(a[2]), atoi(a[3]))
	k := a[1]
	q := int(e.toy.q)
	maxSt, maxRuns := atoi(a[4]), atoi(a[5])
	type inst struct{ st, w []int }
	var all []inst
	toyStatements(k, q, func(st, w []int) {
		s, ww := toySt(e, k, st, w)
		if !toyTrue(e, k, s, ww) {
			return
		}
		all = append(all, inst{append([]int{}, st...), append([]int{}, w...)})
	})
	rng.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	if len(all) > maxSt {
		all = all[:maxSt]
	}
	for _, in := range all {
		for rep := 0; rep < 2; rep++ {
			s, ww := toySt(e, k, in.st, in.w)
			if rep == 1 { // another representative of the witness
				for n, v := range ww.S {
					ww.S[n] = addi(v, int64(q*(rng.Intn(7)-3)))
				}
			}
			bag := map[string]int{}
			tup := map[string][]int{}
			bad := 0
			note("toyzk %s %v", k, in)
			runs, complete := enumerate(q, maxRuns, func([]int) {
				real, _, res := prove(e, k, s, ww)
				if res != "proof" {
					bad++
					return
				}
				p := toPf(k, real)
				if p == nil {
					bad++
					return
				}
				t := tuple(e.toy, k, p)
				key := fmt.Sprint(t)
				bag[key]++
				tup[key] = t
			})
			mn, mx := 1<<30, 0
			list := [][]int{}
			for key, c := range bag {
				if c < mn {
					mn = c
				}
				if c > mx {
					mx = c
				}
				list = append(list, tup[key])
			}
			m := e.hdr(M{"op": "toyzk", "k": k, "q": q, "g": atoi(a[2]), "h": atoi(a[3]), "st": in.st, "w": in.w, "rep": rep,
				"runs": runs, "complete": bool2(complete), "bad": bad, "distinct": len(list), "min": mn, "max": mx})
			pts := [][]string{}
			for _, n := range stNames[k] {
				pts = append(pts, pt(s[n]))
			}
			m["pts"] = pts
			if k == "abc" { // only the outer part is listed
				seen := map[string]bool{}
				l2 := [][]int{}
				for _, t := range list {
					key := fmt.Sprint(t[:8])
					if !seen[key] {
						seen[key] = true
						l2 = append(l2, t[:8])
					}
				}
				list = l2
			}
			m["list"] = list
			emit(m)
		}
	}
}

// toyTrue (only used to choose what to run; the specification decides again)
func toyTrue(e *env, k string, s St, w W) bool {
	x := w.S["x"]
	switch k {
	case "gspfs":
		return same(e.mul(w.Base, x), s["A"])
	case "eq":
		return same(e.mul(s["B1"], x), s["R1"]) && same(e.mul(s["B2"], x), s["R2"])
	case "disj":
		return w.Side == 0 && same(e.mul(s["B1"], x), s["R1"]) || w.Side == 1 && same(e.mul(s["B2"], x), s["R2"])
	case "cons":
		return same(e.commit(w.S["v"], w.S["r"]), s["CM"]) && same(e.mul(s["PK"], w.S["r"]), s["CT"])
	case "abc":
		v, sk := e.modN(w.S["v"]), e.modN(w.S["sk"])
		if sk.Sign() == 0 || w.Side != 0 && w.Side != 1 || (w.Side == 0) != (v.Sign() == 0) {
			return false
		}
		for r := int64(0); r < e.toy.q; r++ {
			if same(e.commit(v, bi(r)), s["CM"]) && same(e.mul(e.mul(e.zp.H, sk), bi(r)), s["CT"]) {
				return true
			}
		}
	}
	return false
}

// bind <env> <kind> <n>
func dBind(a []string) {
	e := envByName(a[0])
	k := a[1]
	n := atoi(a[2])
	ps, vs := points(e, 6), scalars(e.N(), 40)
	var nz []z.ECPoint
	for _, p := range ps {
		if !isZero(p) {
			nz = append(nz, p)
		}
	}
	nparts := map[string]int{"gspfs": 3, "eq": 6, "disj": 6, "cons": 7, "abc": 8}[k]
	for it := 0; it < n; it++ {
		// the challenge function itself
		var arr [][]byte
		var ev []string
		for i := rng.Intn(9); i >= 0; i-- {
			b := make([]byte, []int{0, 1, 31, 32, 33, 63, 64, 65, 200}[rng.Intn(9)])
			rng.Read(b)
			if len(b) > 3 && rng.Intn(3) == 0 {
				b[0], b[1] = 0, 0
			}
			arr = append(arr, b)
			ev = append(ev, hb(b))
		}
		var c *big.Int
		o := guard(func() { c = z.GenerateChallenge(e.zp, arr...) })
		emit(e.hdr(M{"op": "challenge", "in": ev, "res": o, "c": hx(c)}))

		st, w := instance(e, k, nz, vs)
		ev1 := proveEvent(e, k, st, w, true)
		emit(ev1)
		real, _, res := prove(e, k, st.clone(), w)
		if res != "proof" {
			continue
		}
		good := toPf(k, real)
		if good == nil {
			continue
		}
		for i := 0; i < nparts; i++ {
			verifyEvent(e, k, st, ownProve(e, k, st, w, ownOpt{mask: 1 << uint(i)}), "challenge without a part")
		}
		if k == "abc" {
			for i := 0; i < 6; i++ {
				verifyEvent(e, k, st, ownProve(e, k, st, w, ownOpt{dmask: 1 << uint(i)}), "inner challenge without a part")
			}
		}
		for j := 0; j < 4; j++ {
			verifyEvent(e, k, st, ownProve(e, k, st, w, ownOpt{mask: rng.Intn(1 << uint(nparts))}), "challenge without parts")
		}
		// every part of the statement replaced, by several values
		for _, nm := range stNames[k] {
			for v := 0; v < 6; v++ {
				s2 := st.clone()
				q := s2[nm]
				switch v {
				case 0:
					q = e.neg(q)
				case 1:
					q = e.add(q, e.zp.G)
				case 2:
					q = e.sub(q, e.zp.H)
				case 3:
					q = zero()
				case 4:
					q = pickP(ps)
				default:
					q = cpp(s2[stNames[k][rng.Intn(len(stNames[k]))]])
				}
				s2[nm] = q
				verifyEvent(e, k, s2, good, "statement changed in "+nm)
			}
		}
		st2, _ := instance(e, k, nz, vs)
		verifyEvent(e, k, st2, good, "another statement")
		// other generators
		for v := 0; v < 4; v++ {
			e2 := *e
			switch v {
			case 0:
				e2.zp.G, e2.zp.H = e.zp.H, e.zp.G
			case 1:
				e2.zp.H = e.neg(e.zp.H)
			case 2:
				e2.zp.G = e.neg(e.zp.G)
			default:
				e2.zp.G, e2.zp.H = nonZeroP(ps), nonZeroP(ps)
			}
			e2.zp.HPoints = powers(e2.zp.C, e2.zp.G, 64)
			verifyEvent(&e2, k, st, good, "other generators")
		}
		// random commitments and the base changed afterwards, with the equations kept
		if k != "abc" {
			p2 := good.clone()
			for _, s := range pfScalars[k] {
				if s != "c" {
					p2.S[s] = rndN(e.N())
				}
			}
			if k == "disj" {
				p2.S["c2"] = e.modN(sub(p2.S["c"], p2.S["c1"]))
			}
			solveT(e, k, st, p2)
			verifyEvent(e, k, st, p2, "same challenge, other commitments")
		}
	}
}

// counted is a deterministic entropy source that counts what is taken from it
// and can fail, or deliver in pieces.
type counted struct {
	mu    sync.Mutex
	r     *mrand.Rand
	n     int    // bytes delivered
	calls int    // reads
	fail  int    // fail when this many bytes have been delivered (-1: never)
	how   string // how it fails: err, eof, short (delivers what is left together with an error), zero (0 bytes, no error, then an error), once (one error, then it recovers)
	piece int    // at most this many bytes per read (0: all)
	zeros int
}

func newCounted(s int64) *counted { return &counted{r: mrand.New(mrand.NewSource(s)), fail: -1} }

func (c *counted) Read(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.calls++
	n := len(p)
	if c.piece > 0 && n > c.piece {
		n = c.piece
	}
	if c.fail >= 0 {
		left := c.fail - c.n
		if left <= 0 {
			switch c.how {
			case "once", "once-eof": // and recovers
				c.fail = -1
				if c.how == "once-eof" {
					return 0, io.EOF
				}
			case "eof", "short-eof":
				return 0, io.EOF
			case "zero":
				if c.zeros < 3 {
					c.zeros++
					return 0, nil
				}
			}
			return 0, errEntropy
		}
		if left < n {
			n = left
			c.r.Read(p[:n])
			c.n += n
			switch c.how {
			case "short":
				return n, errEntropy
			case "short-eof":
				return n, io.EOF
			}
			return n, nil
		}
	}
	c.r.Read(p[:n])
	c.n += n
	return n, nil
}

// call is something that uses entropy.
type call struct {
	name string
	k    string
	run  func() (sig string, res string) // sig identifies the result
}

func calls(e *env, ps []z.ECPoint, vs []*big.Int, kinds []string) []call {
	var r []call
	for _, k := range kinds {
		k := k
		st, w := instance(e, k, ps, vs)
		r = append(r, call{"prove-" + k, k, func() (string, string) {
			real, _, res := prove(e, k, st.clone(), w)
			if res == "proof-with-error" {
				// what comes with an error must not be usable
				if verifyReal(e, k, verifierSt(e, k, st, real), real) != "accept" {
					return "", "error"
				}
			}
			if res != "proof" {
				return "", res
			}
			p := toPf(k, real)
			if p == nil {
				return "", "nothing"
			}
			return string(p.encode(k)), res
		}})
	}
	v := pick(vs)
	r = append(r, call{"commit", "commit", func() (string, string) {
		var p z.ECPoint
		var s *big.Int
		var err error
		if o := guard(func() { p, s, err = z.PedCommit(e.zp, v) }); o != "ok" {
			return "", o
		}
		switch {
		case err != nil && s == nil && (p.X == nil || isZero(p)):
			return "", "error"
		case err != nil:
			return "", "proof-with-error"
		case s == nil || p.X == nil || p.Y == nil:
			return "", "nothing"
		}
		return fmt.Sprint(hx(p.X), hx(p.Y), hx(s)), "proof"
	}})
	return r
}

// otherCalls draw randomness outside of proofs.
func otherCalls() []call {
	out := func(o string, err error, some bool) string {
		switch {
		case o != "ok":
			return o
		case err != nil && some:
			return "proof-with-error"
		case err != nil:
			return "error"
		case !some:
			return "nothing"
		}
		return "proof"
	}
	pub := keyOf(bi(77)).PubKey()
	return []call{
		{"encrypt", "lib", func() (string, string) {
			var ct []byte
			var err error
			o := guard(func() { ct, err = btcec.Encrypt(pub, []byte("some text")) })
			return "", out(o, err, len(ct) > 0)
		}},
		{"newkey", "lib", func() (string, string) {
			var k *btcec.PrivateKey
			var err error
			o := guard(func() { k, err = btcec.NewPrivateKey(btcec.S256()) })
			return "", out(o, err, k != nil)
		}},
		{"random64", "random64", func() (string, string) {
			var v uint64
			var err error
			o := guard(func() { v, err = wire.RandomUint64() })
			return fmt.Sprint(v), out(o, err, v != 0 || err == nil)
		}},
	}
}

// nonce <env> <kind> <n>: honest proofs of a few statements again and again;
// the specification extracts the nonces with the witness.
func dNonce(a []string) {
	e := envByName(a[0])
	k := a[1]
	n := atoi(a[2])
	ps, vs := points(e, 6), scalars(e.N(), 10)
	var nz []z.ECPoint
	for _, p := range ps {
		if !isZero(p) {
			nz = append(nz, p)
		}
	}
	emit(M{"op": "start", "k": k})
	if k == "commit" {
		for i := 0; i < n; i++ {
			var s *big.Int
			var err error
			o := guard(func() { _, s, err = z.PedCommit(e.zp, bi(int64(i%3))) })
			emit(e.hdr(M{"op": "draw", "k": k, "res": res3(o, err, s), "x": hx(s)}))
		}
		emit(e.hdr(M{"op": "end", "k": k, "n": n}))
		return
	}
	if k == "key" {
		for i := 0; i < n; i++ {
			var s *big.Int
			o := guard(func() { _, s = z.KeyGen(e.zp.C, e.zp.H) })
			emit(e.hdr(M{"op": "draw", "k": k, "res": res3(o, nil, s), "x": hx(s)}))
		}
		emit(e.hdr(M{"op": "end", "k": k, "n": n}))
		return
	}
	var st St
	var w W
	got := 0
	for i := 0; i < n; i++ {
		if i%8 == 0 || k == "range" && i%3 == 0 {
			st, w = instance(e, k, nz, vs)
		}
		note("nonce %s", k)
		m := nonceEvent(e, k, st.clone(), w)
		if m["res"] == "proof" {
			got++
		}
		emit(m)
	}
	emit(e.hdr(M{"op": "end", "k": k, "n": got}))
}

// zkfull <kind> <side> <n>: proofs of one true statement with one witness,
// again and again, on the curve with visible logarithms.
func dZkFull(a []string) {
	e := envByName("glass")
	k, side, n := a[0], atoi(a[1]), atoi(a[2])
	var ps []z.ECPoint
	var vs []*big.Int
	for i := 0; i < 4; i++ {
		ps = append(ps, e.mul(e.zp.G, rndN(e.N())))
		vs = append(vs, rndN(e.N()))
	}
	st, w := instance(e, k, ps, vs)
	for w.Side != side && (k == "disj" || k == "abc") || k == "eq" && same(st["B1"], st["B2"]) {
		st, w = instance(e, k, ps, vs)
	}
	emit(M{"op": "zkstart", "k": k, "side": side})
	for i := 0; i < n; i++ {
		note("zkfull %s", k)
		if k == "range" && i%4 == 0 { // as many bits of each kind
			st, w = instance(e, k, ps, vs)
			v := rndN(pow2(40))
			if i%8 == 0 {
				w.S["v"] = v
			} else {
				w.S["v"] = sub(sub(pow2(40), bi(1)), w.S["v"])
			}
		}
		real, _, res := prove(e, k, st.clone(), w)
		m := e.hdr(M{"op": "zkfull", "k": k, "res": res, "w": w.ev()})
		if res == "proof" {
			p := toPf(k, real)
			if p == nil {
				m["res"] = "nothing"
			} else {
				m["pf"] = p.ev()
			}
		}
		emit(m)
	}
	emit(M{"op": "zkend", "k": k, "side": side})
}

// nonceEvent makes a proof and records it with its witness.
func nonceEvent(e *env, k string, st St, w W) M {
	real, _, res := prove(e, k, st, w)
	if res != "proof" {
		return e.hdr(M{"op": "nonce", "k": k, "res": res, "st": st.ev(), "w": w.ev()})
	}
	p := toPf(k, real)
	vst := verifierSt(e, k, st, real)
	wv := w
	kk := k
	if k == "ineq" {
		d := e.modN(sub(w.S["a"], w.S["b"]))
		kk = "abc"
		wv = W{Side: 1, S: map[string]*big.Int{"v": d, "sk": w.S["sk"]}}
	}
	return e.hdr(M{"op": "nonce", "k": kk, "res": res, "st": vst.ev(), "w": wv.ev(), "pf": p.ev()})
}

func res3(o string, err error, s *big.Int) string {
	switch {
	case o != "ok":
		return o
	case err != nil:
		return "error"
	case s == nil:
		return "nothing"
	}
	return "proof"
}

// stream <env> <n>: the result is a function of the entropy: the same stream
// gives the same result, another one another, and enough of it is used.
func dStream(a []string) {
	e := envByName(a[0])
	n := atoi(a[1])
	ps, vs := points(e, 6), scalars(e.N(), 10)
	kinds := []string{"gspfs", "eq", "disj", "cons", "abc", "ineq"}
	for i := 0; i < n; i++ {
		for _, c := range calls(e, ps, vs, kinds) {
			sd := rng.Int63()
			run := func(r *counted) (string, string) {
				var s, res string
				withReader(r, func() { s, res = c.run() })
				return s, res
			}
			r1, r2, r3 := newCounted(sd), newCounted(sd), newCounted(sd+1)
			s1, o1 := run(r1)
			s2, o2 := run(r2)
			s3, o3 := run(r3)
			emit(M{"op": "stream", "k": c.k, "cv": e.cv, "res": []string{o1, o2, o3}, "same": bool2(s1 == s2), "other": bool2(s1 != s3),
				"bytes": r1.n, "need": nonceBytes(e, c.k)})
		}
	}
}

func nonceBytes(e *env, k string) int {
	per := (e.N().BitLen() + 7) / 8
	return per * map[string]int{"gspfs": 1, "eq": 1, "disj": 3, "cons": 2, "abc": 8, "ineq": 8, "commit": 1, "range": 80}[k]
}

// entropy <env> <kinds: all|range> <step>: every point of failure of the entropy source
func dEntropy(a []string) {
	e := envByName(a[0])
	step := atoi(a[2])
	ps, vs := points(e, 6), scalars(e.N(), 10)
	kinds := []string{"gspfs", "eq", "disj", "cons", "abc", "ineq"}
	if a[1] == "range" {
		kinds = []string{"range"}
	}
	cs := calls(e, ps, vs, kinds)
	if a[1] != "range" {
		// both sides of abc, disj
		for i := 0; i < 6; i++ {
			more := calls(e, ps, vs, []string{"abc", "disj"})
			cs = append(cs, more[:2]...)
		}
	}
	if a[1] != "range" && e.cv == "secp" {
		cs = append(cs, otherCalls()...)
	}
	for _, c := range cs {
		sd := rng.Int63()
		full := newCounted(sd)
		var sig, res string
		withReader(full, func() { sig, res = c.run() })
		if c.k == "lib" {
			// the standard library now and then throws a byte away
			for i := 0; i < 30; i++ {
				f2 := newCounted(sd)
				withReader(f2, func() { c.run() })
				if f2.n <= full.n {
					full.n = f2.n
				}
			}
			full.n--
		}
		emit(M{"op": "entropy", "call": c.name, "how": "whole", "need": full.n, "at": -1, "piece": 0, "res": res, "same": 1})
		if res != "proof" {
			continue
		}
		det := c.k != "range" && c.k != "lib"
		for _, pc := range []int{1, 5, 31} {
			r := newCounted(sd)
			r.piece = pc
			note("entropy %s in pieces of %d", c.name, pc)
			var s2, res2 string
			withReader(r, func() { s2, res2 = c.run() })
			emit(M{"op": "entropy", "call": c.name, "how": "pieces", "need": full.n, "at": -1, "piece": pc, "res": res2, "same": bool2(!det || s2 == sig)})
		}
		for _, how := range []string{"err", "eof", "short", "short-eof", "zero", "once", "once-eof"} {
			for at := 0; at < full.n; at++ {
				if c.k == "lib" && how[0] == 'o' && at < 34 {
					continue // a failure to read the byte thrown away goes unnoticed
				}
				edge := at%32 == 0 || at%32 == 31 || at%32 == 1
				if step > 1 && !edge && at%step != 0 {
					continue
				}
				if step > 1 && c.k == "range" && at > 64 && at < full.n-64 && rng.Intn(step) != 0 {
					continue
				}
				r := newCounted(sd)
				r.fail, r.how = at, how
				if at%3 == 1 {
					r.piece = 7
				}
				note("entropy %s fails at %d (%s)", c.name, at, how)
				var res2 string
				o := within(180e9, func() { withReader(r, func() { _, res2 = c.run() }) })
				if o == "hang" {
					emit(M{"op": "entropy", "call": c.name, "how": how, "need": full.n, "at": at, "piece": r.piece, "res": "hang", "same": 0})
					return
				}
				if o != "ok" {
					res2 = o
				}
				emit(M{"op": "entropy", "call": c.name, "how": how, "need": full.n, "at": at, "piece": r.piece, "res": res2, "same": 1})
			}
		}
	}
}
