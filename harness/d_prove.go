package main

import (
	"crypto/elliptic"
	"math/big"

	z "github.com/mit-dci/zksigma"
	"github.com/mit-dci/zksigma/btcec"
)

func init() {
	drivers["prove"] = dProve
	drivers["toyprove"] = dToyProve
	drivers["bulk"] = dBulk
}

func envByName(name string) *env {
	switch name {
	case "secp":
		return secpEnv()
	case "secp-swap": // generators exchanged
		e := secpEnv()
		e.zp.G, e.zp.H = cpp(z.TestCurve.H), cpp(z.TestCurve.G)
		e.zp.HPoints = powers(e.zp.C, e.zp.G, 64)
		return e
	case "secp-h40": // no more powers than there are bits
		e := secpEnv()
		e.zp.HPoints = append([]z.ECPoint{}, e.zp.HPoints[:40]...)
		return e
	case "secp-custom":
		return customEnv("secp", btcec.S256(), rndN(btcec.S256().N), rndN(btcec.S256().N))
	case "secp-negh":
		e := secpEnv()
		e.zp.H = e.neg(e.zp.H)
		return e
	case "glass":
		g := newGlass()
		return customEnv("glass", g, rndN(g.N), rndN(g.N))
	case "p224":
		return customEnv("p224", elliptic.P224(), bi(1), rndN(elliptic.P224().Params().N))
	case "p256":
		return customEnv("p256", elliptic.P256(), rndN(elliptic.P256().Params().N), rndN(elliptic.P256().Params().N))
	}
	for n, c := range map[string]elliptic.Curve{"p384": elliptic.P384(), "p521": elliptic.P521()} {
		if n == name {
			return customEnv(name, c, rndN(c.Params().N), rndN(c.Params().N))
		}
	}
	if t, ok := toys[name]; ok {
		return toyEnv(name, 1+rng.Intn(int(t.q)-1), 1+rng.Intn(int(t.q)-1))
	}
	fatal("unknown environment %s", name)
	return nil
}

// instance makes a true statement of a kind with its witness.
func instance(e *env, k string, ps []z.ECPoint, vs []*big.Int) (St, W) {
	N := e.N()
	x := pick(vs)
	w := W{S: map[string]*big.Int{}}
	st := St{}
	switch k {
	case "gspfs":
		w.Base = pickP(ps)
		if rng.Intn(3) == 0 {
			w.Base = cpp(e.zp.G)
		}
		w.Side = rng.Intn(2) // use the function with or without an explicit base
		w.S["x"] = x
		st["A"] = e.mul(w.Base, x)
	case "eq":
		st["B1"], st["B2"] = pickP(ps), pickP(ps)
		if rng.Intn(6) == 0 {
			st["B2"] = cpp(st["B1"])
		}
		w.S["x"] = x
		st["R1"], st["R2"] = e.mul(st["B1"], x), e.mul(st["B2"], x)
	case "disj":
		st["B1"], st["B2"] = pickP(ps), pickP(ps)
		if rng.Intn(6) == 0 {
			st["B2"] = cpp(st["B1"])
		}
		w.S["x"] = x
		w.Side = rng.Intn(2)
		y := pick(vs)
		o := pickP(ps)
		switch rng.Intn(4) {
		case 0: // the other side is true for the same scalar
			y = x
			fallthrough
		case 1:
			o = zero() // replaced below by the true result
			if w.Side == 0 {
				o = e.mul(st["B2"], y)
			} else {
				o = e.mul(st["B1"], y)
			}
		}
		if w.Side == 0 {
			st["R1"], st["R2"] = e.mul(st["B1"], x), o
		} else {
			st["R1"], st["R2"] = o, e.mul(st["B2"], x)
		}
	case "cons":
		r := pick(vs)
		st["PK"] = pickP(ps)
		if rng.Intn(2) == 0 {
			st["PK"] = e.mul(e.zp.H, rndN(N))
		}
		w.S["v"], w.S["r"] = x, r
		st["CM"] = e.commit(x, r)
		st["CT"] = e.mul(st["PK"], r)
	case "abc":
		sk, r := pick(vs), pick(vs)
		for new(big.Int).Mod(sk, N).Sign() == 0 {
			sk = pick(vs)
		}
		if rng.Intn(3) == 0 {
			x = new(big.Int).Mul(N, bi(int64(rng.Intn(4)-1)))
		}
		w.Side = 1
		if new(big.Int).Mod(x, N).Sign() == 0 {
			w.Side = 0
		}
		w.S["v"], w.S["sk"], w.S["r"] = x, sk, r
		st["CM"] = e.commit(x, r)
		st["CT"] = e.mul(e.mul(e.zp.H, sk), r)
	case "ineq":
		sk := pick(vs)
		for new(big.Int).Mod(sk, N).Sign() == 0 {
			sk = pick(vs)
		}
		b, ra, rb := pick(vs), pick(vs), pick(vs)
		for i := 0; new(big.Int).Mod(new(big.Int).Sub(x, b), N).Sign() == 0; i++ {
			b = addi(b, 1)
		}
		w.S["a"], w.S["b"], w.S["sk"], w.S["ra"], w.S["rb"] = x, b, sk, ra, rb
		pk := e.mul(e.zp.H, sk)
		st["A"], st["B"] = e.commit(x, ra), e.commit(b, rb)
		st["TA"], st["TB"] = e.mul(pk, ra), e.mul(pk, rb)
	case "range":
		v := rnd(1 + rng.Intn(40))
		switch rng.Intn(6) {
		case 0:
			v = bi(0)
		case 1:
			v = addi(pow2(40), -1)
		case 2:
			v = pow2(uint(rng.Intn(40)))
		case 3:
			v = addi(pow2(uint(1+rng.Intn(40))), -1)
		}
		w.S["v"] = v
	}
	return st, w
}

// verifierSt is the statement the verifier is given for what the prover was given.
func verifierSt(e *env, k string, st St, real interface{}) St {
	switch k {
	case "ineq":
		return St{"CM": e.sub(st["A"], st["B"]), "CT": e.sub(st["TA"], st["TB"])}
	case "range":
		if p, ok := real.(*z.RangeProof); ok && p != nil {
			return St{"CM": cpp(p.ProofAggregate)}
		}
	}
	return st
}

func proveEvent(e *env, k string, st St, w W, full bool) M {
	if k == "range" && rng.Intn(3) == 0 && len(e.zp.HPoints) > 40 { // as many powers as needed
		e2 := *e
		e2.zp.HPoints = e.zp.HPoints[:40:40]
		e = &e2
	}
	note("prove %s on %s: st=%v w=%v", k, e.cv, st.ev(), w.ev())
	m := e.hdr(M{"op": "prove", "k": k, "st": st.ev(), "w": w.ev()})
	pst, pw := st.clone(), w
	if rng.Intn(2) == 0 { // in variables that held other values in the call before
		pst, pw = reuseSt("prove."+k, st), W{Base: reusePt("prove.base", w.Base), Side: w.Side, S: map[string]*big.Int{}}
		for n, v := range w.S {
			pw.S[n] = reuseInt("prove."+n, v)
		}
	}
	real, extra, res := prove(e, k, pst, pw)
	m["res"] = res
	m["ver"] = "none"
	m["full"] = 0
	m["rand"] = "0"
	if real != nil {
		vst := verifierSt(e, k, st, real)
		m["ver"] = verifyReal(e, k, vst, real)
		m["vst"] = vst.ev()
		if res == "proof" && full {
			var p *Pf
			if o := guard(func() { p = toPf(k, real) }); o == "ok" && p != nil {
				m["pf"] = p.ev()
				m["full"] = 1
			}
		}
	}
	if extra != nil {
		m["rand"] = hx(extra)
	}
	return m
}

// corrupt turns a true instance into one that is (usually) false.
func corrupt(e *env, k string, st St, w W, ps []z.ECPoint, vs []*big.Int) (St, W) {
	st = st.clone()
	w2 := W{Base: w.Base, Side: w.Side, S: map[string]*big.Int{}}
	for n, v := range w.S {
		w2.S[n] = cp(v)
	}
	var names []string
	for n := range st {
		names = append(names, n)
	}
	sortStrings(names)
	var snames []string
	for n := range w2.S {
		if n != "ra" && n != "rb" && !(k == "abc" && n == "r") {
			snames = append(snames, n)
		}
	}
	sortStrings(snames)
	switch c := rng.Intn(10); {
	case c < 6 && len(names) > 0:
		n := names[rng.Intn(len(names))]
		p := st[n]
		switch rng.Intn(8) {
		case 0:
			st[n] = e.neg(p)
		case 1:
			st[n] = e.add(p, e.zp.G)
		case 2:
			st[n] = e.add(p, e.zp.H)
		case 3:
			st[n] = zero()
		case 4:
			st[n] = e.add(p, p)
		case 5:
			st[n] = cpp(st[names[rng.Intn(len(names))]])
		case 6: // same X, another Y that is not on the curve
			st[n] = z.ECPoint{X: cp(p.X), Y: new(big.Int).Mod(addi(p.Y, 1), e.zp.C.Params().P)}
			if k != "gspfs" && k != "eq" && k != "cons" || (n != "A" && n != "R1" && n != "R2" && n != "CM" && n != "CT") {
				st[n] = pickP(ps)
			}
		default:
			st[n] = pickP(ps)
		}
	case c < 9 && len(snames) > 0:
		n := snames[rng.Intn(len(snames))]
		switch rng.Intn(5) {
		case 0:
			w2.S[n] = addi(w2.S[n], 1)
		case 1:
			w2.S[n] = new(big.Int).Neg(w2.S[n])
		case 2:
			w2.S[n] = new(big.Int).Add(w2.S[n], e.N()) // still the same residue
		case 3:
			w2.S[n] = bi(0)
		default:
			w2.S[n] = pick(vs)
		}
	default:
		switch rng.Intn(3) {
		case 0:
			w2.Side = 1 - w2.Side
		case 1:
			w2.Side = 2
		default:
			w2.Side = -1
		}
	}
	return st, w2
}

func sortStrings(s []string) {
	for i := range s {
		for j := i + 1; j < len(s); j++ {
			if s[j] < s[i] {
				s[i], s[j] = s[j], s[i]
			}
		}
	}
}

// prove <env> <kind> <n> <true|false>
func dProve(a []string) {
	e := envByName(a[0])
	k := a[1]
	n := atoi(a[2])
	wantFalse := a[3] == "false"
	ps, vs := points(e, 6), scalars(e.N(), 40)
	for i := 0; i < n; i++ {
		st, w := instance(e, k, ps, vs)
		if wantFalse {
			if k == "range" {
				bad := []*big.Int{pow2(40), addi(pow2(40), 1), bi(-1), bi(-2), new(big.Int).Neg(pow2(40)), pow2(41), addi(pow2(41), -1), pow2(63), pow2(64), addi(pow2(64), 5),
					cp(e.N()), addi(e.N(), 3), addi(e.N(), -1), new(big.Int).Neg(e.N()), pow2(256), addi(pow2(40), -1), bi(0), rnd(60), rnd(300), new(big.Int).Neg(rnd(30))}
				w.S["v"] = bad[i%len(bad)]
			} else {
				st, w = corrupt(e, k, st, w, ps, vs)
			}
		} else if k == "range" {
			if sp := []*big.Int{bi(0), addi(pow2(40), -1), pow2(39), bi(1)}; i < len(sp) {
				w.S["v"] = sp[i]
			}
		} else if rng.Intn(4) == 0 {
			// unusual nonces
			sp := []*big.Int{bi(0), bi(1), addi(e.N(), -1), bi(255), pow2(248), rnd(200)}
			if e.cv == "secp" || e.cv == "p256" {
				var vals []*big.Int
				for j := 0; j < 10; j++ {
					vals = append(vals, pick(sp))
				}
				withReader(&scripted{vals: vals}, func() { emit(proveEvent(e, k, st, w, true)) })
				continue
			}
		}
		emit(proveEvent(e, k, st, w, !wantFalse || k == "range"))
	}
}

// bulk <env> <kind> <n>: many honest proofs; only the count and what failed is recorded.
func dBulk(a []string) {
	e := envByName(a[0])
	k := a[1]
	n := atoi(a[2])
	ps, vs := points(e, 6), scalars(e.N(), 60)
	type inst struct {
		st St
		w  W
	}
	var pool []inst
	for i := 0; i < 40; i++ {
		st, w := instance(e, k, ps, vs)
		pool = append(pool, inst{st, w})
	}
	acc := 0
	bad := 0
	for i := 0; i < n; i++ {
		in := pool[i%len(pool)]
		if k == "range" {
			in.st, in.w = instance(e, k, ps, vs)
		}
		note("bulk %s on %s: st=%v w=%v", k, e.cv, in.st.ev(), in.w.ev())
		real, _, res := prove(e, k, in.st, in.w)
		ok := false
		if res == "proof" {
			vst := verifierSt(e, k, in.st, real)
			ver := verifyReal(e, k, vst, real)
			if ver == "accept" {
				acc++
				ok = true
			} else if bad < 3 {
				m := e.hdr(M{"op": "prove", "k": k, "st": in.st.ev(), "w": in.w.ev(), "res": res, "ver": ver, "vst": vst.ev(), "full": 0})
				if p := toPf(k, real); p != nil {
					m["pf"], m["full"] = p.ev(), 1
				}
				emit(m)
			}
		} else if bad < 3 {
			emit(e.hdr(M{"op": "prove", "k": k, "st": in.st.ev(), "w": in.w.ev(), "res": res, "ver": "none", "full": 0}))
		}
		if !ok {
			bad++
		}
	}
	emit(M{"op": "bulk", "k": k, "cv": e.cv, "n": n, "acc": acc})
}

// toyInstances enumerates statements and witnesses (true and false) over a toy
// curve as tuples of discrete logarithms and scalars.
func toyStatements(k string, q int, f func(st []int, w []int)) {
	rec := func(n int, g func(v []int)) {
		v := make([]int, n)
		var r func(i int)
		r = func(i int) {
			if i == n {
				g(v)
				return
			}
			for x := 0; x < q; x++ {
				v[i] = x
				r(i + 1)
			}
		}
		r(0)
	}
	switch k {
	case "gspfs": // A | Base x
		rec(3, func(v []int) { f(v[:1], v[1:]) })
	case "eq": // B1 R1 B2 R2 | x
		rec(5, func(v []int) { f(v[:4], v[4:]) })
	case "disj": // B1 R1 B2 R2 | x side
		rec(5, func(v []int) {
			for side := -1; side <= 2; side++ {
				f(v[:4], []int{v[4], side})
			}
		})
	case "cons": // CM CT PK | v r
		rec(5, func(v []int) { f(v[:3], v[3:]) })
	case "abc": // CM CT | v sk side
		rec(4, func(v []int) {
			for side := -1; side <= 2; side++ {
				f(v[:2], []int{v[2], v[3], side})
			}
		})
	default:
		fatal("toyStatements %s", k)
	}
}

func toySt(e *env, k string, st, w []int) (St, W) {
	t := e.toy
	s := St{}
	ww := W{S: map[string]*big.Int{}}
	for i, n := range stNames[k] {
		s[n] = t.point(st[i])
	}
	switch k {
	case "gspfs":
		ww.Base = t.point(w[0])
		ww.S["x"] = bi(int64(w[1]))
		ww.Side = 1
	case "eq":
		ww.S["x"] = bi(int64(w[0]))
	case "disj":
		ww.S["x"] = bi(int64(w[0]))
		ww.Side = w[1]
	case "cons":
		ww.S["v"], ww.S["r"] = bi(int64(w[0])), bi(int64(w[1]))
	case "abc":
		ww.S["v"], ww.S["sk"] = bi(int64(w[0])), bi(int64(w[1]))
		ww.Side = w[2]
	}
	return s, ww
}

// toyprove <curve> <kind> <g> <h> <max statements> <max runs per statement>:
// every statement and witness, every outcome of the random draws.
func dToyProve(a []string) {
	e := toyEnv(a[0], atoi(a[2]), atoi(a[3]))
	k := a[1]
	q := int(e.toy.q)
	maxSt, maxRuns := atoi(a[4]), atoi(a[5])
	total := 0
	toyStatements(k, q, func(st, w []int) { total++ })
	stride := 1.0
	if total > maxSt {
		stride = float64(maxSt) / float64(total)
	}
	toyStatements(k, q, func(st, w []int) {
		if stride < 1 && rng.Float64() > stride {
			return
		}
		s, ww := toySt(e, k, st, w)
		cnt := map[string]int{}
		note("toyprove %v %v %v", k, st, w)
		runs, complete := enumerate(q, maxRuns, func([]int) {
			// another representative of the same residue now and then
			w1 := ww
			if rng.Intn(3) == 0 {
				w1.S = map[string]*big.Int{}
				for n, v := range ww.S {
					w1.S[n] = addi(v, int64(q*(rng.Intn(5)-2)))
				}
			}
			real, _, res := prove(e, k, s, w1)
			o := res
			if real != nil {
				o += "/" + verifyReal(e, k, s, real)
			}
			cnt[o]++
		})
		emit(M{"op": "toyall", "k": k, "q": q, "g": atoi(a[2]), "h": atoi(a[3]),
			"st": append([]int{}, st...), "w": append([]int{}, w...), "runs": runs, "complete": bool2(complete),
			"acc": cnt["proof/accept"], "err": cnt["error"] + cnt["proof-with-error/reject"] + cnt["proof-with-error/panic"],
			"rej": cnt["proof/reject"], "outcomes": outcomes(cnt)})
	})
}

func outcomes(c map[string]int) []string {
	var r []string
	for k := range c {
		r = append(r, k)
	}
	sortStrings(r)
	return r
}

func atoi(s string) int {
	v, ok := new(big.Int).SetString(s, 10)
	if !ok {
		fatal("bad number %s", s)
	}
	return int(v.Int64())
}
