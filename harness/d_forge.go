package main

import (
	"math/big"
	"sort"

	z "github.com/mit-dci/zksigma"
)

func init() {
	drivers["forge"] = dForge
	drivers["rangeforge"] = dRangeForge
	drivers["toyver"] = dToyVer
	drivers["nilproof"] = dNilProof
}

func canonPf(N *big.Int, p *Pf) bool {
	if p == nil {
		return true
	}
	ok := func(s *big.Int) bool { return s != nil && s.Sign() >= 0 && s.Cmp(N) < 0 }
	for _, s := range p.S {
		if !ok(s) {
			return false
		}
	}
	for _, t := range p.T {
		if !ok(t.S) {
			return false
		}
	}
	return canonPf(N, p.D)
}

func verifyEvent(e *env, k string, st St, p *Pf, what string) {
	note("verify %s on %s (%s): st=%v pf=%v", k, e.cv, what, st.ev(), p.ev())
	m := e.hdr(M{"op": "verify", "k": k, "st": st.ev(), "pf": p.ev(), "what": what})
	m["exact"] = bool2(canonPf(e.N(), p))
	if rng.Intn(2) == 0 {
		m["ver"] = verifyPfReuse(e, k, st.clone(), p.clone())
	} else {
		m["ver"] = verifyPf(e, k, st.clone(), p.clone())
	}
	emit(m)
}

// verifyObj verifies a proof object as it is.
func verifyObj(e *env, k string, st St, real interface{}, what string) {
	var p *Pf
	if o := guard(func() { p = toPf(k, real) }); o != "ok" || p == nil {
		return
	}
	note("verify object %s on %s (%s): st=%v pf=%v", k, e.cv, what, st.ev(), p.ev())
	m := e.hdr(M{"op": "verify", "k": k, "st": st.ev(), "pf": p.ev(), "what": what})
	m["exact"] = bool2(canonPf(e.N(), p))
	m["ver"] = verifyReal(e, k, st, real)
	emit(m)
}

// objectHistory verifies one proof object again and again: for its statement,
// for others, after its parts were changed and changed back.
func objectHistory(e *env, k string, st St, real interface{}, ps []z.ECPoint) {
	verifyObj(e, k, st, real, "object")
	for _, nm := range stNames[k] {
		s2 := st.clone()
		s2[nm] = e.add(s2[nm], e.zp.G)
		verifyObj(e, k, s2, real, "object, other "+nm)
		s2[nm].X.Set(st[nm].X) // in place
		s2[nm].Y.Set(st[nm].Y)
		verifyObj(e, k, s2, real, "object, right again")
		q := pickP(ps)
		s2[nm].X.Set(q.X)
		s2[nm].Y.Set(q.Y)
		verifyObj(e, k, s2, real, "object, other in place "+nm)
	}
	// parts of the object
	var pts []*z.ECPoint
	var ss []**big.Int
	switch p := real.(type) {
	case *z.GSPFSProof:
		pts, ss = []*z.ECPoint{&p.Base, &p.RandCommit}, []**big.Int{&p.HiddenValue, &p.Challenge}
	case *z.EquivalenceProof:
		pts, ss = []*z.ECPoint{&p.UG, &p.UH}, []**big.Int{&p.HiddenValue, &p.Challenge}
	case *z.DisjunctiveProof:
		pts, ss = []*z.ECPoint{&p.T1, &p.T2}, []**big.Int{&p.C, &p.C1, &p.C2, &p.S1, &p.S2}
	case *z.ConsistencyProof:
		pts, ss = []*z.ECPoint{&p.T1, &p.T2}, []**big.Int{&p.Challenge, &p.S1, &p.S2}
	case *z.ABCProof:
		pts, ss = []*z.ECPoint{&p.B, &p.C, &p.T1, &p.T2}, []**big.Int{&p.Challenge}
	case *z.RangeProof:
		pts, ss = []*z.ECPoint{&p.ProofAggregate}, []**big.Int{&p.ProofE}
		for i := range p.ProofTuples {
			if i%13 == 0 {
				pts, ss = append(pts, &p.ProofTuples[i].C), append(ss, &p.ProofTuples[i].S)
			}
		}
	}
	for _, x := range pts {
		old := *x
		*x = e.add(cpp(old), e.zp.H)
		verifyObj(e, k, st, real, "object, changed point")
		*x = cpp(old)
		verifyObj(e, k, st, real, "object, changed back")
	}
	for i, x := range ss {
		old := *x
		if i%2 == 0 {
			*x = e.modN(addi(old, 1))
			verifyObj(e, k, st, real, "object, changed scalar")
		} else {
			v := cp(old)
			old.Set(e.modN(addi(v, 1)))
			verifyObj(e, k, st, real, "object, scalar changed in place")
			old.Set(v)
		}
		*x = cp(old)
		verifyObj(e, k, st, real, "object, changed back")
	}
}

type slot struct {
	name string
	get  func() z.ECPoint
	set  func(z.ECPoint)
}

// pointSlots are all the places for points in a statement and a proof.
func pointSlots(st St, p *Pf) []slot {
	var r []slot
	addMap := func(pre string, m map[string]z.ECPoint) {
		var ns []string
		for n := range m {
			if n != "CToken" {
				ns = append(ns, n)
			}
		}
		sort.Strings(ns)
		for _, n := range ns {
			n := n
			r = append(r, slot{pre + n, func() z.ECPoint { return m[n] }, func(q z.ECPoint) { m[n] = q }})
		}
	}
	addMap("st.", st)
	addMap("pf.", p.P)
	if p.D != nil {
		addMap("pf.D.", p.D.P)
	}
	for i := range p.T {
		i := i
		r = append(r, slot{"pf.t", func() z.ECPoint { return p.T[i].C }, func(q z.ECPoint) { p.T[i].C = q }})
	}
	return r
}

type sslot struct {
	name string
	get  func() *big.Int
	set  func(*big.Int)
}

func scalarSlots(p *Pf) []sslot {
	var r []sslot
	addMap := func(pre string, m map[string]*big.Int) {
		var ns []string
		for n := range m {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			n := n
			r = append(r, sslot{pre + n, func() *big.Int { return m[n] }, func(q *big.Int) { m[n] = q }})
		}
	}
	addMap("", p.S)
	if p.D != nil {
		addMap("D.", p.D.S)
	}
	for i := range p.T {
		i := i
		r = append(r, sslot{"t", func() *big.Int { return p.T[i].S }, func(q *big.Int) { p.T[i].S = q }})
	}
	return r
}

// offCurve returns a point that is not on the curve (y = 0: it has order 2 on
// another one; x = 0 and a = 0: order 3).
func offCurve(e *env) z.ECPoint {
	for {
		if e.cv == "secp" && rng.Intn(3) == 0 {
			return z.ECPoint{X: bi(0), Y: addi(rndN(addi(e.zp.C.Params().P, -1)), 1)}
		}
		x := rndN(e.zp.C.Params().P)
		if x.Sign() != 0 && !e.zp.C.IsOnCurve(x, bi(0)) {
			return z.ECPoint{X: x, Y: bi(0)}
		}
	}
}

func kills(e *env, q z.ECPoint, ks ...*big.Int) bool {
	ok := true
	o := guard(func() {
		for _, k := range ks {
			if !e.zp.Mult(q, e.modN(k)).Equal(zero()) {
				ok = false
			}
		}
	})
	return o == "ok" && ok
}

// mutants: one component of a good proof or of its statement is changed.
func mutants(e *env, k string, st St, good *Pf, ps []z.ECPoint, all bool) {
	P := e.zp.C.Params().P
	N := e.N()
	nP := len(pointSlots(st, good))
	for i := 0; i < nP; i++ {
		vars := []string{"neg", "+G", "+H", "zero", "double", "other", "random", "x-only", "off", "nil", "nilx", "nily", "x+P", "y+P", "y-P", "swapxy", "near", "near"}
		if !all {
			rng.Shuffle(len(vars), func(a, b int) { vars[a], vars[b] = vars[b], vars[a] })
			vars = vars[:4]
		}
		for _, v := range vars {
			s2, p2 := st.clone(), good.clone()
			sl := pointSlots(s2, p2)
			q := sl[i].get()
			switch v {
			case "neg":
				q = e.neg(q)
			case "+G":
				q = e.add(q, e.zp.G)
			case "+H":
				q = e.add(q, e.zp.H)
			case "zero":
				q = zero()
			case "double":
				q = e.add(q, q)
			case "other":
				q = cpp(sl[rng.Intn(nP)].get())
			case "random":
				q = pickP(ps)
			case "x-only":
				q = z.ECPoint{X: cp(q.X), Y: new(big.Int).Mod(addi(q.Y, 1), P)}
			case "off":
				q = offCurve(e)
			case "nil":
				q = z.ECPoint{}
			case "nilx":
				q = z.ECPoint{Y: q.Y}
			case "nily":
				q = z.ECPoint{X: q.X}
			case "x+P":
				q = z.ECPoint{X: add(q.X, P), Y: q.Y}
			case "y+P":
				q = z.ECPoint{X: q.X, Y: add(q.Y, P)}
			case "y-P":
				q = z.ECPoint{X: q.X, Y: sub(q.Y, P)}
			case "swapxy":
				q = z.ECPoint{X: q.Y, Y: q.X}
			case "near":
				q = pickP(nearMiss(e, q))
			}
			if (q.X == nil || q.Y == nil || q.X.Sign() < 0 || q.Y.Sign() < 0) && (k == "abc" || k == "ineq") && sl[i].name[0] == 'p' {
				continue // cannot be encoded
			}
			sl[i].set(q)
			verifyEvent(e, k, s2, p2, sl[i].name+" "+v)
		}
	}
	nS := len(scalarSlots(good))
	for i := 0; i < nS; i++ {
		vars := []string{"+1", "-1", "neg", "zero", "one", "swap", "random", "+N", "-N", "nil", "double", "bit"}
		if !all {
			rng.Shuffle(len(vars), func(a, b int) { vars[a], vars[b] = vars[b], vars[a] })
			vars = vars[:4]
		}
		for _, v := range vars {
			s2, p2 := st.clone(), good.clone()
			sl := scalarSlots(p2)
			x := cp(sl[i].get())
			switch v {
			case "+1":
				x = e.modN(addi(x, 1))
			case "-1":
				x = e.modN(addi(x, -1))
			case "neg":
				x = e.modN(new(big.Int).Neg(x))
			case "zero":
				x = bi(0)
			case "one":
				x = bi(1)
			case "swap":
				j := rng.Intn(nS)
				y := cp(sl[j].get())
				sl[j].set(x)
				x = y
			case "random":
				x = rndN(N)
			case "+N":
				x = add(x, N)
			case "-N":
				x = sub(x, N)
			case "nil":
				if k == "abc" || k == "ineq" {
					continue
				}
				x = nil
			case "double":
				x = e.modN(add(x, x))
			case "bit":
				x = e.modN(new(big.Int).SetBit(x, rng.Intn(N.BitLen()), 1-x.Bit(0)))
			}
			sl[i].set(x)
			verifyEvent(e, k, s2, p2, sl[i].name+" "+v)
		}
	}
	// all responses negated; pairs of scalars shifted against each other; points swapped
	p2 := good.clone()
	for _, s := range scalarSlots(p2) {
		if n := s.name; n != "c" && n != "D.c" && n != "e" {
			s.set(e.modN(new(big.Int).Neg(s.get())))
		}
	}
	verifyEvent(e, k, st, p2, "all negated")
	for t := 0; t < 4; t++ {
		p2 = good.clone()
		s2 := st.clone()
		sl := scalarSlots(p2)
		i, j := rng.Intn(len(sl)), rng.Intn(len(sl))
		d := rndN(N)
		if t%2 == 0 {
			d = bi(1)
		}
		sl[i].set(e.modN(add(sl[i].get(), d)))
		sl[j].set(e.modN(sub(sl[j].get(), d)))
		verifyEvent(e, k, s2, p2, sl[i].name+"+d "+sl[j].name+"-d")
		p2 = good.clone()
		pl := pointSlots(s2, p2)
		i, j = rng.Intn(len(pl)), rng.Intn(len(pl))
		a, b := pl[i].get(), pl[j].get()
		pl[i].set(b)
		pl[j].set(a)
		verifyEvent(e, k, s2, p2, pl[i].name+"<->"+pl[j].name)
	}
}

// forge <env> <kind> <n> <all mutants: 0|1>
func dForge(a []string) {
	e := envByName(a[0])
	k := a[1]
	n := atoi(a[2])
	all := a[3] == "1"
	ps, vs := points(e, 6), scalars(e.N(), 40)
	N := e.N()
	r := func() *big.Int { return rndN(N) }
	// nonzero points for the parts so that a part is visible in the transcript
	for it := 0; it < n; it++ {
		st, w := instance(e, k, ps, vs)
		nparts := map[string]int{"gspfs": 3, "eq": 6, "disj": 6, "cons": 7, "abc": 8}[k]
		// an honest proof made here
		good := ownProve(e, k, st, w, ownOpt{})
		verifyEvent(e, k, st, good, "own honest")
		// and one made by the code
		if real, _, res := prove(e, k, st.clone(), w); res == "proof" {
			if p := toPf(k, real); p != nil {
				verifyEvent(e, k, st, p, "real honest")
				if q, _, r := prove(e, k, st.clone(), w); r == "proof" && it < 3 {
					objectHistory(e, k, st.clone(), q, ps)
				}
				if it%2 == 0 {
					good = p
				}
			}
		}
		mutants(e, k, st, good, ps, all)
		// another statement, same proof
		st3, w3 := instance(e, k, ps, vs)
		verifyEvent(e, k, st3, good, "other statement")
		_ = w3

		// challenges that leave parts out
		for i := 0; i < nparts; i++ {
			verifyEvent(e, k, st, ownProve(e, k, st, w, ownOpt{mask: 1 << uint(i)}), "challenge without a part")
		}
		for j := 0; j < 3; j++ {
			verifyEvent(e, k, st, ownProve(e, k, st, w, ownOpt{mask: rng.Intn(1 << uint(nparts))}), "challenge without parts")
		}
		verifyEvent(e, k, st, ownProve(e, k, st, w, ownOpt{chal: r()}), "free challenge")
		verifyEvent(e, k, st, ownProve(e, k, st, w, ownOpt{chal: bi(0)}), "zero challenge")
		if k == "abc" {
			for i := 0; i < 6; i++ {
				verifyEvent(e, k, st, ownProve(e, k, st, w, ownOpt{dmask: 1 << uint(i)}), "inner challenge without a part")
			}
		}

		// statements that are false in one place, everything else honest
		for _, nm := range stNames[k] {
			s2 := st.clone()
			switch rng.Intn(4) {
			case 0:
				s2[nm] = e.add(s2[nm], e.zp.G)
			case 1:
				s2[nm] = e.add(s2[nm], e.zp.H)
			case 2:
				s2[nm] = e.neg(s2[nm])
			default:
				s2[nm] = pickP(ps)
			}
			verifyEvent(e, k, s2, ownProve(e, k, s2, w, ownOpt{}), "false "+nm)
			// the equations that can be saved are saved by solving for T afterwards
			p2 := ownProve(e, k, s2, w, ownOpt{})
			solveT(e, k, s2, p2)
			verifyEvent(e, k, s2, p2, "false "+nm+", T solved")
			if k != "abc" {
				// challenge recomputed for the solved T: the equations fail
				p2.S["c"] = hashPts(e, partsOf(e, k, s2, p2))
				verifyEvent(e, k, s2, p2, "false "+nm+", T solved, rehashed")
			}
		}
		forgeKind(e, k, st, w, ps, vs)
		each := 4
		if all {
			each = 16
		}
		forgeSub(e, k, st, w, append(append([]string{}, stNames[k]...), pfPoints[k]...), each)
		forgeEdge(e, k, each)
		forgeOff(e, k, vs)
	}
}

// forgeKind: all equations but one hold, with the right challenge.
func forgeKind(e *env, k string, st St, w W, ps []z.ECPoint, vs []*big.Int) {
	N := e.N()
	r := func() *big.Int { return rndN(N) }
	disjBoth := func(s St) *Pf { // both sides simulated: only c1 + c2 = c fails
		p := newPf()
		p.S["c1"], p.S["c2"], p.S["s1"], p.S["s2"] = r(), r(), r(), r()
		p.S["c"] = bi(0)
		solveT(e, "disj", s, p)
		p.S["c"] = hashPts(e, partsOf(e, "disj", s, p))
		return p
	}
	disjOne := func(s St, bad string) *Pf { // the sum holds, one side is simulated, the other fails
		p := newPf()
		other := map[string]string{"1": "2", "2": "1"}[bad]
		p.S["c1"], p.S["c2"], p.S["s1"], p.S["s2"] = r(), r(), r(), r()
		p.S["c"] = bi(0)
		solveT(e, "disj", s, p)
		p.S["c"] = hashPts(e, partsOf(e, "disj", s, p))
		p.S["c"+bad] = e.modN(sub(p.S["c"], p.S["c"+other]))
		return p
	}
	disjFree := func(s St) *Pf { // all equations hold, the challenge is not the hash
		p := newPf()
		p.S["c1"], p.S["c2"], p.S["s1"], p.S["s2"] = r(), r(), r(), r()
		p.S["c"] = e.modN(add(p.S["c1"], p.S["c2"]))
		solveT(e, "disj", s, p)
		return p
	}
	switch k {
	case "disj":
		verifyEvent(e, k, st, disjBoth(st), "both sides simulated")
		verifyEvent(e, k, st, disjOne(st, "1"), "side 1 fails")
		verifyEvent(e, k, st, disjOne(st, "2"), "side 2 fails")
		verifyEvent(e, k, st, disjFree(st), "free challenge, simulated")
		f := St{"B1": pickP(ps), "R1": pickP(ps), "B2": pickP(ps), "R2": pickP(ps)}
		verifyEvent(e, k, f, disjBoth(f), "false, both sides simulated")
		verifyEvent(e, k, f, disjFree(f), "false, free challenge")
		// sum right as integers only, or only modulo something else
		p := disjBoth(st)
		p.S["c1"] = new(big.Int).Xor(p.S["c"], p.S["c2"])
		verifyEvent(e, k, st, p, "xor shares")
	case "gspfs", "eq", "cons":
		p := newPf()
		if k == "gspfs" {
			p.P["Base"] = pickP(ps)
		}
		for _, s := range pfScalars[k] {
			p.S[s] = r()
		}
		solveT(e, k, st, p)
		verifyEvent(e, k, st, p, "free challenge, simulated")
		if k == "gspfs" {
			// base chosen after the challenge
			p := newPf()
			t := e.mul(e.zp.G, r())
			p.P["Base"], p.P["T"] = cpp(e.zp.G), t
			c := hashPts(e, partsOf(e, k, st, p))
			s := r()
			inv := new(big.Int).ModInverse(s, N)
			if inv != nil {
				p.P["Base"] = e.mul(e.sub(t, e.mul(st["A"], c)), inv)
				p.S["c"], p.S["s"] = c, s
				verifyEvent(e, k, st, p, "base after challenge")
				c = hashPts(e, []z.ECPoint{st["A"], t})
				p.P["Base"] = e.mul(e.sub(t, e.mul(st["A"], c)), inv)
				p.S["c"] = c
				verifyEvent(e, k, st, p, "base not hashed")
			}
		}
	case "abc":
		// commitments to anything: value v, b, c with c # v*b etc.
		for t := 0; t < 6; t++ {
			v, b, cc, sk, rr := pick(vs), r(), r(), addi(r(), 1), r()
			if t == 1 {
				v = bi(0)
			}
			if t >= 4 {
				b, cc = r(), bi(1)
			}
			s := St{"CM": e.commit(v, rr), "CT": e.mul(e.mul(e.zp.H, sk), rr)}
			isk := new(big.Int).ModInverse(e.modN(sk), N)
			if isk == nil {
				continue
			}
			p := newPf()
			u1, u2, u3, ub, uc := r(), r(), r(), r(), r()
			p.P["B"], p.P["C"] = e.commit(b, ub), e.commit(cc, uc)
			p.P["T1"] = e.add(e.mul(e.zp.G, u1), e.mul(s["CT"], u2))
			p.P["T2"] = e.add(e.mul(p.P["B"], u1), e.mul(e.zp.H, u3))
			c := hashPts(e, partsOf(e, k, s, p))
			p.S["c"] = c
			p.S["j"], p.S["k"], p.S["l"] = e.modN(add(u1, mul(c, v))), e.modN(add(u2, mul(c, isk))), e.modN(add(u3, mul(c, sub(uc, mul(v, ub)))))
			ds := disjSt(e, s, p)
			switch t {
			case 0, 1:
				p.D = disjBoth(ds)
			case 2:
				p.D = disjFree(ds)
			case 3:
				p.D = disjOne(ds, "2")
			default: // c = 1 honestly proved, but c # v * b: only the second equation fails
				p.D = ownProve(e, "disj", ds, W{Side: 1, S: map[string]*big.Int{"x": uc}}, ownOpt{})
			}
			verifyEvent(e, k, s, p, "abc inner or product false")
		}
		// only the first, only the second equation fails
		for _, nm := range []string{"k", "l", "j"} {
			p := ownProve(e, k, st, w, ownOpt{})
			p.S[nm] = e.modN(addi(p.S[nm], int64(1+rng.Intn(5))))
			if nm == "j" {
				// keep the first equation by moving j's excess into T1 before hashing is impossible; solve T2 only
				q := p.clone()
				solveT(e, k, st, q)
				p.P["T2"] = q.P["T2"]
			}
			verifyEvent(e, k, st, p, nm+" off")
		}
		// inner proof of another statement
		st2, w2 := instance(e, k, ps, vs)
		p, q := ownProve(e, k, st, w, ownOpt{}), ownProve(e, k, st2, w2, ownOpt{})
		p.D = q.D
		verifyEvent(e, k, st, p, "inner proof of another statement")
		// inner proof for C instead of C - G (c = 0 instead of 1), for C + G
		for _, gm := range []int64{0, -1, 2} {
			v, rr, sk := addi(r(), 1), r(), addi(r(), 1)
			s := St{"CM": e.commit(v, rr), "CT": e.mul(e.mul(e.zp.H, sk), rr)}
			p := ownProve(e, k, s, W{Side: 0, S: map[string]*big.Int{"v": bi(0), "sk": sk}}, ownOpt{})
			// B = bG + ubH, C = gm G + uc H with gm = v b
			u1, u2, u3, ub, uc := r(), r(), r(), r(), r()
			iv := new(big.Int).ModInverse(e.modN(v), N)
			isk := new(big.Int).ModInverse(e.modN(sk), N)
			if iv == nil || isk == nil {
				continue
			}
			b := e.modN(mul(bi(gm), iv))
			p.P["B"], p.P["C"] = e.commit(b, ub), e.commit(bi(gm), uc)
			p.P["T1"] = e.add(e.mul(e.zp.G, u1), e.mul(s["CT"], u2))
			p.P["T2"] = e.add(e.mul(p.P["B"], u1), e.mul(e.zp.H, u3))
			c := hashPts(e, partsOf(e, k, s, p))
			p.S["c"] = c
			p.S["j"], p.S["k"], p.S["l"] = e.modN(add(u1, mul(c, v))), e.modN(add(u2, mul(c, isk))), e.modN(add(u3, mul(c, sub(uc, mul(v, ub)))))
			ds := disjSt(e, s, p)
			ds["R2"] = e.mul(e.zp.H, uc)
			p.D = ownProve(e, "disj", ds, W{Side: 1, S: map[string]*big.Int{"x": uc}}, ownOpt{})
			verifyEvent(e, k, s, p, "c is not 1")
		}
	}
}

// forgeSub: proofs in which one point is given by other coordinates which mean
// the same modulo the prime (or to a careless reader), hashed as given.
func forgeSub(e *env, k string, st St, w W, names []string, each int) {
	P := e.zp.C.Params().P
	W := uint((P.BitLen() + 7) / 8 * 8)
	type F func(x, y *big.Int) (*big.Int, *big.Int)
	d := rnd(60)
	fs := []F{
		func(x, y *big.Int) (*big.Int, *big.Int) { return add(x, P), y },
		func(x, y *big.Int) (*big.Int, *big.Int) { return x, add(y, P) },
		func(x, y *big.Int) (*big.Int, *big.Int) { return sub(x, P), y },
		func(x, y *big.Int) (*big.Int, *big.Int) { return x, sub(y, P) },
		func(x, y *big.Int) (*big.Int, *big.Int) { return add(x, pow2(W)), y },
		func(x, y *big.Int) (*big.Int, *big.Int) { return x, add(y, pow2(W)) },
		func(x, y *big.Int) (*big.Int, *big.Int) { return new(big.Int).Neg(x), y },
		func(x, y *big.Int) (*big.Int, *big.Int) { return x, new(big.Int).Neg(y) },
		func(x, y *big.Int) (*big.Int, *big.Int) { return x, sub(P, y) },
		func(x, y *big.Int) (*big.Int, *big.Int) { return y, x },
		func(x, y *big.Int) (*big.Int, *big.Int) { return add(x, d), sub(y, d) },
		func(x, y *big.Int) (*big.Int, *big.Int) {
			h := x.Text(16) + y.Text(16)
			i := min(len(h)/2+2, len(h)-1)
			return bhex(h[:i]), bhex(h[i:])
		},
	}
	for _, nm := range names {
		if nm == "CToken" {
			continue
		}
		_, inSt := st[nm]
		for t := 0; t < each; t++ {
			f := fs[t%4]
			if t >= 4 || rng.Intn(2) == 0 {
				f = fs[rng.Intn(len(fs))]
			}
			g := func(q z.ECPoint) z.ECPoint {
				x, y := f(cp(q.X), cp(q.Y))
				return z.ECPoint{X: cp(x), Y: cp(y)}
			}
			p := ownProve(e, k, st, w, ownOpt{subN: nm, subF: g})
			s2 := st.clone()
			if inSt {
				s2[nm] = g(s2[nm])
			} else if v := p.P[nm]; k == "abc" && (v.X.Sign() < 0 || v.Y.Sign() < 0 || v.X.BitLen() > 256 || v.Y.BitLen() > 256) {
				continue // cannot be encoded
			}
			verifyEvent(e, k, s2, p, "other coordinates "+nm)
		}
	}
}

// forgeEdge: the same for points with a coordinate so small that it fits the
// representation of the field also with the prime added.
func forgeEdge(e *env, k string, n int) {
	if e.cv != "secp" || k == "abc" {
		return
	}
	var es []z.ECPoint
	P := e.zp.C.Params().P
	for _, p := range edgePoints(200) {
		if add(p.X, P).BitLen() <= 256 || add(p.Y, P).BitLen() <= 256 {
			es = append(es, p)
		}
	}
	for i := 0; i < n; i++ {
		b := pickP(es)
		x := rndN(e.N())
		var f func(z.ECPoint) z.ECPoint
		if add(b.X, P).BitLen() <= 256 {
			f = func(q z.ECPoint) z.ECPoint { return z.ECPoint{X: add(q.X, P), Y: cp(q.Y)} }
		} else {
			f = func(q z.ECPoint) z.ECPoint { return z.ECPoint{X: cp(q.X), Y: add(q.Y, P)} }
		}
		var st St
		nm := ""
		w := W{S: map[string]*big.Int{"x": x}}
		g := e.mul(e.zp.G, addi(rndN(addi(e.N(), -1)), 1))
		side := rng.Intn(2)
		switch k {
		case "gspfs":
			st, w.Base, nm = St{"A": e.mul(b, x)}, b, "Base"
		case "eq":
			st, nm = St{"B1": b, "R1": e.mul(b, x), "B2": g, "R2": e.mul(g, x)}, "B1"
			if side == 1 {
				st, nm = St{"B1": g, "R1": e.mul(g, x), "B2": b, "R2": e.mul(b, x)}, "B2"
			}
		case "disj":
			w.Side = rng.Intn(2)
			st, nm = St{"B1": b, "R1": e.mul(b, x), "B2": g, "R2": e.mul(g, x)}, "B1"
			if side == 1 {
				st, nm = St{"B1": g, "R1": e.mul(g, x), "B2": b, "R2": e.mul(b, x)}, "B2"
			}
		case "cons":
			w.S["v"], w.S["r"] = rndN(e.N()), x
			st, nm = St{"CM": e.commit(w.S["v"], x), "CT": e.mul(b, x), "PK": b}, "PK"
		}
		p := ownProve(e, k, st, w, ownOpt{subN: nm, subF: f})
		s2 := st.clone()
		if _, ok := st[nm]; ok {
			s2[nm] = f(s2[nm])
		}
		verifyEvent(e, k, s2, p, "small coordinate beyond the prime "+nm)
	}
}

// forgeOff: proofs over points that are not on the curve, such that the code's
// own arithmetic satisfies every equation.
func forgeOff(e *env, k string, vs []*big.Int) {
	if e.toy == nil && e.cv != "secp" {
		return // the standard library refuses such points with a panic
	}
	N := e.N()
	type att struct {
		at string
		st St
		w  W
		ks func(p *Pf) []*big.Int
	}
	var as []att
	Z := zero
	g := func() z.ECPoint { return e.mul(e.zp.G, addi(rndN(addi(N, -1)), 1)) }
	ww := func(side int, kv ...interface{}) W {
		w := W{Side: side, S: map[string]*big.Int{}}
		for i := 0; i < len(kv); i += 2 {
			w.S[kv[i].(string)] = kv[i+1].(*big.Int)
		}
		return w
	}
	sc := func(ns ...string) func(p *Pf) []*big.Int {
		return func(p *Pf) []*big.Int {
			var r []*big.Int
			for _, n := range ns {
				if len(n) > 2 && n[:2] == "D." {
					r = append(r, p.D.S[n[2:]])
				} else {
					r = append(r, p.S[n])
				}
			}
			return r
		}
	}
	switch k {
	case "gspfs":
		w := ww(0, "x", bi(0))
		w.Base = g()
		as = append(as, att{"A", St{"A": Z()}, w, sc("c")})
		w2 := ww(0, "x", rndN(N))
		w2.Base = Z()
		as = append(as, att{"Base", St{"A": Z()}, w2, sc("s")})
	case "eq":
		as = append(as, att{"R1", St{"B1": g(), "R1": Z(), "B2": g(), "R2": Z()}, ww(0, "x", bi(0)), sc("c")},
			att{"R2", St{"B1": g(), "R1": Z(), "B2": g(), "R2": Z()}, ww(0, "x", bi(0)), sc("c")},
			att{"B1", St{"B1": Z(), "R1": Z(), "B2": g(), "R2": Z()}, ww(0, "x", bi(0)), sc("s")},
			att{"B2", St{"B1": g(), "R1": Z(), "B2": Z(), "R2": Z()}, ww(0, "x", bi(0)), sc("s")})
	case "disj":
		b := g()
		x := rndN(N)
		as = append(as, att{"R1", St{"B1": g(), "R1": Z(), "B2": g(), "R2": g()}, ww(0, "x", bi(0)), sc("c1")},
			att{"R2", St{"B1": b, "R1": e.mul(b, x), "B2": g(), "R2": Z()}, ww(0, "x", x), sc("c2")},
			att{"B1", St{"B1": Z(), "R1": Z(), "B2": g(), "R2": g()}, ww(0, "x", bi(0)), sc("s1")},
			att{"B2", St{"B1": b, "R1": e.mul(b, x), "B2": Z(), "R2": g()}, ww(0, "x", x), sc("s2")})
	case "cons":
		v, rr := rndN(N), rndN(N)
		as = append(as, att{"CM", St{"CM": Z(), "CT": Z(), "PK": g()}, ww(0, "v", bi(0), "r", bi(0)), sc("c")},
			att{"CT", St{"CM": e.mul(e.zp.G, v), "CT": Z(), "PK": g()}, ww(0, "v", v, "r", bi(0)), sc("c")},
			att{"PK", St{"CM": e.commit(v, rr), "CT": Z(), "PK": Z()}, ww(0, "v", v, "r", rr), sc("s2")})
	case "abc":
		v := addi(rndN(addi(N, -1)), 1)
		sk := addi(rndN(addi(N, -1)), 1)
		as = append(as, att{"CT", St{"CM": e.mul(e.zp.G, v), "CT": Z()}, ww(1, "v", v, "sk", sk), sc("k", "D.c1")},
			att{"CM", St{"CM": Z(), "CT": Z()}, ww(0, "v", bi(0), "sk", sk), sc("c", "D.s1")},
			att{"B", St{"CM": Z(), "CT": Z()}, ww(0, "v", bi(0), "sk", sk), sc("j")})
	}
	for _, a := range as {
		for try := 0; try < 400; try++ {
			q := offCurve(e)
			if e.toy != nil {
				break
			}
			p := ownProve(e, k, a.st, a.w, ownOpt{sub: St{a.at: q}})
			if !kills(e, q, a.ks(p)...) {
				continue
			}
			st := a.st.clone()
			if _, ok := st[a.at]; ok {
				st[a.at] = q
			}
			verifyEvent(e, k, st, p, "off the curve "+a.at)
			break
		}
	}
}

// rangeforge <env> <n>
func dRangeForge(a []string) {
	e := envByName(a[0])
	n := atoi(a[1])
	ps := points(e, 4)
	pow := powers(e.zp.C, e.zp.G, 128)
	for i := range pow {
		pow[i] = e.mul(e.zp.G, pow2(uint(i)))
	}
	bitsOf := func(v *big.Int) func(int) int { return func(i int) int { return int(v.Bit(i)) } }
	emitR := func(o ownRange, what string) *Pf {
		p, _, _ := ownRangeProve(e, pow, o)
		verifyEvent(e, "range", St{"CM": p.P["Agg"]}, p, what)
		return p
	}
	for it := 0; it < n; it++ {
		v := rnd(40)
		switch it {
		case 0:
			v = bi(0)
		case 1:
			v = addi(pow2(40), -1)
		}
		good := emitR(ownRange{n: 40, bits: bitsOf(v)}, "own honest")
		for _, m := range []int{0, 1, 20, 39, 41, 42, 63, 64, 65} {
			x := rnd(m + 1)
			if m > 0 {
				x.SetBit(x, m-1, 1)
			}
			if it%3 == 0 || m == 39 || m == 41 {
				emitR(ownRange{n: m, bits: bitsOf(x)}, "tuples")
			}
		}
		// one bit commits to something else
		for t := 0; t < 4; t++ {
			i := rng.Intn(40)
			if t == 0 {
				i = 39
			} else if t == 1 {
				i = 0
			}
			off := []*big.Int{pow2(uint(i)), bi(1), pow2(uint(i + 1)), new(big.Int).Neg(pow2(uint(i))), pow2(40), rndN(e.N())}[rng.Intn(6)]
			p, _, _ := ownRangeProve(e, pow, ownRange{n: 40, bits: bitsOf(v), off: map[int]*big.Int{i: off}})
			verifyEvent(e, "range", St{"CM": p.P["Agg"]}, p, "bit commits to something else")
		}
		// the aggregate or the commitment is another
		for _, q := range []z.ECPoint{e.add(good.P["Agg"], e.zp.G), e.add(good.P["Agg"], e.zp.H), e.neg(good.P["Agg"]), zero(), pickP(ps)} {
			verifyEvent(e, "range", St{"CM": q}, good, "another commitment")
			p2 := good.clone()
			p2.P["Agg"] = q
			verifyEvent(e, "range", St{"CM": good.P["Agg"]}, p2, "another aggregate")
			verifyEvent(e, "range", St{"CM": q}, p2, "another commitment and aggregate")
		}
		// two bits exchanged, sum kept
		p2 := good.clone()
		p2.T[3], p2.T[17] = p2.T[17], p2.T[3]
		verifyEvent(e, "range", St{"CM": good.P["Agg"]}, p2, "tuples exchanged")
		// C_i + D, C_j - D: the sum is kept
		p2 = good.clone()
		i, j := rng.Intn(20), 20+rng.Intn(20)
		d := e.mul(e.zp.G, bi(int64(1+rng.Intn(9))))
		p2.T[i].C, p2.T[j].C = e.add(p2.T[i].C, d), e.sub(p2.T[j].C, d)
		verifyEvent(e, "range", St{"CM": good.P["Agg"]}, p2, "bits shifted")
		// every scalar and point of the proof, in some variant
		if it < 2 {
			nP := len(pointSlots(St{}, good))
			for i := 0; i < nP; i++ {
				p3 := good.clone()
				sl := pointSlots(St{}, p3)
				q := sl[i].get()
				switch rng.Intn(7) {
				case 0:
					q = e.neg(q)
				case 1:
					q = zero()
				case 2:
					q = z.ECPoint{X: cp(q.X), Y: new(big.Int).Mod(addi(q.Y, 1), e.zp.C.Params().P)}
				case 3:
					q = z.ECPoint{}
				case 4:
					q = z.ECPoint{X: q.X}
				case 5:
					q = z.ECPoint{X: add(q.X, e.zp.C.Params().P), Y: q.Y}
				default:
					q = pickP(ps)
				}
				sl[i].set(q)
				verifyEvent(e, "range", St{"CM": good.P["Agg"]}, p3, "point changed")
			}
			nS := len(scalarSlots(good))
			for i := 0; i < nS; i++ {
				p3 := good.clone()
				sl := scalarSlots(p3)
				x := sl[i].get()
				switch rng.Intn(5) {
				case 0:
					x = e.modN(addi(x, 1))
				case 1:
					x = e.modN(new(big.Int).Neg(x))
				case 2:
					x = nil
				case 3:
					x = add(x, e.N())
				default:
					x = bi(0)
				}
				sl[i].set(x)
				verifyEvent(e, "range", St{"CM": good.P["Agg"]}, p3, "scalar changed")
			}
		}
		// real proofs, checked against other commitments
		if real, extra, res := prove(e, "range", nil, W{S: map[string]*big.Int{"v": v}}); res == "proof" {
			if p := toPf("range", real); p != nil && extra != nil {
				verifyEvent(e, "range", St{"CM": e.commit(v, extra)}, p, "real, opened")
				verifyEvent(e, "range", St{"CM": e.commit(addi(v, 1), extra)}, p, "real, another value")
				if it < 1 {
					objectHistory(e, "range", St{"CM": e.commit(v, extra)}, real, ps)
				}
			}
		}
	}
}

// nilproof: verifying absent and empty proofs
func dNilProof(a []string) {
	e := envByName(a[0])
	g, h := e.zp.G, e.zp.H
	st := map[string]St{
		"gspfs": {"A": g}, "eq": {"B1": g, "R1": g, "B2": h, "R2": h}, "disj": {"B1": g, "R1": g, "B2": h, "R2": h},
		"cons": {"CM": g, "CT": h, "PK": h}, "abc": {"CM": g, "CT": h}, "ineq": {"CM": g, "CT": h}, "range": {"CM": g},
	}
	for k, reals := range map[string][]interface{}{
		"gspfs": {(*z.GSPFSProof)(nil), &z.GSPFSProof{}}, "eq": {(*z.EquivalenceProof)(nil), &z.EquivalenceProof{}},
		"disj": {(*z.DisjunctiveProof)(nil), &z.DisjunctiveProof{}}, "cons": {(*z.ConsistencyProof)(nil), &z.ConsistencyProof{}},
		"abc":  {(*z.ABCProof)(nil), &z.ABCProof{}, &z.ABCProof{B: g, C: g, T1: g, T2: g, Challenge: bi(1), CToken: g}},
		"ineq": {(*z.InequalityProof)(nil), &z.InequalityProof{}}, "range": {(*z.RangeProof)(nil), &z.RangeProof{}},
	} {
		for i, r := range reals {
			for _, s := range []St{st[k], emptySt(k)} {
				note("verify absent %s %d", k, i)
				emit(M{"op": "absent", "k": k, "i": i, "ver": verifyReal(e, k, s, r)})
			}
		}
	}
	if e.toy != nil {
		return
	}
	// parameters with too few powers: nothing can be proved or verified
	full, _, err := z.NewRangeProof(e.zp, bi(5))
	if err != nil {
		emit(M{"op": "absent", "k": "range", "i": 0, "ver": "error"})
		return
	}
	for _, n := range []int{0, 1, 39} {
		s := *e
		s.zp.HPoints = e.zp.HPoints[:n:n]
		note("verify with %d powers", n)
		emit(M{"op": "absent", "k": "range", "i": n, "ver": verifyReal(&s, "range", St{"CM": cpp(full.ProofAggregate)}, full)})
		ver := "reject"
		note("prove with %d powers", n)
		if o := guard(func() {
			if p, _, err := z.NewRangeProof(s.zp, bi(5)); err == nil || p != nil {
				ver = "accept"
			}
		}); o != "ok" {
			ver = o
		}
		emit(M{"op": "absent", "k": "range-prover", "i": n, "ver": ver})
	}
}

func emptySt(k string) St {
	s := St{}
	for _, n := range stNames[k] {
		s[n] = z.ECPoint{}
	}
	return s
}

// toyver <curve> <kind> <g> <h> <max transcripts>: for each transcript, every
// combination of scalars that the verifier accepts.
func dToyVer(a []string) {
	e := toyEnv(a[0], atoi(a[2]), atoi(a[3]))
	k := a[1]
	q := int(e.toy.q)
	max := atoi(a[4])
	names := append(append([]string{}, stNames[k]...), pfPoints[k]...)
	np := len(names)
	total := 1
	for i := 0; i < np; i++ {
		total *= q
	}
	stride := total > max
	v := make([]int, np)
	scal := pfScalars[k]
	ns := len(scal)
	var inner *Pf
	run := func() {
		st := St{}
		p := newPf()
		for i, n := range names {
			if i < len(stNames[k]) {
				st[n] = e.toy.point(v[i])
			} else {
				p.P[n] = e.toy.point(v[i])
			}
		}
		if k == "abc" {
			// the inner proof is one that is right (if there is one)
			p.P["CToken"] = zero()
			p.D = inner
			inner = nil
			for side := 0; side < 2 && p.D == nil; side++ {
				ds := disjSt(e, st, p)
				for x := 0; x < q && p.D == nil; x++ {
					b, r := ds["B1"], ds["R1"]
					if side == 1 {
						b, r = ds["B2"], ds["R2"]
					}
					if same(e.mul(b, bi(int64(x))), r) {
						p.D = ownProve(e, "disj", ds, W{Side: side, S: map[string]*big.Int{"x": bi(int64(x))}}, ownOpt{})
					}
				}
			}
			if p.D == nil {
				return
			}
		}
		acc := [][]int{}
		odd := ""
		s := make([]int, ns)
		note("toyver %s %v", k, v)
		var rec func(i int)
		rec = func(i int) {
			if i == ns {
				for j, n := range scal {
					p.S[n] = bi(int64(s[j]))
				}
				switch o := verifyPf(e, k, st, p); o {
				case "accept":
					acc = append(acc, append([]int{}, s...))
				case "reject":
				default:
					odd = o
				}
				return
			}
			for x := 0; x < q; x++ {
				s[i] = x
				rec(i + 1)
			}
		}
		rec(0)
		pts := [][]string{}
		for i, n := range names {
			if i < len(stNames[k]) {
				pts = append(pts, pt(st[n]))
			} else {
				pts = append(pts, pt(p.P[n]))
			}
		}
		emit(e.hdr(M{"op": "toyver", "k": k, "q": q, "g": atoi(a[2]), "h": atoi(a[3]), "v": append([]int{}, v...), "pts": pts, "acc": acc, "odd": odd}))
	}
	if stride {
		for i := 0; i < max; i++ {
			for j := range v {
				v[j] = rng.Intn(q)
			}
			run()
		}
		return
	}
	var rec func(i int)
	rec = func(i int) {
		if i == np {
			run()
			return
		}
		for x := 0; x < q; x++ {
			v[i] = x
			rec(i + 1)
		}
	}
	rec(0)
}
