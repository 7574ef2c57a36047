package main

import (
	"crypto/sha256"
	"math/big"

	z "github.com/mit-dci/zksigma"
)

// The harness's own prover and simulator, used to craft proofs (honest and
// forged) as an attacker would, independently of the code under test.

func hashPts(e *env, ps []z.ECPoint) *big.Int {
	h := sha256.New()
	for _, p := range ps {
		if p.X != nil {
			h.Write(p.X.Bytes())
		}
		if p.Y != nil {
			h.Write(p.Y.Bytes())
		}
	}
	c := new(big.Int).SetBytes(h.Sum(nil))
	return c.Mod(c, e.N())
}

func partsOf(e *env, k string, st St, p *Pf) []z.ECPoint {
	switch k {
	case "gspfs":
		return []z.ECPoint{p.P["Base"], st["A"], p.P["T"]}
	case "eq", "disj":
		return []z.ECPoint{st["B1"], st["R1"], st["B2"], st["R2"], p.P["T1"], p.P["T2"]}
	case "cons":
		return []z.ECPoint{e.zp.G, e.zp.H, st["CM"], st["CT"], st["PK"], p.P["T1"], p.P["T2"]}
	case "abc":
		return []z.ECPoint{e.zp.G, e.zp.H, st["CM"], st["CT"], p.P["B"], p.P["C"], p.P["T1"], p.P["T2"]}
	}
	fatal("partsOf %s", k)
	return nil
}

// drop returns ps without the indices in mask.
func drop(ps []z.ECPoint, mask int) []z.ECPoint {
	var r []z.ECPoint
	for i, p := range ps {
		if mask>>uint(i)&1 == 0 {
			r = append(r, p)
		}
	}
	return r
}

func disjSt(e *env, st St, p *Pf) St {
	return St{"B1": st["CM"], "R1": st["CT"], "B2": e.zp.H, "R2": e.sub(p.P["C"], e.zp.G)}
}

type ownOpt struct {
	mask  int                       // parts left out of the challenge
	dmask int                       // the same for the inner proof of abc
	sub   St                        // points that are replaced (after they were used as given) in hash and output
	subN  string                    // this point is replaced ...
	subF  func(z.ECPoint) z.ECPoint // ... by this function of it
	chal  *big.Int                  // use this challenge instead of the hash
}

func (e *env) modN(x *big.Int) *big.Int { return new(big.Int).Mod(x, e.N()) }
func add(a, b *big.Int) *big.Int        { return new(big.Int).Add(a, b) }
func sub(a, b *big.Int) *big.Int        { return new(big.Int).Sub(a, b) }
func mul(a, b *big.Int) *big.Int        { return new(big.Int).Mul(a, b) }

func newPf() *Pf { return &Pf{P: map[string]z.ECPoint{}, S: map[string]*big.Int{}} }

// challenge of a proof under the options; replaced points are hashed replaced.
func ownChal(e *env, k string, st St, p *Pf, o ownOpt, mask int) *big.Int {
	if o.chal != nil {
		return cp(o.chal)
	}
	s2, p2 := st.clone(), p.clone()
	for n, v := range o.sub {
		if _, ok := s2[n]; ok {
			s2[n] = v
		}
		if _, ok := p2.P[n]; ok {
			p2.P[n] = v
		}
	}
	if q, ok := s2[o.subN]; ok {
		s2[o.subN] = o.subF(q)
	} else if q, ok := p2.P[o.subN]; ok {
		p2.P[o.subN] = o.subF(q)
	}
	return hashPts(e, drop(partsOf(e, k, s2, p2), mask))
}

// ownProve is the honest prover of a kind (with options to deviate).
func ownProve(e *env, k string, st St, w W, o ownOpt) *Pf {
	N := e.N()
	r := func() *big.Int { return rndN(N) }
	p := newPf()
	switch k {
	case "gspfs":
		u := r()
		p.P["Base"], p.P["T"] = cpp(w.Base), e.mul(w.Base, u)
		c := ownChal(e, k, st, p, o, o.mask)
		p.S["c"], p.S["s"] = c, e.modN(sub(u, mul(c, w.S["x"])))
	case "eq":
		u := r()
		p.P["T1"], p.P["T2"] = e.mul(st["B1"], u), e.mul(st["B2"], u)
		c := ownChal(e, k, st, p, o, o.mask)
		p.S["c"], p.S["s"] = c, e.modN(add(u, mul(c, w.S["x"])))
	case "disj":
		u, s2, c2 := r(), r(), r()
		a, b := "1", "2"
		if w.Side == 1 {
			a, b = "2", "1"
		}
		p.P["T"+a] = e.mul(st["B"+a], u)
		p.P["T"+b] = e.sub(e.mul(st["B"+b], s2), e.mul(st["R"+b], c2))
		c := ownChal(e, k, st, p, o, o.mask)
		p.S["c"] = c
		p.S["c"+b], p.S["s"+b] = c2, s2
		p.S["c"+a] = e.modN(sub(c, c2))
		p.S["s"+a] = e.modN(add(u, mul(p.S["c"+a], w.S["x"])))
	case "cons":
		u1, u2 := r(), r()
		p.P["T1"], p.P["T2"] = e.commit(u1, u2), e.mul(st["PK"], u2)
		c := ownChal(e, k, st, p, o, o.mask)
		p.S["c"] = c
		p.S["s1"], p.S["s2"] = e.modN(add(u1, mul(c, w.S["v"]))), e.modN(add(u2, mul(c, w.S["r"])))
	case "abc":
		u1, u2, u3, ub, uc := r(), r(), r(), r(), r()
		v := e.modN(w.S["v"])
		b, cv := bi(0), bi(0)
		if w.Side == 1 {
			cv = bi(1)
			b = new(big.Int).ModInverse(v, N)
			if b == nil {
				b = bi(0)
			}
		}
		p.P["B"], p.P["C"] = e.commit(b, ub), e.commit(cv, uc)
		p.P["CToken"] = e.mul(e.mul(e.zp.H, w.S["sk"]), uc)
		wd := W{Side: w.Side, S: map[string]*big.Int{"x": w.S["sk"]}}
		if w.Side == 1 {
			wd.S["x"] = uc
		}
		p.P["T1"] = e.add(e.mul(e.zp.G, u1), e.mul(st["CT"], u2))
		p.P["T2"] = e.add(e.mul(p.P["B"], u1), e.mul(e.zp.H, u3))
		c := ownChal(e, k, st, p, o, o.mask)
		isk := new(big.Int).ModInverse(e.modN(w.S["sk"]), N)
		if isk == nil {
			isk = bi(0)
		}
		p.S["c"] = c
		p.S["j"] = e.modN(add(u1, mul(c, v)))
		p.S["k"] = e.modN(add(u2, mul(c, isk)))
		p.S["l"] = e.modN(add(u3, mul(c, sub(uc, mul(v, ub)))))
		od := ownOpt{mask: o.dmask, sub: St{}}
		if q, ok := o.sub["CM"]; ok {
			od.sub["B1"] = q
		}
		if q, ok := o.sub["CT"]; ok {
			od.sub["R1"] = q
		}
		switch o.subN {
		case "CM":
			od.subN, od.subF = "B1", o.subF
		case "CT":
			od.subN, od.subF = "R1", o.subF
		}
		p.D = ownProve(e, "disj", disjSt(e, st, p), wd, od)
	default:
		fatal("ownProve %s", k)
	}
	for n, v := range o.sub {
		if _, ok := p.P[n]; ok {
			p.P[n] = v
		}
	}
	if q, ok := p.P[o.subN]; ok {
		p.P[o.subN] = o.subF(q)
	}
	return p
}

// solveT sets the random commitments so that all equations hold for the scalars.
func solveT(e *env, k string, st St, p *Pf) {
	S := p.S
	switch k {
	case "gspfs":
		p.P["T"] = e.add(e.mul(p.P["Base"], S["s"]), e.mul(st["A"], S["c"]))
	case "eq":
		p.P["T1"] = e.sub(e.mul(st["B1"], S["s"]), e.mul(st["R1"], S["c"]))
		p.P["T2"] = e.sub(e.mul(st["B2"], S["s"]), e.mul(st["R2"], S["c"]))
	case "disj":
		p.P["T1"] = e.sub(e.mul(st["B1"], S["s1"]), e.mul(st["R1"], S["c1"]))
		p.P["T2"] = e.sub(e.mul(st["B2"], S["s2"]), e.mul(st["R2"], S["c2"]))
	case "cons":
		p.P["T1"] = e.sub(e.commit(S["s1"], S["s2"]), e.mul(st["CM"], S["c"]))
		p.P["T2"] = e.sub(e.mul(st["PK"], S["s2"]), e.mul(st["CT"], S["c"]))
	case "abc":
		p.P["T1"] = e.sub(e.add(e.mul(e.zp.G, S["j"]), e.mul(st["CT"], S["k"])), e.mul(st["CM"], S["c"]))
		p.P["T2"] = e.sub(e.add(e.mul(p.P["B"], S["j"]), e.mul(e.zp.H, S["l"])), e.mul(p.P["C"], S["c"]))
	}
}

// ---- range proofs ----

// bitSpec says what bit i of an own range proof is: committed as b*2^i, or
// something else (bad), which cannot be proved.
type ownRange struct {
	n    int             // tuples
	bits func(i int) int // 0, 1
	off  map[int]*big.Int
}

// ownRangeProve makes a range proof of n tuples; off[i] is added (times G) to
// bit i's commitment after the fact, which the proof then cannot cover.
func ownRangeProve(e *env, pow []z.ECPoint, o ownRange) (*Pf, *big.Int, *big.Int) {
	N := e.N()
	p := newPf()
	p.T = make([]Tup, o.n)
	R := make([]z.ECPoint, o.n)
	ks, vs := make([]*big.Int, o.n), make([]*big.Int, o.n)
	C := make([]z.ECPoint, o.n)
	total, value := bi(0), bi(0)
	for i := range p.T {
		ks[i] = rndN(N)
		if o.bits(i) == 0 {
			R[i] = e.mul(e.zp.H, ks[i])
			continue
		}
		vs[i] = rndN(N)
		C[i] = e.add(e.mul(e.zp.H, vs[i]), pow[i])
		if x := o.off[i]; x != nil {
			C[i] = e.add(C[i], e.mul(e.zp.G, x))
		}
		R[i] = e.mul(C[i], hashPts(e, []z.ECPoint{e.mul(e.zp.H, ks[i])}))
	}
	e0 := hashPts(e, R)
	agg := zero()
	for i := range p.T {
		if o.bits(i) == 0 {
			j := rndN(N)
			ei := hashPts(e, []z.ECPoint{e.add(e.mul(e.zp.H, j), e.mul(pow[i], e0))})
			inv := new(big.Int).ModInverse(ei, N)
			if inv == nil {
				inv = bi(0)
			}
			vs[i] = e.modN(mul(inv, ks[i]))
			C[i] = e.mul(e.zp.H, vs[i])
			if x := o.off[i]; x != nil {
				C[i] = e.add(C[i], e.mul(e.zp.G, x))
			}
			p.T[i] = Tup{C[i], e.modN(add(j, mul(e0, vs[i])))}
		} else {
			p.T[i] = Tup{C[i], e.modN(add(ks[i], mul(e0, vs[i])))}
			value.Add(value, pow2(uint(i)))
		}
		if x := o.off[i]; x != nil {
			value.Add(value, x)
		}
		total.Add(total, vs[i])
		agg = e.add(agg, C[i])
	}
	p.P["Agg"] = agg
	p.S["e"] = e0
	return p, value, total
}
