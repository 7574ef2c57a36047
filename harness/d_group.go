package main

import (
	"bytes"
	"math/big"

	z "github.com/mit-dci/zksigma"
	"github.com/mit-dci/zksigma/btcec"
)

func init() {
	drivers["group"] = dGroup
	drivers["toylaw"] = dToyLaw
	drivers["commit"] = dCommit
	drivers["params"] = dParams
	drivers["koblitz"] = dKoblitz
	drivers["walk"] = dWalk
	drivers["tables"] = dTables
}

// edgePoints are points of secp256k1 whose coordinates are at edges of the
// field or of the limbs of its representation.
func edgePoints(n int) []z.ECPoint {
	c := btcec.S256()
	P := c.P
	e := addi(P, 1)
	e.Rsh(e, 2)
	var r []z.ECPoint
	try := func(x *big.Int) {
		x = new(big.Int).Mod(x, P)
		y2 := new(big.Int).Exp(x, bi(3), P)
		y2.Add(y2, bi(7))
		y2.Mod(y2, P)
		y := new(big.Int).Exp(y2, e, P)
		if new(big.Int).Exp(y, bi(2), P).Cmp(y2) != 0 {
			return
		}
		if rng.Intn(2) == 0 {
			y.Sub(P, y)
		}
		r = append(r, z.ECPoint{X: x, Y: y})
	}
	// y at an edge: x from a cube root of y^2-7 (p = 7 mod 9: a cube root is w^((p+2)/9))
	ce := addi(P, 2)
	ce.Div(ce, bi(9))
	tryY := func(y *big.Int) {
		y = new(big.Int).Mod(y, P)
		w := new(big.Int).Mul(y, y)
		w.Sub(w, bi(7))
		w.Mod(w, P)
		x := new(big.Int).Exp(w, ce, P)
		if new(big.Int).Exp(x, bi(3), P).Cmp(w) != 0 {
			return
		}
		r = append(r, z.ECPoint{X: x, Y: y})
	}
	for i := 0; i < n; i++ {
		var x *big.Int
		switch i % 7 {
		case 0:
			x = bi(int64(i))
		case 1:
			x = new(big.Int).Sub(P, bi(int64(i)))
		case 2: // limbs of all ones or all zeros
			x = new(big.Int)
			for j := uint(0); j < 10; j++ {
				if rng.Intn(2) == 0 {
					x.Or(x, new(big.Int).Lsh(addi(pow2(26), -1), 26*j))
				}
			}
			x.And(x, addi(pow2(256), -1))
		case 3: // words
			x = new(big.Int)
			for j := uint(0); j < 8; j++ {
				if rng.Intn(2) == 0 {
					x.Or(x, new(big.Int).Lsh(addi(pow2(32), -1), 32*j))
				}
			}
		case 4:
			x = addi(pow2(uint(rng.Intn(257))), int64(rng.Intn(5)-2))
		case 5:
			x = new(big.Int).Sub(addi(pow2(256), -1), new(big.Int).Lsh(rnd(30), uint(rng.Intn(226))))
		default: // limb just below or above
			x = new(big.Int)
			for j := uint(0); j < 10; j++ {
				x.Add(x, new(big.Int).Lsh(addi(pow2(uint(rng.Intn(27))), int64(rng.Intn(3)-1)), 26*j))
			}
		}
		if rng.Intn(2) == 0 {
			try(x)
		} else {
			tryY(x)
		}
	}
	return r
}

func lawEvent(e *env, f string, p, q z.ECPoint, s *big.Int) {
	m := e.hdr(M{"op": "law", "f": f, "p": pt(p), "res": "ok"})
	if q.X != nil {
		m["q"] = pt(q)
	}
	if s != nil {
		m["s"] = hx(s)
	}
	note("%s on %s: %v %v %v", f, e.cv, pt(p), m["q"], m["s"])
	pp, cs := cpp(p), cp(s)
	var qq z.ECPoint
	if q.X != nil {
		qq = cpp(q)
	}
	if rng.Intn(2) == 0 { // in variables that held other values in the call before
		pp, cs = reusePt("law.p", p), reuseInt("law.s", s)
		if q.X != nil {
			qq = reusePt("law.q", q)
		}
	}
	o := guard(func() {
		switch f {
		case "mult":
			m["r"] = pt(e.zp.Mult(pp, cs))
		case "add":
			m["r"] = pt(e.zp.Add(pp, qq))
		case "sub":
			m["r"] = pt(e.zp.Sub(pp, qq))
		case "neg":
			m["r"] = pt(e.zp.Neg(pp))
		case "equal":
			m["eq"] = bool2(pp.Equal(qq))
		case "keygen":
			pk, sk := z.KeyGen(e.zp.C, pp)
			m["r"], m["s"] = pt(pk), hx(sk)
		}
	})
	if o != "ok" {
		m["res"] = o
	}
	emit(m)
}

// nearMiss returns pairs of coordinates which are not p but could be taken for
// it by a careless comparison.
func nearMiss(e *env, p z.ECPoint) []z.ECPoint {
	P := e.zp.C.Params().P
	d := rnd(8 * (1 + rng.Intn(40)))
	w := uint((P.BitLen() + 7) / 8 * 8)
	r := []z.ECPoint{
		{X: cp(p.X), Y: addi(p.Y, 1)}, {X: addi(p.X, 1), Y: cp(p.Y)}, {X: cp(p.Y), Y: cp(p.X)},
		{X: addi(p.X, 1), Y: addi(p.Y, -1)}, {X: addi(p.X, -1), Y: addi(p.Y, 1)}, {X: addi(p.X, 1), Y: addi(p.Y, 1)},
		{X: sub(p.X, d), Y: add(p.Y, d)}, {X: new(big.Int).Xor(p.X, d), Y: new(big.Int).Xor(p.Y, d)},
		{X: new(big.Int).Lsh(p.X, 8), Y: new(big.Int).Rsh(p.Y, 8)},
		{X: add(p.X, P), Y: cp(p.Y)}, {X: cp(p.X), Y: add(p.Y, P)}, {X: sub(p.X, P), Y: cp(p.Y)}, {X: cp(p.X), Y: sub(p.Y, P)},
		{X: new(big.Int).Neg(p.X), Y: cp(p.Y)}, {X: cp(p.X), Y: new(big.Int).Neg(p.Y)},
		{X: add(p.X, pow2(w)), Y: cp(p.Y)}, {X: cp(p.X), Y: add(p.Y, pow2(w))},
		{X: cp(p.X), Y: bi(0)}, {X: bi(0), Y: cp(p.Y)}, {X: cp(p.X), Y: cp(p.X)},
		{X: new(big.Int).Xor(p.X, pow2(uint(rng.Intn(int(w))))), Y: cp(p.Y)}, {X: cp(p.X), Y: new(big.Int).Xor(p.Y, pow2(uint(rng.Intn(int(w)))))},
	}
	sh := p.X.Text(16) + p.Y.Text(16) // the same digits, split elsewhere
	for i := 1; i < len(sh); i += 1 + rng.Intn(9) {
		r = append(r, z.ECPoint{X: bhex(sh[:i]), Y: bhex(sh[i:])})
	}
	return r
}

// group <env> <n>
func dGroup(a []string) {
	e := envByName(a[0])
	n := atoi(a[1])
	ps := points(e, 8)
	vs := scalars(e.N(), 60)
	if e.cv == "secp" {
		ps = append(ps, edgePoints(60)...)
	}
	none := z.ECPoint{}
	// every special point with every special scalar
	sp := ps[:min(len(ps), 15)]
	for _, p := range sp {
		for _, v := range vs[:42] {
			if rng.Intn(3) == 0 || thorough {
				lawEvent(e, "mult", p, none, v)
			}
		}
		for _, q := range sp {
			lawEvent(e, "add", p, q, nil)
			lawEvent(e, "sub", p, q, nil)
			lawEvent(e, "equal", p, q, nil)
		}
		lawEvent(e, "neg", p, none, nil)
		// half-equal points
		for _, q := range nearMiss(e, p) {
			lawEvent(e, "equal", p, q, nil)
		}
		if !isZero(p) {
			lawEvent(e, "equal", p, e.neg(p), nil)
			lawEvent(e, "keygen", p, none, nil)
		}
	}
	// the generators, by every path
	for i := 0; i < n; i++ {
		for _, p := range []z.ECPoint{e.zp.G, e.zp.H, z.TestCurve.H, {X: e.zp.C.Params().Gx, Y: e.zp.C.Params().Gy}} {
			if p.X.BitLen() > e.zp.C.Params().P.BitLen() || !e.zp.C.IsOnCurve(p.X, p.Y) {
				continue
			}
			if rng.Intn(2) == 0 {
				lawEvent(e, "mult", p, none, pick(vs))
			}
		}
		p, q := pickP(ps), pickP(ps)
		lawEvent(e, "mult", p, none, pick(vs))
		lawEvent(e, "add", p, q, nil)
		lawEvent(e, "sub", p, q, nil)
		lawEvent(e, "add", p, e.neg(p), nil)
		lawEvent(e, "sub", p, p, nil)
		lawEvent(e, "add", p, p, nil)
		lawEvent(e, "add", zero(), p, nil)
		lawEvent(e, "sub", zero(), p, nil)
		lawEvent(e, "neg", p, none, nil)
		// calls that differ in one thing from the one before
		p, v := pickP(ps), pick(vs)
		if rng.Intn(4) == 0 {
			p = []z.ECPoint{e.zp.G, e.zp.H}[rng.Intn(2)]
		}
		lawEvent(e, "mult", p, none, v)
		for t := 0; t < 3; t++ {
			switch rng.Intn(8) {
			case 0, 1:
				p = e.neg(p)
			case 2:
				v = new(big.Int).Neg(v)
			case 3:
				v = addi(v, 1)
			case 4:
				v = new(big.Int).SetBit(v, 64*(1+rng.Intn(3)), 1-v.Bit(64))
			case 5:
				v = add(v, e.N())
			case 6:
				v = new(big.Int).Lsh(v, 8)
			default:
				p = e.add(p, p)
			}
			lawEvent(e, "mult", p, none, v)
		}
		q = pickP(ps)
		lawEvent(e, "add", p, q, nil)
		switch rng.Intn(4) {
		case 0:
			q = e.neg(q)
		case 1:
			p = e.neg(p)
		case 2:
			p, q = q, p
		default:
			q = e.add(q, e.zp.G)
		}
		lawEvent(e, []string{"add", "sub"}[rng.Intn(2)], p, q, nil)
	}
}

// toylaw <curve> <g> <h>: everything
func dToyLaw(a []string) {
	e := toyEnv(a[0], atoi(a[1]), atoi(a[2]))
	t := e.toy
	q := int(t.q)
	odd := ""
	lg := func(f func() z.ECPoint) int {
		r := -1
		o := guard(func() { r = t.dlog(f()) })
		if o != "ok" {
			odd = o
		}
		return r
	}
	note("toylaw %v", a)
	var adds, subs, eqs, muls, coms [][]int
	var opns [][][]int
	var negs []int
	for i := 0; i < q; i++ {
		var ra, rs, re, rm, rc []int
		var ro [][]int
		for j := 0; j < q; j++ {
			ra = append(ra, lg(func() z.ECPoint { return e.zp.Add(t.point(i), t.point(j)) }))
			rs = append(rs, lg(func() z.ECPoint { return e.zp.Sub(t.point(i), t.point(j)) }))
			re = append(re, bool2(t.point(i).Equal(t.point(j))))
			rc = append(rc, lg(func() z.ECPoint { return z.PedCommitR(e.zp, bi(int64(i)), bi(int64(j))) }))
			var rr []int
			for k := 0; k < q; k++ {
				rr = append(rr, bool2(z.Open(e.zp, bi(int64(i)), bi(int64(j)), t.point(k))))
			}
			ro = append(ro, rr)
		}
		for k := -2 * q; k <= 2*q; k++ {
			rm = append(rm, lg(func() z.ECPoint { return e.zp.Mult(t.point(i), bi(int64(k))) }))
		}
		negs = append(negs, lg(func() z.ECPoint { return e.zp.Neg(t.point(i)) }))
		adds, subs, eqs, muls, coms, opns = append(adds, ra), append(subs, rs), append(eqs, re), append(muls, rm), append(coms, rc), append(opns, ro)
	}
	emit(M{"op": "toylaw", "cv": a[0], "q": q, "g": atoi(a[1]), "h": atoi(a[2]), "odd": odd, "add": adds, "sub": subs, "eq": eqs, "neg": negs, "mul": muls, "com": coms, "opn": opns})
}

// commit <env> <n>
func dCommit(a []string) {
	e := envByName(a[0])
	n := atoi(a[1])
	ps, vs := points(e, 5), scalars(e.N(), 60)
	re := false
	ri := func(slot string, v *big.Int) *big.Int {
		if re {
			return reuseInt("commit."+slot, v)
		}
		return cp(v)
	}
	rp := func(slot string, p z.ECPoint) z.ECPoint {
		if re {
			return reusePt("commit."+slot, p)
		}
		return cpp(p)
	}
	ev := func(f string, m M, g func()) {
		re = rng.Intn(2) == 0
		m["op"], m["f"], m["res"] = "commit", f, "ok"
		note("%s on %s: %v", f, e.cv, m)
		if o := guard(g); o != "ok" {
			m["res"] = o
		}
		emit(e.hdr(m))
	}
	for i := 0; i < n; i++ {
		v, r := pick(vs), pick(vs)
		if i < len(vs) {
			v = cp(vs[i])
		} else if i < 2*len(vs) {
			r = cp(vs[i-len(vs)])
		}
		m := M{"v": hx(v), "r": hx(r)}
		var C z.ECPoint
		ev("commit", m, func() { C = z.PedCommitR(e.zp, ri("v", v), ri("r", r)); m["C"] = pt(C) })
		m2 := M{"v": hx(v)}
		ev("ped", m2, func() {
			c, rr, err := z.PedCommit(e.zp, ri("v", v))
			if err != nil {
				m2["res"] = "error"
				return
			}
			m2["C"], m2["r"] = pt(c), hx(rr)
		})
		// openings that fit, fit modulo N, and do not
		N := e.N()
		good := e.commit(v, r)
		for _, o := range []struct {
			v, r *big.Int
			c    z.ECPoint
		}{{v, r, good}, {add(v, N), sub(r, N), good}, {e.modN(v), e.modN(r), good}, {addi(v, 1), r, good}, {v, addi(r, 1), good}, {r, v, good},
			{new(big.Int).Neg(v), r, good}, {v, new(big.Int).Neg(r), good}, {v, r, e.neg(good)}, {v, r, z.ECPoint{X: cp(good.X), Y: addi(good.Y, 1)}},
			{v, r, z.ECPoint{X: addi(good.X, 1), Y: cp(good.Y)}}, {v, r, zero()}, {v, r, pickP(ps)}, {new(big.Int).Neg(v), new(big.Int).Neg(r), e.neg(good)}} {
			m := M{"v": hx(o.v), "r": hx(o.r), "C": pt(o.c)}
			if rng.Intn(2) == 0 {
				ev("open", m, func() { m["ok"] = bool2(z.Open(e.zp, ri("v", o.v), ri("r", o.r), rp("c", o.c))) })
			}
		}
		for _, c := range nearMiss(e, good) {
			m := M{"v": hx(v), "r": hx(r), "C": pt(c)}
			if rng.Intn(6) == 0 {
				ev("open", m, func() { m["ok"] = bool2(z.Open(e.zp, cp(v), cp(r), cpp(c))) })
			}
		}
		// tokens
		pk := pickP(ps)
		tok := e.mul(pk, r)
		m3 := M{"pk": pt(pk), "r": hx(r)}
		ev("token", m3, func() { m3["C"] = pt(z.CommitR(e.zp, rp("pk", pk), ri("r", r))) })
		for _, o := range []struct {
			r *big.Int
			c z.ECPoint
		}{{r, tok}, {add(r, N), tok}, {addi(r, 1), tok}, {r, e.neg(tok)}, {new(big.Int).Neg(r), tok}, {new(big.Int).Neg(r), e.neg(tok)}, {r, z.ECPoint{X: addi(tok.X, 1), Y: cp(tok.Y)}}, {r, z.ECPoint{X: cp(tok.X), Y: addi(tok.Y, 1)}}, {r, zero()}} {
			m := M{"pk": pt(pk), "r": hx(o.r), "C": pt(o.c)}
			if rng.Intn(2) == 0 {
				ev("vtoken", m, func() { m["ok"] = bool2(z.VerifyR(e.zp, rp("c", o.c), rp("pk", pk), ri("r", o.r))) })
			}
		}
		for _, c := range nearMiss(e, tok) {
			m := M{"pk": pt(pk), "r": hx(r), "C": pt(c)}
			if rng.Intn(6) == 0 {
				ev("vtoken", m, func() { m["ok"] = bool2(z.VerifyR(e.zp, cpp(c), cpp(pk), cp(r))) })
			}
		}
		homoEvent(e, vs, ps)
	}
}

func homoEvent(e *env, vs []*big.Int, ps []z.ECPoint) {
	k := 1 + rng.Intn(6)
	pk := pickP(ps)
	var items []M
	sv, sr := bi(0), bi(0)
	var cs, ts []z.ECPoint
	var signs []int
	m := e.hdr(M{"op": "homo", "pk": pt(pk), "res": "ok"})
	note("homo on %s", e.cv)
	o := guard(func() {
		for i := 0; i < k; i++ {
			v, r := pick(vs), pick(vs)
			s := 1 - 2*rng.Intn(2)
			if i > 0 && rng.Intn(4) == 0 { // cancel everything so far
				v, r, s = cp(sv), cp(sr), -1
			}
			items = append(items, M{"v": hx(v), "r": hx(r), "s": s})
			signs = append(signs, s)
			cs = append(cs, z.PedCommitR(e.zp, v, r))
			ts = append(ts, z.CommitR(e.zp, pk, r))
			if s == 1 {
				sv, sr = add(sv, v), add(sr, r)
			} else {
				sv, sr = sub(sv, v), sub(sr, r)
			}
		}
		C, T := z.Zero, z.Zero
		for i := range cs {
			switch {
			case signs[i] == 1:
				C, T = e.zp.Add(C, cs[i]), e.zp.Add(T, ts[i])
			case i%2 == 0:
				C, T = e.zp.Sub(C, cs[i]), e.zp.Sub(T, ts[i])
			default:
				C, T = e.zp.Add(C, e.zp.Neg(cs[i])), e.zp.Add(T, e.zp.Neg(ts[i]))
			}
		}
		m["sum"], m["tok"] = pt(C), pt(T)
		var opens []M
		for _, x := range [][2]*big.Int{{sv, sr}, {e.modN(sv), e.modN(sr)}, {addi(sv, 1), sr}, {sv, addi(sr, -1)}, {sr, sv}, {new(big.Int).Neg(sv), new(big.Int).Neg(sr)}} {
			opens = append(opens, M{"v": hx(x[0]), "r": hx(x[1]), "ok": bool2(z.Open(e.zp, x[0], x[1], C))})
		}
		m["opens"] = opens
	})
	m["items"] = items
	if o != "ok" {
		m["res"] = o
	}
	emit(m)
}

func paramsEvent(deep bool) {
	note("params")
	e := secpEnv()
	c := btcec.S256()
	m := e.hdr(M{"op": "params", "p": hx(e.zp.C.Params().P), "n": hx(e.zp.C.Params().N), "b": hx(e.zp.C.Params().B), "base": []string{hx(e.zp.C.Params().Gx), hx(e.zp.C.Params().Gy)}})
	m["cof"], m["bits"], m["q14"] = c.H, c.Params().BitSize, hx(c.QPlus1Div4())
	var pow [][]string
	for _, p := range e.zp.HPoints {
		pow = append(pow, pt(p))
	}
	m["pow"] = pow
	x, y := c.ScalarBaseMultH([]byte{1})
	m["fast1"] = []string{hx(x), hx(y)}
	var fh, fg []M
	for _, k := range append([]*big.Int{bi(0), bi(1), bi(2), bi(255), bi(256), bi(65537), addi(e.N(), -1)}, rndN(e.N()), rndN(e.N()), rnd(100)) {
		fh = append(fh, M{"k": hx(k), "r": pt(e.zp.Mult(e.zp.H, k))})
		x, y := c.ScalarBaseMultH(k.Bytes())
		fh = append(fh, M{"k": hx(k), "r": []string{hx(x), hx(y)}})
		fg = append(fg, M{"k": hx(k), "r": pt(e.zp.Mult(e.zp.G, k))})
		x, y = c.ScalarBaseMult(k.Bytes())
		fg = append(fg, M{"k": hx(k), "r": []string{hx(x), hx(y)}})
	}
	m["fast"], m["fastg"] = fh, fg
	m["zero"], m["bigzero"] = pt(z.Zero), hx(z.BigZero)
	m["deep"] = bool2(deep)
	emit(m)
}

// params <rounds>: the published parameters, before and after all kinds of operations
func dParams(a []string) {
	n := atoi(a[0])
	e := secpEnv()
	paramsEvent(true)
	kinds := []string{"gspfs", "eq", "disj", "cons", "abc", "ineq", "range"}
	for r := 0; r < n; r++ {
		ps, vs := points(e, 3), scalars(e.N(), 10)
		// the package's own zero point and zero integer as arguments
		ps = append(ps, z.Zero, z.TestCurve.G, z.TestCurve.H, z.TestCurve.HPoints[rng.Intn(64)])
		k := kinds[r%len(kinds)]
		note("operations of kind %s", k)
		guard(func() {
			for i := 0; i < 6; i++ {
				st, w := instance(e, k, ps, vs)
				for n := range w.S {
					if w.S[n].Sign() == 0 {
						w.S[n] = z.BigZero
					}
				}
				if i == 3 && k != "range" {
					st, w = corrupt(e, k, st, w, ps, vs)
				}
				real, _, _ := prove(e, k, st, w)
				if real == nil {
					continue
				}
				vst := verifierSt(e, k, st, real)
				verifyReal(e, k, vst, real)
				kk := k
				if kk == "ineq" {
					continue
				}
				if enc, res := encodeReal(real); res == "ok" {
					if b, err := decodeReal(kk, enc); err == nil {
						verifyReal(e, k, vst, b)
					}
					for j := 0; j < len(enc); j++ {
						enc[j] = 0xff // the caller's own
					}
					decodeReal(kk, enc)
				}
			}
			zp := z.TestCurve
			for _, p := range []z.ECPoint{z.Zero, zp.G, zp.H, zp.HPoints[0], zp.HPoints[63]} {
				for _, q := range []z.ECPoint{z.Zero, zp.G, zp.H} {
					zp.Add(p, q)
					zp.Sub(p, q)
				}
				zp.Neg(p)
				for _, s := range []*big.Int{z.BigZero, zp.C.Params().N, bi(-5), zp.C.Params().P} {
					zp.Mult(p, s)
					z.CommitR(zp, p, s)
					z.VerifyR(zp, z.Zero, p, s)
				}
				var w bytes.Buffer
				z.WriteECPoint(&w, p)
				z.WriteBigInt(&w, z.BigZero)
				b := p.Bytes()
				for i := range b {
					b[i] = 1
				}
				z.ReadECPoint(&w)
				z.ReadBigInt(&w)
			}
			z.PedCommit(zp, z.BigZero)
			z.PedCommitR(zp, z.BigZero, z.BigZero)
			z.Open(zp, z.BigZero, z.BigZero, z.Zero)
			z.GenerateChallenge(zp, zp.G.Bytes(), zp.H.Bytes())
			// signatures, keys and encryption share the curve
			c := btcec.S256()
			priv, pub := btcec.PrivKeyFromBytes(c, rndN(c.N).Bytes())
			sig, err := priv.Sign(bytes.Repeat([]byte{7}, 32))
			if err == nil {
				sig.Verify(bytes.Repeat([]byte{7}, 32), pub)
				btcec.ParseDERSignature(sig.Serialize(), c)
			}
			btcec.ParsePubKey(pub.SerializeCompressed(), c)
			if sc, err := btcec.SignCompact(c, priv, make([]byte, 32), true); err == nil {
				btcec.RecoverCompact(c, sc, make([]byte, 32))
			}
			if ct, err := btcec.Encrypt(pub, []byte("x")); err == nil {
				btcec.Decrypt(priv, ct)
			}
		})
		paramsEvent(false)
	}
}

func kobEvent(f string, m M, g func() (*big.Int, *big.Int)) {
	m["op"], m["f"], m["res"] = "kob", f, "ok"
	note("%v", m)
	if o := guard(func() {
		x, y := g()
		if x == nil || y == nil {
			m["res"] = "nil"
			return
		}
		m["r"] = []string{hx(x), hx(y)}
	}); o != "ok" {
		m["res"] = o
	}
	emit(m)
}

// scalarBytes is a scalar as a byte string of an unusual shape.
func scalarBytes(c *btcec.KoblitzCurve) []byte {
	N := c.N
	lambda := bhex("5363ad4cc05c30e0a5261c028812645a122e22ea20816678df02967c1b23bd72")
	var v *big.Int
	switch rng.Intn(14) {
	case 0:
		v = bi(int64(rng.Intn(4)))
	case 1:
		v = addi(N, int64(rng.Intn(5)-2))
		switch rng.Intn(4) {
		case 0: // the sum of the first 31 table entries equals the last one
			v = addi(N, 2*(256-0x41))
		case 1:
			v = addi(N, int64(rng.Intn(1200)-600))
		}
	case 2:
		v = addi(new(big.Int).Mul(N, bi(int64(rng.Intn(1000)))), int64(rng.Intn(5)-2))
	case 3:
		v = addi(pow2(uint(rng.Intn(300))), int64(rng.Intn(3)-1))
	case 4: // a small multiple of the endomorphism's eigenvalue, plus a small number
		v = addi(new(big.Int).Mul(lambda, bi(int64(rng.Intn(2000)-1000))), int64(rng.Intn(2000)-1000))
		v.Mod(v, N)
	case 5: // one half short, the other long
		v = add(new(big.Int).Mul(lambda, rnd(128)), rnd(1+rng.Intn(128)))
		v.Mod(v, N)
	case 6:
		v = rnd(8 * (1 + rng.Intn(80)))
	case 7: // long runs
		v = sub(pow2(uint(128+rng.Intn(129))), pow2(uint(rng.Intn(128))))
	case 8:
		v = new(big.Int).Sub(N, rnd(1+rng.Intn(140)))
	case 9: // few non-zero bytes
		v = bi(0)
		for i := 0; i < 3; i++ {
			v.Or(v, new(big.Int).Lsh(bi(int64(1+rng.Intn(255))), uint(8*rng.Intn(32))))
		}
	case 10: // bytes 0xff and 0x00
		v = bi(0)
		for i := uint(0); i < 32; i++ {
			if rng.Intn(2) == 0 {
				v.Or(v, new(big.Int).Lsh(bi(255), 8*i))
			}
		}
	case 11: // multiples of the lattice vectors
		a1, b1 := bhex("3086d221a7d46bcde86c90e49284eb15"), bhex("e4437ed6010e88286f547fa90abfe4c3")
		v = add(new(big.Int).Mul(a1, bi(int64(rng.Intn(9)))), new(big.Int).Mul(b1, bi(int64(rng.Intn(9)))))
		v = add(v, new(big.Int).Mul(lambda, bi(int64(rng.Intn(3)))))
		v.Mod(v, N)
	default:
		v = rndN(N)
	}
	b := v.Bytes()
	switch rng.Intn(5) {
	case 0: // leading zeros
		b = append(make([]byte, rng.Intn(40)), b...)
	case 1:
		if len(b) < 32 {
			b = append(make([]byte, 32-len(b)), b...)
		}
	}
	return b
}

// koblitz <n>
func dKoblitz(a []string) {
	n := atoi(a[0])
	c := btcec.S256()
	e := secpEnv()
	eps := edgePoints(300)
	ps := append(points(e, 6), eps...)
	inv := func(k *big.Int) *big.Int { return new(big.Int).ModInverse(k, c.N) }
	hpt := z.TestCurve.H
	h := pt(hpt)
	for i := 0; i < n; i++ {
		p, q := pickP(ps), pickP(ps)
		switch i % 8 {
		case 1:
			q = e.neg(p)
		case 2:
			q = cpp(p)
		case 3: // equal y: x times a cube root of unity
			if !isZero(p) {
				beta := bhex("7ae96a2b657c07106e64479eac3434e99cf0497512f58995c1396c28719501ee")
				x := new(big.Int).Mul(p.X, beta)
				q = z.ECPoint{X: x.Mod(x, c.P), Y: cp(p.Y)}
			}
		case 4:
			q = zero()
		case 5:
			p = zero()
		case 6: // a result at an edge
			if i%16 == 6 {
				q = e.sub(pickP(eps), p)
			} else {
				p = e.mul(pickP(eps), inv(bi(2)))
			}
		case 7: // coordinates that differ by little
			p = pickP(eps)
			for _, r := range eps {
				d := new(big.Int).Sub(r.X, p.X)
				d2 := new(big.Int).Sub(r.Y, p.Y)
				if (d.BitLen() < 12 || d2.BitLen() < 12) && !same(p, r) && rng.Intn(3) == 0 {
					q = cpp(r)
					break
				}
			}
		}
		kobEvent("add", M{"p": pt(p), "q": pt(q)}, func() (*big.Int, *big.Int) {
			return c.Add(old("px", p.X), old("py", p.Y), old("qx", q.X), old("qy", q.Y))
		})
		kobEvent("dbl", M{"p": pt(p)}, func() (*big.Int, *big.Int) { return c.Double(old("px", p.X), old("py", p.Y)) })
		k := scalarBytes(c)
		if kk := new(big.Int).SetBytes(k); i%4 == 0 && new(big.Int).Mod(kk, c.N).Sign() != 0 {
			p = e.mul(pickP(eps), inv(kk))
		}
		kobEvent("mul", M{"p": pt(p), "k": hb(k)}, func() (*big.Int, *big.Int) {
			return c.ScalarMult(old("px", p.X), old("py", p.Y), oldBytes("k", k))
		})
		k2 := scalarBytes(c)
		kobEvent("base", M{"k": hb(k2)}, func() (*big.Int, *big.Int) { return c.ScalarBaseMult(oldBytes("k", k2)) })
		k3 := scalarBytes(c)
		kobEvent("baseh", M{"k": hb(k3), "H": h}, func() (*big.Int, *big.Int) { return c.ScalarBaseMultH(oldBytes("k", k3)) })
		m := M{"op": "kob", "f": "naf", "k": hb(k), "res": "ok"}
		note("%v", m)
		if o := guard(func() {
			pos, neg := btcec.NAF(oldBytes("k", k))
			m["pos"], m["neg"] = hb(pos), hb(neg)
		}); o != "ok" {
			m["res"] = o
		}
		emit(m)
		// membership
		for j := 0; j < 5; j++ {
			r := pickP(ps)
			switch j {
			case 1:
				r.Y = new(big.Int).Mod(addi(r.Y, int64(1+rng.Intn(3))), c.P)
			case 2:
				r.X = new(big.Int).Mod(addi(r.X, int64(1+rng.Intn(3))), c.P)
			case 3:
				r = z.ECPoint{X: rndN(c.P), Y: rndN(c.P)}
			case 4:
				r.X, r.Y = r.Y, r.X
			}
			m := M{"op": "kob", "f": "on", "p": pt(r), "res": "ok"}
			note("%v", m)
			if o := guard(func() { m["ok"] = bool2(c.IsOnCurve(old("px", r.X), old("py", r.Y))) }); o != "ok" {
				m["res"] = o
			}
			emit(m)
		}
	}
	// runs of successive multiples
	for i := 0; i < 4; i++ {
		base := nonZeroP(ps)
		start := rndN(c.N)
		if i == 0 {
			start = bi(1)
		}
		var pts [][]string
		guard(func() {
			for j := int64(0); j < 200; j++ {
				x, y := c.ScalarMult(base.X, base.Y, new(big.Int).Mod(addi(start, j), c.N).Bytes())
				pts = append(pts, []string{hx(x), hx(y)})
			}
		})
		emit(M{"op": "chain", "step": pt(base), "pts": pts})
	}
}

// tables: all entries of both tables, through the exported functions
func dTables(a []string) {
	c := btcec.S256()
	for _, which := range []string{"G", "H"} {
		f := c.ScalarBaseMult
		base := []string{hx(c.Gx), hx(c.Gy)}
		if which == "H" {
			f = c.ScalarBaseMultH
			base = pt(z.TestCurve.H)
		}
		for i := 0; i < 32; i++ {
			var pts [][]string
			note("table %s row %d", which, i)
			o := guard(func() {
				for b := 1; b < 256; b++ {
					k := make([]byte, i+1)
					k[0] = byte(b)
					x, y := f(k)
					pts = append(pts, []string{hx(x), hx(y)})
				}
			})
			emit(M{"op": "table", "which": which, "base": base, "i": i, "pts": pts, "res": o})
		}
	}
}

// walk <n> <seed>: very many results, n of each function
func dWalk(a []string) {
	n := atoi(a[0])
	c := btcec.S256()
	ps := append(points(secpEnv(), 6), edgePoints(60)...)
	for _, f := range []string{"base", "baseh", "mul", "add", "dbl"} {
		for done := 0; done < n; {
			const size = 250
			base := []z.ECPoint{{X: c.Gx, Y: c.Gy}, z.TestCurve.H, nonZeroP(ps), nonZeroP(ps), nonZeroP(ps)}[map[string]int{"base": 0, "baseh": 1, "mul": 2, "add": 3, "dbl": 4}[f]]
			k := rndN(c.N)
			m := M{"op": "walk", "f": f, "base": pt(base), "start": hx(k), "res": "ok"}
			var steps []string
			var ds []*big.Int
			for i := 0; i < 8; i++ {
				d := rndN(c.N)
				if i < 2 {
					d = new(big.Int).Mod(rnd(1+rng.Intn(256)), c.N)
				}
				ds, steps = append(ds, d), append(steps, hx(d))
			}
			m["steps"] = steps
			var js []int
			var pts [][]string
			note("walk %s from %s", f, hx(k))
			o := guard(func() {
				x, y := c.ScalarMult(base.X, base.Y, k.Bytes())
				var D [][2]*big.Int
				for _, d := range ds {
					dx, dy := c.ScalarMult(base.X, base.Y, d.Bytes())
					D = append(D, [2]*big.Int{dx, dy})
				}
				for i := 0; i < size; i++ {
					pts = append(pts, []string{hx(x), hx(y)})
					j := rng.Intn(len(ds))
					js = append(js, j+1)
					k = new(big.Int).Mod(add(k, ds[j]), c.N)
					switch f {
					case "base":
						x, y = c.ScalarBaseMult(k.Bytes())
					case "baseh":
						x, y = c.ScalarBaseMultH(k.Bytes())
					case "mul":
						x, y = c.ScalarMult(base.X, base.Y, k.Bytes())
					case "add":
						x, y = c.Add(x, y, D[j][0], D[j][1])
					case "dbl":
						x, y = c.Double(x, y)
					}
				}
			})
			if o != "ok" {
				m["res"] = o
			}
			m["js"], m["pts"] = js, pts
			emit(m)
			done += size
		}
	}
}
