package main

import (
	"crypto/elliptic"
	"math/big"

	z "github.com/mit-dci/zksigma"
)

// toyCurve is a complete, slow implementation of elliptic.Curve for small
// curves y^2 = x^3 + ax + b of prime order, with (0,0) as infinity.
type toyCurve struct {
	*elliptic.CurveParams
	a, b, p, q int64
	pts        [][2]int64       // pts[k] = kG
	idx        map[[2]int64]int // and back
}

func (t *toyCurve) inv(x int64) int64 {
	x = ((x % t.p) + t.p) % t.p
	r, e := int64(1), t.p-2
	for b := x; e > 0; e >>= 1 {
		if e&1 == 1 {
			r = r * b % t.p
		}
		b = b * b % t.p
	}
	return r
}

func (t *toyCurve) add(P, Q [2]int64) [2]int64 {
	inf := [2]int64{0, 0}
	if P == inf {
		return Q
	}
	if Q == inf {
		return P
	}
	var l int64
	if P[0] == Q[0] {
		if (P[1]+Q[1])%t.p == 0 {
			return inf
		}
		l = (3*P[0]*P[0] + t.a) % t.p * t.inv(2*P[1]) % t.p
	} else {
		l = ((Q[1]-P[1])%t.p + t.p) % t.p * t.inv(Q[0]-P[0]) % t.p
	}
	x := ((l*l-P[0]-Q[0])%t.p + 2*t.p) % t.p
	y := ((l*((P[0]-x+t.p)%t.p)-P[1])%t.p + t.p) % t.p
	return [2]int64{x, y}
}

func newToy(p, a, b, gx, gy, q int64) *toyCurve {
	t := &toyCurve{a: a, b: b, p: p, q: q, idx: map[[2]int64]int{}}
	t.CurveParams = &elliptic.CurveParams{P: bi(p), N: bi(q), B: bi(b), Gx: bi(gx), Gy: bi(gy), BitSize: bi(p).BitLen(), Name: "toy"}
	cur := [2]int64{0, 0}
	for k := int64(0); k < q; k++ {
		t.pts = append(t.pts, cur)
		t.idx[cur] = int(k)
		cur = t.add(cur, [2]int64{gx, gy})
	}
	if cur != [2]int64{0, 0} || len(t.idx) != int(q) {
		fatal("toy curve order")
	}
	return t
}

func (t *toyCurve) Params() *elliptic.CurveParams { return t.CurveParams }

func (t *toyCurve) IsOnCurve(x, y *big.Int) bool {
	if x == nil || y == nil || x.Sign() < 0 || y.Sign() < 0 || x.Cmp(t.P) >= 0 || y.Cmp(t.P) >= 0 {
		return false
	}
	X, Y := x.Int64(), y.Int64()
	return Y*Y%t.p == (X*X%t.p*X+t.a*X+t.b)%t.p
}

func (t *toyCurve) raw(x, y *big.Int) [2]int64 {
	return [2]int64{x.Int64(), y.Int64()}
}

func (t *toyCurve) Add(x1, y1, x2, y2 *big.Int) (*big.Int, *big.Int) {
	r := t.add(t.raw(x1, y1), t.raw(x2, y2))
	return bi(r[0]), bi(r[1])
}

func (t *toyCurve) Double(x1, y1 *big.Int) (*big.Int, *big.Int) { return t.Add(x1, y1, x1, y1) }

func (t *toyCurve) ScalarMult(x1, y1 *big.Int, k []byte) (*big.Int, *big.Int) {
	P := t.raw(x1, y1)
	r := [2]int64{0, 0}
	for _, b := range k {
		for i := 7; i >= 0; i-- {
			r = t.add(r, r)
			if b>>uint(i)&1 == 1 {
				r = t.add(r, P)
			}
		}
	}
	return bi(r[0]), bi(r[1])
}

func (t *toyCurve) ScalarBaseMult(k []byte) (*big.Int, *big.Int) {
	return t.ScalarMult(t.Gx, t.Gy, k)
}

// point returns kG.
func (t *toyCurve) point(k int) z.ECPoint {
	r := t.pts[((k%int(t.q))+int(t.q))%int(t.q)]
	return z.ECPoint{X: bi(r[0]), Y: bi(r[1])}
}

// dlog returns k with P = kG, or -1.
func (t *toyCurve) dlog(p z.ECPoint) int {
	if p.X == nil || p.Y == nil || !p.X.IsInt64() || !p.Y.IsInt64() {
		return -1
	}
	if k, ok := t.idx[[2]int64{p.X.Int64(), p.Y.Int64()}]; ok {
		return k
	}
	return -1
}

// glassCurve is y^2 = x^3 over the field of N(secp256k1) elements: the chord
// and tangent formulas make its points other than (0,0) a group isomorphic to
// the integers modulo that prime by (x,y) -> x/y, so that its discrete
// logarithms are visible at full size.
type glassCurve struct{ *elliptic.CurveParams }

func newGlass() glassCurve {
	n := z.TestCurve.C.Params().N
	return glassCurve{&elliptic.CurveParams{P: n, N: n, B: bi(0), Gx: bi(1), Gy: bi(1), BitSize: 256, Name: "glass"}}
}

func (g glassCurve) Params() *elliptic.CurveParams { return g.CurveParams }

func (g glassCurve) IsOnCurve(x, y *big.Int) bool {
	if x == nil || y == nil || x.Sign() < 0 || y.Sign() < 0 || x.Cmp(g.P) >= 0 || y.Cmp(g.P) >= 0 {
		return false
	}
	d := new(big.Int).Mul(y, y)
	d.Sub(d, new(big.Int).Exp(x, bi(3), g.P))
	return d.Mod(d, g.P).Sign() == 0
}

func (g glassCurve) lg(x, y *big.Int) *big.Int {
	if y.Sign() == 0 {
		return bi(0)
	}
	t := new(big.Int).ModInverse(y, g.P)
	return t.Mod(t.Mul(t, x), g.P)
}

func (g glassCurve) at(t *big.Int) (*big.Int, *big.Int) {
	t = new(big.Int).Mod(t, g.P)
	if t.Sign() == 0 {
		return bi(0), bi(0)
	}
	i := new(big.Int).ModInverse(t, g.P)
	return new(big.Int).Exp(i, bi(2), g.P), new(big.Int).Exp(i, bi(3), g.P)
}

func (g glassCurve) Add(x1, y1, x2, y2 *big.Int) (*big.Int, *big.Int) {
	return g.at(add(g.lg(x1, y1), g.lg(x2, y2)))
}

func (g glassCurve) Double(x1, y1 *big.Int) (*big.Int, *big.Int) { return g.Add(x1, y1, x1, y1) }

func (g glassCurve) ScalarMult(x1, y1 *big.Int, k []byte) (*big.Int, *big.Int) {
	t := g.lg(x1, y1)
	return g.at(t.Mul(t, new(big.Int).SetBytes(k)))
}

func (g glassCurve) ScalarBaseMult(k []byte) (*big.Int, *big.Int) {
	return g.ScalarMult(g.Gx, g.Gy, k)
}

// The same constants are in spec/Curves.tla.
var toys = map[string]*toyCurve{
	"toy3":   newToy(5, 4, 2, 3, 1, 3),
	"toy7":   newToy(11, 2, 7, 6, 2, 7),
	"toy11":  newToy(7, 1, 6, 1, 1, 11),
	"toy13":  newToy(7, 0, 3, 1, 2, 13),
	"toy31":  newToy(37, 2, 8, 1, 14, 31),
	"toy101": newToy(89, 13, 30, 1, 20, 101),
	"toy251": newToy(227, 1, 37, 2, 71, 251),
}

// env is a curve with generators.
type env struct {
	cv  string
	zp  z.ZKPCurveParams
	toy *toyCurve
}

func (e *env) N() *big.Int { return e.zp.C.Params().N }

func (e *env) hdr(m M) M {
	m["cv"] = e.cv
	m["G"] = pt(e.zp.G)
	m["H"] = pt(e.zp.H)
	return m
}

func powers(c elliptic.Curve, g z.ECPoint, n int) []z.ECPoint {
	r := make([]z.ECPoint, n)
	cur := cpp(g)
	for i := range r {
		r[i] = cur
		x, y := c.Double(cur.X, cur.Y)
		cur = z.ECPoint{X: x, Y: y}
	}
	return r
}

func toyEnv(name string, g, h int) *env {
	t := toys[name]
	if t == nil {
		fatal("no curve %s", name)
	}
	e := &env{cv: name, toy: t}
	e.zp = z.ZKPCurveParams{C: t, G: t.point(g), H: t.point(h)}
	e.zp.HPoints = powers(t, e.zp.G, 64)
	return e
}

func secpEnv() *env { return &env{cv: "secp", zp: z.TestCurve} }

// customEnv is a library curve with generators a*base and b*base.
func customEnv(cv string, c elliptic.Curve, a, b *big.Int) *env {
	gx, gy := c.ScalarBaseMult(a.Bytes())
	hx, hy := c.ScalarBaseMult(b.Bytes())
	e := &env{cv: cv, zp: z.ZKPCurveParams{C: c, G: z.ECPoint{X: gx, Y: gy}, H: z.ECPoint{X: hx, Y: hy}}}
	e.zp.HPoints = powers(c, e.zp.G, 64)
	return e
}

func (e *env) mul(p z.ECPoint, k *big.Int) z.ECPoint { return refMul(e, p, k) }

// The harness's own group arithmetic (only used to make inputs): affine, by
// big.Int, so that a fault of the code under test does not hide itself.
type refCurve struct{ p, a, n *big.Int }

func refOf(e *env) refCurve {
	switch e.cv {
	case "secp", "glass":
		return refCurve{e.zp.C.Params().P, bi(0), e.N()}
	case "p224", "p256", "p384", "p521":
		return refCurve{e.zp.C.Params().P, bi(-3), e.N()}
	}
	return refCurve{e.toy.P, bi(e.toy.a), e.N()}
}

func (r refCurve) add(P, Q z.ECPoint) z.ECPoint {
	if P.X.Sign() == 0 && P.Y.Sign() == 0 {
		return cpp(Q)
	}
	if Q.X.Sign() == 0 && Q.Y.Sign() == 0 {
		return cpp(P)
	}
	l := new(big.Int)
	if P.X.Cmp(Q.X) == 0 {
		s := new(big.Int).Add(P.Y, Q.Y)
		if s.Mod(s, r.p).Sign() == 0 {
			return z.ECPoint{X: bi(0), Y: bi(0)}
		}
		l.Mul(P.X, P.X)
		l.Mul(l, bi(3))
		l.Add(l, r.a)
		d := new(big.Int).Lsh(P.Y, 1)
		l.Mul(l, d.ModInverse(d, r.p))
	} else {
		l.Sub(Q.Y, P.Y)
		d := new(big.Int).Sub(Q.X, P.X)
		d.Mod(d, r.p)
		l.Mul(l, d.ModInverse(d, r.p))
	}
	l.Mod(l, r.p)
	x := new(big.Int).Mul(l, l)
	x.Sub(x, P.X)
	x.Sub(x, Q.X)
	x.Mod(x, r.p)
	y := new(big.Int).Sub(P.X, x)
	y.Mul(y, l)
	y.Sub(y, P.Y)
	y.Mod(y, r.p)
	return z.ECPoint{X: x, Y: y}
}

func (r refCurve) neg(P z.ECPoint) z.ECPoint {
	y := new(big.Int).Neg(P.Y)
	return z.ECPoint{X: cp(P.X), Y: y.Mod(y, r.p)}
}

func (r refCurve) sub(P, Q z.ECPoint) z.ECPoint { return r.add(P, r.neg(Q)) }

func (r refCurve) mul(P z.ECPoint, k *big.Int) z.ECPoint {
	kk := new(big.Int).Mod(k, r.n)
	if isZero(P) || kk.Sign() == 0 {
		return zero()
	}
	m := func(a, b *big.Int) *big.Int { c := new(big.Int).Mul(a, b); return c.Mod(c, r.p) }
	sb := func(a, b *big.Int) *big.Int { c := new(big.Int).Sub(a, b); return c.Mod(c, r.p) }
	X, Y, Z := bi(1), bi(1), bi(0)
	dbl := func() {
		if Z.Sign() == 0 || Y.Sign() == 0 {
			X, Y, Z = bi(1), bi(1), bi(0)
			return
		}
		yy := m(Y, Y)
		s4 := m(bi(4), m(X, yy))
		mm := m(bi(3), m(X, X))
		if r.a.Sign() != 0 {
			z2 := m(Z, Z)
			mm = mm.Add(mm, m(r.a, m(z2, z2)))
		}
		x3 := sb(m(mm, mm), new(big.Int).Lsh(s4, 1))
		y3 := sb(m(mm, sb(s4, x3)), m(bi(8), m(yy, yy)))
		z3 := m(bi(2), m(Y, Z))
		X, Y, Z = x3, y3, z3
	}
	for i := kk.BitLen() - 1; i >= 0; i-- {
		dbl()
		if kk.Bit(i) == 0 {
			continue
		}
		if Z.Sign() == 0 {
			X, Y, Z = cp(P.X), cp(P.Y), bi(1)
			continue
		}
		z2 := m(Z, Z)
		h := sb(m(P.X, z2), X)
		rr := sb(m(P.Y, m(z2, Z)), Y)
		if h.Sign() == 0 {
			if rr.Sign() == 0 {
				dbl()
			} else {
				X, Y, Z = bi(1), bi(1), bi(0)
			}
			continue
		}
		h2 := m(h, h)
		h3 := m(h2, h)
		v := m(X, h2)
		x3 := sb(sb(m(rr, rr), h3), new(big.Int).Lsh(v, 1))
		y3 := sb(m(rr, sb(v, x3)), m(Y, h3))
		X, Y, Z = x3, y3, m(Z, h)
	}
	if Z.Sign() == 0 {
		return zero()
	}
	zi := new(big.Int).ModInverse(Z, r.p)
	zi2 := m(zi, zi)
	return z.ECPoint{X: m(X, zi2), Y: m(Y, m(zi2, zi))}
}

func refMul(e *env, p z.ECPoint, k *big.Int) z.ECPoint { return refOf(e).mul(p, k) }
func (e *env) add(p, q z.ECPoint) z.ECPoint            { return refOf(e).add(p, q) }
func (e *env) sub(p, q z.ECPoint) z.ECPoint            { return refOf(e).sub(p, q) }
func (e *env) neg(p z.ECPoint) z.ECPoint               { return refOf(e).neg(p) }
func (e *env) commit(v, r *big.Int) z.ECPoint {
	return e.add(e.mul(e.zp.G, v), e.mul(e.zp.H, r))
}

func zero() z.ECPoint          { return z.ECPoint{X: bi(0), Y: bi(0)} }
func isZero(p z.ECPoint) bool  { return p.X.Sign() == 0 && p.Y.Sign() == 0 }
func same(p, q z.ECPoint) bool { return p.X.Cmp(q.X) == 0 && p.Y.Cmp(q.Y) == 0 }
