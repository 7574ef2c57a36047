package main

import (
	"math/big"

	z "github.com/mit-dci/zksigma"
)

// rnd returns a random integer of exactly `bits` bits (or fewer leading ones).
func rnd(bits int) *big.Int {
	b := make([]byte, (bits+7)/8)
	rng.Read(b)
	v := new(big.Int).SetBytes(b)
	return v.Rsh(v, uint(len(b)*8-bits))
}

func rndN(n *big.Int) *big.Int { return new(big.Int).Rand(rng, n) }

func pow2(k uint) *big.Int { return new(big.Int).Lsh(bi(1), k) }

func addi(b *big.Int, k int64) *big.Int { return new(big.Int).Add(b, bi(k)) }

// scalars are the special values for an order N, plus n random ones of many sizes.
func scalars(N *big.Int, n int) []*big.Int {
	neg := func(b *big.Int) *big.Int { return new(big.Int).Neg(b) }
	half := new(big.Int).Rsh(N, 1)
	r := []*big.Int{bi(0), bi(1), bi(2), bi(3), bi(-1), bi(-2), bi(7), bi(-100),
		cp(N), addi(N, 1), addi(N, -1), addi(N, -2), neg(N), neg(addi(N, 1)), neg(addi(N, -1)),
		new(big.Int).Lsh(N, 1), addi(new(big.Int).Lsh(N, 1), 5), half, addi(half, 1), addi(half, -1),
		pow2(255), addi(pow2(256), -1), pow2(256), addi(pow2(256), 1), addi(pow2(264), 3), neg(pow2(300)),
		bi(255), bi(256), bi(65535), bi(65536), pow2(40), addi(pow2(40), -1), pow2(64), addi(pow2(64), -1), pow2(128), addi(pow2(128), -1),
		pow2(512), addi(new(big.Int).Mul(N, N), 1), neg(pow2(1000)), addi(new(big.Int).Lsh(N, 2000), -1), neg(new(big.Int).Mul(N, N)), addi(pow2(520), -1)}
	for i := 0; i < n; i++ {
		switch i % 6 {
		case 0, 1, 2:
			r = append(r, rndN(N))
		case 3:
			r = append(r, rnd(8*(1+rng.Intn(40))))
		case 4:
			r = append(r, neg(rnd(8*(1+rng.Intn(40)))))
		default:
			r = append(r, addi(pow2(uint(rng.Intn(256))), int64(rng.Intn(3)-1)))
		}
	}
	return r
}

func pick(vs []*big.Int) *big.Int { return cp(vs[rng.Intn(len(vs))]) }

// points are the special points of an environment, plus n random ones.
func points(e *env, n int) []z.ECPoint {
	r := []z.ECPoint{zero(), cpp(e.zp.G), cpp(e.zp.H), e.neg(e.zp.G), e.neg(e.zp.H),
		e.add(e.zp.G, e.zp.G), e.add(e.zp.H, e.zp.H), e.add(e.zp.G, e.zp.H), e.sub(e.zp.G, e.zp.H)}
	base := z.ECPoint{X: cp(e.zp.C.Params().Gx), Y: cp(e.zp.C.Params().Gy)}
	r = append(r, base, e.neg(base))
	if e.cv == "secp" {
		r = append(r, shortPoints(e)...)
	}
	for i := 0; i < n; i++ {
		r = append(r, e.mul(base, rndN(e.N())))
	}
	return r
}

func pickP(ps []z.ECPoint) z.ECPoint { return cpp(ps[rng.Intn(len(ps))]) }

func nonZeroP(ps []z.ECPoint) z.ECPoint {
	for {
		p := pickP(ps)
		if !isZero(p) {
			return p
		}
	}
}

// shortPoints are points whose coordinates need fewer than 32 bytes.
var shortCache []z.ECPoint

func shortPoints(e *env) []z.ECPoint {
	if shortCache != nil {
		return shortCache
	}
	r := refOf(e)
	cur := z.ECPoint{X: cp(e.zp.C.Params().Gx), Y: cp(e.zp.C.Params().Gy)}
	g := cpp(cur)
	nx, ny := 0, 0
	for i := 0; i < 20000 && (nx < 2 || ny < 2); i++ {
		if cur.X.BitLen() <= 248 && nx < 2 {
			nx++
			shortCache = append(shortCache, cpp(cur))
		} else if cur.Y.BitLen() <= 248 && ny < 2 {
			ny++
			shortCache = append(shortCache, cpp(cur))
		}
		cur = r.add(cur, g)
	}
	// and the smallest ones: x = 1, 2, ..., y = 1, 2, ... (p = 3 mod 4, p = 7 mod 9)
	root := func(a *big.Int, k int64, c int64) *big.Int {
		x := new(big.Int).Exp(a, new(big.Int).Div(addi(r.p, c), bi(k)), r.p)
		return x
	}
	on := func(x, y *big.Int) bool {
		d := new(big.Int).Exp(x, bi(3), r.p)
		d.Add(d, bi(7)).Sub(d, new(big.Int).Mul(y, y))
		return d.Mod(d, r.p).Sign() == 0
	}
	for i, n := int64(1), 0; n < 1; i++ {
		if y := root(bi(i*i*i+7), 4, 1); on(bi(i), y) {
			shortCache = append(shortCache, z.ECPoint{X: bi(i), Y: y})
			n++
		}
	}
	for i, n := int64(1), 0; n < 1; i++ {
		a := bi(i*i - 7)
		if x := root(a.Mod(a, r.p), 9, 2); on(x, bi(i)) {
			shortCache = append(shortCache, z.ECPoint{X: x, Y: bi(i)})
			n++
		}
	}
	return shortCache
}
