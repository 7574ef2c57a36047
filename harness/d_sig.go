package main

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"fmt"
	"math/big"

	z "github.com/mit-dci/zksigma"
	"github.com/mit-dci/zksigma/btcec"
)

func init() {
	drivers["sign"] = dSign
	drivers["parse"] = dParse
	drivers["cipher"] = dCipher
}

func zpub(P z.ECPoint) *btcec.PublicKey {
	return &btcec.PublicKey{Curve: btcec.S256(), X: cp(P.X), Y: cp(P.Y)}
}

func pubPt(p *btcec.PublicKey) []string {
	if p == nil {
		return []string{"nil", "nil"}
	}
	return []string{hx(p.X), hx(p.Y)}
}

// keyOf makes a key the way a user would.
func keyOf(d *big.Int) *btcec.PrivateKey {
	b := make([]byte, 32)
	k, _ := btcec.PrivKeyFromBytes(btcec.S256(), d.FillBytes(b))
	return k
}

// Objects that held other values in earlier calls.
var (
	keptKey  btcec.PrivateKey
	keptPub  btcec.PublicKey
	keptSig  btcec.Signature
	keptHash [128]byte
)

func oldKey(k *btcec.PrivateKey) *btcec.PrivateKey {
	if rng.Intn(2) == 0 {
		return k
	}
	c := *k
	c.X, c.Y, c.D = reuseInt("key.x", k.X), reuseInt("key.y", k.Y), reuseInt("key.d", k.D)
	keptKey = c
	return &keptKey
}

func oldHash(h []byte) []byte {
	if len(h) > len(keptHash) || rng.Intn(2) == 0 {
		return append([]byte{}, h...)
	}
	return keptHash[:copy(keptHash[:], h)]
}

// secretKeys are private keys of many shapes.
func secretKeys(n int) []*big.Int {
	N := btcec.S256().N
	half := new(big.Int).Rsh(N, 1)
	r := []*big.Int{bi(1), bi(2), bi(3), addi(N, -1), addi(N, -2), half, addi(half, 1), bi(255), bi(256), pow2(128), addi(pow2(128), -1), pow2(255), pow2(248), addi(pow2(248), -1)}
	for i := 0; i < n; i++ {
		d := rndN(N)
		if i%4 == 3 {
			d = rnd(8 * (1 + rng.Intn(31)))
		}
		if d.Sign() == 0 {
			d = bi(5)
		}
		r = append(r, d)
	}
	return r
}

// someHash is a hash of an ordinary or unusual length or value.
func someHash() []byte {
	N := btcec.S256().N
	rb := func(n int) []byte { b := make([]byte, n); rng.Read(b); return b }
	fill := func(v *big.Int) []byte { return v.FillBytes(make([]byte, 32)) }
	switch rng.Intn(16) {
	case 0:
		return rb(rng.Intn(32))
	case 1:
		return rb(33 + rng.Intn(40))
	case 2:
		return rb(64)
	case 3:
		return []byte{}
	case 4:
		return fill(addi(N, int64(rng.Intn(7)-3)))
	case 5:
		return bytes.Repeat([]byte{0xff}, 32+rng.Intn(3))
	case 6:
		return make([]byte, 1+rng.Intn(40))
	case 7: // at or beyond the order
		return fill(add(N, rnd(8*(1+rng.Intn(16)))))
	case 8: // leading zeros
		b := rb(32)
		for i := 0; i < 1+rng.Intn(20); i++ {
			b[i] = 0
		}
		return b
	case 9:
		b := make([]byte, 32)
		b[31] = byte(rng.Intn(3))
		return b
	default:
		return rb(32)
	}
}

func verifySigEvent(Q z.ECPoint, h []byte, r, s *big.Int) {
	m := M{"op": "verify", "Q": pt(Q), "h": hb(h), "r": hx(r), "s": hx(s), "ok": 0, "res": "ok"}
	note("%v", m)
	if o := guard(func() {
		sig, pub := &btcec.Signature{R: cp(r), S: cp(s)}, zpub(Q)
		if rng.Intn(2) == 0 {
			keptSig = btcec.Signature{R: reuseInt("sig.r", r), S: reuseInt("sig.s", s)}
			keptPub = btcec.PublicKey{Curve: btcec.S256(), X: reuseInt("pub.x", Q.X), Y: reuseInt("pub.y", Q.Y)}
			sig, pub = &keptSig, &keptPub
		}
		m["ok"] = bool2(sig.Verify(oldHash(h), pub))
	}); o != "ok" {
		m["res"] = o
	}
	emit(m)
}

func recoverEvent(sig, h []byte) {
	m := M{"op": "recover", "sig": hb(sig), "h": hb(h), "res": "ok", "Q": []string{"nil", "nil"}, "comp": 0}
	note("%v", m)
	if o := guard(func() {
		k, comp, err := btcec.RecoverCompact(btcec.S256(), oldBytes("sig", sig), oldHash(h))
		if err != nil {
			m["res"] = "error"
			if k != nil {
				m["res"] = "key-with-error"
			}
			return
		}
		m["Q"], m["comp"] = pubPt(k), bool2(comp)
	}); o != "ok" {
		m["res"] = o
	}
	emit(m)
}

func compactOf(hd int, r, s *big.Int) []byte {
	b := make([]byte, 65)
	b[0] = byte(hd)
	r.FillBytes(b[1:33])
	s.FillBytes(b[33:])
	return b
}

// sign <n>
func dSign(a []string) {
	n := atoi(a[0])
	c := btcec.S256()
	N := c.N
	e := secpEnv()
	base := z.ECPoint{X: cp(c.Gx), Y: cp(c.Gy)}
	inv := func(k *big.Int) *big.Int { return new(big.Int).ModInverse(k, N) }
	modN := func(k *big.Int) *big.Int { return new(big.Int).Mod(k, N) }
	e2h := func(x *big.Int) []byte { return modN(x).FillBytes(make([]byte, 32)) }
	keys := secretKeys(n)
	// points with an x coordinate at or beyond the order, or very small
	var big1, small1 []z.ECPoint
	lift := func(x *big.Int) (z.ECPoint, bool) {
		y2 := new(big.Int).Exp(x, bi(3), c.P)
		y2.Add(y2, bi(7)).Mod(y2, c.P)
		y := new(big.Int).ModSqrt(y2, c.P)
		if y == nil {
			return z.ECPoint{}, false
		}
		if rng.Intn(2) == 0 {
			y.Sub(c.P, y)
		}
		return z.ECPoint{X: cp(x), Y: y}, true
	}
	for i := int64(0); len(big1) < 6; i++ {
		if P, ok := lift(addi(N, i)); ok && i != 0 {
			big1 = append(big1, P)
		}
		if P, ok := lift(addi(c.P, -i-1)); ok {
			big1 = append(big1, P)
		}
		if P, ok := lift(addi(bi(1), i)); ok {
			small1 = append(small1, P)
		}
		if P, ok := lift(addi(N, -i-1)); ok {
			small1 = append(small1, P)
		}
	}
	for i, d := range keys {
		var priv *btcec.PrivateKey
		if o := guard(func() { priv = keyOf(d) }); o != "ok" {
			emit(M{"op": "sign", "d": hx(d), "h": "", "res": o})
			continue
		}
		h := someHash()
		m := M{"op": "sign", "d": hx(d), "h": hb(h), "res": "ok", "ver": 0, "Q": pubPt(priv.PubKey())}
		note("%v", m)
		var r, s *big.Int
		if o := guard(func() {
			priv = oldKey(priv)
			s1, err := priv.Sign(oldHash(h))
			if err != nil {
				m["res"] = "error"
				return
			}
			r, s = cp(s1.R), cp(s1.S)
			m["ver"] = bool2(s1.Verify(oldHash(h), priv.PubKey()))
			s2, err := priv.Sign(oldHash(h))
			if err != nil {
				m["res"] = "error2"
				return
			}
			m["r"], m["s"], m["r2"], m["s2"] = hx(r), hx(s), hx(s2.R), hx(s2.S)
		}); o != "ok" {
			m["res"] = o
		}
		emit(m)
		Q := e.mul(base, d)
		for comp := 0; comp < 2; comp++ {
			m := M{"op": "compact", "d": hx(d), "h": hb(h), "comp": comp, "res": "ok", "sig": ""}
			note("%v", m)
			var sc []byte
			if o := guard(func() {
				var err error
				sc, err = btcec.SignCompact(c, priv, oldHash(h), comp == 1)
				if err != nil {
					m["res"] = "error"
				}
				m["sig"] = hb(sc)
			}); o != "ok" {
				m["res"] = o
			}
			emit(m)
			if len(sc) == 65 {
				recoverEvent(sc, h)
				x := append([]byte{}, sc...)
				x[rng.Intn(65)] ^= 1 << uint(rng.Intn(8))
				recoverEvent(x, h)
				recoverEvent(sc, someHash())
				recoverEvent(sc[:rng.Intn(65)], h)
				recoverEvent(append(append([]byte{}, sc...), byte(rng.Intn(256))), h)
				if i%8 == comp {
					for hd := 0; hd < 256; hd++ {
						x[0] = byte(hd)
						copy(x[1:], sc[1:])
						recoverEvent(x, h)
					}
				}
			}
		}
		if r == nil || s == nil {
			continue
		}
		// variations of a signature
		neg := func(x *big.Int) *big.Int { return new(big.Int).Neg(x) }
		verifySigEvent(Q, h, r, s)
		verifySigEvent(Q, h, r, sub(N, s))
		verifySigEvent(Q, h, sub(N, r), s)
		verifySigEvent(Q, h, add(r, N), s)
		verifySigEvent(Q, h, r, add(s, N))
		verifySigEvent(Q, h, neg(r), s)
		verifySigEvent(Q, h, r, neg(s))
		verifySigEvent(Q, h, sub(r, N), s)
		verifySigEvent(Q, h, r, sub(s, N))
		verifySigEvent(Q, h, s, r)
		for _, x := range []*big.Int{bi(0), bi(1), cp(N), addi(N, -1), addi(N, 1), pow2(256), c.P} {
			verifySigEvent(Q, h, x, s)
			verifySigEvent(Q, h, r, x)
		}
		verifySigEvent(Q, h, addi(r, 1), s)
		verifySigEvent(Q, h, r, addi(s, 1))
		verifySigEvent(e.neg(Q), h, r, s)
		verifySigEvent(base, h, r, s)
		verifySigEvent(e.mul(base, rndN(N)), h, r, s)
		verifySigEvent(Q, append(append([]byte{}, h...), 7), r, s)
		verifySigEvent(Q, append([]byte{0}, h...), r, s)
		verifySigEvent(Q, someHash(), r, s)
		if len(h) > 0 {
			g := append([]byte{}, h...)
			g[rng.Intn(len(g))] ^= 1 << uint(rng.Intn(8))
			verifySigEvent(Q, g, r, s)
			verifySigEvent(Q, g[:len(g)-1], r, s)
		}
		// made from chosen coefficients: R = uG + vQ, with e = ur/v and s = r/v
		u, v := modN(rnd(300)), rndN(N)
		if v.Sign() == 0 {
			v = bi(1)
		}
		switch i % 5 {
		case 1:
			u = bi(0)
		case 2: // the two terms are equal
			u = modN(mul(v, d))
		case 3: // they cancel
			u = modN(neg(mul(v, d)))
		}
		R := e.add(e.mul(base, u), e.mul(Q, v))
		rr := modN(R.X)
		if isZero(R) {
			rr = rndN(N)
		}
		ss := modN(mul(rr, inv(v)))
		ee := modN(mul(u, ss))
		verifySigEvent(Q, e2h(ee), rr, ss)
		verifySigEvent(Q, e2h(addi(ee, 1)), rr, ss)
		// around a chosen R (x beyond the order): Q = (R - uG) / v
		list := big1
		if i%2 == 1 {
			list = small1
		}
		R = pickP(list)
		rr = modN(R.X)
		Q2 := e.mul(e.sub(R, e.mul(base, u)), inv(v))
		if isZero(Q2) {
			continue
		}
		ss = modN(mul(rr, inv(v)))
		ee = modN(mul(u, ss))
		verifySigEvent(Q2, e2h(ee), rr, ss)
		verifySigEvent(Q2, e2h(ee), R.X, ss)
		for hd := 27; hd < 36; hd++ {
			recoverEvent(compactOf(hd, rr, ss), e2h(ee))
			if R.X.Cmp(rr) != 0 {
				recoverEvent(compactOf(hd, R.X, ss), e2h(ee))
			}
		}
		// no key: sR = eG
		k := rndN(N)
		R = e.mul(base, k)
		rr = modN(R.X)
		ss = rndN(N)
		for hd := 27; hd < 35; hd++ {
			recoverEvent(compactOf(hd, rr, ss), e2h(mul(ss, k)))
			recoverEvent(compactOf(hd, rr, ss), e2h(neg(mul(ss, k))))
		}
		hd := 27 + rng.Intn(8)
		for _, x := range []*big.Int{bi(0), cp(N), addi(N, 1), addi(pow2(256), -1), cp(c.P), addi(N, -1), bi(1)} {
			recoverEvent(compactOf(hd, x, s), h)
			recoverEvent(compactOf(hd, r, x), h)
		}
		recoverEvent(compactOf(hd, rndN(N), rndN(N)), h)
		recoverEvent(compactOf(hd, r, sub(N, s)), h)
		// equality
		eqs := [][4]*big.Int{{r, s, r, s}, {r, s, s, r}, {r, s, r, addi(s, 1)}, {r, s, addi(r, 1), s}, {r, s, r, sub(N, s)}, {r, s, r, add(s, N)}, {r, s, add(r, N), s}}
		nm := nearMiss(secpEnv(), z.ECPoint{X: r, Y: s})
		for t := 0; t < 5; t++ {
			q := pickP(nm)
			eqs = append(eqs, [4]*big.Int{r, s, q.X, q.Y})
		}
		for _, q := range eqs {
			m := M{"op": "equal", "what": "sig", "p": []string{hx(q[0]), hx(q[1])}, "q": []string{hx(q[2]), hx(q[3])}, "res": "ok", "ok": 0}
			if o := guard(func() {
				m["ok"] = bool2((&btcec.Signature{R: cp(q[0]), S: cp(q[1])}).IsEqual(&btcec.Signature{R: cp(q[2]), S: cp(q[3])}))
			}); o != "ok" {
				m["res"] = o
			}
			emit(m)
		}
	}
}

func pubEvent(b []byte) {
	m := M{"op": "pub", "b": hb(b), "res": "ok", "P": []string{"nil", "nil"}}
	note("%v", m)
	if o := guard(func() {
		k, err := btcec.ParsePubKey(oldBytes("pub", b), btcec.S256())
		if err != nil {
			m["res"] = "error"
			if k != nil {
				m["res"] = "key-with-error"
			}
			return
		}
		m["P"] = pubPt(k)
		if k.Curve != btcec.S256() {
			m["res"] = "no-curve"
		}
	}); o != "ok" {
		m["res"] = o
	}
	emit(m)
	m = M{"op": "iscomp", "b": hb(b), "res": "ok", "ok": 0}
	if o := guard(func() { m["ok"] = bool2(btcec.IsCompressedPubKey(oldBytes("pub", b))) }); o != "ok" {
		m["res"] = o
	}
	emit(m)
}

func sigEvent(b []byte) {
	for strict := 0; strict < 2; strict++ {
		m := M{"op": "sig", "b": hb(b), "strict": strict, "res": "ok", "r": "nil", "s": "nil"}
		note("%v", m)
		if o := guard(func() {
			f := btcec.ParseSignature
			if strict == 1 {
				f = btcec.ParseDERSignature
			}
			s, err := f(oldBytes("der", b), btcec.S256())
			if err != nil {
				m["res"] = "error"
				if s != nil {
					m["res"] = "signature-with-error"
				}
				return
			}
			m["r"], m["s"] = hx(s.R), hx(s.S)
		}); o != "ok" {
			m["res"] = o
		}
		emit(m)
	}
}

// der builds the encoding of a pair of integers given as bytes.
func der(rb, sb []byte) []byte {
	b := []byte{0x30, byte(4 + len(rb) + len(sb)), 2, byte(len(rb))}
	b = append(b, rb...)
	b = append(b, 2, byte(len(sb)))
	return append(b, sb...)
}

func derInt(x *big.Int) []byte {
	b := x.Bytes()
	if len(b) == 0 || b[0] >= 0x80 {
		b = append([]byte{0}, b...)
	}
	return b
}

// parse <n> <pub|sig>
func dParse(a []string) {
	n := atoi(a[0])
	if a[1] == "sig" {
		parseSigs(n)
	} else {
		parsePubs(n)
	}
}

func parsePubs(n int) {
	c := btcec.S256()
	e := secpEnv()
	ps := append(points(e, n), edgePoints(4*n)...)
	for i, P := range ps {
		if isZero(P) {
			continue
		}
		m := M{"op": "pubser", "P": pt(P), "res": "ok", "c": "", "u": "", "y": ""}
		note("%v", m)
		if o := guard(func() {
			k := zpub(P)
			m["c"], m["u"], m["y"] = hb(k.SerializeCompressed()), hb(k.SerializeUncompressed()), hb(k.SerializeHybrid())
		}); o != "ok" {
			m["res"] = o
		}
		emit(m)
		xb, yb := P.X.FillBytes(make([]byte, 32)), P.Y.FillBytes(make([]byte, 32))
		full := append(append([]byte{4}, xb...), yb...)
		all := i%16 == 0
		for f := 0; f < 256; f++ {
			if !all && f > 9 && rng.Intn(64) != 0 {
				continue
			}
			full[0] = byte(f)
			pubEvent(full)
			pubEvent(full[:33])
		}
		for _, f := range []byte{2, 3, 4, 6, 7} {
			full[0] = f
			for j := 0; j < 3; j++ {
				x := append([]byte{}, full...)
				x[1+rng.Intn(64)] ^= 1 << uint(rng.Intn(8))
				pubEvent(x)
				pubEvent(x[:33])
			}
		}
		// the same residues, not reduced
		over := func(v *big.Int) []byte {
			w := add(v, c.P)
			if w.BitLen() > 256 {
				return nil
			}
			return w.FillBytes(make([]byte, 32))
		}
		for _, f := range []byte{4, 6, 7} {
			if ox := over(P.X); ox != nil {
				pubEvent(append(append([]byte{f}, ox...), yb...))
				pubEvent(append([]byte{f - 2}, ox...))
				pubEvent(append([]byte{2}, ox...))
			}
			if oy := over(P.Y); oy != nil {
				pubEvent(append(append([]byte{f}, xb...), oy...))
			}
			// the negative, and coordinates exchanged
			pubEvent(append(append([]byte{f}, xb...), sub(c.P, P.Y).FillBytes(make([]byte, 32))...))
			pubEvent(append(append([]byte{f}, yb...), xb...))
		}
		if i%8 == 0 {
			full[0] = 4
			long := append(append([]byte{}, full...), 1, 2, 3, 4)
			for l := 0; l <= len(long); l++ {
				for _, f := range []byte{2, 3, 4, 5, 6, 7} {
					if l > 0 {
						long[0] = f
						if f < 4 { // the end of the bytes is what a compressed key would have
							pubEvent(append([]byte{f}, long[len(long)-l+1:]...))
						}
					}
					pubEvent(long[:l])
				}
			}
		}
		nm := nearMiss(e, P)
		rng.Shuffle(len(nm), func(a, b int) { nm[a], nm[b] = nm[b], nm[a] })
		for _, q := range append(nm[:6], P, e.neg(P), pickP(ps), z.ECPoint{X: cp(P.X), Y: addi(P.Y, 1)}, z.ECPoint{X: addi(P.X, 1), Y: cp(P.Y)}) {
			m := M{"op": "equal", "what": "key", "p": pt(P), "q": pt(q), "res": "ok", "ok": 0}
			if o := guard(func() { m["ok"] = bool2(zpub(P).IsEqual(zpub(q))) }); o != "ok" {
				m["res"] = o
			}
			emit(m)
		}
	}
	// values of x for which there is no point, at and beyond the edge of the field
	for i := 0; i < 4*n; i++ {
		var x *big.Int
		switch i % 4 {
		case 0:
			x = rnd(256)
		case 1:
			x = addi(c.P, int64(rng.Intn(300)-150))
		case 2:
			x = bi(int64(rng.Intn(100)))
		default:
			x = addi(pow2(256), -1-int64(rng.Intn(1000)))
		}
		xb := x.FillBytes(make([]byte, 32))
		pubEvent(append([]byte{byte(2 + rng.Intn(2))}, xb...))
		y := make([]byte, 32)
		rng.Read(y)
		pubEvent(append(append([]byte{4}, xb...), y...))
	}
	pubEvent(make([]byte, 33))
	pubEvent(make([]byte, 65))
	for f := byte(2); f < 8; f++ {
		pubEvent(append([]byte{f}, make([]byte, 64)...))
		pubEvent(append([]byte{f}, make([]byte, 32)...))
	}
	// private keys
	for _, d := range secretKeys(2 * n) {
		for _, b := range [][]byte{d.Bytes(), d.FillBytes(make([]byte, 32))} {
			m := M{"op": "priv", "b": hb(b), "res": "ok", "d": "", "Q": []string{}, "ser": ""}
			note("%v", m)
			if o := guard(func() {
				k, pub := btcec.PrivKeyFromBytes(c, oldBytes("priv", b))
				m["d"], m["Q"], m["ser"] = hx(k.D), pubPt(pub), hb(k.Serialize())
				if !k.PubKey().IsEqual(pub) || k.ToECDSA().D.Cmp(k.D) != 0 || pub.ToECDSA().X.Cmp(pub.X) != 0 {
					m["res"] = "differ"
				}
			}); o != "ok" {
				m["res"] = o
			}
			emit(m)
		}
	}
}

func parseSigs(n int) {
	c := btcec.S256()
	N := c.N
	half := new(big.Int).Rsh(N, 1)
	vals := []*big.Int{bi(1), bi(2), bi(127), bi(128), bi(255), bi(256), addi(N, -1), addi(N, -2), half, addi(half, 1), addi(half, -1),
		addi(pow2(255), -1), pow2(255), addi(pow2(248), -1), pow2(248), pow2(247), addi(pow2(247), -1), pow2(64)}
	for i := 0; i < 40; i++ {
		vals = append(vals, rndN(N), addi(rnd(8*(1+rng.Intn(31))), 1))
	}
	bad := append([]*big.Int{bi(0), cp(N), addi(N, 1), addi(pow2(256), -1), pow2(256), addi(pow2(264), 5), pow2(300), pow2(1000)}, vals...)
	for i := 0; i < n; i++ {
		r, s := pick(vals), pick(vals)
		if i%8 == 3 { // not a valid signature, but its encoding is defined
			if i%16 == 3 {
				r = bi(0)
			} else {
				s = bi(0)
			}
		}
		m := M{"op": "sigser", "r": hx(r), "s": hx(s), "res": "ok", "b": ""}
		note("%v", m)
		var enc []byte
		if o := guard(func() {
			enc = (&btcec.Signature{R: cp(r), S: cp(s)}).Serialize()
			m["b"] = hb(enc)
		}); o != "ok" {
			m["res"] = o
		}
		emit(m)
		sigEvent(enc)
		good := der(derInt(r), derInt(s))
		sigEvent(good)
		sigEvent(append(append([]byte{}, good...), make([]byte, rng.Intn(4))...))
		// out of range values
		sigEvent(der(derInt(pick(bad)), derInt(s)))
		sigEvent(der(derInt(r), derInt(pick(bad))))
		sigEvent(der(nil, derInt(s)))
		sigEvent(der(derInt(r), nil))
		// padding and signs
		for j := 0; j < 3; j++ {
			rb, sb := derInt(r), derInt(s)
			pad := make([]byte, 1+rng.Intn(3))
			switch j {
			case 0:
				rb = append(pad, rb...)
			case 1:
				sb = append(pad, sb...)
			default:
				rb, sb = r.Bytes(), s.Bytes()
			}
			sigEvent(der(rb, sb))
		}
		// every length byte changed
		for _, pos := range []int{1, 3, 5 + int(good[3])} {
			for _, d := range []int{-2, -1, 1, 2, 3, 5} {
				x := append([]byte{}, good...)
				x[pos] += byte(d)
				sigEvent(x)
			}
			for _, v := range []byte{0, 1, 127, 128, 129, 250, 251, 252, 253, 254, 255, byte(rng.Intn(256))} {
				x := append([]byte{}, good...)
				x[pos] = v
				sigEvent(x)
				if rng.Intn(4) == 0 {
					sigEvent(append(x, make([]byte, rng.Intn(300))...))
				}
			}
		}
		// markers
		for _, pos := range []int{0, 2, 4 + int(good[3])} {
			x := append([]byte{}, good...)
			x[pos] ^= 1 << uint(rng.Intn(8))
			sigEvent(x)
		}
		for j := 0; j < 6; j++ {
			x := append([]byte{}, good...)
			x[rng.Intn(len(x))] = byte(rng.Intn(256))
			if j%2 == 0 {
				x[rng.Intn(len(x))] = byte(rng.Intn(256))
			}
			sigEvent(x)
		}
		if i%6 == 0 {
			for l := 0; l < len(good); l++ {
				sigEvent(good[:l])
				x := append([]byte{}, good[:l]...)
				if l > 1 { // and with the length made to match
					x[1] = byte(l - 2)
					sigEvent(x)
				}
			}
		}
		// bytes removed or inserted
		p := 2 + rng.Intn(len(good)-2)
		x := append(append([]byte{}, good[:p]...), good[p+1:]...)
		x[1]--
		sigEvent(x)
		x = append(append(append([]byte{}, good[:p]...), byte(rng.Intn(256))), good[p:]...)
		x[1]++
		sigEvent(x)
		// random bytes
		x = make([]byte, rng.Intn(80))
		rng.Read(x)
		sigEvent(x)
		if len(x) > 4 {
			x[0], x[1], x[2], x[3] = 0x30, byte(len(x)-2), 2, byte(rng.Intn(len(x)))
			sigEvent(x)
		}
	}
	// long integers: the length byte at its limits
	for _, l := range []int{120, 121, 122, 123, 124, 125, 126, 127, 128, 200, 249, 250, 251} {
		for _, l2 := range []int{1, 2, 33, l} {
			rb, sb := make([]byte, l), make([]byte, l2)
			rb[l-1], sb[l2-1] = 5, 6
			sigEvent(der(rb, sb))
			sigEvent(der(sb, rb))
		}
	}
}

// seal makes a ciphertext with a chosen ephemeral key and padding, as its own implementation.
func seal(e *env, eph *big.Int, Q z.ECPoint, iv, padded []byte) []byte {
	c := btcec.S256()
	E := e.mul(z.ECPoint{X: cp(c.Gx), Y: cp(c.Gy)}, eph)
	keys := sha512.Sum512(e.mul(Q, eph).X.Bytes())
	out := append([]byte{}, iv...)
	out = append(out, 2, 0xca, 0, 32)
	out = append(out, E.X.FillBytes(make([]byte, 32))...)
	out = append(out, 0, 32)
	out = append(out, E.Y.FillBytes(make([]byte, 32))...)
	blk, _ := aes.NewCipher(keys[:32])
	ct := make([]byte, len(padded))
	cipher.NewCBCEncrypter(blk, iv).CryptBlocks(ct, padded)
	out = append(out, ct...)
	return mac(out, keys[32:])
}

func mac(body, key []byte) []byte {
	h := hmac.New(sha256.New, key)
	h.Write(body)
	return h.Sum(append([]byte{}, body...))
}

func decrypt(priv *btcec.PrivateKey, ct []byte) (pt []byte, res string) {
	if o := guard(func() {
		var err error
		pt, err = btcec.Decrypt(priv, oldBytes("ct", ct))
		res = "ok"
		if err != nil {
			res = "error"
		}
	}); o != "ok" {
		res = o
	}
	return
}

func decEvent(d *big.Int, ct []byte) {
	note("decrypt %s %x", hx(d), ct)
	p, res := decrypt(oldKey(keyOf(d)), ct)
	emit(M{"op": "dec", "d": hx(d), "ct": hb(ct), "res": res, "m": hb(p)})
}

func encEvent(d *big.Int, msg []byte) []byte {
	priv := oldKey(keyOf(d))
	m := M{"op": "enc", "d": hx(d), "m": hb(msg), "res": "ok", "ct": "", "dec": "", "dres": ""}
	note("encrypt %v", m)
	var ct []byte
	if o := guard(func() {
		var err error
		ct, err = btcec.Encrypt(priv.PubKey(), oldBytes("msg", msg))
		if err != nil {
			m["res"] = "error"
			return
		}
		m["ct"] = hb(ct)
		p, res := decrypt(priv, ct)
		m["dec"], m["dres"] = hb(p), res
	}); o != "ok" {
		m["res"] = o
	}
	emit(m)
	return ct
}

// cipher <n>
func dCipher(a []string) {
	n := atoi(a[0])
	c := btcec.S256()
	N := c.N
	e := secpEnv()
	base := z.ECPoint{X: cp(c.Gx), Y: cp(c.Gy)}
	keys := secretKeys(n)
	msg := func(l int) []byte { b := make([]byte, l); rng.Read(b); return b }
	// all lengths around the block size, and some long ones
	for l := 0; l <= 70; l++ {
		encEvent(pick(keys), msg(l))
	}
	for _, l := range []int{127, 128, 255, 256, 257, 1000, 1023, 1024, 4096, 65535, 65536} {
		encEvent(pick(keys), msg(l))
	}
	for i := 0; i < 17; i++ { // a text that looks like padding
		encEvent(pick(keys), bytes.Repeat([]byte{byte(i)}, 16*(1+i%3)))
		encEvent(pick(keys), bytes.Repeat([]byte{byte(i)}, i))
	}
	// the same text to the same key again and again
	d0, m0 := pick(keys), msg(20)
	for i := 0; i < 40; i++ {
		encEvent(d0, m0)
	}
	// many (some of the shared coordinates are short)
	for i := 0; i < 12*n; i++ {
		encEvent(pick(keys), msg(rng.Intn(33)))
	}
	// an independent implementation's ciphertexts, well and badly padded
	for i := 0; i < 4*n; i++ {
		d, eph := pick(keys), pick(keys)
		Q := e.mul(base, d)
		l := 16 * (1 + rng.Intn(3))
		t := msg(l)
		p := 1 + rng.Intn(16)
		for j := 0; j < p; j++ {
			t[l-1-j] = byte(p)
		}
		if i%3 == 2 {
			t[l-1] = []byte{0, 17, 16, 1, 255, 32, 15}[rng.Intn(7)]
		}
		decEvent(d, seal(e, eph, Q, msg(16), t))
	}
	// modifications
	for i := 0; i < n; i++ {
		d := pick(keys)
		other := addi(rndN(addi(N, -2)), 1)
		text := msg([]int{0, 1, 15, 16, 17, 31, 32, 33, 48, 5}[i%10])
		ct := encEvent(d, text)
		if len(ct) == 0 {
			continue
		}
		priv := keyOf(d)
		cnt := 0
		bad := []string{}
		try := func(what string, p *btcec.PrivateKey, x []byte) {
			if bytes.Equal(x, ct) && p == priv {
				return
			}
			note("modified ciphertext: %s %x key %s", what, x, hx(p.D))
			out, res := decrypt(p, x)
			cnt++
			if res != "error" || len(out) != 0 {
				bad = append(bad, fmt.Sprintf("%s: %s %x", what, res, out))
			}
		}
		for j := range ct {
			x := append([]byte{}, ct...)
			x[j] ^= 1 << uint(rng.Intn(8))
			try(fmt.Sprintf("byte %d changed", j), priv, x)
			x[j] = ct[j] ^ byte(1+rng.Intn(255))
			try(fmt.Sprintf("byte %d changed", j), priv, x)
			if i%5 == 0 {
				for b := uint(0); b < 8; b++ {
					x[j] = ct[j] ^ 1<<b
					try(fmt.Sprintf("bit %d of byte %d changed", b, j), priv, x)
				}
			}
			try(fmt.Sprintf("truncated to %d", j), priv, ct[:j])
			try(fmt.Sprintf("first %d bytes removed", j), priv, ct[j+1:])
			y := append(append([]byte{}, ct[:j]...), ct[j+1:]...)
			try(fmt.Sprintf("byte %d removed", j), priv, y)
			y = append(append(append([]byte{}, ct[:j]...), byte(rng.Intn(256))), ct[j:]...)
			try(fmt.Sprintf("byte inserted at %d", j), priv, y)
			if k := rng.Intn(len(ct)); ct[k] != ct[j] {
				y = append([]byte{}, ct...)
				y[j], y[k] = y[k], y[j]
				try(fmt.Sprintf("bytes %d and %d exchanged", j, k), priv, y)
			}
		}
		// changes that cancel in a sum
		macAt := len(ct) - 32
		for j := 0; j < 60; j++ {
			x := append([]byte{}, ct...)
			p, q := macAt+rng.Intn(32), macAt+rng.Intn(32)
			if p == q {
				continue
			}
			d := byte(1 + rng.Intn(255))
			x[p], x[q] = x[p]^d, x[q]^d
			try(fmt.Sprintf("bytes %d and %d of the MAC changed alike", p-macAt, q-macAt), priv, x)
			x[p], x[q] = ct[p]+d, ct[q]-d
			try(fmt.Sprintf("bytes %d and %d of the MAC changed oppositely", p-macAt, q-macAt), priv, x)
			p, q = rng.Intn(len(ct)), rng.Intn(len(ct))
			copy(x, ct)
			x[p] ^= d
			x[q] ^= byte(rng.Intn(256))
			try(fmt.Sprintf("bytes %d and %d changed", p, q), priv, x)
		}
		for l := 0; l < 32; l++ { // only a part of the MAC is right
			x := append(append([]byte{}, ct[:macAt+l]...), msg(32-l)...)
			try(fmt.Sprintf("MAC right up to byte %d", l), priv, x)
			x = append([]byte{}, ct...)
			copy(x[macAt:], msg(l+1))
			try(fmt.Sprintf("MAC right from byte %d", l+1), priv, x)
			x = append(append(append([]byte{}, ct[:macAt]...), ct[macAt+l:]...), ct[macAt:macAt+l]...)
			try("MAC rotated", priv, x)
		}
		for _, r := range [][2]int{{0, 16}, {16, 20}, {20, 52}, {52, 54}, {54, 86}, {86, macAt}, {macAt, len(ct)}, {86, len(ct)}, {0, len(ct)}} {
			x := append([]byte{}, ct...)
			for j := r[0]; j < r[1]; j++ {
				x[j] = ^x[j]
			}
			try(fmt.Sprintf("bytes %d to %d inverted", r[0], r[1]), priv, x)
			x = append([]byte{}, ct...)
			for a, b := r[0], r[1]-1; a < b; a, b = a+1, b-1 {
				x[a], x[b] = x[b], x[a]
			}
			if !bytes.Equal(x, ct) {
				try(fmt.Sprintf("bytes %d to %d reversed", r[0], r[1]), priv, x)
			}
			x = append([]byte{}, ct...)
			copy(x[r[0]:r[1]], make([]byte, r[1]-r[0]))
			try(fmt.Sprintf("bytes %d to %d zero", r[0], r[1]), priv, x)
		}
		for l := 1; l <= 48; l++ {
			try(fmt.Sprintf("%d bytes appended", l), priv, append(append([]byte{}, ct...), msg(l)...))
			try(fmt.Sprintf("%d zeros appended", l), priv, append(append([]byte{}, ct...), make([]byte, l)...))
		}
		blocks := (len(ct) - 118) / 16
		if blocks > 1 { // blocks removed, repeated, exchanged
			x := append(append([]byte{}, ct[:86]...), ct[102:]...)
			try("first block removed", priv, x)
			x = append(append(append([]byte{}, ct[:102]...), ct[86:102]...), ct[102:]...)
			try("first block repeated", priv, x)
			x = append([]byte{}, ct...)
			copy(x[86:102], ct[102:118])
			copy(x[102:118], ct[86:102])
			try("blocks exchanged", priv, x)
			x = append(append([]byte{}, ct[:len(ct)-48]...), ct[len(ct)-32:]...)
			try("last block removed", priv, x)
		}
		// the negative ephemeral key has the same shared coordinate
		x := append([]byte{}, ct...)
		sub(c.P, new(big.Int).SetBytes(ct[54:86])).FillBytes(x[54:86])
		try("ephemeral key negated", priv, x)
		// parts of another encryption
		ct2 := encQuiet(priv, text)
		if len(ct2) == len(ct) {
			for _, r := range [][2]int{{0, 16}, {16, 86}, {86, len(ct) - 32}, {len(ct) - 32, len(ct)}, {0, 86}, {0, len(ct) - 32}} {
				x := append([]byte{}, ct...)
				copy(x[r[0]:r[1]], ct2[r[0]:r[1]])
				try(fmt.Sprintf("bytes %d to %d of another encryption", r[0], r[1]), priv, x)
			}
		}
		try("MAC zero", priv, append(append([]byte{}, ct[:len(ct)-32]...), make([]byte, 32)...))
		// MACs an outsider can compute
		for _, k := range [][]byte{{}, make([]byte, 32), ct[20:52]} {
			try("MAC with a public key", priv, mac(ct[:len(ct)-32], k))
		}
		try("another key", keyOf(other), ct)
		if nd := sub(N, d); nd.Cmp(d) != 0 {
			// the negative private key has the same shared coordinate: it is
			// the owner's own key up to sign, and not tried
			_ = nd
		}
		emit(M{"op": "mutants", "d": hx(d), "ct": hb(ct), "n": cnt, "bad": bad})
		for j := 0; j < 6; j++ { // some judged one by one
			x := append([]byte{}, ct...)
			x[rng.Intn(len(x))] ^= 1 << uint(rng.Intn(8))
			decEvent(d, x)
			decEvent(d, ct[:rng.Intn(len(ct))])
		}
		decEvent(other, ct)
		decEvent(d, ct)
	}
	// key agreement
	for i := 0; i < 30*n; i++ {
		d1, d2 := pick(keys), pick(keys)
		if i%2 == 0 {
			d1 = addi(rndN(addi(N, -1)), 1)
		}
		m := M{"op": "secret", "d1": hx(d1), "d2": hx(d2), "res": "ok", "s1": "", "s2": ""}
		if o := guard(func() {
			k1, k2 := keyOf(d1), keyOf(d2)
			m["s1"] = hb(btcec.GenerateSharedSecret(k1, k2.PubKey()))
			m["s2"] = hb(btcec.GenerateSharedSecret(k2, k1.PubKey()))
		}); o != "ok" {
			m["res"] = o
		}
		emit(m)
	}
}

func encQuiet(p *btcec.PrivateKey, m []byte) (ct []byte) {
	guard(func() { ct, _ = btcec.Encrypt(p.PubKey(), append([]byte{}, m...)) })
	return
}
