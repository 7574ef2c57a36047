package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strings"

	z "github.com/mit-dci/zksigma"
	"github.com/mit-dci/zksigma/btcec"
	"github.com/mit-dci/zksigma/wire"
)

func init() {
	drivers["frame"] = dFrame
}

func dg(s string) string { return fmt.Sprintf("%x", sha256.Sum256([]byte(s)))[:16] }

// obj is an object of the program; dig says what is in it.
type obj struct {
	id  string
	dig func() string
}

// memory is what the program can see.
type memory struct {
	fixed, objs []*obj
	n           int
	all         bool // nothing is dropped
}

func (h *memory) after() M {
	m := M{}
	for _, o := range h.fixed {
		m[o.id] = o.dig()
	}
	for _, o := range h.objs {
		m[o.id] = o.dig()
	}
	return m
}

func (h *memory) add(kind string, dig func() string) *obj {
	h.n++
	o := &obj{fmt.Sprintf("%s%d", kind, h.n), func() string { return dg(dig()) }}
	emit(M{"op": "new", "id": o.id, "d": o.dig()})
	h.objs = append(h.objs, o)
	if len(h.objs) > 60 && !h.all {
		var ids []string
		for _, o := range h.objs[:20] {
			ids = append(ids, o.id)
		}
		h.objs = h.objs[20:]
		emit(M{"op": "drop", "ids": ids})
	}
	return o
}

func (h *memory) addFixed(id string, dig func() string) {
	o := &obj{id, func() string { return dg(dig()) }}
	emit(M{"op": "new", "id": o.id, "d": o.dig()})
	h.fixed = append(h.fixed, o)
}

func (h *memory) int(v *big.Int) *big.Int {
	h.add("int", func() string { return hx(v) })
	return v
}

func (h *memory) point(p z.ECPoint) z.ECPoint {
	h.add("point", func() string { return hx(p.X) + "," + hx(p.Y) })
	return p
}

// buf makes b a followed object, with all its capacity.
func (h *memory) buf(b []byte) *obj {
	b = b[:cap(b)]
	return h.add("buf", func() string { return string(b) })
}

// roomy is a copy of b with spare capacity that is not zero.
func roomy(b []byte) []byte {
	extra := []int{0, 1, 15, 16, 17, 40, 200}[rng.Intn(7)]
	r := make([]byte, len(b)+extra)
	rng.Read(r)
	copy(r, b)
	return r[:len(b)]
}

func (h *memory) bytes(b []byte) []byte {
	r := roomy(b)
	h.buf(r)
	return r
}

func (h *memory) proof(k string, real interface{}) {
	h.add("proof", func() string {
		p := toPf(k, real)
		if p == nil {
			return "undecodable"
		}
		return each(p.flat(k))
	})
}

// call runs f, and records what everything looks like afterwards. f returns its result
// ("" if that is not a function of the arguments); args identify the arguments.
func (h *memory) call(f string, args string, run func() (string, error)) (string, string) {
	note("%s %s", f, args)
	var val string
	var err error
	res := guard(func() { val, err = run() })
	if res == "ok" && err != nil {
		res = "error"
		val = "error"
	}
	m := M{"op": "call", "f": f, "res": res, "after": h.after()}
	if val != "" {
		m["key"], m["val"] = f+" "+dg(args), dg(val)
	}
	emit(m)
	return val, res
}

// try is call for arguments that f is not meant for: it may even panic.
func (h *memory) try(f string, args string, run func() (string, error)) {
	note("try %s %s", f, args)
	var val string
	var err error
	res := guard(func() { val, err = run() })
	if res != "ok" || err != nil {
		val = "failed"
	}
	emit(M{"op": "try", "f": f, "res": res, "after": h.after(), "key": "try " + f + " " + dg(args), "val": dg(val)})
}

// odd is a point whose coordinates are not what they should be.
func odd(e *env, p z.ECPoint) z.ECPoint {
	P := e.zp.C.Params().P
	q := z.ECPoint{X: cp(p.X), Y: cp(p.Y)}
	switch rng.Intn(8) {
	case 0:
		q.Y.Add(q.Y, P)
	case 1:
		q.X.Add(q.X, P)
	case 2:
		q.Y.Sub(q.Y, P)
	case 3:
		q.X.Sub(q.X, P)
	case 4:
		q.Y.Neg(q.Y)
	case 5:
		q.X, q.Y = rnd(300), rnd(300)
	case 6:
		q.X, q.Y = cp(P), bi(0)
	case 7:
		q.Y.Lsh(q.Y, uint(rng.Intn(70)))
	}
	return q
}

// overwrite writes into a buffer of the program.
func (h *memory) overwrite(o *obj, b []byte) {
	b = b[:cap(b)]
	for i := range b {
		b[i] ^= byte(1 + rng.Intn(255))
	}
	emit(M{"op": "write", "id": o.id, "d": o.dig(), "after": h.after()})
}

// returnsBuf calls a function that returns a buffer, writes into the buffer, and calls it again.
func (h *memory) returnsBuf(f, args string, pure bool, run func() ([]byte, error)) []byte {
	var first, keep []byte
	for i := 0; i < 2; i++ {
		var b []byte
		_, res := h.call(f, args, func() (string, error) {
			var err error
			b, err = run()
			if !pure {
				return "", err
			}
			return "=" + string(b), err
		})
		if res != "ok" {
			return nil
		}
		if b == nil {
			b = []byte{}
		}
		if i == 0 {
			first = b
			keep = append([]byte{}, b...)
			o := h.buf(first)
			h.overwrite(o, first)
		} else {
			h.buf(b)
		}
	}
	return keep
}

func pts(ps []z.ECPoint) string {
	var s strings.Builder
	for _, p := range ps {
		s.WriteString(hx(p.X) + "," + hx(p.Y) + ";")
	}
	return s.String()
}

func (h *memory) st(st St) {
	var names []string
	for n := range st {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		h.point(st[n])
	}
}

func sig1(st St) string {
	b, _ := json.Marshal(st.ev())
	return string(b)
}

func (h *memory) packageState() {
	c := btcec.S256()
	h.addFixed("TestCurve", func() string {
		p := z.TestCurve.C.Params()
		return pts([]z.ECPoint{z.TestCurve.G, z.TestCurve.H}) + pts(z.TestCurve.HPoints) + fmt.Sprint(len(z.TestCurve.HPoints)) +
			hx(p.P) + hx(p.N) + hx(p.B) + hx(p.Gx) + hx(p.Gy) + fmt.Sprint(p.BitSize, p.Name)
	})
	h.addFixed("Zero", func() string { return hx(z.Zero.X) + hx(z.Zero.Y) })
	h.addFixed("BigZero", func() string { return hx(z.BigZero) })
	h.addFixed("S256", func() string {
		return each(hx(c.P), hx(c.N), hx(c.B), hx(c.Gx), hx(c.Gy), c.BitSize, c.H, hx(c.Params().N), hx(c.QPlus1Div4()))
	})
	h.addFixed("DEBUG", func() string { return fmt.Sprint(*z.DEBUG) })
}

// frame <env> <n> <what> <seed>: long histories of calls
func dFrame(a []string) {
	e := envByName(a[0])
	n := atoi(a[1])
	h := &memory{}
	emit(M{"op": "begin"})
	h.packageState()
	if e.cv != "secp" || a[0] != "secp" {
		h.addFixed("params", func() string {
			return pts([]z.ECPoint{e.zp.G, e.zp.H}) + pts(e.zp.HPoints) + hx(e.N()) + hx(e.zp.C.Params().Gx) + hx(e.zp.C.Params().P)
		})
	}
	ps, vs := points(e, 6), scalars(e.N(), 24)
	switch a[2] {
	case "proofs":
		for i := 0; i < n; i++ {
			h.proofCalls(e, append(append([]string{}, sigmaKinds...), "ineq")[i%6], ps, vs)
		}
	case "range":
		for i := 0; i < n; i++ {
			h.proofCalls(e, "range", ps, vs)
		}
	case "points":
		for i := 0; i < n; i++ {
			h.pointCalls(e, ps, vs)
		}
	case "wire":
		for i := 0; i < n; i++ {
			h.wireCalls(ps, vs)
		}
	case "keys":
		for i := 0; i < n; i++ {
			h.keyCalls()
		}
	case "curve":
		for i := 0; i < n; i++ {
			h.curveCalls()
		}
	}
}

var sigmaKinds = []string{"gspfs", "eq", "disj", "cons", "abc"}

func (h *memory) proofCalls(e *env, k string, ps []z.ECPoint, vs []*big.Int) {
	st, w := instance(e, k, ps, vs)
	if k != "range" && rng.Intn(3) == 0 {
		st, w = corrupt(e, k, st, w, ps, vs)
	}
	if k == "range" && rng.Intn(4) == 0 {
		w.S["v"] = pick(vs)
	}
	// arguments that are the same object
	if rng.Intn(4) == 0 {
		for n, p := range st {
			for m, q := range st {
				if n < m && same(p, q) {
					st[m] = st[n]
				}
			}
		}
	}
	if k == "gspfs" && rng.Intn(2) == 0 && same(w.Base, e.zp.G) {
		w.Base = e.zp.G // the parameters' own point
	}
	h.st(st)
	if w.Base.X != nil {
		h.point(w.Base)
	}
	var names []string
	for n := range w.S {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		h.int(w.S[n])
	}
	var real interface{}
	h.call("prove-"+k, sig1(st), func() (string, error) {
		var res string
		real, _, res = prove(e, k, st, w)
		if res == "panic" {
			panic("prover")
		}
		if res != "proof" {
			real = nil
			return "", errNothing
		}
		return "", nil
	})
	if real == nil {
		return
	}
	h.proof(k, real)
	vst := verifierSt(e, k, st, real)
	if k == "range" || k == "ineq" {
		h.st(vst)
	}
	bad := vst.clone()
	for n := range bad {
		bad[n] = pickP(ps)
		break
	}
	h.st(bad)
	full := toPf(k, real)
	if full == nil {
		return
	}
	// a proof with other representatives of its scalars, and a wrong one
	var variants []interface{}
	for v := 0; v < 3; v++ {
		p := full.clone()
		ss := scalarSlots(p)
		for i := range ss {
			switch {
			case v == 0 && rng.Intn(2) == 0:
				ss[i].set(add(ss[i].get(), e.N()))
			case v == 1:
				ss[i].set(sub(ss[i].get(), mul(e.N(), bi(2))))
			case v == 2 && rng.Intn(len(ss)) == 0:
				ss[i].set(pick(vs))
			}
		}
		var r interface{}
		var err error
		if guard(func() { r, err = fromPf(k, p) }) == "ok" && err == nil {
			variants = append(variants, r)
			h.proof(k, r)
		}
	}
	for _, r := range append([]interface{}{real}, variants...) {
		for _, s := range []St{vst, bad, vst} {
			args := each(toPf(k, r).flat(k), sig1(s))
			h.call("verify-"+k, args, func() (string, error) {
				v := verifyReal(e, k, s, r)
				if v == "panic" {
					panic("verifier")
				}
				return v, nil
			})
		}
	}
	// encodings: the buffer is the caller's
	if _, ok := real.(bytesser); !ok {
		return
	}
	enc := h.returnsBuf("bytes-"+k, each(full.flat(k)), true, func() ([]byte, error) { return real.(bytesser).Bytes(), nil })
	h.call("verify-"+k, each(full.flat(k), sig1(vst)), func() (string, error) { return verifyReal(e, k, vst, real), nil })
	if enc == nil || k == "ineq" {
		return
	}
	// decoding: the value has nothing to do with the buffer it came from
	for _, cut := range []int{len(enc), rng.Intn(len(enc))} {
		in := roomy(enc[:cut])
		o := h.buf(in)
		var dec interface{}
		_, res := h.call("decode-"+k, string(in), func() (string, error) {
			var err error
			dec, err = decodeReal(k, in)
			if err != nil {
				return "", err
			}
			return each(toPf(k, dec).flat(k)), nil
		})
		if res != "ok" {
			continue
		}
		h.proof(k, dec)
		h.overwrite(o, in)
		h.call("verify-"+k, each(full.flat(k), sig1(vst)), func() (string, error) { return verifyReal(e, k, vst, dec), nil })
	}
}

func (h *memory) pointCalls(e *env, ps []z.ECPoint, vs []*big.Int) {
	p, q, s, r := pickP(ps), pickP(ps), pick(vs), pick(vs)
	switch rng.Intn(8) {
	case 0:
		q = p // the same object
	case 1:
		q = e.neg(p)
	case 2:
		p = e.zp.G // the parameters' own objects
	case 3:
		p = e.zp.H
	case 4:
		p, s = z.Zero, z.BigZero
	case 5:
		s = r
	}
	h.point(p)
	h.point(q)
	h.int(s)
	h.int(r)
	P := func(x z.ECPoint) (string, error) {
		if x.X == nil || x.Y == nil {
			return "nil", nil
		}
		h2 := pt(x)
		return fmt.Sprint(h2), nil
	}
	ar := func(x ...interface{}) string { return e.cv + pts([]z.ECPoint{e.zp.G, e.zp.H}) + each(x...) }
	for t := 0; t < 2; t++ {
		h.call("mult", ar(pt(p), hx(s)), func() (string, error) { return P(e.zp.Mult(p, s)) })
		h.call("mult", ar(pt(q), hx(r)), func() (string, error) { return P(e.zp.Mult(q, r)) })
		h.call("add", ar(pt(p), pt(q)), func() (string, error) { return P(e.zp.Add(p, q)) })
		h.call("sub", ar(pt(p), pt(q)), func() (string, error) { return P(e.zp.Sub(p, q)) })
		h.call("neg", ar(pt(p)), func() (string, error) { return P(e.zp.Neg(p)) })
		h.call("equal", ar(pt(p), pt(q)), func() (string, error) { return fmt.Sprint(p.Equal(q)), nil })
		h.call("commit", ar(hx(s), hx(r)), func() (string, error) { return P(z.PedCommitR(e.zp, s, r)) })
		h.call("token", ar(pt(p), hx(r)), func() (string, error) { return P(z.CommitR(e.zp, p, r)) })
		h.call("open", ar(hx(s), hx(r), pt(p)), func() (string, error) { return fmt.Sprint(z.Open(e.zp, s, r, p)), nil })
		h.call("verifyr", ar(pt(p), pt(q), hx(r)), func() (string, error) { return fmt.Sprint(z.VerifyR(e.zp, p, q, r)), nil })
		h.call("pedcommit", "", func() (string, error) {
			c, rr, err := z.PedCommit(e.zp, s)
			if err == nil {
				h.point(c)
				h.int(rr)
			}
			return "", err
		})
		if !isZero(p) {
			h.call("keygen", "", func() (string, error) {
				c, sk := z.KeyGen(e.zp.C, p)
				h.point(c)
				h.int(sk)
				return "", nil
			})
		}
	}
	h.oddCalls(e, p, q, s, r, ps, vs)
	h.returnsBuf("point-bytes", each(pt(p)), true, func() ([]byte, error) { return p.Bytes(), nil })
	var parts [][]byte
	txt := ""
	for i := 0; i < rng.Intn(5); i++ {
		b := make([]byte, rng.Intn(40))
		rng.Read(b)
		parts = append(parts, h.bytes(b))
		txt += hb(b) + "|"
	}
	// a list of parts with spare room
	parts = append(make([][]byte, 0, len(parts)+3), parts...)
	spare := parts[:cap(parts)]
	spare[len(spare)-1] = []byte("spare")
	h.add("list", func() string { return fmt.Sprint(len(spare[len(spare)-1]), len(spare[len(spare)-2])) })
	all := make([]byte, 0)
	for _, p := range parts {
		all = append(all, p...)
	}
	h.call("challenge", ar(hb(all)), func() (string, error) { return hx(z.GenerateChallenge(e.zp, parts...)), nil })
}

// oddCalls are calls with points that are not what the functions ask for.
func (h *memory) oddCalls(e *env, p, q z.ECPoint, s, r *big.Int, ps []z.ECPoint, vs []*big.Int) {
	b := odd(e, p)
	h.point(b)
	raw := func(x z.ECPoint) string {
		if x.X == nil || x.Y == nil {
			return "nil"
		}
		return hx(x.X) + "," + hx(x.Y)
	}
	ar := func(x ...interface{}) string { return e.cv + pts([]z.ECPoint{e.zp.G, e.zp.H}) + each(x...) }
	for t := 0; t < 2; t++ {
		h.try("neg", ar(raw(b)), func() (string, error) { return raw(e.zp.Neg(b)), nil })
		h.try("equal", ar(raw(p), raw(b)), func() (string, error) { return fmt.Sprint(p.Equal(b), b.Equal(p)), nil })
		h.try("mult", ar(raw(b), hx(s)), func() (string, error) { return raw(e.zp.Mult(b, s)), nil })
		h.try("add", ar(raw(b), raw(q)), func() (string, error) { return raw(e.zp.Add(b, q)) + raw(e.zp.Add(q, b)), nil })
		h.try("sub", ar(raw(b), raw(q)), func() (string, error) { return raw(e.zp.Sub(b, q)) + raw(e.zp.Sub(q, b)), nil })
		h.try("token", ar(raw(b), hx(r)), func() (string, error) { return raw(z.CommitR(e.zp, b, r)), nil })
		h.try("open", ar(raw(b), hx(s), hx(r)), func() (string, error) { return fmt.Sprint(z.Open(e.zp, s, r, b)), nil })
		h.try("verifyr", ar(raw(b), raw(q), hx(r)), func() (string, error) {
			return fmt.Sprint(z.VerifyR(e.zp, b, q, r), z.VerifyR(e.zp, q, b, r)), nil
		})
		h.try("oncurve", ar(raw(b)), func() (string, error) { return fmt.Sprint(e.zp.C.IsOnCurve(b.X, b.Y)), nil })
		h.try("bytes", raw(b), func() (string, error) { return string(b.Bytes()), nil })
		h.try("write", raw(b), func() (string, error) {
			var w bytes.Buffer
			err := z.WriteECPoint(&w, b)
			return w.String(), err
		})
	}
	// a proof about such a point, and a statement with one
	k := sigmaKinds[rng.Intn(len(sigmaKinds))]
	st, w := instance(e, k, ps, vs)
	real, _, res := prove(e, k, st, w)
	if res != "proof" {
		return
	}
	h.st(st)
	h.proof(k, real)
	bad := st.clone()
	names := []string{}
	for n := range bad {
		names = append(names, n)
	}
	sort.Strings(names)
	n := names[rng.Intn(len(names))]
	bad[n] = odd(e, bad[n])
	h.point(bad[n])
	for _, n := range sortedNames(w.S) {
		h.int(w.S[n])
	}

	h.try("prove-"+k, fmt.Sprint(rng.Int63()), func() (string, error) {
		var res string
		_, _, res = prove(e, k, bad, w)
		return res, nil
	})
	full := toPf(k, real)
	if full == nil {
		return
	}
	pfs := []interface{}{real}
	if fs := pointSlots(St{}, full); len(fs) > 0 {
		p := full.clone()
		f := pointSlots(St{}, p)[rng.Intn(len(fs))]
		f.set(odd(e, f.get()))
		var v interface{}
		var err error
		if guard(func() { v, err = fromPf(k, p) }) == "ok" && err == nil && toPf(k, v) != nil {
			h.proof(k, v)
			pfs = append(pfs, v)
		}
	}
	for _, pf := range pfs {
		for _, s := range []St{st, bad, st} {
			s := s
			h.try("verify-"+k, each(toPf(k, pf).flat(k), rawSt(s)), func() (string, error) { return verifyReal(e, k, s, pf), nil })
		}
	}
}

func sortedNames(m map[string]*big.Int) []string {
	var r []string
	for n := range m {
		r = append(r, n)
	}
	sort.Strings(r)
	return r
}

func rawSt(st St) string {
	var r []string
	for n, p := range st {
		r = append(r, n+"="+hx(p.X)+","+hx(p.Y))
	}
	sort.Strings(r)
	return strings.Join(r, ";")
}

func (h *memory) wireCalls(ps []z.ECPoint, vs []*big.Int) {
	b := make([]byte, []int{0, 1, 2, 10, 252, 253, 300, 70000}[rng.Intn(8)])
	rng.Read(b)
	b = h.bytes(b)
	var w bytes.Buffer
	h.call("writebytes", hb(b), func() (string, error) {
		w.Reset()
		err := wire.WriteVarBytes(&w, b)
		return w.String(), err
	})
	// a writer that holds on to what it is given only during the call, and one that writes elsewhere
	in := h.bytes(w.Bytes())
	var got []byte
	h.returnsBuf("readbytes", hb(in), true, func() ([]byte, error) {
		var err error
		got, err = wire.ReadVarBytes(bytes.NewReader(in), 1<<20, "x")
		return got, err
	})
	v := rng.Uint64() >> uint(rng.Intn(64))
	h.call("writeint", fmt.Sprint(v), func() (string, error) {
		w.Reset()
		err := wire.WriteVarInt(&w, v)
		return w.String(), err
	})
	in2 := h.bytes(w.Bytes())
	h.call("readint", hb(in2), func() (string, error) {
		x, err := wire.ReadVarInt(bytes.NewReader(in2))
		return fmt.Sprint(x), err
	})
	p, s := h.point(pickP(ps)), h.int(pick(vs))
	h.call("writepoint", each(pt(p)), func() (string, error) {
		w.Reset()
		err := z.WriteECPoint(&w, p)
		return w.String(), err
	})
	in3 := roomy(w.Bytes())
	o3 := h.buf(in3)
	h.call("readpoint", hb(in3), func() (string, error) {
		x, err := z.ReadECPoint(bytes.NewReader(in3))
		if err != nil {
			return "", err
		}
		h.point(x)
		return each(pt(x)), err
	})
	h.overwrite(o3, in3)
	h.call("writebig", hx(s), func() (string, error) {
		w.Reset()
		err := z.WriteBigInt(&w, s)
		return w.String(), err
	})
	in4 := roomy(w.Bytes())
	o4 := h.buf(in4)
	h.call("readbig", hb(in4), func() (string, error) {
		x, err := z.ReadBigInt(bytes.NewReader(in4))
		if err != nil {
			return "", err
		}
		h.int(x)
		return hx(x), err
	})
	h.overwrite(o4, in4)
}

func (h *memory) key(k *btcec.PrivateKey) {
	h.add("key", func() string { return hx(k.D) + hx(k.X) + hx(k.Y) })
}

func (h *memory) keyCalls() {
	c := btcec.S256()
	ds := secretKeys(4)
	d := ds[rng.Intn(len(ds))]
	kb := d.FillBytes(make([]byte, 32))
	in := roomy(kb)
	o := h.buf(in)
	var k *btcec.PrivateKey
	h.call("privkey", hb(in), func() (string, error) {
		var pub *btcec.PublicKey
		k, pub = btcec.PrivKeyFromBytes(c, in)
		return hx(k.D) + hx(pub.X) + hx(pub.Y), nil
	})
	if k == nil {
		return
	}
	h.key(k)
	h.overwrite(o, in)
	pub := k.PubKey()
	h.add("pub", func() string { return hx(pub.X) + hx(pub.Y) })
	id := hx(d)
	h.returnsBuf("key-ser", id, true, func() ([]byte, error) { return k.Serialize(), nil })
	for i, f := range []func() []byte{pub.SerializeCompressed, pub.SerializeUncompressed, pub.SerializeHybrid} {
		f := f
		enc := h.returnsBuf(fmt.Sprint("pub-ser", i), id, true, func() ([]byte, error) { return f(), nil })
		if rng.Intn(6) == 0 {
			enc[rng.Intn(len(enc))] ^= byte(1 << uint(rng.Intn(8)))
		}
		pin := roomy(enc)
		po := h.buf(pin)
		h.call("parsepub", hb(pin), func() (string, error) {
			q, err := btcec.ParsePubKey(pin, c)
			if err != nil {
				return "", err
			}
			h.add("pub", func() string { return hx(q.X) + hx(q.Y) })
			return hx(q.X) + hx(q.Y), nil
		})
		h.overwrite(po, pin)
	}
	hash := h.bytes(someHash())
	var s *btcec.Signature
	for i := 0; i < 2; i++ {
		h.call("sign", each(id, hb(hash)), func() (string, error) {
			var err error
			s, err = k.Sign(hash)
			if err != nil {
				return "", err
			}
			return hx(s.R) + "," + hx(s.S), nil
		})
	}
	if s != nil {
		sg := s
		made := s
		h.add("sig", func() string { return hx(made.R) + hx(made.S) })
		if rng.Intn(2) == 0 { // one that is not canonical
			nc := &btcec.Signature{R: cp(s.R), S: sub(c.N, s.S)}
			h.add("sig", func() string { return hx(nc.R) + hx(nc.S) })
			sg = nc
		}
		sk := hx(sg.R) + "," + hx(sg.S)
		other := h.bytes(someHash())
		for _, hh := range [][]byte{hash, other, hash} {
			h.call("verify", each(id, sk, hb(hh)), func() (string, error) { return fmt.Sprint(sg.Verify(hh, pub)), nil })
		}
		enc := h.returnsBuf("sig-ser", sk, true, func() ([]byte, error) { return sg.Serialize(), nil })
		for _, strict := range []bool{true, false} {
			sin := roomy(enc)
			so := h.buf(sin)
			h.call(fmt.Sprint("parsesig", strict), hb(sin), func() (string, error) {
				f := btcec.ParseSignature
				if strict {
					f = btcec.ParseDERSignature
				}
				q, err := f(sin, c)
				if err != nil {
					return "", err
				}
				h.add("sig", func() string { return hx(q.R) + hx(q.S) })
				return hx(q.R) + "," + hx(q.S), nil
			})
			h.overwrite(so, sin)
		}
	}
	for _, comp := range []bool{true, false} {
		comp := comp
		cs := h.returnsBuf("compact", each(id, hb(hash), comp), true, func() ([]byte, error) { return btcec.SignCompact(c, k, hash, comp) })
		if cs == nil {
			continue
		}
		if rng.Intn(3) == 0 {
			cs[rng.Intn(len(cs))] ^= byte(1 << uint(rng.Intn(8)))
		}
		cs = h.bytes(cs)
		h.call("recover", each(hb(cs), hb(hash)), func() (string, error) {
			q, b, err := btcec.RecoverCompact(c, cs, hash)
			if err != nil {
				return "", err
			}
			return each(hx(q.X), hx(q.Y), b), nil
		})
	}
	msg := make([]byte, rng.Intn(70))
	rng.Read(msg)
	msg = h.bytes(msg)
	ct := h.returnsBuf("encrypt", "", false, func() ([]byte, error) { return btcec.Encrypt(pub, msg) })
	if ct != nil {
		if rng.Intn(3) == 0 {
			ct[rng.Intn(len(ct))] ^= byte(1 << uint(rng.Intn(8)))
		}
		cin := h.bytes(ct)
		h.returnsBuf("decrypt", each(id, hb(cin)), true, func() ([]byte, error) { return btcec.Decrypt(k, cin) })
	}
	k2 := keyOf(ds[rng.Intn(len(ds))])
	h.key(k2)
	h.returnsBuf("secret", each(id, hx(k2.D)), true, func() ([]byte, error) { return btcec.GenerateSharedSecret(k, k2.PubKey()), nil })
}

// each joins what it is given, so that different things look different.
func each(a ...interface{}) string {
	s := make([]string, len(a))
	for i, x := range a {
		s[i] = fmt.Sprint(x)
	}
	return strings.Join(s, "|")
}

var frameEdges []z.ECPoint

func (h *memory) curveCalls() {
	c := btcec.S256()
	if frameEdges == nil {
		frameEdges = append(edgePoints(40), points(secpEnv(), 10)...)
	}
	eps := frameEdges
	p, q := eps[rng.Intn(len(eps))], eps[rng.Intn(len(eps))]
	switch rng.Intn(5) {
	case 0:
		q = p
	case 1:
		p = z.ECPoint{X: c.Gx, Y: c.Gy}
	}
	h.point(p)
	h.point(q)
	k := h.bytes(scalarBytes(c))
	P := func(x, y *big.Int) (string, error) { return hx(x) + "," + hx(y), nil }
	for t := 0; t < 2; t++ {
		h.call("c-add", each(pt(p), pt(q)), func() (string, error) { return P(c.Add(p.X, p.Y, q.X, q.Y)) })
		h.call("c-dbl", each(pt(p)), func() (string, error) { return P(c.Double(p.X, p.Y)) })
		h.call("c-mul", each(pt(p), hb(k)), func() (string, error) { return P(c.ScalarMult(p.X, p.Y, k)) })
		h.call("c-base", hb(k), func() (string, error) { return P(c.ScalarBaseMult(k)) })
		h.call("c-baseH", hb(k), func() (string, error) { return P(c.ScalarBaseMultH(k)) })
		h.call("c-on", each(pt(p)), func() (string, error) { return fmt.Sprint(c.IsOnCurve(p.X, p.Y)), nil })
	}
	for i := 0; i < 2; i++ {
		i := i
		h.returnsBuf(fmt.Sprint("naf", i), hb(k), true, func() ([]byte, error) {
			a, b := btcec.NAF(k)
			if i == 0 {
				return a, nil
			}
			return b, nil
		})
	}
}
