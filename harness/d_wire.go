package main

import (
	"bytes"
	"crypto/rand"
	"errors"
	"fmt"
	"io"
	"math/big"
	"runtime"

	z "github.com/mit-dci/zksigma"
	"github.com/mit-dci/zksigma/wire"
)

func init() {
	drivers["roundtrip"] = dRoundtrip
	drivers["decode"] = dDecode
	drivers["varint"] = dVarint
	drivers["wirefail"] = dWireFail
}

// flat lists the values of a proof in the order of its encoding.
func (p *Pf) flat(k string) []string {
	var r []string
	for _, f := range layout[k] {
		switch f[0] {
		case 'p':
			r = append(r, hx(p.P[f[2:]].X), hx(p.P[f[2:]].Y))
		case 's':
			r = append(r, hx(p.S[f[2:]]))
		case 'D':
			r = append(r, p.D.flat("disj")...)
		case 'T':
			for _, t := range p.T {
				r = append(r, hx(t.C.X), hx(t.C.Y), hx(t.S))
			}
		}
	}
	return r
}

func decodeReal(k string, b []byte) (real interface{}, err error) {
	switch k {
	case "gspfs":
		p, e := z.NewGSPFSProofFromBytes(b)
		if p == nil && e == nil {
			return nil, errNothing
		}
		return p, e
	case "eq":
		p, e := z.NewEquivalenceProofFromBytes(b)
		if p == nil && e == nil {
			return nil, errNothing
		}
		return p, e
	case "disj":
		p, e := z.NewDisjunctiveProofFromBytes(b)
		if p == nil && e == nil {
			return nil, errNothing
		}
		return p, e
	case "cons":
		p, e := z.NewConsistencyProofFromBytes(b)
		if p == nil && e == nil {
			return nil, errNothing
		}
		return p, e
	case "abc":
		p, e := z.NewABCProofFromBytes(b)
		if p == nil && e == nil {
			return nil, errNothing
		}
		return p, e
	case "range":
		p, e := z.NewRangeProofFromBytes(b)
		if p == nil && e == nil {
			return nil, errNothing
		}
		return p, e
	}
	fatal("decodeReal %s", k)
	return nil, nil
}

var errNothing = errors.New("neither a value nor an error")

type bytesser interface{ Bytes() []byte }

func encodeReal(real interface{}) (b []byte, res string) {
	res = guard(func() { b = real.(bytesser).Bytes() })
	return
}

// sized is an integer of a size and sign that is interesting for an encoding.
func sized() *big.Int {
	var v *big.Int
	switch rng.Intn(12) {
	case 0:
		v = bi(0)
	case 1:
		v = bi(int64(rng.Intn(3)))
	case 2:
		v = addi(pow2(uint(8*rng.Intn(36))), int64(rng.Intn(3)-1))
	case 3:
		v = rnd(8 * (1 + rng.Intn(40)))
	case 4: // length with the sign byte at the edge of the one-byte form
		v = new(big.Int).Add(pow2(uint(8*(249+rng.Intn(5)))), rnd(100))
	case 5:
		v = addi(pow2(8*1024), -1-int64(rng.Intn(5)))
	case 6:
		v = new(big.Int).Add(pow2(uint(rng.Intn(8*1024-1))), bi(int64(rng.Intn(100))))
	default:
		v = rnd(256)
	}
	if rng.Intn(3) == 0 {
		v = new(big.Int).Neg(v)
	}
	return v
}

func sizedCoord() *big.Int {
	switch rng.Intn(8) {
	case 0:
		return bi(0)
	case 1:
		return bi(int64(rng.Intn(256)))
	case 2:
		return addi(pow2(256), -1)
	case 3:
		return rnd(8 * (1 + rng.Intn(31)))
	case 4:
		return pow2(uint(rng.Intn(256)))
	}
	return rnd(256)
}

func sizedPoint() z.ECPoint { return z.ECPoint{X: sizedCoord(), Y: sizedCoord()} }

// syntheticPf has the shape of a proof of kind k and arbitrary contents.
func syntheticPf(k string) *Pf {
	p := newPf()
	for _, f := range layout[k] {
		switch f[0] {
		case 'p':
			p.P[f[2:]] = sizedPoint()
			if rng.Intn(5) == 0 {
				p.P[f[2:]] = zero()
			}
		case 's':
			p.S[f[2:]] = sized()
		case 'D':
			p.D = syntheticPf("disj")
		case 'T':
			n := []int{0, 1, 2, 39, 40}[rng.Intn(5)]
			for i := 0; i < n; i++ {
				p.T = append(p.T, Tup{sizedPoint(), sized()})
			}
		}
	}
	return p
}

// roundEvent encodes and decodes a real proof whose values are known to be pf's.
func roundEvent(e *env, k string, real interface{}, pf *Pf, st St) ([]byte, M) {
	m := M{"op": "roundtrip", "k": k, "vals": pf.flat(k), "enc": "", "enc2": "", "dec": []string{}, "left": 0, "extra": 0, "ver1": "none", "ver2": "none", "res": "ok"}
	note("roundtrip %s %v", k, m["vals"])
	enc, res := encodeReal(real)
	if res != "ok" {
		m["res"] = "encode-" + res
		return nil, m
	}
	keep := append([]byte{}, enc...)
	m["enc"] = hb(enc)
	enc2, _ := encodeReal(real)
	m["enc2"] = hb(enc2)
	var back interface{}
	var err error
	if o := guard(func() { back, err = decodeReal(k, enc) }); o != "ok" {
		m["res"] = "decode-" + o
		return keep, m
	}
	if err != nil {
		m["res"] = "decode-error"
		return keep, m
	}
	var q *Pf
	guard(func() { q = toPf(k, back) })
	if q == nil {
		m["res"] = "decoded-unreadable"
		return keep, m
	}
	m["dec"] = q.flat(k)
	if st != nil {
		m["ver1"] = verifyReal(e, k, st, real)
		m["ver2"] = verifyReal(e, k, st, back)
	}
	return keep, m
}

// roundtrip <env> <kind|point|int> <n>
func dRoundtrip(a []string) {
	e := envByName(a[0])
	k := a[1]
	n := atoi(a[2])
	if k == "point" || k == "int" {
		roundPrimitives(e, k, n)
		return
	}
	ps, vs := points(e, 4), scalars(e.N(), 20)
	var last []byte
	var lastPf *Pf
	for i := 0; i < n; i++ {
		var pf *Pf
		var real interface{}
		var st St
		if i%2 == 0 {
			s, w := instance(e, k, ps, vs)
			var res string
			real, _, res = prove(e, k, s.clone(), w)
			if res != "proof" {
				continue // C01's business
			}
			if guard(func() { pf = toPf(k, real) }) != "ok" || pf == nil {
				emit(M{"op": "roundtrip", "k": k, "vals": []string{}, "enc": "", "enc2": "", "dec": []string{}, "left": 0, "extra": 0, "ver1": "none", "ver2": "none", "res": "unreadable"})
				continue
			}
			st = verifierSt(e, k, s, real)
			if i%4 == 2 && k != "range" {
				// a proof that will be rejected
				s := scalarSlots(pf)[0]
				s.set(addi(s.get(), 1))
				real, _ = fromPf(k, pf)
			}
		} else {
			pf = syntheticPf(k)
			var err error
			if o := guard(func() { real, err = fromPf(k, pf) }); o != "ok" || err != nil {
				emit(M{"op": "roundtrip", "k": k, "vals": pf.flat(k), "enc": hb(pf.encode(k)), "enc2": "", "dec": []string{}, "left": 0, "extra": 0, "ver1": "none", "ver2": "none", "res": fmt.Sprintf("construct %s %v", o, err)})
				continue
			}
		}
		enc, m := roundEvent(e, k, real, pf, st)
		emit(m)
		if last != nil && enc != nil {
			emit(M{"op": "distinct", "k": k, "equal": bool2(pf.equal(lastPf)), "equalenc": bool2(bytes.Equal(enc, last))})
		}
		last, lastPf = enc, pf
		// values that differ in one place only
		q := pf.clone()
		slots := scalarSlots(q)
		s := slots[rng.Intn(len(slots))]
		v := s.get()
		switch rng.Intn(3) {
		case 0:
			v = new(big.Int).Neg(v)
		case 1:
			v = addi(v, 1)
		default:
			v = new(big.Int).Lsh(v, 8)
		}
		if v.BitLen() <= 8192 {
			s.set(v)
			var r2 interface{}
			if guard(func() { r2, _ = fromPf(k, q) }) == "ok" && r2 != nil && enc != nil {
				if e2, res := encodeReal(r2); res == "ok" {
					emit(M{"op": "distinct", "k": k, "equal": bool2(pf.equal(q)), "equalenc": bool2(bytes.Equal(enc, e2))})
				}
			}
		}
	}
}

func roundPrimitives(e *env, k string, n int) {
	ps := points(e, 8)
	vs := scalars(e.N(), 20)
	type prev struct {
		vals []string
		enc  string
	}
	var seen []prev
	for i := 0; i < n; i++ {
		var P z.ECPoint
		var v *big.Int
		var vals []string
		if k == "point" {
			P = sizedPoint()
			if i < len(ps) {
				P = cpp(ps[i])
			}
			vals = pt(P)
		} else {
			v = sized()
			if i < len(vs) {
				v = cp(vs[i])
			}
			vals = []string{hx(v)}
		}
		extra := rng.Intn(4)
		m := M{"op": "roundtrip", "k": k, "vals": vals, "enc": "", "enc2": "", "dec": []string{}, "left": -1, "extra": extra, "ver1": "none", "ver2": "none", "res": "ok"}
		note("roundtrip %s %v", k, vals)
		write := func(w io.Writer) error {
			if k == "point" {
				return z.WriteECPoint(w, P)
			}
			return z.WriteBigInt(w, v)
		}
		var b1, b2 bytes.Buffer
		var err1, err2, err3 error
		o := guard(func() { err1 = write(&b1); err2 = write(&b2) })
		m["enc"], m["enc2"] = hb(b1.Bytes()), hb(b2.Bytes())
		r := bytes.NewReader(append(append([]byte{}, b1.Bytes()...), []byte{0xfd, 0, 1}[:min(extra, 3)]...))
		var rd io.Reader = r
		if i%3 == 1 {
			rd = &pieces{r, 1}
		}
		o2 := guard(func() {
			if k == "point" {
				var q z.ECPoint
				q, err3 = z.ReadECPoint(rd)
				m["dec"] = pt(q)
			} else {
				var q *big.Int
				q, err3 = z.ReadBigInt(rd)
				m["dec"] = []string{hx(q)}
			}
		})
		m["left"] = r.Len()
		m["extra"] = min(extra, 3)
		if o != "ok" || o2 != "ok" || err1 != nil || err2 != nil || err3 != nil {
			m["res"] = fmt.Sprintf("%s %s %v %v %v", o, o2, err1, err2, err3)
		}
		emit(m)
		cur := prev{vals, m["enc"].(string)}
		for j := 0; j < 3 && j < len(seen); j++ {
			s := seen[rng.Intn(len(seen))]
			emit(M{"op": "distinct", "k": k, "equal": bool2(fmt.Sprint(s.vals) == fmt.Sprint(cur.vals)), "equalenc": bool2(s.enc == cur.enc)})
		}
		seen = append(seen, cur)
	}
}

// pieces delivers at most n bytes at a time.
type pieces struct {
	r io.Reader
	n int
}

func (p *pieces) Read(b []byte) (int, error) {
	if len(b) > p.n {
		b = b[:p.n]
	}
	return p.r.Read(b)
}

// allocated is the number of bytes that f allocates.
func allocated(f func()) int {
	var m1, m2 runtime.MemStats
	runtime.ReadMemStats(&m1)
	f()
	runtime.ReadMemStats(&m2)
	d := m2.TotalAlloc - m1.TotalAlloc
	if d > 2000000000 {
		d = 2000000000
	}
	return int(d)
}

func decodeEvent(e *env, k string, in []byte, st St, orig []string) {
	m := M{"op": "decode", "k": k, "in": hb(in), "res": "ok", "dec": []string{}, "alloc": 0, "ver": "none", "orig": orig}
	note("decode %s %x", k, in)
	if k == "point" || k == "int" {
		var err error
		var o string
		m["alloc"] = allocated(func() {
			o = guard(func() {
				if k == "point" {
					var q z.ECPoint
					q, err = z.ReadECPoint(bytes.NewReader(in))
					if err == nil {
						m["dec"] = pt(q)
					}
				} else {
					var q *big.Int
					q, err = z.ReadBigInt(bytes.NewReader(in))
					if err == nil {
						m["dec"] = []string{hx(q)}
					}
				}
			})
		})
		if o != "ok" {
			m["res"] = o
		} else if err != nil {
			m["res"] = "error"
		}
		emit(m)
		return
	}
	var real interface{}
	var err error
	var o string
	buf := oldBytes("in", in)
	m["alloc"] = allocated(func() { o = guard(func() { real, err = decodeReal(k, buf) }) })
	switch {
	case o != "ok":
		m["res"] = o
	case err == errNothing:
		m["res"] = "nothing"
	case err != nil:
		m["res"] = "error"
	default:
		var q *Pf
		guard(func() { q = toPf(k, real) })
		if q == nil {
			m["res"] = "decoded-unreadable"
		} else {
			m["dec"] = q.flat(k)
			m["ver"] = verifyReal(e, k, st, real)
			if m["ver"] == "accept" && fmt.Sprint(q.flat(k)) != fmt.Sprint(orig) {
				// whether it should have been is decided by Sigma.tla
				verifyEvent(e, k, st, q, "decoded")
			}
		}
	}
	emit(m)
}

// lengthFields are the positions of the length bytes in an encoding.
func lengthFields(k string, enc []byte) []int {
	var pos []int
	r := bytes.NewReader(enc)
	at := func() int { return len(enc) - r.Len() }
	for _, f := range layout[k] {
		switch f[0] {
		case 'p':
			pos = append(pos, at())
			decBytes(r)
			pos = append(pos, at())
			decBytes(r)
		case 's':
			pos = append(pos, at())
			decBytes(r)
		case 'D':
			p := at()
			pos = append(pos, p)
			b, _ := decBytes(r)
			for _, q := range lengthFields("disj", b) {
				pos = append(pos, at()-len(b)+q)
			}
		case 'T':
			pos = append(pos, at())
			n, _ := decVarInt(r)
			for i := uint64(0); i < n; i++ {
				for j := 0; j < 3; j++ {
					pos = append(pos, at())
					decBytes(r)
				}
			}
		}
	}
	return pos
}

// splice replaces the integer at pos (its first byte) by other bytes.
func splice(enc []byte, pos int, by []byte) []byte {
	w := 1
	if pos < len(enc) {
		w = map[byte]int{0xfd: 3, 0xfe: 5, 0xff: 9}[enc[pos]]
		if w == 0 {
			w = 1
		}
	}
	r := append([]byte{}, enc[:pos]...)
	r = append(r, by...)
	if pos+w < len(enc) {
		r = append(r, enc[pos+w:]...)
	}
	return r
}

var badInts = [][]byte{{0}, {1}, {2}, {31}, {32}, {33}, {34}, {39}, {40}, {41}, {0x7f}, {0x80}, {0xfc}, {0xfd}, {0xfe}, {0xff},
	{0xfd, 0x20, 0x00}, {0xfd, 0xfd, 0x00}, {0xfd, 0xff, 0xff}, {0xfd, 0x01, 0x04}, {0xfd, 0x02, 0x04}, {0xfe, 0x20, 0, 0, 0}, {0xfe, 0xff, 0xff, 0, 0}, {0xfe, 0, 0, 1, 0}, {0xfe, 0xa0, 0x86, 1, 0}, {0xfe, 0xa1, 0x86, 1, 0},
	{0xfe, 0, 0, 0, 3}, {0xfe, 0xff, 0xff, 0xff, 0x7f}, {0xfe, 0xff, 0xff, 0xff, 0xff}, {0xff, 0x20, 0, 0, 0, 0, 0, 0, 0}, {0xff, 0, 0, 0, 0, 1, 0, 0, 0},
	{0xff, 0x20, 0, 0, 0, 1, 0, 0, 0}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f}, {0xff, 0, 0, 0, 0, 0, 0, 0, 0x80}}

// decode <env> <kind|point|int> <n>
func dDecode(a []string) {
	e := envByName(a[0])
	k := a[1]
	n := atoi(a[2])
	ps, vs := points(e, 4), scalars(e.N(), 20)
	var st St
	mk := func(i int) ([]byte, []string) {
		switch k {
		case "point":
			p := pickP(ps)
			var w bytes.Buffer
			encPoint(&w, p)
			return w.Bytes(), pt(p)
		case "int":
			v := sized()
			var w bytes.Buffer
			encInt(&w, v)
			return w.Bytes(), []string{hx(v)}
		}
		for try := 0; try < 20; try++ {
			s, w := instance(e, k, ps, vs)
			real, _, res := prove(e, k, s.clone(), w)
			if res != "proof" {
				continue
			}
			var pf *Pf
			if guard(func() { pf = toPf(k, real) }) != "ok" || pf == nil {
				continue
			}
			st = verifierSt(e, k, s, real)
			return pf.encode(k), pf.flat(k)
		}
		// the prover does not work: any statement will do
		pf := syntheticPf(k)
		st = emptySt(k)
		return pf.encode(k), pf.flat(k)
	}
	for i := 0; i < n; i++ {
		enc, vals := mk(i)
		decodeEvent(e, k, enc, st, vals)
		// every prefix
		if i < 2 || (k != "range" && i < 8) {
			oks, others := []int{}, []string{}
			var maxAlloc int
			for j := 0; j < len(enc); j++ {
				note("decode prefix %d of %s %x", j, k, enc)
				var err error
				var o string
				al := allocated(func() {
					o = guard(func() {
						switch k {
						case "point":
							_, err = z.ReadECPoint(bytes.NewReader(enc[:j]))
						case "int":
							_, err = z.ReadBigInt(bytes.NewReader(enc[:j]))
						default:
							_, err = decodeReal(k, oldBytes("in", enc[:j]))
						}
					})
				})
				if al > maxAlloc {
					maxAlloc = al
				}
				if o != "ok" || err == errNothing {
					others = append(others, fmt.Sprintf("%d %s", j, o))
				} else if err == nil {
					oks = append(oks, j)
				}
			}
			emit(M{"op": "prefixes", "k": k, "in": hb(enc), "n": len(enc), "oks": oks, "others": others, "alloc": maxAlloc})
		}
		// every length, with every bad value (a sample of them for the long ones)
		pos := lengthFields(k, enc)
		if k == "point" {
			pos = []int{0, 1 + int(enc[0])}
		} else if k == "int" {
			pos = []int{0}
		}
		for pi, p := range pos {
			if k == "range" && pi > 8 && rng.Intn(12) != 0 {
				continue
			}
			for bi, b := range badInts {
				if i > 0 && rng.Intn(6) != 0 {
					continue
				}
				if k == "range" && pi > 5 && bi%5 != pi%5 {
					continue
				}
				x := splice(enc, p, b)
				if k == "range" && rng.Intn(2) == 0 {
					x = x[:min(len(x), p+20+rng.Intn(200))]
				}
				decodeEvent(e, k, x, st, vals)
			}
		}
		// flipped bytes
		nf := 30
		if k == "range" {
			nf = 10
		}
		for f := 0; f < nf; f++ {
			x := append([]byte{}, enc...)
			c := 1 + rng.Intn(2)
			for j := 0; j < c; j++ {
				x[rng.Intn(len(x))] ^= byte(1 << uint(rng.Intn(8)))
			}
			decodeEvent(e, k, x, st, vals)
		}
		// bytes removed, added, appended
		for f := 0; f < 10; f++ {
			p := rng.Intn(len(enc))
			x := append(append([]byte{}, enc[:p]...), enc[p+1:]...)
			if f%2 == 1 {
				x = append(append([]byte{}, enc[:p]...), byte(rng.Intn(256)))
				x = append(x, enc[p:]...)
			}
			decodeEvent(e, k, x, st, vals)
		}
		decodeEvent(e, k, append(append([]byte{}, enc...), 0, 1, 2), st, vals)
		// integers with unusual contents: sign bytes, leading zeros, minus zero, none at all
		if k == "int" {
			for _, x := range [][]byte{{}, {0}, {1, 0}, {1, 1}, {1, 2}, {2, 1, 0}, {2, 2, 5}, {3, 0, 0, 7}, {3, 1, 0, 7}, {2, 0xff, 9}} {
				decodeEvent(e, k, x, st, vals)
			}
		}
	}
	// arbitrary bytes
	for i := 0; i < 60*n; i++ {
		x := make([]byte, rng.Intn(120))
		rng.Read(x)
		for j := range x {
			if rng.Intn(3) == 0 {
				x[j] = []byte{0, 1, 2, 0x20, 0x21, 0xfc, 0xfd, 0xfe, 0xff}[rng.Intn(9)]
			}
		}
		if st == nil && k != "point" && k != "int" {
			st = emptySt(k)
		}
		decodeEvent(e, k, x, st, []string{})
	}
	// a valid start, followed by large announced sizes and no data
	for i := 0; i < 2*n; i++ {
		enc, _ := mk(i)
		pos := lengthFields(k, enc)
		if len(pos) == 0 {
			continue
		}
		p := pos[rng.Intn(len(pos))]
		b := badInts[rng.Intn(len(badInts))]
		decodeEvent(e, k, append(append([]byte{}, enc[:p]...), b...), st, []string{})
	}
}

// varint <n>
func dVarint(a []string) {
	n := atoi(a[0])
	var vals []uint64
	for _, b := range []uint64{0, 0xfd, 0x100, 0xffff, 0x10000, 0x7fff, 0x8000, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 1 << 40, 0x7fffffffffffffff, 0x8000000000000000, 0xffffffffffffffff} {
		for d := -4; d <= 4; d++ {
			vals = append(vals, b+uint64(int64(d)))
		}
	}
	for i := uint64(0); i < 300; i++ {
		vals = append(vals, i)
	}
	for i := 0; i < n; i++ {
		vals = append(vals, rng.Uint64()>>uint(rng.Intn(64)))
	}
	if thorough {
		for i := uint64(0); i < 70000; i++ {
			vals = append(vals, i)
		}
	}
	for len(vals) > 0 {
		c := min(64, len(vals))
		varintEvent(vals[:c])
		vals = vals[c:]
	}
	// reading from arbitrary bytes
	for _, b := range badInts {
		for cut := 0; cut <= len(b); cut++ {
			readEvent(b[:cut], 0)
			readEvent(append(append([]byte{}, b[:cut]...), 9, 9), 1)
		}
	}
	for d := 0; d < 256; d++ {
		readEvent([]byte{byte(d)}, 0)
		x := make([]byte, 12)
		x[0] = byte(d)
		readEvent(x, d%4)
		rng.Read(x[1:])
		readEvent(x, d%4)
	}
	for i := 0; i < n; i++ {
		x := make([]byte, rng.Intn(12))
		for j := range x {
			x[j] = byte(rng.Intn(256))
			if rng.Intn(2) == 0 {
				x[j] = []byte{0, 0, 0xff, 0xfc, 1}[rng.Intn(5)]
			}
		}
		if len(x) > 0 {
			x[0] = byte(0xfc + rng.Intn(4))
		}
		readEvent(x, rng.Intn(4))
	}
	// byte arrays
	for _, l := range []int{0, 1, 2, 31, 32, 33, 251, 252, 253, 254, 255, 256, 1000, 4096, 4097, 65534, 65535, 65536, 65537, 131073, 300000} {
		b := make([]byte, l)
		rng.Read(b)
		note("WriteVarBytes of %d bytes", l)
		var w bytes.Buffer
		var err error
		o := guard(func() { err = wire.WriteVarBytes(&w, b) })
		emit(M{"op": "writebytes", "in": hb(b), "res": outc(o, err), "out": hb(w.Bytes())})
		var enc bytes.Buffer
		encBytes(&enc, b)
		if l >= 2000 { // cut off: at the last byte, at the sizes of buffers, anywhere
			for _, cut := range []int{1, l - 65536, l - 65537, l - 4096, l / 2, 1 + rng.Intn(l)} {
				if cut > 0 {
					readBytesEvent(enc.Bytes()[:enc.Len()-cut], uint32(l+rng.Intn(2)*1000), rng.Intn(4))
				}
			}
		}
		for _, max := range []int{l, l + 1, l - 1, 0, 1 << 30} {
			if max < 0 || l > 70000 && max != l {
				continue
			}
			readBytesEvent(append(append([]byte{}, enc.Bytes()...), 5, 6), uint32(max), rng.Intn(4))
			if l > 0 && l < 2000 {
				readBytesEvent(enc.Bytes()[:enc.Len()-1-rng.Intn(l)], uint32(max), rng.Intn(4))
			}
		}
	}
	// arrays that are kept, and written to, while others are read
	for i := 0; i < 60; i++ {
		var kept []M
		var got [][]byte
		for j := 0; j < 6; j++ {
			b := make([]byte, []int{0, 1, 3, 31, 32, 33, 64, 65, 253, 600}[rng.Intn(10)])
			rng.Read(b)
			var enc bytes.Buffer
			encBytes(&enc, b)
			in := append(append([]byte{}, enc.Bytes()...), 7)
			m := M{"op": "readbytes", "in": hb(in), "max": 1000, "how": 0, "alloc": 0}
			r := bytes.NewReader(in)
			var v []byte
			var err error
			o := guard(func() { v, err = wire.ReadVarBytes(r, 1000, "x") })
			m["res"], m["used"] = outc(o, err), len(in)-r.Len()
			for k := range in { // the input is the caller's as well
				in[k] ^= 0x55
			}
			kept, got = append(kept, m), append(got, v)
		}
		for _, v := range got {
			_ = append(v, 1, 2, 3, 4, 5, 6, 7, 8, 9)
		}
		for j, m := range kept {
			m["v"] = hb(got[j])
			emit(m)
		}
	}
	// announced sizes beyond the limit, and beyond the data
	for _, b := range badInts {
		for _, max := range []uint32{0, 31, 32, 33, 252, 253, 1000, 65535, 65536, 100000} {
			readBytesEvent(b, max, 0)
			readBytesEvent(append(append([]byte{}, b...), make([]byte, 40)...), max, 2)
		}
	}
	for i := 0; i < 20; i++ {
		x := make([]byte, 8)
		rng.Read(x)
		var v uint64
		var err error
		o := "ok"
		withReader(&pieces{bytes.NewReader(x), 1 + rng.Intn(8)}, func() {
			o = guard(func() { v, err = wire.RandomUint64() })
		})
		emit(M{"op": "rand64", "in": hb(x), "res": outc(o, err), "v": fmt.Sprintf("%x", v)})
		withReader(bytes.NewReader(x[:i%8]), func() {
			o = guard(func() { v, err = wire.RandomUint64() })
		})
		emit(M{"op": "fail", "what": "RandomUint64", "at": i % 8, "need": 8, "res": outc(o, err), "same": 1})
	}
	_ = rand.Reader
}

func outc(o string, err error) string {
	if o != "ok" {
		return o
	}
	if err != nil {
		return "error"
	}
	return "ok"
}

func varintEvent(vals []uint64) {
	var vs, encs, decs []string
	var sizes, lefts []int
	for _, v := range vals {
		note("WriteVarInt %d", v)
		var w bytes.Buffer
		var err error
		vs = append(vs, fmt.Sprintf("%x", v))
		size, enc := 0, ""
		o := guard(func() { size = wire.VarIntSerializeSize(v); err = wire.WriteVarInt(&w, v) })
		enc = hb(w.Bytes())
		if o != "ok" || err != nil {
			enc = outc(o, err)
		}
		r := bytes.NewReader(append(w.Bytes(), 1, 2, 3))
		var d uint64
		o = guard(func() { d, err = wire.ReadVarInt(r) })
		dec := fmt.Sprintf("%x", d)
		if o != "ok" || err != nil {
			dec = outc(o, err)
		}
		encs, decs, sizes, lefts = append(encs, enc), append(decs, dec), append(sizes, size), append(lefts, r.Len())
	}
	emit(M{"op": "varint", "vals": vs, "enc": encs, "size": sizes, "dec": decs, "left": lefts})
}

// shaped makes a reader over b that delivers it in one of several ways.
func shaped(b []byte, how int) (io.Reader, *bytes.Reader) {
	r := bytes.NewReader(b)
	switch how {
	case 1:
		return &pieces{r, 1}, r
	case 2:
		return &pieces{r, 3}, r
	case 3:
		return &eager{r}, r
	}
	return r, r
}

// eager reports the end together with the last bytes.
type eager struct{ r *bytes.Reader }

func (e *eager) Read(b []byte) (int, error) {
	n, err := e.r.Read(b)
	if err == nil && e.r.Len() == 0 {
		err = io.EOF
	}
	return n, err
}

func readEvent(in []byte, how int) {
	note("ReadVarInt from %x", in)
	rd, r := shaped(in, how)
	var v uint64
	var err error
	o := guard(func() { v, err = wire.ReadVarInt(rd) })
	emit(M{"op": "read", "in": hb(in), "how": how, "res": outc(o, err), "v": fmt.Sprintf("%x", v), "used": len(in) - r.Len()})
}

func readBytesEvent(in []byte, max uint32, how int) {
	note("ReadVarBytes limit %d from %d bytes %x", max, len(in), in[:min(len(in), 20)])
	rd, r := shaped(in, how)
	var v []byte
	var err error
	var o string
	al := allocated(func() { o = guard(func() { v, err = wire.ReadVarBytes(rd, max, "x") }) })
	// the caller's limit bounds what may be allocated
	emit(M{"op": "readbytes", "in": hb(in), "max": int(max), "how": how, "res": outc(o, err), "v": hb(v), "used": len(in) - r.Len(), "alloc": min(al, 400000)*bool2(max > 300000) + al*bool2(max <= 300000)})
}

// ---- failing readers and writers ----

var errIO = errors.New("device failed")

type failReader struct {
	b     []byte
	pos   int
	at    int
	step  int
	err   error
	eager bool
}

func (f *failReader) Read(p []byte) (int, error) {
	if f.pos >= f.at {
		return 0, f.err
	}
	n := min(len(p), f.at-f.pos)
	if f.step > 0 {
		n = min(n, f.step)
	}
	n = copy(p[:n], f.b[f.pos:])
	f.pos += n
	if f.eager && f.pos >= f.at {
		return n, f.err
	}
	return n, nil
}

type failWriter struct {
	buf bytes.Buffer
	at  int
	err error
}

func (f *failWriter) Write(p []byte) (int, error) {
	room := f.at - f.buf.Len()
	if len(p) > room {
		f.buf.Write(p[:room])
		return room, f.err
	}
	return f.buf.Write(p)
}

// wirefail <n>: every failure point of every reading and writing function
func dWireFail(a []string) {
	n := atoi(a[0])
	for i := 0; i < n; i++ {
		v := rng.Uint64() >> uint(rng.Intn(64))
		if i < 8 {
			v = []uint64{0, 0xfc, 0xfd, 0xffff, 0x10000, 0xffffffff, 0x100000000, 0xffffffffffffffff}[i]
		}
		bs := make([]byte, []int{0, 1, 40, 252, 253, 300}[i%6])
		rng.Read(bs)
		P := sizedPoint()
		x := sized()
		type op struct {
			name  string
			enc   func(w io.Writer) error
			write func(w io.Writer) error
			read  func(r io.Reader) (bool, error)
		}
		wrap := func(f func(b *bytes.Buffer)) func(io.Writer) error {
			return func(w io.Writer) error {
				var b bytes.Buffer
				f(&b)
				_, err := w.Write(b.Bytes())
				return err
			}
		}
		ops := []op{
			{"VarInt", wrap(func(b *bytes.Buffer) { encVarInt(b, v) }), func(w io.Writer) error { return wire.WriteVarInt(w, v) },
				func(r io.Reader) (bool, error) { q, err := wire.ReadVarInt(r); return q == v, err }},
			{"VarBytes", wrap(func(b *bytes.Buffer) { encBytes(b, bs) }), func(w io.Writer) error { return wire.WriteVarBytes(w, bs) },
				func(r io.Reader) (bool, error) {
					q, err := wire.ReadVarBytes(r, 1000, "x")
					return bytes.Equal(q, bs), err
				}},
			{"ECPoint", wrap(func(b *bytes.Buffer) { encPoint(b, P) }), func(w io.Writer) error { return z.WriteECPoint(w, P) },
				func(r io.Reader) (bool, error) { q, err := z.ReadECPoint(r); return err == nil && same(P, q), err }},
			{"BigInt", wrap(func(b *bytes.Buffer) { encInt(b, x) }), func(w io.Writer) error { return z.WriteBigInt(w, x) },
				func(r io.Reader) (bool, error) { q, err := z.ReadBigInt(r); return err == nil && q.Cmp(x) == 0, err }},
		}
		for _, o := range ops {
			var full bytes.Buffer
			o.enc(&full)
			L := full.Len()
			for at := 0; at <= L; at++ {
				if L > 40 && at > 12 && at < L-6 && rng.Intn(L/10) != 0 {
					continue
				}
				for _, e := range []error{errIO, io.EOF, io.ErrUnexpectedEOF, io.ErrShortWrite} {
					if rng.Intn(2) == 0 && i > 8 {
						continue
					}
					note("%s with a reader failing after %d bytes", o.name, at)
					var eq bool
					var err error
					fr := &failReader{b: full.Bytes(), at: at, step: rng.Intn(4), err: e, eager: rng.Intn(2) == 0}
					res := guard(func() { eq, err = o.read(fr) })
					emit(M{"op": "fail", "what": "Read" + o.name, "at": at, "need": L, "res": outc(res, err), "same": bool2(eq)})
					if e == io.EOF {
						continue
					}
					fw := &failWriter{at: at, err: e}
					res = guard(func() { err = o.write(fw) })
					emit(M{"op": "fail", "what": "Write" + o.name, "at": at, "need": L, "res": outc(res, err), "same": bool2(bytes.Equal(fw.buf.Bytes(), full.Bytes()))})
				}
			}
		}
	}
}
