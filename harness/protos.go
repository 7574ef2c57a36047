package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/big"

	z "github.com/mit-dci/zksigma"
)

// St is a statement: its named points.
type St map[string]z.ECPoint

// Pf is a proof: its named points and scalars, an inner proof, tuples.
type Pf struct {
	P map[string]z.ECPoint
	S map[string]*big.Int
	D *Pf
	T []Tup
}

// Tup is one bit of a range proof.
type Tup struct {
	C z.ECPoint
	S *big.Int
}

func (s St) ev() M {
	m := M{}
	for k, v := range s {
		m[k] = pt(v)
	}
	return m
}

func (s St) clone() St {
	r := St{}
	for k, v := range s {
		r[k] = cpp(v)
	}
	return r
}

func (p *Pf) ev() M {
	m := M{}
	for k, v := range p.P {
		m[k] = pt(v)
	}
	for k, v := range p.S {
		m[k] = hx(v)
	}
	if p.D != nil {
		m["D"] = p.D.ev()
	}
	if p.T != nil {
		l := []M{}
		for _, t := range p.T {
			l = append(l, M{"C": pt(t.C), "s": hx(t.S)})
		}
		m["t"] = l
	}
	return m
}

func (p *Pf) clone() *Pf {
	if p == nil {
		return nil
	}
	r := &Pf{P: map[string]z.ECPoint{}, S: map[string]*big.Int{}}
	for k, v := range p.P {
		r.P[k] = cpp(v)
	}
	for k, v := range p.S {
		r.S[k] = cp(v)
	}
	r.D = p.D.clone()
	for _, t := range p.T {
		r.T = append(r.T, Tup{cpp(t.C), cp(t.S)})
	}
	return r
}

func (p *Pf) equal(q *Pf) bool {
	if (p == nil) != (q == nil) {
		return false
	}
	if p == nil {
		return true
	}
	if len(p.P) != len(q.P) || len(p.S) != len(q.S) || len(p.T) != len(q.T) {
		return false
	}
	for k, v := range p.P {
		if !same(v, q.P[k]) {
			return false
		}
	}
	for k, v := range p.S {
		if v.Cmp(q.S[k]) != 0 {
			return false
		}
	}
	for i := range p.T {
		if !same(p.T[i].C, q.T[i].C) || p.T[i].S.Cmp(q.T[i].S) != 0 {
			return false
		}
	}
	return p.D.equal(q.D)
}

var stNames = map[string][]string{
	"gspfs": {"A"}, "eq": {"B1", "R1", "B2", "R2"}, "disj": {"B1", "R1", "B2", "R2"},
	"cons": {"CM", "CT", "PK"}, "abc": {"CM", "CT"}, "ineq": {"CM", "CT"}, "range": {"CM"},
}
var pfPoints = map[string][]string{
	"gspfs": {"Base", "T"}, "eq": {"T1", "T2"}, "disj": {"T1", "T2"}, "cons": {"T1", "T2"},
	"abc": {"B", "C", "T1", "T2"}, "ineq": {"B", "C", "T1", "T2"}, "range": {"Agg"},
}
var pfScalars = map[string][]string{
	"gspfs": {"s", "c"}, "eq": {"c", "s"}, "disj": {"c", "c1", "c2", "s1", "s2"},
	"cons": {"c", "s1", "s2"}, "abc": {"c", "j", "k", "l"}, "ineq": {"c", "j", "k", "l"}, "range": {"e"},
}

// ---- the harness's own codec (the wire format of the proofs) ----

func encVarInt(w *bytes.Buffer, v uint64) {
	switch {
	case v < 0xfd:
		w.WriteByte(byte(v))
	case v <= 0xffff:
		w.WriteByte(0xfd)
		binary.Write(w, binary.LittleEndian, uint16(v))
	case v <= 0xffffffff:
		w.WriteByte(0xfe)
		binary.Write(w, binary.LittleEndian, uint32(v))
	default:
		w.WriteByte(0xff)
		binary.Write(w, binary.LittleEndian, v)
	}
}

func encBytes(w *bytes.Buffer, b []byte) { encVarInt(w, uint64(len(b))); w.Write(b) }

func encPoint(w *bytes.Buffer, p z.ECPoint) { encBytes(w, p.X.Bytes()); encBytes(w, p.Y.Bytes()) }

func encInt(w *bytes.Buffer, b *big.Int) {
	s := byte(0)
	if b.Sign() < 0 {
		s = 1
	}
	encBytes(w, append([]byte{s}, b.Bytes()...))
}

func decVarInt(r *bytes.Reader) (uint64, error) {
	d, err := r.ReadByte()
	if err != nil {
		return 0, err
	}
	n := map[byte]int{0xfd: 2, 0xfe: 4, 0xff: 8}[d]
	if n == 0 {
		return uint64(d), nil
	}
	var v uint64
	for i := 0; i < n; i++ {
		b, err := r.ReadByte()
		if err != nil {
			return 0, err
		}
		v |= uint64(b) << uint(8*i)
	}
	return v, nil
}

func decBytes(r *bytes.Reader) ([]byte, error) {
	n, err := decVarInt(r)
	if err != nil {
		return nil, err
	}
	if n > uint64(r.Len()) {
		return nil, io.ErrUnexpectedEOF
	}
	b := make([]byte, n)
	r.Read(b)
	return b, nil
}

func decPoint(r *bytes.Reader) (z.ECPoint, error) {
	x, err := decBytes(r)
	if err != nil {
		return z.ECPoint{}, err
	}
	y, err := decBytes(r)
	if err != nil {
		return z.ECPoint{}, err
	}
	return z.ECPoint{X: new(big.Int).SetBytes(x), Y: new(big.Int).SetBytes(y)}, nil
}

func decInt(r *bytes.Reader) (*big.Int, error) {
	b, err := decBytes(r)
	if err != nil {
		return nil, err
	}
	if len(b) == 0 {
		return nil, errors.New("no sign")
	}
	v := new(big.Int).SetBytes(b[1:])
	if b[0] == 1 {
		v.Neg(v)
	}
	return v, nil
}

// layout of the encodings: p:<name> point, s:<name> scalar, D inner proof, T tuples, x: point that is skipped
var layout = map[string][]string{
	"gspfs": {"p:Base", "p:T", "s:s", "s:c"},
	"eq":    {"p:T1", "p:T2", "s:c", "s:s"},
	"disj":  {"p:T1", "p:T2", "s:c", "s:c1", "s:c2", "s:s1", "s:s2"},
	"cons":  {"p:T1", "p:T2", "s:c", "s:s1", "s:s2"},
	"abc":   {"p:B", "p:C", "p:T1", "p:T2", "s:c", "s:j", "s:k", "s:l", "p:CToken", "D"},
	"ineq":  {"p:B", "p:C", "p:T1", "p:T2", "s:c", "s:j", "s:k", "s:l", "p:CToken", "D"},
	"range": {"p:Agg", "s:e", "T"},
}

func (p *Pf) encode(k string) []byte {
	var w bytes.Buffer
	for _, f := range layout[k] {
		switch f[0] {
		case 'p':
			encPoint(&w, p.P[f[2:]])
		case 's':
			encInt(&w, p.S[f[2:]])
		case 'D':
			encBytes(&w, p.D.encode("disj"))
		case 'T':
			encVarInt(&w, uint64(len(p.T)))
			for _, t := range p.T {
				encPoint(&w, t.C)
				encInt(&w, t.S)
			}
		}
	}
	return w.Bytes()
}

func decode(k string, b []byte) (*Pf, error) {
	r := bytes.NewReader(b)
	p := &Pf{P: map[string]z.ECPoint{}, S: map[string]*big.Int{}}
	var err error
	for _, f := range layout[k] {
		switch f[0] {
		case 'p':
			p.P[f[2:]], err = decPoint(r)
		case 's':
			p.S[f[2:]], err = decInt(r)
		case 'D':
			var ib []byte
			ib, err = decBytes(r)
			if err == nil {
				p.D, err = decode("disj", ib)
			}
		case 'T':
			var n uint64
			n, err = decVarInt(r)
			if err == nil && n > 10000 {
				err = errors.New("too many")
			}
			for i := uint64(0); err == nil && i < n; i++ {
				var t Tup
				t.C, err = decPoint(r)
				if err == nil {
					t.S, err = decInt(r)
				}
				p.T = append(p.T, t)
			}
		}
		if err != nil {
			return nil, err
		}
	}
	return p, nil
}

// toPf reads the fields of a real proof.
func toPf(k string, real interface{}) *Pf {
	P, S := map[string]z.ECPoint{}, map[string]*big.Int{}
	pf := &Pf{P: P, S: S}
	switch p := real.(type) {
	case *z.GSPFSProof:
		P["Base"], P["T"], S["s"], S["c"] = p.Base, p.RandCommit, p.HiddenValue, p.Challenge
	case *z.EquivalenceProof:
		P["T1"], P["T2"], S["s"], S["c"] = p.UG, p.UH, p.HiddenValue, p.Challenge
	case *z.DisjunctiveProof:
		P["T1"], P["T2"] = p.T1, p.T2
		S["c"], S["c1"], S["c2"], S["s1"], S["s2"] = p.C, p.C1, p.C2, p.S1, p.S2
	case *z.ConsistencyProof:
		P["T1"], P["T2"] = p.T1, p.T2
		S["c"], S["s1"], S["s2"] = p.Challenge, p.S1, p.S2
	case *z.ABCProof:
		// the responses and the inner proof are only visible in the encoding
		q, err := decode("abc", p.Bytes())
		if err != nil {
			return nil
		}
		// the exported fields must say the same
		q.P["B"], q.P["C"], q.P["T1"], q.P["T2"], q.P["CToken"], q.S["c"] = p.B, p.C, p.T1, p.T2, p.CToken, p.Challenge
		return q
	case *z.InequalityProof:
		return toPf("abc", (*z.ABCProof)(p))
	case *z.RangeProof:
		P["Agg"], S["e"] = p.ProofAggregate, p.ProofE
		for _, t := range p.ProofTuples {
			pf.T = append(pf.T, Tup{t.C, t.S})
		}
	default:
		fatal("toPf %T", real)
	}
	return pf.clone()
}

var rangeTemplate *z.RangeProof

// fromPf makes a real proof with these fields.
func fromPf(k string, p *Pf) (interface{}, error) {
	P, S := p.P, p.S
	switch k {
	case "gspfs":
		return &z.GSPFSProof{Base: P["Base"], RandCommit: P["T"], HiddenValue: S["s"], Challenge: S["c"]}, nil
	case "eq":
		return &z.EquivalenceProof{UG: P["T1"], UH: P["T2"], HiddenValue: S["s"], Challenge: S["c"]}, nil
	case "disj":
		return &z.DisjunctiveProof{T1: P["T1"], T2: P["T2"], C: S["c"], C1: S["c1"], C2: S["c2"], S1: S["s1"], S2: S["s2"]}, nil
	case "cons":
		return &z.ConsistencyProof{T1: P["T1"], T2: P["T2"], Challenge: S["c"], S1: S["s1"], S2: S["s2"]}, nil
	case "abc", "ineq":
		q := p
		if _, ok := p.P["CToken"]; !ok {
			q = p.clone()
			q.P["CToken"] = zero()
		}
		a, err := z.NewABCProofFromBytes(q.encode("abc"))
		if err != nil {
			return nil, err
		}
		if k == "ineq" {
			return (*z.InequalityProof)(a), nil
		}
		return a, nil
	case "range":
		if rangeTemplate == nil {
			t, _, err := z.NewRangeProof(z.TestCurve, bi(5))
			if err != nil {
				return nil, err
			}
			rangeTemplate = t
		}
		r := &z.RangeProof{ProofAggregate: P["Agg"], ProofE: S["e"]}
		for i, t := range p.T {
			r.ProofTuples = append(r.ProofTuples, rangeTemplate.ProofTuples[0])
			r.ProofTuples[i].C = t.C
			r.ProofTuples[i].S = t.S
		}
		return r, nil
	}
	fatal("fromPf %s", k)
	return nil, nil
}

// verifyReal calls the real verifier and names the outcome.
func verifyReal(e *env, k string, st St, real interface{}) string {
	var ok bool
	var err error
	o := guard(func() {
		switch p := real.(type) {
		case *z.GSPFSProof:
			ok, err = p.Verify(e.zp, st["A"])
		case *z.EquivalenceProof:
			ok, err = p.Verify(e.zp, st["B1"], st["R1"], st["B2"], st["R2"])
		case *z.DisjunctiveProof:
			ok, err = p.Verify(e.zp, st["B1"], st["R1"], st["B2"], st["R2"])
		case *z.ConsistencyProof:
			ok, err = p.Verify(e.zp, st["CM"], st["CT"], st["PK"])
		case *z.ABCProof:
			ok, err = p.Verify(e.zp, st["CM"], st["CT"])
		case *z.InequalityProof:
			ok, err = p.Verify(e.zp, st["CM"], st["CT"])
		case *z.RangeProof:
			ok, err = p.Verify(e.zp, st["CM"])
		default:
			fatal("verify %T", real)
		}
	})
	if o != "ok" {
		return o
	}
	return verdict(ok, err)
}

func verdict(ok bool, err error) string {
	switch {
	case ok && err == nil:
		return "accept"
	case !ok && err != nil:
		return "reject"
	case ok:
		return "accept-with-error"
	}
	return "reject-without-error"
}

func verifyPf(e *env, k string, st St, p *Pf) string {
	var real interface{}
	var err error
	if o := guard(func() { real, err = fromPf(k, p) }); o != "ok" {
		return o
	}
	if err != nil {
		return "undecodable"
	}
	return verifyReal(e, k, st, real)
}

// Callers may use the same variables for one call after the other.  reuseInt
// and reusePt keep one object per slot and give it the new value; results of
// earlier calls that share it must not be looked at any more.
var reused = map[string]*big.Int{}

func reuseInt(slot string, v *big.Int) *big.Int {
	if v == nil {
		return nil
	}
	if reused[slot] == nil {
		reused[slot] = new(big.Int)
	}
	return reused[slot].Set(v)
}

// old gives the value in a variable that may have held another value before.
func old(slot string, v *big.Int) *big.Int {
	if rng.Intn(2) == 0 {
		return cp(v)
	}
	return reuseInt("old."+slot, v)
}

var reusedBytes = map[string][]byte{}

// oldBytes gives the bytes in a buffer that may have held others before.
func oldBytes(slot string, b []byte) []byte {
	if rng.Intn(2) == 0 {
		return append([]byte{}, b...)
	}
	if cap(reusedBytes[slot]) < len(b) || reusedBytes[slot] == nil {
		reusedBytes[slot] = make([]byte, max(2*len(b), 128))
	}
	k := reusedBytes[slot][:len(b)]
	copy(k, b)
	return k
}

func reusePt(slot string, p z.ECPoint) z.ECPoint {
	return z.ECPoint{X: reuseInt(slot+".x", p.X), Y: reuseInt(slot+".y", p.Y)}
}

func reuseSt(slot string, st St) St {
	r := St{}
	for n, p := range st {
		r[n] = reusePt(slot+n, p)
	}
	return r
}

func (p *Pf) reuse(slot string) *Pf {
	if p == nil {
		return nil
	}
	r := newPf()
	for n, v := range p.P {
		r.P[n] = reusePt(slot+n, v)
	}
	for n, v := range p.S {
		r.S[n] = reuseInt(slot+"s"+n, v)
	}
	for i, t := range p.T {
		r.T = append(r.T, t)
		r.T[i].C, r.T[i].S = reusePt(fmt.Sprint(slot, "t", i), t.C), reuseInt(fmt.Sprint(slot, "ts", i), t.S)
	}
	r.D = p.D.reuse(slot + "D.")
	return r
}

var keptProofs = map[string]interface{}{}

// keptProof returns the proof in an object that held other proofs before.
func keptProof(k string, real interface{}) interface{} {
	old, ok := keptProofs[k]
	if !ok {
		keptProofs[k] = real
		return real
	}
	switch p := real.(type) {
	case *z.GSPFSProof:
		*old.(*z.GSPFSProof) = *p
	case *z.EquivalenceProof:
		*old.(*z.EquivalenceProof) = *p
	case *z.DisjunctiveProof:
		*old.(*z.DisjunctiveProof) = *p
	case *z.ConsistencyProof:
		*old.(*z.ConsistencyProof) = *p
	case *z.ABCProof:
		*old.(*z.ABCProof) = *p
	case *z.InequalityProof:
		*old.(*z.InequalityProof) = *p
	case *z.RangeProof:
		*old.(*z.RangeProof) = *p
	default:
		return real
	}
	return old
}

// verifyPfReuse is verifyPf with all objects used before for something else.
func verifyPfReuse(e *env, k string, st St, p *Pf) string {
	var real interface{}
	var err error
	if o := guard(func() { real, err = fromPf(k, p.reuse("pf."+k)) }); o != "ok" {
		return o
	}
	if err != nil {
		return "undecodable"
	}
	return verifyReal(e, k, reuseSt("st."+k, st), keptProof(k, real))
}

// W is a witness.
type W struct {
	Base z.ECPoint // gspfs
	S    map[string]*big.Int
	Side int
}

func (w W) ev() M {
	m := M{"side": w.Side}
	if w.Base.X != nil {
		m["Base"] = pt(w.Base)
	}
	for k, v := range w.S {
		m[k] = hx(v)
	}
	return m
}

// prove calls the real prover. res: "proof", "error", "proof-with-error", "nothing", "panic".
func prove(e *env, k string, st St, w W) (real interface{}, extra *big.Int, res string) {
	var err error
	isNil := false
	o := guard(func() {
		switch k {
		case "gspfs":
			var p *z.GSPFSProof
			if same(w.Base, e.zp.G) && w.Side == 0 {
				p, err = z.NewGSPFSProof(e.zp, st["A"], w.S["x"])
			} else {
				p, err = z.NewGSPFSProofBase(e.zp, w.Base, st["A"], w.S["x"])
			}
			real, isNil = p, p == nil
		case "eq":
			var p *z.EquivalenceProof
			p, err = z.NewEquivalenceProof(e.zp, st["B1"], st["R1"], st["B2"], st["R2"], w.S["x"])
			real, isNil = p, p == nil
		case "disj":
			var p *z.DisjunctiveProof
			p, err = z.NewDisjunctiveProof(e.zp, st["B1"], st["R1"], st["B2"], st["R2"], w.S["x"], z.Side(w.Side))
			real, isNil = p, p == nil
		case "cons":
			var p *z.ConsistencyProof
			p, err = z.NewConsistencyProof(e.zp, st["CM"], st["CT"], st["PK"], w.S["v"], w.S["r"])
			real, isNil = p, p == nil
		case "abc":
			var p *z.ABCProof
			p, err = z.NewABCProof(e.zp, st["CM"], st["CT"], w.S["v"], w.S["sk"], z.Side(w.Side))
			real, isNil = p, p == nil
		case "ineq":
			var p *z.InequalityProof
			p, err = z.NewInequalityProof(e.zp, st["A"], st["B"], st["TA"], st["TB"], w.S["a"], w.S["b"], w.S["sk"])
			real, isNil = p, p == nil
		case "range":
			var p *z.RangeProof
			p, extra, err = z.NewRangeProof(e.zp, w.S["v"])
			real, isNil = p, p == nil
		default:
			fatal("prove %s", k)
		}
	})
	switch {
	case o != "ok":
		return nil, nil, o
	case err != nil && isNil:
		return nil, nil, "error"
	case err != nil:
		return real, nil, "proof-with-error"
	case isNil:
		return nil, nil, "nothing"
	}
	return real, extra, "proof"
}
