package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/big"
	"os"

	z "github.com/mit-dci/zksigma"
)

func init() {
	drivers["ledger"] = dLedger
}

type step struct {
	Do       string
	A        []int
	P, P2, D int
	I, J     int
}

type ledEntry struct {
	cm, ct z.ECPoint
	v, r   *big.Int
	cons   *z.ConsistencyProof
}

type auditDone struct {
	pf *z.EquivalenceProof
	t  *big.Int
	at int
}

// person is a participant, as the program that uses the library keeps it.
type person struct {
	sk      *big.Int
	pk      z.ECPoint
	entries []ledEntry
	cm, ct  []z.ECPoint // sums after 0, 1, ... transactions
	tv, tr  []*big.Int  // totals, plain integers
	last    *auditDone
}

func (p *person) n() int { return len(p.cm) - 1 }

// ledger <env> <behaviours> <n> <seed>: histories of MCLedger.tla on the real code
func dLedger(a []string) {
	e := envByName(a[0])
	f, err := os.Open(a[1])
	if err != nil {
		fatal("%v", err)
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	var all [][]step
	for sc.Scan() {
		var b struct{ Hist []step }
		if err := json.Unmarshal(sc.Bytes(), &b); err != nil {
			fatal("behaviour: %v", err)
		}
		all = append(all, b.Hist)
	}
	off := rng.Intn(len(all))
	for i := 0; i < atoi(a[2]); i++ {
		h := all[(off+i)%len(all)]
		if o := guard(func() { runLedger(e, h) }); o != "ok" {
			emit(M{"op": "panic", "hist": fmt.Sprint(h)})
		}
	}
}

func amount(e *env, code int, p *person) *big.Int {
	N := e.N()
	switch code {
	case 0:
		return bi(0)
	case 1:
		return bi(1)
	case 2:
		return rnd(40)
	case 3:
		return new(big.Int).Neg(rnd(1 + rng.Intn(64)))
	case 4:
		return addi(N, -1)
	case 5:
		return addi(N, int64(rng.Intn(1000)))
	case 6: // back to a total of zero
		return new(big.Int).Neg(p.tv[p.n()])
	}
	return rndN(N)
}

func claim(e *env, code int, p, other *person) *big.Int {
	N := e.N()
	t := e.modN(p.tv[p.n()])
	switch code {
	case 0:
		return t
	case 1:
		return add(t, N)
	case 2:
		return sub(t, mul(N, bi(2)))
	case 3:
		return addi(t, 1)
	case 4:
		return new(big.Int).Neg(t)
	case 5:
		if p.n() > 0 {
			return cp(p.tv[p.n()-1])
		}
		return cp(t)
	case 6:
		return cp(other.tv[other.n()])
	}
	return bi(0)
}

func auditSt(e *env, p *person, at int, t *big.Int) St {
	return St{"B1": e.zp.Sub(p.cm[at], e.zp.Mult(e.zp.G, t)), "R1": p.ct[at], "B2": e.zp.H, "R2": p.pk}
}

func runLedger(e *env, hist []step) {
	N := e.N()
	var ps []*person
	var sks []string
	var pks [][]string
	for i := 0; i < 3; i++ {
		p := &person{cm: []z.ECPoint{z.Zero}, ct: []z.ECPoint{z.Zero}, tv: []*big.Int{bi(0)}, tr: []*big.Int{bi(0)}}
		if rng.Intn(3) == 0 {
			p.sk = []*big.Int{bi(1), bi(2), addi(N, -1), addi(N, 7), bi(-5)}[rng.Intn(5)]
			p.pk = e.zp.Mult(e.zp.H, p.sk)
		} else {
			p.pk, p.sk = z.KeyGen(e.zp.C, e.zp.H)
		}
		ps = append(ps, p)
		sks, pks = append(sks, hx(p.sk)), append(pks, pt(p.pk))
	}
	emit(e.hdr(M{"op": "open", "sk": sks, "pk": pks}))
	for _, s := range hist {
		note("%v of %v", s, hist)
		switch s.Do {
		case "post":
			var ents, sums []M
			res := "ok"
			for i, p := range ps {
				v := amount(e, s.A[i], p)
				var en ledEntry
				var err error
				if rng.Intn(3) == 0 {
					r := []*big.Int{bi(0), bi(1), new(big.Int).Neg(rndN(N)), add(N, rndN(N)), rndN(N)}[rng.Intn(5)]
					en = ledEntry{cm: z.PedCommitR(e.zp, v, r), v: v, r: r}
				} else {
					en.v = v
					en.cm, en.r, err = z.PedCommit(e.zp, v)
					if err != nil {
						res = "error"
						break
					}
				}
				en.ct = z.CommitR(e.zp, p.pk, en.r)
				ent := M{"v": hx(en.v), "r": hx(en.r), "CM": pt(en.cm), "CT": pt(en.ct), "cons": "error", "ver": "none"}
				en.cons, err = z.NewConsistencyProof(e.zp, en.cm, en.ct, p.pk, en.v, en.r)
				if err == nil && en.cons != nil {
					ent["cons"] = "proof"
					ent["ver"] = verdictOf(en.cons.Verify(e.zp, en.cm, en.ct, p.pk))
				}
				p.entries = append(p.entries, en)
				k := p.n()
				p.cm = append(p.cm, e.zp.Add(p.cm[k], en.cm))
				p.ct = append(p.ct, e.zp.Add(p.ct[k], en.ct))
				p.tv = append(p.tv, add(p.tv[k], en.v))
				p.tr = append(p.tr, add(p.tr[k], en.r))
				opens := z.Open(e.zp, p.tv[k+1], p.tr[k+1], p.cm[k+1]) && z.VerifyR(e.zp, p.ct[k+1], p.pk, p.tr[k+1])
				ents = append(ents, ent)
				sums = append(sums, M{"CM": pt(p.cm[k+1]), "CT": pt(p.ct[k+1]), "opens": bool2(opens)})
			}
			emit(e.hdr(M{"op": "post", "res": res, "entries": ents, "sums": sums}))
			if res != "ok" {
				return
			}
		case "audit":
			p := ps[s.P-1]
			t := claim(e, s.D, p, ps[s.P%len(ps)])
			st := auditSt(e, p, p.n(), t)
			pf, err := z.NewEquivalenceProof(e.zp, st["B1"], st["R1"], st["B2"], st["R2"], p.sk)
			m := e.hdr(M{"op": "audit", "p": s.P, "t": hx(t), "res": "error", "ver": "none", "ver2": "none"})
			if err == nil && pf != nil {
				m["res"] = "proof"
				m["ver"] = verdictOf(pf.Verify(e.zp, st["B1"], st["R1"], st["B2"], st["R2"]))
				o := auditSt(e, p, p.n(), addi(t, 1))
				m["ver2"] = verdictOf(pf.Verify(e.zp, o["B1"], o["R1"], o["B2"], o["R2"]))
				p.last = &auditDone{pf, t, p.n()}
			}
			emit(m)
		case "forge":
			p := ps[s.P-1]
			t := claim(e, s.D, p, ps[s.P%len(ps)])
			st := auditSt(e, p, p.n(), t)
			own := ownProve(e, "eq", st, W{S: map[string]*big.Int{"x": p.sk}}, ownOpt{})
			emit(e.hdr(M{"op": "forge", "p": s.P, "t": hx(t), "ver": verifyPf(e, "eq", st, own)}))
		case "again":
			p := ps[s.P-1]
			if p.last == nil {
				continue
			}
			st := auditSt(e, p, p.n(), p.last.t)
			emit(e.hdr(M{"op": "again", "p": s.P, "at": p.last.at, "ver": verdictOf(p.last.pf.Verify(e.zp, st["B1"], st["R1"], st["B2"], st["R2"]))}))
		case "differ":
			p := ps[s.P-1]
			va, vb := cp(p.tv[s.I]), cp(p.tv[s.J])
			lie := 0
			switch s.D {
			case 1: // other representatives
				va, vb = e.modN(va), add(vb, N)
			case 2:
				if e.modN(sub(va, vb)).Sign() == 0 {
					lie, va = 1, addi(va, 1)
				}
			case 3:
				va, vb = sub(va, N), e.modN(vb)
			}
			pf, err := z.NewInequalityProof(e.zp, p.cm[s.I], p.cm[s.J], p.ct[s.I], p.ct[s.J], va, vb, p.sk)
			m := e.hdr(M{"op": "differ", "p": s.P, "i": s.I, "j": s.J, "lie": lie, "res": "error", "ver": "none"})
			if err == nil && pf != nil {
				m["res"] = "proof"
				m["ver"] = verdictOf(pf.Verify(e.zp, e.zp.Sub(p.cm[s.I], p.cm[s.J]), e.zp.Sub(p.ct[s.I], p.ct[s.J])))
			}
			emit(m)
		case "entry":
			p, p2 := ps[s.P-1], ps[s.P2-1]
			en, other := p.entries[s.I-1], p2.entries[s.J-1]
			if en.cons == nil {
				continue
			}
			emit(e.hdr(M{"op": "entry", "p": s.P, "i": s.I, "p2": s.P2, "j": s.J, "ver": verdictOf(en.cons.Verify(e.zp, other.cm, other.ct, p2.pk))}))
		}
	}
}

func verdictOf(ok bool, err error) string { return verdict(ok, err) }
