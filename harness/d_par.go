package main

import (
	"bufio"
	"bytes"
	"crypto/elliptic"
	"encoding/json"
	"math/big"
	"os"
	"runtime"
	"sort"
	"strconv"
	"sync"
	"time"

	z "github.com/mit-dci/zksigma"
)

func init() {
	drivers["par"] = dPar
}

func goid() int {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	f := bytes.Fields(b[:n])
	id, _ := strconv.Atoi(string(f[1]))
	return id
}

type waiter struct {
	id, seq int
	ch      chan struct{}
}

// gate is a curve whose operations wait until the scheduler lets them go on,
// one at a time: it forces the schedule of the goroutines that use it.
type gate struct {
	elliptic.Curve
	mu      sync.Mutex
	waiting []*waiter
	seq     int
	hist    []int // goroutine of every operation in the order of arrival; 0: the call returned
	stop    bool
	open    bool
	choose  func(ws []*waiter) int
	done    chan struct{}
}

func (g *gate) enter() {
	g.mu.Lock()
	if g.open {
		g.mu.Unlock()
		return
	}
	w := &waiter{id: goid(), seq: g.seq, ch: make(chan struct{})}
	g.seq++
	g.hist = append(g.hist, w.id)
	g.waiting = append(g.waiting, w)
	g.mu.Unlock()
	<-w.ch
}

func (g *gate) Add(a, b, c, d *big.Int) (*big.Int, *big.Int) {
	g.enter()
	return g.Curve.Add(a, b, c, d)
}
func (g *gate) Double(a, b *big.Int) (*big.Int, *big.Int) { g.enter(); return g.Curve.Double(a, b) }
func (g *gate) ScalarMult(a, b *big.Int, k []byte) (*big.Int, *big.Int) {
	g.enter()
	return g.Curve.ScalarMult(a, b, k)
}
func (g *gate) ScalarBaseMult(k []byte) (*big.Int, *big.Int) {
	g.enter()
	return g.Curve.ScalarBaseMult(k)
}
func (g *gate) IsOnCurve(a, b *big.Int) bool { g.enter(); return g.Curve.IsOnCurve(a, b) }

// run lets one operation go on whenever nothing else moves.
func (g *gate) run() {
	defer close(g.done)
	last, quiet := -1, 0
	for {
		g.mu.Lock()
		if g.stop && len(g.waiting) == 0 {
			g.mu.Unlock()
			return
		}
		if g.seq != last {
			last, quiet = g.seq, 0
		} else {
			quiet++
		}
		if quiet >= 2 && len(g.waiting) > 0 {
			i := g.choose(g.waiting)
			w := g.waiting[i]
			g.waiting = append(g.waiting[:i], g.waiting[i+1:]...)
			quiet = 0
			close(w.ch)
		}
		g.mu.Unlock()
		runtime.Gosched()
		if quiet > 0 {
			time.Sleep(5 * time.Microsecond)
		}
	}
}

// strategy returns a rule for who goes on.
func strategy(name string, sched []int) func(ws []*waiter) int {
	byID := func(ws []*waiter, less func(a, b *waiter) bool) int {
		b := 0
		for i := range ws {
			if less(ws[i], ws[b]) {
				b = i
			}
		}
		return b
	}
	r := rng.Int63()
	pos := 0
	starve := 0
	switch name {
	case "first": // the oldest goroutine runs to its end
		return func(ws []*waiter) int { return byID(ws, func(a, b *waiter) bool { return a.id < b.id }) }
	case "last": // the youngest goroutine runs to its end
		return func(ws []*waiter) int { return byID(ws, func(a, b *waiter) bool { return a.id > b.id }) }
	case "fifo":
		return func(ws []*waiter) int { return byID(ws, func(a, b *waiter) bool { return a.seq < b.seq }) }
	case "lifo":
		return func(ws []*waiter) int { return byID(ws, func(a, b *waiter) bool { return a.seq > b.seq }) }
	case "starve": // one goroutine goes on only when nothing else can
		return func(ws []*waiter) int {
			if starve == 0 && len(ws) > 5 {
				starve = ws[int(r%int64(len(ws)))].id
			}
			return byID(ws, func(a, b *waiter) bool {
				if (a.id == starve) != (b.id == starve) {
					return b.id == starve
				}
				return a.seq < b.seq
			})
		}
	case "sched": // as the model's behaviour says: workers are numbered by their creation
		ids := map[int]bool{}
		return func(ws []*waiter) int {
			for _, w := range ws {
				ids[w.id] = true
			}
			var l []int
			for id := range ids {
				l = append(l, id)
			}
			sort.Ints(l)
			rank := map[int]int{}
			for i, id := range l {
				rank[id] = i // 0 is the caller
			}
			for ; pos < len(sched); pos++ {
				for i, w := range ws {
					if rank[w.id] == sched[pos] {
						pos++
						return i
					}
				}
			}
			pos = 0
			return 0
		}
	}
	s := uint64(r) | 1
	return func(ws []*waiter) int {
		s ^= s << 13
		s ^= s >> 7
		s ^= s << 17
		return int(s % uint64(len(ws)))
	}
}

func goroutines(want int) int {
	for i := 0; i < 2000; i++ {
		if n := runtime.NumGoroutine(); n <= want {
			return 0
		}
		time.Sleep(10 * time.Millisecond)
	}
	return runtime.NumGoroutine() - want
}

// gated runs f with a copy of e whose curve is scheduled, and records the history.
func gated(e *env, how string, sched []int, what string, fail bool, f func(e *env) string) bool {
	g := &gate{Curve: e.zp.C, done: make(chan struct{}), choose: strategy(how, sched)}
	ge := *e
	ge.zp.C = g
	before := runtime.NumGoroutine()
	go g.run()
	res := "hang"
	ret := make(chan string, 1)
	go func() {
		var r string
		if o := guard(func() { r = f(&ge) }); o != "ok" {
			r = o
		}
		g.mu.Lock()
		g.hist = append(g.hist, 0)
		g.mu.Unlock()
		ret <- r
	}()
	select {
	case res = <-ret:
	case <-time.After(180 * time.Second):
	}
	// what still runs is let go on for a while, then let go altogether
	time.Sleep(3 * time.Millisecond)
	g.mu.Lock()
	g.stop = true
	g.mu.Unlock()
	if res != "hang" {
		<-g.done
	}
	g.mu.Lock()
	g.open = true
	hist := append([]int{}, g.hist...)
	g.mu.Unlock()
	rank := map[int]int{0: 0}
	for i, id := range hist {
		if _, ok := rank[id]; !ok {
			rank[id] = len(rank)
		}
		hist[i] = rank[id]
	}
	leak := -1
	if res != "hang" {
		leak = goroutines(before)
	}
	emit(M{"op": "par", "what": what, "how": how, "res": res, "fail": bool2(fail), "leak": leak, "hist": hist})
	if leak > 0 {
		leaks++
	}
	return res != "hang" && leaks < 2 // each takes long to be sure of
}

var leaks int

// par <env> <n> <behaviours>: range proofs under forced schedules
func dPar(a []string) {
	e := envByName(a[0])
	n := atoi(a[1])
	var scheds [][]int
	if len(a) > 2 {
		f, err := os.Open(a[2])
		if err != nil {
			fatal("%v", err)
		}
		sc := bufio.NewScanner(f)
		sc.Buffer(make([]byte, 1<<20), 1<<20)
		for sc.Scan() {
			var b struct{ Sched []int }
			if err := json.Unmarshal(sc.Bytes(), &b); err != nil {
				fatal("behaviour: %v", err)
			}
			scheds = append(scheds, b.Sched)
		}
		f.Close()
	}
	rot := rng.Int63n(17)
	hows := []string{"sched", "random", "first", "last", "fifo", "lifo", "starve", "random"}
	pow := make([]z.ECPoint, 64)
	for i := range pow {
		pow[i] = e.mul(e.zp.G, pow2(uint(i)))
	}
	for it := 0; it < n; it++ {
		how := hows[it%len(hows)]
		var sched []int
		if how == "sched" {
			if len(scheds) == 0 {
				how = "random"
			} else {
				sched = scheds[it/len(hows)%len(scheds)]
			}
		}
		// make one
		_, w := instance(e, "range", points(e, 3), scalars(e.N(), 10))
		note("range proof of %s, schedule %s", hx(w.S["v"]), how)
		var real interface{}
		var extra *big.Int
		var res string
		if !gated(e, how, sched, "prove", false, func(ge *env) string {
			real, extra, res = prove(ge, "range", nil, w)
			return "done"
		}) {
			return
		}
		m := e.hdr(M{"op": "prove", "k": "range", "st": M{}, "w": w.ev(), "res": res, "ver": "none", "full": 0, "rand": "0"})
		if extra != nil {
			m["rand"] = hx(extra)
		}
		var pf *Pf
		var vst St
		if real != nil {
			vst = verifierSt(e, "range", nil, real)
			m["ver"] = verifyReal(e, "range", vst, real)
			if o := guard(func() { pf = toPf("range", real) }); o == "ok" && pf != nil && res == "proof" {
				m["pf"], m["full"] = pf.ev(), 1
			}
		}
		emit(m)
		// and verify it, and variations of it
		if pf == nil || m["full"] == 0 {
			continue
		}
		for v := 0; v < 5; v++ {
			p, st := pf.clone(), vst.clone()
			what := "honest"
			switch v {
			case 1:
				i := rng.Intn(40)
				what = "scalar changed"
				p.T[i].S = e.modN(addi(p.T[i].S, 1))
			case 2, 4:
				i := rng.Intn(40)
				menu := (it*2 + v/2 - 1 + int(rot)) % 17
				switch menu {
				case 0:
					what = "nil scalar"
					p.T[i].S = nil
				case 1:
					what = "nil point"
					p.T[i].C = z.ECPoint{}
				case 2:
					what = "short"
					p.T = p.T[:39]
				case 3:
					what = "other commitment"
					st["CM"] = e.add(st["CM"], e.zp.G)
				case 4:
					what = "off the curve"
					p.T[i].C = offCurve(e)
				case 5:
					what = "aggregate changed"
					p.P["Agg"] = e.add(p.P["Agg"], e.zp.H)
				case 6:
					what = "one commitment at infinity"
					p.T[i].C = z.Zero
				case 7:
					what = "all commitments at infinity"
					for j := range p.T {
						p.T[j].C = z.Zero
					}
					if rng.Intn(2) == 0 {
						p.P["Agg"], st["CM"] = z.Zero, z.Zero
					}
				case 8:
					what = "commitments without randomness"
					for j := range p.T {
						if j == i || rng.Intn(2) == 0 {
							p.T[j].C = pow[j]
						}
					}
				case 9:
					what = "answers zero"
					for j := range p.T {
						if j == i || rng.Intn(2) == 0 {
							p.T[j].S = big.NewInt(0)
						}
					}
				case 10:
					what = "challenge zero"
					p.S["e"] = big.NewInt(0)
				case 11:
					what = "challenge changed"
					p.S["e"] = e.modN(addi(p.S["e"], 1))
				case 12:
					what = "long"
					p.T = append(p.T, p.T[i])
				case 13:
					what = "empty"
					p.T = p.T[:0]
				case 14:
					what = "answer large"
					p.T[i].S = new(big.Int).Lsh(p.T[i].S, 700)
				case 15:
					what = "answers negative"
					for j := range p.T {
						p.T[j].S = sub(p.T[j].S, e.N())
					}
				default:
					what = "many faults"
					for j := range p.T {
						switch rng.Intn(3) {
						case 0:
							p.T[j].C = z.Zero
						case 1:
							p.T[j].S = big.NewInt(0)
						}
					}
				}
			case 3:
				// two commitments exchanged with their answers, the sum kept
				i, j := rng.Intn(20), 20+rng.Intn(20)
				what = "exchanged"
				p.T[i], p.T[j] = p.T[j], p.T[i]
			}
			note("verify a range proof (%s), schedule %s", what, how)
			var ver string
			if !gated(e, how, sched, "verify", false, func(ge *env) string {
				ver = verifyPf(ge, "range", st.clone(), p.clone())
				return "done"
			}) {
				return
			}
			vm := e.hdr(M{"op": "verify", "k": "range", "st": st.ev(), "pf": p.ev(), "what": what, "exact": bool2(canonPf(e.N(), p)), "ver": ver})
			emit(vm)
		}
		// the entropy source fails somewhere
		for v := 0; v < 2; v++ {
			ent := newCounted(rng.Int63())
			per := (e.N().BitLen() + 7) / 8
			// at least 80 scalars are drawn
			ent.fail, ent.how = rng.Intn(80*per), []string{"err", "eof", "short"}[rng.Intn(3)]
			note("range proof, entropy fails at %d, schedule %s", ent.fail, how)
			ok := true
			withReader(ent, func() {
				ok = gated(e, how, sched, "prove", true, func(ge *env) string {
					_, _, res := prove(ge, "range", nil, w)
					if res == "proof-with-error" {
						res = "error"
					}
					return res
				})
			})
			if !ok {
				return
			}
		}
	}
}
