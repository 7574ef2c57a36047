// Command vh drives the real zksigma code and records what it did, one JSON
// event per line.  It decides nothing: the TLA+ trace specifications do.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/big"
	mrand "math/rand"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"

	z "github.com/mit-dci/zksigma"
)

// M is one event (or a part of one).
type M map[string]interface{}

var (
	outMu     sync.Mutex
	out       *bufio.Writer
	outFile   *os.File
	nEvents   int
	journal   *os.File
	lastFlush       = time.Now()
	seed      int64 = 1
	thorough  bool
	rng       *mrand.Rand
	scale     = 1
)

func emit(m M) {
	b, err := json.Marshal(m)
	if err != nil {
		fatal("marshal: %v", err)
	}
	outMu.Lock()
	out.Write(b)
	out.WriteByte('\n')
	nEvents++
	if time.Since(lastFlush) > time.Second { // shows that the driver is alive
		out.Flush()
		lastFlush = time.Now()
	}
	outMu.Unlock()
	turn()
}

// note records what is about to be done, in case the process does not survive it.
func note(format string, args ...interface{}) {
	if journal != nil {
		outMu.Lock()
		out.Flush()
		journal.Truncate(0)
		journal.WriteAt([]byte(fmt.Sprintf(format, args...)), 0)
		outMu.Unlock()
	}
}

func fatal(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "HARNESS-ERROR: "+format+"\n", args...)
	os.Exit(3)
}

// guard runs f and reports a panic as an outcome.
func guard(f func()) (outcome string) {
	defer func() {
		if r := recover(); r != nil {
			if os.Getenv("VH_TRACE") != "" {
				buf := make([]byte, 4096)
				fmt.Fprintf(os.Stderr, "panic: %v\n%s\n", r, buf[:runtime.Stack(buf, false)])
			}
			outcome = "panic"
		}
	}()
	f()
	return "ok"
}

// within runs f with a time limit (for calls that might never return).
func within(d time.Duration, f func()) string {
	done := make(chan string, 1)
	go func() { done <- guard(f) }()
	select {
	case o := <-done:
		return o
	case <-time.After(d):
		return "hang"
	}
}

func hx(b *big.Int) string {
	if b == nil {
		return "nil"
	}
	return b.Text(16)
}

func pt(p z.ECPoint) []string { return []string{hx(p.X), hx(p.Y)} }

func hb(b []byte) string { return fmt.Sprintf("%x", b) }

func seqOfBytes(b []byte) []int {
	r := make([]int, len(b))
	for i, x := range b {
		r[i] = int(x)
	}
	return r
}

func bi(i int64) *big.Int { return big.NewInt(i) }

func bhex(s string) *big.Int {
	v, ok := new(big.Int).SetString(s, 16)
	if !ok {
		fatal("bad hex %s", s)
	}
	return v
}

func cp(b *big.Int) *big.Int {
	if b == nil {
		return nil
	}
	return new(big.Int).Set(b)
}

func cpp(p z.ECPoint) z.ECPoint { return z.ECPoint{X: cp(p.X), Y: cp(p.Y)} }

func bool2(b bool) int {
	if b {
		return 1
	}
	return 0
}

type driver func(args []string)

var drivers = map[string]driver{}

func main() {
	if len(os.Args) < 3 {
		fatal("usage: vh <driver> <out> [args]")
	}
	if s := os.Getenv("VERIF_SEED"); s != "" {
		v, err := strconv.ParseInt(s, 10, 64)
		if err == nil {
			seed = v
		}
	}
	thorough = os.Getenv("VH_TIER") == "thorough"
	if thorough {
		scale = 6
	}
	d, ok := drivers[os.Args[1]]
	if !ok {
		var names []string
		for n := range drivers {
			names = append(names, n)
		}
		fatal("unknown driver %s (have %s)", os.Args[1], strings.Join(names, " "))
	}
	h := int64(0)
	for _, a := range append([]string{os.Args[1]}, os.Args[3:]...) {
		for _, ch := range a {
			h = h*131 + int64(ch)
		}
		h = h*131 + 7
	}
	rng = mrand.New(mrand.NewSource(seed*1000003 + h))
	var err error
	outFile, err = os.Create(os.Args[2])
	if err != nil {
		fatal("%v", err)
	}
	out = bufio.NewWriterSize(outFile, 1<<16)
	journal, err = os.Create(os.Args[2] + ".journal")
	if err != nil {
		fatal("%v", err)
	}
	d(os.Args[3:])
	out.Flush()
	outFile.Close()
	journal.Close()
	os.Remove(os.Args[2] + ".journal")
}
