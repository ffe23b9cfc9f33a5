// C09: worker limits are honoured, all work terminates, no goroutine stays.
package main

import (
	"fmt"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"gkr-mimc/circuit"
	"gkr-mimc/common"
	"gkr-mimc/gkr"
	"gkr-mimc/polynomial"
	"gkr-mimc/sumcheck"

	"verif/gen"
	"verif/kit"
	"verif/ref"

	"github.com/consensys/gurvy/bn256/fr"
)

func main() {
	kit.Main(kit.Config{
		ID:      "C09",
		Rule:    "assignment, claim, sumcheck and GKR proving with every chunk count and 1..n workers, the gates instrumented to count evaluations in flight and to dwell at random so that an extra worker would be seen; after every call the goroutines with library frames are counted until none is left; a call that blocks is seen by the runtime's deadlock detector or the stall monitor. Semaphore histories of 2-12 goroutines are recorded as event logs and checked for more than n holders and lost permits. Non-trivial: distinct (operation, chunks, workers, processors) and semaphore histories",
		Require: []string{"assign", "claim", "sumcheck_prove", "gkr_prove", "limit_reached", "more_chunks_than_workers", "semaphore_histories", "semaphore_full", "semaphore_blocked_then_released", "table_ops", "calls_followed_to_quiescence", "many_chunks"},
	}, run)
}

// inflight counts concurrent gate evaluations.
type inflight struct {
	cur, max, events int64
	dwell            int64 // sleeps left
	mode             int
	seq              uint64
}

func (f *inflight) Enter(int) {
	n := atomic.AddInt64(&f.cur, 1)
	for {
		m := atomic.LoadInt64(&f.max)
		if n <= m || atomic.CompareAndSwapInt64(&f.max, m, n) {
			break
		}
	}
	e := atomic.AddInt64(&f.events, 1)
	switch f.mode {
	case 0:
		if atomic.AddInt64(&f.dwell, -1) >= 0 {
			time.Sleep(60 * time.Microsecond)
		}
	case 1: // spread over the whole call
		if e%17 == 0 && atomic.AddInt64(&f.dwell, -1) >= 0 {
			time.Sleep(150 * time.Microsecond)
		} else if e%3 == 0 {
			runtime.Gosched()
		}
	case 2: // dwell at pseudo-random evaluations
		x := atomic.AddUint64(&f.seq, 0x9e3779b97f4a7c15)
		x ^= x >> 29
		if x%5 == 0 && atomic.AddInt64(&f.dwell, -1) >= 0 {
			time.Sleep(time.Duration(x>>32%200) * time.Microsecond)
		}
	}
}

func (f *inflight) Leave() { atomic.AddInt64(&f.cur, -1) }

// libGoroutines lists the goroutines with library frames except the caller's.
func libGoroutines() []string {
	b := make([]byte, 1<<22)
	b = b[:runtime.Stack(b, true)]
	var res []string
	for i, g := range strings.Split(string(b), "\n\n") {
		if i > 0 && strings.Contains(g, "gkr-mimc/") {
			res = append(res, g)
		}
	}
	return res
}

// settle waits for the library's goroutines to end.
func settle(t *kit.T, base int, what string) {
	for i := 0; ; i++ {
		if runtime.NumGoroutine() <= base {
			t.Count("calls_followed_to_quiescence", 1)
			t.Eval(1)
			return
		}
		if i < 200 {
			runtime.Gosched()
			if i > 50 {
				time.Sleep(100 * time.Microsecond)
			}
			continue
		}
		g := libGoroutines()
		if len(g) == 0 {
			return
		}
		if i > 220 {
			// blocked, not merely slow? every one must be waiting
			waiting := true
			for _, x := range g {
				h := strings.SplitN(x, "\n", 2)[0]
				if strings.Contains(h, "running") || strings.Contains(h, "runnable") || strings.Contains(h, "sleep") {
					waiting = false
				}
			}
			if waiting && i > 300 {
				t.Fail("%s: %d goroutines of the library stay behind, for instance\n%s", what, len(g), g[0])
			}
		}
		time.Sleep(20 * time.Millisecond)
		if i > 3000 {
			panic("harness: goroutines keep running")
		}
	}
}

func (f *inflight) judge(t *kit.T, n, chunks int, what string) {
	if f.max > int64(n) {
		t.Fail("%s: %d gate evaluations at the same time", what, f.max)
	}
	if f.cur != 0 {
		t.Fail("%s: returned while %d gate evaluations were running", what, f.cur)
	}
	t.Eval(1)
	t.Count("gate_events", int(f.events))
	t.Max("in_flight", int(f.max))
	if int(f.max) == n && chunks > n {
		t.Count("limit_reached", 1)
	}
	if chunks > n {
		t.Count("more_chunks_than_workers", 1)
	}
}

func bkts(x [][]fr.Element) []polynomial.BookKeepingTable {
	r := make([]polynomial.BookKeepingTable, len(x))
	for i := range x {
		r[i] = polynomial.NewBookKeepingTable(kit.Clone(x[i]))
	}
	return r
}

func workers(g *kit.Rng, k int) int {
	return g.Workers(1 << k)
}

func run(r *kit.Run) {
	for i := 0; i < r.N(1000, 12000); i++ {
		r.Case(fmt.Sprintf("gkr/%d", i), func(t *kit.T) {
			g := t.Rng
			defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(g.Range(1, 8)))
			base := runtime.NumGoroutine()
			c := gen.Circuit(g, gen.Opts{MaxLayers: 3, MaxBG: g.Pick(0, 1, 1, 2), MaxWires: 4, Gates: gen.WithUser, Dense: g.Bool()})
			bN := g.Pick(0, 1, 2, 3, 4, 5, 6)
			k := g.Range(bN/2, bN)
			f := &inflight{mode: g.Intn(4), dwell: 120}
			rc := gen.Hooked(c, g.Bool(), f)
			n := workers(g, k)
			in := ref.Split(gen.Inputs(g, c, bN), 1<<k)
			what := fmt.Sprintf("Assign of 2^%d instances in %d chunks with %d workers", bN, 1<<k, n)
			a := rc.Assign(in, n)
			f.judge(t, n, 1<<k, what)
			settle(t, base, what)
			t.Count("assign", 1)
			t.Distinct("assign", bN, k, n, runtime.GOMAXPROCS(0), f.mode)
			n = workers(g, k)
			*f = inflight{mode: g.Intn(4), dwell: 120}
			what = fmt.Sprintf("Prove of 2^%d instances in %d chunks with %d workers", bN, 1<<k, n)
			p := gkr.NewProver(rc, a)
			p.Prove(n)
			f.judge(t, n, 1<<k, what)
			settle(t, base, what)
			t.Count("gkr_prove", 1)
			t.Distinct("prove", bN, k, n, runtime.GOMAXPROCS(0), f.mode)
			if i < 24 {
				t.Sample(map[string]interface{}{"case": t.Name, "call": what, "in_flight": f.max, "gate_events": f.events})
			}
		})
	}
	for i := 0; i < r.N(1000, 12000); i++ {
		r.Case(fmt.Sprintf("sumcheck/%d", i), func(t *kit.T) {
			g := t.Rng
			defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(g.Range(1, 8)))
			base := runtime.NumGoroutine()
			bG := g.Pick(0, 1, 1, 2)
			bN := g.Range(0, 6)
			k := g.Range(bN/2, bN)
			if i%100 == 50 { // very many chunks
				bG, bN = 0, 10
				k = g.Range(8, 10)
			}
			n := workers(g, k)
			f := &inflight{mode: g.Intn(4), dwell: 120}
			var gs []circuit.Gate
			var st [][]fr.Element
			for j := 0; j < g.Range(1, 3); j++ {
				gs = append(gs, gen.Gate(gen.RandGate(g, gen.WithUser)))
				st = append(st, g.Frs(1<<(2*bG)))
			}
			m := sumcheck.NewMultiThreadedProver(bkts(ref.Split(g.Frs(1<<(bG+bN)), 1<<k)), bkts(ref.Split(g.Frs(1<<(bG+bN)), 1<<k)),
				bkts(ref.Split(g.Frs(1<<bN), 1<<k)), gen.HookGates(gs, f), bkts(st))
			what := fmt.Sprintf("GetClaim over %d chunks with %d workers", 1<<k, n)
			m.GetClaim(n)
			f.judge(t, n, 1<<k, what)
			settle(t, base, what)
			t.Count("claim", 1)
			t.Distinct("claim", bG, bN, k, n, runtime.GOMAXPROCS(0), f.mode)
			n = workers(g, k)
			*f = inflight{mode: g.Intn(4), dwell: 120}
			what = fmt.Sprintf("sumcheck Prove over %d chunks with %d workers", 1<<k, n)
			m.Prove(n)
			f.judge(t, n, 1<<k, what)
			settle(t, base, what)
			t.Count("sumcheck_prove", 1)
			t.Distinct("sumcheck", bG, bN, k, n, runtime.GOMAXPROCS(0), f.mode)
		})
	}
	// many chunks (and workers)
	for i := 0; i < r.N(48, 400); i++ {
		r.Case(fmt.Sprintf("many/%d", i), func(t *kit.T) {
			g := t.Rng
			defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(g.Range(2, 8)))
			base := runtime.NumGoroutine()
			c := gen.Circuit(g, gen.Opts{MaxLayers: 2, MaxBG: g.Pick(0, 1), MaxWires: 3, Gates: gen.WithUser, Dense: g.Bool()})
			k := g.Pick(7, 8, 8, 9, 10)
			bN := k + g.Pick(0, 0, 1)
			f := &inflight{mode: g.Range(1, 3), dwell: 120}
			rc := gen.Hooked(c, g.Bool(), f)
			n := g.Pick(1, 2, 7, 8, 31, 64, 127, 128, 129, 200, 255, 256, 1000, 5000)
			in := ref.Split(gen.Inputs(g, c, bN), 1<<k)
			what := fmt.Sprintf("Assign of 2^%d instances in %d chunks with %d workers", bN, 1<<k, n)
			a := rc.Assign(in, n)
			f.judge(t, n, 1<<k, what)
			settle(t, base, what)
			t.Distinct("assign", bN, k, n)
			n = g.Pick(1, 2, 3, 7, 8, 31, 64, 127, 128, 129, 200, 255, 256, 1000, 5000)
			*f = inflight{mode: g.Range(1, 3), dwell: 120}
			what = fmt.Sprintf("Prove of 2^%d instances in %d chunks with %d workers", bN, 1<<k, n)
			p := gkr.NewProver(rc, a)
			p.Prove(n)
			f.judge(t, n, 1<<k, what)
			settle(t, base, what)
			t.Count("many_chunks", 2)
			t.Max("chunks", 1<<k)
			t.Distinct("prove", bN, k, n)
		})
	}
	// the table operations underneath: they end, and leave nothing behind
	for i := 0; i < r.N(120, 1000); i++ {
		r.Case(fmt.Sprintf("tables/%d", i), func(t *kit.T) {
			g := t.Rng
			base := runtime.NumGoroutine()
			size := g.Pick(0, 1, 2, 100, 4096, 4097, 8192, 12289, 20000)
			n := g.Workers(64)
			a, b := polynomial.NewBookKeepingTable(g.Frs(size)), polynomial.NewBookKeepingTable(g.Frs(size))
			var d polynomial.BookKeepingTable
			d.Sub(a, b, n)
			settle(t, base, fmt.Sprintf("Sub of size %d with %d workers", size, n))
			d.Mul(g.Fr(), a, n)
			settle(t, base, fmt.Sprintf("Mul of size %d with %d workers", size, n))
			bN := g.Pick(0, 3, 13)
			k := g.Range(0, g.Pick(0, bN, bN))
			if k > 6 {
				k = 6
			}
			polynomial.GetChunkedEqTable(g.Frs(bN), 1<<k, n)
			settle(t, base, fmt.Sprintf("GetChunkedEqTable of 2^%d in %d chunks with %d workers", bN, 1<<k, n))
			as := circuit.Assignment{Values: [][][]fr.Element{ref.Split(g.Frs(64), 1<<g.Range(0, 6))}}
			as.LayerAsBKTWithCopy(0, n)
			settle(t, base, "LayerAsBKTWithCopy")
			t.Count("table_ops", 4)
			t.Distinct("tables", size, n, bN, k)
		})
	}
	for i := 0; i < r.N(600, 8000); i++ {
		r.Case(fmt.Sprintf("semaphore/%d", i), semaphore)
	}
}

// semaphore records a history and checks it offline.
func semaphore(t *kit.T) {
	g := t.Rng
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(g.Range(1, 8)))
	n := g.Range(1, 16)
	m := g.Range(2, 12)
	iters := g.Range(5, 60)
	s := common.NewSemaphore(n)
	type ev struct {
		seq int64
		d   int // +1 acquired, -1 about to release
	}
	logs := make([][]ev, m)
	var clock int64
	var wg sync.WaitGroup
	for i := 0; i < m; i++ {
		r := kit.NewRng(g.U64(), "sem")
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for k := 0; k < iters; k++ {
				s.Acquire()
				logs[i] = append(logs[i], ev{atomic.AddInt64(&clock, 1), 1})
				switch r.Intn(6) {
				case 0:
					runtime.Gosched()
				case 1:
					time.Sleep(time.Duration(r.Intn(60)) * time.Microsecond)
				}
				logs[i] = append(logs[i], ev{atomic.AddInt64(&clock, 1), -1})
				s.Release()
			}
		}(i)
	}
	wg.Wait()
	all := make([]int, clock+1)
	for i := range logs {
		for _, e := range logs[i] {
			all[e.seq] = e.d
		}
	}
	h, max := 0, 0
	hash := uint64(14695981039346656037)
	for _, d := range all[1:] {
		h += d
		if h > max {
			max = h
		}
		hash = (hash ^ uint64(d+2)) * 1099511628211
	}
	if max > n {
		t.Fail("a semaphore of %d let %d holders in", n, max)
	}
	t.Eval(1)
	t.Count("semaphore_events", int(clock))
	t.Max("holders", max)
	if max == n && m > n {
		t.Count("semaphore_full", 1)
	}
	// no permit was lost: n more acquires do not block (else: deadlock detector)
	for i := 0; i < n; i++ {
		s.Acquire()
	}
	// and none was invented: the next one waits until a release
	done := make(chan struct{})
	go func() { s.Acquire(); close(done) }()
	for i := 0; i < 20; i++ {
		runtime.Gosched()
	}
	select {
	case <-done:
		t.Fail("a semaphore of %d let %d holders in after %d balanced acquires", n, n+1, m*iters)
	case <-time.After(time.Millisecond):
	}
	s.Release()
	<-done
	for i := 0; i < n; i++ {
		s.Release()
	}
	t.Eval(2)
	t.Count("semaphore_blocked_then_released", 1)
	t.Count("semaphore_histories", 1)
	t.Distinct("semaphore", n, m, hash)
}
