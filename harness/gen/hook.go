package gen

import (
	"bytes"
	"runtime"
	"strconv"
	"sync"
	"time"

	"gkr-mimc/circuit"

	"verif/kit"
	"verif/ref"

	"github.com/consensys/gurvy/bn256/fr"
)

// Monitor observes gate evaluations: it is told of the begin and the end of
// each of them, on the goroutine that performs it.
type Monitor interface {
	Enter(n int)
	Leave()
}

// HookGate wraps any gate and reports its evaluations.
type HookGate struct {
	circuit.Gate
	M Monitor
}

// Eval evaluates the wrapped gate.
func (h *HookGate) Eval(res, vL, vR *fr.Element) {
	h.M.Enter(1)
	h.Gate.Eval(res, vL, vR)
	h.M.Leave()
}

// EvalManyVL evaluates the wrapped gate.
func (h *HookGate) EvalManyVL(res, vLs []fr.Element, vR *fr.Element) {
	h.M.Enter(len(vLs))
	h.Gate.EvalManyVL(res, vLs, vR)
	h.M.Leave()
}

// EvalManyVR evaluates the wrapped gate.
func (h *HookGate) EvalManyVR(res []fr.Element, vL *fr.Element, vRs []fr.Element) {
	h.M.Enter(len(vRs))
	h.Gate.EvalManyVR(res, vL, vRs)
	h.M.Leave()
}

// Hooked builds the repository's circuit with every gate monitored.
func Hooked(c *ref.Circuit, fresh bool, m Monitor) circuit.Circuit {
	w := Wiring(c, fresh)
	for l := range w {
		cache := map[circuit.Gate]circuit.Gate{}
		for i := range w[l] {
			g := w[l][i].Gate
			if fresh {
				w[l][i].Gate = &HookGate{g, m}
				continue
			}
			if cache[g] == nil {
				cache[g] = &HookGate{g, m}
			}
			w[l][i].Gate = cache[g]
		}
	}
	return circuit.NewCircuit(w)
}

// HookGates wraps a list of gates.
func HookGates(gs []circuit.Gate, m Monitor) []circuit.Gate {
	r := make([]circuit.Gate, len(gs))
	for i := range gs {
		r[i] = &HookGate{gs[i], m}
	}
	return r
}

// Goid is the number of the calling goroutine.
func Goid() uint64 {
	var b [64]byte
	s := b[:runtime.Stack(b[:], false)]
	s = bytes.TrimPrefix(s, []byte("goroutine "))
	if i := bytes.IndexByte(s, ' '); i > 0 {
		n, _ := strconv.ParseUint(string(s[:i]), 10, 64)
		return n
	}
	return 0
}

// Scheduler is a Monitor that injects delays at gate evaluations and records
// in which order goroutines got to run.
type Scheduler struct {
	mu     sync.Mutex
	rng    *kit.Rng
	budget time.Duration // total sleep left
	yield  int           // yield once in ... evaluations, 0 = never
	sleep  int           // sleep once in ... evaluations, 0 = never
	victim int           // goroutine (by order of appearance) that is always slow, -1 = none
	ids    map[uint64]int
	last   int
	h      uint64
	Events int64
	Turns  int64 // changes of the running goroutine
}

// NewScheduler draws a delay policy.
func NewScheduler(r *kit.Rng) *Scheduler {
	s := &Scheduler{rng: kit.NewRng(r.U64(), "sched"), ids: map[uint64]int{}, last: -1, victim: -1, h: 14695981039346656037}
	s.budget = 60 * time.Millisecond
	switch r.Intn(5) {
	case 0: // free running
	case 1:
		s.yield = r.Pick(1, 2, 5)
	case 2:
		s.sleep = r.Pick(3, 10, 50)
	case 3:
		s.yield, s.sleep = 3, 20
	case 4:
		s.victim = r.Intn(4)
	}
	return s
}

// Enter records the turn and may delay.
func (s *Scheduler) Enter(n int) {
	id := Goid()
	s.mu.Lock()
	k, ok := s.ids[id]
	if !ok {
		k = len(s.ids)
		s.ids[id] = k
	}
	s.Events++
	if k != s.last {
		s.Turns++
		s.last = k
		s.h = (s.h ^ uint64(k)) * 1099511628211
	}
	y := s.yield > 0 && s.rng.Intn(s.yield) == 0
	var d time.Duration
	if s.sleep > 0 && s.rng.Intn(s.sleep) == 0 || k == s.victim && s.rng.Intn(4) == 0 {
		d = time.Duration(s.rng.Intn(400)) * time.Microsecond
		if d > s.budget {
			d = 0
		}
		s.budget -= d
	}
	s.mu.Unlock()
	if d > 0 {
		time.Sleep(d)
	} else if y {
		runtime.Gosched()
	}
}

// Leave does nothing.
func (s *Scheduler) Leave() {}

// Interleaving identifies the observed order of goroutines.
func (s *Scheduler) Interleaving() uint64 {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.h
}

// Goroutines tells how many goroutines evaluated gates.
func (s *Scheduler) Goroutines() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.ids)
}
