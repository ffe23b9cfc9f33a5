// C07: results do not depend on workers, chunking or scheduling.
package main

import (
	"fmt"
	"runtime"
	"sync"

	"gkr-mimc/circuit"
	"gkr-mimc/examples"
	"gkr-mimc/gkr"
	"gkr-mimc/polynomial"
	"gkr-mimc/sumcheck"

	"verif/gen"
	"verif/kit"
	"verif/ref"

	"github.com/consensys/gurvy/bn256/fr"
)

func main() {
	kit.Main(kit.Config{
		ID:      "C07",
		Rule:    "the same circuit and batch is assigned and proved under many configurations (worker count, chunk count, GOMAXPROCS 1-8, injected yields/sleeps/slow goroutines at gate evaluations, several runs at once); every assignment, claim, sumcheck proof, final claim and GKR proof is compared with those of a sequential run (one chunk, one worker, one processor; for sumcheck the single-threaded prover), assignments also with the independent reference's. Non-trivial: distinct (circuit, batch, chunking, workers) runs; distinct goroutine interleavings are counted separately",
		Require: []string{"gkr_runs", "sumcheck_runs", "concurrent_runs", "sequential_prover_runs", "perturbed_turns", "distinct_interleavings", "large_runs", "mimc_runs"},
	}, run)
}

var interleavings = map[uint64]bool{}
var imu sync.Mutex

func observe(t *kit.T, s *gen.Scheduler) {
	t.Count("gate_events", int(s.Events))
	t.Count("perturbed_turns", int(s.Turns))
	t.Max("goroutines_evaluating", s.Goroutines())
	imu.Lock()
	if h := s.Interleaving(); !interleavings[h] && s.Goroutines() > 1 {
		interleavings[h] = true
		t.Count("distinct_interleavings", 1)
	}
	imu.Unlock()
}

func gkrCase(t *kit.T, c *ref.Circuit, bN, runs int, mk func(m gen.Monitor) circuit.Circuit, label string) {
	g := t.Rng
	flat := gen.Inputs(g, c, bN)
	vals := c.Evaluate(flat, bN)
	nL := len(c.Layers)
	// the sequential run: one chunk, one worker, one processor, no monitor
	old := runtime.GOMAXPROCS(1)
	base := gen.Repo(c, false)
	ba := base.Assign([][]fr.Element{kit.Clone(flat)}, 1)
	bp := gkr.NewProver(base, ba)
	want := bp.Prove(1)
	runtime.GOMAXPROCS(old)
	check := func(who string, rc circuit.Circuit, k, nA, nP int) {
		a := rc.Assign(ref.Split(flat, 1<<k), nA)
		if len(a.Values) != nL+1 {
			t.Report("%s: %s: the assignment has %d layers instead of %d", label, who, len(a.Values), nL+1)
			return
		}
		for l := range a.Values {
			if len(a.Values[l]) != 1<<k || !kit.Eq(ref.Flatten(a.Values[l]), vals[l]) {
				t.Report("%s: %s: layer %d of the assignment differs from the sequential one: %s", label, who, l, gen.Describe(c))
				return
			}
		}
		t.Eval(1)
		p := gkr.NewProver(rc, a)
		for rep := 0; rep < 2; rep++ {
			if pr := p.Prove(nP); !gen.SameProof(pr, want) {
				t.Report("%s: %s (repetition %d): the proof differs from the sequential one's: %s", label, who, rep, gen.Describe(c))
				return
			}
			t.Eval(1)
			t.Count("gkr_runs", 1)
			if bN > 6 {
				break
			}
		}
		t.Distinct(label, gen.Describe(c), bN, k, nA, nP)
	}
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(0))
	for i := 0; i < runs; i++ {
		s := gen.NewScheduler(g)
		rc := mk(s)
		k := g.Range(0, bN)
		if i == 0 {
			k = bN
		}
		runtime.GOMAXPROCS(g.Range(1, 8))
		nA, nP := g.Workers(1<<k), g.Workers(1<<k)
		check(fmt.Sprintf("bN=%d chunks=%d workers=%d/%d procs=%d", bN, 1<<k, nA, nP, runtime.GOMAXPROCS(0)), rc, k, nA, nP)
		observe(t, s)
	}
	// several runs at once on one circuit object
	s := gen.NewScheduler(g)
	rc := mk(s)
	runtime.GOMAXPROCS(8)
	var wg sync.WaitGroup
	for i := 0; i < 3; i++ {
		k, nA, nP := g.Range(0, bN), g.Range(1, 12), g.Range(1, 12)
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			check(fmt.Sprintf("concurrent run: bN=%d chunks=%d workers=%d/%d", bN, 1<<k, nA, nP), rc, k, nA, nP)
		}(i)
	}
	wg.Wait()
	t.Count("concurrent_runs", 3)
	observe(t, s)
}

func bkts(x [][]fr.Element) []polynomial.BookKeepingTable {
	r := make([]polynomial.BookKeepingTable, len(x))
	for i := range x {
		r[i] = polynomial.NewBookKeepingTable(kit.Clone(x[i]))
	}
	return r
}

func sumcheckCase(t *kit.T) {
	g := t.Rng
	bG := g.Pick(0, 1, 1, 2)
	bN := g.Range(0, 7-bG)
	if g.P(1, 12) && bG == 0 {
		bN = 10
	}
	vL, vR, eq := g.Frs(1<<(bG+bN)), g.Frs(1<<(bG+bN)), g.Frs(1<<bN)
	var gates []circuit.Gate
	var st [][]fr.Element
	for i := 0; i < g.Range(1, 4); i++ {
		gates = append(gates, gen.Gate(gen.RandGate(g, gen.WithUser)))
		st = append(st, g.Frs(1<<(2*bG)))
	}
	one := func(x []fr.Element) polynomial.BookKeepingTable { return bkts([][]fr.Element{x})[0] }
	s := sumcheck.NewSingleThreadedProver(one(vL), one(vR), one(eq), gates, bkts(st))
	claim := s.GetClaim()
	pr, qP, qL, qR, fin := s.Prove()
	t.Count("sequential_prover_runs", 1)
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(0))
	for i := 0; i < 4; i++ {
		sch := gen.NewScheduler(g)
		k := g.Range(0, bN)
		n1, n2 := g.Workers(1<<k), g.Workers(1<<k)
		runtime.GOMAXPROCS(g.Range(1, 8))
		m := sumcheck.NewMultiThreadedProver(bkts(ref.Split(vL, 1<<k)), bkts(ref.Split(vR, 1<<k)), bkts(ref.Split(eq, 1<<k)), gen.HookGates(gates, sch), bkts(st))
		who := fmt.Sprintf("bN=%d bG=%d gates=%d chunks=%d workers=%d/%d", bN, bG, len(gates), 1<<k, n1, n2)
		for rep := 0; rep < 2; rep++ {
			if c := m.GetClaim(n1); c != claim {
				t.Fail("sumcheck claim of %s is %s, the sequential one is %s", who, c.String(), claim.String())
			}
		}
		pr2, qP2, qL2, qR2, fin2 := m.Prove(n2)
		if !kit.Eq2(pr.PolyCoeffs, pr2.PolyCoeffs) {
			t.Fail("sumcheck proof of %s differs from the sequential prover's", who)
		}
		if !kit.Eq(qP, qP2) || !kit.Eq(qL, qL2) || !kit.Eq(qR, qR2) {
			t.Fail("sumcheck challenges of %s differ from the sequential prover's", who)
		}
		if !kit.Eq(fin, fin2) {
			t.Fail("sumcheck final claims of %s differ from the sequential prover's: %s instead of %s", who, kit.Str(fin2...), kit.Str(fin...))
		}
		t.Eval(4)
		t.Count("sumcheck_runs", 1)
		t.Distinct("sumcheck", who, kit.Str(vL...))
		observe(t, sch)
	}
}

func run(r *kit.Run) {
	for i := 0; i < r.N(160, 5000); i++ {
		r.Case(fmt.Sprintf("gkr/%d", i), func(t *kit.T) {
			g := t.Rng
			kind := gen.Builtin
			if g.P(1, 3) {
				kind = gen.WithUser
			}
			c := gen.Circuit(g, gen.Opts{MaxLayers: 4, MaxBG: g.Pick(0, 1, 1, 2), MaxWires: 5, Gates: kind, Dense: g.Bool()})
			bN := g.Pick(0, 1, 2, 3, 4, 5, 6)
			fresh := g.P(1, 3)
			gkrCase(t, c, bN, 5, func(m gen.Monitor) circuit.Circuit { return gen.Hooked(c, fresh, m) }, "random circuit")
			t.Max("logBatch", bN)
			if i < 24 {
				t.Sample(map[string]interface{}{"case": t.Name, "circuit": gen.Describe(c), "bN": bN})
			}
		})
	}
	for i := 0; i < r.N(24, 400); i++ {
		r.Case(fmt.Sprintf("extreme/%d", i), func(t *kit.T) {
			g := t.Rng
			o := gen.Opts{MaxLayers: 2, MaxBG: 1, MaxWires: 5, Gates: gen.Builtin, Dense: g.Bool()}
			bN := g.Range(0, 3)
			switch i % 3 {
			case 0:
				bN = g.Range(7, 11)
			case 1:
				o.MaxBG, o.MaxWires = g.Range(3, 6), 40
			default:
				o.MinLayers, o.MaxLayers = 8, 24
				if g.P(1, 6) {
					o.MinLayers, o.MaxLayers, o.MaxWires = 64, 150, 2
				}
				if i%6 == 5 {
					o.MinLayers, o.MaxLayers, o.Gates = 1, 2, gen.WithUser
					o.MinPool, o.MaxPool, o.MinWires, o.MaxWires = 60, 120, 120, 200
				}
			}
			c := gen.Circuit(g, o)
			gkrCase(t, c, bN, 3, func(m gen.Monitor) circuit.Circuit { return gen.Hooked(c, g.Bool(), m) }, "extreme circuit")
			t.Max("logBatch", bN)
			t.Max("logWidth", c.BGIn(0))
			t.Max("layers", len(c.Layers))
			t.Count("extreme", 1)
		})
	}
	for i := 0; i < r.N(400, 12000); i++ {
		r.Case(fmt.Sprintf("sumcheck/%d", i), sumcheckCase)
	}
	// the library's own pair of example provers
	for i := 0; i < r.N(9, 12); i++ {
		bN := i
		r.Case(fmt.Sprintf("examples/%d", i), func(t *kit.T) {
			s := sumcheck.InitializeProverForTests(bN)
			claim := s.GetClaim()
			pr, qP, qL, qR, fin := s.Prove()
			for k := 0; k <= bN; k++ {
				n1, n2 := t.Rng.Range(1, 16), t.Rng.Range(1, 16)
				m := sumcheck.InitializeMultiThreadedProver(bN, 1<<k)
				c2 := m.GetClaim(n1)
				pr2, qP2, qL2, qR2, fin2 := m.Prove(n2)
				if c2 != claim || !kit.Eq2(pr.PolyCoeffs, pr2.PolyCoeffs) || !kit.Eq(qP, qP2) || !kit.Eq(qL, qL2) || !kit.Eq(qR, qR2) || !kit.Eq(fin, fin2) {
					t.Fail("the example provers of %d variables disagree: %d chunks, %d/%d workers", bN, 1<<k, n1, n2)
				}
				t.Eval(1)
				t.Count("example_runs", 1)
				t.Distinct("example", bN, k)
			}
		})
	}
	for i := 0; i < r.N(4, 24); i++ {
		r.Case(fmt.Sprintf("mimc/%d", i), func(t *kit.T) {
			bN := t.Rng.Range(1, 4)
			gkrCase(t, gen.Mimc(), bN, 2, func(gen.Monitor) circuit.Circuit { return examples.CreateMimcCircuit() }, "MiMC circuit")
			t.Count("mimc_runs", 1)
		})
	}
	// chunks above the minimum parallel chunk size
	for i := 0; i < r.N(4, 32); i++ {
		r.Case(fmt.Sprintf("large/%d", i), func(t *kit.T) {
			g := t.Rng
			c := &ref.Circuit{Layers: [][]ref.Wire{{{L: 0, R: 1, O: 0, G: ref.MulG}, {L: 1, R: 1, O: 0, G: ref.CipherGate{Ark: g.Fr()}}}}}
			bN := 13
			if i%4 == 0 {
				bN = g.Range(15, 17)
			}
			flat := g.FrsUniform(2 << bN)
			var vals [][]fr.Element
			var first gkr.Proof
			for j := 0; j < 4; j++ {
				k, n := []int{0, 1, 0, 3}[j], []int{1, 3, 5, 8}[j]
				rc := gen.Repo(c, false)
				a := rc.Assign(ref.Split(flat, 1<<k), n)
				p := gkr.NewProver(rc, a)
				pr := p.Prove(n)
				out := ref.Flatten(a.Values[1])
				if j == 0 {
					vals, first = c.Evaluate(flat, bN), pr
				}
				if !kit.Eq(out, vals[1]) {
					t.Fail("assignment of 2^%d instances with %d chunks and %d workers differs", bN, 1<<k, n)
				}
				if !gen.SameProof(first, pr) {
					t.Fail("proof of 2^%d instances with %d chunks and %d workers differs from the single-chunk single-worker one", bN, 1<<k, n)
				}
				t.Eval(2)
				t.Count("large_runs", 1)
				t.Distinct("large", i, k, n)
			}
		})
	}
}
