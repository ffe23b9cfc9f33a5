// C08: proving, assigning and verifying are free of data races. Built with the
// Go race detector and with the field arithmetic in pure Go (the assembly of
// the field library is invisible to the detector); see check.sh.
package main

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"gkr-mimc/circuit"
	"gkr-mimc/common"
	"gkr-mimc/examples"
	"gkr-mimc/gkr"
	"gkr-mimc/hash"
	"gkr-mimc/polynomial"
	"gkr-mimc/sumcheck"

	"verif/gen"
	"verif/kit"
	"verif/ref"

	"github.com/consensys/gurvy/bn256/fr"
)

func main() {
	if os.Getenv("VERIF_CONTROL") != "" {
		control()
		return
	}
	kit.Main(kit.Config{
		ID:      "C08",
		Rule:    "race-detector build with pure-Go field arithmetic: single calls of every concurrent operation with many worker/chunk counts (also tables above the minimum parallel chunk size, aliased operands), and several goroutines running random operations at once on shared circuits, assignments, inputs, outputs, proofs, verifiers, tables and hashers, cold and warm, with random yields inside gate evaluations; every detector report is a violation. Non-trivial: distinct (operation or mix, sizes, workers); a positive control proves in every run that the detector sees a race on a field element",
		Require: []string{"control_races_seen", "assign", "prove", "verify", "claim", "table_ops", "eq_tables", "hash", "print", "interpolate", "evaluate", "build", "layer-tables", "own-tables", "sumcheck-verify", "large_tables", "large_shared_tables", "shared_mixes", "overlapping_calls"},
		Env:     []string{"GORACE=log_path=$DIR/race halt_on_error=0 exitcode=0 history_size=3 atexit_sleep_ms=0", "VERIF_RACELOG=$DIR/race"},
	}, run)
}

// control makes the race every report-free run has to be believed for.
func control() {
	var x fr.Element
	a := ref.U(3)
	var wg sync.WaitGroup
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			x.Mul(&x, &a)
		}()
	}
	wg.Wait()
	os.Exit(0)
}

// ---------------------------------------------------------------- detector log

var seenLog int

var libFrame = regexp.MustCompile(`gkr-mimc/[a-zA-Z0-9_/]+\.[^\s(]*`)

// reports returns the detector's reports since the last call.
func reports() []string {
	b, err := os.ReadFile(fmt.Sprintf("%s.%d", os.Getenv("VERIF_RACELOG"), os.Getpid()))
	if err != nil || len(b) <= seenLog {
		return nil
	}
	s := string(b[seenLog:])
	seenLog = len(b)
	var res []string
	for _, r := range strings.Split(s, "==================") {
		if strings.Contains(r, "WARNING: DATA RACE") {
			res = append(res, strings.TrimSpace(r))
		}
	}
	return res
}

func judge(t *kit.T, what string) {
	seen := map[string]bool{}
	for _, r := range reports() {
		// judge the racing accesses, not where goroutines were created
		acc := r
		if i := strings.Index(r, "\nGoroutine "); i > 0 {
			acc = r[:i]
		}
		fs := libFrame.FindAllString(acc, -1)
		if len(fs) == 0 {
			panic("harness: a race without library frames:\n" + r)
		}
		k := strings.Join(fs, " ")
		if seen[k] {
			continue
		}
		seen[k] = true
		if len(seen) > 3 {
			break
		}
		t.Report("data race during %s:\n%s", what, r)
	}
}

// ---------------------------------------------------------------- monitors without synchronisation

// jitter yields at random in gate evaluations; it must not synchronise, or it
// would hide races.
type jitter struct{ one int }

func (j jitter) Enter(int) {
	if j.one > 0 && rand.IntN(j.one) == 0 {
		runtime.Gosched()
	}
}
func (j jitter) Leave() {}

type span struct{ b, e time.Time }

// overlaps counts pairs of calls that ran at the same time.
func overlaps(ss []span) int {
	sort.Slice(ss, func(i, j int) bool { return ss[i].b.Before(ss[j].b) })
	n := 0
	for i := range ss {
		for j := i + 1; j < len(ss) && ss[j].b.Before(ss[i].e); j++ {
			n++
		}
	}
	return n
}

// ---------------------------------------------------------------- workloads

func bkts(x [][]fr.Element) []polynomial.BookKeepingTable {
	r := make([]polynomial.BookKeepingTable, len(x))
	for i := range x {
		r[i] = polynomial.NewBookKeepingTable(kit.Clone(x[i]))
	}
	return r
}

func randCircuit(g *kit.Rng) *ref.Circuit {
	kind := gen.Builtin
	if g.P(1, 3) {
		kind = gen.WithUser
	}
	return gen.Circuit(g, gen.Opts{MaxLayers: 3, MaxBG: g.Pick(0, 1, 1, 2), MaxWires: 4, Gates: kind, Dense: g.Bool()})
}

// single runs one operation at a time.
func single(t *kit.T) {
	g := t.Rng
	c := randCircuit(g)
	bN := g.Range(0, 5)
	k := g.Range(0, bN)
	if g.Bool() {
		k = bN
	}
	n := g.Pick(g.Range(1, 16), g.Range(1, 16), 40)
	rc := gen.Hooked(c, g.Bool(), jitter{g.Pick(0, 2, 10)})
	in := ref.Split(gen.Inputs(g, c, bN), 1<<k)
	a := rc.Assign(in, n)
	judge(t, fmt.Sprintf("Assign with %d chunks and %d workers", 1<<k, n))
	t.Count("assign", 1)
	p := gkr.NewProver(rc, a)
	pr := p.Prove(n)
	judge(t, fmt.Sprintf("Prove with %d chunks and %d workers", 1<<k, n))
	t.Count("prove", 1)
	v := gkr.NewVerifier(bN, rc)
	v.Verify(pr, in, a.Values[len(c.Layers)])
	judge(t, "Verify")
	t.Count("verify", 1)
	t.Eval(3)
	t.Distinct("gkr", gen.Describe(c), bN, k, n)

	bG := g.Pick(0, 1, 2)
	bN = g.Range(0, 5)
	k = g.Range(0, bN)
	var gs []circuit.Gate
	var st [][]fr.Element
	for i := 0; i < g.Range(1, 3); i++ {
		gs = append(gs, gen.Gate(gen.RandGate(g, gen.WithUser)))
		st = append(st, g.Frs(1<<(2*bG)))
	}
	m := sumcheck.NewMultiThreadedProver(bkts(ref.Split(g.Frs(1<<(bG+bN)), 1<<k)), bkts(ref.Split(g.Frs(1<<(bG+bN)), 1<<k)),
		bkts(ref.Split(g.Frs(1<<bN), 1<<k)), gen.HookGates(gs, jitter{g.Pick(0, 2, 10)}), bkts(st))
	m.GetClaim(n)
	m.GetClaim(n)
	judge(t, fmt.Sprintf("GetClaim with %d chunks and %d workers", 1<<k, n))
	m.Prove(n)
	judge(t, fmt.Sprintf("sumcheck Prove with %d chunks, width %d and %d workers", 1<<k, 1<<bG, n))
	t.Count("claim", 2)
	t.Count("prove", 1)
	t.Eval(2)
	t.Distinct("sumcheck", bG, bN, k, n, len(gs))
}

// large runs one operation at a time on circuits and batches large enough for
// code paths that only pay off there.
func large(t *kit.T) {
	g := t.Rng
	o := gen.Opts{MaxLayers: 2, MaxBG: g.Pick(3, 4, 5), MinWires: 20, MaxWires: 70, MaxPool: g.Pick(2, 12), Gates: gen.WithUser, Dense: g.Bool()}
	bN := g.Range(0, 3)
	switch g.Intn(3) {
	case 0: // long batch
		o = gen.Opts{MaxLayers: 2, MaxBG: g.Pick(0, 1), MaxWires: 4, Gates: gen.Builtin, Dense: g.Bool()}
		bN = g.Range(8, 11)
		if g.P(1, 5) {
			o.MaxLayers, o.MaxWires, bN = 1, 2, g.Range(12, 14)
		}
	case 1: // deep circuit
		o = gen.Opts{MinLayers: 8, MaxLayers: 24, MaxBG: 1, MaxWires: 4, Gates: gen.WithUser, Dense: g.Bool()}
	}
	c := gen.Circuit(g, o)
	k := g.Range(0, bN)
	n := g.Range(1, 20)
	rc := gen.Hooked(c, g.Bool(), jitter{0})
	in := ref.Split(gen.Inputs(g, c, bN), 1<<k)
	a := rc.Assign(in, n)
	judge(t, fmt.Sprintf("Assign of %s with %d chunks and %d workers", gen.Shape(c), 1<<k, n))
	p := gkr.NewProver(rc, a)
	pr := p.Prove(n)
	judge(t, fmt.Sprintf("Prove of %s with %d chunks and %d workers", gen.Shape(c), 1<<k, n))
	v := gkr.NewVerifier(bN, rc)
	v.Verify(pr, in, a.Values[len(c.Layers)])
	judge(t, "Verify of "+gen.Shape(c))
	wires := 0
	for _, l := range c.Layers {
		if len(l) > wires {
			wires = len(l)
		}
	}
	t.Max("wires_in_a_layer", wires)
	t.Max("batch_log", bN)
	t.Max("layers", len(c.Layers))
	t.Count("large_runs", 1)
	t.Eval(3)
	t.Distinct("large", gen.Describe(c), bN, k, n)
}

// tables runs the parallel table operations above and below the parallel size.
func tables(t *kit.T) {
	g := t.Rng
	size := g.Pick(0, 1, 100, 4095, 4096, 4097, 8192, 8193, 10000, 12288, 20000)
	n := g.Range(1, 16)
	a, b := polynomial.NewBookKeepingTable(g.Frs(size)), polynomial.NewBookKeepingTable(g.Frs(size))
	var d polynomial.BookKeepingTable
	d.Sub(a, b, n)
	judge(t, fmt.Sprintf("Sub of size %d with %d workers", size, n))
	d.Mul(g.Fr(), a, n)
	judge(t, fmt.Sprintf("Mul of size %d with %d workers", size, n))
	a.Sub(a, b, n)
	b.Sub(a, b, n)
	judge(t, fmt.Sprintf("aliased Sub of size %d with %d workers", size, n))
	a.Mul(g.Fr(), a, n)
	judge(t, fmt.Sprintf("aliased Mul of size %d with %d workers", size, n))
	d.Add(a, b)
	t.Count("table_ops", 6)
	t.Eval(6)
	if size > 2*common.MinChunkSize {
		t.Count("large_tables", 1)
	}
	t.Max("table_size", size)
	t.Distinct("table", size, n)
	bN := g.Pick(0, 1, 5, 13, 14)
	k := g.Range(0, bN)
	if bN > 5 {
		k = g.Range(0, 1)
	}
	polynomial.GetChunkedEqTable(g.Frs(bN), 1<<k, n)
	judge(t, fmt.Sprintf("GetChunkedEqTable of 2^%d in %d chunks with %d workers", bN, 1<<k, n))
	t.Count("eq_tables", 1)
	as := circuit.Assignment{Values: [][][]fr.Element{ref.Split(g.Frs(64), 1<<g.Range(0, 5))}}
	as.LayerAsBKTWithCopy(0, n)
	judge(t, "LayerAsBKTWithCopy")
	t.Eval(2)
	t.Distinct("eq", bN, k, n)
}

// largeTables runs the operations on large tables alone, then several at once on shared ones.
func largeTables(t *kit.T) {
	g := t.Rng
	bN := g.Range(9, 14)
	k := g.Range(0, bN)
	n := g.Range(1, 12)
	v := g.FrsUniform(1 << bN)
	tab, tab2 := polynomial.NewBookKeepingTable(v), polynomial.NewBookKeepingTable(kit.Clone(v))
	ctab := bkts(ref.Split(v, 1<<k))
	as := circuit.Assignment{Values: [][][]fr.Element{ref.Split(v, 1<<k)}}
	pt := g.Frs(bN)
	bL := g.Range(0, bN)
	if k > bN-bL {
		bL = bN - k
	}
	hP, hL, hR := pt[bL:], pt[:bL], g.Frs(bL)
	x := g.FrNZ()
	ops := []struct {
		name string
		f    func()
	}{
		{"Evaluate", func() { tab.Evaluate(pt) }},
		{"EvaluateLeftAndRight", func() { tab.EvaluateLeftAndRight(hP, hL, hR) }},
		{"FunctionEvals", func() { tab.FunctionEvals() }},
		{"DeepCopy and Fold", func() { d := tab.DeepCopy(); d.Fold(x) }},
		{"InterleavedChunk", func() { tab.InterleavedChunk(1<<k-1, 1<<k) }},
		{"EvaluateChunked", func() { polynomial.EvaluateChunked(ctab, pt) }},
		{"EvaluateMixedChunked", func() { polynomial.EvaluateMixedChunked(ctab, hP, hL, hR) }},
		{"Add, Sub and Mul", func() {
			var d polynomial.BookKeepingTable
			d.Add(tab, tab2)
			d.Sub(tab, tab2, n)
			d.Mul(x, tab, n)
		}},
		{"GetFoldedEqTable", func() { polynomial.GetFoldedEqTable(pt) }},
		{"GetChunkedEqTable", func() { polynomial.GetChunkedEqTable(pt, 1<<k, n) }},
		{"LinearCombinationOfBookKeepingTables", func() {
			polynomial.LinearCombinationOfBookKeepingTables(tab.DeepCopy(), tab2.DeepCopy(), x, pt[0])
		}},
		{"LayerAsBKTWithCopy", func() { as.LayerAsBKTWithCopy(0, n) }},
		{"LayerAsBKTNoCopy", func() { as.LayerAsBKTNoCopy(0) }},
		{"PrettyStringFr", func() { common.FrSliceToString(v[:100]) }},
		{"MimcHash", func() { hash.MimcHash(v[:40]) }},
	}
	for _, i := range g.Perm(len(ops))[:6] {
		ops[i].f()
		judge(t, fmt.Sprintf("%s on a table of 2^%d (%d chunks, %d workers)", ops[i].name, bN, 1<<k, n))
		t.Eval(1)
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	what, same := "", -1
	if g.P(1, 2) { // all do the same first
		same = g.Intn(len(ops))
	}
	for a := 0; a < 4; a++ {
		x, y := g.Intn(len(ops)), g.Intn(len(ops))
		if same >= 0 {
			x = same
		}
		what += " " + ops[x].name + ", " + ops[y].name + ";"
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			ops[x].f()
			ops[y].f()
		}()
	}
	close(start)
	wg.Wait()
	judge(t, fmt.Sprintf("concurrent operations on shared tables of 2^%d in %d chunks:%s", bN, 1<<k, what))
	t.Eval(1)
	t.Count("large_shared_tables", 1)
	t.Distinct("large tables", bN, k, n, what)
}

// shared runs random operations on shared objects from several goroutines.
func shared(t *kit.T, mimc bool, actors, steps int) {
	g := t.Rng
	bN := g.Range(0, 4)
	var c *ref.Circuit
	var rc circuit.Circuit
	if mimc {
		bN = g.Range(0, 1)
		c, rc = gen.Mimc(), examples.CreateMimcCircuit()
	} else {
		c = randCircuit(g)
		rc = gen.Hooked(c, g.Bool(), jitter{g.Pick(0, 3, 20)})
	}
	build := func() circuit.Circuit {
		if mimc {
			return examples.CreateMimcCircuit()
		}
		return gen.Repo(c, false)
	}
	k := g.Range(0, bN)
	// everything below is computed without the library, so that its first use can be concurrent
	flat := gen.Inputs(g, c, bN)
	vals := c.Evaluate(flat, bN)
	split := make([][][]fr.Element, len(vals))
	for l := range vals {
		split[l] = ref.Split(vals[l], 1<<k)
	}
	in, out := split[0], split[len(vals)-1]
	a := circuit.Assignment{Values: split}
	v := gkr.NewVerifier(bN, rc)
	var pr gkr.Proof
	for l := range c.Layers { // an arbitrary proof of the right shape
		var ps [][]fr.Element
		for i := 0; i < bN+2*c.BGIn(l); i++ {
			ps = append(ps, g.FrsUniform(2))
		}
		pr.SumcheckProofs = append(pr.SumcheckProofs, sumcheck.Proof{PolyCoeffs: ps})
	}
	pr.ClaimsLeft, pr.ClaimsRight = g.FrsUniform(len(c.Layers)), g.FrsUniform(len(c.Layers))
	warm := !g.P(1, 3) && !mimc || mimc && g.Bool()
	if warm { // a true proof, made by the library
		p := gkr.NewProver(rc, a)
		pr = p.Prove(2)
	}
	msg := g.Frs(g.Range(1, 20))
	if g.P(1, 8) {
		msg = g.Frs(g.Range(21, 300))
	}
	tab := polynomial.NewBookKeepingTable(g.Frs(16))
	tab2 := polynomial.NewBookKeepingTable(g.Frs(16))
	var focus []int // all actors run few kinds of operations
	if g.P(1, 3) {
		focus = []int{g.Intn(17), g.Intn(17)}
	}
	ctab := bkts(ref.Split(g.Frs(32), 4))
	pt4, pt5 := g.Frs(4), g.Frs(5)
	vals12 := g.Frs(g.Range(1, 12))
	ark := circuit.NewCipherGate(g.Fr())
	var scp sumcheck.Proof
	for i := 0; i < 4; i++ {
		scp.PolyCoeffs = append(scp.PolyCoeffs, g.Frs(3))
	}
	scv := sumcheck.Verifier{}
	spans := make([][]span, actors)
	names := make([][]string, actors)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := 0; i < actors; i++ {
		r := kit.NewRng(g.U64(), "actor")
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-start
			for s := 0; s < steps; s++ {
				b := time.Now()
				var op string
				n := r.Range(1, 8)
				x := r.Intn(17)
				if s == 0 && r.Bool() {
					x = r.Intn(4)
				}
				if focus != nil {
					x = focus[r.Intn(2)]
				}
				switch x {
				case 0, 1:
					op = "verify"
					v.Verify(pr, in, out)
				case 2:
					op = "prove"
					p := gkr.NewProver(rc, a)
					p.Prove(n)
				case 3:
					op = "assign"
					rc.Assign(in, n)
				case 4:
					op = "hash"
					hash.MimcHash(msg)
				case 5:
					op = "hash"
					h := []*hash.PoseidonHasher{&hash.PoseidonT2, &hash.PoseidonT4, &hash.PoseidonT8}[r.Intn(3)]
					h.Hash(msg)
				case 6:
					op = "hash"
					h := []*hash.GMimcHasher{&hash.GMimcT2, &hash.GMimcT4, &hash.GMimcT8}[r.Intn(3)]
					h.Hash(msg)
				case 7:
					op = "evaluate"
					tab.Evaluate(pt4)
					tab.EvaluateLeftAndRight(pt4[2:], pt4[:2], pt4[1:3])
					tab.FunctionEvals()
					tab.InterleavedChunk(1, 4)
				case 8:
					op = "evaluate"
					polynomial.EvaluateChunked(ctab, pt5)
					polynomial.EvaluateMixedChunked(ctab, pt5[:3], pt5[:2], pt5[3:])
				case 12:
					op = "print"
					common.PrettyStringFr(pt4[0])
					common.FrSliceToString(msg)
				case 9:
					op = "interpolate"
					polynomial.EvaluatePolynomial(polynomial.InterpolateOnRange(vals12), pt4[0])
				case 10:
					op = "gates"
					ark.ID()
					var o fr.Element
					ark.Eval(&o, &pt4[0], &pt4[1])
					res := make([]fr.Element, 4)
					ark.EvalManyVL(res, pt4, &pt4[2])
					ark.EvalManyVR(res, &pt4[2], pt4)
					polynomial.GetFoldedEqTable(pt4)
					rc.Layers[len(rc.Layers)-1].GetStaticTable(pt5[:c.BGOut(len(c.Layers)-1)])
				case 13:
					op = "build"
					build()
					circuit.NewCipherGate(msg[0]).ID()
				case 14:
					op = "layer-tables"
					l := r.Intn(len(split))
					a.LayerAsBKTWithCopy(l, n)
					a.LayerAsBKTNoCopy(l)
				case 15:
					op = "own-tables"
					d := tab.DeepCopy()
					d.Add(tab, tab2)
					d.Sub(tab, tab2, n)
					d.Mul(pt4[0], tab, n)
					polynomial.LinearCombinationOfBookKeepingTables(tab.DeepCopy(), tab2.DeepCopy(), pt4[0], pt4[1])
					polynomial.GetChunkedEqTable(pt4, 4, n)
					polynomial.EvalEq(pt4, pt5[:4])
				default:
					op = "sumcheck-verify"
					scv.Verify(pt4[0], scp, 2, 1)
					common.GetChallenge(msg)
				}
				names[i] = append(names[i], op)
				spans[i] = append(spans[i], span{b, time.Now()})
			}
		}(i)
	}
	close(start)
	wg.Wait()
	judge(t, fmt.Sprintf("concurrent use of a shared circuit, assignment, proof and verifier (bN=%d, %d chunks, warm=%v): %s", bN, 1<<k, warm, gen.Describe(c)))
	var all []span
	mix := map[string]int{}
	for i := range spans {
		all = append(all, spans[i]...)
		for _, s := range names[i] {
			t.Count(s, 1)
			mix[s]++
		}
	}
	t.Eval(1)
	t.Count("overlapping_calls", overlaps(all))
	t.Count("shared_mixes", 1)
	t.Distinct("shared", gen.Describe(c), bN, k, mix)
}

func run(r *kit.Run) {
	// one per child first: the first use of the library is concurrent
	for i := 0; i < 8; i++ {
		r.Case(fmt.Sprintf("cold/%d", i), func(t *kit.T) {
			shared(t, i%4 == 3, 6, 6)
			t.Sample(map[string]interface{}{"case": t.Name, "kind": "first use by 6 goroutines at once"})
		})
	}
	r.Case("control", func(t *kit.T) {
		log := filepath.Join(os.Getenv("VERIF_CHILD"), "control")
		cmd := exec.Command(os.Args[0])
		cmd.Env = append(os.Environ(), "VERIF_CONTROL=1", "GORACE=log_path="+log+" halt_on_error=0 exitcode=0")
		if err := cmd.Run(); err != nil {
			panic("harness: control failed: " + err.Error())
		}
		fs, _ := filepath.Glob(log + ".*")
		for _, f := range fs {
			b, _ := os.ReadFile(f)
			if bytes.Contains(b, []byte("WARNING: DATA RACE")) && bytes.Contains(b, []byte("bn256/fr")) {
				t.Count("control_races_seen", 1)
			}
			os.Remove(f)
		}
	})
	for i := 0; i < r.N(500, 10000); i++ {
		r.Case(fmt.Sprintf("single/%d", i), func(t *kit.T) {
			single(t)
			if i < 24 {
				t.Sample(map[string]interface{}{"case": t.Name, "kind": "assign, prove, verify, claim one after the other"})
			}
		})
	}
	for i := 0; i < r.N(100, 2000); i++ {
		r.Case(fmt.Sprintf("tables/%d", i), tables)
	}
	for i := 0; i < r.N(64, 800); i++ {
		r.Case(fmt.Sprintf("large-tables/%d", i), largeTables)
	}
	for i := 0; i < r.N(48, 600); i++ {
		r.Case(fmt.Sprintf("large/%d", i), large)
	}
	for i := 0; i < r.N(400, 12000); i++ {
		r.Case(fmt.Sprintf("shared/%d", i), func(t *kit.T) { shared(t, false, t.Rng.Range(2, 8), 8) })
	}
	for i := 0; i < r.N(16, 200); i++ {
		r.Case(fmt.Sprintf("shared-mimc/%d", i), func(t *kit.T) { shared(t, true, 4, 3) })
	}
}
