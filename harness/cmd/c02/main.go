// C02: altered or forged proofs are rejected.
package main

import (
	"fmt"

	"gkr-mimc/examples"
	"gkr-mimc/gkr"

	"verif/gen"
	"verif/kit"
	"verif/ref"

	"github.com/consensys/gurvy/bn256/fr"
)

func main() {
	kit.Main(kit.Config{
		ID:      "C02",
		Level:   "fault_enumeration",
		Rule:    "on random circuits and the MiMC circuit: every single element of an honest proof altered, sum-preserving alterations of every round polynomial, swaps of claims, layers and rounds (each both as a fresh object and written in place into the accepted one), and, for every checkpoint of the verifier (each round sum, each layer combination, each of the two input claims), a forged proof for false outputs built by a reference cheating prover that fails exactly this check (confirmed by the reference verifier); and pairs of last claims altered together so that only the comparison with the inputs can notice (near misses that share limbs or differ in sign, opposite and proportional errors); and zero proofs of zero outputs whose last claims are the true ones. Non-trivial: distinct (circuit, kind of fault, place)",
		Require: []string{"honest", "single_element", "sum_preserving", "swap", "in_place", "forged_round", "forged_combine", "forged_inputL", "forged_inputR", "forged_mimc", "forged_large", "special_batches", "special_outputs", "rebalanced", "rebalanced_both", "rebalanced_opposite", "forged_zero", "forged_zero_one_check", "forged_zero_equal_points"},
	}, run)
}

type inst struct {
	c       *ref.Circuit
	bN, k   int
	kOut    int  // the outputs may come in other chunks than the inputs
	special bool // not a uniformly random batch
	flat    []fr.Element
	vals    [][]fr.Element
	ver     gkr.Verifier
	in, out [][]fr.Element
	q, qp   []fr.Element
	honest  *ref.Proof
	obj     gkr.Proof // a copy of it that is altered in place
}

func setup(t *kit.T, c *ref.Circuit, bN, k int, mimc bool) *inst {
	s := &inst{c: c, bN: bN, k: k, kOut: k}
	if t.Rng.P(1, 3) {
		s.kOut = t.Rng.Range(0, bN)
	}
	s.flat = t.Rng.FrsUniform(1 << (bN + c.BGIn(0)))
	if t.Rng.P(1, 5) { // zero, constant and other special batches
		s.flat = gen.Inputs(t.Rng, c, bN)
		s.special = true
		t.Count("special_batches", 1)
	}
	s.vals = c.Evaluate(s.flat, bN)
	rc := gen.Repo(c, false)
	if mimc {
		rc = examples.CreateMimcCircuit()
	}
	s.ver = gkr.NewVerifier(bN, rc)
	s.in = ref.Split(s.flat, 1<<k)
	s.out = ref.Split(s.vals[len(s.vals)-1], 1<<s.kOut)
	s.qp, s.q = gkr.GetInitialQPrimeAndQ(bN, c.BGOut(len(c.Layers)-1))
	var zero fr.Element
	s.honest, _ = ref.Prove(c, bN, s.vals, s.qp, s.q, zero, ref.Drop{Kind: "none"}, nil)
	f, sh := ref.Verify(c, bN, s.honest, s.flat, s.vals[len(s.vals)-1], s.qp, s.q)
	if len(f) > 0 || sh != "" {
		panic(fmt.Sprintf("harness: the reference proof does not verify: %v %s", f, sh))
	}
	s.obj = gen.FromProof(s.honest)
	if !s.ver.Verify(s.obj, s.in, s.out) {
		t.Fail("the verifier rejects the honest proof of the reference prover: bN=%d chunks=%d %s", bN, 1<<k, gen.Describe(c))
	}
	t.Count("honest", 1)
	return s
}

// mustReject presents a bad proof for the honest batch.
func (s *inst) mustReject(t *kit.T, p *ref.Proof, what string) {
	f, sh := ref.Verify(s.c, s.bN, p, s.flat, s.vals[len(s.vals)-1], s.qp, s.q)
	if len(f) == 0 && sh == "" {
		return // the alteration happens to be valid
	}
	if s.ver.Verify(gen.FromProof(p), s.in, s.out) {
		t.Fail("altered proof accepted (%s); failing conditions: %v; bN=%d chunks=%d,%d %s", what, f, s.bN, 1<<s.k, 1<<s.kOut, gen.Describe(s.c))
	}
	t.Eval(1)
	t.Distinct(gen.Describe(s.c), s.bN, what)
	// the same alteration written into the proof object the verifier has already accepted
	if t.Rng.P(1, 2) && overwrite(s.obj, p) {
		if s.ver.Verify(s.obj, s.in, s.out) {
			t.Fail("proof altered in place after it was accepted: accepted (%s); failing conditions: %v; bN=%d chunks=%d,%d %s", what, f, s.bN, 1<<s.k, 1<<s.kOut, gen.Describe(s.c))
		}
		overwrite(s.obj, s.honest)
		if !s.ver.Verify(s.obj, s.in, s.out) {
			t.Fail("honest proof rejected once an altered one was presented (%s); bN=%d chunks=%d %s", what, s.bN, 1<<s.k, gen.Describe(s.c))
		}
		t.Eval(2)
		t.Count("in_place", 1)
	}
}

// overwrite writes p into the slices of dst; it reports false when the shapes differ.
func overwrite(dst gkr.Proof, p *ref.Proof) bool {
	for l := range p.Polys {
		if len(dst.SumcheckProofs[l].PolyCoeffs) != len(p.Polys[l]) {
			return false
		}
		for i := range p.Polys[l] {
			if len(dst.SumcheckProofs[l].PolyCoeffs[i]) != len(p.Polys[l][i]) {
				return false
			}
		}
	}
	for l := range p.Polys {
		for i := range p.Polys[l] {
			copy(dst.SumcheckProofs[l].PolyCoeffs[i], p.Polys[l][i])
		}
	}
	copy(dst.ClaimsLeft, p.CL)
	copy(dst.ClaimsRight, p.CR)
	return true
}

func (s *inst) alter(t *kit.T, full bool, sample int) {
	h := s.honest
	delta := func() fr.Element { return t.Rng.FrNZ() }
	skip := func() bool { return !full && !t.Rng.P(1, sample) }
	for l := range h.Polys {
		for i := range h.Polys[l] {
			for j := range h.Polys[l][i] {
				if skip() {
					continue
				}
				p := h.Clone()
				p.Polys[l][i][j] = ref.Add(p.Polys[l][i][j], delta())
				s.mustReject(t, p, fmt.Sprintf("coefficient %d of round %d of layer %d", j, i, l))
				t.Count("single_element", 1)
			}
			if n := len(h.Polys[l][i]); n >= 2 && !skip() {
				// keep p(0)+p(1): a0 += d, a_j -= 2d
				p := h.Clone()
				d := delta()
				j := 1 + t.Rng.Intn(n-1)
				p.Polys[l][i][0] = ref.Add(p.Polys[l][i][0], d)
				p.Polys[l][i][j] = ref.Sub(p.Polys[l][i][j], ref.Add(d, d))
				s.mustReject(t, p, fmt.Sprintf("sum-preserving change of round %d of layer %d", i, l))
				t.Count("sum_preserving", 1)
			}
			if n := len(h.Polys[l][i]); n >= 3 && !skip() {
				p := h.Clone()
				d := delta()
				j := 1 + t.Rng.Intn(n-2)
				p.Polys[l][i][j] = ref.Add(p.Polys[l][i][j], d)
				p.Polys[l][i][n-1] = ref.Sub(p.Polys[l][i][n-1], d)
				s.mustReject(t, p, fmt.Sprintf("sum-preserving change of round %d of layer %d, coefficients %d and %d", i, l, j, n-1))
				t.Count("sum_preserving", 1)
			}
		}
		for side := 0; side < 2; side++ {
			if skip() {
				continue
			}
			p := h.Clone()
			if side == 0 {
				p.CL[l] = ref.Add(p.CL[l], delta())
			} else {
				p.CR[l] = ref.Add(p.CR[l], delta())
			}
			s.mustReject(t, p, fmt.Sprintf("claim side %d of layer %d", side, l))
			t.Count("single_element", 1)
		}
		if !skip() {
			p := h.Clone()
			p.CL[l], p.CR[l] = p.CR[l], p.CL[l]
			s.mustReject(t, p, fmt.Sprintf("claims of layer %d swapped", l))
			t.Count("swap", 1)
		}
		if l > 0 && !skip() {
			p := h.Clone()
			p.Polys[l], p.Polys[l-1] = p.Polys[l-1], p.Polys[l]
			s.mustReject(t, p, fmt.Sprintf("sumcheck proofs of layers %d and %d swapped", l, l-1))
			p = h.Clone()
			p.CL[l], p.CL[l-1] = p.CL[l-1], p.CL[l]
			s.mustReject(t, p, fmt.Sprintf("left claims of layers %d and %d swapped", l, l-1))
		}
		if n := len(h.Polys[l]); n >= 2 && !skip() {
			p := h.Clone()
			i := t.Rng.Intn(n - 1)
			p.Polys[l][i], p.Polys[l][i+1] = p.Polys[l][i+1], p.Polys[l][i]
			s.mustReject(t, p, fmt.Sprintf("rounds %d and %d of layer %d swapped", i, i+1, l))
			t.Count("swap", 1)
		}
	}
	zero := h.Clone()
	for l := range zero.Polys {
		zero.CL[l], zero.CR[l] = fr.Element{}, fr.Element{}
		for i := range zero.Polys[l] {
			for j := range zero.Polys[l][i] {
				zero.Polys[l][i][j] = fr.Element{}
			}
		}
	}
	s.mustReject(t, zero, "all-zero proof")
}

// forge presents, for false outputs, a proof that fails exactly one check.
func (s *inst) forge(t *kit.T, d ref.Drop, mode int) {
	out := s.vals[len(s.vals)-1]
	bad := kit.Clone(out)
	// false output(s)
	n := 1
	if t.Rng.P(1, 3) {
		n = t.Rng.Range(1, len(bad))
	}
	for i := 0; i < n; i++ {
		k := t.Rng.Intn(len(bad))
		bad[k] = ref.Add(bad[k], t.Rng.FrNZ())
	}
	if t.Rng.P(1, 4) { // outputs whose claim is special
		x := t.Rng.Pick(0, 0, 1, 2)
		for i := range bad {
			switch x {
			case 0:
				bad[i] = fr.Element{}
			case 1:
				bad[i] = ref.One()
			default:
				bad[i] = ref.Neg(out[i])
			}
		}
		t.Count("special_outputs", 1)
	}
	pt := append(append([]fr.Element{}, s.q...), s.qp...)
	err := ref.Sub(ref.MLE(bad, pt), ref.MLE(out, pt))
	if err.IsZero() {
		t.Count("output_error_invisible", 1)
		return
	}
	absorb := func(layer int) bool {
		switch mode {
		case 0:
			return false
		case 1:
			return true
		}
		return t.Rng.Bool()
	}
	p, ok := ref.Prove(s.c, s.bN, s.vals, s.qp, s.q, err, d, absorb)
	if !ok {
		t.Count("not_forgeable", 1)
		return
	}
	f, sh := ref.Verify(s.c, s.bN, p, s.flat, bad, s.qp, s.q)
	if len(f) == 0 && sh == "" { // a special batch can make false values consistent
		t.Count("forgery_valid", 1)
		return
	}
	if !s.special && (len(f) != 1 || f[0] != d || sh != "") {
		panic(fmt.Sprintf("harness: the forgery for %v fails %v %s", d, f, sh))
	}
	if s.ver.Verify(gen.FromProof(p), s.in, ref.Split(bad, 1<<s.kOut)) {
		t.Fail("forged proof accepted: false outputs, only the check %v fails; bN=%d chunks=%d %s", d, s.bN, 1<<s.k, gen.Describe(s.c))
	}
	t.Eval(1)
	t.Count("forged_"+d.Kind, 1)
	t.Distinct(gen.Describe(s.c), s.bN, "forged", d.String())
}

// zeroForge presents the zero proof for all-zero outputs: nothing but the
// combination of the first layer contradicts it, and rounds of the same length
// have the same challenge.
func (s *inst) zeroForge(t *kit.T) {
	p := ref.ZeroForgery(s.c, s.bN, s.honest, s.flat)
	bad := make([]fr.Element, len(s.vals[len(s.vals)-1]))
	f, sh := ref.Verify(s.c, s.bN, p, s.flat, bad, s.qp, s.q)
	if len(f) == 0 && sh == "" {
		t.Count("forgery_valid", 1)
		return
	}
	if s.ver.Verify(gen.FromProof(p), s.in, ref.Split(bad, 1<<s.kOut)) {
		t.Fail("zero proof accepted for zero outputs, the checks %v fail; bN=%d chunks=%d,%d %s", f, s.bN, 1<<s.k, 1<<s.kOut, gen.Describe(s.c))
	}
	t.Eval(1)
	t.Count("forged_zero", 1)
	t.Distinct(gen.Describe(s.c), s.bN, "zero forgery")
	if len(f) == 1 && f[0].Kind == "combine" && f[0].Layer == 0 {
		t.Count("forged_zero_one_check", 1)
		if hL, hR, _ := ref.FinalPoints(s.c, s.bN, p); len(hL) > 0 && kit.Eq(hL, hR) {
			t.Count("forged_zero_equal_points", 1)
		}
	}
}

// rebalance alters the two last claims together so that everything but the
// comparison with the inputs holds: near misses of a claim, errors of the two
// claims that are opposite, equal or proportional.
func (s *inst) rebalance(t *kit.T) {
	h := s.honest
	l, r := h.CL[0], h.CR[0]
	d := t.Rng.FrUniform()
	for side := 0; side < 2; side++ {
		cur, oth := l, r
		if side == 1 {
			cur, oth = r, l
		}
		vs := append(ref.Near(cur), oth, ref.Add(cur, d), ref.Sub(cur, ref.Half), ref.U(7))
		for n, v := range vs {
			p, ok := ref.Rebalance(s.c, s.bN, h, s.qp, s.q, side == 0, v)
			if !ok || kit.Eq(p.CL, h.CL) && kit.Eq(p.CR, h.CR) {
				continue
			}
			f, sh := ref.Verify(s.c, s.bN, p, s.flat, s.vals[len(s.vals)-1], s.qp, s.q)
			for _, x := range f {
				if x.Kind != "inputL" && x.Kind != "inputR" || sh != "" {
					panic(fmt.Sprintf("harness: the rebalanced proof fails %v %s", f, sh))
				}
			}
			s.mustReject(t, p, fmt.Sprintf("last claims rebalanced, side %d, value %d", side, n))
			t.Count("rebalanced", 1)
			if p.CL[0] != l && p.CR[0] != r {
				t.Count("rebalanced_both", 1)
				if ref.Add(p.CL[0], p.CR[0]) == ref.Add(l, r) {
					t.Count("rebalanced_opposite", 1)
				}
			}
		}
	}
}

func run(r *kit.Run) {
	for i := 0; i < r.N(96, 3000); i++ {
		r.Case(fmt.Sprintf("rebalance/%d", i), func(t *kit.T) {
			g := t.Rng
			c := gen.Circuit(g, gen.Opts{MaxLayers: 3, MaxBG: g.Pick(0, 1, 1, 2), MaxWires: 5, Gates: gen.Linear, NoGaps: true, Dense: g.Bool()})
			// one kind of gate in the first layer
			var gt ref.Gate
			switch i % 4 {
			case 0:
				gt = ref.AddG
			case 1:
				gt = ref.CopyG
			case 2:
				gt = ref.MulG
			default:
				gt = ref.PolyGate{C: [][]fr.Element{{g.Fr(), g.FrNZ()}}} // of the right value only
			}
			for w := range c.Layers[0] {
				c.Layers[0][w].G = gt
			}
			bN := g.Range(0, 4)
			s := setup(t, c, bN, g.Range(0, bN), false)
			s.rebalance(t)
			s.zeroForge(t)
		})
	}
	for i := 0; i < r.N(90, 4000); i++ {
		r.Case(fmt.Sprintf("alter/%d", i), func(t *kit.T) {
			g := t.Rng
			kind := gen.Builtin
			if g.P(1, 4) {
				kind = gen.WithUser
			}
			c := gen.Circuit(g, gen.Opts{MaxLayers: 4, MaxBG: g.Pick(0, 1, 1, 2), MaxWires: 5, Gates: kind, Dense: g.Bool()})
			bN := g.Range(0, 3)
			s := setup(t, c, bN, g.Range(0, bN), false)
			s.alter(t, true, 1)
			s.zeroForge(t)
			if i < 16 {
				t.Sample(map[string]interface{}{"case": t.Name, "circuit": gen.Describe(c), "bN": bN})
			}
		})
	}
	for i := 0; i < r.N(160, 8000); i++ {
		r.Case(fmt.Sprintf("forge/%d", i), func(t *kit.T) {
			g := t.Rng
			c := gen.Circuit(g, gen.Opts{MaxLayers: g.Pick(1, 3, 5), MaxBG: g.Pick(0, 1, 1, 2), MaxWires: 5, Gates: gen.Linear, Dense: g.Bool(), NoGaps: true})
			bN := g.Range(0, 3)
			s := setup(t, c, bN, g.Range(0, bN), false)
			for _, d := range ref.Checkpoints(c, bN) {
				s.forge(t, d, i%3)
			}
		})
	}
	// larger batches, wider layers, deeper circuits: sampled alterations and forgeries
	for i := 0; i < r.N(48, 2000); i++ {
		r.Case(fmt.Sprintf("large/%d", i), func(t *kit.T) {
			g := t.Rng
			o := gen.Opts{MaxLayers: 3, MaxBG: 1, MaxWires: 5, Gates: gen.Linear, Dense: g.Bool(), NoGaps: true}
			bN := g.Range(0, 3)
			forges := r.N(24, 60)
			switch i % 4 {
			case 0:
				bN = g.Range(4, 8)
				if i%12 == 0 {
					bN, o.MaxLayers, o.MaxWires, forges = g.Range(9, 13), 2, 3, 8
				}
			case 1:
				o.MaxBG, o.MaxWires = g.Range(3, 5), 40
			case 2:
				o.MinLayers, o.MaxLayers = 8, 24
				if g.P(1, 6) {
					o.MinLayers, o.MaxLayers, o.MaxWires = 64, 150, 2
				}
				if i%24 == 2 {
					o.MinLayers, o.MaxLayers, o.MaxWires, o.MaxBG, bN = 260, 300, 1, g.Intn(2), g.Intn(2)
				} else if i%24 == 14 {
					o.MinLayers, o.MaxLayers = 1, 3
					o.Gates, o.MinPool, o.MaxPool, o.MinWires, o.MaxWires = gen.WithUser, 60, 120, 100, 200
				}
			default:
				bN, o.MaxBG, o.MaxWires, o.MaxLayers = g.Range(2, 5), 3, 20, 8
			}
			c := gen.Circuit(g, o)
			s := setup(t, c, bN, g.Range(0, bN), false)
			n := 0
			for l := range s.honest.Polys {
				n += 2
				for _, p := range s.honest.Polys[l] {
					n += len(p)
				}
			}
			s.alter(t, false, n/forges+1)
			cps := ref.Checkpoints(c, bN)
			for k := 0; k < forges; k++ {
				d := cps[g.Intn(len(cps))]
				if len(c.Layers) > 256 && k >= forges/2 { // the first ones: last layers
					d = cps[len(cps)-3-g.Intn(len(cps)/8)]
				}
				if k < 4 { // the last ones: inputs and first layer
					d = cps[len(cps)-1-k%len(cps)]
				}
				s.forge(t, d, k%3)
				t.Count("forged_large", 1)
			}
			t.Max("bN", bN)
			t.Max("layers", len(c.Layers))
			t.Max("bG", c.BGIn(0))
		})
	}
	// MiMC: spread the checkpoints of the 91 layers over the cases
	for i := 0; i < r.N(16, 64); i++ {
		r.Case(fmt.Sprintf("mimc/%d", i), func(t *kit.T) {
			g := t.Rng
			bN := i % 3
			c := gen.Mimc()
			s := setup(t, c, bN, g.Range(0, bN), true)
			s.alter(t, false, r.N(250, 60))
			cps := ref.Checkpoints(c, bN)
			n := r.N(22, 400)
			for k := 0; k < n; k++ {
				d := cps[g.Intn(len(cps))]
				switch k {
				case 0:
					d = cps[len(cps)-1]
				case 1:
					d = cps[len(cps)-2]
				case 2:
					d = ref.Drop{Layer: 90, Kind: "combine"}
				case 3, 4, 5, 6:
					d = ref.Drop{Layer: g.Intn(91), Kind: "combine"}
				}
				s.forge(t, d, k%3)
				t.Count("forged_mimc", 1)
			}
		})
	}
}
