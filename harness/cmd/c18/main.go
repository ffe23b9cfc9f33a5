// C18: the in-SNARK GKR verifier agrees with the native verifier.
package main

import (
	"fmt"

	"gkr-mimc/examples"
	"gkr-mimc/gkr"
	sgkr "gkr-mimc/snark/gkr"
	"gkr-mimc/snark/polynomial"
	"gkr-mimc/sumcheck"

	"verif/gen"
	"verif/kit"
	"verif/ref"
	"verif/snk"

	"github.com/consensys/gnark/backend/r1cs"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gurvy"
	"github.com/consensys/gurvy/bn256/fr"
)

func main() {
	kit.Main(kit.Config{
		ID:        "C18",
		Rule:      "the compiled constraint system of the in-SNARK MiMC GKR verifier (batches 2^0..2^5, all chunkings) decides, through gnark's solver, honest proofs, proofs with altered elements, inputs, outputs, initial points or shapes, and forged proofs for false outputs that fail exactly one check (any layer, any round, gate combination, either input claim); every verdict is compared with the native verifier's and with the independent reference's. Non-trivial: distinct (batch, chunking, alteration or checkpoint)",
		Require:   []string{"honest_satisfied", "forged_round", "forged_combine", "forged_inputL", "forged_inputR", "altered_proof", "altered_input", "altered_output", "altered_point", "malformed", "steered_input", "rebalanced", "special_outputs", "large_batch"},
		CPUBudget: 600,
	}, run)
}

type vcirc struct {
	Circuit                 sgkr.Circuit
	Proof                   sgkr.Proof
	QInitial, QInitialprime []frontend.Variable
	VInput, VOutput         polynomial.MultilinearByValues
}

func (c *vcirc) Define(_ gurvy.ID, cs *frontend.ConstraintSystem) error {
	c.Proof.AssertValid(cs, c.Circuit, c.QInitial, c.QInitialprime, c.VInput, c.VOutput)
	return nil
}

func alloc(bN int) *vcirc {
	c := sgkr.CreateMimcCircuit()
	return &vcirc{Circuit: c, Proof: sgkr.AllocateProof(bN, c), QInitial: []frontend.Variable{}, QInitialprime: make([]frontend.Variable, bN),
		VInput: polynomial.AllocateMultilinear(bN + 1), VOutput: polynomial.AllocateMultilinear(bN)}
}

var systems = map[int]r1cs.R1CS{}

func system(t *kit.T, bN int) r1cs.R1CS {
	if s, ok := systems[bN]; ok {
		return s
	}
	var r r1cs.R1CS
	var err error
	snk.Quiet(func() { r, err = frontend.Compile(gurvy.BN256, alloc(bN)) })
	if err != nil {
		t.Fail("the verifier circuit for 2^%d instances does not compile: %v", bN, err)
	}
	systems = map[int]r1cs.R1CS{bN: r} // one at a time: they are large
	t.Max("constraints", int(r.GetNbConstraints()))
	return r
}

type inst struct {
	bN, k   int
	shift   int // the outputs come in 2^((k+shift) mod (bN+1)) chunks
	c       *ref.Circuit
	flat    []fr.Element
	vals    [][]fr.Element
	qp      []fr.Element
	honest  *ref.Proof
	ver     gkr.Verifier
	r1      r1cs.R1CS
	verdict int
}

// snark decides the constraint system; refused means that the witness could not even be assigned.
func (s *inst) snark(p gkr.Proof, in, out, qp []fr.Element, k int) (ok bool, why string) {
	w := alloc(s.bN)
	if m, panicked := kit.Panics(func() {
		w.Proof.Assign(p)
		for i := range qp {
			w.QInitialprime[i].Assign(qp[i])
		}
		w.VInput.AssignFromChunkedBKT(ref.Split(in, 1<<k))
		w.VOutput.AssignFromChunkedBKT(ref.Split(out, s.outChunks(k)))
	}); panicked {
		return false, "refused: " + m
	}
	return snk.SolvedWitness(s.r1, w)
}

func (s *inst) outChunks(k int) int { return 1 << ((k + s.shift) % (s.bN + 1)) }

func setup(t *kit.T, bN int) *inst {
	g := t.Rng
	s := &inst{bN: bN, k: g.Range(0, bN), c: gen.Mimc(), r1: system(t, bN)}
	if g.P(1, 3) {
		s.shift = g.Range(0, bN)
	}
	s.flat = gen.Inputs(g, s.c, bN)
	s.vals = s.c.Evaluate(s.flat, bN)
	s.qp, _ = gkr.GetInitialQPrimeAndQ(bN, 0)
	rc := examples.CreateMimcCircuit()
	a := rc.Assign(ref.Split(s.flat, 1<<s.k), g.Range(1, 8))
	p := gkr.NewProver(rc, a)
	pr := p.Prove(g.Range(1, 8))
	s.ver = gkr.NewVerifier(bN, rc)
	out := s.vals[91]
	if !s.ver.Verify(pr, ref.Split(s.flat, 1<<s.k), ref.Split(out, s.outChunks(s.k))) {
		// not this property's business, but nothing can be compared either
		t.Fail("the native verifier rejects the honest proof")
	}
	for _, k := range []int{s.k, 0, bN} {
		if k != s.k && g.P(2, 3) {
			continue
		}
		if ok, why := s.snark(pr, s.flat, out, s.qp, k); !ok {
			t.Fail("honest proof of 2^%d instances in %d chunks does not satisfy the in-SNARK verifier: %s", bN, 1<<k, why)
		}
		t.Eval(1)
		t.Count("honest_satisfied", 1)
		t.Distinct("honest", bN, k, kit.Str(s.flat...))
	}
	s.honest = gen.ToProof(pr)
	return s
}

// mustReject: the native verifier rejects, so must the constraint system.
func (s *inst) mustReject(t *kit.T, p gkr.Proof, in, out []fr.Element, what string) {
	if s.ver.Verify(p, ref.Split(in, 1<<s.k), ref.Split(out, s.outChunks(s.k))) {
		t.Count("native_accepts", 1) // C02's, C03's or C04's business; the two then have to agree
		if ok, why := s.snark(p, in, out, s.qp, s.k); !ok {
			t.Fail("bN=%d: %s: the native verifier accepts, the in-SNARK verifier does not: %s", s.bN, what, why)
		}
		return
	}
	if ok, _ := s.snark(p, in, out, s.qp, s.k); ok {
		t.Fail("bN=%d chunks=%d: %s: the native verifier rejects, the in-SNARK verifier is satisfied", s.bN, 1<<s.k, what)
	}
	t.Eval(1)
	t.Distinct("reject", s.bN, s.k, what)
}

func (s *inst) forge(t *kit.T, d ref.Drop, mode int) {
	g := t.Rng
	out := s.vals[91]
	bad := kit.Clone(out)
	n := 1
	if g.P(1, 3) {
		n = g.Range(1, len(bad))
	}
	for i := 0; i < n; i++ {
		k := g.Intn(len(bad))
		bad[k] = ref.Add(bad[k], g.FrNZ())
	}
	if g.P(1, 6) { // outputs whose claim is special
		x := g.Pick(0, 0, 1, 2)
		for i := range bad {
			switch x {
			case 0:
				bad[i] = fr.Element{}
			case 1:
				bad[i] = ref.One()
			default:
				bad[i] = ref.Neg(out[i])
			}
		}
		t.Count("special_outputs", 1)
	}
	err := ref.Sub(ref.MLE(bad, s.qp), ref.MLE(out, s.qp))
	if err.IsZero() {
		return
	}
	p, ok := ref.Prove(s.c, s.bN, s.vals, s.qp, nil, err, d, func(int) bool { return mode == 1 || mode == 2 && g.Bool() })
	if !ok {
		t.Count("not_forgeable", 1)
		return
	}
	f, sh := ref.Verify(s.c, s.bN, p, s.flat, bad, s.qp, nil)
	if len(f) != 1 || f[0] != d || sh != "" {
		panic(fmt.Sprintf("harness: the forgery for %v fails %v %s", d, f, sh))
	}
	s.mustReject(t, gen.FromProof(p), s.flat, bad, "forged proof failing only "+d.String())
	t.Count("forged_"+d.Kind, 1)
}

func (s *inst) alter(t *kit.T, n int) {
	g := t.Rng
	out := s.vals[91]
	for i := 0; i < n; i++ {
		p := s.honest.Clone()
		l := g.Intn(91)
		switch i % 7 {
		case 0, 1:
			r := g.Intn(len(p.Polys[l]))
			j := g.Intn(len(p.Polys[l][r]))
			p.Polys[l][r][j] = ref.Add(p.Polys[l][r][j], g.FrNZ())
			s.mustReject(t, gen.FromProof(p), s.flat, out, fmt.Sprintf("coefficient %d of round %d of layer %d changed", j, r, l))
			t.Count("altered_proof", 1)
		case 2: // keeps p(0)+p(1)
			r := g.Intn(len(p.Polys[l]))
			d, j := g.FrNZ(), 1+g.Intn(len(p.Polys[l][r])-1)
			p.Polys[l][r][0] = ref.Add(p.Polys[l][r][0], d)
			p.Polys[l][r][j] = ref.Sub(p.Polys[l][r][j], ref.Add(d, d))
			s.mustReject(t, gen.FromProof(p), s.flat, out, fmt.Sprintf("sum-preserving change of round %d of layer %d", r, l))
			t.Count("altered_proof", 1)
		case 3:
			if i%2 == 0 {
				p.CL[l] = ref.Add(p.CL[l], g.FrNZ())
			} else {
				p.CR[l] = ref.Add(p.CR[l], g.FrNZ())
			}
			s.mustReject(t, gen.FromProof(p), s.flat, out, fmt.Sprintf("claim of layer %d changed", l))
			t.Count("altered_proof", 1)
		case 4:
			x := kit.Clone(s.flat)
			j := g.Intn(len(x))
			x[j] = ref.Add(x[j], g.FrNZ())
			s.mustReject(t, gen.FromProof(p), x, out, fmt.Sprintf("input %d changed", j))
			t.Count("altered_input", 1)
		case 5:
			x := kit.Clone(out)
			j := g.Intn(len(x))
			x[j] = ref.Add(x[j], g.FrNZ())
			s.mustReject(t, gen.FromProof(p), s.flat, x, fmt.Sprintf("output %d changed", j))
			t.Count("altered_output", 1)
		case 6:
			if s.bN == 0 {
				continue
			}
			constant := true
			for _, x := range out {
				constant = constant && x == out[0]
			}
			q := kit.Clone(s.qp)
			j := g.Intn(len(q))
			q[j] = ref.Add(q[j], g.FrNZ())
			if ok, _ := s.snark(gen.FromProof(p), s.flat, out, q, s.k); ok && !constant {
				t.Fail("bN=%d: the proof satisfies the in-SNARK verifier at another initial point", s.bN)
			}
			t.Eval(1)
			t.Count("altered_point", 1)
			t.Distinct("point", s.bN, j, kit.Str(q...))
		}
	}
	// shapes
	h := gen.FromProof(s.honest)
	p := h
	l := g.Intn(91)
	what := ""
	cp := func() {
		p.SumcheckProofs = append([]sumcheck.Proof{}, h.SumcheckProofs...)
		p.SumcheckProofs[l].PolyCoeffs = append([][]fr.Element{}, h.SumcheckProofs[l].PolyCoeffs...)
	}
	cp()
	for x := 0; x < 9; x++ {
		p = h
		cp()
		sc := &p.SumcheckProofs[l]
		switch x {
		case 0:
			what = "extra layer"
			p.SumcheckProofs = append(p.SumcheckProofs, h.SumcheckProofs[90])
			p.ClaimsLeft = append(kit.Clone(h.ClaimsLeft), g.Fr())
			p.ClaimsRight = append(kit.Clone(h.ClaimsRight), g.Fr())
		case 1:
			what = "extra left claim"
			p.ClaimsLeft = append(kit.Clone(h.ClaimsLeft), g.Fr())
		case 2:
			what = "extra right claim"
			p.ClaimsRight = append(kit.Clone(h.ClaimsRight), g.Fr())
		case 3:
			what = "missing layer"
			p.SumcheckProofs = p.SumcheckProofs[:90]
			p.ClaimsLeft, p.ClaimsRight = p.ClaimsLeft[:90], p.ClaimsRight[:90]
		case 4:
			what = "extra round"
			sc.PolyCoeffs = append(sc.PolyCoeffs, g.Frs(9))
		case 5:
			what = "missing round"
			sc.PolyCoeffs = sc.PolyCoeffs[:len(sc.PolyCoeffs)-1]
		case 6:
			what = "longer polynomial"
			sc.PolyCoeffs[0] = append(kit.Clone(sc.PolyCoeffs[0]), fr.Element{})
		case 7:
			what = "shorter polynomial"
			sc.PolyCoeffs[0] = sc.PolyCoeffs[0][:len(sc.PolyCoeffs[0])-1]
		case 8:
			what = "empty polynomial"
			sc.PolyCoeffs[0] = nil
		}
		s.mustReject(t, p, s.flat, out, what)
		t.Count("malformed", 1)
	}
}

// near presents batches and last claims whose two errors are opposite, equal
// or proportional, so that only the comparison with the inputs can notice.
func (s *inst) near(t *kit.T, n int) {
	g := t.Rng
	out := s.vals[91]
	h := s.honest
	hL, hR, hP := ref.FinalPoints(s.c, s.bN, h)
	wl, wr := ref.EqTable(append(kit.Clone(hL), hP...)), ref.EqTable(append(kit.Clone(hR), hP...))
	lam := ref.MimcHash([]fr.Element{h.CL[0], h.CR[0]})
	rhos := []fr.Element{ref.Neg(ref.One()), ref.One(), ref.Neg(ref.U(2)), ref.Neg(ref.Half), ref.Neg(lam), ref.Neg(ref.Inv(lam))}
	eL, eR := ref.Dot(wl, s.flat), ref.Dot(wr, s.flat)
	for k := 0; k < n; k++ {
		var dl, dr fr.Element
		switch {
		case k == 0 || g.P(2, 3):
			dl = g.FrUniform()
			rho := rhos[0]
			if k > 0 {
				rho = rhos[g.Intn(len(rhos))]
			}
			dr = ref.Mul(rho, dl)
		default:
			dl, dr = ref.Sub(eR, eL), ref.Sub(eL, eR)
		}
		i := g.Intn(len(wl))
		j := (i + 1 + g.Intn(len(wl)-1)) % len(wl)
		if x, ok := ref.Steer(s.flat, wl, wr, i, j, dl, dr); ok && !kit.Eq(x, s.flat) {
			s.mustReject(t, gen.FromProof(h), x, out, fmt.Sprintf("inputs %d and %d steered", i, j))
			t.Count("steered_input", 1)
		}
	}
	for k := 0; k < n; k++ {
		side := k % 2
		cur, oth := h.CL[0], h.CR[0]
		if side == 1 {
			cur, oth = oth, cur
		}
		vs := append(ref.Near(cur), oth, ref.Add(cur, g.FrNZ()))
		p, ok := ref.Rebalance(s.c, s.bN, h, s.qp, nil, side == 0, vs[g.Intn(len(vs))])
		if !ok || kit.Eq(p.CL, h.CL) && kit.Eq(p.CR, h.CR) {
			continue
		}
		s.mustReject(t, gen.FromProof(p), s.flat, out, fmt.Sprintf("last claims rebalanced, side %d", side))
		t.Count("rebalanced", 1)
	}
}

func run(r *kit.Run) {
	// the shard (index mod 8) fixes the batch size: one constraint system per child
	batch := []int{0, 1, 2, 5, 1, 2, 4, 3}
	if r.Thorough() {
		batch = []int{0, 1, 2, 3, 5, 6, 3, 4}
	}
	const rounds = 3 // batches of cases per shard
	perShard := r.N(1, 4)
	for j := 0; j < rounds*perShard; j++ {
		for sh, bN := range batch {
			r.Case(fmt.Sprintf("bN%d/%d/%d", bN, sh, j), func(t *kit.T) {
				large := bN > 3 // solving takes long
				s := setup(t, bN)
				if large {
					t.Count("large_batch", 1)
					s.alter(t, r.N(7, 60))
					s.near(t, r.N(1, 10))
				} else {
					s.alter(t, r.N(14, 200))
					s.near(t, r.N(3, 40))
				}
				cps := ref.Checkpoints(s.c, bN)
				s.forge(t, cps[len(cps)-1], 0)
				s.forge(t, cps[len(cps)-2], 1)
				// the first and the last layer, every kind of check
				nR := bN + 2
				for _, l := range []int{90, 0} {
					s.forge(t, ref.Drop{Layer: l, Kind: "combine"}, t.Rng.Intn(3))
					for _, rd := range []int{0, nR - 1, t.Rng.Intn(nR)} {
						if !large || l == 90 && rd == 0 {
							s.forge(t, ref.Drop{Layer: l, Kind: "round", Round: rd}, t.Rng.Intn(3))
						}
					}
				}
				// cut the checkpoints among the cases with this batch size
				cases, me := 0, 0
				for jj := 0; jj < rounds*perShard; jj++ {
					for ss, b := range batch {
						if b == bN {
							if jj == j && ss == sh {
								me = cases
							}
							cases++
						}
					}
				}
				limit := r.N(20, 1<<30)
				if large {
					limit = r.N(6, 60)
				}
				for _, i := range t.Rng.Perm(len(cps)) {
					if i%cases != me {
						continue
					}
					if limit--; limit < 0 {
						break
					}
					s.forge(t, cps[i], t.Rng.Intn(3))
				}
				t.Sample(map[string]interface{}{"case": t.Name, "bN": bN, "chunks": 1 << s.k, "constraints": s.r1.GetNbConstraints()})
			})
		}
	}
}
