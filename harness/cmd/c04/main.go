// C04: malformed proofs are decided (rejected) without crashing.
package main

import (
	"fmt"

	"gkr-mimc/examples"
	"gkr-mimc/gkr"
	"gkr-mimc/sumcheck"

	"verif/gen"
	"verif/kit"
	"verif/ref"

	"github.com/consensys/gurvy/bn256/fr"
)

func main() {
	kit.Main(kit.Config{
		ID:      "C04",
		Level:   "fault_enumeration",
		Rule:    "every way of removing, emptying, adding, duplicating or lengthening the parts of a proof (layers, claim lists, rounds, polynomials), at every place, alone and combined; proofs for other batch sizes and circuits; over-long but otherwise fully consistent polynomials from a reference prover; random shapes. The oracle: Verify returns false and does not panic. Non-trivial: distinct (circuit, malformation, place)",
		Require: []string{"honest", "layers", "claims", "rounds", "polys", "overlong_consistent", "foreign", "random_shape"},
	}, run)
}

type inst struct {
	c       *ref.Circuit
	bN      int
	v       gkr.Verifier
	proof   gkr.Proof
	in, out [][]fr.Element
	// flat reference view
	flat, flatOut []fr.Element
	qp, q         []fr.Element
}

// valid tells whether the reference verifier accepts the proof.
func (s *inst) valid(p gkr.Proof) bool {
	f, sh := ref.Verify(s.c, s.bN, gen.ToProof(p), s.flat, s.flatOut, s.qp, s.q)
	return sh == "" && len(f) == 0
}

func clone(p gkr.Proof) gkr.Proof { return gen.FromProof(gen.ToProof(p)) }

func (s *inst) reject(t *kit.T, p gkr.Proof, kind, what string) {
	var ok bool
	msg, pan := kit.Panics(func() { ok = s.v.Verify(p, s.in, s.out) })
	if pan {
		t.Fail("the verifier panics on a malformed proof (%s): %s; bN=%d %s", what, msg, s.bN, gen.Describe(s.c))
	}
	if ok {
		t.Fail("the verifier accepts a malformed proof (%s); bN=%d %s", what, s.bN, gen.Describe(s.c))
	}
	t.Eval(1)
	t.Count(kind, 1)
	t.Distinct(gen.Describe(s.c), s.bN, what)
}

func zeros(n int) []fr.Element { return make([]fr.Element, n) }

func (s *inst) shapes(t *kit.T) {
	g := t.Rng
	n := len(s.proof.SumcheckProofs)
	pick := g.Range(1, 3)
	// layers
	for _, k := range []int{0, n - 1, n + 1, n + 2} {
		p := clone(s.proof)
		if k <= n {
			p.SumcheckProofs = p.SumcheckProofs[:k]
		} else {
			for len(p.SumcheckProofs) < k {
				p.SumcheckProofs = append(p.SumcheckProofs, p.SumcheckProofs[0])
			}
		}
		s.reject(t, p, "layers", fmt.Sprintf("%d sumcheck proofs for %d layers", k, n))
		for side := 0; side < 2; side++ {
			p := clone(s.proof)
			c := &p.ClaimsLeft
			if side == 1 {
				c = &p.ClaimsRight
			}
			if k <= n {
				*c = (*c)[:k]
			} else {
				*c = append(*c, zeros(k-n)...)
			}
			s.reject(t, p, "claims", fmt.Sprintf("%d claims on side %d for %d layers", k, side, n))
			if k < n {
				q := clone(p)
				if side == 0 {
					q.ClaimsRight = q.ClaimsRight[:k]
				} else {
					q.SumcheckProofs = q.SumcheckProofs[:k]
				}
				s.reject(t, q, "claims", fmt.Sprintf("%d claims on side %d and elsewhere for %d layers", k, side, n))
			}
		}
		p = clone(s.proof)
		if k <= n {
			p.SumcheckProofs, p.ClaimsLeft, p.ClaimsRight = p.SumcheckProofs[:k], p.ClaimsLeft[:k], p.ClaimsRight[:k]
		} else {
			p.SumcheckProofs = append(p.SumcheckProofs, make([]sumcheck.Proof, k-n)...)
			p.ClaimsLeft = append(p.ClaimsLeft, zeros(k-n)...)
			p.ClaimsRight = append(p.ClaimsRight, zeros(k-n)...)
		}
		s.reject(t, p, "layers", fmt.Sprintf("%d whole layers instead of %d", k, n))
	}
	s.reject(t, gkr.Proof{}, "layers", "the zero proof object")
	{
		p := clone(s.proof)
		p.SumcheckProofs = append([]sumcheck.Proof{{}}, p.SumcheckProofs...)
		p.ClaimsLeft = append(zeros(1), p.ClaimsLeft...)
		p.ClaimsRight = append(zeros(1), p.ClaimsRight...)
		s.reject(t, p, "layers", "an empty layer in front")
		p = clone(s.proof)
		p.SumcheckProofs = p.SumcheckProofs[1:]
		p.ClaimsLeft = p.ClaimsLeft[1:]
		p.ClaimsRight = p.ClaimsRight[1:]
		s.reject(t, p, "layers", "the first layer is missing")
	}
	for l := 0; l < n; l++ {
		if n > 8 && l > 1 && l < n-2 && !g.P(1, 12) {
			continue
		}
		rounds := len(s.proof.SumcheckProofs[l].PolyCoeffs)
		mut := func(kind, what string, f func(ps [][]fr.Element) [][]fr.Element) {
			p := clone(s.proof)
			p.SumcheckProofs[l].PolyCoeffs = f(p.SumcheckProofs[l].PolyCoeffs)
			s.reject(t, p, kind, fmt.Sprintf("layer %d: %s", l, what))
		}
		if rounds > 0 {
			mut("rounds", "no round (nil)", func(ps [][]fr.Element) [][]fr.Element { return nil })
			mut("rounds", "no round (empty)", func(ps [][]fr.Element) [][]fr.Element { return ps[:0] })
			mut("rounds", "last round missing", func(ps [][]fr.Element) [][]fr.Element { return ps[:rounds-1] })
			mut("rounds", "first round missing", func(ps [][]fr.Element) [][]fr.Element { return ps[1:] })
			mut("rounds", "last round doubled", func(ps [][]fr.Element) [][]fr.Element { return append(ps, kit.Clone(ps[rounds-1])) })
			mut("rounds", "only one round", func(ps [][]fr.Element) [][]fr.Element {
				if rounds == 1 {
					return nil
				}
				return ps[:1]
			})
		}
		mut("rounds", "an extra zero round", func(ps [][]fr.Element) [][]fr.Element { return append(ps, zeros(1)) })
		mut("rounds", "an extra empty round", func(ps [][]fr.Element) [][]fr.Element { return append(ps, nil) })
		mut("rounds", "an extra empty round in front", func(ps [][]fr.Element) [][]fr.Element { return append([][]fr.Element{{}}, ps...) })
		mut("rounds", "an extra consistent constant round", func(ps [][]fr.Element) [][]fr.Element {
			// the running claim halves
			if rounds == 0 {
				return append(ps, zeros(1))
			}
			last := ps[rounds-1]
			c := ref.PolyEval(last, ref.MimcHash(last))
			return append(ps, []fr.Element{ref.Mul(c, ref.Half)})
		})
		if rounds > 0 {
			mut("rounds", "many extra rounds", func(ps [][]fr.Element) [][]fr.Element {
				return append(ps, kit.Clone2(append(ps, ps...))...)
			})
		}
		for i := 0; i < rounds; i++ {
			if !(i == 0 || i == rounds-1 || g.P(pick, 4)) {
				continue
			}
			deg := len(s.proof.SumcheckProofs[l].PolyCoeffs[i])
			mut("polys", fmt.Sprintf("round %d nil", i), func(ps [][]fr.Element) [][]fr.Element { ps[i] = nil; return ps })
			mut("polys", fmt.Sprintf("round %d empty", i), func(ps [][]fr.Element) [][]fr.Element { ps[i] = ps[i][:0]; return ps })
			mut("polys", fmt.Sprintf("round %d one zero too long", i), func(ps [][]fr.Element) [][]fr.Element {
				ps[i] = append(ps[i], zeros(1)...)
				return ps
			})
			mut("polys", fmt.Sprintf("round %d far too long", i), func(ps [][]fr.Element) [][]fr.Element {
				ps[i] = append(ps[i], g.Frs(40)...)
				return ps
			})
			if deg > 1 {
				for _, j := range []int{1, deg - 1} {
					// a shorter polynomial is only refused if it changes something
					p := clone(s.proof)
					cut := p.SumcheckProofs[l].PolyCoeffs[i][:j]
					p.SumcheckProofs[l].PolyCoeffs[i] = cut
					if s.valid(p) {
						continue
					}
					s.reject(t, p, "polys", fmt.Sprintf("layer %d round %d cut to %d coefficients", l, i, j))
				}
			}
		}
		if rounds > 1 {
			mut("polys", "all rounds empty", func(ps [][]fr.Element) [][]fr.Element {
				for i := range ps {
					ps[i] = nil
				}
				return ps
			})
		}
	}
}

func setup(t *kit.T, c *ref.Circuit, bN, k int, mimc bool) (*inst, [][]fr.Element) {
	rc := gen.Repo(c, false)
	if mimc {
		rc = examples.CreateMimcCircuit()
	}
	flat := t.Rng.FrsUniform(1 << (bN + c.BGIn(0)))
	s := &inst{c: c, bN: bN, in: ref.Split(flat, 1<<k)}
	a := rc.Assign(s.in, 2)
	s.out = a.Values[len(a.Values)-1]
	p := gkr.NewProver(rc, a)
	s.proof = p.Prove(2)
	s.v = gkr.NewVerifier(bN, rc)
	if t.Rng.P(1, 2) { // the verifier may see the batch in other chunks than the prover
		s.in = ref.Split(flat, 1<<t.Rng.Range(0, bN))
		s.out = ref.Split(ref.Flatten(s.out), 1<<t.Rng.Range(0, bN))
	}
	if !s.v.Verify(clone(s.proof), s.in, s.out) {
		t.Fail("honest proof rejected: bN=%d %s", bN, gen.Describe(c))
	}
	t.Count("honest", 1)
	vals := c.Evaluate(flat, bN)
	s.flat, s.flatOut = flat, vals[len(vals)-1]
	s.qp, s.q = gkr.GetInitialQPrimeAndQ(bN, c.BGOut(len(c.Layers)-1))
	return s, vals
}

func run(r *kit.Run) {
	for i := 0; i < r.N(480, 5000); i++ {
		r.Case(fmt.Sprintf("shapes/%d", i), func(t *kit.T) {
			g := t.Rng
			kind := gen.Builtin
			if g.P(1, 3) {
				kind = gen.WithUser
			}
			o := gen.Opts{MaxLayers: 4, MaxBG: g.Pick(0, 1, 1, 2), MaxWires: 5, Gates: kind, Dense: g.Bool()}
			bN := g.Range(0, 4)
			switch {
			case i%10 == 7:
				bN, o.MaxLayers = g.Range(5, 8), 2
				if i%60 == 7 {
					bN, o.MaxLayers = g.Range(9, 12), 1
				}
			case i%10 == 8:
				o.MaxBG, o.MaxWires = g.Range(3, 5), 30
				if i%60 == 8 {
					o.MaxBG, o.MaxLayers, o.Gates = 1, 2, gen.WithUser
					o.MinPool, o.MaxPool, o.MinWires, o.MaxWires = 40, 90, 80, 160
				}
			case i%10 == 9:
				o.MinLayers, o.MaxLayers, bN = 6, 16, g.Range(0, 2)
				if i%60 == 9 {
					o.MinLayers, o.MaxLayers, o.MaxWires = 40, 110, 2
				}
				if i%240 == 39 {
					o.MinLayers, o.MaxLayers, o.MaxWires, o.MaxBG, bN = 258, 280, 1, g.Intn(2), 1
				}
			}
			c := gen.Circuit(g, o)
			t.Max("bN", bN)
			t.Max("layers", len(c.Layers))
			t.Max("bG", c.BGIn(0))
			s, vals := setup(t, c, bN, g.Range(0, bN), false)
			s.shapes(t)
			if i < 16 {
				t.Sample(map[string]interface{}{"case": t.Name, "circuit": gen.Describe(c), "bN": bN})
			}
			// consistent but too long
			qp, q := s.qp, s.q
			var zero fr.Element
			for n := 0; n < 4; n++ {
				l := g.Intn(len(c.Layers))
				tot := bN + 2*c.BGIn(l)
				if tot == 0 {
					continue
				}
				rd, by := g.Intn(tot), g.Pick(1, 1, 2, 5, 30, 150)
				pr, _ := ref.ProvePadded(c, bN, vals, qp, q, zero, ref.Drop{Kind: "none"}, nil, func(a, b int) int {
					if a == l && b == rd {
						return by
					}
					return 0
				})
				s.reject(t, gen.FromProof(pr), "overlong_consistent", fmt.Sprintf("consistent proof whose round %d of layer %d has %d zero coefficients too many", rd, l, by))
			}
			// proofs made for something else
			for _, b := range []int{0, bN - 1, bN + 1, bN + 2} {
				if b < 0 || b == bN {
					continue
				}
				in := ref.Split(g.FrsUniform(1<<(b+c.BGIn(0))), 1)
				rc := gen.Repo(c, false)
				a := rc.Assign(in, 1)
				p := gkr.NewProver(rc, a)
				s.reject(t, p.Prove(1), "foreign", fmt.Sprintf("a proof for 2^%d instances", b))
			}
			oc := gen.Circuit(g, gen.Opts{MaxLayers: 4, MaxBG: 2, MaxWires: 5, Gates: kind})
			if gen.Describe(oc) != gen.Describe(c) {
				rc := gen.Repo(oc, false)
				a := rc.Assign(ref.Split(g.FrsUniform(1<<(bN+oc.BGIn(0))), 1), 1)
				p := gkr.NewProver(rc, a)
				s.reject(t, p.Prove(1), "foreign", "a proof for another circuit: "+gen.Describe(oc))
			}
			// random shapes
			for n := 0; n < 12; n++ {
				p := gkr.Proof{}
				for l := 0; l < len(c.Layers)+g.Range(-1, 1); l++ {
					var ps [][]fr.Element
					m := g.Intn(bN + 8)
					if l < len(c.Layers) && g.Bool() {
						m = bN + 2*c.BGIn(l)
					}
					for j := 0; j < m; j++ {
						ps = append(ps, zeros(g.Intn(13)))
					}
					p.SumcheckProofs = append(p.SumcheckProofs, sumcheck.Proof{PolyCoeffs: ps})
				}
				p.ClaimsLeft = g.Frs(len(c.Layers) + g.Pick(0, 0, -1, 1))
				p.ClaimsRight = g.Frs(len(c.Layers) + g.Pick(0, 0, -1, 1))
				if s.valid(p) {
					continue
				}
				s.reject(t, p, "random_shape", fmt.Sprintf("random shape %d", n))
			}
		})
	}
	for i := 0; i < r.N(8, 30); i++ {
		r.Case(fmt.Sprintf("mimc/%d", i), func(t *kit.T) {
			bN := t.Rng.Range(0, 2)
			s, _ := setup(t, gen.Mimc(), bN, t.Rng.Range(0, bN), true)
			s.shapes(t)
		})
	}
}
