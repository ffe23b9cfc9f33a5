// C19: calls leave their arguments and shared parameters unchanged.
package main

import (
	"fmt"
	"sync"

	"gkr-mimc/circuit"
	"gkr-mimc/common"
	"gkr-mimc/examples"
	"gkr-mimc/gkr"
	"gkr-mimc/hash"
	"gkr-mimc/polynomial"
	snarkgkr "gkr-mimc/snark/gkr"
	snarkpoly "gkr-mimc/snark/polynomial"
	"gkr-mimc/sumcheck"

	"verif/gen"
	"verif/kit"
	"verif/ref"

	"github.com/consensys/gurvy/bn256/fr"
)

func main() {
	kit.Main(kit.Config{
		ID:      "C19",
		Rule:    "a world of shared objects (circuit, chunked inputs, assignment, provers, proof, verifiers, points, tables, gates, global constants and precomputed tables); random sequences of public calls on them, with several worker counts. After every call all the shared objects are compared with their recorded values, including the spare capacity of the slices handed in; the result is compared with the first result of the same call; results kept from earlier calls are compared again; some results are overwritten by the caller before the call is repeated. Non-trivial: distinct (circuit, batch, previous call, call) pairs",
		Require: []string{"calls", "repeats", "kept_results_compared", "overwritten_results", "assign", "prove", "verify", "claim", "sumcheck_verify", "hash", "eval_chunked", "fold_copies", "interpolate", "static_table", "snark_assign", "concurrent_calls", "large_calls"},
	}, run)
}

// raw is the exact content of values.
func raw(b []byte, xs ...fr.Element) []byte {
	for i := range xs {
		for k := 0; k < 4; k++ {
			v := xs[i][k]
			b = append(b, byte(v), byte(v>>8), byte(v>>16), byte(v>>24), byte(v>>32), byte(v>>40), byte(v>>48), byte(v>>56))
		}
	}
	return append(b, '|')
}

func raw2(b []byte, x [][]fr.Element) []byte {
	for i := range x {
		b = raw(b, x[i]...)
	}
	return append(b, '/')
}

func rawT(b []byte, x []polynomial.BookKeepingTable) []byte {
	for i := range x {
		b = raw(b, x[i].Table...)
	}
	return append(b, '/')
}

func rawProof(b []byte, p gkr.Proof) []byte {
	for i := range p.SumcheckProofs {
		b = raw2(b, p.SumcheckProofs[i].PolyCoeffs)
	}
	return raw(raw(b, p.ClaimsLeft...), p.ClaimsRight...)
}

// handed returns a copy of x inside a longer array of the caller's own values,
// with spare capacity, and registers the whole array.
func (w *world) handed(name string, x []fr.Element) []fr.Element {
	g := w.g
	pre, post := g.Intn(3), g.Intn(5)
	all := append(append(g.FrsUniform(pre), x...), g.FrsUniform(post)...)
	w.watch(name, func() string { return string(raw(nil, all...)) })
	return all[pre : pre+len(x)]
}

func (w *world) handed2(name string, x [][]fr.Element) [][]fr.Element {
	r := make([][]fr.Element, len(x), len(x)+2)
	for i := range x {
		r[i] = w.handed(fmt.Sprintf("%s[%d]", name, i), x[i])
	}
	w.watch(name+" (list)", func() string {
		s := ""
		for i := range r[:cap(r)] {
			s += fmt.Sprintf("%d;", len(r[:cap(r)][i]))
			if len(r[:cap(r)][i]) > 0 {
				s += fmt.Sprintf("%p;", &r[:cap(r)][i][0])
			}
		}
		return s
	})
	return r
}

// handedParts hands out consecutive parts of one array, as a caller who sliced
// a list of challenges would.
func (w *world) handedParts(name string, parts ...[]fr.Element) [][]fr.Element {
	var all []fr.Element
	for _, p := range parts {
		all = append(all, p...)
	}
	all = append(all, w.g.FrsUniform(3)...)
	w.watch(name, func() string { return string(raw(nil, all...)) })
	var r [][]fr.Element
	i := 0
	for _, p := range parts {
		r = append(r, all[i:i+len(p)]) // with capacity reaching into the next part
		i += len(p)
	}
	return r
}

type watched struct {
	name string
	get  func() string
	want string
}

// call is a public call on the shared objects.
type call struct {
	name string
	kind string
	// run returns views of its result (live) and a function that overwrites it.
	run func(g *kit.Rng) (view func() string, scribble func(g *kit.Rng))
}

type kept struct {
	name string
	view func() string
	want string
}

type world struct {
	t     *kit.T
	g     *kit.Rng
	objs  []*watched
	calls []call
	desc  string
	first map[string]string
}

func (w *world) watch(name string, get func() string) {
	w.objs = append(w.objs, &watched{name, get, get()})
}

func (w *world) add(kind, name string, run func(g *kit.Rng) (func() string, func(g *kit.Rng))) {
	w.calls = append(w.calls, call{name, kind, run})
}

// addVal adds a call whose result is a value: nothing to keep or overwrite.
func (w *world) addVal(kind, name string, run func(g *kit.Rng) string) {
	w.add(kind, name, func(g *kit.Rng) (func() string, func(*kit.Rng)) {
		s := run(g)
		return func() string { return s }, nil
	})
}

func junk(g *kit.Rng, xs ...[]fr.Element) {
	for _, x := range xs {
		for i := range x {
			x[i] = g.FrUniform()
		}
	}
}

func nW(g *kit.Rng) int { return g.Workers(8) }

func gateIDs(gs []circuit.Gate) string {
	s := ""
	for _, g := range gs {
		s += g.ID() + ";"
	}
	return s
}

func wiresOf(ws []circuit.Wire) string {
	s := ""
	for _, w := range ws {
		s += fmt.Sprintf("%d,%d,%d,%s;", w.L, w.R, w.O, w.Gate.ID())
	}
	return s
}

func b2s(b bool) string { return fmt.Sprint(b) }

// globals are the shared parameters of the whole library.
func (w *world) globals() {
	w.watch("hash.Arks", func() string { return string(raw(nil, hash.Arks[:]...)) })
	w.watch("the precomputed Lagrange polynomials", func() string {
		var b []byte
		for n := 1; n <= 12; n++ {
			b = raw2(b, polynomial.GetLagrangePolynomial(n))
		}
		return string(b)
	})
}

func newWorld(t *kit.T, c *ref.Circuit, rc circuit.Circuit, wiring [][]circuit.Wire, bN, k int, flat []fr.Element) *world {
	g := t.Rng
	w := &world{t: t, g: g, first: map[string]string{}}
	nL := len(c.Layers)
	w.desc = fmt.Sprintf("%s bN=%d chunks=%d", gen.Describe(c), bN, 1<<k)
	w.globals()

	if wiring != nil {
		w.watch("the wires handed to NewCircuit", func() string {
			s := ""
			for i := range wiring {
				s += wiresOf(wiring[i]) + "/"
			}
			return s
		})
	}
	w.watch("the circuit", func() string {
		s := ""
		for i := range rc.Layers {
			l := &rc.Layers[i]
			s += fmt.Sprintf("%d>%d:", l.BGInputs, l.BGOutputs) + wiresOf(l.Wires) + gateIDs(l.Gates) + "/"
		}
		return s
	})
	inputs := w.handed2("the inputs", ref.Split(flat, 1<<k))
	// one assignment shared by everything
	a := rc.Assign(inputs, 2)
	w.watch("the shared assignment", func() string {
		var b []byte
		for i := range a.Values {
			b = raw2(b, a.Values[i])
		}
		return string(b)
	})
	outputs := w.handed2("the outputs", kit.Clone2(a.Values[nL]))
	prover := gkr.NewProver(rc, a)
	prover2 := gkr.NewProver(rc, a)
	pr0 := prover.Prove(1)
	// the proof handed to the verifiers, every list of it inside a longer array
	pr := gkr.Proof{ClaimsLeft: w.handed("the proof's left claims", pr0.ClaimsLeft), ClaimsRight: w.handed("the proof's right claims", pr0.ClaimsRight)}
	for l := range pr0.SumcheckProofs {
		pr.SumcheckProofs = append(pr.SumcheckProofs, sumcheck.Proof{PolyCoeffs: w.handed2(fmt.Sprintf("the proof's polynomials of layer %d", l), pr0.SumcheckProofs[l].PolyCoeffs)})
	}
	w.watch("the proof", func() string { return string(rawProof(nil, pr)) })
	// an altered one
	bad := gen.FromProof(gen.ToProof(pr0))
	bl := g.Intn(nL)
	bad.ClaimsLeft[bl].Add(&bad.ClaimsLeft[bl], &[]fr.Element{g.FrNZ()}[0])
	w.watch("the altered proof", func() string { return string(rawProof(nil, bad)) })
	v := gkr.NewVerifier(bN, rc)

	w.add("assign", "Assign", func(g *kit.Rng) (func() string, func(*kit.Rng)) {
		b := rc.Assign(inputs, nW(g))
		return func() string {
				var o []byte
				for i := range b.Values {
					o = raw2(o, b.Values[i])
				}
				return string(o)
			}, func(g *kit.Rng) {
				for l := 1; l < len(b.Values); l++ { // layer 0 is the caller's inputs
					junk(g, b.Values[l]...)
				}
			}
	})
	for i, p := range []*gkr.Prover{&prover, &prover2} {
		p := p
		w.add("prove", fmt.Sprintf("Prove on prover %d", i), func(g *kit.Rng) (func() string, func(*kit.Rng)) {
			x := p.Prove(nW(g))
			return func() string { return string(rawProof(nil, x)) }, func(g *kit.Rng) {
				junk(g, x.ClaimsLeft, x.ClaimsRight)
				for l := range x.SumcheckProofs {
					junk(g, x.SumcheckProofs[l].PolyCoeffs...)
				}
			}
		})
	}
	w.add("prove", "Prove on a new prover", func(g *kit.Rng) (func() string, func(*kit.Rng)) {
		p := gkr.NewProver(rc, a)
		x := p.Prove(nW(g))
		return func() string { return string(rawProof(nil, x)) }, nil
	})
	w.addVal("verify", "Verify", func(*kit.Rng) string { return b2s(v.Verify(pr, inputs, outputs)) })
	w.addVal("verify", "Verify by a new verifier", func(*kit.Rng) string {
		v := gkr.NewVerifier(bN, rc)
		return b2s(v.Verify(pr, inputs, outputs))
	})
	w.addVal("verify", "Verify of the assignment's own layers", func(*kit.Rng) string {
		return b2s(v.Verify(pr, a.Values[0], a.Values[nL]))
	})
	w.addVal("verify", "Verify of an altered proof", func(*kit.Rng) string { return b2s(v.Verify(bad, inputs, outputs)) })
	for i := 0; i < 2; i++ {
		l := g.Intn(nL)
		w.add("sumcheck_verify", fmt.Sprintf("sumcheck Verify of layer %d (%d)", l, i), func(g *kit.Rng) (func() string, func(*kit.Rng)) {
			sp := pr.SumcheckProofs[l]
			if len(sp.PolyCoeffs) == 0 {
				return func() string { return "" }, nil
			}
			c0 := polynomial.EvaluatePolynomial(sp.PolyCoeffs[0], ref.U(0))
			c1 := polynomial.EvaluatePolynomial(sp.PolyCoeffs[0], ref.U(1))
			ok, qP, qL, qR, fin := sumcheck.Verifier{}.Verify(ref.Add(c0, c1), sp, bN, c.BGIn(l))
			return func() string {
					return fmt.Sprint(ok, " ") + string(raw(raw(raw(raw(nil, qP...), qL...), qR...), fin))
				}, func(g *kit.Rng) {
					junk(g, qP, qL, qR)
				}
		})
		w.add("fold_copies", fmt.Sprintf("LayerAsBKTWithCopy %d (%d)", l, i), func(g *kit.Rng) (func() string, func(*kit.Rng)) {
			x := a.LayerAsBKTWithCopy(l, nW(g))
			return func() string { return string(rawT(nil, x)) }, func(g *kit.Rng) {
				for i := range x {
					if len(x[i].Table) > 1 {
						x[i].Fold(g.FrUniform())
					} else {
						junk(g, x[i].Table)
					}
				}
			}
		})
		w.add("", fmt.Sprintf("LayerAsBKTNoCopy %d (%d)", l, i), func(g *kit.Rng) (func() string, func(*kit.Rng)) {
			x := a.LayerAsBKTNoCopy(l)
			return func() string { return string(rawT(nil, x)) }, nil
		})
		q := w.handed("an output point", g.Frs(c.BGOut(l)))
		w.add("static_table", fmt.Sprintf("GetStaticTable of layer %d (%d)", l, i), func(g *kit.Rng) (func() string, func(*kit.Rng)) {
			x := rc.Layers[l].GetStaticTable(q)
			return func() string { return string(rawT(nil, x)) }, func(g *kit.Rng) {
				for i := range x {
					junk(g, x[i].Table)
				}
			}
		})
		w.add("", fmt.Sprintf("Layer.Evaluate %d (%d)", l, i), func(g *kit.Rng) (func() string, func(*kit.Rng)) {
			x := rc.Layers[l].Evaluate(a.Values[l], nW(g))
			return func() string { return string(raw2(nil, x)) }, func(g *kit.Rng) { junk(g, x...) }
		})
		if wiring != nil {
			w.addVal("", fmt.Sprintf("NewLayer, Gates of layer %d (%d)", l, i), func(*kit.Rng) string {
				x := circuit.NewLayer(wiring[l])
				return fmt.Sprint(x.BGInputs, x.BGOutputs, circuit.BGInputs(wiring[l]), circuit.BGOutputs(wiring[l])) + wiresOf(x.Wires) + gateIDs(x.Gates) + gateIDs(circuit.Gates(wiring[l]))
			})
		}
	}
	w.add("", "GetInitialQPrimeAndQ", func(g *kit.Rng) (func() string, func(*kit.Rng)) {
		qP, q := gkr.GetInitialQPrimeAndQ(bN, c.BGOut(nL-1))
		return func() string { return string(raw(raw(nil, qP...), q...)) }, func(g *kit.Rng) { junk(g, qP, q) }
	})

	// tables and points of one layer
	l := g.Intn(nL)
	bG := c.BGIn(l)
	tabs := polynomial.AsChunkedBookKeepingTable(w.handed2("chunked tables", a.Values[l]))
	parts := w.handedParts("the points hPrime, hL, hR", g.Frs(bN), g.Frs(bG), g.Frs(bG))
	hP, hL, hR := parts[0], parts[1], parts[2]
	whole := w.handed("a whole point", g.Frs(bG+bN))
	w.watch("the chunked tables' headers", func() string {
		s := ""
		for i := range tabs {
			s += fmt.Sprintf("%d,", len(tabs[i].Table))
		}
		return s
	})
	w.addVal("eval_chunked", "EvaluateChunked", func(*kit.Rng) string { return string(raw(nil, polynomial.EvaluateChunked(tabs, whole))) })
	w.addVal("eval_chunked", "EvaluateMixedChunked", func(*kit.Rng) string {
		x, y := polynomial.EvaluateMixedChunked(tabs, hP, hL, hR)
		return string(raw(nil, x, y))
	})
	one := polynomial.NewBookKeepingTable(w.handed("a table", g.Frs(1<<(bG+bN))))
	two := polynomial.NewBookKeepingTable(w.handed("another table", g.Frs(1<<(bG+bN))))
	w.watch("the tables' headers", func() string { return fmt.Sprint(len(one.Table), len(two.Table)) })
	w.addVal("", "Evaluate", func(*kit.Rng) string { return string(raw(nil, one.Evaluate(whole))) })
	w.addVal("", "EvaluateLeftAndRight", func(*kit.Rng) string {
		x, y := one.EvaluateLeftAndRight(hP, hL, hR)
		return string(raw(nil, x, y))
	})
	w.addVal("", "String", func(*kit.Rng) string { return one.String() + common.FrSliceToString(whole) })
	w.add("", "FunctionEvals", func(g *kit.Rng) (func() string, func(*kit.Rng)) {
		x := one.FunctionEvals()
		return func() string { return string(raw(nil, x...)) }, func(g *kit.Rng) { junk(g, x) }
	})
	w.add("fold_copies", "DeepCopy", func(g *kit.Rng) (func() string, func(*kit.Rng)) {
		x := one.DeepCopy()
		return func() string { return string(raw(nil, x.Table...)) }, func(g *kit.Rng) {
			for len(x.Table) > 1 {
				x.Fold(g.FrUniform())
			}
			junk(g, x.Table)
		}
	})
	ck := g.Intn(bG + bN + 1)
	con := g.Intn(1 << ck)
	w.add("fold_copies", "InterleavedChunk", func(g *kit.Rng) (func() string, func(*kit.Rng)) {
		x := one.InterleavedChunk(con, 1<<ck)
		return func() string { return string(raw(nil, x.Table...)) }, func(g *kit.Rng) { junk(g, x.Table) }
	})
	lam := g.Fr()
	w.add("", "Add, Sub, Mul into a new table", func(g *kit.Rng) (func() string, func(*kit.Rng)) {
		var x, y, z polynomial.BookKeepingTable
		x.Add(one, two)
		y.Sub(one, two, nW(g))
		z.Mul(lam, one, nW(g))
		return func() string { return string(raw(raw(raw(nil, x.Table...), y.Table...), z.Table...)) }, func(g *kit.Rng) { junk(g, x.Table, y.Table, z.Table) }
	})
	q := w.handed("an eq point", g.Frs(bN))
	w.add("", "GetFoldedEqTable", func(g *kit.Rng) (func() string, func(*kit.Rng)) {
		x := polynomial.GetFoldedEqTable(q)
		return func() string { return string(raw(nil, x.Table...)) }, func(g *kit.Rng) { junk(g, x.Table) }
	})
	w.add("", "GetChunkedEqTable", func(g *kit.Rng) (func() string, func(*kit.Rng)) {
		x := polynomial.GetChunkedEqTable(q, 1<<k, nW(g))
		return func() string { return string(rawT(nil, x)) }, func(g *kit.Rng) {
			for i := range x {
				junk(g, x[i].Table)
			}
		}
	})
	w.addVal("", "EvalEq", func(*kit.Rng) string { return string(raw(nil, polynomial.EvalEq(q, hP))) })

	// claims: the tables of a sumcheck instance
	eqs := polynomial.AsChunkedBookKeepingTable(w.handed2("the eq tables of the sumcheck", ref.Split(g.Frs(1<<bN), 1<<k)))
	var sts []polynomial.BookKeepingTable
	for i := range rc.Layers[l].Gates {
		sts = append(sts, polynomial.NewBookKeepingTable(w.handed(fmt.Sprintf("static table %d of the sumcheck", i), g.Frs(1<<(2*bG)))))
	}
	w.watch("the sumcheck tables' headers", func() string {
		s := ""
		for _, x := range append(append([]polynomial.BookKeepingTable{}, eqs...), sts...) {
			s += fmt.Sprintf("%d,", len(x.Table))
		}
		return s
	})
	mp := sumcheck.NewMultiThreadedProver(tabs, tabs, eqs, rc.Layers[l].Gates, sts)
	w.addVal("claim", "GetClaim", func(g *kit.Rng) string { return string(raw(nil, mp.GetClaim(nW(g)))) })
	w.addVal("claim", "GetClaim of a new prover", func(g *kit.Rng) string {
		mp := sumcheck.NewMultiThreadedProver(tabs, tabs, eqs, rc.Layers[l].Gates, sts)
		return string(raw(nil, mp.GetClaim(nW(g))))
	})
	if k == 0 {
		w.addVal("claim", "GetClaim of a sequential prover", func(g *kit.Rng) string {
			sp := sumcheck.NewSingleThreadedProver(tabs[0], tabs[0], eqs[0], rc.Layers[l].Gates, sts)
			return string(raw(nil, sp.GetClaim()))
		})
	}
	// a sumcheck prover may use up the tables it was given, not what they were copied from
	w.add("prove", "sumcheck Prove on copies", func(g *kit.Rng) (func() string, func(*kit.Rng)) {
		cp := func(x []polynomial.BookKeepingTable) []polynomial.BookKeepingTable {
			r := make([]polynomial.BookKeepingTable, len(x))
			for i := range x {
				r[i] = x[i].DeepCopy()
			}
			return r
		}
		p := sumcheck.NewMultiThreadedProver(cp(tabs), cp(tabs), cp(eqs), rc.Layers[l].Gates, cp(sts))
		x, qP, qL, qR, fin := p.Prove(nW(g))
		return func() string {
			return string(raw2(nil, x.PolyCoeffs)) + string(raw(raw(raw(raw(nil, qP...), qL...), qR...), fin...))
		}, func(g *kit.Rng) { junk(g, append([][]fr.Element{qP, qL, qR, fin}, x.PolyCoeffs...)...) }
	})

	// gates
	gi := rc.Layers[l].Gates[g.Intn(len(rc.Layers[l].Gates))]
	vs := w.handed("gate arguments", g.Frs(g.Range(1, 6)))
	x1 := w.handed("a gate argument", g.Frs(2))
	stv := w.handed("static values", g.Frs(len(rc.Layers[l].Gates)))
	eqv := w.handed("an eq value", g.Frs(1))
	w.add("", "gate evaluations", func(g *kit.Rng) (func() string, func(*kit.Rng)) {
		var y fr.Element
		gi.Eval(&y, &x1[0], &x1[1])
		a, b := make([]fr.Element, len(vs)), make([]fr.Element, len(vs))
		gi.EvalManyVL(a, vs, &x1[1])
		gi.EvalManyVR(b, &x1[0], vs)
		dl, dr, dp := gi.Degrees()
		return func() string { return string(raw(raw(raw(nil, y), a...), b...)) + fmt.Sprint(dl, dr, dp, gi.ID()) }, func(g *kit.Rng) { junk(g, a, b) }
	})
	w.addVal("", "EvaluateCombinator", func(*kit.Rng) string {
		return string(raw(nil, circuit.EvaluateCombinator(&x1[0], &x1[1], &eqv[0], rc.Layers[l].Gates, stv)))
	})

	w.polyCalls()
	w.hashCalls()
	return w
}

func (w *world) polyCalls() {
	g := w.g
	vals := w.handed("values to interpolate", g.Frs(g.Range(1, 12)))
	n := g.Range(1, 12)
	w.add("interpolate", "InterpolateOnRange", func(g *kit.Rng) (func() string, func(*kit.Rng)) {
		x := polynomial.InterpolateOnRange(vals)
		return func() string { return string(raw(nil, x...)) }, func(g *kit.Rng) { junk(g, x) }
	})
	x := g.Fr()
	w.addVal("interpolate", "EvaluatePolynomial", func(*kit.Rng) string { return string(raw(nil, polynomial.EvaluatePolynomial(vals, x))) })
	w.add("interpolate", "LagrangeCoefficient", func(g *kit.Rng) (func() string, func(*kit.Rng)) {
		x := polynomial.LagrangeCoefficient(n)
		return func() string { return string(raw2(nil, x)) }, func(g *kit.Rng) { junk(g, x...) }
	})
	w.addVal("", "GetChallenge", func(*kit.Rng) string { return string(raw(nil, common.GetChallenge(vals))) })
	w.add("", "FrToGenericArray", func(g *kit.Rng) (func() string, func(*kit.Rng)) {
		x := common.FrToGenericArray(vals)
		return func() string {
				var b []byte
				for i := range x {
					b = raw(b, x[i].(fr.Element))
				}
				return string(b)
			}, func(g *kit.Rng) {
				for i := range x {
					x[i] = g.FrUniform()
				}
			}
	})
}

func (w *world) hashCalls() {
	g := w.g
	msg := w.handed("a message", g.Frs(g.Range(0, 13)))
	w.addVal("hash", "MimcHash", func(*kit.Rng) string { return string(raw(nil, hash.MimcHash(msg))) })
	for i, h := range []*hash.GMimcHasher{&hash.GMimcT2, &hash.GMimcT4, &hash.GMimcT8} {
		h, T := h, 2<<i
		w.addVal("hash", fmt.Sprintf("GMiMC %d", T), func(*kit.Rng) string { return string(raw(nil, h.Hash(msg))) })
		blk, st := w.handed("a GMiMC block", g.Frs(T)), g.Frs(T)
		w.add("hash", fmt.Sprintf("GMiMC update %d", T), func(g *kit.Rng) (func() string, func(*kit.Rng)) {
			s := kit.Clone(st)
			h.UpdateInplace(s, blk)
			return func() string { return string(raw(nil, s...)) }, func(g *kit.Rng) { junk(g, s) }
		})
	}
	for i, h := range []*hash.PoseidonHasher{&hash.PoseidonT2, &hash.PoseidonT4, &hash.PoseidonT8} {
		h, T := h, 2<<i
		w.addVal("hash", fmt.Sprintf("Poseidon %d", T), func(*kit.Rng) string { return string(raw(nil, h.Hash(msg))) })
		blk, st := w.handed("a Poseidon block", g.Frs(T)), g.Frs(T)
		w.add("hash", fmt.Sprintf("Poseidon update %d", T), func(g *kit.Rng) (func() string, func(*kit.Rng)) {
			s := kit.Clone(st)
			h.Update(s, blk)
			return func() string { return string(raw(nil, s...)) }, func(g *kit.Rng) { junk(g, s) }
		})
		w.add("hash", fmt.Sprintf("GenerateMDSMatrix %d", T), func(g *kit.Rng) (func() string, func(*kit.Rng)) {
			m := hash.GenerateMDSMatrix(T)
			return func() string { return string(raw2(nil, m)) }, func(g *kit.Rng) { junk(g, m...) }
		})
	}
	mat := w.handed2("a matrix", [][]fr.Element{g.Frs(3), g.Frs(3)})
	vec := w.handed("a vector", g.Frs(3))
	w.add("hash", "MatrixMultiplication", func(g *kit.Rng) (func() string, func(*kit.Rng)) {
		x := hash.MatrixMultiplication(mat, vec)
		return func() string { return string(raw(nil, x...)) }, func(g *kit.Rng) { junk(g, x) }
	})
	key, st := g.Fr(), g.Fr()
	w.addVal("hash", "MiMC update and permutation", func(*kit.Rng) string {
		a, b := st, st
		hash.MimcUpdateInplace(&a, key)
		hash.MimcPermutationInPlace(&b, key)
		return string(raw(nil, a, b))
	})
}

// play runs a random sequence of calls.
func (w *world) play(steps int) {
	t, g := w.t, w.g
	var keep []kept
	prev := "start"
	check := func(after string) bool {
		ok := true
		for _, o := range w.objs {
			if o.get() != o.want {
				t.Report("%s changed %s: %s", after, o.name, w.desc)
				ok = false
			}
		}
		for _, k := range keep {
			if k.view() != k.want {
				t.Report("%s changed the result that an earlier %s had returned: %s", after, k.name, w.desc)
				ok = false
			}
			t.Count("kept_results_compared", 1)
		}
		return ok
	}
	if !check("preparing") {
		return
	}
	kinds := map[string]bool{}
	for i := 0; i < steps; i++ {
		c := w.calls[g.Intn(len(w.calls))]
		view, scribble := c.run(g)
		got := view()
		who := fmt.Sprintf("%s (after %s)", c.name, prev)
		if !check(who) {
			return
		}
		want, again := w.first[c.name]
		if again {
			t.Count("repeats", 1)
			if got != want {
				t.Report("%s returned another result than the first time: %s", who, w.desc)
				return
			}
		} else {
			w.first[c.name] = got
		}
		t.Count("calls", 1)
		if c.kind != "" {
			t.Count(c.kind, 1)
		}
		kinds[c.kind] = true
		t.Eval(1)
		t.Distinct(w.desc, prev, c.name)
		if scribble != nil && g.P(1, 2) {
			scribble(g)
			t.Count("overwritten_results", 1)
			if !check("overwriting the result of " + who) {
				return
			}
		} else {
			keep = append(keep, kept{c.name, view, got})
			if len(keep) > 12 {
				j := g.Intn(len(keep))
				keep = append(keep[:j], keep[j+1:]...)
			}
		}
		prev = c.name
	}
	// several at once on the same objects
	var wg sync.WaitGroup
	type res struct{ name, got string }
	out := make([]res, 8)
	for i := range out {
		c := w.calls[g.Intn(len(w.calls))]
		gg := kit.NewRng(g.U64(), "concurrent")
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			v, _ := c.run(gg)
			out[i] = res{c.name, v()}
		}(i)
	}
	wg.Wait()
	names := ""
	for _, r := range out {
		names += r.name + ", "
		if want, ok := w.first[r.name]; ok && r.got != want {
			t.Report("%s returned another result when other calls ran at the same time: %s", r.name, w.desc)
		}
		t.Eval(1)
	}
	t.Count("concurrent_calls", len(out))
	check("running at once " + names)
	t.Max("kinds_in_one_sequence", len(kinds))
	t.Max("shared_objects", len(w.objs))
	t.Max("different_calls", len(w.calls))
}

func run(r *kit.Run) {
	for i := 0; i < r.N(2000, 12000); i++ {
		r.Case(fmt.Sprintf("world/%d", i), func(t *kit.T) {
			g := t.Rng
			kind := gen.Builtin
			if g.P(1, 3) {
				kind = gen.WithUser
			}
			c := gen.Circuit(g, gen.Opts{MaxLayers: 4, MaxBG: g.Pick(0, 1, 1, 2), MaxWires: 5, Gates: kind, Dense: g.Bool()})
			bN := g.Pick(0, 1, 1, 2, 2, 3, 4, 5)
			k := g.Range(0, bN)
			ws := gen.Wiring(c, g.P(1, 3))
			w := newWorld(t, c, circuit.NewCircuit(ws), ws, bN, k, gen.Inputs(g, c, bN))
			w.play(70)
			if i < 16 {
				t.Sample(map[string]interface{}{"case": t.Name, "circuit": gen.Describe(c), "bN": bN, "chunks": 1 << k, "calls": len(w.calls), "shared_objects": len(w.objs)})
			}
		})
	}
	// tables above the minimum parallel chunk size
	for i := 0; i < r.N(24, 64); i++ {
		r.Case(fmt.Sprintf("large/%d", i), func(t *kit.T) {
			g := t.Rng
			c := &ref.Circuit{Layers: [][]ref.Wire{
				{{L: 1, R: 0, O: 0, G: ref.MulG}, {L: 0, R: 1, O: 1, G: ref.CopyG}},
				{{L: 0, R: 1, O: 0, G: ref.CipherGate{Ark: g.Fr()}}},
			}}
			ws := gen.Wiring(c, false)
			bN := g.Pick(11, 12, 13)
			w := newWorld(t, c, circuit.NewCircuit(ws), ws, bN, g.Pick(0, 0, 1, 3), g.FrsUniform(2<<bN))
			w.play(30)
			t.Count("large_calls", 30)
		})
	}
	// the MiMC circuit, with the assignment of the proof to the SNARK circuit
	for i := 0; i < r.N(12, 32); i++ {
		r.Case(fmt.Sprintf("mimc/%d", i), func(t *kit.T) {
			g := t.Rng
			bN := g.Range(1, 3)
			c := gen.Mimc()
			k := g.Range(0, bN)
			rc := examples.CreateMimcCircuit()
			flat := gen.Inputs(g, c, bN)
			w := newWorld(t, c, rc, nil, bN, k, flat)
			pv := gkr.NewProver(rc, rc.Assign(ref.Split(flat, 1<<k), 2))
			pr := pv.Prove(2)
			w.watch("the proof assigned to the SNARK circuit", func() string { return string(rawProof(nil, pr)) })
			tab := w.handed2("the tables assigned to the SNARK circuit", ref.Split(g.Frs(2<<bN), 1<<k))
			w.addVal("snark_assign", "snark Proof.Assign", func(*kit.Rng) string {
				p := snarkgkr.AllocateProof(bN, snarkgkr.CreateMimcCircuit())
				p.Assign(pr)
				return ""
			})
			bk := polynomial.AsChunkedBookKeepingTable(tab)
			w.addVal("snark_assign", "snark multilinear AssignFromChunkedBKT", func(*kit.Rng) string {
				m := snarkpoly.AllocateMultilinear(bN + 1)
				m.AssignFromChunkedBKT(tab)
				return fmt.Sprint(len(bk))
			})
			w.play(60)
			for _, cl := range w.calls[len(w.calls)-2:] {
				cl.run(g)
				t.Count("snark_assign", 1)
			}
			w.play(4)
		})
	}
}
