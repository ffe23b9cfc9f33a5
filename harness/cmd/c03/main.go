// C03: a proof is bound to its batch of inputs and outputs.
package main

import (
	"fmt"

	"gkr-mimc/circuit"
	"gkr-mimc/examples"
	"gkr-mimc/gkr"

	"verif/gen"
	"verif/kit"
	"verif/ref"

	"github.com/consensys/gurvy/bn256/fr"
)

func main() {
	kit.Main(kit.Config{
		ID:      "C03",
		Level:   "fault_enumeration",
		Rule:    "honest proofs of random circuits and of MiMC presented with a batch that differs: every single output and input cell changed (exhaustively on small batches), pairs swapped, wires, instances and chunks permuted, rotated batches, other batches of the same circuit, batches with the same outputs or the same inputs only, batches whose evaluations at the points the verifier reads are near misses of the honest ones (equal in some limbs, opposite, with opposite or proportional errors of the two input claims), batches of another size or in unequal chunks, each both in fresh slices and written in place into the slices of the batch just accepted by the same verifier; some batches of 2^12 to 2^17 with exchanged or changed values at the ends of every block; the point the outputs are read at, for every size up to 2^34 instances; plus the two linear constructions listed in KNOWN_FINDINGS. Non-trivial: distinct (circuit, batch shape, kind and place of the difference)",
		Require: []string{"accepted_honest", "single_output", "single_input", "swap", "permuted", "other_batch", "linear_output", "linear_input", "in_place", "steered_output", "steered_input", "misfit", "long", "huge", "initial_points"},
	}, run)
}

type inst struct {
	c      *ref.Circuit
	bN, k  int
	kOut   int // log of the number of output chunks shown to the verifier
	ver    gkr.Verifier
	proof  gkr.Proof
	in     []fr.Element
	out    []fr.Element
	q, qp  []fr.Element
	rc     circuit.Circuit
	inputs [][]fr.Element
	// the slices of the honest batch that are overwritten in place
	hIn, hOut [][]fr.Element
}

// overwrite writes the interleaved values into the slices of dst.
func overwrite(dst [][]fr.Element, flat []fr.Element) {
	for c, x := range ref.Split(flat, len(dst)) {
		copy(dst[c], x)
	}
}

func setup(t *kit.T, c *ref.Circuit, bN, k int, mimc bool) *inst {
	s := &inst{c: c, bN: bN, k: k, kOut: k}
	s.rc = gen.Repo(c, false)
	if mimc {
		s.rc = examples.CreateMimcCircuit()
	}
	s.in = t.Rng.Frs(1 << (bN + c.BGIn(0)))
	s.inputs = ref.Split(s.in, 1<<k)
	n := t.Rng.Range(1, 8)
	a := s.rc.Assign(s.inputs, n)
	s.out = ref.Flatten(a.Values[len(a.Values)-1])
	p := gkr.NewProver(s.rc, a)
	s.proof = p.Prove(n)
	s.ver = gkr.NewVerifier(bN, s.rc)
	s.qp, s.q = gkr.GetInitialQPrimeAndQ(bN, c.BGOut(len(c.Layers)-1))
	if t.Rng.P(1, 3) { // the verifier may see the batch in other chunks than the prover
		s.k, s.kOut = t.Rng.Range(0, bN), t.Rng.Range(0, bN)
	}
	s.hIn, s.hOut = ref.Split(s.in, 1<<s.k), ref.Split(s.out, 1<<s.kOut)
	if !s.accepts(s.in, s.out) {
		t.Fail("honest proof rejected: bN=%d chunks=%d %s", bN, 1<<k, gen.Describe(c))
	}
	t.Count("accepted_honest", 1)
	return s
}

func (s *inst) accepts(in, out []fr.Element) bool {
	return s.ver.Verify(s.proof, ref.Split(in, 1<<s.k), ref.Split(out, 1<<s.kOut))
}

// inKernel says whether inputs differ from the honest ones by a vector that is
// orthogonal to the weights of both final points, as the reference verifier
// computes them: the listed finding inputs-in-kernel-of-final-points. Natural
// changes fall into it where a layer's polynomials are all zero: its challenges
// are then all equal, and an exchange of two coordinates changes nothing. The
// outputs have no such excuse: the initial point is judged by itself.
func (s *inst) inKernel(in []fr.Element) bool {
	hL, hR, hP := ref.FinalPoints(s.c, s.bN, gen.ToProof(s.proof))
	for _, h := range [][]fr.Element{hL, hR} {
		w := ref.EqTable(append(kit.Clone(h), hP...))
		if ref.Dot(w, in) != ref.Dot(w, s.in) {
			return false
		}
	}
	return true
}

func (s *inst) reject(t *kit.T, in, out []fr.Element, kind, what string) {
	if kit.Eq(in, s.in) && kit.Eq(out, s.out) {
		return
	}
	if s.accepts(in, out) {
		if kit.Eq(out, s.out) && s.inKernel(in) {
			t.Candidate("inputs-in-kernel-of-final-points", "inputs that differ by a vector orthogonal to the weights of both final points are accepted with the honest proof (no challenge depends on the inputs)")
			t.Count("natural_change_in_kernel", 1)
			return
		}
		t.Fail("a proof is accepted for another batch (%s); bN=%d chunks=%d %s", what, s.bN, 1<<s.k, gen.Describe(s.c))
	}
	t.Eval(1)
	t.Count(kind, 1)
	// the same change made in place, in the slices the verifier has already accepted
	if !s.ver.Verify(s.proof, s.hIn, s.hOut) {
		t.Fail("honest proof rejected after %s was presented; bN=%d chunks=%d %s", what, s.bN, 1<<s.k, gen.Describe(s.c))
	}
	overwrite(s.hIn, in)
	overwrite(s.hOut, out)
	if s.ver.Verify(s.proof, s.hIn, s.hOut) {
		t.Fail("a proof is accepted for another batch written into the slices of the accepted one (%s); bN=%d chunks=%d %s", what, s.bN, 1<<s.k, gen.Describe(s.c))
	}
	overwrite(s.hIn, s.in)
	overwrite(s.hOut, s.out)
	t.Eval(2)
	t.Count("in_place", 1)
	t.Distinct(gen.Describe(s.c), s.bN, s.k, what)
}

func (s *inst) attack(t *kit.T, limit int) {
	g := t.Rng
	for side, base := range [][]fr.Element{s.out, s.in} {
		name := [...]string{"output", "input"}[side]
		show := func(x []fr.Element, kind, what string) {
			if side == 0 {
				s.reject(t, s.in, x, kind, name+" "+what)
			} else {
				s.reject(t, x, s.out, kind, name+" "+what)
			}
		}
		idx := g.Perm(len(base))
		if len(idx) > limit {
			idx = idx[:limit]
		}
		for _, i := range idx {
			x := kit.Clone(base)
			switch g.Intn(3) {
			case 0:
				x[i] = ref.Add(x[i], g.FrNZ())
			case 1:
				x[i] = ref.Neg(x[i])
			default:
				x[i] = g.Fr()
			}
			show(x, "single_"+name, fmt.Sprintf("%d changed", i))
		}
		for n := 0; n < 6 && len(base) > 1; n++ {
			i, j := g.Intn(len(base)), g.Intn(len(base))
			x := kit.Clone(base)
			x[i], x[j] = x[j], x[i]
			show(x, "swap", fmt.Sprintf("%d and %d swapped", i, j))
		}
		// swaps of adjacent wires / instances at every bit
		for b := 0; 1<<b < len(base); b++ {
			x := make([]fr.Element, len(base))
			for i := range x {
				x[i] = base[i^(1<<b)]
			}
			show(x, "permuted", fmt.Sprintf("index bit %d flipped", b))
			for c := 0; c < b; c++ {
				for i := range x {
					bi, ci := (i>>b)&1, (i>>c)&1
					j := i&^(1<<b)&^(1<<c) | bi<<c | ci<<b
					x[i] = base[j]
				}
				show(kit.Clone(x), "permuted", fmt.Sprintf("index bits %d and %d exchanged", b, c))
			}
		}
		if len(base) > 1 {
			rot := append(kit.Clone(base[1:]), base[0])
			show(rot, "permuted", "rotated")
		}
		show(make([]fr.Element, len(base)), "other_batch", "all zero")
		x := kit.Clone(base)
		d := g.FrNZ()
		for i := range x {
			x[i] = ref.Add(x[i], d)
		}
		show(x, "other_batch", "all shifted by a constant")
		for i := range x {
			x[i] = ref.Mul(base[i], ref.U(2))
		}
		show(x, "other_batch", "all doubled")
	}
	// another honest batch
	other := g.Frs(len(s.in))
	vals := s.c.Evaluate(other, s.bN)
	o := vals[len(vals)-1]
	if !kit.Eq(other, s.in) {
		s.reject(t, other, o, "other_batch", "another honest batch")
		s.reject(t, other, s.out, "other_batch", "other inputs, same outputs")
		s.reject(t, s.in, o, "other_batch", "other outputs, same inputs")
	}
}

// steered presents batches whose evaluations at the points the verifier reads
// are near misses of the honest ones: equal in some limbs, up to sign, with
// opposite, equal or proportional differences of the left and right claims.
func (s *inst) steered(t *kit.T, limit int) {
	g := t.Rng
	// outputs: one evaluation
	w := ref.EqTable(append(kit.Clone(s.q), s.qp...))
	e := ref.Dot(w, s.out)
	for n, y := range ref.Near(e) {
		if n >= 8 && !g.P(limit, 16) {
			continue
		}
		i := g.Intn(len(w))
		if w[i].IsZero() {
			continue
		}
		x := kit.Clone(s.out)
		x[i] = ref.Add(x[i], ref.Mul(ref.Sub(y, e), ref.Inv(w[i])))
		s.reject(t, s.in, x, "steered_output", fmt.Sprintf("output evaluation steered to near miss %d", n))
	}
	// inputs: a left and a right evaluation
	hL, hR, hP := ref.FinalPoints(s.c, s.bN, gen.ToProof(s.proof))
	wl, wr := ref.EqTable(append(kit.Clone(hL), hP...)), ref.EqTable(append(kit.Clone(hR), hP...))
	eL, eR := ref.Dot(wl, s.in), ref.Dot(wr, s.in)
	var zero fr.Element
	if kit.Eq(wl, wr) {
		for n, y := range ref.Near(eL) {
			i := g.Intn(len(wl))
			if wl[i].IsZero() || !g.P(limit, 16) {
				continue
			}
			x := kit.Clone(s.in)
			x[i] = ref.Add(x[i], ref.Mul(ref.Sub(y, eL), ref.Inv(wl[i])))
			s.reject(t, x, s.out, "steered_input", fmt.Sprintf("input evaluation steered to near miss %d", n))
		}
		return
	}
	type pair struct{ l, r fr.Element }
	var ds []pair
	nl, nr := ref.Near(eL), ref.Near(eR)
	for _, y := range nl {
		ds = append(ds, pair{ref.Sub(y, eL), zero})
	}
	for _, y := range nr {
		ds = append(ds, pair{zero, ref.Sub(y, eR)})
	}
	if len(nl) == len(nr) {
		for k := range nl {
			ds = append(ds, pair{ref.Sub(nl[k], eL), ref.Sub(nr[k], eR)})
		}
	}
	ds = append(ds, pair{ref.Sub(eR, eL), ref.Sub(eL, eR)}, pair{ref.Sub(eR, eL), zero}, pair{zero, ref.Sub(eL, eR)}) // exchanged, both right, both left
	lam := ref.MimcHash([]fr.Element{s.proof.ClaimsLeft[0], s.proof.ClaimsRight[0]})
	for _, rho := range []fr.Element{ref.One(), ref.Neg(ref.One()), ref.U(2), ref.Neg(ref.U(2)), ref.Half, ref.Neg(ref.Half), lam, ref.Neg(lam), ref.Inv(lam), ref.Neg(ref.Inv(lam))} {
		d := g.FrUniform()
		ds = append(ds, pair{d, ref.Mul(rho, d)})
	}
	for n, d := range ds {
		if n < len(ds)-13 && !g.P(limit, 16) {
			continue
		}
		i := g.Intn(len(wl))
		j := (i + 1 + g.Intn(len(wl)-1)) % len(wl)
		x, ok := ref.Steer(s.in, wl, wr, i, j, d.l, d.r)
		if !ok {
			continue
		}
		s.reject(t, x, s.out, "steered_input", fmt.Sprintf("input evaluations steered to near miss %d", n))
	}
}

// misfit presents inputs and outputs that are no batch of the verifier's size.
func (s *inst) misfit(t *kit.T) {
	g := t.Rng
	in, out := ref.Split(s.in, 1<<s.k), ref.Split(s.out, 1<<s.kOut)
	for side, base := range [][]fr.Element{s.out, s.in} {
		name := [...]string{"outputs", "inputs"}[side]
		show := func(x [][]fr.Element, what string) {
			a, b := in, x
			if side == 1 {
				a, b = x, out
			}
			var ok bool
			if m, panicked := kit.Panics(func() { ok = s.ver.Verify(s.proof, a, b) }); panicked {
				t.Fail("%s: %s: the verifier panics: bN=%d chunks=%d %s: %s", name, what, s.bN, 1<<s.k, gen.Describe(s.c), m)
			}
			if ok {
				t.Fail("%s: %s: accepted: bN=%d chunks=%d %s", name, what, s.bN, 1<<s.k, gen.Describe(s.c))
			}
			t.Eval(1)
			t.Count("misfit", 1)
			t.Distinct(gen.Describe(s.c), s.bN, s.k, "misfit", name, what)
		}
		n := len(base)
		for _, par := range []int{0, 1} { // every other entry is the honest one
			x := g.FrsUniform(2 * n)
			for i := range base {
				x[2*i+par] = base[i]
			}
			for _, k := range []int{0, s.k, s.k + 1} {
				show(ref.Split(x, 1<<k), fmt.Sprintf("twice the size in %d chunks, the honest ones at places %d mod 2", 1<<k, par))
			}
		}
		for _, f := range [][]fr.Element{g.FrsUniform(n), make([]fr.Element, n), base} {
			x := append(kit.Clone(base), f...)
			show(ref.Split(x, 1), "the honest ones followed by as many others")
			show(ref.Split(x, 2), "the honest ones followed by as many others")
			show(ref.Split(append(kit.Clone(f), base...), 1), "the honest ones after as many others")
			show([][]fr.Element{base, f}, "a second chunk")
		}
		if n > 1 {
			show(ref.Split(base[:n/2], 1), "the first half")
			even := make([]fr.Element, n/2)
			for i := range even {
				even[i] = base[2*i]
			}
			show(ref.Split(even, 1), "the even half")
			show([][]fr.Element{base[:n-1]}, "one value less")
		}
		show([][]fr.Element{append(kit.Clone(base), g.Fr())}, "one value more")
		k := [...]int{s.kOut, s.k}[side]
		sp := func() [][]fr.Element { return ref.Split(base, 1<<k) }
		c := g.Intn(1 << k)
		x := sp()
		x[c] = append(x[c], g.Fr())
		show(x, "a longer chunk")
		x = sp()
		x[c] = x[c][:len(x[c])-1]
		show(x, "a shorter chunk")
		x = sp()
		x[c] = nil
		show(x, "an empty chunk")
		show(append(sp(), x[0]), "a chunk more")
		show(append(sp(), sp()...), "the chunks twice")
		show(append(sp(), nil), "an empty chunk more")
		show(sp()[:1<<k-1], "a chunk less")
		show(nil, "nothing")
		show([][]fr.Element{{}}, "one empty chunk")
	}
	if !s.ver.Verify(s.proof, in, out) {
		t.Fail("honest proof rejected after misfits were presented; bN=%d chunks=%d %s", s.bN, 1<<s.k, gen.Describe(s.c))
	}
}

// linear builds the batches that differ only in the kernel of the linear forms
// the verifier evaluates: recorded as known findings.
func (s *inst) linear(t *kit.T) {
	g := t.Rng
	if len(s.out) >= 2 {
		w := ref.EqTable(append(kit.Clone(s.q), s.qp...))
		i := g.Intn(len(w))
		j := (i + 1 + g.Intn(len(w)-1)) % len(w)
		x := kit.Clone(s.out)
		d := g.FrNZ()
		x[i] = ref.Add(x[i], ref.Mul(d, w[j]))
		x[j] = ref.Sub(x[j], ref.Mul(d, w[i]))
		if !kit.Eq(x, s.out) {
			if s.accepts(s.in, x) {
				t.Candidate("outputs-in-kernel-of-fixed-initial-point", "outputs that differ by a vector orthogonal to eq(q,qPrime) at the fixed public initial point are accepted with the honest proof (the initial challenge does not depend on the outputs)")
			}
			t.Eval(1)
			t.Count("linear_output", 1)
			t.Distinct(gen.Describe(s.c), s.bN, "linear output", i, j)
		}
	}
	hL, hR, hP := ref.FinalPoints(s.c, s.bN, gen.ToProof(s.proof))
	wl, wr := ref.EqTable(append(kit.Clone(hL), hP...)), ref.EqTable(append(kit.Clone(hR), hP...))
	if len(wl) >= 3 {
		p := g.Perm(len(wl))
		i, j, k := p[0], p[1], p[2]
		// cross product of (wl_i,wl_j,wl_k) and (wr_i,wr_j,wr_k)
		cx := func(a, b int) fr.Element { return ref.Sub(ref.Mul(wl[a], wr[b]), ref.Mul(wl[b], wr[a])) }
		di, dj, dk := cx(j, k), cx(k, i), cx(i, j)
		if di.IsZero() && dj.IsZero() && dk.IsZero() {
			di, dj = wl[j], ref.Neg(wl[i])
			dk = fr.Element{}
		}
		x := kit.Clone(s.in)
		x[i], x[j], x[k] = ref.Add(x[i], di), ref.Add(x[j], dj), ref.Add(x[k], dk)
		if !kit.Eq(x, s.in) {
			if s.accepts(x, s.out) {
				t.Candidate("inputs-in-kernel-of-final-points", "inputs that differ by a vector orthogonal to the weights of both final points are accepted with the honest proof (no challenge depends on the inputs)")
			}
			t.Eval(1)
			t.Count("linear_input", 1)
			t.Distinct(gen.Describe(s.c), s.bN, "linear input", i, j, k)
		}
	}
}

func run(r *kit.Run) {
	for i := 0; i < r.N(1600, 40000); i++ {
		r.Case(fmt.Sprintf("random/%d", i), func(t *kit.T) {
			g := t.Rng
			kind := gen.Builtin
			if g.P(1, 4) {
				kind = gen.WithUser
			}
			c := gen.Circuit(g, gen.Opts{MaxLayers: 3, MaxBG: g.Pick(0, 1, 2, 3), MaxWires: 6, Gates: kind, Dense: g.Bool(), NoGaps: g.Bool()})
			bN := g.Range(0, 4)
			s := setup(t, c, bN, g.Range(0, bN), false)
			s.attack(t, r.N(24, 128))
			if i%8 == 1 {
				s.misfit(t)
			}
			if i%8 == 0 {
				s.steered(t, r.N(4, 16))
			}
			if i < 40 {
				s.linear(t)
			}
			t.Max("outputs", len(s.out))
			if i < 16 {
				t.Sample(map[string]interface{}{"case": t.Name, "circuit": gen.Describe(c), "bN": bN, "chunks": 1 << s.k})
			}
		})
	}
	for i := 0; i < r.N(16, 100); i++ {
		r.Case(fmt.Sprintf("wide/%d", i), func(t *kit.T) {
			c := gen.Circuit(t.Rng, gen.Opts{MaxLayers: 2, MaxBG: 2, MaxWires: 6, Gates: gen.Builtin, NoGaps: true})
			bN := t.Rng.Range(7, 9)
			s := setup(t, c, bN, t.Rng.Range(0, 3), false)
			s.attack(t, 30)
		})
	}
	// long batches: two values exchanged whose indices differ in two bits, for
	// every pair of bits, so that no two coordinates the verifier reads may be
	// equal or complementary
	for i := 0; i < r.N(8, 32); i++ {
		r.Case(fmt.Sprintf("long/%d", i), func(t *kit.T) {
			g := t.Rng
			c := gen.Circuit(g, gen.Opts{MaxLayers: 1, MaxBG: g.Pick(0, 1, 2), MaxWires: 4, Gates: gen.Builtin, NoGaps: true})
			bN := g.Range(12, 14)
			s := setup(t, c, bN, g.Range(0, 3), false)
			for side, base := range [][]fr.Element{s.out, s.in} {
				n := ref.Log2(len(base))
				for b := 0; b < n; b++ {
					for a := 0; a < b; a++ {
						h := g.Intn(len(base))&^(1<<a) | 1<<b
						if g.Bool() {
							h |= 1 << a
						}
						j := h ^ 1<<a ^ 1<<b
						x := kit.Clone(base)
						x[h], x[j] = x[j], x[h]
						in, out := s.in, x
						if side == 1 {
							in, out = x, s.out
						}
						if kit.Eq(x, base) {
							continue
						}
						if s.accepts(in, out) && !(side == 1 && s.inKernel(in)) {
							t.Fail("a proof is accepted for another batch: %s %d and %d exchanged; bN=%d chunks=%d %s", []string{"outputs", "inputs"}[side], h, j, bN, 1<<s.k, gen.Describe(c))
						}
						t.Eval(1)
						t.Count("long", 1)
						t.Distinct("long", i, side, a, b)
					}
				}
			}
			t.Max("logBatch", bN)
		})
	}
	// batches above every size the code could switch at: values changed at
	// the places where a truncated index or a skipped block would show
	for i := 0; i < r.N(1, 4); i++ {
		r.Case(fmt.Sprintf("huge/%d", i), func(t *kit.T) {
			g := t.Rng
			c := gen.Circuit(g, gen.Opts{MaxLayers: 1, MaxBG: g.Pick(0, 1), MaxWires: 2, Gates: gen.Builtin, NoGaps: true})
			bN := g.Range(16, 17)
			s := setup(t, c, bN, g.Range(0, 4), false)
			for side, base := range [][]fr.Element{s.out, s.in} {
				places := []int{g.Intn(len(base)), len(base) - 1}
				for b := 1; b < len(base); b <<= 2 {
					places = append(places, b-g.Intn(2))
				}
				for _, h := range places {
					old := base[h]
					for base[h] == old {
						base[h] = t.Rng.FrNear(old)
					}
					// written through to the batch s.in or s.out itself
					if s.accepts(s.in, s.out) {
						t.Fail("a proof is accepted for another batch: %s %d of %d changed; bN=%d chunks=%d %s", []string{"output", "input"}[side], h, len(base), bN, 1<<s.k, gen.Describe(c))
					}
					base[h] = old
					t.Eval(1)
					t.Count("huge", 1)
					t.Distinct("huge", i, side, h)
				}
			}
			t.Max("logBatch", bN)
		})
	}
	// the point the outputs are read at, for batches too large to be proved here:
	// two equal or complementary coordinates, or one that is 1/2, would hide an
	// exchange of two outputs, and a boolean one half of them
	r.Case("point", func(t *kit.T) {
		one := ref.One()
		for bN := 0; bN <= 34; bN++ {
			for bG := 0; bG <= 10; bG++ {
				qP, q := gkr.GetInitialQPrimeAndQ(bN, bG)
				if len(qP) != bN || len(q) != bG {
					t.Fail("the initial point has %d and %d coordinates for bN=%d, bG=%d", len(qP), len(q), bN, bG)
				}
				p := append(kit.Clone(q), qP...)
				for j := range p {
					if c := ref.Sub(one, p[j]); p[j].IsZero() || c.IsZero() {
						t.Fail("coordinate %d of the initial point is boolean, half of the outputs are not checked; bN=%d bG=%d", j, bN, bG)
					}
					for i := 0; i <= j; i++ {
						if i < j && p[i] == p[j] || p[i] == ref.Sub(one, p[j]) {
							t.Fail("coordinates %d and %d of the initial point are equal or complementary: exchanged outputs are accepted; bN=%d bG=%d", i, j, bN, bG)
						}
					}
				}
				t.Eval(1)
				t.Count("initial_points", 1)
				t.Distinct("point", bN, bG)
			}
		}
	})
	for i := 0; i < r.N(16, 100); i++ {
		r.Case(fmt.Sprintf("mimc/%d", i), func(t *kit.T) {
			bN := t.Rng.Range(0, 3)
			s := setup(t, gen.Mimc(), bN, t.Rng.Range(0, bN), true)
			s.attack(t, 8)
			s.steered(t, r.N(2, 16))
			s.misfit(t)
			s.linear(t)
		})
	}
}
