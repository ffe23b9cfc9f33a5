// C17: the SNARK gadgets compute the native functions.
package main

import (
	"fmt"

	"gkr-mimc/common"
	"gkr-mimc/hash"
	"gkr-mimc/polynomial"
	sgkr "gkr-mimc/snark/gkr"
	shash "gkr-mimc/snark/hash"
	spoly "gkr-mimc/snark/polynomial"
	ssum "gkr-mimc/snark/sumcheck"
	"gkr-mimc/sumcheck"

	"verif/gen"
	"verif/kit"
	"verif/ref"
	"verif/snk"

	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gurvy"
	"github.com/consensys/gurvy/bn256/fr"
)

func main() {
	kit.Main(kit.Config{
		ID:      "C17",
		Rule:    "each gadget is compiled for a range of sizes; gnark's solver decides random and special inputs with the value of the native function (must be satisfied) and with altered, swapped and negated claimed values (must not be). Witness assignments are decided place by place through circuits that expose every slot; lists of wrong lengths must be refused. Non-trivial: distinct (gadget, size, inputs)",
		Require: []string{"mimc", "eq", "univariate_eq", "multilinear", "multilinear_fold", "mixed", "univariate", "zero_and_one", "sumcheck", "sumcheck_bad_round", "sumcheck_two_rounds", "wrong_values", "placement", "wrong_length", "combine", "expressions", "constants", "larger"},
	}, run)
}

type V = frontend.Variable
type CS = frontend.ConstraintSystem

// decide compiles the gadget and presents trials: right values and wrong ones.
func decide(t *kit.T, name string, nIn, nOut int, f snk.Func, native func(in []fr.Element) []fr.Element, gen func() []fr.Element, trials int) {
	plain(t, name, nIn, nOut, f, native, gen, trials)
	g := t.Rng
	if nIn == 0 || !g.P(1, 2) {
		return
	}
	// the gadget's inputs are linear expressions of the variables
	k, w, from := g.FrsUniform(nIn), g.FrsUniform(nIn), make([]int, nIn)
	for i := range from {
		from[i] = -1
		switch g.Intn(4) {
		case 0:
			k[i], w[i] = fr.Element{}, ref.One()
		case 1:
			w[i] = ref.Neg(ref.One())
		case 2:
			if i > 0 {
				from[i] = g.Intn(i)
			}
		}
	}
	value := func(raw []fr.Element, i int) fr.Element {
		v := ref.Add(ref.Mul(raw[i], w[i]), k[i])
		if from[i] >= 0 {
			v = ref.Add(v, raw[from[i]])
		}
		return v
	}
	plain(t, name+" of expressions", nIn, nOut, func(cs *CS, in []V) []V {
		x := make([]V, nIn)
		for i := range x {
			x[i] = cs.Add(cs.Mul(in[i], cs.Constant(w[i])), cs.Constant(k[i]))
			if from[i] >= 0 {
				x[i] = cs.Add(x[i], in[from[i]])
			}
		}
		return f(cs, x)
	}, func(raw []fr.Element) []fr.Element {
		x := make([]fr.Element, nIn)
		for i := range x {
			x[i] = value(raw, i)
		}
		return native(x)
	}, func() []fr.Element {
		x := gen()
		raw := make([]fr.Element, nIn)
		for i := range x { // value(raw, i) = x[i]
			y := ref.Sub(x[i], k[i])
			if from[i] >= 0 {
				y = ref.Sub(y, raw[from[i]])
			}
			raw[i] = ref.Mul(y, ref.Inv(w[i]))
		}
		return raw
	}, 1)
	t.Count("expressions", 1)
	// some inputs are constants
	c := gen()
	fixed := make([]bool, nIn)
	for i := range fixed {
		fixed[i] = g.P(1, 3)
	}
	plain(t, name+" of constants", nIn, nOut, func(cs *CS, in []V) []V {
		x := append([]V{}, in...)
		for i := range x {
			if fixed[i] {
				x[i] = cs.Constant(c[i])
			}
		}
		return f(cs, x)
	}, native, func() []fr.Element { return c }, 1)
	t.Count("constants", 1)
}

func plain(t *kit.T, name string, nIn, nOut int, f snk.Func, native func(in []fr.Element) []fr.Element, gen func() []fr.Element, trials int) {
	g := t.Rng
	s, err := snk.Compile(nIn, nOut, f)
	if err != nil {
		t.Fail("%s does not compile: %v", name, err)
	}
	for i := 0; i < trials; i++ {
		in := gen()
		out := native(in)
		if ok, why := s.Solved(in, out); !ok {
			t.Fail("%s: the native value does not satisfy the gadget: in %s out %s: %s", name, kit.Str(in...), kit.Str(out...), why)
		}
		t.Eval(1)
		t.Distinct(name, kit.Str(in...))
		for j := range out {
			if len(out) > 100 && !g.P(100, len(out)) {
				continue
			}
			for k := 0; k < 3; k++ {
				bad := kit.Clone(out)
				switch k {
				case 0:
					bad[j] = ref.Add(bad[j], g.FrNZ())
				case 1:
					bad[j] = ref.Neg(bad[j])
				case 2:
					o := g.Intn(len(out))
					bad[j], bad[o] = bad[o], bad[j]
				}
				if kit.Eq(bad, out) {
					continue
				}
				if ok, _ := s.Solved(in, bad); ok {
					t.Fail("%s: a wrong value satisfies the gadget: in %s claimed %s native %s", name, kit.Str(in...), kit.Str(bad...), kit.Str(out...))
				}
				t.Eval(1)
				t.Count("wrong_values", 1)
			}
		}
	}
}

func cat(xs ...[]V) []V {
	var r []V
	for _, x := range xs {
		r = append(r, x...)
	}
	return r
}

// transcript makes an accepted list of round polynomials.
func transcript(g *kit.Rng, degs []int, claim fr.Element) [][]fr.Element {
	var polys [][]fr.Element
	for _, d := range degs {
		p := g.Frs(d + 1)
		// p(0)+p(1) = 2 p0 + p1 + ... = claim
		rest := fr.Element{}
		for _, c := range p[1:] {
			rest = ref.Add(rest, c)
		}
		p[0] = ref.Mul(ref.Half, ref.Sub(claim, rest))
		polys = append(polys, p)
		claim = ref.PolyEval(p, ref.MimcHash(p))
	}
	return polys
}

func sumcheckCase(t *kit.T, bN, bG int, d [3]int) {
	g := t.Rng
	var degs []int
	for i := 0; i < bG; i++ {
		degs = append(degs, d[0])
	}
	for i := 0; i < bG; i++ {
		degs = append(degs, d[1])
	}
	for i := 0; i < bN; i++ {
		degs = append(degs, d[2])
	}
	nIn := 1
	for _, x := range degs {
		nIn += x + 1
	}
	name := fmt.Sprintf("sumcheck verifier bN=%d bG=%d degrees %v", bN, bG, d)
	split := func(in []fr.Element) (fr.Element, [][]fr.Element) {
		var ps [][]fr.Element
		k := 1
		for _, x := range degs {
			ps = append(ps, in[k:k+x+1])
			k += x + 1
		}
		return in[0], ps
	}
	gadget := func(cs *CS, in []V) []V {
		p := ssum.AllocateProof(bN, bG, d[0], d[1], d[2])
		if len(p.HPolys) != len(degs) {
			panic(fmt.Sprintf("%d rounds allocated instead of %d", len(p.HPolys), len(degs)))
		}
		k := 1
		for i, x := range degs {
			if len(p.HPolys[i].Coefficients) != x+1 {
				panic(fmt.Sprintf("round %d allocated with %d coefficients instead of %d", i, len(p.HPolys[i].Coefficients), x+1))
			}
			p.HPolys[i].Coefficients = append([]V{}, in[k:k+x+1]...)
			k += x + 1
		}
		hL, hR, hP, last := p.AssertValid(cs, in[0], bG)
		if len(hL) != bG || len(hR) != bG || len(hP) != bN {
			panic(fmt.Sprintf("%d %d %d challenges returned", len(hL), len(hR), len(hP)))
		}
		return cat(hL, hR, hP, []V{last})
	}
	native := func(in []fr.Element) []fr.Element {
		claim, ps := split(in)
		v := sumcheck.Verifier{}
		ok, hP, hL, hR, last := v.Verify(claim, sumcheck.Proof{PolyCoeffs: kit.Clone2(ps)}, bN, bG)
		if !ok {
			t.Fail("%s: the native verifier rejects a consistent transcript", name)
		}
		r := append(append(append([]fr.Element{}, hL...), hR...), hP...)
		return append(r, last)
	}
	mk := func() []fr.Element {
		claim := g.Fr()
		in := []fr.Element{claim}
		for _, p := range transcript(g, degs, claim) {
			in = append(in, p...)
		}
		return in
	}
	decide(t, name, nIn, len(degs)+1, gadget, native, mk, 2)
	t.Count("sumcheck", 1)
	// transcripts that fail in exactly one round
	s, err := snk.Compile(nIn, len(degs)+1, gadget)
	if err != nil {
		t.Fail("%s does not compile: %v", name, err)
	}
	off := func(errs map[int]fr.Element, kind, what string) {
		claim := g.Fr()
		in := []fr.Element{claim}
		var out []fr.Element
		run := claim
		for i := range degs {
			p := transcript(g, degs[i:i+1], ref.Add(run, errs[i]))[0]
			in = append(in, p...)
			x := ref.MimcHash(p)
			out = append(out, x)
			run = ref.PolyEval(p, x)
		}
		out = append(out, run)
		if ok, _ := s.Solved(in, out); ok {
			t.Fail("%s: a transcript in which %s does not sum to the running claim satisfies the gadget", name, what)
		}
		t.Eval(1)
		t.Count(kind, 1)
	}
	for i := range degs {
		off(map[int]fr.Element{i: g.FrNZ()}, "sumcheck_bad_round", fmt.Sprintf("round %d", i))
	}
	if len(degs) > 1 { // errors a sum of the conditions would not see
		for k, rho := range []fr.Element{ref.Neg(ref.One()), ref.Neg(ref.U(2)), ref.Neg(ref.Half), ref.One()} {
			p := g.Perm(len(degs))
			d := g.FrNZ()
			off(map[int]fr.Element{p[0]: d, p[1]: ref.Mul(rho, d)}, "sumcheck_two_rounds", fmt.Sprintf("rounds %d and %d (errors in proportion %d)", p[0], p[1], k))
		}
	}
}

// ---------------------------------------------------------------- placement

type mlPlace struct {
	P spoly.MultilinearByValues
	E []V `gnark:",public"`
}

func (c *mlPlace) Define(_ gurvy.ID, cs *CS) error {
	for i := range c.E {
		cs.AssertIsEqual(c.P.Table[i], c.E[i])
	}
	return nil
}

type uniPlace struct {
	P spoly.Univariate
	E []V `gnark:",public"`
}

func (c *uniPlace) Define(_ gurvy.ID, cs *CS) error {
	for i := range c.E {
		cs.AssertIsEqual(c.P.Coefficients[i], c.E[i])
	}
	return nil
}

type scPlace struct {
	P ssum.Proof
	E []V `gnark:",public"`
}

func (c *scPlace) Define(_ gurvy.ID, cs *CS) error {
	k := 0
	for i := range c.P.HPolys {
		for j := range c.P.HPolys[i].Coefficients {
			cs.AssertIsEqual(c.P.HPolys[i].Coefficients[j], c.E[k])
			k++
		}
	}
	return nil
}

func placement(t *kit.T) {
	g := t.Rng
	assignE := func(e []V, vals []fr.Element) {
		for i := range vals {
			e[i].Assign(vals[i])
		}
	}
	perm := func(vals []fr.Element) []fr.Element {
		b := kit.Clone(vals)
		i, j := g.Intn(len(b)), g.Intn(len(b))
		b[i], b[j] = b[j], b[i]
		return b
	}
	check := func(what string, compile func() frontend.Circuit, witness func(e []fr.Element) (frontend.Circuit, string), vals []fr.Element) {
		r, err := snk.CompileCircuit(compile())
		if err != nil {
			t.Fail("%s does not compile: %v", what, err)
		}
		w, m := witness(vals)
		if m != "" {
			t.Fail("%s: refused: %s", what, m)
		}
		if ok, why := snk.SolvedWitness(r, w); !ok {
			t.Fail("%s: a value is not in its place: %s", what, why)
		}
		if bad := perm(vals); !kit.Eq(bad, vals) {
			if w, m = witness(bad); m == "" {
				if ok, _ := snk.SolvedWitness(r, w); ok {
					t.Fail("%s: the slots satisfy two different orders of the values", what)
				}
			}
		}
		t.Eval(2)
		t.Count("placement", 1)
		t.Distinct(what, kit.Str(vals...))
	}
	// lists are refused when they are assigned; chunked tables that are too small
	// may leave it to the solver, which misses their values
	refused := func(what string, atOnce bool, compile func() frontend.Circuit, assign func() frontend.Circuit) {
		var w frontend.Circuit
		_, panicked := kit.Panics(func() { w = assign() })
		if !panicked && atOnce {
			t.Fail("%s: not refused", what)
		}
		if !panicked {
			r, err := snk.CompileCircuit(compile())
			if err != nil {
				t.Fail("%s does not compile: %v", what, err)
			}
			if ok, _ := snk.SolvedWitness(r, w); ok {
				t.Fail("%s: accepted", what)
			}
		}
		t.Eval(1)
		t.Count("wrong_length", 1)
	}
	// multilinear, from a list and from chunks
	n := g.Range(0, 5)
	if g.P(1, 20) {
		n = g.Range(6, 9)
	}
	// now and then special, repeated and neighbouring values
	list := g.FrsUniform
	if g.P(1, 2) {
		list = g.Frs
	}
	vals := list(1 << n)
	mk := func() frontend.Circuit {
		return &mlPlace{P: spoly.AllocateMultilinear(n), E: make([]V, 1<<n)}
	}
	fill := func(e, from []fr.Element, f func(p *spoly.MultilinearByValues)) (frontend.Circuit, string) {
		w := mk().(*mlPlace)
		m, p := kit.Panics(func() { f(&w.P) })
		if p {
			return nil, m
		}
		assignE(w.E, e)
		return w, ""
	}
	check(fmt.Sprintf("Multilinear.Assign of 2^%d values", n), mk, func(e []fr.Element) (frontend.Circuit, string) {
		return fill(e, vals, func(p *spoly.MultilinearByValues) { p.Assign(common.FrToGenericArray(vals)) })
	}, vals)
	k := g.Range(0, n)
	check(fmt.Sprintf("Multilinear.AssignFromChunkedBKT of 2^%d values in 2^%d chunks", n, k), mk, func(e []fr.Element) (frontend.Circuit, string) {
		return fill(e, vals, func(p *spoly.MultilinearByValues) { p.AssignFromChunkedBKT(ref.Split(vals, 1<<k)) })
	}, vals)
	for _, l := range []int{1<<n - 1, 1<<n + 1, 2 << n, 1 << n >> 1, 0} {
		if l == 1<<n {
			continue
		}
		wrong := g.Frs(l)
		e := make([]fr.Element, 1<<n)
		copy(e, wrong)
		refused(fmt.Sprintf("Multilinear.Assign of %d values to 2^%d slots", l, n), true, mk, func() frontend.Circuit {
			w := mk().(*mlPlace)
			w.P.Assign(common.FrToGenericArray(wrong))
			assignE(w.E, e)
			return w
		})
		for _, kk := range []int{0, k} {
			if l%(1<<kk) != 0 {
				continue
			}
			refused(fmt.Sprintf("Multilinear.AssignFromChunkedBKT of %d values in 2^%d chunks to 2^%d slots", l, kk, n), false, mk, func() frontend.Circuit {
				w := mk().(*mlPlace)
				w.P.AssignFromChunkedBKT(ref.Split(wrong, 1<<kk))
				assignE(w.E, e)
				return w
			})
		}
	}
	// univariate
	d := g.Range(0, 10)
	if g.P(1, 20) {
		d = g.Range(11, 40)
	}
	cs := list(d + 1)
	if g.P(1, 6) {
		cs[d] = fr.Element{}
	}
	mkU := func() frontend.Circuit { return &uniPlace{P: spoly.AllocateUnivariate(d), E: make([]V, d+1)} }
	check(fmt.Sprintf("Univariate.Assign of degree %d", d), mkU, func(e []fr.Element) (frontend.Circuit, string) {
		w := mkU().(*uniPlace)
		if m, p := kit.Panics(func() { w.P.Assign(cs) }); p {
			return nil, m
		}
		assignE(w.E, e)
		return w, ""
	}, cs)
	for _, l := range []int{d, d + 2, 0, 2*d + 2} {
		if l == d+1 {
			continue
		}
		wrong := g.Frs(l)
		e := make([]fr.Element, d+1)
		copy(e, wrong)
		refused(fmt.Sprintf("Univariate.Assign of %d coefficients to %d slots", l, d+1), true, mkU, func() frontend.Circuit {
			w := mkU().(*uniPlace)
			w.P.Assign(wrong)
			assignE(w.E, e)
			return w
		})
	}
	// sumcheck proofs
	bN, bG := g.Range(0, 3), g.Range(0, 2)
	if g.P(1, 20) {
		bN, bG = g.Range(4, 20), g.Range(0, 6)
	}
	if bN+bG == 0 {
		bN = 1
	}
	dg := []int{g.Range(0, 3), g.Range(0, 8), g.Range(0, 8)}
	alloc := func() ssum.Proof { return ssum.AllocateProof(bN, bG, dg[0], dg[1], dg[2]) }
	var polys [][]fr.Element
	var flat []fr.Element
	for i := 0; i < 2*bG+bN; i++ {
		x := dg[2]
		if i < bG {
			x = dg[0]
		} else if i < 2*bG {
			x = dg[1]
		}
		polys = append(polys, list(x+1))
		if g.P(1, 6) {
			polys[i][x] = fr.Element{}
		}
		if i > 0 && g.P(1, 6) {
			copy(polys[i], polys[i-1])
		}
		flat = append(flat, polys[i]...)
	}
	mkS := func() frontend.Circuit { return &scPlace{P: alloc(), E: make([]V, len(flat))} }
	what := fmt.Sprintf("sumcheck Proof.Assign bN=%d bG=%d degrees %v", bN, bG, dg)
	check(what, mkS, func(e []fr.Element) (frontend.Circuit, string) {
		w := mkS().(*scPlace)
		if m, p := kit.Panics(func() { w.P.Assign(sumcheck.Proof{PolyCoeffs: polys}) }); p {
			return nil, m
		}
		assignE(w.E, e)
		return w, ""
	}, flat)
	for x := 0; x < 4; x++ {
		bad := kit.Clone2(polys)
		i := g.Intn(len(bad))
		switch x {
		case 0:
			bad = bad[:len(bad)-1]
		case 1:
			bad = append(bad, g.Frs(dg[2]+1))
		case 2:
			bad[i] = append(bad[i], g.Fr())
		case 3:
			bad[i] = bad[i][:len(bad[i])-1]
		}
		refused(fmt.Sprintf("%s with wrong lengths (%d)", what, x), true, mkS, func() frontend.Circuit {
			w := mkS().(*scPlace)
			w.P.Assign(sumcheck.Proof{PolyCoeffs: bad})
			assignE(w.E, flat)
			return w
		})
	}
}

// combineCase decides the layer combinations (one point, and two points with
// weights) of a random layer against the defining sum.
func combineCase(t *kit.T, bG, bQ, bN int, two bool) {
	g := t.Rng
	type entry struct {
		a, b, c fr.Element
		j, k    int
	}
	n := g.Range(1, 4)
	if g.P(1, 12) { // more than a machine word has bits
		n, bG = g.Range(9, 70), min(bG, 1)
	}
	var gates []ref.Gate
	var tabs [][]entry
	ly := sgkr.Layer{BG: bG}
	for i := 0; i < n; i++ {
		var rg ref.Gate
		var sg sgkr.Gate
		switch g.Intn(4) {
		case 0:
			rg, sg = ref.CopyG, sgkr.CopyGate()
		case 1:
			x := ref.CipherGate{Ark: g.Fr()}
			rg, sg = x, sgkr.CipherGate(x.Ark)
		default:
			x := gen.Poly(g, g.Range(1, 4))
			rg, sg = x, gen.NewUserGate(x).GnarkEval
		}
		gates = append(gates, rg)
		es := make([]entry, 1<<(2*bG))
		for e := range es {
			if g.P(2, 3) {
				es[e].a = g.Fr()
			}
			if bQ > 0 && g.Bool() {
				es[e].b, es[e].j = g.Fr(), g.Intn(bQ)
			}
			if bQ > 0 && g.P(1, 4) {
				es[e].c, es[e].k = g.Fr(), g.Intn(bQ)
			}
		}
		tabs = append(tabs, es)
		ly.Gates = append(ly.Gates, sg)
		ly.StaticTable = append(ly.StaticTable, func(cs *CS, q []V) spoly.MultilinearByValues {
			t := make([]V, len(es))
			for e, x := range es {
				t[e] = cs.Constant(x.a)
				if bQ > 0 {
					t[e] = cs.Add(t[e], cs.Mul(cs.Constant(x.b), q[x.j]), cs.Mul(cs.Constant(x.c), q[x.j], q[x.k]))
				}
			}
			return spoly.NewMultilinearByValues(t)
		})
	}
	points := 1
	if two {
		points = 2
	}
	// in: q (or qL, qR), qPrime, hL, hR, hPrime, vL, vR (, lambdaL, lambdaR)
	sizes := []int{bQ * points, bN, bG, bG, bN, 2, 2 * (points - 1)}
	nIn := 0
	for _, x := range sizes {
		nIn += x
	}
	native := func(in []fr.Element) []fr.Element {
		var p [][]fr.Element
		for _, x := range sizes {
			p, in = append(p, in[:x]), in[x:]
		}
		hh := append(kit.Clone(p[2]), p[3]...)
		weights := []fr.Element{ref.One()}
		if two {
			weights = p[6]
		}
		var res fr.Element
		for i := range gates {
			for w, lam := range weights {
				q := p[0][w*bQ : (w+1)*bQ]
				tab := make([]fr.Element, len(tabs[i]))
				for e, x := range tabs[i] {
					tab[e] = x.a
					if bQ > 0 {
						tab[e] = ref.Add(tab[e], ref.Add(ref.Mul(x.b, q[x.j]), ref.Mul(x.c, ref.Mul(q[x.j], q[x.k]))))
					}
				}
				res = ref.Add(res, ref.Mul(lam, ref.Mul(ref.MLE(tab, hh), gates[i].Eval(p[5][0], p[5][1]))))
			}
		}
		return []fr.Element{ref.Mul(res, ref.EqPoints(p[1], p[4]))}
	}
	f := func(cs *CS, in []V) []V {
		var p [][]V
		for _, x := range sizes {
			p, in = append(p, in[:x]), in[x:]
		}
		if two {
			return []V{ly.CombineWithLinearComb(cs, p[0][:bQ], p[0][bQ:], p[1], p[2], p[3], p[4], p[6][0], p[6][1], p[5][0], p[5][1])}
		}
		return []V{ly.Combine(cs, p[0], p[1], p[2], p[3], p[4], p[5][0], p[5][1])}
	}
	name := fmt.Sprintf("layer combination (two points: %v) bG=%d bQ=%d bN=%d gates=%d", two, bG, bQ, bN, n)
	decide(t, name, nIn, 1, f, native, func() []fr.Element { return g.Frs(nIn) }, 4)
	t.Count("combine", 1)
}

func run(r *kit.Run) {
	for i := 0; i < r.N(60, 600); i++ {
		r.Case(fmt.Sprintf("combine/%d", i), func(t *kit.T) {
			combineCase(t, t.Rng.Range(0, 2), t.Rng.Range(0, 2), t.Rng.Range(0, 3), i%2 == 1)
		})
	}
	tr := r.N(4, 60)
	mimc := func(n, tr int) {
		r.Case(fmt.Sprintf("mimc/%d", n), func(t *kit.T) {
			decide(t, fmt.Sprintf("MimcHash of %d", n), n, 1, func(cs *CS, in []V) []V { return []V{shash.MimcHash(cs, in...)} },
				func(in []fr.Element) []fr.Element { return []fr.Element{hash.MimcHash(in)} }, func() []fr.Element { return t.Rng.Frs(n) }, tr)
			t.Count("mimc", 1)
		})
	}
	eq := func(n, i, tr int) {
		r.Case(fmt.Sprintf("eq/%d/%d", n, i), func(t *kit.T) {
			decide(t, fmt.Sprintf("EqEval of %d", n), 2*n, 1, func(cs *CS, in []V) []V { return []V{spoly.EqEval(cs, in[:n], in[n:])} },
				func(in []fr.Element) []fr.Element { return []fr.Element{polynomial.EvalEq(in[:n], in[n:])} }, func() []fr.Element { return t.Rng.Frs(2 * n) }, tr)
			t.Count("eq", 1)
		})
	}
	multilinear := func(n, i, tr int) {
		r.Case(fmt.Sprintf("multilinear/%d/%d", n, i), func(t *kit.T) {
			N := 1 << n
			// twice on the same table: evaluation does not consume it
			decide(t, fmt.Sprintf("Multilinear.Eval of 2^%d", n), N+2*n, 2, func(cs *CS, in []V) []V {
				m := spoly.NewMultilinearByValues(in[:N:N])
				a := m.Eval(cs, in[N:N+n])
				return []V{a, m.Eval(cs, in[N+n:])}
			}, func(in []fr.Element) []fr.Element {
				b := polynomial.NewBookKeepingTable(kit.Clone(in[:N]))
				return []fr.Element{b.Evaluate(in[N : N+n]), b.Evaluate(in[N+n:])}
			}, func() []fr.Element { return t.Rng.Frs(N + 2*n) }, tr)
			t.Count("multilinear", 1)
		})
		if n > 0 {
			r.Case(fmt.Sprintf("fold/%d/%d", n, i), func(t *kit.T) {
				N := 1 << n
				decide(t, fmt.Sprintf("Multilinear.Fold of 2^%d", n), N+1, N/2+N, func(cs *CS, in []V) []V {
					m := spoly.NewMultilinearByValues(in[:N:N])
					c := m.DeepCopy()
					c.Fold(cs, in[N])
					return cat(c.Table, m.Table)
				}, func(in []fr.Element) []fr.Element {
					b := polynomial.NewBookKeepingTable(kit.Clone(in[:N]))
					b.Fold(in[N])
					return append(append([]fr.Element{}, b.Table...), in[:N]...)
				}, func() []fr.Element { return t.Rng.Frs(N + 1) }, 1)
				t.Count("multilinear_fold", 1)
			})
		}
	}
	mixed := func(bG, bN, i, tr int) {
		r.Case(fmt.Sprintf("mixed/%d/%d/%d", bG, bN, i), func(t *kit.T) {
			N := 1 << (bG + bN)
			decide(t, fmt.Sprintf("Multilinear.EvalMixed of 2^%d+2^%d", bG, bN), N+2*bG+bN, 3, func(cs *CS, in []V) []V {
				m := spoly.NewMultilinearByValues(in[:N:N])
				l, rr := m.EvalMixed(cs, in[N:N+bG], in[N+bG:N+2*bG], in[N+2*bG:])
				return []V{l, rr, m.Table[N-1]}
			}, func(in []fr.Element) []fr.Element {
				b := polynomial.NewBookKeepingTable(kit.Clone(in[:N]))
				l, rr := b.EvaluateLeftAndRight(in[N+2*bG:], in[N:N+bG], in[N+bG:N+2*bG])
				return []fr.Element{l, rr, in[N-1]}
			}, func() []fr.Element { return t.Rng.Frs(N + 2*bG + bN) }, tr)
			t.Count("mixed", 1)
		})
	}
	univariate := func(d, i, tr int) {
		r.Case(fmt.Sprintf("univariate/%d/%d", d, i), func(t *kit.T) {
			decide(t, fmt.Sprintf("Univariate.Eval of degree %d", d), d+3, 2, func(cs *CS, in []V) []V {
				u := spoly.NewUnivariate(in[: d+1 : d+1])
				a := u.Eval(cs, in[d+1])
				return []V{a, u.Eval(cs, in[d+2])}
			}, func(in []fr.Element) []fr.Element {
				return []fr.Element{polynomial.EvaluatePolynomial(in[:d+1], in[d+1]), polynomial.EvaluatePolynomial(in[:d+1], in[d+2])}
			}, func() []fr.Element { return t.Rng.Frs(d + 3) }, tr)
			t.Count("univariate", 1)
			decide(t, fmt.Sprintf("Univariate.ZeroAndOne of degree %d", d), d+1, 1, func(cs *CS, in []V) []V {
				u := spoly.NewUnivariate(in)
				return []V{u.ZeroAndOne(cs)}
			}, func(in []fr.Element) []fr.Element {
				return []fr.Element{ref.Add(polynomial.EvaluatePolynomial(in, fr.Element{}), polynomial.EvaluatePolynomial(in, ref.One()))}
			}, func() []fr.Element { return t.Rng.Frs(d + 1) }, tr)
			t.Count("zero_and_one", 1)
		})
	}
	sum := func(bG, bN, i int, d func(g *kit.Rng) [3]int) {
		r.Case(fmt.Sprintf("sumcheck/%d/%d/%d", bG, bN, i), func(t *kit.T) { sumcheckCase(t, bN, bG, d(t.Rng)) })
	}
	for n := 0; n <= r.N(9, 20); n++ {
		mimc(n, tr)
	}
	for i := 0; i < r.N(8, 60); i++ {
		for n := 0; n <= r.N(7, 12); n++ {
			eq(n, i, tr)
		}
		r.Case(fmt.Sprintf("univariate-eq/%d", i), func(t *kit.T) {
			decide(t, "UnivariateEqEval", 2, 1, func(cs *CS, in []V) []V { return []V{spoly.UnivariateEqEval(cs, in[0], in[1])} },
				func(in []fr.Element) []fr.Element { return []fr.Element{polynomial.EvalEq(in[:1], in[1:])} }, func() []fr.Element { return t.Rng.Frs(2) }, tr)
			t.Count("univariate_eq", 1)
		})
		for n := 0; n <= r.N(5, 8); n++ {
			multilinear(n, i, tr)
		}
		for bG := 0; bG <= 3; bG++ {
			for bN := 0; bN <= 3; bN++ {
				mixed(bG, bN, i, tr)
			}
		}
		for d := 0; d <= 11; d++ {
			univariate(d, i, tr)
		}
		for bG := 0; bG <= 2; bG++ {
			for bN := 0; bN <= 3; bN++ {
				if bG+bN > 0 { // else no rounds: not a proof
					sum(bG, bN, i, func(g *kit.Rng) [3]int {
						if g.Bool() {
							return [3]int{g.Range(1, 4), g.Range(1, 9), g.Range(1, 9)}
						}
						return [3]int{2, 8, 8}
					})
				}
			}
		}
	}
	// larger ones, a few of each
	for _, n := range []int{17, 33, 67, 131} {
		mimc(n, 1)
	}
	for _, n := range []int{13, 20, 33, 45, 70, 130} {
		eq(n, 1000, 2)
	}
	for _, n := range []int{7, 9, 11} {
		multilinear(n, 1000, 1)
	}
	mixed(1, 6, 1000, 1)
	mixed(5, 1, 1000, 1)
	mixed(2, 7, 1000, 1)
	for _, d := range []int{15, 16, 17, 31, 32, 33, 64, 65, 130} {
		univariate(d, 1000, 2)
	}
	sum(1, 10, 1000, func(g *kit.Rng) [3]int { return [3]int{2, 3, 3} })
	sum(5, 2, 1000, func(g *kit.Rng) [3]int { return [3]int{1, 2, 3} })
	sum(1, 1, 1000, func(g *kit.Rng) [3]int { return [3]int{12, 14, 17} })
	sum(0, 20, 1000, func(g *kit.Rng) [3]int { return [3]int{1, 1, 2} })
	sum(3, 35, 1000, func(g *kit.Rng) [3]int { return [3]int{1, 1, 1} })
	for i := 0; i < 4; i++ {
		r.Case(fmt.Sprintf("combine-large/%d", i), func(t *kit.T) {
			combineCase(t, []int{3, 0, 1, 3}[i], []int{1, 5, 6, 2}[i], []int{1, 6, 12, 40}[i], i%2 == 1)
			t.Count("larger", 1)
		})
	}
	for i := 0; i < r.N(120, 3000); i++ {
		r.Case(fmt.Sprintf("placement/%d", i), func(t *kit.T) {
			placement(t)
			if i < 16 {
				t.Sample(map[string]interface{}{"case": t.Name, "kind": "every slot of an assigned gadget exposed and compared"})
			}
		})
	}
}
