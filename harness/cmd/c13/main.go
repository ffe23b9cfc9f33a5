// C13: all evaluation forms of a gate agree and its degrees are true.
package main

import (
	"fmt"

	"gkr-mimc/circuit"
	snarkgkr "gkr-mimc/snark/gkr"

	"verif/gen"
	"verif/kit"
	"verif/ref"
	"verif/snk"

	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gurvy/bn256/fr"
)

func main() {
	kit.Main(kit.Config{
		ID:      "C13",
		Rule:    "the add, mul, copy and cipher gates (cipher with random, zero, boundary and all 91 round constants) on random and boundary pairs of values, batches of 0..40 (some of 2500): Eval, EvalManyVL, EvalManyVR, EvaluateCombinator, GnarkEval and the MiMC-specific in-circuit gates are compared with the gate's definition; degrees by finite differences along random lines; identifiers of pairs of different gates compared. Non-trivial: distinct (gate, values)",
		Require: []string{"eval", "many_vl", "many_vr", "combinator", "in_circuit", "mimc_in_circuit", "degrees", "id_pairs", "aliased"},
	}, run)
}

func gate(g *kit.Rng) ref.Gate {
	switch g.Intn(8) {
	case 0, 1:
		return ref.AddG
	case 2, 3:
		return ref.MulG
	case 4:
		return ref.CopyG
	case 5:
		return ref.CipherGate{Ark: ref.Arks[g.Intn(91)]}
	}
	return ref.CipherGate{Ark: g.Fr()}
}

func evals(t *kit.T, rg ref.Gate) {
	g := t.Rng
	x := gen.Gate(rg)
	id := x.ID()
	vl, vr := g.Fr(), g.Fr()
	switch g.Intn(6) {
	case 0: // inputs that are related to each other
		vr = g.FrNear(vl)
	case 1: // or to the gate's constant
		if c, ok := rg.(ref.CipherGate); ok {
			vr = ref.Sub(g.Fr(), c.Ark)
			if g.Bool() {
				vr = g.FrNear(c.Ark)
			}
			t.Count("related_to_ark", 1)
		}
	case 2: // the result is special
		if vr = g.Fr(); g.Bool() {
			vl = ref.Sub(g.Fr(), rg.Eval(fr.Element{}, vr))
		}
	}
	l0, r0 := vl, vr
	res := g.FrUniform() // stale
	x.Eval(&res, &vl, &vr)
	if want := rg.Eval(l0, r0); res != want {
		t.Fail("%s: Eval(%s,%s) is %s, its definition gives %s", rg.Key(), l0.String(), r0.String(), res.String(), want.String())
	}
	if vl != l0 || vr != r0 {
		t.Fail("%s: Eval changed its arguments", rg.Key())
	}
	t.Eval(2)
	t.Count("eval", 1)
	same := g.Fr()
	x.Eval(&res, &same, &same) // both inputs read the same value
	if want := rg.Eval(same, same); res != want {
		t.Fail("%s: Eval on twice the same value %s is %s instead of %s", rg.Key(), same.String(), res.String(), want.String())
	}
	t.Eval(1)
	t.Count("aliased", 1)
	for i := 0; i < 3; i++ { // values that resemble the ones the gate saw last
		vl, vr = g.FrNear(vl), g.FrNear(vr)
		x.Eval(&res, &vl, &vr)
		if want := rg.Eval(vl, vr); res != want {
			t.Fail("%s: Eval(%s,%s) is %s instead of %s, after similar values", rg.Key(), vl.String(), vr.String(), res.String(), want.String())
		}
		t.Eval(1)
	}
	l0, r0 = vl, vr
	n := g.Pick(0, 1, 2, 3, 7, 8, 40)
	if g.P(1, 100) {
		n = g.Pick(257, 1024, 2500)
	}
	vls, vrs := g.Frs(n), g.Frs(n)
	a, b := g.FrsUniform(n), g.FrsUniform(n)
	vl0, vr0 := kit.Clone(vls), kit.Clone(vrs)
	if g.P(1, 4) && n > 0 { // and batches after similar ones
		y, z := g.FrNear(vr), g.FrNear(vl)
		x.EvalManyVL(a, vls, &y)
		x.EvalManyVR(b, &z, vrs)
	}
	x.EvalManyVL(a, vls, &vr)
	x.EvalManyVR(b, &vl, vrs)
	for i := 0; i < n; i++ {
		if want := rg.Eval(vl0[i], r0); a[i] != want {
			t.Fail("%s: EvalManyVL[%d](%s,%s) is %s instead of %s", rg.Key(), i, vl0[i].String(), r0.String(), a[i].String(), want.String())
		}
		if want := rg.Eval(l0, vr0[i]); b[i] != want {
			t.Fail("%s: EvalManyVR[%d](%s,%s) is %s instead of %s", rg.Key(), i, l0.String(), vr0[i].String(), b[i].String(), want.String())
		}
		t.Eval(2)
	}
	t.Count("many_vl", n)
	t.Count("many_vr", n)
	if !kit.Eq(vls, vl0) || !kit.Eq(vrs, vr0) || vl != l0 || vr != r0 {
		t.Fail("%s: a batch evaluation changed its arguments", rg.Key())
	}
	if x.ID() != id {
		t.Fail("%s: the identifier changed from %q to %q by evaluating", rg.Key(), id, x.ID())
	}
	t.Eval(2)
	t.Distinct(rg.Key(), l0, r0)
}

func combinator(t *kit.T) {
	g := t.Rng
	n := g.Range(1, 5)
	if g.P(1, 30) {
		n = g.Pick(0, 9, 33, 70, 140)
	}
	var rgs []ref.Gate
	var gs []circuit.Gate
	for i := 0; i < n; i++ {
		x := gate(g)
		if g.P(1, 4) {
			x = gen.Poly(g, g.Range(1, 5))
		}
		rgs = append(rgs, x)
		gs = append(gs, gen.Gate(x))
	}
	st, vl, vr, eq := g.Frs(n), g.Fr(), g.Fr(), g.Fr()
	st0, vl0, vr0, eq0 := kit.Clone(st), vl, vr, eq
	got := circuit.EvaluateCombinator(&vl, &vr, &eq, gs, st)
	var want fr.Element
	for i := range rgs {
		want = ref.Add(want, ref.Mul(st[i], rgs[i].Eval(vl, vr)))
	}
	want = ref.Mul(want, eq)
	if got != want {
		t.Fail("combination of %d gates is %s instead of %s", n, got.String(), want.String())
	}
	if !kit.Eq(st, st0) || vl != vl0 || vr != vr0 || eq != eq0 {
		t.Fail("EvaluateCombinator changed its arguments")
	}
	t.Eval(2)
	t.Count("combinator", 1)
	t.Distinct("combinator", n, vl, vr, eq)
}

// diffs checks that the (d+1)-st finite difference of f vanishes.
func vanishes(f func(i int) fr.Element, d int) bool {
	v := make([]fr.Element, d+2)
	for i := range v {
		v[i] = f(i)
	}
	for k := 0; k <= d; k++ {
		for i := 0; i+1 < len(v); i++ {
			v[i] = ref.Sub(v[i+1], v[i])
		}
		v = v[:len(v)-1]
	}
	return v[0].IsZero()
}

func degrees(t *kit.T, rg ref.Gate) {
	g := t.Rng
	x := gen.Gate(rg)
	dl, dr, dt := x.Degrees()
	l, r, a, b := g.FrUniform(), g.FrUniform(), g.FrUniform(), g.FrUniform()
	ev := func(l, r fr.Element) fr.Element { var o fr.Element; x.Eval(&o, &l, &r); return o }
	at := func(p, q fr.Element, i int) fr.Element { return ref.Add(p, ref.Mul(q, ref.U(uint64(i)))) }
	if dl < 0 || dr < 0 || dt < 0 || dl > 40 || dr > 40 || dt > 40 {
		t.Fail("%s: absurd degrees %d %d %d", rg.Key(), dl, dr, dt)
	}
	if !vanishes(func(i int) fr.Element { return ev(at(l, a, i), r) }, dl) {
		t.Fail("%s: its degree in the left value exceeds the reported %d", rg.Key(), dl)
	}
	if !vanishes(func(i int) fr.Element { return ev(l, at(r, b, i)) }, dr) {
		t.Fail("%s: its degree in the right value exceeds the reported %d", rg.Key(), dr)
	}
	if !vanishes(func(i int) fr.Element { return ev(at(l, a, i), at(r, b, i)) }, dt) {
		t.Fail("%s: its joint degree exceeds the reported %d", rg.Key(), dt)
	}
	t.Eval(3)
	t.Count("degrees", 3)
}

func inCircuit(t *kit.T, name string, rg ref.Gate, f func(cs *frontend.ConstraintSystem, l, r frontend.Variable) frontend.Variable, tries int) {
	g := t.Rng
	s, err := snk.Compile(2, 1, func(cs *frontend.ConstraintSystem, in []frontend.Variable) []frontend.Variable {
		return []frontend.Variable{f(cs, in[0], in[1])}
	})
	if err != nil {
		t.Fail("%s: does not compile: %v", name, err)
	}
	for i := 0; i < tries; i++ {
		l, r := g.Fr(), g.Fr()
		want := rg.Eval(l, r)
		if ok, why := s.Solved([]fr.Element{l, r}, []fr.Element{want}); !ok {
			t.Fail("%s: in-circuit evaluation at (%s,%s) is not the native value %s: %s", name, l.String(), r.String(), want.String(), why)
		}
		bad := ref.Add(want, g.FrNZ())
		if ok, _ := s.Solved([]fr.Element{l, r}, []fr.Element{bad}); ok {
			t.Fail("%s: in-circuit evaluation at (%s,%s) accepts %s instead of %s", name, l.String(), r.String(), bad.String(), want.String())
		}
		t.Eval(2)
		t.Distinct(name, l, r)
	}
}

func run(r *kit.Run) {
	fixed := []ref.Gate{ref.AddG, ref.MulG, ref.CopyG}
	for i := range ref.Arks {
		fixed = append(fixed, ref.CipherGate{Ark: ref.Arks[i]})
	}
	for i := 0; i < r.N(20000, 120000); i++ {
		r.Case(fmt.Sprintf("eval/%d", i), func(t *kit.T) {
			var rg ref.Gate
			if i < len(fixed) {
				rg = fixed[i]
			} else {
				rg = gate(t.Rng)
			}
			evals(t, rg)
			combinator(t)
			degrees(t, rg)
			if i < 8 {
				t.Sample(map[string]interface{}{"case": t.Name, "gate": rg.Key()})
			}
		})
	}
	for i := 0; i < r.N(600, 4000); i++ {
		r.Case(fmt.Sprintf("circuit/%d", i), func(t *kit.T) {
			var rg ref.Gate
			if i < 3 {
				rg = fixed[i]
			} else {
				rg = gate(t.Rng)
			}
			inCircuit(t, "GnarkEval of "+rg.Key(), rg, gen.Gate(rg).GnarkEval, 4)
			t.Count("in_circuit", 4)
			ark := ref.Arks[i%91]
			if i >= 91 {
				ark = t.Rng.Fr()
			}
			inCircuit(t, "MiMC-specific cipher gate "+ark.String(), ref.CipherGate{Ark: ark}, snarkgkr.CipherGate(ark), 3)
			inCircuit(t, "MiMC-specific copy gate", ref.CopyG, snarkgkr.CopyGate(), 1)
			t.Count("mimc_in_circuit", 4)
		})
	}
	// identifiers
	for i := 0; i < r.N(500, 4000); i++ {
		r.Case(fmt.Sprintf("ids/%d", i), func(t *kit.T) {
			g := t.Rng
			gs := []ref.Gate{ref.AddG, ref.MulG, ref.CopyG}
			base := g.Fr()
			arks := []fr.Element{base, ref.Neg(base), ref.Add(base, ref.One()), ref.Arks[g.Intn(100)], g.Fr()}
			// values that share their low or high limbs, or a decimal prefix
			for k := 0; k < 6; k++ {
				sh := ref.Pow(ref.U(2), g.Pick(1, 8, 16, 32, 63, 64, 65, 128, 192, 250))
				arks = append(arks, ref.Add(base, sh))
				arks = append(arks, ref.Mul(base, ref.U(10)))
				x := base
				x[g.Intn(3)] ^= 1 << uint(g.Intn(20)) // one limb of the representation
				arks = append(arks, x)
			}
			arks = append(arks, ref.U(uint64(g.Intn(50))), ref.U(uint64(g.Intn(50))), fr.Element{}, ref.One())
			for _, a := range arks {
				gs = append(gs, ref.CipherGate{Ark: a})
			}
			for a := range gs {
				for b := 0; b < a; b++ {
					x, y := gen.Gate(gs[a]), gen.Gate(gs[b])
					if gs[a].Key() != gs[b].Key() && x.ID() == y.ID() {
						t.Fail("different gates %s and %s have the same identifier %q", gs[a].Key(), gs[b].Key(), x.ID())
					}
					t.Eval(1)
					t.Count("id_pairs", 1)
				}
			}
			t.Distinct("ids", base)
		})
	}
}
