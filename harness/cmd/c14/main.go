// C14: book-keeping tables are multilinear extensions.
package main

import (
	"fmt"

	"gkr-mimc/polynomial"

	"verif/kit"
	"verif/ref"

	"github.com/consensys/gurvy/bn256/fr"
)

type bkt = polynomial.BookKeepingTable

func main() {
	kit.Main(kit.Config{
		ID:      "C14",
		Rule:    "random, sparse, constant and boundary tables of 2^0..2^9 values (and a few of 2^13): every operation, alone and in random sequences on a set of live tables, is compared with a model holding the values only (evaluation by the defining sum over the cube); tables that may not change are compared before and after, and copies are checked to be independent. Non-trivial: distinct (operation, table values, arguments)",
		Require: []string{"evaluate", "boolean_points", "fold", "leftright", "subslices", "linear_combination", "add", "sub", "mul", "slopes", "deepcopy", "chunks", "sequences", "steps"},
	}, run)
}

func table(g *kit.Rng, n int) []fr.Element {
	switch g.Intn(6) {
	case 0:
		return g.FrsUniform(n)
	case 1:
		r := make([]fr.Element, n)
		r[g.Intn(n)] = g.FrNZ()
		return r
	case 2:
		x := g.Fr()
		r := make([]fr.Element, n)
		for i := range r {
			r[i] = x
		}
		return r
	case 3: // equal halves
		r := g.Frs(n)
		copy(r[n/2:], r[:n/2])
		return r
	}
	return g.Frs(n)
}

func mk(v []fr.Element) bkt { return polynomial.NewBookKeepingTable(kit.Clone(v)) }

func same(t *kit.T, what string, b bkt, v []fr.Element) {
	if !kit.Eq(b.Table, v) {
		t.Fail("%s: the table is %s, it should be %s", what, short(b.Table), short(v))
	}
	t.Eval(1)
}

func short(v []fr.Element) string {
	if len(v) > 8 {
		return fmt.Sprintf("%d values %s...", len(v), kit.Str(v[:8]...))
	}
	return fmt.Sprintf("%d values %s", len(v), kit.Str(v...))
}

// interleave returns the values on, on+n, on+2n, ...
func interleave(v []fr.Element, on, n int) []fr.Element {
	r := make([]fr.Element, 0, len(v)/n)
	for i := on; i < len(v); i += n {
		r = append(r, v[i])
	}
	return r
}

func slopes(v []fr.Element) []fr.Element {
	m := len(v) / 2
	r := make([]fr.Element, m)
	for i := range r {
		r[i] = ref.Sub(v[i+m], v[i])
	}
	return r
}

func lin(a, b []fr.Element, x, y fr.Element) []fr.Element {
	r := make([]fr.Element, len(a))
	for i := range r {
		r[i] = ref.Add(ref.Mul(a[i], x), ref.Mul(b[i], y))
	}
	return r
}

func one(t *kit.T, n int) {
	g := t.Rng
	v := table(g, 1<<n)
	b := mk(v)
	pt := g.Frs(n)
	if g.P(1, 4) { // a boolean point: the value itself, first coordinate most significant
		idx := 0
		for i := range pt {
			bit := g.Intn(2)
			pt[i] = ref.U(uint64(bit))
			idx = 2*idx + bit
		}
		if got := b.Evaluate(pt); got != v[idx] {
			t.Fail("evaluation at the boolean point %d of %d variables is %s, the value is %s", idx, n, got.String(), v[idx].String())
		}
		t.Eval(1)
		t.Count("boolean_points", 1)
	}
	p0 := kit.Clone(pt)
	if got, want := b.Evaluate(pt), ref.MLE(v, pt); got != want {
		t.Fail("evaluation of %s at %s is %s, the multilinear extension is %s", short(v), kit.Str(pt...), got.String(), want.String())
	}
	t.Eval(1)
	t.Count("evaluate", 1)
	same(t, "after Evaluate", b, v)
	if !kit.Eq(pt, p0) {
		t.Fail("Evaluate changed the point")
	}
	t.Distinct("table", kit.Str(v...))
	// copies are independent, both ways
	c := b.DeepCopy()
	same(t, "DeepCopy", c, v)
	i := g.Intn(len(v))
	c.Table[i] = ref.Add(c.Table[i], ref.One())
	same(t, "after writing to a deep copy", b, v)
	c = b.DeepCopy()
	old := b.Table[i]
	b.Table[i] = ref.Add(old, ref.One())
	same(t, "deep copy after writing to the original", c, v)
	b.Table[i] = old
	t.Count("deepcopy", 1)
	// interleaved chunks
	k := g.Range(0, n)
	for on := 0; on < 1<<k; on++ {
		ch := b.InterleavedChunk(on, 1<<k)
		same(t, fmt.Sprintf("chunk %d of %d", on, 1<<k), ch, interleave(v, on, 1<<k))
		ch.Table[g.Intn(len(ch.Table))] = g.FrUniform()
	}
	same(t, "after writing to the chunks", b, v)
	t.Count("chunks", 1<<k)
	if n == 0 {
		return
	}
	s := b.FunctionEvals()
	if !kit.Eq(s, slopes(v)) {
		t.Fail("slopes of %s are %s", short(v), short(s))
	}
	s[0] = g.FrUniform()
	same(t, "after FunctionEvals", b, v)
	t.Count("slopes", 1)
	// left and right
	bg := g.Range(0, n)
	hl, hr, hp := g.Frs(bg), g.Frs(bg), g.Frs(n-bg)
	if g.P(1, 4) {
		hr = g.FrsLike(hl)
		t.Count("like_sides", 1)
	}
	var all []fr.Element
	if g.Bool() { // all three are parts of one slice, with room behind each
		var parts [][]fr.Element
		parts, all = g.Arrange(hl, hr, hp)
		hl, hr, hp = parts[0], parts[1], parts[2]
		t.Count("subslices", 1)
	}
	all0 := kit.Clone(all)
	a0, a1, a2 := kit.Clone(hl), kit.Clone(hr), kit.Clone(hp)
	l, r := b.EvaluateLeftAndRight(hp, hl, hr)
	wl, wr := ref.MLE(v, append(kit.Clone(a0), a2...)), ref.MLE(v, append(kit.Clone(a1), a2...))
	if l != wl || r != wr {
		t.Fail("left and right evaluation (%d+%d variables) give %s %s instead of %s %s", bg, n-bg, l.String(), r.String(), wl.String(), wr.String())
	}
	if !kit.Eq(hl, a0) || !kit.Eq(hr, a1) || !kit.Eq(hp, a2) || !kit.Eq(all, all0) {
		t.Fail("EvaluateLeftAndRight changed the points")
	}
	same(t, "after EvaluateLeftAndRight", b, v)
	t.Eval(2)
	t.Count("leftright", 1)
	// fold fixes the first variable
	x := g.Fr()
	f := b.DeepCopy()
	f.Fold(x)
	same(t, "Fold at "+x.String(), f, ref.FixFirst(v, x))
	if got, want := f.Evaluate(pt[1:]), ref.MLE(v, append([]fr.Element{x}, pt[1:]...)); got != want {
		t.Fail("evaluating the folded table gives %s instead of %s", got.String(), want.String())
	}
	t.Eval(1)
	t.Count("fold", 1)
	for _, y := range pt[1:] { // fold all the way down
		f.Fold(y)
	}
	if len(f.Table) != 1 || f.Table[0] != ref.MLE(v, append([]fr.Element{x}, pt[1:]...)) {
		t.Fail("folding all variables does not leave the value at the point")
	}
	t.Eval(1)
}

func binary(t *kit.T, n int) {
	g := t.Rng
	v, w := table(g, 1<<n), table(g, 1<<n)
	x, y := g.Fr(), g.Fr()
	r := polynomial.LinearCombinationOfBookKeepingTables(mk(v), mk(w), x, y)
	same(t, "linear combination", r, lin(v, w, x, y))
	t.Count("linear_combination", 1)
	dest := func() bkt {
		switch g.Intn(4) {
		case 0:
			return bkt{}
		case 1:
			return mk(g.Frs(1 << n))
		case 2: // larger capacity
			return bkt{Table: g.Frs(3 << n)[:g.Range(0, 3<<n)]}
		}
		return mk(g.Frs(1 << uint(n) / 2)) // too small
	}
	nc := g.Range(1, 16)
	type op struct {
		name string
		do   func(d *bkt, a, b bkt)
		want []fr.Element
		ops  int
	}
	for _, o := range []op{
		{"add", func(d *bkt, a, b bkt) { d.Add(a, b) }, lin(v, w, ref.One(), ref.One()), 2},
		{"sub", func(d *bkt, a, b bkt) { d.Sub(a, b, nc) }, lin(v, w, ref.One(), ref.Neg(ref.One())), 2},
		{"mul", func(d *bkt, a, b bkt) { d.Mul(x, a, nc) }, lin(v, w, x, fr.Element{}), 1},
	} {
		d, a, b := dest(), mk(v), mk(w)
		o.do(&d, a, b)
		same(t, o.name, d, o.want)
		same(t, o.name+" (left operand)", a, v)
		same(t, o.name+" (right operand)", b, w)
		d.Table[0] = g.FrUniform()
		same(t, o.name+" (left operand after a write to the result)", a, v)
		o.do(&a, a, b) // in place over the left operand
		same(t, o.name+" over its left operand", a, o.want)
		if o.ops == 2 {
			a = mk(v)
			o.do(&b, a, b)
			same(t, o.name+" over its right operand", b, o.want)
			same(t, o.name+" over its right operand (left)", a, v)
		}
		t.Count(o.name, 1)
	}
	t.Distinct("binary", kit.Str(v...), kit.Str(w...), x, y)
}

// seq runs a random sequence of operations on live tables next to a model.
func seq(t *kit.T, steps int) {
	g := t.Rng
	var live []bkt
	var model [][]fr.Element
	push := func(b bkt, v []fr.Element) {
		live = append(live, b)
		model = append(model, v)
	}
	for i := 0; i < 3; i++ {
		v := table(g, 1<<g.Range(0, 5))
		push(mk(v), kit.Clone(v))
	}
	hist := ""
	for s := 0; s < steps; s++ {
		i := g.Intn(len(live))
		b, v := &live[i], model[i]
		switch op := g.Intn(8); {
		case op == 0 && len(v) > 1:
			x := g.Fr()
			b.Fold(x)
			model[i] = ref.FixFirst(v, x)
			hist += "F"
		case op == 1:
			push(b.DeepCopy(), kit.Clone(v))
			hist += "D"
		case op == 2:
			n := 1 << g.Range(0, ref.Log2(len(v)))
			on := g.Intn(n)
			push(b.InterleavedChunk(on, n), interleave(v, on, n))
			hist += "I"
		case op == 3 && len(v) > 1:
			push(bkt{Table: b.FunctionEvals()}, slopes(v))
			hist += "S"
		case op == 4:
			pt := g.Frs(ref.Log2(len(v)))
			if b.Evaluate(pt) != ref.MLE(v, pt) {
				t.Fail("after %s: evaluation differs from the multilinear extension", hist)
			}
			hist += "E"
		default: // a binary operation with a table of the same size
			j := -1
			for k := range live {
				if k != i && len(model[k]) == len(v) {
					j = k
				}
			}
			if j < 0 {
				continue
			}
			d := g.Pick(i, j, -1)
			var fresh bkt
			dst := &fresh
			if d >= 0 {
				dst = &live[d]
			}
			var want []fr.Element
			switch op {
			case 5:
				want = lin(v, model[j], ref.One(), ref.One())
				dst.Add(live[i], live[j])
				hist += "+"
			case 6:
				want = lin(v, model[j], ref.One(), ref.Neg(ref.One()))
				dst.Sub(live[i], live[j], g.Range(1, 16))
				hist += "-"
			default:
				x := g.Fr()
				want = lin(v, v, x, fr.Element{})
				dst.Mul(x, live[i], g.Range(1, 16))
				hist += "*"
			}
			if d >= 0 {
				model[d] = want
			} else {
				push(fresh, want)
			}
		}
		for k := range live {
			if !kit.Eq(live[k].Table, model[k]) {
				t.Fail("after the sequence %s: table %d is %s, the model %s", hist, k, short(live[k].Table), short(model[k]))
			}
			t.Eval(1)
		}
		t.Count("steps", 1)
		if len(live) > 8 {
			live, model = live[len(live)-6:], model[len(model)-6:]
		}
	}
	t.Count("sequences", 1)
	t.Distinct("seq", hist, kit.Str(model[0]...))
}

func run(r *kit.Run) {
	for i := 0; i < r.N(40000, 400000); i++ {
		r.Case(fmt.Sprintf("one/%d", i), func(t *kit.T) {
			n := t.Rng.Pick(0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 7)
			if t.Rng.P(1, 50) {
				n = t.Rng.Range(8, 10)
			}
			one(t, n)
			binary(t, n)
			t.Max("log_size", n)
			if i < 8 {
				t.Sample(map[string]interface{}{"case": t.Name, "variables": n})
			}
		})
	}
	for i := 0; i < r.N(12000, 120000); i++ {
		r.Case(fmt.Sprintf("seq/%d", i), func(t *kit.T) { seq(t, t.Rng.Range(5, 25)) })
	}
	for i := 0; i < r.N(96, 600); i++ {
		r.Case(fmt.Sprintf("large/%d", i), func(t *kit.T) {
			n := t.Rng.Range(12, 14)
			if i%8 == 0 {
				n = t.Rng.Range(15, 16)
			}
			one(t, n)
			binary(t, n)
			t.Max("log_size", n)
		})
	}
}
