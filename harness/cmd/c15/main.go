// C15: the eq table and chunked tables equal their unchunked definition.
package main

import (
	"fmt"

	"gkr-mimc/polynomial"

	"verif/kit"
	"verif/ref"

	"github.com/consensys/gurvy/bn256/fr"
)

func main() {
	kit.Main(kit.Config{
		ID:      "C15",
		Rule:    "points of 0..9 coordinates (random, boolean, boundary), every power-of-two chunk count from one chunk to one element per chunk, worker counts 1..16: the eq table, its chunked form, EvalEq, chunked evaluation (plain and left/right) are compared with the definition over the de-interleaved table; arguments are compared before and after. Non-trivial: distinct (point, table, chunk count)",
		Require: []string{"eq_tables", "chunked_eq", "chunked_evaluations", "mixed_evaluations", "one_chunk", "one_per_chunk", "eval_eq", "in_place", "large"},
	}, run)
}

func point(g *kit.Rng, n int) []fr.Element {
	switch g.Intn(4) {
	case 0:
		r := make([]fr.Element, n)
		for i := range r {
			r[i] = ref.U(uint64(g.Intn(2)))
		}
		return r
	case 1:
		return g.FrsUniform(n)
	}
	return g.Frs(n)
}

// withSlack returns a copy of p that is the head of a longer slice.
func withSlack(g *kit.Rng, p []fr.Element) []fr.Element {
	b := append(kit.Clone(p), g.FrsUniform(g.Intn(6))...)
	return b[:len(p)]
}

func flat(b []polynomial.BookKeepingTable) [][]fr.Element {
	r := make([][]fr.Element, len(b))
	for i := range b {
		r[i] = b[i].Table
	}
	return r
}

func one(t *kit.T, n, k int) {
	g := t.Rng
	q := withSlack(g, point(g, n))
	back := kit.Clone(q[:cap(q)])
	want := ref.EqTable(q)
	eq := polynomial.GetFoldedEqTable(q)
	if !kit.Eq(eq.Table, want) {
		t.Fail("the eq table at %s is not eq(q,b): %s", kit.Str(q...), kit.Str(eq.Table...))
	}
	if n <= 5 { // the table of the reference against the definition itself
		for b := range want {
			if want[b] != ref.EqIdx(q, b) {
				panic("harness: reference eq table is wrong")
			}
		}
	}
	t.Eval(1)
	t.Count("eq_tables", 1)
	nc := g.Range(1, 16)
	ch := polynomial.GetChunkedEqTable(q, 1<<k, nc)
	if len(ch) != 1<<k {
		t.Fail("%d chunks instead of %d", len(ch), 1<<k)
	}
	if !kit.Eq2(flat(ch), ref.Split(want, 1<<k)) {
		t.Fail("the eq table of %d variables in %d chunks with %d workers is not the interleaved split of the table at %s", n, 1<<k, nc, kit.Str(q...))
	}
	t.Eval(1)
	t.Count("chunked_eq", 1)
	// the chunks may not share memory: they are folded separately
	ch[0].Table[0] = g.FrUniform()
	for i := 1; i < len(ch); i++ {
		if ch[i].Table[0] != want[i] {
			t.Fail("chunks 0 and %d of the eq table share memory", i)
		}
	}
	if !kit.Eq(back, q[:cap(q)]) {
		t.Fail("the eq tables changed the point (or what lies behind it)")
	}
	p := point(g, n)
	if a, b := polynomial.EvalEq(q, p), ref.EqPoints(q, p); a != b {
		t.Fail("EvalEq(%s,%s) is %s instead of %s", kit.Str(q...), kit.Str(p...), a.String(), b.String())
	}
	if a, b := polynomial.EvalEq(q, p), eq.Evaluate(p); a != b {
		t.Fail("EvalEq and the eq table's extension differ")
	}
	t.Eval(3)
	t.Count("eval_eq", 1)
	// chunked evaluation
	v := g.Frs(1 << n)
	if g.P(1, 4) { // mostly zero
		for i := range v {
			if g.P(3, 4) {
				v[i] = fr.Element{}
			}
		}
	}
	tabs := ref.Split(v, 1<<k)
	b := polynomial.AsChunkedBookKeepingTable(tabs)
	if len(b) != len(tabs) {
		t.Fail("AsChunkedBookKeepingTable returns %d tables", len(b))
	}
	pt := withSlack(g, point(g, n))
	pb := kit.Clone(pt[:cap(pt)])
	if got, want := polynomial.EvaluateChunked(b, pt), ref.MLE(v, pt); got != want {
		t.Fail("%d variables in %d chunks: evaluation is %s, unchunked it is %s", n, 1<<k, got.String(), want.String())
	}
	t.Eval(1)
	t.Count("chunked_evaluations", 1)
	if !kit.Eq2(tabs, ref.Split(v, 1<<k)) || !kit.Eq(pb, pt[:cap(pt)]) {
		t.Fail("EvaluateChunked changed the tables or the point")
	}
	// left and right: the chunked variables are the last ones of h'
	bg := g.Range(0, 3)
	v = g.Frs(1 << (n + bg))
	tabs = ref.Split(v, 1<<k)
	if g.P(1, 4) { // mostly zero
		for i := range v {
			if g.P(3, 4) {
				v[i] = fr.Element{}
			}
		}
		tabs = ref.Split(v, 1<<k)
	}
	hl, hr, hp := point(g, bg), point(g, bg), point(g, n)
	if g.P(1, 4) {
		hr = g.FrsLike(hl)
	}
	var all []fr.Element
	if g.Bool() {
		var parts [][]fr.Element
		parts, all = g.Arrange(hl, hr, hp)
		hl, hr, hp = parts[0], parts[1], parts[2]
	}
	all0 := kit.Clone(all)
	x, y, z := kit.Clone(hl), kit.Clone(hr), kit.Clone(hp)
	l, r := polynomial.EvaluateMixedChunked(polynomial.AsChunkedBookKeepingTable(tabs), hp, hl, hr)
	wl, wr := ref.MLE(v, append(kit.Clone(x), z...)), ref.MLE(v, append(kit.Clone(y), z...))
	if l != wl || r != wr {
		t.Fail("%d+%d variables in %d chunks: left/right evaluation is %s %s, unchunked it is %s %s", bg, n, 1<<k, l.String(), r.String(), wl.String(), wr.String())
	}
	if !kit.Eq2(tabs, ref.Split(v, 1<<k)) || !kit.Eq(hl, x) || !kit.Eq(hr, y) || !kit.Eq(hp, z) || !kit.Eq(all, all0) {
		t.Fail("EvaluateMixedChunked changed the tables or the points")
	}
	t.Eval(3)
	t.Count("mixed_evaluations", 1)
	// the same slices with other contents
	if n > 0 && n <= 9 {
		i := g.Intn(n)
		q[i], pt[i], hp[i] = g.FrNear(q[i]), g.FrNear(pt[i]), g.FrNear(hp[i])
		want := ref.EqTable(q)
		if eq := polynomial.GetFoldedEqTable(q); !kit.Eq(eq.Table, want) {
			t.Fail("after coordinate %d of the point changed, the eq table at %s is not eq(q,b)", i, kit.Str(q...))
		}
		if !kit.Eq2(flat(polynomial.GetChunkedEqTable(q, 1<<k, nc)), ref.Split(want, 1<<k)) {
			t.Fail("after coordinate %d of the point changed, the eq table in %d chunks is not the interleaved split of the table at %s", i, 1<<k, kit.Str(q...))
		}
		if a, b := polynomial.EvalEq(q, p), ref.EqPoints(q, p); a != b {
			t.Fail("after coordinate %d of the point changed, EvalEq(%s,%s) is %s instead of %s", i, kit.Str(q...), kit.Str(p...), a.String(), b.String())
		}
		if got, want := polynomial.EvaluateChunked(b, pt), ref.MLE(ref.Flatten(flat(b)), pt); got != want {
			t.Fail("after coordinate %d of the point changed, the evaluation in %d chunks is %s instead of %s", i, 1<<k, got.String(), want.String())
		}
		c, j := g.Intn(len(tabs)), g.Intn(len(tabs[0]))
		tabs[c][j] = g.FrNear(tabs[c][j])
		v = ref.Flatten(tabs)
		l, r := polynomial.EvaluateMixedChunked(polynomial.AsChunkedBookKeepingTable(tabs), hp, hl, hr)
		wl, wr := ref.MLE(v, append(kit.Clone(hl), hp...)), ref.MLE(v, append(kit.Clone(hr), hp...))
		if l != wl || r != wr {
			t.Fail("after a value and a coordinate changed, left/right evaluation in %d chunks is %s %s instead of %s %s", 1<<k, l.String(), r.String(), wl.String(), wr.String())
		}
		t.Eval(5)
		t.Count("in_place", 1)
	}
	if k == 0 {
		t.Count("one_chunk", 1)
	}
	if k == n {
		t.Count("one_per_chunk", 1)
	}
	t.Distinct(n, k, nc, kit.Str(q...))
}

func run(r *kit.Run) {
	for n := 0; n <= 9; n++ {
		for k := 0; k <= n; k++ {
			for i := 0; i < r.N(300, 4000); i++ {
				r.Case(fmt.Sprintf("n%d/k%d/%d", n, k, i), func(t *kit.T) {
					one(t, n, k)
					if i == 0 {
						t.Sample(map[string]interface{}{"variables": n, "chunks": 1 << k})
					}
				})
			}
		}
	}
	for i := 0; i < r.N(40, 300); i++ { // chunks beyond the minimum parallel size
		r.Case(fmt.Sprintf("large/%d", i), func(t *kit.T) {
			n := 14
			if i%4 == 0 {
				n = t.Rng.Range(15, 18)
			}
			t.Max("variables", n)
			one(t, n, t.Rng.Pick(0, 1, 2, 7, n))
			t.Count("large", 1)
		})
	}
}
