// C16: interpolation and evaluation of round polynomials are exact.
package main

import (
	"fmt"
	"sync"

	"gkr-mimc/polynomial"

	"verif/kit"
	"verif/ref"

	"github.com/consensys/gurvy/bn256/fr"
)

func main() {
	kit.Main(kit.Config{
		ID:      "C16",
		Rule:    "value lists of every length 1..12 (random, one-hot, zero, low-degree, boundary), coefficient lists of length 1..30 and one of every length to 400, points at the nodes, boundary and random: interpolation is compared with Newton's formula and evaluated back on its nodes, coefficient evaluation with the power sum, the Lagrange basis with the dual-basis equations, before and after thousands of (also concurrent) interpolations. Non-trivial: distinct value or coefficient lists",
		Require: []string{"interpolations", "evaluations", "basis", "basis_after_use", "low_degree", "in_place", "concurrent", "lengths"},
	}, run)
}

func values(t *kit.T, n int) []fr.Element {
	g := t.Rng
	switch g.Intn(5) {
	case 0:
		r := make([]fr.Element, n)
		r[g.Intn(n)] = g.FrNZ()
		return r
	case 1: // values of a polynomial of lower degree
		c := g.Frs(g.Range(1, n))
		r := make([]fr.Element, n)
		for i := range r {
			r[i] = ref.PolyEval(c, ref.U(uint64(i)))
		}
		t.Count("low_degree", 1)
		return r
	case 2:
		return g.FrsUniform(n)
	}
	return g.Frs(n)
}

func interp(t *kit.T, n int) {
	g := t.Rng
	v := values(t, n)
	v0 := kit.Clone(v)
	c := polynomial.InterpolateOnRange(v)
	if !kit.Eq(v, v0) {
		t.Fail("interpolation changed its values")
	}
	if len(c) != n {
		t.Fail("interpolating %d values gives %d coefficients", n, len(c))
	}
	for i := range v {
		if got := polynomial.EvaluatePolynomial(c, ref.U(uint64(i))); got != v[i] {
			t.Fail("the interpolation of %s takes %s at %d", kit.Str(v...), got.String(), i)
		}
		t.Eval(1)
	}
	if want := ref.Interp(v); !kit.Eq(c, want) {
		t.Fail("the interpolation of %s has coefficients %s instead of %s", kit.Str(v...), kit.Str(c...), kit.Str(want...))
	}
	t.Eval(1)
	t.Count("interpolations", 1)
	t.Distinct("interp", kit.Str(v...))
	// the result is the caller's
	c[g.Intn(n)] = g.FrUniform()
	if !kit.Eq(polynomial.InterpolateOnRange(v), ref.Interp(v)) {
		t.Fail("a second interpolation of the same %d values differs", n)
	}
	// the same slice with one value changed
	k := g.Intn(n)
	v[k] = g.FrNear(v[k])
	if got, want := polynomial.InterpolateOnRange(v), ref.Interp(v); !kit.Eq(got, want) {
		t.Fail("after value %d of the slice changed, the interpolation of %s has coefficients %s instead of %s", k, kit.Str(v...), kit.Str(got...), kit.Str(want...))
	}
	t.Eval(2)
	t.Count("in_place", 1)
}

func eval(t *kit.T) {
	g := t.Rng
	c := g.Frs(g.Range(1, 30))
	if g.P(1, 4) {
		c = make([]fr.Element, g.Range(1, 14))
		c[g.Intn(len(c))] = g.FrNZ()
	}
	c0 := kit.Clone(c)
	for k := 0; k < 4; k++ {
		x := g.Fr()
		x0 := x
		if got, want := polynomial.EvaluatePolynomial(c, x), ref.PolyEval(c, x); got != want {
			t.Fail("the polynomial %s at %s is %s instead of %s", kit.Str(c...), x.String(), got.String(), want.String())
		}
		if x != x0 || !kit.Eq(c, c0) {
			t.Fail("evaluation changed its arguments")
		}
		t.Eval(2)
		t.Count("evaluations", 1)
		if k > 0 { // the same slice with another coefficient
			j := g.Intn(len(c))
			c[j] = g.FrNear(c[j])
			c0 = kit.Clone(c)
		}
	}
	t.Distinct("eval", kit.Str(c...))
}

func basis(t *kit.T, counter string) {
	for n := 1; n <= 12; n++ {
		for _, b := range [][][]fr.Element{polynomial.GetLagrangePolynomial(n), polynomial.LagrangeCoefficient(n)} {
			if len(b) != n {
				t.Fail("the basis of size %d has %d polynomials", n, len(b))
			}
			for i := range b {
				if len(b[i]) != n {
					t.Fail("polynomial %d of the basis of size %d has %d coefficients", i, n, len(b[i]))
				}
				for j := 0; j < n; j++ {
					var want fr.Element
					if i == j {
						want = ref.One()
					}
					if got := ref.PolyEval(b[i], ref.U(uint64(j))); got != want {
						t.Fail("polynomial %d of the basis of size %d is %s at %d", i, n, got.String(), j)
					}
					t.Eval(1)
				}
			}
		}
	}
	t.Count(counter, 1)
	t.Distinct(counter)
}

func run(r *kit.Run) {
	r.Case("basis", func(t *kit.T) { basis(t, "basis") })
	for n := 1; n <= 12; n++ {
		for i := 0; i < r.N(8000, 20000); i++ {
			r.Case(fmt.Sprintf("interp/%d/%d", n, i), func(t *kit.T) {
				interp(t, n)
				eval(t)
				if i%40 == 7 {
					basis(t, "basis_after_use")
				}
				if i == 0 {
					t.Sample(map[string]interface{}{"values": n})
				}
			})
		}
	}
	for n := 1; n <= r.N(400, 1200); n++ { // coefficient lists of every length
		r.Case(fmt.Sprintf("length/%d", n), func(t *kit.T) {
			c := t.Rng.Frs(n)
			if n%3 == 0 {
				c = t.Rng.FrsUniform(n)
			}
			for k := 0; k < 3; k++ {
				x := t.Rng.Fr()
				if k == 0 {
					x = t.Rng.FrUniform()
				}
				if got, want := polynomial.EvaluatePolynomial(c, x), ref.PolyEval(c, x); got != want {
					t.Fail("the polynomial with %d coefficients %s at %s is %s instead of %s", n, kit.Str(c...), ref.Str(x), ref.Str(got), ref.Str(want))
				}
				t.Eval(1)
			}
			t.Count("lengths", 1)
			t.Max("coefficients", n)
			t.Distinct("length", n)
		})
	}
	for n := 13; n <= 24; n++ { // bases that are not precomputed
		r.Case(fmt.Sprintf("coefficients/%d", n), func(t *kit.T) {
			b := polynomial.LagrangeCoefficient(n)
			for i := range b {
				for j := 0; j < n; j++ {
					if got := ref.PolyEval(b[i], ref.U(uint64(j))); (i == j) != (got == ref.One()) || (i != j) != got.IsZero() {
						t.Fail("polynomial %d of the basis of size %d is %s at %d", i, n, got.String(), j)
					}
					t.Eval(1)
				}
			}
			t.Distinct("coefficients", n)
		})
	}
	for i := 0; i < r.N(400, 600); i++ {
		r.Case(fmt.Sprintf("concurrent/%d", i), func(t *kit.T) {
			var wg sync.WaitGroup
			n := t.Rng.Range(1, 12)
			vs := make([][]fr.Element, 8)
			for k := range vs {
				vs[k] = t.Rng.FrsUniform(n)
			}
			for k := range vs {
				wg.Add(1)
				go func(v []fr.Element) {
					defer wg.Done()
					for j := 0; j < 30; j++ {
						if !kit.Eq(polynomial.InterpolateOnRange(v), ref.Interp(v)) {
							t.Report("concurrent interpolation of %d values differs", n)
							return
						}
						t.Eval(1)
					}
				}(vs[k])
			}
			wg.Wait()
			t.Count("concurrent", 1)
			basis(t, "basis_after_use")
		})
	}
}
