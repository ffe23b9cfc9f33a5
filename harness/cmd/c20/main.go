// C20: work splitting covers every index exactly once.
package main

import (
	"fmt"

	"gkr-mimc/common"
	"gkr-mimc/polynomial"

	"verif/kit"
	"verif/ref"

	"github.com/consensys/gurvy/bn256/fr"
)

type bkt = polynomial.BookKeepingTable

func main() {
	kit.Main(kit.Config{
		ID:      "C20",
		Rule:    "worker counts 1..130 and entry counts around every multiple of the minimum chunk size and of the workers (and random up to 2^26): the ranges are walked index by index; table subtraction and scaling for sizes 0..70000 (not only powers of two), all destinations (fresh, too small, larger, the left or right operand), compared element-wise, bytes behind the result watched; mismatched sizes must panic. Non-trivial: distinct (workers, entries) and (operation, size, workers, destination)",
		Require: []string{"ranges", "several_chunks", "ragged_last_chunk", "sub", "mul", "aliased", "mismatch_refused", "multi_chunk_arithmetic"},
	}, run)
}

func ranges(t *kit.T, nCore, n int) {
	rs := common.IntoChunkRanges(nCore, n)
	at := 0
	for i, c := range rs {
		if c.Begin != at || c.End <= c.Begin {
			t.Fail("%d workers, %d entries: range %d is [%d,%d), expected to start at %d and not to be empty", nCore, n, i, c.Begin, c.End, at)
		}
		if i < len(rs)-1 && c.End-c.Begin < common.MinChunkSize {
			t.Fail("%d workers, %d entries: range %d of %d has %d entries, less than the minimum", nCore, n, i, len(rs), c.End-c.Begin)
		}
		if i == len(rs)-1 && c.End-c.Begin < common.MinChunkSize && i > 0 {
			t.Count("ragged_last_chunk", 1)
		}
		at = c.End
	}
	if at != n {
		t.Fail("%d workers, %d entries: the ranges end at %d", nCore, n, at)
	}
	t.Eval(1)
	t.Count("ranges", len(rs))
	if len(rs) > 1 {
		t.Count("several_chunks", 1)
	}
	t.Max("ranges_in_one_split", len(rs))
	t.Distinct(nCore, n)
}

// dest makes a destination of a kind for a result of n elements; watch is the
// memory behind the result that may not change.
func dest(g *kit.Rng, kind, n int) (d bkt, watch []fr.Element) {
	switch kind {
	case 0:
		return bkt{}, nil
	case 1:
		return bkt{Table: g.FrsUniform(n)}, nil
	case 2: // larger: what lies behind stays
		b := g.FrsUniform(n + 5)
		return bkt{Table: b[:g.Intn(n+6)]}, b[n:]
	}
	return bkt{Table: g.FrsUniform(n / 2)}, nil
}

func arith(t *kit.T, n, nCore int) {
	g := t.Rng
	v, w, x := g.FrsUniform(n), g.FrsUniform(n), g.Fr()
	for i := 0; i < n && i < 64; i++ {
		v[g.Intn(n)], w[g.Intn(n)] = g.Fr(), g.Fr()
	}
	sub, mul := make([]fr.Element, n), make([]fr.Element, n)
	for i := range v {
		sub[i] = ref.Sub(v[i], w[i])
		mul[i] = ref.Mul(v[i], x)
	}
	check := func(what string, got, want []fr.Element) {
		if len(got) != len(want) {
			t.Fail("%s of %d elements with %d workers has %d elements", what, n, nCore, len(got))
		}
		for i := range got {
			if got[i] != want[i] {
				t.Fail("%s of %d elements with %d workers: element %d is %s instead of %s", what, n, nCore, i, got[i].String(), want[i].String())
			}
		}
		t.Eval(1)
	}
	mk := func(v []fr.Element) bkt { return bkt{Table: kit.Clone(v)} }
	for kind := 0; kind < 6; kind++ {
		a, b := mk(v), mk(w)
		var d bkt
		var watch, w0 []fr.Element
		dst := &d
		switch kind {
		case 4:
			dst = &a
		case 5:
			dst = &b
		default:
			d, watch = dest(g, kind, n)
			w0 = kit.Clone(watch)
		}
		dst.Sub(a, b, nCore)
		check(fmt.Sprintf("Sub (destination kind %d)", kind), dst.Table, sub)
		if kind != 4 {
			check("left operand of Sub", a.Table, v)
		}
		if kind != 5 {
			check("right operand of Sub", b.Table, w)
		}
		if !kit.Eq(watch, w0) {
			t.Fail("Sub of %d elements wrote behind its result", n)
		}
		t.Count("sub", 1)
		if kind == 5 {
			t.Count("aliased", 1)
			continue
		}
		// scaling
		a = mk(v)
		dst = &d
		if kind == 4 {
			dst = &a
			t.Count("aliased", 1)
		} else {
			d, watch = dest(g, kind, n)
			w0 = kit.Clone(watch)
		}
		dst.Mul(x, a, nCore)
		check(fmt.Sprintf("Mul (destination kind %d)", kind), dst.Table, mul)
		if kind != 4 {
			check("operand of Mul", a.Table, v)
		}
		if !kit.Eq(watch, w0) {
			t.Fail("Mul of %d elements wrote behind its result", n)
		}
		t.Count("mul", 1)
	}
	// a table with itself
	a := mk(v)
	var d bkt
	d.Sub(a, a, nCore)
	check("Sub of a table from itself", d.Table, make([]fr.Element, n))
	// mismatched sizes
	for _, m := range []int{n + 1, n - 1, 2 * n, n / 2} {
		if m < 0 || m == n {
			continue
		}
		for side := 0; side < 2; side++ {
			l, r := mk(v), bkt{Table: g.FrsUniform(m)}
			if side == 1 {
				l, r = r, l
			}
			var d bkt
			if _, p := kit.Panics(func() { d.Sub(l, r, nCore) }); !p {
				t.Fail("Sub of tables of %d and %d elements is not refused", len(l.Table), len(r.Table))
			}
			if _, p := kit.Panics(func() { d.Add(l, r) }); !p {
				t.Fail("Add of tables of %d and %d elements is not refused", len(l.Table), len(r.Table))
			}
			t.Eval(2)
			t.Count("mismatch_refused", 2)
		}
	}
	if len(common.IntoChunkRanges(nCore, n)) > 1 {
		t.Count("multi_chunk_arithmetic", 1)
	}
	t.Max("elements", n)
	t.Distinct("arith", n, nCore)
}

func run(r *kit.Run) {
	m := common.MinChunkSize
	ncs := []int{}
	for nc := 1; nc <= 130; nc++ {
		ncs = append(ncs, nc)
	}
	ncs = append(ncs, 200, 255, 256, 257, 511, 513, 1000, 1024, 5000, 65535, 65537)
	for _, nc := range ncs {
		r.Case(fmt.Sprintf("ranges/%d", nc), func(t *kit.T) {
			g := t.Rng
			ns := []int{0, 1, 2, m - 1, m, m + 1}
			for k := 1; k <= 9; k++ {
				ns = append(ns, k*m-1, k*m, k*m+1, k*m*nc-1, k*m*nc, k*m*nc+1, k*m*nc+nc-1, k*m*nc+nc, k*(m+1)*nc-1)
			}
			for k := 0; k < r.N(200, 4000); k++ {
				ns = append(ns, g.Intn(1<<uint(g.Range(1, 26))))
			}
			for k := 0; k <= 26; k++ {
				ns = append(ns, 1<<k)
			}
			for _, n := range ns {
				ranges(t, nc, n)
			}
			if nc < 9 {
				t.Sample(map[string]interface{}{"workers": nc, "entries": ns[len(ns)-3]})
			}
		})
	}
	for i := 0; i < r.N(500, 3000); i++ {
		r.Case(fmt.Sprintf("arith/%d", i), func(t *kit.T) {
			g := t.Rng
			nc := g.Workers(64)
			n := g.Intn(200)
			switch i % 4 {
			case 0:
				n = g.Pick(1, 2, 3)*m + g.Range(-2, 2)
			case 1:
				n = g.Intn(5 * m)
			case 2:
				n = 1 << uint(g.Range(0, 14))
			}
			if i%40 == 9 {
				n = g.Range(8*m, 17*m)
				if i%80 == 9 {
					n = g.Range(17*m, 80*m)
				}
			}
			arith(t, n, nc)
		})
	}
}
