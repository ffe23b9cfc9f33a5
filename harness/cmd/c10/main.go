// C10: a circuit assignment equals gate-by-gate evaluation.
package main

import (
	"fmt"

	"gkr-mimc/circuit"
	"gkr-mimc/polynomial"

	"verif/gen"
	"verif/kit"
	"verif/ref"

	"github.com/consensys/gurvy/bn256/fr"
)

func main() {
	kit.Main(kit.Config{
		ID:      "C10",
		Rule:    "random layered circuits (gaps, fan-in, repeated wires, reads of any input, user gates), batches 2^0..2^7, all chunk and worker counts; every value of every layer and instance of the assignment, and of Layer.Evaluate on its own, and of the tables handed out for a layer (with and without copy), is compared with the gate-by-gate sum over the de-interleaved batch. Non-trivial: distinct (wiring, batch, chunking, workers, input)",
		Require: []string{"in_place", "values", "right_reads_high", "fan_in", "gaps", "shared_left_right", "layer_tables", "extreme"},
	}, run)
}

func compare(t *kit.T, c *ref.Circuit, bN, logChunks, nCore int, fresh bool) {
	flat := gen.Inputs(t.Rng, c, bN)
	in := ref.Split(flat, 1<<logChunks)
	rc := gen.Repo(c, fresh)
	want := c.Evaluate(flat, bN)
	a := rc.Assign(in, nCore)
	d := func() string {
		return fmt.Sprintf("bN=%d chunks=%d workers=%d circuit %s", bN, 1<<logChunks, nCore, gen.Describe(c))
	}
	if len(a.Values) != len(want) {
		t.Fail("the assignment has %d layers instead of %d: %s", len(a.Values), len(want), d())
	}
	check := func(who string, l int, got [][]fr.Element) {
		if len(got) != 1<<logChunks {
			t.Fail("%s: layer %d has %d chunks instead of %d: %s", who, l, len(got), 1<<logChunks, d())
		}
		for k := range got {
			if len(got[k]) != len(want[l])>>logChunks {
				t.Fail("%s: layer %d chunk %d has %d values instead of %d: %s", who, l, k, len(got[k]), len(want[l])>>logChunks, d())
			}
		}
		f := ref.Flatten(got)
		for i := range f {
			if f[i] != want[l][i] {
				t.Fail("%s: layer %d wire %d instance %d is %s, gate by gate it is %s: %s", who, l, i>>bN, i&(1<<bN-1), f[i].String(), want[l][i].String(), d())
			}
		}
		t.Eval(len(f))
		t.Count("values", len(f))
	}
	for l := range want {
		check("Assign", l, a.Values[l])
	}
	// the tables handed out for a layer
	if n := t.Rng.Intn(len(want)); true {
		cp := a.LayerAsBKTWithCopy(n, nCore)
		nc := a.LayerAsBKTNoCopy(n)
		raw := func(b []polynomial.BookKeepingTable) [][]fr.Element {
			r := make([][]fr.Element, len(b))
			for i := range b {
				r[i] = b[i].Table
			}
			return r
		}
		check("LayerAsBKTWithCopy", n, raw(cp))
		check("LayerAsBKTNoCopy", n, raw(nc))
		for k := range cp { // the copies are the caller's
			for i := range cp[k].Table {
				cp[k].Table[i] = t.Rng.FrUniform()
			}
		}
		check("Assign, after its copy was overwritten", n, a.Values[n])
		check("LayerAsBKTNoCopy, before its copy was overwritten", n, raw(nc))
		for k := range nc { // the list of tables is the caller's, too
			cp[k], nc[k] = polynomial.NewBookKeepingTable(t.Rng.Frs(1)), polynomial.NewBookKeepingTable(t.Rng.Frs(2))
		}
		check("LayerAsBKTNoCopy, asked for a second time", n, raw(a.LayerAsBKTNoCopy(n)))
		check("LayerAsBKTWithCopy, asked for a second time", n, raw(a.LayerAsBKTWithCopy(n, t.Rng.Range(1, 16))))
		check("Assign, after its tables were replaced", n, a.Values[n])
		t.Count("layer_tables", 1)
	}
	// a layer on its own, with another worker count, on values that are not an assignment's
	l := t.Rng.Intn(len(c.Layers))
	one := &ref.Circuit{Layers: [][]ref.Wire{c.Layers[l]}}
	x := t.Rng.Frs(1 << (bN + one.BGIn(0)))
	want = one.Evaluate(x, bN)
	ly := rc.Layers[l]
	check("Evaluate", 1, ly.Evaluate(ref.Split(x, 1<<logChunks), t.Rng.Range(1, 16)))
	nl := circuit.NewLayer(gen.Wiring(one, true)[0])
	check("NewLayer+Evaluate", 1, nl.Evaluate(ref.Split(x, 1<<logChunks), nCore))
	t.Distinct(gen.Describe(c), bN, logChunks, nCore, kit.Str(flat...))
	// the same slices again, holding other values
	if bN <= 6 && t.Rng.P(1, 3) {
		for n := t.Rng.Range(1, 3); n > 0; n-- {
			k := t.Rng.Intn(len(in))
			i := t.Rng.Intn(len(in[k]))
			in[k][i] = t.Rng.Fr()
		}
		want = c.Evaluate(ref.Flatten(in), bN)
		a = rc.Assign(in, nCore)
		for l := range want {
			check("Assign of the same slices with other values", l, a.Values[l])
		}
		t.Count("in_place", 1)
	}
	t.Max("logBatch", bN)
	t.Max("layers", len(c.Layers))
}

func run(r *kit.Run) {
	for i := 0; i < r.N(32000, 300000); i++ {
		r.Case(fmt.Sprintf("random/%d", i), func(t *kit.T) {
			g := t.Rng
			kind := gen.Builtin
			if g.P(1, 3) {
				kind = gen.WithUser
			}
			o := gen.Opts{MaxLayers: 6, MaxBG: g.Pick(0, 1, 2, 3, 4), MaxWires: g.Pick(1, 3, 8, 20), Gates: kind, Dense: g.Bool(), NoGaps: g.P(1, 3)}
			c := gen.Circuit(g, o)
			bN := g.Range(0, 7-o.MaxBG/2)
			k := g.Range(0, bN)
			for l := range c.Layers {
				outs := map[int]int{}
				for _, w := range c.Layers[l] {
					outs[w.O]++
					if w.R >= 1<<c.BGIn(l)/2 && w.R > 0 {
						t.Count("right_reads_high", 1)
					}
					if w.L == w.R {
						t.Count("shared_left_right", 1)
					}
				}
				for _, n := range outs {
					if n > 1 {
						t.Count("fan_in", 1)
					}
				}
				if len(outs) < 1<<c.BGOut(l) {
					t.Count("gaps", 1)
				}
			}
			compare(t, c, bN, k, g.Workers(1<<k), g.Bool())
			if i < 24 {
				t.Sample(map[string]interface{}{"case": t.Name, "circuit": gen.Describe(c), "bN": bN, "chunks": 1 << k})
			}
		})
	}
	for i := 0; i < r.N(24, 200); i++ {
		r.Case(fmt.Sprintf("large/%d", i), func(t *kit.T) {
			c := gen.Circuit(t.Rng, gen.Opts{MaxLayers: 2, MaxBG: 1, MaxWires: 4, Gates: gen.Builtin, Dense: true})
			bN := t.Rng.Pick(12, 13, 14)
			if i%4 == 0 {
				bN = t.Rng.Range(15, 17)
			}
			compare(t, c, bN, t.Rng.Pick(0, 1, 3, 6), t.Rng.Range(1, 16), false)
		})
	}
	for i := 0; i < r.N(240, 2000); i++ {
		r.Case(fmt.Sprintf("extreme/%d", i), func(t *kit.T) {
			g := t.Rng
			o := gen.Opts{MaxLayers: 3, MaxBG: 7, MaxWires: 150, Gates: gen.WithUser, Dense: g.Bool(), MaxPool: 20}
			bN := g.Range(0, 3)
			switch i % 3 {
			case 1: // deep
				o.MinLayers, o.MaxLayers, o.MaxBG, o.MaxWires = 10, 60, 2, 5
				if g.P(1, 4) {
					o.MinLayers, o.MaxLayers, o.MaxBG, o.MaxWires = 61, 300, 1, 3
				}
			case 2: // many chunks
				o.MaxBG, o.MaxWires = 2, 5
				bN = g.Range(8, 11)
			}
			if i%60 == 0 { // more wires than two bytes count
				o.MaxLayers, o.MaxBG, o.Repeat, bN = 1, 2, 66000+g.Intn(2000), 0
			} else if i%12 == 0 {
				o.MinPool, o.MaxPool, o.MinWires, o.MaxWires = 60, 200, 150, 400
			}
			k := g.Range(0, bN)
			if i%3 == 2 {
				k = g.Range(bN-2, bN)
			}
			compare(t, gen.Circuit(g, o), bN, k, g.Workers(1<<k), g.Bool())
			t.Count("extreme", 1)
		})
	}
	for i := 0; i < r.N(24, 200); i++ {
		r.Case(fmt.Sprintf("mimc/%d", i), func(t *kit.T) {
			bN := t.Rng.Range(0, 5)
			compare(t, gen.Mimc(), bN, t.Rng.Range(0, bN), t.Rng.Range(1, 16), t.Rng.Bool())
		})
	}
}
