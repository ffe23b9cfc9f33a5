// C21: layer structure and wiring tables reflect the wires.
package main

import (
	"fmt"

	"gkr-mimc/circuit"

	"verif/gen"
	"verif/kit"
	"verif/ref"

	"github.com/consensys/gurvy/bn256/fr"
)

func main() {
	kit.Main(kit.Config{
		ID:      "C21",
		Rule:    "random wire lists (widths 1..2^4, some up to 300, a few up to 20000, and not powers of two, repeated wires and gates, gate objects shared or separate per wire, gaps): reported widths against the smallest ones that hold the wires, the gate list against the set of gates used (also for indices up to 2^60), every entry of every folded wiring table against its definition at random and boolean points, also with the gate list reordered. Non-trivial: distinct (wires, point)",
		Require: []string{"layers", "repeated_gate", "repeated_wire", "separate_objects", "table_entries", "boolean_points", "reordered", "width_not_power_of_two", "wide", "very_wide", "many_times", "large_indices"},
	}, run)
}

// key gives the specification key of a repository gate, by its identifier.
type names map[string]string

func tables(t *kit.T, ly *circuit.Layer, ws []ref.Wire, q []fr.Element, nm names, bIn, bOut int, d string) {
	q0 := kit.Clone(q)
	tabs := ly.GetStaticTable(q)
	if !kit.Eq(q, q0) {
		t.Fail("GetStaticTable changed the point: %s", d)
	}
	if len(tabs) != len(ly.Gates) {
		t.Fail("%d tables for %d gates: %s", len(tabs), len(ly.Gates), d)
	}
	for i := range tabs {
		want := make([]fr.Element, 1<<(2*bIn))
		for _, w := range ws {
			if w.G.Key() == nm[ly.Gates[i].ID()] {
				k := w.L<<bIn + w.R
				want[k] = ref.Add(want[k], ref.EqIdx(q, w.O))
			}
		}
		if len(tabs[i].Table) != len(want) {
			t.Fail("table %d has %d entries instead of %d: %s", i, len(tabs[i].Table), len(want), d)
		}
		for k := range want {
			if tabs[i].Table[k] != want[k] {
				t.Fail("table of gate %s at (left %d, right %d), folded at %s, is %s instead of %s: %s", nm[ly.Gates[i].ID()], k>>bIn, k&(1<<bIn-1), kit.Str(q...), tabs[i].Table[k].String(), want[k].String(), d)
			}
		}
		t.Eval(len(want))
		t.Count("table_entries", len(want))
	}
	for i := range tabs { // tables are separate objects
		for j := 0; j < i; j++ {
			if len(tabs[i].Table) > 0 && &tabs[i].Table[0] == &tabs[j].Table[0] {
				t.Fail("tables %d and %d share memory", i, j)
			}
		}
	}
}

func one(t *kit.T) {
	g := t.Rng
	in, out := g.Range(1, 16), g.Range(1, 16)
	if g.P(1, 3) {
		in, out = 1<<g.Range(0, 4), 1<<g.Range(0, 4)
	}
	nW := g.Range(1, 24)
	nPool := g.Pick(1, 2, 3, 4, 5, 20)
	if g.P(1, 250) { // wide
		in, out, nW, nPool = g.Range(17, 64), g.Range(17, 300), g.Range(30, 90), g.Range(1, 5)
		t.Count("wide", 1)
	}
	if g.P(1, 1500) { // one side very wide, or very many wires and gates
		switch g.Intn(3) {
		case 0:
			in, out, nW, nPool = g.Range(129, 400), g.Range(1, 2), g.Range(5, 60), g.Range(1, 3)
		case 1:
			in, out, nW, nPool = g.Range(1, 2), g.Range(1025, 20000), g.Range(5, 60), g.Range(1, 3)
		default:
			in, out, nW, nPool = g.Range(1, 8), g.Range(1, 16), g.Range(400, 1500), g.Pick(3, 100, 250)
		}
		t.Count("very_wide", 1)
	}
	pool := make([]ref.Gate, nPool)
	for i := range pool {
		pool[i] = gen.RandGate(g, gen.WithUser)
	}
	var ws []ref.Wire
	for i := 0; i < nW; i++ {
		ws = append(ws, ref.Wire{L: g.Intn(in), R: g.Intn(in), O: g.Intn(out), G: pool[g.Intn(len(pool))]})
		if g.P(1, 5) {
			ws = append(ws, ws[g.Intn(len(ws))])
			t.Count("repeated_wire", 1)
		}
	}
	if g.P(1, 400) { // one wire more often than a byte counts
		w := ws[g.Intn(len(ws))]
		for n := g.Pick(250, 256, 300, 1000); n > 0; n-- {
			ws = append(ws, w)
		}
		t.Count("many_times", 1)
	}
	c := &ref.Circuit{Layers: [][]ref.Wire{ws}}
	fresh := g.Bool()
	if fresh {
		t.Count("separate_objects", 1)
	}
	wires := gen.Wiring(c, fresh)[0]
	backup := append([]circuit.Wire{}, wires...)
	ly := circuit.NewLayer(wires)
	bIn, bOut := c.BGIn(0), c.BGOut(0)
	d := gen.Describe(c)
	if ly.BGInputs != bIn || ly.BGOutputs != bOut || circuit.BGInputs(wires) != bIn || circuit.BGOutputs(wires) != bOut {
		t.Fail("log widths %d -> %d, the wires need %d -> %d: %s", ly.BGInputs, ly.BGOutputs, bIn, bOut, d)
	}
	if len(ly.Wires) != len(wires) {
		t.Fail("the layer has %d wires instead of %d", len(ly.Wires), len(wires))
	}
	for i := range wires {
		if wires[i] != backup[i] || ly.Wires[i].L != wires[i].L || ly.Wires[i].R != wires[i].R || ly.Wires[i].O != wires[i].O || ly.Wires[i].Gate.ID() != wires[i].Gate.ID() {
			t.Fail("wire %d differs from the one given", i)
		}
	}
	nm := names{}
	for i := range ws {
		nm[wires[i].Gate.ID()] = ws[i].G.Key()
	}
	for _, gl := range [][]circuit.Gate{ly.Gates, circuit.Gates(wires)} {
		seen := map[string]bool{}
		for _, x := range gl {
			k, ok := nm[x.ID()]
			if !ok || seen[k] {
				t.Fail("gate %q is listed twice or used by no wire: %s", x.ID(), d)
			}
			seen[k] = true
		}
		if want := len(c.Gates(0)); len(seen) != want {
			t.Fail("%d gates are listed, the wires use %d: %s", len(seen), want, d)
		}
	}
	t.Eval(3)
	t.Count("layers", 1)
	if len(c.Gates(0)) < len(ws) {
		t.Count("repeated_gate", 1)
	}
	if in&(in-1) != 0 || out&(out-1) != 0 {
		t.Count("width_not_power_of_two", 1)
	}
	q := g.Frs(bOut)
	tables(t, &ly, ws, q, nm, bIn, bOut, d)
	t.Distinct(d, kit.Str(q...))
	for i := range q { // a boolean point selects one output
		q[i] = ref.U(uint64(g.Intn(2)))
	}
	tables(t, &ly, ws, q, nm, bIn, bOut, d)
	t.Count("boolean_points", 1)
	if len(ly.Gates) > 1 { // the tables follow the gate list
		p := g.Perm(len(ly.Gates))
		l2 := circuit.Layer{Wires: ly.Wires, BGInputs: ly.BGInputs, BGOutputs: ly.BGOutputs}
		for _, i := range p {
			l2.Gates = append(l2.Gates, ly.Gates[i])
		}
		tables(t, &l2, ws, q, nm, bIn, bOut, d)
		t.Count("reordered", 1)
	}
}

func run(r *kit.Run) {
	for i := 0; i < r.N(15000, 300000); i++ {
		r.Case(fmt.Sprintf("layer/%d", i), func(t *kit.T) {
			one(t)
			if i < 24 {
				t.Sample(map[string]interface{}{"case": t.Name})
			}
		})
	}
	// indices of any size: only the widths and the gates are asked for
	for i := 0; i < r.N(1500, 30000); i++ {
		r.Case(fmt.Sprintf("indices/%d", i), func(t *kit.T) {
			g := t.Rng
			idx := func(bits int) int {
				x := 1 << g.Range(0, bits)
				switch g.Intn(4) {
				case 0:
					return x - 1
				case 1:
					return x
				case 2:
					return g.Intn(x)
				}
				return x/2 + g.Intn(x/2+1)
			}
			bi, bo := g.Pick(3, 8, 17, 33, 50, 60), g.Pick(3, 8, 17, 33, 50, 60)
			var ws []ref.Wire
			for k := g.Range(1, 9); k > 0; k-- {
				ws = append(ws, ref.Wire{L: idx(bi), R: idx(bi), O: idx(bo), G: gen.RandGate(g, gen.WithUser)})
			}
			c := &ref.Circuit{Layers: [][]ref.Wire{ws}}
			wires := gen.Wiring(c, g.Bool())[0]
			ly := circuit.NewLayer(wires)
			if ly.BGInputs != c.BGIn(0) || ly.BGOutputs != c.BGOut(0) || circuit.BGInputs(wires) != c.BGIn(0) || circuit.BGOutputs(wires) != c.BGOut(0) {
				t.Fail("log widths %d -> %d, the wires need %d -> %d: %s", ly.BGInputs, ly.BGOutputs, c.BGIn(0), c.BGOut(0), gen.Describe(c))
			}
			if len(ly.Gates) != len(c.Gates(0)) {
				t.Fail("%d gates are listed, the wires use %d: %s", len(ly.Gates), len(c.Gates(0)), gen.Describe(c))
			}
			t.Eval(2)
			t.Count("large_indices", 1)
			t.Distinct("indices", gen.Describe(c))
		})
	}
	// circuits: the layers come in order, each from its own wires
	for i := 0; i < r.N(2000, 20000); i++ {
		r.Case(fmt.Sprintf("circuit/%d", i), func(t *kit.T) {
			c := gen.Circuit(t.Rng, gen.Opts{MaxLayers: 6, MaxBG: 3, MaxWires: 8, Gates: gen.WithUser, Dense: true})
			rc := gen.Repo(c, t.Rng.Bool())
			if len(rc.Layers) != len(c.Layers) {
				t.Fail("%d layers instead of %d", len(rc.Layers), len(c.Layers))
			}
			for l := range rc.Layers {
				ly := rc.Layers[l]
				if ly.BGInputs != c.BGIn(l) || ly.BGOutputs != c.BGOut(l) || len(ly.Gates) != len(c.Gates(l)) || len(ly.Wires) != len(c.Layers[l]) {
					t.Fail("layer %d does not reflect its wires: %s", l, gen.Describe(c))
				}
				t.Eval(1)
			}
			t.Distinct("circuit", gen.Describe(c))
		})
	}
}
