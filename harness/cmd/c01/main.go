// C01: honest proofs are always accepted.
package main

import (
	"fmt"

	"gkr-mimc/examples"
	"gkr-mimc/gkr"

	"verif/gen"
	"verif/kit"
	"verif/ref"
)

func main() {
	kit.Main(kit.Config{
		ID:      "C01",
		Rule:    "random well-formed layered circuits (1-5 layers, widths 2^0..2^3, repeated gates, fan-in, gaps, user gates up to degree 10), batches 2^0..2^7 plus large ones, all chunk counts and worker counts, some wide (2^7), deep (300 layers), with many gates (100), a wire up to 600 times or many chunks (2^13); a third again with other chunkings at the verifier and with further batches on the same circuit; one decision = one honest Assign+Prove+Verify. Non-trivial: distinct (circuit wiring, batch size, chunk count, worker count); every case evaluates gates",
		Require: []string{"accepted", "repeated_gates", "single_chunk_single_instance", "large_batch", "mimc", "extreme", "other_chunks", "second_batch", "same_buffers"},
	}, run)
}

func one(t *kit.T, c *ref.Circuit, bN, logChunks, nCore int, fresh bool) {
	flat := gen.Inputs(t.Rng, c, bN)
	in := ref.Split(flat, 1<<logChunks)
	rc := gen.Repo(c, fresh)
	a := rc.Assign(in, nCore)
	outputs := a.Values[len(a.Values)-1]
	p := gkr.NewProver(rc, a)
	proof := p.Prove(t.Rng.Pick(nCore, t.Rng.Workers(1<<logChunks)))
	v := gkr.NewVerifier(bN, rc)
	if !v.Verify(proof, ref.Split(flat, 1<<logChunks), outputs) {
		t.Fail("honest proof rejected: bN=%d chunks=%d nCore=%d circuit %s", bN, 1<<logChunks, nCore, gen.Describe(c))
	}
	t.Eval(1)
	t.Count("accepted", 1)
	t.Distinct(gen.Describe(c), bN, logChunks, nCore)
	if bN > 8 || !t.Rng.P(1, 3) {
		return
	}
	// the verifier may see the batch in other chunks than the prover
	out := ref.Flatten(outputs)
	for i := 0; i < 2; i++ {
		k1, k2 := t.Rng.Range(0, bN), t.Rng.Range(0, bN)
		if !v.Verify(proof, ref.Split(flat, 1<<k1), ref.Split(out, 1<<k2)) {
			t.Fail("honest proof rejected with the inputs in %d and the outputs in %d chunks: bN=%d chunks=%d nCore=%d circuit %s", 1<<k1, 1<<k2, bN, 1<<logChunks, nCore, gen.Describe(c))
		}
		t.Eval(1)
		t.Count("other_chunks", 1)
	}
	// the same circuit and verifier again, with another batch, of another size too
	for i := 0; i < 2; i++ {
		bN2 := bN
		if i == 1 {
			bN2 = t.Rng.Range(0, 5)
			v = gkr.NewVerifier(bN2, rc)
		}
		k := t.Rng.Range(0, bN2)
		in2 := ref.Split(gen.Inputs(t.Rng, c, bN2), 1<<k)
		if i == 0 && t.Rng.Bool() { // in the buffers of the first batch
			k = logChunks
			for x, s := range ref.Split(gen.Inputs(t.Rng, c, bN), 1<<k) {
				copy(in[x], s)
			}
			in2 = in
			t.Count("same_buffers", 1)
		}
		a2 := rc.Assign(in2, nCore)
		p2 := gkr.NewProver(rc, a2)
		proof2 := p2.Prove(nCore)
		if !v.Verify(proof2, in2, a2.Values[len(a2.Values)-1]) {
			t.Fail("honest proof of a second batch on the same circuit rejected: bN=%d then bN=%d chunks=%d nCore=%d circuit %s", bN, bN2, 1<<k, nCore, gen.Describe(c))
		}
		t.Eval(1)
		t.Count("second_batch", 1)
	}
}

func run(r *kit.Run) {
	for i := 0; i < r.N(7000, 200000); i++ {
		r.Case(fmt.Sprintf("random/%d", i), func(t *kit.T) {
			g := t.Rng
			kind := gen.Builtin
			if g.P(1, 3) {
				kind = gen.WithUser
			}
			o := gen.Opts{MaxLayers: 5, MaxBG: g.Pick(0, 1, 1, 2, 2, 3), MaxWires: g.Pick(1, 3, 6, 10), Gates: kind, Dense: g.Bool(), NoGaps: g.P(1, 3)}
			if r.Thorough() && g.P(1, 10) {
				o.MaxBG = 4
			}
			c := gen.Circuit(g, o)
			bN := g.Pick(0, 0, 1, 1, 2, 3, 4, 5)
			if o.MaxBG <= 1 {
				bN = g.Pick(0, 1, 2, 3, 4, 5, 6, 7)
			}
			k := g.Range(0, bN)
			one(t, c, bN, k, g.Workers(1<<k), g.P(1, 4))
			for l := range c.Layers {
				if len(c.Gates(l)) < len(c.Layers[l]) {
					t.Count("repeated_gates", 1)
					break
				}
			}
			if bN == 0 {
				t.Count("single_chunk_single_instance", 1)
			}
			t.Max("layers", len(c.Layers))
			t.Max("logBatch", bN)
			if i < 24 {
				t.Sample(map[string]interface{}{"case": t.Name, "circuit": gen.Describe(c), "bN": bN, "chunks": 1 << k})
			}
		})
	}
	// wide, deep, many gates, many chunks
	for i := 0; i < r.N(120, 1500); i++ {
		r.Case(fmt.Sprintf("extreme/%d", i), func(t *kit.T) {
			g := t.Rng
			o := gen.Opts{MaxLayers: 3, MaxBG: 2, MaxWires: 6, Gates: gen.Builtin, Dense: g.Bool()}
			bN := g.Range(0, 3)
			switch i % 4 {
			case 0: // wide
				o.MaxBG, o.MaxWires, o.MaxLayers = g.Pick(4, 5), 20, 2
				bN = g.Range(0, 2)
				if i%40 == 0 {
					o.MaxBG, o.MaxPool, bN = g.Pick(6, 7, 7), 1, g.Range(0, 1)
				}
			case 1: // deep
				o.MinLayers, o.MaxLayers, o.MaxBG, o.MaxWires = 6, 40, 1, 3
				if g.P(1, 4) {
					o.MinLayers, o.MaxLayers, o.MaxWires = 64, 300, 2
				}
				if i%40 == 1 {
					o.MinLayers, o.MaxLayers, o.MaxWires, o.MaxBG = 260, 300, 1, g.Intn(2)
				}
			case 2: // many gates
				o.MaxPool, o.MaxWires, o.Gates = 12, 30, gen.WithUser
				if i%8 == 2 { // more than a machine word has bits
					o.MinPool, o.MaxPool, o.MinWires, o.MaxWires = 60, 120, 120, 260
					o.MaxLayers = 2
				}
				if i%8 == 6 { // one wire more often than a byte counts
					o.Repeat, o.MaxLayers = g.Pick(200, 257, 300, 600), 2
				}
			case 3: // many chunks
				o.MaxBG, o.MaxWires, o.MaxLayers = 1, 3, 2
				bN = g.Range(8, 10)
				if i%40 == 3 {
					bN, o.MaxBG, o.MaxWires = g.Range(11, 13), g.Intn(2), 2
				}
			}
			c := gen.Circuit(g, o)
			k := g.Range(0, bN)
			if i%4 == 3 {
				k = g.Range(bN-2, bN)
			}
			one(t, c, bN, k, g.Workers(1<<k), g.Bool())
			t.Max("layers", len(c.Layers))
			t.Max("chunks", 1<<k)
			for l := range c.Layers {
				t.Max("logWidth", c.BGIn(l))
				t.Max("gates_in_layer", len(c.Gates(l)))
			}
			t.Count("extreme", 1)
		})
	}
	// every (batch, chunk, worker) combination on one small circuit of each width
	for bg := 0; bg <= 2; bg++ {
		for bN := 0; bN <= 4; bN++ {
			for k := 0; k <= bN; k++ {
				r.Case(fmt.Sprintf("grid/bg%d/bN%d/k%d", bg, bN, k), func(t *kit.T) {
					c := gen.Circuit(t.Rng, gen.Opts{MaxLayers: 3, MaxBG: bg, MaxWires: 5, Gates: gen.Builtin, Dense: true})
					for _, n := range []int{1, 2, 5, 64} {
						one(t, c, bN, k, n, false)
					}
				})
			}
		}
	}
	// tables beyond the minimum parallel chunk size
	for i := 0; i < r.N(24, 200); i++ {
		r.Case(fmt.Sprintf("large/%d", i), func(t *kit.T) {
			c := gen.Circuit(t.Rng, gen.Opts{MaxLayers: 2, MaxBG: 1, MaxWires: 3, Gates: gen.Builtin, Dense: true})
			bN := t.Rng.Pick(13, 14)
			if i%3 == 0 {
				bN = t.Rng.Range(15, 18)
			}
			k := t.Rng.Pick(0, 1, 1, 2, 6, 10)
			one(t, c, bN, k, t.Rng.Range(2, 12), false)
			t.Count("large_batch", 1)
			t.Max("logBatch", bN)
		})
	}
	// the circuit the project exists for
	for i := 0; i < r.N(30, 200); i++ {
		r.Case(fmt.Sprintf("mimc/%d", i), func(t *kit.T) {
			bN := t.Rng.Range(0, 5)
			k := t.Rng.Range(0, bN)
			n := t.Rng.Range(1, 16)
			rc := examples.CreateMimcCircuit()
			in := ref.Split(gen.MimcInputs(t.Rng, bN), 1<<k)
			a := rc.Assign(in, n)
			p := gkr.NewProver(rc, a)
			proof := p.Prove(n)
			v := gkr.NewVerifier(bN, rc)
			if !v.Verify(proof, in, a.Values[91]) {
				t.Fail("honest MiMC proof rejected: bN=%d chunks=%d nCore=%d", bN, 1<<k, n)
			}
			t.Eval(1)
			t.Count("accepted", 1)
			t.Count("mimc", 1)
			t.Distinct("mimc", bN, k, n)
		})
	}
}
