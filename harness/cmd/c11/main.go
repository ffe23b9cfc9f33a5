// C11: the MiMC circuit computes the MiMC permutation for every instance.
package main

import (
	"fmt"

	"gkr-mimc/examples"
	"gkr-mimc/hash"

	"verif/gen"
	"verif/kit"
	"verif/ref"

	"github.com/consensys/gurvy/bn256/fr"
)

func main() {
	kit.Main(kit.Config{
		ID:      "C11",
		Rule:    "batches of (state, key) pairs (random, special, and chosen so that a chosen round meets 0, 1, -1 or another special value) run through the example MiMC circuit, all chunk and worker counts; every instance's output is compared with the permutation of the hash package (MimcPermutationInPlace) and with an independent one over pinned constants; messages of 0..6 blocks are hashed through the circuit and compared with MimcHash. Non-trivial: distinct (batch, chunking, state, key)",
		Require: []string{"instances", "compressions", "messages", "layers_checked", "special_inside", "in_place"},
	}, run)
}

// run1 pushes a batch through the circuit.
func run1(t *kit.T, state, key []fr.Element, logChunks, nCore int) []fr.Element {
	N := len(state)
	flat := append(kit.Clone(state), key...)
	c := examples.CreateMimcCircuit()
	a := c.Assign(ref.Split(flat, 1<<logChunks), nCore)
	out := ref.Flatten(a.Values[len(a.Values)-1])
	if len(out) != N {
		t.Fail("the circuit has %d outputs for %d instances", len(out), N)
	}
	return out
}

func run(r *kit.Run) {
	for i := 0; i < r.N(10000, 80000); i++ {
		r.Case(fmt.Sprintf("batch/%d", i), func(t *kit.T) {
			g := t.Rng
			bN := g.Pick(0, 0, 1, 2, 3, 4, 5)
			if g.P(1, 60) {
				bN = g.Range(6, 9)
			} else if i%700 == 699 {
				bN = g.Range(10, 13)
			}
			k := g.Range(0, bN)
			n := g.Workers(1 << k)
			N := 1 << bN
			st, key := g.Frs(N), g.Frs(N)
			if g.P(1, 4) {
				key = g.FrsLike(st)
			}
			for h := range st {
				// a special value deep inside: the input of some round's power is 0, 1, -1, ...
				if g.P(1, 6) {
					st[h] = ref.Add(ref.MimcReach(g.Range(0, 91), g.Fr(), key[h]), key[h])
					t.Count("special_inside", 1)
				}
			}
			out := run1(t, st, key, k, n)
			for h := 0; h < N; h++ {
				native := ref.Sub(st[h], key[h])
				hash.MimcPermutationInPlace(&native, key[h])
				native = ref.Add(native, key[h])
				want := ref.Add(ref.MimcPerm(ref.Sub(st[h], key[h]), key[h]), key[h])
				if out[h] != native || native != want {
					t.Fail("bN=%d chunks=%d workers=%d instance %d: state %s key %s gives %s by the circuit, %s by the hash package, %s by definition",
						bN, 1<<k, n, h, st[h].String(), key[h].String(), out[h].String(), native.String(), want.String())
				}
				t.Eval(2)
				t.Distinct(bN, k, st[h], key[h])
			}
			t.Count("instances", N)
			t.Max("logBatch", bN)
			if i < 24 {
				t.Sample(map[string]interface{}{"case": t.Name, "bN": bN, "chunks": 1 << k, "workers": n, "state": st[0].String(), "key": key[0].String(), "out": out[0].String()})
			}
			// the buffers of the batch, filled again
			if bN <= 5 && i%4 == 0 {
				c := examples.CreateMimcCircuit()
				in := ref.Split(append(kit.Clone(st), key...), 1<<k)
				for rep := 0; rep < 2; rep++ {
					o := c.Assign(in, n)
					out := ref.Flatten(o.Values[len(o.Values)-1])
					flat := ref.Flatten(in)
					for h := 0; h < N; h++ {
						if want := ref.Add(ref.MimcPerm(ref.Sub(flat[h], flat[N+h]), flat[N+h]), flat[N+h]); out[h] != want {
							t.Fail("bN=%d chunks=%d workers=%d, batch %d in the same buffers, instance %d: state %s key %s gives %s, by definition %s",
								bN, 1<<k, n, rep, h, flat[h].String(), flat[N+h].String(), out[h].String(), want.String())
						}
						t.Eval(1)
					}
					x, y := g.Intn(len(in)), g.Intn(len(in[0]))
					in[x][y] = g.FrNear(in[x][y])
				}
				t.Count("in_place", 1)
			}
			// hash N messages of the same length at once: the circuit's input state
			// is h + m with key m, its output is perm(h,m)+m; the digest adds h
			nb := g.Range(0, 4)
			hs := make([]fr.Element, N)
			msgs := make([][]fr.Element, N)
			for b := 0; b < nb; b++ {
				m := g.Frs(N)
				in := make([]fr.Element, N)
				for h := range m {
					msgs[h] = append(msgs[h], m[h])
					in[h] = ref.Add(hs[h], m[h])
				}
				o := run1(t, in, m, k, n)
				for h := range m {
					c := hs[h]
					hash.MimcUpdateInplace(&c, m[h])
					hs[h] = ref.Add(o[h], hs[h])
					if c != hs[h] {
						t.Fail("compression of block %s: %s through the circuit, %s natively", m[h].String(), hs[h].String(), c.String())
					}
					t.Eval(1)
				}
				t.Count("compressions", N)
			}
			for h := range msgs {
				if x := hash.MimcHash(msgs[h]); x != hs[h] {
					t.Fail("message %s: digest %s through the circuit, %s natively", kit.Str(msgs[h]...), hs[h].String(), x.String())
				}
				t.Eval(1)
				t.Count("messages", 1)
			}
		})
	}
	// every layer, not only the last one
	for i := 0; i < r.N(30, 400); i++ {
		r.Case(fmt.Sprintf("layers/%d", i), func(t *kit.T) {
			g := t.Rng
			bN := g.Range(0, 3)
			c := gen.Mimc()
			flat := g.Frs(2 << bN)
			want := c.Evaluate(flat, bN)
			rc := examples.CreateMimcCircuit()
			k := g.Range(0, bN)
			a := rc.Assign(ref.Split(flat, 1<<k), g.Range(1, 8))
			if len(a.Values) != 92 {
				t.Fail("the circuit has %d layers", len(a.Values)-1)
			}
			for l := range want {
				if !kit.Eq(want[l], ref.Flatten(a.Values[l])) {
					t.Fail("bN=%d chunks=%d: layer %d differs from the round function", bN, 1<<k, l)
				}
				t.Eval(1)
				t.Count("layers_checked", 1)
			}
			t.Distinct("layers", kit.Str(flat...))
		})
	}
}
