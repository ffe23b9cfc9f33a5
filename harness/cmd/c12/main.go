// C12: the native hash functions implement their published definition.
package main

import (
	"fmt"

	"gkr-mimc/common"
	"gkr-mimc/hash"

	"verif/kit"
	"verif/ref"

	"github.com/consensys/gurvy/bn256/fr"
)

func main() {
	kit.Main(kit.Config{
		ID:      "C12",
		Rule:    "messages of length 0..40 (every length modulo every block size, random, zero, one-hot and boundary values) for MiMC, GMiMC and Poseidon of sizes 2, 4, 8: the digest, single compressions (also of states chosen to meet 0, 1 or -1 at a chosen round) and single steps are compared with an independent implementation over pinned constants; each message element is changed in turn and must change the digest; messages, constants and matrices are compared before and after. Non-trivial: distinct (function, message)",
		Require: []string{"mimc", "gmimc", "poseidon", "influence", "constants", "updates", "special_inside", "special_at_round_start", "block_is_state", "repeat", "in_place", "very_long"},
	}, run)
}

type fn struct {
	name string
	t    int
	hash func([]fr.Element) fr.Element
	ref  func([]fr.Element) fr.Element
	upd  func(state, block []fr.Element)
	rupd func(state, block []fr.Element) []fr.Element
}

func fns() []fn {
	gm := func(t int, h *hash.GMimcHasher) fn {
		return fn{fmt.Sprintf("GMimcT%d", t), t, h.Hash, func(m []fr.Element) fr.Element { return ref.GMimcHash(t, m) }, h.UpdateInplace, ref.GMimcUpdate}
	}
	po := func(t int, h *hash.PoseidonHasher) fn {
		return fn{fmt.Sprintf("PoseidonT%d", t), t, h.Hash, func(m []fr.Element) fr.Element { return ref.PoseidonHash(t, m) }, h.Update, ref.PoseidonUpdate}
	}
	return []fn{
		{"Mimc", 1, hash.MimcHash, ref.MimcHash, func(s, b []fr.Element) { hash.MimcUpdateInplace(&s[0], b[0]) },
			func(s, b []fr.Element) []fr.Element {
				return []fr.Element{ref.Add(ref.Add(ref.MimcPerm(s[0], b[0]), s[0]), b[0])}
			}},
		gm(2, &hash.GMimcT2), gm(4, &hash.GMimcT4), gm(8, &hash.GMimcT8),
		po(2, &hash.PoseidonT2), po(4, &hash.PoseidonT4), po(8, &hash.PoseidonT8),
	}
}

func family(n string) string {
	switch n[0] {
	case 'M':
		return "mimc"
	case 'G':
		return "gmimc"
	}
	return "poseidon"
}

func constants(t *kit.T, when string) {
	if len(hash.Arks) != len(ref.Arks) {
		t.Fail("%s: %d round constants instead of %d", when, len(hash.Arks), len(ref.Arks))
	}
	for i := range hash.Arks {
		if hash.Arks[i] != ref.Arks[i] {
			t.Fail("%s: round constant %d is %s, published %s", when, i, hash.Arks[i].String(), ref.Arks[i].String())
		}
	}
	if hash.MimcRounds != 91 {
		t.Fail("MiMC has %d rounds", hash.MimcRounds)
	}
	for _, n := range []int{2, 4, 8} {
		m := hash.GenerateMDSMatrix(n)
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				if ref.Mul(m[i][j], ref.Add(ref.CauchyX[i], ref.CauchyY[j])) != ref.One() {
					t.Fail("%s: the matrix of size %d is not 1/(x_i+y_j) at (%d,%d)", when, n, i, j)
				}
				t.Eval(1)
			}
		}
	}
	t.Eval(len(hash.Arks))
	t.Count("constants", 1)
}

// message returns a message of the given length, with slack behind it so that
// appends or writes past its end would show.
func message(g *kit.Rng, n int) (msg, backing []fr.Element) {
	b := g.FrsUniform(n + 9)
	switch g.Intn(5) {
	case 0:
		copy(b[:n], make([]fr.Element, n))
	case 1: // one-hot
		copy(b[:n], make([]fr.Element, n))
		if n > 0 {
			b[g.Intn(n)] = g.FrNZ()
		}
	case 2:
		copy(b[:n], g.Frs(n))
	case 3: // repeated elements and zero blocks inside
		for i := range b[:n] {
			if i > 0 && g.P(1, 3) {
				b[i] = b[g.Intn(i)]
			} else if g.P(1, 4) {
				b[i] = fr.Element{}
			}
		}
	}
	return b[:n], b
}

func run(r *kit.Run) {
	r.Case("constants", func(t *kit.T) {
		constants(t, "at start")
		t.Distinct("constants")
	})
	for fi, f := range fns() {
		f := f
		for n := 0; n <= 40; n++ {
			for i := 0; i < r.N(32, 300); i++ {
				r.Case(fmt.Sprintf("%s/len%d/%d", f.name, n, i), func(t *kit.T) {
					g := t.Rng
					msg, back := message(g, n)
					before := kit.Clone(back)
					got := f.hash(msg)
					want := f.ref(msg)
					if got != want {
						t.Fail("%s of %d elements is %s, the definition gives %s; message %s", f.name, n, got.String(), want.String(), kit.Str(msg...))
					}
					if !kit.Eq(before, back) {
						t.Fail("%s changed the message (or what lies behind it)", f.name)
					}
					t.Eval(2)
					t.Count(family(f.name), 1)
					if i == 0 {
						constants(t, "after "+f.name)
					}
					t.Distinct(f.name, kit.Str(msg...))
					if again := f.hash(msg); again != got {
						t.Fail("%s is not deterministic", f.name)
					}
					t.Eval(1)
					t.Count("repeat", 1)
					// the same buffer with one element changed
					if n > 0 {
						k := g.Intn(n)
						old := msg[k]
						msg[k] = g.FrNear(old)
						if a, b := f.hash(msg), f.ref(msg); a != b {
							t.Fail("%s of a buffer whose element %d has changed is %s, the definition gives %s; message %s", f.name, k, a.String(), b.String(), kit.Str(msg...))
						}
						msg[k] = old
						t.Eval(1)
						t.Count("in_place", 1)
					}
					// every element influences the digest
					if i == 0 || r.Thorough() && i%8 == 0 {
						for k := 0; k < n; k++ {
							m := kit.Clone(msg)
							m[k] = ref.Add(m[k], g.FrNZ())
							if f.hash(m) == got {
								t.Fail("%s of %d elements does not depend on element %d", f.name, n, k)
							}
							t.Eval(1)
							t.Count("influence", 1)
						}
						if n > 1 && family(f.name) != "gmimc" { // GMiMC lanes are symmetric by definition
							a, b := g.Intn(n), g.Intn(n)
							m := kit.Clone(msg)
							m[a], m[b] = m[b], m[a]
							if m[a] != m[b] && f.hash(m) == got {
								t.Fail("%s does not see that elements %d and %d were swapped", f.name, a, b)
							}
							t.Eval(1)
						}
					}
					if fi%3 == 0 && n < 4 && i == 0 {
						t.Sample(map[string]interface{}{"function": f.name, "message": kit.Str(msg...), "digest": got.String()})
					}
				})
			}
		}
		// compressions from arbitrary states, chained
		for i := 0; i < r.N(500, 4000); i++ {
			r.Case(fmt.Sprintf("%s/update/%d", f.name, i), func(t *kit.T) {
				g := t.Rng
				s := g.Frs(f.t)
				b0 := g.Frs(f.t)
				if g.P(1, 2) {
					// a state that meets special values inside, at any round
					x := g.Frs(f.t)
					if g.P(1, 3) {
						x = make([]fr.Element, f.t)
					}
					if g.P(1, 3) {
						for j := range x {
							switch g.Intn(5) {
							case 0: // what meets the key
								x[j] = b0[j]
							case 1:
								x[j] = ref.Neg(b0[j])
							case 2: // equal lanes
								x[j] = x[g.Intn(f.t)]
							}
						}
					}
					total := 91
					if family(f.name) == "poseidon" {
						total = 16 + map[int]int{2: 82, 4: 83, 8: 84}[f.t]
					}
					rd := g.Range(0, total)
					if g.P(1, 2) { // the first and the last rounds are fewer, and often treated apart
						rd = g.Pick(g.Range(0, 9), g.Range(total-9, total))
					}
					if g.P(1, 3) && rd < total { // not when the power is taken but when the round begins
						for j := range x {
							x[j] = ref.Add(ref.Add(x[j], b0[j]), ref.Arks[rd])
						}
						t.Count("special_at_round_start", 1)
					}
					switch family(f.name) {
					case "mimc":
						s[0] = ref.MimcReach(rd, x[0], b0[0])
					default:
						s = ref.LanesReach(family(f.name) == "poseidon", rd, x, b0)
					}
					t.Count("special_inside", 1)
				}
				if g.P(1, 8) { // the block is what the state is already, or cancels it
					s = kit.Clone(b0)
					if g.Bool() {
						for j := range s {
							s[j] = ref.Neg(s[j])
						}
					}
				}
				model := kit.Clone(s)
				for k := 0; k < 3; k++ {
					b := g.Frs(f.t)
					if k == 0 {
						b = b0
					} else if g.P(1, 6) {
						b = kit.Clone(model)
						t.Count("block_is_state", 1)
					}
					bb := kit.Clone(b)
					f.upd(s, b)
					model = f.rupd(model, b)
					if !kit.Eq(s, model) {
						t.Fail("%s: state after %d updates is %s, the definition gives %s", f.name, k+1, kit.Str(s...), kit.Str(model...))
					}
					if !kit.Eq(b, bb) {
						t.Fail("%s: an update changed its block", f.name)
					}
					t.Eval(2)
					t.Count("updates", 1)
				}
				t.Distinct(f.name, "update", kit.Str(s...))
			})
		}
	}
	// long messages
	for i := 0; i < r.N(40, 300); i++ {
		r.Case(fmt.Sprintf("long/%d", i), func(t *kit.T) {
			f := fns()[i%7]
			msg, _ := message(t.Rng, t.Rng.Range(41, 300))
			if a, b := f.hash(msg), f.ref(msg); a != b {
				t.Fail("%s of %d elements is %s, the definition gives %s", f.name, len(msg), a.String(), b.String())
			}
			t.Eval(1)
			t.Distinct("long", f.name, kit.Str(msg...))
			t.Max("message_length", len(msg))
		})
	}
	for i := 0; i < r.N(49, 147); i++ {
		r.Case(fmt.Sprintf("very_long/%d", i), func(t *kit.T) {
			g := t.Rng
			f := fns()[i%7]
			n := []int{g.Range(300, 1023), 1024, 1025, g.Range(1026, 2048), 4097, g.Range(4098, 6000), 1<<13 + g.Range(0, 8)}[i/7%7]
			msg, _ := message(g, n)
			a, b := f.hash(msg), f.ref(msg)
			if a != b {
				t.Fail("%s of %d elements is %s, the definition gives %s", f.name, len(msg), a.String(), b.String())
			}
			for _, k := range []int{n - 1, g.Intn(n)} {
				m := kit.Clone(msg)
				m[k] = ref.Add(m[k], g.FrNZ())
				if f.hash(m) == a {
					t.Fail("%s of %d elements does not depend on element %d", f.name, n, k)
				}
			}
			t.Eval(3)
			t.Count("very_long", 1)
			t.Distinct("very_long", f.name, n)
			t.Max("message_length", n)
		})
	}
	// the challenge derivation is this hash
	for i := 0; i < r.N(500, 3000); i++ {
		r.Case(fmt.Sprintf("challenge/%d", i), func(t *kit.T) {
			m := t.Rng.Frs(t.Rng.Range(0, 12))
			if a, b := common.GetChallenge(m), ref.MimcHash(m); a != b {
				t.Fail("challenge of %s is %s, its MiMC hash is %s", kit.Str(m...), a.String(), b.String())
			}
			t.Eval(1)
			t.Distinct("challenge", kit.Str(m...))
		})
	}
}
