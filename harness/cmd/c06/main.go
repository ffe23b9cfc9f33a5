// C06: the sumcheck verifier accepts exactly the consistent transcripts.
package main

import (
	"fmt"

	"gkr-mimc/sumcheck"

	"verif/kit"
	"verif/ref"

	"github.com/consensys/gurvy/bn256/fr"
)

func main() {
	kit.Main(kit.Config{
		ID:      "C06",
		Level:   "fault_enumeration",
		Rule:    "consistent transcripts of 0-30 rounds with polynomials of 1-20 coefficients (special and uniform), every bN/bG split, also with fewer or more rounds than bN+2*bG, must be accepted with the challenges (hash of the round's coefficients) and last claim of the definition; the same transcripts with exactly one round's sum broken (later rounds made consistent again), at every round, and with a wrong initial claim, a sum that is a near miss of the running claim (equal in some limbs, of opposite sign, ...), two rounds off by opposite or proportional errors, an empty polynomial at any round or fewer than 2*bG rounds, must be rejected. Non-trivial: distinct (lengths, split, broken round)",
		Require: []string{"many_rounds", "long_polynomials", "accepted", "rejected_round", "rejected_claim", "constant_polynomials", "no_round", "fewer_rounds", "more_rounds", "repeated", "empty_polynomial", "too_few_rounds", "near_miss", "two_rounds"},
	}, run)
}

// transcript makes a transcript for claim; break (>= 0) is the round whose sum is off by d.
func transcript(g *kit.Rng, claim fr.Element, lens []int, brk int, d fr.Element) (polys [][]fr.Element, chal []fr.Element, last fr.Element) {
	return transcriptOff(g, claim, lens, map[int]fr.Element{brk: d})
}

// transcriptOff makes a transcript whose rounds' sums are off by the given errors.
func transcriptOff(g *kit.Rng, claim fr.Element, lens []int, off map[int]fr.Element) (polys [][]fr.Element, chal []fr.Element, last fr.Element) {
	run := claim
	for i, n := range lens {
		p := g.Frs(n)
		// fix one coefficient so that p(0)+p(1) = run
		want := ref.Add(run, off[i])
		k := g.Intn(n)
		s := ref.Add(ref.PolyEval(p, fr.Element{}), ref.PolyEval(p, ref.One()))
		diff := ref.Sub(want, s)
		if k == 0 {
			diff = ref.Mul(diff, ref.Half)
		}
		p[k] = ref.Add(p[k], diff)
		x := ref.MimcHash(p)
		polys, chal = append(polys, p), append(chal, x)
		run = ref.PolyEval(p, x)
	}
	return polys, chal, run
}

func reject(t *kit.T, what string, claim fr.Element, polys [][]fr.Element, bN, bG int) {
	var ok bool
	if m, panicked := kit.Panics(func() { ok, _, _, _, _ = sumcheck.Verifier{}.Verify(claim, sumcheck.Proof{PolyCoeffs: polys}, bN, bG) }); panicked {
		t.Fail("%s: the verifier panics: bN=%d bG=%d: %s", what, bN, bG, m)
	}
	if ok {
		t.Fail("%s is accepted: bN=%d bG=%d", what, bN, bG)
	}
	t.Eval(1)
}

func run(r *kit.Run) {
	for i := 0; i < r.N(8000, 200000); i++ {
		r.Case(fmt.Sprintf("random/%d", i), func(t *kit.T) {
			g := t.Rng
			bG := g.Pick(0, 1, 1, 2, 3, 6)
			bN := g.Pick(0, 1, 2, 3, 5, 8, 18)
			if g.P(1, 100) {
				bG, bN = g.Pick(0, 8, 20, 33), g.Pick(0, 1, 33, 70)
				t.Count("many_rounds", 1)
			}
			n := bN + 2*bG
			if g.P(1, 3) {
				// the number of rounds is that of the transcript
				n = 2*bG + g.Range(0, 8)
			}
			lens := make([]int, n)
			maxLen := g.Pick(1, 2, 3, 9, 12, 20)
			if n < 6 && g.P(1, 60) {
				maxLen = g.Pick(33, 70, 300)
				t.Count("long_polynomials", 1)
			}
			for j := range lens {
				lens[j] = g.Range(1, maxLen)
			}
			claim := g.Fr()
			polys, chal, last := transcript(g, claim, lens, -1, fr.Element{})
			v := sumcheck.Verifier{}
			pr := sumcheck.Proof{PolyCoeffs: kit.Clone2(polys)}
			ok, qP, qL, qR, fin := v.Verify(claim, pr, bN, bG)
			if !ok {
				t.Fail("a consistent transcript is rejected: bN=%d bG=%d lengths %v claim %s", bN, bG, lens, claim.String())
			}
			if !kit.Eq(qL, chal[:bG]) || !kit.Eq(qR, chal[bG:2*bG]) || !kit.Eq(qP, chal[2*bG:]) {
				t.Fail("wrong challenges: bN=%d bG=%d lengths %v", bN, bG, lens)
			}
			if fin != last {
				t.Fail("wrong last claim %s, expected %s: bN=%d bG=%d lengths %v", fin.String(), last.String(), bN, bG, lens)
			}
			t.Eval(3)
			t.Count("accepted", 1)
			t.Distinct(bN, bG, lens)
			if maxLen == 1 {
				t.Count("constant_polynomials", 1)
			}
			if n < bN+2*bG {
				t.Count("fewer_rounds", 1)
			} else if n > bN+2*bG {
				t.Count("more_rounds", 1)
			}
			if n == 0 {
				t.Count("no_round", 1)
			}
			if i < 16 {
				t.Sample(map[string]interface{}{"bN": bN, "bG": bG, "lengths": lens, "claim": claim.String()})
			}
			// the same proof object, altered in place and restored
			if n > 0 {
				j := g.Intn(n)
				k := g.Intn(lens[j])
				old := pr.PolyCoeffs[j][k]
				pr.PolyCoeffs[j][k] = ref.Add(old, g.FrNZ())
				if ok, _, _, _, _ := v.Verify(claim, pr, bN, bG); ok {
					t.Fail("coefficient %d of round %d altered in place: accepted: bN=%d bG=%d lengths %v", k, j, bN, bG, lens)
				}
				pr.PolyCoeffs[j][k] = old
				ok, qP2, qL2, qR2, fin2 := v.Verify(claim, pr, bN, bG)
				if !ok || !kit.Eq(qP, qP2) || !kit.Eq(qL, qL2) || !kit.Eq(qR, qR2) || fin != fin2 {
					t.Fail("a second verification of a consistent transcript differs: bN=%d bG=%d lengths %v", bN, bG, lens)
				}
				t.Eval(2)
				t.Count("repeated", 1)
			}
			// a wrong claim
			if n > 0 {
				bad := ref.Add(claim, g.FrNZ())
				if ok, _, _, _, _ := v.Verify(bad, sumcheck.Proof{PolyCoeffs: kit.Clone2(polys)}, bN, bG); ok {
					t.Fail("a wrong initial claim is accepted: bN=%d bG=%d lengths %v", bN, bG, lens)
				}
				t.Eval(1)
				t.Count("rejected_claim", 1)
			}
			// an empty polynomial, too few rounds: rejected, no panic
			if n > 0 {
				b := g.Intn(n)
				bad := kit.Clone2(polys)
				bad[b] = [][]fr.Element{nil, {}}[g.Intn(2)]
				reject(t, fmt.Sprintf("an empty polynomial in round %d of %d", b, n), claim, bad, bN, bG)
				if g.Bool() { // an empty polynomial that would fit: the running claim is zero
					zero := fr.Element{}
					pre, _, _ := transcript(g, zero, lens[:b], -1, zero)
					for j := range pre {
						pre[j] = make([]fr.Element, lens[j])
					}
					for j := b; j < n; j++ {
						pre = append(pre, []fr.Element{})
					}
					reject(t, fmt.Sprintf("an all-zero transcript that is empty from round %d of %d", b, n), zero, pre, bN, bG)
				}
				t.Count("empty_polynomial", 1)
			}
			if bG > 0 && g.P(1, 2) {
				m := g.Intn(2 * bG)
				reject(t, fmt.Sprintf("a consistent transcript of %d rounds", m), claim, kit.Clone2(polys)[:m], bN, bG)
				t.Count("too_few_rounds", 1)
			}
			// near misses of the running claim: equal in some limbs, up to sign, ...
			if n > 0 && g.P(1, 4) {
				b := g.Intn(n)
				run := claim
				if b > 0 {
					run = ref.PolyEval(polys[b-1], chal[b-1])
				}
				for k, y := range ref.Near(run) {
					rest, _, _ := transcript(g, y, lens[b:], -1, fr.Element{})
					bad := append(kit.Clone2(polys)[:b], rest...)
					reject(t, fmt.Sprintf("a transcript whose round %d sums to near miss %d of the running claim", b, k), claim, bad, bN, bG)
				}
				t.Count("near_miss", 1)
			}
			// two rounds off by opposite, equal or proportional errors
			if n > 1 && g.P(1, 3) {
				for k, rho := range []fr.Element{ref.Neg(ref.One()), ref.One(), ref.Neg(ref.U(2)), ref.Neg(ref.Half), g.FrNZ()} {
					p := g.Perm(n)
					d := g.FrNZ()
					bad, _, _ := transcriptOff(g, claim, lens, map[int]fr.Element{p[0]: d, p[1]: ref.Mul(rho, d)})
					reject(t, fmt.Sprintf("a transcript whose rounds %d and %d are off by proportional errors (%d)", p[0], p[1], k), claim, bad, bN, bG)
				}
				t.Count("two_rounds", 1)
			}
			for b := 0; b < n; b++ {
				if n > 10 && b != 0 && b != n-1 && !g.P(1, 3) {
					continue
				}
				bad, _, _ := transcript(g, claim, lens, b, g.FrNZ())
				if ok, _, _, _, _ := v.Verify(claim, sumcheck.Proof{PolyCoeffs: bad}, bN, bG); ok {
					t.Fail("a transcript whose round %d does not sum to the running claim is accepted: bN=%d bG=%d lengths %v", b, bN, bG, lens)
				}
				t.Eval(1)
				t.Count("rejected_round", 1)
				t.Distinct(bN, bG, lens, b)
			}
		})
	}
}
