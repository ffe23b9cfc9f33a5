// C05: the sumcheck prover sends exactly the true partial sums.
package main

import (
	"fmt"

	"gkr-mimc/circuit"
	"gkr-mimc/polynomial"
	"gkr-mimc/sumcheck"

	"verif/gen"
	"verif/kit"
	"verif/ref"

	"github.com/consensys/gurvy/bn256/fr"
)

func main() {
	kit.Main(kit.Config{
		ID:      "C05",
		Rule:    "random value, eq and wiring tables (dense, sparse, with zeros next to non-zeros), 1-20 gates of degree up to 10, widths 2^0..2^5, batches 2^0..2^11, all chunk and worker counts; the claim, every round polynomial (at 0, 1 and random points) and the final claims are compared with direct sums over the boolean cube. Non-trivial: distinct (table sizes, gates, chunking, table contents)",
		Require: []string{"single", "multi", "claims", "round_polynomials", "final_claims", "many_gates", "wide", "long"},
	}, run)
}

type prob struct {
	bN, bG     int
	vL, vR, eq []fr.Element
	gates      []ref.Gate
	st         [][]fr.Element
}

// sum is the full sum over the boolean cube of the current tables, whose h'
// part has size n.
func sum(gates []ref.Gate, vL, vR, eq []fr.Element, st [][]fr.Element) fr.Element {
	n := len(eq)
	gl, gr := len(vL)/n, len(vR)/n
	var tot fr.Element
	for l := 0; l < gl; l++ {
		for r := 0; r < gr; r++ {
			for k := range gates {
				c := st[k][l*gr+r]
				if c.IsZero() {
					continue
				}
				var s fr.Element
				for h := 0; h < n; h++ {
					s = ref.Add(s, ref.Mul(eq[h], gates[k].Eval(vL[l*n+h], vR[r*n+h])))
				}
				tot = ref.Add(tot, ref.Mul(c, s))
			}
		}
	}
	return tot
}

func fixAll(st [][]fr.Element, x fr.Element) [][]fr.Element {
	r := make([][]fr.Element, len(st))
	for i := range st {
		r[i] = ref.FixFirst(st[i], x)
	}
	return r
}

func (p *prob) check(t *kit.T, who string, claim fr.Element, polys [][]fr.Element, qP, qL, qR, fin []fr.Element) {
	desc := fmt.Sprintf("%s bN=%d bG=%d gates=%d", who, p.bN, p.bG, len(p.gates))
	if want := sum(p.gates, p.vL, p.vR, p.eq, p.st); claim != want {
		t.Fail("%s: the claim is %s, the sum over the cube is %s", desc, claim.String(), want.String())
	}
	t.Count("claims", 1)
	t.Eval(1)
	if len(polys) != p.bN+2*p.bG || len(qL) != p.bG || len(qR) != p.bG || len(qP) != p.bN || len(fin) != 3+len(p.st) {
		t.Fail("%s: wrong number of rounds, challenges or final claims: %d %d %d %d %d", desc, len(polys), len(qL), len(qR), len(qP), len(fin))
	}
	vL, vR, eq, st := p.vL, p.vR, p.eq, p.st
	for i, poly := range polys {
		xs := []fr.Element{{}, ref.One(), t.Rng.FrUniform()}
		if i%2 == 0 {
			xs = append(xs, ref.Neg(ref.One()))
		}
		for _, x := range xs {
			var want fr.Element
			switch {
			case i < p.bG:
				want = sum(p.gates, ref.FixFirst(vL, x), vR, eq, fixAll(st, x))
			case i < 2*p.bG:
				want = sum(p.gates, vL, ref.FixFirst(vR, x), eq, fixAll(st, x))
			default:
				want = sum(p.gates, ref.FixFirst(vL, x), ref.FixFirst(vR, x), ref.FixFirst(eq, x), st)
			}
			if got := ref.PolyEval(poly, x); got != want {
				t.Fail("%s: round %d polynomial at %s is %s, the partial sum is %s", desc, i, x.String(), got.String(), want.String())
			}
			t.Eval(1)
		}
		t.Count("round_polynomials", 1)
		switch {
		case i < p.bG:
			vL, st = ref.FixFirst(vL, qL[i]), fixAll(st, qL[i])
		case i < 2*p.bG:
			vR, st = ref.FixFirst(vR, qR[i-p.bG]), fixAll(st, qR[i-p.bG])
		default:
			x := qP[i-2*p.bG]
			vL, vR, eq = ref.FixFirst(vL, x), ref.FixFirst(vR, x), ref.FixFirst(eq, x)
		}
	}
	// final claims, from the definition of the multilinear extension
	cat := func(a ...[]fr.Element) []fr.Element {
		var r []fr.Element
		for _, x := range a {
			r = append(r, x...)
		}
		return r
	}
	want := []fr.Element{ref.MLE(p.vL, cat(qL, qP)), ref.MLE(p.vR, cat(qR, qP)), ref.MLE(p.eq, qP)}
	for k := range p.st {
		want = append(want, ref.MLE(p.st[k], cat(qL, qR)))
	}
	for i := range want {
		if want[i] != fin[i] {
			t.Fail("%s: final claim %d is %s, the multilinear extension is %s", desc, i, fin[i].String(), want[i].String())
		}
		t.Eval(1)
	}
	t.Count("final_claims", len(want))
}

func bkt(x []fr.Element) polynomial.BookKeepingTable {
	return polynomial.NewBookKeepingTable(kit.Clone(x))
}

func bkts(x [][]fr.Element) []polynomial.BookKeepingTable {
	r := make([]polynomial.BookKeepingTable, len(x))
	for i := range x {
		r[i] = bkt(x[i])
	}
	return r
}

func table(g *kit.Rng, n int) []fr.Element {
	switch g.Intn(4) {
	case 0:
		return g.FrsUniform(n)
	case 1: // sparse
		r := make([]fr.Element, n)
		for i := range r {
			if g.P(1, 4) {
				r[i] = g.Fr()
			}
		}
		return r
	case 2: // one half zero
		r := g.Frs(n)
		for i := range r {
			if (i < n/2) == (n%4 == 0) {
				r[i] = fr.Element{}
			}
		}
		return r
	}
	return g.Frs(n)
}

func run(r *kit.Run) {
	for i := 0; i < r.N(4000, 60000); i++ {
		r.Case(fmt.Sprintf("random/%d", i), func(t *kit.T) {
			g := t.Rng
			p := &prob{bG: g.Pick(0, 1, 1, 1, 2, 2, 3)}
			p.bN = g.Range(0, []int{7, 6, 4, 2}[p.bG])
			if r.Thorough() && p.bG <= 1 && g.P(1, 20) {
				p.bN = 9
			}
			nG := g.Range(1, 4)
			if g.P(1, 20) {
				nG = g.Range(5, 20)
				p.bN, p.bG = g.Range(0, 3), g.Pick(0, 1, 1, 2)
				if g.P(1, 4) { // more than a machine word has bits
					nG = g.Range(21, 90)
				}
				t.Count("many_gates", 1)
				t.Max("gates", nG)
			} else if g.P(1, 80) {
				p.bG, p.bN = g.Pick(4, 4, 5), g.Range(0, 2)
				nG = g.Range(1, 2)
				t.Count("wide", 1)
			} else if g.P(1, 80) {
				p.bG, p.bN = g.Pick(0, 1), g.Range(8, 11)
				nG = g.Range(1, 2)
				t.Count("long", 1)
			} else if i%800 == 799 {
				p.bG = g.Pick(0, 1)
				p.bN = g.Range(12, 17) - p.bG
				nG = 1
				t.Count("long", 1)
			} else if i%800 == 399 {
				p.bG, p.bN = g.Pick(6, 6, 7), g.Range(0, 1)
				nG = g.Range(1, 2)
				t.Count("wide", 1)
			}
			p.vL, p.vR = table(g, 1<<(p.bG+p.bN)), table(g, 1<<(p.bG+p.bN))
			switch g.Intn(6) {
			case 0: // as in a GKR prover: both sides hold the same values
				copy(p.vR, p.vL)
				t.Count("same_sides", 1)
			case 1:
				p.vR = g.FrsLike(p.vL)
			}
			p.eq = table(g, 1<<p.bN)
			if g.Bool() {
				p.eq = ref.EqTable(g.FrsUniform(p.bN))
			}
			key := ""
			var rg []circuit.Gate
			for k := 0; k < nG; k++ {
				x := gen.RandGate(g, gen.WithUser)
				p.gates = append(p.gates, x)
				rg = append(rg, gen.Gate(x))
				p.st = append(p.st, table(g, 1<<(2*p.bG)))
				if k > 0 && g.P(1, 4) {
					p.st[k] = g.FrsLike(p.st[g.Intn(k)])
				}
				key += x.Key()
			}
			if g.P(1, 3) { // wiring-like tables
				for k := range p.st {
					w := make([]fr.Element, len(p.st[k]))
					w[g.Intn(len(w))] = g.Fr()
					p.st[k] = w
				}
			}
			s := sumcheck.NewSingleThreadedProver(bkt(p.vL), bkt(p.vR), bkt(p.eq), rg, bkts(p.st))
			claim := s.GetClaim()
			proof, qP, qL, qR, fin := s.Prove()
			p.check(t, "sequential", claim, proof.PolyCoeffs, qP, qL, qR, fin)
			t.Count("single", 1)
			k := g.Range(0, p.bN)
			n := g.Workers(1 << k)
			m := sumcheck.NewMultiThreadedProver(bkts(ref.Split(p.vL, 1<<k)), bkts(ref.Split(p.vR, 1<<k)), bkts(ref.Split(p.eq, 1<<k)), rg, bkts(p.st))
			claim = m.GetClaim(n)
			proof, qP, qL, qR, fin = m.Prove(g.Pick(g.Workers(1<<k), n))
			p.check(t, fmt.Sprintf("%d chunks, %d workers", 1<<k, n), claim, proof.PolyCoeffs, qP, qL, qR, fin)
			t.Count("multi", 1)
			t.Distinct(p.bN, p.bG, key, k, n, kit.Str(p.vL...))
			t.Max("logBatch", p.bN)
			t.Max("logWidth", p.bG)
			if i < 24 {
				t.Sample(map[string]interface{}{"case": t.Name, "bN": p.bN, "bG": p.bG, "gates": key, "chunks": 1 << k, "workers": n})
			}
		})
	}
}
