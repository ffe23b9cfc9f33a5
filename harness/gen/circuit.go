package gen

import (
	"fmt"

	"gkr-mimc/circuit"
	"gkr-mimc/gkr"
	"gkr-mimc/sumcheck"

	"verif/kit"
	"verif/ref"

	"github.com/consensys/gurvy/bn256/fr"
)

// Opts bounds a random circuit.
type Opts struct {
	MaxLayers int
	MaxBG     int
	MaxWires  int
	MinWires  int
	Gates     GateKind
	MaxPool   int  // distinct gates per layer (default 3)
	MinPool   int  // default 1
	Repeat    int  // one wire of each layer occurs this often (default: as drawn)
	MinLayers int  // default 1
	Dense     bool // several wires per output, repeated wires
	NoGaps    bool // every output gets a wire
}

// Circuit makes a random well-formed circuit: consecutive widths agree.
func Circuit(r *kit.Rng, o Opts) *ref.Circuit {
	if o.MaxPool == 0 {
		o.MaxPool = 3
	}
	if o.MinLayers == 0 {
		o.MinLayers = 1
	}
	nL := r.Range(o.MinLayers, o.MaxLayers)
	bgs := make([]int, nL+1)
	for i := range bgs {
		bgs[i] = r.Range(0, o.MaxBG)
	}
	c := &ref.Circuit{}
	for l := 0; l < nL; l++ {
		in, out := 1<<bgs[l], 1<<bgs[l+1]
		nW := r.Range(max(1, o.MinWires), o.MaxWires)
		pool := make([]ref.Gate, r.Range(max(1, o.MinPool), o.MaxPool))
		for i := range pool {
			pool[i] = RandGate(r, o.Gates)
			if o.MinPool > 0 && i > 3 && r.P(2, 3) { // really different ones
				pool[i] = ref.CipherGate{Ark: r.FrUniform()}
			}
		}
		var ws []ref.Wire
		for i := 0; i < nW; i++ {
			ws = append(ws, ref.Wire{L: r.Intn(in), R: r.Intn(in), O: r.Intn(out), G: pool[r.Intn(len(pool))]})
			if o.Dense && r.P(1, 4) {
				ws = append(ws, ws[r.Intn(len(ws))]) // the same wire twice
			}
		}
		if o.Repeat > 0 {
			w := ws[r.Intn(len(ws))]
			for i := 1; i < o.Repeat; i++ {
				ws = append(ws, w)
			}
		}
		if o.NoGaps {
			for k := 0; k < out; k++ {
				ws = append(ws, ref.Wire{L: r.Intn(in), R: r.Intn(in), O: k, G: pool[r.Intn(len(pool))]})
			}
		}
		// make the widths exactly as drawn: some wire reads the upper half, some writes it
		if in > 1 {
			i := r.Intn(len(ws))
			if r.Bool() {
				ws[i].L = in/2 + r.Intn(in/2)
			} else {
				ws[i].R = in/2 + r.Intn(in/2)
			}
		}
		if out > 1 {
			if o.NoGaps {
				// outputs are all there already
			} else {
				ws[r.Intn(len(ws))].O = out/2 + r.Intn(out/2)
			}
		}
		// shuffle
		p := r.Perm(len(ws))
		sh := make([]ref.Wire, len(ws))
		for i := range p {
			sh[i] = ws[p[i]]
		}
		c.Layers = append(c.Layers, sh)
	}
	return c
}

// Mimc is the MiMC circuit by its definition: 91 rounds of (state, key).
func Mimc() *ref.Circuit {
	c := &ref.Circuit{}
	for i := 0; i < 91; i++ {
		ws := []ref.Wire{{L: 1, R: 0, O: 0, G: ref.CipherGate{Ark: ref.Arks[i]}}}
		if i < 90 {
			ws = append(ws, ref.Wire{L: 1, R: 0, O: 1, G: ref.CopyG})
		}
		c.Layers = append(c.Layers, ws)
	}
	return c
}

// Wiring translates to the repository's wires. One gate object is shared by
// the wires of a layer that use the same gate, or (fresh) each wire gets its own.
func Wiring(c *ref.Circuit, fresh bool) [][]circuit.Wire {
	res := make([][]circuit.Wire, len(c.Layers))
	for l := range c.Layers {
		cache := map[string]circuit.Gate{}
		for _, w := range c.Layers[l] {
			g, ok := cache[w.G.Key()]
			if !ok || fresh {
				g = Gate(w.G)
				cache[w.G.Key()] = g
			}
			res[l] = append(res[l], circuit.Wire{L: w.L, R: w.R, O: w.O, Gate: g})
		}
	}
	return res
}

// Repo builds the repository's circuit.
func Repo(c *ref.Circuit, fresh bool) circuit.Circuit { return circuit.NewCircuit(Wiring(c, fresh)) }

// Describe prints a circuit compactly.
func Describe(c *ref.Circuit) string {
	s := ""
	for l := range c.Layers {
		s += fmt.Sprintf("L%d(in%d,out%d):", l, c.BGIn(l), c.BGOut(l))
		for _, w := range c.Layers[l] {
			k := w.G.Key()
			if len(k) > 12 {
				k = k[:12] + "~"
			}
			s += fmt.Sprintf(" %d,%d>%d:%s", w.L, w.R, w.O, k)
		}
		s += "; "
		if len(s) > 600 {
			return s + "..."
		}
	}
	return s
}

// Shape is a short key of the circuit's structure.
func Shape(c *ref.Circuit) string {
	s := ""
	for l := range c.Layers {
		s += fmt.Sprintf("%d>%d:%dw%dg/", c.BGIn(l), c.BGOut(l), len(c.Layers[l]), len(c.Gates(l)))
	}
	return s
}

// ToProof converts a repository proof.
func ToProof(p gkr.Proof) *ref.Proof {
	q := &ref.Proof{CL: kit.Clone(p.ClaimsLeft), CR: kit.Clone(p.ClaimsRight)}
	for _, s := range p.SumcheckProofs {
		q.Polys = append(q.Polys, kit.Clone2(s.PolyCoeffs))
	}
	return q
}

// FromProof converts to a repository proof.
func FromProof(p *ref.Proof) gkr.Proof {
	q := gkr.Proof{ClaimsLeft: kit.Clone(p.CL), ClaimsRight: kit.Clone(p.CR)}
	for l := range p.Polys {
		q.SumcheckProofs = append(q.SumcheckProofs, sumcheck.Proof{PolyCoeffs: kit.Clone2(p.Polys[l])})
	}
	return q
}

// SameProof compares two repository proofs.
func SameProof(a, b gkr.Proof) bool {
	if len(a.SumcheckProofs) != len(b.SumcheckProofs) || !kit.Eq(a.ClaimsLeft, b.ClaimsLeft) || !kit.Eq(a.ClaimsRight, b.ClaimsRight) {
		return false
	}
	for i := range a.SumcheckProofs {
		if !kit.Eq2(a.SumcheckProofs[i].PolyCoeffs, b.SumcheckProofs[i].PolyCoeffs) {
			return false
		}
	}
	return true
}

// Inputs makes a flat batch for the circuit.
func Inputs(r *kit.Rng, c *ref.Circuit, bN int) []fr.Element {
	n := 1 << (bN + c.BGIn(0))
	if len(c.Layers) == 91 && r.Bool() { // the MiMC circuit
		return MimcInputs(r, bN)
	}
	switch r.Intn(8) {
	case 0: // all zero
		return make([]fr.Element, n)
	case 1: // all equal
		x := r.Fr()
		res := make([]fr.Element, n)
		for i := range res {
			res[i] = x
		}
		return res
	case 2:
		return r.FrsUniform(n)
	case 3: // the inputs of an instance are related to each other and to the gates' constants
		res := r.Frs(n)
		N := 1 << bN
		for h := 0; h < N; h++ {
			for i := N + h; i < n; i += N {
				if r.Bool() {
					res[i] = r.FrNear(res[i-N])
				}
			}
		}
		for _, w := range c.Layers[0] {
			if g, ok := w.G.(ref.CipherGate); ok {
				for h := 0; h < N; h++ {
					if r.P(1, 3) {
						res[w.R*N+h] = ref.Sub(r.Fr(), g.Ark)
					}
				}
			}
		}
		return res
	}
	return r.Frs(n)
}

// MimcInputs makes a flat batch for the MiMC circuit; some instances meet 0, 1,
// -1 or another special value as the input of the power of some round.
func MimcInputs(r *kit.Rng, bN int) []fr.Element {
	flat := r.Frs(2 << bN)
	if r.P(1, 6) {
		return make([]fr.Element, len(flat))
	}
	for h := 0; h < 1<<bN; h++ {
		if r.P(1, 4) {
			key := flat[1<<bN+h]
			flat[h] = ref.Add(ref.MimcReach(r.Range(0, 91), r.Fr(), key), key)
		}
	}
	return flat
}
