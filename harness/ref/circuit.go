package ref

import "fmt"

// Gate is the specification of a gate.
type Gate interface {
	Key() string // equal keys mean equal functions
	Eval(l, r F) F
	// Deg are the degrees in the left value, the right value, and both together.
	Deg() (dl, dr, dt int)
	// LinL: the gate is a(r)*l + b(r); LinR likewise in r.
	LinL() bool
	LinR() bool
}

type addGate struct{}
type mulGate struct{}
type copyGate struct{}

// CipherGate is l + (r+Ark)^7.
type CipherGate struct{ Ark F }

// PolyGate is sum C[i][j] l^i r^j. It reports its degrees, which are bounds, with Slack added.
type PolyGate struct {
	C     [][]F
	Slack [3]int
}

// Add, Mul and Copy specifications.
var (
	AddG  Gate = addGate{}
	MulG  Gate = mulGate{}
	CopyG Gate = copyGate{}
)

func (addGate) Key() string           { return "add" }
func (addGate) Eval(l, r F) F         { return Add(l, r) }
func (addGate) Deg() (int, int, int)  { return 1, 1, 1 }
func (addGate) LinL() bool            { return true }
func (addGate) LinR() bool            { return true }
func (mulGate) Key() string           { return "mul" }
func (mulGate) Eval(l, r F) F         { return Mul(l, r) }
func (mulGate) Deg() (int, int, int)  { return 1, 1, 2 }
func (mulGate) LinL() bool            { return true }
func (mulGate) LinR() bool            { return true }
func (copyGate) Key() string          { return "copy" }
func (copyGate) Eval(l, r F) F        { return l }
func (copyGate) Deg() (int, int, int) { return 1, 0, 1 }
func (copyGate) LinL() bool           { return true }
func (copyGate) LinR() bool           { return true }

// Key of the cipher gate.
func (c CipherGate) Key() string { return "cipher-" + Str(c.Ark) }

// Eval of the cipher gate.
func (c CipherGate) Eval(l, r F) F { return Add(l, pow7(Add(r, c.Ark))) }

// Deg of the cipher gate.
func (c CipherGate) Deg() (int, int, int) { return 1, 7, 7 }

// LinL of the cipher gate.
func (c CipherGate) LinL() bool { return true }

// LinR of the cipher gate.
func (c CipherGate) LinR() bool { return false }

// Key of the polynomial gate.
func (p PolyGate) Key() string {
	s := "poly"
	for i := range p.C {
		for j := range p.C[i] {
			s += "," + Str(p.C[i][j])
		}
		s += ";"
	}
	if p.Slack != [3]int{} {
		s += fmt.Sprint(p.Slack)
	}
	return s
}

// Eval of the polynomial gate.
func (p PolyGate) Eval(l, r F) F {
	var res F
	for i := range p.C {
		for j := range p.C[i] {
			res = Add(res, Mul(p.C[i][j], Mul(Pow(l, i), Pow(r, j))))
		}
	}
	return res
}

// Deg is what the polynomial gate reports.
func (p PolyGate) Deg() (dl, dr, dt int) {
	dl, dr, dt = p.trueDeg()
	return dl + p.Slack[0], dr + p.Slack[1], dt + p.Slack[2]
}

func (p PolyGate) trueDeg() (dl, dr, dt int) {
	for i := range p.C {
		for j := range p.C[i] {
			if !p.C[i][j].IsZero() {
				if i > dl {
					dl = i
				}
				if j > dr {
					dr = j
				}
				if i+j > dt {
					dt = i + j
				}
			}
		}
	}
	return
}

// LinL of the polynomial gate.
func (p PolyGate) LinL() bool { d, _, _ := p.trueDeg(); return d <= 1 }

// LinR of the polynomial gate.
func (p PolyGate) LinR() bool { _, d, _ := p.trueDeg(); return d <= 1 }

// Wire is a wire.
type Wire struct {
	L, R, O int
	G       Gate
}

// Circuit is a list of layers; layer 0 reads the inputs.
type Circuit struct{ Layers [][]Wire }

func log2ceil(n int) int {
	r := 0
	for 1<<r < n {
		r++
	}
	return r
}

// Log2 is the smallest k with 2^k >= n.
func Log2(n int) int { return log2ceil(n) }

// BGIn is the log width of the layer's input.
func (c *Circuit) BGIn(layer int) int {
	m := 0
	for _, w := range c.Layers[layer] {
		if w.L > m {
			m = w.L
		}
		if w.R > m {
			m = w.R
		}
	}
	return log2ceil(m + 1)
}

// BGOut is the log width of the layer's output.
func (c *Circuit) BGOut(layer int) int {
	m := 0
	for _, w := range c.Layers[layer] {
		if w.O > m {
			m = w.O
		}
	}
	return log2ceil(m + 1)
}

// Gates lists the distinct gates of the layer.
func (c *Circuit) Gates(layer int) []Gate {
	var res []Gate
	seen := map[string]bool{}
	for _, w := range c.Layers[layer] {
		if !seen[w.G.Key()] {
			seen[w.G.Key()] = true
			res = append(res, w.G)
		}
	}
	return res
}

// Degs are the largest degrees over the layer's gates.
func (c *Circuit) Degs(layer int) (dl, dr, dt int) {
	for _, g := range c.Gates(layer) {
		a, b, d := g.Deg()
		if a > dl {
			dl = a
		}
		if b > dr {
			dr = b
		}
		if d > dt {
			dt = d
		}
	}
	return
}

// Evaluate returns all layers' values, flat: index wire*2^bN + instance.
func (c *Circuit) Evaluate(inputs []F, bN int) [][]F {
	N := 1 << bN
	vals := [][]F{inputs}
	for l := range c.Layers {
		in := vals[l]
		out := make([]F, N<<c.BGOut(l))
		for _, w := range c.Layers[l] {
			for h := 0; h < N; h++ {
				out[w.O*N+h] = Add(out[w.O*N+h], w.G.Eval(in[w.L*N+h], in[w.R*N+h]))
			}
		}
		vals = append(vals, out)
	}
	return vals
}
