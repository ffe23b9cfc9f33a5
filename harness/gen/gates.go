// Package gen makes random well-formed circuits, batches and tables, and
// translates between the reference's objects and the repository's.
package gen

import (
	"gkr-mimc/circuit"

	"verif/kit"
	"verif/ref"

	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gurvy/bn256/fr"
)

// UserGate is a gate defined outside the repository, as a user would: it
// computes a bivariate polynomial of the two values.
type UserGate struct {
	P  ref.PolyGate
	dl int
	dr int
	dt int
	id string
	// Hook, when set, is called on every evaluation (monitoring).
	Hook func(calls int)
}

// NewUserGate wraps a polynomial.
func NewUserGate(p ref.PolyGate) *UserGate {
	g := &UserGate{P: p, id: "user-" + p.Key()}
	g.dl, g.dr, g.dt = p.Deg()
	return g
}

// ID identifies the gate.
func (g *UserGate) ID() string { return g.id }

// GnarkEval is the in-circuit evaluation.
func (g *UserGate) GnarkEval(cs *frontend.ConstraintSystem, vL, vR frontend.Variable) frontend.Variable {
	res := cs.Constant(0)
	pl := cs.Constant(1)
	for i := range g.P.C {
		pr := pl
		for j := range g.P.C[i] {
			res = cs.Add(res, cs.Mul(pr, cs.Constant(g.P.C[i][j])))
			pr = cs.Mul(pr, vR)
		}
		pl = cs.Mul(pl, vL)
	}
	return res
}

// Eval evaluates the gate.
func (g *UserGate) Eval(res, vL, vR *fr.Element) {
	if g.Hook != nil {
		g.Hook(1)
	}
	*res = g.P.Eval(*vL, *vR)
}

// EvalManyVL evaluates many left values.
func (g *UserGate) EvalManyVL(res, vLs []fr.Element, vR *fr.Element) {
	if g.Hook != nil {
		g.Hook(len(vLs))
	}
	for i := range vLs {
		res[i] = g.P.Eval(vLs[i], *vR)
	}
}

// EvalManyVR evaluates many right values.
func (g *UserGate) EvalManyVR(res []fr.Element, vL *fr.Element, vRs []fr.Element) {
	if g.Hook != nil {
		g.Hook(len(vRs))
	}
	for i := range vRs {
		res[i] = g.P.Eval(*vL, vRs[i])
	}
}

// Degrees are the true degrees.
func (g *UserGate) Degrees() (int, int, int) { return g.dl, g.dr, g.dt }

// Gate returns the repository's (or a user's) gate for a specification.
func Gate(g ref.Gate) circuit.Gate {
	switch x := g.(type) {
	case ref.CipherGate:
		return circuit.NewCipherGate(x.Ark)
	case ref.PolyGate:
		return NewUserGate(x)
	}
	switch g {
	case ref.AddG:
		return circuit.AddGate{}
	case ref.MulG:
		return circuit.MulGate{}
	case ref.CopyG:
		return circuit.CopyGate{}
	}
	panic("harness: unknown gate")
}

// Poly makes a random polynomial gate with total degree at most d.
func Poly(r *kit.Rng, d int) ref.PolyGate {
	dl := r.Range(0, d)
	c := make([][]fr.Element, dl+1)
	for i := range c {
		c[i] = make([]fr.Element, d-i+1)
		for j := range c[i] {
			if r.P(1, 3) {
				c[i][j] = r.Fr()
			}
		}
	}
	// make the total degree exactly d on one monomial
	i := r.Range(0, dl)
	if d > 0 || r.P(3, 4) { // or the zero gate
		c[i][d-i] = r.FrNZ()
	}
	return ref.PolyGate{C: c}
}

// GateKind selects which gates a circuit may use.
type GateKind int

// Gate families.
const (
	Builtin  GateKind = iota // add, mul, copy, cipher
	WithUser                 // also user gates up to degree 10
	Linear                   // only gates linear in the left value (forgeable)
)

// RandGate picks a gate.
func RandGate(r *kit.Rng, k GateKind) ref.Gate {
	n := 8
	if k == WithUser {
		n = 11
	}
	switch r.Intn(n) {
	case 0, 1:
		return ref.AddG
	case 2, 3:
		return ref.MulG
	case 4, 5:
		return ref.CopyG
	case 6:
		return ref.CipherGate{Ark: r.Fr()}
	case 7:
		return ref.CipherGate{Ark: r.FrUniform()}
	case 8:
		p := Poly(r, r.Range(0, 4))
		if r.P(1, 4) { // degrees are bounds
			for i := range p.Slack {
				p.Slack[i] = r.Range(0, 3)
			}
		}
		return p
	case 9:
		return Poly(r, r.Range(1, 10))
	default:
		return Poly(r, 10)
	}
}
