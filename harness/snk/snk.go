// Package snk compiles small gnark circuits around the repository's gadgets
// and decides whether assignments satisfy them.
package snk

import (
	"fmt"
	"os"
	"strings"
	"sync"

	"verif/kit"

	"github.com/consensys/gnark/backend/r1cs"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gurvy"
	"github.com/consensys/gurvy/bn256/fr"
)

// Func is a gadget: it computes outputs from inputs.
type Func func(cs *frontend.ConstraintSystem, in []frontend.Variable) []frontend.Variable

// Gadget asserts that Out is f(In).
type Gadget struct {
	In  []frontend.Variable
	Out []frontend.Variable `gnark:",public"`
	F   Func                `gnark:"-"`
}

// Define implements frontend.Circuit.
func (g *Gadget) Define(_ gurvy.ID, cs *frontend.ConstraintSystem) error {
	out := g.F(cs, append([]frontend.Variable{}, g.In...))
	if len(out) != len(g.Out) {
		panic(fmt.Sprintf("the gadget returned %d values instead of %d", len(out), len(g.Out)))
	}
	for i := range out {
		cs.AssertIsEqual(out[i], g.Out[i])
	}
	return nil
}

// System is a compiled constraint system.
type System struct {
	R1      r1cs.R1CS
	nIn     int
	nOut    int
	witness func() frontend.Circuit
}

var quietMu sync.Mutex

// Quiet keeps gnark's warnings off the log.
func Quiet(f func()) {
	quietMu.Lock()
	defer quietMu.Unlock()
	old := os.Stdout
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null
		defer func() { os.Stdout = old; null.Close() }()
	}
	f()
}

// Compile compiles the gadget.
func Compile(nIn, nOut int, f Func) (*System, error) {
	var s *System
	var err error
	Quiet(func() {
		c := &Gadget{In: make([]frontend.Variable, nIn), Out: make([]frontend.Variable, nOut), F: f}
		var r r1cs.R1CS
		r, err = frontend.Compile(gurvy.BN256, c)
		s = &System{R1: r, nIn: nIn, nOut: nOut}
	})
	return s, err
}

// Solved tells whether (in, out) satisfies the system; why explains a refusal.
func (s *System) Solved(in, out []fr.Element) (ok bool, why string) {
	w := &Gadget{In: make([]frontend.Variable, s.nIn), Out: make([]frontend.Variable, s.nOut)}
	for i := range in {
		w.In[i].Assign(in[i])
	}
	for i := range out {
		w.Out[i].Assign(out[i])
	}
	return SolvedWitness(s.R1, w)
}

// SolvedWitness decides a witness given as a circuit.
func SolvedWitness(r r1cs.R1CS, w frontend.Circuit) (ok bool, why string) {
	Quiet(func() {
		m, panicked := kit.Panics(func() {
			a, err := frontend.ParseWitness(w)
			if err == nil {
				err = r.IsSolved(a)
			}
			if err == nil {
				ok = true
			} else {
				why = err.Error()
			}
		})
		if panicked {
			ok, why = false, "panic: "+m
		}
	})
	if len(why) > 300 {
		why = why[:300]
	}
	return ok, strings.ReplaceAll(why, "\n", " ")
}

// CompileCircuit compiles any circuit.
func CompileCircuit(c frontend.Circuit) (r r1cs.R1CS, err error) {
	Quiet(func() { r, err = frontend.Compile(gurvy.BN256, c) })
	return
}
