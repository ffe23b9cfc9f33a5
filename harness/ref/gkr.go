package ref

import "fmt"

// Proof mirrors a GKR proof.
type Proof struct {
	Polys  [][][]F // [layer][round][coefficient]
	CL, CR []F
}

// Clone copies a proof.
func (p *Proof) Clone() *Proof {
	q := &Proof{CL: append([]F{}, p.CL...), CR: append([]F{}, p.CR...)}
	for l := range p.Polys {
		var r [][]F
		for i := range p.Polys[l] {
			r = append(r, append([]F{}, p.Polys[l][i]...))
		}
		q.Polys = append(q.Polys, r)
	}
	return q
}

// coefs returns for every wire of the layer its weight from the output side.
func wireCoefs(ws []Wire, q []F) []F {
	t := EqTable(q)
	r := make([]F, len(ws))
	for i, w := range ws {
		r[i] = t[w.O]
	}
	return r
}

func combCoefs(ws []Wire, qL, qR []F, lambda F) []F {
	a, b := wireCoefs(ws, qL), wireCoefs(ws, qR)
	for i := range a {
		a[i] = Add(a[i], Mul(lambda, b[i]))
	}
	return a
}

// finalEval is eq * sum_w coef_w chi_L chi_R g_w(cL,cR).
func finalEval(ws []Wire, coefs []F, eq F, hL, hR []F, cL, cR F) F {
	tl, tr := EqTable(hL), EqTable(hR)
	var s F
	for i, w := range ws {
		s = Add(s, Mul(Mul(coefs[i], Mul(tl[w.L], tr[w.R])), w.G.Eval(cL, cR)))
	}
	return Mul(s, eq)
}

// Drop says where a forger stops carrying the error of a false output.
type Drop struct {
	Layer int
	Kind  string // "round", "combine", "inputL", "inputR", "none" (honest)
	Round int
}

func (d Drop) String() string { return fmt.Sprintf("%s@layer%d/round%d", d.Kind, d.Layer, d.Round) }

// Checkpoints lists the verifier's checks for the circuit.
func Checkpoints(c *Circuit, bN int) []Drop {
	var res []Drop
	for l := range c.Layers {
		for r := 0; r < bN+2*c.BGIn(l); r++ {
			res = append(res, Drop{l, "round", r})
		}
		res = append(res, Drop{l, "combine", 0})
	}
	return append(res, Drop{0, "inputL", 0}, Drop{0, "inputR", 0})
}

// Prove builds a proof. values are the true layer values. err is the error of
// the claimed output evaluation (false claim minus true claim); it is carried
// until drop. absorbR chooses, per layer, to put the error in the right claim.
// ok is false if the error cannot be carried as asked.
func Prove(c *Circuit, bN int, values [][]F, qPrime, q []F, err F, drop Drop, absorbR func(layer int) bool) (pr *Proof, ok bool) {
	return ProvePadded(c, bN, values, qPrime, q, err, drop, absorbR, nil)
}

// ProvePadded additionally appends pad(layer, round) zero coefficients to the
// round polynomials, consistently: nothing but their length is unusual.
func ProvePadded(c *Circuit, bN int, values [][]F, qPrime, q []F, err F, drop Drop, absorbR func(layer int) bool, pad func(layer, round int) int) (pr *Proof, ok bool) {
	nL := len(c.Layers)
	pr = &Proof{Polys: make([][][]F, nL), CL: make([]F, nL), CR: make([]F, nL)}
	coefs := wireCoefs(c.Layers[nL-1], q)
	N := 1 << bN
	for layer := nL - 1; layer >= 0; layer-- {
		ws := c.Layers[layer]
		bG := c.BGIn(layer)
		dl, dr, dt := c.Degs(layer)
		vL, vR := values[layer], values[layer]
		eq := EqTable(qPrime)
		var hL, hR, hP []F
		wt := append([]F{}, coefs...) // weight of each wire, including fixed hL, hR coordinates
		for r := 0; r < 2*bG+bN; r++ {
			var nEv int
			switch {
			case r < bG:
				nEv = dl + 2
			case r < 2*bG:
				nEv = dr + 2
			default:
				nEv = dt + 2
			}
			ev := make([]F, nEv)
			for t := range ev {
				x := U(uint64(t))
				var sum F
				switch {
				case r < bG:
					fv := FixFirst(vL, x)
					sz := bG - 1 - r // bits of L left after this one
					for i, w := range ws {
						bit := (w.L >> sz) & 1
						suf := w.L & (1<<sz - 1)
						c := Mul(wt[i], EqBit(x, bit))
						if c.IsZero() {
							continue
						}
						var s F
						for h := 0; h < N; h++ {
							s = Add(s, Mul(eq[h], w.G.Eval(fv[suf*N+h], vR[w.R*N+h])))
						}
						sum = Add(sum, Mul(c, s))
					}
				case r < 2*bG:
					fv := FixFirst(vR, x)
					sz := 2*bG - 1 - r
					for i, w := range ws {
						bit := (w.R >> sz) & 1
						suf := w.R & (1<<sz - 1)
						c := Mul(wt[i], EqBit(x, bit))
						if c.IsZero() {
							continue
						}
						var s F
						for h := 0; h < N; h++ {
							s = Add(s, Mul(eq[h], w.G.Eval(vL[h], fv[suf*N+h])))
						}
						sum = Add(sum, Mul(c, s))
					}
				default:
					fl, frr, fe := FixFirst(vL, x), FixFirst(vR, x), FixFirst(eq, x)
					for i, w := range ws {
						var s F
						for h := range fe {
							s = Add(s, Mul(fe[h], w.G.Eval(fl[h], frr[h])))
						}
						sum = Add(sum, Mul(wt[i], s))
					}
				}
				ev[t] = sum
			}
			poly := Interp(ev)
			if !err.IsZero() {
				if drop.Kind == "round" && drop.Layer == layer && drop.Round == r {
					err = F{}
				} else {
					err = Mul(err, Half)
					poly[0] = Add(poly[0], err)
				}
			}
			if pad != nil {
				poly = append(poly, make([]F, pad(layer, r))...)
			}
			pr.Polys[layer] = append(pr.Polys[layer], poly)
			x := MimcHash(poly)
			switch {
			case r < bG:
				sz := bG - 1 - r
				vL = FixFirst(vL, x)
				for i, w := range ws {
					wt[i] = Mul(wt[i], EqBit(x, (w.L>>sz)&1))
				}
				hL = append(hL, x)
			case r < 2*bG:
				sz := 2*bG - 1 - r
				vR = FixFirst(vR, x)
				for i, w := range ws {
					wt[i] = Mul(wt[i], EqBit(x, (w.R>>sz)&1))
				}
				hR = append(hR, x)
			default:
				vL, vR, eq = FixFirst(vL, x), FixFirst(vR, x), FixFirst(eq, x)
				hP = append(hP, x)
			}
		}
		cL, cR := vL[0], vR[0]
		if !err.IsZero() {
			if drop.Kind == "combine" && drop.Layer == layer {
				err = F{}
			} else {
				total := Add(finalEval(ws, coefs, eq[0], hL, hR, cL, cR), err)
				right := false
				if drop.Kind == "inputL" || drop.Kind == "inputR" {
					right = layer == 0 && drop.Kind == "inputR"
				} else if absorbR != nil {
					right = absorbR(layer)
				}
				nl, nr, good := absorbErr(ws, coefs, eq[0], hL, hR, cL, cR, total, right)
				if !good && !(layer == 0 && (drop.Kind == "inputL" || drop.Kind == "inputR")) {
					nl, nr, good = absorbErr(ws, coefs, eq[0], hL, hR, cL, cR, total, !right)
				}
				if !good {
					return nil, false
				}
				dL, dR := Sub(nl, cL), Sub(nr, cR)
				cL, cR = nl, nr
				if layer > 0 {
					lam := MimcHash([]F{cL, cR})
					err = Add(dL, Mul(lam, dR))
				} else {
					err = F{}
				}
			}
		}
		pr.CL[layer], pr.CR[layer] = cL, cR
		if layer > 0 {
			lam := MimcHash([]F{cL, cR})
			qPrime = hP
			coefs = combCoefs(c.Layers[layer-1], hL, hR, lam)
		}
	}
	return pr, true
}

// absorbErr changes one claim so that the combination equals total.
func absorbErr(ws []Wire, coefs []F, eq F, hL, hR []F, cL, cR, total F, right bool) (F, F, bool) {
	f := func(a, b F) F { return finalEval(ws, coefs, eq, hL, hR, a, b) }
	lin := true
	for _, w := range ws {
		if right && !w.G.LinR() || !right && !w.G.LinL() {
			lin = false
		}
	}
	if lin {
		var f0, f1 F
		if right {
			f0, f1 = f(cL, F{}), f(cL, One())
		} else {
			f0, f1 = f(F{}, cR), f(One(), cR)
		}
		slope := Sub(f1, f0)
		if slope.IsZero() {
			return cL, cR, false
		}
		x := Mul(Sub(total, f0), Inv(slope))
		if right {
			cR = x
		} else {
			cL = x
		}
	} else if right {
		// one cipher gate, all other gates independent of the right value
		var ark F
		n := 0
		for _, w := range ws {
			if cg, isC := w.G.(CipherGate); isC {
				if n > 0 && cg.Ark != ark {
					return cL, cR, false
				}
				ark = cg.Ark
				n++
			} else if _, dr, _ := w.G.Deg(); dr != 0 {
				return cL, cR, false
			}
		}
		// f(cL, x-ark) = a + b*x^7
		a := f(cL, Neg(ark))
		b := Sub(f(cL, Sub(One(), ark)), a)
		if b.IsZero() {
			return cL, cR, false
		}
		cR = Sub(Root7(Mul(Sub(total, a), Inv(b))), ark)
	} else {
		return cL, cR, false
	}
	return cL, cR, f(cL, cR) == total
}

// Verify evaluates every check of the verifier and lists the failing ones.
func Verify(c *Circuit, bN int, p *Proof, inputs, outputs []F, qPrime, q []F) (failed []Drop, shape string) {
	nL := len(c.Layers)
	if len(p.Polys) != nL || len(p.CL) != nL || len(p.CR) != nL {
		return nil, "layers"
	}
	claim := MLE(outputs, append(append([]F{}, q...), qPrime...))
	coefs := wireCoefs(c.Layers[nL-1], q)
	var hL, hR, hP []F
	for layer := nL - 1; layer >= 0; layer-- {
		bG := c.BGIn(layer)
		dl, dr, dt := c.Degs(layer)
		ps := p.Polys[layer]
		if len(ps) != bN+2*bG {
			return nil, "rounds"
		}
		run := claim
		var chal []F
		for r, poly := range ps {
			lim := dt + 2
			if r < bG {
				lim = dl + 2
			} else if r < 2*bG {
				lim = dr + 2
			}
			if len(poly) == 0 || len(poly) > lim {
				return nil, "poly"
			}
			if Add(PolyEval(poly, F{}), PolyEval(poly, One())) != run {
				failed = append(failed, Drop{layer, "round", r})
			}
			x := MimcHash(poly)
			chal = append(chal, x)
			run = PolyEval(poly, x)
		}
		hL, hR, hP = chal[:bG], chal[bG:2*bG], chal[2*bG:]
		if run != finalEval(c.Layers[layer], coefs, EqPoints(qPrime, hP), hL, hR, p.CL[layer], p.CR[layer]) {
			failed = append(failed, Drop{layer, "combine", 0})
		}
		qPrime = hP
		if layer > 0 {
			lam := MimcHash([]F{p.CL[layer], p.CR[layer]})
			claim = Add(p.CL[layer], Mul(lam, p.CR[layer]))
			coefs = combCoefs(c.Layers[layer-1], hL, hR, lam)
		}
	}
	if MLE(inputs, append(append([]F{}, hL...), hP...)) != p.CL[0] {
		failed = append(failed, Drop{0, "inputL", 0})
	}
	if MLE(inputs, append(append([]F{}, hR...), hP...)) != p.CR[0] {
		failed = append(failed, Drop{0, "inputR", 0})
	}
	return failed, ""
}

// FinalPoints returns the last layer's challenge points of a proof.
func FinalPoints(c *Circuit, bN int, p *Proof) (hL, hR, hP []F) {
	bG := c.BGIn(0)
	var chal []F
	for _, poly := range p.Polys[0] {
		chal = append(chal, MimcHash(poly))
	}
	return chal[:bG], chal[bG : 2*bG], chal[2*bG:]
}

// ZeroForgery returns a proof for all-zero outputs in which every round
// polynomial and every claim is zero (of the lengths of shape), except the last
// claims, which are the evaluations of the inputs at the final points.  In
// circuits whose gates vanish at (0, 0) only the combination of the first layer
// can fail.
func ZeroForgery(c *Circuit, bN int, shape *Proof, inputs []F) *Proof {
	p := shape.Clone()
	for l := range p.Polys {
		p.CL[l], p.CR[l] = F{}, F{}
		for i := range p.Polys[l] {
			for j := range p.Polys[l][i] {
				p.Polys[l][i][j] = F{}
			}
		}
	}
	hL, hR, hP := FinalPoints(c, bN, p)
	p.CL[0] = MLE(inputs, append(append([]F{}, hL...), hP...))
	p.CR[0] = MLE(inputs, append(append([]F{}, hR...), hP...))
	return p
}
