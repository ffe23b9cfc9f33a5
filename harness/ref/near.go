package ref

// Near lists values a sloppy comparison or a partial check may take for x:
// equal in some limbs of the representation, up to sign, in another form.
func Near(x F) []F {
	var res []F
	add := func(y F) {
		if y != x && Reduced(y) {
			res = append(res, y)
		}
	}
	for i := range x { // one limb differs, all others differ
		y := x
		y[i] ^= 1
		add(y)
		y = x
		y[i] = 0
		add(y)
		y = x
		for j := range y {
			if j != i {
				y[j] = x[j] ^ 1
			}
		}
		add(y)
	}
	y := x
	y[0], y[1] = x[1], x[0]
	add(y)
	add(Neg(x))
	add(Add(x, x))
	add(Mul(x, Half))
	add(Add(x, One()))
	add(Sub(x, One()))
	add(F{})
	add(One())
	if !x.IsZero() {
		add(Inv(x))
	}
	r := x // the regular form read as a Montgomery one, and the converse
	r.FromMont()
	add(r)
	r = x
	r.ToMont()
	add(r)
	return res
}

// Steer returns flat changed in as few entries as needed so that its weighted
// sums with wl and wr move by dl and dr; pick gives the entries to use (two
// for independent weights). ok is false if these entries cannot do it.
func Steer(flat, wl, wr []F, i, j int, dl, dr F) (res []F, ok bool) {
	// wl_i a + wl_j b = dl, wr_i a + wr_j b = dr
	det := Sub(Mul(wl[i], wr[j]), Mul(wl[j], wr[i]))
	if det.IsZero() {
		return nil, false
	}
	d := Inv(det)
	a := Mul(d, Sub(Mul(dl, wr[j]), Mul(dr, wl[j])))
	b := Mul(d, Sub(Mul(wl[i], dr), Mul(wr[i], dl)))
	res = append([]F{}, flat...)
	res[i] = Add(res[i], a)
	res[j] = Add(res[j], b)
	return res, true
}

// Dot is the weighted sum.
func Dot(a, b []F) F {
	var s F
	for i := range a {
		s = Add(s, Mul(a[i], b[i]))
	}
	return s
}

// Rebalance changes the two last claims of a proof so that the combination of
// the first layer still holds: one becomes v, the other (right or left) is
// solved for. Only the comparison with the inputs can then notice.
func Rebalance(c *Circuit, bN int, p *Proof, qPrime, q []F, solveRight bool, v F) (*Proof, bool) {
	coefs := wireCoefs(c.Layers[len(c.Layers)-1], q)
	for layer := len(c.Layers) - 1; ; layer-- {
		bG := c.BGIn(layer)
		var chal []F
		for _, poly := range p.Polys[layer] {
			chal = append(chal, MimcHash(poly))
		}
		hL, hR, hP := chal[:bG], chal[bG:2*bG], chal[2*bG:]
		if layer > 0 {
			coefs = combCoefs(c.Layers[layer-1], hL, hR, MimcHash([]F{p.CL[layer], p.CR[layer]}))
			qPrime = hP
			continue
		}
		ws, eq := c.Layers[0], EqPoints(qPrime, hP)
		r := p.Clone()
		total := finalEval(ws, coefs, eq, hL, hR, p.CL[0], p.CR[0])
		if solveRight {
			r.CL[0] = v
		} else {
			r.CR[0] = v
		}
		if finalEval(ws, coefs, eq, hL, hR, r.CL[0], r.CR[0]) == total {
			return r, true // the combination does not depend on it
		}
		var ok bool
		r.CL[0], r.CR[0], ok = absorbErr(ws, coefs, eq, hL, hR, r.CL[0], r.CR[0], total, solveRight)
		return r, ok
	}
}
