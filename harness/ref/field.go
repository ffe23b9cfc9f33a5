// Package ref is an independent reference for the protocol: multilinear
// extensions by their defining sum, hashes over pinned constants, gate by gate
// circuit evaluation, and a sparse GKR prover, forger and verifier. It shares
// only the field arithmetic (gurvy) with the code under test.
package ref

import (
	"math/big"

	"github.com/consensys/gurvy/bn256/fr"
)

// F abbreviates a field element.
type F = fr.Element

// One is 1.
func One() F { var x F; x.SetOne(); return x }

// U is a small constant.
func U(v uint64) F { var x F; x.SetUint64(v); return x }

// Add, Sub, Mul, Neg, Inv are value versions of the field operations.
func Add(a, b F) F { var r F; r.Add(&a, &b); return r }

// Sub returns a-b.
func Sub(a, b F) F { var r F; r.Sub(&a, &b); return r }

// Mul returns a*b.
func Mul(a, b F) F { var r F; r.Mul(&a, &b); return r }

// Neg returns -a.
func Neg(a F) F { var r F; r.Neg(&a); return r }

// Inv returns 1/a.
func Inv(a F) F { var r F; r.Inverse(&a); return r }

// Pow returns a^e.
func Pow(a F, e int) F {
	r := One()
	for i := 0; i < e; i++ {
		r = Mul(r, a)
	}
	return r
}

// Half is 1/2.
var Half = Inv(U(2))

// modulus of the field, from the pinned decimal.
var modulus, _ = new(big.Int).SetString("21888242871839275222246405745257275088548364400416034343698204186575808495617", 10)

// Root7 returns the unique 7th root (7 does not divide r-1).
func Root7(a F) F {
	m1 := new(big.Int).Sub(modulus, big.NewInt(1))
	e := new(big.Int).ModInverse(big.NewInt(7), m1)
	r := One()
	for i := e.BitLen() - 1; i >= 0; i-- {
		r = Mul(r, r)
		if e.Bit(i) == 1 {
			r = Mul(r, a)
		}
	}
	return r
}

// EqBit is eq(x, bit).
func EqBit(x F, bit int) F {
	if bit == 1 {
		return x
	}
	return Sub(One(), x)
}

// EqIdx is eq(point, bits of idx), the first coordinate being the most significant bit.
func EqIdx(point []F, idx int) F {
	n := len(point)
	r := One()
	for i := range point {
		r = Mul(r, EqBit(point[i], (idx>>(n-1-i))&1))
	}
	return r
}

// EqPoints is prod (x_i y_i + (1-x_i)(1-y_i)).
func EqPoints(x, y []F) F {
	r := One()
	for i := range x {
		a := Mul(x[i], y[i])
		b := Mul(Sub(One(), x[i]), Sub(One(), y[i]))
		r = Mul(r, Add(a, b))
	}
	return r
}

// EqTable lists eq(point, b) for all b.
func EqTable(point []F) []F {
	cur := []F{One()}
	for _, x := range point {
		nxt := make([]F, 2*len(cur))
		for i, c := range cur {
			nxt[2*i+1] = Mul(c, x)
			nxt[2*i] = Sub(c, nxt[2*i+1])
		}
		cur = nxt
	}
	return cur
}

// MLE is the multilinear extension of values at point.
func MLE(values []F, point []F) F {
	if len(values) != 1<<len(point) {
		panic("harness: MLE size mismatch")
	}
	var r F
	for i, w := range EqTable(point) {
		r = Add(r, Mul(w, values[i]))
	}
	return r
}

// FixFirst fixes the first variable of the table to x (fresh table).
func FixFirst(t []F, x F) []F {
	m := len(t) / 2
	r := make([]F, m)
	for i := range r {
		r[i] = Add(Mul(Sub(One(), x), t[i]), Mul(x, t[i+m]))
	}
	return r
}

// PolyEval is the power sum of coefficients.
func PolyEval(c []F, x F) F {
	var r F
	p := One()
	for i := range c {
		r = Add(r, Mul(c[i], p))
		p = Mul(p, x)
	}
	return r
}

// Interp returns the coefficients of the polynomial of degree < len(v) with
// values v at 0,1,2,... (Newton's divided differences, expanded).
func Interp(v []F) []F {
	n := len(v)
	dd := append([]F{}, v...)
	for k := 1; k < n; k++ {
		for i := n - 1; i >= k; i-- {
			dd[i] = Mul(Sub(dd[i], dd[i-1]), Inv(U(uint64(k))))
		}
	}
	res := make([]F, n)
	basis := make([]F, n+1)
	basis[0] = One()
	for k := 0; k < n; k++ {
		for j := 0; j <= k; j++ {
			res[j] = Add(res[j], Mul(dd[k], basis[j]))
		}
		// basis *= (x-k)
		nb := make([]F, n+1)
		for j := 0; j <= k; j++ {
			nb[j+1] = Add(nb[j+1], basis[j])
			nb[j] = Sub(nb[j], Mul(U(uint64(k)), basis[j]))
		}
		basis = nb
	}
	return res
}

// Flatten de-interleaves chunks: flat[i*nChunks+c] = chunks[c][i].
func Flatten(chunks [][]F) []F {
	n := len(chunks)
	r := make([]F, n*len(chunks[0]))
	for c := range chunks {
		for i := range chunks[c] {
			r[i*n+c] = chunks[c][i]
		}
	}
	return r
}

// Split interleaves a flat table into n chunks.
func Split(flat []F, n int) [][]F {
	r := make([][]F, n)
	for c := range r {
		r[c] = make([]F, len(flat)/n)
		for i := range r[c] {
			r[c][i] = flat[i*n+c]
		}
	}
	return r
}

// Reduced tells whether the limbs of x are below the modulus.
func Reduced(x F) bool {
	v := new(big.Int)
	for i := len(x) - 1; i >= 0; i-- {
		v.Lsh(v, 64).Or(v, new(big.Int).SetUint64(x[i]))
	}
	return v.Cmp(modulus) < 0
}
