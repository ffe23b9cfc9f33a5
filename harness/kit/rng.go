// Package kit is the runner shared by every check: deterministic random
// choices, case bookkeeping, crash and stall interpretation, evidence.
package kit

import (
	"hash/fnv"

	"github.com/consensys/gurvy/bn256/fr"
)

// Rng is a splitmix64 generator; every random choice of a check comes from one.
type Rng struct{ s uint64 }

// NewRng seeds a generator from the run's seed and a label.
func NewRng(seed uint64, label string) *Rng {
	h := fnv.New64a()
	h.Write([]byte(label))
	r := &Rng{s: seed*0x9E3779B97F4A7C15 ^ h.Sum64()}
	r.U64()
	return r
}

// U64 returns 64 random bits.
func (r *Rng) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// Intn returns a value in [0,n).
func (r *Rng) Intn(n int) int { return int(r.U64() % uint64(n)) }

// Range returns a value in [a,b].
func (r *Rng) Range(a, b int) int { return a + r.Intn(b-a+1) }

// Bool returns a fair coin.
func (r *Rng) Bool() bool { return r.U64()&1 == 1 }

// P returns true with probability num/den.
func (r *Rng) P(num, den int) bool { return r.Intn(den) < num }

// Pick returns one of the values.
func (r *Rng) Pick(xs ...int) int { return xs[r.Intn(len(xs))] }

// Workers returns a number of goroutines, chunks or cores to ask for: any small
// one, and some around k, the number of pieces there are to share out.
func (r *Rng) Workers(k int) int {
	switch r.Intn(8) {
	case 0:
		return 1
	case 1:
		if k < 1 {
			k = 1
		} else if k > 600 {
			k = 600
		}
		return r.Pick(k, k+1, 2*k, 2*k+1, (k+1)/2)
	case 2:
		return r.Range(17, 70)
	case 3:
		return r.Pick(100, 128, 200, 256)
	}
	return r.Range(1, 16)
}

// Perm returns a permutation of [0,n).
func (r *Rng) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// FrUniform returns a field element that is close to uniform.
func (r *Rng) FrUniform() fr.Element {
	// a + b*2^64 + c*2^128 + d*2^192, all in the field: the bias is irrelevant here
	var res, sh fr.Element
	sh.SetUint64(1 << 32)
	sh.Square(&sh)
	for i := 0; i < 4; i++ {
		var x fr.Element
		x.SetUint64(r.U64())
		res.Mul(&res, &sh)
		res.Add(&res, &x)
	}
	return res
}

// Fr returns a field element, mixing uniform ones with the values where
// arithmetic and zero-skipping code paths differ.
func (r *Rng) Fr() fr.Element {
	var x fr.Element
	switch r.Intn(14) {
	case 0: // zero
	case 1:
		x.SetOne()
	case 2:
		x.SetOne()
		x.Neg(&x)
	case 3:
		x.SetUint64(uint64(r.Intn(5)))
	case 4:
		x.SetUint64(uint64(r.Intn(5) + 1))
		x.Inverse(&x)
	case 5:
		x = r.frShape()
	default:
		x = r.FrUniform()
	}
	return x
}

// frShape returns an element whose representation (not its value) is special,
// or whose value is special beyond 0, 1, -1 and their neighbours.
func (r *Rng) frShape() fr.Element {
	x := r.FrUniform()
	switch r.Intn(8) {
	case 0: // some limbs are zero
		for k := r.Range(1, 3); k > 0; k-- {
			x[r.Intn(4)] = 0
		}
	case 1: // a single limb is not
		y := fr.Element{}
		y[r.Intn(4)] = 1 + r.U64()>>uint(4+r.Intn(60))
		x = y
	case 2: // the value has 32, 63, 64 or 65 bits
		x.SetUint64(1 << uint(r.Pick(16, 31, 32, 62, 63)))
		if r.Bool() {
			x.Double(&x)
		}
		var d fr.Element
		d.SetUint64(uint64(r.Intn(3)))
		x.Sub(&x, &d)
	case 3:
		x.SetUint64(r.U64())
	case 4:
		x.SetUint64(r.U64() >> uint(r.Intn(64)))
		x.Neg(&x)
	case 5: // the middle of the field
		x.SetUint64(2)
		x.Inverse(&x)
		var d fr.Element
		d.SetUint64(uint64(r.Intn(3)))
		x.Sub(&x, &d)
	case 6: // a power of two
		x.SetUint64(2)
		var y fr.Element
		y.SetOne()
		for k := r.Intn(254); k > 0; k-- {
			y.Mul(&y, &x)
		}
		x = y
	case 7: // the greatest representations
		x = fr.Element{0x43e1f593f0000001 - 1 - uint64(r.Intn(3)), 0x2833e84879b97091, 0xb85045b68181585d, 0x30644e72e131a029}
	}
	return x
}

// FrNear returns an element that a partial comparison may take for x: equal in
// some limbs, the negative, a multiple, a neighbour; sometimes x itself.
func (r *Rng) FrNear(x fr.Element) fr.Element {
	y := x
	var one fr.Element
	one.SetOne()
	switch r.Intn(9) {
	case 0, 1, 2: // one limb differs
		i := r.Intn(4)
		y[i] ^= 1 << uint(r.Intn(60))
	case 3, 4, 5: // one limb is the same
		u := r.FrUniform()
		i := r.Intn(4)
		u[i] = x[i]
		y = u
	case 6:
		y.Neg(&y)
	case 7:
		y.Double(&y)
	case 8:
		y.Add(&y, &one)
	}
	if !reduced(y) {
		return x
	}
	return y
}

// reduced tells whether the representation of x is below the modulus.
func reduced(x fr.Element) bool {
	m := [4]uint64{0x43e1f593f0000001, 0x2833e84879b97091, 0xb85045b68181585d, 0x30644e72e131a029}
	for i := 3; i >= 0; i-- {
		if x[i] != m[i] {
			return x[i] < m[i]
		}
	}
	return false
}

// FrNZ returns a non-zero field element.
func (r *Rng) FrNZ() fr.Element {
	for {
		x := r.Fr()
		if !x.IsZero() {
			return x
		}
	}
}

// Frs returns n mixed elements: independent ones, or a list in which many
// elements resemble the one before them or the one half a table before them.
func (r *Rng) Frs(n int) []fr.Element {
	res := make([]fr.Element, n)
	d := 0
	switch r.Intn(8) {
	case 0, 1:
		d = 1
	case 2:
		d = n / 2
	}
	for i := range res {
		if d > 0 && i >= d && r.P(2, 3) {
			res[i] = r.FrNear(res[i-d])
			if r.P(1, 3) {
				res[i] = res[i-d]
			}
		} else {
			res[i] = r.Fr()
		}
	}
	return res
}

// FrsLike returns a list like x in most places.
func (r *Rng) FrsLike(x []fr.Element) []fr.Element {
	res := append([]fr.Element{}, x...)
	if len(x) == 0 {
		return res
	}
	for k := r.Range(0, 2); k > 0; k-- {
		i := r.Intn(len(x))
		res[i] = r.FrNear(x[i])
		if r.Bool() {
			res[i] = r.Fr()
		}
	}
	return res
}

// FrsUniform returns n uniform elements.
func (r *Rng) FrsUniform(n int) []fr.Element {
	res := make([]fr.Element, n)
	for i := range res {
		res[i] = r.FrUniform()
	}
	return res
}

// Arrange copies the parts into one array, in random order and with random gaps, and returns
// them as slices of it (with what lies behind as spare capacity) together with the array.
func (r *Rng) Arrange(parts ...[]fr.Element) ([][]fr.Element, []fr.Element) {
	n := 0
	for _, p := range parts {
		n += len(p) + 3
	}
	all := r.FrsUniform(n + 4)
	res := make([][]fr.Element, len(parts))
	at := r.Intn(3)
	for _, i := range r.Perm(len(parts)) {
		copy(all[at:], parts[i])
		res[i] = all[at : at+len(parts[i])]
		at += len(parts[i]) + r.Pick(0, 0, 1, 2)
	}
	return res, all
}
