package ref

func pow7(x F) F {
	x2 := Mul(x, x)
	x4 := Mul(x2, x2)
	return Mul(Mul(x4, x2), x)
}

// MimcPerm is the keyed 91-round permutation.
func MimcPerm(state, key F) F {
	for i := 0; i < 91; i++ {
		state = pow7(Add(Add(state, key), Arks[i]))
	}
	return state
}

// MimcHash is MiMC in Miyaguchi-Preneel mode.
func MimcHash(msg []F) F {
	var h F
	for _, m := range msg {
		h = Add(Add(MimcPerm(h, m), h), m)
	}
	return h
}

func absorb(t int, msg []F, perm func(state, key []F) []F) F {
	state := make([]F, t)
	for i := 0; i < len(msg); i += t {
		block := make([]F, t)
		for j := 0; j < t && i+j < len(msg); j++ {
			block[j] = msg[i+j]
		}
		out := perm(append([]F{}, state...), block)
		for j := range state {
			state[j] = Add(Add(out[j], state[j]), block[j])
		}
	}
	return state[0]
}

// GMimcUpdate is one compression of a t-element state.
func GMimcUpdate(state, block []F) []F {
	out := gmimcPerm(append([]F{}, state...), block)
	for j := range out {
		out[j] = Add(Add(out[j], state[j]), block[j])
	}
	return out
}

func gmimcPerm(s, key []F) []F {
	t := len(s)
	for r := 0; r < 91; r++ {
		for j := range s {
			s[j] = Add(Add(s[j], key[j]), Arks[r])
		}
		s[0] = pow7(s[0])
		s = append(append(make([]F, 0, t), s[1:]...), s[0])
	}
	return s
}

// GMimcHash hashes with state size t.
func GMimcHash(t int, msg []F) F { return absorb(t, msg, gmimcPerm) }

func poseidonPerm(s, key []F) []F {
	t := len(s)
	partial := map[int]int{2: 82, 4: 83, 8: 84}[t]
	m := make([][]F, t)
	for i := range m {
		m[i] = make([]F, t)
		for j := range m[i] {
			m[i][j] = Inv(Add(CauchyX[i], CauchyY[j]))
		}
	}
	total := 8 + partial + 8
	for r := 0; r < total; r++ {
		for j := range s {
			s[j] = Add(Add(s[j], key[j]), Arks[r])
		}
		s[0] = pow7(s[0])
		if r < 8 || r >= 8+partial {
			for j := 1; j < t; j++ {
				s[j] = pow7(s[j])
			}
		}
		n := make([]F, t)
		for i := range n {
			for j := range s {
				n[i] = Add(n[i], Mul(m[i][j], s[j]))
			}
		}
		s = n
	}
	return s
}

// PoseidonHash hashes with state size t.
func PoseidonHash(t int, msg []F) F { return absorb(t, msg, poseidonPerm) }

// PoseidonUpdate is one compression.
func PoseidonUpdate(state, block []F) []F {
	out := poseidonPerm(append([]F{}, state...), block)
	for j := range out {
		out[j] = Add(Add(out[j], state[j]), block[j])
	}
	return out
}

// MimcReach is the state whose permutation under key takes the value x as the
// input of round r's power (r = 91: as the result).
func MimcReach(r int, x, key F) F {
	for ; r > 0; r-- {
		if r < 91 {
			x = Sub(Sub(x, key), Arks[r])
		}
		x = Root7(x)
	}
	return Sub(Sub(x, key), Arks[0])
}

// LanesReach is the state of GMiMC (or Poseidon) that is, under key, s when the
// powers of round r are taken (r = number of rounds: s is the result).
func LanesReach(poseidon bool, r int, s, key []F) []F {
	t := len(s)
	s = append([]F{}, s...)
	partial := map[int]int{2: 82, 4: 83, 8: 84}[t]
	var inv [][]F
	if poseidon {
		inv = cauchyInverse(t)
	}
	total := 91
	if poseidon {
		total = 16 + partial
	}
	for ; ; r-- {
		for j := range s {
			if r < total {
				s[j] = Sub(Sub(s[j], key[j]), Arks[r])
			}
		}
		if r == 0 {
			return s
		}
		n := make([]F, t)
		if poseidon {
			for i := range n {
				for j := range s {
					n[i] = Add(n[i], Mul(inv[i][j], s[j]))
				}
			}
			n[0] = Root7(n[0])
			if r-1 < 8 || r-1 >= 8+partial {
				for j := 1; j < t; j++ {
					n[j] = Root7(n[j])
				}
			}
		} else {
			n[0] = Root7(s[t-1])
			copy(n[1:], s)
		}
		s = n
	}
}

var inverses = map[int][][]F{}

func init() {
	for _, t := range []int{2, 4, 8} {
		// Gauss-Jordan
		a := make([][]F, t)
		for i := range a {
			a[i] = make([]F, 2*t)
			for j := 0; j < t; j++ {
				a[i][j] = Inv(Add(CauchyX[i], CauchyY[j]))
			}
			a[i][t+i] = One()
		}
		for c := 0; c < t; c++ {
			p := c
			for a[p][c].IsZero() {
				p++
			}
			a[c], a[p] = a[p], a[c]
			f := Inv(a[c][c])
			for j := range a[c] {
				a[c][j] = Mul(a[c][j], f)
			}
			for i := range a {
				if f := a[i][c]; i != c && !f.IsZero() {
					for j := range a[i] {
						a[i][j] = Sub(a[i][j], Mul(f, a[c][j]))
					}
				}
			}
		}
		for i := range a {
			inverses[t] = append(inverses[t], a[i][t:])
		}
	}
}

func cauchyInverse(t int) [][]F { return inverses[t] }
