// C23: integer helpers, conversions and random values are exact.
package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"math/bits"
	"os"
	"os/exec"
	"sync"

	"gkr-mimc/common"

	"verif/kit"
	"verif/ref"

	"github.com/consensys/gurvy/bn256/fr"
)

// dump prints random values as hexadecimal limbs, from several goroutines' calls.
func dump() {
	out := bufio.NewWriter(os.Stdout)
	defer out.Flush()
	for _, x := range concurrent(4, 40, 5) {
		fmt.Fprintf(out, "%x %x %x %x\n", x[0], x[1], x[2], x[3])
	}
}

// related tells whether the values follow from one another in a simple way: by
// an affine map, a square, a seventh power or a sign.
func related(v []fr.Element) string {
	for i := range v {
		if i >= 1 {
			x := ref.Mul(v[i-1], v[i-1])
			if v[i] == x || v[i] == ref.Neg(v[i-1]) || v[i] == ref.Mul(ref.Mul(x, x), ref.Mul(x, v[i-1])) {
				return fmt.Sprintf("value %d is a power or the opposite of the one before", i)
			}
		}
		if i >= 2 && ref.Sub(v[i], v[i-1]) == ref.Sub(v[i-1], v[i-2]) {
			return fmt.Sprintf("values %d to %d are in arithmetic progression", i-2, i)
		}
		if i >= 2 && ref.Mul(v[i], v[i-2]) == ref.Mul(v[i-1], v[i-1]) {
			return fmt.Sprintf("values %d to %d are in geometric progression", i-2, i)
		}
		if i >= 3 {
			a, b, c := ref.Sub(v[i], v[i-1]), ref.Sub(v[i-1], v[i-2]), ref.Sub(v[i-2], v[i-3])
			if ref.Mul(a, c) == ref.Mul(b, b) {
				return fmt.Sprintf("values %d to %d follow from one another by an affine map", i-3, i)
			}
		}
	}
	return ""
}

// relatedRows tells whether neighbouring lists are shifts or multiples of one another.
func relatedRows(a [][]fr.Element) string {
	for k := 1; k < len(a); k++ {
		for j := 1; j < len(a[k]); j++ {
			if ref.Sub(a[k][j], a[k-1][j]) == ref.Sub(a[k][j-1], a[k-1][j-1]) || ref.Mul(a[k][j], a[k-1][j-1]) == ref.Mul(a[k][j-1], a[k-1][j]) {
				return fmt.Sprintf("slice %d is a shift or a multiple of the one before", k)
			}
		}
	}
	return ""
}

// concurrent collects the values of random arrays made by several goroutines at once.
func concurrent(workers, calls, n int) []fr.Element {
	var wg sync.WaitGroup
	res := make([][]fr.Element, workers)
	start := make(chan struct{})
	for w := range res {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			<-start
			for c := 0; c < calls; c++ {
				if c%4 == 3 {
					for _, v := range common.RandomFrDoubleSlice(2, n) {
						res[w] = append(res[w], v...)
					}
				} else {
					res[w] = append(res[w], common.RandomFrArray(n)...)
				}
			}
		}(w)
	}
	close(start)
	wg.Wait()
	var all []fr.Element
	for _, v := range res {
		all = append(all, v...)
	}
	return all
}

func main() {
	if os.Getenv("VERIF_DUMP") != "" {
		dump()
		return
	}
	kit.Main(kit.Config{
		ID:      "C23",
		Rule:    "every integer 1..2^17, the neighbourhood of every power of two up to 2^62, the greatest integers and random ones through the two logarithms, checked against their defining inequalities; pairs of integers (all signs, extremes) through Min and Max; uint64 values and field slices through the conversions; random arrays of all small shapes: shape, reduced values, no value twice in the whole run, no fixed or rare bit (of the values and of their representation), no value an affine image or a power of the ones before it, no list a shift or multiple of the one before; the same for arrays made by several goroutines at once and by processes started at the same time. Non-trivial: distinct arguments",
		Require: []string{"logs", "powers_of_two", "minmax", "conversions", "random_arrays", "random_values", "concurrent_random_values", "process_random_values"},
	}, run)
}

func logs(t *kit.T, a int) {
	f, c := common.Log2Floor(a), common.Log2Ceil(a)
	wf := bits.Len64(uint64(a)) - 1
	wc := bits.Len64(uint64(a) - 1)
	if f != wf {
		t.Fail("Log2Floor(%d) is %d: 2^%d <= %d < 2^%d", a, f, wf, a, wf+1)
	}
	if c != wc {
		t.Fail("Log2Ceil(%d) is %d instead of %d, the smallest c with 2^c >= %d", a, c, wc, a)
	}
	t.Eval(2)
	t.Count("logs", 2)
	if a&(a-1) == 0 {
		t.Count("powers_of_two", 1)
	}
}

func run(r *kit.Run) {
	for b := 0; b < 64; b++ {
		r.Case(fmt.Sprintf("logs/%d", b), func(t *kit.T) {
			for a := b << 11; a < (b+1)<<11; a++ {
				if a > 0 {
					logs(t, a)
				}
			}
			if b < 63 {
				for d := -40; d <= 40; d++ {
					if a := 1<<b + d; a > 0 {
						logs(t, a)
					}
				}
			}
			for i := 0; i < r.N(10000, 50000); i++ {
				logs(t, 1+int((t.Rng.U64()|1<<63)>>uint(1+t.Rng.Intn(62)))-1)
			}
			logs(t, int(^uint(0)>>1)-b)
			t.Distinct("logs", b)
			t.Sample(map[string]interface{}{"case": t.Name})
		})
	}
	const big = int(^uint(0) >> 1)
	for i := 0; i < r.N(2000, 4000); i++ {
		r.Case(fmt.Sprintf("minmax/%d", i), func(t *kit.T) {
			g := t.Rng
			num := func() int {
				switch g.Intn(4) {
				case 0:
					return g.Pick(0, 1, -1, big, -big, -big-1, big-1)
				case 1:
					return g.Range(-5, 5)
				}
				return int(g.U64())
			}
			for j := 0; j < 50; j++ {
				a, b := num(), num()
				if g.P(1, 5) {
					b = a + g.Range(-1, 1)
				}
				lo, hi := common.Min(a, b), common.Max(a, b)
				if (lo != a && lo != b) || (hi != a && hi != b) || lo > a || lo > b || hi < a || hi < b {
					t.Fail("Min(%d,%d) is %d and Max is %d", a, b, lo, hi)
				}
				t.Eval(2)
				t.Count("minmax", 2)
				t.Distinct("minmax", a, b)
			}
		})
	}
	for i := 0; i < r.N(3000, 6000); i++ {
		r.Case(fmt.Sprintf("conversions/%d", i), func(t *kit.T) {
			g := t.Rng
			x := g.U64()
			if g.Bool() {
				x >>= uint(g.Intn(64))
			}
			if i < 3 {
				x = []uint64{0, ^uint64(0), 1 << 63}[i]
			}
			if y := common.Uint64ToFr(x); ref.Str(y) != fmt.Sprint(x) {
				t.Fail("Uint64ToFr(%d) is %s", x, ref.Str(y))
			}
			v := g.Frs(g.Range(0, 40))
			if g.P(1, 200) {
				v = g.Frs(g.Pick(100, 257, 1025, 5000))
			}
			v0 := kit.Clone(v)
			a := common.FrToGenericArray(v)
			if len(a) != len(v) {
				t.Fail("FrToGenericArray of %d values has %d", len(v), len(a))
			}
			for j := range a {
				if e, ok := a[j].(fr.Element); !ok || e != v0[j] {
					t.Fail("FrToGenericArray: value %d is %v instead of %s", j, a[j], ref.Str(v0[j]))
				}
			}
			if len(v) > 0 { // values, not references
				v[0] = g.FrUniform()
				if a[0].(fr.Element) != v0[0] {
					t.Fail("FrToGenericArray: the result follows later changes of the slice")
				}
			}
			t.Eval(2)
			t.Count("conversions", 1)
			t.Distinct("conversions", x, kit.Str(v...))
		})
	}
	r.Case("random", func(t *kit.T) {
		seen := map[fr.Element]bool{{}: true, ref.One(): true} // what unset values look like
		var or, and fr.Element
		for i := range and {
			and[i] = ^uint64(0)
		}
		var ones [256]int // of the values, not of their representation
		total := 0
		value := func(x fr.Element, what string) {
			y := x.ToRegular()
			for b := range ones {
				ones[b] += int(y[b/64] >> uint(b%64) & 1)
			}
			total++
			if seen[x] {
				t.Fail("%s: the value %s came before", what, ref.Str(x))
			}
			seen[x] = true
			if s := ref.Reduced(x); !s {
				t.Fail("%s: a value is not reduced: %x", what, x)
			}
			for i := range x {
				or[i] |= x[i]
				and[i] &= x[i]
			}
			t.Count("random_values", 1)
		}
		sizes := []int{1, 1, 1000, 1025, 2049, 4097, 5000, 10000, 66000}
		for n := 0; n < r.N(120, 400); n++ {
			sizes = append(sizes, n)
		}
		for _, n := range sizes {
			a := common.RandomFrArray(n)
			if len(a) != n {
				t.Fail("RandomFrArray(%d) has %d values", n, len(a))
			}
			for _, x := range a {
				value(x, fmt.Sprintf("RandomFrArray(%d)", n))
			}
			if why := related(a); why != "" {
				t.Fail("RandomFrArray(%d): %s", n, why)
			}
			t.Eval(2 + n)
			t.Distinct("array", n)
			t.Count("random_arrays", 1)
		}
		shapes := [][2]int{{1, 5000}, {2, 4097}, {5, 1025}, {64, 256}, {257, 33}, {1025, 5}, {5000, 1}}
		for c := 0; c < 20; c++ {
			for n := 0; n < 20; n++ {
				shapes = append(shapes, [2]int{c, n})
			}
		}
		for _, sh := range shapes {
			{
				c, n := sh[0], sh[1]
				a := common.RandomFrDoubleSlice(c, n)
				if len(a) != c {
					t.Fail("RandomFrDoubleSlice(%d,%d) has %d slices", c, n, len(a))
				}
				for k := range a {
					if len(a[k]) != n {
						t.Fail("RandomFrDoubleSlice(%d,%d): slice %d has %d values", c, n, k, len(a[k]))
					}
					for _, x := range a[k] {
						value(x, fmt.Sprintf("RandomFrDoubleSlice(%d,%d)", c, n))
					}
				}
				var flat []fr.Element
				for k := range a {
					flat = append(flat, a[k]...)
				}
				why := related(flat)
				if why == "" {
					why = relatedRows(a)
				}
				if why != "" {
					t.Fail("RandomFrDoubleSlice(%d,%d): %s", c, n, why)
				}
				t.Eval(2 + c*n)
				t.Distinct("double", c, n)
				t.Count("random_arrays", 1)
			}
		}
		for i := 0; i < r.N(60, 300); i++ {
			for _, x := range concurrent(8, 20, 1+i%17) {
				value(x, "RandomFrArray called by 8 goroutines")
				t.Count("concurrent_random_values", 1)
			}
			t.Eval(160)
		}
		for i := 0; i < r.N(3, 20); i++ {
			var outs [6]bytes.Buffer
			var cmds [6]*exec.Cmd
			for k := range cmds {
				cmds[k] = exec.Command(os.Args[0])
				cmds[k].Env = append(os.Environ(), "VERIF_DUMP=1")
				cmds[k].Stdout = &outs[k]
				if err := cmds[k].Start(); err != nil {
					panic("harness: " + err.Error())
				}
			}
			for k := range cmds {
				if err := cmds[k].Wait(); err != nil {
					panic("harness: " + err.Error())
				}
				n := 0
				for {
					var x fr.Element
					if _, err := fmt.Fscanf(&outs[k], "%x %x %x %x\n", &x[0], &x[1], &x[2], &x[3]); err == io.EOF {
						break
					} else if err != nil {
						panic("harness: " + err.Error())
					}
					value(x, "random arrays of another process")
					t.Count("process_random_values", 1)
					n++
				}
				if n == 0 {
					panic("harness: a process printed nothing")
				}
			}
			t.Eval(6)
		}
		// more than 10000 values: a fixed bit below the modulus' top has probability 2^-10000
		for i := range or {
			bitsHere := ^uint64(0)
			if i == 3 {
				bitsHere = 1<<61 - 1
			}
			if or[i]&bitsHere != bitsHere || and[i] != 0 {
				t.Fail("random values: some bits of limb %d never change: or %x and %x", i, or[i], and[i])
			}
		}
		// ... and of the values themselves, every bit is set in a third to a half of a uniform sample
		for b := 0; b < 254; b++ {
			if ones[b] < total/4 || ones[b] > total-total/4 {
				t.Fail("random values: bit %d is set in %d of %d values", b, ones[b], total)
			}
		}
		t.Eval(254)
		t.Max("random_values", total)
	})
}
