// C22: run configuration and profiling wrappers behave as documented.
package main

import (
	"flag"
	"fmt"
	"io"
	"math/big"
	"os"
	"path/filepath"
	"runtime/pprof"
	"runtime/trace"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"gkr-mimc/common"
	"gkr-mimc/polynomial"

	"verif/kit"
	"verif/ref"

	"github.com/consensys/gurvy/bn256/fr"
)

func main() {
	testing.Init()
	flag.Set("test.benchtime", "1x")
	kit.Main(kit.Config{
		ID:      "C22",
		Rule:    "integer and flag variables set to random, boundary, missing and malformed values while the other variables hold decoys; the profiling wrapper in all flag combinations, repeated, with benign and panicking functions, in a scratch directory whose files are listed before and after; printed values parsed back. Non-trivial: distinct (variable, value), (flags, function) and printed values",
		Require: []string{"integers", "leading_zeros", "malformed", "flags", "profiled", "traced", "plain", "panicking", "printed", "printed_concurrently", "negative_printed", "stopped"},
	}, run)
}

type intVar struct {
	name string
	get  func() int
}

var ints = []intVar{{"BN_GKR", common.GetBN}, {"NCHUNKS_GKR", common.GetNChunks}, {"NPROCESSES_ENV", common.GetNProcesses}}

type flagVar struct {
	name string
	get  func() bool
}

var flags = []flagVar{{"PROFILE_GKR", common.GetProfiled}, {"TRACE_GKR", common.GetTraced}}

func decoys(g *kit.Rng) {
	for _, v := range ints {
		set(g, v.name, fmt.Sprint(g.Range(100000, 200000)))
	}
	for _, v := range flags {
		set(g, v.name, fmt.Sprint(g.Intn(2)))
	}
}

func set(g *kit.Rng, n, v string) {
	if v == "" && g.Bool() {
		os.Unsetenv(n)
		return
	}
	os.Setenv(n, v)
}

func env(t *kit.T) {
	g := t.Rng
	for _, v := range ints {
		decoys(g)
		x := g.Range(0, 40)
		switch g.Intn(5) {
		case 0:
			x = -g.Range(1, 1000)
		case 1:
			x = g.Pick(0, 1, 1<<31, 1<<62, 1<<62+1<<61, -1<<62)
		case 2:
			x = int(g.U64())
		}
		text := strconv.Itoa(x)
		switch g.Intn(4) {
		case 0: // leading zeros do not make an integer octal
			z := strings.Repeat("0", g.Range(1, 3))
			if x < 0 {
				text = "-" + z + text[1:]
			} else {
				text = z + text
			}
			t.Count("leading_zeros", 1)
		case 1:
			if x >= 0 {
				text = "+" + text
			}
		}
		set(g, v.name, text)
		var got int
		if m, p := kit.Panics(func() { got = v.get() }); p || got != x {
			t.Fail("%s=%s is read as %d %s", v.name, text, got, m)
		}
		t.Eval(1)
		t.Count("integers", 1)
		t.Distinct(v.name, text)
		bad := []string{"", "", "abc", "1.5", "1e3", "12abc", "abc12", "--3", "3 4", "0x", "99999999999999999999", "-99999999999999999999", "ten", "1,000", "/", " 4", "4 ", "4\n", "\t4", "+", "-", "0x10", "0b1", "0o7", "1_000", "\u0664", "4;", "4-", "4.0"}[g.Intn(29)]
		decoys(g)
		set(g, v.name, bad)
		m, p := kit.Panics(func() { got = v.get() })
		if !p {
			t.Fail("%s=%q is read as %d instead of being refused", v.name, bad, got)
		}
		if !strings.Contains(m, v.name) {
			t.Fail("%s=%q is refused without naming the variable: %s", v.name, bad, m)
		}
		for _, o := range ints {
			if o.name != v.name && strings.Contains(m, o.name) {
				t.Fail("%s=%q is refused naming %s: %s", v.name, bad, o.name, m)
			}
		}
		t.Eval(2)
		t.Count("malformed", 1)
		t.Distinct(v.name, bad)
	}
	for _, v := range flags {
		for _, x := range []string{"1", "", "0", "2", "11", "01", "true", "yes", "-1", "1 1"} {
			decoys(g)
			set(g, v.name, x)
			if got := v.get(); got != (x == "1") {
				t.Fail("%s=%q is read as %v", v.name, x, got)
			}
			t.Eval(1)
			t.Count("flags", 1)
			t.Distinct(v.name, x)
		}
	}
}

func list(dir string) map[string]int64 {
	r := map[string]int64{}
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() {
			r[p] = i.Size()
		}
		return nil
	})
	return r
}

func wrap(t *kit.T, profiled, traced, panics bool) {
	g := t.Rng
	base, err := os.MkdirTemp("", "verif-c22-")
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer os.RemoveAll(base)
	os.Mkdir(filepath.Join(base, "profiling"), 0o755)
	wd := filepath.Join(base, "pkg")
	os.Mkdir(wd, 0o755)
	old, _ := os.Getwd()
	if err := os.Chdir(wd); err != nil {
		panic("harness: " + err.Error())
	}
	defer os.Chdir(old)
	what := fmt.Sprintf("profiled=%v traced=%v panicking=%v", profiled, traced, panics)
	runs, calls := 0, 0
	var tracing, timed bool
	testing.Benchmark(func(b *testing.B) {
		b.StopTimer()
		b.ResetTimer()
		for k := 0; k < 2; k++ { // twice in a row: the first has to stop what it started
			calls++
			m, p := kit.Panics(func() {
				common.ProfileTrace(b, profiled, traced, func() {
					runs++
					tracing = trace.IsEnabled()
					e0 := b.Elapsed()
					time.Sleep(time.Millisecond)
					timed = b.Elapsed() > e0
					if panics {
						panic("from the measured function")
					}
				})
			})
			if p != panics || (panics && !strings.Contains(m, "from the measured function")) {
				t.Report("%s: ended with panic=%v %q", what, p, m)
				return
			}
			if runs != calls {
				t.Report("%s: the function ran %d times after %d calls", what, runs, calls)
				return
			}
			if tracing != traced {
				t.Report("%s: tracing is %v while the function runs", what, tracing)
				return
			}
			if !timed {
				t.Report("%s: the benchmark's timer does not run while the function runs", what)
				return
			}
			e0 := b.Elapsed()
			time.Sleep(time.Millisecond)
			if b.Elapsed() != e0 {
				t.Report("%s: the benchmark's timer still runs afterwards", what)
				return
			}
			if trace.IsEnabled() {
				t.Report("%s: tracing goes on afterwards", what)
				trace.Stop()
				return
			}
			if err := pprof.StartCPUProfile(io.Discard); err != nil {
				t.Report("%s: profiling goes on afterwards: %v", what, err)
				return
			}
			pprof.StopCPUProfile()
			t.Count("stopped", 1)
			t.Eval(7)
		}
	})
	if calls == 0 {
		panic("harness: the benchmark did not run")
	}
	tr, pf := 0, 0
	for p, n := range list(base) {
		switch {
		case strings.HasSuffix(p, "-trace.out"):
			tr++
			if n == 0 {
				t.Report("%s: the trace is empty", what)
			}
		case strings.Contains(p, "-pprof"):
			pf++
			if n == 0 {
				t.Report("%s: the profile is empty", what)
			}
		default:
			t.Report("%s: unexpected file %s", what, p)
		}
	}
	if (tr > 0) != traced || (pf > 0) != profiled {
		t.Report("%s: %d traces and %d profiles were written", what, tr, pf)
	}
	t.Eval(2)
	if profiled {
		t.Count("profiled", 1)
	}
	if traced {
		t.Count("traced", 1)
	}
	if !profiled && !traced {
		t.Count("plain", 1)
	}
	if panics {
		t.Count("panicking", 1)
	}
	t.Distinct(what, g.U64()%4)
}

// denote parses a printed field element.
func denote(s string) (fr.Element, bool) {
	var x fr.Element
	b, ok := new(big.Int).SetString(strings.TrimSpace(s), 10)
	if !ok {
		return x, false
	}
	m, _ := new(big.Int).SetString("21888242871839275222246405745257275088548364400416034343698204186575808495617", 10)
	b.Mod(b, m)
	x.SetBigInt(b)
	return x, true
}

func items(s string) []string {
	i, j := strings.IndexByte(s, '['), strings.LastIndexByte(s, ']')
	if i < 0 || j < i {
		return nil
	}
	var r []string
	for _, f := range strings.FieldsFunc(s[i+1:j], func(c rune) bool { return c == ',' || c == ' ' }) {
		r = append(r, f)
	}
	return r
}

// printers is told how long the lists are at least once in a while, so that
// every length up to 80 occurs.
func printers(t *kit.T, i int) {
	g := t.Rng
	length := func() int {
		if g.P(1, 20) {
			return g.Pick(17, 33, 65, 101, 129, 257, 1001, 1500)
		}
		if i%6 == 0 {
			return i / 6 % 81
		}
		return g.Range(0, 12)
	}
	xs := g.Frs(length())
	t.Max("list_length", len(xs))
	for i := range xs {
		switch g.Intn(5) {
		case 0:
			xs[i] = ref.Neg(ref.U(uint64(g.Intn(1000))))
		case 1: // around the middle of the field, where the sign flips
			xs[i] = ref.Add(ref.Half, ref.U(uint64(g.Intn(5))))
		case 2: // values and negations of nearly the same number of digits
			xs[i] = ref.Neg(ref.Pow(ref.U(10), g.Range(0, 76)))
		}
		s := common.PrettyStringFr(xs[i])
		if y, ok := denote(s); !ok || y != xs[i] {
			t.Fail("%s is printed as %q", xs[i].String(), s)
		}
		if strings.HasPrefix(s, "-") {
			t.Count("negative_printed", 1)
		}
		t.Eval(1)
		t.Distinct(xs[i])
	}
	b := polynomial.NewBookKeepingTable(kit.Clone(xs))
	for _, s := range []string{common.FrSliceToString(xs), b.String()} {
		it := items(s)
		if len(it) != len(xs) {
			t.Fail("%d values are printed as %q", len(xs), s)
		}
		for i := range it {
			if y, ok := denote(it[i]); !ok || y != xs[i] {
				t.Fail("value %d of %s is printed as %q", i, kit.Str(xs...), it[i])
			}
		}
		t.Eval(1)
	}
	is := make([]int, length())
	us := make([]uint, length())
	for i := range is {
		is[i] = int(g.U64()) >> uint(g.Intn(64))
	}
	for i := range us {
		us[i] = uint(g.U64()) >> uint(g.Intn(64))
	}
	it := items(common.IntSliceToString(is))
	ut := items(common.UintSliceToString(us))
	if len(it) != len(is) || len(ut) != len(us) {
		t.Fail("%v or %v is printed with another number of values", is, us)
	}
	for i := range it {
		if it[i] != strconv.Itoa(is[i]) {
			t.Fail("%v is printed as %v", is, it)
		}
	}
	for i := range ut {
		if ut[i] != strconv.FormatUint(uint64(us[i]), 10) {
			t.Fail("%v is printed as %v", us, ut)
		}
	}
	ga := common.FrToGenericArray(xs)
	if len(ga) != len(xs) {
		t.Fail("FrToGenericArray changes the length")
	}
	for i := range ga {
		if y, ok := ga[i].(fr.Element); !ok || y != xs[i] {
			t.Fail("FrToGenericArray changes value %d", i)
		}
	}
	u := g.U64() >> uint(g.Intn(64))
	y := common.Uint64ToFr(u)
	var z fr.Element
	z.SetBigInt(new(big.Int).SetUint64(u))
	if y != z {
		t.Fail("Uint64ToFr(%d) is %s", u, y.String())
	}
	n := g.Intn(80)
	if a := common.RandomFrArray(n); len(a) != n {
		t.Fail("RandomFrArray(%d) has %d elements", n, len(a))
	}
	a, bl := g.Intn(20), g.Intn(20)
	d := common.RandomFrDoubleSlice(a, bl)
	if len(d) != a || (a > 0 && len(d[a-1]) != bl) {
		t.Fail("RandomFrDoubleSlice(%d,%d) has the wrong shape", a, bl)
	}
	// integer logarithms
	for k := 0; k < 20; k++ {
		v := 1 + int(g.U64()>>uint(g.Range(2, 63)))
		if g.P(1, 3) {
			v = 1<<uint(g.Range(2, 62)) + g.Range(-2, 2)
		}
		f, c := common.Log2Floor(v), common.Log2Ceil(v)
		bl := new(big.Int).SetInt64(int64(v)).BitLen() - 1
		wc := bl
		if v != 1<<bl {
			wc++
		}
		if f != bl || c != wc {
			t.Fail("logarithms of %d: %d and %d", v, f, c)
		}
		p, q := int(g.U64())>>uint(g.Intn(64)), int(g.U64())>>uint(g.Intn(64))
		mn, mx := p, q
		if q < p {
			mn, mx = q, p
		}
		if common.Min(p, q) != mn || common.Max(p, q) != mx {
			t.Fail("Min/Max of %d and %d", p, q)
		}
		t.Eval(2)
	}
	t.Eval(5)
	t.Count("printed", 1)
}

func run(r *kit.Run) {
	for i := 0; i < r.N(10000, 40000); i++ {
		r.Case(fmt.Sprintf("env/%d", i), env)
		r.Case(fmt.Sprintf("print/%d", i), func(t *kit.T) {
			printers(t, i)
			if i < 24 {
				t.Sample(map[string]interface{}{"case": t.Name, "value": common.PrettyStringFr(t.Rng.Fr())})
			}
		})
	}
	for i := 0; i < r.N(64, 200); i++ {
		r.Case(fmt.Sprintf("print-concurrently/%d", i), func(t *kit.T) {
			xs := t.Rng.Frs(60)
			want := make([]string, len(xs))
			for j := range xs {
				want[j] = common.PrettyStringFr(xs[j])
				if y, ok := denote(want[j]); !ok || y != xs[j] {
					t.Fail("%s is printed as %q", ref.Str(xs[j]), want[j])
				}
			}
			var wg sync.WaitGroup
			for k := 0; k < 6; k++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for rep := 0; rep < 20; rep++ {
						for j := range xs {
							var s string
							if msg, p := kit.Panics(func() { s = common.PrettyStringFr(xs[j]) }); p {
								t.Report("printing %s while other goroutines print panics: %s", ref.Str(xs[j]), msg)
								return
							}
							if s != want[j] {
								t.Report("%s is printed as %q while other goroutines print", ref.Str(xs[j]), s)
								return
							}
						}
					}
				}()
			}
			wg.Wait()
			t.Eval(6 * 20 * len(xs))
			t.Count("printed_concurrently", 6*20*len(xs))
		})
	}
	for i := 0; i < r.N(6, 12); i++ {
		for m := 0; m < 8; m++ {
			r.Case(fmt.Sprintf("profile/%d/%d", i, m), func(t *kit.T) { wrap(t, m&1 != 0, m&2 != 0, m&4 != 0) })
		}
	}
}
