package kit

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/consensys/gurvy/bn256/fr"
)

// Config describes a check.
type Config struct {
	ID    string // property id
	Level string // evidence level; default "exploration"
	Rule  string // how cases are made and what makes one non-trivial
	// Shards is the number of child processes the cases are spread over.
	Shards int
	// Require lists counters that have to be positive for a silent run to count.
	Require []string
	// CPUBudget is the CPU seconds a single case may burn before it is judged
	// not to terminate (cases need a small fraction of this); default 200.
	CPUBudget float64
	// Extra is run by the parent after the children (may add violations).
	Extra func(p *Parent)
	// Env is added to the children's environment; $DIR is their scratch directory.
	Env []string
}

// Violation is one observed violation of the property.
type Violation struct {
	Case string `json:"case"`
	Msg  string `json:"message"`
	Key  string `json:"key,omitempty"` // set for candidates of known findings
}

type result struct {
	Evaluations int64             `json:"evaluations"`
	Distinct    []uint64          `json:"distinct"`
	Counts      map[string]int64  `json:"counts"`
	Maxes       map[string]int64  `json:"maxes"`
	Samples     []json.RawMessage `json:"samples"`
	Violations  []Violation       `json:"violations"`
	Cases       int64             `json:"cases"`
}

// Run is the state of one child.
type Run struct {
	cfg     Config
	Seed    uint64
	Tier    string
	shard   int
	shards  int
	idx     int
	filter  string
	journal *os.File
	mu      sync.Mutex
	res     result
	dist    map[uint64]struct{}
	seen    map[string]bool
}

// T is the handle of a running case.
type T struct {
	*Run
	Name string
	Rng  *Rng
}

type stop struct{}

// Thorough tells whether the thorough tier runs.
func (r *Run) Thorough() bool { return r.Tier == "thorough" }

// N picks a count by tier.
func (r *Run) N(quick, thorough int) int {
	if r.Thorough() {
		return thorough
	}
	return quick
}

// Main runs a check: the parent starts the children and interprets how they end.
func Main(cfg Config, body func(r *Run)) {
	if cfg.Level == "" {
		cfg.Level = "exploration"
	}
	if cfg.Shards == 0 {
		cfg.Shards = 8
	}
	if cfg.CPUBudget == 0 {
		cfg.CPUBudget = 200
	}
	if os.Getenv("VERIF_CHILD") != "" {
		child(cfg, body)
		return
	}
	os.Exit(parent(cfg))
}

func envSeed() uint64 {
	s, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return s
}

func envTier() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

// ---------------------------------------------------------------- child

func child(cfg Config, body func(r *Run)) {
	r := &Run{cfg: cfg, Seed: envSeed(), Tier: envTier(), filter: os.Getenv("VERIF_CASE"),
		dist: map[uint64]struct{}{}, seen: map[string]bool{}}
	r.shard, _ = strconv.Atoi(os.Getenv("VERIF_SHARD"))
	r.shards, _ = strconv.Atoi(os.Getenv("VERIF_SHARDS"))
	if r.shards == 0 {
		r.shards = 1
	}
	r.res.Counts = map[string]int64{}
	r.res.Maxes = map[string]int64{}
	dir := os.Getenv("VERIF_CHILD")
	r.journal, _ = os.Create(filepath.Join(dir, fmt.Sprintf("journal.%d", r.shard)))
	debug.SetGCPercent(200)
	body(r)
	r.flush(dir)
	os.Exit(0)
}

func (r *Run) flush(dir string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for k := range r.dist {
		r.res.Distinct = append(r.res.Distinct, k)
	}
	b, err := json.Marshal(r.res)
	if err != nil {
		panic(err)
	}
	tmp := filepath.Join(dir, fmt.Sprintf("result.%d.tmp", r.shard))
	if err := os.WriteFile(tmp, b, 0o644); err != nil {
		panic(err)
	}
	os.Rename(tmp, filepath.Join(dir, fmt.Sprintf("result.%d", r.shard)))
}

func (r *Run) mark(name string) {
	if r.journal != nil {
		line := fmt.Sprintf("%08d %s", r.idx, name)
		if len(line) > 400 {
			line = line[:400]
		}
		r.journal.WriteAt([]byte(fmt.Sprintf("%-400s", line)), 0)
	}
}

// maxViolations ends a child early: more reports of a broken tree add nothing.
const maxViolations = 4

// Case runs f as one case, if it belongs to this shard. Names are unique.
func (r *Run) Case(name string, f func(t *T)) {
	if r.seen[name] {
		panic("harness: duplicate case name " + name)
	}
	r.seen[name] = true
	i := r.idx
	r.idx++
	if r.filter != "" {
		if r.filter != name {
			return
		}
	} else if i%r.shards != r.shard {
		return
	}
	unkeyed := 0
	for _, v := range r.res.Violations {
		if v.Key == "" {
			unkeyed++
		}
	}
	if unkeyed >= maxViolations {
		return
	}
	r.mark(name)
	t := &T{Run: r, Name: name, Rng: NewRng(r.Seed, r.cfg.ID+"/"+name)}
	r.res.Cases++
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(stop); ok {
				return
			}
			if strings.HasPrefix(fmt.Sprint(e), "harness:") {
				panic(e)
			}
			t.add("", fmt.Sprintf("panic: %v\n%s", e, trimStack(debug.Stack())))
		}
	}()
	f(t)
}

func trimStack(b []byte) string {
	s := string(b)
	if len(s) > 3000 {
		s = s[:3000] + "\n..."
	}
	return s
}

func (t *T) add(key, msg string) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.res.Violations = append(t.res.Violations, Violation{Case: t.Name, Msg: msg, Key: key})
}

// Fail records a violation and ends the case.
func (t *T) Fail(format string, a ...interface{}) {
	t.add("", fmt.Sprintf(format, a...))
	panic(stop{})
}

// Report records a violation and goes on (usable from any goroutine).
func (t *T) Report(format string, a ...interface{}) { t.add("", fmt.Sprintf(format, a...)) }

// Candidate records a violation that is suppressed if the committed
// known-findings file lists exactly this key for the property.
func (t *T) Candidate(key, format string, a ...interface{}) {
	t.Count("candidate "+key, 1)
	t.mu.Lock()
	for _, v := range t.res.Violations {
		if v.Key == key {
			t.mu.Unlock()
			return
		}
	}
	t.mu.Unlock()
	t.add(key, fmt.Sprintf(format, a...))
}

// Panics runs f and tells whether it panicked, and with what.
func Panics(f func()) (msg string, panicked bool) {
	defer func() {
		if e := recover(); e != nil {
			msg, panicked = fmt.Sprint(e), true
		}
	}()
	f()
	return "", false
}

// Eval counts n oracle decisions.
func (t *T) Eval(n int) {
	t.mu.Lock()
	t.res.Evaluations += int64(n)
	t.mu.Unlock()
}

// Distinct records a non-trivial case by its identity.
func (t *T) Distinct(parts ...interface{}) {
	h := fnv.New64a()
	for _, p := range parts {
		fmt.Fprintf(h, "%v|", p)
	}
	t.mu.Lock()
	t.dist[h.Sum64()] = struct{}{}
	t.mu.Unlock()
}

// Count adds to a named counter of the evidence.
func (t *T) Count(name string, n int) {
	t.mu.Lock()
	t.res.Counts[name] += int64(n)
	t.mu.Unlock()
}

// Max keeps the largest value of a named gauge.
func (t *T) Max(name string, n int) {
	t.mu.Lock()
	if old, ok := t.res.Maxes[name]; !ok || int64(n) > old {
		t.res.Maxes[name] = int64(n)
	}
	t.mu.Unlock()
}

// Sample keeps the first few cases written out.
func (t *T) Sample(v interface{}) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.res.Samples) < 3 {
		b, err := json.Marshal(v)
		if err == nil {
			t.res.Samples = append(t.res.Samples, b)
		}
	}
}

// ---------------------------------------------------------------- parent

// Parent merges what the children observed.
type Parent struct {
	Cfg          Config
	Dir          string
	res          result
	dist         map[uint64]struct{}
	Inconclusive []string
	Violations   []Violation
	Extra        map[string]interface{}
}

// AddViolation lets Config.Extra report.
func (p *Parent) AddViolation(v Violation) { p.Violations = append(p.Violations, v) }

// Count adds to a counter.
func (p *Parent) Count(name string, n int64) { p.res.Counts[name] += n }

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func parent(cfg Config) int {
	start := time.Now()
	id := cfg.ID
	vd := verifDir()
	dir, err := os.MkdirTemp("", "verif-"+id+"-")
	if err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	defer os.RemoveAll(dir)
	p := &Parent{Cfg: cfg, Dir: dir, dist: map[uint64]struct{}{}, Extra: map[string]interface{}{}}
	p.res.Counts = map[string]int64{}
	p.res.Maxes = map[string]int64{}
	shards := cfg.Shards
	if os.Getenv("VERIF_CASE") != "" {
		shards = 1
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	for s := 0; s < shards; s++ {
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			v, inc := runChild(cfg, dir, s, shards)
			mu.Lock()
			defer mu.Unlock()
			if v != nil {
				p.Violations = append(p.Violations, *v)
			}
			if inc != "" {
				p.Inconclusive = append(p.Inconclusive, inc)
			}
		}(s)
	}
	wg.Wait()
	for s := 0; s < shards; s++ {
		b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("result.%d", s)))
		if err != nil {
			continue
		}
		var r result
		if json.Unmarshal(b, &r) != nil {
			p.Inconclusive = append(p.Inconclusive, "unreadable result of a child")
			continue
		}
		p.res.Evaluations += r.Evaluations
		p.res.Cases += r.Cases
		for _, d := range r.Distinct {
			p.dist[d] = struct{}{}
		}
		for k, v := range r.Counts {
			p.res.Counts[k] += v
		}
		for k, v := range r.Maxes {
			if old, ok := p.res.Maxes[k]; !ok || v > old {
				p.res.Maxes[k] = v
			}
		}
		if len(p.res.Samples) < 3 {
			p.res.Samples = append(p.res.Samples, r.Samples...)
		}
		p.Violations = append(p.Violations, r.Violations...)
	}
	if cfg.Extra != nil {
		cfg.Extra(p)
	}
	known := loadKnown(filepath.Join(vd, "KNOWN_FINDINGS"), id)
	knownHit := map[string]string{}
	var real []Violation
	for _, v := range p.Violations {
		if v.Key != "" {
			if _, ok := known[v.Key]; ok {
				knownHit[v.Key] = v.Msg
				continue
			}
		}
		real = append(real, v)
	}
	if len(real) == 0 && os.Getenv("VERIF_CASE") == "" {
		if p.res.Evaluations == 0 || len(p.dist) == 0 {
			p.Inconclusive = append(p.Inconclusive, "nothing was observed")
		}
		for _, c := range cfg.Require {
			if p.res.Counts[c] == 0 {
				p.Inconclusive = append(p.Inconclusive, "coverage floor not met: "+c+" = 0")
			}
		}
	}
	// evidence
	if len(p.res.Samples) > 4 {
		p.res.Samples = p.res.Samples[:4]
	}
	cov := map[string]interface{}{
		"evaluations":         p.res.Evaluations,
		"distinct_nontrivial": len(p.dist),
		"rule":                cfg.Rule,
		"samples":             p.res.Samples,
		"cases":               p.res.Cases,
	}
	if p.res.Samples == nil {
		cov["samples"] = []string{}
	}
	if len(p.res.Counts) > 0 {
		cov["observed"] = p.res.Counts
	}
	if len(p.res.Maxes) > 0 {
		cov["largest"] = p.res.Maxes
	}
	for k, v := range p.Extra {
		cov[k] = v
	}
	outcome := "held"
	if len(real) > 0 {
		outcome = "violated"
	} else if len(p.Inconclusive) > 0 {
		outcome = "inconclusive"
		cov["inconclusive"] = p.Inconclusive
	}
	cov["outcome"] = outcome
	var kk []string
	for k := range knownHit {
		kk = append(kk, k)
	}
	sort.Strings(kk)
	if len(kk) > 0 {
		cov["known_findings_observed"] = kk
	}
	ev := map[string]interface{}{
		"property": id, "tier": envTier(), "seed": envSeed(), "level": cfg.Level,
		"coverage": cov, "wall_s": time.Since(start).Seconds(),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(vd, "evidence", "replays"), 0o755)
	if os.Getenv("VERIF_CASE") == "" {
		os.WriteFile(filepath.Join(vd, "evidence", id+".json"), append(b, '\n'), 0o644)
	}
	for _, k := range kk {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", id, k, knownHit[k])
	}
	if len(real) > 0 {
		for i, v := range real {
			if i >= 6 {
				fmt.Printf("(%d further violations not listed)\n", len(real)-i)
				break
			}
			f := filepath.Join(vd, "evidence", "replays", fmt.Sprintf("%s-%d.json", id, i))
			rb, _ := json.MarshalIndent(map[string]interface{}{
				"property": id, "seed": envSeed(), "tier": envTier(), "case": v.Case, "message": v.Msg,
				"replay": fmt.Sprintf("cd %s && ./check.sh %s --replay %s", vd, id, f),
			}, "", " ")
			os.WriteFile(f, append(rb, '\n'), 0o644)
			m := v.Msg
			if len(m) > 1500 {
				m = m[:1500] + " ..."
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n  case %s\n  %s\n", id, f, v.Case, strings.ReplaceAll(m, "\n", "\n  "))
		}
		return 1
	}
	if len(p.Inconclusive) > 0 {
		for _, s := range p.Inconclusive {
			fmt.Println("INCONCLUSIVE:", s)
		}
		return 2
	}
	fmt.Printf("%s held: %d cases, %d oracle decisions, %d distinct non-trivial, %.1fs\n", id, p.res.Cases, p.res.Evaluations, len(p.dist), time.Since(start).Seconds())
	return 0
}

// loadKnown reads lines "known: property=<id> key=<key> ...".
func loadKnown(file, id string) map[string]bool {
	res := map[string]bool{}
	b, err := os.ReadFile(file)
	if err != nil {
		return res
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) >= 3 && f[0] == "known:" && f[1] == "property="+id && strings.HasPrefix(f[2], "key=") {
			res[strings.TrimPrefix(f[2], "key=")] = true
		}
	}
	return res
}

func readJournal(dir string, s int) (string, string) {
	b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("journal.%d", s)))
	if err != nil || len(b) == 0 {
		return "", ""
	}
	line := strings.TrimSpace(string(b))
	if i := strings.IndexByte(line, ' '); i > 0 {
		return line, line[i+1:]
	}
	return line, line
}

// cpuOf returns the CPU seconds used by our own child.
func cpuOf(pid int) float64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	s := string(b)
	i := strings.LastIndexByte(s, ')')
	if i < 0 {
		return 0
	}
	f := strings.Fields(s[i+1:])
	if len(f) < 14 {
		return 0
	}
	u, _ := strconv.ParseFloat(f[11], 64)
	k, _ := strconv.ParseFloat(f[12], 64)
	return (u + k) / 100
}

func runChild(cfg Config, dir string, s, shards int) (*Violation, string) {
	self, err := os.Executable()
	if err != nil {
		return nil, err.Error()
	}
	cmd := exec.Command(self, os.Args[1:]...)
	env := append(os.Environ(), "VERIF_CHILD="+dir, fmt.Sprintf("VERIF_SHARD=%d", s), fmt.Sprintf("VERIF_SHARDS=%d", shards), "GOTRACEBACK=all")
	for _, e := range cfg.Env {
		env = append(env, strings.ReplaceAll(e, "$DIR", dir))
	}
	cmd.Env = env
	errf, err := os.Create(filepath.Join(dir, fmt.Sprintf("stderr.%d", s)))
	if err != nil {
		return nil, err.Error()
	}
	defer errf.Close()
	outf, _ := os.Create(filepath.Join(dir, fmt.Sprintf("stdout.%d", s)))
	defer outf.Close()
	cmd.Stderr = errf
	cmd.Stdout = outf
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	runtime.LockOSThread() // Pdeathsig is tied to the thread
	defer runtime.UnlockOSThread()
	if err := cmd.Start(); err != nil {
		return nil, "cannot start child: " + err.Error()
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	lastLine, _ := readJournal(dir, s)
	caseCPU, idleSince, idleCPU := 0.0, time.Now(), 0.0
	verdict := ""
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	var werr error
loop:
	for {
		select {
		case werr = <-done:
			break loop
		case <-tick.C:
			line, _ := readJournal(dir, s)
			cpu := cpuOf(cmd.Process.Pid)
			if line != lastLine {
				lastLine, caseCPU, idleSince, idleCPU = line, cpu, time.Now(), cpu
				continue
			}
			if verdict != "" {
				continue
			}
			if cpu-idleCPU > 0.2 {
				idleCPU, idleSince = cpu, time.Now()
			}
			if cpu-caseCPU > cfg.CPUBudget {
				verdict = "cpu"
				cmd.Process.Signal(syscall.SIGQUIT)
				go func() { time.Sleep(20 * time.Second); cmd.Process.Kill() }()
			} else if time.Since(idleSince) > 45*time.Second {
				// no CPU used for a long time: ask for the goroutine states
				verdict = "idle"
				cmd.Process.Signal(syscall.SIGQUIT)
				go func() { time.Sleep(20 * time.Second); cmd.Process.Kill() }()
			}
		}
	}
	_, name := readJournal(dir, s)
	if werr == nil {
		if _, err := os.Stat(filepath.Join(dir, fmt.Sprintf("result.%d", s))); err == nil {
			return nil, ""
		}
		return nil, "a child ended without a result"
	}
	b, _ := os.ReadFile(filepath.Join(dir, fmt.Sprintf("stderr.%d", s)))
	msg := string(b)
	if len(msg) > 4000 {
		msg = msg[:4000] + "\n..."
	}
	switch {
	case verdict == "idle":
		if allBlocked(b) {
			return &Violation{Case: name, Msg: "deadlock: the call never returns, every goroutine of the library is blocked\n" + msg}, ""
		}
		return nil, "a child made no progress in case " + name
	case verdict == "cpu":
		return &Violation{Case: name, Msg: fmt.Sprintf("the case used more than %.0f CPU seconds without finishing (it needs a small fraction): the call does not terminate\n%s", cfg.CPUBudget, msg)}, ""
	case bytes.Contains(b, []byte("fatal error: all goroutines are asleep - deadlock!")):
		return &Violation{Case: name, Msg: "deadlock: " + msg}, ""
	case bytes.Contains(b, []byte("out of memory")) || bytes.Contains(b, []byte("cannot allocate memory")):
		return nil, "a child ran out of memory in case " + name
	case bytes.Contains(b, []byte("panic:")) || bytes.Contains(b, []byte("fatal error:")) || bytes.Contains(b, []byte("SIGSEGV")):
		if strings.Contains(msg, "harness:") {
			return nil, "harness error: " + msg
		}
		return &Violation{Case: name, Msg: "the process crashed: " + msg}, ""
	}
	return nil, fmt.Sprintf("a child ended with %v in case %s: %s", werr, name, msg)
}

// allBlocked reads a goroutine dump: true if at least one goroutine has
// library frames and all goroutines with library frames are waiting on a
// channel, a wait group or a lock.
func allBlocked(dump []byte) bool {
	n := 0
	for _, g := range strings.Split(string(dump), "\n\n") {
		i := strings.Index(g, "goroutine ")
		if i < 0 || !strings.Contains(g, "gkr-mimc/") {
			continue
		}
		head := g[i:]
		if j := strings.IndexByte(head, '\n'); j > 0 {
			head = head[:j]
		}
		n++
		ok := false
		for _, w := range []string{"chan receive", "chan send", "semacquire", "sync.WaitGroup.Wait", "sync.Mutex", "sync.RWMutex", "sync.Cond", "select"} {
			if strings.Contains(head, w) {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return n > 0
}

// ---------------------------------------------------------------- small helpers

// Eq compares slices of elements.
func Eq(a, b []fr.Element) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// Eq2 compares double slices.
func Eq2(a, b [][]fr.Element) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !Eq(a[i], b[i]) {
			return false
		}
	}
	return true
}

// Clone copies a slice.
func Clone(a []fr.Element) []fr.Element { return append(make([]fr.Element, 0, len(a)), a...) }

// Clone2 copies a double slice.
func Clone2(a [][]fr.Element) [][]fr.Element {
	r := make([][]fr.Element, len(a))
	for i := range a {
		r[i] = Clone(a[i])
	}
	return r
}

// Str prints elements shortly.
func Str(xs ...fr.Element) string {
	s := make([]string, len(xs))
	for i := range xs {
		s[i] = xs[i].ToBigIntRegular(new(big.Int)).String()
	}
	return "[" + strings.Join(s, " ") + "]"
}
