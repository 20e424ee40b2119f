package main_test

// Shared machinery of the run-time monitors: deterministic cases, operation
// traces, violation reports, watchdog. Nothing here knows about a property.

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"net/netip"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"go.uber.org/zap"
	"go.uber.org/zap/zapcore"
)

type vCase struct {
	name string
	fn   func(c *vc)
}

type vViolation struct {
	Case  string   `json:"case"`
	Key   string   `json:"key"`
	Msg   string   `json:"msg"`
	Trace []string `json:"trace,omitempty"`
}

type vReport struct {
	Property    string           `json:"property"`
	Rule        string           `json:"rule"`
	Cases       int              `json:"cases"`
	Evaluations int64            `json:"evaluations"`
	Distinct    int              `json:"distinct_nontrivial"`
	Counters    map[string]int64 `json:"counters"`
	Samples     []any            `json:"samples"`
	Violations  []vViolation     `json:"violations"`
	Inconcl     []string         `json:"inconclusive"`
	Complete    bool             `json:"complete"`
}

type vRun struct {
	t        *testing.T
	prop     string
	tier     string
	seed     uint64
	mu       sync.Mutex
	rep      vReport
	distinct map[uint64]struct{}
	journal  *os.File
	viol     *os.File
	tmp      string
	stop     atomic.Bool
	limit    time.Duration // a case that takes longer in real time counts as stuck
}

// vc is the context of one case.
type vc struct {
	*vRun
	name   string
	rng    *rand.Rand
	trace  []string
	cut    int
	tmu    sync.Mutex
	tmpN   int
	inSync bool
	begun  time.Time
}

type vAbort struct{}

func vHash(parts ...any) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		fmt.Fprintf(h, "%v\x00", p)
	}
	return h.Sum64()
}

func vThorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// vScale returns q in the quick tier and th in the thorough tier.
func vScale(q, th int) int {
	if vThorough() {
		return th
	}
	return q
}

func vStart(t *testing.T, prop, rule string) *vRun {
	seed, _ := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	if seed == 0 {
		seed = 1
	}
	out := os.Getenv("VERIF_OUT")
	if out == "" {
		t.Fatal("VERIF_OUT is not set: run through /verif/check.py")
	}
	r := &vRun{t: t, prop: prop, tier: os.Getenv("VERIF_TIER"), seed: seed, distinct: map[uint64]struct{}{}}
	r.rep = vReport{Property: prop, Rule: rule, Counters: map[string]int64{}, Samples: []any{}}
	r.tmp = os.Getenv("VERIF_TMP")
	if r.tmp == "" {
		r.tmp = t.TempDir()
	}
	var err error
	if r.journal, err = os.OpenFile(out+".journal", os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644); err != nil {
		t.Fatal(err)
	}
	if r.viol, err = os.OpenFile(out+".viol", os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644); err != nil {
		t.Fatal(err)
	}
	zap.ReplaceGlobals(zap.New(zapcore.NewNopCore(), zap.WithFatalHook(fatalHook{r})))
	return r
}

// fatalHook reports code that wants to end the whole process, instead of letting it do so.
type fatalHook struct{ r *vRun }

func (h fatalHook) OnWrite(ce *zapcore.CheckedEntry, _ []zapcore.Field) {
	v := vViolation{Key: "fatal", Msg: "the code ends the process: " + ce.Message + "\n" + string(debug.Stack())}
	h.r.mu.Lock()
	h.r.rep.Violations = append(h.r.rep.Violations, v)
	b, _ := json.Marshal(v)
	_, _ = h.r.viol.Write(append(b, '\n'))
	h.r.stop.Store(true)
	h.r.mu.Unlock()
	runtime.Goexit()
}

// run executes the cases on a pool of workers.
func (r *vRun) run(cases []vCase, workers int) { r.runMode(cases, workers, false) }

// runSync executes each case inside its own bubble of virtual time.
func (r *vRun) runSync(cases []vCase, workers int) { r.runMode(cases, workers, true) }

func (r *vRun) runMode(cases []vCase, workers int, sync_ bool) {
	if only := os.Getenv("VERIF_CASE"); only != "" {
		kept := cases[:0:0]
		for _, c := range cases {
			if c.name == only {
				kept = append(kept, c)
			}
		}
		cases = kept
	}
	if workers < 1 {
		workers = runtime.GOMAXPROCS(0)
	}
	type slot struct {
		c    *vc
		real time.Time
	}
	active := map[int]*slot{}
	var amu sync.Mutex
	wdStop := make(chan struct{})
	limit := r.limit
	if limit == 0 {
		limit = 120 * time.Second
	}
	if s, err := strconv.Atoi(os.Getenv("VERIF_CASE_LIMIT")); err == nil && s > 0 {
		limit = time.Duration(s) * time.Second
	}
	go func() { // Watchdog: a case that makes no progress for `limit` of real time.
		tk := time.NewTicker(time.Second)
		defer tk.Stop()
		for {
			select {
			case <-wdStop:
				return
			case <-tk.C:
			}
			amu.Lock()
			var stuck *slot
			for _, s := range active {
				if time.Since(s.real) > limit {
					stuck = s
				}
			}
			amu.Unlock()
			if stuck != nil {
				r.hang(stuck.c, limit)
			}
		}
	}()
	ch := make(chan vCase)
	var wg sync.WaitGroup
	for w := range workers {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for cs := range ch {
				if r.stop.Load() {
					continue
				}
				c := &vc{vRun: r, name: cs.name, inSync: sync_, begun: time.Now()}
				h := vHash(r.seed, r.prop, cs.name)
				c.rng = rand.New(rand.NewPCG(h, h^0x9e3779b97f4a7c15))
				amu.Lock()
				active[w] = &slot{c, time.Now()}
				amu.Unlock()
				fmt.Fprintf(r.journal, "S %s\n", cs.name)
				if sync_ {
					synctest.Test(r.t, func(*testing.T) { c.exec(cs.fn) })
				} else {
					c.exec(cs.fn)
				}
				fmt.Fprintf(r.journal, "E %s\n", cs.name)
				amu.Lock()
				delete(active, w)
				amu.Unlock()
				r.mu.Lock()
				r.rep.Cases++
				r.mu.Unlock()
			}
		}()
	}
	for _, cs := range cases {
		ch <- cs
	}
	close(ch)
	wg.Wait()
	close(wdStop)
}

func (c *vc) exec(fn func(*vc)) {
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(vAbort); ok {
				return
			}
			st := string(debug.Stack())
			if vRepoFrame(st) {
				c.report("panic", fmt.Sprintf("panic: %v\n%s", p, st))
			} else {
				c.inconclusive(fmt.Sprintf("harness panic in %s: %v\n%s", c.name, p, st))
			}
			if c.inSync {
				c.finishNow()
			}
		}
	}()
	fn(c)
}

// vRepoFrame tells whether a goroutine stack contains a frame of the code under test.
func vRepoFrame(stack string) bool {
	for _, l := range strings.Split(stack, "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "/repo/") && !strings.Contains(l, "zz_verif") {
			return true
		}
	}
	return false
}

func (r *vRun) hang(c *vc, limit time.Duration) {
	dump := func() string {
		buf := make([]byte, 8<<20)
		return string(buf[:runtime.Stack(buf, true)])
	}
	one := dump()
	time.Sleep(3 * time.Second)
	two := dump()
	stuck := []string{}
	for _, g := range strings.Split(two, "\n\n") {
		if !vRepoFrame(g) {
			continue
		}
		head, _, _ := strings.Cut(g, " [")
		if strings.Contains(one, head+" [") {
			stuck = append(stuck, g)
		}
	}
	if len(stuck) > 0 {
		if len(stuck) > 12 {
			stuck = stuck[:12]
		}
		c.report("hang", fmt.Sprintf("case makes no progress for %s; goroutines of the code under test that stay:\n%s",
			limit, strings.Join(stuck, "\n\n")))
	} else {
		c.inconclusive(fmt.Sprintf("case %s makes no progress for %s but no frame of the code under test is involved\n%s",
			c.name, limit, two))
	}
	c.finishNow()
}

// op appends to the trace of the case.
func (c *vc) op(format string, args ...any) {
	c.tmu.Lock()
	defer c.tmu.Unlock()
	if len(c.trace) >= 1200 {
		c.cut += 600
		c.trace = append(c.trace[:0], c.trace[600:]...)
	}
	c.trace = append(c.trace, fmt.Sprintf(format, args...))
}

func (c *vc) report(key, msg string) {
	c.tmu.Lock()
	tr := append([]string(nil), c.trace...)
	if c.cut > 0 {
		tr = append([]string{fmt.Sprintf("... %d operations omitted", c.cut)}, tr...)
	}
	c.tmu.Unlock()
	v := vViolation{Case: c.name, Key: key, Msg: msg, Trace: tr}
	c.mu.Lock()
	defer c.mu.Unlock()
	c.rep.Violations = append(c.rep.Violations, v)
	b, _ := json.Marshal(v)
	_, _ = c.viol.Write(append(b, '\n'))
	if len(c.rep.Violations) >= 3 {
		c.stop.Store(true)
	}
}

// fail records a violation and ends the case.
func (c *vc) fail(key, format string, args ...any) {
	c.report(key, fmt.Sprintf(format, args...))
	if c.inSync {
		c.finishNow() // A bubble cannot be left with goroutines still blocked in it.
	}
	panic(vAbort{})
}

func (c *vc) inconclusive(msg string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.rep.Inconcl = append(c.rep.Inconcl, msg)
}

func (c *vc) finishNow() {
	c.vRun.write(false)
	os.Exit(7)
}

func (c *vc) check(ok bool, key, format string, args ...any) {
	if !ok {
		c.fail(key, format, args...)
	}
}

func (c *vc) noErr(err error, key, format string, args ...any) {
	if err != nil {
		c.fail(key, "%s: unexpected error: %v", fmt.Sprintf(format, args...), err)
	}
}

// must is for the harness's own set-up steps.
func (c *vc) must(err error) {
	if err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
}

func (r *vRun) count(name string, n int) {
	r.mu.Lock()
	r.rep.Counters[name] += int64(n)
	r.mu.Unlock()
}

func (r *vRun) max(name string, n int) {
	r.mu.Lock()
	if int64(n) > r.rep.Counters[name] {
		r.rep.Counters[name] = int64(n)
	}
	r.mu.Unlock()
}

// eval counts one evaluation of the oracle; a non-zero state hash marks it as non-trivial.
func (r *vRun) eval(state uint64) {
	r.mu.Lock()
	r.rep.Evaluations++
	if state != 0 {
		r.distinct[state] = struct{}{}
	}
	r.mu.Unlock()
}

func (r *vRun) sample(v any) {
	r.mu.Lock()
	if len(r.rep.Samples) < 4 {
		r.rep.Samples = append(r.rep.Samples, v)
	}
	r.mu.Unlock()
}

// sampleTrace keeps the trace of this case as a sample of the run.
func (c *vc) sampleTrace(n int) {
	c.tmu.Lock()
	tr := c.trace
	if len(tr) > n {
		tr = tr[:n]
	}
	tr = append([]string(nil), tr...)
	c.tmu.Unlock()
	c.sample(map[string]any{"case": c.name, "trace": tr})
}

func (c *vc) dir() string {
	c.tmu.Lock()
	c.tmpN++
	n := c.tmpN
	c.tmu.Unlock()
	d := fmt.Sprintf("%s/%016x-%d", c.tmp, vHash(c.name), n)
	c.must(os.MkdirAll(d, 0o755))
	return d
}

func (r *vRun) write(complete bool) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.rep.Distinct = len(r.distinct)
	r.rep.Complete = complete
	b, err := json.MarshalIndent(r.rep, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, "cannot marshal report:", err)
		os.Exit(9)
	}
	_ = os.WriteFile(os.Getenv("VERIF_OUT"), b, 0o644)
}

func (r *vRun) finish() { r.write(true) }

func vKeys[K comparable, V any](m map[K]V, less func(a, b K) bool) []K {
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return less(ks[i], ks[j]) })
	return ks
}

func vCases(n int, prefix string, fn func(c *vc)) []vCase {
	cs := make([]vCase, n)
	for i := range cs {
		cs[i] = vCase{name: fmt.Sprintf("%s-%d", prefix, i), fn: fn}
	}
	return cs
}

func vAddr(s string) netip.Addr { return netip.MustParseAddr(s) }

// copyDir copies a database directory which may be open: the store compacts its tables in the background,
// so the copy is taken again until nothing changed while it was made.
func copyDir(c *vc, from, to string) {
	list := func() string {
		var sb strings.Builder
		_ = filepath.Walk(from, func(p string, fi os.FileInfo, err error) error {
			if err != nil {
				fmt.Fprintln(&sb, p, err, time.Now().UnixNano())
				return nil
			}
			fmt.Fprintln(&sb, p, fi.Size(), fi.ModTime().UnixNano())
			return nil
		})
		return sb.String()
	}
	for try := 0; ; try++ {
		before := list()
		c.must(os.RemoveAll(to))
		err := filepath.Walk(from, func(p string, fi os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			rel, _ := filepath.Rel(from, p)
			dst := filepath.Join(to, rel)
			if fi.IsDir() {
				return os.MkdirAll(dst, 0o755)
			}
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			return os.WriteFile(dst, b, 0o644)
		})
		if err == nil && list() == before {
			return
		}
		if try > 1000 {
			c.must(fmt.Errorf("directory %s keeps changing: %v", from, err))
		}
		time.Sleep(time.Millisecond)
	}
}

// journalOf returns the newest journal file of the database.
func journalOf(c *vc, dir string) (string, int64) {
	ms, err := filepath.Glob(filepath.Join(dir, "*", "*.log"))
	c.must(err)
	if len(ms) == 0 {
		return "", 0
	}
	sort.Strings(ms)
	f := ms[len(ms)-1]
	st, err := os.Stat(f)
	c.must(err)
	return f, st.Size()
}
