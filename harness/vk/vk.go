// Package vk is the small kit every check of /verif is written with: it runs
// rapid properties with per-sub-check case counts, a seed that is a pure
// function of VERIF_SEED and the sub-check's name, and counters that become
// the evidence file.
package vk

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Sub is what one sub-check measured.
type Sub struct {
	Name       string         `json:"name"`
	Evals      int            `json:"evaluations"`
	NonTrivial int            `json:"nontrivial"`
	Distinct   int            `json:"distinct_nontrivial"`
	Classes    map[string]int `json:"classes,omitempty"`
	Samples    []string       `json:"samples,omitempty"`
	Failed     bool           `json:"failed"`
	Seconds    float64        `json:"seconds"`
	keys       map[uint64]bool
}

type report struct {
	Property string   `json:"property"`
	Rule     string   `json:"rule"`
	Assume   []string `json:"assumptions,omitempty"`
	Subs     []*Sub   `json:"subs"`
	Known    []string `json:"known,omitempty"`
}

// P is one property's run.
type P struct {
	T    *testing.T
	rep  report
	mu   sync.Mutex
	only string
}

// Thorough reports whether the deep tier is asked for.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// Seed is VERIF_SEED (1 when unset).
func Seed() uint64 {
	n, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return n
}

// SubSeed derives a non-zero seed from VERIF_SEED and a name.
func SubSeed(name string) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s", Seed(), name)
	z := h.Sum64() + 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	z ^= z >> 31
	z >>= 8 // rapid adds triangular numbers to it
	if z == 0 {
		z = 1
	}
	return z
}

// Start begins a property's run; the report is written when the test ends.
func Start(t *testing.T, id, rule string, assume ...string) *P {
	p := &P{T: t, rep: report{Property: id, Rule: rule, Assume: assume}}
	p.only = os.Getenv("VK_ONLY")
	t.Cleanup(p.write)
	return p
}

func (p *P) write() {
	p.mu.Lock()
	defer p.mu.Unlock()
	out := os.Getenv("VK_OUT")
	if out == "" {
		for _, s := range p.rep.Subs {
			p.T.Logf("%-28s evals=%-7d nontrivial=%-7d distinct=%-7d %.2fs %v", s.Name, s.Evals, s.NonTrivial, s.Distinct, s.Seconds, s.Classes)
		}
		return
	}
	b, err := json.MarshalIndent(&p.rep, "", " ")
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(out, b, 0666); err != nil {
		panic(err)
	}
}

// C is one generated case.
type C struct {
	*rapid.T
	s     *Sub
	mu    *sync.Mutex
	start bool
}

// Fatalf fails the case, with a message short enough to read.
func (c *C) Fatalf(format string, args ...interface{}) {
	c.T.Helper()
	c.T.Fatalf("%s", short(fmt.Sprintf(format, args...), 3000))
}

// Errorf is Fatalf without stopping the case.
func (c *C) Errorf(format string, args ...interface{}) {
	c.T.Helper()
	c.T.Errorf("%s", short(fmt.Sprintf(format, args...), 3000))
}

func short(s string, n int) string {
	if len(s) > n {
		return s[:n*2/3] + " ...... " + s[len(s)-n/3:]
	}
	return s
}

// NonTrivial counts this case as non-trivial under the rule, identified by
// the given parts. Call it at most once per case.
func (c *C) NonTrivial(parts ...interface{}) {
	h := fnv.New64a()
	for _, p := range parts {
		switch p := p.(type) {
		case []byte:
			h.Write(p)
		case string:
			h.Write([]byte(p))
		default:
			fmt.Fprintf(h, "%#v", p)
		}
		h.Write([]byte{0xff, 0})
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	c.s.NonTrivial++
	k := h.Sum64()
	if !c.s.keys[k] {
		c.s.keys[k] = true
		c.s.Distinct++
	}
}

// Sample keeps a few actual cases, written out.
func (c *C) Sample(format string, args ...interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	// an early one, and ones from further into the run
	n := len(c.s.Samples)
	if n >= 4 || (n > 0 && c.s.Evals < 10*n*n) {
		return
	}
	s := fmt.Sprintf(format, args...)
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	c.s.Samples = append(c.s.Samples, s)
}

// Class counts a label.
func (c *C) Class(names ...string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, n := range names {
		c.s.Classes[n]++
	}
}

func setflag(name, val string) {
	if err := flag.Set(name, val); err != nil {
		panic(err)
	}
}

// Scale applies VK_SCALE (a float) to a case count.
func Scale(n int) int {
	if f, err := strconv.ParseFloat(os.Getenv("VK_SCALE"), 64); err == nil && f > 0 {
		n = int(float64(n) * f)
		if n < 1 {
			n = 1
		}
	}
	return n
}

// Check runs one sub-check: quick or thorough cases of prop.
func (p *P) Check(name string, quick, thorough int, prop func(c *C)) {
	p.T.Helper()
	if p.only != "" && p.only != name {
		return
	}
	n := quick
	if Thorough() {
		n = thorough
	}
	n = Scale(n)
	s := &Sub{Name: name, Classes: map[string]int{}, keys: map[uint64]bool{}}
	p.mu.Lock()
	p.rep.Subs = append(p.rep.Subs, s)
	p.mu.Unlock()
	ok := p.T.Run(name, func(t *testing.T) {
		start := time.Now()
		defer func() { s.Seconds = time.Since(start).Seconds() }()
		setflag("rapid.checks", strconv.Itoa(n))
		if Thorough() {
			setflag("rapid.shrinktime", "60s")
		} else {
			setflag("rapid.shrinktime", "15s")
		}
		if f := os.Getenv("VK_FAILFILE"); f != "" && p.only == name {
			setflag("rapid.failfile", f)
		}
		setflag("rapid.seed", strconv.FormatUint(SubSeed(p.rep.Property+"/"+name), 10))
		rapid.Check(t, func(rt *rapid.T) {
			c := &C{T: rt, s: s, mu: &p.mu}
			p.mu.Lock()
			s.Evals++
			p.mu.Unlock()
			defer p.watch(name)()
			prop(c)
		})
	})
	s.Failed = !ok
}

// caseLimit ends a case that hangs. Cases take milliseconds, a few of them
// seconds; the limit leaves a loaded machine room.
const caseLimit = 150 * time.Second

// watch fails the run when the case now starting does not end.
func (p *P) watch(name string) func() {
	w := time.AfterFunc(caseLimit, func() {
		buf := make([]byte, 1<<16)
		buf = buf[:runtime.Stack(buf, true)]
		fmt.Printf("--- FAIL: Test%s/%s: a case did not end within %v\n%s\n", p.rep.Property, name, caseLimit, short(string(buf), 12000))
		p.write()
		os.Exit(1)
	})
	return func() { w.Stop() }
}

// Enumerate runs a finite list of cases outside rapid, for spaces small
// enough to be walked completely.
func (p *P) Enumerate(name string, f func(t *testing.T, e *E)) {
	p.T.Helper()
	if p.only != "" && p.only != name {
		return
	}
	s := &Sub{Name: name, Classes: map[string]int{}, keys: map[uint64]bool{}}
	p.mu.Lock()
	p.rep.Subs = append(p.rep.Subs, s)
	p.mu.Unlock()
	ok := p.T.Run(name, func(t *testing.T) {
		start := time.Now()
		defer func() { s.Seconds = time.Since(start).Seconds() }()
		f(t, &E{C: &C{s: s, mu: &p.mu}, s: s})
	})
	s.Failed = !ok
}

// E counts enumerated cases.
type E struct {
	*C
	s *Sub
}

// Eval counts one enumerated case.
func (e *E) Eval() { e.mu.Lock(); e.s.Evals++; e.mu.Unlock() }

// Known handles a listed known finding: still is run, and reports whether the
// recorded input still fails and how. An entry that is not listed in
// known_findings.txt is a failure like any other.
func (p *P) Known(key string, still func() (bool, string)) {
	if p.only != "" {
		return
	}
	bad, what := still()
	if !bad {
		return
	}
	b, _ := os.ReadFile(filepath.Join(Root(), "known_findings.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "KNOWN-FINDING: property="+p.rep.Property+" key="+key+" ") {
			p.rep.Known = append(p.rep.Known, l)
			return
		}
	}
	p.T.Errorf("unlisted finding %s: %s", key, what)
}

// Root is /verif.
func Root() string {
	if r := os.Getenv("VK_ROOT"); r != "" {
		return r
	}
	_, f, _, _ := runtime.Caller(0)
	return filepath.Dir(filepath.Dir(filepath.Dir(f)))
}

// Trap runs f and returns a description of its panic, if it panics.
func Trap(f func()) (msg string) {
	defer func() {
		if e := recover(); e != nil {
			buf := make([]byte, 4096)
			buf = buf[:runtime.Stack(buf, false)]
			msg = fmt.Sprintf("panic: %v\n%s", e, buf)
		}
	}()
	f()
	return ""
}

var hung atomic.Bool

// Patience is d, or much less once something has hung: there is a violation to
// report then, and the rest of the run only makes it small.
func Patience(d time.Duration) time.Duration {
	if hung.Load() && d > 8*time.Second {
		return 8 * time.Second
	}
	return d
}

// Hung notes that something did not end.
func Hung() { hung.Store(true) }

// Within runs f in a goroutine of its own and reports whether it finished in
// time. The limit is for hangs only: choose it orders of magnitude above what
// the operation takes. Once something has hung there is a violation to report,
// and the limit for the rest of the run, which makes it small, is shorter.
func Within(d time.Duration, f func()) bool {
	if hung.Load() && d > 3*time.Second {
		d = 3 * time.Second
	}
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
		return true
	case <-time.After(d):
		hung.Store(true)
		return false
	}
}

// SortedKeys returns a map's keys in order.
func SortedKeys(m map[string]int) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
