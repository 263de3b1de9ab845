//go:build go1.23

// Package vlib is the monitor runtime shared by every harness in /verif: it
// hands out deterministic cases, records what the monitors observed, and
// writes violations where the driver (check.py) finds them even when the
// process dies right afterwards.
package vlib

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"testing/synctest"
	"time"
)

// R is the run of one property's check in one child process.
type R struct {
	T        *testing.T
	Property string
	Tier     string
	Seed     int64
	shard    int
	shards   int
	only     string
	onlyRe   *regexp.Regexp

	curF *os.File

	mu         sync.Mutex
	evals      int64
	distinct   map[uint64]struct{}
	counts     map[string]int64
	samples    []string
	violations []Violation
	classes    map[string]int
	counter    int

	caseCPU int64 // cpu ns at case start, atomic
	curID   atomic.Value
	cpuLim  time.Duration
}

// Violation is what the oracle saw.
type Violation struct {
	Property string `json:"property"`
	Case     string `json:"case"`
	Class    string `json:"class"`
	Message  string `json:"message"`
	Stack    string `json:"stack,omitempty"`
}

// C is one case.
type C struct {
	r    *R
	ID   string
	Idx  int
	Rng  *rand.Rand
	fail atomic.Int64
}

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

// Run executes the check fn for the property named in VERIF_PROP.
func Run(t *testing.T, checks map[string]func(r *R)) {
	prop := os.Getenv("VERIF_PROP")
	fn, ok := checks[prop]
	if !ok {
		t.Fatalf("no check for property %q", prop)
	}
	seed, _ := strconv.ParseInt(env("VERIF_SEED", "1"), 10, 64)
	r := &R{T: t, Property: prop, Tier: env("VERIF_TIER", "quick"), Seed: seed,
		only: os.Getenv("VERIF_ONLY"), shards: 1,
		distinct: map[uint64]struct{}{}, counts: map[string]int64{}, classes: map[string]int{}}
	if s := os.Getenv("VERIF_SHARD"); s != "" {
		fmt.Sscanf(s, "%d/%d", &r.shard, &r.shards)
	}
	out := os.Getenv("VERIF_OUT")
	if out != "" {
		f, err := os.OpenFile(out+".cur", os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0o644)
		if err != nil {
			t.Fatal(err)
		}
		r.curF = f
	}
	r.cpuLim = 120 * time.Second
	stop := make(chan struct{})
	go r.cpuWatch(stop)
	fn(r)
	close(stop)
	r.flush(true)
}

func cpuNow() int64 {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return ru.Utime.Nano() + ru.Stime.Nano()
}

// cpuWatch turns a case that burns far more processor time than any correct
// execution needs (two minutes where the tree needs milliseconds) into a
// violation. It looks at consumed CPU, never at the wall clock.
//
// It also turns a case whose threads all sleep for 50 s into a deadlock: no
// case waits on the real clock that long, and a thread that is merely starved
// of processor time is runnable, not sleeping.
func (r *R) cpuWatch(stop chan struct{}) {
	runtime.LockOSThread()
	idle, idleCase := 0, ""
	for {
		select {
		case <-stop:
			return
		case <-time.After(2 * time.Second):
		}
		st := atomic.LoadInt64(&r.caseCPU)
		if st != 0 && cpuNow()-st > int64(r.cpuLim) {
			id, _ := r.curID.Load().(string)
			r.add(Violation{Property: r.Property, Case: id, Class: "cpu-divergence",
				Message: fmt.Sprintf("case consumed more than %v of CPU without finishing", r.cpuLim)})
			r.flush(true)
			os.Exit(3)
		}
		id, _ := r.curID.Load().(string)
		if st == 0 || id != idleCase || !allAsleep() {
			idle, idleCase = 0, id
			continue
		}
		if idle++; idle >= 25 {
			r.add(Violation{Property: r.Property, Case: id, Class: "deadlock",
				Message: "the case has been blocked for 50 s with every thread asleep\n" + blockedStacks()})
			r.flush(true)
			os.Exit(3)
		}
	}
}

// allAsleep reports whether every other thread of the process sleeps. It looks
// several times because the runtime itself is awake now and then.
func allAsleep() bool {
	for i := 0; i < 10; i++ {
		if asleepNow() {
			return true
		}
		ts := syscall.Timespec{Nsec: 10e6}
		_ = syscall.Nanosleep(&ts, nil)
	}
	return false
}

func asleepNow() bool {
	self := strconv.Itoa(syscall.Gettid())
	ents, err := os.ReadDir("/proc/self/task")
	if err != nil {
		return false
	}
	for _, e := range ents {
		if e.Name() == self {
			continue
		}
		b, err := os.ReadFile("/proc/self/task/" + e.Name() + "/stat")
		if err != nil {
			continue
		}
		s := string(b)
		if i := strings.LastIndex(s, ") "); i < 0 || len(s) < i+3 || s[i+2] != 'S' {
			return false
		}
	}
	return true
}

// Thorough reports whether the thorough tier runs.
func (r *R) Thorough() bool { return r.Tier == "thorough" }

// N picks the case count of the tier.
func (r *R) N(quick, thorough int) int {
	if r.Thorough() {
		return thorough
	}
	return quick
}

func (r *R) add(v Violation) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.classes[v.Class]++
	if r.classes[v.Class] <= 5 {
		r.violations = append(r.violations, v)
	}
}

// Count adds to a named counter of observed events.
func (r *R) Count(name string, n int) {
	r.mu.Lock()
	r.counts[name] += int64(n)
	r.mu.Unlock()
}

// Count adds to a named counter of observed events.
func (c *C) Count(name string, n int) { c.r.Count(name, n) }

// R returns the run of the case.
func (c *C) R() *R { return c.r }

// Nontrivial records the canonical form of a distinct, non-trivial case.
func (c *C) Nontrivial(format string, a ...any) {
	h := fnv.New64a()
	if len(a) == 0 {
		h.Write([]byte(format))
	} else {
		fmt.Fprintf(h, format, a...)
	}
	c.r.mu.Lock()
	c.r.distinct[h.Sum64()] = struct{}{}
	c.r.mu.Unlock()
}

// Sample keeps a few written-out cases for the evidence file.
func (c *C) Sample(format string, a ...any) {
	c.r.mu.Lock()
	defer c.r.mu.Unlock()
	if len(c.r.samples) < 3 {
		s := fmt.Sprintf(format, a...)
		if len(s) > 400 {
			s = s[:400] + "..."
		}
		c.r.samples = append(c.r.samples, c.ID+": "+s)
	}
}

// Failf records a violation; class identifies the kind of failure.
func (c *C) Failf(class, format string, a ...any) {
	c.fail.Add(1)
	msg := fmt.Sprintf(format, a...)
	if len(msg) > 4000 {
		msg = msg[:4000] + "..."
	}
	c.r.add(Violation{Property: c.r.Property, Case: c.ID, Class: class, Message: msg})
}

// Failed reports whether the case failed.
func (c *C) Failed() bool { return c.fail.Load() > 0 }

// PanicClass is used by callers which guard a single call.
func (c *C) Guard(class string, f func()) (ok bool) {
	defer func() {
		if p := recover(); p != nil {
			ok = false
			c.fail.Add(1)
			c.r.add(Violation{Property: c.r.Property, Case: c.ID, Class: class,
				Message: fmt.Sprintf("panic: %v", p), Stack: string(debug.Stack())})
		}
	}()
	f()
	return true
}

// Cases runs n cases named name/0..n-1, each with its own generator derived
// from the seed, the name and the index.
func (r *R) Cases(name string, n int, f func(c *C)) {
	for i := 0; i < n; i++ {
		r.Case(name+"/"+strconv.Itoa(i), i, f)
	}
}

// Case runs one case.
func (r *R) Case(id string, idx int, f func(c *C)) {
	k := r.counter
	r.counter++
	if r.only != "" {
		if id != r.only {
			return
		}
	} else if k%r.shards != r.shard {
		return
	}
	h := fnv.New64a()
	fmt.Fprintf(h, "%d|%s|%s", r.Seed, r.Property, id)
	c := &C{r: r, ID: id, Idx: idx, Rng: rand.New(rand.NewSource(int64(h.Sum64())))}
	r.cur(id)
	atomic.StoreInt64(&r.caseCPU, cpuNow())
	r.mu.Lock()
	r.evals++
	r.mu.Unlock()
	c.Guard("panic", func() { f(c) })
	atomic.StoreInt64(&r.caseCPU, 0)
	if c.Failed() {
		r.flush(false)
	}
}

// Bubble runs n cases inside a synctest bubble each. The bubble's virtual
// clock only moves when every goroutine of the case is durably blocked, so
// a wait that runs out of virtual time is a proof of a lost wake-up, not a
// slow machine.
func (r *R) Bubble(name string, n int, f func(c *C)) {
	r.Cases(name, n, func(c *C) {
		c.InBubble(func() { f(c) })
	})
}

// InBubble runs f in a synctest bubble; goroutines that stay blocked for ever
// after f returned are reported by f's own monitors, not here, so leftover
// goroutines are released by Linger.
func (c *C) InBubble(f func()) {
	defer func() {
		if p := recover(); p != nil {
			s := fmt.Sprint(p)
			if strings.Contains(s, "deadlock") {
				c.Failf("deadlock", "every goroutine of the case is blocked for ever: %v\n%s", s, blockedStacks())
				return
			}
			panic(p)
		}
	}()
	synctest.Test(c.r.T, func(t *testing.T) {
		c.Guard("panic", f)
	})
}

func blockedStacks() string {
	buf := make([]byte, 1<<20)
	n := runtime.Stack(buf, true)
	s := string(buf[:n])
	// The runtime's own waiters and the monitor are of no interest.
	var keep []string
	for _, g := range strings.Split(s, "\n\n") {
		if !strings.Contains(g, "cpuWatch") && !strings.Contains(g, "blockedStacks") && !strings.Contains(g, "testing.(*T).Run") {
			keep = append(keep, g)
		}
	}
	s = strings.Join(keep, "\n\n")
	if len(s) > 3500 {
		s = s[:3500]
	}
	return s
}

func (r *R) cur(id string) {
	r.curID.Store(id)
	if r.curF == nil {
		return
	}
	b := make([]byte, 160)
	copy(b, id)
	for i := len(id); i < len(b); i++ {
		b[i] = ' '
	}
	_, _ = r.curF.WriteAt(b, 0)
}

type result struct {
	Done       bool             `json:"done"`
	Evals      int64            `json:"evaluations"`
	Distinct   []string         `json:"distinct"`
	Counts     map[string]int64 `json:"counts"`
	Samples    []string         `json:"samples"`
	Violations []Violation      `json:"violations"`
	Classes    map[string]int   `json:"classes"`
}

func (r *R) flush(done bool) {
	out := os.Getenv("VERIF_OUT")
	r.mu.Lock()
	defer r.mu.Unlock()
	res := result{Done: done, Evals: r.evals, Counts: r.counts, Samples: r.samples,
		Violations: r.violations, Classes: r.classes}
	if done {
		for h := range r.distinct {
			res.Distinct = append(res.Distinct, strconv.FormatUint(h, 36))
		}
		sort.Strings(res.Distinct)
	}
	b, err := json.Marshal(res)
	if err != nil {
		panic(err)
	}
	if out == "" {
		if done {
			res.Distinct = nil
			b, _ = json.MarshalIndent(res, "", " ")
			fmt.Fprintf(os.Stderr, "%s distinct=%d\n", b, len(r.distinct))
		}
		return
	}
	tmp := out + ".tmp"
	if err := os.WriteFile(tmp, b, 0o644); err != nil {
		panic(err)
	}
	if err := os.Rename(tmp, out); err != nil {
		panic(err)
	}
}

// Brief is fmt.Sprintf.
func Brief(format string, a ...any) string { return fmt.Sprintf(format, a...) }

// Settle waits until every other goroutine of the bubble is durably blocked.
func Settle() { synctest.Wait() }
