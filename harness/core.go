// Harness core: case context, deterministic PRNG, verdict plumbing.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
)

// Rng is a splitmix64 generator: every random choice of a case derives from (seed, property, case).
type Rng struct{ s uint64 }

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	var z = r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Int returns a value in [0,n).
func (r *Rng) Int(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// Range returns a value in [a,b].
func (r *Rng) Range(a, b int) int { return a + r.Int(b-a+1) }

// P is true with probability n/d.
func (r *Rng) P(n, d int) bool { return r.Int(d) < n }

func pick[T any](r *Rng, l ...T) T  { return l[r.Int(len(l))] }
func pickOf[T any](r *Rng, l []T) T { return l[r.Int(len(l))] }
func shuffle[T any](r *Rng, l []T) {
	for i := len(l) - 1; i > 0; i-- {
		var j = r.Int(i + 1)
		l[i], l[j] = l[j], l[i]
	}
}

func hash64(h uint64, s string) uint64 {
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 0x100000001b3
	}
	return h
}

func mkRng(seed int64, prop string, n int) *Rng {
	var r = &Rng{s: hash64(uint64(seed)*0x9e3779b97f4a7c15+0xcbf29ce484222325, prop) + uint64(n)*0xd1342543de82ef95}
	r.U64()
	r.U64()
	return r
}

// violation is the panic value used to abort a case with a verdict.
type violation struct {
	msg  string
	sig  string
	stop bool // nothing more can be run in this process
}

// skipcase aborts a case which could not be set up (never a verdict).
type skipcase struct{ why string }

// C is the context of one case.
type C struct {
	ID   string
	N    int
	Seed int64
	Tier string
	R    *Rng

	mux     sync.Mutex
	trace   []string
	ntrace  int
	dir     string
	ev      map[string]int64
	hash    uint64
	nontriv bool
	sample  string
}

func newC(id string, n int, seed int64, tier string) *C {
	return &C{ID: id, N: n, Seed: seed, Tier: tier, R: mkRng(seed, id, n), ev: map[string]int64{}, hash: 0xcbf29ce484222325}
}

// Dir returns the scratch directory of the case, removed when the case ends.
func (c *C) Dir() string {
	if c.dir == "" {
		var d, err = os.MkdirTemp("", "c"+c.ID+"-")
		if err != nil {
			panic(skipcase{"scratch directory: " + err.Error()})
		}
		c.dir = d
	}
	return c.dir
}

func (c *C) cleanup() {
	if c.dir != "" {
		os.RemoveAll(c.dir)
	}
}

// Path returns a path in the scratch directory.
func (c *C) Path(el ...string) string {
	return filepath.Join(append([]string{c.Dir()}, el...)...)
}

const maxtrace = 400

// T records a step of the case for the replay file, and mixes it into the case's identity.
func (c *C) T(format string, args ...any) {
	var s = fmt.Sprintf(format, args...)
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	c.mux.Lock()
	defer c.mux.Unlock()
	c.hash = hash64(c.hash, s)
	c.ntrace++
	if len(c.trace) < maxtrace {
		c.trace = append(c.trace, s)
	}
}

// Mix adds to the identity of the case without recording text.
func (c *C) Mix(s string) {
	c.mux.Lock()
	c.hash = hash64(c.hash, s)
	c.mux.Unlock()
}

// Ev counts observed events.
func (c *C) Ev(name string, n int) {
	c.mux.Lock()
	c.ev[name] += int64(n)
	c.mux.Unlock()
}

// NonTrivial marks the case as one which exercised the property.
func (c *C) NonTrivial() {
	c.mux.Lock()
	c.nontriv = true
	c.mux.Unlock()
}

// Fail aborts the case with a violation. Only from the case's own goroutine.
func (c *C) Fail(format string, args ...any) {
	panic(&violation{msg: fmt.Sprintf(format, args...)})
}

// FailSig is Fail with a signature that the known-findings file may list.
func (c *C) FailSig(sig, format string, args ...any) {
	panic(&violation{msg: fmt.Sprintf(format, args...), sig: sig})
}

// Check fails unless ok.
func (c *C) Check(ok bool, format string, args ...any) {
	if !ok {
		c.Fail(format, args...)
	}
}

// NoErr fails when err is not nil.
func (c *C) NoErr(err error, format string, args ...any) {
	if err != nil {
		c.Fail("%s: unexpected error: %v", fmt.Sprintf(format, args...), err)
	}
}

// Env aborts the case without a verdict when the environment failed.
func (c *C) Env(err error) {
	if err != nil {
		panic(skipcase{err.Error()})
	}
}

// Go runs f and turns a panic into an error text (for goroutines of a case).
func guard(f func()) (msg string) {
	defer func() {
		if e := recover(); e != nil {
			if v, ok := e.(*violation); ok {
				msg = v.msg
				return
			}
			msg = fmt.Sprintf("panic: %v\n%s", e, debug.Stack())
		}
	}()
	f()
	return
}

// Prop is a registered property check.
type Prop struct {
	ID       string
	Level    string
	Quick    int // number of cases
	Thorough int
	Workers  int // 0: all cores
	Rule     string
	Assume   []string
	MinEv    map[string]int64 // events which a run has to have observed, otherwise it is inconclusive
	Setup    func(seed int64, tier string) error
	Run      func(c *C)
	Final    func() string // verdict on what was aggregated over all cases
	Serial   bool
}

var props = map[string]*Prop{}

func register(p *Prop) {
	props[p.ID] = p
}

func sortedKeys[V any](m map[string]V) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func quote(s string) string {
	if len(s) > 80 {
		return fmt.Sprintf("%q...(%d)", s[:80], len(s))
	}
	return fmt.Sprintf("%q", s)
}

func quoteAll(l []string) string {
	var b strings.Builder
	for i, s := range l {
		if i > 0 {
			b.WriteString(" ")
		}
		if i >= 40 {
			fmt.Fprintf(&b, "...(%d)", len(l))
			break
		}
		b.WriteString(quote(s))
	}
	return "[" + b.String() + "]"
}
