package main

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"time"

	"pgregory.net/rapid"
)

// Violation is one failing case.
type Violation struct {
	Part  string          `json:"part"`
	Key   string          `json:"key"` // root-cause class, matched against known findings
	Msg   string          `json:"msg"`
	Case  json.RawMessage `json:"case"`
	Flaky bool            `json:"flaky,omitempty"`
}

// Stats are what a part measured on this run.
type Stats struct {
	Evaluations int64            `json:"evaluations"`
	Skipped     int64            `json:"skipped"` // not executed because the time budget ended
	Foreign     int64            `json:"foreign"` // stopped at a divergence that belongs to another property
	Nontrivial  map[string]bool  `json:"nontrivial"`
	Classes     map[string]int64 `json:"classes"`
	Samples     []any            `json:"samples"`
}

func newStats() *Stats {
	return &Stats{Nontrivial: map[string]bool{}, Classes: map[string]int64{}}
}

func (s *Stats) merge(o *Stats) {
	s.Evaluations += o.Evaluations
	s.Skipped += o.Skipped
	s.Foreign += o.Foreign
	for k := range o.Nontrivial {
		s.Nontrivial[k] = true
	}
	for k, v := range o.Classes {
		s.Classes[k] += v
	}
	if len(s.Samples) < 3 {
		s.Samples = append(s.Samples, o.Samples...)
	}
}

// Run is the context of one worker process.
type Run struct {
	Prop     string
	Tier     string
	Seed     uint64
	Worker   int
	Workers  int
	Deadline time.Time
	Known    map[string]string // key -> description
	KnownHit map[string]string
	Stats    map[string]*Stats
	progress *progress
}

// progress records the case being executed, for the case that it kills or
// hangs the process.
type progress struct {
	f     *os.File
	mu    sync.Mutex
	part  string
	raw   []byte
	start time.Time
}

func (p *progress) begin(part string, raw []byte) {
	if p == nil {
		return
	}
	p.mu.Lock()
	p.part, p.raw, p.start = part, raw, time.Now()
	p.mu.Unlock()
	b := append([]byte(fmt.Sprintf("%s %d\n", part, len(raw))), raw...)
	p.f.WriteAt(b, 0)
}

func (p *progress) end() {
	if p == nil {
		return
	}
	p.mu.Lock()
	p.start = time.Time{}
	p.mu.Unlock()
}

// hung returns the case that has been running for longer than the limit.
func (p *progress) hung(limit time.Duration) *Violation {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.start.IsZero() || time.Since(p.start) < limit {
		return nil
	}
	b := make([]byte, 1<<20)
	s := string(b[:runtime.Stack(b, true)])
	if !fromRepo(s) {
		return nil
	}
	if len(s) > 20000 {
		s = s[:20000]
	}
	return &Violation{Part: p.part, Key: "hang", Msg: fmt.Sprintf("the case has not finished after %v:\n%s", limit, s), Case: append(json.RawMessage(nil), p.raw...)}
}

// X is the context of one case.
type X struct {
	R          *Run
	mu         sync.Mutex
	classes    map[string]int64
	nontrivial bool
	cleanup    []func()
}

type failure struct {
	tags []string
	key  string
	msg  string
}

// Class counts a feature of the case.
func (x *X) Class(format string, a ...any) {
	x.mu.Lock()
	x.classes[fmt.Sprintf(format, a...)]++
	x.mu.Unlock()
}

// NonTrivial marks the case as non-trivial by the rule of its part.
func (x *X) NonTrivial() {
	x.mu.Lock()
	x.nontrivial = true
	x.mu.Unlock()
}

// Defer registers a function to run at the end of the case.
func (x *X) Defer(f func()) { x.cleanup = append(x.cleanup, f) }

// Fail ends the case with a divergence of the given properties (all if empty).
func (x *X) Fail(key string, tags []string, format string, a ...any) {
	panic(&failure{tags, key, fmt.Sprintf(format, a...)})
}

// Failp ends the case with a divergence of the property under check.
func (x *X) Failp(key string, format string, a ...any) {
	panic(&failure{nil, key, fmt.Sprintf(format, a...)})
}

// HarnessError is a failure of the machinery itself: an error of the check.
type HarnessError struct{ Err any }

// Must reports a failure of the machinery, never a violation.
func Must(err error) {
	if err != nil {
		panic(HarnessError{fmt.Sprintf("%v\n%s", err, debug.Stack())})
	}
}

func bug(format string, a ...any) {
	panic(HarnessError{fmt.Sprintf(format+"\n%s", append(a, debug.Stack())...)})
}

// Part is one explored sub-check of a property.
type Part interface {
	Name() string
	Rule() string
	Explore(r *Run) *Violation
	Replay(r *Run, raw json.RawMessage) *Violation
}

type prop[C any] struct {
	name     string
	rule     string
	quick    int
	thorough int
	single   bool // run in the first worker only
	shrink   time.Duration
	gen      func(t *rapid.T) C
	run      func(x *X, c C)
}

func (p *prop[C]) Name() string { return p.name }
func (p *prop[C]) Rule() string { return p.rule }

// exec runs one case and returns its violation of the property, if any.
func (p *prop[C]) exec(r *Run, c C, st *Stats) (v *Violation) {
	x := &X{R: r, classes: map[string]int64{}}
	raw, err := json.Marshal(c)
	Must(err)
	r.progress.begin(p.name, raw)
	defer r.progress.end()
	func() {
		defer func() {
			e := recover()
			for i := len(x.cleanup) - 1; i >= 0; i-- {
				x.cleanup[i]()
			}
			if e == nil {
				return
			}
			f, ok := e.(*failure)
			if !ok {
				if h, ok := e.(HarnessError); ok {
					panic(h)
				}
				s := string(debug.Stack())
				if re, ok := e.(runtime.Error); ok && strings.Contains(re.Error(), "nil pointer") {
					// A result is missing that the case could not do without.
				} else if !fromRepo(s) {
					panic(HarnessError{fmt.Sprintf("%v\n%s\ncase: %s", e, s, raw)})
				}
				f = &failure{nil, "panic", fmt.Sprintf("panic: %v\n%s", e, s)}
			}
			mine := len(f.tags) == 0
			for _, t := range f.tags {
				mine = mine || t == r.Prop
			}
			if !mine {
				if st != nil {
					st.Foreign++
					if os.Getenv("VERIF_DEBUG") != "" {
						fmt.Fprintf(os.Stderr, "foreign %v: %s\n", f.tags, f.msg)
					}
				}
				return
			}
			v = &Violation{Part: p.name, Key: f.key, Msg: f.msg, Case: raw}
		}()
		p.run(x, c)
	}()
	if st != nil {
		st.Evaluations++
		for k, n := range x.classes {
			st.Classes[k] += n
		}
		if x.nontrivial {
			h := sha256.Sum256(raw)
			st.Nontrivial[hex.EncodeToString(h[:8])] = true
			if len(st.Samples) < 2 && len(raw) < 6000 {
				st.Samples = append(st.Samples, map[string]any{"part": p.name, "case": json.RawMessage(raw)})
			}
		}
	}
	if v != nil {
		if d, ok := r.Known[v.Key]; ok {
			r.KnownHit[v.Key] = d
			return nil
		}
	}
	return v
}

// fromRepo returns whether a panic passed through code of the repository.
func fromRepo(stack string) bool {
	for _, l := range strings.Split(stack, "\n") {
		if strings.HasPrefix(l, "github.com/hyperonym/ratus") && !strings.HasPrefix(l, "github.com/hyperonym/ratus/internal/verif") {
			return true
		}
	}
	return false
}

func (p *prop[C]) Explore(r *Run) *Violation {
	st := newStats()
	r.Stats[p.name] = st
	n := p.quick
	if r.Tier == "thorough" {
		n = p.thorough
	}
	if p.single {
		if r.Worker != 0 {
			return nil
		}
	} else {
		n = (n + r.Workers - 1) / r.Workers
	}
	if r.Tier != "thorough" && !strings.Contains("C15 C25 C26 C30 C34", r.Prop) {
		n *= 2 // the numbers of cases were chosen for about ten seconds
	}
	if s := os.Getenv("VERIF_SCALE"); s != "" {
		f, _ := strconv.ParseFloat(s, 64)
		n = int(float64(n)*f) + 1
	}
	if n <= 0 {
		return nil
	}
	if p.shrink == 0 {
		p.shrink = 10 * time.Second
	}
	h := sha256.Sum256([]byte(fmt.Sprintf("%d/%s/%s/%d", r.Seed, r.Prop, p.name, r.Worker)))
	seed := binary.LittleEndian.Uint64(h[:8]) | 1
	set := func(k, v string) { Must(flag.Set(k, v)) }
	set("rapid.checks", fmt.Sprint(n))
	set("rapid.seed", fmt.Sprint(seed))
	set("rapid.nofailfile", "true")
	set("rapid.shrinktime", p.shrink.String())

	var best *Violation
	var herr *HarnessError
	runs, again := 0, 0
	tb := &fakeTB{}
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() {
			if e := recover(); e != nil {
				if h, ok := e.(HarnessError); ok {
					herr = &h
				} else {
					herr = &HarnessError{fmt.Sprintf("%v\n%s", e, debug.Stack())}
				}
			}
		}()
		rapid.Check(tb, func(t *rapid.T) {
			if herr != nil {
				return
			}
			if best == nil && time.Now().After(r.Deadline) {
				st.Skipped++
				return
			}
			c := p.gen(t)
			var v *Violation
			func() {
				defer func() {
					if e := recover(); e != nil {
						h, ok := e.(HarnessError)
						if !ok {
							h = HarnessError{fmt.Sprintf("%v\n%s", e, debug.Stack())}
						}
						herr = &h
					}
				}()
				s := st
				if best != nil {
					s = nil
				}
				v = p.exec(r, c, s)
			}()
			if v != nil {
				runs++
				if best == nil || len(v.Case) <= len(best.Case) {
					best = v
				}
				t.Fatalf("%s", v.Key)
			} else if best != nil {
				again++
			}
		})
	}()
	<-done
	if herr != nil {
		if best != nil && best.Msg != "" {
			// The machinery broke while shrinking: the failure found stands.
			return best
		}
		panic(*herr)
	}
	if best == nil && (tb.failed || st.Evaluations+st.Foreign+st.Skipped < int64(n)) {
		panic(HarnessError{fmt.Sprintf("only %d of %d cases were explored: %s", st.Evaluations, n, tb.out.String())})
	}
	return best
}

func (p *prop[C]) Replay(r *Run, raw json.RawMessage) *Violation {
	var c C
	Must(json.Unmarshal(raw, &c))
	return p.exec(r, c, newStats())
}

// fakeTB lets rapid run outside of a test.
type fakeTB struct {
	failed bool
	out    strings.Builder
}

func (t *fakeTB) Helper()                   {}
func (t *fakeTB) Name() string              { return "verif" }
func (t *fakeTB) Logf(f string, a ...any)   {}
func (t *fakeTB) Log(a ...any)              {}
func (t *fakeTB) Skipf(f string, a ...any)  { runtime.Goexit() }
func (t *fakeTB) Skip(a ...any)             { runtime.Goexit() }
func (t *fakeTB) SkipNow()                  { runtime.Goexit() }
func (t *fakeTB) Errorf(f string, a ...any) { t.failed = true; fmt.Fprintf(&t.out, f, a...) }
func (t *fakeTB) Error(a ...any)            { t.failed = true; fmt.Fprint(&t.out, a...) }
func (t *fakeTB) Fatalf(f string, a ...any) { t.Errorf(f, a...); runtime.Goexit() }
func (t *fakeTB) Fatal(a ...any)            { t.Error(a...); runtime.Goexit() }
func (t *fakeTB) FailNow()                  { t.failed = true; runtime.Goexit() }
func (t *fakeTB) Fail()                     { t.failed = true }
func (t *fakeTB) Failed() bool              { return t.failed }
