//go:build goexperiment.synctest

package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"strings"
	"sync"
	"time"

	"pgregory.net/rapid"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/verifclock"
)

// ---- poll, execute, commit (C21) ----

type wfSet struct {
	Op  string          `json:"op"`
	S   string          `json:"s,omitempty"`
	N   int             `json:"n,omitempty"` // state, or seconds from now on the server
	V   json.RawMessage `json:"v,omitempty"`
	Raw bool            `json:"raw,omitempty"` // the payload is given as raw JSON
}

type wfStep struct {
	K     string  `json:"k"` // poll, set, commit, sleep, steal, release, delete, move, chore, cancel, read
	C     int     `json:"c"` // which context
	Sets  []wfSet `json:"sets,omitempty"`
	MS    int     `json:"ms,omitempty"`
	Fault string  `json:"fault,omitempty"` // drop, lost, unavailable, other
	Topic string  `json:"topic,omitempty"`

	Timeout  string `json:"timeout,omitempty"`
	Deadline *int   `json:"deadline,omitempty"` // milliseconds from now on the server
	Consumer string `json:"consumer,omitempty"`
	Parent   int    `json:"parent,omitempty"` // deadline of the caller in milliseconds
	Cancel   bool   `json:"cancelable,omitempty"`
}

type wfCase struct {
	Skew   int64    `json:"skew"` // of the server's clock, in milliseconds
	Before int      `json:"before"`
	After  int      `json:"after"` // latency of requests and responses in milliseconds
	Tasks  []wfTask `json:"tasks"`
	Steps  []wfStep `json:"steps"`
}

type wfTask struct {
	ID      string          `json:"id"`
	Topic   string          `json:"topic"`
	Due     int             `json:"due"` // milliseconds
	Payload json.RawMessage `json:"payload,omitempty"`
}

var wfTopics = []string{"jobs", "a/b", "é %"}

func genSets(t *rapid.T) []wfSet {
	return seq(t, 2, 6, "sets", func(t *rapid.T) wfSet {
		s := wfSet{Op: pick(t, "op", "SetNonce", "SetTopic", "SetState", "SetScheduled", "SetPayload", "SetPayload", "SetDefer", "Force", "Abstain", "Archive", "Reschedule", "Retry", "Reset")}
		switch s.Op {
		case "SetNonce":
			s.S = pick(t, "nonce", "", "bogus", "cur")
		case "SetTopic":
			s.S = pick(t, "topic", append(wfTopics, "")...)
		case "SetState":
			s.N = intn(t, 4, "state")
		case "SetScheduled", "Reschedule":
			s.N = rng(t, -100, 5000, "seconds")
		case "SetDefer", "Retry":
			s.S = pick(t, "defer", "30s", "1m", "0s", "250ms", "-5s", "")
		case "SetPayload":
			s.V = genPayload(t, "payload")
			s.Raw = oneIn(t, 3, "raw")
		}
		return s
	})
}

func genWf(t *rapid.T) wfCase {
	c := wfCase{Skew: pick(t, "skew", int64(0), 3600_000, -3600_000, 100, -7000, 86400_000*365), Before: pick(t, "before", 0, 0, 1, 40, 2000), After: pick(t, "after", 0, 0, 3, 150)}
	for i := rng(t, 1, 6, "ntasks"); i > 0; i-- {
		v := wfTask{ID: pick(t, "id", "x", "y/z", "ü ?", "w") + fmt.Sprint(i), Topic: pick(t, "topic", "jobs", "jobs", "a/b"), Due: pick(t, "due", -1000, -5, 0, 3000, 60000)}
		v.Payload = genPayload(t, "payload")
		c.Tasks = append(c.Tasks, v)
	}
	c.Steps = seq(t, 12, 30, "steps", func(t *rapid.T) wfStep {
		s := wfStep{C: intn(t, 3, "context")}
		switch weighted(t, "kind", 10, 14, 12, 8, 2, 2, 1, 2, 2, 1) {
		case 0:
			s.K = "poll"
			s.Topic = pick(t, "topic", "jobs", "jobs", "a/b")
			s.Consumer = pick(t, "consumer", "", "me")
			switch intn(t, 4, "promise") {
			case 0:
				s.Timeout = pick(t, "timeout", "1s", "10s", "5m", "100ms", "10m")
			case 1:
				s.Deadline = ptr(pick(t, "deadline", 10_000, 90_000, 500, 900_000, -1000))
			}
			if oneIn(t, 4, "parent") {
				s.Parent = pick(t, "parent-ms", 7000, 50, 800, 200_000, 1, 500_000)
			}
			s.Cancel = oneIn(t, 3, "cancelable")
			if oneIn(t, 6, "faulty") {
				s.Fault = pick(t, "fault", "drop", "unavailable", "other")
			}
		case 1:
			s.K, s.Sets = "set", genSets(t)
		case 2:
			s.K = "commit"
			if oneIn(t, 5, "faulty") {
				s.Fault = pick(t, "fault", "drop", "lost", "unavailable", "other")
			}
			if bit.Draw(t, "sets before") {
				s.Sets = genSets(t)
			}
		case 3:
			s.K, s.MS = "sleep", pick(t, "ms", 1, 10, 400, 2000, 2000, 12_000, 100_000)
		case 4:
			s.K = "steal"
		case 5:
			s.K = "release"
		case 6:
			s.K = "delete"
		case 7:
			s.K = "chore"
		case 8:
			s.K = "cancel"
		default:
			s.K, s.Topic = "move", pick(t, "topic", wfTopics...)
		}
		return s
	})
	return c
}

type ctxKey struct{}

// wfCtx is what a context of the client should be like.
type wfCtx struct {
	x         *ratus.Context
	task      *ratus.Task
	commit    ratus.Commit
	state     ratus.TaskState
	committed bool
	deadline  [2]time.Time // bounds of the deadline
	parent    time.Time
	cancel    context.CancelFunc
	cancelled bool
}

// expired returns whether the context must have and may have ended.
func (w *wfCtx) expired(now time.Time) (must, may bool) {
	must = w.cancelled || now.After(w.deadline[1])
	may = w.cancelled || !now.Before(w.deadline[0])
	return
}

func (w *wfCtx) apply(s wfSet, server time.Time) {
	x, m := w.x, &w.commit
	var ret *ratus.Context
	at := func() time.Time { return server.Add(time.Duration(s.N) * time.Second).Truncate(time.Millisecond) }
	switch s.Op {
	case "SetNonce":
		n := s.S
		if n == "cur" {
			n = w.task.Nonce
		}
		ret = x.SetNonce(n)
		m.Nonce = n
	case "SetTopic":
		ret = x.SetTopic(s.S)
		m.Topic = s.S
	case "SetState":
		ret = x.SetState(ratus.TaskState(s.N))
		w.state = ratus.TaskState(s.N)
	case "SetScheduled":
		ret = x.SetScheduled(at())
		m.Scheduled = ptr(at())
	case "SetPayload":
		m.Payload = payload(s.V)
		if s.Raw && len(s.V) > 0 {
			ret = x.SetPayload(s.V)
		} else {
			ret = x.SetPayload(m.Payload)
		}
	case "SetDefer":
		ret = x.SetDefer(s.S)
		m.Defer = s.S
	case "Force":
		ret = x.Force()
		m.Nonce = ""
	case "Abstain":
		ret = x.Abstain()
		w.state = ratus.TaskStatePending
	case "Archive":
		ret = x.Archive()
		w.state = ratus.TaskStateArchived
	case "Reschedule":
		ret = x.Reschedule(at())
		w.state, m.Scheduled = ratus.TaskStatePending, ptr(at())
	case "Retry":
		ret = x.Retry(s.S)
		w.state, m.Defer = ratus.TaskStatePending, s.S
	case "Reset":
		ret = x.Reset()
		w.commit, w.state = ratus.Commit{Nonce: w.task.Nonce}, ratus.TaskStateCompleted
	default:
		bug("set %q", s.Op)
	}
	// Chained calls may go on with the result.
	w.x = ret
}

func runWf(x *X, c wfCase) {
	inBubble(x, func() {
		verifclock.Real()
		verifclock.Offset.Store(c.Skew * int64(time.Millisecond))
		defer verifclock.Offset.Store(0)
		g := openMem(24 * time.Hour)
		a := newAPI(1000, 10000)
		a.hub.set(g, nil)
		defer a.hub.set(nil, nil)
		bg := context.Background()
		type seen struct {
			method, path string
			at           time.Time // on the server
			done         time.Time
		}
		var mu sync.Mutex
		var log []seen
		fault := ""
		h := http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			// Closed connections are noticed once the body was read.
			body, err := io.ReadAll(r.Body)
			if err != nil {
				panic(http.ErrAbortHandler)
			}
			r.Body = io.NopCloser(bytes.NewReader(body))
			time.Sleep(time.Duration(c.Before) * time.Millisecond)
			if r.Context().Err() != nil {
				// The client gave up before the request arrived.
				panic(http.ErrAbortHandler)
			}
			mu.Lock()
			log = append(log, seen{method: r.Method, path: r.URL.Path, at: verifclock.Now()})
			f := fault
			mu.Unlock()
			if f == "drop" {
				panic(http.ErrAbortHandler)
			}
			if f == "lost" {
				// The request is processed, but the response is lost.
				a.h.ServeHTTP(&discardWriter{h: http.Header{}}, r)
				panic(http.ErrAbortHandler)
			}
			// The response is delayed as a whole.
			b := &bufferWriter{discardWriter: discardWriter{h: http.Header{}}, code: 200}
			a.h.ServeHTTP(b, r)
			time.Sleep(time.Duration(c.After) * time.Millisecond)
			for k, v := range b.h {
				w.Header()[k] = v
			}
			w.WriteHeader(b.code)
			w.Write(b.b.Bytes())
		})
		_, end := serveMem(h, false)
		defer end()
		setFault := func(f string) {
			mu.Lock()
			fault, log = f, nil
			mu.Unlock()
			switch f {
			case "unavailable":
				a.hub.set(g, func(string) error { return ratus.ErrServiceUnavailable })
			case "other":
				a.hub.set(g, func(string) error { return errors.New("a fault") })
			default:
				a.hub.set(g, nil)
			}
		}
		cl, err := ratus.NewClient(&ratus.ClientOptions{Origin: "http://ratus:8080"})
		Must(err)
		var ts []*ratus.Task
		for _, t := range c.Tasks {
			ts = append(ts, &ratus.Task{ID: t.ID, Topic: t.Topic, Scheduled: ptr(verifclock.Now().Add(time.Duration(t.Due) * time.Millisecond)), Payload: payload(t.Payload)})
		}
		if _, err := g.UpsertTasks(bg, ts); err != nil {
			bug("inserting failed: %v", err)
		}
		get := func(id string) *ratus.Task {
			t, err := g.GetTask(bg, id)
			if errors.Is(err, ratus.ErrNotFound) {
				return nil
			}
			if err != nil {
				bug("%v", err)
			}
			return t
		}
		ctxs := [3]*wfCtx{}
		commits := 0
		// look checks the state of all contexts.
		look := func(when string) {
			now := time.Now()
			for i, w := range ctxs {
				if w == nil {
					continue
				}
				e := w.x.Err()
				if w.committed {
					if e == nil {
						x.Failp("released", "%s: the context %d is not released although it was committed", when, i)
					}
					continue
				}
				must, may := w.expired(now)
				if e == nil && must {
					x.Failp("deadline", "%s: the context %d has not ended %v after its deadline", when, i, now.Sub(w.deadline[1]))
				}
				if e != nil && !may {
					x.Failp("deadline", "%s: the context %d ended (%v) %v before its deadline", when, i, e, w.deadline[0].Sub(now))
				}
				if e != nil && !w.cancelled && !errors.Is(e, context.DeadlineExceeded) {
					x.Failp("deadline", "%s: the context %d ended with %v at its deadline", when, i, e)
				}
				select {
				case <-w.x.Done():
					if e == nil && w.x.Err() == nil {
						x.Failp("deadline", "%s: the context %d is done without error", when, i)
					}
				default:
					if e != nil {
						x.Failp("deadline", "%s: the context %d has ended, but is not done", when, i)
					}
				}
			}
		}
		sets := func(w *wfCtx, v []wfSet) {
			for _, s := range v {
				w.apply(s, verifclock.Now())
			}
		}
		for n, s := range c.Steps {
			// Prefer contexts that the step can do something with.
			for i := range ctxs {
				j := (s.C + i) % len(ctxs)
				if s.K == "poll" && (ctxs[j] == nil || ctxs[j].committed) || s.K != "poll" && ctxs[j] != nil && !ctxs[j].committed {
					s.C = j
					break
				}
			}
			w := ctxs[s.C]
			when := fmt.Sprintf("step %d (%s)", n, s.K)
			switch s.K {
			case "sleep":
				// Odd times do not coincide with deadlines.
				time.Sleep(time.Duration(s.MS)*time.Millisecond + 7*time.Microsecond)
			case "chore":
				if err := g.Chore(bg); err != nil {
					bug("%v", err)
				}
			case "poll":
				if w != nil {
					// The former context is abandoned.
					if w.cancel != nil {
						w.cancel()
					}
					ctxs[s.C] = nil
				}
				parent := context.WithValue(bg, ctxKey{}, n)
				w := &wfCtx{state: ratus.TaskStateCompleted}
				if s.Parent > 0 {
					w.parent = time.Now().Add(time.Duration(s.Parent)*time.Millisecond + 3*time.Microsecond)
					var cancel context.CancelFunc
					parent, cancel = context.WithDeadline(parent, w.parent)
					defer cancel()
				}
				if s.Cancel {
					parent, w.cancel = context.WithCancel(parent)
					defer w.cancel()
				}
				p := &ratus.Promise{Timeout: s.Timeout, Consumer: s.Consumer}
				if s.Deadline != nil {
					p.Deadline = ptr(verifclock.Now().Add(time.Duration(*s.Deadline) * time.Millisecond))
				}
				keep := *p
				setFault(s.Fault)
				start := time.Now()
				r, err := cl.Poll(parent, s.Topic, p)
				stop := time.Now()
				lost := !w.parent.IsZero() && !stop.Before(w.parent)
				setFault("")
				if *p != keep {
					x.Failp("promise-changed", "%s: polling changed the promise to %+v", when, p)
				}
				if err != nil {
					if r != nil {
						x.Failp("poll-both", "%s: polling returned both a context and the error %v", when, err)
					}
					x.Class("poll:failed")
					switch {
					case lost:
						if !errors.Is(err, context.DeadlineExceeded) {
							x.Failp("poll-error", "%s: the caller's context expired during polling, but the error is %v", when, err)
						}
					case s.Fault == "unavailable":
						if !errors.Is(err, ratus.ErrServiceUnavailable) {
							x.Failp("poll-error", "%s: polling an unavailable server failed with %v", when, err)
						}
					case s.Fault != "":
					case errors.Is(err, ratus.ErrNotFound):
						for _, t := range c.Tasks {
							if k := get(t.ID); k != nil && k.Topic == s.Topic && k.State == ratus.TaskStatePending && k.Scheduled.Before(verifclock.Now().Add(-time.Hour)) {
								x.Fail("poll-notfound", []string{"C21", "C03"}, "%s: polling %q found nothing although %s is due", when, s.Topic, show(k))
							}
						}
						x.Class("poll:notfound")
					default:
						x.Failp("poll-error", "%s: polling failed with %v", when, err)
					}
					break
				}
				if s.Fault != "" {
					x.Failp("poll-error", "%s: polling succeeded despite a fault (%s)", when, s.Fault)
				}
				t := r.Task
				if t == nil {
					x.Failp("poll-task", "%s: polling returned a context without a task", when)
				}
				k := get(t.ID)
				if k == nil || len(taskDiff(t, k)) > 0 || t.Topic != s.Topic || t.State != ratus.TaskStateActive || t.Consumer != s.Consumer {
					x.Failp("poll-task", "%s: polling returned %s, but the task is %s", when, show(t), show(k))
				}
				if r.Value(ctxKey{}) != n {
					x.Failp("poll-context", "%s: the context is not derived from that of the caller", when)
				}
				if t.Consumed == nil || t.Deadline == nil {
					x.Fail("poll-times", []string{"C01", "C18", "C21"}, "%s: polling returned a task without times: %s", when, show(t))
				}
				d := t.Deadline.Sub(*t.Consumed)
				w.x, w.task = r, t
				w.commit.Nonce = t.Nonce
				w.deadline = [2]time.Time{start.Add(d), stop.Add(d)}
				for i := range w.deadline {
					if !w.parent.IsZero() && w.parent.Before(w.deadline[i]) {
						w.deadline[i] = w.parent
					}
				}
				got, ok := r.Deadline()
				if !ok || got.Before(w.deadline[0]) || got.After(w.deadline[1]) {
					x.Failp("deadline", "%s: the deadline of the context is %v (%v), but should be between %v and %v: it was claimed at %v until %v (on the clock of the server), the caller's deadline is %v", when, got, ok, w.deadline[0], w.deadline[1], t.Consumed, t.Deadline, w.parent)
				}
				w.deadline = [2]time.Time{got, got}
				ctxs[s.C] = w
				x.Class("poll:ok")
			case "cancel":
				if w != nil && w.cancel != nil {
					w.cancel()
					w.cancelled = true
					x.Class("cancelled")
				}
			case "steal", "release", "delete", "move":
				if w == nil {
					break
				}
				d := verifclock.Now().Add(time.Hour)
				var err error
				switch s.K {
				case "steal":
					_, err = g.UpsertPromise(bg, &ratus.Promise{ID: w.task.ID, Deadline: &d})
				case "release":
					_, err = g.DeletePromise(bg, w.task.ID)
				case "delete":
					_, err = g.DeleteTask(bg, w.task.ID)
				default:
					_, err = g.Commit(bg, w.task.ID, &ratus.Commit{Topic: s.Topic, State: ptr(ratus.TaskStatePending)})
				}
				if err != nil && !errors.Is(err, ratus.ErrNotFound) {
					bug("%v", err)
				}
			case "set":
				if w != nil {
					sets(w, s.Sets)
				}
			case "commit":
				if w == nil {
					break
				}
				sets(w, s.Sets)
				before := get(w.task.ID)
				others := dump(g)
				setFault(s.Fault)
				_, gone := w.expired(time.Now())
				err := w.x.Commit()
				_, late := w.expired(time.Now())
				mu.Lock()
				sent := log
				mu.Unlock()
				setFault("")
				after := get(w.task.ID)
				what := fmt.Sprintf("%s: committing %s (state %d) for the task %s", when, commitString(&w.commit), w.state, show(before))
				if w.committed {
					if err != nil || len(sent) > 0 {
						x.Failp("commit-again", "%s: the context was committed already, but another commit returned %v and sent %d requests", what, err, len(sent))
					}
					x.Class("commit:again")
					break
				}
				patches := 0
				for _, r := range sent {
					if r.method != "PATCH" || !strings.HasSuffix(r.path, "/"+w.task.ID) {
						x.Failp("commit-request", "%s: sent the request %s %s", what, r.method, r.path)
					}
					patches++
				}
				if err == nil {
					if patches != 1 {
						x.Failp("commit-request", "%s: succeeded with %d requests", what, patches)
					}
				}
				if gone || late {
					// The claim timed out: whether the request is still sent is
					// up to the client.
					if gone && (err == nil || len(sent) > 0) {
						x.Failp("commit-late", "%s: the context has ended, but the commit returned %v and sent %d requests", what, err, len(sent))
					}
					x.Class("commit:late")
					if err == nil {
						w.committed = true
					}
					break
				}
				if patches != 1 {
					x.Failp("commit-request", "%s: sent %d requests, result %v", what, patches, err)
				}
				want := before
				expect := error(nil)
				if before == nil {
					expect = ratus.ErrNotFound
				} else if w.commit.Nonce != "" && w.commit.Nonce != before.Nonce {
					expect = ratus.ErrConflict
				}
				if s.Fault == "unavailable" {
					expect = ratus.ErrServiceUnavailable
				} else if s.Fault == "other" {
					expect = ratus.ErrInternalServerError
				}
				applied := expect == nil && s.Fault != "drop"
				if applied {
					want = dup(before)
					want.Nonce, want.State = "", w.state
					if w.commit.Topic != "" {
						want.Topic = w.commit.Topic
					}
					if w.commit.Payload != nil {
						want.Payload = w.commit.Payload
					}
					if w.commit.Scheduled != nil {
						want.Scheduled = w.commit.Scheduled
					} else if w.commit.Defer != "" {
						d, err := time.ParseDuration(w.commit.Defer)
						Must(err)
						want.Scheduled = ptr(sent[0].at.Add(d))
					}
				}
				if (after == nil) != (want == nil) || want != nil && len(taskDiff(after, want)) > 0 {
					x.Failp("commit-result", "%s: the task became %s instead of %s (result %v)", what, show(after), show(want), err)
				}
				for id, t := range dump(g) {
					if id != w.task.ID && (others[id] == nil || len(taskDiff(t, others[id])) > 0) {
						x.Failp("commit-other", "%s: changed another task to %s", what, show(t))
					}
				}
				switch {
				case s.Fault == "drop" || s.Fault == "lost":
					if err == nil {
						x.Failp("commit-error", "%s: returned no error although the connection was lost", what)
					}
				case expect != nil:
					if !errors.Is(err, expect) {
						x.Failp("commit-error", "%s: returned %v instead of an error of the kind %q", what, err, expect)
					}
				case err != nil:
					x.Failp("commit-error", "%s: failed with %v", what, err)
				}
				if err == nil {
					w.committed = true
					commits++
					x.Class("commit:ok")
				} else {
					x.Class("commit:failed")
				}
			}
			look(when)
		}
		if commits > 0 {
			x.NonTrivial()
		}
	})
}

type discardWriter struct{ h http.Header }

func (d *discardWriter) Header() http.Header         { return d.h }
func (d *discardWriter) Write(b []byte) (int, error) { return len(b), nil }
func (d *discardWriter) WriteHeader(int)             {}

type bufferWriter struct {
	discardWriter
	code int
	b    bytes.Buffer
}

func (d *bufferWriter) Write(b []byte) (int, error) { return d.b.Write(b) }
func (d *bufferWriter) WriteHeader(c int)           { d.code = c }

func init() {
	register(&Check{ID: "C21", Assumptions: []string{"virtual time and in-memory connections (testing/synctest) to the real router and in-memory engine"}, Parts: []Part{
		&prop[wfCase]{name: "workflow", quick: 60000, thorough: 1200000,
			rule: "histories of polls, chained setters, sleeps, stolen, released and deleted claims, commits and faults (connections lost before and after processing, failing servers) on up to three contexts, with a skewed server clock, latency, deadlines and cancellation by the caller; contexts, requests, results and stored tasks are compared with the documented effects; non-trivial: at least one successful commit", gen: genWf, run: runWf},
	}})
}
