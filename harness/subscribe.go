//go:build goexperiment.synctest

package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/verifclock"
)

// ---- subscriptions (C22) ----

type subTask struct {
	Due   int      `json:"due"`           // milliseconds from the start
	Add   int      `json:"add,omitempty"` // added that many milliseconds after the start
	Other bool     `json:"other,omitempty"`
	Runs  []subRun `json:"runs,omitempty"` // what executions do; later ones return at once
}

type subRun struct {
	MS  int    `json:"ms,omitempty"`
	Act string `json:"act,omitempty"` // commit, abstain, retry, archive, force, move, delete, steal, commit-wait
}

type subFault struct {
	From int    `json:"from"`
	Len  int    `json:"len"`
	On   string `json:"on"` // poll, commit, both
	Kind string `json:"kind"`
}

type subCase struct {
	Tasks    []subTask  `json:"tasks"`
	Workers  int        `json:"workers"`
	Delay    int        `json:"delay"` // milliseconds, zero for the default
	Poll     int        `json:"poll"`
	Drain    int        `json:"drain"`
	Err      int        `json:"err"`
	ErrSleep int        `json:"errsleep,omitempty"`
	Timeout  string     `json:"timeout"`
	Chore    int        `json:"chore"` // milliseconds
	Before   int        `json:"before,omitempty"`
	After    int        `json:"after,omitempty"`
	Faults   []subFault `json:"faults,omitempty"`
	End      int        `json:"end,omitempty"` // milliseconds, zero for the time at which everything is done
	Deadline bool       `json:"deadline,omitempty"`
	Topic    string     `json:"topic"`
}

func genSub(t *rapid.T) subCase {
	c := subCase{
		Workers: pick(t, "workers", 1, 1, 2, 3, 4, 0, -1),
		Delay:   pick(t, "delay", 0, 1, 300, 2500),
		Poll:    pick(t, "poll", 0, 0, 1, 700),
		Drain:   pick(t, "drain", 0, 400, 900, 20_000),
		Err:     pick(t, "err", 0, 600, 8000),
		Timeout: pick(t, "timeout", "", "5s", "1m", "900ms"),
		Chore:   pick(t, "chore", 500, 7000),
		Topic:   pick(t, "topic", "jobs", "a/b ?"),
	}
	if oneIn(t, 3, "latency") {
		c.Before, c.After = pick(t, "before", 0, 2, 130), pick(t, "after", 0, 5, 210)
	}
	if oneIn(t, 3, "error sleep") {
		c.ErrSleep = pick(t, "errsleep", 1, 1500)
	}
	c.Tasks = seq(t, 5, 12, "tasks", func(t *rapid.T) subTask {
		v := subTask{Due: pick(t, "due", -5000, 0, -1, 1500, 9000, 40_000), Other: oneIn(t, 12, "other")}
		if oneIn(t, 3, "added later") {
			v.Add = pick(t, "add", 1, 2000, 15_000, 60_000)
		}
		if !oneIn(t, 3, "plain") {
			v.Runs = seq(t, 2, 3, "runs", func(t *rapid.T) subRun {
				return subRun{MS: pick(t, "ms", 0, 3, 250, 2100, 12_000, 70_000), Act: pick(t, "act", "", "", "commit", "abstain", "retry", "archive", "force", "move", "delete", "steal", "commit-wait", "release")}
			})
		}
		return v
	})
	if oneIn(t, 2, "faulty") {
		c.Faults = seq(t, 2, 4, "faults", func(t *rapid.T) subFault {
			return subFault{From: pick(t, "from", 0, 100, 1700, 10_000, 30_000), Len: pick(t, "len", 1, 500, 5000, 20_000), On: pick(t, "on", "poll", "commit", "both"), Kind: pick(t, "kind", "drop", "lost", "unavailable", "other")}
		})
	}
	if oneIn(t, 3, "ends early") {
		c.End = pick(t, "end", 1, 40, 900, 3000, 11_000, 37_000)
	}
	c.Deadline = c.End > 0 && bit.Draw(t, "deadline")
	return c
}

// subSent is a request of a subscription.
type subSent struct {
	commit     bool
	mark       string // tells commits apart
	id, nonce  string
	arrived    time.Time
	done       time.Time // when the response was sent
	status     int
	outcome    string // ok, notfound, conflict, unavailable, internal, network
	finished   bool
	undelivere bool
	promise    ratus.Promise
	raw        string
	handed     int
}

// subCall is a call of the handler.
type subCall struct {
	id, nonce string
	err       error
	from, to  time.Time
	ended     bool // the context had ended when the handler returned
	committed bool // the handler committed
	own       int
	forced    bool
	claim     *subSent
	returned  bool
}

func errKind(err error) string {
	switch {
	case errors.Is(err, ratus.ErrNotFound):
		return "notfound"
	case errors.Is(err, ratus.ErrConflict):
		return "conflict"
	case errors.Is(err, ratus.ErrServiceUnavailable):
		return "unavailable"
	case errors.Is(err, ratus.ErrInternalServerError):
		return "internal"
	case errors.Is(err, context.DeadlineExceeded):
		return "deadline"
	case errors.Is(err, ratus.ErrBadRequest):
		return "badrequest"
	case errors.Is(err, context.Canceled):
		return "canceled"
	}
	return "network"
}

func orDefault(ms int, d time.Duration) time.Duration {
	if ms > 0 {
		return time.Duration(ms) * time.Millisecond
	}
	return d
}

func runSub(x *X, c subCase) {
	inBubble(x, func() { subscribe(x, c) })
}

func subscribe(x *X, c subCase) {
	verifclock.Real()
	verifclock.Offset.Store(0)
	g := openMem(240 * time.Hour)
	a := newAPI(1000, 10000)
	a.hub.set(g, nil)
	defer a.hub.set(nil, nil)
	bg := context.Background()
	start := time.Now()
	ms := func(n int) time.Duration { return time.Duration(n) * time.Millisecond }

	var mu sync.Mutex
	var sent []*subSent
	var calls []*subCall
	var fails []*failure
	broken := ""
	fail := func(key, format string, args ...any) {
		mu.Lock()
		fails = append(fails, &failure{[]string{"C22"}, key, fmt.Sprintf(format, args...)})
		mu.Unlock()
	}
	fault := func(commit bool) string {
		now := time.Since(start)
		for _, f := range c.Faults {
			if (f.On == "both" || (f.On == "commit") == commit) && now >= ms(f.From) && now < ms(f.From+f.Len) {
				return f.Kind
			}
		}
		return ""
	}
	h := http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		defer func() {
			if e := recover(); e != nil && e != http.ErrAbortHandler {
				mu.Lock()
				broken = fmt.Sprintf("%v\n%s", e, debug.Stack())
				mu.Unlock()
			} else if e != nil {
				panic(e)
			}
		}()
		body, err := io.ReadAll(r.Body)
		if err != nil {
			panic(http.ErrAbortHandler)
		}
		r.Body = io.NopCloser(bytes.NewReader(body))
		r.Header.Del("Accept-Encoding")
		time.Sleep(ms(c.Before))
		if r.Context().Err() != nil {
			panic(http.ErrAbortHandler)
		}
		s := &subSent{commit: r.Method == "PATCH", arrived: time.Now(), raw: string(body)}
		if !s.commit && (r.Method != "POST" || !strings.HasSuffix(r.URL.EscapedPath(), "/topics/"+url.PathEscape(c.Topic)+"/promises")) {
			fail("request", "the subscription sent the request %s %s", r.Method, r.RequestURI)
			return
		}
		if s.commit {
			var m ratus.Commit
			json.Unmarshal(body, &m)
			s.nonce = m.Nonce
			s.mark, _ = m.Payload.(string)
		} else {
			json.Unmarshal(body, &s.promise)
		}
		mu.Lock()
		sent = append(sent, s)
		mu.Unlock()
		f := fault(s.commit)
		finish := func(outcome string) {
			mu.Lock()
			s.done, s.outcome, s.finished = time.Now(), outcome, true
			s.undelivere = r.Context().Err() != nil
			mu.Unlock()
		}
		b := &bufferWriter{discardWriter: discardWriter{h: http.Header{}}, code: 200}
		switch f {
		case "drop":
			finish("network")
			panic(http.ErrAbortHandler)
		case "unavailable", "other":
			code := map[string]int{"unavailable": 503, "other": 500}[f]
			b.code = code
			b.h.Set("Content-Type", "application/json")
			fmt.Fprintf(&b.b, `{"error":{"code":%d,"message":"m"}}`, code)
		default:
			a.h.ServeHTTP(b, r)
		}
		if f == "lost" {
			finish("network")
			panic(http.ErrAbortHandler)
		}
		time.Sleep(ms(c.After))
		for k, v := range b.h {
			w.Header()[k] = v
		}
		s.status = b.code
		if b.code == 200 && !s.commit {
			var v ratus.Task
			Must(json.Unmarshal(b.b.Bytes(), &v))
			s.id, s.nonce = v.ID, v.Nonce
		}
		finish(map[int]string{200: "ok", 404: "notfound", 409: "conflict", 503: "unavailable", 500: "internal"}[b.code])
		w.WriteHeader(b.code)
		w.Write(b.b.Bytes())
	})
	_, end := serveMem(h, false)
	defer end()
	cl, err := ratus.NewClient(&ratus.ClientOptions{Origin: "http://ratus:8080"})
	Must(err)

	insert := func(i int) {
		v := c.Tasks[i]
		topic := c.Topic
		if v.Other {
			topic = "another"
		}
		if _, err := g.InsertTask(bg, &ratus.Task{ID: fmt.Sprintf("t%d", i), Topic: topic, Scheduled: ptr(start.Add(ms(v.Due)))}); err != nil {
			bug("%v", err)
		}
	}
	stop := make(chan struct{})
	halt := sync.OnceFunc(func() { close(stop) })
	defer halt()
	var wg sync.WaitGroup
	at := func(d time.Duration, f func()) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			select {
			case <-time.After(d):
				f()
			case <-stop:
			}
		}()
	}
	added := make([]bool, len(c.Tasks))
	for i, v := range c.Tasks {
		if v.Add == 0 {
			insert(i)
			added[i] = true
			continue
		}
		at(ms(v.Add)+11*time.Microsecond, func() {
			insert(i)
			mu.Lock()
			added[i] = true
			mu.Unlock()
		})
	}
	wg.Add(1)
	go func() {
		defer wg.Done()
		time.Sleep(17 * time.Microsecond)
		for {
			select {
			case <-time.After(ms(c.Chore)):
				g.Chore(bg)
			case <-stop:
				return
			}
		}
	}()

	ctx, cancel := context.WithCancel(bg)
	defer cancel()
	var ending time.Time
	if c.End > 0 {
		ending = start.Add(ms(c.End) + 19*time.Microsecond)
		if c.Deadline {
			var n context.CancelFunc
			ctx, n = context.WithDeadline(ctx, ending)
			defer n()
		} else {
			at(time.Until(ending), cancel)
		}
	}

	n := max(c.Workers, 1)
	delay := orDefault(c.Delay, ratus.DefaultConcurrencyDelay)
	drain := orDefault(c.Drain, ratus.DefaultDrainInterval)
	pause := orDefault(c.Err, ratus.DefaultErrorInterval)
	running, runs := 0, map[string]int{}
	since := func(t time.Time) time.Duration { return t.Sub(start) }
	handler := func(y *ratus.Context, err error) {
		k := &subCall{from: time.Now(), err: err}
		mu.Lock()
		num := len(calls)
		calls = append(calls, k)
		mu.Unlock()
		defer func() {
			mu.Lock()
			k.to, k.returned = time.Now(), true
			mu.Unlock()
		}()
		if err != nil {
			if errors.Is(err, context.Canceled) {
				// Only the end of the subscription's context cancels anything.
				fail("after-end", "the handler was called with the error %v, which the end of the context caused", err)
			}
			if y != nil {
				fail("both", "the handler was called with both a task and the error %v", err)
			}
			time.Sleep(ms(c.ErrSleep))
			return
		}
		if y == nil || y.Task == nil {
			fail("neither", "the handler was called without task and error")
			return
		}
		mu.Lock()
		k.id, k.nonce = y.Task.ID, y.Task.Nonce
		for _, s := range sent {
			if !s.commit && s.outcome == "ok" && s.id == k.id && s.nonce == k.nonce {
				s.handed++
				k.claim = s
			}
		}
		running++
		now := running
		run := runs[k.id]
		runs[k.id]++
		mu.Unlock()
		if k.claim == nil {
			fail("unclaimed", "at %v the handler was called with the task %s, which no poll returned", since(k.from), show(y.Task))
		}
		if now > n {
			fail("concurrency", "at %v %d handlers run at once, the concurrency is %d", since(k.from), now, n)
		}
		if most := 1 + int((since(k.from)+time.Microsecond)/delay); now > most {
			fail("ramp", "at %v %d handlers run already, the delay between starts is %v", since(k.from), now, delay)
		}
		var i int
		fmt.Sscanf(k.id, "t%d", &i)
		var r subRun
		if i < len(c.Tasks) && run < len(c.Tasks[i].Runs) {
			r = c.Tasks[i].Runs[run]
		}
		own := func() {
			y.SetPayload(fmt.Sprintf("%d/own", num))
			if y.Err() == nil {
				k.own++
			}
			if err := y.Commit(); err == nil {
				k.committed = true
			}
		}
		switch r.Act {
		case "commit-wait":
			own()
		}
		time.Sleep(ms(r.MS))
		switch r.Act {
		case "commit":
			own()
		case "abstain":
			y.Abstain()
		case "retry":
			y.Retry("2s")
		case "archive":
			y.Archive()
		case "force":
			y.Force()
			k.forced = true
		case "move":
			y.Abstain().SetTopic("another")
		case "delete":
			if _, err := g.DeleteTask(bg, k.id); err != nil && !errors.Is(err, ratus.ErrNotFound) {
				bug("%v", err)
			}
		case "steal":
			d := time.Now().Add(20 * time.Second)
			if _, err := g.UpsertPromise(bg, &ratus.Promise{ID: k.id, Deadline: &d}); err != nil && !errors.Is(err, ratus.ErrNotFound) && !errors.Is(err, ratus.ErrConflict) {
				bug("%v", err)
			}
		case "release":
			if _, err := g.DeletePromise(bg, k.id); err != nil && !errors.Is(err, ratus.ErrNotFound) {
				bug("%v", err)
			}
		}
		if !k.committed {
			y.SetPayload(fmt.Sprintf("%d/auto", num))
		}
		mu.Lock()
		k.ended = y.Err() != nil
		running--
		mu.Unlock()
	}
	p := &ratus.Promise{ID: "ignored", Consumer: "worker 1", Timeout: c.Timeout, Deadline: ptr(start.Add(-time.Hour))}
	o := &ratus.SubscribeOptions{Promise: p, Topic: c.Topic, Concurrency: c.Workers, ConcurrencyDelay: ms(c.Delay), PollInterval: ms(c.Poll), DrainInterval: ms(c.Drain), ErrorInterval: ms(c.Err)}
	keep, keepP := *o, *p
	done := make(chan error, 1)
	var returned time.Time
	go func() {
		e := cl.Subscribe(ctx, o, handler)
		returned = time.Now()
		done <- e
	}()

	// Wait until everything is done, or the end.
	total := time.Duration(0)
	for _, v := range c.Tasks {
		total += ms(max(v.Due, v.Add, 0))
		for _, r := range v.Runs {
			total += ms(r.MS) + ms(c.Chore) + 30*time.Second + 4*pause + 4*drain + 3*time.Duration(n)*delay
		}
		total += ms(4*(c.Before+c.After)) + 2*ms(c.Poll) + 2*drain + pause
	}
	for _, f := range c.Faults {
		// Claims may be lost until the end of their execution.
		total += ms(f.From+f.Len) + 2*pause + ms(c.Chore)
	}
	lease := 10 * time.Minute
	if c.Timeout != "" {
		lease, err = time.ParseDuration(c.Timeout)
		Must(err)
	}
	total += time.Duration(1+len(c.Tasks)+len(c.Faults)*3)*(lease+ms(c.Chore)+drain+pause) + 2*time.Minute
	finished := func() bool {
		mu.Lock()
		defer mu.Unlock()
		for i := range c.Tasks {
			if !added[i] {
				return false
			}
		}
		for _, t := range dump(g) {
			if t.Topic == c.Topic && t.State != ratus.TaskStateCompleted && t.State != ratus.TaskStateArchived {
				return false
			}
		}
		return running == 0
	}
	history := func() string {
		var b strings.Builder
		for i, s := range sent {
			if i > 30 {
				break
			}
			fmt.Fprintf(&b, "%v commit=%v %s %s %s done %v\n", since(s.arrived), s.commit, s.id, s.raw, s.outcome, since(s.done))
		}
		for i, k := range calls {
			if i > 30 {
				break
			}
			fmt.Fprintf(&b, "call %s %v %v-%v\n", k.id, k.err, since(k.from), since(k.to))
		}
		return b.String()
	}
	var early error
	idle := time.Duration(0)
	window := [2]time.Time{}
	first := func() {
		mu.Lock()
		defer mu.Unlock()
		if broken != "" {
			bug("%s", broken)
		}
		if len(fails) > 0 {
			panic(fails[0])
		}
	}
	if c.End == 0 {
		step := max(drain, total/400)
		quiet := false
		for time.Since(start) < total {
			select {
			case early = <-done:
				x.Failp("returned", "the subscription returned %v at %v although its context has not ended", early, since(returned))
			case <-time.After(step):
			}
			if finished() {
				quiet = true
				break
			}
		}
		if !quiet {
			first()
			var left []string
			for _, t := range dump(g) {
				if t.Topic == c.Topic && t.State != ratus.TaskStateCompleted && t.State != ratus.TaskStateArchived {
					left = append(left, show(t))
				}
			}
			mu.Lock()
			var last time.Time
			for _, s := range sent {
				last = s.arrived
			}
			mu.Unlock()
			x.Failp("unfinished", "after %v there are still tasks that were not executed: %s; the last request was sent at %v, %d handlers run\n%s", time.Since(start), strings.Join(left, ", "), since(last), running, history())
		}
		// All workers still poll.
		settle := time.Duration(n)*delay + pause + drain + ms(c.ErrSleep) + ms(c.Poll) + 4*ms(c.Before+c.After)
		for _, f := range c.Faults {
			settle += max(0, start.Add(ms(f.From+f.Len)).Sub(time.Now()))
		}
		time.Sleep(settle + pause)
		window[0] = time.Now()
		idle = 5 * (drain + ms(c.Before+c.After))
		time.Sleep(idle)
		window[1] = time.Now()
		ending = time.Now().Add(23 * time.Microsecond)
		time.Sleep(23 * time.Microsecond)
		cancel()
	}
	var result error
	limit := 2 * time.Minute
	for _, v := range c.Tasks {
		for _, r := range v.Runs {
			limit += ms(r.MS)
		}
	}
	select {
	case result = <-done:
	case <-time.After(max(0, time.Until(ending)) + limit):
		x.Failp("hangs", "the subscription has not returned %v after the end of its context", time.Since(ending))
	}
	halt()
	wg.Wait()
	synctest.Wait()
	// Requests that the client gave up are still being processed.
	time.Sleep(ms(c.Before+c.After) + time.Millisecond)
	synctest.Wait()
	first()
	mu.Lock()
	defer mu.Unlock()
	if *o != keep || *p != keepP {
		x.Failp("options", "the subscription changed its options")
	}
	if returned.Before(ending) {
		x.Failp("returned", "the subscription returned %v at %v, its context ended at %v", result, since(returned), since(ending))
	}
	last := ending
	for _, k := range calls {
		if !k.returned {
			x.Failp("running", "the subscription returned while the handler was running")
		}
		if k.to.After(last) {
			last = k.to
		}
	}
	if returned.After(last.Add(time.Millisecond)) {
		x.Failp("return-time", "the context ended at %v and the last handler returned at %v, but the subscription returned at %v", since(ending), since(last), since(returned))
	}
	if want := ctx.Err(); !errors.Is(result, want) {
		x.Failp("return-error", "the context ended with %v, but the subscription returned %v", want, result)
	}

	// Polls use the consumer and timeout of the promise only.
	type event struct {
		at   time.Time
		kind string
	}
	var expected []event
	byMark := map[string][]*subSent{}
	var polls []*subSent
	for _, s := range sent {
		if s.commit {
			byMark[s.mark] = append(byMark[s.mark], s)
			continue
		}
		polls = append(polls, s)
		if w := (ratus.Promise{Consumer: p.Consumer, Timeout: p.Timeout}); s.promise != w {
			x.Failp("promise", "a poll sent the promise %s", s.raw)
		}
		if !s.finished || s.undelivere || !s.done.Before(ending) {
			continue
		}
		switch s.outcome {
		case "ok":
			if s.handed != 1 {
				x.Failp("handed", "the task %s claimed at %v was handed to the handler %d times", s.id, since(s.done), s.handed)
			}
		case "notfound":
		default:
			expected = append(expected, event{s.done, s.outcome})
		}
	}
	for i, k := range calls {
		if k.err != nil || k.claim == nil {
			continue
		}
		own, auto := byMark[fmt.Sprintf("%d/own", i)], byMark[fmt.Sprintf("%d/auto", i)]
		delete(byMark, fmt.Sprintf("%d/own", i))
		delete(byMark, fmt.Sprintf("%d/auto", i))
		what := fmt.Sprintf("the execution of %s from %v to %v", k.id, since(k.from), since(k.to))
		if len(own) > k.own {
			x.Failp("own", "%s: committed %d times in the handler, but %d requests were sent", what, k.own, len(own))
		}
		if k.committed {
			if len(auto) != 0 {
				x.Failp("auto", "%s: committed again although the handler committed", what)
			}
			x.Class("committed by the handler")
			continue
		}
		if k.ended {
			if len(auto) != 0 {
				x.Failp("auto", "%s: committed after the context ended", what)
			}
			if k.to.Before(ending) {
				expected = append(expected, event{k.to, "deadline"})
				x.Class("timed out")
			}
			continue
		}
		if len(auto) != 1 {
			if k.to.Before(ending.Add(-ms(c.Before))) {
				// The claim may have timed out while committing.
				if !(len(auto) == 0 && c.Before > 0) {
					x.Failp("auto", "%s: was committed %d times afterwards", what, len(auto))
				}
				expected = append(expected, event{k.to.Add(ms(c.Before)), "deadline"})
			}
			continue
		}
		s := auto[0]
		if want := k.nonce; !k.forced && s.nonce != want || k.forced && s.nonce != "" {
			x.Failp("auto-nonce", "%s: committed with %s", what, s.raw)
		}
		if !s.finished || s.undelivere {
			if s.done.Before(ending) && k.to.Add(ms(c.Before+c.After)).Before(ending) {
				expected = append(expected, event{s.done, "deadline"})
			}
			continue
		}
		if s.done.Before(ending) && s.outcome != "ok" {
			expected = append(expected, event{s.done, s.outcome})
			x.Class("commit:%s", s.outcome)
		}
		if s.outcome == "ok" {
			x.Class("committed automatically")
		}
	}
	for k, v := range byMark {
		x.Failp("commit", "the subscription sent the commit %s (%s)", v[0].raw, k)
	}

	// Errors arrive at the handler.
	var errs []event
	for _, k := range calls {
		if k.err != nil {
			errs = append(errs, event{k.from, errKind(k.err)})
			x.Class("error:%s", errKind(k.err))
		}
	}
	sort.SliceStable(expected, func(i, j int) bool { return expected[i].at.Before(expected[j].at) })
	list := func(v []event) string {
		var s []string
		for _, e := range v {
			s = append(s, fmt.Sprintf("%s at %v", e.kind, since(e.at)))
		}
		return strings.Join(s, ", ")
	}
	used := make([]bool, len(errs))
	for _, e := range expected {
		found := false
		for i, f := range errs {
			// The client notices expired deadlines, not the server.
			d := f.at.Sub(e.at)
			if !used[i] && (e.kind == f.kind && d >= 0 && d <= time.Millisecond || e.kind == "deadline" && f.kind == "deadline" && d.Abs() <= ms(c.Before+c.After+1)) {
				used[i], found = true, true
				break
			}
		}
		if !found && e.at.Before(ending.Add(-ms(c.Before+c.After+1))) {
			x.Failp("error-lost", "the error %s at %v was not passed to the handler; expected: %s; received: %s", e.kind, since(e.at), list(expected), list(errs))
		}
	}
	for i, f := range errs {
		if !used[i] && f.at.Before(ending) {
			x.Failp("error-extra", "the handler received the error %s at %v; expected: %s; received: %s", f.kind, since(f.at), list(expected), list(errs))
		}
	}

	// Workers keep polling, with the configured pauses.
	if idle > 0 {
		got := 0
		for _, s := range polls {
			if !s.arrived.Before(window[0]) && s.arrived.Before(window[1]) {
				got++
			}
		}
		if got < 4*n || got > 6*n {
			x.Failp("idle-polls", "%d workers polled %d times in %v with the topic empty, the interval is %v", n, got, idle, drain)
		}
	}
	if n == 1 {
		ci, over := 0, false
		for i, s := range polls {
			if over || !s.finished || s.undelivere || !s.done.Before(ending) {
				break
			}
			from, wait, why := s.done, drain, "finding nothing"
			if s.outcome != "notfound" {
				if ci >= len(calls) {
					break
				}
				k := calls[ci]
				ci++
				from, wait, why = k.to, pause, "a polling error"
				if s.outcome == "ok" {
					wait, why = ms(c.Poll), "executing a task"
					a := autoOf(sent, fmt.Sprintf("%d/auto", ci-1))
					if !k.committed && !k.to.Add(ms(c.Before+c.After)).Before(ending) {
						// It is not known whether committing succeeded.
						over = true
					}
					switch {
					case over, k.committed:
					case a != nil && a.outcome == "ok" && !a.undelivere:
						from = a.done
					case ci < len(calls) && calls[ci].err != nil:
						// Committing failed.
						from, wait, why = calls[ci].to, pause, "a commit error"
						ci++
					}
				}
			}
			if over {
				break
			}
			due := from.Add(wait + ms(c.Before))
			late := due.Add(wait/4 + 50*time.Millisecond)
			if i+1 < len(polls) {
				next := polls[i+1].arrived
				if next.Before(due.Add(-time.Millisecond)) || next.After(late) {
					x.Failp("interval", "polled again %v after %s (at %v), the interval is %v", next.Sub(from)-ms(c.Before), why, since(from), wait)
				}
				x.Class("paused after %s", why)
			} else if late.Before(ending) {
				x.Failp("stalled", "never polled again after %s at %v until %v", why, since(from), since(ending))
			}
		}
	}
	ok := 0
	for _, k := range calls {
		if k.err == nil {
			ok++
		}
	}
	if ok > 1 {
		x.NonTrivial()
	}
	if c.End == 0 {
		x.Class("until done")
	} else {
		x.Class("ended early")
	}
}

func autoOf(sent []*subSent, mark string) *subSent {
	for _, s := range sent {
		if s.commit && s.mark == mark {
			return s
		}
	}
	return nil
}

func init() {
	register(&Check{ID: "C22", Assumptions: []string{"virtual time and in-memory connections (testing/synctest) to the real router and in-memory engine"}, Parts: []Part{
		&prop[subCase]{name: "subscribe", quick: 8000, thorough: 200000,
			rule: "subscriptions with generated options, tasks that are due or added at different times, handlers that wait, commit, retry, move, delete or lose their claims or time out, latency, faults of polls and commits, and contexts that end at any time or once everything is done; every claim, handler call, commit, error, pause and the result is compared with what the options demand; non-trivial: at least two executed tasks", gen: genSub, run: runSub},
	}})
}
