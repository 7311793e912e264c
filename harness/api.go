package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"sort"
	"strings"
	"time"

	"pgregory.net/rapid"

	"github.com/hyperonym/ratus"
)

// ---- the Go client ----

func clientHistory(p Profile, name string, quick, thorough int, rule string, nontrivial func(n func(string) int64) bool) Part {
	q := apiProfile(p)
	return &prop[History]{
		name: name, quick: quick, thorough: thorough,
		rule: "random histories of calls of the Go client against a live server on the loopback interface, every result compared with the reference model and the store audited through the engine after every call; non-trivial: " + rule,
		gen:  func(t *rapid.T) History { return genHistory(t, q) },
		run: func(x *X, h History) {
			g := openMem(time.Duration(h.Retention))
			a := newAPI(1000, 10000)
			a.use(x, g, nil)
			m := memMode(h.Retention)
			d := newDriver(x, m, &clientExec{c: newClient(a.serve(x), nil), g: g})
			d.aud = &engineExec{g: g}
			d.fixup = normalized(1000, d.clk.Now)
			d.tags = "C20"
			d.names(h)
			for _, o := range h.Ops {
				d.step(o)
			}
			if nontrivial(func(k string) int64 { return x.classes[k] }) {
				x.NonTrivial()
			}
		},
	}
}

// emptyCase is a call that names an empty topic or ID.
type emptyCase struct {
	H  History `json:"h"`
	Op Op      `json:"op"`
}

func genEmpty(t *rapid.T) emptyCase {
	h := History{IDs: []string{"a", "b", "tasks", "promises"}, Topics: []string{"x", "tasks"}, Retention: int64(time.Hour)}
	p := apiProfile(Profile{AnyState: true, Time: genNear, Payload: genSmallPayload})
	n := rng(t, 1, 6, "tasks")
	for i := 0; i < n; i++ {
		h.Ops = append(h.Ops, Op{K: opUpsert, Tasks: []T{genTask(t, p, h.IDs, h.Topics)}})
	}
	c := emptyCase{H: h}
	c.Op.K = pick(t, "op", opPoll, opInsPromise, opUpsPromise, opCommit, opDelTopic, opDelTasks, opDelTask, opDelPromises, opDelPromise, opGetTask, opListTasks, opGetTopic, opListPromises, opGetPromise)
	c.Op.Limit = 10
	c.Op.Deadline = TS{K: "rel", N: int64(time.Hour)}
	return c
}

func runEmpty(x *X, c emptyCase) {
	g := openMem(time.Hour)
	a := newAPI(1000, 10000)
	a.use(x, g, nil)
	d := newDriver(x, memMode(int64(time.Hour)), &engineExec{g: g})
	for _, o := range c.H.Ops {
		d.step(o)
	}
	d.fixup = normalized(1000, d.clk.Now)
	call := resolve(c.Op, d.clk.Now(), d.nonce)
	d.fixup(call)
	l := &clientExec{c: newClient(a.serve(x), nil), g: g}
	r := l.Do(call)
	// No task has an empty name, so nothing may be found or changed.
	ok := r.Err == "notfound" || r.Err == "badrequest"
	switch c.Op.K {
	case opDelTopic, opDelTasks, opDelTask, opDelPromises, opDelPromise:
		ok = ok || r.Err == "" && r.Deleted != nil && r.Deleted.Deleted == 0
	case opListTasks:
		ok = ok || r.Err == "" && len(r.Tasks) == 0
	case opListPromises:
		ok = ok || r.Err == "" && len(r.Promises) == 0
	}
	if !ok {
		x.Failp("empty-name", "client call %s with an empty name: got %s", callString(call), r)
	}
	d.audit(&Call{Op: Op{K: opGetTask}}, d.state.Tasks)
	x.Class("%s:%s", c.Op.K, r.Err)
	x.NonTrivial()
}

func init() {
	mem := "in-process router, loopback server and in-memory engine"
	register(&Check{ID: "C20", Assumptions: []string{mem, "names without plus signs"}, Parts: []Part{
		clientHistory(Profile{NIDs: 4, NTopics: 3, MaxOps: 14, Batch: 4, Limits: 12, Weights: with(), AnyState: true, Time: genNear, Payload: genSmallPayload, Names: namesText}, "client", 20000, 400000,
			"at least five operations, two of them successful",
			func(n func(string) int64) bool {
				return n("gettask:ok")+n("getpromise:ok")+n("gettopic:ok")+n("inspromise:ok")+n("upspromise:ok")+n("commit:ok")+n("poll:ok")+n("deltask:ok")+n("delpromise:ok") >= 2
			}),
		&prop[emptyCase]{name: "empty", quick: 4000, thorough: 50000, rule: "client calls that name an empty topic or ID against stores with a few tasks: nothing may be found or changed", gen: genEmpty, run: runEmpty},
	}})
	register(&Check{ID: "C18", Assumptions: []string{mem, "durations and times in their documented formats"}, Parts: []Part{
		&prop[normCase]{name: "normalize", quick: 100000, thorough: 2000000,
			rule: "single requests with every field present or absent independently, in the body or the query, against a store that holds the task or not; the stored task is compared field by field with the documented defaults, relative times against the clock; non-trivial: an accepted request", gen: genNorm, run: runNorm},
	}})
	register(&Check{ID: "C19", Assumptions: []string{mem}, Parts: []Part{
		&prop[errCase]{name: "errors", quick: 40000, thorough: 800000,
			rule: "every operation with the storage engine failing with each kind of error, wrapped by generated texts, compared with the documented status, body and client error; and bare error responses to the client; non-trivial: wrapped errors and bare responses", gen: genErr, run: runErr},
	}})
}

// ---- normalization ----

// normCase is one request whose fields are present or absent independently.
type normCase struct {
	Kind    string          `json:"kind"` // task, tasks, commit, promise, poll
	Put     bool            `json:"put,omitempty"`
	Style   int             `json:"style,omitempty"`
	PathID  string          `json:"pathid,omitempty"`
	Topic   string          `json:"topic,omitempty"` // in the path
	Items   []normItem      `json:"items,omitempty"`
	Query   map[string]bool `json:"query,omitempty"` // fields of a promise sent in the query
	Exists  bool            `json:"exists,omitempty"`
	NoBody  bool            `json:"nobody,omitempty"`
	Advance int64           `json:"advance,omitempty"`
	Old     T               `json:"old"`
}

type normItem struct {
	ID        *string         `json:"id,omitempty"`
	Topic     *string         `json:"topic,omitempty"`
	State     *int            `json:"state,omitempty"`
	Nonce     *string         `json:"nonce,omitempty"`
	Producer  *string         `json:"producer,omitempty"`
	Consumer  *string         `json:"consumer,omitempty"`
	Produced  TS              `json:"produced"`
	Scheduled TS              `json:"scheduled"`
	Consumed  TS              `json:"consumed"`
	Deadline  TS              `json:"deadline"`
	Payload   json.RawMessage `json:"payload,omitempty"`
	Relative  string          `json:"relative,omitempty"` // defer or timeout
}

// durations are valid durations with their values, written down independently
// of the parser used.
var durations = map[string]time.Duration{
	"0s": 0, "0": 0, "1ns": 1, "10us": 10000, "10µs": 10000, "1ms": 1000000, "1s": 1e9, "-5s": -5e9, "+2m": 2 * 60 * 1e9, "1.5h": 5400 * 1e9,
	"1h2m3s": 3723 * 1e9, "72h": 72 * 3600 * 1e9, ".5s": 5e8, "1h0.25s": 3600*1e9 + 25e7, "10m": 600 * 1e9, "100000h": 100000 * 3600 * 1e9,
}

func durationNames() []string {
	var v []string
	for k := range durations {
		v = append(v, k)
	}
	sort.Strings(v)
	return v
}

func maybe[V any](t *rapid.T, label string, n int, f func() V) *V {
	if oneIn(t, n, label) {
		return nil
	}
	return ptr(f())
}

func maybeTS(t *rapid.T, label string) TS {
	if bit.Draw(t, label+"-absent") {
		return TS{}
	}
	return genTime(t, label)
}

func genNormItem(t *rapid.T, i int) normItem {
	v := normItem{}
	v.Topic = maybe(t, "topic", 2, func() string { return pick(t, "topic", "", "t1", "t2", "a/b", "é") })
	v.State = maybe(t, "state", 2, func() int { return intn(t, 4, "state") })
	v.Nonce = maybe(t, "nonce", 2, func() string { return pick(t, "nonce", "", "n1") })
	v.Producer = maybe(t, "producer", 2, func() string { return pick(t, "producer", "", "p") })
	v.Consumer = maybe(t, "consumer", 2, func() string { return pick(t, "consumer", "", "c", "c d+e&f=g") })
	v.Produced, v.Scheduled, v.Consumed, v.Deadline = maybeTS(t, "produced"), maybeTS(t, "scheduled"), maybeTS(t, "consumed"), maybeTS(t, "deadline")
	v.Payload = genSmallPayload(t, "payload")
	if bit.Draw(t, "relative") {
		v.Relative = pick(t, "relative", durationNames()...)
	}
	return v
}

func genNorm(t *rapid.T) normCase {
	c := normCase{Kind: pick(t, "kind", "task", "promise", "commit", "tasks", "poll"), Style: intn(t, styleAll+1, "style")}
	c.Put = bit.Draw(t, "put")
	c.Topic = pick(t, "pathtopic", "t1", "t2", "", "x/y", "é z")
	c.Advance = int64(rng(t, 0, 100, "advance")) * 1_234_567
	c.Exists = !oneIn(t, 4, "missing")
	c.Old = T{ID: "id", Topic: "t1", State: pick(t, "oldstate", 0, 0, 1, 2, 3), Nonce: pick(t, "oldnonce", "", "n1"), Producer: "op", Consumer: pick(t, "oldconsumer", "", "oc"),
		Produced: TS{K: "rel", N: -5}, Scheduled: TS{K: "rel", N: -1e9}, Payload: json.RawMessage(`{"old":true}`)}
	n := 1
	if c.Kind == "tasks" {
		n = rng(t, 0, 4, "n")
	}
	for i := 0; i < n; i++ {
		v := genNormItem(t, i)
		switch c.Kind {
		case "task":
			c.PathID = "id"
			v.ID = maybe(t, "id", 2, func() string { return pick(t, "bodyid", "id", "", "id", "other") })
		case "tasks":
			v.ID = ptr(fmt.Sprintf("id%d", i))
			if oneIn(t, 3, "sameid") {
				v.ID = ptr("id")
				for _, o := range c.Items {
					if *o.ID == "id" {
						v.ID = ptr(fmt.Sprintf("id%d", i))
					}
				}
			}
		case "promise":
			c.PathID = "id"
			v.ID = maybe(t, "id", 2, func() string { return pick(t, "bodyid", "id", "", "id", "other") })
			c.NoBody = oneIn(t, 3, "nobody")
		case "poll":
			c.Topic = "t1"
			v.ID = maybe(t, "id", 3, func() string { return pick(t, "bodyid", "", "id", "missing") })
			c.NoBody = oneIn(t, 3, "nobody")
		case "commit":
			c.PathID = "id"
			c.NoBody = oneIn(t, 6, "nobody")
		}
		c.Items = append(c.Items, v)
	}
	if c.Kind == "promise" || c.Kind == "poll" {
		c.Query = map[string]bool{}
		for _, k := range []string{"_id", "consumer", "deadline", "timeout"} {
			c.Query[k] = c.NoBody || bit.Draw(t, "query-"+k)
		}
	}
	return c
}

// fields returns the JSON object of an item with the given members.
func (v *normItem) fields(now time.Time, relative string, names ...string) map[string]any {
	m := map[string]any{}
	add := func(k string, x any, present bool) {
		if !present {
			return
		}
		for _, n := range names {
			if n == k {
				m[k] = x
			}
		}
	}
	str := func(k string, s *string) { add(k, s, s != nil) }
	ts := func(k string, s TS) {
		if t := s.at(now); t != nil {
			add(k, t.Format(time.RFC3339Nano), true)
		}
	}
	str("_id", v.ID)
	str("topic", v.Topic)
	add("state", v.State, v.State != nil)
	str("nonce", v.Nonce)
	str("producer", v.Producer)
	str("consumer", v.Consumer)
	ts("produced", v.Produced)
	ts("scheduled", v.Scheduled)
	ts("consumed", v.Consumed)
	ts("deadline", v.Deadline)
	if len(v.Payload) > 0 {
		add("payload", v.Payload, true)
	}
	add(relative, v.Relative, v.Relative != "")
	return m
}

func deref(s *string) string {
	if s == nil {
		return ""
	}
	return *s
}

// span bounds a time that the code under test takes itself.
type span struct{ lo, hi time.Time }

func (s span) has(t *time.Time, d time.Duration) bool {
	return t != nil && !t.Before(s.lo.Add(d)) && !t.After(s.hi.Add(d))
}

func runNorm(x *X, c normCase) {
	g := openMem(time.Hour)
	a := newAPI(1000, 10000)
	a.use(x, g, nil)
	d := newDriver(x, memMode(int64(time.Hour)), &engineExec{g: g})
	old := Op{K: opInsert, Tasks: []T{c.Old}}
	if c.Exists {
		d.step(old)
	}
	d.clk.Advance(time.Duration(c.Advance))
	base := d.clk.Now()
	q := &Req{Header: map[string]string{}}
	o := Op{Topic: c.Topic, ID: c.PathID}
	var body any
	tnames := []string{"_id", "topic", "state", "nonce", "producer", "consumer", "produced", "scheduled", "consumed", "deadline", "payload", "defer"}
	switch c.Kind {
	case "task":
		o.K = opInsert
		if c.Put {
			o.K = opUpsert
		}
		body = c.Items[0].fields(base, "defer", tnames...)
	case "tasks":
		o.K = opInserts
		if c.Put {
			o.K = opUpserts
		}
		l := []any{}
		for i := range c.Items {
			l = append(l, c.Items[i].fields(base, "defer", tnames...))
		}
		body = map[string]any{"data": l}
	case "commit":
		o.K = opCommit
		body = c.Items[0].fields(base, "defer", "nonce", "topic", "state", "scheduled", "payload", "defer")
	case "promise", "poll":
		o.K = opInsPromise
		if c.Put {
			o.K = opUpsPromise
		}
		if c.Kind == "poll" {
			o.K = opPoll
		}
		all := c.Items[0].fields(base, "timeout", "_id", "consumer", "deadline", "timeout")
		v := url.Values{}
		for k := range all {
			s := fmt.Sprint(all[k])
			if p, ok := all[k].(*string); ok {
				s = *p
			}
			if c.Query[k] {
				if s != "" {
					v.Set(k, s)
				}
				delete(all, k)
			}
		}
		if len(v) > 0 {
			q.Target = "?" + v.Encode()
		}
		body = all
	}
	m, p := methodPath(o)
	if c.Style&styleV1 != 0 {
		p = "/v1" + p
	}
	q.Method, q.Target = m, p+q.Target
	if !c.NoBody {
		q.Body = jsonBody(body)
		if c.Style&styleQuery != 0 {
			q.Header["Content-Type"] = "application/json"
		}
	}
	if c.NoBody && c.Kind == "commit" {
		c.Items[0] = normItem{}
	}
	now := span{lo: d.clk.Now()}
	resp := a.do(x, q)
	now.hi = d.clk.Now()
	if resp == nil {
		bug("not a request: %s", q)
	}
	r, bad := parseResult(o.K, resp)
	if bad != "" {
		x.Fail("response", []string{"C24", "C19", "C18"}, "%s: %s: %s", q, bad, resp)
	}
	x.Class("%s:%s", o.K, r.Err)
	for _, i := range c.Items {
		if i.Relative != "" {
			x.Class("relative")
			if i.Scheduled.K != "" && c.Kind != "promise" && c.Kind != "poll" || i.Deadline.K != "" && (c.Kind == "promise" || c.Kind == "poll") {
				x.Class("relative-and-absolute")
			}
		}
	}
	stored := func(id string) *ratus.Task {
		r := doEngine(nil, g, &Call{Op: Op{K: opGetTask, ID: id}})
		return r.Task
	}
	expect := func(e string) {
		if r.Err != e {
			x.Failp("norm-outcome", "%s: got %s, want %q", q, resp, e)
		}
	}
	same := func(id string) {
		w := d.state.Tasks[id]
		s := stored(id)
		if w == nil && s == nil || w != nil && s != nil && len(taskDiff(w, s)) == 0 {
			return
		}
		x.Failp("norm-changed", "%s answered with %s changed task %q from %s to %s", q, resp, id, show(w), show(s))
	}
	// check compares a stored task with what is expected; times equal to nil in
	// want are within the given distance from the time of acceptance.
	check := func(id string, want *ratus.Task, produced, scheduled, deadline, consumed *time.Duration, seen ...*ratus.Task) {
		s := stored(id)
		for _, s := range append([]*ratus.Task{s}, seen...) {
			if s == nil {
				x.Failp("norm-missing", "%s: task %q was not stored", q, id)
			}
			w := dup(want)
			for _, f := range []struct {
				name string
				d    *time.Duration
				w, s **time.Time
			}{{"produced", produced, &w.Produced, &s.Produced}, {"scheduled", scheduled, &w.Scheduled, &s.Scheduled}, {"deadline", deadline, &w.Deadline, &s.Deadline}, {"consumed", consumed, &w.Consumed, &s.Consumed}} {
				if f.d == nil {
					continue
				}
				if !now.has(*f.s, *f.d) {
					x.Failp("norm-"+f.name, "%s: the %s time is %s, but should be %v after the acceptance at %s", q, f.name, showTime(*f.s), *f.d, now.lo.Format(time.RFC3339Nano))
				}
				*f.w = *f.s
			}
			if d := taskDiff(w, s); len(d) > 0 {
				x.Failp("norm-fields", "%s: the task differs in %v: got %s want %s", q, d, show(s), show(w))
			}
		}
	}
	zero := time.Duration(0)
	relative := func(s string) *time.Duration {
		v, ok := durations[s]
		if !ok {
			bug("unknown duration %q", s)
		}
		return &v
	}
	switch c.Kind {
	case "task", "tasks":
		for i := range c.Items {
			v := &c.Items[i]
			id := deref(v.ID)
			topic := deref(v.Topic)
			if topic == "" {
				topic = c.Topic
			}
			if c.PathID != "" && id != "" && id != c.PathID || topic == "" {
				expect("badrequest")
				for _, id := range []string{"id", "other", "id0", "id1", "id2", "id3"} {
					same(id)
				}
				x.Class("refused")
				return
			}
		}
		for i := range c.Items {
			v := &c.Items[i]
			id := deref(v.ID)
			if id == "" {
				id = c.PathID
			}
			topic := deref(v.Topic)
			if topic == "" {
				topic = c.Topic
			}
			if c.Exists && id == "id" && !c.Put {
				if c.Kind == "task" {
					expect("conflict")
				} else {
					expect("")
				}
				same(id)
				continue
			}
			expect("")
			w := &ratus.Task{ID: id, Topic: topic, Nonce: deref(v.Nonce), Producer: deref(v.Producer), Consumer: deref(v.Consumer),
				Produced: v.Produced.at(base), Scheduled: v.Scheduled.at(base), Consumed: v.Consumed.at(base), Deadline: v.Deadline.at(base), Payload: payload(v.Payload)}
			if v.State != nil {
				w.State = ratus.TaskState(*v.State)
			}
			var pd, sd *time.Duration
			if w.Produced == nil {
				pd = &zero
			}
			if w.Scheduled == nil {
				sd = &zero
				if v.Relative != "" {
					sd = relative(v.Relative)
				}
			}
			check(id, w, pd, sd, nil, nil)
			x.NonTrivial()
		}
	case "commit":
		v := &c.Items[0]
		b := d.state.Tasks["id"]
		if b == nil {
			expect("notfound")
			return
		}
		if n := deref(v.Nonce); n != "" && n != b.Nonce {
			expect("conflict")
			same("id")
			return
		}
		expect("")
		w := dup(b)
		w.Nonce = ""
		w.State = 2
		if v.State != nil {
			w.State = ratus.TaskState(*v.State)
		}
		if t := deref(v.Topic); t != "" {
			w.Topic = t
		}
		if p := payload(v.Payload); p != nil {
			w.Payload = p
		}
		var sd *time.Duration
		if t := v.Scheduled.at(base); t != nil {
			w.Scheduled = t
		} else if v.Relative != "" {
			sd = relative(v.Relative)
		}
		check("id", w, nil, sd, nil, nil, r.Task)
		x.NonTrivial()
	case "promise", "poll":
		v := &c.Items[0]
		id := deref(v.ID)
		if c.Kind == "promise" && id != "" && id != c.PathID {
			expect("badrequest")
			same("id")
			x.Class("refused")
			return
		}
		b := d.state.Tasks["id"]
		if id == "" && c.Kind == "promise" {
			id = "id"
		}
		wild := c.Kind == "poll" && id == ""
		switch {
		case b == nil || id != "" && id != "id" || wild && b.State != ratus.TaskStatePending:
			expect("notfound")
			same("id")
			return
		case o.K != opUpsPromise && b.State != ratus.TaskStatePending:
			expect("conflict")
			same("id")
			return
		}
		expect("")
		w := dup(b)
		w.State = ratus.TaskStateActive
		w.Consumer = deref(v.Consumer)
		w.Nonce = r.Task.Nonce
		var dd *time.Duration
		if w.Deadline = v.Deadline.at(base); w.Deadline == nil {
			dd = ptr(10 * time.Minute)
			if v.Relative != "" {
				dd = relative(v.Relative)
			}
		}
		check("id", w, nil, nil, dd, &zero, r.Task)
		x.NonTrivial()
	}
}

// ---- errors ----

// errCase is a failure of an operation of the storage engine, or a bare
// response of something between server and client.
type errCase struct {
	Op      string   `json:"op"`
	Kind    string   `json:"kind"`
	Prefix  []string `json:"prefix,omitempty"` // outermost last
	Suffix  []string `json:"suffix,omitempty"`
	Join    string   `json:"join,omitempty"`
	Style   int      `json:"style,omitempty"`
	Status  int      `json:"status,omitempty"` // a bare response instead of an engine error
	Body    string   `json:"body,omitempty"`
	Message string   `json:"message,omitempty"`
}

const opReady = "ready"

var engineOps = []string{opInsert, opInserts, opUpsert, opUpserts, opPoll, opInsPromise, opUpsPromise, opCommit, opDelTopics, opDelTopic, opDelTasks, opDelTask, opDelPromises, opDelPromise, opGetTask, opListTasks, opListTopics, opGetTopic, opListPromises, opGetPromise}

// failures are the kinds of failures with the documented status codes.
var failures = map[string]struct {
	err    error
	status int
}{
	"badrequest":  {ratus.ErrBadRequest, 400},
	"notfound":    {ratus.ErrNotFound, 404},
	"conflict":    {ratus.ErrConflict, 409},
	"closed":      {ratus.ErrClientClosedRequest, 499},
	"internal":    {ratus.ErrInternalServerError, 500},
	"unavailable": {ratus.ErrServiceUnavailable, 503},
	"canceled":    {context.Canceled, 499},
	"eof":         {io.ErrUnexpectedEOF, 499},
	"other":       {errors.New("something else"), 500},
	"empty":       {errors.New(""), 500},
}

var sentinels = map[int]error{400: ratus.ErrBadRequest, 404: ratus.ErrNotFound, 409: ratus.ErrConflict, 499: ratus.ErrClientClosedRequest, 500: ratus.ErrInternalServerError, 503: ratus.ErrServiceUnavailable}

func genErr(t *rapid.T) errCase {
	c := errCase{Op: pick(t, "op", append([]string{opReady}, engineOps...)...), Style: intn(t, styleAll+1, "style")}
	c.Kind = pick(t, "kind", "badrequest", "notfound", "conflict", "closed", "internal", "unavailable", "canceled", "eof", "other", "empty")
	word := func(label string) string {
		return pick(t, label, "loading", "x: y", "not found", "conflict", "é\"\\\n<&>", "", "a%sb%!", "internal server error", "deadline", "bad request: ", strings.Repeat("m", 3000))
	}
	long := func() string { return strings.Repeat("long ", pick(t, "long", 900, 3300, 7000, 14000, 60000)) }
	for i := intn(t, 3, "prefixes"); i > 0; i-- {
		c.Prefix = append(c.Prefix, word("prefix"))
	}
	for i := intn(t, 3, "suffixes"); i > 0; i-- {
		c.Suffix = append(c.Suffix, word("suffix"))
	}
	if oneIn(t, 5, "join") {
		c.Join = word("joined")
	}
	if oneIn(t, 60, "longer") {
		c.Suffix = append(c.Suffix, long())
	}
	if oneIn(t, 4, "bare") {
		c.Message = word("message")
		c.Status = pick(t, "status", 400, 401, 403, 404, 405, 408, 409, 413, 418, 429, 499, 500, 502, 503, 504, 599)
		b, _ := json.Marshal(map[string]any{"error": map[string]any{"code": c.Status, "message": c.Message}})
		c.Body = pick(t, "body", string(b), string(b), "", "<html>bad gateway</html>", "null", "{}", `{"error":null}`, `{"error":"x"}`, "[]", `"x"`, `{"data":[]}`, `{"error":{"code":200,"message":"ok"}}`, `{"created":1}`)
	}
	return c
}

// plainOp returns a well-formed call of an operation.
func plainOp(k string, style int) *Call {
	o := Op{K: k, Topic: "t", ID: "a", Limit: 5, Style: style, Consumer: "c"}
	switch k {
	case opInsert, opUpsert:
		o.Topic = ""
		o.ID = ""
		o.Tasks = []T{{ID: "a", Topic: "t"}}
	case opInserts, opUpserts:
		o.Topic = ""
		o.Tasks = []T{{ID: "a", Topic: "t"}, {ID: "b", Topic: "t"}}
	case opPoll:
		o.ID = ""
	}
	return resolve(o, time.Now(), func(id, ref string) string { return ref })
}

func runErr(x *X, c errCase) {
	f, ok := failures[c.Kind]
	if !ok {
		bug("unknown failure %q", c.Kind)
	}
	err := f.err
	for _, s := range c.Suffix {
		err = fmt.Errorf("%w: %s", err, s)
	}
	for _, s := range c.Prefix {
		err = fmt.Errorf("%s: %w", s, err)
	}
	if c.Join != "" {
		err = errors.Join(errors.New(c.Join), err)
	}
	g := openMem(time.Hour)
	a := newAPI(1000, 10000)
	n := 0
	a.use(x, g, func(string) error { n++; return err })
	client := newClient(a.serve(x), nil)

	status, message := f.status, err.Error()
	if c.Status != 0 {
		// The client alone.
		x.Class("bare:%d", c.Status)
		a.tapped(x, func(w http.ResponseWriter, r *http.Request, next http.Handler) {
			w.Header().Set("Content-Type", "application/json")
			w.WriteHeader(c.Status)
			io.WriteString(w, c.Body)
		})
		status, message = 0, ""
		var e struct {
			Error struct {
				Code    int
				Message string
			}
		}
		if json.Unmarshal([]byte(c.Body), &e) == nil && e.Error.Code == c.Status {
			status, message = c.Status, e.Error.Message
		}
	} else {
		// The response itself.
		q := &Req{Method: "GET", Target: "/readyz"}
		if c.Op != opReady {
			q = (&httpExec{x: x, a: a, g: g}).request(plainOp(c.Op, c.Style))
		} else if c.Style&styleV1 != 0 {
			q.Target = "/v1/readyz"
		}
		p := a.do(x, q)
		if p == nil {
			bug("not a request: %s", q)
		}
		if n != 1 {
			x.Failp("engine-calls", "%s reached the storage engine %d times", q, n)
		}
		if p.Status != status {
			x.Failp("status", "%s with the engine failing with %q (%s): got status %d, want %d: %s", q, err, c.Kind, p.Status, status, p)
		}
		code, msg, ok := errBody(p)
		if !ok || code != status {
			x.Failp("error-body", "%s with the engine failing with %q (%s): not an error body with code %d: %s", q, err, c.Kind, status, p)
		}
		if !strings.Contains(msg, message) {
			x.Failp("error-message", "%s with the engine failing with %q (%s): the message is lost: %s", q, err, c.Kind, p)
		}
		message = msg
		x.Class("%s:%d", c.Op, status)
	}

	// The error that the client returns.
	ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
	defer cancel()
	var cerr error
	res := "nothing"
	if c.Op == opReady {
		cerr = client.GetReadiness(ctx)
	} else {
		e := &clientExec{c: client, g: g}
		r := e.Do(plainOp(c.Op, c.Style))
		cerr = e.err
		res = r.String()
	}
	what := fmt.Sprintf("client call %s answered with status %d and message %q", c.Op, status, message)
	if c.Status != 0 {
		what = fmt.Sprintf("client call %s answered with status %d and body %q", c.Op, c.Status, c.Body)
	}
	if cerr == nil {
		x.Failp("swallowed", "%s succeeded with %s", what, res)
	}
	if status != 0 {
		want := sentinels[status]
		for s, e := range sentinels {
			if got := errors.Is(cerr, e); got != (e == want) {
				x.Failp("client-kind", "%s: the error %q matches status %d: %v", what, cerr, s, got)
			}
		}
		text := cerr.Error()
		switch {
		case want == nil:
			if text != message {
				x.Failp("client-message", "%s: the client says %q", what, text)
			}
		case strings.HasPrefix(message, want.Error()):
			if text != message {
				x.Failp("client-message", "%s: the client says %q", what, text)
			}
		case message == "":
			if text != want.Error() {
				x.Failp("client-message", "%s: the client says %q", what, text)
			}
		default:
			// Between the text of the kind and the message is a separator.
			m := strings.TrimSuffix(text, message)
			if m == text || strings.TrimPrefix(m, want.Error()) == m && m != "" || m == want.Error() || len(m) > len(want.Error())+4 {
				x.Failp("client-message", "%s: the client says %q", what, text)
			}
		}
		if len(c.Prefix)+len(c.Suffix) > 0 || c.Status != 0 {
			x.NonTrivial()
		}
	} else {
		x.NonTrivial()
	}
}
