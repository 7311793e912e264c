package main

import (
	"context"
	"fmt"
	"strings"
	"time"
	"unicode"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/engine"
	"github.com/hyperonym/ratus/internal/verifclock"
)

// Exec executes calls against some level of the system.
type Exec interface {
	Do(c *Call) *Result
}

// engineExec executes calls on a storage engine.
type engineExec struct {
	g   engine.Engine
	ctx context.Context
}

func (e *engineExec) Do(c *Call) *Result { return doEngine(e.ctx, e.g, c) }

func doEngine(ctx context.Context, g engine.Engine, c *Call) *Result {
	if ctx == nil {
		ctx = context.Background()
	}
	r := &Result{}
	var err error
	o := c.Op
	switch o.K {
	case opInsert:
		r.Updated, err = g.InsertTask(ctx, dup(c.Tasks[0]))
	case opInserts:
		r.Updated, err = g.InsertTasks(ctx, dups(c.Tasks))
	case opUpsert:
		r.Updated, err = g.UpsertTask(ctx, dup(c.Tasks[0]))
	case opUpserts:
		r.Updated, err = g.UpsertTasks(ctx, dups(c.Tasks))
	case opPoll:
		p := *c.Promise
		r.Task, err = g.Poll(ctx, o.Topic, &p)
	case opInsPromise:
		p := *c.Promise
		r.Task, err = g.InsertPromise(ctx, &p)
	case opUpsPromise:
		p := *c.Promise
		r.Task, err = g.UpsertPromise(ctx, &p)
	case opCommit:
		m := *c.Commit
		r.Task, err = g.Commit(ctx, o.ID, &m)
	case opDelTopics:
		r.Deleted, err = g.DeleteTopics(ctx)
	case opDelTopic:
		r.Deleted, err = g.DeleteTopic(ctx, o.Topic)
	case opDelTasks:
		r.Deleted, err = g.DeleteTasks(ctx, o.Topic)
	case opDelTask:
		r.Deleted, err = g.DeleteTask(ctx, o.ID)
	case opDelPromises:
		r.Deleted, err = g.DeletePromises(ctx, o.Topic)
	case opDelPromise:
		r.Deleted, err = g.DeletePromise(ctx, o.ID)
	case opGetTask:
		r.Task, err = g.GetTask(ctx, o.ID)
	case opListTasks:
		r.Tasks, err = g.ListTasks(ctx, o.Topic, o.Limit, o.Offset)
	case opListTopics:
		r.Topics, err = g.ListTopics(ctx, o.Limit, o.Offset)
	case opGetTopic:
		r.Topic, err = g.GetTopic(ctx, o.Topic)
	case opListPromises:
		r.Promises, err = g.ListPromises(ctx, o.Topic, o.Limit, o.Offset)
	case opGetPromise:
		r.Promise, err = g.GetPromise(ctx, o.ID)
	case opChore:
		err = g.Chore(ctx)
	default:
		bug("engine cannot do %q", o.K)
	}
	finish(o.K, r, err)
	return r
}

// finish completes the result of an operation. Success without a result is an
// error like any other that should not occur.
func finish(k string, r *Result, err error) {
	if err != nil {
		*r = Result{Err: kind(err), Msg: err.Error()}
		return
	}
	missing := false
	switch k {
	case opInsert, opInserts, opUpsert, opUpserts:
		missing = r.Updated == nil
	case opPoll, opInsPromise, opUpsPromise, opCommit, opGetTask:
		missing = r.Task == nil
	case opDelTopics, opDelTopic, opDelTasks, opDelTask, opDelPromises, opDelPromise:
		missing = r.Deleted == nil
	case opGetTopic:
		missing = r.Topic == nil
	case opGetPromise:
		missing = r.Promise == nil
	}
	for _, t := range r.Tasks {
		missing = missing || t == nil
	}
	for _, t := range r.Topics {
		missing = missing || t == nil
	}
	for _, p := range r.Promises {
		missing = missing || p == nil
	}
	if missing {
		*r = Result{Err: "other", Msg: "success, but no result"}
	}
}

func dups(v []*ratus.Task) []*ratus.Task {
	u := make([]*ratus.Task, len(v))
	for i := range v {
		u[i] = dup(v[i])
	}
	return u
}

// resolve turns an operation into a call.
func resolve(o Op, now time.Time, nonce func(id, ref string) string) *Call {
	o.ID, o.Topic = raw(o.ID), raw(o.Topic)
	c := &Call{Op: o}
	if o.Fill != nil {
		o.Tasks = o.Fill.expand()
		c.Op.Tasks = nil
	}
	for _, t := range o.Tasks {
		c.Tasks = append(c.Tasks, t.task(now))
	}
	switch o.K {
	case opPoll, opInsPromise, opUpsPromise:
		c.Promise = &ratus.Promise{ID: o.ID, Consumer: o.Consumer, Deadline: o.Deadline.at(now)}
	case opCommit:
		c.Commit = &ratus.Commit{Nonce: nonce(o.ID, o.NonceRef), Topic: o.Topic, Scheduled: o.Sched.at(now), Payload: payload(o.Payload)}
		if o.State != nil {
			c.Commit.State = ptr(ratus.TaskState(*o.State))
		}
	}
	return c
}

// driver runs a history against a level of the system, checks every result
// against the model, and audits the whole store after every operation.
type driver struct {
	x      *X
	mode   *Mode
	exec   Exec
	aud    Exec // executes the reads of audits, if not nil
	clk    *Clk
	state  *State
	nonces map[string][]string
	ids    map[string]bool
	topics map[string]bool
	log    []string
	reopen func()
	skip   bool                                            // no audits at all
	quiet  bool                                            // no audit of the listings after every operation
	max    int                                             // page size of audits
	fixup  func(c *Call)                                   // adapts a call to the level
	tags   string                                          // properties that any divergence belongs to
	odd    func(c *Call, r *Result, lo, hi time.Time) bool // handles outcomes that the model does not describe
}

func newDriver(x *X, mode *Mode, exec Exec) *driver {
	d := &driver{x: x, mode: mode, exec: exec, clk: newClk(), state: newState(), nonces: map[string][]string{}, ids: map[string]bool{}, topics: map[string]bool{}, max: 1000}
	x.Defer(func() { verifclock.Real() })
	return d
}

func (d *driver) names(h History) {
	for _, t := range h.Topics {
		d.topics[raw(t)] = true
	}
	for _, id := range h.IDs {
		d.ids[raw(id)] = true
	}
}

func (d *driver) fail(v *Div) {
	n := len(d.log)
	from := 0
	if n > 12 {
		from = n - 12
	}
	d.x.Fail(v.Key, append(v.Tags, strings.Fields(d.tags)...), "%s\nhistory (last %d of %d):\n  %s", v.Msg, n-from, n, strings.Join(d.log[from:], "\n  "))
}

func (d *driver) nonce(id, ref string) string {
	h := d.nonces[id]
	switch ref {
	case "swapped", "part", "longer":
		// Resembles the current nonce.
		n := d.nonce(id, "cur")
		switch ref {
		case "part":
			return n[:len(n)-1]
		case "longer":
			return n + n[:1]
		}
		return strings.Map(func(r rune) rune {
			if u := unicode.ToUpper(r); u != r {
				return u
			}
			return unicode.ToLower(r)
		}, n)
	case "":
		return ""
	case "cur":
		if t := d.state.Tasks[id]; t != nil && t.Nonce != "" {
			return t.Nonce
		}
		if len(h) > 0 {
			return h[len(h)-1]
		}
		return "none"
	case "old":
		cur := ""
		if t := d.state.Tasks[id]; t != nil {
			cur = t.Nonce
		}
		for i := len(h) - 1; i >= 0; i-- {
			if h[i] != cur {
				return h[i]
			}
		}
		return "older"
	case "other":
		for _, i := range d.state.ids() {
			if n := d.state.Tasks[i].Nonce; i != id && n != "" {
				return n
			}
		}
		return "another"
	}
	return ref
}

func (d *driver) step(o Op) *Result {
	if o.Times > 1 {
		// Repeat the operation and audit the store at the end.
		n := o.Times
		o.Times = 0
		for d.skip = true; n > 1; n-- {
			d.step(o)
		}
		d.skip = false
	}
	c := resolve(o, d.clk.Now(), d.nonce)
	if o.Fill == nil {
		for i, t := range o.Tasks {
			c.Tasks[i] = d.again(c.Tasks[i], t.As)
		}
	}
	if d.fixup != nil {
		d.fixup(c)
	}
	return d.call(c)
}

// again returns the task as it is stored already, with at most a few fields
// taken from the submitted one.
func (d *driver) again(t *ratus.Task, as int) *ratus.Task {
	v := d.state.Tasks[t.ID]
	if as == 0 || v == nil || d.state.Amb[t.ID] != nil {
		return t
	}
	u := dup(v)
	switch as {
	case 2:
		u.State, u.Nonce = t.State, t.Nonce
	case 3:
		u.Payload = t.Payload
	case 4:
		u.Scheduled = t.Scheduled
	case 5:
		u.Topic = t.Topic
	case 6:
		u.Producer, u.Consumer, u.Produced = t.Producer, t.Consumer, t.Produced
	case 7:
		u.Consumed, u.Deadline = t.Consumed, t.Deadline
	}
	d.x.Class("again")
	return u
}

// call executes a call and checks its outcome.
func (d *driver) call(c *Call) *Result {
	o := c.Op
	if o.K == opAdvance {
		d.clk.Advance(time.Duration(o.Adv))
		d.log = append(d.log, callString(c))
		return &Result{}
	}
	if o.K == opOpen {
		d.log = append(d.log, "reopen")
		d.reopen()
		d.audit(c, d.state.Tasks)
		return &Result{}
	}
	before := d.state.clone().Tasks
	lo := d.clk.Now()
	r := d.exec.Do(c)
	hi := d.clk.Now()
	d.log = append(d.log, fmt.Sprintf("%s @%s -> %s", callString(c), lo.Format(time.RFC3339Nano), r))
	d.classify(c, r)
	if d.odd != nil && d.odd(c, r, lo, hi) {
		d.x.Class("odd:%s", c.Op.K)
	} else if v := d.mode.Apply(d.state, c, r, lo, hi); v != nil {
		d.fail(v)
	}
	for _, t := range c.Tasks {
		d.ids[t.ID] = true
		d.topics[t.Topic] = true
	}
	if o.ID != "" {
		d.ids[o.ID] = true
	}
	if o.Topic != "" {
		d.topics[o.Topic] = true
	}
	d.audit(c, before)
	for id, t := range d.state.Tasks {
		if n := t.Nonce; n != "" {
			h := d.nonces[id]
			if len(h) == 0 || h[len(h)-1] != n {
				d.nonces[id] = append(h, n)
			}
		}
	}
	return r
}

func (d *driver) classify(c *Call, r *Result) {
	k := r.Err
	if k == "" {
		k = "ok"
	}
	d.x.Class("%s:%s", c.Op.K, k)
	if r.Err == "" {
		switch {
		case r.Deleted != nil && r.Deleted.Deleted > 0:
			d.x.Class("%s:some", c.Op.K)
		case r.Updated != nil && r.Updated.Updated > 0:
			d.x.Class("%s:updated", c.Op.K)
		case len(r.Tasks)+len(r.Topics)+len(r.Promises) > 0:
			d.x.Class("%s:some", c.Op.K)
		}
	}
}

// read executes a read and checks its result, attributing a divergence to the
// operation before it as well.
func (d *driver) read(c *Call, o Op) {
	rc := &Call{Op: o}
	lo := d.clk.Now()
	r := d.auditor().Do(rc)
	if v := d.mode.Apply(d.state, rc, r, lo, d.clk.Now()); v != nil {
		v.Tags = append(v.Tags, strings.Fields(opTags[c.Op.K])...)
		v.Msg = "after " + callString(c) + ": " + v.Msg
		d.fail(v)
	}
}

func (d *driver) auditor() Exec {
	if d.aud != nil {
		return d.aud
	}
	return d.exec
}

// audit compares the whole store with the model.
func (d *driver) audit(c *Call, before map[string]*ratus.Task) {
	if d.skip {
		return
	}
	n := len(d.state.Tasks)
	for _, id := range sortedKeys(d.ids) {
		o := Op{K: opGetTask, ID: id}
		r := d.auditor().Do(&Call{Op: o})
		if r.Err != "" && r.Err != "notfound" {
			d.fail(div("get-error", "C11 C02", "after %s, getting task %q failed: %s", callString(c), id, r))
		}
		if r.Err == "" && r.Task == nil {
			d.fail(div("get-nil", "C11 C02", "after %s, getting task %q returned nothing", callString(c), id))
		}
		t := r.Task
		if v := d.state.auditTask(c, before, id, t); v != nil {
			d.fail(v)
		}
	}
	if len(d.state.Amb) > 0 {
		bug("unresolved tasks %v", d.state.Amb)
	}
	if n != len(d.state.Tasks) {
		d.x.Class("chore:boundary")
	}
	for id, b := range before {
		a := d.state.Tasks[id]
		if c.Op.K == opChore {
			if a == nil {
				d.x.Class("chore:expired")
			} else if a.State != b.State {
				d.x.Class("chore:recovered")
			} else if a.State == ratus.TaskStateActive {
				d.x.Class("chore:kept-active")
			} else if a.State == ratus.TaskStateCompleted {
				d.x.Class("chore:kept-completed")
			}
		}
	}
	if d.quiet {
		return
	}
	d.read(c, Op{K: opListTopics, Limit: d.max})
	for _, t := range sortedKeys(d.topics) {
		d.read(c, Op{K: opGetTopic, Topic: t})
		d.read(c, Op{K: opListTasks, Topic: t, Limit: d.max})
		d.read(c, Op{K: opListPromises, Topic: t, Limit: d.max})
	}
	for _, id := range sortedKeys(d.ids) {
		d.read(c, Op{K: opGetPromise, ID: id})
	}
}

func sortedKeys(m map[string]bool) []string {
	v := make([]string, 0, len(m))
	for k := range m {
		v = append(v, k)
	}
	sortStrings(v)
	return v
}

// drain polls and commits until all topics are empty, at a time when
// everything (before the year 9990, which JSON can still express) is due, and
// checks that every pending task is obtained once.
func (d *driver) drain() {
	var last time.Time
	for _, t := range d.state.Tasks {
		if t.State == ratus.TaskStatePending && t.Scheduled != nil && t.Scheduled.After(last) && t.Scheduled.Year() < 9990 {
			last = *t.Scheduled
		}
	}
	if !virtualClock {
		return
	}
	if last.After(d.clk.now) {
		d.clk.now = last.Add(time.Second)
		verifclock.Set(d.clk.now)
	}
	want := map[string]bool{}
	for id, t := range d.state.Tasks {
		if t.State == ratus.TaskStatePending && t.Scheduled != nil && t.Scheduled.Year() < 9990 {
			want[id] = true
		}
	}
	d.quiet = true
	n := len(want)
	for _, topic := range sortedKeys(d.topics) {
		for {
			if n < -1 {
				d.fail(div("drain-endless", "C02 C01", "draining hands out more tasks than exist"))
			}
			r := d.step(Op{K: opPoll, Topic: topic, Consumer: "drain", Deadline: TS{K: "rel", N: int64(time.Hour)}})
			if r.Err != "" {
				break
			}
			n--
			delete(want, r.Task.ID)
			d.step(Op{K: opCommit, ID: r.Task.ID, NonceRef: "cur", State: ptr(2)})
		}
	}
	if len(want) > 0 {
		d.fail(div("drain-lost", "C02", "draining all topics left out due tasks %v", sortedKeys(want)))
	}
	d.x.Class("drained")
}
