package main

import (
	"fmt"
	"strings"
	"time"

	"go.mongodb.org/mongo-driver/bson"
	"pgregory.net/rapid"

	"github.com/hyperonym/ratus"
)

// Histories of several instances that share a collection, or of several threads
// that share an instance. The server executes one command at a time, and lets
// generated choices decide whose is next.

type mongoConcCase struct {
	concCase
	Setups []mongoSetup `json:"setups"`
	Deploy mongoCfg     `json:"deploy"`
	Share  int          `json:"share,omitempty"` // that many threads share an instance
}

// instance returns which instance a thread uses.
func (c mongoConcCase) instance(thread int) int {
	if c.Share > 0 {
		return thread / c.Share
	}
	return thread
}

// docChange is one change of a task.
type docChange struct {
	version       int // of the store after it
	thread        int
	before, after *ratus.Task
}

func (m *docChange) id() string {
	if m.before != nil {
		return m.before.ID
	}
	return m.after.ID
}

// concEvent is an operation with the versions of the store it saw.
type concEvent struct {
	event
	muts []docChange // its own
}

func runMongoConc(x *X, c mongoConcCase) {
	s := mongoDB(x, c.Deploy)
	mode := &Mode{Millis: true, Retention: -1, DupBatch: true}
	g := openMongo(x, s, c.Setups[0], "main", time.Hour)
	d := newDriver(x, mode, &engineExec{g: g})
	d.quiet = true
	d.aud = &storeExec{s}
	d.names(History{IDs: c.IDs, Topics: c.Topics})
	for _, o := range c.Setup {
		d.step(o)
	}
	execs := make([]*engineExec, len(c.Threads))
	for i := range c.Threads {
		if j := c.instance(i); i > 0 && j == c.instance(i-1) {
			execs[i] = execs[i-1]
			continue
		}
		execs[i] = &engineExec{g: openMongo(x, s, c.Setups[i], fmt.Sprintf("t%d", i), time.Hour)}
	}

	// The history of the store: all versions, and what changed.
	sched := newSched(len(c.Threads), c.Choices)
	sources := map[*mongoCmd]*thread{}
	ambiguous := false
	// arrived finds out which thread sent a command; of those that share an
	// instance, it must be the only one that runs. Requires the lock of s.
	arrived := func(m *mongoCmd) *thread {
		var n int
		if _, err := fmt.Sscanf(m.app, "t%d", &n); err != nil || n >= len(sched.threads) {
			return nil
		}
		if c.Share == 0 {
			sources[m] = sched.threads[n]
		} else if t := sched.running(); t != nil && c.instance(t.id) == c.instance(n) {
			sources[m] = t
		} else {
			ambiguous = true
		}
		return sources[m]
	}
	threadOf := func(m *mongoCmd) *thread { return sources[m] }
	versions := []map[string]*ratus.Task{s.tasks()}
	var muts []docChange
	cmds := 0
	s.mu.Lock()
	s.changed = func(m *mongoCmd, _ any, before, after bson.D) {
		t := threadOf(m)
		if t == nil {
			return
		}
		v := map[string]*ratus.Task{}
		for k, w := range versions[len(versions)-1] {
			v[k] = w
		}
		mu := docChange{len(versions), t.id, taskOf(before), taskOf(after)}
		if after == nil {
			delete(v, mu.id())
		} else {
			v[mu.id()] = mu.after
		}
		versions = append(versions, v)
		muts = append(muts, mu)
	}
	s.arrive = func(m *mongoCmd) *mongoFault {
		s.mu.Lock()
		t := arrived(m)
		s.mu.Unlock()
		if t != nil {
			s.mu.Lock()
			cmds++
			n := cmds
			s.mu.Unlock()
			if n > 3000 {
				return &mongoFault{Code: 11601}
			}
			t.park(m.name)
		}
		return nil
	}
	s.yield = func(m *mongoCmd) {
		s.mu.Lock()
		t := threadOf(m)
		s.mu.Unlock()
		if t != nil {
			t.park("between documents")
		}
	}
	s.mu.Unlock()
	now := func() int {
		s.mu.Lock()
		defer s.mu.Unlock()
		return len(versions) - 1
	}
	var es []*concEvent
	var fs []func(t *thread)
	for i, ops := range c.Threads {
		i, ops := i, ops
		last, older := map[string]string{}, map[string]string{}
		for id, t := range d.state.Tasks {
			if t.Nonce != "" {
				last[id] = t.Nonce
			}
		}
		fs = append(fs, func(t *thread) {
			for _, o := range ops {
				call := resolve(o, d.clk.Now(), func(id, ref string) string {
					switch ref {
					case "":
						return ""
					case "cur", "other":
						if n := last[id]; n != "" {
							return n
						}
						return "none"
					case "old":
						if n := older[id]; n != "" {
							return n
						}
						return "older"
					}
					return ref
				})
				if call.Promise != nil && call.Promise.Consumer != "" {
					call.Promise.Consumer = fmt.Sprintf("%s-%d", call.Promise.Consumer, i)
				}
				e := &concEvent{event: event{c: call, thread: i, from: now(), lo: d.clk.Now()}}
				e.r = execs[i].Do(call)
				e.hi = d.clk.Now()
				e.to = now()
				if u := e.r.Task; u != nil && u.Nonce != "" && u.Nonce != last[u.ID] {
					older[u.ID], last[u.ID] = last[u.ID], u.Nonce
				}
				sched.mu.Lock()
				es = append(es, e)
				sched.mu.Unlock()
				t.park("between")
			}
		})
	}
	dead, fault := sched.run(fs)
	s.mu.Lock()
	s.arrive, s.yield, s.changed = nil, nil, nil
	n := cmds
	slow := ambiguous
	s.mu.Unlock()
	if slow {
		x.Class("slow")
		return
	}
	var lines []string
	for _, e := range es {
		lines = append(lines, e.String())
	}
	hist := "\nhistory:\n  " + strings.Join(lines, "\n  ") + "\nstarting from:" + (&State{Tasks: versions[0]}).String() + "\nchanges:"
	for _, m := range muts {
		hist += fmt.Sprintf("\n  %d: thread %d changes %s to %s", m.version, m.thread, show(m.before), show(m.after))
	}
	hist += "\ncommands:\n  " + s.recent(60)
	if dead != "" {
		x.Failp("deadlock", "concurrent operations do not finish: %s%s", dead, hist)
	}
	if fault != nil {
		if f, ok := fault.(*failure); ok {
			f.msg += hist
		}
		panic(fault)
	}
	if n > 3000 {
		x.Failp("endless", "operations repeat their commands without end%s", hist)
	}
	h := &concHistory{x: x, m: mode, versions: versions, muts: muts, nonces: map[string]bool{}, setups: c.Setups, sharded: len(c.Deploy.ShardKey) > 0, text: hist}
	for _, t := range versions[0] {
		if t.Nonce != "" {
			h.nonces[t.Nonce] = true
		}
	}
	overlap := 0
	for i, e := range es {
		k := e.r.Err
		if k == "" {
			k = "ok"
		}
		x.Class("%s:%s", e.c.Op.K, k)
		for _, m := range muts {
			if m.version > e.from && m.version <= e.to {
				if m.thread == e.thread {
					e.muts = append(e.muts, m)
				} else {
					overlap++
				}
			}
		}
		_ = i
		h.check(e)
	}
	h.owners(es)
	if overlap > 0 {
		x.NonTrivial()
		x.Class("raced")
	}

	// The engine still agrees with what is stored.
	d.state.Tasks = versions[len(versions)-1]
	for id := range d.state.Tasks {
		d.ids[id] = true
	}
	d.aud = nil
	d.quiet = false
	d.audit(&Call{Op: Op{K: "concurrent operations"}}, d.state.clone().Tasks)
}

type concHistory struct {
	x        *X
	m        *Mode
	versions []map[string]*ratus.Task
	muts     []docChange
	nonces   map[string]bool
	setups   []mongoSetup
	sharded  bool
	text     string
}

func (h *concHistory) fail(e *concEvent, key, format string, a ...any) {
	h.x.Failp(key, "%s: %s%s", e, fmt.Sprintf(format, a...), h.text)
}

// at returns whether the outcome of an event fits a version that it saw.
func (h *concHistory) at(e *concEvent) (bool, string) {
	why := ""
	for v := e.from; v <= e.to; v++ {
		if ok, w := h.fits(e, v); ok {
			return true, ""
		} else {
			why = w
		}
	}
	return false, why
}

func (h *concHistory) fits(e *concEvent, v int) (bool, string) {
	s := newState()
	for k, t := range h.versions[v] {
		s.Tasks[k] = t
	}
	w := h.m.Apply(s, e.c, e.r, e.lo, e.hi)
	if w == nil {
		return true, ""
	}
	return false, w.Msg
}

// better returns a task that a poll should have preferred in a version.
func (h *concHistory) better(v int, e *concEvent, id string) string {
	w := h.versions[v]
	t := w[id]
	if t == nil || t.Topic != e.c.Op.Topic || t.State != ratus.TaskStatePending || t.Scheduled == nil || after(t.Scheduled, e.hi) {
		return "task " + id + " was not available"
	}
	for k := range w {
		if u := w[k]; u.Topic == t.Topic && u.State == ratus.TaskStatePending && u.Scheduled != nil && u.Scheduled.UnixMilli() < t.Scheduled.UnixMilli() {
			return show(u)
		}
	}
	return ""
}

// always returns whether a task had a property in all versions an event saw.
func (h *concHistory) always(e *concEvent, id string, f func(t *ratus.Task) bool) bool {
	for v := e.from; v <= e.to; v++ {
		if !f(h.versions[v][id]) {
			return false
		}
	}
	return true
}

// disturbed returns whether others changed a task meanwhile.
func (h *concHistory) disturbed(e *concEvent, id string) bool {
	for _, m := range h.muts {
		if m.version > e.from && m.version <= e.to && m.thread != e.thread && m.id() == id {
			return true
		}
	}
	return false
}

func (h *concHistory) ids() map[string]bool {
	ids := map[string]bool{}
	for _, v := range h.versions {
		for id := range v {
			ids[id] = true
		}
	}
	return ids
}

func exists(t *ratus.Task) bool { return t != nil }

func (h *concHistory) check(e *concEvent) {
	o := e.c.Op
	u := h.setups[e.thread]
	split := u.Force || h.sharded
	for _, m := range e.muts {
		if why := h.m.legal(e.c, m.before, m.after, e.lo, e.hi, split); why != "" {
			h.fail(e, "illegal", "it changes %s to %s: %s", show(m.before), show(m.after), why)
		}
	}
	n := int64(len(e.muts))
	switch o.K {
	case opPoll, opInsPromise, opUpsPromise, opCommit:
		if e.r.Err != "" {
			if n > 0 {
				h.fail(e, "failed-changed", "it failed, but changed %s to %s", show(e.muts[0].before), show(e.muts[0].after))
			}
			if ok, why := h.at(e); ok || e.r.Err == "conflict" && o.K != opPoll && o.K != opUpsPromise && h.disturbed(e, o.ID) {
				return
			} else {
				h.fail(e, "unjustified", "no version of the store between %d and %d explains it: %s", e.from, e.to, why)
			}
		}
		if e.r.Task == nil {
			h.fail(e, "no-task", "it succeeded without a task")
		}
		if n == 0 && o.K == opCommit {
			// The commit may not have had anything to change.
			if ok, why := h.at(e); !ok {
				h.fail(e, "no-effect", "it succeeded without changing anything: %s", why)
			}
			return
		}
		if n != 1 {
			h.fail(e, "effects", "it changed %d tasks", n)
		}
		m := e.muts[0]
		if d := taskDiff(m.after, e.r.Task); len(d) > 0 {
			h.fail(e, "result", "it stored %s, but returned a task that differs in %v", show(m.after), d)
		}
		if o.K == opCommit {
			return
		}
		if h.nonces[m.after.Nonce] || m.after.Nonce == m.before.Nonce {
			h.fail(e, "nonce", "the nonce was used before")
		}
		h.nonces[m.after.Nonce] = true
		if o.K == opPoll {
			from := m.version - 1
			if u.NoAtomic || u.Force || h.sharded {
				from = e.from // the candidate was chosen earlier
			}
			ok, why := false, ""
			for v := from; v < m.version && !ok; v++ {
				if why = h.better(v, e, m.before.ID); why == "" {
					ok = true
				}
			}
			if !ok {
				h.fail(e, "order", "there was a better task: %s", why)
			}
		}
	case opInsert:
		switch e.r.Err {
		case "":
			if n != 1 || *e.r.Updated != (ratus.Updated{Created: 1}) {
				h.fail(e, "effects", "it changed %d tasks", n)
			}
		case "conflict":
			if n > 0 {
				h.fail(e, "failed-changed", "it failed, but changed %s to %s", show(e.muts[0].before), show(e.muts[0].after))
			}
			if ok, why := h.at(e); !ok {
				h.fail(e, "unjustified", "no version of the store between %d and %d explains it: %s", e.from, e.to, why)
			}
		default:
			h.fail(e, "failed", "it failed")
		}
	case opInserts:
		if e.r.Err != "" {
			h.fail(e, "failed", "it failed")
		}
		if *e.r.Updated != (ratus.Updated{Created: n}) {
			h.fail(e, "count", "it created %d tasks", n)
		}
		for _, t := range e.c.Tasks {
			if h.always(e, t.ID, func(t *ratus.Task) bool { return t == nil }) {
				h.fail(e, "lost", "task %q was not stored", t.ID)
			}
		}
	case opUpsert, opUpserts:
		if e.r.Err == "conflict" || e.r.Err != "" {
			h.fail(e, "failed", "it failed")
		}
		var created, updated, deleted int64
		for _, m := range e.muts {
			switch {
			case m.after == nil:
				deleted++
			case m.before == nil:
				created++
			default:
				updated++
			}
		}
		total := int64(len(e.c.Tasks))
		if g := e.r.Updated; split && deleted+updated == 0 && created == 0 && total > 0 || split && deleted > 0 {
			if g.Created != total-deleted || g.Updated != deleted {
				h.fail(e, "count", "it replaced %d of %d tasks", deleted, total)
			}
		} else if g.Created != created && !(split && g.Created == total) || g.Updated > total-g.Created || g.Updated < updated {
			h.fail(e, "count", "it created %d and replaced %d of %d tasks", created, updated, total)
		}
		for _, t := range e.c.Tasks {
			w := h.m.stored(t)
			done := false
			for _, m := range e.muts {
				done = done || m.after != nil && m.id() == t.ID
			}
			if done {
				continue
			}
			ok := false
			for v := e.from; v <= e.to; v++ {
				b := h.versions[v][t.ID]
				// An equal task is not changed; a task that another instance
				// inserted meanwhile stays when tasks are deleted and inserted.
				ok = ok || b != nil && (len(taskDiff(b, w)) == 0 || split && h.disturbed(e, t.ID))
			}
			if !ok {
				h.fail(e, "lost", "task %q was not stored", t.ID)
			}
		}
	case opDelTopics, opDelTopic, opDelTasks, opDelTask, opDelPromises, opDelPromise, opChore:
		if e.r.Err != "" {
			h.fail(e, "failed", "it failed")
		}
		if o.K != opChore && e.r.Deleted.Deleted != n {
			h.fail(e, "count", "it affected %d tasks", n)
		}
		for id := range h.ids() {
			if h.always(e, id, func(t *ratus.Task) bool {
				if t == nil {
					return false
				}
				switch o.K {
				case opDelTopic, opDelTasks:
					return t.Topic == o.Topic
				case opDelTask:
					return id == o.ID
				case opDelPromise:
					return id == o.ID && t.State == ratus.TaskStateActive
				case opDelPromises:
					return t.Topic == o.Topic && t.State == ratus.TaskStateActive
				case opChore:
					return t.State == ratus.TaskStateActive && t.Deadline != nil && t.Deadline.UnixMilli() < e.lo.UnixMilli()
				}
				return true
			}) {
				h.fail(e, "missed", "it left out task %q", id)
			}
		}
	default:
		if n > 0 {
			h.fail(e, "illegal", "a read changed %s to %s", show(e.muts[0].before), show(e.muts[0].after))
		}
		if ok, why := h.at(e); !ok {
			h.fail(e, "unjustified", "no version of the store between %d and %d explains it: %s", e.from, e.to, why)
		}
	}
}

// owners checks that no claim was handed out twice and no claim was committed
// twice, from the results that consumers saw alone.
func (h *concHistory) owners(es []*concEvent) {
	claimed, committed := map[string]*concEvent{}, map[string]*concEvent{}
	for _, e := range es {
		if e.r.Err != "" || e.r.Task == nil {
			continue
		}
		switch e.c.Op.K {
		case opPoll, opInsPromise, opUpsPromise:
			k := e.r.Task.ID + "/" + e.r.Task.Nonce
			if f := claimed[k]; f != nil {
				h.fail(e, "twice", "the same claim was handed out by %s", f)
			}
			claimed[k] = e
		case opCommit:
			if n := e.c.Commit.Nonce; n != "" && claimedBy(es, n) {
				if f := committed[n]; f != nil {
					h.fail(e, "twice", "the same claim was committed by %s", f)
				}
				committed[n] = e
			}
		}
	}
}

// claimedBy returns whether a nonce was generated for a claim.
func claimedBy(es []*concEvent, n string) bool {
	for _, e := range es {
		if e.r.Task != nil && e.r.Task.Nonce == n && e.c.Op.K != opCommit && e.c.Op.K != opGetTask {
			return true
		}
	}
	return false
}

func genMongoConc(p *Profile, share ...int) func(t *rapid.T) mongoConcCase {
	gen := genConc(p, false)
	return func(t *rapid.T) mongoConcCase {
		c := mongoConcCase{concCase: gen(t), Deploy: genDeploy(t), Share: pick(t, "share", share...)}
		c.Deploy.Batch, c.Deploy.Writes = 0, 0
		all := genSetup(t)
		mixed := oneIn(t, 3, "mixed")
		for range c.Threads {
			u := all
			if mixed {
				u = genSetup(t)
			}
			if len(c.Deploy.ShardKey) > 0 {
				u.NoAuto = false
			}
			if i := len(c.Setups); i > 0 && c.instance(i) == c.instance(i-1) {
				u = c.Setups[i-1]
			}
			c.Setups = append(c.Setups, u)
		}
		return c
	}
}

func init() {
	w := concWeights(opPoll, 20, opInsPromise, 10, opUpsPromise, 6, opCommit, 16, opInsert, 5, opInserts, 3, opUpsert, 4, opUpserts, 2, opDelPromise, 4, opDelPromises, 3, opChore, 4, opDelTask, 2, opDelTopic, 1, opGetTask, 2, opListTasks, 1, opGetPromise, 1, opGetTopic, 1)
	register(&Check{ID: "C27", Workers: 16, Parts: []Part{
		&prop[mongoConcCase]{name: "interleavings", quick: 8000, thorough: 300000,
			rule: "random operations of 2 to 4 instances that share a collection, with a server that lets generated choices decide the order of their commands, and of the documents within a command; every change and every result must be explained by the versions of the store that the operation saw; non-trivial: an operation ran while another instance changed a task",
			gen:  genMongoConc(&Profile{AnyState: true, Weights: w}, 0, 0, 2), run: runMongoConc},
		&prop[mongoConcCase]{name: "races", quick: 6000, thorough: 200000,
			rule: "the same with one or two tasks that all instances poll, promise and commit at the same time; non-trivial: as before",
			gen: func(t *rapid.T) mongoConcCase {
				c := genMongoConc(&Profile{AnyState: true, Weights: concWeights(opPoll, 20, opInsPromise, 8, opUpsPromise, 6, opCommit, 20, opDelPromise, 5, opChore, 5)}, 0, 0, 2)(t)
				if len(c.IDs) > 2 {
					c.IDs = c.IDs[:2]
				}
				return c
			}, run: runMongoConc},
	}})
	extend("C26", &prop[mongoConcCase]{name: "concurrent", quick: 3000, thorough: 100000,
		rule: "random operations of 2 to 4 threads that use one instance at the same time, with a server that lets generated choices decide the order of their commands; every change and every result must be explained by the versions of the store that the operation saw; non-trivial: an operation ran while another thread changed a task",
		gen:  genMongoConc(&Profile{AnyState: true, Weights: w}, 4), run: runMongoConc})
}
