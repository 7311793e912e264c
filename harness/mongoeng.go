package main

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"go.mongodb.org/mongo-driver/bson"
	"go.mongodb.org/mongo-driver/bson/primitive"
	"pgregory.net/rapid"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/engine/mongodb"
)

var (
	mongoOnce sync.Once
	mongoSrv  *mongoServer
)

// mongoDB returns the database server of this worker.
func mongoDB(x *X, cfg mongoCfg) *mongoServer {
	mongoOnce.Do(func() {
		dir := os.Getenv("VERIF_DIR")
		if dir == "" {
			dir = work
		}
		mongoSrv = startMongo(filepath.Join(dir, "m.sock"))
	})
	mongoSrv.reset(cfg)
	x.Defer(func() { mongoSrv.settled() })
	return mongoSrv
}

// mongoMode is how an engine is set up.
type mongoSetup struct {
	NoAuto   bool `json:"noauto,omitempty"`   // automatic fallbacks are disabled
	NoAtomic bool `json:"noatomic,omitempty"` // atomic polling is disabled
	Force    bool `json:"force,omitempty"`    // all fallbacks are forced
}

func openMongo(x *X, s *mongoServer, m mongoSetup, app string, retention time.Duration, more ...string) *mongodb.Engine {
	// The driver of a busy machine may not find a server within a short timeout.
	for end := time.Now().Add(30 * time.Second); ; {
		g, err := tryMongo(x, s, m, app, retention, more...)
		if err == nil {
			return g
		}
		if !strings.Contains(err.Error(), "server selection") || time.Now().After(end) {
			x.Failp("open", "opening the engine failed: %v\n  %s", err, s.recent(20))
		}
	}
}

func tryMongo(x *X, s *mongoServer, m mongoSetup, app string, retention time.Duration, more ...string) (*mongodb.Engine, error) {
	g, err := mongodb.New(&mongodb.Config{URI: s.uri(app, more...), Database: "db", Collection: "tasks", RetentionPeriod: retention, DisableAutoFallback: m.NoAuto, DisableAtomicPoll: m.NoAtomic})
	if err != nil {
		x.Failp("open", "creating the engine failed: %v", err)
	}
	if m.Force {
		g.Fallback(1)
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
	defer cancel()
	err = g.Open(ctx)
	x.Defer(func() {
		ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
		defer cancel()
		g.Close(ctx)
	})
	return g, err
}

// taskOf reads a stored document.
func taskOf(d bson.D) *ratus.Task {
	if d == nil {
		return nil
	}
	t := &ratus.Task{}
	str := func(k string) string {
		v, _ := get(d, k).(string)
		return v
	}
	date := func(k string) *time.Time {
		if v, ok := get(d, k).(primitive.DateTime); ok {
			return ptr(v.Time().UTC())
		}
		return nil
	}
	t.ID, t.Topic, t.Nonce, t.Producer, t.Consumer = str("_id"), str("topic"), str("nonce"), str("producer"), str("consumer")
	t.State = ratus.TaskState(num(get(d, "state")))
	t.Produced, t.Scheduled, t.Consumed, t.Deadline = date("produced"), date("scheduled"), date("consumed"), date("deadline")
	t.Payload = plainValue(get(d, "payload"))
	return t
}

func plainValue(v any) any {
	switch x := v.(type) {
	case bson.D:
		m := map[string]any{}
		for _, e := range x {
			m[e.Key] = plainValue(e.Value)
		}
		return m
	case bson.A:
		a := make([]any, len(x))
		for i := range x {
			a[i] = plainValue(x[i])
		}
		return a
	case int32:
		return float64(x)
	case int64:
		return float64(x)
	}
	return v
}

// tasks returns what is stored.
func (s *mongoServer) tasks() map[string]*ratus.Task { return s.tasksOf("db.tasks") }

func (s *mongoServer) tasksOf(ns string) map[string]*ratus.Task {
	s.mu.Lock()
	defer s.mu.Unlock()
	m := map[string]*ratus.Task{}
	if k := s.colls[ns]; k != nil {
		for _, d := range k.docs {
			t := taskOf(d)
			m[t.ID] = t
		}
	}
	return m
}

// storeExec answers reads from what is stored.
type storeExec struct{ s *mongoServer }

func (e *storeExec) Do(c *Call) *Result {
	o := c.Op
	switch o.K {
	case opGetTask:
		e.s.mu.Lock()
		defer e.s.mu.Unlock()
		if k := e.s.colls["db.tasks"]; k != nil {
			for i := len(k.docs) - 1; i >= 0; i-- {
				if get(k.docs[i], "_id") == o.ID {
					return &Result{Task: taskOf(k.docs[i])}
				}
			}
		}
		return &Result{Err: "notfound"}
	}
	bug("the store cannot do %q", o.K)
	return nil
}

// legal returns why an operation must not change a task in a way.
func (m *Mode) legal(c *Call, before, after *ratus.Task, lo, hi time.Time, split bool) string {
	o := c.Op
	eq := func(a, b *ratus.Task) bool { return a != nil && b != nil && len(taskDiff(a, b)) == 0 }
	switch o.K {
	case opInsert, opInserts, opUpsert, opUpserts:
		if before != nil && (o.K == opInsert || o.K == opInserts) {
			return "an insertion changes an existing task"
		}
		if after == nil {
			if split {
				return ""
			}
			return "an upsert deletes a task"
		}
		for _, t := range c.Tasks {
			if eq(after, m.stored(t)) {
				return ""
			}
		}
		return "the new task is none of those submitted"
	case opDelTopics, opDelTopic, opDelTasks, opDelTask:
		if after != nil {
			return "a deletion changes a task"
		}
		if o.K == opDelTask && before.ID != o.ID || (o.K == opDelTopic || o.K == opDelTasks) && before.Topic != o.Topic {
			return "the wrong task is deleted"
		}
		return ""
	}
	if before == nil || after == nil {
		return "the task appears or disappears"
	}
	switch o.K {
	case opDelPromises, opDelPromise, opChore:
		if before.State != ratus.TaskStateActive {
			return "a task that is not active is released"
		}
		if o.K == opDelPromise && before.ID != o.ID || o.K == opDelPromises && before.Topic != o.Topic {
			return "the wrong task is released"
		}
		if o.K == opChore && (before.Deadline == nil || !before.Deadline.Before(hi)) {
			return "a task is recovered before its deadline"
		}
		if !eq(after, released(before)) {
			return "the released task should be " + show(released(before))
		}
		return ""
	case opPoll, opInsPromise, opUpsPromise:
		if o.K != opPoll && before.ID != o.ID {
			return "the wrong task is claimed"
		}
		if o.K != opUpsPromise && before.State != ratus.TaskStatePending {
			return "a task that is not pending is claimed"
		}
		if o.K == opPoll {
			if before.Topic != o.Topic {
				return "a task of another topic is claimed"
			}
			if before.Scheduled == nil || after2(before.Scheduled, hi) {
				return "a task is claimed before its time"
			}
		}
		s := newState()
		if v := m.claim(s, before, c.Promise, &Result{Task: after}, lo, hi, ""); v != nil {
			return v.Msg
		}
		return ""
	case opCommit:
		if before.ID != o.ID {
			return "the wrong task is committed"
		}
		if n := c.Commit.Nonce; n != "" && n != before.Nonce {
			return "a commit with another nonce is accepted"
		}
		w := m.committed(before, c.Commit)
		if !eq(after, w) {
			return "the committed task should be " + show(w)
		}
		return ""
	}
	return "it is not supposed to change anything"
}

func after2(t *time.Time, u time.Time) bool { return after(t, u) }

// committed is a task after a commit.
func (m *Mode) committed(t *ratus.Task, c *ratus.Commit) *ratus.Task {
	u := dup(t)
	u.Nonce = ""
	if c.Topic != "" {
		u.Topic = c.Topic
	}
	if c.State != nil {
		u.State = *c.State
	}
	if c.Scheduled != nil {
		u.Scheduled = m.trunc(c.Scheduled)
	}
	if c.Payload != nil {
		u.Payload = c.Payload
	}
	return u
}

// mongoCase is a history on an engine with a deployment.
type mongoCase struct {
	History
	Setup  mongoSetup     `json:"setup"`
	Deploy mongoCfg       `json:"deploy"`
	Faults map[int]*fault `json:"faults,omitempty"` // by operation
}

// fault is a fault at one of the commands of an operation.
type fault struct {
	mongoFault
	Cmd int `json:"cmd"`
}

func genSetup(t *rapid.T) mongoSetup {
	switch weighted(t, "setup", 3, 2, 2, 2, 3) {
	case 1:
		return mongoSetup{NoAuto: true}
	case 2:
		return mongoSetup{NoAtomic: true}
	case 3:
		return mongoSetup{NoAuto: true, NoAtomic: true}
	case 4:
		return mongoSetup{Force: true}
	}
	return mongoSetup{}
}

func genDeploy(t *rapid.T) mongoCfg {
	c := mongoCfg{Mongos: oneIn(t, 2, "mongos"), Legacy: oneIn(t, 2, "order")}
	if c.Mongos && !oneIn(t, 3, "unsharded") {
		c.ShardKey = [][]string{{"topic"}, {"_id"}, {"topic", "_id"}, {"topic"}}[intn(t, 4, "shardkey")]
		c.Code = pick(t, "code", int32(61), int32(31025))
	}
	if oneIn(t, 3, "smallbatch") {
		c.Batch = rng(t, 1, 3, "batch")
	}
	if oneIn(t, 4, "smallwrites") {
		c.Writes = rng(t, 1, 3, "writes")
	}
	return c
}

func runMongo(x *X, c mongoCase) { runMongoAs(x, c, "C26", pages) }

func runMongoAs(x *X, c mongoCase, tags string, last func(d *driver)) {
	s := mongoDB(x, c.Deploy)
	retention := time.Duration(c.Retention)
	g := openMongo(x, s, c.Setup, "main", retention)
	mode := &Mode{Millis: true, Retention: -1, DupBatch: true}
	eng := &engineExec{g: g}
	d := newDriver(x, mode, eng)
	d.names(c.History)
	d.quiet = true
	d.aud = &storeExec{s}
	d.tags = tags

	// Collect what every operation does to the store.
	type mutation struct{ before, after *ratus.Task }
	var muts []mutation
	var cmds, delivered int
	var cur *fault
	s.mu.Lock()
	s.changed = func(_ *mongoCmd, _ any, before, after bson.D) {
		muts = append(muts, mutation{taskOf(before), taskOf(after)})
	}
	s.arrive = func(m *mongoCmd) *mongoFault {
		s.mu.Lock()
		defer s.mu.Unlock()
		n := cmds
		cmds++
		if cur != nil && n == cur.Cmd {
			f := cur.mongoFault
			switch {
			case f.Writes && m.name != "insert" && m.name != "update" && m.name != "delete":
				f.Writes = false
			case f.WC && (m.name == "find" || m.name == "aggregate" || m.name == "getMore" || m.name == "count" || m.name == "distinct"):
				f.WC = false
			}
			delivered++
			x.Class("fault:%s", m.name)
			return &f
		}
		return nil
	}
	s.mu.Unlock()
	var refused int
	d.odd = func(call *Call, r *Result, lo, hi time.Time) bool {
		s.mu.Lock()
		v, n, ref := muts, delivered, s.refused-refused
		muts, cmds, delivered = nil, 0, 0
		refused = s.refused
		cur = nil
		s.mu.Unlock()
		if ref > 0 {
			x.Class("refused:%s", call.Op.K)
		}
		split := c.Setup.Force || ref > 0 || len(c.Deploy.ShardKey) > 0
		for _, m := range v {
			if why := mode.legal(call, m.before, m.after, lo, hi, split); why != "" {
				d.fail(div("illegal", opTags[call.Op.K], "%s changes task %s into %s: %s\ncommands:\n  %s", callString(call), show(m.before), show(m.after), why, s.recent(12)))
			}
		}
		if n == 0 && (ref == 0 || !c.Setup.NoAuto) {
			return false
		}
		// The operation met a failure of the database. It may have been retried.
		if r.Err == "" || r.Err == "notfound" || r.Err == "conflict" {
			st := d.state.clone()
			if v := mode.Apply(st, call, r, lo, hi); v == nil {
				x.Class("fault-survived:%s", call.Op.K)
				return false
			}
			d.fail(div("fault-hidden", opTags[call.Op.K], "the database failed, but %s reported %s\ncommands:\n  %s", callString(call), r, s.recent(12)))
		}
		x.Class("fault-reported:%s", call.Op.K)
		d.state.Tasks = s.tasks()
		for _, m := range v {
			if m.after != nil && m.after.Nonce != "" {
				d.state.Nonces[m.after.Nonce] = true
			}
		}
		return true
	}
	for i, o := range c.Ops {
		s.mu.Lock()
		cur = c.Faults[i]
		s.mu.Unlock()
		d.step(o)
	}
	d.odd = nil
	d.quiet = false
	d.aud = nil
	d.audit(&Call{Op: Op{K: "the history"}}, d.state.clone().Tasks)
	if last != nil {
		d.aud = &storeExec{s}
		last(d)
	}
	s.mu.Lock()
	for k, n := range s.counts {
		x.classes["command:"+k] += n
	}
	s.mu.Unlock()
}

func genMongo(p *Profile, faults func(t *rapid.T) *fault) func(t *rapid.T) mongoCase {
	return func(t *rapid.T) mongoCase {
		c := mongoCase{Setup: genSetup(t), Deploy: genDeploy(t)}
		q := *p
		c.History = genHistory(t, &q)
		hugePages(t, c.Ops, 1<<40) // the sum of limit and offset must not overflow
		c.Retention = int64(72 * time.Hour)
		if faults != nil {
			c.Faults = map[int]*fault{}
			for i, o := range c.Ops {
				if o.K != opAdvance && oneIn(t, 4, "faulty") {
					c.Faults[i] = faults(t)
				}
			}
		}
		return c
	}
}

// mongoHistory explores a profile with the MongoDB engine.
func mongoHistory(p Profile, quick, thorough int, rule string, nontrivial func(n func(string) int64) bool, after func(d *driver)) Part {
	q := p
	if q.Names == namesBytes {
		q.Names = namesText
	}
	return &prop[mongoCase]{name: "mongodb", quick: quick, thorough: thorough,
		rule: "random histories of operations of the MongoDB engine, in all modes and on sharded and unsharded deployments, against a server of our own, every result compared with the reference model and the store after every operation; non-trivial: " + rule,
		gen: func(t *rapid.T) mongoCase {
			c := genMongo(&q, nil)(t)
			if len(c.Deploy.ShardKey) > 0 {
				c.Setup.NoAuto = false // it would refuse operations
			}
			return c
		},
		run: func(x *X, c mongoCase) {
			runMongoAs(x, c, "", after)
			if nontrivial(func(k string) int64 { return x.classes[k] }) {
				x.NonTrivial()
			}
		},
	}
}

// genErrors draws errors of the database.
func genErrors(t *rapid.T) *fault {
	f := &fault{Cmd: weighted(t, "cmd", 5, 3, 1)}
	f.Code = pick(t, "code", int32(13), 50, 96, 112, 8000, 11601, 14031, 121, 61, 31025)
	switch weighted(t, "kind", 5, 4, 2) {
	case 1:
		f.Writes = true
		f.Item = intn(t, 6, "item")
		f.Code = pick(t, "wcode", int32(121), 14031, 13, 96)
	case 2:
		f.WC = true
		f.Code = pick(t, "wccode", int32(64), 100)
	default:
		if f.Code == 61 || f.Code == 31025 {
			f.Code = 2
		}
	}
	return f
}

func genBreaks(t *rapid.T) *fault {
	f := &fault{Cmd: weighted(t, "cmd", 5, 3, 1)}
	if oneIn(t, 2, "after") {
		f.After = true
	} else {
		f.Before = true
	}
	return f
}

var _ = fmt.Sprint
var _ = strings.Fields

func init() {
	p := &Profile{AnyState: true, DupBatch: true, Names: namesText, NTopics: 3, Payload: genPayload, Weights: with(opUpserts, 5, opListTasks, 3, opListTopics, 2, opListPromises, 3)}
	q := &Profile{AnyState: true, Names: namesPlain, NTopics: 2, NIDs: 4, Time: genNear, Weights: with(opUpserts, 6, opUpsert, 6, opListTasks, 2, opListPromises, 2, opCommit, 16), MaxOps: 20}
	register(&Check{ID: "C26", Workers: 16, Parts: []Part{
		&prop[mongoCase]{name: "history", quick: 5000, thorough: 200000,
			rule: "random histories of engine operations against a MongoDB server of our own, in all modes and on sharded and unsharded deployments; every result compared with the reference model at a resolution of milliseconds and the store compared after every operation; non-trivial: at least two claims, one accepted commit, and one refusal",
			gen:  genMongo(p, nil),
			run: func(x *X, c mongoCase) {
				runMongo(x, c)
				n := func(k string) int64 { return x.classes[k] }
				if claims(n) >= 2 && n("commit:ok") > 0 && n("commit:conflict")+n("inspromise:conflict")+n("insert:conflict") > 0 {
					x.NonTrivial()
				}
			}},
		&prop[mongoCase]{name: "errors", quick: 5000, thorough: 150000,
			rule: "the same with errors of the database at any command of any operation: of whole commands, of single writes, or of replication; non-trivial: a failure was reported by an operation that changes tasks",
			gen:  genMongo(q, genErrors),
			run:  runFaulty},
		&prop[mongoCase]{name: "connections", quick: 128, thorough: 3000,
			rule: "the same with connections that break before or after a command took effect; non-trivial: as before",
			gen:  genMongo(&Profile{AnyState: true, NTopics: 2, NIDs: 3, Time: genNear, MaxOps: 8, Weights: q.Weights}, genBreaks),
			run:  runFaulty},
	}})
}

func runFaulty(x *X, c mongoCase) {
	runMongo(x, c)
	for _, k := range []string{opPoll, opCommit, opUpsert, opUpserts, opInsert, opInserts, opInsPromise, opUpsPromise, opDelPromise, opDelPromises, opDelTask, opChore} {
		if x.classes["fault-reported:"+k] > 0 {
			x.NonTrivial()
		}
	}
}
