package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/verifclock"
)

// ---- clock ----

// virtualClock tells whether the code under test reads the virtual clock. It is
// found out by experiment: should the code get its time in a way the rewriting
// does not reach, checks fall back to the real clock and brackets around calls.
var virtualClock = true

var epoch = time.Date(2024, 2, 3, 4, 5, 6, 789012345, time.UTC)

// Clk is the clock of one case.
type Clk struct {
	now time.Time
}

func newClk() *Clk {
	k := &Clk{now: epoch}
	if virtualClock {
		verifclock.Set(k.now)
	}
	return k
}

func (k *Clk) Advance(d time.Duration) {
	if d < 0 {
		d = 0
	}
	if virtualClock {
		k.now = k.now.Add(d)
		verifclock.Set(k.now)
		return
	}
	if d > 3*time.Millisecond {
		d = 3 * time.Millisecond
	}
	time.Sleep(d)
}

func (k *Clk) Now() time.Time {
	if virtualClock {
		return k.now
	}
	return time.Now()
}

// ---- operations ----

// TS describes a time of a generated case.
type TS struct {
	K   string `json:"k,omitempty"` // "" nil, "rel" to the time of the operation, "abs" unix time
	N   int64  `json:"n,omitempty"` // nanoseconds
	S   int64  `json:"s,omitempty"` // seconds
	Off int    `json:"off,omitempty"`
}

func (s TS) at(now time.Time) *time.Time {
	var t time.Time
	switch s.K {
	case "":
		return nil
	case "rel":
		t = now.Add(time.Duration(s.N)).Round(0)
	case "abs":
		t = time.Unix(s.S, s.N).UTC()
	}
	if s.Off != 0 {
		t = t.In(time.FixedZone("", s.Off*60))
	}
	return &t
}

// T describes a task of a generated case.
type T struct {
	ID        string          `json:"id"`
	Topic     string          `json:"topic"`
	State     int             `json:"state,omitempty"`
	Nonce     string          `json:"nonce,omitempty"`
	Producer  string          `json:"producer,omitempty"`
	Consumer  string          `json:"consumer,omitempty"`
	Produced  TS              `json:"produced"`
	Scheduled TS              `json:"scheduled"`
	Consumed  TS              `json:"consumed"`
	Deadline  TS              `json:"deadline"`
	Payload   json.RawMessage `json:"payload,omitempty"`
	As        int             `json:"as,omitempty"` // what is taken from the task stored under the ID, see again
}

func (t T) task(now time.Time) *ratus.Task {
	return &ratus.Task{
		ID: raw(t.ID), Topic: raw(t.Topic), State: ratus.TaskState(t.State), Nonce: t.Nonce, Producer: t.Producer, Consumer: t.Consumer,
		Produced: t.Produced.at(now), Scheduled: t.Scheduled.at(now), Consumed: t.Consumed.at(now), Deadline: t.Deadline.at(now),
		Payload: payload(t.Payload),
	}
}

func payload(raw json.RawMessage) any {
	if len(raw) == 0 {
		return nil
	}
	var v any
	Must(json.Unmarshal(raw, &v))
	return v
}

// Op is one operation of a generated history.
type Op struct {
	K        string          `json:"k"`
	ID       string          `json:"id,omitempty"`
	Topic    string          `json:"topic,omitempty"`
	Tasks    []T             `json:"tasks,omitempty"`
	Consumer string          `json:"consumer,omitempty"`
	Deadline TS              `json:"deadline"`
	NonceRef string          `json:"nonce,omitempty"` // "" none, "cur", "old", "other", "swapped", "part", "longer", else literal
	State    *int            `json:"state,omitempty"`
	Sched    TS              `json:"sched"`
	Payload  json.RawMessage `json:"payload,omitempty"`
	Limit    int             `json:"limit,omitempty"`
	Offset   int             `json:"offset,omitempty"`
	Adv      int64           `json:"adv,omitempty"`   // nanoseconds
	Style    int             `json:"style,omitempty"` // how the operation is expressed over HTTP
	Fill     *Fill           `json:"fill,omitempty"`  // describes many tasks
	Times    int             `json:"times,omitempty"` // repetitions, if more than one
}

// Names of operations.
const (
	opInsert, opInserts, opUpsert, opUpserts                 = "insert", "inserts", "upsert", "upserts"
	opPoll, opInsPromise, opUpsPromise, opCommit             = "poll", "inspromise", "upspromise", "commit"
	opDelTopics, opDelTopic, opDelTasks, opDelTask           = "deltopics", "deltopic", "deltasks", "deltask"
	opDelPromises, opDelPromise                              = "delpromises", "delpromise"
	opGetTask, opListTasks, opListTopics, opGetTopic         = "gettask", "listtasks", "listtopics", "gettopic"
	opListPromises, opGetPromise, opChore, opAdvance, opOpen = "listpromises", "getpromise", "chore", "advance", "reopen"
)

// Call is an operation with everything resolved.
type Call struct {
	Op      Op
	Tasks   []*ratus.Task
	Promise *ratus.Promise
	Commit  *ratus.Commit
}

// Result is the observed outcome of a call.
type Result struct {
	Err      string // "" for success, else a kind
	Msg      string
	Task     *ratus.Task
	Tasks    []*ratus.Task
	Topics   []*ratus.Topic
	Topic    *ratus.Topic
	Promises []*ratus.Promise
	Promise  *ratus.Promise
	Updated  *ratus.Updated
	Deleted  *ratus.Deleted
}

func (r *Result) String() string {
	if r.Err != "" {
		return r.Err + " (" + r.Msg + ")"
	}
	switch {
	case r.Task != nil:
		return "task " + show(r.Task)
	case r.Updated != nil:
		return fmt.Sprintf("created %d updated %d", r.Updated.Created, r.Updated.Updated)
	case r.Deleted != nil:
		return fmt.Sprintf("deleted %d", r.Deleted.Deleted)
	case r.Promise != nil:
		return fmt.Sprintf("promise %+v", *r.Promise)
	case r.Topic != nil:
		return fmt.Sprintf("topic %+v", *r.Topic)
	case r.Tasks != nil:
		var s []string
		for _, t := range r.Tasks {
			s = append(s, show(t))
		}
		return fmt.Sprintf("tasks %v", s)
	case r.Topics != nil:
		var s []string
		for _, t := range r.Topics {
			s = append(s, fmt.Sprintf("%q:%d", t.Name, t.Count))
		}
		return fmt.Sprintf("topics %v", s)
	case r.Promises != nil:
		var s []string
		for _, t := range r.Promises {
			s = append(s, fmt.Sprintf("%q", t.ID))
		}
		return fmt.Sprintf("promises %v", s)
	}
	return "ok"
}

func kind(err error) string {
	switch {
	case err == nil:
		return ""
	case errors.Is(err, ratus.ErrNotFound):
		return "notfound"
	case errors.Is(err, ratus.ErrConflict):
		return "conflict"
	case errors.Is(err, ratus.ErrBadRequest):
		return "badrequest"
	case errors.Is(err, ratus.ErrClientClosedRequest):
		return "closed"
	case errors.Is(err, ratus.ErrServiceUnavailable):
		return "unavailable"
	case errors.Is(err, ratus.ErrInternalServerError):
		return "internal"
	}
	return "other"
}

func showTime(t *time.Time) string {
	if t == nil {
		return "nil"
	}
	return t.Format(time.RFC3339Nano)
}

func show(t *ratus.Task) string {
	if t == nil {
		return "none"
	}
	p, _ := json.Marshal(t.Payload)
	if len(p) > 200 {
		p = p[:200]
	}
	d := ""
	if t.Defer != "" {
		d = " defer=" + t.Defer
	}
	return fmt.Sprintf("{id=%q topic=%q state=%d nonce=%q producer=%q consumer=%q produced=%s scheduled=%s consumed=%s deadline=%s payload=%s%s}",
		t.ID, t.Topic, t.State, t.Nonce, t.Producer, t.Consumer, showTime(t.Produced), showTime(t.Scheduled), showTime(t.Consumed), showTime(t.Deadline), p, d)
}

func timeEq(a, b *time.Time) bool {
	if a == nil || b == nil {
		return a == b
	}
	return a.Equal(*b)
}

// taskDiff returns the names of the fields that differ.
func taskDiff(a, b *ratus.Task) []string {
	var d []string
	if a.ID != b.ID {
		d = append(d, "_id")
	}
	if a.Topic != b.Topic {
		d = append(d, "topic")
	}
	if a.State != b.State {
		d = append(d, "state")
	}
	if a.Nonce != b.Nonce {
		d = append(d, "nonce")
	}
	if a.Producer != b.Producer {
		d = append(d, "producer")
	}
	if a.Consumer != b.Consumer {
		d = append(d, "consumer")
	}
	if !timeEq(a.Produced, b.Produced) {
		d = append(d, "produced")
	}
	if !timeEq(a.Scheduled, b.Scheduled) {
		d = append(d, "scheduled")
	}
	if !timeEq(a.Consumed, b.Consumed) {
		d = append(d, "consumed")
	}
	if !timeEq(a.Deadline, b.Deadline) {
		d = append(d, "deadline")
	}
	if !payloadEq(a.Payload, b.Payload) {
		d = append(d, "payload")
	}
	if a.Defer != b.Defer {
		d = append(d, "defer")
	}
	return d
}

func payloadEq(a, b any) bool {
	if reflect.DeepEqual(a, b) {
		return true
	}
	x, err1 := json.Marshal(a)
	y, err2 := json.Marshal(b)
	if err1 != nil || err2 != nil {
		return false
	}
	if bytes.Equal(x, y) {
		return true
	}
	var u, v any
	return json.Unmarshal(x, &u) == nil && json.Unmarshal(y, &v) == nil && reflect.DeepEqual(u, v)
}

func dup(t *ratus.Task) *ratus.Task {
	u := *t
	return &u
}

// ---- reference model ----

// Mode describes how results may differ between the levels of the system.
type Mode struct {
	Millis      bool          // times are stored in whole milliseconds
	Retention   time.Duration // -1: tasks are not expired by the background job
	SameUpdated bool          // replacing a task with an equal one may count as not updated
	DupBatch    bool          // batches with duplicate IDs: either duplicate may win, counts are not checked
}

// State is the state of the reference model. Tasks are never modified in place.
type State struct {
	Tasks  map[string]*ratus.Task
	Amb    map[string][]*ratus.Task // allowed alternatives, nil for absent, resolved by the next observation
	Nonces map[string]bool          // all nonces generated so far
}

func newState() *State {
	return &State{Tasks: map[string]*ratus.Task{}, Amb: map[string][]*ratus.Task{}, Nonces: map[string]bool{}}
}

func (s *State) clone() *State {
	c := newState()
	for k, v := range s.Tasks {
		c.Tasks[k] = v
	}
	for k, v := range s.Amb {
		c.Amb[k] = v
	}
	for k := range s.Nonces {
		c.Nonces[k] = true
	}
	return c
}

func (s *State) ids() []string {
	var v []string
	for id := range s.Tasks {
		v = append(v, id)
	}
	sort.Strings(v)
	return v
}

func (s *State) inTopic(topic string) []*ratus.Task {
	var v []*ratus.Task
	for _, id := range s.ids() {
		if s.Tasks[id].Topic == topic {
			v = append(v, s.Tasks[id])
		}
	}
	return v
}

func (s *State) active(topic string) []*ratus.Task {
	var v []*ratus.Task
	for _, t := range s.inTopic(topic) {
		if t.State == ratus.TaskStateActive {
			v = append(v, t)
		}
	}
	return v
}

func (s *State) topics() map[string]int64 {
	m := map[string]int64{}
	for _, t := range s.Tasks {
		m[t.Topic]++
	}
	return m
}

func (s *State) String() string {
	var b strings.Builder
	for _, id := range s.ids() {
		b.WriteString("\n  " + show(s.Tasks[id]))
	}
	return b.String()
}

// Div is a divergence between the model and the code.
type Div struct {
	Key  string
	Tags []string
	Msg  string
}

func div(key string, tags string, format string, a ...any) *Div {
	return &Div{key, strings.Fields(tags), fmt.Sprintf(format, a...)}
}

func (m *Mode) trunc(t *time.Time) *time.Time {
	if t == nil || !m.Millis {
		return t
	}
	u := time.UnixMilli(t.UnixMilli()).UTC()
	return &u
}

func (m *Mode) stored(t *ratus.Task) *ratus.Task {
	u := dup(t)
	u.Produced, u.Scheduled, u.Consumed, u.Deadline = m.trunc(u.Produced), m.trunc(u.Scheduled), m.trunc(u.Consumed), m.trunc(u.Deadline)
	u.Defer = ""
	return u
}

func released(t *ratus.Task) *ratus.Task {
	u := dup(t)
	u.State = ratus.TaskStatePending
	u.Nonce = ""
	return u
}

func wellFormedNonce(s string, n int) bool {
	if len(s) != n {
		return false
	}
	for _, c := range []byte(s) {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9') {
			return false
		}
	}
	return true
}

func after(t *time.Time, u time.Time) bool { return t.UnixMilli() > u.UnixMilli() }

// claim checks a task handed out for a promise and stores it.
func (m *Mode) claim(s *State, old *ratus.Task, p *ratus.Promise, r *Result, lo, hi time.Time, tags string) *Div {
	g := r.Task
	if g == nil {
		return div("claim-nil", tags, "claim succeeded without a task")
	}
	w := dup(old)
	w.State = ratus.TaskStateActive
	w.Consumer = p.Consumer
	w.Deadline = m.trunc(p.Deadline)
	w.Nonce = g.Nonce
	w.Consumed = g.Consumed
	if d := taskDiff(w, g); len(d) > 0 {
		return div("claim-fields", tags+fieldTags(d), "claimed task differs in %v: got %s want %s", d, show(g), show(w))
	}
	if g.Consumed == nil {
		return div("claim-consumed", tags+" C08", "claimed task has no time of claim: %s", show(g))
	}
	l, h := lo, hi
	if m.Millis {
		l = time.UnixMilli(lo.UnixMilli())
	}
	if g.Consumed.Before(l) || g.Consumed.After(h) {
		return div("claim-consumed", tags+" C08", "claimed task has time of claim %s, claimed between %s and %s", showTime(g.Consumed), l.Format(time.RFC3339Nano), h.Format(time.RFC3339Nano))
	}
	if !wellFormedNonce(g.Nonce, ratus.NonceLength) {
		return div("claim-nonce", tags+" C28", "claimed task has malformed nonce %q", g.Nonce)
	}
	if g.Nonce == old.Nonce || s.Nonces[g.Nonce] {
		return div("claim-nonce", tags+" C28 C05", "claimed task has a nonce that was used before: %q", g.Nonce)
	}
	s.Nonces[g.Nonce] = true
	s.Tasks[g.ID] = w
	return nil
}

// fieldTags returns the properties that the fields of tasks matter to.
func fieldTags(fields []string) string {
	s := ""
	for _, f := range fields {
		switch f {
		case "state":
			s += " C01 C02 C12"
		case "topic":
			s += " C02 C04"
		case "nonce":
			s += " C05"
		case "scheduled":
			s += " C02 C03"
		case "deadline":
			s += " C02 C07 C12"
		case "consumed":
			s += " C02 C08"
		case "consumer":
			s += " C02 C12"
		case "payload":
			s += " C02 C29"
		default:
			s += " C02"
		}
	}
	return s
}

// unexpected reports an error other than the possible ones.
func unexpected(c *Call, r *Result, tags string) *Div {
	return div("error-"+c.Op.K, tags+" C02", "%s failed with %s", c.Op.K, r)
}

var opTags = map[string]string{
	opInsert: "C09 C02", opInserts: "C09 C02", opUpsert: "C09 C02", opUpserts: "C09 C02",
	opPoll: "C01 C03 C04", opInsPromise: "C01", opUpsPromise: "C01 C05", opCommit: "C06 C05",
	opDelTopics: "C10", opDelTopic: "C10 C04", opDelTasks: "C10 C04", opDelTask: "C10",
	opDelPromises: "C10 C04 C12 C05", opDelPromise: "C10 C12 C05",
	opGetTask: "C11 C02", opListTasks: "C11 C04", opListTopics: "C11", opGetTopic: "C11 C04",
	opListPromises: "C12 C11 C04", opGetPromise: "C12", opChore: "C07", opOpen: "C13",
}

// Apply checks the result of a call against the model and updates it.
func (m *Mode) Apply(s *State, c *Call, r *Result, lo, hi time.Time) *Div {
	o := c.Op
	tags := opTags[o.K]
	switch o.K {
	case opAdvance:
		return nil

	case opInsert:
		t := m.stored(c.Tasks[0])
		if s.Tasks[t.ID] != nil {
			if r.Err != "conflict" {
				return div("insert-existing", tags, "inserting existing task %q: got %s, want conflict", t.ID, r)
			}
			return nil
		}
		if r.Err != "" {
			return unexpected(c, r, tags)
		}
		s.Tasks[t.ID] = t
		if *r.Updated != (ratus.Updated{Created: 1}) {
			return div("insert-count", "C09", "inserting new task %q: got %s", t.ID, r)
		}

	case opInserts:
		if r.Err != "" {
			return unexpected(c, r, tags)
		}
		var n int64
		dups := false
		seen := map[string]bool{}
		for _, t := range c.Tasks {
			dups = dups || seen[t.ID]
			seen[t.ID] = true
		}
		in := map[string]bool{}
		for _, t := range c.Tasks {
			t = m.stored(t)
			if s.Tasks[t.ID] == nil {
				s.Tasks[t.ID] = t
				in[t.ID] = true
				n++
			} else if dups && in[t.ID] && m.DupBatch {
				s.Amb[t.ID] = append(append([]*ratus.Task{s.Tasks[t.ID]}, s.Amb[t.ID]...), t)
			}
		}
		if *r.Updated != (ratus.Updated{Created: n}) {
			return div("inserts-count", "C09", "inserting a batch of %d tasks, %d of them new: got %s", len(c.Tasks), n, r)
		}

	case opUpsert, opUpserts:
		if r.Err != "" {
			return unexpected(c, r, tags)
		}
		var created, updated, same int64
		dups := false
		seen := map[string]bool{}
		for _, t := range c.Tasks {
			dups = dups || seen[t.ID]
			t = m.stored(t)
			if old := s.Tasks[t.ID]; old == nil {
				created++
			} else {
				updated++
				if len(taskDiff(old, t)) == 0 {
					same++
				}
			}
			if seen[t.ID] && m.DupBatch {
				s.Amb[t.ID] = append(append([]*ratus.Task{s.Tasks[t.ID]}, s.Amb[t.ID]...), t)
			}
			seen[t.ID] = true
			s.Tasks[t.ID] = t
		}
		if dups && m.DupBatch {
			return nil
		}
		if r.Updated.Created != created || r.Updated.Updated > updated || r.Updated.Updated < updated-same || (!m.SameUpdated && r.Updated.Updated != updated) {
			return div("upsert-count", "C09", "upserting %d tasks, %d of them new: got %s", len(c.Tasks), created, r)
		}

	case opPoll:
		var cand []*ratus.Task
		min := int64(math.MaxInt64)
		for _, t := range s.inTopic(o.Topic) {
			if t.State != ratus.TaskStatePending || t.Scheduled == nil {
				continue
			}
			ms := t.Scheduled.UnixMilli()
			if ms < min {
				cand, min = nil, ms
			}
			if ms == min {
				cand = append(cand, t)
			}
		}
		if r.Err == "notfound" {
			due := len(cand) > 0
			for _, t := range cand {
				due = due && !t.Scheduled.After(lo)
			}
			if due {
				k := "C02 C03"
				if len(s.topics()) > 1 {
					k += " C04"
				}
				return div("poll-notfound", k, "polling topic %q at %s found nothing, but these tasks are due: %s", o.Topic, lo.Format(time.RFC3339Nano), showAll(cand))
			}
			return nil
		}
		if r.Err != "" {
			return unexpected(c, r, "C01 C03")
		}
		g := r.Task
		if g == nil {
			return div("claim-nil", tags, "poll succeeded without a task")
		}
		old := s.Tasks[g.ID]
		if old == nil {
			return div("poll-invented", "C01 C02 C03", "polling topic %q returned a task that does not exist: %s", o.Topic, show(g))
		}
		if old.Topic != o.Topic {
			return div("poll-topic", "C01 C03 C04", "polling topic %q returned a task of topic %q: %s", o.Topic, old.Topic, show(old))
		}
		if old.State != ratus.TaskStatePending {
			return div("poll-owned", "C01 C03", "polling topic %q returned a task that was not pending: %s", o.Topic, show(old))
		}
		if old.Scheduled == nil || after(old.Scheduled, hi) {
			return div("poll-early", "C03", "polling topic %q at %s returned a task that is not due: %s", o.Topic, hi.Format(time.RFC3339Nano), show(old))
		}
		if old.Scheduled.UnixMilli() != min {
			return div("poll-order", "C03", "polling topic %q returned %s although another pending task is scheduled earlier: %s", o.Topic, show(old), showAll(cand))
		}
		return m.claim(s, old, c.Promise, r, lo, hi, "C01")

	case opInsPromise, opUpsPromise:
		old := s.Tasks[o.ID]
		if old == nil {
			if r.Err != "notfound" {
				return div("promise-missing", "C01", "promising missing task %q: got %s, want not found", o.ID, r)
			}
			return nil
		}
		if o.K == opInsPromise && old.State != ratus.TaskStatePending {
			if r.Err != "conflict" {
				return div("promise-state", "C01", "promising task in state %d: got %s, want conflict", old.State, r)
			}
			return nil
		}
		if r.Err != "" {
			return unexpected(c, r, tags)
		}
		return m.claim(s, old, c.Promise, r, lo, hi, tags)

	case opCommit:
		old := s.Tasks[o.ID]
		if old == nil {
			if r.Err != "notfound" {
				return div("commit-missing", "C06", "committing missing task %q: got %s, want not found", o.ID, r)
			}
			return nil
		}
		if n := c.Commit.Nonce; n != "" && n != old.Nonce {
			if r.Err != "conflict" {
				return div("commit-stale", "C05", "committing with nonce %q while the nonce is %q: got %s, want conflict", n, old.Nonce, r)
			}
			return nil
		}
		if r.Err != "" {
			return unexpected(c, r, tags)
		}
		u := dup(old)
		u.Nonce = ""
		if c.Commit.Topic != "" {
			u.Topic = c.Commit.Topic
		}
		if c.Commit.State != nil {
			u.State = *c.Commit.State
		}
		if c.Commit.Scheduled != nil {
			u.Scheduled = m.trunc(c.Commit.Scheduled)
		}
		if c.Commit.Payload != nil {
			u.Payload = c.Commit.Payload
		}
		s.Tasks[o.ID] = u
		if r.Task == nil {
			return div("commit-nil", "C06", "commit succeeded without a task")
		}
		if d := taskDiff(u, r.Task); len(d) > 0 {
			k := "C06" + fieldTags(d)
			return div("commit-fields", k, "commit %s returned a task that differs in %v: got %s want %s", commitString(c.Commit), d, show(r.Task), show(u))
		}

	case opDelTopics, opDelTopic, opDelTasks, opDelTask:
		if r.Err != "" {
			return unexpected(c, r, tags)
		}
		var n int64
		for _, id := range s.ids() {
			t := s.Tasks[id]
			if o.K == opDelTopics || o.K == opDelTask && id == o.ID || (o.K == opDelTopic || o.K == opDelTasks) && t.Topic == o.Topic {
				delete(s.Tasks, id)
				n++
			}
		}
		if r.Deleted.Deleted != n {
			return div("delete-count", tags, "%s %q %q: got %s, want %d", o.K, o.Topic, o.ID, r, n)
		}

	case opDelPromises, opDelPromise:
		if r.Err != "" {
			return unexpected(c, r, tags)
		}
		var n int64
		for _, id := range s.ids() {
			t := s.Tasks[id]
			if t.State == ratus.TaskStateActive && (o.K == opDelPromises && t.Topic == o.Topic || o.K == opDelPromise && id == o.ID) {
				s.Tasks[id] = released(t)
				n++
			}
		}
		if r.Deleted.Deleted != n {
			return div("release-count", tags, "%s %q %q: got %s, want %d", o.K, o.Topic, o.ID, r, n)
		}

	case opGetTask:
		old := s.Tasks[o.ID]
		if old == nil {
			if r.Err != "notfound" {
				return div("get-missing", tags, "getting missing task %q: got %s, want not found", o.ID, r)
			}
			return nil
		}
		if r.Err != "" {
			return unexpected(c, r, tags)
		}
		if r.Task == nil {
			return div("get-nil", tags, "get succeeded without a task")
		}
		if d := taskDiff(old, r.Task); len(d) > 0 {
			return div("get-fields", tags, "task differs in %v: got %s want %s", d, show(r.Task), show(old))
		}

	case opListTasks:
		if r.Err != "" {
			return unexpected(c, r, tags)
		}
		all := s.inTopic(o.Topic)
		if d := checkPage(len(all), o.Limit, o.Offset, len(r.Tasks)); d != "" {
			return div("list-tasks", tags, "listing tasks of %q: %s", o.Topic, d)
		}
		seen := map[string]bool{}
		for _, g := range r.Tasks {
			if g == nil {
				return div("list-tasks", tags, "listing tasks of %q returned a null task", o.Topic)
			}
			w := s.Tasks[g.ID]
			if w == nil || w.Topic != o.Topic || seen[g.ID] {
				return div("list-tasks", tags, "listing tasks of %q returned an unexpected or repeated task %s, the state is %s", o.Topic, show(g), s)
			}
			seen[g.ID] = true
			if d := taskDiff(w, g); len(d) > 0 {
				return div("list-fields", tags, "listed task differs in %v: got %s want %s", d, show(g), show(w))
			}
		}

	case opListPromises:
		if r.Err != "" {
			return unexpected(c, r, tags)
		}
		all := s.active(o.Topic)
		if d := checkPage(len(all), o.Limit, o.Offset, len(r.Promises)); d != "" {
			return div("list-promises", tags, "listing promises of %q: %s", o.Topic, d)
		}
		seen := map[string]bool{}
		for _, g := range r.Promises {
			if g == nil {
				return div("list-promises", tags, "listing promises of %q returned a null promise", o.Topic)
			}
			w := s.Tasks[g.ID]
			if w == nil || w.Topic != o.Topic || w.State != ratus.TaskStateActive || seen[g.ID] {
				return div("list-promises", tags, "listing promises of %q returned an unexpected or repeated promise %+v, the state is %s", o.Topic, *g, s)
			}
			seen[g.ID] = true
			if d := promiseDiff(w, g); d != "" {
				return div("promise-fields", tags, "listed promise differs: %s", d)
			}
		}

	case opGetPromise:
		w := s.Tasks[o.ID]
		if w == nil || w.State != ratus.TaskStateActive {
			if r.Err != "notfound" {
				return div("getpromise-missing", tags, "getting missing promise %q: got %s, want not found", o.ID, r)
			}
			return nil
		}
		if r.Err != "" {
			return unexpected(c, r, tags)
		}
		if r.Promise == nil {
			return div("get-nil", tags, "get succeeded without a promise")
		}
		if d := promiseDiff(w, r.Promise); d != "" {
			return div("promise-fields", tags, "promise differs: %s", d)
		}

	case opListTopics:
		if r.Err != "" {
			return unexpected(c, r, tags)
		}
		all := s.topics()
		if d := checkPage(len(all), o.Limit, o.Offset, len(r.Topics)); d != "" {
			return div("list-topics", tags, "listing topics: %s", d)
		}
		seen := map[string]bool{}
		for _, g := range r.Topics {
			if g == nil {
				return div("list-topics", tags, "listing topics returned a null topic")
			}
			n, ok := all[g.Name]
			if !ok || seen[g.Name] {
				return div("list-topics", tags, "listing topics returned an unexpected or repeated topic %q, the state is %s", g.Name, s)
			}
			seen[g.Name] = true
			if g.Count != 0 && g.Count != n {
				return div("list-topics", tags, "listed topic %q with %d tasks instead of %d", g.Name, g.Count, n)
			}
		}

	case opGetTopic:
		n := s.topics()[o.Topic]
		if n == 0 {
			if r.Err != "notfound" {
				return div("gettopic-missing", tags, "getting topic %q without tasks: got %s, want not found", o.Topic, r)
			}
			return nil
		}
		if r.Err != "" {
			return unexpected(c, r, tags)
		}
		if r.Topic == nil || r.Topic.Name != o.Topic || r.Topic.Count != n {
			return div("gettopic", tags, "topic %q with %d tasks reported as %s", o.Topic, n, r)
		}

	case opChore:
		if r.Err != "" {
			return unexpected(c, r, tags)
		}
		m.chore(s, lo, hi)

	case opOpen:
		if r.Err != "" {
			return unexpected(c, r, tags)
		}

	default:
		bug("unknown operation %q", o.K)
	}
	return nil
}

// chore applies the background job. Outcomes within the resolution of a
// millisecond around the boundary are left open.
func (m *Mode) chore(s *State, lo, hi time.Time) {
	type bucket struct{ late bool }
	deadlines, expiries := map[int64]*bucket{}, map[int64]*bucket{}
	exp := func(t *ratus.Task) time.Time { return t.Consumed.Add(m.Retention) }
	for _, t := range s.Tasks {
		if t.State == ratus.TaskStateActive && t.Deadline != nil {
			b := deadlines[t.Deadline.UnixMilli()]
			if b == nil {
				b = &bucket{}
				deadlines[t.Deadline.UnixMilli()] = b
			}
			b.late = b.late || !t.Deadline.Before(lo)
		}
		if t.State == ratus.TaskStateCompleted && t.Consumed != nil {
			b := expiries[t.Consumed.UnixMilli()]
			if b == nil {
				b = &bucket{}
				expiries[t.Consumed.UnixMilli()] = b
			}
			b.late = b.late || !exp(t).Before(lo)
		}
	}
	for _, id := range s.ids() {
		t := s.Tasks[id]
		switch {
		case t.State == ratus.TaskStateActive && t.Deadline != nil:
			u := released(t)
			must := t.Deadline.Before(lo) && !deadlines[t.Deadline.UnixMilli()].late
			if m.Millis {
				must = t.Deadline.UnixMilli() < lo.UnixMilli()
			}
			if must {
				s.Tasks[id] = u
			} else if !after(t.Deadline, hi) {
				s.Amb[id] = []*ratus.Task{t, u}
			}
		case t.State == ratus.TaskStateCompleted && t.Consumed != nil && m.Retention >= 0:
			e := exp(t)
			if e.Before(lo) && !expiries[t.Consumed.UnixMilli()].late {
				delete(s.Tasks, id)
			} else if !after(&e, hi) {
				s.Amb[id] = []*ratus.Task{t, nil}
			}
		}
	}
}

func checkPage(total, limit, offset, got int) string {
	n := total - offset
	if n < 0 {
		n = 0
	}
	if n > limit {
		n = limit
	}
	if got != n {
		return fmt.Sprintf("got %d items with limit %d and offset %d, want %d of %d", got, limit, offset, n, total)
	}
	return ""
}

func promiseDiff(t *ratus.Task, p *ratus.Promise) string {
	if p.ID != t.ID || p.Consumer != t.Consumer || !timeEq(p.Deadline, t.Deadline) || p.Timeout != "" {
		return fmt.Sprintf("got id=%q consumer=%q deadline=%s timeout=%q, the task is %s", p.ID, p.Consumer, showTime(p.Deadline), p.Timeout, show(t))
	}
	return ""
}

func showAll(v []*ratus.Task) string {
	var s []string
	for i, t := range v {
		if i == 40 {
			s = append(s, fmt.Sprintf("and %d more", len(v)-i))
			break
		}
		s = append(s, show(t))
	}
	return strings.Join(s, " ")
}

func commitString(c *ratus.Commit) string {
	b, _ := json.Marshal(c)
	return string(b)
}

// auditTask compares an observed task (nil if absent) with the model after an
// operation and resolves what the model left open.
func (s *State) auditTask(c *Call, before map[string]*ratus.Task, id string, g *ratus.Task) *Div {
	w := s.Tasks[id]
	if alt, ok := s.Amb[id]; ok {
		delete(s.Amb, id)
		for _, a := range alt {
			if a == nil && g == nil {
				delete(s.Tasks, id)
				return nil
			}
			if a != nil && g != nil && len(taskDiff(a, g)) == 0 {
				s.Tasks[id] = a
				return nil
			}
		}
	}
	if w == nil && g == nil {
		return nil
	}
	tags := opTags[c.Op.K]
	b := before[id]
	if b != nil && c.Op.Topic != "" && b.Topic != c.Op.Topic {
		tags += " C04"
	}
	if c.Op.ID != "" && c.Op.ID != id {
		tags += " C06"
	}
	if w == nil || g == nil {
		if c.Op.K == opChore {
			tags = "C08 C02"
		}
		return div("lost-or-invented", tags+" C02", "after %s, task %q is %s, but should be %s", callString(c), id, show(g), show(w))
	}
	d := taskDiff(w, g)
	if len(d) == 0 {
		return nil
	}
	tags += fieldTags(d)
	if c.Op.K == opChore {
		tags += " C02"
		if b != nil && b.State != ratus.TaskStateActive {
			tags += " C08"
		}
	}
	return div("stored-fields", tags, "after %s, task %q differs in %v: got %s want %s", callString(c), id, d, show(g), show(w))
}

func callString(c *Call) string {
	s := c.Op.K
	if c.Op.Topic != "" {
		s += fmt.Sprintf(" topic=%q", c.Op.Topic)
	}
	if c.Op.ID != "" {
		s += fmt.Sprintf(" id=%q", c.Op.ID)
	}
	if len(c.Tasks) > 40 {
		s += fmt.Sprintf(" %d tasks %s ... %s", len(c.Tasks), show(c.Tasks[0]), show(c.Tasks[len(c.Tasks)-1]))
	} else if len(c.Tasks) > 0 {
		s += " " + showAll(c.Tasks)
	}
	if c.Promise != nil {
		s += fmt.Sprintf(" promise(consumer=%q deadline=%s)", c.Promise.Consumer, showTime(c.Promise.Deadline))
	}
	if c.Commit != nil {
		s += " commit " + commitString(c.Commit)
	}
	if c.Op.K == opAdvance {
		s += " " + time.Duration(c.Op.Adv).String()
	}
	return s
}
