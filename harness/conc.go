package main

import (
	"context"
	"fmt"
	"strings"
	"time"

	"github.com/hashicorp/go-memdb"
	"pgregory.net/rapid"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/verifclock"
)

// Concurrent histories.

type concCase struct {
	IDs      []string `json:"ids"`
	Topics   []string `json:"topics"`
	Setup    []Op     `json:"setup"`
	Threads  [][]Op   `json:"threads"`
	Choices  []int    `json:"choices"`
	Snapshot bool     `json:"snapshot,omitempty"`
	Retain   int64    `json:"retain,omitempty"`
	Stride   int      `json:"stride,omitempty"` // accesses between scheduling points, if there are many
}

// event is one operation of a concurrent history.
type event struct {
	c        *Call
	r        *Result
	thread   int
	from, to int
	lo, hi   time.Time
}

func (e *event) String() string {
	return fmt.Sprintf("thread %d [%d,%d] %s -> %s", e.thread, e.from, e.to, callString(e.c), e.r)
}

// linear searches for a sequential order that explains the events and ends in
// the observed state. It returns that state, or the divergences it met.
func linear(m *Mode, s0 *State, es []*event, ids []string, final map[string]*ratus.Task) (*State, string) {
	n := len(es)
	done := make([]bool, n)
	var why []string
	budget := 200000
	var dfs func(s *State, left int) *State
	dfs = func(s *State, left int) *State {
		if budget--; budget < 0 {
			return s
		}
		if left == 0 {
			for _, id := range ids {
				w, g := s.Tasks[id], final[id]
				if (w == nil) != (g == nil) || w != nil && len(taskDiff(w, g)) > 0 {
					if len(why) < 3 {
						why = append(why, fmt.Sprintf("task %q is %s instead of %s", id, show(g), show(w)))
					}
					return nil
				}
			}
			return s
		}
		for i, e := range es {
			if done[i] {
				continue
			}
			first := true
			for j, f := range es {
				if !done[j] && j != i && f.to < e.from {
					first = false
				}
			}
			if !first {
				continue
			}
			c := s.clone()
			if v := m.Apply(c, e.c, e.r, e.lo, e.hi); v != nil {
				if len(why) < 3 {
					why = append(why, v.Msg)
				}
				continue
			}
			done[i] = true
			for _, alt := range resolutions(c) {
				if r := dfs(alt, left-1); r != nil {
					return r
				}
			}
			done[i] = false
		}
		return nil
	}
	r := dfs(s0, n)
	if r == nil {
		return nil, strings.Join(why, "\n  ")
	}
	return r, ""
}

// resolutions are the states that the alternatives left open allow.
func resolutions(s *State) []*State {
	v := []*State{s}
	for id, alts := range s.Amb {
		var u []*State
		for _, b := range v {
			for _, a := range alts {
				c := b.clone()
				delete(c.Amb, id)
				if a == nil {
					delete(c.Tasks, id)
				} else {
					c.Tasks[id] = a
				}
				u = append(u, c)
			}
		}
		v = u
	}
	return v
}

func runConc(x *X, c concCase) {
	retain := time.Duration(c.Retain)
	if retain == 0 {
		retain = time.Hour
	}
	g := openMem(retain)
	if c.Snapshot {
		g = newSnap(caseDir(x)+"/snapshot", 0, retain)
		Must(g.Open(context.Background()))
	}
	mode := &Mode{Retention: retain}
	ex := &engineExec{g: g}
	d := newDriver(x, mode, ex)
	d.quiet = true
	d.names(History{IDs: c.IDs, Topics: c.Topics})
	for _, o := range c.Setup {
		d.step(o)
	}
	var es []*event
	s := newSched(len(c.Threads), c.Choices)
	var fs []func(t *thread)
	for i, ops := range c.Threads {
		ops := ops
		i := i
		last := map[string]string{}
		for id, t := range d.state.Tasks {
			if t.Nonce != "" {
				last[id] = t.Nonce
			}
		}
		older := map[string]string{}
		fs = append(fs, func(t *thread) {
			for _, o := range ops {
				call := resolve(o, d.clk.Now(), func(id, ref string) string {
					switch ref {
					case "":
						return ""
					case "cur", "other":
						if n := last[id]; n != "" {
							return n
						}
						return "none"
					case "old":
						if n := older[id]; n != "" {
							return n
						}
						return "older"
					}
					return ref
				})
				if call.Promise != nil && call.Promise.Consumer != "" {
					call.Promise.Consumer = fmt.Sprintf("%s-%d", call.Promise.Consumer, i)
				}
				e := &event{c: call, thread: i, from: s.tick(), lo: d.clk.Now()}
				e.r = ex.Do(call)
				e.hi = d.clk.Now()
				e.to = s.tick()
				if u := e.r.Task; u != nil && u.Nonce != "" && u.Nonce != last[u.ID] {
					older[u.ID], last[u.ID] = last[u.ID], u.Nonce
				}
				s.mu.Lock()
				es = append(es, e)
				s.mu.Unlock()
				t.park("between")
			}
		})
	}
	memdb.SchedHook = s.hook
	if c.Stride > 0 {
		memdb.SchedHook, s.cycle = s.every(c.Stride), true
	}
	dead, fault := s.run(fs)
	memdb.SchedHook = nil
	var lines []string
	for _, e := range es {
		lines = append(lines, e.String())
	}
	hist := "\nhistory:\n  " + strings.Join(lines, "\n  ") + "\nstarting from:" + d.state.String() + "\nschedule: " + s.String()
	if dead != "" {
		x.Failp("deadlock", "concurrent operations do not finish: %s%s", dead, hist)
	}
	if fault != nil {
		if f, ok := fault.(*failure); ok {
			f.msg += hist
		}
		panic(fault)
	}
	final := map[string]*ratus.Task{}
	for _, e := range es {
		for _, t := range e.c.Tasks {
			d.ids[t.ID] = true
			d.topics[t.Topic] = true
		}
	}
	ids := sortedKeys(d.ids)
	for _, id := range ids {
		r := ex.Do(&Call{Op: Op{K: opGetTask, ID: id}})
		if r.Task != nil {
			final[id] = r.Task
		}
	}
	overlap := 0
	for i, e := range es {
		k := e.r.Err
		if k == "" {
			k = "ok"
		}
		x.Class("%s:%s", e.c.Op.K, k)
		for _, f := range es[:i] {
			if e.from < f.to && f.from < e.to {
				overlap++
			}
		}
	}
	x.Class("overlapping pairs:%d", min(overlap, 6))
	if overlap > 0 && s.switchs > len(c.Threads) {
		x.NonTrivial()
	}
	st, why := linear(mode, d.state, es, ids, final)
	if st == nil {
		x.Failp("not-linearizable", "no sequential order explains a concurrent history: %s%s\nfinal state:%s", why, hist, (&State{Tasks: final}).String())
	}
	d.state = st
	d.state.Amb = map[string][]*ratus.Task{}
	d.quiet = false
	d.log = lines
	d.audit(&Call{Op: Op{K: "concurrent operations"}}, st.Tasks)
}

// genConc draws a concurrent history. All times are whole seconds away from
// the time of the operations, so that outcomes do not depend on resolution.
func genConc(p *Profile, snap bool) func(t *rapid.T) concCase {
	return func(t *rapid.T) concCase {
		q := *p
		if q.Time == nil {
			q.Time = func(t *rapid.T, label string) TS {
				n := rng(t, 1, 3, label)
				if oneIn(t, 3, label+"-future") {
					return TS{K: "rel", N: int64(n) * int64(time.Second)}
				}
				return TS{K: "rel", N: -int64(n) * int64(time.Second)}
			}
		}
		q.Payload = genSmallPayload
		c := concCase{IDs: plainNames[:rng(t, 1, 4, "nids")], Topics: plainNames[3 : 3+rng(t, 1, 2, "ntopics")]}
		c.Snapshot = snap && oneIn(t, 4, "snapshot")
		c.Retain = pick(t, "retain", int64(time.Hour), int64(1500*time.Millisecond), int64(1))
		setup := &Profile{AnyState: true, Time: q.Time, Payload: q.Payload, Weights: map[string]int{opInserts: 10, opInsert: 6, opPoll: 6, opUpsPromise: 3, opCommit: 2}}
		if !oneIn(t, 8, "bare") {
			o := Op{K: opInserts}
			for _, id := range c.IDs {
				v := genTask(t, setup, c.IDs, c.Topics)
				v.ID = id
				o.Tasks = append(o.Tasks, v)
			}
			c.Setup = append(c.Setup, o)
		}
		c.Setup = append(c.Setup, seq(t, 3, 8, "setup", func(t *rapid.T) Op { return genOp(t, setup, c.IDs, c.Topics) })...)
		n := rng(t, 2, 4, "threads")
		for i := 0; i < n; i++ {
			k := 3
			if n == 2 {
				k = 4
			}
			v := seq(t, k, 4, "ops", func(t *rapid.T) Op { return genOp(t, &q, c.IDs, c.Topics) })
			c.Threads = append(c.Threads, v)
		}
		sparse := oneIn(t, 2, "sparse")
		c.Choices = seq(t, 30, 80, "choices", func(t *rapid.T) int {
			if sparse && !oneIn(t, 4, "switch") {
				return 0
			}
			return intn(t, 4, "choice")
		})
		return c
	}
}

func concPart(p *Profile, snap bool, quick, thorough int) Part {
	return &prop[concCase]{name: "interleavings", quick: quick, thorough: thorough,
		rule: "random concurrent histories of 2 to 4 threads under a scheduler that owns every transaction start, every access and every commit of the store; results and final state must be explained by the reference model in some order consistent with real time; non-trivial: at least two operations overlap and threads were switched within operations",
		gen:  genConc(p, snap), run: runConc}
}

func concWeights(kv ...any) map[string]int {
	m := map[string]int{}
	for i := 0; i < len(kv); i += 2 {
		m[kv[i].(string)] = kv[i+1].(int)
	}
	return m
}

func init() {
	w := with(opAdvance, 0, opInsert, 6, opInserts, 6, opUpserts, 5, opPoll, 10, opCommit, 10, opDelTopic, 3, opDelTasks, 3, opDelTopics, 2, opDelPromises, 5, opChore, 6, opListTasks, 4, opListTopics, 2, opGetTopic, 3, opListPromises, 3, opGetTask, 2)
	register(&Check{ID: "C16", Parts: []Part{concPart(&Profile{AnyState: true, Weights: w}, true, 40000, 1500000)}})
	extend("C01", concPart(&Profile{AnyState: true, Weights: concWeights(opPoll, 20, opInsPromise, 10, opUpsPromise, 5, opCommit, 6, opDelPromise, 3, opDelPromises, 2, opChore, 3)}, false, 30000, 900000))
	extend("C05", concPart(&Profile{AnyState: true, Weights: concWeights(opPoll, 8, opUpsPromise, 6, opCommit, 25, opDelPromise, 4, opDelPromises, 3, opChore, 4, opUpsert, 3)}, false, 30000, 900000))
	// The same for the guarantees of single operations, with histories in which
	// those operations dominate.
	for _, c := range []struct {
		id string
		w  map[string]int
	}{
		{"C02", concWeights(opPoll, 15, opUpsPromise, 4, opCommit, 4, opUpsert, 8, opInsert, 4, opDelTask, 3, opChore, 3)},
		{"C06", concWeights(opCommit, 25, opPoll, 6, opUpsert, 6, opUpserts, 3, opInsert, 3, opDelTask, 3, opUpsPromise, 3, opGetTask, 2)},
		{"C07", concWeights(opChore, 16, opPoll, 8, opUpsPromise, 6, opInsPromise, 3, opCommit, 6, opUpsert, 5, opDelPromise, 3, opDelTask, 2)},
		{"C08", concWeights(opChore, 16, opUpsert, 8, opUpserts, 4, opInsert, 6, opCommit, 8, opPoll, 3, opUpsPromise, 3, opDelTask, 2)},
		{"C09", concWeights(opInsert, 12, opInserts, 10, opUpsert, 8, opUpserts, 6, opDelTask, 6, opDelTopic, 2, opPoll, 3, opCommit, 3, opChore, 2)},
		{"C10", concWeights(opDelTask, 8, opDelTasks, 6, opDelTopic, 4, opDelTopics, 3, opDelPromise, 6, opDelPromises, 5, opInsert, 5, opInserts, 3, opUpsert, 4, opPoll, 6, opUpsPromise, 4, opCommit, 3)},
		{"C12", concWeights(opInsPromise, 14, opUpsPromise, 14, opDelPromise, 8, opDelPromises, 4, opGetPromise, 6, opListPromises, 4, opPoll, 5, opCommit, 5, opUpsert, 3)},
	} {
		extend(c.id, concPart(&Profile{AnyState: true, Weights: c.w}, false, 15000, 600000))
	}
	_ = verifclock.Now
}
