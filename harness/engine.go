package main

import (
	"context"
	"fmt"
	"math"
	"time"

	"pgregory.net/rapid"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/engine/memdb"
	"github.com/hyperonym/ratus/internal/verifclock"
)

// probeClock finds out whether the virtual clock is effective.
func probeClock() {
	ctx := context.Background()
	g, err := memdb.New(&memdb.Config{RetentionPeriod: time.Hour})
	if err != nil || g.Open(ctx) != nil {
		return
	}
	past := time.Date(2001, 1, 1, 0, 0, 0, 0, time.UTC)
	verifclock.Set(past)
	defer verifclock.Real()
	before := time.Unix(0, 0)
	g.InsertTask(ctx, &ratus.Task{ID: "probe", Topic: "probe", Scheduled: &before})
	t, err := g.InsertPromise(ctx, &ratus.Promise{ID: "probe", Deadline: &before})
	if err != nil || t == nil || t.Consumed == nil {
		return
	}
	if d := time.Since(*t.Consumed); d > -time.Minute && d < time.Minute {
		virtualClock = false
	}
}

func openMem(retention time.Duration) *memdb.Engine {
	g, err := memdb.New(&memdb.Config{RetentionPeriod: retention})
	if err != nil {
		panic(&failure{nil, "open", fmt.Sprintf("creating the engine failed: %v", err)})
	}
	if err := g.Open(context.Background()); err != nil {
		panic(&failure{nil, "open", fmt.Sprintf("opening the engine failed: %v", err)})
	}
	return g
}

func memMode(retention int64) *Mode { return &Mode{Retention: time.Duration(retention)} }

// memHistory is the sequential exploration of the in-memory engine with one
// profile of operations.
func memHistory(p *Profile, quick, thorough int, rule string, nontrivial func(n func(string) int64) bool, after func(d *driver)) Part {
	return &prop[History]{
		name: "history", quick: quick, thorough: thorough,
		rule: "random histories of engine operations on a fresh in-memory engine under a virtual clock, every result compared with the reference model and the whole store audited after every operation; non-trivial: " + rule,
		gen: func(t *rapid.T) History {
			h := genHistory(t, p)
			hugePages(t, h.Ops, math.MaxInt)
			return h
		},
		run: func(x *X, h History) {
			runMem(x, h, after)
			if nontrivial(func(k string) int64 { return x.classes[k] }) {
				x.NonTrivial()
			}
		},
	}
}

func runMem(x *X, h History, after func(d *driver)) {
	g := openMem(time.Duration(h.Retention))
	d := newDriver(x, memMode(h.Retention), &engineExec{g: g})
	d.names(h)
	for _, o := range h.Ops {
		d.step(o)
	}
	if after != nil {
		after(d)
	}
}

func claims(n func(string) int64) int64 {
	return n("poll:ok") + n("inspromise:ok") + n("upspromise:ok")
}

// pages lists every topic with every page size and compares the concatenation
// of all pages with the complete listing.
func pages(d *driver) {
	cat := func(k, topic string, list func(r *Result) []string) {
		get := func(limit, offset int) []string {
			c := &Call{Op: Op{K: k, Topic: topic, Limit: limit, Offset: offset}}
			r := d.exec.Do(c)
			now := d.clk.Now()
			if v := d.mode.Apply(d.state, c, r, now, now); v != nil {
				d.fail(v)
			}
			return list(r)
		}
		all := get(1000, 0)
		for size := 1; size <= len(all)+1; size++ {
			if size > 7 && size < len(all)-1 {
				continue
			}
			var v []string
			for off := 0; off <= len(all)+size; off += size {
				v = append(v, get(size, off)...)
			}
			if fmt.Sprint(v) != fmt.Sprint(all) {
				d.fail(div("pages", opTags[k], "%s %q by pages of %d gives %q instead of %q", k, topic, size, v, all))
			}
		}
		if len(all) > 1 {
			d.x.Class("paged:" + k)
		}
	}
	cat(opListTopics, "", func(r *Result) (v []string) {
		for _, t := range r.Topics {
			v = append(v, t.Name)
		}
		return
	})
	for _, topic := range sortedKeys(d.topics) {
		cat(opListTasks, topic, func(r *Result) (v []string) {
			for _, t := range r.Tasks {
				v = append(v, t.ID)
			}
			return
		})
		cat(opListPromises, topic, func(r *Result) (v []string) {
			for _, t := range r.Promises {
				v = append(v, t.ID)
			}
			return
		})
	}
}

// histories explores one profile at the level of the engine and of the API.
func histories(p Profile, quick, thorough int, rule string, nontrivial func(n func(string) int64) bool, after func(d *driver)) []Part {
	m := p
	return []Part{memHistory(&m, quick, thorough, rule, nontrivial, after), httpHistory(p, quick/4, thorough/4, rule, nontrivial, after), mongoHistory(p, quick/10, thorough/10, rule, nontrivial, after)}
}

func init() {
	register(&Check{ID: "C01", Parts: histories(
		Profile{AnyState: true, Weights: with(opInsPromise, 10, opUpsPromise, 8, opPoll, 12)}, 14000, 400000,
		"a task was claimed at least twice, and a promise was refused or an active task taken over",
		func(n func(string) int64) bool {
			return claims(n) >= 2 && n("inspromise:conflict")+n("upspromise:ok") > 0
		}, nil)})
	register(&Check{ID: "C02", Parts: histories(
		Profile{AnyState: true, Names: namesBytes, Weights: with(opDelTopics, 1, opDelTopic, 1)}, 11000, 300000,
		"at least one claim, one recovery, release or abstention, and a final drain that hands out every pending task",
		func(n func(string) int64) bool {
			return n("drained") > 0 && claims(n) > 0 && n("chore:recovered")+n("delpromise:some")+n("delpromises:some")+n("commit:ok") > 0
		},
		func(d *driver) { d.drain() })})
	register(&Check{ID: "C03", Parts: histories(
		Profile{NTopics: 2, NIDs: 8, Weights: with(opPoll, 25, opAdvance, 10, opInserts, 8, opDelTask, 1, opUpsPromise, 1, opInsPromise, 2)}, 14000, 400000,
		"at least two polls returned a task and at least one found nothing",
		func(n func(string) int64) bool { return n("poll:ok") >= 2 && n("poll:notfound") > 0 }, func(d *driver) { d.drain() })})
	register(&Check{ID: "C04", Parts: histories(
		Profile{NTopics: 5, NIDs: 7, Names: namesBytes, AnyState: true, Weights: with(opPoll, 15, opCommit, 14, opDelTopic, 3, opDelTasks, 3, opDelPromises, 4, opGetTopic, 3, opListTasks, 3)}, 11000, 300000,
		"at least two topics in use, an operation on a whole topic affected tasks, and a poll returned a task",
		func(n func(string) int64) bool {
			return n("poll:ok") > 0 && n("deltopic:some")+n("deltasks:some")+n("delpromises:some") > 0
		}, nil)})
	register(&Check{ID: "C05", Parts: histories(
		Profile{AnyState: true, NIDs: 3, NTopics: 2, Weights: with(opCommit, 30, opUpsPromise, 6, opChore, 6, opDelPromise, 5, opUpsert, 6)}, 14000, 400000,
		"at least one commit was accepted and one refused for its nonce",
		func(n func(string) int64) bool { return n("commit:ok") > 0 && n("commit:conflict") > 0 }, nil)})
	register(&Check{ID: "C06", Parts: histories(
		Profile{AnyState: true, NTopics: 3, Payload: genPayload, Weights: with(opCommit, 30)}, 13000, 350000,
		"at least two commits were accepted",
		func(n func(string) int64) bool { return n("commit:ok") >= 2 }, nil)})
	register(&Check{ID: "C07", Parts: histories(
		Profile{AnyState: true, NIDs: 8, Weights: with(opChore, 20, opPoll, 16, opAdvance, 14, opInserts, 8, opUpsPromise, 6)}, 13000, 350000,
		"the job recovered at least one task and left at least one active",
		func(n func(string) int64) bool { return n("chore:recovered") > 0 && n("chore:kept-active") > 0 }, nil)})
	register(&Check{ID: "C08", Parts: histories(
		Profile{AnyState: true, NIDs: 8, Weights: with(opChore, 20, opPoll, 16, opCommit, 16, opAdvance, 14, opInserts, 8)}, 13000, 350000,
		"the job deleted at least one task and kept a completed one",
		func(n func(string) int64) bool { return n("chore:expired") > 0 && n("chore:kept-completed") > 0 }, nil)[:2]})
	register(&Check{ID: "C09", Parts: histories(
		Profile{AnyState: true, DupBatch: true, Batch: 8, Names: namesBytes, Payload: genPayload, Weights: with(opInsert, 20, opInserts, 16, opUpsert, 14, opUpserts, 14, opDelTask, 6)}, 11000, 300000,
		"an insert of an existing task was refused, and tasks were replaced",
		func(n func(string) int64) bool {
			return n("insert:conflict") > 0 && n("upsert:updated")+n("upserts:updated") > 0
		}, nil)})
	register(&Check{ID: "C10", Parts: histories(
		Profile{AnyState: true, NTopics: 4, NIDs: 9, Names: namesBytes, Weights: with(opInserts, 12, opDelTopic, 5, opDelTasks, 5, opDelTask, 5, opDelTopics, 3, opDelPromises, 8, opDelPromise, 8)}, 10000, 280000,
		"a deletion removed tasks and a release affected active tasks",
		func(n func(string) int64) bool {
			return n("deltopic:some")+n("deltasks:some")+n("deltask:some")+n("deltopics:some") > 0 && n("delpromises:some")+n("delpromise:some") > 0
		}, nil)})
	register(&Check{ID: "C11", Parts: histories(
		Profile{AnyState: true, NTopics: 6, NIDs: 24, Names: namesBytes, Batch: 14, MaxOps: 20, Weights: with(opInserts, 25, opPoll, 16, opListTasks, 8, opListTopics, 8, opListPromises, 8, opGetTopic, 5, opCommit, 10)}, 4000, 120000,
		"several topics, tasks and promises were listed by pages of several sizes",
		func(n func(string) int64) bool {
			return n("paged:listtopics") > 0 && n("paged:listtasks") > 0 && n("paged:listpromises") > 0
		}, pages)})
	register(&Check{ID: "C12", Parts: histories(
		Profile{AnyState: true, NTopics: 3, NIDs: 8, Names: namesBytes, Weights: with(opInserts, 10, opPoll, 16, opListPromises, 6, opGetPromise, 6, opInsPromise, 8, opUpsPromise, 6, opDelPromise, 5, opDelPromises, 4, opChore, 6, opCommit, 12)}, 10000, 280000,
		"at least two claims, and one was committed, released or recovered",
		func(n func(string) int64) bool {
			return claims(n) >= 2 && n("commit:ok")+n("delpromise:some")+n("delpromises:some")+n("chore:recovered") > 0
		}, nil)})
}
