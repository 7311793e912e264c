package main

import (
	"context"
	"fmt"
	"path/filepath"
	"time"

	"pgregory.net/rapid"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/engine/memdb"
)

// Stores of tens of thousands of tasks, for which a model of every task after
// every operation would be too slow. What is in them is known by arithmetic.

type largeCase struct {
	N        int      `json:"n"`
	Topics   []string `json:"topics"`
	Mix      string   `json:"mix"`   // states of the tasks, in turn
	Batch    int      `json:"batch"` // tasks per batch
	Upsert   bool     `json:"upsert,omitempty"`
	Due      int      `json:"due"` // thousandths of the tasks whose times have passed
	Limit    int      `json:"limit"`
	Offsets  []int    `json:"offsets"`
	Steps    []string `json:"steps"`
	Interval int64    `json:"interval,omitempty"`
	Polls    int      `json:"polls"`
}

func genLarge(t *rapid.T) largeCase {
	var c largeCase
	edges := []int{4096, 5000, 8192, 9999, 10000, 10001, 12000, 16384, 16385, 20000, 30000, 32767, 32768, 32769}
	c.N = pick(t, "n", edges...) + pick(t, "extra", 0, 0, 1, 2, 100)
	if oneIn(t, 6, "larger") {
		c.N = pick(t, "larger-n", 50000, 65535, 65536, 65537, 70001)
	}
	c.Topics = genNames(t, pick(t, "ntopics", 1, 1, 2, 3), namesText, "topicname")
	c.Mix = pick(t, "mix", "0", "1", "2", "3", "0", "1", "2", "012", "0123", "0011", "0000001", "1111110", "2222223")
	c.Batch = pick(t, "batch", c.N, c.N, 1000, 4097, 10000)
	c.Upsert = oneIn(t, 2, "upsert")
	c.Due = pick(t, "due", 1000, 1000, 0, 500, 999, 1)
	c.Limit = pick(t, "limit", 100, 1000, 1, 10, 9999, 10000, c.N, c.N-1)
	c.Offsets = seq(t, 4, 6, "offsets", func(t *rapid.T) int {
		return pick(t, "offset", 0, 1, 9999, 10000, 10001, 16383, 32767, 65535, 65536, c.N/2, c.N-1, c.N, c.N+1, rng(t, 0, c.N, "any"))
	})
	c.Steps = seq(t, 3, 6, "steps", func(t *rapid.T) string {
		return pick(t, "step", "chore", "chore", "reopen", "release", "deltasks", "deltopic", "again", "poll", "release-one", "deltopics", "later")
	})
	c.Interval = pick(t, "interval", int64(0), int64(time.Hour))
	c.Polls = rng(t, 1, 40, "polls")
	return c
}

func runLarge(x *X, c largeCase) {
	ctx := context.Background()
	clk := newClk()
	retention := time.Hour
	path := filepath.Join(caseDir(x), "snapshot")
	open := func() *memdb.Engine {
		g := newSnap(path, time.Duration(c.Interval), retention)
		if err := g.Open(ctx); err != nil {
			x.Fail("open", []string{"C13", "C14"}, "opening the saved snapshot of %d tasks failed: %v", c.N, err)
		}
		return g
	}
	g := open()
	fail := func(key, tags, format string, a ...any) {
		v := div(key, tags, format, a...)
		x.Fail(v.Key, v.Tags, "with %d tasks: %s", c.N, v.Msg)
	}
	check := func(what string, err error) {
		if err != nil {
			fail("error", "", "%s failed: %v", what, err)
		}
	}

	// The states and topics of all tasks, which is all that changes.
	type item struct {
		state ratus.TaskState
		topic int // -1 for deleted
		due   bool
	}
	name := func(i int) string { return fmt.Sprintf("task-%06d", i) }
	items := make([]item, c.N)
	index := make(map[string]int, c.N)
	past, future := clk.Now().Add(-2*time.Hour), clk.Now().Add(2*time.Hour)
	build := func(i int) *ratus.Task {
		it := items[i]
		at := future
		if it.due {
			at = past.Add(time.Duration(i) * time.Millisecond)
		}
		t := &ratus.Task{ID: name(i), Topic: c.Topics[it.topic], State: it.state, Produced: &past, Scheduled: &at, Payload: float64(i)}
		if it.state == ratus.TaskStateActive {
			t.Nonce, t.Consumer, t.Deadline, t.Consumed = fmt.Sprintf("n%015d", i), "c", &at, &past
		}
		if it.state == ratus.TaskStateCompleted {
			t.Consumed = &at
		}
		return t
	}
	for i := range items {
		items[i] = item{ratus.TaskState(c.Mix[i%len(c.Mix)] - '0'), i % len(c.Topics), i*1000 < c.Due*c.N}
		index[name(i)] = i
	}
	write := func(again bool) {
		for i := 0; i < c.N; i += c.Batch {
			var ts []*ratus.Task
			var created, updated int64
			for j := i; j < c.N && j < i+c.Batch; j++ {
				if items[j].topic < 0 {
					continue
				}
				ts = append(ts, build(j))
				if again {
					updated++
				} else {
					created++
				}
			}
			if c.Upsert {
				v, err := g.UpsertTasks(ctx, ts)
				check("upserting tasks", err)
				if v == nil || v.Created != created || v.Updated != updated {
					fail("upsert-count", "C09", "upserting %d tasks: got %+v, want created %d and updated %d", len(ts), v, created, updated)
				}
				continue
			}
			v, err := g.InsertTasks(ctx, ts)
			check("inserting tasks", err)
			if v == nil || v.Created != created || v.Updated != 0 {
				fail("insert-count", "C09", "inserting %d tasks: got %+v, want created %d", len(ts), v, created)
			}
		}
	}
	write(false)

	// audit compares listings and counts with the items.
	audit := func(after string) {
		count := make([]int, len(c.Topics))
		active := make([]int, len(c.Topics))
		for _, it := range items {
			if it.topic >= 0 {
				count[it.topic]++
				if it.state == ratus.TaskStateActive {
					active[it.topic]++
				}
			}
		}
		n := 0
		for k, s := range c.Topics {
			v, err := g.GetTopic(ctx, s)
			if count[k] == 0 {
				if err == nil {
					fail("topic-exists", "C11", "after %s topic %q exists without tasks: %+v", after, shorten(s), v)
				}
			} else {
				n++
				check("getting a topic", err)
				if v == nil || v.Name != s || v.Count != int64(count[k]) {
					fail("topic-count", "C11", "after %s topic %q has %d tasks: %+v", after, shorten(s), count[k], v)
				}
			}
			all, err := g.ListTasks(ctx, s, c.N+1, 0)
			check("listing tasks", err)
			if len(all) != count[k] {
				fail("listing", "C02 C09 C11 C13", "after %s listing all tasks of topic %q gives %d, want %d", after, shorten(s), len(all), count[k])
			}
			seen := make(map[string]bool, len(all))
			for _, t := range all {
				i, ok := index[t.ID]
				if !ok || seen[t.ID] {
					fail("listing", "C02 C11", "after %s listing all tasks of topic %q gives %q twice, or it should not exist", after, shorten(s), t.ID)
				}
				seen[t.ID] = true
				it := items[i]
				if it.topic != k {
					fail("listing", "C02 C04 C10 C11", "after %s task %q is in topic %q", after, t.ID, shorten(s))
				}
				if t.State != it.state || t.Payload != float64(i) {
					fail("state", "C02 C07 C10", "after %s task %s should have state %d and payload %d", after, show(t), it.state, i)
				}
				if (t.Nonce != "") != (it.state == ratus.TaskStateActive) {
					fail("nonce", "C05 C07 C10", "after %s task %s has state %d and nonce %q", after, t.ID, t.State, t.Nonce)
				}
			}
			for _, off := range c.Offsets {
				part, err := g.ListTasks(ctx, s, c.Limit, off)
				check("listing tasks", err)
				want := min(max(count[k]-off, 0), c.Limit)
				if len(part) != want {
					fail("page", "C11", "after %s %d tasks of topic %q from %d with limit %d: want %d", after, len(part), shorten(s), off, c.Limit, want)
				}
				for i, t := range part {
					if t.ID != all[off+i].ID {
						fail("page", "C11", "after %s task %d of topic %q is %q in one listing and %q in another", after, off+i, shorten(s), all[off+i].ID, t.ID)
					}
				}
				ps, err := g.ListPromises(ctx, s, c.Limit, off)
				check("listing promises", err)
				if want := min(max(active[k]-off, 0), c.Limit); len(ps) != want {
					fail("promises", "C11 C12", "after %s %d promises of topic %q from %d with limit %d: want %d", after, len(ps), shorten(s), off, c.Limit, want)
				}
			}
			ps, err := g.ListPromises(ctx, s, c.N+1, 0)
			check("listing promises", err)
			if len(ps) != active[k] {
				fail("promises", "C11 C12", "after %s listing all promises of topic %q gives %d, want %d", after, shorten(s), len(ps), active[k])
			}
		}
		v, err := g.ListTopics(ctx, 100, 0)
		check("listing topics", err)
		if len(v) != n {
			fail("topics", "C11", "after %s %d topics are listed, want %d", after, len(v), n)
		}
	}
	audit("inserting")

	deleted := func(what, tags string, v *ratus.Deleted, err error, want int) {
		check(what, err)
		if v == nil || v.Deleted != int64(want) {
			fail("delete-count", tags, "%s: got %+v, want %d", what, v, want)
		}
	}
	for i, s := range c.Steps {
		k := i % len(c.Topics)
		topic := c.Topics[k]
		switch s {
		case "chore":
			now := clk.Now()
			if err := g.Chore(ctx); err != nil {
				check("the background job", err)
			}
			for i := range items {
				it := &items[i]
				at := future
				if it.due {
					at = past.Add(time.Duration(i) * time.Millisecond)
				}
				switch {
				case it.topic < 0:
				case it.state == ratus.TaskStateActive && at.Before(now):
					it.state = ratus.TaskStatePending
				case it.state == ratus.TaskStateCompleted && at.Before(now.Add(-retention)):
					it.topic = -1
				}
			}
		case "later":
			clk.Advance(5 * time.Hour)
			continue
		case "reopen":
			if err := g.Close(ctx); err != nil {
				fail("close", "C13", "closing failed: %v", err)
			}
			g = open()
		case "release":
			n := 0
			for i := range items {
				if items[i].topic == k && items[i].state == ratus.TaskStateActive {
					items[i].state = ratus.TaskStatePending
					n++
				}
			}
			v, err := g.DeletePromises(ctx, topic)
			deleted("deleting the promises of a topic", "C10", v, err, n)
		case "release-one":
			i := c.Polls * 37 % c.N
			n := 0
			if items[i].topic >= 0 && items[i].state == ratus.TaskStateActive {
				items[i].state = ratus.TaskStatePending
				n++
			}
			v, err := g.DeletePromise(ctx, name(i))
			deleted("deleting a promise", "C10", v, err, n)
		case "deltasks", "deltopic":
			n := 0
			for i := range items {
				if items[i].topic == k {
					items[i].topic = -1
					n++
				}
			}
			if s == "deltopic" {
				v, err := g.DeleteTopic(ctx, topic)
				deleted("deleting a topic", "C10", v, err, n)
			} else {
				v, err := g.DeleteTasks(ctx, topic)
				deleted("deleting the tasks of a topic", "C10", v, err, n)
			}
		case "deltopics":
			n := 0
			for i := range items {
				if items[i].topic >= 0 {
					items[i].topic = -1
					n++
				}
			}
			v, err := g.DeleteTopics(ctx)
			deleted("deleting all topics", "C10", v, err, n)
		case "again":
			if !c.Upsert {
				continue
			}
			write(true)
		case "poll":
			// Due tasks come in the order of their times, which is that of
			// their numbers; the background job does not change them.
			now := clk.Now()
			for j := 0; j < c.Polls; j++ {
				want := -1
				for i := range items {
					it := items[i]
					if it.topic == k && it.state == ratus.TaskStatePending && (it.due || !future.After(now)) {
						want = i
						break
					}
				}
				t, err := g.Poll(ctx, topic, &ratus.Promise{Consumer: "p", Deadline: &future})
				if want < 0 {
					if err == nil {
						fail("poll", "C03 C04", "polling topic %q gives %s, but nothing is due", shorten(topic), show(t))
					}
					break
				}
				check("polling", err)
				if items[want].due && t.ID != name(want) {
					fail("poll", "C02 C03", "polling topic %q gives %s, want %q", shorten(topic), show(t), name(want))
				}
				// Give it back as it was.
				if v, err := g.DeletePromise(ctx, t.ID); err != nil || v.Deleted != 1 {
					fail("release-count", "C10", "releasing %q: %+v, %v", t.ID, v, err)
				}
				if !items[want].due {
					break
				}
			}
		}
		audit(s)
		x.Class("step:%s", s)
	}
	x.NonTrivial()
	g.Destroy(ctx)
}

func largePart(quick int) Part {
	return &prop[largeCase]{name: "large", quick: quick, thorough: quick * 30,
		rule: "stores of 4 096 to some 70 000 tasks around sizes at which something might end (powers of two, ten thousand), filled in batches, with background jobs, releases, deletions, polls and restarts; every count, every listing and pages at far offsets compared with what arithmetic says; non-trivial: all",
		gen:  genLarge, run: runLarge}
}

func init() {
	for _, id := range []string{"C02", "C03", "C07", "C09", "C10", "C12", "C13"} {
		extend(id, largePart(12))
	}
	extend("C11", largePart(24))
}
