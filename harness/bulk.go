package main

import (
	"context"
	"fmt"
	"path/filepath"
	"strconv"
	"time"

	"pgregory.net/rapid"
)

// Histories on stores with hundreds or thousands of tasks.

// Fill describes a batch of many tasks.
type Fill struct {
	N       int      `json:"n"`
	From    int      `json:"from,omitempty"`
	Prefix  string   `json:"prefix"`
	Topics  []string `json:"topics"` // names, in turn
	Each    int      `json:"each,omitempty"`
	Mix     string   `json:"mix"` // states, in turn
	Order   int      `json:"order,omitempty"`
	Start   TS       `json:"start"` // of the times
	Step    int64    `json:"step"`  // between the times of successive tasks
	Payload bool     `json:"payload,omitempty"`
}

func (f *Fill) expand() []T {
	v := make([]T, 0, f.N)
	for j := 0; j < f.N; j++ {
		i := j
		switch f.Order {
		case 1:
			i = f.N - 1 - j
		case 2:
			i = (j*7 + 3) % f.N
			if f.N%7 == 0 {
				i = j
			}
		}
		at := f.Start
		at.N += int64(i) * f.Step
		t := T{ID: f.Prefix + strconv.Itoa(f.From+i), State: int(f.Mix[i%len(f.Mix)] - '0'), Scheduled: at, Produced: at, Deadline: at, Consumed: at}
		t.Topic = f.Topics[i%len(f.Topics)]
		if f.Each > 0 {
			t.Topic += strconv.Itoa(i / f.Each) // many topics
		}
		if t.State == 1 {
			t.Nonce, t.Consumer = fmt.Sprintf("n%015d", i), "c"+strconv.Itoa(i%3)
		}
		if f.Payload {
			t.Payload = []byte(fmt.Sprintf(`{"i":%d,"s":[%q]}`, i, t.ID))
		}
		v = append(v, t)
	}
	return v
}

type bulkCase struct {
	History
	Snapshot bool  `json:"snapshot,omitempty"`
	Interval int64 `json:"interval,omitempty"`
	Sizes    []int `json:"sizes"`
}

func genBulk(max int, w map[string]int) func(t *rapid.T) bulkCase {
	return func(t *rapid.T) bulkCase {
		var c bulkCase
		p := &Profile{AnyState: true, Weights: w, NoNil: true, Limits: max, Time: genNear, Payload: genSmallPayload}
		c.Topics = genNames(t, rng(t, 1, 3, "ntopics"), namesText, "topicname")
		c.Retention = pick(t, "retention", int64(72*time.Hour), int64(time.Hour), int64(5*time.Second), 0)
		c.Snapshot = oneIn(t, 3, "snapshot")
		c.Interval = pick(t, "interval", int64(0), int64(time.Minute))
		prefixes := []string{pick(t, "prefix", "t", "task-", "a/b ")}
		var ids []string
		fill := func() Op {
			f := &Fill{Prefix: prefixes[0], Mix: pick(t, "mix", "0", "1", "2", "0", "1", "2", "0123", "01", "12", "3", "0012")}
			if oneIn(t, 2, "round") {
				f.N = pick(t, "n", 64, 100, 101, 128, 129, 200, 256, 257, 500, 512, 1000, 1001, 1024, 1025)
			} else {
				f.N = rng(t, 2, max, "n")
			}
			if f.N > max {
				f.N = max
			}
			if oneIn(t, 3, "more") {
				f.From = pick(t, "from", max, f.N/2, 1)
			}
			f.Topics = c.Topics[:rng(t, 1, len(c.Topics), "spread")]
			if oneIn(t, 4, "many") {
				f.Each = pick(t, "each", 1, 2, 30)
			}
			f.Order = intn(t, 3, "order")
			f.Start = TS{K: "rel", N: pick(t, "start", 0, -int64(time.Hour), -int64(10*time.Second), int64(time.Second), -80*int64(time.Hour), -int64(time.Duration(c.Retention)))}
			f.Step = pick(t, "step", int64(time.Millisecond), 0, int64(100*time.Millisecond), -int64(time.Millisecond), 10*int64(time.Second))
			f.Payload = oneIn(t, 3, "payload")
			ids = append(ids, f.Prefix+strconv.Itoa(f.From), f.Prefix+strconv.Itoa(f.From+f.N-1), f.Prefix+strconv.Itoa(f.From+f.N/2))
			return Op{K: pick(t, "fill", opInserts, opUpserts), Fill: f}
		}
		c.Ops = append(c.Ops, fill())
		c.Ops = append(c.Ops, seq(t, 8, 24, "ops", func(t *rapid.T) Op {
			if oneIn(t, 5, "filling") {
				return fill()
			}
			o := genOp(t, p, ids, c.Topics)
			switch o.K {
			case opPoll:
				o.Times = rng(t, 1, max/8, "times")
			case opCommit:
				o.NonceRef = pick(t, "bulknonce", "cur", "", o.NonceRef)
			}
			return o
		})...)
		c.IDs = ids
		c.Sizes = []int{rng(t, 1, max, "size"), pick(t, "size", 10, 97, 100, 101, 1000, 999)}
		return c
	}
}

// bulkPages lists everything by pages of some sizes.
func bulkPages(d *driver, sizes []int) {
	names := d.state.topics()
	list := func(k, topic string, size, total int) {
		seen := map[string]bool{}
		var all []string
		for off := 0; off <= total+size; off += size {
			c := &Call{Op: Op{K: k, Topic: topic, Limit: size, Offset: off}}
			r := d.exec.Do(c)
			now := d.clk.Now()
			if v := d.mode.Apply(d.state, c, r, now, now); v != nil {
				d.fail(v)
			}
			for _, v := range r.Tasks {
				all = append(all, v.ID)
			}
			for _, v := range r.Topics {
				all = append(all, v.Name)
			}
			for _, v := range r.Promises {
				all = append(all, v.ID)
			}
		}
		for _, s := range all {
			if seen[s] {
				d.fail(div("pages", opTags[k]+" C11", "%s %q by pages of %d gives %q twice", k, topic, size, s))
			}
			seen[s] = true
		}
		if len(all) != total {
			d.fail(div("pages", opTags[k]+" C11", "%s %q by pages of %d gives %d items instead of %d", k, topic, size, len(all), total))
		}
		if total > size {
			d.x.Class("paged:%s", k)
		}
	}
	for _, size := range append(sizes, d.max) {
		if size > d.max || size < 1 || len(d.state.Tasks)/size > 150 {
			continue
		}
		list(opListTopics, "", size, len(names))
		i := 0
		for _, n := range d.state.order() {
			if i++; i > 8 {
				break
			}
			list(opListTasks, n, size, int(names[n]))
			list(opListPromises, n, size, len(d.state.active(n)))
		}
	}
	i := 0
	for _, n := range d.state.order() {
		if i++; i > 50 {
			break
		}
		d.read(&Call{Op: Op{K: "listings"}}, Op{K: opGetTopic, Topic: n})
	}
}

// order lists the topics with the largest first.
func (s *State) order() []string {
	m := s.topics()
	v := make([]string, 0, len(m))
	for k := range m {
		v = append(v, k)
	}
	sortStrings(v)
	for i := range v {
		for j := i; j > 0 && m[v[j]] > m[v[j-1]]; j-- {
			v[j], v[j-1] = v[j-1], v[j]
		}
	}
	return v
}

func bulkDone(x *X, d *driver, c bulkCase, most int) {
	bulkPages(d, c.Sizes)
	if most >= 64 {
		x.NonTrivial()
	}
}

const bulkRule = "random histories with batches of up to %d tasks (of one state or mixed, in one topic or many, with equal or spread times), every result compared with the reference model, every task after every operation, and all listings by pages of several sizes at the end; non-trivial: at least 64 tasks at once"

func bulkMem(quick int, w map[string]int) Part {
	const max = 2100
	return &prop[bulkCase]{name: "bulk", quick: quick, thorough: quick * 40,
		rule: fmt.Sprintf(bulkRule, max),
		gen:  genBulk(max, w),
		run: func(x *X, c bulkCase) {
			ctx := context.Background()
			e := &engineExec{}
			d := newDriver(x, memMode(c.Retention), e)
			if c.Snapshot {
				path := filepath.Join(caseDir(x), "snapshot")
				open := func() {
					g := newSnap(path, time.Duration(c.Interval), time.Duration(c.Retention))
					if err := g.Open(ctx); err != nil {
						x.Failp("open", "opening the saved snapshot failed: %v", err)
					}
					e.g = g
				}
				open()
				d.reopen = func() {
					if err := e.g.Close(ctx); err != nil {
						x.Failp("close", "closing failed: %v", err)
					}
					open()
					x.Class("reopened")
				}
			} else {
				e.g = openMem(time.Duration(c.Retention))
			}
			most := bulkRun(d, c)
			bulkDone(x, d, c, most)
		}}
}

func bulkRun(d *driver, c bulkCase) int {
	most := 0
	d.quiet = true
	d.names(c.History)
	for _, o := range c.Ops {
		if o.K == opOpen && d.reopen == nil {
			continue
		}
		d.step(o)
		if n := len(d.state.Tasks); n > most {
			most = n
		}
	}
	return most
}

func bulkHTTP(quick int, w map[string]int) Part {
	const max = 600
	return &prop[bulkCase]{name: "bulk-http", quick: quick, thorough: quick * 40,
		rule: fmt.Sprintf(bulkRule, max) + " (as HTTP requests)",
		gen:  genBulk(max, w),
		run: func(x *X, c bulkCase) {
			g := openMem(time.Duration(c.Retention))
			a := newAPI(1000, 10000)
			a.use(x, g, nil)
			d := newDriver(x, memMode(c.Retention), &httpExec{x: x, a: a, g: g})
			d.aud = &engineExec{g: g}
			d.fixup = normalized(1000, d.clk.Now)
			most := bulkRun(d, c)
			bulkDone(x, d, c, most)
		}}
}

type bulkMongoCase struct {
	mongoCase
	Sizes []int `json:"sizes"`
}

func bulkMongo(quick int, w map[string]int) Part {
	const max = 220
	return &prop[bulkMongoCase]{name: "bulk-mongodb", quick: quick, thorough: quick * 40,
		rule: fmt.Sprintf(bulkRule, max) + " (on the MongoDB engine)",
		gen: func(t *rapid.T) bulkMongoCase {
			b := genBulk(max, w)(t)
			c := bulkMongoCase{mongoCase{History: b.History, Setup: genSetup(t), Deploy: genDeploy(t)}, b.Sizes}
			if oneIn(t, 2, "usual") {
				c.Deploy.Batch, c.Deploy.Writes = 0, 0
			}
			if len(c.Deploy.ShardKey) > 0 {
				c.Setup.NoAuto = false
			}
			return c
		},
		run: func(x *X, c bulkMongoCase) {
			most := 0
			runMongoAs(x, c.mongoCase, "C26", func(d *driver) {
				for _, o := range c.Ops {
					if o.Fill != nil && o.Fill.N > most {
						most = o.Fill.N
					}
				}
				d.aud = nil
				bulkPages(d, c.Sizes)
			})
			if most >= 64 {
				x.NonTrivial()
			}
		}}
}

// genBulkConc draws concurrent operations on many tasks.
func genBulkConc(max int) func(t *rapid.T) concCase {
	return func(t *rapid.T) concCase {
		c := concCase{Topics: plainNames[3 : 3+rng(t, 1, 2, "ntopics")]}
		c.Snapshot = oneIn(t, 4, "snapshot")
		c.Retain = pick(t, "retain", int64(time.Hour), int64(1500*time.Millisecond), int64(1))
		fill := func(t *rapid.T) Op {
			f := &Fill{Prefix: "t", Mix: pick(t, "mix", "0", "1", "2", "012", "01", "3")}
			f.N = pick(t, "n", max, max, max, max/2, 1000, 500, 100, rng(t, 2, max, "count"))
			f.From = pick(t, "from", 0, 0, 1, f.N/2, max)
			f.Topics = c.Topics[:rng(t, 1, len(c.Topics), "spread")]
			f.Order = intn(t, 3, "order")
			f.Start = TS{K: "rel", N: pick(t, "start", int64(1), -1, 2, -2, -3) * int64(time.Second)}
			c.IDs = append(c.IDs, fmt.Sprintf("t%d", f.From), fmt.Sprintf("t%d", f.From+f.N-1))
			return Op{K: pick(t, "fill", opInserts, opUpserts), Fill: f}
		}
		op := func(t *rapid.T) Op {
			o := Op{K: pick(t, "op", opInserts, opChore, opListTasks, opGetTopic, opListPromises, opPoll, opDelTopic, opDelTasks, opDelPromises, opDelTopics, opListTopics, opGetTask)}
			o.Topic = pick(t, "topic", c.Topics...)
			o.Limit = pick(t, "limit", 2*max, max, 100)
			switch o.K {
			case opInserts:
				return fill(t)
			case opPoll:
				o.Consumer, o.Deadline = "c", TS{K: "rel", N: pick(t, "deadline", int64(1), -1) * int64(time.Second)}
			case opGetTask:
				o.Topic, o.ID = "", pick(t, "id", append([]string{"t0"}, c.IDs...)...)
			case opDelTopics, opListTopics:
				o.Topic = ""
			}
			return o
		}
		for n := rng(t, 0, 2, "setup"); n > 0; n-- {
			c.Setup = append(c.Setup, fill(t))
		}
		for n := rng(t, 2, 3, "threads"); n > 0; n-- {
			v := seq(t, 2, 3, "ops", op)
			if n == 2 && oneIn(t, 2, "writer") {
				v = append([]Op{fill(t)}, v...)
			}
			c.Threads = append(c.Threads, v)
		}
		c.Stride = pick(t, "stride", 50, 100, 400, 5000)
		c.Choices = seq(t, 40, 120, "choices", func(t *rapid.T) int { return pick(t, "choice", 1, 0, 1, 2, 3) })
		return c
	}
}

func init() {
	extend("C16", &prop[concCase]{name: "bulk", quick: 500, thorough: 15000,
		rule: "random concurrent histories in which operations affect up to 1500 tasks at once, under the same scheduler and oracle with every 50th to 5000th access as a scheduling point; non-trivial: as above",
		gen:  genBulkConc(1500), run: runConc})
	w := func(kv ...any) map[string]int {
		return with(append([]any{opInsert, 3, opInserts, 2, opUpserts, 2, opPoll, 8, opChore, 6, opAdvance, 8}, kv...)...)
	}
	dels := w(opDelTopics, 3, opDelTopic, 6, opDelTasks, 6, opDelPromises, 10)
	all := w(opDelTopics, 2, opDelTopic, 2, opDelTasks, 2, opDelPromises, 4, opOpen, 3)
	extend("C02", bulkMem(100, all))
	extend("C03", bulkMem(100, w(opPoll, 20)))
	extend("C04", bulkMem(100, dels))
	extend("C07", bulkMem(150, w(opChore, 16, opAdvance, 12)))
	extend("C08", bulkMem(150, w(opChore, 16, opAdvance, 12)))
	extend("C09", bulkMem(100, w(opInserts, 8, opUpserts, 8)))
	extend("C10", bulkMem(150, dels))
	extend("C11", bulkMem(120, w(opListTasks, 8, opListTopics, 8, opListPromises, 8, opGetTopic, 8)))
	extend("C12", bulkMem(100, w(opDelPromises, 8, opListPromises, 8, opPoll, 12)))
	extend("C13", bulkMem(150, w(opOpen, 16)))
	for _, id := range []string{"C09", "C10", "C11", "C12"} {
		extend(id, bulkHTTP(40, dels))
	}
	extend("C26", bulkMongo(60, dels))
	for _, id := range []string{"C07", "C09", "C10", "C11", "C12"} {
		extend(id, bulkMongo(15, dels))
	}
}
