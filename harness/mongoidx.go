package main

import (
	"context"
	"fmt"
	"math"
	"strings"
	"sync"
	"time"

	"go.mongodb.org/mongo-driver/bson"
	"go.mongodb.org/mongo-driver/bson/primitive"
	"pgregory.net/rapid"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/engine/mongodb"
)

// Indexes of the task collection: those that are documented, those found in the
// database after an instance has opened, and what the one that expires removes.

// docIndex is a documented index.
type docIndex struct {
	key    bson.D
	state  int // of the partial filter, or -1
	ttl    bool
	common string // usual name
}

var docIndexes = []docIndex{
	{bson.D{{Key: "topic", Value: "hashed"}}, -1, false, "topic_hashed"},
	{bson.D{{Key: "topic", Value: int32(1)}, {Key: "scheduled", Value: int32(1)}}, 0, false, "topic_1_scheduled_1"},
	{bson.D{{Key: "deadline", Value: int32(1)}}, 1, false, "deadline_1"},
	{bson.D{{Key: "topic", Value: int32(1)}}, 1, false, "topic_1"},
	{bson.D{{Key: "consumed", Value: int32(1)}}, 2, true, "consumed_1"},
}

func (i *docIndex) spec(name string, ttl int64) bson.D {
	d := bson.D{{Key: "v", Value: int32(2)}, {Key: "key", Value: i.key}, {Key: "name", Value: name}}
	if i.state >= 0 {
		d = append(d, bson.E{Key: "partialFilterExpression", Value: bson.D{{Key: "state", Value: int32(i.state)}}})
	}
	if i.ttl {
		d = append(d, bson.E{Key: "expireAfterSeconds", Value: int32(ttl)})
	}
	return d
}

// priorIndex is an index that the collection has before an instance opens.
type priorIndex struct {
	Doc   int   `json:"doc"`             // documented index, or -1
	TTL   int64 `json:"ttl,omitempty"`   // of the expiring index
	Other int   `json:"other,omitempty"` // which other index
}

// otherIndexes are indexes that have nothing to do with those documented, and
// indexes that are in their way.
var otherIndexes = []struct {
	spec bson.D
	bad  bool
}{
	{bson.D{{Key: "key", Value: bson.D{{Key: "producer", Value: int32(1)}}}, {Key: "name", Value: "producer_1"}}, false},
	{bson.D{{Key: "key", Value: bson.D{{Key: "produced", Value: int32(1)}}}, {Key: "name", Value: "keep"}, {Key: "expireAfterSeconds", Value: int32(2000000000)}}, false},
	{bson.D{{Key: "key", Value: bson.D{{Key: "topic", Value: int32(1)}, {Key: "scheduled", Value: int32(-1)}}}, {Key: "name", Value: "mine"}}, false},
	{bson.D{{Key: "key", Value: bson.D{{Key: "consumed", Value: int32(-1)}}}, {Key: "name", Value: "consumed_-1"}}, false},
	{bson.D{{Key: "key", Value: bson.D{{Key: "topic", Value: int32(1)}}}, {Key: "name", Value: "topic_1"}}, true},
	{bson.D{{Key: "key", Value: bson.D{{Key: "deadline", Value: int32(1)}}}, {Key: "name", Value: "deadline_1"}, {Key: "partialFilterExpression", Value: bson.D{{Key: "state", Value: int32(0)}}}}, true},
	{bson.D{{Key: "key", Value: bson.D{{Key: "topic", Value: int32(1)}, {Key: "scheduled", Value: int32(1)}}}, {Key: "name", Value: "another"}, {Key: "partialFilterExpression", Value: bson.D{{Key: "state", Value: int32(0)}}}}, true},
	{bson.D{{Key: "key", Value: bson.D{{Key: "producer", Value: int32(1)}}}, {Key: "name", Value: "consumed_1"}}, true},
	{bson.D{{Key: "key", Value: bson.D{{Key: "producer", Value: int32(-1)}}}, {Key: "name", Value: "topic_hashed"}}, true},
	{bson.D{{Key: "key", Value: bson.D{{Key: "consumed", Value: int32(1)}}}, {Key: "name", Value: "consumed_1"}, {Key: "partialFilterExpression", Value: bson.D{{Key: "state", Value: int32(2)}}}}, true},
	{bson.D{{Key: "key", Value: bson.D{{Key: "consumed", Value: int32(1)}}}, {Key: "name", Value: "old_ttl"}, {Key: "partialFilterExpression", Value: bson.D{{Key: "state", Value: int32(2)}}}, {Key: "expireAfterSeconds", Value: int32(7)}}, false},
}

// idxOpen is one opening of an instance.
type idxOpen struct {
	Retention int64       `json:"retention"`
	Disabled  bool        `json:"disabled,omitempty"`
	Fault     *mongoFault `json:"fault,omitempty"`
	At        int         `json:"at,omitempty"` // the command that meets the fault
}

type idxCase struct {
	Mongos  bool         `json:"mongos,omitempty"`
	Exists  bool         `json:"exists,omitempty"` // the collection
	Prior   []priorIndex `json:"prior,omitempty"`
	Opens   []idxOpen    `json:"opens"`
	DB      string       `json:"db"`
	Coll    string       `json:"coll"`
	Choices []int        `json:"choices,omitempty"`
}

func genRetention(t *rapid.T) int64 {
	s := int64(time.Second)
	switch weighted(t, "retention", 4, 4, 3, 2, 1) {
	case 0:
		return pick(t, "usual", 72*3600*s, 24*3600*s, 3600*s, 60*s, s, 0)
	case 1:
		return int64(rng(t, 0, 100000, "seconds")) * s
	case 2:
		return pick(t, "odd", s/2, 999*s/1000, 1, 3*s/2, s+1, 60*s-1, 1999999999)
	case 3:
		return int64(rng(t, 1, 60, "years")) * 365 * 24 * 3600 * s
	}
	return pick(t, "limit", math.MaxInt32*s, (math.MaxInt32+1)*s, (math.MaxInt32+2)*s, math.MaxInt64, -s, -72*3600*s, 1<<32*s, 1<<32*s+5*s)
}

func genPrior(t *rapid.T, bad bool) (v []priorIndex) {
	if oneIn(t, 3, "fresh") {
		return nil
	}
	for i := range docIndexes {
		if oneIn(t, 2, "has") {
			v = append(v, priorIndex{Doc: i, TTL: int64(pick(t, "ttl", 0, 1, 3600, 259200, 259200, 100000, math.MaxInt32))})
		}
	}
	if oneIn(t, 3, "others") {
		for i := range otherIndexes {
			if oneIn(t, 4, "other") && (bad || !otherIndexes[i].bad) {
				v = append(v, priorIndex{Doc: -1, Other: i})
			}
		}
	}
	return v
}

func genIdx(t *rapid.T) idxCase {
	c := idxCase{Mongos: oneIn(t, 3, "mongos"), DB: pick(t, "db", "ratus", "db", "Other-1"), Coll: pick(t, "coll", "tasks", "a.b", "x")}
	c.Prior = genPrior(t, true)
	c.Exists = len(c.Prior) > 0 || oneIn(t, 2, "exists")
	c.Opens = seq(t, 2, 4, "opens", func(t *rapid.T) idxOpen {
		o := idxOpen{Retention: genRetention(t), Disabled: oneIn(t, 8, "disabled")}
		if oneIn(t, 4, "fault") {
			o.At = intn(t, 3, "at")
			o.Fault = &mongoFault{Code: pick(t, "code", int32(13), 13, 67, 85, 86, 96, 112, 189, 11601, 26, 27, 72, 50)}
			if oneIn(t, 6, "wc") {
				o.Fault.WC, o.Fault.Code = true, 64
			}
		}
		return o
	})
	return c
}

func genIdxConc(t *rapid.T) idxCase {
	c := idxCase{Mongos: oneIn(t, 3, "mongos"), DB: "ratus", Coll: "tasks"}
	c.Prior = genPrior(t, false)
	c.Exists = len(c.Prior) > 0 || oneIn(t, 2, "exists")
	n := rng(t, 2, 4, "instances")
	r := int64(rng(t, 0, 100000, "seconds")) * int64(time.Second)
	same := oneIn(t, 2, "same")
	for i := 0; i < n; i++ {
		o := idxOpen{Retention: r, Disabled: oneIn(t, 10, "disabled")}
		if !same {
			o.Retention = int64(rng(t, 0, 100000, "seconds")) * int64(time.Second)
		}
		c.Opens = append(c.Opens, o)
	}
	for i := 0; i < 12; i++ {
		c.Choices = append(c.Choices, intn(t, 8, "choice"))
	}
	return c
}

// indexes returns a copy of the indexes of a collection.
func (s *mongoServer) indexes(ns string) (v []bson.D) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if k := s.colls[ns]; k != nil {
		for _, x := range k.indexes {
			v = append(v, copyDoc(x))
		}
	}
	return v
}

func showIndexes(v []bson.D) string {
	var b strings.Builder
	for _, x := range v {
		fmt.Fprintf(&b, "\n    %s", extJSON(x))
	}
	return b.String()
}

// prepare creates the collection with indexes. It returns whether one of them
// is in the way of a documented one.
func (c *idxCase) prepare(s *mongoServer) (bad bool) {
	if !c.Exists {
		return false
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	k := s.create(c.DB + "." + c.Coll)
	add := func(x bson.D) {
		for _, y := range k.indexes {
			if equal(get(x, "key"), get(y, "key")) || equal(get(x, "name"), get(y, "name")) {
				return
			}
		}
		k.indexes = append(k.indexes, x)
	}
	for _, p := range c.Prior {
		if p.Doc >= 0 {
			i := docIndexes[p.Doc]
			add(i.spec(i.common, p.TTL))
			continue
		}
		add(append(bson.D{{Key: "v", Value: int32(2)}}, otherIndexes[p.Other].spec...))
	}
	for _, x := range k.indexes {
		for _, o := range otherIndexes {
			bad = bad || o.bad && equal(get(x, "name"), get(o.spec, "name")) && equal(get(x, "key"), get(o.spec, "key")) && equal(indexOptions(x), indexOptions(o.spec))
		}
	}
	return bad
}

// seconds returns the whole seconds around a duration.
func seconds(d int64) (lo, hi int64) {
	lo = int64(math.Floor(float64(d) / 1e9))
	if d%1e9 == 0 {
		return d / 1e9, d / 1e9
	}
	if d > 0 {
		lo = d / 1e9
	}
	return lo, lo + 1
}

// diff returns how the indexes deviate from what is documented, given those
// that were there before.
func indexDiff(before, now []bson.D, ttl func(v int64) bool) string {
	rest := append([]bson.D{}, now...)
	take := func(f func(x bson.D) bool) bson.D {
		for i, x := range rest {
			if f(x) {
				rest = append(append([]bson.D{}, rest[:i]...), rest[i+1:]...)
				return x
			}
		}
		return nil
	}
	for _, i := range docIndexes {
		x := take(func(x bson.D) bool { return equal(get(x, "key"), i.key) })
		if x == nil {
			return "there is no index on " + extJSON(i.key)
		}
		w := i.spec("", 0)
		for _, e := range x {
			switch e.Key {
			case "v", "key", "name", "background":
			case "partialFilterExpression":
				if !equal(e.Value, get(w, e.Key)) {
					return "the filter is wrong: " + extJSON(x)
				}
			case "expireAfterSeconds":
				if !i.ttl {
					return "the index must not expire documents: " + extJSON(x)
				}
				if !ttl(int64(num(e.Value))) {
					return "the retention period is wrong: " + extJSON(x)
				}
			case "unique", "sparse":
				if truth(e.Value) {
					return "the index has an option of its own: " + extJSON(x)
				}
			default:
				return "the index has an option of its own: " + extJSON(x)
			}
		}
		for _, e := range w {
			if !has(x, e.Key) {
				return fmt.Sprintf("the index has no %s: %s", e.Key, extJSON(x))
			}
		}
	}
	return lostIndex(before, now, rest)
}

// lostIndex returns whether indexes other than those documented were changed.
// With rest it also reports new ones.
func lostIndex(before, now, rest []bson.D) string {
	for _, b := range before {
		doc := false
		for _, i := range docIndexes {
			doc = doc || equal(get(b, "key"), i.key)
		}
		found := false
		for _, x := range now {
			if doc && equal(get(b, "key"), get(x, "key")) && equal(get(b, "name"), get(x, "name")) {
				found = true
			}
			found = found || equal(b, x)
		}
		if !found {
			return "an index was changed or removed: " + extJSON(b)
		}
	}
	for _, x := range rest {
		old := equal(get(x, "name"), "_id_")
		for _, b := range before {
			old = old || equal(b, x)
		}
		if !old {
			return "there is an index that is not documented: " + extJSON(x)
		}
	}
	return ""
}

// openAs opens an instance for the collection of the case.
func (c *idxCase) openAs(x *X, s *mongoServer, o idxOpen, app string) (*mongodb.Engine, error) {
	g, err := mongodb.New(&mongodb.Config{URI: s.uri(app), Database: c.DB, Collection: c.Coll, RetentionPeriod: time.Duration(o.Retention), DisableIndexCreation: o.Disabled})
	if err != nil {
		x.Failp("new", "creating the engine failed: %v", err)
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
	defer cancel()
	err = g.Open(ctx)
	ctx, stop := context.WithTimeout(context.Background(), time.Minute)
	defer stop()
	if e := g.Close(ctx); e != nil && err == nil {
		x.Failp("close", "closing the engine failed: %v", e)
	}
	return g, err
}

func runIdx(x *X, c idxCase) {
	s := mongoDB(x, mongoCfg{Mongos: c.Mongos})
	ns := c.DB + "." + c.Coll
	bad := c.prepare(s)
	if bad {
		x.Class("conflicting")
	}
	interesting := 0
	for n, o := range c.Opens {
		before := s.indexes(ns)
		cmds, faults, spared := 0, 0, 0
		s.mu.Lock()
		s.arrive = func(m *mongoCmd) *mongoFault {
			s.mu.Lock()
			defer s.mu.Unlock()
			cmds++
			if m.db != c.DB || m.coll != c.Coll {
				x.Class("elsewhere")
			}
			if o.Fault != nil && cmds-1 == o.At {
				if o.Fault.WC && m.name == "collMod" {
					return nil // the driver ignores it for commands it does not know
				}
				faults++
				if o.Fault.WC && len(before) > 0 || o.Fault.Code == 85 && m.name == "createIndexes" && len(listOf(get(m.body, "indexes"))) == 1 {
					spared++
				}
				f := *o.Fault
				x.Class("fault:%s", m.name)
				return &f
			}
			return nil
		}
		s.mu.Unlock()
		_, err := c.openAs(x, s, o, fmt.Sprintf("i%d", n))
		s.gone()
		s.mu.Lock()
		s.arrive = nil
		s.mu.Unlock()
		now := s.indexes(ns)
		what := fmt.Sprintf("opening %d with retention %s, disabled %v: error %v\n  before:%s\n  after:%s\n  %s", n, time.Duration(o.Retention), o.Disabled, err, showIndexes(before), showIndexes(now), s.recent(12))
		if o.Disabled {
			x.Class("disabled")
			if err != nil || cmds > 0 || !sameIndexes(before, now) {
				x.Failp("disabled", "index creation is disabled, but it sent %d commands: %s", cmds, what)
			}
			continue
		}
		lo, hi := seconds(o.Retention)
		fits := func(v int64) bool { return v >= lo && v <= hi }
		possible := hi >= 0 && lo <= math.MaxInt32
		if err == nil {
			x.Class("opened")
			if faults > spared {
				x.Failp("hidden", "an index command failed, but opening succeeded: %s", what)
			}
			if d := indexDiff(before, now, fits); d != "" {
				x.Failp("indexes", "%s: %s", d, what)
			}
			if !sameIndexes(before, now) || len(before) > 1 {
				interesting++
			}
			continue
		}
		x.Class("failed")
		interesting++
		if faults == 0 && !bad && possible && !(lo < 0) && !(hi > math.MaxInt32) {
			x.Failp("refused", "nothing is in the way: %s", what)
		}
		if d := lostIndex(before, now, nil); d != "" {
			x.Failp("lost", "%s: %s", d, what)
		}
		// The indexes that were created are none but those documented.
		for _, y := range now {
			ok := equal(get(y, "name"), "_id_")
			for _, b := range before {
				ok = ok || equal(get(b, "key"), get(y, "key"))
			}
			for _, i := range docIndexes {
				w := i.spec("", 0)
				ok = ok || equal(get(y, "key"), i.key) && equal(get(y, "partialFilterExpression"), get(w, "partialFilterExpression")) && has(y, "expireAfterSeconds") == i.ttl && (!i.ttl || fits(int64(num(get(y, "expireAfterSeconds")))))
			}
			if !ok {
				x.Failp("partial", "an index was created that is not documented: %s: %s", extJSON(y), what)
			}
		}
	}
	if interesting >= 2 || interesting == 1 && len(c.Prior) > 0 {
		x.NonTrivial()
	}
}

func sameIndexes(a, b []bson.D) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !equal(a[i], b[i]) {
			return false
		}
	}
	return true
}

// runIdxConc opens instances at the same time, in a generated order of their
// commands.
func runIdxConc(x *X, c idxCase) {
	s := mongoDB(x, mongoCfg{Mongos: c.Mongos})
	ns := c.DB + "." + c.Coll
	c.prepare(s)
	before := s.indexes(ns)
	var mu sync.Mutex
	var waiting []chan struct{}
	var order []string
	var who []string
	event := make(chan bool, 256)
	s.mu.Lock()
	s.arrive = func(m *mongoCmd) *mongoFault {
		ch := make(chan struct{})
		mu.Lock()
		waiting = append(waiting, ch)
		who = append(who, m.app+":"+m.name)
		mu.Unlock()
		event <- false
		<-ch
		return nil
	}
	s.mu.Unlock()
	errs := make([]error, len(c.Opens))
	active, all := len(c.Opens), 0
	for _, o := range c.Opens {
		if !o.Disabled {
			all++
		}
	}
	var faults []any
	for i, o := range c.Opens {
		i, o := i, o
		go func() {
			defer func() {
				if e := recover(); e != nil {
					mu.Lock()
					faults = append(faults, e)
					mu.Unlock()
				}
				event <- true
			}()
			_, errs[i] = c.openAs(&X{}, s, o, fmt.Sprintf("i%d", i))
		}()
	}
	pos, overlap := 0, 0
	start := time.Now()
	for active > 0 {
		quiet := 2 * time.Millisecond
		mu.Lock()
		if len(waiting) == 0 {
			quiet = time.Second
		}
		if len(waiting) == 2*all {
			quiet = 0
		}
		mu.Unlock()
		select {
		case done := <-event:
			if done {
				active--
			}
			continue
		case <-time.After(quiet):
		}
		if time.Since(start) > time.Minute {
			x.Failp("stuck", "opening does not end: %s", s.recent(20))
		}
		mu.Lock()
		if n := len(waiting); n > 0 {
			k := 0
			if pos < len(c.Choices) {
				k = c.Choices[pos] % n
			}
			pos++
			if n > 1 {
				overlap++
			}
			close(waiting[k])
			order = append(order, who[k])
			waiting = append(append([]chan struct{}{}, waiting[:k]...), waiting[k+1:]...)
			who = append(append([]string{}, who[:k]...), who[k+1:]...)
		}
		mu.Unlock()
	}
	s.gone()
	s.mu.Lock()
	s.arrive = nil
	s.mu.Unlock()
	if len(faults) > 0 {
		panic(faults[0])
	}
	now := s.indexes(ns)
	what := fmt.Sprintf("%v\n  before:%s\n  after:%s\n  %s", order, showIndexes(before), showIndexes(now), s.recent(24))
	enabled := 0
	for i, o := range c.Opens {
		if errs[i] != nil {
			x.Failp("refused", "opening instance %d with retention %s failed: %v: %s", i, time.Duration(o.Retention), errs[i], what)
		}
		if !o.Disabled {
			enabled++
		}
	}
	if enabled == 0 {
		if !sameIndexes(before, now) {
			x.Failp("disabled", "index creation is disabled: %s", what)
		}
		return
	}
	if d := indexDiff(before, now, func(v int64) bool {
		for _, o := range c.Opens {
			if !o.Disabled && v == o.Retention/1e9 {
				return true
			}
		}
		return false
	}); d != "" {
		x.Failp("indexes", "%s: %s", d, what)
	}
	if overlap > 0 && enabled > 1 {
		x.NonTrivial()
	}
}

// ---- expiration ----

type ttlCase struct {
	History
	Every int   `json:"every"`         // operations between the passes
	Ahead []int `json:"ahead"`         // of the passes, in milliseconds
	Again int64 `json:"again"`         // retention of an instance that opens later
	At    int   `json:"at,omitempty"`  // when it does
	Old   []int `json:"old,omitempty"` // how long ago tasks were consumed, in ms before the retention period
}

func genTTL(t *rapid.T) ttlCase {
	c := ttlCase{History: genHistory(t, &Profile{AnyState: true, NTopics: 2, NIDs: 6, Time: genNear, MaxOps: 24, Weights: with(opUpsert, 14, opUpserts, 6, opCommit, 14)})}
	c.Retention = int64(pick(t, "retention", 0, 1, 2, 3, 60, 3600)) * int64(time.Second)
	if oneIn(t, 4, "fraction") {
		c.Retention += int64(rng(t, 1, 999, "ms")) * int64(time.Millisecond)
	}
	c.Every = rng(t, 1, 5, "every")
	for i := 0; i < 5; i++ {
		c.Ahead = append(c.Ahead, pick(t, "ahead", 0, 0, 1, 999, 1000, 1001, 2000, 5000, 60000, 3600000))
	}
	c.Again = int64(pick(t, "again", 0, 1, 2, 60, 7200)) * int64(time.Second)
	c.At = intn(t, 30, "at")
	return c
}

func runTTL(x *X, c ttlCase) {
	s := mongoDB(x, mongoCfg{})
	g := openMongo(x, s, mongoSetup{}, "main", time.Duration(c.Retention))
	mode := &Mode{Millis: true, Retention: -1, DupBatch: true}
	d := newDriver(x, mode, &engineExec{g: g})
	d.names(c.History)
	d.quiet = true
	d.aud = &storeExec{s}
	d.fixup = func(call *Call) {
		if call.Op.Limit == 0 {
			call.Op.Limit = 1
		}
	}
	retention := c.Retention
	pass, removed, kept := 0, 0, 0
	for i, o := range c.Ops {
		if i == c.At {
			retention = c.Again
			openMongo(x, s, mongoSetup{}, "again", time.Duration(retention))
		}
		d.step(o)
		if (i+1)%c.Every != 0 {
			continue
		}
		now := d.clk.Now().Add(time.Duration(c.Ahead[pass%len(c.Ahead)]) * time.Millisecond)
		pass++
		before := s.tasks()
		s.expire("db.tasks", now)
		after := s.tasks()
		lo, hi := seconds(retention)
		for id, t := range before {
			gone := after[id] == nil
			old := func(sec int64) bool {
				return t.State == ratus.TaskStateCompleted && t.Consumed != nil && primitive.NewDateTimeFromTime(*t.Consumed) <= primitive.NewDateTimeFromTime(now.Add(-time.Duration(sec)*time.Second))
			}
			switch {
			case gone && !old(lo):
				d.fail(div("expired", "C32", "with a retention period of %s, the task was deleted at %s: %s", time.Duration(retention), now.Format(time.RFC3339Nano), show(t)))
			case !gone && old(hi):
				d.fail(div("retained", "C32", "with a retention period of %s, the task was not deleted at %s: %s", time.Duration(retention), now.Format(time.RFC3339Nano), show(t)))
			case gone:
				removed++
			default:
				kept++
			}
		}
		d.state.Tasks = after
	}
	if removed > 0 && kept > 0 {
		x.NonTrivial()
	}
	x.classes["expired"] += int64(removed)
}

func init() {
	register(&Check{ID: "C32", Workers: 16, Parts: []Part{
		&prop[idxCase]{name: "open", quick: 6000, thorough: 250000,
			rule: "one to four openings with random retention periods on a database with random indexes of earlier instances, of others, and in the way, and with errors of any index command; the indexes compared with the documented ones after every opening; non-trivial: two openings created, changed or found indexes, or failed",
			gen:  genIdx, run: runIdx},
		&prop[idxCase]{name: "together", quick: 1500, thorough: 40000,
			rule: "two to four instances that open at the same time, with a server that lets generated choices decide the order of their commands: all must succeed and the indexes be the documented ones with the retention period of one of them; non-trivial: commands of two instances waited at the same time",
			gen:  genIdxConc, run: runIdxConc},
		&prop[ttlCase]{name: "expiry", quick: 3000, thorough: 120000,
			rule: "random histories on random retention periods with passes of the database's expiration in between, and an instance that opens with another period: exactly the completed tasks consumed longer ago disappear; non-trivial: tasks disappeared and tasks stayed",
			gen:  genTTL, run: runTTL},
	}})
}
