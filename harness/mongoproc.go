package main

import (
	"context"
	"errors"
	"fmt"
	"net"
	"net/http"
	"regexp"
	"strconv"
	"strings"
	"syscall"
	"time"

	"pgregory.net/rapid"

	"github.com/hyperonym/ratus"
)

// ---- settings of instances with the MongoDB engine (C30) ----

type mongoProcCase struct {
	Set    []setting `json:"set"`
	URI    string    `json:"uri"`    // how it is set
	Engine setting   `json:"engine"` // how it is set
	Shard  bool      `json:"shard,omitempty"`
	Outage bool      `json:"outage,omitempty"`
}

var mongoSettingValues = []struct {
	name string
	v    []string
}{
	{"mongodb-database", []string{"ratus", "x", "Queue-2", "tasks"}},
	{"mongodb-collection", []string{"tasks", "y", "a.b", "ratus"}},
	{"mongodb-retention-period", []string{"72h", "1h", "90s", "0s", "1h30m", "2m0.5s"}},
	{"mongodb-disable-index-creation", []string{"true", "false"}},
	{"mongodb-disable-auto-fallback", []string{"true", "false"}},
	{"mongodb-disable-atomic-poll", []string{"true", "false"}},
	{"chore-interval", []string{"0s", "60ms", "1h"}},
	{"memdb-retention-period", []string{"7s"}},
	{"memdb-snapshot-path", []string{"snap"}},
}

func genMongoProc(t *rapid.T) mongoProcCase {
	c := mongoProcCase{URI: pick(t, "uri", "flag", "flag2", "env", "both"), Shard: oneIn(t, 2, "shard"), Outage: oneIn(t, 3, "outage")}
	c.Engine = setting{Name: "engine", V: pick(t, "name", "mongodb", "MongoDB", "MONGODB"), How: pick(t, "ehow", "flag", "flag2", "env", "both"), Decoy: "memdb"}
	for _, s := range mongoSettingValues {
		if oneIn(t, 2, s.name) {
			continue
		}
		v := setting{Name: s.name, V: pick(t, "value", s.v...), How: pick(t, "how", "flag", "flag2", "env", "both")}
		if v.How == "both" {
			v.Decoy = pick(t, "decoy", s.v...)
		}
		if v.V == "false" && v.How != "env" {
			v.How = "env"
		}
		c.Set = append(c.Set, v)
	}
	return c
}

func runMongoProc(x *X, c mongoProcCase) {
	dir := caseDir(x)
	cfg := mongoCfg{}
	if c.Shard {
		cfg = mongoCfg{Mongos: true, ShardKey: []string{"_id"}, Code: 61}
	}
	s := mongoDB(x, cfg)
	eff := map[string]string{"mongodb-database": "ratus", "mongodb-collection": "tasks", "mongodb-retention-period": "72h", "chore-interval": "10s"}
	var args, env []string
	for i := range c.Set {
		c.Set[i].apply(&args, &env)
		eff[c.Set[i].Name] = c.Set[i].V
	}
	c.Engine.apply(&args, &env)
	sel := "serverSelectionTimeoutMS=25000"
	if c.Outage {
		sel = "serverSelectionTimeoutMS=900"
	}
	(&setting{Name: "mongodb-uri", How: c.URI, V: s.uri("p", sel), Decoy: "mongodb://127.0.0.1:1"}).apply(&args, &env)
	ip, port := newIP(x), newPort(x)
	args = append(args, "--bind="+ip, fmt.Sprintf("--port=%d", port))
	ns := eff["mongodb-database"] + "." + eff["mongodb-collection"]
	noIndex, noAuto, noAtomic := eff["mongodb-disable-index-creation"] == "true", eff["mongodb-disable-auto-fallback"] == "true", eff["mongodb-disable-atomic-poll"] == "true"
	if noIndex {
		// Somebody else has created them.
		ic := idxCase{Exists: true, DB: eff["mongodb-database"], Coll: eff["mongodb-collection"]}
		for i := range docIndexes {
			ic.Prior = append(ic.Prior, priorIndex{Doc: i, TTL: 12345})
		}
		ic.prepare(s)
	}
	before := s.indexes(ns)
	addr := net.JoinHostPort(ip, strconv.Itoa(port))
	p := spawn(x, dir, args, env)
	what := fmt.Sprintf("an instance with %q %q", args, env)
	up := p.up(addr, procLimit)
	for i := 0; i < 5 && !up && c.Outage && !p.running() && strings.Contains(p.log(), "server selection"); i++ {
		// A busy machine may need more than the short timeout.
		p = spawn(x, dir, args, env)
		up = p.up(addr, procLimit)
	}
	if !up {
		x.Failp("up", "%s does not serve %s: running %v, output %s\n  %s", what, addr, p.running(), p.log(), s.recent(10))
	}
	now := s.indexes(ns)
	s.mu.Lock()
	for k := range s.colls {
		if k != ns {
			s.mu.Unlock()
			x.Failp("collection", "%s uses the collection %s", what, k)
		}
	}
	s.mu.Unlock()
	if noIndex {
		if !sameIndexes(before, now) {
			x.Failp("indexes", "%s has changed the indexes to%s", what, showIndexes(now))
		}
	} else {
		d, err := time.ParseDuration(eff["mongodb-retention-period"])
		Must(err)
		lo, hi := seconds(int64(d))
		if w := indexDiff(before, now, func(v int64) bool { return v >= lo && v <= hi }); w != "" {
			x.Failp("indexes", "%s: %s", what, w)
		}
	}
	w := &watched{addr, &http.Client{Transport: &http.Transport{MaxIdleConnsPerHost: 2}, Timeout: procLimit}}
	defer w.hc.CloseIdleConnections()
	cl := newClient("http://"+addr, nil)
	ctx := context.Background()
	past := ptr(time.Now().Add(-time.Hour).Truncate(time.Millisecond))
	tasks := []*ratus.Task{{ID: "a", Topic: "t", Scheduled: past, Produced: past, Payload: map[string]any{"k": []any{1.0, nil}}}, {ID: "b", Topic: "t", Scheduled: ptr(time.Now().Add(time.Hour))},
		{ID: "late", Topic: "u", State: ratus.TaskStateActive, Nonce: "n", Scheduled: past, Consumed: past, Deadline: past}}
	if u, err := cl.InsertTasks(ctx, tasks); err != nil || u.Created != 3 {
		x.Failp("insert", "%s: inserting tasks gave %v, %v\n  %s", what, u, err, s.recent(10))
	}
	if n := len(s.tasksOf(ns)); n != 3 {
		x.Failp("stored", "%s has stored %d tasks of 3", what, n)
	}
	// A poll that the deployment refuses tells the modes apart.
	t, err := cl.PostPromises(ctx, "t", &ratus.Promise{Consumer: "me"})
	s.mu.Lock()
	refused := s.refused
	s.mu.Unlock()
	switch {
	case c.Shard && noAuto && !noAtomic:
		if err == nil || errors.Is(err, ratus.ErrNotFound) {
			x.Failp("fallback", "%s: polling gave %s, %v on a deployment that refuses it", what, show(t), err)
		}
		x.Class("poll refused")
	default:
		if err != nil || t.ID != "a" || !payloadEq(t.Payload, tasks[0].Payload) {
			x.Failp("poll", "%s: polling gave %s, %v\n  %s", what, show(t), err, s.recent(10))
		}
		if noAtomic && refused > 0 {
			x.Failp("atomic", "%s: polls atomically\n  %s", what, s.recent(10))
		}
		x.Class("poll: refused %d", refused)
		if v := s.tasksOf(ns)["a"]; v == nil || v.State != ratus.TaskStateActive || v.Nonce != t.Nonce {
			x.Failp("poll", "%s: the polled task is stored as %s", what, show(v))
		}
	}
	// Background jobs.
	switch eff["chore-interval"] {
	case "60ms":
		for end := time.Now().Add(procLimit); ; time.Sleep(5 * time.Millisecond) {
			if v := s.tasksOf(ns)["late"]; v == nil {
				x.Failp("jobs", "%s has removed a task", what)
			} else if v.State == ratus.TaskStatePending {
				break
			}
			if time.Now().After(end) {
				x.Failp("jobs", "%s does not recover tasks; output %s", what, p.log())
			}
		}
		x.Class("recovered")
	case "0s":
		if v := s.tasksOf(ns)["late"]; v == nil || v.State != ratus.TaskStateActive {
			x.Failp("jobs", "%s has changed the task to %s", what, show(v))
		}
	}
	if c.Outage {
		// The database goes away and comes back.
		ready := func() int { n, _ := w.get(x, "/readyz"); return n }
		if n := ready(); n != 200 {
			x.Failp("ready", "%s is not ready: %d", what, n)
		}
		s.stop()
		for i := 0; i < 2; i++ {
			if n := ready(); n != 503 {
				x.Failp("ready", "%s answers the readiness probe with %d without its database", what, n)
			}
			if n, _ := w.get(x, "/livez"); n != 200 {
				x.Failp("live", "%s answers the liveness probe with %d without its database", what, n)
			}
			if n, b := w.get(x, "/topics/t"); n < 500 {
				x.Failp("outage", "%s answers a request with %d without its database: %s", what, n, b)
			}
		}
		s.listen()
		for end := time.Now().Add(procLimit); ready() != 200; time.Sleep(20 * time.Millisecond) {
			if time.Now().After(end) {
				x.Failp("ready", "%s is not ready although its database is back; output %s", what, p.log())
			}
		}
		if v, err := cl.GetTask(ctx, "b"); err != nil || v.Topic != "t" {
			x.Failp("outage", "%s does not work after its database came back: %s, %v", what, show(v), err)
		}
		x.Class("outage")
	}
	if !p.running() {
		x.Failp("ended", "%s ended by itself: %v, output %s", what, p.cmd.ProcessState, p.log())
	}
	w.hc.CloseIdleConnections()
	p.cmd.Process.Signal(syscall.SIGTERM)
	if _, ok := p.exit(procLimit); !ok {
		x.Fail("lingers", []string{"C15", "C30"}, "%s did not exit after a signal; output %s", what, p.log())
	}
	if !p.cmd.ProcessState.Success() {
		x.Fail("status", []string{"C15", "C30"}, "%s exited with %v after a signal; output %s", what, p.cmd.ProcessState, p.log())
	}
	if len(c.Set) > 1 {
		x.NonTrivial()
	}
}

// ---- health of instances with the MongoDB engine (C31) ----

type mongoHealthCase struct {
	Mongos  bool     `json:"mongos,omitempty"`
	Replica bool     `json:"replica,omitempty"`
	Steps   []string `json:"steps"` // up, down, broken, slow, second, op
}

func genMongoHealth(t *rapid.T) mongoHealthCase {
	c := mongoHealthCase{Mongos: oneIn(t, 3, "mongos")}
	kinds := []string{"up", "up", "down", "down", "broken", "op", "slow"}
	if c.Replica = !c.Mongos && oneIn(t, 2, "replica"); c.Replica {
		kinds = append(kinds, "second", "second")
	}
	c.Steps = seq(t, 5, 9, "steps", func(t *rapid.T) string { return pick(t, "step", kinds...) })
	return c
}

func runMongoHealth(x *X, c mongoHealthCase) {
	s := mongoDB(x, mongoCfg{Mongos: c.Mongos, Replica: c.Replica})
	opts := []string{"serverSelectionTimeoutMS=150", "connectTimeoutMS=20000"}
	if c.Replica {
		opts = append(opts, "replicaSet=rs", "heartbeatFrequencyMS=500")
	}
	g := openMongo(x, s, mongoSetup{}, "main", time.Hour, opts...)
	a := newAPI(1000, 10000)
	a.use(x, g, nil)
	up := true
	x.Defer(func() {
		if !up {
			s.listen()
		}
	})
	probe := func(i int, path string) *Resp {
		p := a.do(x, &Req{Method: "GET", Target: path})
		if strings.HasSuffix(path, "readyz") {
			if p.Status != 200 {
				if code, _, ok := errBody(p); !ok || code != p.Status || p.Status != 503 {
					x.Failp("readiness", "step %d: no JSON error with the status 503: %s", i, p)
				}
			}
		} else if p.Status != 200 {
			x.Failp("liveness", "step %d (%s): %s: %s", i, c.Steps, path, p)
		}
		return p
	}
	paths := []string{"/readyz", "/v1/readyz", "/readyz"}
	live := []string{"/livez", "/v1/livez", "/healthz", "/v1/healthz"}
	back := func(i int, why string) {
		for end := time.Now().Add(30 * time.Second); probe(i, "/readyz").Status != 200; time.Sleep(5 * time.Millisecond) {
			if time.Now().After(end) {
				x.Failp("readiness", "step %d of %s: not ready %s", i, c.Steps, why)
			}
		}
	}
	// An instance whose database is up must be ready at once, unless the probe took so long that the driver
	// of a busy machine lost sight of the server: then it must be ready soon.
	steady := func(i int) {
		start := time.Now()
		if p := probe(i, paths[i%3]); p.Status != 200 {
			if time.Since(start) < 100*time.Millisecond {
				x.Failp("readiness", "step %d of %s: not ready: %s", i, c.Steps, p)
			}
			x.Class("not ready after a long probe")
			back(i, "although the database is there")
		}
	}
	changes := 0
	for i, st := range c.Steps {
		if !up && st != "up" && st != "down" || st == "second" && !c.Replica {
			st = "op"
		}
		switch st {
		case "up":
			if !up {
				s.listen()
				up = true
				changes++
				back(i, "although the database is back")
			}
			steady(i)
		case "down":
			if up {
				s.stop()
				up = false
				changes++
			}
			if p := probe(i, paths[i%3]); p.Status == 200 {
				x.Failp("readiness", "step %d of %s: ready without the database: %s", i, c.Steps, p)
			}
		case "broken":
			// The database answers, but with an error.
			s.mu.Lock()
			s.arrive = func(m *mongoCmd) *mongoFault {
				if m.name == "ping" {
					return &mongoFault{Code: 13}
				}
				return nil
			}
			s.mu.Unlock()
			p := probe(i, paths[i%3])
			s.mu.Lock()
			s.arrive = nil
			s.mu.Unlock()
			if p.Status == 200 {
				x.Failp("readiness", "step %d of %s: ready although the database refuses: %s", i, c.Steps, p)
			}
			changes++
			back(i, "although the database no longer refuses")
		case "second":
			// The primary steps down, so that only reads that ask for it are possible.
			s.step(true)
			if p := a.do(x, &Req{Method: "POST", Target: "/topics/t/promises", Body: ptr("{}")}); p.Status < 500 {
				x.Fail("op", []string{"C19", "C26", "C31"}, "step %d of %s: polling without a primary was answered with %s", i, c.Steps, p)
			}
			for end := time.Now().Add(30 * time.Second); probe(i, paths[i%3]).Status == 200; time.Sleep(5 * time.Millisecond) {
				if time.Now().After(end) {
					x.Failp("readiness", "step %d of %s: ready without a primary", i, c.Steps)
				}
			}
			// Without it, whether or not the client has seen what became of the server.
			for end, seen := time.Now().Add(30*time.Second), false; ; time.Sleep(10 * time.Millisecond) {
				s.mu.Lock()
				told := s.told > 0
				s.mu.Unlock()
				if p := probe(i, "/readyz"); p.Status == 200 {
					x.Failp("readiness", "step %d of %s: ready again without a primary: %s", i, c.Steps, p)
				}
				if told && seen {
					break
				}
				if seen = told; time.Now().After(end) {
					bug("the client never asked for the state of the server")
				}
			}
			probe(i, live[i%4])
			s.step(false)
			changes++
			back(i, "although the primary is back")
			steady(i)
		case "slow":
			s.mu.Lock()
			s.arrive = func(m *mongoCmd) *mongoFault { time.Sleep(20 * time.Millisecond); return nil }
			s.mu.Unlock()
			steady(i)
			s.mu.Lock()
			s.arrive = nil
			s.mu.Unlock()
		case "op":
			p := a.do(x, &Req{Method: "GET", Target: "/topics"})
			for end := time.Now().Add(30 * time.Second); up && p.Status != 200 && strings.Contains(string(p.Body), "server selection") && time.Now().Before(end); {
				p = a.do(x, &Req{Method: "GET", Target: "/topics"})
			}
			if up && p.Status != 200 || !up && p.Status < 500 {
				x.Fail("op", []string{"C19", "C26", "C31"}, "step %d of %s: a listing with the database up: %v was answered with %s", i, c.Steps, up, p)
			}
		}
		probe(i, live[i%4])
		x.Class("%s:%v", st, up)
	}
	if changes >= 2 {
		x.NonTrivial()
	}
}

// ---- pace of background jobs (C30) ----

type paceCase struct {
	Interval int   `json:"interval"`         // in milliseconds
	Delay    int   `json:"delay"`            // in milliseconds
	Random   bool  `json:"random,omitempty"` // random initial delay
	Busy     int   `json:"busy,omitempty"`   // milliseconds that each run takes
	Fail     []int `json:"fail,omitempty"`   // runs that fail
	Env      bool  `json:"env,omitempty"`
}

func genPace(t *rapid.T) paceCase {
	c := paceCase{Interval: pick(t, "interval", 100, 150, 250, 400), Delay: pick(t, "delay", 0, 0, 300, 700, 1500), Random: oneIn(t, 4, "random"), Env: rapid.Bool().Draw(t, "env")}
	if oneIn(t, 3, "busy") {
		c.Busy = pick(t, "ms", 20, 60, 350)
	}
	for i := 0; i < 6; i++ {
		if oneIn(t, 5, "fail") {
			c.Fail = append(c.Fail, i)
		}
	}
	return c
}

// paceOnce observes the runs of one process. It returns what looks too slow,
// which may be the machine's fault.
func paceOnce(x *X, c paceCase) string {
	dir := caseDir(x)
	s := mongoDB(x, mongoCfg{})
	type run struct{ from, to time.Time }
	var runs []run
	open := 0
	s.mu.Lock()
	s.arrive = func(m *mongoCmd) *mongoFault {
		if m.name != "update" {
			return nil
		}
		s.mu.Lock()
		i := len(runs)
		runs = append(runs, run{from: time.Now()})
		open++
		if open > 1 {
			runs[i].to = time.Time{}.Add(1) // overlap
		}
		s.mu.Unlock()
		time.Sleep(time.Duration(c.Busy) * time.Millisecond)
		s.mu.Lock()
		open--
		if runs[i].to.IsZero() {
			runs[i].to = time.Now()
		}
		s.mu.Unlock()
		for _, f := range c.Fail {
			if f == i {
				return &mongoFault{Before: true, Code: 8000}
			}
		}
		return nil
	}
	s.mu.Unlock()
	interval, delay, busy := time.Duration(c.Interval)*time.Millisecond, time.Duration(c.Delay)*time.Millisecond, time.Duration(c.Busy)*time.Millisecond
	args := []string{"--engine=mongodb", "--port=0", "--mongodb-uri=" + s.uri("p")}
	var env []string
	if c.Env {
		env = []string{"CHORE_INTERVAL=" + interval.String(), "CHORE_INITIAL_DELAY=" + delay.String()}
	} else {
		args = append(args, "--chore-interval="+interval.String(), "--chore-initial-delay="+delay.String())
	}
	if c.Random && c.Env {
		env = append(env, "CHORE_INITIAL_RANDOM=true")
	} else if c.Random {
		args = append(args, "--chore-initial-random")
	}
	p := spawn(x, dir, args, env)
	what := fmt.Sprintf("an instance with %q %q", args, env)
	const n = 9
	get := func() []run {
		s.mu.Lock()
		defer s.mu.Unlock()
		return append([]run(nil), runs...)
	}
	for end := time.Now().Add(procLimit + delay); len(get()) < n; time.Sleep(5 * time.Millisecond) {
		if !p.running() {
			x.Failp("ended", "%s ended by itself: %v, output %s", what, p.cmd.ProcessState, p.log())
		}
		if time.Now().After(end) {
			x.Failp("jobs", "%s ran background jobs %d times in %v; output %s", what, len(get()), time.Since(p.start), p.log())
		}
	}
	v := get()[:n]
	times := func() (o string) {
		for _, r := range v {
			o += fmt.Sprint(" ", r.from.Sub(p.start).Round(time.Millisecond))
		}
		return
	}
	for _, r := range v {
		if r.to.Equal(time.Time{}.Add(1)) {
			x.Failp("overlap", "%s ran background jobs twice at the same time: runs at%s", what, times())
		}
	}
	first := v[0].from.Sub(p.start)
	if !c.Random && first < delay {
		x.Failp("delay", "%s ran background jobs after %v", what, first)
	}
	// The arrivals of two runs may be closer than the interval, but a majority
	// that is by far is no chance.
	short, least := 0, time.Hour
	for i := 1; i < n; i++ {
		d := v[i].from.Sub(v[i-1].from)
		if d < interval*2/3 {
			short++
		}
		least = min(least, d)
	}
	if short > (n-1)/2 {
		x.Failp("often", "%s ran background jobs more often than configured: at%s", what, times())
	}
	p.cmd.Process.Signal(syscall.SIGTERM)
	if code, ok := p.exit(procLimit); !ok || code != 0 {
		x.Failp("status", "%s ended with %v after a signal; output %s", what, p.cmd.ProcessState, p.log())
	}
	k := len(get())
	p.kill()
	if len(get()) != k {
		bug("runs after the end")
	}
	if first > delay+delay/2+500*time.Millisecond {
		return fmt.Sprintf("%s ran background jobs only after %v: at%s", what, first, times())
	}
	if least > max(interval*3/2, busy+interval*2/3) {
		return fmt.Sprintf("%s ran background jobs less often than configured (each run took %v): at%s", what, busy, times())
	}
	return ""
}

func runPace(x *X, c paceCase) {
	var m string
	for i := 0; i < 4; i++ {
		if m = paceOnce(x, c); m == "" {
			break
		}
		x.Class("too slow")
	}
	if m != "" {
		x.Failp("seldom", "four times, %s", m)
	}
	x.Class("busy:%v failing:%v random:%v", c.Busy > 0, len(c.Fail) > 0, c.Random)
	x.NonTrivial()
}

// ---- metrics of background jobs (C25) ----

type choreMetCase struct {
	Interval int   `json:"interval"` // in milliseconds
	Busy     []int `json:"busy"`     // milliseconds that the runs take
	Fail     []int `json:"fail,omitempty"`
}

func genChoreMet(t *rapid.T) choreMetCase {
	c := choreMetCase{Interval: pick(t, "interval", 20, 50, 150)}
	for i, n := 0, rng(t, 3, 6, "runs"); i < n; i++ {
		c.Busy = append(c.Busy, pick(t, "ms", 0, 0, 15, 40, 120))
		if oneIn(t, 4, "fail") {
			c.Fail = append(c.Fail, i)
		}
	}
	return c
}

var choreSum = regexp.MustCompile(`(?m)^ratus_chore_duration_seconds_sum (\S+)`)

func runChoreMet(x *X, c choreMetCase) {
	dir := caseDir(x)
	s := mongoDB(x, mongoCfg{})
	runs := 0
	s.mu.Lock()
	s.arrive = func(m *mongoCmd) *mongoFault {
		if m.name != "update" {
			return nil
		}
		s.mu.Lock()
		i := runs
		runs++
		s.mu.Unlock()
		if i < len(c.Busy) {
			time.Sleep(time.Duration(c.Busy[i]) * time.Millisecond)
		}
		for _, f := range c.Fail {
			if f == i {
				return &mongoFault{Before: true, Code: 8000}
			}
		}
		return nil
	}
	s.mu.Unlock()
	started := func() int {
		s.mu.Lock()
		defer s.mu.Unlock()
		return runs
	}
	ip, port := newIP(x), newPort(x)
	addr := net.JoinHostPort(ip, strconv.Itoa(port))
	args := []string{"--engine=mongodb", "--bind=" + ip, fmt.Sprintf("--port=%d", port), "--mongodb-uri=" + s.uri("p"), "--chore-initial-delay=0s", fmt.Sprintf("--chore-interval=%dms", c.Interval)}
	p := spawn(x, dir, args, nil)
	what := fmt.Sprintf("an instance with %q", args)
	if !p.up(addr, procLimit) {
		x.Failp("up", "%s does not serve %s: running %v, output %s\n  %s", what, addr, p.running(), p.log(), s.recent(10))
	}
	w := &watched{addr, &http.Client{Transport: &http.Transport{MaxIdleConnsPerHost: 2}, Timeout: procLimit}}
	defer w.hc.CloseIdleConnections()
	for end := time.Now().Add(procLimit); ; time.Sleep(10 * time.Millisecond) {
		a := started()
		code, b := w.get(x, "/metrics")
		z := started()
		m, k := choreSum.FindStringSubmatch(b), choreCount.FindStringSubmatch(b)
		if code != 200 || m == nil || k == nil {
			x.Failp("chore-metric", "%s: the metrics (status %d) lack the times of background jobs", what, code)
		}
		n, err := strconv.Atoi(k[1])
		Must(err)
		sum, err := strconv.ParseFloat(m[1], 64)
		if err != nil {
			x.Failp("metrics-syntax", "%s: %q", what, m[0])
		}
		// A run counts as soon as it has ended, and all but the last one have when the next one starts.
		if n > z || n < a-1 {
			x.Failp("chore-count", "%s: %d to %d runs of background jobs were started and %d counted", what, a, z, n)
		}
		least := 0.0
		for i := 0; i < n && i < len(c.Busy); i++ {
			least += float64(c.Busy[i]) / 1000
		}
		if life := time.Since(p.start).Seconds(); sum < least || sum > life {
			x.Failp("chore-time", "%s: %d runs of background jobs that took at least %v seconds in the %v seconds of the process are counted with %v seconds", what, n, least, life, sum)
		}
		if n >= len(c.Busy) {
			break
		}
		if time.Now().After(end) {
			x.Failp("chore-count", "%s: %d runs of background jobs were started and %d counted", what, started(), n)
		}
	}
	x.Class("failed runs:%v", len(c.Fail) > 0)
	x.NonTrivial()
}

func init() {
	extend("C25", &prop[choreMetCase]{name: "chores", quick: 64, thorough: 2500, shrink: 20 * time.Second,
		rule: "real processes whose background jobs arrive at a database of our own, which takes generated times and sometimes fails: the chore histogram counts every run, and its sum is at least the time the database took; all non-trivial", gen: genChoreMet, run: runChoreMet})
	extend("C30", &prop[paceCase]{name: "pace", quick: 64, thorough: 3000, shrink: 30 * time.Second,
		rule: "real processes without an API whose background jobs arrive at a database of our own at recorded times: not before the initial delay, at the configured interval, never twice at the same time, and again after failures; too slow only if four times; all non-trivial", gen: genPace, run: runPace})
	extend("C30", &prop[mongoProcCase]{name: "mongodb", quick: 72, thorough: 3000, shrink: 20 * time.Second,
		rule: "real processes with the MongoDB engine and settings given by flags, environment variables or both, on a server of our own: database, collection, indexes and retention, the modes of polling, background jobs, readiness through an outage, and exit status; non-trivial: at least two settings", gen: genMongoProc, run: runMongoProc})
	extend("C31", &prop[mongoHealthCase]{name: "mongodb", quick: 96, thorough: 3000, shrink: 20 * time.Second,
		rule: "probes of the router over the MongoDB engine while its server goes away, comes back, refuses or is slow; non-trivial: at least two changes", gen: genMongoHealth, run: runMongoHealth})
}
