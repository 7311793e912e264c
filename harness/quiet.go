package main

import (
	"context"
	"errors"
	"fmt"
	"net"
	"path/filepath"
	"strconv"
	"syscall"
	"time"

	"pgregory.net/rapid"

	"github.com/hyperonym/ratus"
)

// C15: instances that are shut down after little has happened, or nothing.

type sitting struct {
	Ops    []Op   `json:"ops,omitempty"`
	Signal string `json:"signal"`
	Chore  int    `json:"chore"` // interval in milliseconds
	Snap   int    `json:"snap"`
	Idle   int    `json:"idle,omitempty"` // milliseconds before the signal
	Env    bool   `json:"env,omitempty"`
}

type quietCase struct {
	Topics   []string  `json:"topics"`
	IDs      []string  `json:"ids"`
	Sittings []sitting `json:"sittings"`
}

func genQuiet(t *rapid.T) quietCase {
	prof := func(weights map[string]int) *Profile {
		return apiProfile(Profile{AnyState: oneIn(t, 2, "anystate"), Names: namesText, NTopics: 2, MaxOps: 12, Payload: genPayload, Weights: weights})
	}
	// First some tasks, then a few requests at a time.
	h := genHistory(t, prof(map[string]int{opInsert: 4, opInserts: 4, opUpsert: 2, opUpserts: 2, opPoll: 1, opCommit: 1}))
	c := quietCase{Topics: h.Topics, IDs: h.IDs}
	p := prof(map[string]int{opInsert: 3, opInserts: 3, opUpsert: 3, opUpserts: 3, opPoll: 6, opInsPromise: 8, opUpsPromise: 8, opCommit: 6, opDelTopics: 1, opDelTopic: 1, opDelTasks: 1, opDelTask: 3, opDelPromises: 2, opDelPromise: 5, opGetTask: 1, opListTasks: 1, opListTopics: 1, opGetTopic: 1, opListPromises: 1, opGetPromise: 1})
	p.Time = genTime
	for i, n := 0, rng(t, 1, 6, "sittings"); i < n; i++ {
		s := sitting{Signal: pick(t, "signal", "TERM", "INT"), Chore: pick(t, "chore", 0, 0, 3600_000, 20), Snap: pick(t, "snap", 3600_000, 0, 30), Env: oneIn(t, 3, "env")}
		if oneIn(t, 4, "idle") {
			s.Idle = rng(t, 1, 200, "idle")
		}
		if i == 0 {
			s.Ops = h.Ops
		} else {
			for k := pick(t, "n", 0, 1, 1, 1, 1, 2, 4); k > 0; k-- {
				s.Ops = append(s.Ops, genOp(t, p, c.IDs, c.Topics))
			}
		}
		c.Sittings = append(c.Sittings, s)
	}
	return c
}

func runQuiet(x *X, c quietCase) {
	dir := caseDir(x)
	path := filepath.Join(dir, "snapshot")
	ctx := context.Background()
	want := map[string]*ratus.Task{}
	list := func(addr string, p *proc) map[string]*ratus.Task {
		cl := newClient("http://"+addr, nil)
		m := map[string]*ratus.Task{}
		ts, err := cl.ListTopics(ctx, 100, 0)
		if err != nil {
			x.Failp("list", "listing topics failed: %v; output %s", err, p.log())
		}
		for _, t := range ts {
			v, err := cl.ListTasks(ctx, t.Name, 100, 0)
			if err != nil {
				x.Failp("list", "listing the tasks of %q failed: %v; output %s", t.Name, err, p.log())
			}
			for _, k := range v {
				m[k.ID] = k
			}
		}
		return m
	}
	compare := func(addr string, p *proc, when string) {
		got := list(addr, p)
		for id, t := range want {
			if g := got[id]; g == nil {
				x.Failp("lost", "%s the task %s is lost, %d of %d are left", when, show(t), len(got), len(want))
			} else if d := taskDiff(g, t); len(d) > 0 {
				x.Failp("changed", "%s the task is %s instead of %s: %v", when, show(g), show(t), d)
			}
		}
		for id, t := range got {
			if want[id] == nil {
				x.Failp("returned", "%s there is a task that did not exist: %s", when, show(t))
			}
		}
	}
	quiet := 0
	what := "before anything happened"
	for i, s := range c.Sittings {
		p, addr := instance(x, dir, path, s.Chore, s.Snap, s.Env)
		compare(addr, p, what)
		e := &clientExec{c: newClient("http://"+addr, nil)}
		wrote := false
		for _, o := range s.Ops {
			switch o.K {
			case opChore, opAdvance, opOpen:
				continue
			}
			// Nothing that a background job would change.
			o.Tasks = append([]T{}, o.Tasks...)
			for i := range o.Tasks {
				o.Tasks[i].Consumed, o.Tasks[i].Deadline = TS{}, TS{}
			}
			o.Deadline = TS{}
			call := resolve(o, time.Now(), func(id, ref string) string {
				t, err := e.c.GetTask(ctx, id)
				if err != nil || ref == "" {
					return ""
				}
				return t.Nonce
			})
			r := e.Do(call)
			x.Class("%s:%s", o.K, r.Err)
			if r.Err == "" && len(s.Ops) == 1 {
				x.Class("only:%s", o.K)
			}
			if r.Err == "" && o.K[:3] != "get" && o.K[:4] != "list" {
				wrote = true
			}
		}
		time.Sleep(time.Duration(s.Idle) * time.Millisecond)
		want = list(addr, p)
		sig := syscall.SIGTERM
		if s.Signal == "INT" {
			sig = syscall.SIGINT
		}
		p.cmd.Process.Signal(sig)
		code, ok := p.exit(procLimit)
		if !ok {
			x.Failp("lingers", "the process did not exit %v after the signal %s; output %s", procLimit, s.Signal, p.log())
		}
		if code != 0 {
			x.Failp("status", "the process exited with %v after the signal %s; output %s", p.cmd.ProcessState, s.Signal, p.log())
		}
		if !wrote && len(want) > 0 {
			quiet++
		}
		x.Class("wrote:%v tasks:%v", wrote, len(want) > 0)
		what = fmt.Sprintf("after the sitting %d of %d, which was shut down by %s, and restarting,", i+1, len(c.Sittings), s.Signal)
		if len(want) > 0 {
			x.NonTrivial()
		}
	}
	if quiet > 0 {
		x.Class("quiet sittings")
	}
	p, addr := instance(x, dir, path, 3600_000, 3600_000, false)
	compare(addr, p, what)
}

// ---- signals right after the start (C15) ----

type earlyCase struct {
	Up     bool   `json:"up"`    // wait until the instance serves
	Micro  int    `json:"micro"` // microseconds from then, or from the start
	Signal string `json:"signal"`
	Chore  int    `json:"chore"` // interval in milliseconds
	Delay  int    `json:"delay"` // initial delay in milliseconds
	Procs  int    `json:"procs"` // GOMAXPROCS
	Put    bool   `json:"put,omitempty"`
}

func genEarly(t *rapid.T) earlyCase {
	c := earlyCase{Up: oneIn(t, 2, "up"), Signal: pick(t, "signal", "TERM", "INT"), Chore: pick(t, "chore", 3600_000, 20, 1, 0), Delay: pick(t, "delay", 0, 10_000, 5), Procs: pick(t, "procs", 1, 2, 4)}
	if c.Up {
		c.Micro = pick(t, "micro", 0, 0, 0, 100, 1000)
		c.Put = oneIn(t, 3, "put")
	} else {
		c.Micro = rng(t, 0, 60_000, "micro")
	}
	return c
}

func runEarly(x *X, c earlyCase) {
	dir := caseDir(x)
	path := filepath.Join(dir, "snapshot")
	ip, port := newIP(x), newPort(x)
	addr := net.JoinHostPort(ip, strconv.Itoa(port))
	p := spawn(x, dir, []string{"--bind=" + ip, "--port=" + strconv.Itoa(port), "--memdb-snapshot-path=" + path, fmt.Sprintf("--chore-interval=%dms", c.Chore), fmt.Sprintf("--chore-initial-delay=%dms", c.Delay)}, []string{"GOMAXPROCS=" + strconv.Itoa(c.Procs)})
	up := false
	if c.Up {
		for end := time.Now().Add(procLimit); !up && time.Now().Before(end) && p.running(); {
			if conn, err := net.DialTimeout("tcp", addr, time.Second); err == nil {
				conn.Close()
				up = true
			}
		}
		if !up {
			x.Failp("start", "the instance did not start: running %v, output %s", p.running(), p.log())
		}
	}
	task := &ratus.Task{ID: "early", Topic: "t", Payload: "x"}
	if c.Put {
		if _, err := newClient("http://"+addr, nil).InsertTask(context.Background(), task); err != nil {
			x.Failp("insert", "inserting a task failed: %v; output %s", err, p.log())
		}
	}
	time.Sleep(time.Duration(c.Micro) * time.Microsecond)
	sig := syscall.SIGTERM
	if c.Signal == "INT" {
		sig = syscall.SIGINT
	}
	p.cmd.Process.Signal(sig)
	code, ok := p.exit(procLimit)
	if !ok {
		x.Failp("lingers", "the process did not exit %v after the signal %s, which it was sent %v after its start; output %s", procLimit, c.Signal, c.Micro, p.log())
	}
	ws, _ := p.cmd.ProcessState.Sys().(syscall.WaitStatus)
	switch {
	case code == 0:
		x.Class("exited, serving before:%v", up)
	case ws.Signaled() && ws.Signal() == sig && !up:
		// Not yet prepared for signals.
		x.Class("ended by the signal")
	default:
		x.Failp("status", "the process ended with %v after the signal %s, serving before: %v; output %s", p.cmd.ProcessState, c.Signal, up, p.log())
	}
	if code == 0 {
		x.NonTrivial()
	}
	if up {
		_, addr := instance(x, dir, path, 3600_000, 3600_000, false)
		_, err := newClient("http://"+addr, nil).GetTask(context.Background(), "early")
		if c.Put && err != nil {
			x.Failp("lost", "the acknowledged task is lost: %v", err)
		}
		if !c.Put && !errors.Is(err, ratus.ErrNotFound) {
			x.Failp("returned", "looking up a task that was never inserted returned %v", err)
		}
	}
}

func init() {
	extend("C15", &prop[earlyCase]{name: "early", quick: 400, thorough: 20000, shrink: 40 * time.Second,
		rule: "real processes that are sent a termination signal at a random moment after their start, or as soon as they serve: those that serve shut down with status 0 and keep what was acknowledged, all others end too; non-trivial: the process shut down", gen: genEarly, run: runEarly})
	extend("C15", &prop[quietCase]{name: "sittings", quick: 200, thorough: 8000, shrink: 20 * time.Second,
		rule: "real processes that are started on the same snapshot one after another, given up to a few generated requests of any kind or none, and shut down by a signal: the status is 0, and the next one has exactly the tasks that were listed before; non-trivial: there were tasks at the end of a sitting", gen: genQuiet, run: runQuiet})
}
