package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"syscall"
	"time"

	"pgregory.net/rapid"

	"github.com/hyperonym/ratus"
)

// ---- settings of instances (C30) ----

type setting struct {
	Name  string `json:"name"`
	How   string `json:"how"` // flag, flag2, env, both
	V     string `json:"v"`
	Decoy string `json:"decoy,omitempty"` // in the environment, where the flag is set too
}

type settingsCase struct {
	Set    []setting `json:"set"`
	Port   string    `json:"port"` // how it is set, or "zero"
	Bind   string    `json:"bind"`
	Signal string    `json:"signal"`
	Break  bool      `json:"break,omitempty"` // snapshots fail
}

var settingValues = []struct {
	name string
	v    []string
}{
	{"engine", []string{"memdb", "MemDB", "MEMDB"}},
	{"pagination-max-limit", []string{"1", "7", "10", "37", "250", "100", "0", "9223372036854775807"}},
	{"pagination-max-offset", []string{"1", "50", "10000", "20000", "0"}},
	{"chore-interval", []string{"0s", "60ms", "150ms", "1h", "0.1s", "0"}},
	{"chore-initial-delay", []string{"250ms", "700ms", "1h", "0s", "60m"}},
	{"chore-initial-random", []string{"true", "false"}},
	{"memdb-retention-period", []string{"1h", "5m", "72h", "90s", "1h30m", "0s"}},
	{"memdb-snapshot-path", []string{"data/snap", "snap"}},
	{"memdb-snapshot-interval", []string{"1h", "50ms", "0s", "5m"}},
	{"mongodb-uri", []string{"mongodb://127.0.0.1:1"}},
	{"mongodb-retention-period", []string{"2s"}},
	{"mongodb-database", []string{"x"}},
}

func genSettings(t *rapid.T) settingsCase {
	c := settingsCase{Port: pick(t, "port", "flag", "env", "both", "short", "zero"), Bind: pick(t, "bind", "flag", "env", "both", "short"), Signal: pick(t, "signal", "TERM", "INT")}
	for _, s := range settingValues {
		k := 1
		if strings.HasPrefix(s.name, "chore") || strings.HasPrefix(s.name, "memdb") {
			k = 3
		}
		if weighted(t, s.name, 2, k) == 0 {
			continue
		}
		v := setting{Name: s.name, V: pick(t, "value", s.v...), How: pick(t, "how", "flag", "flag2", "env", "both")}
		if v.How == "both" {
			v.Decoy = pick(t, "decoy", s.v...)
		}
		if s.name == "chore-initial-random" && v.How != "env" && v.V == "false" {
			// The flag alone means true.
			v.How = "env"
		}
		c.Set = append(c.Set, v)
	}
	c.Break = oneIn(t, 6, "break")
	return c
}

func envName(flag string) string { return strings.ToUpper(strings.ReplaceAll(flag, "-", "_")) }

// apply adds a setting to the arguments and environment of a process.
func (s *setting) apply(args, env *[]string) {
	isBool := s.Name == "chore-initial-random" || strings.HasPrefix(s.Name, "mongodb-disable")
	switch s.How {
	case "env":
		*env = append(*env, envName(s.Name)+"="+s.V)
		return
	case "both":
		*env = append(*env, envName(s.Name)+"="+s.Decoy)
		*args = append(*args, "--"+s.Name+"="+s.V)
	case "flag2":
		if isBool {
			*args = append(*args, "--"+s.Name)
			break
		}
		*args = append(*args, "--"+s.Name, s.V)
	case "short":
		*args = append(*args, "-"+s.Name[:1], s.V)
	default:
		*args = append(*args, "--"+s.Name+"="+s.V)
	}
}

var choreCount = regexp.MustCompile(`(?m)^ratus_chore_duration_seconds_count (\d+)`)

// watched is what is known about the background jobs of a process.
type watched struct {
	addr string
	hc   *http.Client
}

func (w *watched) get(x *X, target string) (int, string) {
	res, err := w.hc.Get("http://" + w.addr + "/v1" + target)
	if err != nil {
		x.Failp("serve", "a request to the instance failed: %v", err)
	}
	defer res.Body.Close()
	b, err := io.ReadAll(res.Body)
	if err != nil {
		x.Failp("serve", "a request to the instance failed: %v", err)
	}
	return res.StatusCode, string(b)
}

// count is the same as chores for other goroutines.
func (w *watched) count() (int, error) {
	res, err := w.hc.Get("http://" + w.addr + "/v1/metrics")
	if err != nil {
		return 0, err
	}
	defer res.Body.Close()
	b, err := io.ReadAll(res.Body)
	if err != nil {
		return 0, err
	}
	m := choreCount.FindSubmatch(b)
	if m == nil {
		return 0, errors.New("lacks the number of runs of background jobs")
	}
	return strconv.Atoi(string(m[1]))
}

// chores returns how often background jobs ran.
func (w *watched) chores(x *X) int {
	_, b := w.get(x, "/metrics")
	m := choreCount.FindStringSubmatch(b)
	if m == nil {
		x.Fail("metric", []string{"C25", "C30"}, "the metrics lack the number of runs of background jobs")
	}
	n, err := strconv.Atoi(m[1])
	Must(err)
	return n
}

func runSettings(x *X, c settingsCase) {
	dir := caseDir(x)
	Must(os.Mkdir(filepath.Join(dir, "data"), 0o755))
	eff := map[string]string{"engine": "memdb", "pagination-max-limit": "100", "pagination-max-offset": "10000", "chore-interval": "10s", "chore-initial-delay": "0s", "chore-initial-random": "false",
		"memdb-retention-period": "72h", "memdb-snapshot-path": "", "memdb-snapshot-interval": "5m"}
	var args, env []string
	for i := range c.Set {
		s := &c.Set[i]
		s.apply(&args, &env)
		eff[s.Name] = s.V
	}
	ip, port := newIP(x), newPort(x)
	bind := setting{Name: "bind", How: c.Bind, V: ip, Decoy: "127.0.0.9"}
	bind.apply(&args, &env)
	ps := setting{Name: "port", How: c.Port, V: strconv.Itoa(port), Decoy: "1"}
	zero := c.Port == "zero"
	if zero {
		ps.How, ps.V = []string{"flag", "env", "short"}[len(c.Set)%3], "0"
	}
	ps.apply(&args, &env)
	dur := func(k string) time.Duration {
		d, err := time.ParseDuration(eff[k])
		Must(err)
		return d
	}
	interval, delay, retention := dur("chore-interval"), dur("chore-initial-delay"), dur("memdb-retention-period")
	random := eff["chore-initial-random"] == "true"
	snap := eff["memdb-snapshot-path"]
	if snap != "" {
		snap = filepath.Join(dir, snap)
	}
	what := fmt.Sprintf("an instance with %q %q", args, env)
	slow := 20 * time.Second

	// A store with tasks that background jobs change.
	now := time.Now().Truncate(time.Millisecond)
	at := func(d time.Duration) *time.Time { return ptr(now.Add(d)) }
	tasks := []*ratus.Task{
		{ID: "late", Topic: "t", State: ratus.TaskStateActive, Nonce: "n", Produced: at(-200 * time.Hour), Scheduled: at(-time.Hour), Consumed: at(-time.Hour), Deadline: at(-time.Minute)},
		{ID: "held", Topic: "t", State: ratus.TaskStateActive, Nonce: "n", Produced: at(-200 * time.Hour), Scheduled: at(-time.Hour), Consumed: at(-time.Hour), Deadline: at(time.Hour)},
		{ID: "old", Topic: "t", State: ratus.TaskStateCompleted, Produced: at(-200 * time.Hour), Scheduled: at(-100 * time.Hour), Consumed: at(-retention - time.Minute), Deadline: at(0)},
		{ID: "new", Topic: "t", State: ratus.TaskStateCompleted, Produced: at(-200 * time.Hour), Scheduled: at(-100 * time.Hour), Consumed: at(-retention + 10*time.Minute), Deadline: at(0)},
	}
	if snap != "" {
		g := newSnap(snap, 0, math.MaxInt64)
		Must(g.Open(context.Background()))
		if _, err := g.UpsertTasks(context.Background(), tasks); err != nil {
			bug("%v", err)
		}
		Must(g.Close(context.Background()))
	}
	info := func() os.FileInfo {
		i, err := os.Stat(snap)
		if err != nil {
			return nil
		}
		return i
	}
	same := func(a, b os.FileInfo) bool {
		return a == nil && b == nil || a != nil && b != nil && os.SameFile(a, b) && a.ModTime().Equal(b.ModTime())
	}
	var first os.FileInfo
	if snap != "" {
		first = info()
		// Coarse file times.
		time.Sleep(6 * time.Millisecond)
	}
	p := spawn(x, dir, args, env)
	end := func() {
		if !p.running() {
			x.Failp("ended", "%s ended by itself: %v, output %s", what, p.cmd.ProcessState, p.log())
		}
		sig := syscall.SIGTERM
		if c.Signal == "INT" {
			sig = syscall.SIGINT
		}
		p.cmd.Process.Signal(sig)
		if _, ok := p.exit(slow); !ok {
			x.Fail("lingers", []string{"C15", "C30"}, "%s did not exit after the signal %s; output %s", what, c.Signal, p.log())
		}
		if !p.cmd.ProcessState.Success() {
			x.Fail("status", []string{"C15", "C30"}, "%s exited with %v after the signal %s; output %s", what, p.cmd.ProcessState, c.Signal, p.log())
		}
	}
	if zero {
		if interval <= 0 {
			// Nothing to do.
			if code, ok := p.exit(slow); ok && code != 0 {
				x.Failp("nothing", "%s without server and jobs ended with the status %d; output %s", what, code, p.log())
			}
			x.Class("nothing to do")
			return
		}
		// Wait until signals are certainly handled.
		time.Sleep(250 * time.Millisecond)
		for _, a := range []string{ip, "127.0.0.1"} {
			for _, n := range []int{port} {
				if conn, err := net.Dial("tcp", net.JoinHostPort(a, strconv.Itoa(n))); err == nil {
					conn.Close()
					x.Failp("zero", "%s listens on %s:%d", what, a, n)
				}
			}
		}
		if v, ok := p.listening(); len(v) > 0 {
			x.Failp("zero", "%s listens on %v", what, v)
		} else if ok {
			x.Class("no listeners")
		}
		x.Class("port zero")
		if snap == "" || delay >= time.Hour {
			end()
			return
		}
		for t := time.Now().Add(delay + slow); same(first, info()); {
			if time.Now().After(t) {
				x.Failp("zero-chore", "%s has not run background jobs %v after its start", what, time.Since(p.start))
			}
			if !p.running() {
				x.Failp("ended", "%s ended by itself: %v, output %s", what, p.cmd.ProcessState, p.log())
			}
			time.Sleep(5 * time.Millisecond)
		}
		end()
		g := newSnap(snap, 0, math.MaxInt64)
		Must(g.Open(context.Background()))
		if t, err := g.GetTask(context.Background(), "late"); err != nil || t.State != ratus.TaskStatePending {
			x.Failp("zero-chore", "%s has not recovered the task %s (%v)", what, show(t), err)
		}
		x.NonTrivial()
		return
	}
	addr := net.JoinHostPort(ip, strconv.Itoa(port))
	if !p.up(addr, procLimit) {
		x.Failp("up", "%s does not serve %s: running %v, output %s", what, addr, p.running(), p.log())
	}
	if v, ok := p.listening(); len(v) > 1 {
		x.Failp("bind", "%s listens on %v instead of only %s", what, v, addr)
	} else if ok && len(v) == 1 {
		x.Class("one listener")
	}
	if conn, err := net.Dial("tcp", net.JoinHostPort("127.0.0.9", strconv.Itoa(port))); err == nil {
		conn.Close()
		x.Failp("bind", "%s serves other addresses than %s", what, ip)
	}
	w := &watched{addr, &http.Client{Transport: &http.Transport{MaxIdleConnsPerHost: 2}, Timeout: procLimit}}
	defer w.hc.CloseIdleConnections()
	cl := newClient("http://"+addr, nil)
	ctx := context.Background()
	if snap == "" {
		if _, err := cl.UpsertTasks(ctx, tasks); err != nil {
			x.Failp("insert", "inserting tasks failed: %v", err)
		}
	}
	base := w.chores(x)

	// Pagination.
	maxLimit, _ := strconv.Atoi(eff["pagination-max-limit"])
	maxOffset, _ := strconv.Atoi(eff["pagination-max-offset"])
	for _, q := range []struct {
		q  string
		ok bool
	}{{fmt.Sprintf("limit=%d", maxLimit), true}, {fmt.Sprintf("limit=%d", maxLimit+1), false}, {fmt.Sprintf("offset=%d", maxOffset), true}, {fmt.Sprintf("offset=%d", maxOffset+1), false}} {
		if st, b := w.get(x, "/topics?"+q.q); (st == 200) != q.ok || !q.ok && st != 400 {
			x.Failp("pagination", "%s answered a listing with %s with %d %s", what, q.q, st, b)
		}
	}
	if c.Break && snap != "" {
		// Nothing can be renamed to a directory.
		for {
			Must(os.RemoveAll(snap))
			if err := os.Mkdir(snap, 0o755); err == nil {
				break
			} else if !errors.Is(err, os.ErrExist) {
				Must(err)
			}
		}
	}

	// Background jobs.
	before := func() bool { return time.Since(p.start) < delay }
	switch {
	case interval <= 0 || delay >= time.Hour && !random:
		time.Sleep(200 * time.Millisecond)
		if n := w.chores(x); n != 0 {
			x.Failp("disabled", "%s has run background jobs %d times after %v", what, n, time.Since(p.start))
		}
		x.Class("no jobs")
	case delay >= time.Hour:
	default:
		n := 0
		for t := p.start.Add(delay + slow); ; {
			n = w.chores(x)
			if n > 0 {
				if !random && before() {
					x.Failp("delay", "%s ran background jobs within %v", what, time.Since(p.start))
				}
				break
			}
			if time.Now().After(t) {
				x.Failp("never", "%s has not run background jobs %v after its start", what, time.Since(p.start))
			}
			if !p.running() {
				x.Failp("ended", "%s ended by itself: %v, output %s", what, p.cmd.ProcessState, p.log())
			}
			time.Sleep(2 * time.Millisecond)
		}
		if interval >= 10*time.Second {
			time.Sleep(120 * time.Millisecond)
			if n := w.chores(x); n > 1 && time.Since(p.start) < interval {
				x.Failp("often", "%s ran background jobs %d times in %v", what, n, time.Since(p.start))
			}
			x.Class("one run")
			break
		}
		// A ticker of our own tells how well time is kept here.
		n0, t0 := w.chores(x), time.Now()
		tick := time.NewTicker(interval)
		ours := 0
		for ours < 8 {
			<-tick.C
			ours++
		}
		tick.Stop()
		took := time.Since(t0)
		n = w.chores(x) - n0
		took2 := time.Since(t0)
		if most := int(took2/interval) + 2; n > most {
			x.Failp("often", "%s ran background jobs %d times in %v, the interval is %v", what, n, took2, interval)
		}
		for t := time.Now().Add(slow); n < ours-3; n = w.chores(x) - n0 {
			// Repeat more slowly, unless the machine is just busy.
			if time.Now().After(t) {
				x.Failp("seldom", "%s ran background jobs %d times in %v, the interval is %v", what, n, time.Since(t0), interval)
			}
			time.Sleep(10 * time.Millisecond)
			if m := time.Since(t0); m > 3*took+2*time.Second && n < ours/2 {
				x.Failp("seldom", "%s ran background jobs %d times in %v, the interval is %v", what, n, m, interval)
			}
		}
		x.Class("interval")
		if c.Break && snap != "" {
			x.Class("jobs go on after failing")
		}
	}
	// What the jobs have done.
	done := w.chores(x)
	if done > base+1 || snap != "" && done > 0 {
		ids := map[string]bool{}
		for _, t := range tasks {
			if v, err := cl.GetTask(ctx, t.ID); err == nil {
				ids[t.ID] = true
				if t.ID == "late" && v.State != ratus.TaskStatePending || t.ID != "late" && len(taskDiff(v, t)) > 0 {
					x.Fail("jobs", []string{"C30", "C08", "C09"}, "%s changed the task %s to %s", what, show(t), show(v))
				}
			} else if !errors.Is(err, ratus.ErrNotFound) {
				x.Failp("get", "%v", err)
			}
		}
		if !ids["late"] || !ids["held"] || ids["old"] || !ids["new"] {
			x.Failp("retention", "%s has kept the tasks %v, the retention period is %v", what, ids, retention)
		}
		x.NonTrivial()
	} else if done == 0 {
		if v, err := cl.GetTask(ctx, "late"); err != nil || v.State != ratus.TaskStateActive {
			x.Failp("jobs-disabled", "%s changed the task to %s (%v)", what, show(v), err)
		}
		x.NonTrivial()
	}
	// Snapshots.
	if snap != "" && !c.Break {
		si := dur("memdb-snapshot-interval")
		if interval > 0 && interval < time.Second && delay < time.Hour {
			a := info()
			if si >= 5*time.Minute {
				time.Sleep(3*interval + 5*time.Millisecond)
				if !same(a, info()) && time.Since(p.start) < si {
					x.Failp("snapshot-often", "%s wrote another snapshot after %v", what, time.Since(p.start))
				}
				x.Class("snapshot waits")
			} else {
				for t := time.Now().Add(slow); same(a, info()); time.Sleep(2 * time.Millisecond) {
					if time.Now().After(t) {
						x.Failp("snapshot-seldom", "%s wrote no other snapshot for %v", what, slow)
					}
				}
				x.Class("snapshot repeats")
			}
		} else if done == 0 && !same(first, info()) {
			x.Failp("snapshot-often", "%s wrote a snapshot without background jobs", what)
		}
		// The snapshot written at the end has the latest changes.
		if _, err := cl.InsertTask(ctx, &ratus.Task{ID: "last", Topic: "t"}); err != nil {
			x.Failp("insert", "%v", err)
		}
	}
	w.hc.CloseIdleConnections()
	end()
	if conn, err := net.Dial("tcp", addr); err == nil {
		conn.Close()
		bug("something else listens on %s", addr)
	}
	if snap != "" && !c.Break {
		g := newSnap(snap, 0, math.MaxInt64)
		Must(g.Open(context.Background()))
		if _, err := g.GetTask(ctx, "last"); err != nil {
			x.Fail("snapshot-end", []string{"C30", "C15"}, "%s has not saved the last task: %v", what, err)
		}
	}
	if snap == "" {
		m, err := os.ReadDir(dir)
		Must(err)
		if len(m) > 1 {
			x.Failp("files", "%s wrote files: %v", what, m)
		}
	}
}

// ---- settings that are refused ----

type badSettings struct {
	Set []setting `json:"set"`
	Bad setting   `json:"bad"`
}

var badValues = map[string][]string{
	"port":                     {"x", "-1", "1.5", "99999999999999999999", "70000", "", "0x"},
	"bind":                     {"256.1.1.1", "not an address", "203.0.113.7"},
	"engine":                   {"redis", "mem", "memdb2", " "},
	"chore-interval":           {"10", "x", "1 h", ""},
	"chore-initial-delay":      {"abc", "1x"},
	"pagination-max-limit":     {"x", "1.5", "99999999999999999999"},
	"pagination-max-offset":    {"x", ""},
	"memdb-retention-period":   {"3", "x", "1d"},
	"memdb-snapshot-interval":  {"300", "y"},
	"memdb-snapshot-path":      {"dir", "broken", "missing/none"},
	"mongodb-retention-period": {"x", "5"},
	"mongodb-uri":              {"http://x", "mongodb://", "x"},
	"unknown-flag":             {"1"},
	"occupied":                 {""},
}

func genBadSettings(t *rapid.T) badSettings {
	var c badSettings
	k := pick(t, "name", sortedKeys(func() map[string]bool {
		m := map[string]bool{}
		for k := range badValues {
			m[k] = true
		}
		return m
	}())...)
	c.Bad = setting{Name: k, V: pick(t, "value", badValues[k]...), How: pick(t, "how", "flag", "flag2", "env")}
	if k == "unknown-flag" || k == "mongodb-uri" && false {
		c.Bad.How = "flag"
	}
	if c.Bad.V == "" {
		c.Bad.How = "flag"
	}
	for _, s := range settingValues {
		if s.name == k || s.name == "engine" && k == "mongodb-uri" || !oneIn(t, 4, s.name) || s.name == "memdb-snapshot-path" && k == "memdb-snapshot-interval" {
			continue
		}
		c.Set = append(c.Set, setting{Name: s.name, V: pick(t, "value", s.v...), How: pick(t, "how", "flag", "env")})
	}
	return c
}

func runBadSettings(x *X, c badSettings) {
	dir := caseDir(x)
	Must(os.Mkdir(filepath.Join(dir, "data"), 0o755))
	var args, env []string
	for i := range c.Set {
		if s := &c.Set[i]; s.Name != "chore-initial-random" {
			s.apply(&args, &env)
		}
	}
	ip, port := newIP(x), newPort(x)
	listens := true
	switch c.Bad.Name {
	case "port":
		(&setting{Name: "bind", How: "flag", V: ip}).apply(&args, &env)
	case "bind":
		(&setting{Name: "port", How: "env", V: strconv.Itoa(port)}).apply(&args, &env)
		listens = false
	default:
		(&setting{Name: "port", How: "env", V: strconv.Itoa(port)}).apply(&args, &env)
		(&setting{Name: "bind", How: "flag", V: ip}).apply(&args, &env)
	}
	switch c.Bad.Name {
	case "occupied":
		l, err := net.Listen("tcp", net.JoinHostPort(ip, strconv.Itoa(port)))
		Must(err)
		defer l.Close()
		listens = false
	case "mongodb-uri":
		args = append(args, "--engine", "mongodb")
		c.Bad.apply(&args, &env)
	case "memdb-snapshot-path":
		switch c.Bad.V {
		case "dir":
			Must(os.Mkdir(filepath.Join(dir, "dir"), 0o755))
		case "broken":
			Must(os.WriteFile(filepath.Join(dir, "broken"), []byte("\x05garbage that is no snapshot"), 0o644))
		case "missing/none":
			// A file in the place of the directory.
			Must(os.WriteFile(filepath.Join(dir, "missing"), nil, 0o644))
		}
		c.Bad.apply(&args, &env)
	default:
		c.Bad.apply(&args, &env)
	}
	p := spawn(x, dir, args, env)
	what := fmt.Sprintf("an instance with %q %q (bad: %s)", args, env, c.Bad.Name)
	code, ok := p.exit(procLimit)
	if !ok {
		x.Failp("accepted", "%s goes on; output %s", what, p.log())
	}
	if code <= 0 {
		x.Failp("accepted-status", "%s exited with %v; output %s", what, p.cmd.ProcessState, p.log())
	}
	if code == 2 && strings.Contains(p.out.String(), "panic") {
		x.Failp("panic", "%s panicked: %s", what, p.log())
	}
	if strings.TrimSpace(p.out.String()) == "" {
		x.Failp("silent", "%s exited with %v without a message", what, p.cmd.ProcessState)
	}
	if listens {
		if conn, err := net.Dial("tcp", net.JoinHostPort(ip, strconv.Itoa(port))); err == nil {
			conn.Close()
			bug("something listens on %s:%d", ip, port)
		}
	}
	if c.Bad.V == "broken" {
		if b, err := os.ReadFile(filepath.Join(dir, "broken")); err != nil || string(b) != "\x05garbage that is no snapshot" {
			x.Fail("overwritten", []string{"C14", "C30"}, "%s changed the broken snapshot to %q (%v)", what, b, err)
		}
	}
	x.Class("%s", c.Bad.Name)
	x.NonTrivial()
}

// ---- defaults ----

type defaultCase struct {
	Kind string `json:"kind"`
}

// randomDelays observes the random delays of several instances.
func randomDelays(x *X, dir string, slow time.Duration) string {
	// Runs start at random times within the delay.
	const n, delay = 24, 2500 * time.Millisecond
	type res struct {
		from, to time.Duration // since it listens, since its start
		bad      string
	}
	results := make(chan res, n)
	var ps []*proc
	for i := 0; i < n; i++ {
		ip, port := newIP(x), newPort(x)
		args := []string{"--bind", ip, "--port", strconv.Itoa(port), "--chore-initial-delay=2500ms", "--chore-interval=1h"}
		var env []string
		if i%2 == 0 {
			args = append(args, "--chore-initial-random")
		} else {
			env = append(env, "CHORE_INITIAL_RANDOM=true")
		}
		p, w := spawn(x, dir, args, env), &watched{net.JoinHostPort(ip, strconv.Itoa(port)), &http.Client{Timeout: procLimit}}
		ps = append(ps, p)
		go func() {
			if !p.up(w.addr, procLimit) {
				results <- res{bad: "does not serve"}
				return
			}
			up := time.Now()
			var r res
			for {
				t := time.Now()
				n, err := w.count()
				if err != nil {
					results <- res{bad: err.Error()}
					return
				}
				if n > 0 {
					results <- r
					return
				}
				r = res{from: t.Sub(up), to: t.Sub(p.start)}
				if t.Sub(up) > delay+slow {
					results <- res{bad: fmt.Sprintf("has not run background jobs %v after its start", r.to)}
					return
				}
				time.Sleep(10 * time.Millisecond)
			}
		}()
	}
	var all []res
	for i := 0; i < n; i++ {
		r := <-results
		if r.bad != "" {
			x.Failp("random", "an instance that starts background jobs at random within %v %s", delay, r.bad)
		}
		all = append(all, r)
	}
	for _, p := range ps {
		p.kill()
	}
	// With chances of 0.4 each, and clear of the machine's delays.
	early, late, least, most := 0, 0, time.Hour, time.Duration(0)
	for _, r := range all {
		if r.from < delay*2/5 {
			early++
		}
		if r.to > delay*3/5 {
			late++
		}
		if r.from > delay+5*time.Second {
			x.Failp("random", "an instance that starts background jobs at random within %v had not done so after %v", delay, r.to)
		}
		least, most = min(least, r.from), max(most, r.to)
	}
	if early == 0 || late == 0 || most-least < delay/4 {
		return fmt.Sprintf("instances that start background jobs at random within %v did so at %v", delay, all)
	}
	return ""
}

func runDefaults(x *X, c defaultCase) {
	dir := caseDir(x)
	slow := 20 * time.Second
	switch c.Kind {
	case "help":
		for _, a := range []string{"--help", "-h", "--version"} {
			p := spawn(x, dir, []string{a}, nil)
			if code, ok := p.exit(slow); !ok || code != 0 || len(p.out.String()) < 1 {
				x.Failp("help", "%s ended with %v; output %s", a, p.cmd.ProcessState, p.log())
			}
		}
	case "random":
		// Again if only bad luck can tell.
		var m string
		for i := 0; i < 3; i++ {
			if m = randomDelays(x, dir, slow); m == "" {
				break
			}
			x.Class("random again")
		}
		if m != "" {
			x.Failp("random", "%s", m)
		}
	case "defaults":
		// Port 80 of all addresses.
		l, err := net.Listen("tcp", "0.0.0.0:80")
		if err != nil {
			x.Class("port 80 is taken")
			return
		}
		l.Close()
		p := spawn(x, dir, nil, []string{"MEMDB_SNAPSHOT_PATH=snap"})
		addr := newIP(x) + ":80"
		if !p.up(addr, procLimit) {
			x.Failp("up", "an instance without settings does not serve %s: running %v, output %s", addr, p.running(), p.log())
		}
		w := &watched{addr, &http.Client{Timeout: procLimit}}
		cl := newClient("http://"+addr, nil)
		ctx := context.Background()
		for t := time.Now().Add(slow); w.chores(x) == 0; time.Sleep(2 * time.Millisecond) {
			if time.Now().After(t) {
				x.Failp("delay", "an instance without settings has not run background jobs after %v", time.Since(p.start))
			}
		}
		t0 := time.Now()
		now := time.Now()
		for i, d := range []time.Duration{72*time.Hour - 20*time.Minute, 72*time.Hour + time.Minute} {
			t := &ratus.Task{ID: fmt.Sprint("d", i), Topic: "t", State: ratus.TaskStateCompleted, Consumed: ptr(now.Add(-d)), Scheduled: ptr(now.Add(-d)), Deadline: ptr(now)}
			if _, err := cl.InsertTask(ctx, t); err != nil {
				x.Failp("insert", "%v", err)
			}
		}
		for i := 0; i < 13; i++ {
			if _, err := cl.InsertTask(ctx, &ratus.Task{ID: fmt.Sprint("p", i), Topic: "many"}); err != nil {
				x.Failp("insert", "%v", err)
			}
		}
		for q, ok := range map[string]bool{"limit=100": true, "limit=101": false, "offset=10000": true, "offset=10001": false} {
			if st, b := w.get(x, "/topics?"+q); (st == 200) != ok {
				x.Failp("pagination", "an instance without settings answered a listing with %s with %d %s", q, st, b)
			}
		}
		var ts ratus.Tasks
		_, b := w.get(x, "/topics/many/tasks")
		if json.Unmarshal([]byte(b), &ts); len(ts.Data) != 10 {
			x.Failp("pagination", "an instance without settings listed %d tasks without a limit", len(ts.Data))
		}
		i0, err := os.Stat(filepath.Join(dir, "snap"))
		if err != nil {
			// The first run counts once the snapshot was attempted.
			x.Failp("snapshot", "an instance with a snapshot path has not written a snapshot: %v", err)
		}
		for w.chores(x) < 2 {
			time.Sleep(5 * time.Millisecond)
			if time.Since(t0) > 10*time.Second+slow {
				x.Failp("interval", "an instance without settings has not run background jobs again after %v", time.Since(t0))
			}
		}
		if d := time.Since(p.start); d < 10*time.Second {
			x.Failp("interval", "an instance without settings ran background jobs again after %v", d)
		}
		if _, err := cl.GetTask(ctx, "d0"); err != nil {
			x.Failp("retention", "an instance without settings has not kept a task completed less than 72 hours ago: %v", err)
		}
		if _, err := cl.GetTask(ctx, "d1"); !errors.Is(err, ratus.ErrNotFound) {
			x.Failp("retention", "an instance without settings has kept a task completed more than 72 hours ago: %v", err)
		}
		if i, err := os.Stat(filepath.Join(dir, "snap")); err != nil || !os.SameFile(i, i0) || !i.ModTime().Equal(i0.ModTime()) {
			x.Failp("snapshot", "an instance without settings wrote a snapshot again within 5 minutes")
		}
		p.cmd.Process.Signal(syscall.SIGTERM)
		if code, ok := p.exit(slow); !ok || code != 0 {
			x.Failp("status", "an instance without settings exited with %v", p.cmd.ProcessState)
		}
	}
	x.Class("%s", c.Kind)
	x.NonTrivial()
}

func init() {
	next := 0
	register(&Check{ID: "C30", Workers: 24, Assumptions: []string{"upper bounds of real time are generous (20 s and more) because the machine may be busy"}, Parts: []Part{
		&prop[defaultCase]{name: "defaults", quick: 3, thorough: 30, single: true, rule: "an instance without settings, help texts, and random initial delays of 24 instances; all non-trivial",
			gen: func(t *rapid.T) defaultCase {
				bit.Draw(t, "any")
				next++
				return defaultCase{[]string{"defaults", "random", "help"}[next%3]}
			}, run: runDefaults},
		&prop[settingsCase]{name: "settings", quick: 150, thorough: 8000, shrink: 20 * time.Second,
			rule: "real processes with settings given by flags, environment variables or both (flags win): address, pagination limits, runs of background jobs over time, retention, snapshots and exit status are as configured; non-trivial: the effect (or absence) of background jobs was observed", gen: genSettings, run: runSettings},
		&prop[badSettings]{name: "invalid", quick: 130, thorough: 4000,
			rule: "settings that cannot be honoured (malformed values, unknown engines and flags, unusable snapshots, addresses that cannot be bound): the process exits with an error status and a message, serves nothing and leaves files alone; all non-trivial", gen: genBadSettings, run: runBadSettings},
	}})
}
