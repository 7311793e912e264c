package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"pgregory.net/rapid"

	"github.com/hyperonym/ratus"
)

// ---- processes ----

type lockedBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *lockedBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.Write(p)
}

func (l *lockedBuf) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.String()
}

// proc is a running instance of the executable.
type proc struct {
	cmd   *exec.Cmd
	out   lockedBuf
	done  chan struct{}
	start time.Time
	ended time.Time
}

// spawn starts the executable in a directory of its own.
func spawn(x *X, dir string, args, env []string) *proc {
	p := &proc{cmd: exec.Command(filepath.Join(work, "ratus"), args...), done: make(chan struct{}), start: time.Now()}
	p.cmd.Dir = dir
	p.cmd.Env = append([]string{"GOMAXPROCS=4", "GIN_MODE=release", "TMPDIR=" + os.TempDir()}, env...)
	p.cmd.Stdout, p.cmd.Stderr = &p.out, &p.out
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	if err := p.cmd.Start(); err != nil {
		bug("%v", err)
	}
	go func() {
		p.cmd.Wait()
		p.ended = time.Now()
		close(p.done)
	}()
	x.Defer(p.kill)
	return p
}

func (p *proc) kill() {
	p.cmd.Process.Kill()
	<-p.done
}

func (p *proc) running() bool {
	select {
	case <-p.done:
		return false
	default:
		return true
	}
}

// listening returns the addresses (in the notation of the system) on which
// the process accepts connections, or false if this cannot be found out.
func (p *proc) listening() (v []string, ok bool) {
	dir := fmt.Sprintf("/proc/%d/", p.cmd.Process.Pid)
	own := map[string]bool{}
	fds, err := os.ReadDir(dir + "fd")
	if err != nil {
		return nil, false
	}
	for _, f := range fds {
		if s, err := os.Readlink(dir + "fd/" + f.Name()); err == nil && strings.HasPrefix(s, "socket:[") {
			own[strings.TrimSuffix(strings.TrimPrefix(s, "socket:["), "]")] = true
		}
	}
	for _, n := range []string{"tcp", "tcp6"} {
		b, err := os.ReadFile(dir + "net/" + n)
		if err != nil {
			continue
		}
		ok = true
		for _, l := range strings.Split(string(b), "\n") {
			// The kernel may list a socket twice while others come and go.
			if f := strings.Fields(l); len(f) > 9 && f[3] == "0A" && own[f[9]] {
				v = append(v, f[1])
				own[f[9]] = false
			}
		}
	}
	return v, ok
}

// exit waits for the end of the process.
func (p *proc) exit(limit time.Duration) (int, bool) {
	select {
	case <-p.done:
		return p.cmd.ProcessState.ExitCode(), true
	case <-time.After(limit):
		return 0, false
	}
}

// up waits until the process listens on an address.
func (p *proc) up(addr string, limit time.Duration) bool {
	for end := time.Now().Add(limit); time.Now().Before(end) && p.running(); {
		c, err := net.DialTimeout("tcp", addr, time.Second)
		if err == nil {
			c.Close()
			return true
		}
		time.Sleep(3 * time.Millisecond)
	}
	return false
}

func (p *proc) log() string {
	s := p.out.String()
	if len(s) > 1500 {
		s = s[:700] + " ... " + s[len(s)-700:]
	}
	return strconv.Quote(s)
}

var procAddr atomic.Int64

// newIP returns a loopback address that no other case of the check uses.
func newIP(x *X) string {
	n := procAddr.Add(1)
	return fmt.Sprintf("127.%d.%d.%d", 10+x.R.Worker, 1+n/250%250, 1+n%250)
}

// newPort returns a port that nothing listens on at all addresses.
func newPort(x *X) int {
	for {
		n := 12_000 + x.R.Worker%24*800 + int(procAddr.Add(1))%800
		l, err := net.Listen("tcp", fmt.Sprintf("0.0.0.0:%d", n))
		if err == nil {
			l.Close()
			return n
		}
	}
}

const procLimit = 30 * time.Second

// ---- graceful shutdown (C15) ----

type heldReq struct {
	Kind  string `json:"kind"` // insert, batch, commit, claim, update
	Early bool   `json:"early,omitempty"`
	MS    int    `json:"ms"` // after the signal
	Size  int    `json:"size,omitempty"`
	Keep  bool   `json:"keep,omitempty"` // the connection was used before
}

type downCase struct {
	Tasks   int       `json:"tasks"`
	Held    []heldReq `json:"held"`
	Writers int       `json:"writers"`
	Work    int       `json:"work"` // milliseconds before the signal
	Idle    int       `json:"idle"` // idle connections
	Signal  string    `json:"signal"`
	Again   []int     `json:"again,omitempty"` // milliseconds after which the signal is repeated
	Chore   int       `json:"chore"`           // interval in milliseconds
	Snap    int       `json:"snap"`
	Rounds  int       `json:"rounds"`
	Env     bool      `json:"env,omitempty"`
}

func genDown(t *rapid.T) downCase {
	c := downCase{Tasks: rng(t, 0, 6, "tasks"), Writers: pick(t, "writers", 0, 0, 1, 3), Work: pick(t, "work", 0, 5, 60), Idle: pick(t, "idle", 0, 1, 4),
		Signal: pick(t, "signal", "TERM", "INT"), Chore: pick(t, "chore", 10_000, 20, 0, 3600_000), Snap: pick(t, "snap", 0, 300_000, 30), Rounds: pick(t, "rounds", 1, 1, 2)}
	c.Env = bit.Draw(t, "env")
	c.Held = seq(t, 3, 6, "held", func(t *rapid.T) heldReq {
		return heldReq{Kind: pick(t, "kind", "insert", "batch", "commit", "claim", "update"), Early: oneIn(t, 5, "early"), MS: pick(t, "ms", 0, 30, 150, 400, 700, 1100), Size: pick(t, "size", 0, 0, 5000, 200_000), Keep: oneIn(t, 3, "keep")}
	})
	c.Again = genAgain(t)
	return c
}

// genPatient generates requests that are completed long after the signal.
func genPatient(t *rapid.T) downCase {
	c := downCase{Tasks: rng(t, 0, 3, "tasks"), Signal: pick(t, "signal", "TERM", "INT"), Chore: pick(t, "chore", 10_000, 20, 0, 3600_000), Snap: pick(t, "snap", 0, 300_000, 30), Rounds: 1}
	for i := rng(t, 1, 3, "held"); i > 0; i-- {
		c.Held = append(c.Held, heldReq{Kind: pick(t, "kind", "insert", "batch", "commit", "claim", "update"), MS: pick(t, "ms", 500, 6_000, 11_000, 16_000, 31_000), Size: pick(t, "size", 0, 5000), Keep: oneIn(t, 3, "keep")})
	}
	c.Again = genAgain(t)
	return c
}

func genAgain(t *rapid.T) []int {
	if !oneIn(t, 3, "again") {
		return nil
	}
	return seq(t, 2, 4, "signals", func(t *rapid.T) int { return pick(t, "ms", 1, 0, 5, 20, 100, 300) })
}

// instance starts an instance with a snapshot and waits until it serves.
func instance(x *X, dir, path string, chore, snap int, env bool) (*proc, string) {
	addr, port := newIP(x), newPort(x)
	a := net.JoinHostPort(addr, strconv.Itoa(port))
	set := [][2]string{{"bind", addr}, {"port", strconv.Itoa(port)}, {"memdb-snapshot-path", path}, {"memdb-snapshot-interval", fmt.Sprintf("%dms", snap)}, {"chore-interval", fmt.Sprintf("%dms", chore)}}
	var args, vars []string
	for _, s := range set {
		if env {
			vars = append(vars, strings.ToUpper(strings.ReplaceAll(s[0], "-", "_"))+"="+s[1])
		} else {
			args = append(args, "--"+s[0]+"="+s[1])
		}
	}
	p := spawn(x, dir, args, vars)
	if !p.up(a, procLimit) {
		x.Fail("start", []string{"C13", "C14", "C15", "C30"}, "the instance did not start with %v %v: running %v, output %s", args, vars, p.running(), p.log())
	}
	return p, a
}

// want is the acknowledged state of a task; nil if it was deleted.
type acked struct {
	mu sync.Mutex
	m  map[string]*ratus.Task
	// maybe lists tasks with writes that were not acknowledged.
	maybe map[string]bool
}

func (a *acked) put(id string, t *ratus.Task) {
	a.mu.Lock()
	a.m[id] = t
	a.mu.Unlock()
}

// hold is a request whose body is completed after the signal.
type hold struct {
	req    heldReq
	conn   net.Conn
	rd     *bufio.Reader
	rest   []byte
	accept func(status int, body []byte) string // returns what is wrong
}

func rawRequest(method, target, host string, n int, expect bool) string {
	s := fmt.Sprintf("%s %s HTTP/1.1\r\nHost: %s\r\nContent-Type: application/json\r\nContent-Length: %d\r\n", method, target, host, n)
	if expect {
		s += "Expect: 100-continue\r\n"
	}
	return s + "\r\n"
}

func runDown(x *X, c downCase) {
	dir := caseDir(x)
	path := filepath.Join(dir, "snapshot")
	want := &acked{m: map[string]*ratus.Task{}, maybe: map[string]bool{}}
	inflight := 0
	for round := 0; round < c.Rounds; round++ {
		p, addr := instance(x, dir, path, c.Chore, c.Snap, c.Env)
		// Every connection is one of its own.
		tr := &http.Transport{MaxIdleConnsPerHost: 16}
		defer tr.CloseIdleConnections()
		hc := &http.Client{Transport: tr, Timeout: procLimit}
		call := func(method, target string, body, out any) (int, error) {
			b, err := json.Marshal(body)
			Must(err)
			req, err := http.NewRequest(method, "http://"+addr+"/v1"+target, bytes.NewReader(b))
			Must(err)
			req.Header.Set("Content-Type", "application/json")
			res, err := hc.Do(req)
			if err != nil {
				return 0, err
			}
			defer res.Body.Close()
			rb, err := io.ReadAll(res.Body)
			if err != nil {
				return 0, err
			}
			if out != nil {
				if err := json.Unmarshal(rb, out); err != nil {
					return res.StatusCode, err
				}
			}
			return res.StatusCode, nil
		}
		if round > 0 {
			verifyAcked(x, addr, want, "restarting")
		}
		must := func(st int, err error) {
			if err != nil || st >= 400 {
				x.Fail("setup", []string{"C15"}, "a request failed before the shutdown: %d %v; output %s", st, err, p.log())
			}
		}
		sched := ptr(time.Now().Add(-time.Hour).Truncate(time.Millisecond).UTC())
		mk := func(id string, size int) *ratus.Task {
			return &ratus.Task{ID: id, Topic: "t " + id[:1], Producer: "me", Produced: sched, Scheduled: sched, Payload: map[string]any{"id": id, "pad": strings.Repeat("x", size)}}
		}
		for i := 0; i < c.Tasks; i++ {
			t := mk(fmt.Sprintf("b%d-%d", round, i), 10)
			must(call("POST", "/topics/any/tasks/"+t.ID, t, nil))
			want.put(t.ID, t)
		}
		if c.Tasks > 2 {
			id := fmt.Sprintf("b%d-1", round)
			must(call("DELETE", "/topics/any/tasks/"+id, nil, nil))
			want.put(id, nil)
		}
		// Requests in progress.
		var holds []*hold
		for i, h := range c.Held {
			id := fmt.Sprintf("h%d-%d", round, i)
			method, target := "POST", "/v1/topics/any/tasks/"+id
			var body any
			hd := &hold{req: h}
			switch h.Kind {
			case "insert":
				t := mk(id, h.Size)
				body = t
				hd.accept = func(st int, b []byte) string {
					if st != 201 {
						return "the task was not created"
					}
					want.put(id, t)
					return ""
				}
			case "batch":
				method, target = "PUT", "/v1/topics/any/tasks"
				var ts []*ratus.Task
				for j := 0; j < 5; j++ {
					ts = append(ts, mk(fmt.Sprintf("%s-%d", id, j), h.Size/5))
				}
				body = &ratus.Tasks{Data: ts}
				hd.accept = func(st int, b []byte) string {
					var u ratus.Updated
					if err := json.Unmarshal(b, &u); err != nil || st != 201 || u.Created != 5 {
						return "the tasks were not created"
					}
					for _, t := range ts {
						want.put(t.ID, t)
					}
					return ""
				}
			case "update":
				t := mk(id, 3)
				must(call("POST", "/topics/any/tasks/"+id, t, nil))
				want.put(id, t)
				u := dup(t)
				u.Producer, u.Payload = "other", map[string]any{"pad": strings.Repeat("y", h.Size)}
				method, body = "PUT", u
				hd.accept = func(st int, b []byte) string {
					if st != 200 {
						return "the task was not updated"
					}
					want.put(id, u)
					return ""
				}
			case "claim":
				t := mk(id, 3)
				must(call("POST", "/topics/any/tasks/"+id, t, nil))
				want.put(id, t)
				target = "/v1/topics/any/promises/" + id
				body = &ratus.Promise{ID: id, Timeout: "1h", Consumer: "c" + strings.Repeat("z", h.Size/10)}
				hd.accept = func(st int, b []byte) string {
					var u ratus.Task
					if err := json.Unmarshal(b, &u); err != nil || st != 200 && st != 201 || u.State != ratus.TaskStateActive {
						return "the task was not claimed"
					}
					want.put(id, &u)
					return ""
				}
			case "commit":
				t := mk(id, 3)
				must(call("POST", "/topics/any/tasks/"+id, t, nil))
				var u ratus.Task
				must(call("POST", "/topics/any/promises/"+id, &ratus.Promise{ID: id, Timeout: "1h"}, &u))
				want.put(id, &u)
				method = "PATCH"
				body = &ratus.Commit{Nonce: u.Nonce, State: ptr(ratus.TaskStateArchived), Payload: strings.Repeat("w", h.Size)}
				hd.accept = func(st int, b []byte) string {
					var v ratus.Task
					if err := json.Unmarshal(b, &v); err != nil || st != 200 || v.State != ratus.TaskStateArchived {
						return "the task was not committed"
					}
					want.put(id, &v)
					return ""
				}
			}
			b, err := json.Marshal(body)
			Must(err)
			conn, err := net.DialTimeout("tcp", addr, procLimit)
			if err != nil {
				x.Failp("dial", "connecting failed: %v; output %s", err, p.log())
			}
			defer conn.Close()
			conn.SetDeadline(time.Now().Add(3 * procLimit))
			hd.conn, hd.rd = conn, bufio.NewReader(conn)
			if h.Keep {
				io.WriteString(conn, "GET /v1/livez HTTP/1.1\r\nHost: "+addr+"\r\n\r\n")
				res, err := http.ReadResponse(hd.rd, nil)
				if err != nil {
					x.Failp("keep", "reading a response failed: %v", err)
				}
				io.Copy(io.Discard, res.Body)
			}
			io.WriteString(conn, rawRequest(method, target, addr, len(b), true))
			l, err := hd.rd.ReadString('\n')
			if err != nil || !strings.Contains(l, "100") {
				x.Failp("continue", "a request was answered with %q (%v) before its body", l, err)
			}
			hd.rd.ReadString('\n')
			n := len(b) / 2
			conn.Write(b[:n])
			hd.rest = b[n:]
			holds = append(holds, hd)
		}
		for i := 0; i < c.Idle; i++ {
			conn, err := net.DialTimeout("tcp", addr, procLimit)
			if err != nil {
				x.Failp("dial", "connecting failed: %v", err)
			}
			defer conn.Close()
			io.WriteString(conn, "GET /v1/livez HTTP/1.1\r\nHost: "+addr+"\r\n\r\n")
			rd := bufio.NewReader(conn)
			if res, err := http.ReadResponse(rd, nil); err == nil {
				io.Copy(io.Discard, res.Body)
			}
		}
		// Writers go on until the instance stops serving.
		var wg sync.WaitGroup
		acks := atomic.Int64{}
		for w := 0; w < c.Writers; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 4000; i++ {
					t := mk(fmt.Sprintf("w%d-%d-%d", round, w, i), 20)
					st, err := call("POST", "/topics/any/tasks/"+t.ID, t, nil)
					if err != nil {
						return
					}
					if st == 201 {
						acks.Add(1)
						want.put(t.ID, t)
					}
				}
			}()
		}
		time.Sleep(time.Duration(c.Work) * time.Millisecond)
		finish := func(hd *hold) string {
			if _, err := hd.conn.Write(hd.rest); err != nil {
				return fmt.Sprintf("sending the rest failed: %v", err)
			}
			res, err := http.ReadResponse(hd.rd, nil)
			if err != nil {
				return fmt.Sprintf("it was cut off: %v", err)
			}
			b, err := io.ReadAll(res.Body)
			if err != nil {
				return fmt.Sprintf("its response was cut off: %v", err)
			}
			if w := hd.accept(res.StatusCode, b); w != "" {
				return fmt.Sprintf("%s: %d %s", w, res.StatusCode, shorten(string(b)))
			}
			return ""
		}
		for _, hd := range holds {
			if hd.req.Early {
				if w := finish(hd); w != "" {
					x.Failp("early", "a request (%s) before the shutdown failed: %s", hd.req.Kind, w)
				}
			}
		}
		sig := syscall.SIGTERM
		if c.Signal == "INT" {
			sig = syscall.SIGINT
		}
		p.cmd.Process.Signal(sig)
		for _, ms := range c.Again {
			// Supervisors and impatient users repeat the signal.
			time.AfterFunc(time.Duration(ms)*time.Millisecond, func() { p.cmd.Process.Signal(sig) })
		}
		type result struct {
			h *hold
			w string
		}
		ch := make(chan result, len(holds))
		n := 0
		for _, hd := range holds {
			if hd.req.Early {
				continue
			}
			n++
			go func() {
				time.Sleep(time.Duration(hd.req.MS) * time.Millisecond)
				ch <- result{hd, finish(hd)}
			}()
		}
		for ; n > 0; n-- {
			r := <-ch
			if r.w != "" {
				x.Failp("cut", "a request in progress (%s), completed %d ms after the signal %s, failed: %s; the process runs: %v, output %s", r.h.req.Kind, r.h.req.MS, c.Signal, r.w, p.running(), p.log())
			}
			inflight++
			x.Class("in progress:%s", r.h.req.Kind)
		}
		code, ok := p.exit(procLimit)
		if !ok {
			x.Failp("lingers", "the process did not exit %v after the signal %s; output %s", procLimit, c.Signal, p.log())
		}
		if code != 0 {
			_ = code
			x.Failp("status", "the process exited with %v after the signal %s; output %s", p.cmd.ProcessState, c.Signal, p.log())
		}
		wg.Wait()
		if acks.Load() > 0 {
			x.Class("concurrent writes")
			inflight++
		}
	}
	_, addr := instance(x, dir, path, 3600_000, 3600_000, false)
	verifyAcked(x, addr, want, "shutting down and restarting")
	if inflight > 0 {
		x.NonTrivial()
	}
}

// verifyAcked compares the tasks of an instance with the acknowledged ones.
func verifyAcked(x *X, addr string, want *acked, after string) {
	cl := newClient("http://"+addr, nil)
	ctx := context.Background()
	want.mu.Lock()
	defer want.mu.Unlock()
	n := 0
	for id, t := range want.m {
		got, err := cl.GetTask(ctx, id)
		n++
		switch {
		case t == nil:
			if !errors.Is(err, ratus.ErrNotFound) {
				x.Failp("deleted", "after %s, the deleted task %s is %s (%v)", after, id, show(got), err)
			}
		case err != nil:
			x.Failp("lost", "after %s, the acknowledged task %s is lost (%d of %d checked): %v", after, id, n, len(want.m), err)
		case len(taskDiff(got, t)) > 0:
			x.Failp("changed", "after %s, the task is %s instead of the acknowledged %s", after, shorten(show(got)), shorten(show(t)))
		}
	}
}

// ---- periodic snapshots and kills (C15) ----

type abruptCase struct {
	Writers int  `json:"writers"`
	Work    int  `json:"work"` // milliseconds
	Chore   int  `json:"chore"`
	Snap    int  `json:"snap"`
	Size    int  `json:"size"`
	Rounds  int  `json:"rounds"`
	Env     bool `json:"env,omitempty"`
}

func genAbrupt(t *rapid.T) abruptCase {
	return abruptCase{pick(t, "writers", 1, 2, 5), rng(t, 1, 600, "work"), pick(t, "chore", 1, 7, 40), pick(t, "snap", 0, 1, 25, 60), pick(t, "size", 0, 100, 3000), pick(t, "rounds", 1, 2, 3), bit.Draw(t, "env")}
}

func runAbrupt(x *X, c abruptCase) {
	dir := caseDir(x)
	path := filepath.Join(dir, "snapshot")
	type write struct {
		id string
		at time.Time
	}
	durable := &acked{m: map[string]*ratus.Task{}}
	sched := ptr(time.Now().Add(-time.Hour).Truncate(time.Millisecond).UTC())
	mk := func(id string) *ratus.Task {
		return &ratus.Task{ID: id, Topic: "t", Producer: "me", Produced: sched, Scheduled: sched, Payload: strings.Repeat(id, 1+c.Size/len(id))}
	}
	covered := 0
	for round := 0; round < c.Rounds; round++ {
		p, addr := instance(x, dir, path, c.Chore, c.Snap, c.Env)
		verifyAcked(x, addr, durable, "a kill and restarting")
		var mu sync.Mutex
		var log []write
		stop := make(chan struct{})
		// Watch completed snapshots.
		var changes []time.Time
		var wg sync.WaitGroup
		wg.Add(1)
		go func() {
			defer wg.Done()
			var last os.FileInfo
			for {
				select {
				case <-stop:
					return
				case <-time.After(500 * time.Microsecond):
				}
				i, err := os.Stat(path)
				if err != nil {
					continue
				}
				if last == nil || !os.SameFile(last, i) || !last.ModTime().Equal(i.ModTime()) {
					mu.Lock()
					changes = append(changes, i.ModTime())
					mu.Unlock()
				}
				last = i
			}
		}()
		cl := newClient("http://"+addr, nil)
		for w := 0; w < c.Writers; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; ; i++ {
					t := mk(fmt.Sprintf("k%d-%d-%d", round, w, i))
					if _, err := cl.InsertTask(context.Background(), t); err != nil {
						return
					}
					mu.Lock()
					log = append(log, write{t.ID, time.Now()})
					mu.Unlock()
				}
			}()
		}
		time.Sleep(time.Duration(c.Work) * time.Millisecond)
		p.kill()
		close(stop)
		wg.Wait()
		// A file was modified last before its snapshot completed, and the next
		// snapshot started afterwards.
		if n := len(changes); n >= 2 {
			for _, w := range log {
				if w.at.Before(changes[n-2]) {
					durable.put(w.id, mk(w.id))
					covered++
				}
			}
		}
	}
	_, addr := instance(x, dir, path, 3600_000, 3600_000, false)
	verifyAcked(x, addr, durable, "a kill and restarting")
	if covered > 0 {
		x.NonTrivial()
		x.Class("writes covered by snapshots")
	} else {
		x.Class("nothing covered")
	}
}

func init() {
	register(&Check{ID: "C15", Workers: 24, Assumptions: []string{"requests are in progress once the server asked for their body (100 Continue)", "a snapshot starts after the last modification of the file of the previous one"}, Parts: []Part{
		&prop[downCase]{name: "shutdown", quick: 160, thorough: 8000, shrink: 20 * time.Second,
			rule: "real processes with a snapshot path: acknowledged writes, requests of every kind held in progress with half a body while the signal arrives and completed up to a second later, idle connections and concurrent writers; requests in progress succeed, the process exits with status 0, and the next instance has every acknowledged write; non-trivial: a request was in progress or writers were active", gen: genDown, run: runDown},
		&prop[downCase]{name: "patience", quick: 24, thorough: 480, shrink: time.Second,
			rule: "as shutdown, with requests in progress that are completed up to half a minute after the signal; non-trivial: a request was in progress", gen: genPatient, run: runDown},
		&prop[abruptCase]{name: "kill", quick: 64, thorough: 3000, shrink: 20 * time.Second,
			rule: "real processes writing periodic snapshots under concurrent writers, killed at generated times: the next instance starts and has every write acknowledged before the start of a completed snapshot; non-trivial: at least one such write", gen: genAbrupt, run: runAbrupt},
	}})
}
