package main

import (
	"bytes"
	"context"
	"encoding/gob"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"syscall"
	"time"

	"pgregory.net/rapid"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/engine/memdb"
)

func workerDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return work
}

// caseDir creates a scratch directory that is removed at the end of the case.
func caseDir(x *X) string {
	d, err := os.MkdirTemp(workerDir(), "case")
	Must(err)
	x.Defer(func() { os.RemoveAll(d) })
	return d
}

func newSnap(path string, interval, retention time.Duration) *memdb.Engine {
	g, err := memdb.New(&memdb.Config{SnapshotPath: path, SnapshotInterval: interval, RetentionPeriod: retention})
	if err != nil {
		panic(&failure{nil, "new", fmt.Sprintf("creating the engine failed: %v", err)})
	}
	return g
}

// dump returns all tasks of an engine by ID.
func dump(g interface {
	ListTopics(ctx context.Context, limit, offset int) ([]*ratus.Topic, error)
	ListTasks(ctx context.Context, topic string, limit, offset int) ([]*ratus.Task, error)
}) map[string]*ratus.Task {
	ctx := context.Background()
	m := map[string]*ratus.Task{}
	ts, err := g.ListTopics(ctx, 1<<20, 0)
	if err != nil {
		panic(&failure{nil, "dump", fmt.Sprintf("listing topics failed: %v", err)})
	}
	for _, t := range ts {
		v, err := g.ListTasks(ctx, t.Name, 1<<20, 0)
		if err != nil {
			panic(&failure{nil, "dump", fmt.Sprintf("listing tasks failed: %v", err)})
		}
		for _, k := range v {
			m[k.ID] = k
		}
	}
	return m
}

// exactDiff compares two sets of tasks including representations of times and
// the types within payloads.
func exactDiff(got, want map[string]*ratus.Task) string {
	for id, w := range want {
		g := got[id]
		if g == nil {
			return fmt.Sprintf("task %q is missing, should be %s", id, show(w))
		}
		if show(g) != show(w) {
			return fmt.Sprintf("task %q is %s, should be %s", id, show(g), show(w))
		}
		if len(taskDiff(g, w)) > 0 || !reflect.DeepEqual(g.Payload, w.Payload) {
			return fmt.Sprintf("task %q is %#v, should be %#v", id, g, w)
		}
	}
	for id, g := range got {
		if want[id] == nil {
			return fmt.Sprintf("task %q should not exist: %s", id, show(g))
		}
	}
	return ""
}

// C13: histories with restarts.

type snapHistory struct {
	History
	Interval int64  `json:"interval"`
	Crash    bool   `json:"crash"`
	Aged     int64  `json:"aged,omitempty"`     // seconds by which snapshot files seem older
	Name     string `json:"name,omitempty"`     // of the snapshot file
	Relative bool   `json:"relative,omitempty"` // the path is relative
}

// genSnapName draws a name of a snapshot file.
func genSnapName(t *rapid.T) string {
	if !oneIn(t, 3, "named") {
		return ""
	}
	return pick(t, "file", "100%", "%s", "%d%d", "a%!b", "*", "sn*ap", "?", "[a]", "a b", " a", "a ", "-", "-f", "~", "$HOME", ".hidden", "a.", "..a", "a.b.c", "db.gob", "Snapshot", "a\\b", "a:b", "a'b\"c", "a\nb", "\u00fc\u4e16", "a#b", "a;b", "%s/db", "%[2]s/%d", "100%/a", "a b/c", "*/snapshot", "[a/b", "~/db", "tmp/tmp", "snapshot.d/snapshot", ".a/.b", "tmp", "snapshot.tmp", "snapshot.gz", "snapshot~", strings.Repeat("long", 40))
}

// place returns the path of the snapshot in dir.
func place(dir, name string) string {
	if name == "" {
		name = "snapshot"
	}
	path := dir + "/" + name
	Must(os.MkdirAll(filepath.Dir(path), 0o755))
	return path
}

// touch makes a file look older (or newer) than it is.
func touch(path string, aged int64) {
	if aged != 0 {
		t := time.Now().Add(-time.Duration(aged) * time.Second)
		if err := os.Chtimes(path, t, t); !errors.Is(err, fs.ErrNotExist) {
			Must(err)
		}
	}
}

func genAged(t *rapid.T) int64 {
	if !oneIn(t, 3, "aged") {
		return 0
	}
	return pick[int64](t, "age", 3600, 90000, 8*86400, 40*86400, 400*86400, 50*365*86400, -3600, -400*86400)
}

func runSnap(x *X, h snapHistory) {
	dir := caseDir(x)
	path := place(dir, h.Name)
	if h.Relative {
		wd, err := os.Getwd()
		Must(err)
		path, err = filepath.Rel(wd, path)
		Must(err)
	}
	ctx := context.Background()
	open := func() *memdb.Engine {
		touch(path, h.Aged)
		g := newSnap(path, time.Duration(h.Interval), time.Duration(h.Retention))
		if err := g.Open(ctx); err != nil {
			x.Failp("open", "opening the saved snapshot failed: %v", err)
		}
		return g
	}
	e := &engineExec{g: open()}
	d := newDriver(x, memMode(h.Retention), e)
	d.names(h.History)
	// States that an abrupt end may leave in the snapshot: the last one that
	// must have been saved and later ones that may have been.
	saved := []*State{newState()}
	var last time.Time
	first := true
	reopen := func(kind string) {
		switch kind {
		case "close":
			before := dump(e.g)
			if err := e.g.Close(ctx); err != nil {
				x.Failp("close", "closing failed: %v", err)
			}
			e.g = open()
			if s := exactDiff(dump(e.g), before); s != "" {
				x.Failp("restored", "after closing and reopening: %s", s)
			}
			x.Class("reopened")
			if len(before) > 0 {
				x.Class("reopened-nonempty")
			}
		case "destroy":
			if err := e.g.Destroy(ctx); err != nil {
				x.Failp("destroy", "destroying failed: %v", err)
			}
			e.g = open()
			d.state.Tasks = map[string]*ratus.Task{}
			x.Class("destroyed")
		case "crash":
			// Abandon the instance without closing it.
			e.g = open()
			got := dump(e.g)
			var s string
			ok := false
			for _, st := range saved {
				if s = exactDiff(got, st.Tasks); s == "" || sameTasks(got, st.Tasks) {
					d.state.Tasks = st.clone().Tasks
					ok = true
					break
				}
			}
			if !ok {
				x.Failp("periodic", "after a crash the store is not in the state of the last completed snapshot: %s", s)
			}
			x.Class("crashed")
			if len(got) > 0 {
				x.Class("crashed-nonempty")
			}
		}
		first = true
		saved = []*State{d.state.clone()}
	}
	for _, o := range h.Ops {
		if o.K == opOpen {
			d.log = append(d.log, "reopen "+o.ID)
			reopen(o.ID)
			d.audit(&Call{Op: Op{K: opOpen}}, d.state.Tasks)
			continue
		}
		d.step(o)
		if o.K == opChore {
			now := d.clk.Now()
			if first || now.Sub(last) > time.Duration(h.Interval)+time.Millisecond {
				saved = []*State{d.state.clone()}
				last, first = now, false
			} else {
				if now.Sub(last) >= time.Duration(h.Interval) {
					last = now
				}
				saved = append(saved, d.state.clone())
			}
		}
	}
	d.log = append(d.log, "reopen close")
	reopen("close")
	d.audit(&Call{Op: Op{K: opOpen}}, d.state.Tasks)
	if x.classes["reopened-nonempty"]+x.classes["crashed-nonempty"] > 0 {
		x.NonTrivial()
	}
}

func sameTasks(a, b map[string]*ratus.Task) bool {
	if len(a) != len(b) {
		return false
	}
	for id, t := range a {
		if b[id] == nil || len(taskDiff(t, b[id])) > 0 {
			return false
		}
	}
	return true
}

func genSnap(p *Profile, crash bool) func(t *rapid.T) snapHistory {
	return func(t *rapid.T) snapHistory {
		h := snapHistory{History: genHistory(t, p), Crash: crash, Aged: genAged(t), Name: genSnapName(t), Relative: oneIn(t, 6, "relative")}
		h.Interval = pick(t, "interval", int64(0), int64(time.Second), int64(time.Minute), int64(5*time.Minute), 1)
		for i := range h.Ops {
			if h.Ops[i].K == opOpen {
				h.Ops[i].ID = pick(t, "reopen", "close", "close", "close", "crash", "destroy")
				if crash {
					h.Ops[i].ID = pick(t, "reopen", "crash", "crash", "close")
				}
			}
		}
		return h
	}
}

// C14: faults while saving.

type saveCase struct {
	A       []T    `json:"a"`
	B       []T    `json:"b"`
	Delete  bool   `json:"delete"` // tasks of A are deleted first
	Chore   bool   `json:"chore"`  // save by the background job instead of closing
	Crash   bool   `json:"crash"`  // the process dies at the failing write
	Mille   int    `json:"mille"`  // where writing fails, in thousandths of the size
	Delta   int    `json:"delta"`  // plus this many bytes
	Stray   []int  `json:"stray"`  // stray files beside the snapshot
	NoFirst bool   `json:"nofirst"`
	Name    string `json:"name,omitempty"` // of the snapshot file
	Files   uint64 `json:"files"`          // limit of open files, 0 for none
}

type saveArgs struct {
	Path   string
	Case   saveCase
	Limit  uint64
	Report bool
}

func applySave(g *memdb.Engine, c *saveCase) error {
	ctx := context.Background()
	if c.Delete {
		if _, err := g.DeleteTopics(ctx); err != nil {
			return err
		}
	}
	for _, t := range c.B {
		if _, err := g.UpsertTask(ctx, t.task(epoch)); err != nil {
			return err
		}
	}
	return nil
}

func init() {
	children["save"] = func(args []string) {
		var a saveArgs
		b, err := os.ReadFile(args[0])
		Must(err)
		Must(json.Unmarshal(b, &a))
		ctx := context.Background()
		g := newSnap(a.Path, 0, 1<<62)
		if err := g.Open(ctx); err != nil {
			fmt.Println("open", err)
			return
		}
		Must(applySave(g, &a.Case))
		if !a.Case.Crash {
			signal.Ignore(syscall.SIGXFSZ)
		}
		if a.Case.Files > 0 {
			Must(syscall.Setrlimit(syscall.RLIMIT_NOFILE, &syscall.Rlimit{Cur: a.Case.Files, Max: a.Case.Files}))
		}
		Must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: a.Limit, Max: a.Limit}))
		fmt.Println("saving")
		if a.Case.Chore {
			err = g.Chore(ctx)
		} else {
			err = g.Close(ctx)
		}
		if err != nil {
			fmt.Println("failed", strings.ReplaceAll(err.Error(), "\n", " "))
		} else {
			fmt.Println("saved")
		}
	}
	children["saver"] = func(args []string) {
		ctx := context.Background()
		n, _ := strconv.Atoi(args[1])
		g := newSnap(args[0], 0, 1<<62)
		Must(g.Open(ctx))
		pad := strings.Repeat("p", 64)
		for k := 1; ; k++ {
			var ts []*ratus.Task
			for i := 0; i < n; i++ {
				ts = append(ts, &ratus.Task{ID: fmt.Sprint(i), Topic: "t", Payload: map[string]any{"v": float64(k), "pad": pad}})
			}
			if _, err := g.UpsertTasks(ctx, ts); err != nil {
				fmt.Println("error", err)
				return
			}
			if err := g.Chore(ctx); err != nil {
				fmt.Println("error", err)
				return
			}
			fmt.Println("saved", k)
		}
	}
}

func writeStray(dir, path string, kinds []int, content []byte) {
	for i, k := range kinds {
		names := []string{path + ".tmp", path + ".abcdefgh", path + "~", path + ".bak", filepath.Join(dir, ".snapshot"), path + ".0", path + ".old"}
		b := content
		switch k % 3 {
		case 1:
			b = []byte("garbage")
		case 2:
			b = content[:len(content)/2]
		}
		Must(os.WriteFile(names[(k+i)%len(names)], b, 0o644))
	}
}

// still returns the tasks without what a background job would change.
func still(chore bool, v []T) []T {
	v = append([]T{}, v...)
	for i := range v {
		if chore && v[i].State == int(ratus.TaskStateActive) {
			v[i].Deadline = TS{}
		}
		if chore && v[i].State == int(ratus.TaskStateCompleted) {
			v[i].Consumed = TS{}
		}
	}
	return v
}

func runSave(x *X, c saveCase) {
	c.A, c.B = still(c.Chore, c.A), still(c.Chore, c.B)
	dir := caseDir(x)
	path := place(dir, c.Name)
	ctx := context.Background()

	// The previous snapshot.
	a := newSnap(path, 0, 1<<62)
	Must(a.Open(ctx))
	for _, t := range c.A {
		_, err := a.UpsertTask(ctx, t.task(epoch))
		Must(err)
	}
	stateA := dump(a)
	if c.NoFirst {
		stateA = map[string]*ratus.Task{}
		Must(a.Open(ctx)) // nothing saved
	} else if err := a.Close(ctx); err != nil {
		x.Failp("close", "closing failed: %v", err)
	}

	// The next state, and the size of its snapshot.
	other := filepath.Join(dir, "other")
	Must(os.Mkdir(other, 0o755))
	b := newSnap(filepath.Join(other, "snapshot"), 0, 1<<62)
	Must(b.Open(ctx))
	if !c.NoFirst {
		for _, t := range c.A {
			_, err := b.UpsertTask(ctx, t.task(epoch))
			Must(err)
		}
	}
	Must(applySave(b, &c))
	stateB := dump(b)
	if err := b.Close(ctx); err != nil {
		x.Failp("close", "closing failed: %v", err)
	}
	content, err := os.ReadFile(filepath.Join(other, "snapshot"))
	if err != nil {
		x.Failp("nofile", "closing wrote no snapshot: %v", err)
	}
	writeStray(dir, path, c.Stray, content)
	limit := len(content)*c.Mille/1000 + c.Delta
	if limit < 0 {
		limit = 0
	}

	// Save in another process under the fault.
	args, _ := json.Marshal(saveArgs{Path: path, Case: c, Limit: uint64(limit)})
	af := filepath.Join(dir, "args")
	Must(os.WriteFile(af, args, 0o644))
	out, _ := runChild("save", af)
	if strings.HasPrefix(out, "open") {
		x.Failp("open", "opening a complete snapshot failed: %s", out)
	}
	if !strings.HasPrefix(out, "saving") {
		bug("the saving process did not get to saving: %s", out)
	}
	result := "died"
	if strings.Contains(out, "\nsaved") {
		result = "saved"
	} else if strings.Contains(out, "\nfailed") {
		result = "failed"
	} else if !c.Crash {
		bug("the saving process gave no result: %s", out)
	}
	x.Class("result:%s", result)
	if result != "saved" {
		x.NonTrivial()
	}

	// The snapshot must hold one of the states, and a reported result is true.
	g := newSnap(path, 0, 1<<62)
	if err := g.Open(ctx); err != nil {
		x.Failp("damaged", "after a save that %s, writing at most %d of %d bytes, the snapshot cannot be opened: %v", result, limit, len(content), err)
	}
	got := dump(g)
	da, db := exactDiff(got, stateA), exactDiff(got, stateB)
	switch {
	case da != "" && db != "":
		x.Failp("damaged", "after a save that %s, writing at most %d of %d bytes, the snapshot is neither the previous (%s) nor the new one (%s)", result, limit, len(content), da, db)
	case result == "saved" && db != "":
		x.Failp("unreported", "a save that could write at most %d of %d bytes reported success, but the snapshot is not the new one: %s", limit, len(content), db)
	case result == "failed" && da != "":
		x.Failp("failed-replaced", "a save that failed replaced the previous snapshot: %s", da)
	}

	// The remains do not get in the way of the next save.
	if _, err := g.UpsertTask(ctx, &ratus.Task{ID: "next", Topic: "next", Payload: "x"}); err != nil {
		x.Failp("next", "writing after a restart failed: %v", err)
	}
	want := dump(g)
	if err := g.Close(ctx); err != nil {
		x.Failp("next", "saving after a restart failed: %v", err)
	}
	n := newSnap(path, 0, 1<<62)
	if err := n.Open(ctx); err != nil {
		x.Failp("next", "opening the next snapshot failed: %v", err)
	}
	if s := exactDiff(dump(n), want); s != "" {
		x.Failp("next", "the next snapshot differs: %s", s)
	}
}

func runChild(name string, args ...string) (string, error) {
	self, err := os.Executable()
	Must(err)
	var out, errb bytes.Buffer
	cmd := exec.Command(self, append([]string{"child:" + name}, args...)...)
	cmd.Stdout, cmd.Stderr = &out, &errb
	err = cmd.Run()
	s := out.String()
	if err != nil {
		e := errb.String()
		if len(e) > 500 {
			e = e[:500]
		}
		if strings.Contains(e, "HarnessError") || strings.Contains(e, "harness") && !strings.Contains(e, "SIGXFSZ") {
			bug("child %s: %v %s", name, err, e)
		}
	}
	return s, err
}

func genTasks(t *rapid.T, label string, max int, p *Profile) []T {
	ids := []string{"a", "b", "c", "d", "e", "f", "g", "h"}
	n := rng(t, 0, max, label+"-n")
	var v []T
	for i := 0; i < n; i++ {
		v = append(v, genTask(t, p, ids, []string{"x", "y"}))
	}
	return v
}

func genSave(t *rapid.T) saveCase {
	p := &Profile{AnyState: true, Time: genTime, Payload: genPayload}
	c := saveCase{A: genTasks(t, "a", 6, p), B: genTasks(t, "b", 6, p)}
	c.Delete = oneIn(t, 3, "delete")
	c.Chore = oneIn(t, 2, "chore")
	c.Crash = oneIn(t, 2, "crash")
	c.NoFirst = oneIn(t, 6, "nofirst")
	c.Name = genSnapName(t)
	c.Mille = pick(t, "mille", 1000, 0, 500, 900, -1)
	if c.Mille < 0 {
		c.Mille = rng(t, 0, 1000, "mille")
	}
	c.Delta = pick(t, "delta", 0, -1, 1, 3, -5)
	c.Stray = seq(t, 2, 4, "stray", func(t *rapid.T) int { return intn(t, 21, "stray") })
	if !c.Crash && oneIn(t, 8, "files") {
		c.Files = uint64(rng(t, 3, 8, "files"))
	}
	return c
}

type killCase struct {
	Tasks int `json:"tasks"`
	Micro int `json:"micro"` // microseconds from the first save to the kill
}

func runKill(x *X, c killCase) {
	dir := caseDir(x)
	path := filepath.Join(dir, "snapshot")
	self, err := os.Executable()
	Must(err)
	cmd := exec.Command(self, "child:saver", path, fmt.Sprint(c.Tasks))
	pr, err := cmd.StdoutPipe()
	Must(err)
	Must(cmd.Start())
	lines := make(chan string, 1<<16)
	go func() {
		b, last := make([]byte, 1<<16), ""
		for {
			n, err := pr.Read(b)
			last += string(b[:n])
			for {
				i := strings.IndexByte(last, '\n')
				if i < 0 {
					break
				}
				lines <- last[:i]
				last = last[i+1:]
			}
			if err != nil {
				close(lines)
				return
			}
		}
	}()
	first, ok := <-lines
	if !ok || !strings.HasPrefix(first, "saved") {
		cmd.Process.Kill()
		cmd.Wait()
		x.Failp("save", "saving fails: %q", first)
	}
	time.Sleep(time.Duration(c.Micro) * time.Microsecond)
	cmd.Process.Kill()
	reported := 1
	for l := range lines {
		var k int
		if _, err := fmt.Sscanf(l, "saved %d", &k); err == nil {
			reported = k
		} else {
			x.Failp("save", "saving fails: %q", l)
		}
	}
	cmd.Wait()
	es, err := os.ReadDir(dir)
	Must(err)
	x.Class("leftovers:%d", len(es)-1)
	if len(es) > 1 {
		x.NonTrivial()
	}
	ctx := context.Background()
	g := newSnap(path, 0, 1<<62)
	if err := g.Open(ctx); err != nil {
		x.Failp("damaged", "after a kill the snapshot cannot be opened: %v", err)
	}
	got := dump(g)
	if len(got) != c.Tasks {
		x.Failp("damaged", "after a kill the snapshot holds %d of %d tasks", len(got), c.Tasks)
	}
	v := -1.0
	for _, t := range got {
		m, _ := t.Payload.(map[string]any)
		k, _ := m["v"].(float64)
		if v < 0 {
			v = k
		}
		if k != v {
			x.Failp("mixed", "after a kill the snapshot holds tasks of versions %v and %v", v, k)
		}
	}
	if int(v) < reported {
		x.Failp("lost", "after a kill the snapshot holds version %v although saving version %d was reported", v, reported)
	}
	if err := g.Close(ctx); err != nil {
		x.Failp("next", "saving after a kill failed: %v", err)
	}
}

// blocked paths

type pathCase struct {
	Kind  string `json:"kind"`
	A     []T    `json:"a"`
	B     []T    `json:"b"`
	Chore bool   `json:"chore"`
}

func runPath(x *X, c pathCase) {
	c.A, c.B = still(c.Chore, c.A), still(c.Chore, c.B)
	dir := caseDir(x)
	sub := filepath.Join(dir, "sub")
	Must(os.Mkdir(sub, 0o755))
	path := filepath.Join(sub, "snapshot")
	ctx := context.Background()
	g := newSnap(path, 0, 1<<62)
	Must(g.Open(ctx))
	for _, t := range c.A {
		_, err := g.UpsertTask(ctx, t.task(epoch))
		Must(err)
	}
	save := func() error {
		if c.Chore {
			return g.Chore(ctx)
		}
		return g.Close(ctx)
	}
	if err := save(); err != nil {
		x.Failp("save", "saving failed: %v", err)
	}
	stateA := dump(g)
	for _, t := range c.B {
		_, err := g.UpsertTask(ctx, t.task(epoch))
		Must(err)
	}
	stateB := dump(g)
	away := filepath.Join(dir, "away")
	restore := func() {}
	switch c.Kind {
	case "directory": // the path has become a directory that is not empty
		Must(os.Rename(path, away))
		Must(os.MkdirAll(filepath.Join(path, "x"), 0o755))
		restore = func() {
			if _, err := os.Stat(filepath.Join(path, "x")); err != nil {
				x.Failp("replaced-directory", "saving removed a directory in place of the snapshot")
			}
			Must(os.RemoveAll(path))
			Must(os.Rename(away, path))
		}
	case "missing": // its directory has gone
		Must(os.Rename(sub, away))
		restore = func() { os.RemoveAll(sub); Must(os.Rename(away, sub)) }
	case "file": // its directory has become a file
		Must(os.Rename(sub, away))
		Must(os.WriteFile(sub, []byte("x"), 0o644))
		restore = func() { os.RemoveAll(sub); Must(os.Rename(away, sub)) }
	}
	err := save()
	restore()
	x.Class("%s:%v", c.Kind, err != nil)
	if c.Kind != "none" {
		x.NonTrivial()
		if err == nil {
			x.Failp("unreported", "saving to an unusable path (%s) reported success", c.Kind)
		}
	} else if err != nil {
		x.Failp("save", "saving failed: %v", err)
	}
	want := stateA
	if c.Kind == "none" {
		want = stateB
	}
	check := func(want map[string]*ratus.Task) {
		n := newSnap(path, 0, 1<<62)
		if err := n.Open(ctx); err != nil {
			x.Failp("damaged", "after a failed save (%s) the snapshot cannot be opened: %v", c.Kind, err)
		}
		if s := exactDiff(dump(n), want); s != "" {
			x.Failp("damaged", "after a failed save (%s) the snapshot differs from the previous one: %s", c.Kind, s)
		}
	}
	check(want)
	if s := exactDiff(dump(g), stateB); s != "" {
		x.Failp("store", "a failed save changed the store: %s", s)
	}
	// The instance goes on and can save again.
	if err := save(); err != nil {
		x.Failp("save", "saving failed after the path became usable again: %v", err)
	}
	check(stateB)
}

// corrupt snapshots

type corruptCase struct {
	A     []T    `json:"a"`
	Kind  string `json:"kind"`
	Pos   int    `json:"pos"` // thousandths of the size
	Bytes []int  `json:"bytes"`
	Stray []int  `json:"stray"`
}

// gobDecode is an independent reading of the snapshot format.
func gobDecode(b []byte) (m map[string]*ratus.Task, err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("panic: %v", e)
		}
	}()
	dec := gob.NewDecoder(bytes.NewReader(b))
	m = map[string]*ratus.Task{}
	for {
		var t ratus.Task
		if err := dec.Decode(&t); err != nil {
			if errors.Is(err, io.EOF) {
				return m, nil
			}
			return m, err
		}
		t.Payload = emptyLists(t.Payload)
		m[t.ID] = &t
	}
}

// emptyLists turns the nil slices that the decoder makes of empty lists into
// empty lists.
func emptyLists(v any) any {
	switch u := v.(type) {
	case []any:
		if u == nil {
			return []any{}
		}
		for i := range u {
			u[i] = emptyLists(u[i])
		}
	case map[string]any:
		for k := range u {
			u[k] = emptyLists(u[k])
		}
	}
	return v
}

func runCorrupt(x *X, c corruptCase) {
	dir := caseDir(x)
	path := filepath.Join(dir, "snapshot")
	ctx := context.Background()
	g := newSnap(path, 0, 1<<62)
	Must(g.Open(ctx))
	for _, t := range c.A {
		_, err := g.UpsertTask(ctx, t.task(epoch))
		Must(err)
	}
	want := dump(g)
	if err := g.Close(ctx); err != nil {
		x.Failp("close", "closing failed: %v", err)
	}
	b, err := os.ReadFile(path)
	if err != nil {
		x.Failp("nofile", "closing wrote no snapshot: %v", err)
	}
	ref, err := gobDecode(b)
	known := err == nil && sameTasks(ref, want)
	x.Class("format-known:%v", known)
	p := len(b) * c.Pos / 1000
	if p > len(b) {
		p = len(b)
	}
	var extra []byte
	for _, v := range c.Bytes {
		extra = append(extra, byte(v))
	}
	n := append([]byte(nil), b...)
	switch c.Kind {
	case "truncate":
		n = n[:p]
	case "flip":
		for i, v := range extra {
			if p+i < len(n) {
				n[p+i] ^= v
			}
		}
	case "insert":
		n = append(append(append([]byte(nil), b[:p]...), extra...), b[p:]...)
	case "remove":
		q := p + len(extra)
		if q > len(b) {
			q = len(b)
		}
		n = append(append([]byte(nil), b[:p]...), b[q:]...)
	case "append":
		n = append(n, extra...)
	case "garbage":
		n = extra
	case "zeros":
		n = make([]byte, len(b)*c.Pos/1000)
	}
	Must(os.WriteFile(path, n, 0o644))
	writeStray(dir, path, c.Stray, b)
	dec, derr := gobDecode(n)
	o := newSnap(path, 0, 1<<62)
	oerr := o.Open(ctx)
	x.Class("%s:opened=%v", c.Kind, oerr == nil)
	if derr != nil {
		x.NonTrivial()
	}
	if !known {
		// Another format: at least it must not start empty.
		if oerr == nil && derr != nil && c.Kind != "zeros" && !bytes.Equal(n, b) && len(want) > 0 && len(n) > 0 && len(dump(o)) == 0 {
			x.Failp("corrupt-empty", "opening a corrupt snapshot started with an empty store")
		}
		return
	}
	if derr != nil && oerr == nil {
		x.Failp("corrupt-opened", "a corrupt snapshot (%s at %d of %d bytes: %v) was opened with %d tasks", c.Kind, p, len(b), derr, len(dump(o)))
	}
	if derr == nil && oerr == nil {
		if got := dump(o); !sameTasks(got, dec) && len(dec) > 0 {
			for id, t := range dec {
				// Tasks without an ID or topic cannot be stored.
				if id == "" || t.Topic == "" {
					return
				}
			}
			x.Failp("corrupt-differs", "the store opened from a snapshot differs from its content: %s", exactDiff(got, dec))
		}
	}
	if bytes.Equal(n, b) && oerr != nil {
		x.Failp("open", "opening an intact snapshot failed: %v", oerr)
	}
}

func init() {
	snapW := with(opOpen, 6, opInserts, 10, opPoll, 14, opChore, 6)
	register(&Check{ID: "C13", Parts: []Part{
		&prop[snapHistory]{name: "restarts", quick: 5000, thorough: 200000,
			rule: "random histories on an in-memory engine with a snapshot path in which the engine is closed and reopened at random points, the complete store compared field by field before and after and the reference model continued; non-trivial: a store with tasks was reopened",
			gen:  genSnap(&Profile{AnyState: true, Names: namesBytes, Payload: genPayload, Weights: snapW}, false), run: runSnap},
		httpSnap(Profile{AnyState: true, Names: namesText, Payload: genPayload, Weights: snapW}, 4000, 150000),
	}})
	p := &Profile{AnyState: true, Time: genTime, Payload: genPayload}
	register(&Check{ID: "C14", Level: "fault_enumeration", Parts: []Part{
		&prop[saveCase]{name: "write-faults", quick: 700, thorough: 30000,
			rule: "random previous and next states; saving runs in a process whose writes fail (or which dies) at a chosen byte or whose open files are limited, with stray files beside the snapshot; non-trivial: the save failed or the process died",
			gen:  genSave, run: runSave},
		&prop[pathCase]{name: "blocked-path", quick: 1500, thorough: 60000,
			rule: "random states, saving while the snapshot path cannot be replaced; non-trivial: the path was blocked",
			gen: func(t *rapid.T) pathCase {
				return pathCase{Kind: pick(t, "kind", "directory", "missing", "file", "none"), A: genTasks(t, "a", 5, p), B: genTasks(t, "b", 5, p), Chore: oneIn(t, 2, "chore")}
			}, run: runPath},
		&prop[corruptCase]{name: "corrupt", quick: 6000, thorough: 300000,
			rule: "random states whose snapshot is truncated, altered, extended or replaced, with an independent decoder deciding whether the result is still a complete snapshot; non-trivial: it is not",
			gen: func(t *rapid.T) corruptCase {
				c := corruptCase{A: genTasks(t, "a", 6, p)}
				c.Kind = pick(t, "kind", "truncate", "truncate", "flip", "insert", "remove", "append", "garbage", "zeros")
				c.Pos = rng(t, 0, 1000, "pos")
				c.Bytes = seq(t, 4, 24, "bytes", func(t *rapid.T) int { return intn(t, 256, "byte") })
				if oneIn(t, 3, "stray") {
					c.Stray = []int{intn(t, 21, "stray")}
				}
				return c
			}, run: runCorrupt},
		&prop[killCase]{name: "kill", quick: 140, thorough: 4000,
			rule: "a process that saves consecutive versions of its tasks is killed at a random moment; non-trivial: a partial file was left behind",
			gen: func(t *rapid.T) killCase {
				return killCase{Tasks: rng(t, 1, 200, "tasks"), Micro: rng(t, 0, 20000, "micro")}
			}, run: runKill},
	}, Assumptions: []string{"crashes are process crashes: the loss of written but unsynced file data in a power failure is not simulated"}})
}
