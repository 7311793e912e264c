// Command verifharness decides the listed properties of Ratus by generated
// inputs. It is injected into the module by an overlay, see /verif/check.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"runtime"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
)

// Check is the check of one property.
type Check struct {
	ID          string
	Level       string
	Assumptions []string
	Workers     int
	Parts       []Part
}

var checks = map[string]*Check{}

func register(c *Check) {
	if c.Level == "" {
		c.Level = "exploration"
	}
	checks[c.ID] = c
}

var extensions []func()

// setup are functions to call once at the start.
var setup []func()

// extend adds a part to a check that is registered elsewhere.
func extend(id string, p Part) {
	extensions = append(extensions, func() { checks[id].Parts = append(checks[id].Parts, p) })
}

var (
	home = os.Getenv("VERIF_HOME")
	work = os.Getenv("VERIF_WORK")
	repo = os.Getenv("VERIF_REPO")
)

type workerOut struct {
	Stats    map[string]*Stats `json:"stats"`
	Known    map[string]string `json:"known"`
	Found    *Violation        `json:"found"`
	Error    string            `json:"error"`
	Children float64           `json:"-"`
}

// Interrupts are ignored in background jobs of shells. The processes that this
// one starts would inherit it, unless it handles them itself.
func init() {
	ch := make(chan os.Signal, 1)
	signal.Notify(ch, os.Interrupt)
	go func() {
		<-ch
		os.Exit(130)
	}()
}

func main() {
	if len(os.Args) > 1 && strings.HasPrefix(os.Args[1], "child:") {
		child(os.Args[1][6:], os.Args[2:])
		return
	}
	testing.Init()
	for _, f := range setup {
		f()
	}
	for _, f := range extensions {
		f()
	}
	worker := flag.Int("worker", -1, "run as this worker")
	workers := flag.Int("workers", 0, "number of workers")
	out := flag.String("out", "", "output of the worker")
	replay := flag.String("replay", "", "run a saved case")
	part := flag.String("part", "", "run only this part")
	list := flag.Bool("list", false, "list the checks")
	budget := flag.Duration("budget", 0, "time budget")
	flag.Parse()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 63)
	if err != nil {
		seed = 1
	}
	if *list {
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			for _, p := range checks[id].Parts {
				fmt.Println(id, p.Name())
			}
		}
		return
	}
	if *replay != "" {
		probeClock()
		os.Exit(replayFile(*replay, tier, seed))
	}
	id := flag.Arg(0)
	c := checks[id]
	if c == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", id)
		os.Exit(2)
	}
	b := 120 * time.Second
	if tier == "thorough" {
		b = 700 * time.Second
	}
	if *budget > 0 {
		b = *budget
	}
	probeClock()
	if f := os.Getenv("VERIF_PROFILE"); f != "" && *worker == 0 {
		if w, err := os.Create(f); err == nil {
			pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
	}
	if *worker >= 0 {
		runWorker(c, tier, seed, *worker, *workers, b, *part, *out)
		return
	}
	os.Exit(parent(c, tier, seed, b, *part, *workers))
}

func known(id string) map[string]string {
	m := map[string]string{}
	f, err := os.Open(filepath.Join(home, "KNOWN_FINDINGS"))
	if err != nil {
		return m
	}
	defer f.Close()
	s := bufio.NewScanner(f)
	for s.Scan() {
		// known: property=C01 key=some-key what fails
		l := s.Text()
		if !strings.HasPrefix(l, "known: property="+id+" key=") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "known: property="+id+" key="), " ", 2)
		if len(f) == 2 {
			m[f[0]] = f[1]
		}
	}
	return m
}

// hangLimit is the time after which a case counts as hanging; cases take
// milliseconds, or a few seconds at most.
const hangLimit = 240 * time.Second

// crashed turns the death of a worker into a violation if code of the
// repository caused it.
func crashed(log, caseFile string) *Violation {
	i := strings.Index(log, "fatal error: ")
	if j := strings.Index(log, "panic: "); j >= 0 && (i < 0 || j < i) {
		i = j
	}
	if i < 0 || strings.Contains(log, "HarnessError") || strings.Contains(log, "out of memory") || strings.Contains(log, "cannot allocate") {
		return nil
	}
	// Only the goroutine that failed counts.
	s := log[i:]
	if j := strings.Index(s, "\n\ngoroutine "); j >= 0 {
		if k := strings.Index(s[j+2:], "\n\n"); k >= 0 {
			s = s[:j+2+k]
		}
	}
	if !fromRepo(s) {
		return nil
	}
	b, err := os.ReadFile(caseFile)
	if err != nil {
		return nil
	}
	var part string
	var n int
	k := strings.IndexByte(string(b), '\n')
	if k < 0 {
		return nil
	}
	if _, err := fmt.Sscanf(string(b[:k]), "%s %d", &part, &n); err != nil || k+1+n > len(b) {
		return nil
	}
	return &Violation{Part: part, Key: "crash", Msg: "the process crashed: " + s, Case: b[k+1 : k+1+n]}
}

func runWorker(c *Check, tier string, seed uint64, w, n int, budget time.Duration, part, out string) {
	r := &Run{Prop: c.ID, Tier: tier, Seed: seed, Worker: w, Workers: n, Deadline: time.Now().Add(budget), Known: known(c.ID), KnownHit: map[string]string{}, Stats: map[string]*Stats{}}
	o := workerOut{Stats: r.Stats, Known: r.KnownHit}
	cf, err := os.Create(out + ".case")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	r.progress = &progress{f: cf}
	go func() {
		for {
			time.Sleep(5 * time.Second)
			if v := r.progress.hung(hangLimit); v != nil {
				b, _ := json.Marshal(workerOut{Found: v})
				os.WriteFile(out, b, 0o644)
				os.Exit(0)
			}
		}
	}()
	func() {
		defer func() {
			if e := recover(); e != nil {
				if h, ok := e.(HarnessError); ok {
					o.Error = fmt.Sprint(h.Err)
				} else {
					panic(e)
				}
			}
		}()
		for _, p := range c.Parts {
			if part != "" && p.Name() != part {
				continue
			}
			if v := p.Explore(r); v != nil {
				o.Found = v
				return
			}
		}
	}()
	b, err := json.Marshal(o)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if err := os.WriteFile(out, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

func parent(c *Check, tier string, seed uint64, budget time.Duration, part string, workers int) int {
	start := time.Now()
	n := workers
	if n == 0 {
		n = c.Workers
	}
	if n == 0 {
		n = runtime.NumCPU() - 1
		if n > 7 {
			n = 7
		}
		if n < 1 {
			n = 1
		}
	}
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	outs := make([]workerOut, n)
	errs := make([]error, n)
	var wg sync.WaitGroup
	var stop sync.Once
	cmds := make([]*exec.Cmd, n)
	for i := 0; i < n; i++ {
		dir := filepath.Join(work, fmt.Sprintf("w%d", i))
		os.MkdirAll(dir, 0o755)
		of := filepath.Join(dir, "out.json")
		a := []string{"-worker", fmt.Sprint(i), "-workers", fmt.Sprint(n), "-budget", budget.String(), "-out", of}
		if part != "" {
			a = append(a, "-part", part)
		}
		a = append(a, c.ID)
		cmd := exec.Command(self, a...)
		cmd.Dir = dir
		cmd.Env = append(os.Environ(), "GOMAXPROCS=4", "VERIF_DIR="+dir)
		cmd.Stdout = os.Stderr
		lf, _ := os.Create(filepath.Join(dir, "log"))
		cmd.Stderr = lf
		if os.Getenv("VERIF_DEBUG") != "" {
			cmd.Stderr = os.Stderr
		}
		cmds[i] = cmd
		if err := cmd.Start(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			err := cmd.Wait()
			b, rerr := os.ReadFile(of)
			if rerr == nil {
				rerr = json.Unmarshal(b, &outs[i])
			}
			if rerr != nil {
				l, _ := os.ReadFile(filepath.Join(dir, "log"))
				if v := crashed(string(l), of+".case"); v != nil {
					outs[i].Found = v
				}
				if len(l) > 6000 {
					l = append(l[:3000:3000], l[len(l)-3000:]...)
				}
				errs[i] = fmt.Errorf("worker %d: %v, %v\n%s", i, err, rerr, l)
				if outs[i].Found == nil {
					return
				}
			}
			// A violation decides the check: the other workers need not finish.
			if outs[i].Found != nil {
				stop.Do(func() {
					for j, o := range cmds {
						if j != i && o != nil && o.Process != nil {
							o.Process.Kill()
						}
					}
				})
			}
		}(i)
	}
	wg.Wait()

	total := newStats()
	parts := map[string]any{}
	rules := []string{}
	knownHit := map[string]string{}
	var found *Violation
	for i := range outs {
		if v := outs[i].Found; v != nil && (found == nil || len(v.Case) < len(found.Case)) {
			found = v
		}
		for k, d := range outs[i].Known {
			knownHit[k] = d
		}
	}
	for _, p := range c.Parts {
		st := newStats()
		for i := range outs {
			if s := outs[i].Stats[p.Name()]; s != nil {
				st.merge(s)
			}
		}
		if st.Evaluations+st.Skipped == 0 {
			continue
		}
		total.merge(st)
		rules = append(rules, p.Name()+": "+p.Rule())
		parts[p.Name()] = map[string]any{"evaluations": st.Evaluations, "distinct_nontrivial": len(st.Nontrivial), "skipped_by_time_budget": st.Skipped, "stopped_at_foreign_divergence": st.Foreign, "classes": st.Classes}
	}
	cov := map[string]any{
		"evaluations": total.Evaluations, "distinct_nontrivial": len(total.Nontrivial),
		"rule": strings.Join(rules, "\n"), "samples": total.Samples, "parts": parts, "workers": n,
	}
	viol := 0
	if found != nil {
		viol = 1
	}
	ev := map[string]any{"property": c.ID, "tier": tier, "seed": seed, "level": c.Level, "coverage": cov, "assumptions": c.Assumptions, "wall_s": time.Since(start).Seconds(), "violations": viol}
	if c.Assumptions == nil {
		delete(ev, "assumptions")
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err == nil {
		err = os.WriteFile(filepath.Join(home, "evidence", c.ID+".json"), b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for k, d := range knownHit {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", c.ID, k, d)
	}
	if found != nil {
		dir := filepath.Join(home, "replays")
		os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", c.ID, found.Part, seed))
		b, _ := json.MarshalIndent(map[string]any{"property": c.ID, "violation": found}, "", " ")
		if err := os.WriteFile(path, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		m := found.Msg
		if len(m) > 4000 {
			m = m[:4000] + "..."
		}
		fmt.Printf("%s/%s [%s]: %s\ncase: %.3000s\n", c.ID, found.Part, found.Key, m, found.Case)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, path)
		return 1
	}
	for i := range outs {
		if errs[i] != nil {
			fmt.Fprintln(os.Stderr, errs[i])
			return 2
		}
		if outs[i].Error != "" {
			fmt.Fprintf(os.Stderr, "worker %d: %s\n", i, outs[i].Error)
			return 2
		}
	}
	fmt.Printf("%s: held on %d cases (%d distinct non-trivial) in %.1fs\n", c.ID, total.Evaluations, len(total.Nontrivial), time.Since(start).Seconds())
	return 0
}

func replayFile(path, tier string, seed uint64) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var f struct {
		Property  string    `json:"property"`
		Violation Violation `json:"violation"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	c := checks[f.Property]
	if c == nil {
		fmt.Fprintln(os.Stderr, "unknown property")
		return 2
	}
	r := &Run{Prop: c.ID, Tier: tier, Seed: seed, Workers: 1, Deadline: time.Now().Add(time.Hour), Known: map[string]string{}, KnownHit: map[string]string{}, Stats: map[string]*Stats{}}
	for _, p := range c.Parts {
		if p.Name() != f.Violation.Part {
			continue
		}
		if v := p.Replay(r, f.Violation.Case); v != nil {
			fmt.Printf("%s/%s [%s]: %s\n", c.ID, v.Part, v.Key, v.Msg)
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, path)
			return 1
		}
		fmt.Println("the case passes")
		return 0
	}
	fmt.Fprintln(os.Stderr, "unknown part")
	return 2
}

// children are helper processes that cases start from this executable.
var children = map[string]func(args []string){}

func child(name string, args []string) {
	f := children[name]
	if f == nil {
		fmt.Fprintln(os.Stderr, "unknown child")
		os.Exit(2)
	}
	f(args)
}
