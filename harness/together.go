package main

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"sync"
	"sync/atomic"
	"time"

	"pgregory.net/rapid"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/engine/memdb"
)

// C14: saves at the same time, by one store or by several that share a
// snapshot, while tasks are written and the snapshot is read.

type togetherCase struct {
	Stores  int     `json:"stores"`
	Before  int     `json:"before"` // batches of every store before the start
	Batch   int     `json:"batch"`  // tasks per batch
	Size    int     `json:"size"`   // length of payloads
	Savers  []saver `json:"savers"`
	Writes  int     `json:"writes"` // batches that every store is given meanwhile
	Readers int     `json:"readers"`
	Stray   []int   `json:"stray,omitempty"`
}

type saver struct {
	Store int  `json:"store"`
	Chore bool `json:"chore,omitempty"`
	Count int  `json:"count"`
}

func genTogether(t *rapid.T) togetherCase {
	c := togetherCase{Stores: rng(t, 1, 3, "stores"), Before: rng(t, 1, 20, "before"), Batch: rng(t, 1, 8, "batch"), Size: pick(t, "size", 0, 10, 1000, 20000), Writes: rng(t, 0, 40, "writes"), Readers: rng(t, 0, 2, "readers")}
	c.Savers = seq(t, 4, 8, "savers", func(t *rapid.T) saver {
		return saver{intn(t, c.Stores, "store"), oneIn(t, 2, "chore"), rng(t, 1, 12, "count")}
	})
	if oneIn(t, 3, "stray") {
		c.Stray = []int{intn(t, 21, "stray")}
	}
	return c
}

func runTogether(x *X, c togetherCase) {
	dir := caseDir(x)
	path := filepath.Join(dir, "snapshot")
	ctx := context.Background()
	batch := func(store, n int) []*ratus.Task {
		var ts []*ratus.Task
		for i := 0; i < c.Batch; i++ {
			p := make([]byte, c.Size)
			for j := range p {
				p[j] = byte('a' + (j+n+i)%26)
			}
			ts = append(ts, &ratus.Task{ID: fmt.Sprintf("%d-%d-%d", store, n, i), Topic: fmt.Sprintf("t%d", store), Producer: fmt.Sprint(n), Payload: string(p)})
		}
		return ts
	}
	// Every store is given its batches one after another, so what is saved must
	// be a number of complete batches of one store.
	stores := make([]*memdb.Engine, c.Stores)
	done := make([]atomic.Int64, c.Stores)
	begun := make([]atomic.Int64, c.Stores)
	put := func(i int) error {
		n := int(begun[i].Add(1)) - 1
		if _, err := stores[i].InsertTasks(ctx, batch(i, n)); err != nil {
			return err
		}
		done[i].Add(1)
		return nil
	}
	for i := range stores {
		stores[i] = newSnap(path, 0, 1<<62)
		Must(stores[i].Open(ctx))
	}
	for i := range stores {
		for n := 0; n < c.Before; n++ {
			if err := put(i); err != nil {
				x.Failp("insert", "inserting tasks failed: %v", err)
			}
		}
	}
	if err := stores[0].Close(ctx); err != nil {
		x.Failp("close", "closing failed: %v", err)
	}
	if b, err := os.ReadFile(path); err == nil {
		writeStray(dir, path, c.Stray, b)
	}

	var mu sync.Mutex
	key, problem := "", ""
	report := func(k, format string, a ...any) {
		mu.Lock()
		defer mu.Unlock()
		if problem == "" {
			key, problem = k, fmt.Sprintf(format, a...)
		}
	}
	// look opens the snapshot, which must hold at least the batches that a store
	// had when it was saved for the first time.
	look := func(when string) (store, n int) {
		defer func() {
			if e := recover(); e != nil {
				if f, ok := e.(*failure); ok {
					report(f.key, "%s: %s", when, f.msg)
					return
				}
				panic(e)
			}
		}()
		if _, err := os.Stat(path); err != nil {
			report("gone", "%s there was no snapshot: %v", when, err)
			return
		}
		g := newSnap(path, 0, 1<<62)
		if err := g.Open(ctx); err != nil {
			report("damaged", "%s the snapshot could not be opened: %v", when, err)
			return
		}
		got := dump(g)
		if len(got) == 0 {
			report("empty", "%s the snapshot was empty", when)
			return
		}
		for id := range got {
			fmt.Sscanf(id, "%d-", &store)
			break
		}
		if store < 0 || store >= c.Stores || len(got)%c.Batch != 0 {
			report("mixed", "%s the snapshot held %d tasks, which are no complete batches of %d", when, len(got), c.Batch)
			return
		}
		n = len(got) / c.Batch
		if n < c.Before || n > int(begun[store].Load()) {
			report("mixed", "%s the snapshot held %d batches of store %d, which has had %d to %d", when, n, store, c.Before, begun[store].Load())
			return
		}
		for k := 0; k < n; k++ {
			for _, w := range batch(store, k) {
				t := got[w.ID]
				if t == nil || t.Payload != w.Payload || t.Producer != w.Producer || t.Topic != w.Topic {
					report("mixed", "%s task %s of the snapshot with %d batches of store %d was %.300s", when, w.ID, n, store, show(t))
					return
				}
			}
		}
		return store, n
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	spawn := func(f func()) {
		wg.Add(1)
		go func() { defer wg.Done(); <-start; f() }()
	}
	var saves atomic.Int64
	var most, running atomic.Int64
	for _, s := range c.Savers {
		spawn(func() {
			for i := 0; i < s.Count; i++ {
				if n := running.Add(1); n > most.Load() {
					most.Store(n)
				}
				var err error
				if s.Chore {
					err = stores[s.Store].Chore(ctx)
				} else {
					err = stores[s.Store].Close(ctx)
				}
				running.Add(-1)
				if err != nil {
					report("save", "saving store %d failed: %v", s.Store, err)
					return
				}
				saves.Add(1)
			}
		})
	}
	for i := range stores {
		spawn(func() {
			for n := 0; n < c.Writes; n++ {
				if err := put(i); err != nil {
					report("insert", "inserting tasks failed: %v", err)
					return
				}
			}
		})
	}
	over := make(chan struct{})
	var rg sync.WaitGroup
	for i := 0; i < c.Readers; i++ {
		rg.Add(1)
		go func() {
			defer rg.Done()
			<-start
			for {
				select {
				case <-over:
					return
				default:
					look("while saving")
				}
				time.Sleep(time.Millisecond)
			}
		}()
	}
	close(start)
	wg.Wait()
	close(over)
	rg.Wait()
	if problem == "" {
		look("after saving")
	}
	// The last word of every store is what a restart finds.
	for i := range stores {
		if problem != "" {
			break
		}
		if err := stores[i].Close(ctx); err != nil {
			report("close", "closing store %d failed: %v", i, err)
			break
		}
		if s, n := look("after closing"); problem == "" && (s != i || n != int(done[i].Load())) {
			report("stale", "after closing store %d with %d batches the snapshot held %d of store %d", i, done[i].Load(), n, s)
		}
	}
	if problem != "" {
		x.Failp(key, "%s", problem)
	}
	x.Class("stores:%d", c.Stores)
	x.Class("at once:%v", most.Load() > 1)
	if most.Load() > 1 {
		x.NonTrivial()
	}
}

func init() {
	extend("C14", &prop[togetherCase]{name: "together", quick: 300, thorough: 12000, shrink: 20 * time.Second,
		rule: "one to three stores that share a snapshot path are saved at the same time, by background jobs and by closing, while batches of tasks are inserted and the snapshot is read: no save fails, and what is read is always a number of complete batches of one store; non-trivial: two saves ran at the same time", gen: genTogether, run: runTogether})
}
