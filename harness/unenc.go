package main

import (
	"context"
	"errors"
	"fmt"
	"math"
	"time"

	"pgregory.net/rapid"

	"github.com/hyperonym/ratus"
)

// Payloads that JSON cannot express.

type unencCase struct {
	Value int    `json:"value"`
	Wrap  []int  `json:"wrap"`
	How   string `json:"how"`
	Batch int    `json:"batch,omitempty"` // valid tasks in the batch
	At    int    `json:"at,omitempty"`
	State int    `json:"state"`
}

type noJSON struct{}

func (noJSON) MarshalJSON() ([]byte, error) { return nil, errors.New("cannot be encoded") }

type badJSON struct{}

func (badJSON) MarshalJSON() ([]byte, error) { return []byte(`{"a":`), nil }

type noText struct{ a int }

func (noText) MarshalText() ([]byte, error) { return nil, errors.New("cannot be encoded") }

func (c *unencCase) value() any {
	loop := map[string]any{}
	loop["loop"] = loop
	v := []any{make(chan int), func() {}, math.NaN(), math.Inf(1), math.Inf(-1), complex(1, 2), noJSON{}, badJSON{}, noText{}, map[bool]int{true: 1}, map[noText]int{{1}: 1}, loop, &struct{ C chan int }{}}[c.Value]
	for _, w := range c.Wrap {
		switch w {
		case 0:
			v = []any{1, v}
		case 1:
			v = map[string]any{"a": "b", "v": v}
		case 2:
			v = &v
		case 3:
			v = struct {
				A int
				V any
			}{1, v}
		}
	}
	return v
}

func runUnenc(x *X, c unencCase) {
	ctx := context.Background()
	g := openMem(time.Hour)
	a := newAPI(100, 100)
	a.use(x, g, nil)
	cl := newClient(a.serve(x), nil)
	now := time.Now()
	task := func(id string, p any) *ratus.Task {
		return &ratus.Task{ID: id, Topic: "t", Scheduled: &now, Payload: p}
	}
	if _, err := cl.InsertTasks(ctx, []*ratus.Task{task("old", "before"), task("other", nil)}); err != nil {
		x.Failp("insert", "inserting tasks failed: %v", err)
	}
	var w *ratus.Context
	if c.How == "context" {
		var err error
		if w, err = cl.Poll(ctx, "t", &ratus.Promise{Timeout: "1h"}); err != nil {
			x.Failp("poll", "polling failed: %v", err)
		}
	}
	before := dump(g)
	bad := c.value()
	what := fmt.Sprintf("%s with a payload (%T) that JSON cannot express", c.How, bad)
	id := "old"
	if c.Batch%2 == 1 {
		id = "new"
	}
	var err error
	switch c.How {
	case "InsertTask":
		_, err = cl.InsertTask(ctx, task("new", bad))
	case "UpsertTask":
		_, err = cl.UpsertTask(ctx, task(id, bad))
	case "InsertTasks", "UpsertTasks":
		var v []*ratus.Task
		for i := 0; i <= c.Batch; i++ {
			v = append(v, task(fmt.Sprintf("b%d", i), i))
		}
		v[c.At%len(v)] = task(id, bad)
		if c.How == "InsertTasks" {
			_, err = cl.InsertTasks(ctx, v)
		} else {
			_, err = cl.UpsertTasks(ctx, v)
		}
	case "PatchTask":
		_, err = cl.PatchTask(ctx, "old", &ratus.Commit{State: ptr(ratus.TaskState(c.State)), Payload: bad})
	case "context":
		err = w.SetState(ratus.TaskState(c.State)).SetPayload(bad).Commit()
	case "Decode":
		var v any = "previous"
		if err = task("x", bad).Decode(&v); err != nil && v != "previous" {
			x.Failp("unencodable-decoded", "%s failed, but gave %v", what, v)
		}
	}
	if err == nil {
		x.Failp("unencodable", "%s succeeded", what)
	}
	if d := exactDiff(dump(g), before); d != "" {
		x.Failp("unencodable-changed", "%s failed (%v), but: %s", what, err, d)
	}
	if c.How == "context" {
		// It can be tried again with another payload.
		if err := w.SetPayload("good").Commit(); err != nil {
			x.Failp("unencodable-again", "%s failed, and so did a second commit with a valid payload: %v", what, err)
		}
		if t, err := g.GetTask(ctx, w.Task.ID); err != nil || t.Payload != "good" || t.State != ratus.TaskState(c.State) {
			x.Failp("unencodable-again", "%s failed, and after a second commit with a valid payload the task is %s", what, show(t))
		}
	}
	x.Class("%s", c.How)
	x.NonTrivial()
}

func init() {
	for _, id := range []string{"C29", "C19"} {
		extend(id, &prop[unencCase]{name: "unencodable", quick: 2500, thorough: 50000,
			rule: "payloads that JSON cannot express (channels, functions, NaN, cyclic values, failing encoders; plain or nested) passed to every method of the client: the call fails, and nothing changes; all non-trivial",
			gen: func(t *rapid.T) unencCase {
				return unencCase{Value: intn(t, 13, "value"), Wrap: seq(t, 2, 4, "wrap", func(t *rapid.T) int { return intn(t, 4, "wrapper") }),
					How:   pick(t, "how", "PatchTask", "context", "InsertTask", "UpsertTask", "InsertTasks", "UpsertTasks", "Decode"),
					Batch: rng(t, 0, 5, "batch"), At: rng(t, 0, 5, "at"), State: intn(t, 4, "state")}
			}, run: runUnenc})
	}
}
