package main

import (
	"encoding/json"
	"fmt"
	"net/url"
	"strings"
	"time"

	"pgregory.net/rapid"

	"github.com/hyperonym/ratus/internal/verifclock"
)

// ---- malformed requests (C17) ----

// badCase is a valid request with one defect, sent to a store with some tasks.
type badCase struct {
	Store  []T    `json:"store"`
	Kind   string `json:"kind"` // task, tasks, commit, promise, poll
	Put    bool   `json:"put,omitempty"`
	V1     bool   `json:"v1,omitempty"`
	Topic  string `json:"topic"`
	N      int    `json:"n"`              // size of a batch
	Full   bool   `json:"full,omitempty"` // the tasks of a batch have all fields
	At     int    `json:"at"`             // defective element of a batch
	Defect string `json:"defect"`         // see malform
	Field  string `json:"field,omitempty"`
	Value  string `json:"value,omitempty"` // raw JSON, or text of the body or query
	Cut    int    `json:"cut,omitempty"`   // permille of the body that is kept
	InURL  bool   `json:"inurl,omitempty"` // the defect is in the query
	CType  string `json:"ctype,omitempty"`
}

// wrong are values of the wrong type or format for each kind of field.
var wrong = map[string][]string{
	"string":   {`1`, `{}`, `[]`, `true`, `["a"]`, `1.5`},
	"state":    {`"pending"`, `"0"`, `1.5`, `{}`, `[]`, `true`, `1e20`, `2147483648`, `-2147483649`, `99999999999999999999`, `""`},
	"time":     {`1`, `"yesterday"`, `""`, `"2020-13-01T00:00:00Z"`, `"2020-01-01"`, `{}`, `true`, `[]`, `"2020-01-01 00:00:00"`, `"2020-02-30T00:00:00Z"`, `"2020-01-01T25:00:00Z"`, `1577836800`},
	"list":     {`{}`, `"x"`, `1`, `[1]`, `["x"]`, `[[]]`, `true`, `{"0":{}}`},
	"unknown":  {`-1`, `4`, `5`, `100`, `-2147483648`, `2147483647`},
	"duration": {`"abc"`, `"5"`, `"1 h"`, `"h"`, `"1d"`, `"9999999999h"`, `"--1s"`, `"1s "`, `" "`, `"1h1"`, `"PT1S"`, `"0x1s"`, `"1e3s"`, `"-"`},
	"body":     {`{`, `[`, `"`, `nul`, `tru`, `{"a"}`, `{a:1}`, `{'a':1}`, `<xml/>`, `a=b&c=d`, `{"_id":}`, `{"_id":"a",}`, "\x00", "\xff\xfe", `NaN`, `+`, `,`, `}`, `//`},
	"top":      {`[]`, `"x"`, `1`, `true`, `[{}]`, `-0.5`, `false`, `"{}"`},
}

var fieldTypes = map[string]map[string]string{
	"task":    {"_id": "string", "topic": "string", "nonce": "string", "producer": "string", "consumer": "string", "defer": "string", "state": "state", "produced": "time", "scheduled": "time", "consumed": "time", "deadline": "time"},
	"commit":  {"nonce": "string", "topic": "string", "defer": "string", "state": "state", "scheduled": "time"},
	"promise": {"_id": "string", "consumer": "string", "timeout": "string", "deadline": "time"},
}

var badDefects = map[string][]string{
	"task":    {"empty", "cut", "body", "top", "type", "type", "unknown", "topic", "duration", "id"},
	"tasks":   {"empty", "cut", "body", "top", "type", "type", "unknown", "topic", "duration", "null", "noid", "list"},
	"commit":  {"cut", "body", "top", "type", "unknown", "duration"},
	"promise": {"cut", "body", "top", "type", "duration", "id", "urltime", "urlduration", "urlid"},
	"poll":    {"cut", "body", "top", "type", "duration", "urltime", "urlduration"},
}

func genBad(t *rapid.T) badCase {
	c := badCase{Kind: pick(t, "kind", "task", "tasks", "commit", "promise", "poll"), Put: bit.Draw(t, "put"), V1: bit.Draw(t, "v1")}
	p := apiProfile(Profile{AnyState: true, Time: genNear, Payload: genSmallPayload})
	n := rng(t, 1, 4, "stored")
	for i := 0; i < n; i++ {
		v := genTask(t, p, []string{fmt.Sprintf("s%d", i)}, []string{"t", "u"})
		c.Store = append(c.Store, v)
	}
	c.Topic = pick(t, "topic", "t", "u", "new", "a/b")
	c.N = rng(t, 1, 6, "n")
	if c.Kind == "tasks" {
		c.Full = bit.Draw(t, "full")
		if oneIn(t, 40, "large") {
			// The defect is often near the end of a large batch.
			c.N = pick(t, "size", 65, 101, 257, 501, 1001, 1025)
		}
	}
	c.At = intn(t, c.N, "at")
	if c.N > 10 && oneIn(t, 2, "last") {
		c.At = c.N - 1
	}
	c.Defect = pick(t, "defect", badDefects[c.Kind]...)
	c.Cut = rng(t, 0, 999, "cut")
	typ := c.Kind
	switch c.Kind {
	case "tasks":
		typ = "task"
	case "poll":
		typ = "promise"
	}
	switch c.Defect {
	case "type":
		c.Field = pick(t, "field", sortedStrings(fieldTypes[typ])...)
		c.Value = pick(t, "value", wrong[fieldTypes[typ][c.Field]]...)
	case "urltime":
		c.Value = pick(t, "value", "yesterday", "2020-01-01", "1577836800", "2020-13-01T00:00:00Z", "x", "2020-01-01 00:00:00", "2020-02-30T00:00:00Z")
	case "unknown", "body", "top", "list", "duration":
		c.Value = pick(t, "value", wrong[c.Defect]...)
	case "urlduration":
		c.Value = strings.Trim(pick(t, "value", wrong["duration"]...), `"`)
	case "id", "urlid":
		c.Value = pick(t, "value", "other", "s0x", "S0", " s0", "s0/", "s", "s00")
	case "noid":
		c.Value = pick(t, "value", "", `""`, "null")
	case "topic":
		c.Value = pick(t, "value", "", `""`, "null")
	}
	c.CType = pick(t, "ctype", "application/json", "application/json", "", "text/plain")
	return c
}

// malform builds the request of a case.
func (c *badCase) malform() *Req {
	typ := c.Kind
	item := func(i int, bad bool) map[string]any {
		m := map[string]any{"payload": map[string]any{"n": i}}
		raw := func(k, v string) { m[k] = json.RawMessage(v) }
		switch typ {
		case "task":
			m = map[string]any{"state": 0, "producer": "p", "payload": []int{i}}
		case "tasks":
			m["_id"] = fmt.Sprintf("b%d", i)
			m["producer"] = "p"
			if i%2 == 1 {
				m["_id"] = fmt.Sprintf("s%d", i/2)
			}
			if c.Full {
				m["state"], m["nonce"], m["consumer"] = i%4, "n", "c"
				m["topic"] = c.Topic
				for _, k := range []string{"produced", "scheduled", "consumed", "deadline"} {
					m[k] = "2020-01-01T00:00:00Z"
				}
			}
		case "commit":
			m["state"] = 2
		default:
			m = map[string]any{"consumer": "c"}
		}
		if !bad {
			return m
		}
		switch c.Defect {
		case "type":
			raw(c.Field, c.Value)
		case "unknown":
			raw("state", c.Value)
		case "duration":
			delete(m, "scheduled")
			delete(m, "deadline")
			if typ == "promise" || typ == "poll" {
				raw("timeout", c.Value)
			} else {
				raw("defer", c.Value)
			}
		case "id":
			m["_id"] = c.Value
		case "noid":
			delete(m, "_id")
			if c.Value != "" {
				raw("_id", c.Value)
			}
		case "topic":
			delete(m, "topic")
			if c.Value != "" {
				raw("topic", c.Value)
			}
		}
		return m
	}
	topic := c.Topic
	if c.Defect == "topic" {
		topic = ""
	}
	o := Op{Topic: topic, ID: "s0"}
	var body any
	switch c.Kind {
	case "task":
		o.K = opInsert
		if c.Put {
			o.K = opUpsert
		} else {
			o.ID = "fresh"
			if c.Defect == "id" && c.Value == "fresh" {
				o.ID = "fresh2"
			}
		}
		body = item(0, true)
	case "tasks":
		o.K = opInserts
		if c.Put {
			o.K = opUpserts
		}
		l := []any{}
		for i := 0; i < c.N; i++ {
			m := any(item(i, i == c.At))
			if c.Defect == "topic" && i != c.At {
				m.(map[string]any)["topic"] = "t"
			}
			if c.Defect == "null" && i == c.At {
				m = nil
			}
			l = append(l, m)
		}
		body = map[string]any{"data": l}
		if c.Defect == "list" {
			body = map[string]any{"data": json.RawMessage(c.Value)}
		}
	case "commit":
		o.K = opCommit
		body = item(0, true)
	case "promise":
		o.K = opInsPromise
		if c.Put {
			o.K = opUpsPromise
		}
		body = item(0, true)
	case "poll":
		o.K = opPoll
		body = item(0, true)
	}
	q := &Req{Header: map[string]string{}}
	var path string
	q.Method, path = methodPath(o)
	if c.V1 {
		path = "/v1" + path
	}
	q.Target = path
	b := *jsonBody(body)
	switch c.Defect {
	case "empty":
		b = ""
	case "cut":
		b = b[:1+c.Cut*(len(b)-1)/1000]
	case "body", "top":
		b = c.Value
	case "urltime":
		q.Target += "?deadline=" + url.QueryEscape(c.Value)
	case "urlduration":
		q.Target += "?timeout=" + url.QueryEscape(c.Value)
	case "urlid":
		q.Target += "?_id=" + url.QueryEscape(c.Value)
	}
	if c.Defect == "empty" && c.Cut%2 == 0 {
		return q
	}
	q.Body = &b
	if c.CType != "" {
		q.Header["Content-Type"] = c.CType
	}
	return q
}

// fill stores tasks directly in an engine.
func fill(g *engineExec, now time.Time, ts []T) {
	for _, t := range ts {
		r := g.Do(resolve(Op{K: opUpsert, Tasks: []T{t}}, now, nil))
		if r.Err != "" {
			panic(&failure{nil, "fill", fmt.Sprintf("storing a task failed: %s", r)})
		}
	}
}

func runBad(x *X, c badCase) {
	g := openMem(time.Hour)
	a := newAPI(1000, 10000)
	a.use(x, g, nil)
	clk := newClk()
	x.Defer(verifclock.Real)
	fill(&engineExec{g: g}, clk.Now(), c.Store)
	before := dump(g)
	q := c.malform()
	p := a.do(x, q)
	if p == nil {
		bug("not a request: %s", q)
	}
	code, _, ok := errBody(p)
	if p.Status != 400 || !ok || code != 400 {
		x.Failp("accepted", "%s has the defect %q, but was not answered with a 400 JSON error: %s", q, c.Defect, p)
	}
	if d := exactDiff(dump(g), before); d != "" {
		x.Failp("changed", "%s was rejected, but changed the stored tasks: %s", q, d)
	}
	x.Class("%s:%s", c.Kind, c.Defect)
	x.NonTrivial()
}

// ---- unknown routes ----

type routeCase struct {
	Method string `json:"method"`
	Target string `json:"target"`
	Body   bool   `json:"body,omitempty"`
	Origin bool   `json:"origin,omitempty"`
}

// routes are the documented operations, written down independently of the code.
var routes = map[string]string{
	"/topics": "GET DELETE", "/topics/*": "GET DELETE",
	"/topics/*/tasks": "GET POST PUT DELETE", "/topics/*/tasks/*": "GET POST PUT DELETE PATCH",
	"/topics/*/promises": "GET POST DELETE", "/topics/*/promises/*": "GET POST PUT DELETE",
	"/healthz": "GET", "/livez": "GET", "/readyz": "GET", "/metrics": "GET",
}

var extraRoutes = map[string]string{"/": "GET", "/swagger.json": "GET", "/swagger.yaml": "GET", "/openapi.json": "GET", "/openapi.yaml": "GET"}

func routeOf(path string) string {
	s := strings.Split(path, "/")
	for i := range s {
		if i == 2 && s[1] == "topics" || i == 4 {
			s[i] = "*"
		}
	}
	return strings.Join(s, "/")
}

func knownRoute(method, path string) bool {
	if extraRoutes[path] == method || strings.HasPrefix(path, "/swagger-ui") {
		return true
	}
	for _, p := range []string{path, strings.TrimPrefix(path, "/v1")} {
		for _, m := range strings.Fields(routes[routeOf(p)]) {
			if m == method {
				return true
			}
		}
	}
	return false
}

func genRoute(t *rapid.T) routeCase {
	c := routeCase{Method: pick(t, "method", "GET", "POST", "PUT", "PATCH", "DELETE", "HEAD", "OPTIONS", "TRACE", "PURGE", "get", "X")}
	word := func() string {
		return pick(t, "segment", "topics", "topics", "a", "tasks", "tasks", "promises", "b", "%2F", "", "v1", "v2", "topic", "task", "healthz", "livez", "readyz", "metrics", "Topics", "TASKS", "debug", "pprof", "%20", "..", ".", "index.html", "swagger.json", "openapi.yaml", "favicon.ico")
	}
	n := rng(t, 0, 6, "segments")
	s := ""
	for i := 0; i < n; i++ {
		s += "/" + word()
	}
	if s == "" {
		s = "/"
	}
	if oneIn(t, 2, "known") {
		// Nearly a documented route.
		s = pick(t, "route", sortedStrings(routes)...)
		s = strings.ReplaceAll(s, "*", pick(t, "name", "t", "u", "s0", "x"))
		s += pick(t, "suffix", "", "", "", "/", "/x", "s", "%2F", "//")
		if oneIn(t, 3, "v1") {
			s = "/v1" + s
		}
		if strings.HasPrefix(s, "//") {
			s = "/"
		}
	}
	c.Target = s
	c.Body = bit.Draw(t, "body")
	c.Origin = bit.Draw(t, "origin")
	return c
}

func runRoute(x *X, c routeCase) {
	if strings.HasPrefix(c.Target, "//") || knownRoute(c.Method, c.Target) || c.Origin && c.Method == "OPTIONS" {
		return
	}
	g := openMem(time.Hour)
	a := newAPI(1000, 10000)
	a.use(x, g, nil)
	clk := newClk()
	x.Defer(verifclock.Real)
	fill(&engineExec{g: g}, clk.Now(), []T{{ID: "s0", Topic: "t"}, {ID: "s1", Topic: "u", State: 1}})
	before := dump(g)
	q := &Req{Method: c.Method, Target: c.Target, Header: map[string]string{}}
	if c.Body {
		q.Body = ptr(`{"_id":"x","topic":"t","data":[{"_id":"x","topic":"t"}]}`)
	}
	if c.Origin {
		q.Header["Origin"] = "https://example.com"
	}
	p := a.do(x, q)
	if p == nil {
		return
	}
	code, _, ok := errBody(p)
	if p.Status != 404 || c.Method != "HEAD" && (!ok || code != 404) {
		x.Failp("route", "%s is no documented operation, but was not answered with a 404 JSON error: %s", q, p)
	}
	if d := exactDiff(dump(g), before); d != "" {
		x.Failp("changed", "%s was rejected, but changed the stored tasks: %s", q, d)
	}
	x.Class("%s", c.Method)
	x.NonTrivial()
}

// ---- mutated requests ----

// mutation replaces or inserts something at a position of a part of a request.
type mutation struct {
	Part string `json:"part"` // path, query, body, header
	At   int    `json:"at"`   // permille
	Del  int    `json:"del,omitempty"`
	Ins  string `json:"ins,omitempty"`
}

type mutCase struct {
	H    History    `json:"h"`
	Op   Op         `json:"op"`
	Muts []mutation `json:"muts"`
}

var fragments = []string{
	"", "\"", "{", "}", "[", "]", ",", ":", "null", "-", "0", "1e999", "\\", "\\u0000", "\\ud800", "\x00", "\xff", "é", "true", `"state":9`, `"_id":""`, `"topic":""`, `"data":null`, `"data":[null]`, `"defer":"x"`,
	`{"a":`, "%", "%00", "%ff", "/", "//", "?", "&", "=", "limit=-1", "offset=x", "limit=99999999999999999999", "deadline=x", "timeout=1", "#", "..", ";", "*", `"deadline":"0001-01-01T00:00:00Z"`, `"scheduled":"9999-12-31T23:59:59.999999999Z"`, `"scheduled":"-1"`,
	strings.Repeat("[", 300), strings.Repeat(`{"a":`, 300), strings.Repeat("9", 400), "\u2028", "$", "'", "|",
}

func genMut(t *rapid.T) mutCase {
	p := apiProfile(Profile{NIDs: 3, NTopics: 2, MaxOps: 4, Batch: 4, AnyState: true, Time: genNear, Weights: with(opChore, 0, opAdvance, 0), Names: namesText})
	c := mutCase{H: genHistory(t, p)}
	q := *p
	q.Weights = with(opChore, 0, opAdvance, 0)
	q.Payload = genPayload
	c.Op = genOp(t, &q, c.H.IDs, c.H.Topics)
	n := rng(t, 0, 4, "mutations")
	for i := 0; i < n; i++ {
		m := mutation{Part: pick(t, "part", "body", "body", "path", "query", "header"), At: rng(t, 0, 1000, "at"), Del: pick(t, "del", 0, 0, 1, 1, 2, 10)}
		if oneIn(t, 6, "byte") {
			m.Ins = string(rune(rng(t, 0, 255, "rune")))
		} else {
			m.Ins = pick(t, "ins", fragments...)
		}
		c.Muts = append(c.Muts, m)
	}
	return c
}

func (m mutation) apply(s string) string {
	i := m.At * len(s) / 1000
	j := i + m.Del
	if j > len(s) {
		j = len(s)
	}
	return s[:i] + m.Ins + s[j:]
}

func runMut(x *X, c mutCase) {
	g := openMem(time.Hour)
	a := newAPI(1000, 10000)
	a.use(x, g, nil)
	d := newDriver(x, memMode(int64(time.Hour)), &engineExec{g: g})
	d.quiet = true
	d.tags = "C17"
	for _, o := range c.H.Ops {
		d.step(o)
	}
	d.fixup = normalized(1000, d.clk.Now)
	q := (&httpExec{x: x, a: a, g: g}).request(resolve(c.Op, d.clk.Now(), d.nonce))
	for _, m := range c.Muts {
		path, query, has := strings.Cut(q.Target, "?")
		switch m.Part {
		case "body":
			b := ""
			if q.Body != nil {
				b = *q.Body
			}
			b = m.apply(b)
			q.Body = &b
		case "path":
			path = "/" + m.apply(path[1:])
		case "query":
			query = m.apply(query)
			has = true
		case "header":
			ins := strings.Map(func(r rune) rune {
				if r < 32 || r == 127 {
					return -1
				}
				return r
			}, m.Ins)
			q.Header[[]string{"Accept-Encoding", "Content-Type", "Origin", "Accept", "Content-Encoding", "X-HTTP-Method-Override"}[m.At%6]] = ins
		}
		q.Target = path
		if has {
			q.Target += "?" + query
		}
	}
	if strings.HasPrefix(q.Target, "/swagger-ui") || strings.HasPrefix(q.Target, "//") {
		return
	}
	before := dump(g)
	p := a.do(x, q)
	if p == nil {
		x.Class("refused by net/http")
		return
	}
	x.Class("%d", p.Status)
	if p.Status < 200 || p.Status >= 500 || p.Status >= 300 && p.Status < 400 {
		x.Failp("status", "%s: unexpected status: %s", q, p)
	}
	safe := q.Method == "GET" || q.Method == "HEAD" || q.Method == "OPTIONS"
	if p.Status >= 400 {
		safe = true
		code, _, ok := errBody(p)
		// Requests of other origins may be refused before they reach a route.
		if p.Status == 403 && q.Header["Origin"] != "" {
			ok, code = true, 403
		}
		if !ok || code != p.Status {
			x.Failp("error-body", "%s: no JSON error with the code of the status: %s", q, p)
		}
		x.NonTrivial()
	}
	if safe {
		if d := exactDiff(dump(g), before); d != "" {
			x.Failp("changed", "%s was answered with %d, but changed the stored tasks: %s", q, p.Status, d)
		}
	}
	// Whatever happened, the store works and holds well-formed tasks only.
	for id, t := range dump(g) {
		if id == "" || t.ID == "" || t.Topic == "" || t.State < 0 || t.State > 3 || t.Defer != "" {
			x.Failp("malformed-task", "%s was answered with %s and left the task %s", q, p, show(t))
		}
	}
}

func init() {
	register(&Check{ID: "C17", Assumptions: []string{"requests are delivered to the router in process after parsing by net/http"}, Parts: []Part{
		&prop[badCase]{name: "malformed", quick: 40000, thorough: 800000,
			rule: "valid write requests with one generated defect (empty or cut body, garbage, wrong top-level or field types, unknown states, null or incomplete elements anywhere in a batch, unparsable durations and times, inconsistent IDs) against stores with tasks: a 400 JSON error and an unchanged store; all non-trivial", gen: genBad, run: runBad},
		&prop[routeCase]{name: "routes", quick: 20000, thorough: 300000,
			rule: "generated methods and paths near the documented ones; those that are no documented operation are non-trivial: a 404 JSON error and an unchanged store", gen: genRoute, run: runRoute},
		&prop[mutCase]{name: "mutated", quick: 20000, thorough: 500000,
			rule: "valid requests of every operation with byte-level mutations of path, query, body and headers after short histories: never a panic or 5xx, errors are JSON with the status as code and change nothing, reads change nothing; non-trivial: rejected requests", gen: genMut, run: runMut},
	}})
}
