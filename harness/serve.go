package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"net/url"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"pgregory.net/rapid"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/engine/memdb"
	"github.com/hyperonym/ratus/internal/verifclock"
)

// ---- pagination (C23) ----

type pageCase struct {
	MaxLimit  int     `json:"maxlimit"`
	MaxOffset int     `json:"maxoffset"`
	N         int     `json:"n"`
	Endpoint  string  `json:"endpoint"` // topics, tasks, promises
	V1        bool    `json:"v1,omitempty"`
	Limit     *string `json:"limit,omitempty"`
	Offset    *string `json:"offset,omitempty"`
	Swap      bool    `json:"swap,omitempty"` // offset first
}

var notIntegers = []string{"abc", "1.5", "1.0", "1e3", "0x10", "1_0", "--1", "5a", "a5", "true", "null", "[]", "NaN", "1,2", "\u0663", "ten", "-", "0b1", "1/2", "5;", "Infinity", "99999999999999999999", "-99999999999999999999", "9223372036854775808", "1\x00", "{}"}

func genParam(t *rapid.T, max int, label string) *string {
	switch weighted(t, label+"-kind", 3, 4, 4, 2, 2, 3) {
	case 0:
		return nil
	case 1:
		return ptr(strconv.Itoa(rng(t, 0, 14, label)))
	case 2:
		return ptr(strconv.Itoa(max + rng(t, -2, 2, label)))
	case 3:
		return ptr(pick(t, label, "-1", "-2", "-10", "-9223372036854775808", "-2147483649", "-100"))
	case 4:
		return ptr(pick(t, label, "2147483647", "2147483648", "4294967296", "4294967297", "9223372036854775807", "1000000", "65537"))
	default:
		return ptr(pick(t, label, notIntegers...))
	}
}

func genPageCase(t *rapid.T) pageCase {
	c := pageCase{MaxLimit: pick(t, "maxlimit", 100, 0, 1, 3, 9, 10, 11, 25, math.MaxInt, math.MaxInt32), MaxOffset: pick(t, "maxoffset", 10000, 0, 1, 5, 20, math.MaxInt, math.MaxInt32)}
	c.N = rng(t, 0, 30, "n")
	c.Endpoint = pick(t, "endpoint", "tasks", "topics", "promises")
	c.V1 = bit.Draw(t, "v1")
	c.Limit = genParam(t, c.MaxLimit, "limit")
	c.Offset = genParam(t, c.MaxOffset, "offset")
	c.Swap = bit.Draw(t, "swap")
	return c
}

var integer = regexp.MustCompile(`^(0|-?[1-9][0-9]*)$`)

// bounded returns the value of a parameter, or whether it is to be rejected.
func bounded(s *string, max int) (int64, bool) {
	if s == nil {
		return 0, true
	}
	if !integer.MatchString(*s) {
		return 0, false
	}
	v, err := strconv.ParseInt(*s, 10, 64)
	return v, err == nil && v >= 0 && v <= int64(max)
}

func runPage(x *X, c pageCase) {
	g := openMem(time.Hour)
	a := newAPI(c.MaxLimit, c.MaxOffset)
	a.use(x, g, nil)
	clk := newClk()
	x.Defer(verifclock.Real)
	var ts []T
	for i := 0; i < c.N; i++ {
		v := T{ID: fmt.Sprintf("id%d", i*7%31), Topic: "t", State: 1}
		if c.Endpoint == "topics" {
			v.Topic = fmt.Sprintf("t%d", i*7%31)
		}
		ts = append(ts, v)
	}
	e := &engineExec{g: g}
	fill(e, clk.Now(), ts)
	path := map[string]string{"topics": "/topics", "tasks": "/topics/t/tasks", "promises": "/topics/t/promises"}[c.Endpoint]
	if c.V1 {
		path = "/v1" + path
	}
	var params []string
	if c.Limit != nil {
		params = append(params, "limit="+url.QueryEscape(*c.Limit))
	}
	if c.Offset != nil {
		params = append(params, "offset="+url.QueryEscape(*c.Offset))
	}
	if c.Swap && len(params) == 2 {
		params[0], params[1] = params[1], params[0]
	}
	if len(params) > 0 {
		path += "?" + strings.Join(params, "&")
	}
	q := &Req{Method: "GET", Target: path}
	p := a.do(x, q)
	if p == nil {
		bug("not a request: %s", q)
	}
	what := fmt.Sprintf("%s with a maximum limit of %d and offset of %d and %d resources", q, c.MaxLimit, c.MaxOffset, c.N)
	limit, ok1 := bounded(c.Limit, c.MaxLimit)
	offset, ok2 := bounded(c.Offset, c.MaxOffset)
	x.Class("%s:%v", c.Endpoint, ok1 && ok2)
	if c.Limit != nil || c.Offset != nil {
		x.NonTrivial()
	}
	if !ok1 || !ok2 {
		if code, _, ok := errBody(p); p.Status != 400 || !ok || code != 400 {
			x.Failp("page-accepted", "%s: was not rejected with a 400 JSON error: %s", what, p)
		}
		return
	}
	if limit == 0 {
		limit = 10
		if int64(c.MaxLimit) < limit {
			limit = int64(c.MaxLimit)
		}
	}
	var k string
	switch c.Endpoint {
	case "topics":
		k = opListTopics
	case "tasks":
		k = opListTasks
	default:
		k = opListPromises
	}
	all := e.Do(&Call{Op: Op{K: k, Topic: "t", Limit: 1000}})
	want := names(all)
	if len(want) != c.N {
		x.Fail("page-store", []string{"C11"}, "%s: the engine lists %d resources", what, len(want))
	}
	if offset > int64(len(want)) {
		offset = int64(len(want))
	}
	want = want[offset:]
	if int64(len(want)) > limit {
		want = want[:limit]
	}
	r, bad := parseResult(k, p)
	if bad != "" || r.Err != "" {
		x.Failp("page-rejected", "%s: %s %s", what, bad, p)
	}
	if got := names(r); strings.Join(got, " ") != strings.Join(want, " ") {
		x.Failp("page-items", "%s: got %d resources %v, want %d resources %v", what, len(got), got, len(want), want)
	}
}

func names(r *Result) []string {
	v := []string{}
	for _, t := range r.Tasks {
		v = append(v, t.ID)
	}
	for _, t := range r.Topics {
		v = append(v, t.Name)
	}
	for _, t := range r.Promises {
		v = append(v, t.ID)
	}
	return v
}

// ---- specification (C24) ----

type docOp struct {
	ok     string // schema of a successful response
	status string // all documented status codes
	params string
	body   string
}

// documented are the operations of the published specification, written down
// independently of it.
var documented = map[string]docOp{
	"GET /topics":    {"Topics", "200 400 500", "limit offset", ""},
	"DELETE /topics": {"Deleted", "200 500", "", ""},

	"GET /topics/{topic}":    {"Topic", "200 404 500", "topic", ""},
	"DELETE /topics/{topic}": {"Deleted", "200 500", "topic", ""},

	"GET /topics/{topic}/tasks":    {"Tasks", "200 400 500", "limit offset topic", ""},
	"POST /topics/{topic}/tasks":   {"Updated", "200 201 400 500", "topic", "Tasks"},
	"PUT /topics/{topic}/tasks":    {"Updated", "200 201 400 500", "topic", "Tasks"},
	"DELETE /topics/{topic}/tasks": {"Deleted", "200 500", "topic", ""},

	"GET /topics/{topic}/tasks/{id}":    {"Task", "200 404 500", "id topic", ""},
	"POST /topics/{topic}/tasks/{id}":   {"Updated", "201 400 409 500", "id topic", "Task"},
	"PUT /topics/{topic}/tasks/{id}":    {"Updated", "200 201 400 500", "id topic", "Task"},
	"DELETE /topics/{topic}/tasks/{id}": {"Deleted", "200 500", "id topic", ""},
	"PATCH /topics/{topic}/tasks/{id}":  {"Task", "200 400 404 409 500", "id topic", "Commit"},

	"GET /topics/{topic}/promises":    {"Promises", "200 400 500", "limit offset topic", ""},
	"POST /topics/{topic}/promises":   {"Task", "200 400 404 409 500", "topic", "Promise"},
	"DELETE /topics/{topic}/promises": {"Deleted", "200 500", "topic", ""},

	"GET /topics/{topic}/promises/{id}":    {"Promise", "200 404 500", "id topic", ""},
	"POST /topics/{topic}/promises/{id}":   {"Task", "200 400 404 409 500", "id topic", "Promise"},
	"PUT /topics/{topic}/promises/{id}":    {"Task", "200 400 404 500", "id topic", "Promise"},
	"DELETE /topics/{topic}/promises/{id}": {"Deleted", "200 500", "id topic", ""},

	"GET /livez":   {"", "200", "", ""},
	"GET /readyz":  {"", "200 503", "", ""},
	"GET /metrics": {"string", "200", "", ""},
}

var docKeys = func() []string {
	var v []string
	for k := range documented {
		v = append(v, k)
	}
	sort.Strings(v)
	return v
}()

// docSchemas are the fields of the documented schemas: those that every
// response has end with an exclamation mark.
var docSchemas = map[string]map[string]string{
	"Task":     {"_id": "string!", "topic": "string!", "state": "state!", "nonce": "string!", "producer": "string", "consumer": "string", "produced": "time", "scheduled": "time", "consumed": "time", "deadline": "time", "payload": "any", "defer": "string"},
	"Promise":  {"_id": "string!", "consumer": "string", "deadline": "time", "timeout": "string"},
	"Topic":    {"name": "string!", "count": "int"},
	"Updated":  {"created": "int!", "updated": "int!"},
	"Deleted":  {"deleted": "int!"},
	"Tasks":    {"data": "[]Task!"},
	"Topics":   {"data": "[]Topic!"},
	"Promises": {"data": "[]Promise!"},
	"Error":    {"error": "Detail!"},
	"Detail":   {"code": "int!", "message": "string!"},
	"Commit":   {"nonce": "string", "topic": "string", "state": "state", "scheduled": "time", "payload": "any", "defer": "string"},
}

// schema returns how a JSON value differs from a documented schema.
func schema(typ string, v any) string {
	switch typ {
	case "any":
		return ""
	case "string":
		if _, ok := v.(string); !ok {
			return fmt.Sprintf("%v is no string", v)
		}
		return ""
	case "int", "state":
		f, ok := v.(float64)
		if !ok || f != math.Trunc(f) || typ == "state" && (f < 0 || f > 3) {
			return fmt.Sprintf("%v is no %s", v, typ)
		}
		return ""
	case "time":
		s, _ := v.(string)
		if _, err := time.Parse(time.RFC3339Nano, s); err != nil {
			return fmt.Sprintf("%v is no time", v)
		}
		return ""
	}
	if t, ok := strings.CutPrefix(typ, "[]"); ok {
		l, ok := v.([]any)
		if !ok {
			return fmt.Sprintf("%v is no array", v)
		}
		for _, e := range l {
			if d := schema(t, e); d != "" {
				return d
			}
		}
		return ""
	}
	fields, ok := docSchemas[typ]
	if !ok {
		bug("unknown schema %q", typ)
	}
	m, ok := v.(map[string]any)
	if !ok {
		return fmt.Sprintf("%v is no %s object", v, typ)
	}
	for k, e := range m {
		f, ok := fields[k]
		if !ok {
			return fmt.Sprintf("%s has the undocumented field %q", typ, k)
		}
		if d := schema(strings.TrimSuffix(f, "!"), e); d != "" {
			return typ + "." + k + ": " + d
		}
	}
	for k, f := range fields {
		if _, ok := m[k]; !ok && strings.HasSuffix(f, "!") {
			return fmt.Sprintf("%s lacks the field %q", typ, k)
		}
	}
	return ""
}

// operation returns the documented operation that a request names.
func operation(q *Req) string {
	path, _, _ := strings.Cut(q.Target, "?")
	if s := strings.TrimPrefix(path, "/v1/"); s != path {
		path = "/" + s
	}
	s := strings.Split(path, "/")
	if s[1] == "topics" && len(s) > 2 {
		s[2] = "{topic}"
		if len(s) > 4 {
			s[4] = "{id}"
		}
	}
	return q.Method + " " + strings.Join(s, "/")
}

// conform checks that a response is one that the specification allows.
func conform(x *X, q *Req, p *Resp) {
	k := operation(q)
	d, ok := documented[k]
	if !ok {
		bug("no documented operation: %s", q)
	}
	x.Class("%s:%d", k, p.Status)
	found := false
	for _, s := range strings.Fields(d.status) {
		found = found || s == strconv.Itoa(p.Status)
	}
	if !found {
		x.Failp("spec-status", "%s: the specification of %s lists no status %d: %s", q, k, p.Status, p)
	}
	typ := d.ok
	if p.Status >= 400 {
		typ = "Error"
	}
	if typ == "string" {
		for _, l := range strings.Split(string(p.Body), "\n") {
			if !utf8.ValidString(l) || l != "" && l[0] != '#' && metricLine.FindStringSubmatch(l) == nil {
				x.Failp("spec-text", "%s: the response is not text with metrics: it has the line %.60q", q, l)
			}
		}
	}
	if typ == "" || typ == "string" {
		return
	}
	if !isJSON(p) {
		x.Failp("spec-json", "%s: the response is not JSON: %s", q, p)
	}
	var v any
	Must(json.Unmarshal(p.Body, &v))
	if d := schema(typ, v); d != "" {
		x.Failp("spec-schema", "%s: the response of %s does not have the documented schema: %s: %s", q, k, d, p)
	}
}

// specCase is a history followed by requests that may fail.
type specCase struct {
	H      History   `json:"h"`
	Bad    []badCase `json:"bad,omitempty"`
	Fault  *Op       `json:"fault,omitempty"`
	Page   string    `json:"page,omitempty"`
	Scrape string    `json:"scrape,omitempty"` // accepted encoding of the metrics
}

func genSpec(t *rapid.T) specCase {
	p := apiProfile(Profile{Names: namesText, NIDs: 4, NTopics: 3, MaxOps: 10, Batch: 4, AnyState: true, Time: genNear, Payload: genPayload})
	c := specCase{H: genHistory(t, p)}
	n := rng(t, 0, 2, "bad")
	for i := 0; i < n; i++ {
		c.Bad = append(c.Bad, genBad(t))
	}
	if oneIn(t, 2, "fault") {
		o := genOp(t, p, c.H.IDs, c.H.Topics)
		c.Fault = &o
	}
	c.Page = pick(t, "page", "", "?limit=-1", "?offset=x", "?limit=1001", "?limit=3&offset=1")
	if oneIn(t, 64, "scrape") {
		c.Scrape = pick(t, "encoding", "identity", "gzip", "deflate, gzip;q=0.9", "*")
	}
	return c
}

func runSpec(x *X, c specCase) {
	g := openMem(time.Duration(c.H.Retention))
	a := newAPI(1000, 10000)
	a.use(x, g, nil)
	e := &httpExec{x: x, a: a, g: g}
	e.seen = func(_ *Call, q *Req, p *Resp) { conform(x, q, p) }
	d := newDriver(x, memMode(c.H.Retention), e)
	d.aud = &engineExec{g: g}
	d.quiet = true
	d.tags = "C24"
	d.fixup = normalized(1000, d.clk.Now)
	for _, o := range c.H.Ops {
		d.step(o)
	}
	do := func(q *Req) {
		p := a.do(x, q)
		if p == nil {
			bug("not a request: %s", q)
		}
		conform(x, q, p)
	}
	for _, b := range c.Bad {
		do(b.malform())
	}
	for _, path := range []string{"/topics", "/v1/topics", "/topics/t/tasks", "/v1/topics/t/promises", "/livez", "/v1/readyz"} {
		do(&Req{Method: "GET", Target: path + c.Page})
	}
	if c.Scrape != "" {
		do(&Req{Method: "GET", Target: "/metrics", Header: map[string]string{"Accept-Encoding": c.Scrape}})
	}
	// A task that is polled for by ID.
	for _, id := range d.state.ids() {
		do(&Req{Method: "POST", Target: "/topics/t/promises", Body: jsonBody(map[string]any{"_id": id})})
		break
	}
	if c.Fault != nil && c.Fault.K != opChore && c.Fault.K != opAdvance {
		a.hub.set(g, func(string) error { return errors.New("a fault") })
		do((&httpExec{x: x, a: a, g: g}).request(resolve(*c.Fault, d.clk.Now(), d.nonce)))
	}
	if len(c.H.Ops) >= 3 {
		x.NonTrivial()
	}
}

// runPrefix compares the unversioned with the versioned paths.
func runPrefix(x *X, h History) {
	ga, gb := openMem(time.Duration(h.Retention)), openMem(time.Duration(h.Retention))
	a := newAPI(1000, 10000)
	a.use(x, ga, nil)
	clk := newClk()
	x.Defer(verifclock.Real)
	ea, eb := &httpExec{x: x, a: a, g: ga}, &httpExec{x: x, a: a, g: gb}
	last := [2]map[string]string{{}, {}}
	for _, o := range h.Ops {
		now := clk.Now()
		if o.K == opAdvance {
			clk.Advance(time.Duration(o.Adv))
			continue
		}
		var ps [2]*Resp
		var qs [2]*Req
		for i, e := range []*httpExec{ea, eb} {
			nonce := func(id, ref string) string {
				switch ref {
				case "", "bogus":
					return ref
				case "cur":
					if t := doEngine(nil, e.g, &Call{Op: Op{K: opGetTask, ID: id}}).Task; t != nil && t.Nonce != "" {
						return t.Nonce
					}
				}
				return "n" + last[i][id]
			}
			o := o
			o.Style &^= styleV1
			if i == 1 {
				o.Style |= styleV1
			}
			c := resolve(o, now, nonce)
			if o.K == opChore {
				doEngine(nil, e.g, c)
				continue
			}
			qs[i] = e.request(c)
			a.hub.set(e.g, nil)
			ps[i] = a.do(x, qs[i])
			if ps[i] == nil {
				bug("not a request: %s", qs[i])
			}
		}
		if o.K == opChore {
			continue
		}
		if ps[0].Status != ps[1].Status || ps[0].Header.Get("Content-Type") != ps[1].Header.Get("Content-Type") {
			x.Failp("prefix-status", "%s was answered with %s, but %s with %s", qs[0], ps[0], qs[1], ps[1])
		}
		var u, v any
		if json.Unmarshal(ps[0].Body, &u) != nil || json.Unmarshal(ps[1].Body, &v) != nil || !alike("", u, v) {
			x.Failp("prefix-body", "%s was answered with %s, but %s with %s", qs[0], ps[0], qs[1], ps[1])
		}
		x.Class("%s:%d", o.K, ps[0].Status)
	}
	if len(h.Ops) >= 4 {
		x.NonTrivial()
	}
}

// alike compares JSON values up to nonces.
func alike(key string, u, v any) bool {
	switch a := u.(type) {
	case map[string]any:
		b, ok := v.(map[string]any)
		if !ok || len(a) != len(b) {
			return false
		}
		for k := range a {
			w, ok := b[k]
			if !ok || !alike(k, a[k], w) {
				return false
			}
		}
		return true
	case []any:
		b, ok := v.([]any)
		if !ok || len(a) != len(b) {
			return false
		}
		for i := range a {
			if !alike("", a[i], b[i]) {
				return false
			}
		}
		return true
	case string:
		b, ok := v.(string)
		if ok && key == "nonce" && len(a) == 16 && len(b) == 16 {
			return true
		}
		if ok && !virtualClock {
			s, err1 := time.Parse(time.RFC3339Nano, a)
			t, err2 := time.Parse(time.RFC3339Nano, b)
			return a == b || err1 == nil && err2 == nil && s.Sub(t).Abs() < time.Minute
		}
		return ok && a == b
	}
	return u == v
}

// corsCase is a request of another origin.
type corsCase struct {
	Op        string `json:"op"`
	V1        bool   `json:"v1,omitempty"`
	Origin    string `json:"origin"`
	Preflight bool   `json:"preflight,omitempty"`
	Headers   string `json:"headers,omitempty"`
	Name      string `json:"name"`
}

func genCORS(t *rapid.T) corsCase {
	return corsCase{Op: pick(t, "op", docKeys...), V1: bit.Draw(t, "v1"), Preflight: bit.Draw(t, "preflight"), Name: pick(t, "name", "t", "a%2Fb", "%20", "tasks"),
		Origin:  pick(t, "scheme", "https://", "http://") + pick(t, "host", "example.com", "localhost:3000", "127.0.0.1:8080", "[::1]:80", "ratus.example.com", "a.b.c.d", "xn--e1afmkfd"),
		Headers: pick(t, "headers", "", "content-type", "Content-Type")}
}

func runCORS(x *X, c corsCase) {
	g := openMem(time.Hour)
	a := newAPI(1000, 10000)
	a.use(x, g, nil)
	m, path, _ := strings.Cut(c.Op, " ")
	path = strings.NewReplacer("{topic}", c.Name, "{id}", "i").Replace(path)
	if c.V1 {
		path = "/v1" + path
	}
	q := &Req{Method: m, Target: path, Header: map[string]string{"Origin": c.Origin}}
	if c.Preflight {
		q.Method = "OPTIONS"
		q.Header["Access-Control-Request-Method"] = m
		if c.Headers != "" {
			q.Header["Access-Control-Request-Headers"] = c.Headers
		}
	} else if b := documented[c.Op].body; b != "" {
		q.Body = ptr(map[string]string{"Task": `{"topic":"t"}`, "Tasks": `{"data":[]}`, "Commit": `{}`, "Promise": `{}`}[b])
	}
	p := a.do(x, q)
	if p == nil {
		bug("not a request: %s", q)
	}
	what := fmt.Sprintf("%s from the origin %s", q, c.Origin)
	if o := p.Header.Get("Access-Control-Allow-Origin"); o != "*" && o != c.Origin {
		x.Failp("cors-origin", "%s: not allowed: %v %s", what, p.Header, p)
	}
	if c.Preflight {
		if p.Status < 200 || p.Status > 299 {
			x.Failp("cors-preflight", "%s: status %d", what, p.Status)
		}
		has := func(header, v string) bool {
			for _, s := range strings.Split(p.Header.Get(header), ",") {
				if s = strings.TrimSpace(s); s == "*" || strings.EqualFold(s, v) {
					return true
				}
			}
			return false
		}
		if !has("Access-Control-Allow-Methods", m) {
			x.Failp("cors-method", "%s: the method is not allowed: %v", what, p.Header)
		}
		if c.Headers != "" && !has("Access-Control-Allow-Headers", c.Headers) {
			x.Failp("cors-header", "%s: the header is not allowed: %v", what, p.Header)
		}
	} else {
		conform(x, &Req{Method: m, Target: path}, p)
	}
	x.Class("%s:%d", q.Method, p.Status)
	x.NonTrivial()
}

// fileCase is a request for a documentation file.
type fileCase struct {
	File string `json:"file"`
	Gzip bool   `json:"gzip,omitempty"`
}

func docFiles() []string {
	v := []string{"", "openapi.json", "openapi.yaml", "swagger.json", "swagger.yaml"}
	es, err := os.ReadDir(filepath.Join(repo, "docs", "swagger-ui"))
	if err == nil {
		for _, e := range es {
			if !e.IsDir() && e.Name() != "index.html" {
				v = append(v, "swagger-ui/"+e.Name())
			}
		}
	}
	return v
}

func genFile(t *rapid.T) fileCase {
	return fileCase{pick(t, "file", docFiles()...), bit.Draw(t, "gzip")}
}

func runFile(x *X, c fileCase) {
	a := newAPI(1000, 10000)
	a.use(x, openMem(time.Hour), nil)
	q := &Req{Method: "GET", Target: "/" + c.File, Header: map[string]string{}}
	if c.Gzip {
		q.Header["Accept-Encoding"] = "gzip"
	}
	p := a.do(x, q)
	n := c.File
	if n == "" {
		n = "index.html"
	}
	b, err := os.ReadFile(filepath.Join(repo, "docs", filepath.FromSlash(n)))
	Must(err)
	if p.Status != 200 || string(p.Body) != string(b) {
		x.Failp("spec-file", "%s: does not serve the published file: status %d, %d bytes instead of %d", q, p.Status, len(p.Body), len(b))
	}
	x.Class("%s", c.File)
	x.NonTrivial()
	var d struct {
		BasePath string
		Servers  []struct{ URL string }
		Paths    map[string]map[string]struct {
			Parameters []struct {
				Name, In string
				Schema   struct {
					Ref string `json:"$ref"`
				}
			}
			RequestBody struct {
				Content map[string]struct {
					Schema struct {
						Ref string `json:"$ref"`
					}
				}
			}
			Responses map[string]struct {
				Schema struct {
					Ref  string `json:"$ref"`
					Type string
				}
				Content map[string]struct {
					Schema struct {
						Ref  string `json:"$ref"`
						Type string
					}
				}
			}
		}
		Definitions map[string]struct{ Properties map[string]any }
		Components  struct {
			Schemas map[string]struct{ Properties map[string]any }
		}
	}
	if !strings.HasSuffix(c.File, "api.json") && !strings.HasSuffix(c.File, "swagger.json") {
		return
	}
	if err := json.Unmarshal(p.Body, &d); err != nil {
		x.Failp("spec-parse", "%s: %v", q, err)
	}
	got := map[string]string{}
	short := func(s string) string { return s[strings.LastIndexAny(s, "./")+1:] }
	for path, ms := range d.Paths {
		for m, o := range ms {
			var st, ps []string
			ok, body := "", ""
			for s, r := range o.Responses {
				st = append(st, s)
				ref := r.Schema.Ref + r.Schema.Type
				for _, c := range r.Content {
					ref = c.Schema.Ref + c.Schema.Type
				}
				if s < "3" {
					ok = short(ref)
				} else if short(ref) != "Error" {
					x.Failp("spec-differs", "%s: the error response %s of %s %s is no error", q, s, m, path)
				}
			}
			for _, p := range o.Parameters {
				if p.In == "body" {
					body = short(p.Schema.Ref)
				} else {
					ps = append(ps, p.Name)
				}
			}
			for _, c := range o.RequestBody.Content {
				body = short(c.Schema.Ref)
			}
			sort.Strings(st)
			sort.Strings(ps)
			got[strings.ToUpper(m)+" "+path] = fmt.Sprint(docOp{ok, strings.Join(st, " "), strings.Join(ps, " "), body})
		}
	}
	for k, d := range documented {
		if got[k] != fmt.Sprint(d) {
			x.Failp("spec-differs", "%s: the published operation %s is %v, but should be %v", q, k, got[k], d)
		}
	}
	for k := range got {
		if _, ok := documented[k]; !ok {
			x.Failp("spec-differs", "%s: the published operation %s is not known", q, k)
		}
	}
	for n, fields := range docSchemas {
		if n == "Detail" {
			continue
		}
		s, ok := d.Components.Schemas["ratus."+n]
		if !ok {
			s, ok = d.Definitions["ratus."+n]
		}
		for f := range fields {
			if _, has := s.Properties[f]; !has {
				ok = false
			}
		}
		if !ok || len(s.Properties) != len(fields) {
			x.Failp("spec-differs", "%s: the published schema of %s has other fields: %v", q, n, s.Properties)
		}
	}
	if d.BasePath != "/v1" && (len(d.Servers) != 1 || d.Servers[0].URL != "/v1") {
		x.Failp("spec-differs", "%s: the published base path is not /v1", q)
	}
}

// ---- metrics (C25) ----

// series are samples of metrics by name and sorted labels.
type series map[string]float64

var metricLine = regexp.MustCompile(`^([a-zA-Z_:][a-zA-Z0-9_:]*)(?:\{(.*)\})? (\S+)$`)

func seriesKey(name string, labels map[string]string) string {
	var v []string
	for k, s := range labels {
		v = append(v, fmt.Sprintf("%s=%q", k, s))
	}
	sort.Strings(v)
	return name + "{" + strings.Join(v, ",") + "}"
}

func parseLabels(s string) map[string]string {
	m := map[string]string{}
	for len(s) > 0 {
		i := strings.Index(s, `="`)
		if i < 0 {
			bug("labels %q", s)
		}
		k := strings.TrimPrefix(s[:i], ",")
		s = s[i+2:]
		var b strings.Builder
		for s[0] != '"' {
			if s[0] == '\\' {
				switch s[1] {
				case 'n':
					b.WriteByte('\n')
				default:
					b.WriteByte(s[1])
				}
				s = s[2:]
				continue
			}
			b.WriteByte(s[0])
			s = s[1:]
		}
		s = s[1:]
		m[k] = b.String()
	}
	return m
}

type sample struct {
	name   string
	labels map[string]string
	value  float64
}

// scraper reads the metrics and keeps what it has seen.
type scraper struct {
	n      int
	lines  map[string]bool
	values map[string]float64
	les    map[float64]bool
}

// bounds returns the upper bounds of the buckets that exist.
func (s *scraper) bounds() (v []float64) {
	for le := range s.les {
		v = append(v, le)
	}
	return
}

type change struct {
	sample
	key  string
	diff float64
}

// scrape returns the samples that changed since the last time.
func (s *scraper) scrape(x *X, a *API) []change {
	q := &Req{Method: "GET", Target: "/metrics", Header: map[string]string{}}
	if s.n++; s.n%3 == 0 {
		q.Header["Accept-Encoding"] = "gzip"
	}
	if s.n%4 == 0 {
		q.Target = "/v1/metrics"
	}
	p := a.do(x, q)
	if p.Status != 200 {
		x.Failp("metrics", "%s: %s", q, p)
	}
	var v []change
	lines := make(map[string]bool, len(s.lines))
	for _, l := range strings.Split(string(p.Body), "\n") {
		if !strings.HasPrefix(l, "ratus_") {
			continue
		}
		lines[l] = true
		if s.lines[l] {
			continue
		}
		f := metricLine.FindStringSubmatch(l)
		if f == nil {
			x.Failp("metrics-syntax", "%s: the line %q is malformed", q, l)
		}
		n, err := strconv.ParseFloat(f[3], 64)
		if err != nil {
			x.Failp("metrics-syntax", "%s: the line %q is malformed", q, l)
		}
		c := change{sample: sample{f[1], parseLabels(f[2]), n}}
		if c.name == mBucket {
			if le, err := strconv.ParseFloat(c.labels["le"], 64); err == nil {
				s.les[le] = true
			}
		}
		c.key = seriesKey(c.name, c.labels)
		c.diff = n - s.values[c.key]
		s.values[c.key] = n
		v = append(v, c)
	}
	s.lines = lines
	return v
}

const (
	mProduced  = "ratus_task_produced_count_total"
	mConsumed  = "ratus_task_consumed_count_total"
	mCommitted = "ratus_task_committed_count_total"
	mDelay     = "ratus_task_schedule_delay_seconds"
	mExecution = "ratus_task_execution_duration_seconds"
	mRequests  = "ratus_request_duration_seconds_count"
	mTime      = "ratus_request_duration_seconds_sum"
	mBucket    = "ratus_request_duration_seconds_bucket"
)

type metStep struct {
	Op    *Op      `json:"op,omitempty"`
	Bad   *badCase `json:"bad,omitempty"`
	Fault string   `json:"fault,omitempty"` // kind of an engine failure
	Path  string   `json:"path,omitempty"`
	Slow  int64    `json:"slow,omitempty"` // nanoseconds that the engine takes to answer (with Path or Fault)
}

type metCase struct {
	H     History   `json:"h"`
	Steps []metStep `json:"steps"`
}

func genMet(t *rapid.T) metCase {
	c := metCase{H: History{IDs: []string{"a", "b", "c/d", "é"}, Topics: []string{"t1", "q\"\\\né/b"}, Retention: int64(time.Hour)}}
	if bit.Draw(t, "one topic") {
		c.H.Topics = c.H.Topics[intn(t, 2, "topic"):][:1]
	}
	if oneIn(t, 10, "long topic") {
		c.H.Topics[0] = strings.Repeat("t", pick(t, "length", 65, 129, 256, 1000))
	}
	p := apiProfile(Profile{Batch: 5, AnyState: true, Time: genNear, Payload: genSmallPayload,
		Weights: with(opInsert, 12, opUpsert, 10, opUpserts, 8, opPoll, 24, opInsPromise, 8, opUpsPromise, 6, opCommit, 24, opDelTopics, 0, opDelTopic, 0, opDelTasks, 0, opDelTask, 1)})
	c.Steps = seq(t, 12, 40, "steps", func(t *rapid.T) metStep {
		var slow int64
		if oneIn(t, 2, "slow") {
			slow = pick[int64](t, "ns", 3e6, 5e6, 1e7, 5e7, 1e8, 3e8, 5e8, 1e9, 1500e6, 2e9, 3e9, 5e9, 6e9, 3600e9)
		}
		switch weighted(t, "kind", 12, 1, 1, 2) {
		case 1:
			b := genBad(t)
			b.Store, b.Topic = nil, "t1"
			return metStep{Bad: &b}
		case 2:
			o := genOp(t, p, c.H.IDs, c.H.Topics)
			return metStep{Op: &o, Fault: pick(t, "fault", "other", "conflict", "notfound", "unavailable", "canceled"), Slow: slow}
		case 3:
			return metStep{Path: pick(t, "path", "/livez", "/v1/healthz", "/readyz", "/topics?limit=x", "/v1/topics/t1/tasks?offset=-1", "/topics/t1/promises?limit=2000",
				"/topics", "/v1/topics/t1", "/topics/t1/tasks", "/v1/topics/t1/promises", "/topics/t1/tasks/a", "/topics/t1/promises/b"), Slow: slow}
		}
		o := genOp(t, p, c.H.IDs, c.H.Topics)
		return metStep{Op: &o}
	})
	return c
}

func runMet(x *X, c metCase) {
	g := openMem(time.Duration(c.H.Retention))
	a := newAPI(1000, 10000)
	a.use(x, g, nil)
	e := &httpExec{x: x, a: a, g: g}
	d := newDriver(x, memMode(c.H.Retention), e)
	d.aud = &engineExec{g: g}
	d.quiet = true
	d.tags = "C25"
	d.fixup = normalized(1000, d.clk.Now)
	sc := &scraper{lines: map[string]bool{}, values: map[string]float64{}, les: map[float64]bool{}}
	sc.scrape(x, a)
	counted := 0
	var spent time.Duration // by the request
	// check compares the metrics with those before a request.
	check := func(what string, q *Req, p *Resp, want series, produced float64, gauges series) {
		changes := sc.scrape(x, a)
		fail := func(key, format string, args ...any) {
			x.Failp(key, "%s answered with %s: %s", what, p, fmt.Sprintf(format, args...))
		}
		reqs := 0
		var took float64
		buckets, inBuckets := map[float64]float64{}, 0.0
		for _, s := range changes {
			k, diff := s.key, s.diff
			switch s.name {
			case mRequests:
				if strings.HasSuffix(s.labels["endpoint"], "/metrics") {
					if diff != 1 && q.Target != "/metrics" && s.labels["endpoint"] == "/metrics" {
						fail("metrics-requests", "series %s grew by %v for one request", k, diff)
					}
					continue
				}
				if diff == 0 {
					continue
				}
				reqs++
				route := strings.NewReplacer("{topic}", ":topic", "{id}", ":id").Replace(strings.TrimPrefix(operation(q), q.Method+" "))
				took += spent.Seconds()
				inBuckets = 1
				if diff != 1 || s.labels["method"] != q.Method || s.labels["status_code"] != strconv.Itoa(p.Status) || strings.TrimPrefix(s.labels["endpoint"], "/v1") != route {
					fail("metrics-requests", "series %s grew by %v, but one with the method %s, the route %s and the status %d should have grown by one", k, diff, q.Method, route, p.Status)
				}
			case mProduced, mConsumed, mCommitted:
				if s.name == mProduced && produced >= 0 {
					produced -= diff
					if diff != 0 {
						x.Class("produced")
					}
					continue
				}
				if diff != want[k] {
					fail("metrics-counter", "counter %s grew by %v instead of %v", k, diff, want[k])
				}
				if diff > 0 {
					counted++
				}
				delete(want, k)
			case mTime:
				if !strings.HasSuffix(s.labels["endpoint"], "/metrics") {
					took -= diff
				}
			case mBucket:
				if !strings.HasSuffix(s.labels["endpoint"], "/metrics") && diff != 0 {
					le, err := strconv.ParseFloat(s.labels["le"], 64)
					if err != nil {
						fail("metrics-syntax", "the series %s has an odd bucket", k)
					}
					buckets[le] += diff
				}
			case mDelay, mExecution:
				w, ok := gauges[k]
				if !ok {
					w = s.value - diff
				}
				if math.Abs(s.value-w) > 1e-6*(1+math.Abs(w)) && (virtualClock || s.name == mDelay || math.Abs(s.value-w) > 60) {
					fail("metrics-gauge", "gauge %s is %v instead of %v", k, s.value, w)
				}
				delete(gauges, k)
			}
		}
		if produced > 0 {
			fail("metrics-counter", "the produced counters miss %v tasks", produced)
		}
		if produced < 0 && produced != -1e9 {
			fail("metrics-counter", "the produced counters grew by %v too much", -produced)
		}
		for k, n := range want {
			if n != 0 {
				fail("metrics-counter", "counter %s did not grow by %v", k, n)
			}
		}
		for k, w := range gauges {
			if v, ok := sc.values[k]; !ok || v != w {
				fail("metrics-gauge", "gauge %s is %v instead of %v", k, v, w)
			}
		}
		if reqs != 1 {
			fail("metrics-requests", "%d series of the request histogram grew", reqs)
		}
		if virtualClock {
			if math.Abs(took) > 0.0011 {
				fail("metrics-time", "it took %v, which the sums of the request histogram miss by %v seconds", spent, took)
			}
			for le, n := range buckets {
				if n != inBuckets || le < spent.Seconds() {
					fail("metrics-time", "it took %v, and the bucket up to %v seconds of the request histogram grew by %v", spent, le, n)
				}
			}
			for _, le := range sc.bounds() {
				if le >= spent.Seconds() && buckets[le] != 1 {
					fail("metrics-time", "it took %v, and the bucket up to %v seconds of the request histogram grew by %v", spent, le, buckets[le])
				}
			}
		}
		spent = 0
	}
	// slow makes the engine take its time.
	slow := func(st metStep, err error) {
		if st.Slow == 0 && err == nil {
			return
		}
		a.hub.set(g, func(string) error {
			if virtualClock && st.Slow > 0 && spent == 0 {
				spent = time.Duration(st.Slow)
				d.clk.Advance(spent)
				x.Class("slow")
			}
			return err
		})
	}
	for _, st := range c.Steps {
		switch {
		case st.Bad != nil:
			q := st.Bad.malform()
			check(q.String(), q, a.do(x, q), series{}, -1e9, series{})
		case st.Path != "":
			q := &Req{Method: "GET", Target: st.Path}
			slow(st, nil)
			p := a.do(x, q)
			a.hub.set(g, nil)
			check(q.String(), q, p, series{}, -1e9, series{})
		case st.Fault != "":
			if st.Op.K == opChore || st.Op.K == opAdvance {
				continue
			}
			slow(st, failures[st.Fault].err)
			q := e.request(resolve(*st.Op, d.clk.Now(), d.nonce))
			p := a.do(x, q)
			a.hub.set(g, nil)
			check(q.String(), q, p, series{}, -1e9, series{})
			x.Class("fault")
		default:
			var q *Req
			var p *Resp
			var call *Call
			e.seen = func(c *Call, r *Req, s *Resp) { call, q, p = c, r, s }
			r := d.step(*st.Op)
			if q == nil {
				continue
			}
			want, gauges := series{}, series{}
			produced := -1e9
			if r.Err == "" {
				labels := func(t *ratus.Task) map[string]string {
					return map[string]string{"topic": t.Topic, "producer": t.Producer, "consumer": t.Consumer}
				}
				switch st.Op.K {
				case opInsert, opUpsert:
					want[seriesKey(mProduced, map[string]string{"topic": call.Tasks[0].Topic, "producer": call.Tasks[0].Producer})] = float64(r.Updated.Created + r.Updated.Updated)
				case opInserts, opUpserts:
					n := float64(r.Updated.Created + r.Updated.Updated)
					path, _, _ := strings.Cut(strings.TrimPrefix(q.Target, "/v1"), "?")
					path, _ = url.PathUnescape(strings.Split(path, "/")[2])
					same := true
					for _, t := range call.Tasks {
						same = same && t.Topic == path && t.Producer == call.Tasks[0].Producer
					}
					if same && len(call.Tasks) > 0 {
						want[seriesKey(mProduced, map[string]string{"topic": path, "producer": call.Tasks[0].Producer})] = n
					} else {
						// How tasks of several topics are labelled is not specified.
						produced = n
					}
				case opPoll, opInsPromise, opUpsPromise:
					want[seriesKey(mConsumed, labels(r.Task))] = 1
					if r.Task.Scheduled != nil && r.Task.Consumed != nil {
						gauges[seriesKey(mDelay, labels(r.Task))] = r.Task.Consumed.Sub(*r.Task.Scheduled).Seconds()
						x.Class("delay")
					}
				case opCommit:
					want[seriesKey(mCommitted, labels(r.Task))] = 1
					if r.Task.Consumed != nil {
						gauges[seriesKey(mExecution, labels(r.Task))] = d.clk.Now().Sub(*r.Task.Consumed).Seconds()
						x.Class("execution")
					}
				}
			}
			check(callString(call), q, p, want, produced, gauges)
			e.seen = nil
		}
	}
	if counted >= 2 {
		x.NonTrivial()
	}
}

// ---- health (C31) ----

type healthStep struct {
	State string `json:"state"` // ok, unavailable, wrapped, other, hang
	Probe string `json:"probe"`
	Op    string `json:"op,omitempty"` // request in between
}

type healthCase struct {
	Steps []healthStep `json:"steps"`
}

func genHealth(t *rapid.T) healthCase {
	return healthCase{seq(t, 6, 20, "steps", func(t *rapid.T) healthStep {
		s := healthStep{State: pick(t, "state", "ok", "unavailable", "wrapped", "other", "closed", "notfound", "unopened", "hang"), Probe: pick(t, "probe", "/readyz", "/livez", "/healthz", "/v1/readyz", "/v1/livez", "/v1/healthz")}
		if oneIn(t, 3, "between") {
			s.Op = pick(t, "op", engineOps...)
		}
		return s
	})}
}

func runHealth(x *X, c healthCase) {
	g := openMem(time.Hour)
	unopened, err := memdb.New(&memdb.Config{})
	Must(err)
	a := newAPI(1000, 10000)
	release := make(chan struct{})
	x.Defer(func() { close(release) })
	a.use(x, g, nil)
	for i, s := range c.Steps {
		ready := strings.HasSuffix(s.Probe, "readyz")
		var f func(string) error
		switch s.State {
		case "ok", "unopened":
		case "unavailable":
			f = func(string) error { return ratus.ErrServiceUnavailable }
		case "wrapped":
			f = func(string) error { return fmt.Errorf("%w: connection refused", ratus.ErrServiceUnavailable) }
		case "other":
			f = func(string) error { return errors.New("something else") }
		case "closed":
			f = func(string) error { return ratus.ErrInternalServerError }
		case "notfound":
			f = func(string) error { return ratus.ErrNotFound }
		case "hang":
			if ready {
				continue
			}
			f = func(string) error { <-release; return ratus.ErrServiceUnavailable }
		}
		a.hub.set(g, f)
		if s.State == "unopened" {
			a.hub.set(unopened, nil)
		} else if s.Op != "" && s.State != "hang" {
			a.do(x, (&httpExec{x: x, a: a, g: g}).request(plainOp(s.Op, 0)))
		}
		q := &Req{Method: "GET", Target: s.Probe}
		done := make(chan *Resp, 1)
		if s.State == "hang" {
			go func() { done <- a.do(x, q) }()
		} else {
			done <- a.do(x, q)
		}
		var p *Resp
		select {
		case p = <-done:
		case <-time.After(20 * time.Second):
			x.Failp("health-hang", "step %d: %s is not answered while the storage engine hangs", i, s.Probe)
		}
		what := fmt.Sprintf("step %d: %s with the storage engine in state %q", i, s.Probe, s.State)
		x.Class("%s:%v:%d", s.State, ready, p.Status)
		if !ready {
			if p.Status != 200 {
				x.Failp("liveness", "%s: %s", what, p)
			}
			continue
		}
		if s.State == "ok" {
			if p.Status != 200 {
				x.Failp("readiness", "%s: %s", what, p)
			}
			continue
		}
		code, _, ok := errBody(p)
		if p.Status < 400 || !ok || code != p.Status {
			x.Failp("readiness", "%s: no JSON error: %s", what, p)
		}
		if p.Status != 503 && (s.State == "unavailable" || s.State == "wrapped" || s.State == "unopened") {
			x.Failp("readiness", "%s: the status is not 503: %s", what, p)
		}
		x.NonTrivial()
	}
}

func init() {
	mem := "in-process router and in-memory engine"
	register(&Check{ID: "C23", Assumptions: []string{mem}, Parts: []Part{
		&prop[pageCase]{name: "parameters", quick: 40000, thorough: 800000,
			rule: "every listing endpoint with generated limits and offsets (absent, around the maxima, negative, huge, no integers) under generated maxima and stores; the page is compared with the slice of the complete listing; non-trivial: at least one parameter given", gen: genPageCase, run: runPage},
	}})
	p := apiProfile(Profile{Names: namesText, NIDs: 4, NTopics: 3, MaxOps: 12, Batch: 4, AnyState: true, Time: genNear, Payload: genSmallPayload})
	register(&Check{ID: "C24", Assumptions: []string{mem, "the table of documented operations in harness/serve.go"}, Parts: []Part{
		&prop[specCase]{name: "responses", quick: 12000, thorough: 250000,
			rule: "histories of requests of all operations, malformed requests and engine failures: every response has a status and the fields that the specification lists for the operation, which is written down independently; non-trivial: at least three operations", gen: genSpec, run: runSpec},
		&prop[History]{name: "prefixes", quick: 8000, thorough: 150000,
			rule: "the same history under both prefixes against two stores: equal statuses and bodies up to nonces; non-trivial: at least four operations", gen: func(t *rapid.T) History { return genHistory(t, p) }, run: runPrefix},
		&prop[corsCase]{name: "cors", quick: 4000, thorough: 40000,
			rule: "requests and preflight requests of other origins for every operation; all non-trivial", gen: genCORS, run: runCORS},
		&prop[fileCase]{name: "files", quick: 200, thorough: 500,
			rule: "every documentation file, plain and compressed, equals the published one; the JSON ones list exactly the documented operations and fields; all non-trivial", gen: genFile, run: runFile},
	}})
	register(&Check{ID: "C25", Assumptions: []string{mem, "labels of batches are checked only if all their tasks have the topic of the path and the same producer"}, Parts: []Part{
		&prop[metCase]{name: "scrapes", quick: 1600, thorough: 40000,
			rule: "histories of successful, refused, malformed and failing requests with the metrics scraped after each: every counter, gauge and request series changes exactly as the outcome demands; non-trivial: at least two counted events", gen: genMet, run: runMet},
	}})
	register(&Check{ID: "C31", Assumptions: []string{mem, "engine failures injected behind the router"}, Parts: []Part{
		&prop[healthCase]{name: "probes", quick: 10000, thorough: 200000,
			rule: "sequences of engine states (ready, unavailable in several ways, hanging, not opened) and probes under both prefixes; non-trivial: at least one failing readiness probe", gen: genHealth, run: runHealth},
	}})
}
