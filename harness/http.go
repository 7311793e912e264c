package main

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"mime"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"path/filepath"
	"runtime/debug"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/gin-gonic/gin"
	"pgregory.net/rapid"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/docs"
	"github.com/hyperonym/ratus/internal/config"
	"github.com/hyperonym/ratus/internal/controller"
	"github.com/hyperonym/ratus/internal/engine"
	"github.com/hyperonym/ratus/internal/engine/memdb"
	"github.com/hyperonym/ratus/internal/middleware"
	"github.com/hyperonym/ratus/internal/router"
)

// hub is the storage engine that handlers are created with. Cases put the
// engine to be used behind it, and may intercept its operations.
type hub struct {
	mu    sync.RWMutex
	g     engine.Engine
	fault func(op string) error // a non-nil error is returned instead of calling the engine
}

func (h *hub) get(op string) (engine.Engine, error) {
	h.mu.RLock()
	g, f := h.g, h.fault
	h.mu.RUnlock()
	if f != nil {
		if err := f(op); err != nil {
			return nil, err
		}
	}
	if g == nil {
		return nil, fmt.Errorf("no engine")
	}
	return g, nil
}

func (h *hub) set(g engine.Engine, fault func(op string) error) {
	h.mu.Lock()
	h.g, h.fault = g, fault
	h.mu.Unlock()
}

func (h *hub) Open(ctx context.Context) error    { return nil }
func (h *hub) Close(ctx context.Context) error   { return nil }
func (h *hub) Destroy(ctx context.Context) error { return nil }
func (h *hub) Ready(ctx context.Context) error {
	g, err := h.get("Ready")
	if err != nil {
		return err
	}
	return g.Ready(ctx)
}
func (h *hub) Chore(ctx context.Context) error {
	g, err := h.get("Chore")
	if err != nil {
		return err
	}
	return g.Chore(ctx)
}
func (h *hub) Poll(ctx context.Context, topic string, p *ratus.Promise) (*ratus.Task, error) {
	g, err := h.get("Poll")
	if err != nil {
		return nil, err
	}
	return g.Poll(ctx, topic, p)
}
func (h *hub) Commit(ctx context.Context, id string, m *ratus.Commit) (*ratus.Task, error) {
	g, err := h.get("Commit")
	if err != nil {
		return nil, err
	}
	return g.Commit(ctx, id, m)
}
func (h *hub) ListTopics(ctx context.Context, limit, offset int) ([]*ratus.Topic, error) {
	g, err := h.get("ListTopics")
	if err != nil {
		return nil, err
	}
	return g.ListTopics(ctx, limit, offset)
}
func (h *hub) DeleteTopics(ctx context.Context) (*ratus.Deleted, error) {
	g, err := h.get("DeleteTopics")
	if err != nil {
		return nil, err
	}
	return g.DeleteTopics(ctx)
}
func (h *hub) GetTopic(ctx context.Context, topic string) (*ratus.Topic, error) {
	g, err := h.get("GetTopic")
	if err != nil {
		return nil, err
	}
	return g.GetTopic(ctx, topic)
}
func (h *hub) DeleteTopic(ctx context.Context, topic string) (*ratus.Deleted, error) {
	g, err := h.get("DeleteTopic")
	if err != nil {
		return nil, err
	}
	return g.DeleteTopic(ctx, topic)
}
func (h *hub) ListTasks(ctx context.Context, topic string, limit, offset int) ([]*ratus.Task, error) {
	g, err := h.get("ListTasks")
	if err != nil {
		return nil, err
	}
	return g.ListTasks(ctx, topic, limit, offset)
}
func (h *hub) InsertTasks(ctx context.Context, ts []*ratus.Task) (*ratus.Updated, error) {
	g, err := h.get("InsertTasks")
	if err != nil {
		return nil, err
	}
	return g.InsertTasks(ctx, ts)
}
func (h *hub) UpsertTasks(ctx context.Context, ts []*ratus.Task) (*ratus.Updated, error) {
	g, err := h.get("UpsertTasks")
	if err != nil {
		return nil, err
	}
	return g.UpsertTasks(ctx, ts)
}
func (h *hub) DeleteTasks(ctx context.Context, topic string) (*ratus.Deleted, error) {
	g, err := h.get("DeleteTasks")
	if err != nil {
		return nil, err
	}
	return g.DeleteTasks(ctx, topic)
}
func (h *hub) GetTask(ctx context.Context, id string) (*ratus.Task, error) {
	g, err := h.get("GetTask")
	if err != nil {
		return nil, err
	}
	return g.GetTask(ctx, id)
}
func (h *hub) InsertTask(ctx context.Context, t *ratus.Task) (*ratus.Updated, error) {
	g, err := h.get("InsertTask")
	if err != nil {
		return nil, err
	}
	return g.InsertTask(ctx, t)
}
func (h *hub) UpsertTask(ctx context.Context, t *ratus.Task) (*ratus.Updated, error) {
	g, err := h.get("UpsertTask")
	if err != nil {
		return nil, err
	}
	return g.UpsertTask(ctx, t)
}
func (h *hub) DeleteTask(ctx context.Context, id string) (*ratus.Deleted, error) {
	g, err := h.get("DeleteTask")
	if err != nil {
		return nil, err
	}
	return g.DeleteTask(ctx, id)
}
func (h *hub) ListPromises(ctx context.Context, topic string, limit, offset int) ([]*ratus.Promise, error) {
	g, err := h.get("ListPromises")
	if err != nil {
		return nil, err
	}
	return g.ListPromises(ctx, topic, limit, offset)
}
func (h *hub) DeletePromises(ctx context.Context, topic string) (*ratus.Deleted, error) {
	g, err := h.get("DeletePromises")
	if err != nil {
		return nil, err
	}
	return g.DeletePromises(ctx, topic)
}
func (h *hub) GetPromise(ctx context.Context, id string) (*ratus.Promise, error) {
	g, err := h.get("GetPromise")
	if err != nil {
		return nil, err
	}
	return g.GetPromise(ctx, id)
}
func (h *hub) InsertPromise(ctx context.Context, p *ratus.Promise) (*ratus.Task, error) {
	g, err := h.get("InsertPromise")
	if err != nil {
		return nil, err
	}
	return g.InsertPromise(ctx, p)
}
func (h *hub) UpsertPromise(ctx context.Context, p *ratus.Promise) (*ratus.Task, error) {
	g, err := h.get("UpsertPromise")
	if err != nil {
		return nil, err
	}
	return g.UpsertPromise(ctx, p)
}
func (h *hub) DeletePromise(ctx context.Context, id string) (*ratus.Deleted, error) {
	g, err := h.get("DeletePromise")
	if err != nil {
		return nil, err
	}
	return g.DeletePromise(ctx, id)
}

// API is a router with an exchangeable engine.
type API struct {
	hub hub
	h   http.Handler
	pc  config.PaginationConfig

	once  sync.Once
	url   string
	conns sync.Map // open connections
	tap  atomic.Pointer[func(w http.ResponseWriter, r *http.Request, next http.Handler)]
}

var (
	apiMu sync.Mutex
	apis  = map[config.PaginationConfig]*API{}
)

// newAPI returns a router like that of the executable.
func newAPI(maxLimit, maxOffset int) *API {
	pc := config.PaginationConfig{MaxLimit: maxLimit, MaxOffset: maxOffset}
	apiMu.Lock()
	defer apiMu.Unlock()
	if a := apis[pc]; a != nil {
		return a
	}
	gin.SetMode(gin.ReleaseMode)
	a := &API{pc: pc}
	g := &a.hub
	a.h = router.New(&controller.V1{
		Pagination: middleware.Pagination(&a.pc),
		Topic:      controller.NewTopicController(g),
		Task:       controller.NewTaskController(g),
		Promise:    controller.NewPromiseController(g),
		Health:     controller.NewHealthController(g),
		Metrics:    controller.NewMetricsController(g),
	}, &docs.Swagger{})
	apis[pc] = a
	return a
}

// use puts an engine behind the router for the duration of the case.
func (a *API) use(x *X, g engine.Engine, fault func(op string) error) {
	a.hub.set(g, fault)
	x.Defer(func() { a.hub.set(nil, nil) })
}

// serve starts a server on the loopback interface and returns its origin. The
// connections of the case end with it: clients keep theirs open for longer than
// there are ports for.
func (a *API) serve(x *X) string {
	a.once.Do(func() {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		Must(err)
		a.url = "http://" + l.Addr().String()
		s := &http.Server{
			Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
				if f := a.tap.Load(); f != nil {
					(*f)(w, r, a.h)
					return
				}
				a.h.ServeHTTP(w, r)
			}),
			ConnState: func(c net.Conn, s http.ConnState) {
				switch s {
				case http.StateNew:
					a.conns.Store(c, nil)
				case http.StateClosed, http.StateHijacked:
					a.conns.Delete(c)
				}
			},
		}
		go s.Serve(l)
	})
	x.Defer(func() {
		a.conns.Range(func(c, _ any) bool {
			c.(*net.TCPConn).SetLinger(0) // leaves nothing behind
			c.(*net.TCPConn).Close()
			return true
		})
	})
	return a.url
}

// tapped intercepts the requests of the server for the duration of the case.
func (a *API) tapped(x *X, f func(w http.ResponseWriter, r *http.Request, next http.Handler)) {
	a.tap.Store(&f)
	x.Defer(func() { a.tap.Store(nil) })
}

// Req is a request of a generated case.
type Req struct {
	Method string            `json:"method"`
	Target string            `json:"target"`
	Header map[string]string `json:"header,omitempty"`
	Body   *string           `json:"body,omitempty"`
}

func (q *Req) String() string {
	s := q.Method + " " + q.Target
	if q.Body != nil {
		b := *q.Body
		if len(b) > 1000 {
			b = b[:1000] + "..."
		}
		s += " " + b
	}
	return s
}

// Resp is an observed response.
type Resp struct {
	Status int
	Header http.Header
	Body   []byte
}

func (p *Resp) String() string {
	b := p.Body
	if len(b) > 600 {
		b = b[:600]
	}
	return fmt.Sprintf("%d %q", p.Status, b)
}

func (q *Req) bytes() []byte {
	var b bytes.Buffer
	fmt.Fprintf(&b, "%s %s HTTP/1.1\r\nHost: ratus\r\n", q.Method, q.Target)
	for _, k := range sortedStrings(q.Header) {
		fmt.Fprintf(&b, "%s: %s\r\n", k, q.Header[k])
	}
	if q.Body != nil {
		fmt.Fprintf(&b, "Content-Length: %d\r\n\r\n%s", len(*q.Body), *q.Body)
	} else {
		b.WriteString("\r\n")
	}
	return b.Bytes()
}

func sortedStrings(m map[string]string) []string {
	var v []string
	for k := range m {
		v = append(v, k)
	}
	sort.Strings(v)
	return v
}

// do sends a request to the router, without a network. It returns nil if the
// request never reaches the router, as the HTTP server refuses it.
func (a *API) do(x *X, q *Req) *Resp {
	r, err := http.ReadRequest(bufio.NewReader(bytes.NewReader(q.bytes())))
	if err != nil {
		return nil
	}
	r.RemoteAddr = "127.0.0.1:1"
	w := httptest.NewRecorder()
	func() {
		defer func() {
			if e := recover(); e != nil {
				if e == http.ErrAbortHandler {
					x.Fail("aborted", []string{"C17", "C19", "C24"}, "%s: the handler aborted the connection", q)
				}
				x.Fail("handler-panic", nil, "%s: the handler panicked: %v\n%s", q, e, debug.Stack())
			}
		}()
		a.h.ServeHTTP(w, r)
	}()
	p := &Resp{Status: w.Code, Header: w.Result().Header, Body: w.Body.Bytes()}
	if p.Header.Get("Content-Encoding") == "gzip" {
		z, err := gzip.NewReader(bytes.NewReader(p.Body))
		if err == nil {
			p.Body, err = io.ReadAll(z)
		}
		if err != nil {
			x.Fail("gzip", []string{"C24", "C17"}, "%s: the compressed response is broken: %v", q, err)
		}
	}
	return p
}

func isJSON(p *Resp) bool {
	m, _, err := mime.ParseMediaType(p.Header.Get("Content-Type"))
	return err == nil && m == "application/json" && json.Valid(p.Body)
}

// errBody returns the code and message of an error response.
func errBody(p *Resp) (code int, msg string, ok bool) {
	var e struct {
		Error *struct {
			Code    *int    `json:"code"`
			Message *string `json:"message"`
		} `json:"error"`
	}
	if !isJSON(p) || json.Unmarshal(p.Body, &e) != nil || e.Error == nil || e.Error.Code == nil || e.Error.Message == nil {
		return 0, "", false
	}
	return *e.Error.Code, *e.Error.Message, true
}

// The wire format as documented, written down independently of the code.
type wTask struct {
	ID        string          `json:"_id,omitempty"`
	Topic     string          `json:"topic,omitempty"`
	State     *int            `json:"state,omitempty"`
	Nonce     string          `json:"nonce,omitempty"`
	Producer  string          `json:"producer,omitempty"`
	Consumer  string          `json:"consumer,omitempty"`
	Produced  *time.Time      `json:"produced,omitempty"`
	Scheduled *time.Time      `json:"scheduled,omitempty"`
	Consumed  *time.Time      `json:"consumed,omitempty"`
	Deadline  *time.Time      `json:"deadline,omitempty"`
	Payload   json.RawMessage `json:"payload,omitempty"`
	Defer     string          `json:"defer,omitempty"`
}

func wireTask(t *ratus.Task) *wTask {
	w := &wTask{ID: t.ID, Topic: t.Topic, State: ptr(int(t.State)), Nonce: t.Nonce, Producer: t.Producer, Consumer: t.Consumer,
		Produced: t.Produced, Scheduled: t.Scheduled, Consumed: t.Consumed, Deadline: t.Deadline, Defer: t.Defer}
	if t.Payload != nil {
		b, err := json.Marshal(t.Payload)
		Must(err)
		w.Payload = b
	}
	return w
}

func (w *wTask) task() (*ratus.Task, error) {
	t := &ratus.Task{ID: w.ID, Topic: w.Topic, Nonce: w.Nonce, Producer: w.Producer, Consumer: w.Consumer,
		Produced: w.Produced, Scheduled: w.Scheduled, Consumed: w.Consumed, Deadline: w.Deadline, Defer: w.Defer}
	if w.State != nil {
		t.State = ratus.TaskState(*w.State)
	}
	if len(w.Payload) > 0 {
		if err := json.Unmarshal(w.Payload, &t.Payload); err != nil {
			return nil, err
		}
	}
	return t, nil
}

type wPromise struct {
	ID       string     `json:"_id,omitempty"`
	Consumer string     `json:"consumer,omitempty"`
	Deadline *time.Time `json:"deadline,omitempty"`
	Timeout  string     `json:"timeout,omitempty"`
}

type wCommit struct {
	Nonce     string          `json:"nonce,omitempty"`
	Topic     string          `json:"topic,omitempty"`
	State     *int            `json:"state,omitempty"`
	Scheduled *time.Time      `json:"scheduled,omitempty"`
	Payload   json.RawMessage `json:"payload,omitempty"`
	Defer     string          `json:"defer,omitempty"`
}

func jsonBody(v any) *string {
	b, err := json.Marshal(v)
	Must(err)
	return ptr(string(b))
}

// httpExec executes calls over raw HTTP requests to the router.
type httpExec struct {
	x    *X
	a    *API
	g    engine.Engine
	seen func(c *Call, q *Req, p *Resp) // called with every exchange, if not nil
}

const (
	styleV1       = 1 << iota // versioned prefix
	styleInPath               // the topic is in the path only
	styleQuery                // promises in the query
	styleGzip                 // compressed response
	styleOmit                 // leave out what is the default
	styleAnyTopic             // an unrelated topic in paths to single resources
	styleWild                 // promises for a task are made where those for any task are
	styleAll      = 1<<iota - 1
)

// wild tells whether a promise for a task is made where those for any task are.
func wild(o Op) bool { return o.K == opInsPromise && o.Style&styleWild != 0 && o.ID != "" }

func methodPath(o Op) (method, path string) {
	t, id := url.PathEscape(o.Topic), url.PathEscape(o.ID)
	switch o.K {
	case opInsert:
		return "POST", "/topics/" + t + "/tasks/" + id
	case opUpsert:
		return "PUT", "/topics/" + t + "/tasks/" + id
	case opInserts:
		return "POST", "/topics/" + t + "/tasks"
	case opUpserts:
		return "PUT", "/topics/" + t + "/tasks"
	case opPoll:
		return "POST", "/topics/" + t + "/promises"
	case opInsPromise:
		return "POST", "/topics/" + t + "/promises/" + id
	case opUpsPromise:
		return "PUT", "/topics/" + t + "/promises/" + id
	case opCommit:
		return "PATCH", "/topics/" + t + "/tasks/" + id
	case opDelTopics:
		return "DELETE", "/topics"
	case opDelTopic:
		return "DELETE", "/topics/" + t
	case opDelTasks:
		return "DELETE", "/topics/" + t + "/tasks"
	case opDelTask:
		return "DELETE", "/topics/" + t + "/tasks/" + id
	case opDelPromises:
		return "DELETE", "/topics/" + t + "/promises"
	case opDelPromise:
		return "DELETE", "/topics/" + t + "/promises/" + id
	case opGetTask:
		return "GET", "/topics/" + t + "/tasks/" + id
	case opListTasks:
		return "GET", "/topics/" + t + "/tasks"
	case opListTopics:
		return "GET", "/topics"
	case opGetTopic:
		return "GET", "/topics/" + t
	case opListPromises:
		return "GET", "/topics/" + t + "/promises"
	case opGetPromise:
		return "GET", "/topics/" + t + "/promises/" + id
	}
	bug("no request for %q", o.K)
	return
}

// request builds the request for a call.
func (e *httpExec) request(c *Call) *Req {
	o := c.Op
	st := o.Style
	q := &Req{Header: map[string]string{}}
	switch o.K {
	case opInsert, opUpsert:
		t := c.Tasks[0]
		o.ID = t.ID
		w := wireTask(t)
		if st&styleInPath != 0 {
			o.Topic = t.Topic
			w.Topic = ""
		} else if st&styleAnyTopic != 0 {
			o.Topic = "elsewhere"
		}
		if st&styleOmit != 0 {
			w.ID = ""
			if *w.State == 0 {
				w.State = nil
			}
		}
		q.Body = jsonBody(w)
	case opInserts, opUpserts:
		ts := []*wTask{}
		for i, t := range c.Tasks {
			w := wireTask(t)
			if i == 0 && st&styleInPath != 0 {
				o.Topic = t.Topic
			}
			if w.Topic == o.Topic && st&styleOmit != 0 {
				w.Topic = ""
			}
			ts = append(ts, w)
		}
		if st&styleInPath == 0 && st&styleAnyTopic != 0 {
			o.Topic = "elsewhere"
			for i := range ts {
				ts[i].Topic = c.Tasks[i].Topic
			}
		} else if o.Topic == "" {
			for i := range ts {
				ts[i].Topic = c.Tasks[i].Topic
			}
		}
		if len(ts) == 0 && st&styleOmit != 0 {
			q.Body = ptr("{}")
		} else {
			q.Body = jsonBody(map[string]any{"data": ts})
		}
	case opPoll, opInsPromise, opUpsPromise:
		w := &wPromise{ID: o.ID, Consumer: c.Promise.Consumer, Deadline: c.Promise.Deadline}
		if o.K == opPoll || st&styleOmit != 0 && !wild(o) {
			w.ID = ""
		}
		if st&styleQuery != 0 {
			v := url.Values{}
			if w.Consumer != "" {
				v.Set("consumer", w.Consumer)
			}
			if w.Deadline != nil {
				v.Set("deadline", w.Deadline.Format(time.RFC3339Nano))
			}
			if w.ID != "" {
				v.Set("_id", w.ID)
			}
			q.Target = "?" + v.Encode()
		} else {
			q.Body = jsonBody(w)
		}
	case opCommit:
		w := &wCommit{Nonce: c.Commit.Nonce, Topic: c.Commit.Topic, Scheduled: c.Commit.Scheduled}
		if c.Commit.State != nil && !(st&styleOmit != 0 && *c.Commit.State == 2) {
			w.State = ptr(int(*c.Commit.State))
		}
		if c.Commit.Payload != nil {
			b, err := json.Marshal(c.Commit.Payload)
			Must(err)
			w.Payload = b
		}
		q.Body = jsonBody(w)
		if *q.Body == "{}" && st&styleQuery != 0 {
			q.Body = nil
		}
	case opListTasks, opListTopics, opListPromises:
		q.Target = fmt.Sprintf("?limit=%d&offset=%d", o.Limit, o.Offset)
	}
	switch o.K {
	case opCommit, opDelTask, opDelPromise, opGetTask, opGetPromise, opInsPromise, opUpsPromise:
		// The topic in the path does not matter.
		if st&styleAnyTopic != 0 {
			o.Topic = "elsewhere"
		} else if st&styleInPath != 0 {
			o.Topic = "a/b"
		}
	}
	if wild(o) {
		o.K = opPoll
		if o.Topic == "" {
			o.Topic = "any"
		}
	}
	m, p := methodPath(o)
	if st&styleV1 != 0 {
		p = "/v1" + p
	}
	q.Method, q.Target = m, p+q.Target
	if st&styleGzip != 0 {
		q.Header["Accept-Encoding"] = "gzip"
	}
	if q.Body != nil {
		q.Header["Content-Type"] = "application/json"
	}
	return q
}

var statusKinds = map[int]string{400: "badrequest", 404: "notfound", 409: "conflict", 499: "closed", 500: "internal", 503: "unavailable"}

func (e *httpExec) Do(c *Call) *Result {
	if c.Op.K == opChore {
		return doEngine(context.Background(), e.g, c)
	}
	q := e.request(c)
	p := e.a.do(e.x, q)
	if p == nil {
		bug("the request cannot be parsed: %s", q)
	}
	if e.seen != nil {
		e.seen(c, q, p)
	}
	r, msg := parseResult(c.Op.K, p)
	if msg != "" {
		e.x.Fail("response", []string{"C24", "C19"}, "%s: %s: %s", q, msg, p)
	}
	return r
}

// parseResult interprets a response to a request for an operation.
func parseResult(k string, p *Resp) (*Result, string) {
	if !isJSON(p) {
		return nil, "the response is not JSON"
	}
	if p.Status >= 400 {
		kind, ok := statusKinds[p.Status]
		code, msg, ok2 := errBody(p)
		if !ok || !ok2 {
			return nil, "not a documented error response"
		}
		if code != p.Status {
			return nil, "the code of the error differs from the status"
		}
		return &Result{Err: kind, Msg: msg}, ""
	}
	r := &Result{}
	bad := func(err error) (*Result, string) { return nil, fmt.Sprintf("unexpected body: %v", err) }
	var raw map[string]json.RawMessage
	if err := json.Unmarshal(p.Body, &raw); err != nil {
		return bad(err)
	}
	want := 200
	switch k {
	case opInsert, opInserts, opUpsert, opUpserts:
		var v struct{ Created, Updated *int64 }
		if err := json.Unmarshal(p.Body, &v); err != nil || v.Created == nil || v.Updated == nil {
			return bad(err)
		}
		r.Updated = &ratus.Updated{Created: *v.Created, Updated: *v.Updated}
		if *v.Created > 0 {
			want = 201
		}
	case opPoll, opInsPromise, opUpsPromise, opCommit, opGetTask:
		var v wTask
		if err := json.Unmarshal(p.Body, &v); err != nil {
			return bad(err)
		}
		t, err := v.task()
		if err != nil {
			return bad(err)
		}
		r.Task = t
	case opDelTopics, opDelTopic, opDelTasks, opDelTask, opDelPromises, opDelPromise:
		var v struct{ Deleted *int64 }
		if err := json.Unmarshal(p.Body, &v); err != nil || v.Deleted == nil {
			return bad(err)
		}
		r.Deleted = &ratus.Deleted{Deleted: *v.Deleted}
	case opListTasks:
		var v struct{ Data []*wTask }
		if err := json.Unmarshal(p.Body, &v); err != nil {
			return bad(err)
		}
		r.Tasks = []*ratus.Task{}
		for _, w := range v.Data {
			if w == nil {
				return nil, "null task"
			}
			t, err := w.task()
			if err != nil {
				return bad(err)
			}
			r.Tasks = append(r.Tasks, t)
		}
	case opListTopics:
		var v struct{ Data []*wTopic }
		if err := json.Unmarshal(p.Body, &v); err != nil {
			return bad(err)
		}
		r.Topics = []*ratus.Topic{}
		for _, w := range v.Data {
			if w == nil {
				return nil, "null topic"
			}
			r.Topics = append(r.Topics, &ratus.Topic{Name: w.Name, Count: w.Count})
		}
	case opGetTopic:
		var v wTopic
		if err := json.Unmarshal(p.Body, &v); err != nil {
			return bad(err)
		}
		r.Topic = &ratus.Topic{Name: v.Name, Count: v.Count}
	case opListPromises:
		var v struct{ Data []*wPromise }
		if err := json.Unmarshal(p.Body, &v); err != nil {
			return bad(err)
		}
		r.Promises = []*ratus.Promise{}
		for _, w := range v.Data {
			if w == nil {
				return nil, "null promise"
			}
			r.Promises = append(r.Promises, &ratus.Promise{ID: w.ID, Consumer: w.Consumer, Deadline: w.Deadline, Timeout: w.Timeout})
		}
	case opGetPromise:
		var w wPromise
		if err := json.Unmarshal(p.Body, &w); err != nil {
			return bad(err)
		}
		r.Promise = &ratus.Promise{ID: w.ID, Consumer: w.Consumer, Deadline: w.Deadline, Timeout: w.Timeout}
	default:
		bug("no result for %q", k)
	}
	if p.Status != want {
		return nil, fmt.Sprintf("the status should be %d", want)
	}
	return r, ""
}

type wTopic struct {
	Name  string
	Count int64
}

// normalized adapts a call to what requests become before they are executed.
func normalized(max int, now func() time.Time) func(c *Call) {
	return func(c *Call) {
		n := now().Round(0)
		for _, t := range c.Tasks {
			if t.Produced == nil {
				t.Produced = &n
			}
			if t.Scheduled == nil {
				t.Scheduled = &n
			}
		}
		if c.Promise != nil && c.Promise.Deadline == nil {
			c.Promise.Deadline = ptr(n.Add(10 * time.Minute))
		}
		if c.Commit != nil && c.Commit.State == nil {
			c.Commit.State = ptr(ratus.TaskState(2))
		}
		switch c.Op.K {
		case opListTasks, opListTopics, opListPromises:
			if c.Op.Limit == 0 {
				c.Op.Limit = 10
			}
		}
	}
}

// clientExec executes calls through the Go client.
type clientExec struct {
	c   *ratus.Client
	g   engine.Engine
	err error // of the last call
}

func (e *clientExec) Do(c *Call) *Result {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	r := &Result{}
	var err error
	o := c.Op
	l := e.c
	switch o.K {
	case opInsert:
		r.Updated, err = l.InsertTask(ctx, dup(c.Tasks[0]))
	case opInserts:
		r.Updated, err = l.InsertTasks(ctx, dups(c.Tasks))
	case opUpsert:
		r.Updated, err = l.UpsertTask(ctx, dup(c.Tasks[0]))
	case opUpserts:
		r.Updated, err = l.UpsertTasks(ctx, dups(c.Tasks))
	case opPoll:
		p := *c.Promise
		p.ID = ""
		if o.Style&styleQuery != 0 {
			r.Task, err = l.PostPromises(ctx, o.Topic, &p)
		} else {
			var x *ratus.Context
			if x, err = l.Poll(ctx, o.Topic, &p); err == nil {
				r.Task = x.Task
			}
		}
	case opInsPromise:
		p := *c.Promise
		r.Task, err = l.InsertPromise(ctx, &p)
	case opUpsPromise:
		p := *c.Promise
		r.Task, err = l.UpsertPromise(ctx, &p)
	case opCommit:
		m := *c.Commit
		r.Task, err = l.PatchTask(ctx, o.ID, &m)
	case opDelTopics:
		r.Deleted, err = l.DeleteTopics(ctx)
	case opDelTopic:
		r.Deleted, err = l.DeleteTopic(ctx, o.Topic)
	case opDelTasks:
		r.Deleted, err = l.DeleteTasks(ctx, o.Topic)
	case opDelTask:
		r.Deleted, err = l.DeleteTask(ctx, o.ID)
	case opDelPromises:
		r.Deleted, err = l.DeletePromises(ctx, o.Topic)
	case opDelPromise:
		r.Deleted, err = l.DeletePromise(ctx, o.ID)
	case opGetTask:
		r.Task, err = l.GetTask(ctx, o.ID)
	case opListTasks:
		r.Tasks, err = l.ListTasks(ctx, o.Topic, o.Limit, o.Offset)
	case opListTopics:
		r.Topics, err = l.ListTopics(ctx, o.Limit, o.Offset)
	case opGetTopic:
		r.Topic, err = l.GetTopic(ctx, o.Topic)
	case opListPromises:
		r.Promises, err = l.ListPromises(ctx, o.Topic, o.Limit, o.Offset)
	case opGetPromise:
		r.Promise, err = l.GetPromise(ctx, o.ID)
	case opChore:
		err = e.g.Chore(ctx)
	default:
		bug("the client cannot do %q", o.K)
	}
	e.err = err
	finish(o.K, r, err)
	return r
}

func newClient(origin string, headers map[string]string) *ratus.Client {
	c, err := ratus.NewClient(&ratus.ClientOptions{Origin: origin, Headers: headers})
	if err != nil {
		panic(&failure{nil, "client", fmt.Sprintf("creating a client for %q failed: %v", origin, err)})
	}
	return c
}

// apiProfile turns a profile into one of operations over HTTP.
func apiProfile(p Profile) *Profile {
	p.HTTP = true
	if p.Names == namesBytes {
		p.Names = namesText
	}
	return &p
}

// httpHistory explores histories of raw requests to the router.
func httpHistory(p Profile, quick, thorough int, rule string, nontrivial func(n func(string) int64) bool, after func(d *driver)) Part {
	q := apiProfile(p)
	return &prop[History]{
		name: "http", quick: quick, thorough: thorough,
		rule: "random histories of raw HTTP requests (both prefixes; topics in path or body; promises in body or query; plain or compressed) to the router over a fresh in-memory engine, every response compared with the reference model and the store audited through the engine after every request; non-trivial: " + rule,
		gen:  func(t *rapid.T) History { return genHistory(t, q) },
		run: func(x *X, h History) {
			g := openMem(time.Duration(h.Retention))
			a := newAPI(1000, 10000)
			a.use(x, g, nil)
			e := &httpExec{x: x, a: a, g: g}
			d := newDriver(x, memMode(h.Retention), e)
			d.aud = &engineExec{g: g}
			d.fixup = normalized(1000, d.clk.Now)
			d.names(h)
			for _, o := range h.Ops {
				d.step(o)
			}
			if after != nil {
				after(d)
			}
			if nontrivial(func(k string) int64 { return x.classes[k] }) {
				x.NonTrivial()
			}
		},
	}
}

// httpSnap explores histories of raw requests to instances that keep their
// tasks in a snapshot and are closed and reopened in between.
func httpSnap(p Profile, quick, thorough int) Part {
	q := apiProfile(p)
	return &prop[snapHistory]{
		name: "api", quick: quick, thorough: thorough,
		rule: "random histories of raw HTTP requests to the router over an in-memory engine with a snapshot path, which is closed and reopened at random points: closing and opening succeed, the store is the same field by field before and after, and every later response is the one of the reference model; non-trivial: a store with tasks was reopened",
		gen: func(t *rapid.T) snapHistory {
			h := snapHistory{History: genHistory(t, q)}
			h.Interval = pick(t, "interval", int64(0), int64(5*time.Minute))
			return h
		},
		run: func(x *X, h snapHistory) {
			dir := caseDir(x)
			path := filepath.Join(dir, "snapshot")
			ctx := context.Background()
			open := func() *memdb.Engine {
				g := newSnap(path, time.Duration(h.Interval), time.Duration(h.Retention))
				if err := g.Open(ctx); err != nil {
					x.Failp("open", "opening the saved snapshot failed: %v", err)
				}
				return g
			}
			g := open()
			a := newAPI(1000, 10000)
			a.use(x, g, nil)
			e := &httpExec{x: x, a: a, g: g}
			d := newDriver(x, memMode(h.Retention), e)
			aud := &engineExec{g: g}
			d.aud = aud
			d.fixup = normalized(1000, d.clk.Now)
			d.names(h.History)
			d.reopen = func() {
				before := dump(g)
				if err := g.Close(ctx); err != nil {
					x.Failp("close", "closing failed: %v", err)
				}
				g = open()
				if s := exactDiff(dump(g), before); s != "" {
					x.Failp("restored", "after closing and reopening: %s", s)
				}
				aud.g, e.g = g, g
				a.hub.set(g, nil)
				x.Class("reopened")
				if len(before) > 0 {
					x.Class("reopened-nonempty")
				}
			}
			for _, o := range h.Ops {
				d.step(o)
			}
			d.reopen()
			d.audit(&Call{Op: Op{K: opOpen}}, d.state.Tasks)
			if x.classes["reopened-nonempty"] > 0 {
				x.NonTrivial()
			}
		},
	}
}
