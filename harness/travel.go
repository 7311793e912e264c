package main

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"regexp"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	"pgregory.net/rapid"

	"github.com/hyperonym/ratus"
)

// Requests that travel in other ways than usual (C34).

// trip is how a request travels.
type trip struct {
	Old      bool   `json:"old,omitempty"`      // HTTP/1.0
	Close    bool   `json:"close,omitempty"`    // the connection is closed afterwards
	Keep     bool   `json:"keep,omitempty"`     // over the connection of an earlier request
	Chunks   []int  `json:"chunks,omitempty"`   // sizes of the chunks of the body
	Parts    []int  `json:"parts,omitempty"`    // sizes of the segments that are sent one by one
	Pause    int    `json:"pause,omitempty"`    // milliseconds between them
	Expect   bool   `json:"expect,omitempty"`   // the body is sent when the server asks for it
	Encoding string `json:"encoding,omitempty"` // of the response
	Accept   string `json:"accept,omitempty"`
	Type     string `json:"type,omitempty"` // of the body, "-" for none
	Origin   string `json:"origin,omitempty"`
	Host     string `json:"host,omitempty"`
	Absolute bool   `json:"absolute,omitempty"` // the target is an absolute URL
	Percent  int    `json:"percent,omitempty"`  // characters of names that are encoded without need
	Lower    bool   `json:"lower,omitempty"`    // lower case in header names and encodings
	Pad      int    `json:"pad,omitempty"`      // bytes of other headers
	Layout   int    `json:"layout,omitempty"`   // of the JSON of the body
	Pipe     bool   `json:"pipe,omitempty"`     // another request follows at once

	Others [][2]string `json:"others,omitempty"` // headers that mean nothing to the API
}

// others are headers that clients and proxies add to requests.
var others = [][2]string{
	{"Authorization", "Bearer abc"},
	{"Cache-Control", "no-store, max-age=0"},
	{"Cookie", "limit=1; topic=other; state=3"},
	{"DNT", "1"},
	{"Forwarded", "for=192.0.2.60;proto=https;host=example.org"},
	{"From", "a@example.org"},
	{"If-None-Match", `"0123456789abcdef"`},
	{"If-Unmodified-Since", "Fri, 31 Dec 9999 23:59:59 GMT"},
	{"Idempotency-Key", "8e03978e-40d5-43dd-bc93-6894a57f9324"},
	{"Max-Forwards", "10"},
	{"Pragma", "no-cache"},
	{"Prefer", "return=minimal"},
	{"Priority", "u=1, i"},
	{"Referer", "http://example.org/a?limit=1"},
	{"Sec-Fetch-Mode", "cors"},
	{"Sec-Fetch-Site", "cross-site"},
	{"Traceparent", "00-4bf92f3577b34da6a3ce929d0e0e4736-00f067aa0ba902b7-01"},
	{"Upgrade-Insecure-Requests", "1"},
	{"User-Agent", "Ratus-Client"},
	{"User-Agent", "kube-probe/1.29"},
	{"Via", "1.1 vegur, 1.0 fred"},
	{"X-Api-Version", "2"},
	{"X-Forwarded-Host", "example.org"},
	{"X-Forwarded-Method", "DELETE"},
	{"X-Forwarded-Prefix", "/v1"},
	{"X-Forwarded-Proto", "https"},
	{"X-Forwarded-Uri", "/topics"},
	{"X-HTTP-Method", "DELETE"},
	{"X-HTTP-Method-Override", "DELETE"},
	{"X-HTTP-Method-Override", "GET"},
	{"X-Method-Override", "PUT"},
	{"X-Original-URL", "/topics"},
	{"X-Real-IP", "10.0.0.1"},
	{"X-Request-ID", "1"},
	{"X-Requested-With", "XMLHttpRequest"},
	{"X-Rewrite-URL", "/topics"},
	{"X-Timeout", "1ms"},
	{"Grpc-Timeout", "1m"},
}

type travelStep struct {
	Op     *Op      `json:"op,omitempty"`
	Bad    *badCase `json:"bad,omitempty"`
	Flight string   `json:"flight,omitempty"` // method of a preflight request
	Trip   trip     `json:"trip"`
}

type travelCase struct {
	Steps []travelStep `json:"steps"`
}

// genFar draws times that do not come while the case runs.
func genFar(t *rapid.T, label string) TS {
	h := rng(t, 2, 100, label)
	if bit.Draw(t, label+"-past") {
		h = -h
	}
	return TS{K: "rel", N: int64(h) * int64(time.Hour)}
}

func genTrip(t *rapid.T) (v trip) {
	v.Keep, v.Close = bit.Draw(t, "keep"), oneIn(t, 6, "close")
	if oneIn(t, 8, "old") {
		v.Old = true
	} else {
		if oneIn(t, 3, "chunked") {
			v.Chunks = seq(t, 2, 6, "chunks", func(t *rapid.T) int { return pick(t, "chunk", 1, 2, 7, 16, 255, 4096) })
			if len(v.Chunks) == 0 {
				v.Chunks = []int{1 << 20}
			}
		}
		v.Expect = oneIn(t, 6, "expect")
		v.Pipe = oneIn(t, 6, "pipe")
	}
	if oneIn(t, 3, "split") {
		v.Parts = seq(t, 3, 8, "parts", func(t *rapid.T) int { return pick(t, "part", 1, 3, 10, 40, 200) })
		v.Pause = pick(t, "pause", 0, 0, 1)
	}
	if oneIn(t, 2, "encoding") {
		v.Encoding = pick(t, "accepted", "gzip", "gzip", "gzip, deflate, br", "gzip;q=0.5, identity", "identity", "deflate", "*")
	}
	if oneIn(t, 3, "accept") {
		v.Accept = pick(t, "media", "*/*", "application/json", "text/html,application/xhtml+xml,application/xml;q=0.9,*/*;q=0.8", "application/xml", "text/plain")
	}
	if oneIn(t, 2, "typed") {
		v.Type = pick(t, "type", "-", "application/json", "application/json; charset=utf-8", "application/x-www-form-urlencoded", "text/plain;charset=UTF-8", "text/json")
	}
	if oneIn(t, 2, "crossed") {
		v.Origin = pick(t, "origin", "http://example.com", "https://app.example.org:8443", "null", "http://localhost:3000", "chrome-extension://abc", "http://host")
	}
	v.Host = pick(t, "host", "", "", "host", "example.com:8080", "[::1]:80")
	v.Absolute = oneIn(t, 10, "absolute")
	if oneIn(t, 3, "percent") {
		v.Percent = rng(t, 1, 3, "encoded")
	}
	v.Lower = oneIn(t, 3, "lower")
	if oneIn(t, 4, "pad") {
		v.Pad = pick(t, "bytes", 10, 1000, 10_000, 60_000)
	}
	if oneIn(t, 3, "others") {
		v.Others = seq(t, 2, 5, "others", func(t *rapid.T) [2]string {
			if oneIn(t, 5, "override") {
				return [2]string{pick(t, "name", "X-HTTP-Method-Override", "X-HTTP-Method", "X-Method-Override", "X-Forwarded-Method", "X-Original-Method"), pick(t, "method", "PUT", "DELETE", "GET", "PATCH", "POST", "HEAD")}
			}
			return pick(t, "other", others...)
		})
	}
	if oneIn(t, 3, "relayout") {
		v.Layout = rng(t, 1, 3, "layout")
	}
	return
}

func genTravel(avg int) func(t *rapid.T) travelCase {
	return func(t *rapid.T) travelCase {
		p := apiProfile(Profile{AnyState: true, Names: namesText, Time: genFar, Payload: genPayload, Batch: 6,
			Weights: with(opChore, 0, opAdvance, 0, opListTasks, 4, opListTopics, 3, opListPromises, 3, opGetTask, 4, opGetPromise, 3)})
		ids, topics := genNames(t, rng(t, 1, 5, "nids"), namesText, "idname"), genNames(t, rng(t, 1, 3, "ntopics"), namesText, "topicname")
		c := travelCase{}
		c.Steps = seq(t, avg, 3*avg, "steps", func(t *rapid.T) travelStep {
			s := travelStep{Trip: genTrip(t)}
			switch weighted(t, "what", 12, 2, 1) {
			case 1:
				b := genBad(t)
				s.Bad = &b
			case 2:
				s.Flight = pick(t, "flight", "GET", "POST", "PUT", "PATCH", "DELETE")
				fallthrough
			default:
				o := genOp(t, p, ids, topics)
				if oneIn(t, 40, "large") && len(o.Tasks) > 0 {
					o.Tasks[0].Payload = json.RawMessage(`"` + strings.Repeat("x", pick(t, "size", 5000, 70_000, 300_000, 2_000_000, 9_000_000)) + `"`)
				}
				s.Op = &o
			}
			return s
		})
		// No two tasks are due at the same time.
		for i := range c.Steps {
			if o := c.Steps[i].Op; o != nil {
				for j := range o.Tasks {
					o.Tasks[j].Scheduled.N += int64(i*32+j) * 1_000_003
				}
				o.Sched.N += int64(i*32+31) * 1_000_003
			}
		}
		return c
	}
}

// longRun matches the large payloads.
var longRun = regexp.MustCompile("x{1000,}")

// relayout writes JSON in another way.
func relayout(b string, how int) string {
	var out bytes.Buffer
	switch {
	case how == 0 || !json.Valid([]byte(b)):
		return b
	case how == 1:
		Must(json.Indent(&out, []byte(b), "\r\n", "\t"))
		return out.String() + "\n"
	case how == 2: // escape all that is not ASCII
		for _, r := range b {
			switch {
			case r < 0x80 || r == utf8.RuneError:
				out.WriteRune(r)
			case r > 0xffff:
				r -= 0x10000
				fmt.Fprintf(&out, "\\u%04x\\u%04X", 0xd800+r>>10, 0xdc00+r&0x3ff)
			default:
				fmt.Fprintf(&out, "\\u%04x", r)
			}
		}
		return out.String()
	}
	return " \n" + b + "\t "
}

// percent encodes characters of the names in a path without need.
func percent(path string, n int, lower bool) string {
	seg := strings.Split(path, "/")
	for i := 1; i < len(seg); i++ {
		switch seg[i-1] {
		case "topics", "tasks", "promises":
			if seg[i] == "tasks" || seg[i] == "promises" {
				continue
			}
			var b strings.Builder
			left := n
			for j := 0; j < len(seg[i]); j++ {
				c := seg[i][j]
				if c == '%' && j+2 < len(seg[i]) {
					e := seg[i][j : j+3]
					if lower {
						e = strings.ToLower(e)
					}
					b.WriteString(e)
					j += 2
				} else if left > 0 && (c >= 'a' && c <= 'z' || c >= '0' && c <= '9' || c == '-') {
					if left--; lower {
						fmt.Fprintf(&b, "%%%02x", c)
					} else {
						fmt.Fprintf(&b, "%%%02X", c)
					}
				} else {
					b.WriteByte(c)
				}
			}
			seg[i] = b.String()
		}
	}
	return strings.Join(seg, "/")
}

// line is a connection to a server.
type line struct {
	addr string
	conn net.Conn
	rd   *bufio.Reader
}

func (l *line) hangUp() {
	if l.conn != nil {
		l.conn.Close()
		l.conn = nil
	}
}

// send sends a request in a certain way, and returns its response and that of
// the request which follows at once.
func (l *line) send(q *Req, v trip) (p, next *Resp, err error) {
	if !v.Keep || l.conn == nil {
		l.hangUp()
		if l.conn, err = net.DialTimeout("tcp", l.addr, procLimit); err != nil {
			l.conn = nil
			return
		}
		l.rd = bufio.NewReader(l.conn)
	}
	l.conn.SetDeadline(time.Now().Add(2 * procLimit))
	target := q.Target
	if i := strings.IndexByte(target, '?'); i >= 0 {
		target = percent(target[:i], v.Percent, v.Lower) + target[i:]
	} else {
		target = percent(target, v.Percent, v.Lower)
	}
	host := v.Host
	if host == "" {
		host = l.addr
	}
	if v.Absolute {
		target = "http://" + host + target
	}
	var head, body bytes.Buffer
	proto := "HTTP/1.1"
	if v.Old {
		proto = "HTTP/1.0"
	}
	fmt.Fprintf(&head, "%s %s %s\r\n", q.Method, target, proto)
	add := func(k, s string) {
		if v.Lower {
			k = strings.ToLower(k)
		}
		fmt.Fprintf(&head, "%s: %s\r\n", k, s)
	}
	add("Host", host)
	for _, k := range sortedStrings(q.Header) {
		switch k {
		case "Content-Type", "Accept-Encoding":
		default:
			add(k, q.Header[k])
		}
	}
	if v.Pad > 0 {
		add("User-Agent", "Mozilla/5.0 (X11; Linux x86_64)")
		add("Cookie", "a="+strings.Repeat("c", v.Pad))
		add("X-Forwarded-For", "10.0.0.1, 10.0.0.2")
		add("Cache-Control", "no-cache")
	}
	for _, o := range v.Others {
		add(o[0], o[1])
	}
	if v.Encoding != "" {
		add("Accept-Encoding", v.Encoding)
	}
	if v.Accept != "" {
		add("Accept", v.Accept)
	}
	if v.Origin != "" {
		add("Origin", v.Origin)
	}
	if v.Close {
		add("Connection", "close")
	}
	if q.Body != nil {
		typ := v.Type
		if typ == "" {
			typ = "application/json"
		}
		if typ != "-" {
			add("Content-Type", typ)
		}
		if v.Expect && *q.Body != "" {
			add("Expect", "100-continue")
		}
		if len(v.Chunks) > 0 {
			add("Transfer-Encoding", "chunked")
			rest := *q.Body
			for i := 0; rest != ""; i++ {
				n := v.Chunks[i%len(v.Chunks)]
				if i >= 200 || n > len(rest) {
					n = len(rest)
				}
				fmt.Fprintf(&body, "%x\r\n%s\r\n", n, rest[:n])
				rest = rest[n:]
			}
			body.WriteString("0\r\n\r\n")
		} else {
			add("Content-Length", fmt.Sprint(len(*q.Body)))
			body.WriteString(*q.Body)
		}
	}
	head.WriteString("\r\n")
	write := func(b []byte) {
		for i := 0; err == nil && len(b) > 0; i++ {
			n := len(b)
			if i < len(v.Parts) && v.Parts[i] < n {
				n = v.Parts[i]
			}
			if i > 0 && v.Pause > 0 {
				time.Sleep(time.Duration(v.Pause) * time.Millisecond)
			}
			_, err = l.conn.Write(b[:n])
			b = b[n:]
		}
	}
	follow := "GET /v1/topics?limit=100 HTTP/1.1\r\nHost: " + l.addr + "\r\n\r\n"
	if v.Close || v.Old || !v.Pipe {
		follow = ""
	}
	if v.Expect && q.Body != nil && *q.Body != "" && !v.Old {
		write(head.Bytes())
		if err != nil {
			return
		}
		b, e := l.rd.Peek(12)
		if e != nil {
			return nil, nil, fmt.Errorf("no response to the headers: %v", e)
		}
		if string(b[9:12]) == "100" {
			if _, err = http.ReadResponse(l.rd, nil); err != nil {
				return
			}
			write(append(body.Bytes(), follow...))
		} else {
			follow = "" // answered without its body
			v.Close = true
		}
	} else {
		write(append(append(head.Bytes(), body.Bytes()...), follow...))
	}
	if sent := err; sent != nil {
		// A server may answer a request without reading all of its body.
		if p, _, err = l.receive(q.Method); err != nil {
			if err = fmt.Errorf("sending failed: %v", sent); body.Len() > 100_000 {
				err = errUnread
			}
		}
		l.hangUp()
		return
	}
	p, last, err := l.receive(q.Method)
	if err == nil && follow != "" {
		if last {
			// The server may close the connection instead of reading a body to its end.
			l.hangUp()
			return p, nil, nil
		}
		next, last, err = l.receive("GET")
	}
	if err != nil {
		return
	}
	if last || v.Old || v.Close {
		l.hangUp()
	}
	return p, next, nil
}

var errUnread = errors.New("the server did not read the body")

// receive reads a response, and tells whether it is the last one.
func (l *line) receive(method string) (*Resp, bool, error) {
	res, err := http.ReadResponse(l.rd, &http.Request{Method: method})
	if err != nil {
		return nil, false, fmt.Errorf("reading the response failed: %v", err)
	}
	b, err := io.ReadAll(res.Body)
	if err == nil && res.Header.Get("Content-Encoding") == "gzip" {
		var z *gzip.Reader
		if z, err = gzip.NewReader(bytes.NewReader(b)); err == nil {
			b, err = io.ReadAll(z)
		}
	}
	if err != nil {
		return nil, false, fmt.Errorf("reading the body of the response (status %d) failed: %v", res.StatusCode, err)
	}
	return &Resp{Status: res.StatusCode, Header: res.Header, Body: b}, res.Close, nil
}

// side is what was seen of one of two servers.
type side struct {
	last   map[string]string // current nonces
	nonces map[string][]string
	all    map[string]bool
}

func newSide() *side {
	return &side{map[string]string{}, map[string][]string{}, map[string]bool{}}
}

// learn remembers the nonces in a response.
func (s *side) learn(v any) {
	switch d := v.(type) {
	case map[string]any:
		id, _ := d["_id"].(string)
		n, _ := d["nonce"].(string)
		if n != "" {
			s.all[n] = true
			if s.last[id] != n {
				s.last[id] = n
				s.nonces[id] = append(s.nonces[id], n)
			}
		}
		for _, x := range d {
			s.learn(x)
		}
	case []any:
		for _, x := range d {
			s.learn(x)
		}
	}
}

func (s *side) nonce(id, ref string) string {
	cur := s.last[id]
	switch ref {
	case "cur":
		return cur
	case "old":
		if len(s.nonces[id]) > 0 {
			return s.nonces[id][0]
		}
		return "old"
	case "swapped":
		return strings.ToLower(cur)
	case "part":
		if cur != "" {
			return cur[1:]
		}
		return "part"
	case "longer", "other":
		return cur + "x"
	}
	return ref
}

// sameAnswer compares two responses up to nonces and the time that passed between.
func sameAnswer(a, b any, p, q *side) string {
	switch x := a.(type) {
	case map[string]any:
		y, ok := b.(map[string]any)
		if !ok || len(x) != len(y) {
			break
		}
		for k := range x {
			w, ok := y[k]
			if !ok {
				return fmt.Sprintf("%q is missing", k)
			}
			if d := sameAnswer(x[k], w, p, q); d != "" {
				return k + ": " + d
			}
		}
		return ""
	case []any:
		y, ok := b.([]any)
		if !ok || len(x) != len(y) {
			break
		}
		for i := range x {
			if d := sameAnswer(x[i], y[i], p, q); d != "" {
				return fmt.Sprintf("%d: %s", i, d)
			}
		}
		return ""
	case string:
		y, ok := b.(string)
		if !ok {
			break
		}
		if x == y || p.all[x] && q.all[y] {
			return ""
		}
		s, err1 := time.Parse(time.RFC3339Nano, x)
		t, err2 := time.Parse(time.RFC3339Nano, y)
		if err1 == nil && err2 == nil && s.Sub(t).Abs() < 2*procLimit {
			return ""
		}
	default:
		if a == b {
			return ""
		}
	}
	return fmt.Sprintf("%s instead of %s", shorten(fmt.Sprint(a)), shorten(fmt.Sprint(b)))
}

// traveller sends the same requests to two servers, to one of them in the
// usual way.
type traveller struct {
	x      *X
	usual  func(q *Req) *Resp
	line   *line
	a, b   *side
	now    time.Time
	log    []string
	events int
	writes int
	ended  bool
}

func (v *traveller) fail(key, format string, args ...any) {
	n := len(v.log)
	from := 0
	if n > 8 {
		from = n - 8
	}
	v.x.Failp(key, "%s\nrequests (last %d of %d):\n  %s", fmt.Sprintf(format, args...), n-from, n, strings.Join(v.log[from:], "\n  "))
}

func (v *traveller) compare(what string, want, got *Resp) {
	if got.Status != want.Status {
		v.fail("travel-status", "%s: answered with %s, but the same request sent in the usual way with %s", what, got, want)
	}
	var a, b any
	if json.Unmarshal(want.Body, &a) != nil {
		if !bytes.Equal(want.Body, got.Body) {
			v.fail("travel-body", "%s: answered with %s, but the same request sent in the usual way with %s", what, got, want)
		}
		return
	}
	if json.Unmarshal(got.Body, &b) != nil {
		v.fail("travel-body", "%s: answered with %s, but the same request sent in the usual way with %s", what, got, want)
	}
	v.a.learn(a)
	v.b.learn(b)
	if d := sameAnswer(b, a, v.b, v.a); d != "" {
		v.fail("travel-body", "%s: answered with %s, but the same request sent in the usual way with %s (%s)", what, got, want, d)
	}
	if s, t := got.Header.Get("Content-Type"), want.Header.Get("Content-Type"); s != t {
		v.fail("travel-type", "%s: answered with the content type %q, but the same request sent in the usual way with %q", what, s, t)
	}
}

// crossed checks whether a page of an origin may read a response.
func (v *traveller) crossed(what string, t trip, p *Resp) {
	if t.Origin == "" || t.Host != "" && strings.HasSuffix(t.Origin, "://"+t.Host) {
		return
	}
	if o := p.Header.Get("Access-Control-Allow-Origin"); o != "*" && o != t.Origin {
		v.fail("travel-origin", "%s: pages of the origin %q may not read the response: Access-Control-Allow-Origin is %q", what, t.Origin, o)
	}
	v.x.Class("crossed")
}

func (t trip) String() string {
	b, err := json.Marshal(t)
	Must(err)
	return string(b)
}

// step sends one request.
func (v *traveller) step(s travelStep) {
	var qa, qb *Req
	e := &httpExec{}
	if s.Bad != nil {
		qa = s.Bad.malform()
		qb = qa
	} else {
		qa, qb = e.request(resolve(*s.Op, v.now, v.a.nonce)), e.request(resolve(*s.Op, v.now, v.b.nonce))
	}
	if _, err := http.ReadRequest(bufio.NewReader(bytes.NewReader(qa.bytes()))); err != nil {
		v.x.Class("unsendable")
		return
	}
	what := fmt.Sprintf("%s travelling as %s", qb, s.Trip)
	if s.Flight != "" {
		what = "preflight of " + s.Flight + " " + what
	}
	v.log = append(v.log, what)
	if s.Flight != "" {
		t := s.Trip
		t.Expect, t.Pipe, t.Chunks = false, false, nil
		if t.Origin == "" || t.Host != "" && strings.HasSuffix(t.Origin, "://"+t.Host) {
			t.Origin = "http://example.com"
		}
		p, _, err := v.line.send(&Req{Method: "OPTIONS", Target: qb.Target, Header: map[string]string{"Access-Control-Request-Method": s.Flight, "Access-Control-Request-Headers": "content-type"}}, t)
		if err != nil {
			v.fail("travel-broken", "%s: %v", what, err)
		}
		allows := func(header, value string) bool {
			for _, h := range p.Header.Values(header) {
				for _, w := range strings.Split(h, ",") {
					if w = strings.TrimSpace(w); w == "*" || strings.EqualFold(w, value) {
						return true
					}
				}
			}
			return false
		}
		// GET and POST need no permission.
		simple := s.Flight == "GET" || s.Flight == "POST"
		if p.Status/100 != 2 || !(simple || allows("Access-Control-Allow-Methods", s.Flight)) || !allows("Access-Control-Allow-Headers", "content-type") {
			v.fail("travel-preflight", "%s: pages of the origin %q may not send %s requests with a content type: %d %v", what, t.Origin, s.Flight, p.Status, p.Header)
		}
		v.crossed(what, t, p)
		v.x.Class("preflight")
		v.events++
		return
	}
	want := v.usual(qa)
	if qa.Body != nil && len(*qa.Body) >= 4000 && s.Bad == nil && want.Status/100 == 4 {

		// A request that is refused must not be refused for its size.
		small := *qa
		small.Body = ptr(longRun.ReplaceAllString(*qa.Body, "x"))
		if p := v.usual(&small); p.Status != want.Status {
			v.fail("travel-size", "%s: a request with a body of %d bytes was answered with %s, but the same request with a short payload with %s", what, len(*qa.Body), want, p)
		}
	}
	q := *qb
	if q.Body != nil && s.Bad == nil {
		q.Body = ptr(relayout(*q.Body, s.Trip.Layout))
	}
	p, next, err := v.line.send(&q, s.Trip)
	if err == errUnread {
		v.x.Class("unread")
		v.ended = true
		return
	}
	if err != nil {
		v.fail("travel-broken", "%s: %v, but the same request sent in the usual way was answered with %s", what, err, want)
	}
	v.compare(what, want, p)
	v.crossed(what, s.Trip, p)
	if next != nil {
		v.compare(what+" and the listing of topics that follows", v.usual(&Req{Method: "GET", Target: "/topics?limit=100"}), next)
		v.x.Class("pipelined")
	}
	for n, on := range map[string]bool{"old": s.Trip.Old, "chunked": q.Body != nil && len(s.Trip.Chunks) > 0, "split": len(s.Trip.Parts) > 0, "expect": s.Trip.Expect && q.Body != nil, "compressed": p.Header.Get("Content-Encoding") == "gzip", "absolute": s.Trip.Absolute, "percent": s.Trip.Percent > 0, "typed": s.Trip.Type != "" && q.Body != nil, "layout": s.Trip.Layout > 0 && q.Body != nil} {
		if on {
			v.x.Class("%s", n)
			v.events++
		}
	}
	if q.Method != "GET" && p.Status < 300 {
		v.writes++
	}
}

// settle compares what the servers hold in the end.
func (v *traveller) settle() {
	for _, target := range []string{"/topics?limit=100"} {
		want := v.usual(&Req{Method: "GET", Target: target})
		got, _, err := v.line.send(&Req{Method: "GET", Target: target}, trip{})
		if err != nil {
			v.fail("travel-broken", "GET %s: %v", target, err)
		}
		v.compare("GET "+target, want, got)
		var ts ratus.Topics
		Must(json.Unmarshal(want.Body, &ts))
		for _, t := range ts.Data {
			target := "/topics/" + url.PathEscape(t.Name) + "/tasks?limit=100"
			want := v.usual(&Req{Method: "GET", Target: target})
			got, _, err := v.line.send(&Req{Method: "GET", Target: target}, trip{Keep: true})
			if err != nil {
				v.fail("travel-broken", "GET %s: %v", target, err)
			}
			v.compare("GET "+target, want, got)
		}
	}
	if v.events >= 3 && v.writes > 0 {
		v.x.NonTrivial()
	}
	v.line.hangUp()
}

// runWire compares requests over the network with requests to the router.
func runWire(x *X, c travelCase) {
	ga, gb := openMem(time.Hour), openMem(time.Hour)
	a := newAPI(1000, 10000)
	a.use(x, gb, nil)
	addr := strings.TrimPrefix(a.serve(x), "http://")
	v := &traveller{x: x, line: &line{addr: addr}, a: newSide(), b: newSide(), now: time.Now()}
	v.usual = func(q *Req) *Resp {
		a.hub.set(ga, nil)
		defer a.hub.set(gb, nil)
		return a.do(x, q)
	}
	x.Defer(v.line.hangUp)
	for _, s := range c.Steps {
		if v.step(s); v.ended {
			return
		}
	}
	v.settle()
}

// runTravel compares requests to an instance with requests to the router.
func runTravel(x *X, c travelCase) {
	_, addr := instance(x, caseDir(x), "snapshot", 0, 0, false)
	a := newAPI(100, 10000)
	a.use(x, openMem(time.Hour), nil)
	v := &traveller{x: x, line: &line{addr: addr}, a: newSide(), b: newSide(), now: time.Now()}
	v.usual = func(q *Req) *Resp { return a.do(x, q) }
	x.Defer(v.line.hangUp)
	for _, s := range c.Steps {
		if v.step(s); v.ended {
			return
		}
	}
	v.settle()
}

// ---- patience ----

// slowReq is a request whose body or response takes its time.
type slowReq struct {
	Kind   string `json:"kind"`   // insert, batch, claim, read
	MS     int    `json:"ms"`     // all in all
	Bursts int    `json:"bursts"` // in which the body is sent
	Chunk  bool   `json:"chunk,omitempty"`
	Size   int    `json:"size,omitempty"`
}

type slowCase struct {
	Slow []slowReq `json:"slow"`
	Many int       `json:"many"` // connections with requests in progress
}

func genSlow(t *rapid.T) slowCase {
	c := slowCase{Many: pick(t, "many", 0, 50, 300)}
	for i := rng(t, 2, 6, "slow"); i > 0; i-- {
		c.Slow = append(c.Slow, slowReq{Kind: pick(t, "kind", "insert", "batch", "claim", "read"), MS: pick(t, "ms", 800, 3_500, 6_000, 11_000, 16_000, 31_000), Bursts: pick(t, "bursts", 1, 2, 5), Chunk: bit.Draw(t, "chunk"), Size: pick(t, "size", 10, 5000, 200_000)})
	}
	return c
}

func runSlow(x *X, c slowCase) {
	p, addr := instance(x, caseDir(x), "snapshot", 0, 0, false)
	plain := func(method, target string, body any) (*Resp, error) {
		l := &line{addr: addr}
		defer l.hangUp()
		r, _, err := l.send(&Req{Method: method, Target: target, Body: jsonBody(body)}, trip{})
		return r, err
	}
	must := func(r *Resp, err error) {
		if err != nil || r.Status >= 300 {
			x.Failp("slow-setup", "a request failed: %v %v; output %s", r, err, p.log())
		}
	}
	past := time.Now().Add(-time.Hour).UTC()
	mk := func(id, topic string, size int) *ratus.Task {
		return &ratus.Task{ID: id, Topic: topic, Scheduled: &past, Produced: &past, Payload: strings.Repeat("x", size)}
	}
	// A listing of several megabytes does not fit into the buffers of a connection.
	large := 0
	for i := range c.Slow {
		if c.Slow[i].Kind == "read" && large == 0 {
			for large = 0; large < 24; large++ {
				must(plain("POST", fmt.Sprintf("/topics/large/tasks/l%d", large), mk(fmt.Sprintf("l%d", large), "large", 400_000)))
			}
		}
		if c.Slow[i].Kind == "claim" {
			must(plain("POST", fmt.Sprintf("/topics/claims/tasks/c%d", i), mk(fmt.Sprintf("c%d", i), "claims", 10)))
		}
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	failed := ""
	report := func(format string, args ...any) {
		mu.Lock()
		defer mu.Unlock()
		if failed == "" {
			failed = fmt.Sprintf(format, args...)
		}
	}
	for i := range c.Slow {
		s := c.Slow[i]
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			conn, err := net.DialTimeout("tcp", addr, procLimit)
			if err != nil {
				report("connecting failed: %v", err)
				return
			}
			defer conn.Close()
			conn.SetDeadline(time.Now().Add(3 * procLimit))
			rd := bufio.NewReader(conn)
			start := time.Now()
			want := http.StatusCreated
			if s.Kind == "read" {
				if tc, ok := conn.(*net.TCPConn); ok {
					tc.SetReadBuffer(1 << 16)
				}
				io.WriteString(conn, "GET /v1/topics/large/tasks?limit=100 HTTP/1.1\r\nHost: h\r\n\r\n")
				want = http.StatusOK
				time.Sleep(time.Duration(s.MS) * time.Millisecond)
			} else {
				var body any
				target := fmt.Sprintf("/v1/topics/slow/tasks/s%d", i)
				switch s.Kind {
				case "insert":
					body = mk(fmt.Sprintf("s%d", i), "slow", s.Size)
				case "batch":
					target = "/v1/topics/slow/tasks"
					ts := &ratus.Tasks{}
					for j := 0; j < 4; j++ {
						ts.Data = append(ts.Data, mk(fmt.Sprintf("s%d-%d", i, j), "slow", s.Size/4))
					}
					body = ts
				case "claim":
					target = fmt.Sprintf("/v1/topics/claims/promises/c%d", i)
					body = &ratus.Promise{Consumer: "me"}
					want = http.StatusOK
				}
				b := *jsonBody(body)
				if s.Chunk {
					fmt.Fprintf(conn, "POST %s HTTP/1.1\r\nHost: h\r\nTransfer-Encoding: chunked\r\n\r\n", target)
				} else {
					fmt.Fprintf(conn, "POST %s HTTP/1.1\r\nHost: h\r\nContent-Length: %d\r\n\r\n", target, len(b))
				}
				for j := 0; j <= s.Bursts; j++ {
					n := len(b)
					if j < s.Bursts {
						n = len(b) / (s.Bursts + 1 - j)
					}
					part := b[:n]
					b = b[n:]
					if s.Chunk && n > 0 {
						part = fmt.Sprintf("%x\r\n%s\r\n", n, part)
					}
					if _, err := io.WriteString(conn, part); err != nil {
						report("request %+v: sending the body failed after %v: %v", s, time.Since(start), err)
						return
					}
					if j < s.Bursts {
						time.Sleep(time.Duration(s.MS/s.Bursts) * time.Millisecond)
					}
				}
				if s.Chunk {
					io.WriteString(conn, "0\r\n\r\n")
				}
			}
			res, err := http.ReadResponse(rd, nil)
			if err != nil {
				report("request %+v: no response after %v: %v", s, time.Since(start), err)
				return
			}
			b, err := io.ReadAll(res.Body)
			if err != nil || res.StatusCode != want {
				report("request %+v: after %v answered with %d %q... %v", s, time.Since(start), res.StatusCode, shorten(string(b)), err)
				return
			}
			if s.Kind == "read" {
				var ts ratus.Tasks
				if err := json.Unmarshal(b, &ts); err != nil || len(ts.Data) != large {
					report("request %+v: after %v answered with %d tasks: %v", s, time.Since(start), len(ts.Data), err)
				}
			}
			x.Class("%s", s.Kind)
		}(i)
	}
	// Many connections have requests in progress at the same time.
	conns := make([]net.Conn, c.Many)
	for i := range conns {
		conn, err := net.DialTimeout("tcp", addr, procLimit)
		if err != nil {
			x.Failp("slow-many", "connection %d failed: %v; output %s", i, err, p.log())
		}
		defer conn.Close()
		conn.SetDeadline(time.Now().Add(3 * procLimit))
		fmt.Fprintf(conn, "POST /topics/many/tasks/m%d HTTP/1.1\r\nHost: h\r\nContent-Length: 2\r\n\r\n{", i)
		conns[i] = conn
	}
	r, err := plain("POST", "/topics/many/tasks/another", mk("another", "many", 10))
	if err != nil || r.Status != http.StatusCreated {
		x.Failp("slow-many", "with %d requests in progress, another was answered with %v %v; output %s", c.Many, r, err, p.log())
	}
	for i, conn := range conns {
		io.WriteString(conn, "}")
		res, err := http.ReadResponse(bufio.NewReader(conn), nil)
		if err != nil || res.StatusCode != http.StatusCreated {
			x.Failp("slow-many", "request %d of %d in progress at the same time was not answered: %v %v; output %s", i, c.Many, res, err, p.log())
		}
	}
	wg.Wait()
	if failed != "" {
		x.Failp("slow", "%s; output %s", failed, p.log())
	}
	x.NonTrivial()
}

func init() {
	register(&Check{ID: "C34", Workers: 16, Assumptions: []string{"requests that do not reach the router, as net/http refuses them, are not sent", "pauses within a request last up to 31 seconds"}, Parts: []Part{
		&prop[travelCase]{
			name: "wire", quick: 4000, thorough: 160000,
			rule: "random histories of API requests, valid and malformed, each sent in the usual way to one router and in a generated way (HTTP version, keep-alive, pipelining, chunked or fixed-length bodies in generated fragments, 100-continue, accepted encodings and media types, content types, origins, hosts, absolute targets, needless percent-encoding, header case and size, JSON layout) over TCP to another, every response and the final contents compared; non-trivial: at least three unusual features and a successful write",
			gen:  genTravel(12), run: runWire,
		},
		&prop[travelCase]{
			name: "instance", quick: 240, thorough: 8000,
			rule: "as in wire, with a process of the executable instead of the router; non-trivial: at least three unusual features and a successful write",
			gen:  genTravel(20), run: runTravel,
		},
		&prop[slowCase]{
			name: "patience", quick: 16, thorough: 128,
			rule: "a process of the executable with 2 to 6 requests at the same time whose bodies arrive, or whose large responses are read, over 0.8 to 31 seconds in generated bursts, and up to 300 connections with requests in progress; all cases are non-trivial",
			gen:  genSlow, run: runSlow,
		},
	}})
}
