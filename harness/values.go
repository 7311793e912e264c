package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode/utf16"

	"pgregory.net/rapid"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/engine"
	"github.com/hyperonym/ratus/internal/nonce"
)

// ---- nonces (C28) ----

const alphanumerics = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"

type nonceCase struct {
	Lens     []int `json:"lens"`
	Parallel int   `json:"parallel"`
}

func genNonceCase(t *rapid.T) nonceCase {
	return nonceCase{seq(t, 6, 20, "lens", func(t *rapid.T) int {
		switch weighted(t, "kind", 4, 4, 2, 1) {
		case 0:
			return rng(t, 0, 12, "len")
		case 1:
			return pick(t, "len", 16, 8, 32, 128, 10, 11, 20, 21, 22, 62, 63, 64)
		case 2:
			return rng(t, 0, 700, "len")
		default:
			return rng(t, 1000, 70000, "len")
		}
	}), rng(t, 1, 8, "parallel")}
}

// nonceSeen are the nonces of at least sixteen characters that were generated
// in this process, by their first sixteen.
var nonceSeen = map[string]bool{}

func runNonce(x *X, c nonceCase) {
	res := make([][]string, c.Parallel)
	var wg sync.WaitGroup
	for i := range res {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, n := range c.Lens {
				res[i] = append(res[i], nonce.Generate(n))
			}
		}()
	}
	wg.Wait()
	for i := range res {
		for j, n := range c.Lens {
			s := res[i][j]
			if !wellFormedNonce(s, n) {
				x.Failp("nonce-form", "Generate(%d) returned %q, %d bytes", n, s, len(s))
			}
			if n >= 16 {
				// Sequences of sixteen characters do not repeat within a nonce
				// or among nonces.
				for k := 0; k+16 <= n && k < 320; k += 16 {
					if nonceSeen[s[k:k+16]] {
						x.Failp("nonce-repeats", "Generate(%d) returned the sixteen characters %q a second time", n, s[k:k+16])
					}
					if len(nonceSeen) < 2_000_000 {
						nonceSeen[s[k:k+16]] = true
					}
				}
				x.Class("long")
			}
			if n == 0 {
				x.Class("empty")
			}
		}
	}
	if c.Parallel > 1 && len(c.Lens) > 2 {
		x.NonTrivial()
	}
}

type distCase struct {
	Len int `json:"len"`
	N   int `json:"n"`
}

// deviation returns by how many standard deviations the statistic of the
// chi-squared test exceeds its expectation.
func deviation(counts []int) float64 {
	n, chi := 0, 0.0
	for _, c := range counts {
		n += c
	}
	e := float64(n) / float64(len(counts))
	for _, c := range counts {
		chi += (float64(c) - e) * (float64(c) - e) / e
	}
	df := float64(len(counts) - 1)
	return (chi - df) / math.Sqrt(2*df)
}

// sigmas makes a false alarm as good as impossible (less than 1e-20 per test).
const sigmas = 16

func runDist(x *X, c distCase) {
	var idx [256]int
	for i := range idx {
		idx[i] = -1
	}
	for i := 0; i < len(alphanumerics); i++ {
		idx[alphanumerics[i]] = i
	}
	pos := make([][]int, c.Len)
	for i := range pos {
		pos[i] = make([]int, 62)
	}
	pairs := make([][]int, 3) // adjacent, first and last, consecutive nonces
	for i := range pairs {
		pairs[i] = make([]int, 62*62)
	}
	last := -1
	for i := 0; i < c.N; i++ {
		s := nonce.Generate(c.Len)
		if !wellFormedNonce(s, c.Len) {
			x.Failp("nonce-form", "Generate(%d) returned %q, %d bytes", c.Len, s, len(s))
		}
		for j := 0; j < c.Len; j++ {
			pos[j][idx[s[j]]]++
			if j > 0 {
				pairs[0][idx[s[j-1]]*62+idx[s[j]]]++
			}
		}
		if c.Len > 1 {
			pairs[1][idx[s[0]]*62+idx[s[c.Len-1]]]++
		}
		if last >= 0 {
			pairs[2][last*62+idx[s[0]]]++
		}
		last = idx[s[c.Len-1]]
	}
	for j, v := range pos {
		if d := deviation(v); d > sigmas {
			x.Failp("nonce-skewed", "the characters at position %d of %d nonces of length %d are not equally likely (%.0f standard deviations): %v in the order %s", j, c.N, c.Len, d, v, alphanumerics)
		}
	}
	for k, v := range pairs {
		n := 0
		for _, m := range v {
			n += m
		}
		if n < 20*len(v) {
			continue
		}
		if d := deviation(v); d > sigmas {
			x.Failp("nonce-correlated", "pairs of characters (%s) of %d nonces of length %d are not equally likely (%.0f standard deviations)", []string{"adjacent", "first and last", "last of a nonce and first of the next"}[k], c.N, c.Len, d)
		}
	}
	x.Class("length:%d", c.Len)
	x.NonTrivial()
}

type procCase struct {
	Procs int    `json:"procs"`
	N     int    `json:"n"`
	Kind  string `json:"kind"` // generate, claims
}

func init() {
	children["nonces"] = func(a []string) {
		n, _ := strconv.Atoi(a[1])
		if a[0] == "generate" {
			for i := 0; i < n; i++ {
				fmt.Println(nonce.Generate(ratus.NonceLength))
			}
			return
		}
		for _, s := range claimAll(nil, []engine.Engine{openMem(time.Hour)}, n, 4) {
			fmt.Println(s)
		}
	}
}

// claimAll claims n tasks concurrently and returns the nonces.
func claimAll(x *X, gs []engine.Engine, n, parallel int) []string {
	g := gs[0]
	ctx := context.Background()
	var ts []*ratus.Task
	past := time.Unix(1, 0)
	for i := 0; i < n; i++ {
		ts = append(ts, &ratus.Task{ID: fmt.Sprint(i), Topic: "t", Scheduled: &past})
	}
	if _, err := g.InsertTasks(ctx, ts); err != nil {
		bug("inserting failed: %v", err)
	}
	res := make([][]string, parallel)
	var wg sync.WaitGroup
	var mu sync.Mutex
	var failed error
	for i := range res {
		wg.Add(1)
		go func() {
			defer wg.Done()
			g := gs[i%len(gs)]
			for j := i; j < n; j += parallel {
				d := time.Now().Add(time.Hour)
				var t *ratus.Task
				var err error
				switch j % 3 {
				case 0:
					t, err = g.Poll(ctx, "t", &ratus.Promise{Deadline: &d})
				case 1:
					// Taking over a claim makes a new one.
					t, err = g.UpsertPromise(ctx, &ratus.Promise{ID: "0", Deadline: &d})
				default:
					t, err = g.UpsertPromise(ctx, &ratus.Promise{ID: fmt.Sprint(j), Deadline: &d})
				}
				if err != nil {
					mu.Lock()
					failed = err
					mu.Unlock()
					return
				}
				res[i] = append(res[i], t.Nonce)
			}
		}()
	}
	wg.Wait()
	if failed != nil && x != nil {
		x.Fail("claim", []string{"C01", "C16"}, "claiming failed: %v", failed)
	}
	var all []string
	for _, v := range res {
		all = append(all, v...)
	}
	return all
}

func runProcs(x *X, c procCase) {
	outs := make([]string, c.Procs)
	errs := make([]error, c.Procs)
	var wg sync.WaitGroup
	for i := range outs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			outs[i], errs[i] = runChild("nonces", c.Kind, strconv.Itoa(c.N))
		}()
	}
	wg.Wait()
	all := []string{}
	from := map[string]int{}
	add := func(p int, s string) {
		if !wellFormedNonce(s, ratus.NonceLength) {
			x.Failp("nonce-form", "process %d made the nonce %q", p, s)
		}
		if q, ok := from[s]; ok {
			x.Failp("nonce-repeats", "the nonce %q was made by process %d and process %d of %d started at the same time", s, q, p, c.Procs)
		}
		from[s] = p
		all = append(all, s)
	}
	for i, o := range outs {
		if errs[i] != nil {
			bug("child: %v", errs[i])
		}
		v := strings.Fields(o)
		if len(v) != c.N {
			if c.Kind == "claims" {
				x.Failp("nonce-empty", "%d claims returned only %d nonces", c.N, len(v))
			}
			bug("%d nonces of %d", len(v), c.N)
		}
		for _, s := range v {
			add(i, s)
		}
	}
	// Nonces of different processes have nothing in common, either.
	win := map[string]int{}
	for _, s := range all {
		for k := 0; k+13 <= len(s); k++ {
			w := s[k : k+13]
			if q, ok := win[w]; ok && q != from[s] {
				x.Failp("nonce-repeats", "nonces made by process %d and process %d share the characters %q", q, from[s], w)
			}
			win[w] = from[s]
		}
	}
	x.Class("%s:%d processes", c.Kind, c.Procs)
	x.NonTrivial()
}

type claimCase struct {
	N        int `json:"n"`
	Parallel int `json:"parallel"`

	Mongo []mongoSetup `json:"mongo,omitempty"` // instances with the MongoDB engine
}

var claimSeen = map[string]bool{}

func runClaims(x *X, c claimCase) {
	gs := []engine.Engine{openMem(time.Hour)}
	if len(c.Mongo) > 0 {
		gs = nil
		s := mongoDB(x, mongoCfg{})
		for i, m := range c.Mongo {
			gs = append(gs, openMongo(x, s, m, fmt.Sprintf("i%d", i), time.Hour))
		}
	}
	v := claimAll(x, gs, c.N, c.Parallel)
	if len(v) != c.N {
		x.Failp("nonce-empty", "%d claims returned %d nonces", c.N, len(v))
	}
	for _, s := range v {
		if !wellFormedNonce(s, ratus.NonceLength) {
			x.Failp("nonce-form", "a claim has the nonce %q", s)
		}
		if claimSeen[s] {
			x.Failp("nonce-repeats", "two claims have the nonce %q", s)
		}
		claimSeen[s] = true
	}
	if c.Parallel > 1 && c.N > 10 {
		x.NonTrivial()
	}
}

// ---- payloads (C29) ----

// payloadSpec describes the JSON text of a payload. Large ones are described
// by their shape.
type payloadSpec struct {
	Text  string `json:"text,omitempty"`
	Shape string `json:"shape,omitempty"` // list, object, wide, keys, string
	N     int    `json:"n,omitempty"`
}

func (p payloadSpec) json() string {
	switch p.Shape {
	case "list":
		return strings.Repeat("[", p.N) + strings.Repeat("]", p.N)
	case "object":
		return strings.Repeat(`{"a":`, p.N) + "null" + strings.Repeat("}", p.N)
	case "wide":
		return "[" + strings.Repeat(`1,`, p.N) + "2]"
	case "keys":
		var b strings.Builder
		b.WriteString("{")
		for i := 0; i < p.N; i++ {
			fmt.Fprintf(&b, `"k%d":[%d,null,{}],`, i, i)
		}
		b.WriteString(`"":""}`)
		return b.String()
	case "string":
		return `"` + strings.Repeat("x\u00e9", p.N) + `"`
	case "empties":
		return "[" + strings.Repeat(`[],{},null,"",`, p.N) + "[]]"
	}
	return p.Text
}

func (p payloadSpec) value() any {
	s := p.json()
	if s == "" {
		return nil
	}
	var v any
	Must(json.Unmarshal([]byte(s), &v))
	return v
}

// writeJSON formats a value, varying everything that has no meaning.
func writeJSON(b *strings.Builder, v any, r *rand.Rand) {
	space := func() {
		if r.Intn(4) == 0 {
			b.WriteString([]string{" ", "\n", "\t", "\r\n ", "  "}[r.Intn(5)])
		}
	}
	space()
	switch v := v.(type) {
	case nil:
		b.WriteString("null")
	case bool:
		fmt.Fprint(b, v)
	case float64:
		s := strconv.FormatFloat(v, []byte{'g', 'e', 'f', 'E'}[r.Intn(4)], -1, 64)
		if r.Intn(4) == 0 && !strings.ContainsAny(s, ".eE") {
			s += []string{".0", "e0", "E+00", ".000e-0"}[r.Intn(4)]
		}
		b.WriteString(s)
	case string:
		b.WriteByte('"')
		for _, c := range v {
			switch {
			case c == '"' || c == '\\':
				b.WriteByte('\\')
				b.WriteRune(c)
			case c == '/' && r.Intn(2) == 0:
				b.WriteString(`\/`)
			case c == '\n' && r.Intn(2) == 0:
				b.WriteString(`\n`)
			case c < 0x20 || r.Intn(6) == 0:
				f := []string{`\u%04x`, `\u%04X`}[r.Intn(2)]
				if c > 0xffff {
					x, y := utf16.EncodeRune(c)
					fmt.Fprintf(b, f+f, x, y)
				} else {
					fmt.Fprintf(b, f, c)
				}
			default:
				b.WriteRune(c)
			}
		}
		b.WriteByte('"')
	case []any:
		b.WriteByte('[')
		for i, e := range v {
			if i > 0 {
				b.WriteByte(',')
			}
			writeJSON(b, e, r)
		}
		space()
		b.WriteByte(']')
	case map[string]any:
		b.WriteByte('{')
		first := true
		for _, k := range sortedAny(v) {
			if !first {
				b.WriteByte(',')
			}
			first = false
			writeJSON(b, k, r)
			space()
			b.WriteByte(':')
			writeJSON(b, v[k], r)
		}
		space()
		b.WriteByte('}')
	default:
		bug("value %T", v)
	}
	space()
}

func sortedAny(m map[string]any) []string {
	k := map[string]bool{}
	for s := range m {
		k[s] = true
	}
	return sortedKeys(k)
}

// genValue draws a JSON value with less bias than genJSON.
func genValue(t *rapid.T, depth int) any {
	k := weighted(t, "kind", 3, 4, 1, 1, 3, 3)
	if depth <= 0 && k >= 4 {
		k = intn(t, 4, "kind")
	}
	switch k {
	case 0:
		if bit.Draw(t, "pool") {
			return genJSON(t, 0, "v")
		}
		return rapid.StringN(0, 12, 60).Draw(t, "string")
	case 1:
		switch intn(t, 4, "number") {
		case 0:
			return float64(rapid.Int64Range(-1<<53, 1<<53).Draw(t, "int"))
		case 1:
			f := math.Float64frombits(rapid.Uint64().Draw(t, "bits"))
			if math.IsNaN(f) || math.IsInf(f, 0) {
				return 0.5
			}
			return f
		case 2:
			return pick(t, "special", 0.0, 1.0, -1.0, math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, 1e21, 1e20, 1e-6, 1e-7, 2147483647.0, 2147483648.0, -2147483649.0, 4294967296.0, 9007199254740991.0, 9007199254740992.0, 9223372036854775807.0, 18446744073709551615.0, 0.1, 1.0/3)
		default:
			return float64(rng(t, -300, 300, "small"))
		}
	case 2:
		return bit.Draw(t, "bool")
	case 3:
		return nil
	case 4:
		n := rng(t, 0, 4, "len")
		v := make([]any, 0, n)
		for i := 0; i < n; i++ {
			v = append(v, genValue(t, depth-1))
		}
		return v
	default:
		n := rng(t, 0, 4, "len")
		v := map[string]any{}
		for i := 0; i < n; i++ {
			k := pick(t, "key", "a", "b", "URL", "", "key", "é", "_id", "topic", "a b", "0", "payload", "$x", "a.b", "data", "error", "nonce", "state", "N", "time", "__proto__", "\x00", "\n")
			v[k] = genValue(t, depth-1)
		}
		return v
	}
}

func genSpecPayload(t *rapid.T) payloadSpec {
	if oneIn(t, 12, "shape") {
		p := payloadSpec{Shape: pick(t, "which", "list", "object", "wide", "keys", "string", "empties")}
		switch p.Shape {
		case "list", "object":
			p.N = pick(t, "n", 1, 10, 100, 1000, 3000)
		case "string":
			p.N = pick(t, "n", 1, 100, 2000, 20000, 20000, 400_000, 1_500_000)
		default:
			p.N = pick(t, "n", 1, 100, 2000, 20000)
		}
		return p
	}
	v := genValue(t, 4)
	if v == nil {
		v = []any{nil}
	}
	var b strings.Builder
	writeJSON(&b, v, rand.New(rand.NewSource(rapid.Int64().Draw(t, "style"))))
	s := b.String()
	var back any
	if err := json.Unmarshal([]byte(s), &back); err != nil {
		bug("%q: %v", s, err)
	}
	return payloadSpec{Text: s}
}

type payItem struct {
	How     string        `json:"how"` // insert, upsert, inserts, upserts
	Payload payloadSpec   `json:"payload"`
	Commits []payloadSpec `json:"commits,omitempty"` // an empty text leaves the payload out, null is the same
	Then    string        `json:"then"`              // poll, promise, force, leave
	Restart bool          `json:"restart,omitempty"`
	V1      bool          `json:"v1,omitempty"`
}

type payCase struct {
	Client bool        `json:"client"`
	Items  []payItem   `json:"items"`
	Mongo  *mongoSetup `json:"mongo,omitempty"` // with the MongoDB engine
}

func genPay(t *rapid.T) payCase {
	return payCase{Client: bit.Draw(t, "client"), Items: seq(t, 2, 4, "items", func(t *rapid.T) payItem {
		i := payItem{How: pick(t, "how", "insert", "upsert", "inserts", "upserts"), Then: pick(t, "then", "poll", "promise", "force", "leave"), Restart: oneIn(t, 2, "restart"), V1: bit.Draw(t, "v1")}
		if !oneIn(t, 8, "none") {
			i.Payload = genSpecPayload(t)
		}
		n := intn(t, 3, "commits")
		for k := 0; k < n; k++ {
			switch weighted(t, "what", 5, 1, 1) {
			case 0:
				i.Commits = append(i.Commits, genSpecPayload(t))
			case 1:
				i.Commits = append(i.Commits, payloadSpec{Text: "null"})
			default:
				i.Commits = append(i.Commits, payloadSpec{})
			}
		}
		return i
	})}
}

func shorten(s string) string {
	if len(s) > 300 {
		return fmt.Sprintf("%s... (%d bytes)", s[:300], len(s))
	}
	return s
}

// storable replaces payloads that MongoDB 4.4 does not store: very deep ones,
// and names that contain NUL or start with a dollar sign.
func (p *payloadSpec) storable() {
	var ok func(v any) bool
	ok = func(v any) bool {
		switch v := v.(type) {
		case []any:
			for _, e := range v {
				if !ok(e) {
					return false
				}
			}
		case map[string]any:
			for k, e := range v {
				if strings.HasPrefix(k, "$") || strings.Contains(k, "\x00") || !ok(e) {
					return false
				}
			}
		}
		return true
	}
	if (p.Shape == "list" || p.Shape == "object") && p.N > 100 {
		p.N = 90
	}
	if !ok(p.value()) {
		*p = payloadSpec{Text: `{"a":[1,{"b":null,"":[]},[{}]]}`}
	}
}

func runPay(x *X, c payCase) {
	dir := caseDir(x)
	ctx := context.Background()
	path := filepath.Join(dir, "snapshot")
	var g engine.Engine
	open := func() error {
		g = newSnap(path, 0, time.Hour)
		return g.Open(ctx)
	}
	if c.Mongo != nil {
		s := mongoDB(x, mongoCfg{})
		open = func() error {
			g = openMongo(x, s, *c.Mongo, "main", time.Hour)
			return nil
		}
	}
	if err := open(); err != nil {
		x.Failp("open", "%v", err)
	}
	a := newAPI(1000, 10000)
	a.use(x, g, nil)
	var cl *ratus.Client
	if c.Client {
		cl = newClient(a.serve(x), nil)
	}
	// same compares a payload that was read with the expected one.
	want := map[string]any{}
	text := map[string]string{}
	same := func(what, id string, got any) {
		if !payloadEq(got, want[id]) {
			b, _ := json.Marshal(got)
			x.Failp("payload", "%s: the payload of task %q is %s instead of %s", what, id, shorten(string(b)), shorten(text[id]))
		}
	}
	call := func(what, method, path string, body string) *Resp {
		q := &Req{Method: method, Target: path}
		if body != "" {
			q.Body = &body
		}
		p := a.do(x, q)
		if p == nil || p.Status > 299 {
			x.Failp("payload-refused", "%s: %s was answered with %v", what, shorten(q.String()), p)
		}
		return p
	}
	decode := func(what string, p *Resp) *ratus.Task {
		var w wTask
		if err := json.Unmarshal(p.Body, &w); err != nil {
			x.Failp("payload", "%s: the response does not parse: %v", what, err)
		}
		t, err := w.task()
		Must(err)
		return t
	}
	ok := func(what string, err error) {
		if err != nil {
			x.Failp("payload-refused", "%s through the client failed: %v", what, err)
		}
	}
	// read fetches a task from everywhere.
	read := func(when, id string, prefix string) {
		if c.Client {
			t, err := cl.GetTask(ctx, id)
			ok("getting a task "+when, err)
			same("GetTask "+when, id, t.Payload)
			var v any
			if err := t.Decode(&v); err != nil || !payloadEq(v, want[id]) {
				x.Failp("payload-decode", "decoding the payload %s of a task %s gave %v, %v", shorten(text[id]), when, v, err)
			}
			ts, err := cl.ListTasks(ctx, "t", 1000, 0)
			ok("listing tasks "+when, err)
			for _, t := range ts {
				same("ListTasks "+when, t.ID, t.Payload)
			}
			return
		}
		t := decode("GET "+when, call(when, "GET", prefix+"/topics/t/tasks/"+id, ""))
		same("getting the task "+when, id, t.Payload)
		var l struct{ Data []*wTask }
		p := call(when, "GET", prefix+"/topics/t/tasks?limit=1000", "")
		if err := json.Unmarshal(p.Body, &l); err != nil {
			x.Failp("payload", "the listing does not parse %s: %v", when, err)
		}
		if len(l.Data) != len(want) {
			x.Fail("payload-listing", []string{"C11"}, "%d tasks listed of %d", len(l.Data), len(want))
		}
		for _, w := range l.Data {
			t, err := w.task()
			Must(err)
			same("listing the tasks "+when, t.ID, t.Payload)
		}
	}
	for i, it := range c.Items {
		id := fmt.Sprintf("task%d", i)
		prefix := ""
		if it.V1 {
			prefix = "/v1"
		}
		text[id] = it.Payload.json()
		want[id] = it.Payload.value()
		if c.Client {
			t := &ratus.Task{ID: id, Topic: "t", Payload: want[id]}
			if it.V1 && text[id] != "" {
				t.Payload = json.RawMessage(text[id])
			}
			var err error
			switch it.How {
			case "insert":
				_, err = cl.InsertTask(ctx, t)
			case "upsert":
				_, err = cl.UpsertTask(ctx, t)
			case "inserts":
				_, err = cl.InsertTasks(ctx, []*ratus.Task{t})
			default:
				_, err = cl.UpsertTasks(ctx, []*ratus.Task{t})
			}
			ok(it.How, err)
		} else {
			b := `{"_id":"` + id + `","topic":"t"`
			if text[id] != "" {
				b += `,"payload":` + text[id]
			}
			b += "}"
			m := "POST"
			if it.How[0] == 'u' {
				m = "PUT"
			}
			if it.How[len(it.How)-1] == 's' {
				call(it.How, m, prefix+"/topics/t/tasks", `{"data":[`+b+`]}`)
			} else {
				call(it.How, m, prefix+"/topics/t/tasks/"+id, b)
			}
		}
		read("after submitting it", id, prefix)
		switch {
		case it.Then == "leave":
		case c.Client:
			var t *ratus.Task
			var err error
			switch it.Then {
			case "poll":
				t, err = cl.PostPromises(ctx, "t", &ratus.Promise{})
			case "promise":
				t, err = cl.InsertPromise(ctx, &ratus.Promise{ID: id})
			default:
				t, err = cl.UpsertPromise(ctx, &ratus.Promise{ID: id})
			}
			ok(it.Then, err)
			same(it.Then, t.ID, t.Payload)
		default:
			var t *ratus.Task
			switch it.Then {
			case "poll":
				t = decode(it.Then, call(it.Then, "POST", prefix+"/topics/t/promises", "{}"))
			case "promise":
				t = decode(it.Then, call(it.Then, "POST", prefix+"/topics/t/promises/"+id, "{}"))
			default:
				t = decode(it.Then, call(it.Then, "PUT", prefix+"/topics/t/promises/"+id, "{}"))
			}
			same("claiming it ("+it.Then+")", t.ID, t.Payload)
		}
		for _, m := range it.Commits {
			s, v := m.json(), m.value()
			if v != nil {
				text[id], want[id] = s, v
				x.Class("replaced")
			} else {
				x.Class("kept")
			}
			if c.Client {
				t, err := cl.PatchTask(ctx, id, &ratus.Commit{Payload: v})
				ok("commit", err)
				same("PatchTask", id, t.Payload)
			} else {
				b := `{"state":0}`
				if s != "" {
					b = `{"state":0,"payload":` + s + `}`
				}
				same("committing", id, decode("commit", call("commit", "PATCH", prefix+"/topics/t/tasks/"+id, b)).Payload)
			}
			read("after committing it", id, prefix)
		}
		if it.Restart {
			if err := g.Close(ctx); err != nil {
				x.Fail("close", []string{"C13", "C29"}, "closing failed: %v", err)
			}
			if err := open(); err != nil {
				x.Failp("payload-restart", "opening the snapshot failed: %v", err)
			}
			a.hub.set(g, nil)
			read("after a restart", id, prefix)
			x.Class("restart")
		}
		if it.Payload.Shape != "" {
			x.Class("shape:%s", it.Payload.Shape)
		} else if want[id] != nil {
			x.Class("%T", want[id])
			x.NonTrivial()
		}
	}
	os.RemoveAll(dir)
}

// decCase decodes a payload into a Go value.
type decCase struct {
	JSON   string `json:"json"`
	Target int    `json:"target"`
	Source int    `json:"source"` // what the payload holds
	Filled bool   `json:"filled"` // the target holds something already
}

type decInner struct {
	Depth int
	Name  *string `json:"name,omitempty"`
}

type decStruct struct {
	A   any
	B   []int          `json:"b"`
	URL string         `json:"URL"`
	Key map[string]any `json:"key"`
	N   *float64
	decInner
	Inner  *decInner `json:"payload"`
	Time   time.Time `json:"time"`
	Skip   string    `json:"-"`
	Quoted int64     `json:"0,string"`
	Raw    json.RawMessage
}

var decTargets = []func(filled bool) any{
	func(f bool) any {
		var v any
		if f {
			v = map[string]any{"a": 1.0, "old": "x"}
		}
		return &v
	},
	func(f bool) any {
		v := decStruct{}
		if f {
			v = decStruct{A: "old", B: []int{1, 2, 3, 4}, URL: "u", Key: map[string]any{"old": true}, Skip: "s", Inner: &decInner{Depth: 7}}
		}
		return &v
	},
	func(f bool) any {
		var v map[string]any
		if f {
			v = map[string]any{"a": "old", "z": 1}
		}
		return &v
	},
	func(f bool) any {
		var v []any
		if f {
			v = []any{"old", 2, map[string]any{"k": 1}, 4, 5}
		}
		return &v
	},
	func(f bool) any { v := ""; return &v },
	func(f bool) any { v := 0; return &v },
	func(f bool) any { v := 0.5; return &v },
	func(f bool) any { v := f; return &v },
	func(f bool) any { v := [2]any{"x"}; return &v },
	func(f bool) any { v := map[int]string{}; return &v },
	func(f bool) any { var v *decStruct; return &v },
	func(f bool) any { var v json.RawMessage; return &v },
	func(f bool) any { v := []decStruct{}; return &v },
	func(f bool) any { v := []byte{1}; return &v },
	func(f bool) any { v := time.Time{}; return &v },
	func(f bool) any { v := uint8(3); return &v },
	func(f bool) any { v := float32(1); return &v },
	func(f bool) any { v := ratus.Task{}; return &v },
	func(f bool) any { return nil },
	func(f bool) any { return decStruct{} },
	func(f bool) any { var v *int; return v },
}

func genDec(t *rapid.T) decCase {
	v := genValue(t, 3)
	if oneIn(t, 3, "object") {
		m := map[string]any{}
		for _, k := range []string{"A", "a", "b", "B", "URL", "url", "key", "N", "Depth", "depth", "name", "payload", "time", "-", "Skip", "0", "Raw", "_id", "state"} {
			if oneIn(t, 3, "has") {
				m[k] = genValue(t, 2)
				switch k {
				case "b":
					m[k] = []any{1.0, -2.0, float64(rng(t, 0, 9, "b"))}
				case "time":
					m[k] = pick(t, "time", "2024-01-02T03:04:05.678Z", "x", "2024-01-02T03:04:05+02:00")
				case "0":
					m[k] = pick(t, "quoted", "12", "x", "")
				}
			}
		}
		v = m
	}
	var b strings.Builder
	writeJSON(&b, v, rand.New(rand.NewSource(rapid.Int64().Draw(t, "style"))))
	return decCase{b.String(), intn(t, len(decTargets), "target"), intn(t, 4, "source"), bit.Draw(t, "filled")}
}

func runDec(x *X, c decCase) {
	var v any
	Must(json.Unmarshal([]byte(c.JSON), &v))
	src := []byte(c.JSON)
	p := v
	switch c.Source {
	case 1:
		p = json.RawMessage(c.JSON)
	case 2:
		s := decStruct{A: v, URL: "u", Raw: json.RawMessage("null")}
		p = &s
		b, err := json.Marshal(&s)
		Must(err)
		src = b
	case 3:
		p = []any{v, map[string]any{"a": v}}
		b, err := json.Marshal(p)
		Must(err)
		src = b
	}
	// What the same JSON, without insignificant differences, decodes to.
	var canon bytes.Buffer
	if c.Source == 1 {
		Must(json.Compact(&canon, src))
	} else {
		var u any
		Must(json.Unmarshal(src, &u))
		b, err := json.Marshal(p)
		Must(err)
		canon.Write(b)
	}
	got, want := decTargets[c.Target](c.Filled), decTargets[c.Target](c.Filled)
	task := &ratus.Task{ID: "x", Payload: p}
	err := task.Decode(got)
	werr := json.Unmarshal(canon.Bytes(), want)
	what := fmt.Sprintf("decoding the payload %s (held as %T) into a %T", shorten(string(src)), p, got)
	if (err == nil) != (werr == nil) {
		x.Failp("decode-error", "%s: error %v instead of %v", what, err, werr)
	}
	if err == nil && !sameDecoded(got, want) {
		g, _ := json.Marshal(got)
		w, _ := json.Marshal(want)
		x.Failp("decode", "%s gave %s instead of %s", what, g, w)
	}
	if !reflect.DeepEqual(task, &ratus.Task{ID: "x", Payload: p}) {
		x.Failp("decode-changed", "%s changed the task: %s", what, show(task))
	}
	x.Class("%T:%v", want, werr == nil)
	if werr == nil {
		x.NonTrivial()
	}
}

// sameDecoded compares decoded values; raw JSON may be formatted differently.
func sameDecoded(a, b any) bool {
	if reflect.DeepEqual(a, b) {
		return true
	}
	s, ok1 := a.(*json.RawMessage)
	t, ok2 := b.(*json.RawMessage)
	if ok1 && ok2 {
		return payloadEq(*s, *t)
	}
	u, ok1 := a.(*decStruct)
	v, ok2 := b.(*decStruct)
	if ok1 && ok2 && payloadEq(u.Raw, v.Raw) {
		w := *u
		w.Raw = v.Raw
		return reflect.DeepEqual(&w, v)
	}
	return false
}

func init() {
	register(&Check{ID: "C28", Assumptions: []string{"statistical tests reject at 16 standard deviations"}, Parts: []Part{
		&prop[nonceCase]{name: "form", quick: 20000, thorough: 400000,
			rule: "generated lengths (zero, short, long), concurrently: exact length, only letters and digits, no sequence of sixteen characters twice in the process; non-trivial: several goroutines and lengths", gen: genNonceCase, run: runNonce},
		&prop[distCase]{name: "distribution", quick: 40, thorough: 1500,
			rule: "chi-squared tests of the characters at each position and of pairs of characters over many nonces; all non-trivial",
			gen: func(t *rapid.T) distCase {
				return distCase{pick(t, "len", 16, 1, 8, 10, 11, 21, 32), rng(t, 100000, 200000, "n")}
			}, run: runDist},
		&prop[procCase]{name: "processes", quick: 60, thorough: 1500,
			rule: "several processes started at the same time generate nonces or claim tasks: none repeats, nor do parts of them; all non-trivial",
			gen: func(t *rapid.T) procCase {
				return procCase{rng(t, 2, 8, "procs"), rng(t, 50, 2000, "n"), pick(t, "kind", "generate", "claims")}
			}, run: runProcs},
		&prop[claimCase]{name: "claims", quick: 400, thorough: 20000,
			rule: "tasks are claimed concurrently by polling and by promises that take over: no two claims of the process share a nonce; non-trivial: several goroutines, more than ten claims",
			gen: func(t *rapid.T) claimCase {
				return claimCase{N: rng(t, 1, 200, "n"), Parallel: rng(t, 1, 8, "parallel")}
			}, run: runClaims},
		&prop[claimCase]{name: "mongodb", quick: 300, thorough: 10000,
			rule: "the same with one to three instances with the MongoDB engine, in all modes, that share a collection; non-trivial: as before",
			gen: func(t *rapid.T) claimCase {
				return claimCase{rng(t, 1, 100, "n"), rng(t, 1, 8, "parallel"), seq(t, 2, 3, "mongo", genSetup)}
			}, run: runClaims},
	}})
	register(&Check{ID: "C29", Assumptions: []string{"numbers are doubles, object keys are unique, strings are valid UTF-8"}, Parts: []Part{
		&prop[payCase]{name: "endpoints", quick: 4000, thorough: 120000,
			rule: "generated JSON texts (random values, formats, escapes, deep and large ones) submitted by every kind of request or the client and replaced or kept by commits, read back from every response, before and after restarts; non-trivial: a random payload", gen: genPay, run: runPay},
		&prop[payCase]{name: "mongodb", quick: 1500, thorough: 40000,
			rule: "the same with the MongoDB engine, in all modes, on a server of our own; non-trivial: as before",
			gen: func(t *rapid.T) payCase {
				c := genPay(t)
				c.Mongo = ptr(genSetup(t))
				for i := range c.Items {
					c.Items[i].Payload.storable()
					for k := range c.Items[i].Commits {
						c.Items[i].Commits[k].storable()
					}
				}
				return c
			}, run: runPay},
		&prop[decCase]{name: "decode", quick: 60000, thorough: 1500000,
			rule: "payloads held as decoded JSON, raw JSON and Go values decoded into 21 kinds of targets, some of them filled before: same result as decoding their JSON; non-trivial: no error expected", gen: genDec, run: runDec},
	}})
}
