package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/bits"
	"strings"
	"time"

	"pgregory.net/rapid"
)

var bit = rapid.Bool()

// intn draws uniformly (the library's ranges prefer small numbers) and shrinks
// towards zero.
func intn(t *rapid.T, n int, label string) int {
	k := bits.Len(uint(n - 1))
	v := 0
	for try := 0; try < 8; try++ {
		v = 0
		for i := 0; i < k; i++ {
			v <<= 1
			if bit.Draw(t, label) {
				v |= 1
			}
		}
		if v < n {
			return v
		}
	}
	return v % n
}

// rng draws uniformly from an inclusive range and shrinks towards zero or the
// bound closest to it.
func rng(t *rapid.T, min, max int, label string) int {
	if min < 0 && max > 0 {
		if bit.Draw(t, label) {
			return -intn(t, -min+1, label)
		}
		return intn(t, max+1, label)
	}
	if max <= 0 {
		return max - intn(t, max-min+1, label)
	}
	return min + intn(t, max-min+1, label)
}

func oneIn(t *rapid.T, n int, label string) bool {
	// The simplest choice is false.
	return intn(t, n, label) == n-1
}

// seq draws a sequence of about avg elements, which shrinks by leaving out.
func seq[V any](t *rapid.T, avg, max int, label string, f func(t *rapid.T) V) []V {
	type item struct {
		v    V
		more bool
	}
	g := rapid.Custom(func(t *rapid.T) item {
		if intn(t, avg, "more") == 0 {
			return item{}
		}
		return item{f(t), true}
	})
	v := []V{}
	for len(v) < max {
		i := g.Draw(t, label)
		if !i.more {
			break
		}
		v = append(v, i.v)
	}
	return v
}

func pick[V any](t *rapid.T, label string, v ...V) V { return v[intn(t, len(v), label)] }

// weighted picks an index with the given weights.
func weighted(t *rapid.T, label string, w ...int) int {
	sum := 0
	for _, x := range w {
		sum += x
	}
	if sum <= 0 {
		bug("no weights for %s", label)
	}
	n := intn(t, sum, label)
	for i, x := range w {
		if n < x {
			return i
		}
		n -= x
	}
	return 0
}

var plainNames = []string{"a", "b", "c", "ab", "abc", "A", "b1", "zz"}

var nastyNames = []string{
	"a", "ab", "a/b", "a b", "a%2Fb", "%", "%2F", "a?b=c", "a#b", "a&b", ".", "..", "a.b", "é", "日本", "\U0001F600", "a:b", ":id", "*", "a\\b", "\"", "'", "<x>",
	"tasks", "promises", "topics", "v1", "null", "0", "-1", "~", "a\tb", "\n", "\x7f", "a;b", "a,b", "{}", "[]", "$a", "$set", "a.b.c", " a", "a ", " ", "/", "//", "/a", "a/", "a//b", "\u2028", "e\u0301", "\ufeff", "../a", "a/../b", "%00", "\x00", "a\x00", "a\x00b", "\x00a", "\x01", "a\x01", "\x01\x01", "a\x01\x02", "\x02",
}

// Bytes that are not valid UTF-8 are written as private runes in cases, which
// are saved as JSON, see raw.
var hostileNames = []string{"\ue0ff", "a\ue0ff", "\ue080", "a\x00\ue0ff", "\ue0c3", "\ue0ff\ue0ff"}

// raw replaces the private runes by the bytes they stand for.
func raw(s string) string {
	if !strings.Contains(s, "\xee\x82") && !strings.Contains(s, "\xee\x83") {
		return s
	}
	var b strings.Builder
	for _, r := range s {
		if r >= 0xe080 && r <= 0xe0ff {
			b.WriteByte(byte(r - 0xe000))
		} else {
			b.WriteRune(r)
		}
	}
	return b.String()
}

type nameLevel int

const (
	namesPlain nameLevel = iota
	namesText            // valid UTF-8, no plus sign
	namesBytes           // any bytes
)

// genName draws one name.
func genName(t *rapid.T, l nameLevel, label string) string {
	switch l {
	case namesPlain:
		return pick(t, label, plainNames...)
	}
	k := weighted(t, label+"-kind", 6, 5, 2, 1, 1)
	if k == 4 && l != namesBytes {
		k = 1
	}
	switch k {
	case 0:
		return pick(t, label, plainNames...)
	case 1:
		return pick(t, label, nastyNames...)
	case 2:
		s := rapid.StringN(1, 12, 40).Draw(t, label)
		s = strings.Map(func(r rune) rune {
			if r == '+' || r >= 0xe080 && r <= 0xe0ff {
				return 'p'
			}
			return r
		}, strings.ToValidUTF8(s, "?"))
		if s == "" {
			s = "s"
		}
		return s
	case 3:
		return strings.Repeat(pick(t, label, "x", "ab", "/", "%"), rng(t, 1, 300, label+"-len"))
	default:
		return pick(t, label, hostileNames...)
	}
}

// genNames draws distinct names, often related to each other.
func genNames(t *rapid.T, n int, l nameLevel, label string) []string {
	var v []string
	seen := map[string]bool{}
	for i := 0; len(v) < n; i++ {
		s := genName(t, l, label)
		if l != namesPlain && len(v) > 0 && oneIn(t, 3, label+"-derived") {
			b := v[intn(t, len(v), label+"-base")]
			s = b + pick(t, label+"-suffix", "a", "/", "\x00", "\x01", " ", "0", b)
		}
		if i > 20 {
			s = fmt.Sprintf("n%d", i)
		}
		long := false
		if l != namesPlain && i <= 20 && oneIn(t, 40, label+"-long") {
			// Names that only differ after a long common part.
			s = strings.Repeat(pick(t, label, "l", "lo", "é"), pick(t, label+"-part", 255, 511, 1023, 1024, 2048, 4100))
			s += pick(t, label+"-suffix", "", "a", "b", "/")
			long = true
			if len(v) > 0 && oneIn(t, 2, label+"-other") && len(v[len(v)-1]) > 400 {
				s = v[len(v)-1] + "x"
			}
		}
		if len(s) > 400 && !long || seen[s] {
			continue
		}
		seen[s] = true
		v = append(v, s)
	}
	return v
}

// genDue draws a time around now, with many ties and near ties.
func genTime(t *rapid.T, label string) TS {
	switch weighted(t, label+"-kind", 8, 4, 3, 2, 2, 1, 1) {
	case 0: // whole seconds around now
		return TS{K: "rel", N: int64(rng(t, -5, 5, label)) * int64(time.Second)}
	case 1: // milliseconds around now
		return TS{K: "rel", N: int64(rng(t, -20, 20, label)) * int64(time.Millisecond)}
	case 2: // fractions of milliseconds
		return TS{K: "rel", N: int64(rng(t, -30, 30, label)) * 100_003}
	case 3: // hours, other offset
		return TS{K: "rel", N: int64(rng(t, -100, 100, label)) * int64(time.Hour), Off: pick(t, label+"-off", 0, 60, -480, 330, 845)}
	case 4: // before 1970 or in the far future
		return TS{K: "abs", S: pick(t, label, int64(-1), -86400, -2208988800, -62135596800, -62135596799, 0, 1, 253402300799, 4102444800), N: pick(t, label+"-ns", int64(0), 1, 999_999, 1_000_000, 999_999_999)}
	case 5:
		return TS{K: "abs", S: rapid.Int64Range(-62135596800, 253402300799).Draw(t, label), N: rapid.Int64Range(0, 999_999_999).Draw(t, label+"-ns")}
	default:
		return TS{K: "rel", N: 0}
	}
}

// genRecent draws a time around now without extremes.
func genNear(t *rapid.T, label string) TS {
	switch weighted(t, label+"-kind", 6, 3, 2, 1) {
	case 0:
		return TS{K: "rel", N: int64(rng(t, -5, 5, label)) * int64(time.Second)}
	case 1:
		return TS{K: "rel", N: int64(rng(t, -20, 20, label)) * int64(time.Millisecond)}
	case 2:
		return TS{K: "rel", N: int64(rng(t, -30, 30, label)) * 100_003}
	default:
		return TS{K: "rel", N: int64(rng(t, -100, 100, label)) * int64(time.Hour)}
	}
}

// genJSON draws a JSON value as decoded values. Numbers are doubles.
func genJSON(t *rapid.T, depth int, label string) any {
	k := weighted(t, label+"-kind", 4, 3, 2, 2, 3, 3)
	if depth <= 0 && k >= 4 {
		k = 0
	}
	switch k {
	case 0:
		return pick(t, label, "", "x", "payload", "é日本\U0001F600", "\x00", "\u2028<>&\"\\", "null", "2024-01-01T00:00:00Z", strings.Repeat("long", 200))
	case 1:
		return pick(t, label, 0.0, 1.0, -1.0, 1.5, 1e21, 1e-7, 123456789.0, 9007199254740993.0, math.MaxFloat64, math.SmallestNonzeroFloat64, -0.25, 1<<31, 1<<53)
	case 2:
		return rapid.Bool().Draw(t, label)
	case 3:
		return nil
	case 4:
		n := rng(t, 0, 4, label+"-n")
		v := make([]any, 0, n)
		for i := 0; i < n; i++ {
			v = append(v, genJSON(t, depth-1, label))
		}
		return v
	default:
		n := rng(t, 0, 4, label+"-n")
		v := map[string]any{}
		for i := 0; i < n; i++ {
			v[pick(t, label+"-key", "a", "b", "", "key", "é", "_id", "topic", "a b", "0", "payload", "$x", "a.b")] = genJSON(t, depth-1, label)
		}
		return v
	}
}

func genPayload(t *rapid.T, label string) json.RawMessage {
	if oneIn(t, 3, label+"-nil") {
		return nil
	}
	b, err := json.Marshal(genJSON(t, 3, label))
	Must(err)
	if string(b) == "null" {
		return nil
	}
	return b
}

// genSmallPayload draws a payload that is cheap to compare.
func genSmallPayload(t *rapid.T, label string) json.RawMessage {
	return json.RawMessage(pick(t, label, "", `1`, `"p"`, `{"a":[1,null]}`, `[]`, `{}`, `false`, `0`, `""`))
}

// Profile controls what a generated history contains.
type Profile struct {
	Names    nameLevel
	NIDs     int
	NTopics  int
	MaxOps   int // average number of operations
	Weights  map[string]int
	Time     func(t *rapid.T, label string) TS
	Payload  func(t *rapid.T, label string) json.RawMessage
	AnyState bool // submitted tasks may be in any state
	DupBatch bool // batches may contain an ID twice
	Batch    int  // maximum size of batches
	BigStep  bool // clock steps of days
	Limits   int  // maximum limit of listings
	NoNil    bool // submitted tasks have all times, as after normalization
	HTTP     bool // operations as they can be expressed over HTTP
}

// History is a generated sequence of operations.
type History struct {
	IDs       []string `json:"ids"`
	Topics    []string `json:"topics"`
	Retention int64    `json:"retention"` // nanoseconds
	Ops       []Op     `json:"ops"`
}

func baseWeights() map[string]int {
	return map[string]int{
		opInsert: 8, opInserts: 4, opUpsert: 3, opUpserts: 2, opPoll: 12, opInsPromise: 4, opUpsPromise: 3, opCommit: 10,
		opDelTopics: 1, opDelTopic: 1, opDelTasks: 1, opDelTask: 2, opDelPromises: 2, opDelPromise: 2, opChore: 5, opAdvance: 6,
		opListTasks: 1, opListTopics: 1, opGetTopic: 1, opListPromises: 1, opGetPromise: 1, opGetTask: 1,
	}
}

// with returns the base weights with some changed.
func with(kv ...any) map[string]int {
	m := baseWeights()
	for i := 0; i < len(kv); i += 2 {
		m[kv[i].(string)] = kv[i+1].(int)
	}
	return m
}

var opOrder = []string{
	opInsert, opPoll, opCommit, opAdvance, opChore, opInserts, opUpsert, opUpserts, opInsPromise, opUpsPromise,
	opDelTask, opDelTopic, opDelTasks, opDelTopics, opDelPromises, opDelPromise,
	opListTasks, opListTopics, opGetTopic, opListPromises, opGetPromise, opGetTask, opOpen,
}

func genTask(t *rapid.T, p *Profile, ids, topics []string) T {
	v := T{ID: pick(t, "id", ids...), Topic: pick(t, "topic", topics...)}
	v.Scheduled = p.Time(t, "scheduled")
	if p.AnyState && oneIn(t, 3, "anystate") {
		v.State = intn(t, 4, "state")
		v.Nonce = pick(t, "tasknonce", "", "", "n1", "n2", "Abcdefgh01234567")
		if p.NoNil || oneIn(t, 2, "hasconsumed") {
			v.Consumed = p.Time(t, "consumed")
		}
		if p.NoNil || oneIn(t, 2, "hasdeadline") {
			v.Deadline = p.Time(t, "deadline")
		}
		v.Consumer = genWho(t, "consumer", "", "c1", "c2")
	}
	v.Producer = genWho(t, "producer", "", "p1", "p2")
	if p.NoNil || !oneIn(t, 4, "noproduced") {
		v.Produced = p.Time(t, "produced")
	}
	v.Payload = p.Payload(t, "payload")
	if oneIn(t, 8, "again") {
		v.As = rng(t, 1, 7, "as")
		if p.NoNil && v.As == 7 {
			v.As = 1
		}
	}
	return v
}

// genWho draws a name of a consumer or producer.
func genWho(t *rapid.T, label string, v ...string) string {
	if oneIn(t, 30, label+"-long") {
		return strings.Repeat(pick(t, label, "w", "wo", "é"), pick(t, label+"-len", 32, 64, 128, 255, 1000))
	}
	return pick(t, label, v...)
}

func genOp(t *rapid.T, p *Profile, ids, topics []string) Op {
	if p.Weights == nil {
		p.Weights = baseWeights()
	}
	w := make([]int, len(opOrder))
	for i, k := range opOrder {
		w[i] = p.Weights[k]
	}
	o := Op{K: opOrder[weighted(t, "op", w...)]}
	if p.HTTP && oneIn(t, 2, "styled") {
		o.Style = intn(t, styleAll+1, "style")
	}
	switch o.K {
	case opInsert, opUpsert:
		o.Tasks = []T{genTask(t, p, ids, topics)}
	case opInserts, opUpserts:
		b := p.Batch
		if b == 0 {
			b = 5
		}
		n := rng(t, 0, b, "batch")
		seen := map[string]bool{}
		for i := 0; i < n; i++ {
			v := genTask(t, p, ids, topics)
			if seen[v.ID] && !p.DupBatch {
				continue
			}
			seen[v.ID] = true
			o.Tasks = append(o.Tasks, v)
		}
	case opPoll:
		o.Topic = pick(t, "topic", topics...)
		o.Consumer = genWho(t, "consumer", "c1", "c2", "", "ç/3")
		o.Deadline = p.Time(t, "deadline")
	case opInsPromise, opUpsPromise:
		o.ID = pick(t, "id", ids...)
		o.Consumer = genWho(t, "consumer", "c1", "c2", "")
		o.Deadline = p.Time(t, "deadline")
	case opCommit:
		o.ID = pick(t, "id", ids...)
		o.NonceRef = pick(t, "nonce", "cur", "cur", "cur", "cur", "cur", "cur", "", "", "old", "old", "other", "other", "bogus", "swapped", "part", "longer")
		switch weighted(t, "state", 6, 3, 2, 1, 1) {
		case 0:
			o.State = ptr(2)
		case 1:
			o.State = ptr(0)
		case 2:
			o.State = ptr(3)
		case 3:
			o.State = ptr(1)
		}
		if oneIn(t, 4, "move") {
			o.Topic = pick(t, "topic", topics...)
		}
		if oneIn(t, 3, "resched") {
			o.Sched = p.Time(t, "sched")
		}
		if oneIn(t, 3, "repayload") {
			o.Payload = p.Payload(t, "payload")
		}
	case opDelTopic, opDelTasks, opDelPromises, opGetTopic:
		o.Topic = pick(t, "topic", topics...)
	case opDelTask, opDelPromise, opGetTask, opGetPromise:
		o.ID = pick(t, "id", ids...)
	case opListTasks, opListPromises:
		o.Topic = pick(t, "topic", topics...)
		o.Limit, o.Offset = genPage(t, p)
	case opListTopics:
		o.Limit, o.Offset = genPage(t, p)
	case opAdvance:
		switch weighted(t, "step", 4, 4, 2, 2) {
		case 0:
			o.Adv = int64(rng(t, 1, 10, "adv")) * int64(time.Second)
		case 1:
			o.Adv = int64(rng(t, 1, 30, "adv")) * int64(time.Millisecond)
		case 2:
			o.Adv = int64(rng(t, 1, 100, "adv")) * 77_777
		default:
			o.Adv = int64(rng(t, 1, 100, "adv")) * int64(time.Hour)
		}
	}
	return o
}

func genPage(t *rapid.T, p *Profile) (int, int) {
	l := p.Limits
	if l == 0 {
		l = 12
	}
	return rng(t, 0, l, "limit"), rng(t, 0, l, "offset")
}

func ptr[V any](v V) *V { return &v }

// hugePages gives some listings the limits that an engine may be configured to
// accept, up to max.
func hugePages(t *rapid.T, ops []Op, max int) {
	for i := range ops {
		switch ops[i].K {
		case opListTasks, opListTopics, opListPromises:
			if oneIn(t, 6, "hugepage") {
				ops[i].Limit = pick(t, "hugelimit", max, max-1, max/2, math.MaxInt32, math.MaxInt32+1)
				if oneIn(t, 8, "hugeoffset") {
					ops[i].Offset = pick(t, "hugeoff", max, max/2, math.MaxInt32+1)
				}
			}
		}
	}
}

func genHistory(t *rapid.T, p *Profile) History {
	if p.Time == nil {
		p.Time = genTime
	}
	if p.Payload == nil {
		p.Payload = genSmallPayload
	}
	nids, ntop := p.NIDs, p.NTopics
	if nids == 0 {
		nids = 6
	}
	if ntop == 0 {
		ntop = 3
	}
	h := History{}
	h.IDs = genNames(t, rng(t, 1, nids, "nids"), p.Names, "idname")
	h.Topics = genNames(t, rng(t, 1, ntop, "ntopics"), p.Names, "topicname")
	h.Retention = pick(t, "retention", int64(72*time.Hour), int64(time.Hour), int64(5*time.Second), 0, 1, int64(10*time.Millisecond), int64(200*365*24*time.Hour))
	n := p.MaxOps
	if n == 0 {
		n = 30
	}
	h.Ops = seq(t, n, 3*n, "ops", func(t *rapid.T) Op { return genOp(t, p, h.IDs, h.Topics) })
	return h
}
