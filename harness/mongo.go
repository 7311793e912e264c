package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"net"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"go.mongodb.org/mongo-driver/bson"
	"go.mongodb.org/mongo-driver/bson/primitive"
)

// mongoServer is a database server that speaks the MongoDB wire protocol. It
// implements the commands that an application like this one may send, with the
// semantics documented for MongoDB 4.4, and everything a check needs to play
// the environment: faults at any command, control over the order in which
// commands of several clients take effect, a sharded deployment's errors, and
// passes of the background task that expires documents.
type mongoServer struct {
	path string
	ln   net.Listener

	mu      sync.Mutex
	conns   map[net.Conn]bool
	down    bool
	cfg     mongoCfg
	colls   map[string]*mongoColl
	replies map[string]bson.D // of retryable writes
	cursors map[int64]*mongoCursor
	nextCur int64
	nconn   int32
	log     []string
	gen     int // number of cases so far
	version int // number of changes of documents so far
	unknown string
	second  bool // the member of the replica set is not its primary
	told    int  // number of times that a client was told so
	refused int  // commands or writes refused because the collection is sharded
	counts  map[string]int64

	// arrive is called when a command arrives, before it takes effect.
	arrive func(c *mongoCmd) *mongoFault
	// changed is called for every change of a document, with the lock held.
	changed func(c *mongoCmd, id any, before, after bson.D)
	// yield is called between the documents of one command, without the lock.
	yield func(c *mongoCmd)
}

// mongoCfg are properties of the deployment.
type mongoCfg struct {
	Mongos   bool     `json:"mongos,omitempty"`   // a router of a sharded cluster, with sessions and retryable writes
	Replica  bool     `json:"replica,omitempty"`  // a replica set, with sessions and retryable writes
	ShardKey []string `json:"shardkey,omitempty"` // of the sharded collection
	Code     int32    `json:"code,omitempty"`     // of the error for replacements without the shard key
	Batch    int      `json:"batch,omitempty"`    // maximum number of documents per reply
	Writes   int      `json:"writes,omitempty"`   // maximum number of writes per command
	Legacy   bool     `json:"legacy,omitempty"`   // oldest natural order first, else by index where one is hinted
}

type mongoColl struct {
	docs    []bson.D
	indexes []bson.D
}

type mongoCursor struct {
	ns   string
	docs []bson.D
}

// mongoCmd is a command of a client.
type mongoCmd struct {
	name string
	db   string
	coll string
	body bson.D
	app  string // name of the client
	gen  int    // case that the client belongs to
	conn int32
	seq  int // among the commands of the client that are not part of the protocol's upkeep
}

func (c *mongoCmd) String() string {
	var b bson.D
	for _, e := range c.body {
		switch e.Key {
		case "lsid", "$db", "$readPreference", "$clusterTime", "ordered", "maxTimeMS":
		default:
			b = append(b, e)
		}
	}
	s := fmt.Sprintf("%s.%s %s", c.app, c.name, extJSON(b))
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	return s
}

func extJSON(d any) string {
	b, err := bson.MarshalExtJSON(d, false, false)
	if err != nil {
		return fmt.Sprintf("%v", d)
	}
	return string(b)
}

// mongoFault is what a command meets.
type mongoFault struct {
	Before bool   `json:"before,omitempty"` // the connection breaks before the command takes effect
	After  bool   `json:"after,omitempty"`  // the connection breaks after the command took effect
	Code   int32  `json:"code,omitempty"`   // the command fails with this code
	Name   string `json:"name,omitempty"`
	Writes bool   `json:"writes,omitempty"` // some of the writes fail with the code, not the whole command
	WC     bool   `json:"wc,omitempty"`     // the command takes effect but its replication fails with the code
	Item   int    `json:"item,omitempty"`   // which write fails, modulo their number
}

func startMongo(path string) *mongoServer {
	s := &mongoServer{path: path}
	s.reset(mongoCfg{})
	s.listen()
	return s
}

func (s *mongoServer) listen() {
	network := "unix"
	if s.path != strings.ToLower(s.path) || len(s.path) > 100 || !strings.HasPrefix(s.path, "/") {
		network = "tcp" // clients only know names of sockets in lower case
		if s.path[0] == '/' {
			s.path = "127.0.0.1:0"
		}
	} else {
		os.Remove(s.path)
	}
	ln, err := net.Listen(network, s.path)
	Must(err)
	s.path = ln.Addr().String()
	s.mu.Lock()
	s.ln = ln
	s.conns = map[net.Conn]bool{}
	s.mu.Unlock()
	go func() { // accept connections
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			s.mu.Lock()
			s.conns[c] = true
			s.nconn++
			n := s.nconn
			s.mu.Unlock()
			go s.serve(c, n)
		}
	}()
}

// stop makes the server unreachable, and breaks all connections.
func (s *mongoServer) stop() {
	s.ln.Close()
	s.mu.Lock()
	for c := range s.conns {
		c.Close()
	}
	s.mu.Unlock()
}

// step makes the member of the replica set its primary, or not.
func (s *mongoServer) step(down bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.second, s.told = down, 0
	for c := range s.conns {
		c.Close()
	}
}

// gone waits until all clients have disconnected, so that nothing is on its way.
func (s *mongoServer) gone() {
	for end := time.Now().Add(20 * time.Second); ; time.Sleep(200 * time.Microsecond) {
		s.mu.Lock()
		n := len(s.conns)
		s.mu.Unlock()
		if n == 0 {
			return
		}
		if time.Now().After(end) {
			bug("%d connections are left", n)
		}
	}
}

// uri returns the address for a client.
func (s *mongoServer) uri(app string, more ...string) string {
	s.mu.Lock()
	u := fmt.Sprintf("mongodb://%s/?appName=%s.%d", strings.ReplaceAll(s.path, "/", "%2F"), app, s.gen)
	s.mu.Unlock()
	for _, m := range more {
		u += "&" + m
	}
	return u
}

// reset forgets everything.
func (s *mongoServer) reset(cfg mongoCfg) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if cfg.Batch == 0 {
		cfg.Batch = 101
	}
	if cfg.Writes == 0 {
		cfg.Writes = 100000
	}
	s.cfg = cfg
	s.gen++ // commands that clients of an earlier case have left behind are ignored
	s.colls = map[string]*mongoColl{}
	s.replies = map[string]bson.D{}
	s.cursors = map[int64]*mongoCursor{}
	s.log = nil
	s.version, s.refused, s.second = 0, 0, false
	s.counts = map[string]int64{}
	s.arrive, s.changed, s.yield = nil, nil, nil
}

// settled reports commands that the server does not know as a failure of the
// machinery.
func (s *mongoServer) settled() {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.unknown != "" {
		u := s.unknown
		s.unknown = ""
		bug("the database server does not know: %s", u)
	}
}

// recent returns the last commands that took effect.
func (s *mongoServer) recent(n int) string {
	s.mu.Lock()
	defer s.mu.Unlock()
	from := 0
	if len(s.log) > n {
		from = len(s.log) - n
	}
	return strings.Join(s.log[from:], "\n  ")
}

// ---- protocol ----

func (s *mongoServer) serve(c net.Conn, n int32) {
	defer func() {
		c.Close()
		s.mu.Lock()
		delete(s.conns, c)
		s.mu.Unlock()
	}()
	app, gen := "", 0
	for {
		var h [16]byte
		if _, err := io.ReadFull(c, h[:]); err != nil {
			return
		}
		size := int(binary.LittleEndian.Uint32(h[0:]))
		id := binary.LittleEndian.Uint32(h[4:])
		op := binary.LittleEndian.Uint32(h[12:])
		if size < 16 || size > 1<<26 {
			return
		}
		b := make([]byte, size-16)
		if _, err := io.ReadFull(c, b); err != nil {
			return
		}
		var body bson.D
		switch op {
		case 2004: // OP_QUERY
			b = b[4:]
			i := bytes.IndexByte(b, 0)
			b = b[i+1+8:]
			if bson.Unmarshal(b[:docLen(b)], &body) != nil {
				return
			}
		case 2013: // OP_MSG
			flags := binary.LittleEndian.Uint32(b)
			b = b[4:]
			if flags&1 != 0 {
				b = b[:len(b)-4]
			}
			var more bson.D
			for len(b) > 0 {
				kind := b[0]
				b = b[1:]
				if kind == 0 {
					if bson.Unmarshal(b[:docLen(b)], &body) != nil {
						return
					}
					b = b[docLen(b):]
					continue
				}
				sec := b[4:docLen(b)]
				b = b[docLen(b):]
				i := bytes.IndexByte(sec, 0)
				key := string(sec[:i])
				sec = sec[i+1:]
				a := bson.A{}
				for len(sec) > 0 {
					var d bson.D
					if bson.Unmarshal(sec[:docLen(sec)], &d) != nil {
						return
					}
					a = append(a, d)
					sec = sec[docLen(sec):]
				}
				more = append(more, bson.E{Key: key, Value: a})
			}
			body = append(body, more...)
			if flags&2 != 0 {
				s.mu.Lock()
				s.unknown = "unacknowledged commands"
				s.mu.Unlock()
				return
			}
		default:
			s.mu.Lock()
			s.unknown = fmt.Sprintf("opcode %d", op)
			s.mu.Unlock()
			return
		}
		cmd := &mongoCmd{name: body[0].Key, body: body, conn: n}
		cmd.db, _ = get(body, "$db").(string)
		cmd.coll, _ = body[0].Value.(string)
		if cmd.name == "getMore" {
			cmd.coll, _ = get(body, "collection").(string)
		}
		if cl, ok := get(body, "client").(bson.D); ok {
			if a, ok := get(cl, "application").(bson.D); ok {
				app, _ = get(a, "name").(string)
				if i := strings.LastIndexByte(app, '.'); i >= 0 {
					gen, _ = strconv.Atoi(app[i+1:])
					app = app[:i]
				}
			}
		}
		cmd.app, cmd.gen = app, gen
		reply, ok := s.handle(cmd)
		if !ok {
			return
		}
		d, err := bson.Marshal(reply)
		if err != nil {
			s.mu.Lock()
			s.unknown = fmt.Sprintf("reply %v: %v", reply, err)
			s.mu.Unlock()
			return
		}
		var out []byte
		if op == 2004 {
			out = make([]byte, 16+20, 36+len(d))
			binary.LittleEndian.PutUint32(out[12:], 1)
			binary.LittleEndian.PutUint32(out[16:], 8)
			binary.LittleEndian.PutUint32(out[32:], 1)
		} else {
			out = make([]byte, 16+5, 21+len(d))
			binary.LittleEndian.PutUint32(out[12:], 2013)
		}
		out = append(out, d...)
		binary.LittleEndian.PutUint32(out[0:], uint32(len(out)))
		binary.LittleEndian.PutUint32(out[4:], id)
		binary.LittleEndian.PutUint32(out[8:], id)
		if _, err := c.Write(out); err != nil {
			return
		}
	}
}

func docLen(b []byte) int { return int(binary.LittleEndian.Uint32(b)) }

func get(d bson.D, key string) any {
	for _, e := range d {
		if e.Key == key {
			return e.Value
		}
	}
	return nil
}

func has(d bson.D, key string) bool {
	for _, e := range d {
		if e.Key == key {
			return true
		}
	}
	return false
}

func okReply(e ...bson.E) bson.D {
	return append(append(bson.D{}, e...), bson.E{Key: "ok", Value: 1.0})
}

// mongoError is an error of the server.
type mongoError struct {
	code int32
	name string
	msg  string
}

var mongoNames = map[int32]string{2: "BadValue", 13: "Unauthorized", 26: "NamespaceNotFound", 27: "IndexNotFound", 50: "MaxTimeMSExpired", 59: "CommandNotFound", 61: "ShardKeyNotFound", 64: "WriteConcernFailed", 66: "ImmutableField", 67: "CannotCreateIndex", 72: "InvalidOptions", 85: "IndexOptionsConflict", 86: "IndexKeySpecsConflict", 91: "ShutdownInProgress", 96: "OperationFailed", 112: "WriteConflict", 121: "DocumentValidationFailure", 125: "CommandFailed", 189: "PrimarySteppedDown", 211: "KeyNotFound", 291: "NoQueryExecutionPlans", 11000: "DuplicateKey", 11601: "Interrupted", 14031: "OutOfDiskSpace", 8000: "AtlasError", 10107: "NotWritablePrimary", 13435: "NotPrimaryNoSecondaryOk", 31025: "Location31025", 15958: "Location15958"}

func errf(code int32, format string, a ...any) *mongoError {
	return &mongoError{code, mongoNames[code], fmt.Sprintf(format, a...)}
}

func (e *mongoError) reply() bson.D {
	return bson.D{{Key: "ok", Value: 0.0}, {Key: "errmsg", Value: e.msg}, {Key: "code", Value: e.code}, {Key: "codeName", Value: e.name}}
}

type unsupported struct{ what string }

func unknown(format string, a ...any) { panic(unsupported{fmt.Sprintf(format, a...)}) }

// upkeep are the commands of the protocol itself.
func (c *mongoCmd) upkeep() bool {
	switch c.name {
	case "hello", "isMaster", "ismaster", "endSessions", "killCursors", "buildInfo", "buildinfo":
		return true
	}
	return false
}

// handle executes a command. It returns false if the connection breaks.
func (s *mongoServer) handle(c *mongoCmd) (reply bson.D, ok bool) {
	if c.upkeep() {
		s.mu.Lock()
		defer s.mu.Unlock()
		switch c.name {
		case "endSessions", "killCursors":
			return okReply(), true
		case "buildInfo", "buildinfo":
			return okReply(bson.E{Key: "version", Value: "4.4.29"}), true
		}
		r := bson.D{{Key: "helloOk", Value: true}, {Key: "ismaster", Value: !s.second}, {Key: "isWritablePrimary", Value: !s.second}}
		if s.second {
			s.told++
		}
		if s.cfg.Replica {
			r = append(r, bson.D{{Key: "secondary", Value: s.second}, {Key: "setName", Value: "rs"}, {Key: "setVersion", Value: int32(1)}, {Key: "hosts", Value: bson.A{s.path}}, {Key: "me", Value: s.path}}...)
			if !s.second {
				r = append(r, bson.E{Key: "primary", Value: s.path})
			}
		}
		if s.cfg.Mongos {
			r = append(r, bson.E{Key: "msg", Value: "isdbgrid"})
		}
		r = append(r, bson.D{{Key: "maxBsonObjectSize", Value: int32(1 << 24)}, {Key: "maxMessageSizeBytes", Value: int32(48000000)}, {Key: "maxWriteBatchSize", Value: int32(s.cfg.Writes)},
			{Key: "localTime", Value: primitive.NewDateTimeFromTime(time.Now())}, {Key: "logicalSessionTimeoutMinutes", Value: int32(30)}, {Key: "connectionId", Value: c.conn},
			{Key: "minWireVersion", Value: int32(0)}, {Key: "maxWireVersion", Value: int32(9)}, {Key: "readOnly", Value: s.second}}...)
		return okReply(r...), true
	}
	s.mu.Lock()
	arrive, stale, second := s.arrive, c.gen != s.gen, s.second
	s.mu.Unlock()
	if stale {
		return nil, false
	}
	if second && c.name != "ping" {
		pref, _ := get(c.body, "$readPreference").(bson.D)
		mode, _ := get(pref, "mode").(string)
		switch c.name {
		case "find", "aggregate", "count", "distinct", "getMore":
			if mode == "" || mode == "primary" {
				return errf(13435, "not master and slaveOk=false").reply(), true
			}
		default:
			return errf(10107, "not master").reply(), true
		}
	}
	var f *mongoFault
	if arrive != nil {
		f = arrive(c)
	}
	if f != nil && f.Before {
		s.note(c, "connection broken before")
		return nil, false
	}
	if f != nil && f.Code != 0 && !f.Writes && !f.WC {
		s.note(c, fmt.Sprintf("failed with %d", f.Code))
		return errf(f.Code, "injected").reply(), true
	}
	defer func() {
		if e := recover(); e != nil {
			u, isU := e.(unsupported)
			if !isU {
				u.what = fmt.Sprintf("panic %v", e)
			}
			s.mu.Lock()
			s.unknown = u.what + " in " + c.String()
			s.mu.Unlock()
			reply, ok = errf(59, "unsupported: %s", u.what).reply(), true
		}
	}()
	reply = s.retryable(c, f)
	s.note(c, "-> "+extJSON(reply))
	if f != nil && f.WC {
		reply = append(reply, bson.E{Key: "writeConcernError", Value: bson.D{{Key: "code", Value: f.Code}, {Key: "codeName", Value: mongoNames[f.Code]}, {Key: "errmsg", Value: "injected"}}})
	}
	if f != nil && f.After {
		s.note(c, "connection broken after")
		return nil, false
	}
	return reply, true
}

func (s *mongoServer) note(c *mongoCmd, what string) {
	if len(what) > 400 {
		what = what[:400] + "..."
	}
	s.mu.Lock()
	s.log = append(s.log, c.String()+" "+what)
	if len(s.log) > 400 {
		s.log = append([]string{}, s.log[200:]...)
	}
	s.mu.Unlock()
}

// retryable executes a command, or repeats the reply to it if it was executed.
func (s *mongoServer) retryable(c *mongoCmd, f *mongoFault) bson.D {
	key := ""
	if n := get(c.body, "txnNumber"); n != nil {
		key = fmt.Sprintf("%s/%v", extJSON(get(c.body, "lsid")), n)
		s.mu.Lock()
		r, ok := s.replies[key]
		s.mu.Unlock()
		if ok {
			return r
		}
	}
	r := s.execute(c, f)
	if key != "" && get(r, "ok") == 1.0 {
		s.mu.Lock()
		s.replies[key] = r
		s.mu.Unlock()
	}
	return r
}

func (s *mongoServer) execute(c *mongoCmd, f *mongoFault) bson.D {
	s.mu.Lock()
	defer s.mu.Unlock()
	if c.gen != s.gen {
		return errf(11601, "stale").reply()
	}
	s.counts[c.name]++
	r, e := s.command(c, f)
	if e != nil {
		return e.reply()
	}
	return okReply(r...)
}

func (s *mongoServer) get(ns string) *mongoColl { return s.colls[ns] }

func (s *mongoServer) create(ns string) *mongoColl {
	k := s.colls[ns]
	if k == nil {
		k = &mongoColl{indexes: []bson.D{{{Key: "v", Value: int32(2)}, {Key: "key", Value: bson.D{{Key: "_id", Value: int32(1)}}}, {Key: "name", Value: "_id_"}}}}
		s.colls[ns] = k
	}
	return k
}

func allowed(d bson.D, keys string) {
	for _, e := range d {
		switch e.Key {
		case "$db", "lsid", "txnNumber", "$readPreference", "$clusterTime", "maxTimeMS", "comment", "apiVersion", "writeConcern", "readConcern", "allowDiskUse":
			continue
		}
		if !strings.Contains(" "+keys+" ", " "+e.Key+" ") {
			unknown("option %s", e.Key)
		}
	}
}

func (s *mongoServer) command(c *mongoCmd, f *mongoFault) (bson.D, *mongoError) {
	ns := c.db + "." + c.coll
	switch c.name {
	case "ping":
		return nil, nil
	case "insert":
		return s.insert(c, ns, f)
	case "update":
		return s.update(c, ns, f)
	case "delete":
		return s.delete(c, ns, f)
	case "findAndModify", "findandmodify":
		return s.findAndModify(c, ns)
	case "find":
		return s.find(c, ns)
	case "aggregate":
		return s.aggregate(c, ns)
	case "count":
		allowed(c.body, "count query limit skip hint")
		v, e := s.selectDocs(ns, docOf(get(c.body, "query")), get(c.body, "hint"))
		if e != nil {
			return nil, e
		}
		v = window(v, num(get(c.body, "skip")), num(get(c.body, "limit")))
		return bson.D{{Key: "n", Value: int32(len(v))}}, nil
	case "distinct":
		allowed(c.body, "distinct key query")
		v, e := s.selectDocs(ns, docOf(get(c.body, "query")), nil)
		if e != nil {
			return nil, e
		}
		a := bson.A{}
		for _, d := range v {
			vals, _ := lookup(d, split(get(c.body, "key").(string)))
			for _, x := range vals {
				_, dup := x.(bson.A)
				for _, y := range a {
					dup = dup || equal(x, y)
				}
				if !dup {
					a = append(a, x)
				}
			}
		}
		return bson.D{{Key: "values", Value: a}}, nil
	case "getMore":
		id := int64(num(c.body[0].Value))
		cur := s.cursors[id]
		if cur == nil {
			return nil, errf(43, "cursor id %d not found", id)
		}
		delete(s.cursors, id)
		return s.reply(cur.ns, cur.docs, "nextBatch", num(get(c.body, "batchSize"))), nil
	case "drop":
		if s.get(ns) == nil {
			return nil, errf(26, "ns not found")
		}
		for _, d := range s.colls[ns].docs {
			s.change(c, d, nil)
		}
		delete(s.colls, ns)
		return bson.D{{Key: "ns", Value: ns}}, nil
	case "create":
		allowed(c.body, "create")
		if s.get(ns) != nil {
			return nil, errf(48, "a collection '%s' already exists", ns)
		}
		s.create(ns)
		return nil, nil
	case "listCollections":
		a := []bson.D{}
		for k := range s.colls {
			if strings.HasPrefix(k, c.db+".") {
				a = append(a, bson.D{{Key: "name", Value: strings.TrimPrefix(k, c.db+".")}, {Key: "type", Value: "collection"}})
			}
		}
		return s.reply(c.db+".$cmd.listCollections", a, "firstBatch", 0), nil
	case "createIndexes":
		return s.createIndexes(c, ns)
	case "listIndexes":
		k := s.get(ns)
		if k == nil {
			return nil, errf(26, "ns does not exist: %s", ns)
		}
		return s.reply(ns, k.indexes, "firstBatch", 0), nil
	case "dropIndexes":
		k := s.get(ns)
		if k == nil {
			return nil, errf(26, "ns not found")
		}
		n := get(c.body, "index")
		for i, x := range k.indexes {
			if i > 0 && (n == "*" || n == get(x, "name") || equal(n, get(x, "key"))) {
				if n == "*" {
					k.indexes = k.indexes[:1]
				} else {
					k.indexes = append(append([]bson.D{}, k.indexes[:i]...), k.indexes[i+1:]...)
				}
				return nil, nil
			}
		}
		if n == "*" {
			return nil, nil
		}
		return nil, errf(27, "index not found")
	case "collMod":
		return s.collMod(c, ns)
	}
	switch c.name {
	case "listDatabases":
		names := map[string]bool{}
		for k := range s.colls {
			names[k[:strings.IndexByte(k, '.')]] = true
		}
		a := bson.A{}
		for _, k := range sortedKeys(names) {
			a = append(a, bson.D{{Key: "name", Value: k}, {Key: "sizeOnDisk", Value: int64(8192)}, {Key: "empty", Value: false}})
		}
		return bson.D{{Key: "databases", Value: a}, {Key: "totalSize", Value: int64(8192)}}, nil
	case "dropDatabase":
		for k := range s.colls {
			if strings.HasPrefix(k, c.db+".") {
				for _, d := range s.colls[k].docs {
					s.change(c, d, nil)
				}
				delete(s.colls, k)
			}
		}
		return bson.D{{Key: "dropped", Value: c.db}}, nil
	case "collStats":
		n := 0
		if k := s.get(ns); k != nil {
			n = len(k.docs)
		}
		return bson.D{{Key: "ns", Value: ns}, {Key: "count", Value: int32(n)}, {Key: "size", Value: int32(n * 100)}, {Key: "sharded", Value: len(s.cfg.ShardKey) > 0}}, nil
	case "dbStats", "dbstats":
		n := 0
		for k := range s.colls {
			if strings.HasPrefix(k, c.db+".") {
				n += len(s.colls[k].docs)
			}
		}
		return bson.D{{Key: "db", Value: c.db}, {Key: "objects", Value: int32(n)}}, nil
	case "serverStatus":
		return bson.D{{Key: "version", Value: "4.4.29"}, {Key: "uptime", Value: float64(1)}, {Key: "localTime", Value: primitive.NewDateTimeFromTime(time.Now())}}, nil
	case "connectionStatus":
		return bson.D{{Key: "authInfo", Value: bson.D{{Key: "authenticatedUsers", Value: bson.A{}}}}}, nil
	}
	unknown("command %s", c.name)
	return nil, nil
}

// ---- values ----

func docOf(v any) bson.D {
	switch d := v.(type) {
	case nil:
		return bson.D{}
	case bson.D:
		return d
	}
	unknown("document %T", v)
	return nil
}

func listOf(v any) bson.A {
	switch a := v.(type) {
	case nil:
		return nil
	case bson.A:
		return a
	}
	unknown("array %T", v)
	return nil
}

func num(v any) int {
	switch n := v.(type) {
	case nil:
		return 0
	case int32:
		return int(n)
	case int64:
		return int(n)
	case float64:
		return int(n)
	}
	unknown("number %T", v)
	return 0
}

func truth(v any) bool {
	switch b := v.(type) {
	case nil:
		return false
	case bool:
		return b
	}
	return num(v) != 0
}

// rank is the order of types in comparisons.
func rank(v any) int {
	switch v.(type) {
	case primitive.MinKey:
		return 0
	case nil, missing:
		return 1
	case int32, int64, float64:
		return 2
	case string:
		return 3
	case bson.D:
		return 4
	case bson.A:
		return 5
	case primitive.Binary:
		return 6
	case primitive.ObjectID:
		return 7
	case bool:
		return 8
	case primitive.DateTime:
		return 9
	case primitive.Timestamp:
		return 10
	case primitive.Regex:
		return 11
	case primitive.MaxKey:
		return 127
	}
	unknown("value of type %T", v)
	return 0
}

func float(v any) float64 {
	switch n := v.(type) {
	case int32:
		return float64(n)
	case int64:
		return float64(n)
	}
	return v.(float64)
}

func compare(a, b any) int {
	x, y := rank(a), rank(b)
	if x != y {
		return x - y
	}
	sign := func(less, more bool) int {
		if less {
			return -1
		}
		if more {
			return 1
		}
		return 0
	}
	switch x {
	case 1:
		return 0
	case 2:
		if i, ok := a.(int64); ok {
			if j, ok := b.(int64); ok {
				return sign(i < j, i > j)
			}
		}
		f, g := float(a), float(b)
		if math.IsNaN(f) || math.IsNaN(g) {
			return sign(math.IsNaN(f) && !math.IsNaN(g), !math.IsNaN(f) && math.IsNaN(g))
		}
		return sign(f < g, f > g)
	case 0, 127:
		return 0
	case 3:
		return strings.Compare(a.(string), b.(string))
	case 6:
		return compareBytes(a.(primitive.Binary), b.(primitive.Binary))
	case 10:
		return primitive.CompareTimestamp(a.(primitive.Timestamp), b.(primitive.Timestamp))
	case 8:
		p, q := a.(bool), b.(bool)
		return sign(!p && q, p && !q)
	case 9:
		p, q := a.(primitive.DateTime), b.(primitive.DateTime)
		return sign(p < q, p > q)
	case 5:
		p, q := a.(bson.A), b.(bson.A)
		for i := 0; i < len(p) && i < len(q); i++ {
			if c := compare(p[i], q[i]); c != 0 {
				return c
			}
		}
		return len(p) - len(q)
	case 4:
		p, q := a.(bson.D), b.(bson.D)
		for i := 0; i < len(p) && i < len(q); i++ {
			if c := rank(p[i].Value) - rank(q[i].Value); c != 0 {
				return c
			}
			if c := strings.Compare(p[i].Key, q[i].Key); c != 0 {
				return c
			}
			if c := compare(p[i].Value, q[i].Value); c != 0 {
				return c
			}
		}
		return len(p) - len(q)
	}
	return strings.Compare(fmt.Sprint(a), fmt.Sprint(b))
}

func equal(a, b any) bool { return compare(a, b) == 0 }

func copyDoc(d bson.D) bson.D { return append(bson.D{}, d...) }

func set(d bson.D, key string, v any) bson.D {
	for i := range d {
		if d[i].Key == key {
			d[i].Value = v
			return d
		}
	}
	return append(d, bson.E{Key: key, Value: v})
}

func same(a, b bson.D) bool {
	x, err1 := bson.Marshal(a)
	y, err2 := bson.Marshal(b)
	return err1 == nil && err2 == nil && bytes.Equal(x, y)
}

// ---- queries ----

// equalities returns the fields that a filter fixes.
func equalities(filter bson.D) map[string]any {
	m := map[string]any{}
	for _, e := range filter {
		if e.Key == "$and" {
			for _, f := range listOf(e.Value) {
				for k, v := range equalities(f.(bson.D)) {
					m[k] = v
				}
			}
			continue
		}
		if strings.HasPrefix(e.Key, "$") {
			continue
		}
		if ops, ok := e.Value.(bson.D); ok && len(ops) > 0 && strings.HasPrefix(ops[0].Key, "$") {
			for _, o := range ops {
				if o.Key == "$eq" {
					m[e.Key] = o.Value
				}
			}
			continue
		}
		m[e.Key] = e.Value
	}
	return m
}

// hinted finds the index that a hint names.
func (k *mongoColl) hinted(filter bson.D, hint any) (bson.D, *mongoError) {
	if hint == nil {
		return nil, nil
	}
	if d, ok := hint.(bson.D); ok && len(d) == 1 && d[0].Key == "$natural" {
		return nil, nil
	}
	for _, x := range k.indexes {
		if equal(hint, get(x, "name")) || equal(hint, get(x, "key")) {
			if p, ok := get(x, "partialFilterExpression").(bson.D); ok {
				// A partial index only serves queries that imply its filter.
				for key, v := range equalities(p) {
					if !implies(filter, key, v) {
						return nil, errf(291, "error processing query: planner returned error :: caused by :: No query solutions")
					}
				}
			}
			return x, nil
		}
	}
	return nil, errf(2, "error processing query: planner returned error :: caused by :: hint provided does not correspond to an existing index")
}

// selectDocs returns the matching documents, in the order of the hinted index.
func (s *mongoServer) selectDocs(ns string, filter bson.D, hint any) ([]bson.D, *mongoError) {
	k := s.get(ns)
	if k == nil {
		return nil, nil
	}
	x, e := k.hinted(filter, hint)
	if e != nil {
		return nil, e
	}
	var v []bson.D
	for _, d := range k.docs {
		if matches(d, filter) {
			v = append(v, d)
		}
	}
	if x != nil && !s.cfg.Legacy {
		key := get(x, "key").(bson.D)
		sort.SliceStable(v, func(i, j int) bool {
			for _, e := range key {
				a, b := sortKey(v[i], e.Key, 1), sortKey(v[j], e.Key, 1)
				c := 0
				if e.Value == "hashed" {
					c = strings.Compare(hashed(a), hashed(b))
				} else {
					c = compare(a, b) * num(e.Value)
				}
				if c != 0 {
					return c < 0
				}
			}
			return false
		})
	}
	return v, nil
}

func hashed(v any) string {
	b, err := bson.Marshal(bson.D{{Key: "", Value: v}})
	if err != nil {
		return ""
	}
	h := uint64(14695981039346656037)
	for _, c := range b {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return fmt.Sprintf("%016x", h)
}

func window(v []bson.D, skip, limit int) []bson.D {
	if skip > len(v) {
		skip = len(v)
	}
	v = v[skip:]
	if limit < 0 {
		limit = -limit
	}
	if limit > 0 && limit < len(v) {
		v = v[:limit]
	}
	return v
}

// reply starts or continues a cursor.
func (s *mongoServer) reply(ns string, v []bson.D, batch string, size int) bson.D {
	n := s.cfg.Batch
	if size > 0 && size < n {
		n = size
	}
	var id int64
	if len(v) > n {
		s.nextCur++
		id = s.nextCur
		s.cursors[id] = &mongoCursor{ns, v[n:]}
		v = v[:n]
	}
	a := bson.A{}
	for _, d := range v {
		a = append(a, d)
	}
	return bson.D{{Key: "cursor", Value: bson.D{{Key: batch, Value: a}, {Key: "id", Value: id}, {Key: "ns", Value: ns}}}}
}

func (s *mongoServer) find(c *mongoCmd, ns string) (bson.D, *mongoError) {
	b := c.body
	allowed(b, "find filter sort projection hint skip limit batchSize singleBatch allowPartialResults noCursorTimeout")
	v, e := s.selectDocs(ns, docOf(get(b, "filter")), get(b, "hint"))
	if e != nil {
		return nil, e
	}
	sortDocs(v, docOf(get(b, "sort")))
	if num(get(b, "skip")) < 0 || num(get(b, "limit")) < 0 {
		return nil, errf(2, "skip and limit must be non-negative")
	}
	v = window(v, num(get(b, "skip")), num(get(b, "limit")))
	v = project(v, docOf(get(b, "projection")))
	if truth(get(b, "singleBatch")) {
		return s.reply(ns, window(v, 0, num(get(b, "batchSize"))), "firstBatch", 0), nil
	}
	return s.reply(ns, v, "firstBatch", num(get(b, "batchSize"))), nil
}

func (s *mongoServer) aggregate(c *mongoCmd, ns string) (bson.D, *mongoError) {
	b := c.body
	allowed(b, "aggregate pipeline cursor hint")
	pipeline := listOf(get(b, "pipeline"))
	filter := bson.D{}
	if len(pipeline) > 0 {
		if f, ok := get(docOf(pipeline[0]), "$match").(bson.D); ok {
			filter = f
		}
	}
	v, e := s.selectDocs(ns, filter, get(b, "hint"))
	if e != nil {
		return nil, e
	}
	if v, e = stages(v, pipeline); e != nil {
		return nil, e
	}
	size := 0
	if k, ok := get(b, "cursor").(bson.D); ok {
		size = num(get(k, "batchSize"))
	}
	return s.reply(ns, v, "firstBatch", size), nil
}

// ---- changes ----

// change replaces one document by another, either may be absent.
func (s *mongoServer) change(c *mongoCmd, before, after bson.D) {
	s.version++
	d := before
	if d == nil {
		d = after
	}
	if s.changed != nil {
		s.changed(c, get(d, "_id"), before, after)
	}
}

func (k *mongoColl) at(id any) int {
	for i, d := range k.docs {
		if equal(get(d, "_id"), id) {
			return i
		}
	}
	return -1
}

// between releases the lock between the documents of one command.
func (s *mongoServer) between(c *mongoCmd) {
	if y := s.yield; y != nil {
		s.mu.Unlock()
		y(c)
		s.mu.Lock()
	}
}

func writeError(i int, e *mongoError) bson.D {
	return bson.D{{Key: "index", Value: int32(i)}, {Key: "code", Value: e.code}, {Key: "errmsg", Value: e.msg}}
}

func finishWrites(r bson.D, errs bson.A) bson.D {
	if len(errs) > 0 {
		r = append(r, bson.E{Key: "writeErrors", Value: errs})
	}
	return r
}

func (f *mongoFault) write(i, n int) *mongoError {
	if f != nil && f.Writes && f.Item%n == i {
		return errf(f.Code, "injected")
	}
	return nil
}

func (s *mongoServer) insertDoc(c *mongoCmd, k *mongoColl, d bson.D) *mongoError {
	id := get(d, "_id")
	if k.at(id) >= 0 {
		return errf(11000, "E11000 duplicate key error collection: %s.%s index: _id_ dup key: { _id: %q }", c.db, c.coll, id)
	}
	n := bson.D{{Key: "_id", Value: id}}
	for _, e := range d {
		if e.Key != "_id" {
			n = append(n, e)
		}
	}
	k.docs = append(k.docs, n)
	s.change(c, nil, n)
	return nil
}

func (s *mongoServer) insert(c *mongoCmd, ns string, f *mongoFault) (bson.D, *mongoError) {
	allowed(c.body, "insert documents ordered bypassDocumentValidation")
	docs := listOf(get(c.body, "documents"))
	k := s.create(ns)
	ordered := !has(c.body, "ordered") || truth(get(c.body, "ordered"))
	n := 0
	var errs bson.A
	for i, d := range docs {
		if i > 0 {
			s.between(c)
		}
		e := f.write(i, len(docs))
		if e == nil {
			e = s.insertDoc(c, k, d.(bson.D))
		}
		if e == nil {
			n++
			continue
		}
		errs = append(errs, writeError(i, e))
		if ordered {
			break
		}
	}
	return finishWrites(bson.D{{Key: "n", Value: int32(n)}}, errs), nil
}

// targets checks whether a router can target an operation on one document.
func (s *mongoServer) targets(filter bson.D) bool {
	eq := equalities(filter)
	for _, f := range s.cfg.ShardKey {
		if _, ok := eq[f]; !ok {
			return false
		}
	}
	return true
}

func (s *mongoServer) shardKeyChanged(a, b bson.D) bool {
	for _, f := range s.cfg.ShardKey {
		if !equal(get(a, f), get(b, f)) {
			return true
		}
	}
	return false
}

// updateDocs executes one statement of an update command.
func (s *mongoServer) updateDocs(c *mongoCmd, ns string, q bson.D, u updateSpec, multi, upsert bool, hint any) (n, modified int, upserted any, e *mongoError) {
	k := s.get(ns)
	if upsert {
		k = s.create(ns)
	}
	if k == nil {
		return
	}
	full := s.targets(q)
	_, byID := equalities(q)["_id"]
	if len(s.cfg.ShardKey) > 0 && !multi && !full {
		if u.replacement() {
			s.refused++
			if s.cfg.Code == 31025 {
				return 0, 0, nil, errf(31025, "Shard key update is not allowed without specifying the full shard key in the query")
			}
			return 0, 0, nil, errf(61, "Failed to target upsert by query :: could not extract exact shard key")
		}
		if !u.replacement() && !byID {
			return 0, 0, nil, errf(72, "A {multi:false} update on a sharded collection must either contain an exact match on _id or must target a single shard")
		}
	}
	v, e := s.selectDocs(ns, q, hint)
	if e != nil {
		return 0, 0, nil, e
	}
	if !multi && len(v) > 1 {
		v = v[:1]
	}
	for i, d := range v {
		if i > 0 {
			s.between(c)
			at := k.at(get(d, "_id"))
			if at < 0 || !matches(k.docs[at], q) {
				continue
			}
			d = k.docs[at]
		}
		x, e := u.apply(d, false)
		if e != nil {
			return n, modified, nil, e
		}
		if !full && s.shardKeyChanged(d, x) {
			return n, modified, nil, errf(31025, "Shard key update is not allowed without specifying the full shard key in the query")
		}
		n++
		if !same(d, x) {
			modified++
			k.docs[k.at(get(d, "_id"))] = x
			s.change(c, d, x)
		}
	}
	if len(v) == 0 && upsert {
		seed := bson.D{}
		for _, f := range q {
			if w, ok := equalities(q)[f.Key]; ok {
				if !u.replacement() || f.Key == "_id" {
					seed = append(seed, bson.E{Key: f.Key, Value: w})
				}
			}
		}
		x, e := u.apply(seed, true)
		if e != nil {
			return 0, 0, nil, e
		}
		if get(x, "_id") == nil {
			x = set(x, "_id", primitive.NewObjectID())
		}
		if e := s.insertDoc(c, k, x); e != nil {
			return 0, 0, nil, e
		}
		return 1, 0, get(x, "_id"), nil
	}
	return n, modified, nil, nil
}

func (s *mongoServer) update(c *mongoCmd, ns string, f *mongoFault) (bson.D, *mongoError) {
	allowed(c.body, "update updates ordered bypassDocumentValidation")
	ordered := !has(c.body, "ordered") || truth(get(c.body, "ordered"))
	var errs, ups bson.A
	n, modified := 0, 0
	us := listOf(get(c.body, "updates"))
	for i, x := range us {
		if i > 0 {
			s.between(c)
		}
		st := x.(bson.D)
		allowed(st, "q u multi upsert hint")
		var e *mongoError
		if e = f.write(i, len(us)); e == nil {
			var a, b int
			var id any
			a, b, id, e = s.updateDocs(c, ns, docOf(get(st, "q")), updateOf(get(st, "u")), truth(get(st, "multi")), truth(get(st, "upsert")), get(st, "hint"))
			n += a
			modified += b
			if id != nil {
				ups = append(ups, bson.D{{Key: "index", Value: int32(i)}, {Key: "_id", Value: id}})
			}
		}
		if e != nil {
			errs = append(errs, writeError(i, e))
			if ordered {
				break
			}
		}
	}
	r := bson.D{{Key: "n", Value: int32(n)}, {Key: "nModified", Value: int32(modified)}}
	if len(ups) > 0 {
		r = append(r, bson.E{Key: "upserted", Value: ups})
	}
	return finishWrites(r, errs), nil
}

func (s *mongoServer) delete(c *mongoCmd, ns string, f *mongoFault) (bson.D, *mongoError) {
	allowed(c.body, "delete deletes ordered")
	ordered := !has(c.body, "ordered") || truth(get(c.body, "ordered"))
	var errs bson.A
	n := 0
	ds := listOf(get(c.body, "deletes"))
	for i, x := range ds {
		if i > 0 {
			s.between(c)
		}
		st := x.(bson.D)
		allowed(st, "q limit hint")
		e := f.write(i, len(ds))
		var v []bson.D
		q := docOf(get(st, "q"))
		if e == nil {
			_, byID := equalities(q)["_id"]
			if num(get(st, "limit")) == 1 && !byID && !s.targets(q) {
				e = errf(61, "A single delete on a sharded collection must contain an exact match on _id or contain the shard key")
			}
		}
		if e == nil {
			v, e = s.selectDocs(ns, q, get(st, "hint"))
		}
		if e != nil {
			errs = append(errs, writeError(i, e))
			if ordered {
				break
			}
			continue
		}
		if num(get(st, "limit")) == 1 && len(v) > 1 {
			v = v[:1]
		}
		for j, d := range v {
			if j > 0 {
				s.between(c)
			}
			k := s.get(ns)
			if k == nil {
				break
			}
			at := k.at(get(d, "_id"))
			if at < 0 || !matches(k.docs[at], q) {
				continue
			}
			d = k.docs[at]
			k.docs = append(append([]bson.D{}, k.docs[:at]...), k.docs[at+1:]...)
			s.change(c, d, nil)
			n++
		}
	}
	return finishWrites(bson.D{{Key: "n", Value: int32(n)}}, errs), nil
}

func (s *mongoServer) findAndModify(c *mongoCmd, ns string) (bson.D, *mongoError) {
	b := c.body
	allowed(b, "findAndModify findandmodify query sort update remove new upsert fields hint bypassDocumentValidation")
	q := docOf(get(b, "query"))
	if len(s.cfg.ShardKey) > 0 && !s.targets(q) {
		s.refused++
		return nil, errf(61, "Query for sharded findAndModify must contain the shard key")
	}
	v, e := s.selectDocs(ns, q, get(b, "hint"))
	if e != nil {
		return nil, e
	}
	sortDocs(v, docOf(get(b, "sort")))
	leo := bson.D{{Key: "n", Value: int32(0)}, {Key: "updatedExisting", Value: false}}
	if len(v) == 0 {
		if truth(get(b, "upsert")) {
			n, _, id, e := s.updateDocs(c, ns, q, updateOf(get(b, "update")), false, true, nil)
			if e != nil {
				return nil, e
			}
			var out any
			if truth(get(b, "new")) {
				k := s.get(ns)
				out = project([]bson.D{k.docs[k.at(id)]}, docOf(get(b, "fields")))[0]
			}
			return bson.D{{Key: "lastErrorObject", Value: bson.D{{Key: "n", Value: int32(n)}, {Key: "updatedExisting", Value: false}, {Key: "upserted", Value: id}}}, {Key: "value", Value: out}}, nil
		}
		return bson.D{{Key: "lastErrorObject", Value: leo}, {Key: "value", Value: nil}}, nil
	}
	k, d := s.get(ns), v[0]
	at := k.at(get(d, "_id"))
	out := d
	if truth(get(b, "remove")) {
		k.docs = append(append([]bson.D{}, k.docs[:at]...), k.docs[at+1:]...)
		s.change(c, d, nil)
		leo = bson.D{{Key: "n", Value: int32(1)}}
	} else {
		x, e := updateOf(get(b, "update")).apply(d, false)
		if e != nil {
			return nil, e
		}
		if !same(d, x) {
			k.docs[at] = x
			s.change(c, d, x)
		}
		if truth(get(b, "new")) {
			out = x
		}
		leo = bson.D{{Key: "n", Value: int32(1)}, {Key: "updatedExisting", Value: true}}
	}
	out = project([]bson.D{out}, docOf(get(b, "fields")))[0]
	return bson.D{{Key: "lastErrorObject", Value: leo}, {Key: "value", Value: out}}, nil
}

// ---- indexes ----

func indexOptions(x bson.D) bson.D {
	var d bson.D
	for _, k := range []string{"partialFilterExpression", "expireAfterSeconds", "unique", "sparse", "collation"} {
		v := get(x, k)
		if k == "unique" || k == "sparse" {
			if !truth(v) {
				continue
			}
		}
		if v != nil {
			d = append(d, bson.E{Key: k, Value: v})
		}
	}
	return d
}

func (s *mongoServer) createIndexes(c *mongoCmd, ns string) (bson.D, *mongoError) {
	allowed(c.body, "createIndexes indexes commitQuorum")
	var specs []bson.D
	for _, v := range listOf(get(c.body, "indexes")) {
		x := v.(bson.D)
		for _, e := range x {
			if !strings.Contains(" key name partialFilterExpression expireAfterSeconds unique sparse background v hidden storageEngine ", " "+e.Key+" ") {
				unknown("index option %s", e.Key)
			}
		}
		if t := get(x, "expireAfterSeconds"); t != nil {
			if float(t) < 0 || float(t) > math.MaxInt32 {
				return nil, errf(67, "TTL index 'expireAfterSeconds' option must be within an acceptable range")
			}
			if len(get(x, "key").(bson.D)) != 1 {
				return nil, errf(67, "TTL indexes are single-field indexes")
			}
		}
		specs = append(specs, x)
	}
	k := s.create(ns)
	before := len(k.indexes)
	var add []bson.D
	for _, x := range specs {
		dup := false
		for _, y := range append(append([]bson.D{}, k.indexes...), add...) {
			sameName := equal(get(x, "name"), get(y, "name"))
			sameKey := equal(get(x, "key"), get(y, "key"))
			sameOpts := equal(indexOptions(x), indexOptions(y))
			switch {
			case sameName && sameKey && sameOpts:
				dup = true
			case sameKey:
				return nil, errf(85, "Index with name: %v already exists with different options", get(x, "name"))
			case sameName:
				return nil, errf(86, "Index must have unique name. An index with the name %v exists with another key", get(x, "name"))
			}
		}
		if !dup {
			add = append(add, append(bson.D{{Key: "v", Value: int32(2)}}, x...))
		}
	}
	k.indexes = append(k.indexes, add...)
	return bson.D{{Key: "createdCollectionAutomatically", Value: false}, {Key: "numIndexesBefore", Value: int32(before)}, {Key: "numIndexesAfter", Value: int32(len(k.indexes))}}, nil
}

func (s *mongoServer) collMod(c *mongoCmd, ns string) (bson.D, *mongoError) {
	allowed(c.body, "collMod index")
	k := s.get(ns)
	if k == nil {
		return nil, errf(26, "ns does not exist")
	}
	m := docOf(get(c.body, "index"))
	for i, x := range k.indexes {
		if has(m, "keyPattern") && equal(get(m, "keyPattern"), get(x, "key")) || has(m, "name") && equal(get(m, "name"), get(x, "name")) {
			old := get(x, "expireAfterSeconds")
			if old == nil {
				return nil, errf(72, "no expireAfterSeconds field to update")
			}
			t := get(m, "expireAfterSeconds")
			if t == nil || float(t) < 0 || float(t) > math.MaxInt32 {
				return nil, errf(72, "expireAfterSeconds out of range")
			}
			k.indexes[i] = set(copyDoc(x), "expireAfterSeconds", t)
			return bson.D{{Key: "expireAfterSeconds_old", Value: old}, {Key: "expireAfterSeconds_new", Value: t}}, nil
		}
	}
	return nil, errf(27, "cannot find index %s for ns %s", extJSON(m), ns)
}

// expire is one pass of the task that deletes expired documents.
func (s *mongoServer) expire(ns string, now time.Time) (n int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	k := s.colls[ns]
	if k == nil {
		return 0
	}
	for _, x := range k.indexes {
		t := get(x, "expireAfterSeconds")
		if t == nil {
			continue
		}
		field := get(x, "key").(bson.D)[0].Key
		limit := primitive.NewDateTimeFromTime(now.Add(-time.Duration(float(t)) * time.Second))
		var keep []bson.D
		for _, d := range k.docs {
			v, ok := get(d, field).(primitive.DateTime)
			if p, has := get(x, "partialFilterExpression").(bson.D); ok && v <= limit && (!has || matches(d, p)) {
				s.change(&mongoCmd{name: "ttl"}, d, nil)
				n++
				continue
			}
			keep = append(keep, d)
		}
		k.docs = keep
	}
	return n
}
