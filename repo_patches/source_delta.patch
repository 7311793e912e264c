From a49fa3e0e0beb64b571b58044267ab4a6a8367d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:54 +0000
Subject: [PATCH 01/24] fix: do not poll a task of another topic from the memdb
 engine

The lower bound search runs over the tasks of all topics, so polling a topic
without pending tasks claimed the next task of the topic that sorts after it.
---
 internal/engine/memdb/queue.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/engine/memdb/queue.go b/internal/engine/memdb/queue.go
index 795e2f2..f31bc85 100644
--- a/internal/engine/memdb/queue.go
+++ b/internal/engine/memdb/queue.go
@@ -83,8 +83,13 @@ func (g *Engine) Poll(ctx context.Context, topic string, p *ratus.Promise) (*rat
 		return nil, ratus.ErrNotFound
 	}
 
-	// Do not consume the task until the scheduled time.
+	// The lower bound may fall beyond the topic if it has no pending tasks.
 	t := r.(*ratus.Task)
+	if t.Topic != topic {
+		return nil, ratus.ErrNotFound
+	}
+
+	// Do not consume the task until the scheduled time.
 	if t.Scheduled != nil && t.Scheduled.After(n) {
 		return nil, ratus.ErrNotFound
 	}
-- 
2.43.0


From e5effedb2e484f30f5f91bdd8e12b57e62a25f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:01 +0000
Subject: [PATCH 02/24] fix: include times before the Unix epoch in memdb queue
 operations

Tasks scheduled before 1970 (including the zero time) were never polled, and
deadlines and consumed times before 1970 were never recovered or expired.
---
 internal/engine/memdb/memdb.go | 5 +++++
 internal/engine/memdb/queue.go | 6 +++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/internal/engine/memdb/memdb.go b/internal/engine/memdb/memdb.go
index e70981e..179ec36 100644
--- a/internal/engine/memdb/memdb.go
+++ b/internal/engine/memdb/memdb.go
@@ -8,6 +8,7 @@ import (
 	"fmt"
 	"io"
 	"io/fs"
+	"math"
 	"os"
 	"sync"
 	"time"
@@ -41,6 +42,10 @@ const (
 	indexCompletedConsumed     = "completed-consumed "
 )
 
+// minTime is the lower bound of all values in a time index, which may contain
+// times before the Unix epoch.
+var minTime = time.UnixMilli(math.MinInt64)
+
 // Config contains configurations for the MemDB storage engine.
 type Config struct {
 	SnapshotPath     string        `arg:"--memdb-snapshot-path,env:MEMDB_SNAPSHOT_PATH" placeholder:"PATH" help:"path to the snapshot file" default:""`
diff --git a/internal/engine/memdb/queue.go b/internal/engine/memdb/queue.go
index f31bc85..9a3c683 100644
--- a/internal/engine/memdb/queue.go
+++ b/internal/engine/memdb/queue.go
@@ -14,7 +14,7 @@ func (g *Engine) Chore(ctx context.Context) error {
 
 	// Recover tasks that have timed out.
 	n := time.Now()
-	it, err := txn.LowerBound(tableTask, indexActiveDeadline, ratus.TaskStateActive, time.UnixMilli(0))
+	it, err := txn.LowerBound(tableTask, indexActiveDeadline, ratus.TaskStateActive, minTime)
 	if err != nil {
 		return err
 	}
@@ -30,7 +30,7 @@ func (g *Engine) Chore(ctx context.Context) error {
 	}
 
 	// Delete completed tasks that have exceeded their retention period.
-	it, err = txn.LowerBound(tableTask, indexCompletedConsumed, ratus.TaskStateCompleted, time.UnixMilli(0))
+	it, err = txn.LowerBound(tableTask, indexCompletedConsumed, ratus.TaskStateCompleted, minTime)
 	if err != nil {
 		return err
 	}
@@ -74,7 +74,7 @@ func (g *Engine) Poll(ctx context.Context, topic string, p *ratus.Promise) (*rat
 
 	// Peek into the topic to get the next candidate task.
 	n := time.Now()
-	it, err := txn.LowerBound(tableTask, indexPendingTopicScheduled, ratus.TaskStatePending, topic, time.UnixMilli(0))
+	it, err := txn.LowerBound(tableTask, indexPendingTopicScheduled, ratus.TaskStatePending, topic, minTime)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 1423acc027dc4fb881ad76ea6bc5a4e6df641b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:03 +0000
Subject: [PATCH 03/24] fix: reject null elements in task lists

A null element in the data of a task list caused a nil pointer dereference.
---
 internal/middleware/task.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/middleware/task.go b/internal/middleware/task.go
index 217a4b8..9185d90 100644
--- a/internal/middleware/task.go
+++ b/internal/middleware/task.go
@@ -77,6 +77,11 @@ func Tasks() gin.HandlerFunc {
 
 func normalizeTask(t *ratus.Task, id, topic string) error {
 
+	// Elements in a task list could be null.
+	if t == nil {
+		return errors.New("task must not be null")
+	}
+
 	// Normalize and validate ID.
 	if t.ID == "" {
 		t.ID = id
-- 
2.43.0


From fc8b245b8091b9e4d491a59b76a234af1660e3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:05 +0000
Subject: [PATCH 04/24] fix: do not panic on metric labels that are not valid
 UTF-8

Topics in paths and consumers in queries may contain arbitrary bytes. Using
them as label values dropped the connection after the state had changed.
---
 internal/controller/promise.go    |  4 ++--
 internal/controller/task.go       | 12 ++++++------
 internal/metrics/metrics.go       |  8 ++++++++
 internal/middleware/prometheus.go |  2 +-
 4 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/internal/controller/promise.go b/internal/controller/promise.go
index 867b680..5e06a1f 100644
--- a/internal/controller/promise.go
+++ b/internal/controller/promise.go
@@ -152,11 +152,11 @@ func (r *PromiseController) collectMetrics(t *ratus.Task) {
 	// Collect task schedule delay.
 	if t != nil && t.Scheduled != nil && t.Consumed != nil {
 		d := t.Consumed.Sub(*t.Scheduled).Seconds()
-		metrics.DelayGauge.WithLabelValues(t.Topic, t.Producer, t.Consumer).Set(d)
+		metrics.DelayGauge.WithLabelValues(metrics.Label(t.Topic), t.Producer, metrics.Label(t.Consumer)).Set(d)
 	}
 
 	// Collect number of tasks consumed.
 	if t != nil {
-		metrics.ConsumedCounter.WithLabelValues(t.Topic, t.Producer, t.Consumer).Add(1)
+		metrics.ConsumedCounter.WithLabelValues(metrics.Label(t.Topic), t.Producer, metrics.Label(t.Consumer)).Add(1)
 	}
 }
diff --git a/internal/controller/task.go b/internal/controller/task.go
index 6cde157..6425bff 100644
--- a/internal/controller/task.go
+++ b/internal/controller/task.go
@@ -57,7 +57,7 @@ func (r *TaskController) PostTasks(c *gin.Context) {
 
 	// Collect number of tasks produced.
 	if v != nil && v.Created > 0 && len(ts.Data) > 0 {
-		metrics.ProducedCounter.WithLabelValues(c.Param(middleware.ParamTopic), ts.Data[0].Producer).Add(float64(v.Created))
+		metrics.ProducedCounter.WithLabelValues(metrics.Label(c.Param(middleware.ParamTopic)), ts.Data[0].Producer).Add(float64(v.Created))
 	}
 }
 
@@ -80,7 +80,7 @@ func (r *TaskController) PutTasks(c *gin.Context) {
 
 	// Collect number of tasks produced.
 	if v != nil && v.Created+v.Updated > 0 && len(ts.Data) > 0 {
-		metrics.ProducedCounter.WithLabelValues(c.Param(middleware.ParamTopic), ts.Data[0].Producer).Add(float64(v.Created + v.Updated))
+		metrics.ProducedCounter.WithLabelValues(metrics.Label(c.Param(middleware.ParamTopic)), ts.Data[0].Producer).Add(float64(v.Created + v.Updated))
 	}
 }
 
@@ -135,7 +135,7 @@ func (r *TaskController) PostTask(c *gin.Context) {
 
 	// Collect number of tasks produced.
 	if v != nil && v.Created > 0 {
-		metrics.ProducedCounter.WithLabelValues(t.Topic, t.Producer).Add(float64(v.Created))
+		metrics.ProducedCounter.WithLabelValues(metrics.Label(t.Topic), t.Producer).Add(float64(v.Created))
 	}
 }
 
@@ -159,7 +159,7 @@ func (r *TaskController) PutTask(c *gin.Context) {
 
 	// Collect number of tasks produced.
 	if v != nil && v.Created+v.Updated > 0 {
-		metrics.ProducedCounter.WithLabelValues(t.Topic, t.Producer).Add(float64(v.Created + v.Updated))
+		metrics.ProducedCounter.WithLabelValues(metrics.Label(t.Topic), t.Producer).Add(float64(v.Created + v.Updated))
 	}
 }
 
@@ -202,11 +202,11 @@ func (r *TaskController) PatchTask(c *gin.Context) {
 	// Collect task execution time.
 	if v != nil && v.Consumed != nil {
 		d := time.Since(*v.Consumed).Seconds()
-		metrics.ExecutionGauge.WithLabelValues(v.Topic, v.Producer, v.Consumer).Set(d)
+		metrics.ExecutionGauge.WithLabelValues(metrics.Label(v.Topic), v.Producer, metrics.Label(v.Consumer)).Set(d)
 	}
 
 	// Collect number of tasks committed.
 	if v != nil {
-		metrics.CommittedCounter.WithLabelValues(v.Topic, v.Producer, v.Consumer).Add(1)
+		metrics.CommittedCounter.WithLabelValues(metrics.Label(v.Topic), v.Producer, metrics.Label(v.Consumer)).Add(1)
 	}
 }
diff --git a/internal/metrics/metrics.go b/internal/metrics/metrics.go
index 3c589f5..65d7d63 100644
--- a/internal/metrics/metrics.go
+++ b/internal/metrics/metrics.go
@@ -2,6 +2,8 @@
 package metrics
 
 import (
+	"strings"
+
 	"github.com/prometheus/client_golang/prometheus"
 	"github.com/prometheus/client_golang/prometheus/promauto"
 )
@@ -61,3 +63,9 @@ var (
 		Help: "Total number of tasks committed",
 	}, []string{labelTopic, labelProducer, labelConsumer})
 )
+
+// Label returns a valid label value for the string. Topics and consumers could
+// be specified in URLs and thus may contain bytes that are not valid UTF-8.
+func Label(s string) string {
+	return strings.ToValidUTF8(s, "\uFFFD")
+}
diff --git a/internal/middleware/prometheus.go b/internal/middleware/prometheus.go
index 1d2eb0a..9c86b23 100644
--- a/internal/middleware/prometheus.go
+++ b/internal/middleware/prometheus.go
@@ -16,6 +16,6 @@ func Prometheus() gin.HandlerFunc {
 		c.Next()
 		d := time.Since(t).Seconds()
 		s := strconv.Itoa(c.Writer.Status())
-		metrics.RequestHistogram.WithLabelValues(c.Param(ParamTopic), c.Request.Method, c.FullPath(), s).Observe(d)
+		metrics.RequestHistogram.WithLabelValues(metrics.Label(c.Param(ParamTopic)), c.Request.Method, c.FullPath(), s).Observe(d)
 	}
 }
-- 
2.43.0


From 9a3ca8e2f7e37bcfbbd9e6662448ff7db9a49b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:32 +0000
Subject: [PATCH 05/24] fix: reject malformed commits and promises

Binding errors were ignored, so a commit with a malformed body completed the
task, and promises with invalid fields were made with the default settings.
---
 internal/middleware/commit.go  |  6 +++++-
 internal/middleware/promise.go | 11 +++++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/internal/middleware/commit.go b/internal/middleware/commit.go
index 77b203b..529b095 100644
--- a/internal/middleware/commit.go
+++ b/internal/middleware/commit.go
@@ -2,6 +2,7 @@ package middleware
 
 import (
 	"fmt"
+	"io"
 	"time"
 
 	"github.com/gin-gonic/gin"
@@ -16,7 +17,10 @@ func Commit() gin.HandlerFunc {
 		// All fields are optional in a commit.
 		// An empty commit sets the state of the task to "completed".
 		var m ratus.Commit
-		c.ShouldBindJSON(&m)
+		if err := c.ShouldBindJSON(&m); err != nil && err != io.EOF {
+			fail(c, fmt.Errorf("%w: %v", ratus.ErrBadRequest, err))
+			return
+		}
 
 		// Validate and normalize the commit.
 		if err := normalizeCommit(&m); err != nil {
diff --git a/internal/middleware/promise.go b/internal/middleware/promise.go
index b1d42ad..891f57f 100644
--- a/internal/middleware/promise.go
+++ b/internal/middleware/promise.go
@@ -3,6 +3,7 @@ package middleware
 import (
 	"errors"
 	"fmt"
+	"io"
 	"time"
 
 	"github.com/gin-gonic/gin"
@@ -17,8 +18,14 @@ func Promise() gin.HandlerFunc {
 		// Promise is a relatively simple data structure that can be submitted
 		// either through the request body or query parameters.
 		var p ratus.Promise
-		c.ShouldBindJSON(&p)
-		c.ShouldBindQuery(&p)
+		if err := c.ShouldBindJSON(&p); err != nil && err != io.EOF {
+			fail(c, fmt.Errorf("%w: %v", ratus.ErrBadRequest, err))
+			return
+		}
+		if err := c.ShouldBindQuery(&p); err != nil {
+			fail(c, fmt.Errorf("%w: %v", ratus.ErrBadRequest, err))
+			return
+		}
 
 		// Validate and normalize the promise.
 		if err := normalizePromise(&p, c.Param(ParamID)); err != nil {
-- 
2.43.0


From ff4183ec40ecb7219ec5d88d0ad4ffe68020c8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:44 +0000
Subject: [PATCH 06/24] fix: do not redirect empty resource names to their
 collections

Deleting a topic with an empty name was redirected to the endpoint that deletes
all topics, and tasks and promises with an empty ID to those of the topic.
---
 internal/router/router.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/router/router.go b/internal/router/router.go
index c44e8e4..ff74b86 100644
--- a/internal/router/router.go
+++ b/internal/router/router.go
@@ -37,6 +37,10 @@ func New(groups ...Group) *gin.Engine {
 	r.UseRawPath = true
 	r.UnescapePathValues = true
 
+	// Do not redirect requests for an empty resource name to the collection,
+	// otherwise deleting an empty topic would delete all topics.
+	r.RedirectTrailingSlash = false
+
 	// Enable logging and profiling if not in release mode.
 	// Recommended to collect logs at load balancer level in production.
 	if gin.Mode() != gin.ReleaseMode {
-- 
2.43.0


From 8ef80921ec2eeb0408f16bfbeabbbf58329a5516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:10 +0000
Subject: [PATCH 07/24] fix: wait for requests in progress before closing the
 storage engine

The server stops accepting connections as soon as the shutdown begins, but the
final snapshot was written and the process exited without waiting for requests
in progress, which were cut off or acknowledged but missing from the snapshot.
---
 cmd/ratus/main.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/ratus/main.go b/cmd/ratus/main.go
index 238073e..cf707ba 100644
--- a/cmd/ratus/main.go
+++ b/cmd/ratus/main.go
@@ -150,7 +150,9 @@ func serve(ctx context.Context, h http.Handler, c *config.ServerConfig) error {
 	// Gracefully shut down the server when an interrupt or SIGTERM signal
 	// is received, or close the server immediately if the context has been
 	// canceled or another goroutine in the error group has return an error.
+	done := make(chan struct{})
 	go func() {
+		defer close(done)
 		select {
 		case <-ch:
 			log.Printf("stop listening on %s\n", a)
@@ -166,6 +168,10 @@ func serve(ctx context.Context, h http.Handler, c *config.ServerConfig) error {
 		return err
 	}
 
+	// ListenAndServe returns as soon as the shutdown begins, wait for requests
+	// in progress to complete before closing the storage engine.
+	<-done
+
 	return nil
 }
 
-- 
2.43.0


From e6eab4bc340bd4a47a51ead9e71cf0ac3a50f7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:11 +0000
Subject: [PATCH 08/24] fix: report failures of closing or renaming snapshot
 files

A snapshot that could not be put in place was reported as saved, leaving the
temporary file behind.
---
 internal/engine/memdb/memdb.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/internal/engine/memdb/memdb.go b/internal/engine/memdb/memdb.go
index 179ec36..b90e62a 100644
--- a/internal/engine/memdb/memdb.go
+++ b/internal/engine/memdb/memdb.go
@@ -250,14 +250,12 @@ func save(db *memdb.MemDB, path string) error {
 		return err
 	}
 
-	// Rename or delete the temporary file before returning.
+	// Delete the temporary file before returning if the operation failed.
 	var ok bool
 	defer func() {
-		f.Close()
 		if !ok {
+			f.Close()
 			os.Remove(p)
-		} else {
-			os.Rename(p, path)
 		}
 	}()
 
@@ -276,6 +274,14 @@ func save(db *memdb.MemDB, path string) error {
 	}
 	txn.Commit()
 
+	// Replace the previous snapshot with the complete temporary file.
+	if err := f.Close(); err != nil {
+		return err
+	}
+	if err := os.Rename(p, path); err != nil {
+		return err
+	}
+
 	// Mark the operation as successful.
 	ok = true
 
-- 
2.43.0


From 6439b5484945377348c9f6b63b2a430f50160075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:28 +0000
Subject: [PATCH 09/24] fix: preserve zero times in memdb snapshots

Tasks explicitly scheduled at the zero time lost their scheduled time when
restored from a snapshot and were never polled again.
---
 internal/engine/memdb/memdb.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/internal/engine/memdb/memdb.go b/internal/engine/memdb/memdb.go
index b90e62a..90004da 100644
--- a/internal/engine/memdb/memdb.go
+++ b/internal/engine/memdb/memdb.go
@@ -240,6 +240,20 @@ func clone[T any](v *T) *T {
 	return &u
 }
 
+// encodable returns a copy of the task for binary encoding. The encoder omits
+// zero values and would thus turn pointers to the zero time into nil pointers,
+// so represent the zero time in a location other than the implicit UTC.
+func encodable(v *ratus.Task) *ratus.Task {
+	u := clone(v)
+	for _, p := range []**time.Time{&u.Produced, &u.Scheduled, &u.Consumed, &u.Deadline} {
+		if *p != nil && (*p).IsZero() {
+			t := (*p).In(time.FixedZone("", 0))
+			*p = &t
+		}
+	}
+	return u
+}
+
 // save writes a snapshot of the database to a file.
 func save(db *memdb.MemDB, path string) error {
 
@@ -268,7 +282,7 @@ func save(db *memdb.MemDB, path string) error {
 		return err
 	}
 	for r := it.Next(); r != nil; r = it.Next() {
-		if err := enc.Encode(r); err != nil {
+		if err := enc.Encode(encodable(r.(*ratus.Task))); err != nil {
 			return err
 		}
 	}
-- 
2.43.0


From e78d5cf1538f575c990d4f6a05aad37cd4200428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:47 +0000
Subject: [PATCH 10/24] fix: escape null characters in memdb index keys

The index keys of names are terminated by a null character, so operations on a
topic or task also affected those whose names start with its name followed by a
null character.
---
 internal/engine/memdb/indexer.go | 42 ++++++++++++++++++++++++++++++++
 internal/engine/memdb/memdb.go   |  8 +++---
 2 files changed, 46 insertions(+), 4 deletions(-)

diff --git a/internal/engine/memdb/indexer.go b/internal/engine/memdb/indexer.go
index 7707432..48973a5 100644
--- a/internal/engine/memdb/indexer.go
+++ b/internal/engine/memdb/indexer.go
@@ -1,14 +1,56 @@
 package memdb
 
 import (
+	"bytes"
 	"encoding/binary"
 	"fmt"
 	"reflect"
 	"time"
 
+	"github.com/hashicorp/go-memdb"
+
 	"github.com/hyperonym/ratus"
 )
 
+// NameFieldIndex encodes string fields for index building. It produces the same
+// keys in the same order as memdb.StringFieldIndex, except that null characters
+// in the string are escaped in order not to be mistaken for the terminator.
+type NameFieldIndex struct {
+	Field string
+}
+
+// FromObject implements the memdb.SingleIndexer interface.
+func (i *NameFieldIndex) FromObject(obj any) (bool, []byte, error) {
+	x := memdb.StringFieldIndex{Field: i.Field}
+	ok, b, err := x.FromObject(obj)
+	if !ok || err != nil {
+		return false, nil, err
+	}
+	return true, i.escape(b), nil
+}
+
+// FromArgs implements the memdb.Indexer interface.
+func (i *NameFieldIndex) FromArgs(args ...any) ([]byte, error) {
+	x := memdb.StringFieldIndex{Field: i.Field}
+	b, err := x.FromArgs(args...)
+	if err != nil {
+		return nil, err
+	}
+	return i.escape(b), nil
+}
+
+func (i *NameFieldIndex) escape(b []byte) []byte {
+	n := len(b) - 1
+	if !bytes.ContainsAny(b[:n], "\x00\x01") {
+		return b
+	}
+
+	// Escape sequences preserve the order and never contain the terminator.
+	s := bytes.ReplaceAll(b[:n], []byte{1}, []byte{1, 2})
+	s = bytes.ReplaceAll(s, []byte{0}, []byte{1, 1})
+	return append(s, 0)
+}
+
 // StateFieldIndex encodes task state fields for index building.
 type StateFieldIndex struct {
 	Field string
diff --git a/internal/engine/memdb/memdb.go b/internal/engine/memdb/memdb.go
index 90004da..d3a62c9 100644
--- a/internal/engine/memdb/memdb.go
+++ b/internal/engine/memdb/memdb.go
@@ -77,13 +77,13 @@ func New(c *Config) (*Engine, error) {
 						Name:         indexID,
 						AllowMissing: false,
 						Unique:       true,
-						Indexer:      &memdb.StringFieldIndex{Field: keyID},
+						Indexer:      &NameFieldIndex{Field: keyID},
 					},
 					indexTopic: {
 						Name:         indexTopic,
 						AllowMissing: false,
 						Unique:       false,
-						Indexer:      &memdb.StringFieldIndex{Field: keyTopic},
+						Indexer:      &NameFieldIndex{Field: keyTopic},
 					},
 					indexPendingTopicScheduled: {
 						Name:         indexPendingTopicScheduled,
@@ -92,7 +92,7 @@ func New(c *Config) (*Engine, error) {
 						Indexer: &memdb.CompoundIndex{
 							Indexes: []memdb.Indexer{
 								&StateFieldIndex{Field: keyState, Filter: ratus.TaskStatePending},
-								&memdb.StringFieldIndex{Field: keyTopic},
+								&NameFieldIndex{Field: keyTopic},
 								&TimeFieldIndex{Field: keyScheduled},
 							},
 						},
@@ -115,7 +115,7 @@ func New(c *Config) (*Engine, error) {
 						Indexer: &memdb.CompoundIndex{
 							Indexes: []memdb.Indexer{
 								&StateFieldIndex{Field: keyState, Filter: ratus.TaskStateActive},
-								&memdb.StringFieldIndex{Field: keyTopic},
+								&NameFieldIndex{Field: keyTopic},
 							},
 						},
 					},
-- 
2.43.0


From a6957132c2642243e0485563f701b9277e7aed2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:59 +0000
Subject: [PATCH 11/24] fix: accept empty task lists in the mongodb engine

Empty task lists are valid, but the driver returns an error for empty bulk
writes.
---
 internal/engine/mongodb/task.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/internal/engine/mongodb/task.go b/internal/engine/mongodb/task.go
index cb4d598..197b3d2 100644
--- a/internal/engine/mongodb/task.go
+++ b/internal/engine/mongodb/task.go
@@ -27,6 +27,12 @@ func (g *Engine) ListTasks(ctx context.Context, topic string, limit, offset int)
 
 // InsertTasks inserts a batch of tasks while ignoring existing ones.
 func (g *Engine) InsertTasks(ctx context.Context, ts []*ratus.Task) (*ratus.Updated, error) {
+
+	// Bulk writes must contain at least one operation.
+	if len(ts) == 0 {
+		return &ratus.Updated{}, nil
+	}
+
 	w := make([]mongo.WriteModel, len(ts))
 	for i, t := range ts {
 		m := mongo.NewInsertOneModel()
@@ -51,6 +57,12 @@ func (g *Engine) InsertTasks(ctx context.Context, ts []*ratus.Task) (*ratus.Upda
 
 // UpsertTasks inserts or updates a batch of tasks.
 func (g *Engine) UpsertTasks(ctx context.Context, ts []*ratus.Task) (*ratus.Updated, error) {
+
+	// Bulk writes must contain at least one operation.
+	if len(ts) == 0 {
+		return &ratus.Updated{}, nil
+	}
+
 	return branch(func() (*ratus.Updated, error) {
 		return g.upsertTasksReplace(ctx, ts)
 	}, func() (*ratus.Updated, error) {
-- 
2.43.0


From 223fdd7f15b0fe90b9b6a82f1a173be358253d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:17 +0000
Subject: [PATCH 12/24] fix: report write errors other than duplicate keys in
 task batches

A duplicate key in a batch of tasks masked failures of inserting other tasks in
the same batch, which were then acknowledged without being stored.
---
 internal/engine/mongodb/task.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/internal/engine/mongodb/task.go b/internal/engine/mongodb/task.go
index 197b3d2..eb30f0c 100644
--- a/internal/engine/mongodb/task.go
+++ b/internal/engine/mongodb/task.go
@@ -45,7 +45,7 @@ func (g *Engine) InsertTasks(ctx context.Context, ts []*ratus.Task) (*ratus.Upda
 	// MongoDB will continue to process remaining write operations in the list.
 	o := options.BulkWrite().SetOrdered(false)
 	r, err := g.collection.BulkWrite(ctx, w, o)
-	if err != nil && !mongo.IsDuplicateKeyError(err) {
+	if err != nil && !isDuplicateKeyOnly(err) {
 		return nil, err
 	}
 
@@ -55,6 +55,21 @@ func (g *Engine) InsertTasks(ctx context.Context, ts []*ratus.Task) (*ratus.Upda
 	}, nil
 }
 
+// isDuplicateKeyOnly returns whether the error of a bulk write was caused by
+// duplicate keys only. Other errors in the same bulk write must be reported.
+func isDuplicateKeyOnly(err error) bool {
+	e, ok := err.(mongo.BulkWriteException)
+	if !ok || e.WriteConcernError != nil {
+		return false
+	}
+	for _, w := range e.WriteErrors {
+		if !mongo.IsDuplicateKeyError(w.WriteError) {
+			return false
+		}
+	}
+	return true
+}
+
 // UpsertTasks inserts or updates a batch of tasks.
 func (g *Engine) UpsertTasks(ctx context.Context, ts []*ratus.Task) (*ratus.Updated, error) {
 
-- 
2.43.0


From 9d4236eef30bcd68ae05efff0d8a683da82a3f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:29 +0000
Subject: [PATCH 13/24] fix: preserve empty lists in payloads of memdb
 snapshots

---
 internal/engine/memdb/memdb.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/internal/engine/memdb/memdb.go b/internal/engine/memdb/memdb.go
index d3a62c9..6c7c92d 100644
--- a/internal/engine/memdb/memdb.go
+++ b/internal/engine/memdb/memdb.go
@@ -254,6 +254,25 @@ func encodable(v *ratus.Task) *ratus.Task {
 	return u
 }
 
+// restore returns the decoded payload with its empty lists reinstated, as the
+// decoder turns lists without elements into nil slices.
+func restore(v any) any {
+	switch u := v.(type) {
+	case []any:
+		if u == nil {
+			return []any{}
+		}
+		for i := range u {
+			u[i] = restore(u[i])
+		}
+	case map[string]any:
+		for k := range u {
+			u[k] = restore(u[k])
+		}
+	}
+	return v
+}
+
 // save writes a snapshot of the database to a file.
 func save(db *memdb.MemDB, path string) error {
 
@@ -327,6 +346,7 @@ func load(db *memdb.MemDB, path string) error {
 			}
 			return err
 		}
+		t.Payload = restore(t.Payload)
 		if err := txn.Insert(tableTask, &t); err != nil {
 			return err
 		}
-- 
2.43.0


From a05236bddbaa1a4fe6492b4bfee9dd4cda22e18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:37 +0000
Subject: [PATCH 14/24] fix: separate error messages from the text of the error
 they wrap

---
 ratus.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ratus.go b/ratus.go
index 66b82d6..9998c06 100644
--- a/ratus.go
+++ b/ratus.go
@@ -291,11 +291,14 @@ func (e *Error) Err() error {
 
 	// Remove duplicated prefix caused by wrapping.
 	m := strings.TrimPrefix(e.Error.Message, err.Error())
-	if m != "" {
-		err = fmt.Errorf("%w%s", err, m)
+	switch m {
+	case "":
+		return err
+	case e.Error.Message:
+		return fmt.Errorf("%w: %s", err, m)
+	default:
+		return fmt.Errorf("%w%s", err, m)
 	}
-
-	return err
 }
 
 // NewError creates an error message from an error type.
-- 
2.43.0


From 24ebf71af450692e029ff0c2f460c33060ff1e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:47 +0000
Subject: [PATCH 15/24] fix: document the conflict response of polling requests
 with a task ID

---
 docs/openapi.json              | 10 ++++++++++
 docs/openapi.yaml              |  6 ++++++
 docs/swagger.json              |  6 ++++++
 docs/swagger.yaml              |  4 ++++
 internal/controller/promise.go |  1 +
 5 files changed, 27 insertions(+)

diff --git a/docs/openapi.json b/docs/openapi.json
index 19a69f2..a47e4fa 100644
--- a/docs/openapi.json
+++ b/docs/openapi.json
@@ -394,6 +394,16 @@
                             }
                         }
                     },
+                    "409": {
+                        "description": "Conflict",
+                        "content": {
+                            "application/json": {
+                                "schema": {
+                                    "$ref": "#/components/schemas/ratus.Error"
+                                }
+                            }
+                        }
+                    },
                     "500": {
                         "description": "Internal Server Error",
                         "content": {
diff --git a/docs/openapi.yaml b/docs/openapi.yaml
index 7ac0ddf..38ec04d 100644
--- a/docs/openapi.yaml
+++ b/docs/openapi.yaml
@@ -239,6 +239,12 @@ paths:
             application/json:
               schema:
                 $ref: '#/components/schemas/ratus.Error'
+        "409":
+          description: Conflict
+          content:
+            application/json:
+              schema:
+                $ref: '#/components/schemas/ratus.Error'
         "500":
           description: Internal Server Error
           content:
diff --git a/docs/swagger.json b/docs/swagger.json
index 471f1cd..707d89c 100644
--- a/docs/swagger.json
+++ b/docs/swagger.json
@@ -304,6 +304,12 @@
                             "$ref": "#/definitions/ratus.Error"
                         }
                     },
+                    "409": {
+                        "description": "Conflict",
+                        "schema": {
+                            "$ref": "#/definitions/ratus.Error"
+                        }
+                    },
                     "500": {
                         "description": "Internal Server Error",
                         "schema": {
diff --git a/docs/swagger.yaml b/docs/swagger.yaml
index 2f76a54..de5dc6c 100644
--- a/docs/swagger.yaml
+++ b/docs/swagger.yaml
@@ -424,6 +424,10 @@ paths:
           description: Not Found
           schema:
             $ref: '#/definitions/ratus.Error'
+        "409":
+          description: Conflict
+          schema:
+            $ref: '#/definitions/ratus.Error'
         "500":
           description: Internal Server Error
           schema:
diff --git a/internal/controller/promise.go b/internal/controller/promise.go
index 5e06a1f..fdae8f6 100644
--- a/internal/controller/promise.go
+++ b/internal/controller/promise.go
@@ -48,6 +48,7 @@ func (r *PromiseController) GetPromises(c *gin.Context) {
 // @success  200 {object} ratus.Task
 // @failure  400 {object} ratus.Error
 // @failure  404 {object} ratus.Error
+// @failure  409 {object} ratus.Error
 // @failure  500 {object} ratus.Error
 func (r *PromiseController) PostPromises(c *gin.Context) {
 	p := c.MustGet(middleware.ParamPromise).(*ratus.Promise)
-- 
2.43.0


From 9a3c41078e0d679bd1dd3afdb61ffca80f894bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:41 +0000
Subject: [PATCH 16/24] fix: do not replace headers that are set with
 configured ones in another case

---
 transport.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transport.go b/transport.go
index 607611c..6de7d0a 100644
--- a/transport.go
+++ b/transport.go
@@ -55,7 +55,7 @@ func (t *transport) RoundTrip(r *http.Request) (*http.Response, error) {
 
 	// Set common header fields.
 	for k, v := range t.headers {
-		if _, ok := r.Header[k]; !ok {
+		if _, ok := r.Header[http.CanonicalHeaderKey(k)]; !ok {
 			r.Header.Set(k, v)
 		}
 	}
-- 
2.43.0


From 7c1b6db181318671cb3312f64bede82b280ab2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:53 +0000
Subject: [PATCH 17/24] fix: pass not-found errors of commits to the handler of
 a subscription

---
 client.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/client.go b/client.go
index 5ccea86..4f61dd0 100644
--- a/client.go
+++ b/client.go
@@ -139,6 +139,13 @@ func (c *Client) Subscribe(ctx context.Context, o *SubscribeOptions, f Subscribe
 					return ctx.Err()
 				case <-r.C:
 					x, err := c.Poll(ctx, o.Topic, p)
+
+					// The topic has been emptied or no task has reached its
+					// scheduled time of execution, then poll again later.
+					if errors.Is(err, ErrNotFound) {
+						r.Reset(dd)
+						break
+					}
 					if err != nil {
 						ec <- err
 						break
@@ -156,13 +163,6 @@ func (c *Client) Subscribe(ctx context.Context, o *SubscribeOptions, f Subscribe
 					r.Reset(o.PollInterval)
 				case err := <-ec:
 
-					// The topic has been emptied or no task has reached its
-					// scheduled time of execution, then poll again later.
-					if errors.Is(err, ErrNotFound) {
-						r.Reset(dd)
-						break
-					}
-
 					// Handle unexpected errors.
 					if ctx.Err() == nil {
 						f(nil, err)
-- 
2.43.0


From 35081781fb46f385d75e79546f6561d57ba702eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:30 +0000
Subject: [PATCH 18/24] fix: do not run background jobs twice after the initial
 delay

---
 cmd/ratus/main.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmd/ratus/main.go b/cmd/ratus/main.go
index cf707ba..e64b3b6 100644
--- a/cmd/ratus/main.go
+++ b/cmd/ratus/main.go
@@ -195,10 +195,10 @@ func chore(ctx context.Context, g engine.Engine, c *config.ChoreConfig) error {
 	ch := make(chan os.Signal, 1)
 	signal.Notify(ch, os.Interrupt, syscall.SIGTERM)
 
-	// Start ticker for background jobs. The ticker will adjust the time
-	// interval or drop ticks to make up for slow receivers.
+	// Start timer for background jobs. The timer is reset before each run, so
+	// the next run follows immediately if a run takes longer than the interval.
 	var n bool
-	r := time.NewTicker(d)
+	r := time.NewTimer(d)
 	for {
 		select {
 		case <-ch:
@@ -211,10 +211,10 @@ func chore(ctx context.Context, g engine.Engine, c *config.ChoreConfig) error {
 		case <-r.C:
 
 			// Reset the timer to use the normal interval after the initial delay.
+			r.Reset(c.Interval)
 			if !n {
 				log.Println("start running background jobs")
 				n = true
-				r.Reset(c.Interval)
 			}
 
 			// Run background jobs and collect the elapsed time.
-- 
2.43.0


From ad252ac4de4fd61f4d743e5213ac238855ae831b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:45 +0000
Subject: [PATCH 19/24] fix: store empty payloads and zero times of tasks in
 the mongodb engine

---
 ratus.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ratus.go b/ratus.go
index 9998c06..eab0a94 100644
--- a/ratus.go
+++ b/ratus.go
@@ -116,25 +116,25 @@ type Task struct {
 	// The time the task was created.
 	// Timestamps are generated by the instance running Ratus, remember to
 	// perform clock synchronization before running multiple instances.
-	Produced *time.Time `json:"produced,omitempty" bson:"produced,omitempty"`
+	Produced *time.Time `json:"produced,omitempty" bson:"produced"`
 	// The time the task is scheduled to be executed. Tasks will not be
 	// executed until the scheduled time arrives. After the scheduled time,
 	// excessive tasks will be executed in the order of the scheduled time.
-	Scheduled *time.Time `json:"scheduled,omitempty" bson:"scheduled,omitempty"`
+	Scheduled *time.Time `json:"scheduled,omitempty" bson:"scheduled"`
 	// The time the task was claimed by a consumer.
 	// Not to confuse this with the time of commit, which is not recorded.
-	Consumed *time.Time `json:"consumed,omitempty" bson:"consumed,omitempty"`
+	Consumed *time.Time `json:"consumed,omitempty" bson:"consumed"`
 	// The deadline for the completion of execution promised by the consumer.
 	// Consumer code needs to commit the task before this deadline, otherwise
 	// the task is determined to have timed out and will be reset to the
 	// "pending" state, allowing other consumers to retry.
-	Deadline *time.Time `json:"deadline,omitempty" bson:"deadline,omitempty"`
+	Deadline *time.Time `json:"deadline,omitempty" bson:"deadline"`
 
 	// A minimal descriptor of the task to be executed.
 	// It is not recommended to rely on Ratus as the main storage of tasks.
 	// Instead, consider storing the complete task record in a database, and
 	// use a minimal descriptor as the payload to reference the task.
-	Payload any `json:"payload,omitempty" bson:"payload,omitempty"`
+	Payload any `json:"payload,omitempty" bson:"payload"`
 
 	// A duration relative to the time the task is accepted, indicating that
 	// the task will be scheduled to execute after this duration. When the
-- 
2.43.0


From 0b2e1e3577b264ad5ce4ffb6cc7234b2040cc295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:02 +0000
Subject: [PATCH 20/24] fix: report failures of looking up tasks after refused
 claims and commits

---
 internal/engine/mongodb/mongodb.go | 11 ++++++++---
 internal/engine/mongodb/promise.go |  5 ++++-
 internal/engine/mongodb/queue.go   | 12 ++++++++----
 3 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/internal/engine/mongodb/mongodb.go b/internal/engine/mongodb/mongodb.go
index f6a2ba1..b94474d 100644
--- a/internal/engine/mongodb/mongodb.go
+++ b/internal/engine/mongodb/mongodb.go
@@ -265,9 +265,14 @@ func (g *Engine) peek(ctx context.Context, filter, sort any, hint string) (*ratu
 }
 
 // exists returns whether a document that matches the filter criteria exists.
-func (g *Engine) exists(ctx context.Context, filter any, hint string) bool {
-	_, err := g.peek(ctx, filter, nil, hint)
-	return err == nil
+func (g *Engine) exists(ctx context.Context, filter any, hint string) (bool, error) {
+	if _, err := g.peek(ctx, filter, nil, hint); err != nil {
+		if err == mongo.ErrNoDocuments {
+			err = nil
+		}
+		return false, err
+	}
+	return true, nil
 }
 
 // queryOpsPoll returns a document containing query operators to peek into the
diff --git a/internal/engine/mongodb/promise.go b/internal/engine/mongodb/promise.go
index ab3070d..efda2a0 100644
--- a/internal/engine/mongodb/promise.go
+++ b/internal/engine/mongodb/promise.go
@@ -100,7 +100,10 @@ func (g *Engine) insertPromiseAtomic(ctx context.Context, p *ratus.Promise) (*ra
 		// Check if the failure is due to a mismatch of state or the target
 		// task does not exist.
 		if err == mongo.ErrNoDocuments {
-			if g.exists(ctx, bson.D{{Key: keyID, Value: p.ID}}, indexID) {
+			ok, e := g.exists(ctx, bson.D{{Key: keyID, Value: p.ID}}, indexID)
+			if e != nil {
+				err = e
+			} else if ok {
 				err = ratus.ErrConflict
 			} else {
 				err = ratus.ErrNotFound
diff --git a/internal/engine/mongodb/queue.go b/internal/engine/mongodb/queue.go
index f3cb35a..4bb21f3 100644
--- a/internal/engine/mongodb/queue.go
+++ b/internal/engine/mongodb/queue.go
@@ -130,10 +130,14 @@ func (g *Engine) commitAtomic(ctx context.Context, id string, m *ratus.Commit) (
 		// Check if the failure is due to a mismatch of nonce or the target
 		// task does not exist.
 		if err == mongo.ErrNoDocuments {
-			if m.Nonce != "" && g.exists(ctx, bson.D{{Key: keyID, Value: id}}, indexID) {
-				err = ratus.ErrConflict
-			} else {
-				err = ratus.ErrNotFound
+			err = ratus.ErrNotFound
+			if m.Nonce != "" {
+				ok, e := g.exists(ctx, bson.D{{Key: keyID, Value: id}}, indexID)
+				if e != nil {
+					err = e
+				} else if ok {
+					err = ratus.ErrConflict
+				}
 			}
 		}
 		return nil, err
-- 
2.43.0


From d19b66b93aa4ff3118823622919e660b6a3b2517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:34 +0000
Subject: [PATCH 21/24] fix: count replacements by equal tasks as updates in
 the mongodb engine

---
 internal/engine/mongodb/task.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/engine/mongodb/task.go b/internal/engine/mongodb/task.go
index eb30f0c..100c8e3 100644
--- a/internal/engine/mongodb/task.go
+++ b/internal/engine/mongodb/task.go
@@ -108,7 +108,7 @@ func (g *Engine) upsertTasksReplace(ctx context.Context, ts []*ratus.Task) (*rat
 
 	return &ratus.Updated{
 		Created: r.InsertedCount + r.UpsertedCount,
-		Updated: r.ModifiedCount,
+		Updated: r.MatchedCount,
 	}, nil
 }
 
@@ -212,7 +212,7 @@ func (g *Engine) upsertTaskReplace(ctx context.Context, t *ratus.Task) (*ratus.U
 
 	return &ratus.Updated{
 		Created: r.UpsertedCount,
-		Updated: r.ModifiedCount,
+		Updated: r.MatchedCount,
 	}, nil
 }
 
-- 
2.43.0


From aeaef2e4816398a12e5b3a470b76f351efa84f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:58 +0000
Subject: [PATCH 22/24] fix: do not miss termination signals that arrive while
 starting

---
 cmd/ratus/main.go | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/cmd/ratus/main.go b/cmd/ratus/main.go
index e64b3b6..1ba3154 100644
--- a/cmd/ratus/main.go
+++ b/cmd/ratus/main.go
@@ -116,19 +116,30 @@ func run() error {
 		Metrics:    controller.NewMetricsController(g),
 	}, &docs.Swagger{})
 
+	// Listen for termination signals before starting anything, otherwise the
+	// API server or the background jobs may miss a signal that arrives early.
+	sch, cch := notify(), notify()
+
 	// Start API server and background jobs.
 	e, ctx := errgroup.WithContext(ctx)
 	e.Go(func() error {
-		return serve(ctx, r.Handler(), &a.ServerConfig)
+		return serve(ctx, sch, r.Handler(), &a.ServerConfig)
 	})
 	e.Go(func() error {
-		return chore(ctx, g, &a.ChoreConfig)
+		return chore(ctx, cch, g, &a.ChoreConfig)
 	})
 
 	return e.Wait()
 }
 
-func serve(ctx context.Context, h http.Handler, c *config.ServerConfig) error {
+// notify returns a channel that receives termination signals.
+func notify() <-chan os.Signal {
+	ch := make(chan os.Signal, 1)
+	signal.Notify(ch, os.Interrupt, syscall.SIGTERM)
+	return ch
+}
+
+func serve(ctx context.Context, ch <-chan os.Signal, h http.Handler, c *config.ServerConfig) error {
 
 	// A port number of zero will not start the API server.
 	// This allows the instance to be responsible for running background jobs only.
@@ -143,10 +154,6 @@ func serve(ctx context.Context, h http.Handler, c *config.ServerConfig) error {
 		Handler: h,
 	}
 
-	// Listen for termination signals.
-	ch := make(chan os.Signal, 1)
-	signal.Notify(ch, os.Interrupt, syscall.SIGTERM)
-
 	// Gracefully shut down the server when an interrupt or SIGTERM signal
 	// is received, or close the server immediately if the context has been
 	// canceled or another goroutine in the error group has return an error.
@@ -175,7 +182,7 @@ func serve(ctx context.Context, h http.Handler, c *config.ServerConfig) error {
 	return nil
 }
 
-func chore(ctx context.Context, g engine.Engine, c *config.ChoreConfig) error {
+func chore(ctx context.Context, ch <-chan os.Signal, g engine.Engine, c *config.ChoreConfig) error {
 
 	// An interval of zero will not start the background jobs.
 	// This allows the instance to be responsible for handling requests only.
@@ -191,10 +198,6 @@ func chore(ctx context.Context, g engine.Engine, c *config.ChoreConfig) error {
 	}
 	d := time.Duration(c.InitialDelay.Seconds()*m*float64(time.Second) + 1)
 
-	// Listen for termination signals.
-	ch := make(chan os.Signal, 1)
-	signal.Notify(ch, os.Interrupt, syscall.SIGTERM)
-
 	// Start timer for background jobs. The timer is reset before each run, so
 	// the next run follows immediately if a run takes longer than the interval.
 	var n bool
-- 
2.43.0


From 3f046ab322569b46c8317005e0e27937418cad01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:21 +0000
Subject: [PATCH 23/24] fix: do not overflow when listing with very large
 limits in the memdb engine

---
 internal/engine/memdb/promise.go | 2 +-
 internal/engine/memdb/task.go    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/engine/memdb/promise.go b/internal/engine/memdb/promise.go
index 3f52157..084ca43 100644
--- a/internal/engine/memdb/promise.go
+++ b/internal/engine/memdb/promise.go
@@ -18,7 +18,7 @@ func (g *Engine) ListPromises(ctx context.Context, topic string, limit, offset i
 		return nil, err
 	}
 	v := make([]*ratus.Promise, 0)
-	for i, r := 0, it.Next(); i < offset+limit && r != nil; i, r = i+1, it.Next() {
+	for i, r := 0, it.Next(); len(v) < limit && r != nil; i, r = i+1, it.Next() {
 		if i < offset {
 			continue
 		}
diff --git a/internal/engine/memdb/task.go b/internal/engine/memdb/task.go
index 8ce9373..6cda520 100644
--- a/internal/engine/memdb/task.go
+++ b/internal/engine/memdb/task.go
@@ -17,7 +17,7 @@ func (g *Engine) ListTasks(ctx context.Context, topic string, limit, offset int)
 		return nil, err
 	}
 	v := make([]*ratus.Task, 0)
-	for i, r := 0, it.Next(); i < offset+limit && r != nil; i, r = i+1, it.Next() {
+	for i, r := 0, it.Next(); len(v) < limit && r != nil; i, r = i+1, it.Next() {
 		if i < offset {
 			continue
 		}
-- 
2.43.0


From ed8b2ed3bfef44595cf07a721421edb93571d255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:21 +0000
Subject: [PATCH 24/24] fix: list nothing when the limit is zero in the mongodb
 engine

---
 internal/engine/mongodb/promise.go | 6 ++++++
 internal/engine/mongodb/task.go    | 6 ++++++
 internal/engine/mongodb/topic.go   | 5 +++++
 3 files changed, 17 insertions(+)

diff --git a/internal/engine/mongodb/promise.go b/internal/engine/mongodb/promise.go
index efda2a0..55b05f3 100644
--- a/internal/engine/mongodb/promise.go
+++ b/internal/engine/mongodb/promise.go
@@ -13,6 +13,12 @@ import (
 
 // ListPromises lists all promises in a topic.
 func (g *Engine) ListPromises(ctx context.Context, topic string, limit, offset int) ([]*ratus.Promise, error) {
+
+	// MongoDB interprets a limit of zero as no limit, or rejects it.
+	if limit <= 0 {
+		return make([]*ratus.Promise, 0), nil
+	}
+
 	f := bson.D{
 		{Key: keyState, Value: ratus.TaskStateActive},
 		{Key: keyTopic, Value: topic},
diff --git a/internal/engine/mongodb/task.go b/internal/engine/mongodb/task.go
index 100c8e3..5772877 100644
--- a/internal/engine/mongodb/task.go
+++ b/internal/engine/mongodb/task.go
@@ -12,6 +12,12 @@ import (
 
 // ListTasks lists all tasks in a topic.
 func (g *Engine) ListTasks(ctx context.Context, topic string, limit, offset int) ([]*ratus.Task, error) {
+
+	// MongoDB interprets a limit of zero as no limit, or rejects it.
+	if limit <= 0 {
+		return make([]*ratus.Task, 0), nil
+	}
+
 	f := bson.D{{Key: keyTopic, Value: topic}}
 	o := options.Find().SetLimit(int64(limit)).SetSkip(int64(offset)).SetHint(indexTopic)
 	r, err := g.collection.Find(ctx, f, o)
diff --git a/internal/engine/mongodb/topic.go b/internal/engine/mongodb/topic.go
index 6b5e84e..2df960b 100644
--- a/internal/engine/mongodb/topic.go
+++ b/internal/engine/mongodb/topic.go
@@ -13,6 +13,11 @@ import (
 // ListTopics lists all topics.
 func (g *Engine) ListTopics(ctx context.Context, limit, offset int) ([]*ratus.Topic, error) {
 
+	// MongoDB interprets a limit of zero as no limit, or rejects it.
+	if limit <= 0 {
+		return make([]*ratus.Topic, 0), nil
+	}
+
 	// Use aggregation rather than the distinct command to support pagination.
 	// This pipeline can use a DISTINCT_SCAN index plan that returns one
 	// document per index key value.
-- 
2.43.0

