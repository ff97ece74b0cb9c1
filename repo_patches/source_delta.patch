From f7c3672545ce7f9b89b784482b0d3f6b867c7189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:52 +0000
Subject: [PATCH 01/70] fix: count dropped async log messages atomically

Write may be called by several goroutines; the default drop handler
incremented its counter without synchronisation.
---
 countlog/output/async/async.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/countlog/output/async/async.go b/countlog/output/async/async.go
index 7a30e2a..931a296 100644
--- a/countlog/output/async/async.go
+++ b/countlog/output/async/async.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"fmt"
 	"io"
+	"sync/atomic"
 	"time"
 
 	"github.com/v2pro/plz/concurrent"
@@ -40,11 +41,11 @@ func NewAsyncWriter(cfg AsyncWriterConfig) ClosableWriter {
 	}
 	onMessageDropped := cfg.OnMessageDropped
 	if onMessageDropped == nil {
-		droppedCount := 0
+		droppedCount := uint64(0)
 		onMessageDropped = func(msg []byte) {
-			droppedCount++
-			if droppedCount%1000 == 1 {
-				loglog.Error(fmt.Errorf("countlog async writer congestion, dropped %v messages so far", droppedCount))
+			dropped := atomic.AddUint64(&droppedCount, 1)
+			if dropped%1000 == 1 {
+				loglog.Error(fmt.Errorf("countlog async writer congestion, dropped %v messages so far", dropped))
 			}
 		}
 	}
-- 
2.43.0


From d3b3c649afd8afc998b56c37a042710de994bd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:26 +0000
Subject: [PATCH 02/70] fix: keep the outer goroutine local storage when
 wrapped functions are nested

A function wrapped by WithGls or WithEmptyGls that runs in a goroutine with
storage of its own deleted that storage when it ended.
---
 gls/gls.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/gls/gls.go b/gls/gls.go
index a8613ec..8539837 100644
--- a/gls/gls.go
+++ b/gls/gls.go
@@ -38,6 +38,16 @@ func DeleteGls(goid int64) {
 	lock.Unlock()
 }
 
+// restoreGls puts back the storage the goroutine had before a wrapped function,
+// nil if it had none
+func restoreGls(goid int64, outerGls map[interface{}]interface{}) {
+	if outerGls == nil {
+		DeleteGls(goid)
+		return
+	}
+	ResetGls(goid, outerGls)
+}
+
 func GetGls(goid int64) map[interface{}]interface{} {
 	shardIndex := goid % shardsCount
 	lock := globalLocks[shardIndex]
@@ -66,8 +76,8 @@ func WithGls(f func()) func() {
 	}
 	return func() {
 		goid := GoID()
+		defer restoreGls(goid, GetGls(goid))
 		ResetGls(goid, childGls)
-		defer DeleteGls(goid)
 		f()
 	}
 }
@@ -76,8 +86,8 @@ func WithEmptyGls(f func()) func() {
 	// do not inherit from parent gls
 	return func() {
 		goid := GoID()
+		defer restoreGls(goid, GetGls(goid))
 		ResetGls(goid, make(map[interface{}]interface{}))
-		defer DeleteGls(goid)
 		f()
 	}
 }
-- 
2.43.0


From cd877147c818b0163a3b71b23e529d520295b53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:26 +0000
Subject: [PATCH 03/70] fix: give every run of a function wrapped by WithGls
 its own storage

All runs shared the map made when the function was wrapped: runs saw each
other's values, and concurrent runs raced.
---
 gls/gls.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/gls/gls.go b/gls/gls.go
index 8539837..a3a429b 100644
--- a/gls/gls.go
+++ b/gls/gls.go
@@ -65,6 +65,17 @@ func WithGls(f func()) func() {
 	parentGls := GetGls(GoID())
 	// parentGls can not be used in other goroutine, otherwise not thread safe
 	// make a deep for child goroutine
+	childGls := copyGls(parentGls)
+	return func() {
+		goid := GoID()
+		defer restoreGls(goid, GetGls(goid))
+		// the wrapped function may be run more than once, even concurrently
+		ResetGls(goid, copyGls(childGls))
+		f()
+	}
+}
+
+func copyGls(parentGls map[interface{}]interface{}) map[interface{}]interface{} {
 	childGls := map[interface{}]interface{}{}
 	for k, v := range parentGls {
 		asCopiable, ok := v.(copiable)
@@ -74,12 +85,7 @@ func WithGls(f func()) func() {
 			childGls[k] = v
 		}
 	}
-	return func() {
-		goid := GoID()
-		defer restoreGls(goid, GetGls(goid))
-		ResetGls(goid, childGls)
-		f()
-	}
+	return childGls
 }
 
 func WithEmptyGls(f func()) func() {
-- 
2.43.0


From 446006c9766c65c8d5bf7807216f103201ec72aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:00 +0000
Subject: [PATCH 04/70] fix: export the statistics every second instead of once

The export timer fired a single time, so nothing counted after the first
second was ever exported.
---
 countlog/stats/window.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/countlog/stats/window.go b/countlog/stats/window.go
index e1b43b9..ad588b3 100644
--- a/countlog/stats/window.go
+++ b/countlog/stats/window.go
@@ -44,6 +44,7 @@ func (window *Window) exportEverySecond(ctx context.Context) {
 		select {
 		case <-timer.C:
 			window.Export(time.Now())
+			timer.Reset(time.Second)
 		case <-ctx.Done():
 			return
 		}
-- 
2.43.0


From dce8243923ca51d9de47e3fbc2846d5dd7faf4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:00 +0000
Subject: [PATCH 05/70] fix: name the event in exported statistics

Point.Event was always empty, the points of different events could not be
told apart.
---
 countlog/stats/stats.go  | 2 +-
 countlog/stats/window.go | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/countlog/stats/stats.go b/countlog/stats/stats.go
index f357b30..a86e35a 100644
--- a/countlog/stats/stats.go
+++ b/countlog/stats/stats.go
@@ -44,7 +44,7 @@ func (aggregator *EventAggregator) createHandler(agg string, site *spi.LogSite)
 		return &spi.DummyEventHandler{Site: site}
 	}
 	extractor, dimensionElemCount := newDimensionExtractor(site)
-	window := newWindow(aggregator.executor, aggregator.collector, dimensionElemCount)
+	window := newWindow(aggregator.executor, aggregator.collector, site.Event, dimensionElemCount)
 	switch agg {
 	case "counter":
 		return &countEvent{
diff --git a/countlog/stats/window.go b/countlog/stats/window.go
index ad588b3..9c54cca 100644
--- a/countlog/stats/window.go
+++ b/countlog/stats/window.go
@@ -23,8 +23,9 @@ type windowShard struct {
 	lock *sync.Mutex
 }
 
-func newWindow(executor Executor, collector Collector, dimensionElemCount int) *Window {
+func newWindow(executor Executor, collector Collector, event string, dimensionElemCount int) *Window {
 	window := &Window{
+		event:              event,
 		collector:          collector,
 		dimensionElemCount: dimensionElemCount,
 	}
-- 
2.43.0


From 0db1a4d94eee7e36559b9b07ddd71893bd1bf9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:19 +0000
Subject: [PATCH 06/70] fix: release the statistics lock when an event can not
 be counted

A property of unexpected type made Handle panic with the shard locked, which
blocked every later event and export of that shard for ever.
---
 countlog/stats/counter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/countlog/stats/counter.go b/countlog/stats/counter.go
index 9da8dc3..a2de0a5 100644
--- a/countlog/stats/counter.go
+++ b/countlog/stats/counter.go
@@ -11,9 +11,9 @@ type countEvent struct {
 func (state *countEvent) Handle(event *spi.Event) {
 	lock, dimensions := state.Window.Mutate()
 	lock.Lock()
+	defer lock.Unlock()
 	counter := state.extractor.Extract(event, dimensions, NewCounterMonoid)
 	*(counter.(*CounterMonoid)) += CounterMonoid(1)
-	lock.Unlock()
 }
 
 func (state *countEvent) GetWindow() *Window {
-- 
2.43.0


From ababdc7f418521c2c93a7ee08a51a736ca172ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:19 +0000
Subject: [PATCH 07/70] fix: do not start an exporter for an unknown
 aggregation

Every call site with an aggregation other than counter, every xxxCall among
them, left a goroutine behind that exported an empty window for ever.
---
 countlog/stats/stats.go | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/countlog/stats/stats.go b/countlog/stats/stats.go
index a86e35a..6036ca9 100644
--- a/countlog/stats/stats.go
+++ b/countlog/stats/stats.go
@@ -43,17 +43,15 @@ func (aggregator *EventAggregator) createHandler(agg string, site *spi.LogSite)
 		// disable aggregation if collector not set
 		return &spi.DummyEventHandler{Site: site}
 	}
+	if agg != "counter" {
+		// TODO: log unknown agg
+		return nil
+	}
 	extractor, dimensionElemCount := newDimensionExtractor(site)
 	window := newWindow(aggregator.executor, aggregator.collector, site.Event, dimensionElemCount)
-	switch agg {
-	case "counter":
-		return &countEvent{
-			Window:    window,
-			extractor: extractor,
-			site:      site,
-		}
-	default:
-		// TODO: log unknown agg
+	return &countEvent{
+		Window:    window,
+		extractor: extractor,
+		site:      site,
 	}
-	return nil
 }
-- 
2.43.0


From 91fbe01bef9f7a89cbb7f64351144a139b616d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:33 +0000
Subject: [PATCH 08/70] fix: do not set the default backup time format from two
 goroutines

The goroutine that cleans up old log files and a rotation both filled in
BackupTimeFormat lazily, without a common lock.
---
 countlog/output/lumberjack/lumberjack.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/countlog/output/lumberjack/lumberjack.go b/countlog/output/lumberjack/lumberjack.go
index 3a8623e..2ff6134 100644
--- a/countlog/output/lumberjack/lumberjack.go
+++ b/countlog/output/lumberjack/lumberjack.go
@@ -220,10 +220,7 @@ func (l *Logger) openNew() error {
 		// Copy the mode off the old logfile.
 		mode = info.Mode()
 		// move the existing file
-		if l.BackupTimeFormat == "" {
-			l.BackupTimeFormat = defaultBackupTimeFormat
-		}
-		newname := backupName(name, l.LocalTime, l.BackupTimeFormat)
+		newname := backupName(name, l.LocalTime, l.backupTimeFormat())
 		if err := os.Rename(name, newname); err != nil {
 			return fmt.Errorf("can't rename log file: %s", err)
 		}
@@ -443,10 +440,15 @@ func (l *Logger) timeFromName(filename, prefix, ext string) (time.Time, error) {
 		return time.Time{}, errors.New("mismatched extension")
 	}
 	ts := filename[len(prefix) : len(filename)-len(ext)]
+	return time.Parse(l.backupTimeFormat(), ts)
+}
+
+// backupTimeFormat returns the time format used in the names of backups.
+func (l *Logger) backupTimeFormat() string {
 	if l.BackupTimeFormat == "" {
-		l.BackupTimeFormat = defaultBackupTimeFormat
+		return defaultBackupTimeFormat
 	}
-	return time.Parse(l.BackupTimeFormat, ts)
+	return l.BackupTimeFormat
 }
 
 // max returns the maximum size in bytes of log files before rolling.
-- 
2.43.0


From e18dfe458b9a71876b1924b707795c5ef6969f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:33 +0000
Subject: [PATCH 09/70] fix: read the timestamp of a backup in the time zone it
 was written in

With LocalTime the timestamps were read as UTC, so that MaxAge deleted
backups too early or too late by the offset of the local time zone.
---
 countlog/output/lumberjack/lumberjack.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/countlog/output/lumberjack/lumberjack.go b/countlog/output/lumberjack/lumberjack.go
index 2ff6134..a4ba9a4 100644
--- a/countlog/output/lumberjack/lumberjack.go
+++ b/countlog/output/lumberjack/lumberjack.go
@@ -440,6 +440,9 @@ func (l *Logger) timeFromName(filename, prefix, ext string) (time.Time, error) {
 		return time.Time{}, errors.New("mismatched extension")
 	}
 	ts := filename[len(prefix) : len(filename)-len(ext)]
+	if l.LocalTime {
+		return time.ParseInLocation(l.backupTimeFormat(), ts, time.Local)
+	}
 	return time.Parse(l.backupTimeFormat(), ts)
 }
 
-- 
2.43.0


From 88684c01b7081efcb0f77aeb033237e924792d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:33 +0000
Subject: [PATCH 10/70] fix: do not truncate the log file when it can not be
 examined

A failing stat during rotation was taken for a missing file: the current log
was then opened with O_TRUNC instead of being moved aside.
---
 countlog/output/lumberjack/lumberjack.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/countlog/output/lumberjack/lumberjack.go b/countlog/output/lumberjack/lumberjack.go
index a4ba9a4..2308cc5 100644
--- a/countlog/output/lumberjack/lumberjack.go
+++ b/countlog/output/lumberjack/lumberjack.go
@@ -229,6 +229,9 @@ func (l *Logger) openNew() error {
 		if err := chown(name, info); err != nil {
 			return err
 		}
+	} else if !os.IsNotExist(err) {
+		// the file may be there, opening it below would wipe it out
+		return fmt.Errorf("error getting log file info: %s", err)
 	}
 
 	// we use truncate here because this should only get called when we've moved
-- 
2.43.0


From bbadf88a31ad49b9261ade7240c82b36ca0a32b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:33 +0000
Subject: [PATCH 11/70] fix: keep earlier backups when rotating twice at the
 same time

Two rotations within the resolution of the backup time format (a millisecond
by default, a day or more with a custom format) used the same backup name, the
second one overwrote the first backup.
---
 countlog/output/lumberjack/lumberjack.go | 45 ++++++++++++++++++++++--
 1 file changed, 42 insertions(+), 3 deletions(-)

diff --git a/countlog/output/lumberjack/lumberjack.go b/countlog/output/lumberjack/lumberjack.go
index 2308cc5..9cd0c8f 100644
--- a/countlog/output/lumberjack/lumberjack.go
+++ b/countlog/output/lumberjack/lumberjack.go
@@ -30,6 +30,7 @@ import (
 	"os"
 	"path/filepath"
 	"sort"
+	"strconv"
 	"strings"
 	"sync"
 	"time"
@@ -220,7 +221,10 @@ func (l *Logger) openNew() error {
 		// Copy the mode off the old logfile.
 		mode = info.Mode()
 		// move the existing file
-		newname := backupName(name, l.LocalTime, l.backupTimeFormat())
+		newname, err := backupName(name, l.LocalTime, l.backupTimeFormat())
+		if err != nil {
+			return fmt.Errorf("can't choose a name for the backup: %s", err)
+		}
 		if err := os.Rename(name, newname); err != nil {
 			return fmt.Errorf("can't rename log file: %s", err)
 		}
@@ -249,7 +253,7 @@ func (l *Logger) openNew() error {
 // backupName creates a new filename from the given name, inserting a timestamp
 // between the filename and the extension, using the local time if requested
 // (otherwise UTC).
-func backupName(name string, local bool, backupTimeFormat string) string {
+func backupName(name string, local bool, backupTimeFormat string) (string, error) {
 	dir := filepath.Dir(name)
 	filename := filepath.Base(name)
 	ext := filepath.Ext(filename)
@@ -260,7 +264,29 @@ func backupName(name string, local bool, backupTimeFormat string) string {
 	}
 
 	timestamp := t.Format(backupTimeFormat)
-	return filepath.Join(dir, fmt.Sprintf("%s-%s%s", prefix, timestamp, ext))
+	backup := filepath.Join(dir, fmt.Sprintf("%s-%s%s", prefix, timestamp, ext))
+	// a backup made at the same time must not be overwritten
+	for i := 1; ; i++ {
+		exists, err := backupExists(backup)
+		if err != nil || !exists {
+			return backup, err
+		}
+		backup = filepath.Join(dir, fmt.Sprintf("%s-%s_%d%s", prefix, timestamp, i, ext))
+	}
+}
+
+// backupExists tells if there is a backup of that name, compressed or not.
+func backupExists(name string) (bool, error) {
+	for _, name := range []string{name, name + compressSuffix} {
+		_, err := os_Stat(name)
+		if err == nil {
+			return true, nil
+		}
+		if !os.IsNotExist(err) {
+			return false, err
+		}
+	}
+	return false, nil
 }
 
 // openExistingOrNew opens the logfile if it exists and if the current write
@@ -443,6 +469,19 @@ func (l *Logger) timeFromName(filename, prefix, ext string) (time.Time, error) {
 		return time.Time{}, errors.New("mismatched extension")
 	}
 	ts := filename[len(prefix) : len(filename)-len(ext)]
+	if sep := strings.LastIndex(ts, "_"); sep != -1 {
+		// one of several backups made at the same time, see backupName
+		if seq, err := strconv.ParseUint(ts[sep+1:], 10, 16); err == nil {
+			if t, err := l.parseTime(ts[:sep]); err == nil {
+				return t.Add(time.Duration(seq)), nil
+			}
+		}
+	}
+	return l.parseTime(ts)
+}
+
+// parseTime reads the timestamp of a backup.
+func (l *Logger) parseTime(ts string) (time.Time, error) {
 	if l.LocalTime {
 		return time.ParseInLocation(l.backupTimeFormat(), ts, time.Local)
 	}
-- 
2.43.0


From bcd3c5d4cf5797cb9d0c01461d37c31ce6801458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:59 +0000
Subject: [PATCH 12/70] fix: do not crash on a file whose prefix and extension
 overlap

With a log file a.b.b-x, an unrelated file a.b-x has both the prefix and the
extension of a backup; cutting out the timestamp then panicked in the clean-up
goroutine.
---
 countlog/output/lumberjack/lumberjack.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/countlog/output/lumberjack/lumberjack.go b/countlog/output/lumberjack/lumberjack.go
index 9cd0c8f..95f4c48 100644
--- a/countlog/output/lumberjack/lumberjack.go
+++ b/countlog/output/lumberjack/lumberjack.go
@@ -468,6 +468,9 @@ func (l *Logger) timeFromName(filename, prefix, ext string) (time.Time, error) {
 	if !strings.HasSuffix(filename, ext) {
 		return time.Time{}, errors.New("mismatched extension")
 	}
+	if len(filename) < len(prefix)+len(ext) {
+		return time.Time{}, errors.New("mismatched length")
+	}
 	ts := filename[len(prefix) : len(filename)-len(ext)]
 	if sep := strings.LastIndex(ts, "_"); sep != -1 {
 		// one of several backups made at the same time, see backupName
-- 
2.43.0


From 02d440e23ab54d2a6521a20e927229a9da426233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:46 +0000
Subject: [PATCH 13/70] fix: do not lose bytes a reader returns together with
 an error

---
 parse/parse.go | 54 ++++++++++++++++++++++++++++++++------------------
 1 file changed, 35 insertions(+), 19 deletions(-)

diff --git a/parse/parse.go b/parse/parse.go
index fc60f5d..f98e82b 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -51,6 +51,7 @@ func Parse(src *Source, lexer Lexer, precedence int) interface{} {
 type Source struct {
 	err        error
 	reader     io.Reader
+	readErr    error // takes effect when everything read before is consumed
 	current    []byte
 	nextList   [][]byte
 	buf        []byte
@@ -58,15 +59,33 @@ type Source struct {
 }
 
 func NewSource(reader io.Reader, buf []byte) (*Source, error) {
-	n, err := reader.Read(buf)
-	if n == 0 {
-		return nil, err
+	src := &Source{
+		reader: reader,
+		buf:    buf,
 	}
-	return &Source{
-		reader:  reader,
-		current: buf[:n],
-		buf:     buf,
-	}, nil
+	src.current = src.readMore(buf)
+	if len(src.current) == 0 {
+		return nil, src.readErr
+	}
+	return src, nil
+}
+
+const maxConsecutiveEmptyReads = 100
+
+// readMore reads the next bytes into buf, it returns nothing if there are no more.
+// The reader might return bytes together with an error, or nothing without an error.
+func (src *Source) readMore(buf []byte) []byte {
+	for i := 0; i < maxConsecutiveEmptyReads && src.readErr == nil; i++ {
+		n, err := src.reader.Read(buf)
+		src.readErr = err
+		if n > 0 {
+			return buf[:n]
+		}
+	}
+	if src.readErr == nil {
+		src.readErr = io.ErrNoProgress
+	}
+	return nil
 }
 
 func NewSourceString(src string) *Source {
@@ -94,7 +113,7 @@ func (src *Source) PeekN(n int) ([]byte, error) {
 	if src.reader == nil {
 		return src.current, io.EOF
 	}
-	peeked := src.current
+	peeked := src.current[:len(src.current):len(src.current)]
 	for _, next := range src.nextList {
 		peeked = append(peeked, next...)
 		if len(peeked) >= n {
@@ -102,17 +121,15 @@ func (src *Source) PeekN(n int) ([]byte, error) {
 		}
 	}
 	for {
-		buf := make([]byte, len(src.buf))
-		read, err := src.reader.Read(buf)
-		next := buf[:read]
+		next := src.readMore(make([]byte, len(src.buf)))
+		if len(next) == 0 {
+			return peeked, src.readErr
+		}
 		peeked = append(peeked, next...)
 		src.nextList = append(src.nextList, next)
 		if len(peeked) >= n {
 			return peeked[:n], nil
 		}
-		if err != nil {
-			return peeked, err
-		}
 	}
 }
 
@@ -144,11 +161,10 @@ func (src *Source) Consume() {
 		src.nextList = src.nextList[1:]
 		return
 	}
-	n, err := src.reader.Read(src.buf)
-	if err != nil {
-		src.ReportError(err)
+	src.current = src.readMore(src.buf)
+	if len(src.current) == 0 {
+		src.ReportError(src.readErr)
 	}
-	src.current = src.buf[:n]
 }
 
 func (src *Source) PeekRune() (rune, int) {
-- 
2.43.0


From c2b07545d21718a2fc7aa61feaa43523183fbf24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:46 +0000
Subject: [PATCH 14/70] fix: do not hang or crash when consuming more than
 there is

---
 parse/parse.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/parse/parse.go b/parse/parse.go
index f98e82b..effac98 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -89,9 +89,13 @@ func (src *Source) readMore(buf []byte) []byte {
 }
 
 func NewSourceString(src string) *Source {
-	return &Source{
+	source := &Source{
 		current: []byte(src),
 	}
+	if len(src) == 0 {
+		source.ReportError(io.EOF)
+	}
+	return source
 }
 
 func (src *Source) SetBuffer(buf []byte) {
@@ -135,6 +139,11 @@ func (src *Source) PeekN(n int) ([]byte, error) {
 
 func (src *Source) ConsumeN(n int) {
 	for n != 0 && n >= len(src.current) {
+		if len(src.current) == 0 {
+			// nothing left to consume
+			src.ReportError(io.EOF)
+			return
+		}
 		n -= len(src.current)
 		src.Consume()
 	}
@@ -142,6 +151,10 @@ func (src *Source) ConsumeN(n int) {
 }
 
 func (src *Source) Consume1(b1 byte) {
+	if len(src.current) == 0 {
+		src.ReportError(io.EOF)
+		return
+	}
 	if b1 != src.current[0] {
 		src.ReportError(errors.New(
 			"expect " + string([]byte{b1}) +
-- 
2.43.0


From 135a2e131d95dde3dbbb0cb5e28b8fe008a06710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:46 +0000
Subject: [PATCH 15/70] fix: read and skip all the runes of the given ranges,
 up to the end

---
 parse/read/range.go | 21 +++++++--------------
 parse/skip/range.go | 22 ++++++++++------------
 2 files changed, 17 insertions(+), 26 deletions(-)

diff --git a/parse/read/range.go b/parse/read/range.go
index be83a0e..668cadf 100644
--- a/parse/read/range.go
+++ b/parse/read/range.go
@@ -6,7 +6,7 @@ import (
 )
 
 func UnicodeRange(src *parse.Source, space []rune, table *unicode.RangeTable) []rune {
-	for {
+	for src.Error() == nil {
 		r, n := src.PeekRune()
 		if unicode.Is(table, r) {
 			src.ConsumeN(n)
@@ -15,28 +15,21 @@ func UnicodeRange(src *parse.Source, space []rune, table *unicode.RangeTable) []
 		}
 		return space
 	}
+	return space
 }
 
 func UnicodeRanges(src *parse.Source, space []rune, includes []*unicode.RangeTable, excludes []*unicode.RangeTable) []rune {
-	for {
+	for src.Error() == nil {
 		r, n := src.PeekRune()
-		for _, exclude := range excludes {
-			if unicode.Is(exclude, r) {
-				return space
-			}
+		if unicode.In(r, excludes...) {
+			return space
 		}
-		if len(includes) == 0 {
+		if len(includes) == 0 || unicode.In(r, includes...) {
 			src.ConsumeN(n)
 			space = append(space, r)
 			continue
 		}
-		for _, include := range includes {
-			if unicode.Is(include, r) {
-				src.ConsumeN(n)
-				space = append(space, r)
-				continue
-			}
-		}
 		return space
 	}
+	return space
 }
diff --git a/parse/skip/range.go b/parse/skip/range.go
index d2286c5..7cad700 100644
--- a/parse/skip/range.go
+++ b/parse/skip/range.go
@@ -7,7 +7,7 @@ import (
 
 func UnicodeRange(src *parse.Source, table *unicode.RangeTable) int {
 	count := 0
-	for {
+	for src.Error() == nil {
 		r, n := src.PeekRune()
 		if unicode.Is(table, r) {
 			src.ConsumeN(n)
@@ -16,24 +16,22 @@ func UnicodeRange(src *parse.Source, table *unicode.RangeTable) int {
 		}
 		return count
 	}
+	return count
 }
 
 func UnicodeRanges(src *parse.Source, includes []*unicode.RangeTable, excludes []*unicode.RangeTable) int {
 	count := 0
-	for {
+	for src.Error() == nil {
 		r, n := src.PeekRune()
-		for _, exclude := range excludes {
-			if unicode.Is(exclude, r) {
-				return count
-			}
+		if unicode.In(r, excludes...) {
+			return count
 		}
-		for _, include := range includes {
-			if unicode.Is(include, r) {
-				src.ConsumeN(n)
-				count += n
-				continue
-			}
+		if unicode.In(r, includes...) {
+			src.ConsumeN(n)
+			count += n
+			continue
 		}
 		return count
 	}
+	return count
 }
-- 
2.43.0


From bd13e403857594e1c73cc76c2853f5c4a249e7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:46 +0000
Subject: [PATCH 16/70] fix: notice every overflow when reading an integer

---
 parse/read/int.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/parse/read/int.go b/parse/read/int.go
index 2d88c84..318883e 100644
--- a/parse/read/int.go
+++ b/parse/read/int.go
@@ -78,13 +78,10 @@ func Uint64(src *parse.Source) uint64 {
 				return value
 			}
 			if value > uint64SafeToMultiple10 {
-				value2 := (value << 3) + (value << 1) + uint64(ind)
-				if value2 < value {
+				if value > math.MaxUint64/10 || value*10 > math.MaxUint64-uint64(ind) {
 					src.ReportError(errors.New("uint64: overflow"))
 					return 0
 				}
-				value = value2
-				continue
 			}
 			value = (value << 3) + (value << 1) + uint64(ind)
 		}
-- 
2.43.0


From 19f1e0891466a19006a813d1932f43fa9131e2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:46 +0000
Subject: [PATCH 17/70] fix: do not crash when reading an integer at the end

---
 parse/read/int.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/parse/read/int.go b/parse/read/int.go
index 318883e..25bc8b8 100644
--- a/parse/read/int.go
+++ b/parse/read/int.go
@@ -30,8 +30,7 @@ func Int(src *parse.Source) int {
 }
 
 func Int32(src *parse.Source) int32 {
-	c := src.Peek()[0]
-	if c == '-' {
+	if isNegative(src) {
 		src.ConsumeN(1)
 		val := Uint64(src)
 		if val > math.MaxInt32+1 {
@@ -49,8 +48,7 @@ func Int32(src *parse.Source) int32 {
 }
 
 func Int64(src *parse.Source) int64 {
-	c := src.Peek()[0]
-	if c == '-' {
+	if isNegative(src) {
 		src.ConsumeN(1)
 		val := Uint64(src)
 		if val > math.MaxInt64+1 {
@@ -67,6 +65,11 @@ func Int64(src *parse.Source) int64 {
 	return int64(val)
 }
 
+func isNegative(src *parse.Source) bool {
+	buf := src.Peek()
+	return len(buf) > 0 && buf[0] == '-'
+}
+
 func Uint64(src *parse.Source) uint64 {
 	value := uint64(0)
 	for src.Error() == nil {
-- 
2.43.0


From 25e5c87f136a9afa74c1d11f6bdc07dff0df58a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:56 +0000
Subject: [PATCH 18/70] fix: report an error found at the end of the input

---
 parse/parse.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parse/parse.go b/parse/parse.go
index effac98..1ae41b9 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -196,7 +196,8 @@ func (src *Source) PeekRune() (rune, int) {
 }
 
 func (src *Source) ReportError(err error) {
-	if src.err == nil {
+	// what went wrong matters more than reaching the end
+	if src.err == nil || src.err == io.EOF {
 		src.err = err
 	}
 }
-- 
2.43.0


From e9e37c6dd6f563137186137567b138a8a974a400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:05 +0000
Subject: [PATCH 19/70] fix: report a byte that is missing at the end of the
 input

---
 parse/parse.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parse/parse.go b/parse/parse.go
index 1ae41b9..c8e78ed 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -152,7 +152,8 @@ func (src *Source) ConsumeN(n int) {
 
 func (src *Source) Consume1(b1 byte) {
 	if len(src.current) == 0 {
-		src.ReportError(io.EOF)
+		src.ReportError(errors.New(
+			"expect " + string([]byte{b1}) + " but found nothing"))
 		return
 	}
 	if b1 != src.current[0] {
-- 
2.43.0


From e05134a3d5124a07f9e46980a959dbf312bf750b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:59 +0800
Subject: [PATCH 20/70] fix: write all the digits of 32 bit numbers from one
 billion on

---
 msgfmt/jsonfmt/encoder_int.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msgfmt/jsonfmt/encoder_int.go b/msgfmt/jsonfmt/encoder_int.go
index 654cc16..22ff9a8 100644
--- a/msgfmt/jsonfmt/encoder_int.go
+++ b/msgfmt/jsonfmt/encoder_int.go
@@ -140,7 +140,7 @@ func WriteUint32(space []byte, val uint32) []byte {
 	} else {
 		r3 := q2 - q3*1000
 		space = append(space, byte(q3 + '0'))
-		return writeBuf(space, digits[r3])
+		space = writeBuf(space, digits[r3])
 	}
 	space = writeBuf(space, digits[r2])
 	return writeBuf(space, digits[r1])
-- 
2.43.0


From 91f48040ed23a3fe78005c1db1af66e14bc449df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:59 +0800
Subject: [PATCH 21/70] fix: do not lose a last character that needs escaping

---
 msgfmt/jsonfmt/encoder_bytes.go | 5 +++--
 msgfmt/jsonfmt/encoder_str.go   | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/msgfmt/jsonfmt/encoder_bytes.go b/msgfmt/jsonfmt/encoder_bytes.go
index 4c81ece..4cd4878 100644
--- a/msgfmt/jsonfmt/encoder_bytes.go
+++ b/msgfmt/jsonfmt/encoder_bytes.go
@@ -18,14 +18,15 @@ func WriteBytes(space []byte, s []byte) []byte {
 	// write string, the fast path, without utf8 and escape support
 	var i int
 	var c byte
-	for i, c = range s {
+	for i = 0; i < len(s); i++ {
+		c = s[i]
 		if c < utf8.RuneSelf && safeSet[c] {
 			space = append(space, c)
 		} else {
 			break
 		}
 	}
-	if i == len(s)-1 {
+	if i == len(s) {
 		space = append(space, '"')
 		return space
 	}
diff --git a/msgfmt/jsonfmt/encoder_str.go b/msgfmt/jsonfmt/encoder_str.go
index effd7cc..d6a3816 100644
--- a/msgfmt/jsonfmt/encoder_str.go
+++ b/msgfmt/jsonfmt/encoder_str.go
@@ -125,14 +125,15 @@ func WriteString(space []byte, str string) []byte {
 	// write string, the fast path, without utf8 and escape support
 	var i int
 	var c byte
-	for i, c = range []byte(str) {
+	for i = 0; i < len(str); i++ {
+		c = str[i]
 		if c > 31 && c != '"' && c != '\\' {
 			space = append(space, c)
 		} else {
 			break
 		}
 	}
-	if i == len(str)-1 {
+	if i == len(str) {
 		space = append(space, '"')
 		return space
 	}
-- 
2.43.0


From 73621a869bcb28109f5d27c276820d435a4681d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:00 +0800
Subject: [PATCH 22/70] fix: do not lose the bytes before a non-ASCII byte

---
 msgfmt/jsonfmt/encoder_bytes.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/msgfmt/jsonfmt/encoder_bytes.go b/msgfmt/jsonfmt/encoder_bytes.go
index 4cd4878..6bc11d5 100644
--- a/msgfmt/jsonfmt/encoder_bytes.go
+++ b/msgfmt/jsonfmt/encoder_bytes.go
@@ -40,6 +40,9 @@ func writeBytesSlowPath(space []byte, s []byte) []byte {
 	var b byte
 	for i, b = range s {
 		if b >= utf8.RuneSelf {
+			if start < i {
+				space = append(space, s[start:i]...)
+			}
 			space = append(space, '\\', '\\', 'x', hex[b>>4], hex[b&0xF])
 			start = i + 1
 			continue
-- 
2.43.0


From 9968db132eab21b5ea5bf0164d986180a6aefc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:36 +0800
Subject: [PATCH 23/70] fix: iterate over maps with go 1.18 and above

---
 reflect2/go_above_118.go | 16 ++++++++++++++++
 reflect2/go_below_118.go | 11 +++++++++++
 reflect2/unsafe_link.go  | 21 ++++++++++++++-------
 3 files changed, 41 insertions(+), 7 deletions(-)
 create mode 100644 reflect2/go_above_118.go
 create mode 100644 reflect2/go_below_118.go

diff --git a/reflect2/go_above_118.go b/reflect2/go_above_118.go
new file mode 100644
index 0000000..6261e1b
--- /dev/null
+++ b/reflect2/go_above_118.go
@@ -0,0 +1,16 @@
+//+build go1.18
+
+package reflect2
+
+import "unsafe"
+
+// since go 1.18 the caller provides the iterator
+//go:noescape
+//go:linkname reflectMapiterinit reflect.mapiterinit
+func reflectMapiterinit(rtype unsafe.Pointer, m unsafe.Pointer, it *hiter)
+
+func mapiterinit(rtype unsafe.Pointer, m unsafe.Pointer) *hiter {
+	it := &hiter{}
+	reflectMapiterinit(rtype, m, it)
+	return it
+}
diff --git a/reflect2/go_below_118.go b/reflect2/go_below_118.go
new file mode 100644
index 0000000..b6b021b
--- /dev/null
+++ b/reflect2/go_below_118.go
@@ -0,0 +1,11 @@
+//+build !go1.18
+
+package reflect2
+
+import "unsafe"
+
+// m escapes into the return value, but the caller of mapiterinit
+// doesn't let the return value escape.
+//go:noescape
+//go:linkname mapiterinit reflect.mapiterinit
+func mapiterinit(rtype unsafe.Pointer, m unsafe.Pointer) *hiter
diff --git a/reflect2/unsafe_link.go b/reflect2/unsafe_link.go
index a25a5f4..4ae2368 100644
--- a/reflect2/unsafe_link.go
+++ b/reflect2/unsafe_link.go
@@ -25,12 +25,6 @@ func mapassign(rtype unsafe.Pointer, m unsafe.Pointer, key, val unsafe.Pointer)
 //go:noescape
 func mapaccess(rtype unsafe.Pointer, m unsafe.Pointer, key unsafe.Pointer) (val unsafe.Pointer)
 
-// m escapes into the return value, but the caller of mapiterinit
-// doesn't let the return value escape.
-//go:noescape
-//go:linkname mapiterinit reflect.mapiterinit
-func mapiterinit(rtype unsafe.Pointer, m unsafe.Pointer) *hiter
-
 //go:noescape
 //go:linkname mapiternext reflect.mapiternext
 func mapiternext(it *hiter)
@@ -44,7 +38,20 @@ func ifaceE2I(rtype unsafe.Pointer, src interface{}, dst unsafe.Pointer)
 type hiter struct {
 	key   unsafe.Pointer // Must be in first position.  Write nil to indicate iteration end (see cmd/internal/gc/range.go).
 	value unsafe.Pointer // Must be in second position (see cmd/internal/gc/range.go).
-	// rest fields are ignored
+	// the rest is only there to make it as large as the one in package runtime
+	t           unsafe.Pointer
+	h           unsafe.Pointer
+	buckets     unsafe.Pointer
+	bptr        unsafe.Pointer
+	overflow    unsafe.Pointer
+	oldoverflow unsafe.Pointer
+	startBucket uintptr
+	offset      uint8
+	wrapped     bool
+	B           uint8
+	i           uint8
+	bucket      uintptr
+	checkBucket uintptr
 }
 
 // add returns p+x.
-- 
2.43.0


From ad3f6c927cb035199744ccd9842690af6b3a1acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:29 +0800
Subject: [PATCH 24/70] fix: encode nil errors and marshalers as null, escape
 error messages

---
 msgfmt/jsonfmt/encoder_dynamic.go        | 10 ++++++++++
 msgfmt/jsonfmt/encoder_error.go          |  8 ++++----
 msgfmt/jsonfmt/encoder_json_marshaler.go |  8 ++++----
 3 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/msgfmt/jsonfmt/encoder_dynamic.go b/msgfmt/jsonfmt/encoder_dynamic.go
index 29106e1..1dd8401 100644
--- a/msgfmt/jsonfmt/encoder_dynamic.go
+++ b/msgfmt/jsonfmt/encoder_dynamic.go
@@ -2,10 +2,20 @@ package jsonfmt
 
 import (
 	"unsafe"
+	"reflect"
 	"context"
 	"github.com/v2pro/plz/reflect2"
 )
 
+// isNil tells if there is no value to call a method on
+func isNil(obj interface{}) bool {
+	if obj == nil {
+		return true
+	}
+	val := reflect.ValueOf(obj)
+	return val.Kind() == reflect.Ptr && val.IsNil()
+}
+
 type dynamicEncoder struct {
 	valType reflect2.Type
 }
diff --git a/msgfmt/jsonfmt/encoder_error.go b/msgfmt/jsonfmt/encoder_error.go
index 8cd46c2..f3097b3 100644
--- a/msgfmt/jsonfmt/encoder_error.go
+++ b/msgfmt/jsonfmt/encoder_error.go
@@ -12,8 +12,8 @@ type errorEncoder struct {
 
 func (encoder *errorEncoder) Encode(ctx context.Context, space []byte, ptr unsafe.Pointer) []byte {
 	obj := encoder.valType.UnsafeIndirect(ptr)
-	space = append(space, '"')
-	space = append(space, obj.(error).Error()...)
-	space = append(space, '"')
-	return space
+	if isNil(obj) {
+		return append(space, 'n', 'u', 'l', 'l')
+	}
+	return WriteString(space, obj.(error).Error())
 }
diff --git a/msgfmt/jsonfmt/encoder_json_marshaler.go b/msgfmt/jsonfmt/encoder_json_marshaler.go
index fc0cd76..1600120 100644
--- a/msgfmt/jsonfmt/encoder_json_marshaler.go
+++ b/msgfmt/jsonfmt/encoder_json_marshaler.go
@@ -13,12 +13,12 @@ type jsonMarshalerEncoder struct {
 
 func (encoder *jsonMarshalerEncoder) Encode(ctx context.Context, space []byte, ptr unsafe.Pointer) []byte {
 	obj := encoder.valType.UnsafeIndirect(ptr)
+	if isNil(obj) {
+		return append(space, 'n', 'u', 'l', 'l')
+	}
 	buf, err := obj.(json.Marshaler).MarshalJSON()
 	if err != nil {
-		space = append(space, '"')
-		space = append(space, err.Error()...)
-		space = append(space, '"')
-		return space
+		return WriteString(space, err.Error())
 	}
 	space = append(space, buf...)
 	return space
-- 
2.43.0


From 3d78c106e2c7c3725fc3fd6210cfd0d172a05e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:30 +0800
Subject: [PATCH 25/70] fix: encode floats JSON has no number for as null

---
 msgfmt/jsonfmt/encoder_float.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/msgfmt/jsonfmt/encoder_float.go b/msgfmt/jsonfmt/encoder_float.go
index 572953c..86443bb 100644
--- a/msgfmt/jsonfmt/encoder_float.go
+++ b/msgfmt/jsonfmt/encoder_float.go
@@ -29,6 +29,9 @@ func (encoder *lossyFloat32Encoder) Encode(ctx context.Context, space []byte, pt
 
 // WriteFloat64 write float64 to stream
 func WriteFloat64(space []byte, val float64) []byte {
+	if math.IsNaN(val) || math.IsInf(val, 0) {
+		return append(space, 'n', 'u', 'l', 'l')
+	}
 	abs := math.Abs(val)
 	fmt := byte('f')
 	// Note: Must use float32 comparisons for underlying float32 value to get precise cutoffs right.
@@ -41,6 +44,9 @@ func WriteFloat64(space []byte, val float64) []byte {
 }
 // WriteFloat64Lossy write float64 to stream with ONLY 6 digits precision although much much faster
 func WriteFloat64Lossy(space []byte, val float64) []byte {
+	if math.IsNaN(val) || math.IsInf(val, 0) {
+		return append(space, 'n', 'u', 'l', 'l')
+	}
 	if val < 0 {
 		space = append(space, '-')
 		val = -val
@@ -69,6 +75,9 @@ func WriteFloat64Lossy(space []byte, val float64) []byte {
 
 // WriteFloat32 write float32 to stream
 func WriteFloat32(space []byte, val float32) []byte {
+	if math.IsNaN(float64(val)) || math.IsInf(float64(val), 0) {
+		return append(space, 'n', 'u', 'l', 'l')
+	}
 	abs := math.Abs(float64(val))
 	fmt := byte('f')
 	// Note: Must use float32 comparisons for underlying float32 value to get precise cutoffs right.
@@ -82,6 +91,9 @@ func WriteFloat32(space []byte, val float32) []byte {
 
 // WriteFloat32Lossy write float32 to stream with ONLY 6 digits precision although much much faster
 func WriteFloat32Lossy(space []byte, val float32) []byte {
+	if math.IsNaN(float64(val)) || math.IsInf(float64(val), 0) {
+		return append(space, 'n', 'u', 'l', 'l')
+	}
 	if val < 0 {
 		space = append(space, '-')
 		val = -val
-- 
2.43.0


From 6e930c685764ca98719b57a234b41058618f7290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:30 +0800
Subject: [PATCH 26/70] fix: encode nil as null

---
 msgfmt/jsonfmt/encoder.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/msgfmt/jsonfmt/encoder.go b/msgfmt/jsonfmt/encoder.go
index f3a8cc2..c416120 100644
--- a/msgfmt/jsonfmt/encoder.go
+++ b/msgfmt/jsonfmt/encoder.go
@@ -54,6 +54,9 @@ func (cfg Config) Froze() API {
 }
 
 func (cfg *frozenConfig) EncoderOfObject(obj interface{}) Encoder {
+	if obj == nil {
+		return &nullEncoder{}
+	}
 	cacheKey := reflect2.RTypeOf(obj)
 	encoderObj, found := cfg.encoderCache.Load(cacheKey)
 	if found {
@@ -63,6 +66,9 @@ func (cfg *frozenConfig) EncoderOfObject(obj interface{}) Encoder {
 }
 
 func (cfg *frozenConfig) EncoderOf(valType reflect2.Type) Encoder {
+	if valType == nil {
+		return &nullEncoder{}
+	}
 	cacheKey := valType.RType()
 	encoderObj, found := cfg.encoderCache.Load(cacheKey)
 	if found {
@@ -175,6 +181,14 @@ func encoderOf(cfg *frozenConfig, prefix string, valType reflect2.Type) Encoder
 	return &unsupportedEncoder{fmt.Sprintf(`"can not encode %s %s to json"`, valType.String(), prefix)}
 }
 
+// nullEncoder encodes what has no type
+type nullEncoder struct {
+}
+
+func (encoder *nullEncoder) Encode(ctx context.Context, space []byte, ptr unsafe.Pointer) []byte {
+	return append(space, 'n', 'u', 'l', 'l')
+}
+
 type unsupportedEncoder struct {
 	msg string
 }
-- 
2.43.0


From 9174d969ec637aaf6950fddfdca554e8da3f78b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:30 +0800
Subject: [PATCH 27/70] fix: escape field names and the message about a type
 that can not be encoded

---
 msgfmt/jsonfmt/encoder.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/msgfmt/jsonfmt/encoder.go b/msgfmt/jsonfmt/encoder.go
index c416120..db29fa2 100644
--- a/msgfmt/jsonfmt/encoder.go
+++ b/msgfmt/jsonfmt/encoder.go
@@ -178,7 +178,7 @@ func encoderOf(cfg *frozenConfig, prefix string, valType reflect2.Type) Encoder
 	case reflect.Interface:
 		return &dynamicEncoder{valType:valType}
 	}
-	return &unsupportedEncoder{fmt.Sprintf(`"can not encode %s %s to json"`, valType.String(), prefix)}
+	return &unsupportedEncoder{string(WriteString(nil, fmt.Sprintf(`can not encode %s %s to json`, valType.String(), prefix)))}
 }
 
 // nullEncoder encodes what has no type
@@ -235,16 +235,14 @@ func encoderOfStruct(cfg *frozenConfig, prefix string, valType reflect2.StructTy
 		if name == "" {
 			continue
 		}
-		prefix := ""
+		fieldPrefix := ""
 		if len(fields) != 0 {
-			prefix += ","
+			fieldPrefix += ","
 		}
-		prefix += `"`
-		prefix += name
-		prefix += `":`
+		fieldPrefix = string(WriteString([]byte(fieldPrefix), name)) + ":"
 		fields = append(fields, structEncoderField{
 			structField: field.(*reflect2.UnsafeStructField),
-			prefix:      prefix,
+			prefix:      fieldPrefix,
 			encoder:     encoderOf(cfg, prefix+" ."+name, field.Type()),
 		})
 	}
-- 
2.43.0


From 2edd53d818af7aaddbd648259def404575611e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:31 +0800
Subject: [PATCH 28/70] fix: encode map keys of all types as strings

---
 msgfmt/jsonfmt/encoder.go     | 12 ++++++------
 msgfmt/jsonfmt/encoder_map.go | 34 ++++++++++++++++------------------
 2 files changed, 22 insertions(+), 24 deletions(-)

diff --git a/msgfmt/jsonfmt/encoder.go b/msgfmt/jsonfmt/encoder.go
index db29fa2..b9b08f7 100644
--- a/msgfmt/jsonfmt/encoder.go
+++ b/msgfmt/jsonfmt/encoder.go
@@ -89,6 +89,9 @@ func encoderOfMapKey(cfg *frozenConfig, prefix string, keyType reflect2.Type) En
 		return encoderObj.(Encoder)
 	}
 	encoder := _encoderOfMapKey(cfg, prefix, keyType)
+	if keyType.LikePtr() {
+		encoder = &onePtrInterfaceEncoder{encoder}
+	}
 	cfg.mapKeyEncoderCache.Store(cacheKey, encoder)
 	return encoder
 }
@@ -198,7 +201,7 @@ func (encoder *unsupportedEncoder) Encode(ctx context.Context, space []byte, ptr
 }
 
 func encoderOfMap(cfg *frozenConfig, prefix string, valType reflect2.MapType) *mapEncoder {
-	keyEncoder := encoderOfMapKey(cfg, prefix, valType.Key())
+	keyEncoder := _encoderOfMapKey(cfg, prefix, valType.Key())
 	elemType := valType.Elem()
 	elemEncoder := encoderOf(cfg, prefix+" [mapElem]", elemType)
 	return &mapEncoder{
@@ -210,13 +213,10 @@ func encoderOfMap(cfg *frozenConfig, prefix string, valType reflect2.MapType) *m
 
 func _encoderOfMapKey(cfg *frozenConfig, prefix string, keyType reflect2.Type) Encoder {
 	keyEncoder := encoderOf(cfg, prefix+" [mapKey]", keyType)
-	if keyType.Kind() == reflect.String || keyType == bytesType {
-		return &mapStringKeyEncoder{keyEncoder}
-	}
 	if keyType.Kind() == reflect.Interface {
-		return &mapInterfaceKeyEncoder{cfg: cfg, prefix: prefix}
+		return &mapInterfaceKeyEncoder{cfg: cfg, prefix: prefix, keyType: keyType}
 	}
-	return &mapNumberKeyEncoder{keyEncoder}
+	return &mapOtherKeyEncoder{keyEncoder}
 }
 
 type onePtrInterfaceEncoder struct {
diff --git a/msgfmt/jsonfmt/encoder_map.go b/msgfmt/jsonfmt/encoder_map.go
index 58a49a2..a5dba72 100644
--- a/msgfmt/jsonfmt/encoder_map.go
+++ b/msgfmt/jsonfmt/encoder_map.go
@@ -30,34 +30,32 @@ func (encoder *mapEncoder) Encode(ctx context.Context, space []byte, ptr unsafe.
 	return space
 }
 
-type mapNumberKeyEncoder struct {
+// mapOtherKeyEncoder makes a string of whatever the key is encoded as
+type mapOtherKeyEncoder struct {
 	valEncoder Encoder
 }
 
-func (encoder *mapNumberKeyEncoder) Encode(ctx context.Context, space []byte, ptr unsafe.Pointer) []byte {
-	space = append(space, '"')
+func (encoder *mapOtherKeyEncoder) Encode(ctx context.Context, space []byte, ptr unsafe.Pointer) []byte {
+	start := len(space)
 	space = encoder.valEncoder.Encode(ctx, space, ptr)
-	space = append(space, '"', ':')
-	return space
-}
-
-type mapStringKeyEncoder struct {
-	valEncoder Encoder
-}
-
-func (encoder *mapStringKeyEncoder) Encode(ctx context.Context, space []byte, ptr unsafe.Pointer) []byte {
-	space = encoder.valEncoder.Encode(ctx, space, ptr)
-	space = append(space, ':')
-	return space
+	if len(space) == start || space[start] != '"' {
+		key := string(space[start:])
+		space = WriteString(space[:start], key)
+	}
+	return append(space, ':')
 }
 
 type mapInterfaceKeyEncoder struct {
-	cfg    *frozenConfig
-	prefix string
+	cfg     *frozenConfig
+	prefix  string
+	keyType reflect2.Type
 }
 
 func (encoder *mapInterfaceKeyEncoder) Encode(ctx context.Context, space []byte, ptr unsafe.Pointer) []byte {
-	keyObj := *(*interface{})(ptr)
+	keyObj := encoder.keyType.UnsafeIndirect(ptr)
+	if keyObj == nil {
+		return append(space, '"', 'n', 'u', 'l', 'l', '"', ':')
+	}
 	keyEncoder := encoderOfMapKey(encoder.cfg, encoder.prefix, reflect2.TypeOf(keyObj))
 	return keyEncoder.Encode(ctx, space, reflect2.PtrOf(keyObj))
 }
-- 
2.43.0


From 3cd25f5545feacf3fd0d38b95a588afc7271a313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:31 +0800
Subject: [PATCH 29/70] fix: encode values of recursive types

---
 msgfmt/jsonfmt/encoder.go | 46 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 43 insertions(+), 3 deletions(-)

diff --git a/msgfmt/jsonfmt/encoder.go b/msgfmt/jsonfmt/encoder.go
index b9b08f7..f9de426 100644
--- a/msgfmt/jsonfmt/encoder.go
+++ b/msgfmt/jsonfmt/encoder.go
@@ -42,6 +42,27 @@ type frozenConfig struct {
 	extensions         []Extension
 	encoderCache       *concurrent.Map
 	mapKeyEncoderCache *concurrent.Map
+	pending            map[uintptr]*pendingEncoder // types being worked on, to stop at recursive types
+}
+
+// begin returns the config to build an encoder with
+func (cfg *frozenConfig) begin() *frozenConfig {
+	building := *cfg
+	building.pending = map[uintptr]*pendingEncoder{}
+	return &building
+}
+
+// end returns the config to use while encoding
+func (cfg *frozenConfig) end() *frozenConfig {
+	encoding := *cfg
+	encoding.pending = nil
+	return &encoding
+}
+
+// pendingEncoder stands for the encoder of a type that is not there yet
+type pendingEncoder struct {
+	Encoder
+	used bool
 }
 
 func (cfg Config) Froze() API {
@@ -74,7 +95,7 @@ func (cfg *frozenConfig) EncoderOf(valType reflect2.Type) Encoder {
 	if found {
 		return encoderObj.(Encoder)
 	}
-	encoder := encoderOf(cfg, "", valType)
+	encoder := encoderOf(cfg.begin(), "", valType)
 	if valType.LikePtr() {
 		encoder = &onePtrInterfaceEncoder{encoder}
 	}
@@ -88,7 +109,7 @@ func encoderOfMapKey(cfg *frozenConfig, prefix string, keyType reflect2.Type) En
 	if found {
 		return encoderObj.(Encoder)
 	}
-	encoder := _encoderOfMapKey(cfg, prefix, keyType)
+	encoder := _encoderOfMapKey(cfg.begin(), prefix, keyType)
 	if keyType.LikePtr() {
 		encoder = &onePtrInterfaceEncoder{encoder}
 	}
@@ -129,6 +150,25 @@ func encoderOf(cfg *frozenConfig, prefix string, valType reflect2.Type) Encoder
 			valType: valType,
 		}
 	}
+	switch valType.Kind() {
+	case reflect.Ptr, reflect.Slice, reflect.Array, reflect.Struct, reflect.Map:
+		pending := cfg.pending[valType.RType()]
+		if pending != nil {
+			pending.used = true
+			return pending
+		}
+		pending = &pendingEncoder{}
+		cfg.pending[valType.RType()] = pending
+		pending.Encoder = encoderOfKind(cfg, prefix, valType)
+		if !pending.used {
+			delete(cfg.pending, valType.RType())
+		}
+		return pending.Encoder
+	}
+	return encoderOfKind(cfg, prefix, valType)
+}
+
+func encoderOfKind(cfg *frozenConfig, prefix string, valType reflect2.Type) Encoder {
 	switch valType.Kind() {
 	case reflect.Bool:
 		return &boolEncoder{}
@@ -214,7 +254,7 @@ func encoderOfMap(cfg *frozenConfig, prefix string, valType reflect2.MapType) *m
 func _encoderOfMapKey(cfg *frozenConfig, prefix string, keyType reflect2.Type) Encoder {
 	keyEncoder := encoderOf(cfg, prefix+" [mapKey]", keyType)
 	if keyType.Kind() == reflect.Interface {
-		return &mapInterfaceKeyEncoder{cfg: cfg, prefix: prefix, keyType: keyType}
+		return &mapInterfaceKeyEncoder{cfg: cfg.end(), prefix: prefix, keyType: keyType}
 	}
 	return &mapOtherKeyEncoder{keyEncoder}
 }
-- 
2.43.0


From 9c45cdc3d15c74d327aab14327c95f7b8d0d6ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:32 +0800
Subject: [PATCH 30/70] fix: encode the values of interfaces with the same
 config

---
 msgfmt/jsonfmt/encoder.go         | 2 +-
 msgfmt/jsonfmt/encoder_dynamic.go | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/msgfmt/jsonfmt/encoder.go b/msgfmt/jsonfmt/encoder.go
index f9de426..4a4e1e6 100644
--- a/msgfmt/jsonfmt/encoder.go
+++ b/msgfmt/jsonfmt/encoder.go
@@ -219,7 +219,7 @@ func encoderOfKind(cfg *frozenConfig, prefix string, valType reflect2.Type) Enco
 		mapType := valType.(reflect2.MapType)
 		return encoderOfMap(cfg, prefix, mapType)
 	case reflect.Interface:
-		return &dynamicEncoder{valType:valType}
+		return &dynamicEncoder{cfg: cfg.end(), valType: valType}
 	}
 	return &unsupportedEncoder{string(WriteString(nil, fmt.Sprintf(`can not encode %s %s to json`, valType.String(), prefix)))}
 }
diff --git a/msgfmt/jsonfmt/encoder_dynamic.go b/msgfmt/jsonfmt/encoder_dynamic.go
index 1dd8401..9ed34a4 100644
--- a/msgfmt/jsonfmt/encoder_dynamic.go
+++ b/msgfmt/jsonfmt/encoder_dynamic.go
@@ -17,6 +17,7 @@ func isNil(obj interface{}) bool {
 }
 
 type dynamicEncoder struct {
+	cfg     *frozenConfig
 	valType reflect2.Type
 }
 
@@ -25,5 +26,5 @@ func (encoder *dynamicEncoder) Encode(ctx context.Context, space []byte, ptr uns
 	if obj == nil {
 		return append(space, 'n', 'u', 'l', 'l')
 	}
-	return EncoderOf(reflect2.TypeOf(obj)).Encode(ctx, space, reflect2.PtrOf(obj))
+	return encoder.cfg.EncoderOf(reflect2.TypeOf(obj)).Encode(ctx, space, reflect2.PtrOf(obj))
 }
\ No newline at end of file
-- 
2.43.0


From 46593eaae99c3ea87d92bc43c87d0c23684437fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:47 +0800
Subject: [PATCH 31/70] fix: do not crash on empty and malformed formats

---
 msgfmt/formatter.go |  3 +++
 msgfmt/parse.go     | 23 ++++++++++++++++++++---
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/msgfmt/formatter.go b/msgfmt/formatter.go
index 6819826..596d28f 100644
--- a/msgfmt/formatter.go
+++ b/msgfmt/formatter.go
@@ -91,6 +91,9 @@ func compile(format string, sample []interface{}) Formatter {
 	formatter := toFormatter.Parse(src, 0)
 	if src.Error() != nil {
 		if src.Error() == io.EOF {
+			if formatter == nil {
+				return fixedFormatter("")
+			}
 			return formatter.(Formatter)
 		}
 		return invalidFormatter(src.Error().Error())
diff --git a/msgfmt/parse.go b/msgfmt/parse.go
index 4099f66..712d9b6 100644
--- a/msgfmt/parse.go
+++ b/msgfmt/parse.go
@@ -36,10 +36,14 @@ func newLexer(initLexer func(l *lexer)) *lexer {
 func (lexer *lexer) Parse(src *parse.Source, precedence int) interface{} {
 	var left interface{}
 	for src.Error() == nil {
+		right := parse.Parse(src, lexer, precedence)
+		if right == nil {
+			break
+		}
 		if left == nil {
-			left = parse.Parse(src, lexer, precedence)
+			left = right
 		} else {
-			left = lexer.merge(left, parse.Parse(src, lexer, precedence))
+			left = lexer.merge(left, right)
 		}
 	}
 	return left
@@ -66,13 +70,17 @@ func (token *leftCurlyToken) PrefixParse(src *parse.Source) interface{} {
 	src.Consume1('{')
 	obj := parse.Parse(src, token.lexer.variable, 0)
 	if src.Error() != nil {
+		src.ReportError(errors.New("expect } but found nothing"))
 		return nil
 	}
 	id, isId := obj.(string)
 	if isId {
 		obj = token.lexer.parseVariable(src, id)
 	}
-	rightFormatter := obj.(Formatter)
+	rightFormatter, isFormatter := obj.(Formatter)
+	if !isFormatter {
+		return nil
+	}
 	src.Consume1('}')
 	return rightFormatter
 }
@@ -106,6 +114,9 @@ func (lexer *variableLexer) PrefixToken(src *parse.Source) parse.PrefixToken {
 
 func (lexer *variableLexer) InfixToken(src *parse.Source) (parse.InfixToken, int) {
 	skip.UnicodeSpace(src)
+	if src.Error() != nil {
+		return nil, 0
+	}
 	switch src.Peek()[0] {
 	case ',':
 		return lexer.comma, parse.DefaultPrecedence
@@ -137,6 +148,9 @@ type commaToken struct {
 func (token *commaToken) InfixParse(src *parse.Source, left interface{}) interface{} {
 	src.Consume1(',')
 	funcInvocation := parse.Parse(src, token.lexer.formatter, 0).(funcInvocation)
+	if src.Error() != nil {
+		return nil
+	}
 	return token.lexer.parseFunc(src, left.(string), funcInvocation.name, funcInvocation.args)
 }
 
@@ -183,6 +197,9 @@ func (token *funcNameToken) PrefixParse(src *parse.Source) interface{} {
 	var args []string
 	for {
 		skip.UnicodeSpace(src)
+		if src.Error() != nil {
+			return funcInvocation{name, args}
+		}
 		switch src.Peek1() {
 		case ',':
 			src.Consume1(',')
-- 
2.43.0


From 975827aaac58c52e14904255de764c8bbfc71799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:48 +0800
Subject: [PATCH 32/70] fix: report a format that is not implemented instead of
 crashing

---
 msgfmt/parse.go | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/msgfmt/parse.go b/msgfmt/parse.go
index 712d9b6..7c5b75f 100644
--- a/msgfmt/parse.go
+++ b/msgfmt/parse.go
@@ -167,16 +167,7 @@ func newFormatterLexer() *formatterLexer {
 
 func (lexer *formatterLexer) PrefixToken(src *parse.Source) parse.PrefixToken {
 	skip.UnicodeSpace(src)
-	buf, _ := src.PeekN(6)
-	str := string(buf)
-	switch str {
-	case "select":
-		panic("not implemented")
-	case "plural":
-		panic("not implemented")
-	default:
-		return lexer.funcName
-	}
+	return lexer.funcName
 }
 
 func (lexer *formatterLexer) InfixToken(src *parse.Source) (parse.InfixToken, int) {
-- 
2.43.0


From ab4532a36f4c036a46a624a263d96037d39535b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:48 +0800
Subject: [PATCH 33/70] fix: do not crash on arguments that are not pairs of a
 name and a value

---
 msgfmt/custom.go    | 25 +++++++++++--------------
 msgfmt/formatter.go |  6 +++---
 2 files changed, 14 insertions(+), 17 deletions(-)

diff --git a/msgfmt/custom.go b/msgfmt/custom.go
index 282eb66..c769243 100644
--- a/msgfmt/custom.go
+++ b/msgfmt/custom.go
@@ -35,21 +35,18 @@ func (format *GoTimeFormat) FormatterOf(targetKey string, formatArgs []string, s
 	if len(formatArgs) == 0 {
 		formatArgs = append(formatArgs, time.RFC3339)
 	}
-	for i := 0; i < len(sample); i+= 2{
-		key := sample[i].(string)
-		if key == targetKey {
-			_, isTime := sample[i+1].(time.Time)
-			if !isTime {
-				return nil, fmt.Errorf("%s is not time.Time", targetKey)
-			}
-			layout := strings.TrimSpace(formatArgs[0])
-			return &goTimeFormatter{
-				idx: i+1,
-				layout: layout,
-			}, nil
-		}
+	idx := findValueIndex(sample, targetKey)
+	if idx == -1 {
+		return nil, fmt.Errorf("%s not found in properties", targetKey)
+	}
+	_, isTime := sample[idx].(time.Time)
+	if !isTime {
+		return nil, fmt.Errorf("%s is not time.Time", targetKey)
 	}
-	return nil, fmt.Errorf("%s not found in properties", targetKey)
+	return &goTimeFormatter{
+		idx:    idx,
+		layout: strings.TrimSpace(formatArgs[0]),
+	}, nil
 }
 
 type goTimeFormatter struct {
diff --git a/msgfmt/formatter.go b/msgfmt/formatter.go
index 596d28f..e09fa9d 100644
--- a/msgfmt/formatter.go
+++ b/msgfmt/formatter.go
@@ -76,9 +76,9 @@ var toFormatter = newLexer(func(l *lexer) {
 })
 
 func findValueIndex(sample []interface{}, target string) int {
-	for i := 0; i < len(sample); i += 2 {
-		key := sample[i].(string)
-		if key == target {
+	for i := 0; i+1 < len(sample); i += 2 {
+		key, isString := sample[i].(string)
+		if isString && key == target {
 			return i + 1
 		}
 	}
-- 
2.43.0


From 0c7f67fcb49a5db4d97c3155397de224f66f147c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:49 +0800
Subject: [PATCH 34/70] fix: do not lose bytes next to escaped ones when
 formatting bytes

---
 msgfmt/formatter_bytes.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/msgfmt/formatter_bytes.go b/msgfmt/formatter_bytes.go
index 646e5c8..dcceef5 100644
--- a/msgfmt/formatter_bytes.go
+++ b/msgfmt/formatter_bytes.go
@@ -119,14 +119,15 @@ func writeBytes(space []byte, s []byte) []byte {
 	// write string, the fast path, without utf8 and escape support
 	var i int
 	var c byte
-	for i, c = range s {
+	for i = 0; i < len(s); i++ {
+		c = s[i]
 		if c < utf8.RuneSelf && safeSet[c] {
 			space = append(space, c)
 		} else {
 			break
 		}
 	}
-	if i == len(s)-1 {
+	if i == len(s) {
 		return space
 	}
 	return writeBytesSlowPath(space, s[i:])
@@ -139,6 +140,9 @@ func writeBytesSlowPath(space []byte, s []byte) []byte {
 	var b byte
 	for i, b = range s {
 		if b >= utf8.RuneSelf {
+			if start < i {
+				space = append(space, s[start:i]...)
+			}
 			space = append(space, '\\', 'x', hex[b>>4], hex[b&0xF])
 			start = i + 1
 			continue
-- 
2.43.0


From 496bd18135dc3808c6d586c6a942f75bae2c77eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:49 +0800
Subject: [PATCH 35/70] fix: print the empty line to the given writer

---
 msgfmt/msgfmt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msgfmt/msgfmt.go b/msgfmt/msgfmt.go
index e08557b..7b8485a 100644
--- a/msgfmt/msgfmt.go
+++ b/msgfmt/msgfmt.go
@@ -38,7 +38,7 @@ func Fprintln(writer io.Writer, valuesObj ...interface{}) (int, error) {
 func fprintln(writer io.Writer, values []interface{}) (int, error) {
 	switch len(values) {
 	case 0:
-		return fmt.Println()
+		return fmt.Fprintln(writer)
 	case 1:
 		return Fprintf(writer,"{single_value}\n", "single_value", values[0])
 	default:
-- 
2.43.0


From 6852e33b01b645873b8f0979f491a79f2ec17afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:50 +0800
Subject: [PATCH 36/70] fix: format by the arguments given and not by those of
 an earlier call

---
 msgfmt/formatter_checked.go | 49 +++++++++++++++++++++++++++++++++++++
 msgfmt/msgfmt.go            | 13 +++++++---
 2 files changed, 59 insertions(+), 3 deletions(-)
 create mode 100644 msgfmt/formatter_checked.go

diff --git a/msgfmt/formatter_checked.go b/msgfmt/formatter_checked.go
new file mode 100644
index 0000000..cf866cc
--- /dev/null
+++ b/msgfmt/formatter_checked.go
@@ -0,0 +1,49 @@
+package msgfmt
+
+import (
+	"github.com/v2pro/plz/reflect2"
+)
+
+// checkedFormatter formats what has the same names and types as the sample it was compiled for
+// with the compiled formatter, and everything else with a formatter of its own.
+type checkedFormatter struct {
+	format    string
+	args      []checkedArg
+	formatter Formatter
+}
+
+type checkedArg struct {
+	isString bool
+	key      string
+	rtype    uintptr
+}
+
+func newCheckedFormatter(format string, sample []interface{}) *checkedFormatter {
+	args := make([]checkedArg, 0, len(sample)/2)
+	for i := 0; i+1 < len(sample); i += 2 {
+		key, isString := sample[i].(string)
+		// the sample might be gone when the copy of the key is still in use
+		args = append(args, checkedArg{isString, string([]byte(key)), reflect2.RTypeOf(sample[i+1])})
+	}
+	return &checkedFormatter{format: format, args: args, formatter: compile(format, sample)}
+}
+
+func (formatter *checkedFormatter) accepts(kv []interface{}) bool {
+	if len(kv)/2 != len(formatter.args) {
+		return false
+	}
+	for i, arg := range formatter.args {
+		key, isString := kv[i*2].(string)
+		if isString != arg.isString || key != arg.key || reflect2.RTypeOf(kv[i*2+1]) != arg.rtype {
+			return false
+		}
+	}
+	return true
+}
+
+func (formatter *checkedFormatter) Format(space []byte, kv []interface{}) []byte {
+	if !formatter.accepts(kv) {
+		formatter = checkedFormatterOf(formatter.format, kv)
+	}
+	return formatter.formatter.Format(space, kv)
+}
diff --git a/msgfmt/msgfmt.go b/msgfmt/msgfmt.go
index 7b8485a..a13cee2 100644
--- a/msgfmt/msgfmt.go
+++ b/msgfmt/msgfmt.go
@@ -70,11 +70,18 @@ func fprintf(writer io.Writer, format string, kv []interface{}) (int, error) {
 var formatterCache = concurrent.NewMap()
 
 func FormatterOf(format string, sample []interface{}) Formatter {
+	return checkedFormatterOf(format, sample)
+}
+
+func checkedFormatterOf(format string, sample []interface{}) *checkedFormatter {
 	formatterObj, found := formatterCache.Load(format)
 	if found {
-		return formatterObj.(Formatter)
+		formatter := formatterObj.(*checkedFormatter)
+		if formatter.accepts(sample) {
+			return formatter
+		}
 	}
-	formatter := compile(format, sample)
+	formatter := newCheckedFormatter(format, sample)
 	formatterCache.Store(format, formatter)
 	return formatter
-}
\ No newline at end of file
+}
-- 
2.43.0


From 35e363e41ccb37c7d14a9a3ffdef81f76b561d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:50 +0800
Subject: [PATCH 37/70] fix: format a nil stringer like fmt does

---
 msgfmt/formatter_stringer.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/msgfmt/formatter_stringer.go b/msgfmt/formatter_stringer.go
index a6e51aa..37f81fe 100644
--- a/msgfmt/formatter_stringer.go
+++ b/msgfmt/formatter_stringer.go
@@ -1,9 +1,17 @@
 package msgfmt
 
-import "fmt"
+import (
+	"fmt"
+	"reflect"
+)
 
 type stringerFormatter int
 
 func (formatter stringerFormatter) Format(space []byte, kv []interface{}) []byte {
-	return append(space, kv[formatter].(fmt.Stringer).String()...)
+	stringer := kv[formatter].(fmt.Stringer)
+	val := reflect.ValueOf(stringer)
+	if val.Kind() == reflect.Ptr && val.IsNil() {
+		return append(space, "<nil>"...)
+	}
+	return append(space, stringer.String()...)
 }
-- 
2.43.0


From 541a3946e548749017829eae88a540d21ecf7ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:22 +0000
Subject: [PATCH 38/70] fix: write all the digits of 64 bit numbers from ten to
 the nineteenth on

---
 msgfmt/jsonfmt/encoder_int.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msgfmt/jsonfmt/encoder_int.go b/msgfmt/jsonfmt/encoder_int.go
index 22ff9a8..816400f 100644
--- a/msgfmt/jsonfmt/encoder_int.go
+++ b/msgfmt/jsonfmt/encoder_int.go
@@ -201,7 +201,7 @@ func WriteUint64(space []byte, val uint64) []byte {
 	if q6 == 0 {
 		space = writeFirstBuf(space, digits[q5])
 	} else {
-		space = append(space, byte(q6 + '0'))
+		space = writeFirstBuf(space, digits[q6])
 		r6 := q5 - q6*1000
 		space = writeBuf(space, digits[r6])
 	}
-- 
2.43.0


From 25e5c99b5f29a4793af5af531d0fc43611e19a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:46 +0000
Subject: [PATCH 39/70] fix: nil has no type

---
 reflect2/reflect2.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/reflect2/reflect2.go b/reflect2/reflect2.go
index 7cf0365..89c2a1e 100644
--- a/reflect2/reflect2.go
+++ b/reflect2/reflect2.go
@@ -141,6 +141,9 @@ func (cfg Config) Froze() *frozenConfig {
 }
 
 func (cfg *frozenConfig) TypeOf(obj interface{}) Type {
+	if obj == nil {
+		return nil
+	}
 	cacheKey := uintptr(unpackEFace(obj).rtype)
 	typeObj, found := cfg.cache.Load(cacheKey)
 	if found {
@@ -150,6 +153,9 @@ func (cfg *frozenConfig) TypeOf(obj interface{}) Type {
 }
 
 func (cfg *frozenConfig) Type2(type1 reflect.Type) Type {
+	if type1 == nil {
+		return nil
+	}
 	cacheKey := uintptr(unpackEFace(type1).data)
 	typeObj, found := cfg.cache.Load(cacheKey)
 	if found {
-- 
2.43.0


From f3534a5646acdccfbc19063b9283ba483ac723ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:24 +0800
Subject: [PATCH 40/70] fix: leave out unexported fields whatever letter their
 name starts with

---
 msgfmt/jsonfmt/encoder.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/msgfmt/jsonfmt/encoder.go b/msgfmt/jsonfmt/encoder.go
index 4a4e1e6..3fcba0c 100644
--- a/msgfmt/jsonfmt/encoder.go
+++ b/msgfmt/jsonfmt/encoder.go
@@ -4,7 +4,6 @@ import (
 	"unsafe"
 	"reflect"
 	"strings"
-	"unicode"
 	"fmt"
 	"encoding/json"
 	"context"
@@ -292,7 +291,7 @@ func encoderOfStruct(cfg *frozenConfig, prefix string, valType reflect2.StructTy
 }
 
 func getFieldName(cfg *frozenConfig, field reflect2.StructField) string {
-	if !cfg.includesUnexported && !unicode.IsUpper(rune(field.Name()[0])) {
+	if !cfg.includesUnexported && field.PkgPath() != "" {
 		return ""
 	}
 	if field.Type().Kind() == reflect.Func {
-- 
2.43.0


From 7e4cd09f88fb25bc3d9f48fd7d2f9afc71856da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:23 +0800
Subject: [PATCH 41/70] fix: do not keep pointers to the stack of a goroutine
 that logged

The properties were hidden from escape analysis, but are kept with the log
site: once the stack was freed, the garbage collector found a bad pointer and
ended the process.
---
 countlog/context.go  | 45 ++++++++++------------------
 countlog/countlog.go | 71 +++++++++++++-------------------------------
 2 files changed, 36 insertions(+), 80 deletions(-)

diff --git a/countlog/context.go b/countlog/context.go
index 3a2e8b0..1e25371 100644
--- a/countlog/context.go
+++ b/countlog/context.go
@@ -3,7 +3,6 @@ package countlog
 import (
 	"context"
 	"github.com/v2pro/plz/countlog/spi"
-	"unsafe"
 )
 
 func Ctx(ctx context.Context) *Context {
@@ -38,24 +37,21 @@ func (ctx *Context) Trace(event string, properties ...interface{}) {
 	if LevelTrace < spi.MinLevel {
 		return
 	}
-	ptr := unsafe.Pointer(&properties)
 	if LevelTrace < ctx.suppressedMinLevel {
-		addMemo(LevelTrace, event, "", ctx, nil, castEmptyInterfaces(uintptr(ptr)))
+		addMemo(LevelTrace, event, "", ctx, nil, properties)
 		return
 	}
-	log(LevelTrace, event, "", ctx, nil, castEmptyInterfaces(uintptr(ptr)))
+	log(LevelTrace, event, "", ctx, nil, properties)
 }
 
 func (ctx *Context) TraceCall(event string, err error, properties ...interface{}) error {
 	if err != nil {
-		ptr := unsafe.Pointer(&properties)
-		return log(LevelWarn, event, "call", ctx, err, castEmptyInterfaces(uintptr(ptr)))
+		return log(LevelWarn, event, "call", ctx, err, properties)
 	}
 	if LevelTrace < spi.MinLevel {
 		return nil
 	}
-	ptr := unsafe.Pointer(&properties)
-	log(LevelTrace, event, "call", ctx, err, castEmptyInterfaces(uintptr(ptr)))
+	log(LevelTrace, event, "call", ctx, err, properties)
 	return nil
 }
 
@@ -63,20 +59,17 @@ func (ctx *Context) Debug(event string, properties ...interface{}) {
 	if LevelDebug < spi.MinLevel {
 		return
 	}
-	ptr := unsafe.Pointer(&properties)
-	log(LevelDebug, event, "", ctx, nil, castEmptyInterfaces(uintptr(ptr)))
+	log(LevelDebug, event, "", ctx, nil, properties)
 }
 
 func (ctx *Context) DebugCall(event string, err error, properties ...interface{}) error {
 	if err != nil {
-		ptr := unsafe.Pointer(&properties)
-		return log(LevelWarn, event, "call", ctx, err, castEmptyInterfaces(uintptr(ptr)))
+		return log(LevelWarn, event, "call", ctx, err, properties)
 	}
 	if LevelDebug < spi.MinLevel {
 		return nil
 	}
-	ptr := unsafe.Pointer(&properties)
-	log(LevelDebug, event, "call", ctx, err, castEmptyInterfaces(uintptr(ptr)))
+	log(LevelDebug, event, "call", ctx, err, properties)
 	return nil
 }
 
@@ -84,49 +77,41 @@ func (ctx *Context) Info(event string, properties ...interface{}) {
 	if LevelInfo < spi.MinLevel {
 		return
 	}
-	ptr := unsafe.Pointer(&properties)
-	log(LevelInfo, event, "", ctx, nil, castEmptyInterfaces(uintptr(ptr)))
+	log(LevelInfo, event, "", ctx, nil, properties)
 }
 
 func (ctx *Context) InfoCall(event string, err error, properties ...interface{}) error {
 	if err != nil {
-		ptr := unsafe.Pointer(&properties)
-		return log(LevelWarn, event, "call", ctx, err, castEmptyInterfaces(uintptr(ptr)))
+		return log(LevelWarn, event, "call", ctx, err, properties)
 	}
 	if LevelInfo < spi.MinLevel {
 		return nil
 	}
-	ptr := unsafe.Pointer(&properties)
-	log(LevelInfo, event, "call", ctx, err, castEmptyInterfaces(uintptr(ptr)))
+	log(LevelInfo, event, "call", ctx, err, properties)
 	return nil
 }
 
 func (ctx *Context) LogAccess(event string, err error, properties ...interface{}) error {
 	if err != nil {
-		ptr := unsafe.Pointer(&properties)
-		return log(LevelError, event, "call", ctx, err, castEmptyInterfaces(uintptr(ptr)))
+		return log(LevelError, event, "call", ctx, err, properties)
 	}
 	if LevelInfo < spi.MinLevel {
 		return nil
 	}
-	ptr := unsafe.Pointer(&properties)
-	log(LevelInfo, event, "call", ctx, err, castEmptyInterfaces(uintptr(ptr)))
+	log(LevelInfo, event, "call", ctx, err, properties)
 	return nil
 }
 
 func (ctx *Context) Warn(event string, properties ...interface{}) {
-	ptr := unsafe.Pointer(&properties)
-	log(LevelWarn, event, "", ctx, nil, castEmptyInterfaces(uintptr(ptr)))
+	log(LevelWarn, event, "", ctx, nil, properties)
 }
 
 func (ctx *Context) Error(event string, properties ...interface{}) {
-	ptr := unsafe.Pointer(&properties)
-	log(LevelError, event, "", ctx, nil, castEmptyInterfaces(uintptr(ptr)))
+	log(LevelError, event, "", ctx, nil, properties)
 }
 
 func (ctx *Context) Fatal(event string, properties ...interface{}) {
-	ptr := unsafe.Pointer(&properties)
-	log(LevelFatal, event, "", ctx, nil, castEmptyInterfaces(uintptr(ptr)))
+	log(LevelFatal, event, "", ctx, nil, properties)
 }
 
 func (ctx *Context) Add(key string, value interface{}) {
diff --git a/countlog/countlog.go b/countlog/countlog.go
index 05abc1f..86882ac 100644
--- a/countlog/countlog.go
+++ b/countlog/countlog.go
@@ -1,7 +1,6 @@
 package countlog
 
 import (
-	"unsafe"
 	"runtime"
 	"time"
 	"github.com/v2pro/plz/countlog/spi"
@@ -38,22 +37,19 @@ func Trace(event string, properties ...interface{}) {
 	if LevelTrace < spi.MinLevel {
 		return
 	}
-	ptr := unsafe.Pointer(&properties)
-	log(LevelTrace, event, "", nil, nil, castEmptyInterfaces(uintptr(ptr)))
+	log(LevelTrace, event, "", nil, nil, properties)
 }
 
 // TraceCall will calculate stats in TRACE level
 // TraceCall will output individual log entries in TRACE_CALL level
 func TraceCall(event string, err error, properties ...interface{}) error {
 	if err != nil {
-		ptr := unsafe.Pointer(&properties)
-		return log(LevelWarn, event, "call", nil, err, castEmptyInterfaces(uintptr(ptr)))
+		return log(LevelWarn, event, "call", nil, err, properties)
 	}
 	if LevelTrace < spi.MinLevel {
 		return nil
 	}
-	ptr := unsafe.Pointer(&properties)
-	log(LevelTrace, event, "call", nil, err, castEmptyInterfaces(uintptr(ptr)))
+	log(LevelTrace, event, "call", nil, err, properties)
 	return nil
 }
 
@@ -61,22 +57,19 @@ func Debug(event string, properties ...interface{}) {
 	if LevelDebug < spi.MinLevel {
 		return
 	}
-	ptr := unsafe.Pointer(&properties)
-	log(LevelDebug, event, "", nil, nil, castEmptyInterfaces(uintptr(ptr)))
+	log(LevelDebug, event, "", nil, nil, properties)
 }
 
 // DebugCall will calculate stats in DEBUG level
 // DebugCall will output individual log entries in DEBUG_CALL level (TRACE includes DEBUG_CALL)
 func DebugCall(event string, err error, properties ...interface{}) error {
 	if err != nil {
-		ptr := unsafe.Pointer(&properties)
-		return log(LevelWarn, event, "call", nil, err, castEmptyInterfaces(uintptr(ptr)))
+		return log(LevelWarn, event, "call", nil, err, properties)
 	}
 	if LevelDebug < spi.MinLevel {
 		return nil
 	}
-	ptr := unsafe.Pointer(&properties)
-	log(LevelDebug, event, "call", nil, err, castEmptyInterfaces(uintptr(ptr)))
+	log(LevelDebug, event, "call", nil, err, properties)
 	return nil
 }
 
@@ -84,46 +77,39 @@ func Info(event string, properties ...interface{}) {
 	if LevelInfo < spi.MinLevel {
 		return
 	}
-	ptr := unsafe.Pointer(&properties)
-	log(LevelInfo, event, "", nil, nil, castEmptyInterfaces(uintptr(ptr)))
+	log(LevelInfo, event, "", nil, nil, properties)
 }
 
 // InfoCall will calculate stats in INFO level
 // InfoCall will output individual log entries in INFO_CALL level (DEBUG includes INFO_CALL)
 func InfoCall(event string, err error, properties ...interface{}) error {
 	if err != nil {
-		ptr := unsafe.Pointer(&properties)
-		return log(LevelWarn, event, "call", nil, err, castEmptyInterfaces(uintptr(ptr)))
+		return log(LevelWarn, event, "call", nil, err, properties)
 	}
 	if LevelInfo < spi.MinLevel {
 		return nil
 	}
-	ptr := unsafe.Pointer(&properties)
-	log(LevelInfo, event, "call", nil, err, castEmptyInterfaces(uintptr(ptr)))
+	log(LevelInfo, event, "call", nil, err, properties)
 	return nil
 }
 
 func Warn(event string, properties ...interface{}) {
-	ptr := unsafe.Pointer(&properties)
-	log(LevelWarn, event, "", nil, nil, castEmptyInterfaces(uintptr(ptr)))
+	log(LevelWarn, event, "", nil, nil, properties)
 }
 
 func Error(event string, properties ...interface{}) {
-	ptr := unsafe.Pointer(&properties)
-	log(LevelError, event, "", nil, nil, castEmptyInterfaces(uintptr(ptr)))
+	log(LevelError, event, "", nil, nil, properties)
 }
 
 func Fatal(event string, properties ...interface{}) {
-	ptr := unsafe.Pointer(&properties)
-	log(LevelFatal, event, "", nil, nil, castEmptyInterfaces(uintptr(ptr)))
+	log(LevelFatal, event, "", nil, nil, properties)
 }
 
 func Log(level int, event string, properties ...interface{}) {
 	if level < spi.MinLevel {
 		return
 	}
-	ptr := unsafe.Pointer(&properties)
-	log(level, event, "", nil, nil, castEmptyInterfaces(uintptr(ptr)))
+	log(level, event, "", nil, nil, properties)
 }
 
 func LogPanic(recovered interface{}, properties ...interface{}) interface{} {
@@ -152,17 +138,15 @@ func log(level int, eventName string, agg string, ctx *Context, err error, prope
 		Timestamp:  time.Now(),
 		Properties: properties,
 	}
-	ptr := unsafe.Pointer(event)
-	castedEvent := castEvent(uintptr(ptr))
-	handler.Handle(castedEvent)
-	if castedEvent.Error != nil {
+	handler.Handle(event)
+	if event.Error != nil {
 		formatter := msgfmt.FormatterOf(eventName, properties)
 		errMsg := formatter.Format(nil, properties)
 		errMsg = append(errMsg, ": "...)
-		errMsg = append(errMsg, castedEvent.Error.Error()...)
-		castedEvent.Error = errors.New(string(errMsg))
+		errMsg = append(errMsg, event.Error.Error()...)
+		event.Error = errors.New(string(errMsg))
 	}
-	return castedEvent.Error
+	return event.Error
 }
 
 func addMemo(level int, eventName string, agg string, ctx *Context, err error, properties []interface{}) {
@@ -173,28 +157,15 @@ func addMemo(level int, eventName string, agg string, ctx *Context, err error, p
 		Timestamp:  time.Now(),
 		Properties: properties,
 	}
-	ptr := unsafe.Pointer(event)
-	castedEvent := castEvent(uintptr(ptr))
-	if castedEvent.Error != nil {
+	if event.Error != nil {
 		formatter := msgfmt.FormatterOf(eventName, properties)
 		errMsg := formatter.Format(nil, properties)
 		errMsg = append(errMsg, ": "...)
-		errMsg = append(errMsg, castedEvent.Error.Error()...)
-		castedEvent.Error = errors.New(string(errMsg))
+		errMsg = append(errMsg, event.Error.Error()...)
+		event.Error = errors.New(string(errMsg))
 	}
 }
 
-func castEmptyInterfaces(ptr uintptr) []interface{} {
-	return *(*[]interface{})(unsafe.Pointer(ptr))
-}
-
-func castEvent(ptr uintptr) *spi.Event {
-	return (*spi.Event)(unsafe.Pointer(ptr))
-}
-func castString(ptr uintptr) string {
-	return *(*string)(unsafe.Pointer(ptr))
-}
-
 func getHandler(event string, agg string, ctx *Context, properties []interface{}) spi.EventHandler {
 	handler, found := handlerCache.Load(event)
 	if found {
-- 
2.43.0


From c99bc1a018a748794762ec166d09cc864a70d34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:44 +0000
Subject: [PATCH 42/70] fix: do not keep pointers to a stack while formatting

The arguments were hidden from escape analysis although objects on the heap
point to them while they are formatted: when the stack grew meanwhile, the
garbage collector found a bad pointer and ended the process.
---
 msgfmt/msgfmt.go | 22 +++++-----------------
 1 file changed, 5 insertions(+), 17 deletions(-)

diff --git a/msgfmt/msgfmt.go b/msgfmt/msgfmt.go
index a13cee2..6a079bd 100644
--- a/msgfmt/msgfmt.go
+++ b/msgfmt/msgfmt.go
@@ -4,10 +4,8 @@ import (
 	"io"
 	"os"
 	"sync"
-	"unsafe"
 	"fmt"
 	"github.com/v2pro/plz/concurrent"
-	"github.com/v2pro/plz/reflect2"
 )
 
 var bufPool = &sync.Pool{
@@ -16,22 +14,16 @@ var bufPool = &sync.Pool{
 	},
 }
 
-func Sprintf(format string, kvObj ...interface{}) string {
-	ptr := reflect2.NoEscape(unsafe.Pointer(&kvObj))
-	kv := *(*[]interface{})(ptr)
+func Sprintf(format string, kv ...interface{}) string {
 	buf := FormatterOf(format, kv).Format(nil, kv)
 	return string(buf)
 }
 
-func Println(valuesObj ...interface{}) (int, error) {
-	ptr := reflect2.NoEscape(unsafe.Pointer(&valuesObj))
-	values := *(*[]interface{})(ptr)
+func Println(values ...interface{}) (int, error) {
 	return fprintln(os.Stdout, values)
 }
 
-func Fprintln(writer io.Writer, valuesObj ...interface{}) (int, error) {
-	ptr := reflect2.NoEscape(unsafe.Pointer(&valuesObj))
-	values := *(*[]interface{})(ptr)
+func Fprintln(writer io.Writer, values ...interface{}) (int, error) {
 	return fprintln(writer, values)
 }
 
@@ -46,15 +38,11 @@ func fprintln(writer io.Writer, values []interface{}) (int, error) {
 	}
 }
 
-func Printf(format string, kvObj ...interface{}) (int, error) {
-	ptr := reflect2.NoEscape(unsafe.Pointer(&kvObj))
-	kv := *(*[]interface{})(ptr)
+func Printf(format string, kv ...interface{}) (int, error) {
 	return fprintf(os.Stdout, format, kv)
 }
 
-func Fprintf(writer io.Writer, format string, kvObj ...interface{}) (int, error) {
-	ptr := reflect2.NoEscape(unsafe.Pointer(&kvObj))
-	kv := *(*[]interface{})(ptr)
+func Fprintf(writer io.Writer, format string, kv ...interface{}) (int, error) {
 	return fprintf(writer, format, kv)
 }
 
-- 
2.43.0


From 8b4ce4cf837c3fb6f1393d86e557be08cbd21e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:02 +0800
Subject: [PATCH 43/70] fix: show the level in human readable records

The table of the names was filled from itself.
---
 countlog/spi/color.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/countlog/spi/color.go b/countlog/spi/color.go
index 9fed7f8..b9b4ff1 100644
--- a/countlog/spi/color.go
+++ b/countlog/spi/color.go
@@ -1,5 +1,7 @@
 package spi
 
+import "fmt"
+
 var coloredNames = map[int]string{}
 
 func init() {
@@ -15,7 +17,7 @@ func init() {
 		LevelFatal,
 	}
 	for _, level := range levels {
-		coloredNames[level] = ColoredLevelName(level)
+		coloredNames[level] = fmt.Sprintf("\x1b[%d;1m[%s]\x1b[0m ", getColor(level), LevelName(level))
 		//coloredNames[level] = msgfmt.Sprintf("\x1b[{color};1m[{level}]\x1b[0m ",
 		//	"color", getColor(level), "level", LevelName(level))
 	}
-- 
2.43.0


From fb3538a8f5459f81fc4eb1ed2f5837dca56c2203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:02 +0800
Subject: [PATCH 44/70] fix: log a panic without 64k of zeros and without
 writing to the properties of the caller

---
 countlog/countlog.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/countlog/countlog.go b/countlog/countlog.go
index 86882ac..bde061f 100644
--- a/countlog/countlog.go
+++ b/countlog/countlog.go
@@ -117,9 +117,10 @@ func LogPanic(recovered interface{}, properties ...interface{}) interface{} {
 		return nil
 	}
 	buf := make([]byte, 1<<16)
-	runtime.Stack(buf, false)
+	buf = buf[:runtime.Stack(buf, false)]
 	if len(properties) > 0 {
-		properties = append(properties, "err", recovered, "stacktrace", string(buf))
+		// the slice belongs to the caller
+		properties = append(properties[:len(properties):len(properties)], "err", recovered, "stacktrace", string(buf))
 		Fatal("event!panic", properties...)
 	} else {
 		Fatal("event!panic", "err", recovered, "stacktrace", string(buf))
-- 
2.43.0


From c4197b2dfcfed59aaca223008906d1d5af6785f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:02 +0800
Subject: [PATCH 45/70] fix: suppress all the levels below the given one

Only trace events were suppressed.
---
 countlog/context.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/countlog/context.go b/countlog/context.go
index 1e25371..712078a 100644
--- a/countlog/context.go
+++ b/countlog/context.go
@@ -59,6 +59,10 @@ func (ctx *Context) Debug(event string, properties ...interface{}) {
 	if LevelDebug < spi.MinLevel {
 		return
 	}
+	if LevelDebug < ctx.suppressedMinLevel {
+		addMemo(LevelDebug, event, "", ctx, nil, properties)
+		return
+	}
 	log(LevelDebug, event, "", ctx, nil, properties)
 }
 
@@ -77,6 +81,10 @@ func (ctx *Context) Info(event string, properties ...interface{}) {
 	if LevelInfo < spi.MinLevel {
 		return
 	}
+	if LevelInfo < ctx.suppressedMinLevel {
+		addMemo(LevelInfo, event, "", ctx, nil, properties)
+		return
+	}
 	log(LevelInfo, event, "", ctx, nil, properties)
 }
 
-- 
2.43.0


From dcbcb0eaddfdfef943a4def7e3583fbeb7ace2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:02 +0800
Subject: [PATCH 46/70] fix: write valid json with the error of the event

The names timestamp and location were not quoted, names of events and
properties not escaped, and the error of a failed call was left out.
---
 countlog/output/json/json.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/countlog/output/json/json.go b/countlog/output/json/json.go
index 413a0df..c5a1567 100644
--- a/countlog/output/json/json.go
+++ b/countlog/output/json/json.go
@@ -12,12 +12,12 @@ type JsonFormat struct {
 
 func (format *JsonFormat) FormatterOf(site *spi.LogSite) output.Formatter {
 	formatter := &jsonFormatter{
-		prefix:           `{"event":"` + site.Event + `"`,
-		suffix:           `,location:"` + site.Location() + `"}` + "\n",
+		prefix:           string(jsonfmt.WriteString([]byte(`{"event":`), site.Event)),
+		suffix:           string(jsonfmt.WriteString([]byte(`,"location":`), site.Location())) + "}\n",
 		timestampEncoder: jsonfmt.EncoderOf(reflect2.TypeOf(int64(0))),
 	}
 	for i := 0; i < len(site.Sample); i += 2 {
-		prefix := `"` + site.Sample[i].(string) + `":`
+		prefix := string(jsonfmt.WriteString(nil, site.Sample[i].(string))) + ":"
 		formatter.props = append(formatter.props, jsonFormatterProp{
 			prefix:  prefix,
 			idx:     i + 1,
@@ -47,7 +47,11 @@ func (formatter *jsonFormatter) Format(space []byte, event *spi.Event) []byte {
 		space = append(space, prop.prefix...)
 		space = prop.encoder.Encode(nil, space, reflect2.PtrOf(event.Properties[prop.idx]))
 	}
-	space = append(space, ",timestamp:"...)
+	if event.Error != nil {
+		space = append(space, `,"error":`...)
+		space = jsonfmt.WriteString(space, event.Error.Error())
+	}
+	space = append(space, `,"timestamp":`...)
 	space = formatter.timestampEncoder.Encode(nil, space, reflect2.PtrOf(event.Timestamp.UnixNano()))
 	space = append(space, formatter.suffix...)
 	return space
-- 
2.43.0


From e492e8bb5a6e2ab2176ebcbe8bef8ec055088eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:10 +0800
Subject: [PATCH 47/70] fix: log properties whatever their names are

A property whose name is no identifier was replaced by a message about an
invalid format, the second of two properties of one name by the first, and a
name that is no string or a missing value crashed the caller.
---
 countlog/output/compact/compact.go |  8 ++++----
 countlog/output/compact/default.go | 11 +++++++++++
 countlog/output/format.go          | 18 +++++++++++++++++-
 countlog/output/hrf/ctx.go         |  5 ++++-
 countlog/output/hrf/hrf.go         | 24 +++++++++++++++---------
 countlog/output/hrf/prop.go        | 13 ++++++++++++-
 countlog/output/hrf/timer.go       |  1 -
 countlog/output/json/json.go       | 14 +++++++++++---
 countlog/stats/stats.go            |  7 ++++---
 countlog/stats/window.go           | 14 +++++++++-----
 10 files changed, 87 insertions(+), 28 deletions(-)

diff --git a/countlog/output/compact/compact.go b/countlog/output/compact/compact.go
index 4532bb4..34fc6a6 100644
--- a/countlog/output/compact/compact.go
+++ b/countlog/output/compact/compact.go
@@ -31,10 +31,10 @@ func (format *Format) FormatterOf(site *spi.LogSite) output.Formatter {
 
 	formatters = append(formatters, &errorFormatter{})
 	for i := 0; i < len(sample); i += 2 {
-		key := sample[i].(string)
-		pattern := "||" + key + "={" + key + "}"
-		formatters = append(formatters, &defaultFormatter{
-			msgfmt.FormatterOf(pattern, sample),
+		key, value := output.PropertyAt(sample, i)
+		formatters = append(formatters, fixedFormatter("||"+key+"="), &propFormatter{
+			idx: i,
+			fmt: msgfmt.FormatterOf("{value}", value),
 		})
 	}
 
diff --git a/countlog/output/compact/default.go b/countlog/output/compact/default.go
index e5e4526..13e0e24 100644
--- a/countlog/output/compact/default.go
+++ b/countlog/output/compact/default.go
@@ -1,6 +1,7 @@
 package compact
 
 import (
+	"github.com/v2pro/plz/countlog/output"
 	"github.com/v2pro/plz/countlog/spi"
 	"github.com/v2pro/plz/msgfmt"
 )
@@ -12,3 +13,13 @@ type defaultFormatter struct {
 func (formatter *defaultFormatter) Format(space []byte, event *spi.Event) []byte {
 	return formatter.fmt.Format(space, event.Properties)
 }
+
+type propFormatter struct {
+	idx int
+	fmt msgfmt.Formatter
+}
+
+func (formatter *propFormatter) Format(space []byte, event *spi.Event) []byte {
+	_, value := output.PropertyAt(event.Properties, formatter.idx)
+	return formatter.fmt.Format(space, value)
+}
diff --git a/countlog/output/format.go b/countlog/output/format.go
index f08a233..cda3d1f 100644
--- a/countlog/output/format.go
+++ b/countlog/output/format.go
@@ -1,6 +1,9 @@
 package output
 
-import "github.com/v2pro/plz/countlog/spi"
+import (
+	"fmt"
+	"github.com/v2pro/plz/countlog/spi"
+)
 
 type Format interface {
 	FormatterOf(site *spi.LogSite) Formatter
@@ -10,6 +13,19 @@ type Formatter interface {
 	Format(space []byte, event *spi.Event) []byte
 }
 
+// PropertyAt returns the name of the property at position i, and its value in a way msgfmt
+// can format as {value}. Names are not put into formats, as they might not be identifiers.
+func PropertyAt(properties []interface{}, i int) (string, []interface{}) {
+	name, isString := properties[i].(string)
+	if !isString {
+		name = fmt.Sprint(properties[i])
+	}
+	if i+1 == len(properties) {
+		return name, nil
+	}
+	return name, []interface{}{"value", properties[i+1]}
+}
+
 type Formatters []Formatter
 
 func (formatters Formatters) Format(space []byte, event *spi.Event) []byte {
diff --git a/countlog/output/hrf/ctx.go b/countlog/output/hrf/ctx.go
index 9e53325..d563197 100644
--- a/countlog/output/hrf/ctx.go
+++ b/countlog/output/hrf/ctx.go
@@ -2,13 +2,16 @@ package hrf
 
 import (
 	"github.com/v2pro/plz/msgfmt"
+	"github.com/v2pro/plz/countlog/output"
 	"github.com/v2pro/plz/countlog/spi"
 )
 
 type ctxFormatter struct {
+	idx int
 	fmt msgfmt.Formatter
 }
 
 func (formatter *ctxFormatter) Format(space []byte, event *spi.Event) []byte {
-	return formatter.fmt.Format(space, spi.GetLogContext(event.Context).Properties)
+	_, value := output.PropertyAt(spi.GetLogContext(event.Context).Properties, formatter.idx)
+	return formatter.fmt.Format(space, value)
 }
\ No newline at end of file
diff --git a/countlog/output/hrf/hrf.go b/countlog/output/hrf/hrf.go
index a617dd7..87bb41e 100644
--- a/countlog/output/hrf/hrf.go
+++ b/countlog/output/hrf/hrf.go
@@ -21,7 +21,7 @@ func (format *Format) FormatterOf(site *spi.LogSite) output.Formatter {
 		formatters = append(formatters, fixedFormatter(site.Event[len("callee!"):]))
 	} else {
 		formatters = append(formatters,
-			&propFormatter{msgfmt.FormatterOf(site.Event, site.Sample)})
+			&messageFormatter{msgfmt.FormatterOf(site.Event, site.Sample)})
 	}
 	if format.ShowTimestamp {
 		formatters = append(formatters, fixedFormatter("\n\x1b[90;1mtimestamp: "))
@@ -32,22 +32,28 @@ func (format *Format) FormatterOf(site *spi.LogSite) output.Formatter {
 	ctx := site.LogContext()
 	if ctx != nil {
 		for i := 0; i < len(ctx.Properties); i += 2 {
-			key := ctx.Properties[i].(string)
-			formatters = append(formatters, fixedFormatter("\x1b[90;1m"))
+			key, value := output.PropertyAt(ctx.Properties, i)
+			formatters = append(formatters, fixedFormatter("\x1b[90;1m\n"+key+": "))
 			formatters = append(formatters, &ctxFormatter{
-				msgfmt.FormatterOf("\n"+key+": {"+key+"}", ctx.Properties),
+				idx: i,
+				fmt: msgfmt.FormatterOf("{value}", value),
 			})
 			formatters = append(formatters, fixedFormatter("\x1b[0m"))
 		}
 	}
 	for i := 0; i < len(site.Sample); i += 2 {
-		key := site.Sample[i].(string)
-		formatters = append(formatters, fixedFormatter("\x1b[90;1m"))
-		if key == "timer" {
-			formatters = append(formatters, &timerFormatter{idx: i+1})
+		key, value := output.PropertyAt(site.Sample, i)
+		formatters = append(formatters, fixedFormatter("\x1b[90;1m\n"+key+": "))
+		isTimer := false
+		if key == "timer" && value != nil {
+			_, isTimer = value[1].(int64)
+		}
+		if isTimer {
+			formatters = append(formatters, &timerFormatter{idx: i + 1})
 		} else {
 			formatters = append(formatters, &propFormatter{
-				msgfmt.FormatterOf("\n"+key+": {"+key+"}", site.Sample),
+				idx: i,
+				fmt: msgfmt.FormatterOf("{value}", value),
 			})
 		}
 		formatters = append(formatters, fixedFormatter("\x1b[0m"))
diff --git a/countlog/output/hrf/prop.go b/countlog/output/hrf/prop.go
index e88f4d0..2763bf4 100644
--- a/countlog/output/hrf/prop.go
+++ b/countlog/output/hrf/prop.go
@@ -1,14 +1,25 @@
 package hrf
 
 import (
+	"github.com/v2pro/plz/countlog/output"
 	"github.com/v2pro/plz/countlog/spi"
 	"github.com/v2pro/plz/msgfmt"
 )
 
+type messageFormatter struct {
+	fmt msgfmt.Formatter
+}
+
+func (formatter *messageFormatter) Format(space []byte, event *spi.Event) []byte {
+	return formatter.fmt.Format(space, event.Properties)
+}
+
 type propFormatter struct {
+	idx int
 	fmt msgfmt.Formatter
 }
 
 func (formatter *propFormatter) Format(space []byte, event *spi.Event) []byte {
-	return formatter.fmt.Format(space, event.Properties)
+	_, value := output.PropertyAt(event.Properties, formatter.idx)
+	return formatter.fmt.Format(space, value)
 }
diff --git a/countlog/output/hrf/timer.go b/countlog/output/hrf/timer.go
index 2f012ee..28e6104 100644
--- a/countlog/output/hrf/timer.go
+++ b/countlog/output/hrf/timer.go
@@ -11,7 +11,6 @@ type timerFormatter struct {
 
 func (formatter *timerFormatter) Format(space []byte, event *spi.Event) []byte {
 	latency := event.Timestamp.UnixNano() - event.Properties[formatter.idx].(int64)
-	space = append(space, "\ntimer: "...)
 	space = append(space, time.Duration(latency).String()...)
 	return space
 }
diff --git a/countlog/output/json/json.go b/countlog/output/json/json.go
index c5a1567..083e268 100644
--- a/countlog/output/json/json.go
+++ b/countlog/output/json/json.go
@@ -17,11 +17,15 @@ func (format *JsonFormat) FormatterOf(site *spi.LogSite) output.Formatter {
 		timestampEncoder: jsonfmt.EncoderOf(reflect2.TypeOf(int64(0))),
 	}
 	for i := 0; i < len(site.Sample); i += 2 {
-		prefix := string(jsonfmt.WriteString(nil, site.Sample[i].(string))) + ":"
+		name, value := output.PropertyAt(site.Sample, i)
+		prefix := string(jsonfmt.WriteString(nil, name)) + ":"
+		if value == nil {
+			value = []interface{}{"value", nil}
+		}
 		formatter.props = append(formatter.props, jsonFormatterProp{
 			prefix:  prefix,
 			idx:     i + 1,
-			encoder: jsonfmt.EncoderOf(reflect2.TypeOf(site.Sample[i+1])),
+			encoder: jsonfmt.EncoderOf(reflect2.TypeOf(value[1])),
 		})
 	}
 	return formatter
@@ -45,7 +49,11 @@ func (formatter *jsonFormatter) Format(space []byte, event *spi.Event) []byte {
 	for _, prop := range formatter.props {
 		space = append(space, ',')
 		space = append(space, prop.prefix...)
-		space = prop.encoder.Encode(nil, space, reflect2.PtrOf(event.Properties[prop.idx]))
+		var value interface{}
+		if prop.idx < len(event.Properties) {
+			value = event.Properties[prop.idx]
+		}
+		space = prop.encoder.Encode(nil, space, reflect2.PtrOf(value))
 	}
 	if event.Error != nil {
 		space = append(space, `,"error":`...)
diff --git a/countlog/stats/stats.go b/countlog/stats/stats.go
index 6036ca9..7186db4 100644
--- a/countlog/stats/stats.go
+++ b/countlog/stats/stats.go
@@ -30,9 +30,10 @@ func (aggregator *EventAggregator) HandlerOf(site *spi.LogSite) spi.EventHandler
 		return aggregator.createHandler(site.Agg, site)
 	}
 	sample := site.Sample
-	for i := 0; i < len(sample); i += 2 {
-		if sample[i].(string) == "agg" {
-			return aggregator.createHandler(sample[i+1].(string), site)
+	for i := 0; i+1 < len(sample); i += 2 {
+		agg, isString := sample[i+1].(string)
+		if sample[i] == "agg" && isString {
+			return aggregator.createHandler(agg, site)
 		}
 	}
 	return nil
diff --git a/countlog/stats/window.go b/countlog/stats/window.go
index 9c54cca..99c9564 100644
--- a/countlog/stats/window.go
+++ b/countlog/stats/window.go
@@ -95,15 +95,19 @@ type dimensionExtractor interface {
 
 func newDimensionExtractor(site *spi.LogSite) (dimensionExtractor, int) {
 	var dimensionElems []string
-	for i := 0; i < len(site.Sample); i += 2 {
-		key := site.Sample[i].(string)
+	for i := 0; i+1 < len(site.Sample); i += 2 {
+		key, _ := site.Sample[i].(string)
 		if key == "dim" {
-			dimensionElems = strings.Split(site.Sample[i+1].(string), ",")
+			dim, _ := site.Sample[i+1].(string)
+			dimensionElems = strings.Split(dim, ",")
 		}
 	}
 	indices := make([]propIdx, 0, len(dimensionElems))
-	for i := 0; i < len(site.Sample); i += 2 {
-		key := site.Sample[i].(string)
+	for i := 0; i+1 < len(site.Sample); i += 2 {
+		key, isString := site.Sample[i].(string)
+		if !isString {
+			continue
+		}
 		for _, dimension := range dimensionElems {
 			if key == dimension {
 				indices = append(indices, propIdx(i))
-- 
2.43.0


From df085c65a64257d0b66a3882b155cddbc40e813f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:41 +0800
Subject: [PATCH 48/70] fix: do not crash the caller when there can be no
 handler for an event

Event writers and aggregators are called for the first event of a name, outside
of what recovers from their panics.
---
 countlog/countlog.go |  6 ++++--
 countlog/root.go     | 23 +++++++++++++++++------
 2 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/countlog/countlog.go b/countlog/countlog.go
index bde061f..d225120 100644
--- a/countlog/countlog.go
+++ b/countlog/countlog.go
@@ -186,7 +186,9 @@ func newHandler(eventName string, agg string, ctx *Context, properties []interfa
 		Line:   callerLine,
 		Sample: properties,
 	}
-	handler := newRootHandler(site, nomalModeOnPanic)
-	handlerCache.Store(eventName, handler)
+	handler, ok := newRootHandler(site, nomalModeOnPanic)
+	if ok {
+		handlerCache.Store(eventName, handler)
+	}
 	return handler
 }
diff --git a/countlog/root.go b/countlog/root.go
index 1f46859..ea17f4c 100644
--- a/countlog/root.go
+++ b/countlog/root.go
@@ -10,21 +10,29 @@ import (
 
 type panicHandler func(recovered interface{}, event *spi.Event, site *spi.LogSite)
 
-func newRootHandler(site *spi.LogSite, onPanic panicHandler) spi.EventHandler {
+// newRootHandler returns a handler that does nothing, and is not to be kept, if there can be none
+func newRootHandler(site *spi.LogSite, onPanic panicHandler) (handler spi.EventHandler, ok bool) {
+	defer func() {
+		recovered := recover()
+		if recovered != nil {
+			fallbackModeOnPanic(recovered, nil, site)
+			handler, ok = &spi.DummyEventHandler{Site: site}, false
+		}
+	}()
 	statsHandler := EventAggregator.HandlerOf(site)
 	if statsHandler == nil {
 		return &oneHandler{
 			site:    site,
 			handler: EventWriter.HandlerOf(site),
 			onPanic: onPanic,
-		}
+		}, true
 	}
 	return &statsAndOutput{
 		site:          site,
 		statsHandler:  statsHandler,
 		outputHandler: EventWriter.HandlerOf(site),
 		onPanic:       onPanic,
-	}
+	}, true
 }
 
 type oneHandler struct {
@@ -80,7 +88,8 @@ func nomalModeOnPanic(recovered interface{}, event *spi.Event, site *spi.LogSite
 	newSite.File = "unknown"
 	newSite.Line = 0
 	newSite.Sample = event.Properties
-	newRootHandler(&newSite, fallbackModeOnPanic).Handle(event)
+	handler, _ := newRootHandler(&newSite, fallbackModeOnPanic)
+	handler.Handle(event)
 }
 
 func fallbackModeOnPanic(recovered interface{}, event *spi.Event, site *spi.LogSite) {
@@ -106,8 +115,10 @@ func (redirector *redirector) Handle(event *spi.Event) {
 	site.File = callerFile
 	site.Line = callerLine
 	site.Sample = event.Properties
-	handler := newRootHandler(&site, fallbackModeOnPanic)
-	handlerCache.Store(key, handler)
+	handler, ok := newRootHandler(&site, fallbackModeOnPanic)
+	if ok {
+		handlerCache.Store(key, handler)
+	}
 	handler.Handle(event)
 	return
 }
-- 
2.43.0


From 7d66d4aec1ef18852deed55e63d497c54b465e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:42 +0800
Subject: [PATCH 49/70] fix: do not write an event twice when it can not be
 counted

---
 countlog/root.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/countlog/root.go b/countlog/root.go
index ea17f4c..ef486f6 100644
--- a/countlog/root.go
+++ b/countlog/root.go
@@ -72,6 +72,17 @@ func (handler *statsAndOutput) Handle(event *spi.Event) {
 	if event.Level >= spi.MinCallLevel {
 		handler.outputHandler.Handle(event)
 	}
+	handler.count(event)
+}
+
+// count reports a panic only: the event has been written and must not be written again
+func (handler *statsAndOutput) count(event *spi.Event) {
+	defer func() {
+		recovered := recover()
+		if recovered != nil {
+			fallbackModeOnPanic(recovered, event, handler.site)
+		}
+	}()
 	handler.statsHandler.Handle(event)
 }
 
-- 
2.43.0


From be248ec07bb7d08d320301bb8c43c0de7c7cfc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:42 +0800
Subject: [PATCH 50/70] fix: do not crash the caller when the text of an error
 panics

Neither when a property of the event that failed does, or the error is a nil
pointer.
---
 countlog/countlog.go             | 24 ++++++++++++++++++------
 countlog/output/compact/error.go |  2 +-
 countlog/output/hrf/error.go     |  2 +-
 countlog/output/json/json.go     |  2 +-
 countlog/spi/spi.go              | 10 ++++++++++
 5 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/countlog/countlog.go b/countlog/countlog.go
index d225120..c755930 100644
--- a/countlog/countlog.go
+++ b/countlog/countlog.go
@@ -6,6 +6,8 @@ import (
 	"github.com/v2pro/plz/countlog/spi"
 	"github.com/v2pro/plz/msgfmt"
 	"errors"
+	"fmt"
+	"github.com/v2pro/plz/countlog/loglog"
 	"github.com/v2pro/plz/concurrent"
 )
 
@@ -141,15 +143,26 @@ func log(level int, eventName string, agg string, ctx *Context, err error, prope
 	}
 	handler.Handle(event)
 	if event.Error != nil {
-		formatter := msgfmt.FormatterOf(eventName, properties)
-		errMsg := formatter.Format(nil, properties)
+		errMsg := formatMessage(eventName, properties)
 		errMsg = append(errMsg, ": "...)
-		errMsg = append(errMsg, event.Error.Error()...)
+		errMsg = append(errMsg, spi.ErrorText(event.Error)...)
 		event.Error = errors.New(string(errMsg))
 	}
 	return event.Error
 }
 
+// formatMessage returns the event name itself if formatting it panics
+func formatMessage(eventName string, properties []interface{}) (msg []byte) {
+	defer func() {
+		recovered := recover()
+		if recovered != nil {
+			loglog.Error(fmt.Errorf("%v", recovered))
+			msg = []byte(eventName)
+		}
+	}()
+	return msgfmt.FormatterOf(eventName, properties).Format(nil, properties)
+}
+
 func addMemo(level int, eventName string, agg string, ctx *Context, err error, properties []interface{}) {
 	event := &spi.Event{
 		Level:      level,
@@ -159,10 +172,9 @@ func addMemo(level int, eventName string, agg string, ctx *Context, err error, p
 		Properties: properties,
 	}
 	if event.Error != nil {
-		formatter := msgfmt.FormatterOf(eventName, properties)
-		errMsg := formatter.Format(nil, properties)
+		errMsg := formatMessage(eventName, properties)
 		errMsg = append(errMsg, ": "...)
-		errMsg = append(errMsg, event.Error.Error()...)
+		errMsg = append(errMsg, spi.ErrorText(event.Error)...)
 		event.Error = errors.New(string(errMsg))
 	}
 }
diff --git a/countlog/output/compact/error.go b/countlog/output/compact/error.go
index 9bebd4c..479dcf4 100644
--- a/countlog/output/compact/error.go
+++ b/countlog/output/compact/error.go
@@ -9,7 +9,7 @@ func (formatter *errorFormatter) Format(space []byte, event *spi.Event) []byte {
 	if event.Error == nil {
 		return space
 	}
-	msg := event.Error.Error()
+	msg := spi.ErrorText(event.Error)
 	if msg == "" {
 		return space
 	}
diff --git a/countlog/output/hrf/error.go b/countlog/output/hrf/error.go
index 9db253f..22df49d 100644
--- a/countlog/output/hrf/error.go
+++ b/countlog/output/hrf/error.go
@@ -9,7 +9,7 @@ func (formatter *errorFormatter) Format(space []byte, event *spi.Event) []byte {
 	if event.Error == nil {
 		return space
 	}
-	msg := event.Error.Error()
+	msg := spi.ErrorText(event.Error)
 	if msg == "" {
 		return space
 	}
diff --git a/countlog/output/json/json.go b/countlog/output/json/json.go
index 083e268..e0279bc 100644
--- a/countlog/output/json/json.go
+++ b/countlog/output/json/json.go
@@ -57,7 +57,7 @@ func (formatter *jsonFormatter) Format(space []byte, event *spi.Event) []byte {
 	}
 	if event.Error != nil {
 		space = append(space, `,"error":`...)
-		space = jsonfmt.WriteString(space, event.Error.Error())
+		space = jsonfmt.WriteString(space, spi.ErrorText(event.Error))
 	}
 	space = append(space, `,"timestamp":`...)
 	space = formatter.timestampEncoder.Encode(nil, space, reflect2.PtrOf(event.Timestamp.UnixNano()))
diff --git a/countlog/spi/spi.go b/countlog/spi/spi.go
index d87c43a..266a0a3 100644
--- a/countlog/spi/spi.go
+++ b/countlog/spi/spi.go
@@ -85,6 +85,16 @@ type Event struct {
 	Properties []interface{}
 }
 
+// ErrorText is the text of the error, also if the error is a nil pointer or panics
+func ErrorText(err error) (text string) {
+	defer func() {
+		if recover() != nil {
+			text = fmt.Sprint(err)
+		}
+	}()
+	return err.Error()
+}
+
 type EventSink interface {
 	HandlerOf(site *LogSite) EventHandler
 }
-- 
2.43.0


From d440d43e02a0fd646e0e2991fd8e01a483782a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:48 +0800
Subject: [PATCH 51/70] fix: do not crash the caller once an event could not be
 handled

What is kept for further events of the name was not an event handler.
---
 countlog/root.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/countlog/root.go b/countlog/root.go
index ef486f6..6ae21dc 100644
--- a/countlog/root.go
+++ b/countlog/root.go
@@ -134,6 +134,10 @@ func (redirector *redirector) Handle(event *spi.Event) {
 	return
 }
 
+func (redirector *redirector) LogSite() *spi.LogSite {
+	return &redirector.site
+}
+
 type accurateHandlerKey struct {
 	File string
 	Line int
-- 
2.43.0


From 0deb88256dfb9b568ca37d62210b173aff0f0b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:50 +0000
Subject: [PATCH 52/70] fix: handle events of one name whatever was logged
 under this name before

The handler made for the first event of a name was used for all of them,
although it depends on names and types of the properties, on the properties of
the context and on the aggregation.
---
 countlog/countlog.go |  27 +++++++---
 countlog/root.go     |  11 +++--
 countlog/shape.go    | 115 +++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 141 insertions(+), 12 deletions(-)
 create mode 100644 countlog/shape.go

diff --git a/countlog/countlog.go b/countlog/countlog.go
index c755930..10cc305 100644
--- a/countlog/countlog.go
+++ b/countlog/countlog.go
@@ -180,27 +180,38 @@ func addMemo(level int, eventName string, agg string, ctx *Context, err error, p
 }
 
 func getHandler(event string, agg string, ctx *Context, properties []interface{}) spi.EventHandler {
-	handler, found := handlerCache.Load(event)
+	key := handlerKey{event: event, agg: agg}
+	handler, found := handlerCache.Load(key)
 	if found {
-		return handler.(spi.EventHandler)
+		if handler.(*shapedHandler).fits(ctx, properties) {
+			return handler.(*shapedHandler).EventHandler
+		}
+		key.shape = newShapedHandler(ctx, properties).shape()
+		handler, found = handlerCache.Load(key)
+		if found {
+			return handler.(*shapedHandler).EventHandler
+		}
 	}
-	return newHandler(event, agg, ctx, properties)
+	return newHandler(key, ctx, properties)
 }
 
-func newHandler(eventName string, agg string, ctx *Context, properties []interface{}) spi.EventHandler {
+func newHandler(key handlerKey, ctx *Context, properties []interface{}) spi.EventHandler {
 	pc, callerFile, callerLine, _ := runtime.Caller(4)
 	site := &spi.LogSite{
 		Context: ctx,
 		Func: runtime.FuncForPC(pc).Name(),
-		Event:  eventName,
-		Agg:    agg,
+		Event:  key.event,
+		Agg:    key.agg,
 		File:   callerFile,
 		Line:   callerLine,
 		Sample: properties,
 	}
-	handler, ok := newRootHandler(site, nomalModeOnPanic)
+	shaped := newShapedHandler(ctx, properties)
+	handler, ok := newRootHandler(site, func(recovered interface{}, event *spi.Event, site *spi.LogSite) {
+		nomalModeOnPanic(key, shaped, event, site)
+	})
 	if ok {
-		handlerCache.Store(eventName, handler)
+		handlerCache.Store(key, shaped.with(handler))
 	}
 	return handler
 }
diff --git a/countlog/root.go b/countlog/root.go
index 6ae21dc..63b57f2 100644
--- a/countlog/root.go
+++ b/countlog/root.go
@@ -90,11 +90,12 @@ func (handler *statsAndOutput) LogSite() *spi.LogSite {
 	return handler.site
 }
 
-func nomalModeOnPanic(recovered interface{}, event *spi.Event, site *spi.LogSite) {
+func nomalModeOnPanic(key handlerKey, shaped *shapedHandler, event *spi.Event, site *spi.LogSite) {
 	redirector := &redirector{
-		site:            *site,
+		key:  key,
+		site: *site,
 	}
-	handlerCache.Store(site.Event, redirector)
+	handlerCache.Store(key, shaped.with(redirector))
 	newSite := *site
 	newSite.File = "unknown"
 	newSite.Line = 0
@@ -111,12 +112,13 @@ func fallbackModeOnPanic(recovered interface{}, event *spi.Event, site *spi.LogS
 }
 
 type redirector struct {
+	key  handlerKey
 	site spi.LogSite
 }
 
 func (redirector *redirector) Handle(event *spi.Event) {
 	_, callerFile, callerLine, _ := runtime.Caller(3)
-	key := accurateHandlerKey{callerFile, callerLine}
+	key := accurateHandlerKey{redirector.key, callerFile, callerLine}
 	handlerObj, found := handlerCache.Load(key)
 	if found {
 		handlerObj.(spi.EventHandler).Handle(event)
@@ -139,6 +141,7 @@ func (redirector *redirector) LogSite() *spi.LogSite {
 }
 
 type accurateHandlerKey struct {
+	Key  handlerKey
 	File string
 	Line int
 }
diff --git a/countlog/shape.go b/countlog/shape.go
new file mode 100644
index 0000000..533df60
--- /dev/null
+++ b/countlog/shape.go
@@ -0,0 +1,115 @@
+package countlog
+
+import (
+	"fmt"
+	"strconv"
+	"github.com/v2pro/plz/countlog/spi"
+	"github.com/v2pro/plz/reflect2"
+)
+
+// handlerKey tells what a handler is for. The shape is empty for the first handler of an event.
+type handlerKey struct {
+	event string
+	agg   string
+	shape string
+}
+
+// shapedHandler handles the events whose properties have the names and types it was made for
+type shapedHandler struct {
+	spi.EventHandler
+	properties []propertyShape
+	context    []propertyShape
+}
+
+// propertyShape is a name or a type
+type propertyShape struct {
+	name  string
+	rtype uintptr
+	// value is how to aggregate
+	value string
+}
+
+func (shape *propertyShape) fits(properties []interface{}, i int) bool {
+	if i%2 == 0 {
+		name, isString := properties[i].(string)
+		if !isString {
+			name = fmt.Sprint(properties[i])
+		}
+		return name == shape.name
+	}
+	return reflect2.RTypeOf(properties[i]) == shape.rtype && aggregation(properties, i) == shape.value
+}
+
+func aggregation(properties []interface{}, i int) string {
+	if properties[i-1] != "agg" && properties[i-1] != "dim" {
+		return ""
+	}
+	value, _ := properties[i].(string)
+	return value
+}
+
+func shapesOf(properties []interface{}) []propertyShape {
+	shapes := make([]propertyShape, len(properties))
+	for i, property := range properties {
+		if i%2 == 0 {
+			shapes[i].name = fmt.Sprint(property)
+		} else {
+			shapes[i].rtype = reflect2.RTypeOf(property)
+			shapes[i].value = aggregation(properties, i)
+		}
+	}
+	return shapes
+}
+
+func shapesFit(shapes []propertyShape, properties []interface{}) bool {
+	if len(shapes) != len(properties) {
+		return false
+	}
+	for i := range shapes {
+		if !shapes[i].fits(properties, i) {
+			return false
+		}
+	}
+	return true
+}
+
+func appendShapes(space []byte, shapes []propertyShape) []byte {
+	for i, shape := range shapes {
+		if i%2 == 0 {
+			space = strconv.AppendQuote(space, shape.name)
+		} else {
+			space = strconv.AppendUint(space, uint64(shape.rtype), 16)
+			space = strconv.AppendQuote(space, shape.value)
+		}
+	}
+	return append(space, '|')
+}
+
+func contextProperties(ctx *Context) []interface{} {
+	if ctx == nil || ctx.logContext == nil {
+		return nil
+	}
+	return ctx.logContext.Properties
+}
+
+func newShapedHandler(ctx *Context, properties []interface{}) *shapedHandler {
+	return &shapedHandler{
+		properties: shapesOf(properties),
+		context:    shapesOf(contextProperties(ctx)),
+	}
+}
+
+func (handler *shapedHandler) fits(ctx *Context, properties []interface{}) bool {
+	return shapesFit(handler.properties, properties) && shapesFit(handler.context, contextProperties(ctx))
+}
+
+func (handler *shapedHandler) shape() string {
+	return string(appendShapes(appendShapes(nil, handler.properties), handler.context))
+}
+
+// with returns a copy for another handler
+func (handler *shapedHandler) with(eventHandler spi.EventHandler) *shapedHandler {
+	copied := *handler
+	copied.EventHandler = eventHandler
+	return &copied
+}
-- 
2.43.0


From 7f6abf0c1cca0d1febbcc540d59dc87d9422134e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:43 +0800
Subject: [PATCH 53/70] fix: write warnings, errors and failed calls whatever
 the minimum level is

They were left out if the minimum level was raised to warnings, if they were
also to be counted.
---
 countlog/root.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/countlog/root.go b/countlog/root.go
index 63b57f2..26a0492 100644
--- a/countlog/root.go
+++ b/countlog/root.go
@@ -69,7 +69,7 @@ func (handler *statsAndOutput) Handle(event *spi.Event) {
 			handler.onPanic(recovered, event, handler.site)
 		}
 	}()
-	if event.Level >= spi.MinCallLevel {
+	if event.Level >= spi.MinCallLevel || event.Level >= spi.LevelWarn {
 		handler.outputHandler.Handle(event)
 	}
 	handler.count(event)
-- 
2.43.0


From 354d5e9e198247b48466f90d70b5c71170128f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:44 +0800
Subject: [PATCH 54/70] fix: write calls from the call level on also if a
 collector is set

Without a collector, calls are written from the level above the minimum on.
---
 countlog/stats/stats.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/countlog/stats/stats.go b/countlog/stats/stats.go
index 7186db4..4df04cf 100644
--- a/countlog/stats/stats.go
+++ b/countlog/stats/stats.go
@@ -46,7 +46,7 @@ func (aggregator *EventAggregator) createHandler(agg string, site *spi.LogSite)
 	}
 	if agg != "counter" {
 		// TODO: log unknown agg
-		return nil
+		return &spi.DummyEventHandler{Site: site}
 	}
 	extractor, dimensionElemCount := newDimensionExtractor(site)
 	window := newWindow(aggregator.executor, aggregator.collector, site.Event, dimensionElemCount)
-- 
2.43.0


From 6533ea9c1cabdd3b397d7b3cb05cabcc15a49b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:20 +0000
Subject: [PATCH 55/70] fix: do not crash the caller when the text of a panic
 panics

The names of properties, errors and what was recovered are turned into text by
fmt, which panics if the panic of a method can not be turned into text either.
---
 countlog/countlog.go      |  3 +--
 countlog/output/format.go |  3 +--
 countlog/root.go          |  4 ++--
 countlog/shape.go         |  5 ++---
 countlog/spi/spi.go       | 12 +++++++++++-
 5 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/countlog/countlog.go b/countlog/countlog.go
index 10cc305..98acbaa 100644
--- a/countlog/countlog.go
+++ b/countlog/countlog.go
@@ -6,7 +6,6 @@ import (
 	"github.com/v2pro/plz/countlog/spi"
 	"github.com/v2pro/plz/msgfmt"
 	"errors"
-	"fmt"
 	"github.com/v2pro/plz/countlog/loglog"
 	"github.com/v2pro/plz/concurrent"
 )
@@ -156,7 +155,7 @@ func formatMessage(eventName string, properties []interface{}) (msg []byte) {
 	defer func() {
 		recovered := recover()
 		if recovered != nil {
-			loglog.Error(fmt.Errorf("%v", recovered))
+			loglog.Error(errors.New(spi.Text(recovered)))
 			msg = []byte(eventName)
 		}
 	}()
diff --git a/countlog/output/format.go b/countlog/output/format.go
index cda3d1f..94bf104 100644
--- a/countlog/output/format.go
+++ b/countlog/output/format.go
@@ -1,7 +1,6 @@
 package output
 
 import (
-	"fmt"
 	"github.com/v2pro/plz/countlog/spi"
 )
 
@@ -18,7 +17,7 @@ type Formatter interface {
 func PropertyAt(properties []interface{}, i int) (string, []interface{}) {
 	name, isString := properties[i].(string)
 	if !isString {
-		name = fmt.Sprint(properties[i])
+		name = spi.Text(properties[i])
 	}
 	if i+1 == len(properties) {
 		return name, nil
diff --git a/countlog/root.go b/countlog/root.go
index 26a0492..939ce71 100644
--- a/countlog/root.go
+++ b/countlog/root.go
@@ -3,7 +3,7 @@ package countlog
 import (
 	"github.com/v2pro/plz/countlog/spi"
 	"runtime"
-	"fmt"
+	"errors"
 	"runtime/debug"
 	"github.com/v2pro/plz/countlog/loglog"
 )
@@ -105,7 +105,7 @@ func nomalModeOnPanic(key handlerKey, shaped *shapedHandler, event *spi.Event, s
 }
 
 func fallbackModeOnPanic(recovered interface{}, event *spi.Event, site *spi.LogSite) {
-	loglog.Error(fmt.Errorf("%v", recovered))
+	loglog.Error(errors.New(spi.Text(recovered)))
 	if spi.MinLevel <= spi.LevelDebug {
 		debug.PrintStack()
 	}
diff --git a/countlog/shape.go b/countlog/shape.go
index 533df60..9afe389 100644
--- a/countlog/shape.go
+++ b/countlog/shape.go
@@ -1,7 +1,6 @@
 package countlog
 
 import (
-	"fmt"
 	"strconv"
 	"github.com/v2pro/plz/countlog/spi"
 	"github.com/v2pro/plz/reflect2"
@@ -33,7 +32,7 @@ func (shape *propertyShape) fits(properties []interface{}, i int) bool {
 	if i%2 == 0 {
 		name, isString := properties[i].(string)
 		if !isString {
-			name = fmt.Sprint(properties[i])
+			name = spi.Text(properties[i])
 		}
 		return name == shape.name
 	}
@@ -52,7 +51,7 @@ func shapesOf(properties []interface{}) []propertyShape {
 	shapes := make([]propertyShape, len(properties))
 	for i, property := range properties {
 		if i%2 == 0 {
-			shapes[i].name = fmt.Sprint(property)
+			shapes[i].name = spi.Text(property)
 		} else {
 			shapes[i].rtype = reflect2.RTypeOf(property)
 			shapes[i].value = aggregation(properties, i)
diff --git a/countlog/spi/spi.go b/countlog/spi/spi.go
index 266a0a3..8f7967c 100644
--- a/countlog/spi/spi.go
+++ b/countlog/spi/spi.go
@@ -89,12 +89,22 @@ type Event struct {
 func ErrorText(err error) (text string) {
 	defer func() {
 		if recover() != nil {
-			text = fmt.Sprint(err)
+			text = Text(err)
 		}
 	}()
 	return err.Error()
 }
 
+// Text is the text of the value, or its type if there is no way to get a text
+func Text(value interface{}) (text string) {
+	defer func() {
+		if recover() != nil {
+			text = fmt.Sprintf("%T", value)
+		}
+	}()
+	return fmt.Sprint(value)
+}
+
 type EventSink interface {
 	HandlerOf(site *LogSite) EventHandler
 }
-- 
2.43.0


From 0a0c420c9ac11f834d411b7300e1c6dc9673e42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:24 +0800
Subject: [PATCH 56/70] fix: dereference pointers to unsafe.Pointer

---
 reflect2/reflect2.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reflect2/reflect2.go b/reflect2/reflect2.go
index 89c2a1e..2c49dc8 100644
--- a/reflect2/reflect2.go
+++ b/reflect2/reflect2.go
@@ -189,7 +189,7 @@ func (cfg *frozenConfig) wrapType(type1 reflect.Type) Type {
 			return &safeMapType{safeType}
 		}
 		return newUnsafeMapType(cfg, type1)
-	case reflect.Ptr, reflect.Chan, reflect.Func:
+	case reflect.Ptr, reflect.Chan, reflect.Func, reflect.UnsafePointer:
 		if cfg.useSafeImplementation {
 			return &safeMapType{safeType}
 		}
@@ -251,7 +251,7 @@ func IsNullable(kind reflect.Kind) bool {
 
 func likePtrKind(kind reflect.Kind) bool {
 	switch kind {
-	case reflect.Ptr, reflect.Map, reflect.Chan, reflect.Func:
+	case reflect.Ptr, reflect.Map, reflect.Chan, reflect.Func, reflect.UnsafePointer:
 		return true
 	}
 	return false
-- 
2.43.0


From 443e0b2c520987624c4bd3f217d5a45131244c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:25 +0800
Subject: [PATCH 57/70] fix: set and get fields promoted from embedded structs

---
 reflect2/unsafe_field.go  | 30 +++++++++++++++++++++++++++---
 reflect2/unsafe_struct.go |  4 +++-
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/reflect2/unsafe_field.go b/reflect2/unsafe_field.go
index 5eb5313..3a4d608 100644
--- a/reflect2/unsafe_field.go
+++ b/reflect2/unsafe_field.go
@@ -10,6 +10,8 @@ type UnsafeStructField struct {
 	structType *UnsafeStructType
 	rtype      unsafe.Pointer
 	ptrRType   unsafe.Pointer
+	// where the field is: all but the last offset are of pointers to follow
+	path []uintptr
 }
 
 func newUnsafeStructField(structType *UnsafeStructType, structField reflect.StructField) *UnsafeStructField {
@@ -18,9 +20,25 @@ func newUnsafeStructField(structType *UnsafeStructType, structField reflect.Stru
 		rtype:       unpackEFace(structField.Type).data,
 		ptrRType:    unpackEFace(reflect.PtrTo(structField.Type)).data,
 		structType:  structType,
+		path:        pathOf(structType.Type, structField.Index),
 	}
 }
 
+// pathOf is needed as the offset of a promoted field is relative to the embedded struct
+func pathOf(typ reflect.Type, index []int) []uintptr {
+	path := []uintptr{0}
+	for _, i := range index {
+		if typ.Kind() == reflect.Ptr {
+			typ = typ.Elem()
+			path = append(path, 0)
+		}
+		field := typ.Field(i)
+		path[len(path)-1] += field.Offset
+		typ = field.Type
+	}
+	return path
+}
+
 func (field *UnsafeStructField) Offset() uintptr {
 	return field.StructField.Offset
 }
@@ -58,8 +76,7 @@ func (field *UnsafeStructField) Set(obj interface{}, value interface{}) {
 }
 
 func (field *UnsafeStructField) UnsafeSet(obj unsafe.Pointer, value unsafe.Pointer) {
-	fieldPtr := add(obj, field.StructField.Offset, "same as non-reflect &v.field")
-	typedmemmove(field.rtype, fieldPtr, value)
+	typedmemmove(field.rtype, field.UnsafeGet(obj), value)
 }
 
 func (field *UnsafeStructField) Get(obj interface{}) interface{} {
@@ -70,5 +87,12 @@ func (field *UnsafeStructField) Get(obj interface{}) interface{} {
 }
 
 func (field *UnsafeStructField) UnsafeGet(obj unsafe.Pointer) unsafe.Pointer {
-	return add(obj, field.StructField.Offset, "same as non-reflect &v.field")
+	last := len(field.path) - 1
+	for _, offset := range field.path[:last] {
+		obj = *(*unsafe.Pointer)(add(obj, offset, "same as non-reflect &v.field"))
+		if obj == nil {
+			panic("field " + field.StructField.Name + " is in a nil pointer to an embedded struct")
+		}
+	}
+	return add(obj, field.path[last], "same as non-reflect &v.field")
 }
diff --git a/reflect2/unsafe_struct.go b/reflect2/unsafe_struct.go
index f91ef17..6b8d397 100644
--- a/reflect2/unsafe_struct.go
+++ b/reflect2/unsafe_struct.go
@@ -47,7 +47,9 @@ func (type2 *UnsafeStructType) Field(i int) StructField {
 }
 
 func (type2 *UnsafeStructType) FieldByIndex(index []int) StructField {
-	return newUnsafeStructField(type2, type2.Type.FieldByIndex(index))
+	structField := type2.Type.FieldByIndex(index)
+	structField.Index = append([]int{}, index...) // it was relative to the embedded struct
+	return newUnsafeStructField(type2, structField)
 }
 
 func (type2 *UnsafeStructType) FieldByNameFunc(match func(string) bool) StructField {
-- 
2.43.0


From 71e9951e777b43d6ad8f78890a0bb3a24152cf17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:25 +0800
Subject: [PATCH 58/70] fix: grow slices in the safe configuration

---
 reflect2/safe_slice.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/reflect2/safe_slice.go b/reflect2/safe_slice.go
index 7e348c1..04ec470 100644
--- a/reflect2/safe_slice.go
+++ b/reflect2/safe_slice.go
@@ -43,12 +43,14 @@ func (type2 *safeSliceType) UnsafeMakeSlice(length int, cap int) unsafe.Pointer
 }
 
 func (type2 *safeSliceType) Grow(obj interface{}, newLength int) {
-	oldCap := type2.Cap(obj)
-	oldSlice := reflect.ValueOf(obj).Elem()
-	delta := newLength - oldCap
-	deltaVals := make([]reflect.Value, delta)
-	newSlice := reflect.Append(oldSlice, deltaVals...)
-	oldSlice.Set(newSlice)
+	slice := reflect.ValueOf(obj).Elem()
+	if newLength <= slice.Cap() {
+		slice.SetLen(newLength)
+		return
+	}
+	newSlice := reflect.MakeSlice(slice.Type(), newLength, calcNewCap(slice.Cap(), newLength))
+	reflect.Copy(newSlice, slice)
+	slice.Set(newSlice)
 }
 
 func (type2 *safeSliceType) UnsafeGrow(ptr unsafe.Pointer, newLength int) {
-- 
2.43.0


From 72b771d33fd6ef5e0599ef885b15c003c268c6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:25 +0800
Subject: [PATCH 59/70] fix: TryGetIndex takes and returns pointers in the safe
 configuration too

---
 reflect2/safe_map.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/reflect2/safe_map.go b/reflect2/safe_map.go
index 6a1ba23..88ab415 100644
--- a/reflect2/safe_map.go
+++ b/reflect2/safe_map.go
@@ -35,15 +35,13 @@ func (type2 *safeMapType) UnsafeSetIndex(obj unsafe.Pointer, key unsafe.Pointer,
 }
 
 func (type2 *safeMapType) TryGetIndex(obj interface{}, key interface{}) (interface{}, bool) {
-	keyVal := reflect.ValueOf(key)
-	if key == nil {
-		keyVal = reflect.New(type2.Type.Key()).Elem()
-	}
-	val := reflect.ValueOf(obj).MapIndex(keyVal)
-	if !val.IsValid() {
+	elemVal := reflect.ValueOf(obj).Elem().MapIndex(reflect.ValueOf(key).Elem())
+	if !elemVal.IsValid() {
 		return nil, false
 	}
-	return val.Interface(), true
+	ptr := reflect.New(elemVal.Type())
+	ptr.Elem().Set(elemVal)
+	return ptr.Interface(), true
 }
 
 func (type2 *safeMapType) GetIndex(obj interface{}, key interface{}) interface{} {
-- 
2.43.0


From c2e6cd4733bf82372d14146bc2b0b32b26ac4f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:26 +0800
Subject: [PATCH 60/70] fix: struct types have fields in the safe configuration
 too

---
 reflect2/safe_field.go  |  3 ++-
 reflect2/safe_struct.go | 28 ++++++++++++++++++++++++++--
 2 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/reflect2/safe_field.go b/reflect2/safe_field.go
index f68de45..7fa5083 100644
--- a/reflect2/safe_field.go
+++ b/reflect2/safe_field.go
@@ -7,6 +7,7 @@ import (
 
 type safeField struct {
 	reflect.StructField
+	cfg *frozenConfig
 }
 
 func (field *safeField) Offset() uintptr {
@@ -22,7 +23,7 @@ func (field *safeField) PkgPath() string {
 }
 
 func (field *safeField) Type() Type {
-	panic("not implemented")
+	return field.cfg.Type2(field.StructField.Type)
 }
 
 func (field *safeField) Tag() reflect.StructTag {
diff --git a/reflect2/safe_struct.go b/reflect2/safe_struct.go
index d8eb453..ef10a65 100644
--- a/reflect2/safe_struct.go
+++ b/reflect2/safe_struct.go
@@ -1,13 +1,37 @@
 package reflect2
 
+import "reflect"
+
 type safeStructType struct {
 	safeType
 }
 
+func (type2 *safeStructType) newField(field reflect.StructField) StructField {
+	return &safeField{StructField: field, cfg: type2.cfg}
+}
+
 func (type2 *safeStructType) FieldByName(name string) StructField {
 	field, found := type2.Type.FieldByName(name)
 	if !found {
 		panic("field " + name + " not found")
 	}
-	return &safeField{StructField: field}
-}
\ No newline at end of file
+	return type2.newField(field)
+}
+
+func (type2 *safeStructType) Field(i int) StructField {
+	return type2.newField(type2.Type.Field(i))
+}
+
+func (type2 *safeStructType) FieldByIndex(index []int) StructField {
+	field := type2.Type.FieldByIndex(index)
+	field.Index = append([]int{}, index...) // it was relative to the embedded struct
+	return type2.newField(field)
+}
+
+func (type2 *safeStructType) FieldByNameFunc(match func(string) bool) StructField {
+	field, found := type2.Type.FieldByNameFunc(match)
+	if !found {
+		panic("field match condition not found in " + type2.Type.String())
+	}
+	return type2.newField(field)
+}
-- 
2.43.0


From 70568aa0abf6203955827d16fda96a9c66bf8b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:27 +0800
Subject: [PATCH 61/70] fix: do not access memory beyond slices and arrays

---
 reflect2/unsafe_array.go | 2 ++
 reflect2/unsafe_slice.go | 6 ++++++
 reflect2/unsafe_type.go  | 7 +++++++
 3 files changed, 15 insertions(+)

diff --git a/reflect2/unsafe_array.go b/reflect2/unsafe_array.go
index 924b026..07c29a0 100644
--- a/reflect2/unsafe_array.go
+++ b/reflect2/unsafe_array.go
@@ -45,6 +45,7 @@ func (type2 *UnsafeArrayType) SetIndex(obj interface{}, index int, elem interfac
 	assertType("ArrayType.SetIndex argument 1", type2.ptrRType, objEFace.rtype)
 	elemEFace := unpackEFace(elem)
 	assertType("ArrayType.SetIndex argument 3", type2.pElemRType, elemEFace.rtype)
+	assertIndex("ArrayType.SetIndex argument 2", index, type2.Len())
 	type2.UnsafeSetIndex(objEFace.data, index, elemEFace.data)
 }
 
@@ -56,6 +57,7 @@ func (type2 *UnsafeArrayType) UnsafeSetIndex(obj unsafe.Pointer, index int, elem
 func (type2 *UnsafeArrayType) GetIndex(obj interface{}, index int) interface{} {
 	objEFace := unpackEFace(obj)
 	assertType("ArrayType.GetIndex argument 1", type2.ptrRType, objEFace.rtype)
+	assertIndex("ArrayType.GetIndex argument 2", index, type2.Len())
 	elemPtr := type2.UnsafeGetIndex(objEFace.data, index)
 	return packEFace(type2.pElemRType, elemPtr)
 }
diff --git a/reflect2/unsafe_slice.go b/reflect2/unsafe_slice.go
index 5ce85af..66487fa 100644
--- a/reflect2/unsafe_slice.go
+++ b/reflect2/unsafe_slice.go
@@ -71,6 +71,7 @@ func (type2 *UnsafeSliceType) UnsafeSetNil(ptr unsafe.Pointer) {
 }
 
 func (type2 *UnsafeSliceType) MakeSlice(length int, cap int) interface{} {
+	assertIndex("SliceType.MakeSlice argument 1", length, cap+1)
 	return packEFace(type2.ptrRType, type2.UnsafeMakeSlice(length, cap))
 }
 
@@ -95,6 +96,7 @@ func (type2 *UnsafeSliceType) SetIndex(obj interface{}, index int, elem interfac
 	assertType("SliceType.SetIndex argument 1", type2.ptrRType, objEFace.rtype)
 	elemEFace := unpackEFace(elem)
 	assertType("SliceType.SetIndex argument 3", type2.pElemRType, elemEFace.rtype)
+	assertIndex("SliceType.SetIndex argument 2", index, (*sliceHeader)(objEFace.data).Len)
 	type2.UnsafeSetIndex(objEFace.data, index, elemEFace.data)
 }
 
@@ -107,6 +109,7 @@ func (type2 *UnsafeSliceType) UnsafeSetIndex(obj unsafe.Pointer, index int, elem
 func (type2 *UnsafeSliceType) GetIndex(obj interface{}, index int) interface{} {
 	objEFace := unpackEFace(obj)
 	assertType("SliceType.GetIndex argument 1", type2.ptrRType, objEFace.rtype)
+	assertIndex("SliceType.GetIndex argument 2", index, (*sliceHeader)(objEFace.data).Len)
 	elemPtr := type2.UnsafeGetIndex(objEFace.data, index)
 	return packEFace(type2.pElemRType, elemPtr)
 }
@@ -144,6 +147,9 @@ func (type2 *UnsafeSliceType) UnsafeCap(ptr unsafe.Pointer) int {
 func (type2 *UnsafeSliceType) Grow(obj interface{}, newLength int) {
 	objEFace := unpackEFace(obj)
 	assertType("SliceType.Grow argument 1", type2.ptrRType, objEFace.rtype)
+	if newLength < 0 {
+		panic("SliceType.Grow argument 2: is negative")
+	}
 	type2.UnsafeGrow(objEFace.data, newLength)
 }
 
diff --git a/reflect2/unsafe_type.go b/reflect2/unsafe_type.go
index e7ad4a6..7fcaec7 100644
--- a/reflect2/unsafe_type.go
+++ b/reflect2/unsafe_type.go
@@ -3,6 +3,7 @@ package reflect2
 import (
 	"unsafe"
 	"reflect"
+	"strconv"
 )
 
 type unsafeType struct {
@@ -83,3 +84,9 @@ func assertType(where string, expectRType unsafe.Pointer, actualRType unsafe.Poi
 		panic(where + ": expect " + expectType.String() + ", actual " + actualType.String())
 	}
 }
+
+func assertIndex(where string, index int, length int) {
+	if index < 0 || index >= length {
+		panic(where + ": " + strconv.Itoa(index) + " is out of range, there are " + strconv.Itoa(length))
+	}
+}
-- 
2.43.0


From e0509e1683eaeb5736229e711f2e448ae9993ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:35 +0000
Subject: [PATCH 62/70] fix: log each failure to close with its own error only

---
 closer.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/closer.go b/closer.go
index 3ab67c9..b645195 100644
--- a/closer.go
+++ b/closer.go
@@ -31,8 +31,7 @@ func Close(resource io.Closer, properties ...interface{}) error {
 	if err != nil {
 		_, file, line, _ := runtime.Caller(1)
 		closedAt := fmt.Sprintf("%s:%d", file, line)
-		properties = append(properties, "err", err)
-		countlog.Error("event!close "+closedAt, properties...)
+		countlog.Error("event!close "+closedAt, withError(properties, err)...)
 		return err
 	}
 	return nil
@@ -45,8 +44,7 @@ func CloseAll(resources []io.Closer, properties ...interface{}) error {
 		if err != nil {
 			_, file, line, _ := runtime.Caller(1)
 			closedAt := fmt.Sprintf("%s:%d", file, line)
-			properties = append(properties, "err", err)
-			countlog.Error("event!CloseAll called from "+closedAt, properties...)
+			countlog.Error("event!CloseAll called from "+closedAt, withError(properties, err)...)
 			errs = append(errs, err)
 		}
 	}
@@ -58,6 +56,11 @@ func CloseAll(resources []io.Closer, properties ...interface{}) error {
 	return MergeErrors(errs...)
 }
 
+// withError returns a copy: properties belong to the caller
+func withError(properties []interface{}, err error) []interface{} {
+	return append(properties[:len(properties):len(properties)], "err", err)
+}
+
 type funcResource struct {
 	f func() error
 }
-- 
2.43.0


From 8626ced62261fd546c74c7ce4462f4a895b537df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:06 +0000
Subject: [PATCH 63/70] fix: lumberjack: compress the backups of a log file
 whose extension is .gz

---
 countlog/output/lumberjack/lumberjack.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/countlog/output/lumberjack/lumberjack.go b/countlog/output/lumberjack/lumberjack.go
index 95f4c48..12dbd46 100644
--- a/countlog/output/lumberjack/lumberjack.go
+++ b/countlog/output/lumberjack/lumberjack.go
@@ -351,7 +351,7 @@ func (l *Logger) millRunOnce() error {
 			// Only count the uncompressed log file or the
 			// compressed log file, not both.
 			fn := f.Name()
-			if strings.HasSuffix(fn, compressSuffix) {
+			if f.compressed {
 				fn = fn[:len(fn)-len(compressSuffix)]
 			}
 			preserved[fn] = true
@@ -381,7 +381,7 @@ func (l *Logger) millRunOnce() error {
 
 	if l.Compress {
 		for _, f := range files {
-			if !strings.HasSuffix(f.Name(), compressSuffix) {
+			if !f.compressed {
 				compress = append(compress, f)
 			}
 		}
@@ -442,11 +442,11 @@ func (l *Logger) oldLogFiles() ([]logInfo, error) {
 			continue
 		}
 		if t, err := l.timeFromName(f.Name(), prefix, ext); err == nil {
-			logFiles = append(logFiles, logInfo{t, f})
+			logFiles = append(logFiles, logInfo{t, false, f})
 			continue
 		}
 		if t, err := l.timeFromName(f.Name(), prefix, ext+compressSuffix); err == nil {
-			logFiles = append(logFiles, logInfo{t, f})
+			logFiles = append(logFiles, logInfo{t, true, f})
 			continue
 		}
 		// error parsing means that the suffix at the end was not generated
@@ -580,6 +580,8 @@ func compressLogFile(src, dst string) (err error) {
 // timestamp.
 type logInfo struct {
 	timestamp time.Time
+	// compressed by us: the log file's own extension may be .gz as well
+	compressed bool
 	os.FileInfo
 }
 
-- 
2.43.0


From a6dce89f43e3703e0eb6d436a4f5bec7b8dc00ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:13 +0000
Subject: [PATCH 64/70] fix: lumberjack: leave no empty compressed backup when
 its chown fails

The destination was only removed for failures after it had been opened for
compression; chown creates it before that.
---
 countlog/output/lumberjack/lumberjack.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/countlog/output/lumberjack/lumberjack.go b/countlog/output/lumberjack/lumberjack.go
index 12dbd46..3218f54 100644
--- a/countlog/output/lumberjack/lumberjack.go
+++ b/countlog/output/lumberjack/lumberjack.go
@@ -535,6 +535,13 @@ func compressLogFile(src, dst string) (err error) {
 		return fmt.Errorf("failed to stat log file: %v", err)
 	}
 
+	defer func() {
+		if err != nil {
+			os.Remove(dst)
+			err = fmt.Errorf("failed to compress log file: %v", err)
+		}
+	}()
+
 	if err := chown(dst, fi); err != nil {
 		return fmt.Errorf("failed to chown compressed log file: %v", err)
 	}
@@ -549,13 +556,6 @@ func compressLogFile(src, dst string) (err error) {
 
 	gz := gzip.NewWriter(gzf)
 
-	defer func() {
-		if err != nil {
-			os.Remove(dst)
-			err = fmt.Errorf("failed to compress log file: %v", err)
-		}
-	}()
-
 	if _, err := io.Copy(gz, f); err != nil {
 		return err
 	}
-- 
2.43.0


From a72773f970c5ae73548ff642636d9d22c2bf3fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:43 +0000
Subject: [PATCH 65/70] fix: lumberjack: accept writes with a huge MaxSize

MaxSize in bytes overflowed: with MaxSize: math.MaxInt64 every write failed.
---
 countlog/output/lumberjack/lumberjack.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/countlog/output/lumberjack/lumberjack.go b/countlog/output/lumberjack/lumberjack.go
index 3218f54..5d5413c 100644
--- a/countlog/output/lumberjack/lumberjack.go
+++ b/countlog/output/lumberjack/lumberjack.go
@@ -27,6 +27,7 @@ import (
 	"fmt"
 	"io"
 	"io/ioutil"
+	"math"
 	"os"
 	"path/filepath"
 	"sort"
@@ -504,6 +505,9 @@ func (l *Logger) max() int64 {
 	if l.MaxSize == 0 {
 		return int64(defaultMaxSize * megabyte)
 	}
+	if int64(l.MaxSize) > math.MaxInt64/int64(megabyte) {
+		return math.MaxInt64
+	}
 	return int64(l.MaxSize) * int64(megabyte)
 }
 
-- 
2.43.0


From 84aa57b1133cf9cdd21e86d27ebec13f967ddc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:43 +0000
Subject: [PATCH 66/70] fix: lumberjack: keep backups with a huge MaxAge

The age overflowed: from 106752 days on, the cutoff was in the future and all backups were removed.
---
 countlog/output/lumberjack/lumberjack.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/countlog/output/lumberjack/lumberjack.go b/countlog/output/lumberjack/lumberjack.go
index 5d5413c..424e414 100644
--- a/countlog/output/lumberjack/lumberjack.go
+++ b/countlog/output/lumberjack/lumberjack.go
@@ -365,7 +365,8 @@ func (l *Logger) millRunOnce() error {
 		}
 		files = remaining
 	}
-	if l.MaxAge > 0 {
+	// an age beyond the range of time.Duration is never reached
+	if l.MaxAge > 0 && int64(l.MaxAge) <= math.MaxInt64/int64(24*time.Hour) {
 		diff := time.Duration(int64(24*time.Hour) * int64(l.MaxAge))
 		cutoff := currentTime().Add(-1 * diff)
 
-- 
2.43.0


From 40c602f1f8dd9be6849c71dadcfb2e3c7f718506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:23 +0800
Subject: [PATCH 67/70] fix: lumberjack: keep the permissions of the log file
 whatever the umask

---
 countlog/output/lumberjack/lumberjack.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/countlog/output/lumberjack/lumberjack.go b/countlog/output/lumberjack/lumberjack.go
index 424e414..05d158d 100644
--- a/countlog/output/lumberjack/lumberjack.go
+++ b/countlog/output/lumberjack/lumberjack.go
@@ -246,6 +246,13 @@ func (l *Logger) openNew() error {
 	if err != nil {
 		return fmt.Errorf("can't open new logfile: %s", err)
 	}
+	if info != nil {
+		// the umask might have taken something away
+		if err := f.Chmod(mode); err != nil {
+			f.Close()
+			return fmt.Errorf("can't set the mode of the new logfile: %s", err)
+		}
+	}
 	l.file = f
 	l.size = 0
 	return nil
@@ -559,6 +566,11 @@ func compressLogFile(src, dst string) (err error) {
 	}
 	defer gzf.Close()
 
+	// the umask might have taken something away
+	if err := gzf.Chmod(fi.Mode()); err != nil {
+		return fmt.Errorf("failed to set the mode of the compressed log file: %v", err)
+	}
+
 	gz := gzip.NewWriter(gzf)
 
 	if _, err := io.Copy(gz, f); err != nil {
-- 
2.43.0


From 2e81640236a42775fdcf8d2052bd265f6b64c139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:28 +0800
Subject: [PATCH 68/70] fix: async writer: a panic of the sink costs its
 message only

---
 countlog/output/async/async.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/countlog/output/async/async.go b/countlog/output/async/async.go
index 931a296..01f797c 100644
--- a/countlog/output/async/async.go
+++ b/countlog/output/async/async.go
@@ -83,7 +83,7 @@ func (writer *blockingQueueWriter) asyncWrite(ctx context.Context) {
 					// time is up
 					return
 				case buf := <-writer.queue:
-					_, err := writer.writer.Write(buf)
+					err := writer.writeOut(buf)
 					if err != nil {
 						loglog.Error(err)
 					}
@@ -94,7 +94,7 @@ func (writer *blockingQueueWriter) asyncWrite(ctx context.Context) {
 			}
 			return
 		case buf := <-writer.queue:
-			_, err := writer.writer.Write(buf)
+			err := writer.writeOut(buf)
 			if err != nil {
 				loglog.Error(err)
 			}
@@ -102,6 +102,18 @@ func (writer *blockingQueueWriter) asyncWrite(ctx context.Context) {
 	}
 }
 
+// writeOut returns a panic of the writer as an error: the next messages still are to be written
+func (writer *blockingQueueWriter) writeOut(buf []byte) (err error) {
+	defer func() {
+		recovered := recover()
+		if recovered != nil {
+			err = fmt.Errorf("countlog async writer panic: %v", recovered)
+		}
+	}()
+	_, err = writer.writer.Write(buf)
+	return err
+}
+
 func (writer *blockingQueueWriter) Write(buf []byte) (int, error) {
 	writer.queue <- append([]byte(nil), buf...)
 	return len(buf), nil
-- 
2.43.0


From 9acc1dce7754c96c89ffec00208967a694dfb59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:04 +0000
Subject: [PATCH 69/70] fix: stats: a panic of the collector does not end the
 export

---
 countlog/stats/window.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/countlog/stats/window.go b/countlog/stats/window.go
index 99c9564..ff100b8 100644
--- a/countlog/stats/window.go
+++ b/countlog/stats/window.go
@@ -1,6 +1,8 @@
 package stats
 
 import (
+	"fmt"
+	"github.com/v2pro/plz/countlog/loglog"
 	"github.com/v2pro/plz/countlog/spi"
 	"unsafe"
 	"strings"
@@ -44,7 +46,7 @@ func (window *Window) exportEverySecond(ctx context.Context) {
 	for {
 		select {
 		case <-timer.C:
-			window.Export(time.Now())
+			window.tryExport(time.Now())
 			timer.Reset(time.Second)
 		case <-ctx.Done():
 			return
@@ -52,6 +54,17 @@ func (window *Window) exportEverySecond(ctx context.Context) {
 	}
 }
 
+// tryExport reports a panic of the collector: the next exports still are to be done
+func (window *Window) tryExport(now time.Time) {
+	defer func() {
+		recovered := recover()
+		if recovered != nil {
+			loglog.Error(fmt.Errorf("countlog stats collector panic: %v", recovered))
+		}
+	}()
+	window.Export(now)
+}
+
 func (window *Window) Mutate() (*sync.Mutex, MapMonoid) {
 	shardId := gls.GoID() % 16
 	shard := window.shards[shardId]
-- 
2.43.0


From 492ee3f8e78fd26509968dae94f188b262880b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:36 +0000
Subject: [PATCH 70/70] fix: executor: do not log under the lock of the
 executor

---
 concurrent/unbounded_executor.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/concurrent/unbounded_executor.go b/concurrent/unbounded_executor.go
index 70a1cf0..85a4db8 100644
--- a/concurrent/unbounded_executor.go
+++ b/concurrent/unbounded_executor.go
@@ -85,15 +85,25 @@ func (executor *UnboundedExecutor) StopAndWait(ctx context.Context) {
 }
 
 func (executor *UnboundedExecutor) checkGoroutines() bool {
+	startFrom, count := executor.anyActive()
+	if count == 0 {
+		return true
+	}
+	// the lock is not held: logging might start or wait for goroutines of this executor
+	LogInfo("event!unbounded_executor.still waiting goroutines to quit",
+		"startFrom", startFrom,
+		"count", count)
+	return false
+}
+
+// anyActive tells where some active goroutines have been started and how many, 0 if there are none
+func (executor *UnboundedExecutor) anyActive() (startFrom string, count int) {
 	executor.activeGoroutinesMutex.Lock()
 	defer executor.activeGoroutinesMutex.Unlock()
 	for startFrom, count := range executor.activeGoroutines {
 		if count > 0 {
-			LogInfo("event!unbounded_executor.still waiting goroutines to quit",
-				"startFrom", startFrom,
-				"count", count)
-			return false
+			return startFrom, count
 		}
 	}
-	return true
+	return "", 0
 }
-- 
2.43.0

