// C20: the rolling log file under file system faults and crashes: at every
// file operation an error, a short write or a crash; afterwards every
// acknowledged record is still there, in order, and the logger goes on.
package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"syscall"
	"time"

	"verif/harn"
	"verif/hlib/ljx"
	shimos "verif/shim/os"
	"verif/vsched"
)

type rec struct {
	id    string
	n     int
	acked bool
}

func hook(faults *vsched.Cell, where *vsched.Journal) func(op *shimos.Op) shimos.Action {
	return func(op *shimos.Op) shimos.Action {
		base := op.Path[strings.LastIndexByte(op.Path, '/')+1:]
		label := "fault " + op.Kind
		note := func(what string) {
			faults.Add(1)
			where.Add(fmt.Sprintf("%s at %s %s", what, op.Kind, base))
		}
		io := &os.PathError{Op: op.Kind, Path: op.Path, Err: syscall.EIO}
		if op.Kind == "write" {
			switch vsched.Choose(6, vsched.ClassFault, label) {
			case 1:
				note("error")
				return shimos.Action{Err: &os.PathError{Op: "write", Path: op.Path, Err: syscall.ENOSPC}}
			case 2:
				note("short write")
				return shimos.Action{Err: &os.PathError{Op: "write", Path: op.Path, Err: syscall.ENOSPC}, Short: len(op.Data) / 2}
			case 3:
				note("crash before")
				return shimos.Action{Crash: true}
			case 4:
				note("crash after half")
				return shimos.Action{Err: io, Short: len(op.Data) / 2, CrashAfter: true}
			case 5:
				note("crash after")
				return shimos.Action{CrashAfter: true}
			}
			return shimos.Action{}
		}
		kinds := 4
		if op.Kind == "rename" {
			kinds = 6 // errors of other kinds
		}
		switch vsched.Choose(kinds, vsched.ClassFault, label) {
		case 4:
			note("no permission")
			return shimos.Action{Err: &os.PathError{Op: op.Kind, Path: op.Path, Err: syscall.EACCES}}
		case 5:
			note("exists")
			return shimos.Action{Err: &os.PathError{Op: op.Kind, Path: op.Path, Err: syscall.EEXIST}}
		case 1:
			note("error")
			return shimos.Action{Err: io}
		case 2:
			note("crash before")
			return shimos.Action{Crash: true}
		case 3:
			note("crash after")
			return shimos.Action{CrashAfter: true}
		}
		return shimos.Action{}
	}
}

func explore(c *harn.Ctx, s ljx.Setup, ops string, bounds [][5]int) {
	name := s.String() + " operations " + ops
	scratch := c.Scratch()
	c.ExploreWhole(name, "", bounds, vsched.Options{MaxSteps: 20000, DelayBound: true, NowStep: time.Millisecond}, func() (func(), func(o *vsched.Outcome) vsched.Verdict) {
		var w *ljx.World
		var faults vsched.Cell
		var where, failed vsched.Journal
		var recs []*rec
		write := func(id string, n int) error {
			r := &rec{id: id, n: n}
			recs = append(recs, r)
			data := ljx.Record(id, n)
			got, err := w.Log.Write([]byte(data))
			if err == nil && got != len(data) {
				failed.Add(fmt.Sprintf("write of %d bytes returned %d without error", len(data), got))
			}
			r.acked = err == nil
			return err
		}
		body := func() {
			w = ljx.New(scratch, s)
			shimos.Hook = hook(&faults, &where)
			for i, op := range ops {
				var err error
				switch op {
				case 's':
					err = write(fmt.Sprintf("r%d", i), 60)
				case 'b':
					err = write(fmt.Sprintf("r%d", i), 600*1024)
				case 'm':
					err = write(fmt.Sprintf("r%d", i), 300*1024)
				case 'R':
					err = w.Log.Rotate()
				case 'C':
					err = w.Log.Close()
				case 'N':
					err = w.Log.Close()
					vsched.Quiesce() // the clean-up of the old process is over
					w.NewLogger()
				case 'q':
					vsched.Quiesce()
				}
				if err != nil {
					failed.Add(fmt.Sprintf("operation %d (%c): %v", i, op, err))
				}
			}
			vsched.Quiesce()
		}
		judge := func(o *vsched.Outcome) vsched.Verdict {
			shimos.Hook = nil
			defer w.Remove()
			obs := strings.Join(where.Items(), ",") + "|" + fmt.Sprint(failed.Len())
			v := func() string {
				crashed := strings.HasPrefix(o.End, "crash")
				if o.End != "" && !crashed {
					return "execution ended abnormally: " + o.End
				}
				if n := failed.Len(); n > int(faults.Get()) {
					return fmt.Sprintf("%d operations failed: %s", n, strings.Join(failed.Items(), "; "))
				}
				if e := check(w, recs, s, "after the fault"); e != "" {
					return e
				}
				if e := broken(w); e != "" && !crashed && faults.Get() == 1 {
					return e
				}
				// a new process carries on
				bad := ""
				o2 := vsched.Run(&vsched.Options{MaxSteps: 20000, NowStep: time.Millisecond}, nil, func() {
					vsched.Advance(time.Second) // the restart takes a moment
					w.NewLogger()
					for i := 0; i < 2; i++ {
						if err := write(fmt.Sprintf("z%d", i), 60); err != nil {
							bad = fmt.Sprintf("write after the restart: %v", err)
						}
						vsched.Quiesce()
						if i == 0 {
							if err := w.Log.Rotate(); err != nil {
								bad = fmt.Sprintf("rotate after the restart: %v", err)
							}
							vsched.Quiesce()
						}
					}
					w.Log.Close()
				})
				if o2.End != "" {
					return "restart ended abnormally: " + o2.End
				}
				if bad != "" {
					return bad
				}
				return check(w, recs, s, "after the restart")
			}()
			if v != "" {
				v += "\n  faults: " + strings.Join(where.Items(), ", ")
			}
			return vsched.Verdict{Obs: obs, Violation: v}
		}
		return body, judge
	})
}

// broken: a compressed backup that can not be read; only a crash, or two failures in a row, may leave one.
func broken(w *ljx.World) string {
	_, baks, _, _ := w.ReadDir()
	for _, es := range baks {
		for _, en := range es {
			if en.Gz && strings.HasPrefix(en.Content, "(corrupt gzip") {
				return "a compressed backup is broken: " + en.Name + " " + en.Content
			}
		}
	}
	return ""
}

// check: every acknowledged record exactly once, intact and in order.
func check(w *ljx.World, recs []*rec, s ljx.Setup, when string) string {
	cur, baks, others, e := w.ReadDir()
	if e != "" {
		return e
	}
	if len(shimos.Escapes) > 0 {
		return "file operation outside the log directory: " + strings.Join(shimos.Escapes, ", ")
	}
	if e := w.CheckForeign(others); e != "" {
		return when + ": " + e
	}
	var keys []string
	for k := range baks {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	all := ""
	for _, k := range keys {
		content, raw := "", false
		for _, en := range baks[k] {
			if len(en.Content) > ljx.Max {
				return fmt.Sprintf("%s: a backup has %d bytes", when, len(en.Content))
			}
			if !en.Gz {
				content, raw = en.Content, true
			} else if !raw {
				content = en.Content
			}
		}
		all += content
	}
	if cur != nil {
		if len(cur.Content) > ljx.Max {
			return fmt.Sprintf("%s: the log has %d bytes", when, len(cur.Content))
		}
		all += cur.Content
	}
	if s.Initial != "" && strings.Count(all, "<init:") != 1 {
		return fmt.Sprintf("%s: the records of before the start are there %d times", when, strings.Count(all, "<init:"))
	}
	for i, o := range s.Olds {
		n := strings.Count(all, fmt.Sprintf("<old%d:", i))
		may := s.Age > 0 && o.AgeHours > 24*s.Age
		if n > 1 || (n == 0 && !may) {
			return fmt.Sprintf("%s: the content of existing backup %d is there %d times", when, i, n)
		}
	}
	last := -1
	for _, r := range recs {
		if !r.acked {
			continue
		}
		data := ljx.Record(r.id, r.n)
		n := strings.Count(all, data)
		if n != 1 {
			return fmt.Sprintf("%s: acknowledged record %s is there %d times; files hold %s", when, r.id, n, ljx.Brief(all))
		}
		p := strings.Index(all, data)
		if p < last {
			return fmt.Sprintf("%s: acknowledged record %s is out of order", when, r.id)
		}
		last = p
	}
	return ""
}

func setups() []ljx.Setup {
	return []ljx.Setup{
		{File: "foo.log"},
		{File: "foo.log", Initial: "small", Compress: true},
		{File: "foo.log", Backups: 9, Olds: []ljx.Old{{5, true, false}, {9, true, true}}, Compress: true, Foreign: true},
		{File: "foo.log", Age: 1, Olds: []ljx.Old{{5, true, false}, {30, true, false}, {40, false, true}}, Initial: "small"},
		{File: "sub/foo", Local: true},
	}
}

func run(faults, delay int, race bool) func(c *harn.Ctx) {
	return func(c *harn.Ctx) {
		i := 0
		var bounds [][5]int
		for f := 1; f <= faults; f++ {
			bounds = append(bounds, vsched.Bound(0, 0, f, 0))
		}
		if delay > 0 {
			bounds = append(bounds, vsched.Bound(delay, 0, 1, 0))
		}
		one := func(s ljx.Setup, ops string) {
			i++
			if c.Mine(i) && !c.Stop() {
				explore(c, s, ops, bounds)
			}
		}
		max := 4
		if faults > 1 || delay > 0 {
			max = 3
		}
		all := setups()
		if delay > 0 && faults == 1 && delay < 2 {
			all = all[2:3] // the one with most clean-up
		}
		for _, s := range all {
			var rec func(p string)
			rec = func(p string) {
				if len(p) == max {
					one(s, p)
					return
				}
				for _, a := range "sRCN" {
					if len(p) > 0 && (a == 'C' || a == 'N') && (p[len(p)-1] == 'C' || p[len(p)-1] == 'N') {
						continue
					}
					if len(p) == 0 && (a == 'C' || a == 'N') {
						continue
					}
					rec(p + string(a))
				}
			}
			rec("")
			one(s, "sqRqsqRqs")
		}
		for _, comp := range []bool{false, true} {
			for _, in := range []string{"near", "full"} {
				one(ljx.Setup{File: "foo.log", Initial: in, Compress: comp}, "sss")
				one(ljx.Setup{File: "foo.log", Initial: in, Compress: comp}, "ssqs")
				one(ljx.Setup{File: "foo.log", Initial: in, Compress: comp}, "sNs")
			}
		}
		one(ljx.Setup{File: "foo.log"}, "bbs")
		if delay > 0 {
			return
		}
		one(ljx.Setup{File: "foo.log"}, "bmms")
		one(ljx.Setup{File: "foo.log"}, "bbms")
		one(ljx.Setup{File: "foo.log", Compress: true}, "mmmm")
	}
}

func main() {
	harn.Main(harn.Check{
		ID: "C20", Level: "model_checking", StateMeaning: "distinct (script, faults injected, failed operations) combinations",
		Bounds: func(tier string) string {
			if tier == "thorough" {
				return "all scripts of 4 operations (write, rotate, close, restart) in 5 configurations, size-triggered rotations (also after short writes of up to 300 kB) and compression: every file operation of logger and clean-up goroutine x {error, short write, crash before, crash half-way, crash after}, one fault; scripts of 3 with two faults, and with one fault and up to two scheduling delays; each followed by a restart"
			}
			return "all scripts of 4 operations (write, rotate, close, restart) in 5 configurations, size-triggered rotations (also after short writes of up to 300 kB) and compression: every file operation of logger and clean-up goroutine x {error, short write, crash before, crash half-way, crash after}, one fault; scripts of 3 also with one scheduling delay; each followed by a restart"
		},
		Assumptions: []string{"a crash is the death of the process (completed file operations survive)", "a file operation that reports an error has not been performed (short writes: half of it)"},
		Jobs: func(tier string) []harn.Job {
			if tier == "thorough" {
				return []harn.Job{
					{Name: "one fault", Shards: 16, Run: run(1, 0, false)},
					{Name: "two faults", Shards: 24, Run: run(2, 0, false)},
					{Name: "one fault, delays", Shards: 24, Run: run(1, 2, false)},
				}
			}
			return []harn.Job{
				{Name: "one fault", Shards: 16, Run: run(1, 0, false)},
				{Name: "one fault, one delay", Shards: 16, Run: run(1, 1, false)},
			}
		},
	})
}
