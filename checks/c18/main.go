// C18: the rolling log file keeps every acknowledged write, in order, in files
// that never exceed the size limit.
package main

import (
	"fmt"
	"math"
	"os"
	"strings"
	"time"

	"verif/harn"
	"verif/hlib/ljx"
	"verif/vsched"
)

// operations: s small write, b 600 kB, f fill exactly, x limit, X over the
// limit, R rotate, C close, N restart, t one millisecond passes
func sequence(scratch string, s ljx.Setup, ops string) string {
	bad := ""
	var w *ljx.World
	o := vsched.Run(&vsched.Options{MaxSteps: 20000}, nil, func() {
		w = ljx.New(scratch, s)
		for i, op := range ops {
			e := ""
			switch op {
			case 's':
				e = w.Write(60)
			case 'b':
				e = w.Write(600 * 1024)
			case 'f':
				e = w.Write(w.Fill())
			case 'x':
				e = w.Write(ljx.Max)
			case 'X':
				e = w.Write(ljx.Max + 1)
			case 'R':
				e = w.Rotate()
			case 'C':
				e = w.Close()
			case 'N':
				w.Close()
				w.NewLogger()
			case 't':
				vsched.Advance(time.Millisecond)
			}
			ljx.Quiesce()
			if e == "" {
				e = w.Check()
			}
			if e != "" {
				bad = fmt.Sprintf("after step %d (%c): %s", i, op, e)
				return
			}
		}
		w.Close()
	})
	w.Remove()
	if o.End != "" && bad == "" {
		bad = "execution ended abnormally: " + o.End
	}
	return bad
}

func sequences(c *harn.Ctx) {
	do := func(s ljx.Setup, alphabet string, depth int) {
		var rec func(p string)
		rec = func(p string) {
			if c.Stop() {
				return
			}
			if len(p) == depth {
				c.Case("", func() string { return s.String() + " operations " + p }, func() string { return sequence(c.Scratch(), s, p) })
				return
			}
			for _, a := range alphabet {
				// no two pure time steps, restarts or closes in a row
				if len(p) > 0 && strings.ContainsRune("tCN", a) && p[len(p)-1] == byte(a) {
					continue
				}
				rec(p + string(a))
			}
		}
		rec("")
	}
	d := 4
	if c.Thorough() {
		d = 5
	}
	for _, in := range []string{"", "small", "near", "full", "over"} {
		do(ljx.Setup{File: "foo.log", Initial: in}, "sbfRNt", d)
		do(ljx.Setup{File: "foo.log", Initial: in}, "sbfxXRCt", d-1)
	}
	for _, f := range []string{"foo", "a.b.log", "sub/dir/foo.log", ".hidden", "with space-1.log"} {
		for _, in := range []string{"", "near"} {
			do(ljx.Setup{File: f, Initial: in}, "sbRN", 3)
		}
	}
	for _, m := range []os.FileMode{0600, 0640, 0644, 0660, 0664, 0666, 0755, 0777} {
		for _, um := range []int{-1, 022, 027, 077} {
			for _, own := range []int{0, 4321} {
				if um != 022 && own != 0 {
					continue
				}
				do(ljx.Setup{File: "foo.log", Initial: "near", Mode: m, Umask: um, Owner: own}, "sbRN", 3)
			}
		}
	}
	for _, um := range []int{-1, 027, 077} {
		do(ljx.Setup{File: "foo.log", Umask: um}, "sbRN", 3)
	}
	for _, fm := range []string{"2006-01-02", "20060102T150405", "2006-01-02T15-04-05.000000000", "Jan _2 15:04:05 2006"} {
		do(ljx.Setup{File: "foo.log", Fmt: fm, Initial: "near"}, "sbRt", d-1)
		do(ljx.Setup{File: "foo.log", Fmt: fm, Local: true}, "sbRt", 3)
	}
	do(ljx.Setup{File: "foo.log", Local: true}, "sbRt", 4)
}

// ---- large limits ----

// limits: files close to limits of up to 2^63 bytes; their content is not looked at
func limits(c *harn.Ctx) {
	for _, mb := range []int{0, 1, 2, 7, 99, 100, 101, 2047, 2048, 2049, 4095, 4096, 4097, 8192, 1 << 20, math.MaxInt32 - 1, math.MaxInt32, math.MaxUint32, 1<<43 - 1, 1 << 43, 1<<43 + 1, 1 << 44, math.MaxInt64 - 1, math.MaxInt64} {
		for _, gap := range []int64{0, 59, 100, 1 << 19} {
			mb, gap := mb, gap
			c.Case("", func() string {
				return fmt.Sprintf("MaxSize %d, a log file %d bytes below the limit, three writes of 60 bytes", mb, gap)
			}, func() string {
				bad := ""
				var w *ljx.World
				o := vsched.Run(&vsched.Options{MaxSteps: 20000, NowStep: time.Millisecond}, nil, func() {
					bad = limit(c, &w, mb, gap)
				})
				w.Remove()
				if o.End != "" && bad == "" {
					bad = "execution ended abnormally: " + o.End
				}
				return bad
			})
		}
	}
}

func limit(c *harn.Ctx, wp **ljx.World, mb int, gap int64) string {
	w := ljx.New(c.Scratch(), ljx.Setup{File: "foo.log"})
	*wp = w
	w.Log.MaxSize = mb
	defer w.Log.Close()
	max := int64(math.MaxInt64)
	if mb == 0 {
		max = 100 << 20
	} else if mb < 1<<43 {
		max = int64(mb) << 20
	}
	start := max - gap
	if start > 1<<40 {
		start = 1000 // too large for a file
	}
	if err := os.WriteFile(w.Path, nil, 0644); err != nil {
		return err.Error()
	}
	if err := os.Truncate(w.Path, start); err != nil {
		return err.Error()
	}
	cur, baks := start, 0
	for i := 0; i < 3; i++ {
		before := cur
		if n, err := w.Log.Write([]byte(ljx.Record("r", 60))); n != 60 || err != nil {
			return fmt.Sprintf("write %d returned (%d, %v)", i+1, n, err)
		}
		ljx.Quiesce()
		c.Trans(1)
		fi, err := os.Stat(w.Path)
		if err != nil {
			return err.Error()
		}
		cur = fi.Size()
		es, _ := os.ReadDir(w.Dir)
		switch {
		case cur == before+60 && len(es) == baks+1 && cur <= max:
		case cur == 60 && len(es) == baks+2 && before+60 >= max:
			baks++
		default:
			return fmt.Sprintf("after write %d to a file of %d bytes, limit %d, there are %d files and the log has %d bytes", i+1, before, max, len(es), cur)
		}
	}
	c.State(fmt.Sprint(mb, gap, cur, baks))
	return ""
}

// ---- schedules: writers, rotation, close ----

type scen struct {
	name    string
	setup   ljx.Setup
	threads []string // operations of every thread: s, b, R, C
}

func concurrent(c *harn.Ctx, sc scen, pre int) {
	scratch := c.Scratch()
	c.ExploreWhole(sc.name, "", harn.Bounds(pre, 0, 0, 0), vsched.Options{MaxSteps: 20000, DelayBound: true}, func() (func(), func(o *vsched.Outcome) vsched.Verdict) {
		var w *ljx.World
		var acked, bad vsched.Journal
		body := func() {
			w = ljx.New(scratch, sc.setup)
			var hs []*vsched.ThreadHandle
			for t, ops := range sc.threads {
				t, ops := t, ops
				hs = append(hs, vsched.Go(func() {
					for i, op := range ops {
						switch op {
						case 's', 'b':
							n := 60
							if op == 'b' {
								n = 600 * 1024
							}
							id := fmt.Sprintf("t%d-%d", t, i)
							rec := ljx.Record(id, n)
							got, err := w.Log.Write([]byte(rec))
							if err != nil || got != len(rec) {
								bad.Add(fmt.Sprintf("write returned (%d, %v)", got, err))
							}
							acked.Add(id)
						case 'R':
							if err := w.Log.Rotate(); err != nil {
								bad.Add("Rotate: " + err.Error())
							}
						case 'C':
							if err := w.Log.Close(); err != nil {
								bad.Add("Close: " + err.Error())
							}
						}
					}
				}))
			}
			for _, h := range hs {
				h.Join()
			}
			vsched.Quiesce()
			w.Log.Close()
		}
		judge := func(o *vsched.Outcome) vsched.Verdict {
			v := strings.Join(bad.Items(), "; ")
			obs := o.End
			if o.End != "" {
				v = "execution ended abnormally: " + o.End
			}
			if v == "" {
				v, obs = verify(w, sc, acked.Items())
			}
			w.Remove()
			return vsched.Verdict{Obs: obs, Violation: v}
		}
		return body, judge
	})
}

// verify: every acknowledged record exactly once and intact, the records of a
// thread in order (files by age), no file above the limit.
func verify(w *ljx.World, sc scen, acked []string) (string, string) {
	cur, baks, others, e := w.ReadDir()
	if e != "" {
		return e, ""
	}
	if len(others) > 0 {
		return fmt.Sprintf("unexpected files %v", others), ""
	}
	var files []string
	for _, es := range baks {
		for _, en := range es {
			files = append(files, en.Content)
		}
	}
	if cur != nil {
		files = append(files, cur.Content)
	}
	obs := ""
	pos := map[string]int{}
	for i, f := range files {
		if len(f) > ljx.Max && !(sc.setup.Initial == "over" && strings.HasPrefix(f, "<init")) {
			return fmt.Sprintf("a log file has %d bytes", len(f)), ""
		}
		rest := strings.TrimLeft(f, "\x00")
		if strings.HasPrefix(rest, "<init:") {
			rest = strings.TrimLeft(rest[30:], "\x00")
		}
		for k := 0; rest != ""; k++ {
			j := strings.IndexByte(rest, '\n')
			if j < 0 || rest[0] != '<' || rest[j-1] != '>' {
				return fmt.Sprintf("a log file holds a torn record: %s", ljx.Brief(f)), ""
			}
			id := rest[1:strings.IndexByte(rest, ':')]
			if rest[:j+1] != ljx.Record(id, j+1) {
				return "a record was changed: " + id, ""
			}
			if _, dup := pos[id]; dup {
				return "record written twice: " + id, ""
			}
			pos[id] = i*1000 + k
			rest = rest[j+1:]
		}
		obs += ljx.Brief(f)
	}
	for _, id := range acked {
		if _, ok := pos[id]; !ok {
			return fmt.Sprintf("acknowledged record %s is in no log file", id), obs
		}
	}
	// order within one file
	for t := range sc.threads {
		for i := 0; i < 9; i++ {
			for j := i + 1; j < 9; j++ {
				a, ok1 := pos[fmt.Sprintf("t%d-%d", t, i)]
				b, ok2 := pos[fmt.Sprintf("t%d-%d", t, j)]
				if ok1 && ok2 && a/1000 == b/1000 && a > b {
					return "records of one goroutine out of order", obs
				}
			}
		}
	}
	if len(files) > 0 && sc.setup.Initial != "" {
		n := 0
		for _, f := range files {
			if strings.HasPrefix(f, "<init:") {
				n++
			}
		}
		if n != 1 {
			return "the records of before the start are gone", obs
		}
	}
	return "", obs
}

func schedules(race bool) func(c *harn.Ctx) {
	return func(c *harn.Ctx) {
		var scs []scen
		for _, th := range [][]string{{"ss", "s"}, {"s", "R"}, {"ss", "R"}, {"ss", "C"}, {"bb", "b"}, {"sR", "sR"}, {"R", "R"}, {"s", "s", "R"}, {"s", "C", "R"}, {"C", "C"}, {"ss", "ss"}} {
			for _, in := range []string{"", "near", "small"} {
				if in == "small" && !c.Thorough() {
					continue
				}
				for _, local := range []bool{false, true} {
					s := ljx.Setup{File: "foo.log", Initial: in, Local: local}
					if local {
						s.Backups = 50 // the clean-up goroutine looks at the files
					}
					scs = append(scs, scen{fmt.Sprintf("%v initial=%q backups=%d", th, in, s.Backups), s, th})
				}
			}
		}
		for i, sc := range scs {
			if !c.Mine(i) {
				continue
			}
			pre := 2
			if len(sc.threads) > 2 {
				pre = 1
			}
			if c.Thorough() {
				pre++
			} else if race {
				pre--
			}
			if strings.Contains(strings.Join(sc.threads, ""), "b") {
				pre = 1
			}
			concurrent(c, sc, pre)
		}
	}
}

func main() {
	harn.Main(harn.Check{
		ID: "C18", Level: "model_checking", StateMeaning: "distinct (scenario, distribution of the records over files) pairs; sequences are counted as executions",
		Bounds: func(tier string) string {
			d := 4
			if tier == "thorough" {
				d = 5
			}
			return fmt.Sprintf("all operation sequences of length <=%d over write small/600kB/exact fill/limit/over limit, rotate, close, restart, clock step, from 5 initial states, file name, mode and time format variants, compared with a reference model after every step; limits of 0 (default) to 2^63-1 MB x files 0..512 kB below them; 2..3 goroutines writing, rotating and closing with the clean-up goroutine, delays <=%d; race detection", d, d-2)
		},
		Assumptions: []string{"size limit 1 MB in sequences and schedules", "no retention limits and no file system faults (see C19, C20)"},
		Jobs: func(tier string) []harn.Job {
			return []harn.Job{
				{Name: "sequences", Shards: 16, Run: sequences},
				{Name: "limits", Run: limits},
				{Name: "schedules", Shards: 16, Run: schedules(false)},
				{Name: "race", Race: true, Shards: 8, Run: schedules(true)},
			}
		},
	})
}
