// C19: retention and compression of rolled log files: only own backups beyond
// the configured number or age disappear, everything else stays readable.
package main

import (
	"fmt"
	"math"
	"os"
	"strings"
	"time"

	"verif/harn"
	"verif/hlib/ljx"
	"verif/vsched"
)

// operations: s small write, R rotate, C close, N restart, h an hour, d 24 hours, m a millisecond passes
func sequence(scratch string, s ljx.Setup, ops string) string {
	bad := ""
	var w *ljx.World
	o := vsched.Run(&vsched.Options{MaxSteps: 20000}, nil, func() {
		w = ljx.New(scratch, s)
		for i, op := range ops {
			e := ""
			switch op {
			case 's':
				e = w.Write(60)
			case 'b':
				e = w.Write(600 * 1024)
			case 'R':
				e = w.Rotate()
			case 'C':
				e = w.Close()
			case 'N':
				w.Close()
				w.NewLogger()
			case 'm':
				vsched.Advance(time.Millisecond)
			case 'h':
				vsched.Advance(time.Hour)
			case 'd':
				vsched.Advance(24 * time.Hour)
			}
			ljx.Quiesce()
			if e == "" {
				e = w.Check()
			}
			if e != "" {
				bad = fmt.Sprintf("after step %d (%c): %s", i, op, e)
				return
			}
		}
		w.Close()
	})
	w.Remove()
	if o.End != "" && bad == "" {
		bad = "execution ended abnormally: " + o.End
	}
	return bad
}

func sequences(c *harn.Ctx) {
	do := func(s ljx.Setup, alphabet string, depth int) {
		var rec func(p string)
		rec = func(p string) {
			if c.Stop() {
				return
			}
			if len(p) == depth {
				if !strings.ContainsAny(p, "sR") {
					return
				}
				c.Case("", func() string { return s.String() + " operations " + p }, func() string { return sequence(c.Scratch(), s, p) })
				return
			}
			for _, a := range alphabet {
				if len(p) > 0 && strings.ContainsRune("CN", a) && p[len(p)-1] == byte(a) {
					continue
				}
				rec(p + string(a))
			}
		}
		rec("")
	}
	olds := [][]ljx.Old{
		nil,
		{{2, true, false}, {30, true, false}, {80, true, false}},
		{{1, false, true}, {26, true, true}, {50, false, true}, {200, true, false}},
		{{23, true, false}, {25, true, false}, {49, false, true}},
		{{-5, true, false}, {16, true, false}, {31, true, false}}, // a timestamp in the future, others around the zone offset
	}
	d := 3
	if c.Thorough() {
		d = 4
	}
	for _, b := range []int{0, 1, 2, 3} {
		for _, age := range []int{0, 1, 2} {
			for _, comp := range []bool{false, true} {
				for oi, ol := range olds {
					for _, local := range []bool{false, true} {
						s := ljx.Setup{File: "foo.log", Backups: b, Age: age, Compress: comp, Local: local, Olds: ol, Foreign: oi%2 == 1, Initial: []string{"", "small", "", "small", ""}[oi]}
						depth := d
						if local && oi > 1 && oi != 4 {
							depth = 2
						}
						if !comp && b < 3 {
							depth++
						}
						if local && depth > 3 && !c.Thorough() {
							depth = 3
						}
						do(s, "sRhdN", depth)
					}
				}
				do(ljx.Setup{File: "foo.log", Backups: b, Age: age, Compress: comp}, "sRmN", d+1)
			}
		}
	}
	for _, f := range []string{"foo", "a.b.log", "sub/dir/foo.log", ".hidden", "with space-1.log", "a.b.b-x", "x.gz.log", "foo.gz", "foo.log.gz", "-", "a-2017-03-04T05-06-07.000.log", "foo_1.log", "x.y.y-"} {
		for _, comp := range []bool{false, true} {
			do(ljx.Setup{File: f, Backups: 1, Age: 1, Compress: comp, Olds: olds[2], Foreign: f != "foo" && f != ".hidden", Initial: "small"}, "sRdN", 3)
			do(ljx.Setup{File: f, Age: 1, Compress: comp, Olds: olds[1], Initial: "small"}, "sRdN", 3)
			do(ljx.Setup{File: f, Backups: 2, Compress: comp, Olds: []ljx.Old{{2, false, true}, {30, true, true}, {80, false, true}, {90, true, false}, {99, true, false}}, Initial: "small"}, "sRdN", 3)
			do(ljx.Setup{File: f, Backups: 3, Compress: comp, Olds: []ljx.Old{{2, true, false}, {30, false, true}, {80, false, true}, {90, true, true}}, Initial: "small"}, "sRd", 3)
		}
	}
	for _, m := range []os.FileMode{0600, 0644, 0664, 0666} {
		for _, um := range []int{-1, 022, 077} {
			for _, own := range []int{0, 4321} {
				do(ljx.Setup{File: "foo.log", Backups: 2, Compress: true, Mode: m, Umask: um, Owner: own, Initial: "small", Olds: olds[1]}, "sRN", 3)
			}
		}
	}
	for _, fm := range []string{"02-01-2006T15-04-05.000", "04-15-05 Jan 02 2006.000"} {
		many := []ljx.Old{{2, true, false}, {30, false, true}, {80, true, true}, {590, true, false}, {1000, true, false}, {4000, false, true}, {9000, true, false}}
		for _, b := range []int{1, 2, 4, 6} {
			do(ljx.Setup{File: "foo.log", Fmt: fm, Backups: b, Olds: many}, "sRd", 3)
			do(ljx.Setup{File: "foo.log", Fmt: fm, Backups: b, Compress: true, Olds: many}, "sR", 2)
		}
	}
	for _, fm := range []string{"2006-01-02", "20060102T150405", "2006-01-02T15-04-05.000000000", "Jan _2 15:04:05 2006", "2006-01-02T15-04-05Z07", "2006_01_02", "2006-01-02_15-04-05", "_2006-01-02_"} {
		for _, local := range []bool{false, true} {
			do(ljx.Setup{File: "foo.log", Fmt: fm, Backups: 2, Local: local, Olds: olds[1]}, "sRhd", 4)
			do(ljx.Setup{File: "foo.log", Fmt: fm, Age: 1, Compress: true, Local: local, Olds: olds[1]}, "sRhd", 3)
		}
	}
	// many backups made at the same time
	for _, fm := range []string{"", "2006-01-02", "2006_01_02"} {
		for _, comp := range []bool{false, true} {
			for _, n := range []int{11, 17, 40} {
				s := ljx.Setup{File: "foo.log", Fmt: fm, Age: 1, Compress: comp}
				p := strings.Repeat("sR", n) + "ddR"
				c.Case("", func() string { return s.String() + " operations " + p }, func() string { return sequence(c.Scratch(), s, p) })
			}
		}
	}
	// big backups
	do(ljx.Setup{File: "foo.log", Backups: 1, Initial: "near"}, "sbR", 3)
	do(ljx.Setup{File: "foo.log", Compress: true, Initial: "near"}, "sbR", 2)
}

// limits: large limits keep everything
func limits(c *harn.Ctx) {
	large := []int{1000, 36500, 106751, 106752, 106753, 200000, 213503, 213504, 213505, 300000, 1000000, math.MaxInt32 - 1, math.MaxInt32, math.MaxUint32, math.MaxUint32 + 1, 1 << 40, 1 << 62, math.MaxInt64 - 1, math.MaxInt64}
	olds := []ljx.Old{{-1000, true, false}, {2, true, false}, {30, false, true}, {24 * 400, true, true}, {24 * 900, true, false}}
	for _, n := range large {
		for kind := 0; kind < 4; kind++ {
			for _, comp := range []bool{false, true} {
				s := ljx.Setup{File: "foo.log", Compress: comp, Olds: olds, Initial: "small"}
				switch kind {
				case 0:
					s.Age = n
				case 1:
					s.Backups = n
				case 2:
					s.Age, s.Backups = n, n
				case 3:
					s.Age, s.Backups = n, 2
				}
				for _, p := range []string{"s", "R", "sRsR", "sRdR"} {
					s, p := s, p
					c.Case("", func() string { return s.String() + " operations " + p }, func() string { return sequence(c.Scratch(), s, p) })
				}
			}
		}
	}
}

// schedules: the clean-up goroutine against writers and rotations; at the end
// the directory must be what the configuration allows
func schedules(race bool) func(c *harn.Ctx) {
	return func(c *harn.Ctx) {
		i := 0
		for _, threads := range [][]string{{"sR"}, {"RR"}, {"sRsR"}, {"sR", "R"}, {"sR", "sC"}, {"sRN"}} {
			for _, b := range []int{1, 2} {
				for _, comp := range []bool{false, true} {
					for _, step := range []bool{false, true} {
						i++
						if !c.Mine(i) {
							continue
						}
						threads, b, comp, step := threads, b, comp, step
						pre := 2
						if c.Thorough() {
							pre = 3
						}
						if race {
							pre--
						}
						name := fmt.Sprintf("%v backups=%d compress=%v clock=%v", threads, b, comp, step)
						scratch := c.Scratch()
						ns := time.Duration(0)
						if step {
							ns = time.Millisecond
						}
						c.ExploreWhole(name, "", harn.Bounds(pre, 0, 0, 0), vsched.Options{MaxSteps: 20000, DelayBound: true, NowStep: ns}, func() (func(), func(o *vsched.Outcome) vsched.Verdict) {
							var w *ljx.World
							var bad, acked vsched.Journal
							body := func() {
								w = ljx.New(scratch, ljx.Setup{File: "foo.log", Backups: b, Compress: comp, Olds: []ljx.Old{{2, true, false}, {5, true, true}}})
								var hs []*vsched.ThreadHandle
								for t, ops := range threads {
									t, ops := t, ops
									hs = append(hs, vsched.Go(func() {
										for k, op := range ops {
											switch op {
											case 's':
												id := fmt.Sprintf("t%d-%d", t, k)
												if _, err := w.Log.Write([]byte(ljx.Record(id, 40))); err != nil {
													bad.Add("write: " + err.Error())
												}
												acked.Add(id)
											case 'R':
												if err := w.Log.Rotate(); err != nil {
													bad.Add("rotate: " + err.Error())
												}
											case 'C':
												w.Log.Close()
											}
										}
									}))
								}
								for _, h := range hs {
									h.Join()
								}
								vsched.Quiesce()
								w.Log.Close()
							}
							return body, func(o *vsched.Outcome) vsched.Verdict {
								v := strings.Join(bad.Items(), "; ")
								obs := o.End
								if o.End != "" {
									v = "execution ended abnormally: " + o.End
								} else if v == "" {
									v, obs = final(w, b, comp, threads)
								}
								w.Remove()
								return vsched.Verdict{Obs: obs, Violation: v}
							}
						})
					}
				}
			}
		}
	}
}

// final state once the clean-up goroutine is idle
func final(w *ljx.World, b int, comp bool, threads []string) (string, string) {
	cur, baks, others, e := w.ReadDir()
	if e != "" {
		return e, ""
	}
	if len(others) > 0 {
		return fmt.Sprintf("unexpected files %v", others), ""
	}
	if cur == nil {
		return "no current log file", ""
	}
	obs := fmt.Sprintf("cur %s baks %d", ljx.Brief(cur.Content), len(baks))
	rotated := 0
	for _, t := range threads {
		rotated += strings.Count(t, "R")
	}
	if len(baks) > b {
		return fmt.Sprintf("%d backups are left, the limit is %d", len(baks), b), obs
	}
	if len(baks) < b {
		return fmt.Sprintf("only %d backups are left of at least %d made, the limit is %d", len(baks), 2, b), obs
	}
	for k, es := range baks {
		for _, en := range es {
			if comp != en.Gz {
				return fmt.Sprintf("backup %s: gzip=%v, configured %v", en.Name, en.Gz, comp), obs
			}
			if strings.Contains(en.Content, "(corrupt") {
				return "backup " + k + " " + en.Content, obs
			}
		}
	}
	return "", obs
}

func main() {
	harn.Main(harn.Check{
		ID: "C19", Level: "model_checking", StateMeaning: "distinct final directory states of the scheduled scenarios; sequences are counted as executions",
		Bounds: func(tier string) string {
			d := 4
			if tier == "thorough" {
				d = 5
			}
			return fmt.Sprintf("all operation sequences of length <=%d over write, rotate, restart, clock steps (ms, hour, day) for MaxBackups 0..3 x MaxAge 0..2 x compress x local time x 5 sets of existing backups (plain, gzip, both, future), foreign look-alike files, 13 file names, 8 time formats, limits of up to 2^63-1; after every step the directory equals the reference model's; schedules of the clean-up goroutine with writers and rotations, delays <=%d; race detection", d, d-2)
		},
		Assumptions: []string{"no file system faults (see C20)", "time zone Asia/Shanghai for local time"},
		Jobs: func(tier string) []harn.Job {
			return []harn.Job{
				{Name: "sequences", Shards: 24, Run: sequences},
				{Name: "limits", Run: limits},
				{Name: "schedules", Shards: 16, Run: schedules(false)},
				{Name: "race", Race: true, Shards: 8, Run: schedules(true)},
			}
		},
	})
}
