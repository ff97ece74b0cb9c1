// C05: concurrent logging: every event reaches the sink in exactly one Write
// call that carries exactly its own record.
package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/v2pro/plz/countlog"
	"github.com/v2pro/plz/countlog/loglog"
	"github.com/v2pro/plz/countlog/output"
	"github.com/v2pro/plz/countlog/output/async"
	"github.com/v2pro/plz/countlog/output/compact"
	"github.com/v2pro/plz/countlog/output/hrf"
	"github.com/v2pro/plz/countlog/output/json"
	"github.com/v2pro/plz/countlog/output/printf"
	"github.com/v2pro/plz/countlog/spi"

	"verif/harn"
	vsync "verif/shim/sync"
	"verif/vsched"
)

// slowFormat formats in several steps with scheduling points in between.
type slowFormat struct{}

func (slowFormat) FormatterOf(site *spi.LogSite) output.Formatter { return slowFormatter{site.Event} }

type slowFormatter struct{ event string }

func (f slowFormatter) Format(space []byte, e *spi.Event) []byte {
	if len(space) != 0 {
		return append(space, "(buffer not empty)"...)
	}
	vsched.Point("format1")
	space = append(space, f.event...)
	for i := 0; i+1 < len(e.Properties); i += 2 {
		vsched.Point("format2")
		space = append(space, ' ')
		space = append(space, e.Properties[i+1].(string)...)
	}
	vsched.Point("format3")
	return append(space, '\n')
}

// step is a value that is formatted in several steps in every format.
type step string

func (s step) String() string {
	vsched.Point("string")
	return string(s)
}

func (s step) MarshalJSON() ([]byte, error) {
	vsched.Point("marshal")
	return []byte(`"` + string(s) + `"`), nil
}

func (c config) props(value string) []interface{} {
	if c.format == "slow" {
		return []interface{}{"k1", value, "k2", "end"}
	}
	return []interface{}{"k1", value, "k2", step("end")}
}

type config struct {
	format  string
	api     string // "handler": one shared handler; "log": countlog.Info, fresh event name; "handlers": a handler per goroutine
	sizes   [][]int
	sink    string // "ok" "err" "async", "panic": once before, "panics": at every other record
	sameEvt bool
}

func (c config) name() string {
	return fmt.Sprintf("%s/%s/%v/sink=%s/same=%v", c.format, c.api, c.sizes, c.sink, c.sameEvt)
}

type sink struct {
	cfg    *config
	lines  vsched.Journal
	bad    vsched.Journal
	n      vsched.Cell
	panics bool // before the goroutines start
}

func (s *sink) Write(b []byte) (int, error) {
	if s.panics {
		s.panics = false
		panic("the sink panics")
	}
	was := string(b)
	vsched.Point("sink1")
	if string(b) != was {
		s.bad.Add(fmt.Sprintf("the record %q changed to %q while it was being written", clip(was), clip(string(b))))
	}
	s.lines.Add(was)
	if s.cfg.sink == "err" && s.n.Add(1)%2 == 1 {
		return 0, errors.New("sink failure")
	}
	if s.cfg.sink == "panics" && s.n.Add(1)%2 == 1 {
		panic("the sink panics")
	}
	return len(b), nil
}

func clip(s string) string {
	if len(s) > 80 {
		return s[:80] + "..."
	}
	return s
}

var serial int
var fixedTime = time.Date(2021, 5, 6, 7, 8, 9, 0, time.UTC)

func payload(t, k, size int) string {
	p := fmt.Sprintf("t%d-e%d-", t, k)
	for len(p) < size {
		p += string(rune('A' + t))
	}
	return p
}

func formatOf(name string) output.Format {
	switch name {
	case "slow":
		return slowFormat{}
	case "hrf":
		return &hrf.Format{}
	case "compact":
		return &compact.Format{}
	case "json":
		return &json.JsonFormat{}
	}
	return &printf.Format{Layout: "[{level}] {message} {event}"}
}

func harness(cfg config) harn.Harness {
	return func() (func(), func(o *vsched.Outcome) vsched.Verdict) {
		vsync.Rewind() // the caches as they were at the start
		serial++
		snk := &sink{cfg: &cfg}
		var complaints vsched.Cell
		loglog.Error = func(err error) {
			complaints.Add(1)
		}
		var expect []string
		evName := func(t int) string {
			if cfg.sameEvt {
				t = 0
			}
			if cfg.format == "slow" {
				return fmt.Sprintf("event!c05-%d-%d", serial, t)
			}
			if cfg.sameEvt {
				return fmt.Sprintf("c05-%d {k1} {k2}.", serial)
			}
			return fmt.Sprintf("c05-%d-%d {k1} {k2}.", serial, t)
		}
		// what each record looks like on its own
		for t, ss := range cfg.sizes {
			for k, size := range ss {
				ps := cfg.props(payload(t, k, size))
				site := &spi.LogSite{Event: evName(t), Sample: ps}
				var want string
				vsched.Run(&vsched.Options{}, nil, func() {
					want = string(formatOf(cfg.format).FormatterOf(site).Format(nil, &spi.Event{Level: spi.LevelInfo, Properties: ps, Timestamp: fixedTime}))
				})
				expect = append(expect, want)
			}
		}
		body := func() {
			var w interface {
				Write([]byte) (int, error)
			} = snk
			var closer func()
			if cfg.sink == "async" {
				aw := async.NewAsyncWriter(async.AsyncWriterConfig{Writer: snk, QueueLength: 2, IsQueueBlocking: true})
				w, closer = aw, func() { aw.Close() }
			}
			ew := output.NewEventWriter(output.EventWriterConfig{Format: formatOf(cfg.format), Writer: w})
			countlog.EventWriter = ew
			sample := cfg.props("")
			shared := ew.HandlerOf(&spi.LogSite{Event: evName(0), Sample: sample})
			if cfg.sink == "panic" {
				snk.panics = true
				func() {
					defer func() { recover() }()
					shared.Handle(&spi.Event{Level: spi.LevelInfo, Properties: cfg.props("lost"), Timestamp: fixedTime})
				}()
			}
			var hs []*vsched.ThreadHandle
			for t, ss := range cfg.sizes {
				t, ss := t, ss
				hs = append(hs, vsched.Go(func() {
					h := shared
					if cfg.api == "handlers" {
						h = ew.HandlerOf(&spi.LogSite{Event: evName(t), Sample: sample})
					}
					for k, size := range ss {
						ps := cfg.props(payload(t, k, size))
						if cfg.api == "log" {
							countlog.Info(evName(t), ps...)
						} else {
							func() {
								if cfg.sink == "panics" {
									defer func() { recover() }()
								}
								h.Handle(&spi.Event{Level: spi.LevelInfo, Properties: ps, Timestamp: fixedTime})
							}()
						}
					}
				}))
			}
			for _, h := range hs {
				h.Join()
			}
			if closer != nil {
				closer()
			}
		}
		judge := func(o *vsched.Outcome) vsched.Verdict {
			got := snk.lines.Items()
			order := ""
			for _, g := range got {
				if i := strings.Index(g, "-e"); i > 0 {
					order += g[i-1 : i+3]
				}
			}
			v := strings.Join(snk.bad.Items(), "; ")
			if v == "" {
				a, b := append([]string{}, got...), append([]string{}, expect...)
				if cfg.format != "slow" && cfg.api == "log" {
					// location and time are not known here: compare what precedes them
					for i := range a {
						a[i] = essence(a[i])
					}
					for i := range b {
						b[i] = essence(b[i])
					}
				}
				sort.Strings(a)
				sort.Strings(b)
				if len(a) != len(b) {
					v = fmt.Sprintf("%d events were logged, the sink got %d Write calls: %q", len(b), len(a), clip(fmt.Sprint(a)))
				} else {
					for i := range a {
						if a[i] != b[i] {
							v = fmt.Sprintf("record %q instead of %q", clip(a[i]), clip(b[i]))
							break
						}
					}
				}
			}
			if v == "" && cfg.sink == "err" && int(complaints.Get()) != (len(expect)+1)/2 {
				v = fmt.Sprintf("%d sink failures, %d reports of them", (len(expect)+1)/2, complaints.Get())
			}
			// events of one goroutine arrive in the order it logged them
			if v == "" {
				for t, ss := range cfg.sizes {
					last := -1
					for k := range ss {
						for i, g := range got {
							if strings.Contains(g, fmt.Sprintf("t%d-e%d-", t, k)) {
								if i < last {
									v = fmt.Sprintf("events of goroutine %d were written out of order", t)
								}
								last = i
							}
						}
					}
				}
			}
			if o.End != "" {
				v = "execution ended abnormally: " + o.End
			}
			return vsched.Verdict{Obs: o.End + order, Violation: v}
		}
		return body, judge
	}
}

// essence drops time and location of a record.
func essence(s string) string {
	i := strings.Index(s, "c05-")
	if i < 0 {
		return s
	}
	if j := strings.Index(s, `,"timestamp":`); j > i {
		return s[i:j]
	}
	return s[i:]
}

func configs(th, race bool) (r []config) {
	sz := [][][]int{{{10}, {10}}, {{10}, {300}}, {{300}, {200}}, {{10, 10}, {10}}, {{100, 300}, {126}}}
	if th {
		sz = append(sz, [][]int{{10, 300}, {300, 10}}, [][]int{{10}, {10}, {300}}, [][]int{{123}, {124}}, [][]int{{5000}, {70000}})
	}
	for _, s := range sz {
		for _, f := range []string{"slow", "hrf", "compact", "printf", "json"} {
			for _, api := range []string{"handler", "handlers", "log"} {
				for _, k := range []string{"ok", "err", "async", "panic", "panics"} {
					for _, same := range []bool{true, false} {
						if api == "handler" && !same {
							continue
						}
						if k == "panics" && api == "log" {
							continue // it is tried again
						}
						if (k == "async" || k == "err" || k == "panics" || k == "panic" && !th) && f != "slow" && !(f == "hrf" && api == "log") {
							continue
						}
						if !th && (f == "printf" || f == "json") && (api == "log" || api == "handlers" && len(s[0])+len(s[1]) > 2) {
							continue
						}
						if k == "async" && len(s) > 2 {
							continue
						}
						r = append(r, config{format: f, api: api, sizes: s, sink: k, sameEvt: same})
					}
				}
			}
		}
	}
	return
}

func run(race bool) func(c *harn.Ctx) {
	return func(c *harn.Ctx) {
		for i, cfg := range configs(c.Thorough(), race) {
			if !c.Mine(i) {
				continue
			}
			pre := 3
			if cfg.sink == "async" {
				pre = 2
			}
			if c.Thorough() {
				pre++
			}
			if race {
				pre--
			}
			c.ExploreWhole(cfg.name(), "", harn.Bounds(pre, 0, 0, 0), vsched.Options{MaxSteps: 6000, DelayBound: cfg.sink == "async" || len(cfg.sizes) > 2}, harness(cfg))
		}
	}
}

func main() {
	vsync.Mark()
	harn.Main(harn.Check{
		ID: "C05", Level: "model_checking", StateMeaning: "distinct (configuration, order of the records at the sink) pairs",
		Bounds: func(tier string) string {
			if tier == "thorough" {
				return "2..3 goroutines, 1..2 events each, record sizes 10..70000 bytes, 5 formats with values formatted in several steps, shared and own handlers and the logging API with a fresh event, failing, panicking and asynchronous sinks; preemptions <=4"
			}
			return "2 goroutines, 1..2 events each, record sizes 10..300 bytes around the initial buffer size, 5 formats with values formatted in several steps, shared and own handlers and the logging API with a fresh event, failing, panicking and asynchronous sinks; preemptions <=3 (async: delays <=2); race detection"
		},
		Assumptions: []string{"the sink does not keep the slice it was given (io.Writer contract)"},
		Jobs: func(tier string) []harn.Job {
			return []harn.Job{
				{Name: "schedules", Shards: 24, Run: run(false)},
				{Name: "race", Race: true, Shards: 8, Run: run(true)},
			}
		},
	})
}
