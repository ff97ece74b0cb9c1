// C06: level gating: exactly the events the levels select are emitted, once,
// with the level and error they were logged with, and calls return what their
// contract says.
package main

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"strings"
	"time"

	"github.com/v2pro/plz/countlog"
	"github.com/v2pro/plz/countlog/loglog"
	"github.com/v2pro/plz/countlog/spi"
	"github.com/v2pro/plz/countlog/stats"

	"verif/harn"
	vsync "verif/shim/sync"
)

var initialMin, initialCall = spi.MinLevel, spi.MinCallLevel

// record is what a sink was given
type record struct {
	sink  string // "writer" or "counter"
	site  string
	agg   string
	level int
	ctx   context.Context
	err   string
	props []interface{}
}

var current []record

func errText(err error) string {
	if err == nil {
		return "<none>"
	}
	return "err:" + err.Error()
}

func recordingSink(name string) spi.EventSink {
	return spi.FuncEventSink(func(site *spi.LogSite) spi.EventHandler {
		return spi.FuncEventHandler(func(e *spi.Event) {
			current = append(current, record{name, site.Event, site.Agg, e.Level, e.Context, errText(e.Error), e.Properties})
		})
	})
}

type nullCollector struct{}

func (nullCollector) Collect(*stats.Point) {}

var aggregators = []struct {
	name string
	sink spi.EventSink
}{
	{"none", stats.NewEventAggregator(stats.EventAggregatorConfig{})},
	{"collector", stats.NewEventAggregator(stats.EventAggregatorConfig{
		Executor:  func(handler func(ctx context.Context)) {},
		Collector: nullCollector{},
	})},
	{"recorder", spi.FuncEventSink(func(site *spi.LogSite) spi.EventHandler {
		agg := site.Agg
		for i := 0; i+1 < len(site.Sample); i += 2 {
			if v, ok := site.Sample[i+1].(string); ok && site.Sample[i] == "agg" && agg == "" {
				agg = v
			}
		}
		if agg == "" {
			return nil
		}
		return recordingSink("counter").HandlerOf(site)
	})},
}

// fn is one way to log
type fn struct {
	name  string
	level int  // of the event, without an error
	gated bool // by the minimum level
	ctx   bool
	supp  bool // by the level suppressed in the context
	call  bool
	fail  int // level with an error
	f     func(ctx *countlog.Context, event string, err error, props []interface{}) error
}

func plain(name string, level int, gated bool, f func(string, ...interface{})) fn {
	return fn{name: name, level: level, gated: gated, f: func(_ *countlog.Context, event string, _ error, props []interface{}) error {
		f(event, props...)
		return nil
	}}
}

func ofCtx(name string, level int, gated, supp bool, f func(*countlog.Context, string, ...interface{})) fn {
	return fn{name: "ctx." + name, level: level, gated: gated, ctx: true, supp: supp, f: func(ctx *countlog.Context, event string, _ error, props []interface{}) error {
		f(ctx, event, props...)
		return nil
	}}
}

func call(name string, level int, f func(string, error, ...interface{}) error) fn {
	return fn{name: name, level: level, gated: true, call: true, fail: 40, f: func(_ *countlog.Context, event string, err error, props []interface{}) error {
		return f(event, err, props...)
	}}
}

func callCtx(name string, level, fail int, f func(*countlog.Context, string, error, ...interface{}) error) fn {
	return fn{name: "ctx." + name, level: level, gated: true, ctx: true, call: true, fail: fail, f: func(ctx *countlog.Context, event string, err error, props []interface{}) error {
		return f(ctx, event, err, props...)
	}}
}

func fns(levels []int) []fn {
	r := []fn{
		plain("Trace", 10, true, countlog.Trace), plain("Debug", 20, true, countlog.Debug), plain("Info", 30, true, countlog.Info),
		plain("Warn", 40, false, countlog.Warn), plain("Error", 50, false, countlog.Error), plain("Fatal", 60, false, countlog.Fatal),
		ofCtx("Trace", 10, true, true, (*countlog.Context).Trace), ofCtx("Debug", 20, true, true, (*countlog.Context).Debug), ofCtx("Info", 30, true, true, (*countlog.Context).Info),
		ofCtx("Warn", 40, false, false, (*countlog.Context).Warn), ofCtx("Error", 50, false, false, (*countlog.Context).Error), ofCtx("Fatal", 60, false, false, (*countlog.Context).Fatal),
		call("TraceCall", 10, countlog.TraceCall), call("DebugCall", 20, countlog.DebugCall), call("InfoCall", 30, countlog.InfoCall),
		callCtx("TraceCall", 10, 40, (*countlog.Context).TraceCall), callCtx("DebugCall", 20, 40, (*countlog.Context).DebugCall), callCtx("InfoCall", 30, 40, (*countlog.Context).InfoCall),
		callCtx("LogAccess", 30, 50, (*countlog.Context).LogAccess),
	}
	for _, l := range levels {
		l := l
		r = append(r, fn{name: fmt.Sprintf("Log(%d)", l), level: l, gated: true, f: func(_ *countlog.Context, event string, _ error, props []interface{}) error {
			countlog.Log(l, event, props...)
			return nil
		}})
	}
	return r
}

type nilErr struct{}

func (e *nilErr) Error() string { return "nil but an error" }

var errs = []struct {
	name string
	err  error
}{
	{"nil", nil}, {"boom", errors.New("boom")}, {"empty", errors.New("")}, {"typednil", (*nilErr)(nil)}, {"wrapped", fmt.Errorf("out: %w", errors.New("in"))},
}

type propSet struct {
	name  string
	props []interface{}
	agg   bool
}

var propSets = []propSet{
	{"none", nil, false},
	{"kv", []interface{}{"k", 1}, false},
	{"agg", []interface{}{"agg", "counter"}, true},
	{"agg2", []interface{}{"k", "v", "agg", "counter"}, true},
	{"aggunknown", []interface{}{"agg", "something"}, true},
	{"aggvalue", []interface{}{"k", "agg", "m", "counter"}, false},
	{"aggint", []interface{}{"agg", 5}, false},
	{"aggdim", []interface{}{"agg", "counter", "dim", "k", "k", "v"}, true},
}

// one is one logged event
type one struct {
	min   int // -1: as the program starts
	f     fn
	err   int
	props int
	supp  int // -1: not suppressed
}

func (o one) String() string {
	s := fmt.Sprintf("minimum level %d, %s props %s", o.min, o.f.name, propSets[o.props].name)
	if o.f.call {
		s += " err " + errs[o.err].name
	}
	if o.supp >= 0 {
		s += fmt.Sprintf(" suppressed below %d", o.supp)
	}
	return s
}

func setMin(m int) int {
	if m < 0 {
		spi.MinLevel, spi.MinCallLevel = initialMin, initialCall
		return 10
	}
	countlog.SetMinLevel(m)
	return m
}

// do logs one event and compares with what the levels prescribe
func (o one) do(event, message string, recorder bool) string {
	min := setMin(o.min)
	for l := 0; l <= 66; l++ {
		if countlog.ShouldLog(l) != (l >= min) {
			return fmt.Sprintf("ShouldLog(%d) is %v", l, !(l >= min))
		}
	}
	ctx := countlog.Ctx(context.Background())
	ctx.Add("ck", "cv")
	if o.supp >= 0 {
		ctx.SuppressLevelsBelow(o.supp)
	}
	props := append([]interface{}{}, propSets[o.props].props...)
	current = nil
	var err error
	if o.f.call {
		err = errs[o.err].err
	}
	ret := o.f.f(ctx, event, err, props)
	got := current
	current = nil

	level := o.f.level
	enabled := !o.f.gated || level >= min
	if err != nil {
		level, enabled = o.f.fail, true
	}
	if o.f.supp && o.supp >= 0 && level < o.supp {
		enabled = false
	}
	agg := ""
	if o.f.call {
		agg = "call"
	}
	emitted := enabled
	if o.f.call || propSets[o.props].agg {
		// aggregated events are written individually from half a level up on, failures always
		emitted = enabled && (level >= min+5 || level >= 40)
	}
	if chk != nil {
		chk.State(fmt.Sprint(o.f.name, o.min, o.supp, level, enabled, emitted))
	}
	var want []record
	var wantCtx context.Context
	if o.f.ctx {
		wantCtx = ctx
	}
	mk := func(sink string) record {
		return record{sink, event, agg, level, wantCtx, errText(err), props}
	}
	if emitted {
		want = append(want, mk("writer"))
	}
	if enabled && recorder && (o.f.call || propSets[o.props].agg) {
		want = append(want, mk("counter"))
	}
	for _, sink := range []string{"writer", "counter"} {
		w, g := of(sink, want), of(sink, got)
		if len(w) != len(g) {
			return fmt.Sprintf("the %s was given the event %d times instead of %d times", sink, len(g), len(w))
		}
		for i := range w {
			a, b := w[i], g[i]
			if a.site != b.site || a.agg != b.agg || a.level != b.level || a.err != b.err {
				return fmt.Sprintf("the %s was given %+v instead of %+v", sink, b, a)
			}
			// a nil *Context is as good as none
			if a.ctx != b.ctx && !(a.ctx == nil && reflect.ValueOf(b.ctx).IsNil()) {
				return fmt.Sprintf("the %s was given another context", sink)
			}
			if !(len(a.props) == 0 && len(b.props) == 0) && !reflect.DeepEqual(a.props, b.props) {
				return fmt.Sprintf("the %s was given properties %v instead of %v", sink, b.props, a.props)
			}
		}
	}
	if o.f.call {
		if err == nil && ret != nil {
			return fmt.Sprintf("returned %q although the call succeeded", ret.Error())
		}
		if err != nil {
			if ret == nil {
				return "returned nil although the call failed"
			}
			if ret.Error() != message+": "+err.Error() {
				return fmt.Sprintf("returned %q instead of %q", ret.Error(), message+": "+err.Error())
			}
		}
	}
	if !reflect.DeepEqual(props, append([]interface{}{}, propSets[o.props].props...)) {
		return "the caller's properties were changed"
	}
	return ""
}

func of(sink string, rs []record) (r []record) {
	for _, x := range rs {
		if x.sink == sink {
			r = append(r, x)
		}
	}
	return
}

var serial int

var chk *harn.Ctx

func counted(c *harn.Ctx, n int, f func() string) func() string {
	return func() string {
		chk = c
		c.Trans(n)
		return f()
	}
}

func history(aggregator int, hist []one, style int) (func() string, func() string) {
	desc := func() string {
		s := "aggregation " + aggregators[aggregator].name
		for _, o := range hist {
			s += "; " + o.String()
		}
		return s
	}
	return desc, func() string {
		serial++
		if serial%100 == 0 {
			vsync.Rewind() // there are too many names to keep them all
		}
		defer setMin(-1)
		var complaint error
		loglog.Error = func(err error) { complaint = err }
		countlog.EventWriter = recordingSink("writer")
		countlog.EventAggregator = aggregators[aggregator].sink
		event, message := fmt.Sprintf("callee!c06-%d", serial), ""
		message = event
		if style == 1 {
			event = fmt.Sprintf("c06 {k} %d", serial)
		}
		for i, o := range hist {
			if style == 1 {
				message = fmt.Sprintf("c06 %v %d", valueOf(propSets[o.props].props, "k"), serial)
			}
			if v := o.do(event, message, aggregators[aggregator].name == "recorder"); v != "" {
				return fmt.Sprintf("event %d: %s", i+1, v)
			}
			if complaint != nil {
				return fmt.Sprintf("event %d: trouble was reported: %v", i+1, complaint)
			}
		}
		return ""
	}
}

func valueOf(props []interface{}, name string) interface{} {
	for i := 0; i+1 < len(props); i += 2 {
		if props[i] == name {
			return props[i+1]
		}
	}
	return nil
}

var logLevels = []int{-1, 0, 4, 5, 6, 9, 10, 11, 14, 15, 16, 20, 25, 30, 35, 39, 40, 41, 45, 50, 55, 60, 61, 1000}

// single: one event in every configuration
func single(c *harn.Ctx) {
	for min := -1; min <= 66; min++ {
		for a := range aggregators {
			for _, f := range fns(logLevels) {
				supps := []int{-1}
				if f.supp || (f.ctx && !f.call) {
					supps = []int{-1, 0, 5, 9, 10, 11, 15, 19, 20, 21, 25, 29, 30, 31, 40, 50, 70}
				}
				for _, s := range supps {
					for p := range propSets {
						for e := range errs {
							if !f.call && e > 0 {
								continue
							}
							for style := 0; style < 2; style++ {
								if style == 1 && (!f.call || valueOf(propSets[p].props, "k") == nil) {
									continue
								}
								if !c.Thorough() && s > 0 && p > 2 {
									continue
								}
								desc, run := history(a, []one{{min, f, e, p, s}}, style)
								c.Case("", desc, counted(c, 1, run))
							}
						}
					}
				}
			}
		}
	}
}

// pairs: what is written does not depend on what was logged under this name, and at which minimum level, before
func pairs(c *harn.Ctx) {
	mins := []int{5, 10, 16, 30, 41}
	ls := []int{10, 30, 45}
	if c.Thorough() {
		mins = []int{0, 5, 6, 10, 11, 15, 16, 20, 25, 26, 30, 31, 36, 41, 61}
		ls = []int{5, 10, 15, 25, 30, 40, 45}
	}
	var ones []one
	for _, f := range fns(ls) {
		for e := 0; e < 2; e++ {
			if !f.call && e > 0 {
				continue
			}
			for _, p := range []int{0, 1, 2} {
				if p == 2 && !strings.Contains(f.name, "Info") && !strings.Contains(f.name, "Log(") {
					continue
				}
				ones = append(ones, one{0, f, e, p, -1})
			}
			if f.supp {
				ones = append(ones, one{0, f, e, 1, 25})
			}
		}
	}
	n := 0
	for i := range ones {
		for j := range ones {
			for mi, m1 := range mins {
				for mj, m2 := range mins {
					if !c.Thorough() && mi != mj && mi+mj != len(mins)-1 {
						continue
					}
					n++
					a, b := ones[i], ones[j]
					a.min, b.min = m1, m2
					desc, run := history((n+i)%len(aggregators), []one{a, b, a}, 0)
					c.Case("", desc, counted(c, 3, run))
				}
			}
		}
	}
}

// triples: as pairs, with three events
func triples(c *harn.Ctx) {
	var ones []one
	for _, f := range fns([]int{10, 45}) {
		for e := 0; e < 2; e++ {
			if f.call || e == 0 {
				ones = append(ones, one{0, f, e, 1, -1})
			}
		}
		if f.name == "Info" || f.name == "ctx.Info" {
			ones = append(ones, one{0, f, 0, 2, -1})
		}
	}
	mins := [][3]int{{10, 10, 10}, {10, 30, 10}, {30, 10, 30}, {5, 20, 41}, {41, 20, 5}, {16, 26, 36}}
	for i := range ones {
		for j := range ones {
			for k := range ones {
				for _, m := range mins {
					x, y, z := ones[i], ones[j], ones[k]
					x.min, y.min, z.min = m[0], m[1], m[2]
					desc, run := history((i+j+k)%len(aggregators), []one{x, y, z}, 0)
					c.Case("", desc, counted(c, 3, run))
				}
			}
		}
	}
}

// panics: LogPanic
func panics(c *harn.Ctx) {
	values := []interface{}{"text", 5, errors.New("boom"), (*nilErr)(nil), struct{ A int }{1}, []byte("x"), 1.5}
	for min := -1; min <= 66; min++ {
		for _, v := range values {
			for p := range propSets {
				for spare := 0; spare < 6; spare++ {
					if propSets[p].agg {
						continue
					}
					min, v, p, spare := min, v, p, spare
					c.Case("", func() string {
						return fmt.Sprintf("minimum level %d, LogPanic(%v) props %s, %d elements of spare capacity", min, v, propSets[p].name, spare)
					}, func() string {
						c.Trans(1)
						setMin(min)
						defer setMin(-1)
						countlog.EventWriter = recordingSink("writer")
						countlog.EventAggregator = aggregators[0].sink
						current = nil
						if countlog.LogPanic(nil, propSets[p].props...) != nil || len(current) != 0 {
							return "LogPanic(nil) did something"
						}
						back := make([]interface{}, len(propSets[p].props)+spare)
						for i := range back {
							back[i] = "untouched"
						}
						copy(back, propSets[p].props)
						was := append([]interface{}{}, back...)
						ret := countlog.LogPanic(v, back[:len(propSets[p].props)]...)
						if !reflect.DeepEqual(ret, v) {
							return fmt.Sprintf("LogPanic returned %v", ret)
						}
						if !reflect.DeepEqual(was, back) {
							return "LogPanic wrote to the caller's properties"
						}
						if len(current) != 1 {
							return fmt.Sprintf("LogPanic emitted %d events", len(current))
						}
						r := current[0]
						if r.level != 60 || r.site != "event!panic" || r.err != "<none>" {
							return fmt.Sprintf("LogPanic emitted %s at level %d", r.site, r.level)
						}
						ps := propSets[p].props
						if len(r.props) != len(ps)+4 || !reflect.DeepEqual(append([]interface{}{}, r.props[:len(ps)]...), append([]interface{}{}, ps...)) ||
							r.props[len(ps)] != "err" || !reflect.DeepEqual(r.props[len(ps)+1], v) || r.props[len(ps)+2] != "stacktrace" {
							return fmt.Sprintf("LogPanic emitted properties %.200v", r.props)
						}
						st, _ := r.props[len(ps)+3].(string)
						if !strings.HasPrefix(st, "goroutine ") || strings.Contains(st, "\x00") || !strings.Contains(st, "main.panics") {
							return fmt.Sprintf("LogPanic emitted %.100q as stack trace", st)
						}
						return ""
					})
				}
			}
		}
	}
}

// timers: a timer is running iff what it is for is enabled
func timers(c *harn.Ctx) {
	ts := []struct {
		name  string
		level int
		f     func() int64
	}{{"TraceTimer", 10, countlog.TraceTimer}, {"DebugTimer", 20, countlog.DebugTimer}, {"InfoTimer", 30, countlog.InfoTimer}}
	for min := -1; min <= 66; min++ {
		for _, t := range ts {
			min, t := min, t
			c.Case("", func() string { return fmt.Sprintf("minimum level %d, %s", min, t.name) }, func() string {
				c.Trans(1)
				m := setMin(min)
				defer setMin(-1)
				before := time.Now().UnixNano()
				got := t.f()
				after := time.Now().UnixNano()
				if t.level < m && got != 0 {
					return "the timer of a disabled level runs"
				}
				if t.level >= m && (got < before || got > after) {
					return fmt.Sprintf("the timer shows %d, it is between %d and %d", got, before, after)
				}
				return ""
			})
		}
	}
}

func main() {
	vsync.Mark()
	harn.Main(harn.Check{
		ID: "C06", Level: "model_checking", StateMeaning: "distinct (function, minimum and suppressed level, level, selected, individual entry)",
		Bounds: func(tier string) string {
			s := "single events: all minimum levels -1(default)..66 x 19 functions and Log at 24 levels x 8 property lists x 5 errors x 17 suppressed levels x 3 aggregations; histories of 3 events of one name: "
			if tier == "thorough" {
				return s + "all pairs of functions, properties, errors x 15x15 minimum levels, all triples of functions x 6 triples of minimum levels"
			}
			return s + "all pairs of functions, properties, errors x 9 pairs of minimum levels"
		},
		Assumptions: []string{"the minimum level is not changed while another goroutine logs", "suppressing xxxCall in a context is not specified"},
		Jobs: func(tier string) []harn.Job {
			r := []harn.Job{
				{Name: "single", Shards: 8, Run: single},
				{Name: "pairs", Shards: 8, Run: pairs},
				{Name: "panics", Shards: 2, Run: panics},
				{Name: "timers", Shards: 1, Run: timers},
			}
			if tier == "thorough" {
				r = append(r, harn.Job{Name: "triples", Shards: 16, Run: triples})
			}
			return r
		},
	})
}
