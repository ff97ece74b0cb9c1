// C17: counted events are conserved: what the collector receives for a
// dimension sums up to the number of events logged with it.
package main

import (
	"context"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"time"
	"unsafe"

	"github.com/v2pro/plz/countlog"
	"github.com/v2pro/plz/countlog/loglog"
	"github.com/v2pro/plz/countlog/spi"
	"github.com/v2pro/plz/countlog/stats"

	"verif/harn"
	"verif/vsched"
)

type collector struct {
	points vsched.Journal
	kept   []*stats.Point // only used when Collect calls cannot be concurrent
	keep   bool
	conc   vsched.Cell
	bad    int // bit i: call i panics
	calls  int
	panics int
}

func key(event string, dim []string) string { return event + "|" + strings.Join(dim, ",") }

func (c *collector) Collect(p *stats.Point) {
	vsched.Point("collect")
	c.points.Add(fmt.Sprintf("%s=%v", key(p.Event, p.Dimension), p.Value))
	if c.keep {
		c.kept = append(c.kept, p)
	}
	if c.bad == 0 {
		return
	}
	c.calls++
	if c.calls <= 16 && c.bad>>(c.calls-1)&1 == 1 {
		c.panics++
		panic(fmt.Sprintf("collector panic %d", c.panics))
	}
}

func (c *collector) sums() (map[string]float64, string) {
	r := map[string]float64{}
	for _, s := range c.points.Items() {
		i := strings.LastIndex(s, "=")
		var v float64
		fmt.Sscan(s[i+1:], &v)
		if v < 0 {
			return nil, "negative count exported: " + s
		}
		r[s[:i]] += v
	}
	return r, ""
}

func compare(got, want map[string]float64) string {
	var ks []string
	for k := range got {
		ks = append(ks, k)
	}
	for k := range want {
		if _, ok := got[k]; !ok {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		if got[k] != want[k] {
			return fmt.Sprintf("dimension %q: %v events were logged, %v were exported", k, want[k], got[k])
		}
	}
	return ""
}

// config of a concurrent scenario
type config struct {
	threads  [][]int // dimension value index of every event of every thread
	dims     int
	exports  int  // concurrent manual exports
	sameID   bool // all goroutines hit the same shard
	viaLog   bool // through the countlog API
	waves    int  // repetitions of the threads, with exports by timer in between
	poison   bool // every thread also logs an event that cannot be counted
	cancelAt int
}

func (c config) name() string {
	return fmt.Sprintf("threads=%v dims=%d exports=%d same=%v log=%v waves=%d poison=%v", c.threads, c.dims, c.exports, c.sameID, c.viaLog, c.waves, c.poison)
}

var serial int

func props(dims, v int) (ps []interface{}, dim []string) {
	var names []string
	for i := 0; i < dims; i++ {
		names = append(names, fmt.Sprint("d", i))
	}
	ps = []interface{}{"agg", "counter"}
	if dims > 0 {
		ps = append(ps, "dim", strings.Join(names, ","))
	}
	ps = append(ps, "noise", 1)
	for i, n := range names {
		val := fmt.Sprint("v", v)
		if i > 0 {
			val = fmt.Sprint("w", v%2)
		}
		ps = append(ps, n, val)
		dim = append(dim, n, val)
	}
	return
}

func harness(cfg config) harn.Harness {
	return func() (func(), func(o *vsched.Outcome) vsched.Verdict) {
		serial++
		event := fmt.Sprintf("event!c17-%d", serial)
		col := &collector{}
		loglog.Error = func(error) {}
		countlog.EventWriter = spi.FuncEventSink(func(site *spi.LogSite) spi.EventHandler {
			return spi.FuncEventHandler(func(e *spi.Event) {})
		})
		waves := cfg.waves
		if waves == 0 {
			waves = 1
		}
		var afterCancel vsched.Cell
		body := func() {
			var window *stats.Window
			agg := stats.NewEventAggregator(stats.EventAggregatorConfig{Collector: col})
			countlog.EventAggregator = agg
			first, _ := props(cfg.dims, 0)
			var handler spi.EventHandler
			if !cfg.viaLog {
				handler = agg.HandlerOf(&spi.LogSite{Event: event, Sample: first})
				window = handler.(stats.State).GetWindow()
			}
			for w := 0; w < waves; w++ {
				var hs []*vsched.ThreadHandle
				for _, evs := range cfg.threads {
					evs := evs
					hs = append(hs, vsched.Go(func() {
						for i, v := range evs {
							ps, _ := props(cfg.dims, v)
							if cfg.viaLog {
								countlog.Info(event, ps...)
							} else {
								handler.Handle(&spi.Event{Level: spi.LevelInfo, Properties: ps, Timestamp: vsched.PeekNow()})
							}
							if cfg.poison && i == 0 {
								func() {
									defer func() { recover() }()
									bad, _ := props(cfg.dims, v)
									bad[len(bad)-1] = 42 // not a string
									if cfg.viaLog {
										countlog.Info(event, bad...)
									} else {
										handler.Handle(&spi.Event{Level: spi.LevelInfo, Properties: bad})
									}
								}()
							}
						}
					}))
				}
				for i := 0; i < cfg.exports; i++ {
					hs = append(hs, vsched.Go(func() { window.Export(vsched.PeekNow()) }))
				}
				for _, h := range hs {
					h.Join()
				}
				vsched.Sleep(1500 * time.Millisecond)
			}
			vsched.Sleep(2 * time.Second)
			_ = afterCancel
		}
		judge := func(o *vsched.Outcome) vsched.Verdict {
			want := map[string]float64{}
			for _, evs := range cfg.threads {
				for _, v := range evs {
					_, dim := props(cfg.dims, v)
					want[key(event, dim)] += float64(waves)
				}
			}
			got, v := col.sums()
			if o.End != "" {
				v = "execution ended abnormally: " + o.End
			}
			if v == "" {
				v = compare(got, want)
			}
			return vsched.Verdict{Obs: fmt.Sprintf("%s n=%d", strings.SplitN(o.End, ":", 2)[0], col.points.Len()), Violation: v}
		}
		return body, judge
	}
}

func schedules(race bool) func(c *harn.Ctx) {
	return func(c *harn.Ctx) {
		var cfgs []config
		thr := [][][]int{{{0}, {0}}, {{0}, {1}}, {{0, 1}, {1, 0}}}
		if c.Thorough() {
			thr = append(thr, [][]int{{0, 0, 1}, {0, 1}}, [][]int{{0}, {0}, {1}})
		}
		for _, t := range thr {
			for _, dims := range []int{0, 1, 2, 5} {
				if dims > 1 && len(t[0]) > 1 && !c.Thorough() {
					continue
				}
				for _, ex := range []int{0, 1, 2} {
					for _, same := range []bool{true, false} {
						if dims > 1 && (ex > 1 || !same && ex > 0) {
							continue
						}
						if ex == 2 && (race || len(t) > 2 || (dims == 1 && !c.Thorough())) {
							continue
						}
						cfgs = append(cfgs, config{threads: t, dims: dims, exports: ex, sameID: same})
					}
				}
				cfgs = append(cfgs, config{threads: t, dims: dims, sameID: true, viaLog: true})
				if race || c.Thorough() {
					cfgs = append(cfgs, config{threads: t, dims: dims, viaLog: true})
				}
				cfgs = append(cfgs, config{threads: t, dims: dims, sameID: true, waves: 3})
				if dims > 0 {
					cfgs = append(cfgs, config{threads: t, dims: dims, sameID: true, poison: true, exports: 1})
				}
			}
		}
		for i, cfg := range cfgs {
			if !c.Mine(i) {
				continue
			}
			pre := 2
			if cfg.waves > 1 || cfg.exports > 1 || cfg.dims > 1 {
				pre = 1
			}
			if c.Thorough() {
				pre++
			}
			if race {
				pre--
			}
			var gid func(int) int
			if cfg.sameID {
				gid = func(int) int { return 7 }
			} else {
				gid = func(t int) int { return t }
			}
			clock := 1
			if cfg.waves > 1 && !c.Thorough() {
				clock = 0
			}
			bounds := harn.Bounds(pre, clock, 0, 0)
			if !c.Thorough() && pre > 1 && (cfg.exports > 0 || cfg.viaLog) {
				bounds = [][5]int{vsched.Bound(pre-1, clock, 0, 0), vsched.Bound(pre, 0, 0, 0)}
			}
			c.ExploreWhole(cfg.name(), "", bounds, vsched.Options{MaxSteps: 6000, Goid: gid, DelayBound: true}, harness(cfg))
		}
	}
}

// sequences: one goroutine, all sequences of events and exports, for every
// number of dimensions and dimension order
func sequences(c *harn.Ctx) {
	type step struct{ export bool }
	max := 5
	if c.Thorough() {
		max = 7
	}
	for dims := 0; dims <= 10; dims++ {
		for variant := 0; variant < 4; variant++ { // order and extra properties
			var rec func(seq []int)
			rec = func(seq []int) {
				if len(seq) > 0 {
					s := append([]int{}, seq...)
					dims, variant := dims, variant
					c.Case("", func() string {
						return fmt.Sprintf("%d dimensions, property order %d, steps %v (3 = export)", dims, variant, s)
					}, func() string { return runSeq(dims, variant, s) })
				}
				if len(seq) < max && !(dims > 3 && len(seq) >= max-1) {
					for i := 0; i <= 3; i++ {
						rec(append(seq, i))
					}
				}
			}
			rec(nil)
		}
	}
}

// mutable returns a string whose bytes are overwritten later, as with buffers reused by the caller
func mutable(s string) (string, []byte) {
	b := []byte(s)
	return unsafe.String(&b[0], len(b)), b
}

func runSeq(dims, variant int, seq []int) string {
	col := &collector{keep: true}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	started := 0
	agg := stats.NewEventAggregator(stats.EventAggregatorConfig{Collector: col, Executor: func(f func(ctx context.Context)) { started++; _ = ctx }})
	build := func(v int) (ps []interface{}, dim []string, bufs [][]byte) {
		var names []string
		for i := 0; i < dims; i++ {
			names = append(names, fmt.Sprint("d", i))
		}
		var vals []interface{}
		for i, n := range names {
			// values chosen so that concatenations coincide: {"x","yx"} and {"xy","x"}
			s := []string{"x", "xy", "yx"}[(v+i)%3]
			m, b := mutable(s)
			bufs = append(bufs, b)
			if variant == 1 {
				vals = append([]interface{}{n, m}, vals...)
				dim = append([]string{n, s}, dim...)
			} else {
				vals = append(vals, n, m)
				dim = append(dim, n, s)
			}
			if variant == 2 {
				vals = append(vals, "extra", i)
			}
		}
		if variant == 3 {
			ps = append(ps, vals...)
			vals = nil
		}
		ps = append(ps, "agg", "counter")
		if dims > 0 {
			ps = append(ps, "dim", strings.Join(names, ","))
		}
		ps = append(ps, vals...)
		return
	}
	sample, _, _ := build(0)
	h := agg.HandlerOf(&spi.LogSite{Event: "event!seq", Sample: sample})
	if h == nil {
		return "no handler for a counter event"
	}
	if started != 1 {
		return fmt.Sprintf("%d exporters started", started)
	}
	win := h.(stats.State).GetWindow()
	want := map[string]float64{}
	for i, v := range seq {
		if v == 3 {
			win.Export(time.Unix(int64(i), 5))
			got, e := col.sums()
			if e != "" {
				return e
			}
			if e := compare(got, want); e != "" {
				return fmt.Sprintf("after step %d: %s", i, e)
			}
			continue
		}
		ps, dim, bufs := build(v)
		h.Handle(&spi.Event{Level: spi.LevelInfo, Properties: ps})
		want[key("event!seq", dim)]++
		for _, b := range bufs {
			for i := range b {
				b[i] = '#'
			}
		}
	}
	if len(seq) == 3 {
		runtime.GC()
	}
	win.Export(time.Unix(99, 7))
	got, e := col.sums()
	if e != "" {
		return e
	}
	if e := compare(got, want); e != "" {
		return e
	}
	for _, p := range col.kept { // points stay what they were when collected
		if _, ok := want[key(p.Event, p.Dimension)]; !ok {
			return fmt.Sprintf("a collected point changed afterwards: %q", p.Dimension)
		}
		if p.Timestamp.IsZero() {
			return "point without timestamp"
		}
	}
	return ""
}

// lifetime: the exporter exports every second and ends with its context
func lifetime(c *harn.Ctx) {
	for n := 1; n <= 4; n++ {
		n := n
		c.Explore(fmt.Sprintf("exporter over %d seconds", n), "", harn.Bounds(2, 0, 0, 0), vsched.Options{MaxSteps: 6000}, func() (func(), func(o *vsched.Outcome) vsched.Verdict) {
			col := &collector{}
			var bad vsched.Journal
			body := func() {
				ctx, cancel := context.WithCancel(context.Background())
				var th *vsched.ThreadHandle
				agg := stats.NewEventAggregator(stats.EventAggregatorConfig{Collector: col, Executor: func(f func(ctx context.Context)) {
					th = vsched.Go(func() { f(&schedCtx{ctx}) })
				}})
				h := agg.HandlerOf(&spi.LogSite{Event: "event!x", Sample: []interface{}{"agg", "counter"}})
				for i := 1; i <= n; i++ {
					h.Handle(&spi.Event{Level: spi.LevelInfo, Properties: []interface{}{"agg", "counter"}})
					vsched.Sleep(1100 * time.Millisecond)
					got, _ := col.sums()
					if got["event!x|"] != float64(i) {
						bad.Add(fmt.Sprintf("%d events were logged more than a second ago, %v exported", i, got["event!x|"]))
					}
				}
				cancel()
				vsched.Sleep(2 * time.Second)
				vsched.Quiesce()
				if !th.Done() {
					bad.Add("the exporter goes on after its context was cancelled")
				}
			}
			return body, func(o *vsched.Outcome) vsched.Verdict {
				v := strings.Join(bad.Items(), "; ")
				if o.End != "" {
					v = "execution ended abnormally: " + o.End
				}
				return vsched.Verdict{Obs: o.End, Violation: v}
			}
		})
	}
	for _, agg := range []string{"call", "histogram", ""} {
		agg := agg
		c.Case("", func() string { return fmt.Sprintf("aggregation %q", agg) }, func() string {
			started := 0
			a := stats.NewEventAggregator(stats.EventAggregatorConfig{Collector: &collector{}, Executor: func(f func(ctx context.Context)) { started++ }})
			h := a.HandlerOf(&spi.LogSite{Event: "event!y", Agg: agg, Sample: []interface{}{"k", 1}})
			if h != nil {
				h.Handle(&spi.Event{Level: spi.LevelInfo, Properties: []interface{}{"k", 1}})
			}
			if started != 0 {
				return "an exporter was started for an event that is not counted"
			}
			return ""
		})
	}
}

// mixed: events of one name that are aggregated in different ways, or not at
// all, and two aggregators that count events of the same name at a time
func mixed(c *harn.Ctx) {
	type form struct {
		props []interface{}
		dim   []string // nil: not counted
	}
	forms := []form{
		{[]interface{}{"agg", "counter", "dim", "a", "a", "x", "b", "y"}, []string{"a", "x"}},
		{[]interface{}{"agg", "counter", "dim", "b", "a", "x", "b", "y"}, []string{"b", "y"}},
		{[]interface{}{"agg", "counter", "dim", "a,b", "a", "x", "b", "y"}, []string{"a", "x", "b", "y"}},
		{[]interface{}{"agg", "counter", "dim", "", "a", "x", "b", "y"}, []string{}},
		{[]interface{}{"agg", "other", "dim", "a", "a", "x", "b", "y"}, nil},
		{[]interface{}{"agg", "counter", "mid", "a", "a", "x", "b", "y"}, []string{}},
		{[]interface{}{"agg", "counter", "dim", "a", "c", "x", "b", "y"}, []string{}},
		{[]interface{}{"agg", "counter", "dim", "a", "a", "z", "b", "y"}, []string{"a", "z"}},
		{[]interface{}{"agg", "counter", "dim", "a,b", "a", "x", "c", "y"}, []string{"a", "x"}},
		{[]interface{}{"a", "x", "b", "y"}, nil},
		{[]interface{}{"a", "x", "b", "y", "agg", "counter", "dim", "b"}, []string{"b", "y"}},
	}
	depth := 3
	if c.Thorough() {
		depth = 4
	}
	n := 1
	for i := 0; i < depth; i++ {
		n *= len(forms)
	}
	for k := 0; k < n; k++ {
		k := k
		if !c.Mine(k) {
			continue
		}
		if c.Stop() {
			return
		}
		var seq []int
		for i, x := 0, k; i < depth; i++ {
			seq = append(seq, x%len(forms))
			x /= len(forms)
		}
		c.ExploreWhole(fmt.Sprintf("events of one name in the forms %v", seq), "", harn.Bounds(0, 0, 0, 0), vsched.Options{MaxSteps: 20000, DelayBound: true}, func() (func(), func(o *vsched.Outcome) vsched.Verdict) {
			serial++
			event := fmt.Sprintf("event!c17-%d", serial)
			col, other := &collector{}, &collector{}
			var lost vsched.Cell
			loglog.Error = func(error) { lost.Add(1) }
			countlog.EventWriter = spi.FuncEventSink(func(site *spi.LogSite) spi.EventHandler {
				return spi.FuncEventHandler(func(e *spi.Event) {})
			})
			body := func() {
				countlog.EventAggregator = stats.NewEventAggregator(stats.EventAggregatorConfig{Collector: col})
				for _, f := range seq {
					countlog.Info(event, forms[f].props...)
				}
				// another aggregator counts events of the same name
				agg := stats.NewEventAggregator(stats.EventAggregatorConfig{Collector: other})
				for _, f := range seq {
					if h := agg.HandlerOf(&spi.LogSite{Event: event, Sample: forms[f].props}); h != nil {
						h.Handle(&spi.Event{Level: spi.LevelInfo, Properties: forms[f].props, Timestamp: vsched.PeekNow()})
					}
				}
				vsched.Sleep(1500 * time.Millisecond)
			}
			return body, func(o *vsched.Outcome) vsched.Verdict {
				want := map[string]float64{}
				for _, f := range seq {
					if forms[f].dim != nil {
						want[key(event, forms[f].dim)]++
					}
				}
				v := ""
				for i, col := range []*collector{col, other} {
					got, e := col.sums()
					if e == "" {
						e = compare(got, want)
					}
					if e != "" && v == "" {
						v = []string{"the logger's aggregator: ", "another aggregator: "}[i] + e
					}
				}
				if v == "" && lost.Get() != 0 {
					v = "errors were reported"
				}
				if o.End != "" {
					v = "execution ended abnormally: " + o.End
				}
				return vsched.Verdict{Obs: o.End, Violation: v}
			}
		})
	}
}

// panics: the collector panics at some of its calls; nothing else is lost
func panics(c *harn.Ctx) {
	n := 6
	if c.Thorough() {
		n = 9
	}
	i := 0
	for _, dims := range []int{0, 1, 2} {
		for _, perWave := range []int{1, 2, 3, -3} { // -3: from one goroutine
			for bad := 0; bad < 1<<n; bad++ {
				if i++; !c.Mine(i) {
					continue
				}
				if c.Stop() {
					return
				}
				dims, perWave, bad := dims, perWave, bad
				name := fmt.Sprintf("the collector panics at calls %0*b (last bit first), dims=%d, %d dimension values per second", n, bad, dims, perWave)
				c.Explore(name, "", harn.Bounds(0, 0, 0, 0), vsched.Options{MaxSteps: 20000}, func() (func(), func(o *vsched.Outcome) vsched.Verdict) {
					serial++
					event := fmt.Sprintf("event!c17-%d", serial)
					col := &collector{bad: bad}
					reported := 0
					loglog.Error = func(err error) {
						if err != nil && strings.Contains(err.Error(), "collector panic") {
							reported++
						}
					}
					want := map[string]float64{}
					body := func() {
						first, _ := props(dims, 0)
						agg := stats.NewEventAggregator(stats.EventAggregatorConfig{Collector: col})
						h := agg.HandlerOf(&spi.LogSite{Event: event, Sample: first})
						for wave := 0; wave < 3; wave++ {
							for v := 0; v < perWave || v < -perWave; v++ {
								v := v
								ps, dim := props(dims, v)
								want[key(event, dim)]++
								handle := func() {
									h.Handle(&spi.Event{Level: spi.LevelInfo, Properties: ps, Timestamp: vsched.PeekNow()})
								}
								if perWave < 0 {
									handle()
								} else {
									vsched.Go(handle).Join()
								}
							}
							vsched.Sleep(1100 * time.Millisecond)
						}
						for k := 0; k <= n; k++ { // one second per panic, and one more
							vsched.Sleep(1100 * time.Millisecond)
						}
					}
					return body, func(o *vsched.Outcome) vsched.Verdict {
						got, v := col.sums()
						if o.End != "" {
							v = "execution ended abnormally: " + o.End
						}
						if v == "" {
							v = compare(got, want)
						}
						if v == "" && reported != col.panics {
							v = fmt.Sprintf("%d panics of the collector, %d of them were reported", col.panics, reported)
						}
						return vsched.Verdict{Obs: fmt.Sprintf("%s n=%d panics=%d", strings.SplitN(o.End, ":", 2)[0], col.points.Len(), col.panics), Violation: v}
					}
				})
			}
		}
	}
}

// schedCtx is a context whose Done channel closes under the scheduler.
type schedCtx struct{ context.Context }

func main() {
	harn.Main(harn.Check{
		ID: "C17", Level: "model_checking", StateMeaning: "distinct (scenario, number of exported points) pairs",
		Bounds: func(tier string) string {
			if tier == "thorough" {
				return "sequences of up to 7 events/exports with 0..10 dimensions in 4 property orders; 2..3 goroutines with up to 3 events each, 0..5 dimensions, up to 2 concurrent exports plus timer exports, same or different shards; a collector that panics at any of its first 9 (quick 6) calls; all sequences of 3 (thorough 4) events of one name in 11 forms (other aggregations, dimensions or names), in two aggregators at a time; delays (deviations from the default schedule) <=3, early clock advances <=1"
			}
			return "sequences of up to 5 events/exports with 0..10 dimensions in 4 property orders; 2 goroutines with up to 2 events each, 0..5 dimensions, up to 2 concurrent exports plus timer exports, same or different shards; a collector that panics at any of its first 9 (quick 6) calls; all sequences of 3 (thorough 4) events of one name in 11 forms (other aggregations, dimensions or names), in two aggregators at a time; delays (deviations from the default schedule) <=2, or <=1 with one early clock advance; race detection"
		},
		Assumptions: []string{"the collector does not log"},
		Jobs: func(tier string) []harn.Job {
			return []harn.Job{
				{Name: "sequences", Shards: 8, Run: sequences},
				{Name: "schedules", Shards: 40, Run: schedules(false)},
				{Name: "panics", Shards: 2, Run: panics},
				{Name: "mixed", Shards: 4, Run: mixed},
				{Name: "lifetime", Shards: 1, Run: lifetime},
				{Name: "race", Race: true, Shards: 16, Run: schedules(true)},
			}
		},
	})
}
