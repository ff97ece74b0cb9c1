// C23: closing resources: each is closed once, no error gets lost.
package main

import (
	"errors"
	"fmt"
	"io"
	"reflect"
	"runtime"
	"strings"

	"github.com/v2pro/plz"
	"github.com/v2pro/plz/countlog"
	"github.com/v2pro/plz/countlog/spi"

	"verif/harn"
	vsync "verif/shim/sync"
	"verif/vsched"
)

type nilErr struct{}

func (*nilErr) Error() string { return "error of nil" }

var errs = []error{nil, errors.New("e1"), errors.New("e2"), (*nilErr)(nil), plz.MultiError{errors.New("inner")}, plz.MultiError(nil)}

// same tells whether two errors are the same one
func same(a, b error) bool {
	if reflect.TypeOf(a) != reflect.TypeOf(b) {
		return false
	}
	if x, ok := a.(plz.MultiError); ok {
		y := b.(plz.MultiError)
		return len(x) == len(y) && (len(x) == 0 || x[0] == y[0])
	}
	return a == b
}

type resource struct {
	no    int
	err   error
	trace *[]int
}

func (r *resource) Close() error {
	*r.trace = append(*r.trace, r.no)
	return r.err
}

// valueResource is no pointer
type valueResource struct{ *resource }

type event struct {
	level int
	name  string
	props []interface{}
}

var logged []event

func sink() spi.EventSink {
	return spi.FuncEventSink(func(site *spi.LogSite) spi.EventHandler {
		return spi.FuncEventHandler(func(e *spi.Event) {
			logged = append(logged, event{e.Level, site.Event, append([]interface{}{}, e.Properties...)})
		})
	})
}

func nothing() spi.EventSink {
	return spi.FuncEventSink(func(site *spi.LogSite) spi.EventHandler { return nil })
}

// lists of properties, some with room behind them that belongs to the caller
func lists() [][]interface{} {
	room := []interface{}{"a", 1, "mine", 2, "mine", 3}
	return [][]interface{}{nil, {}, {"a", 1}, {"a", 1, "b", "text"}, {"odd"}, room[:2], room[:0], {"err", "given"}, make([]interface{}, 0, 8)}
}

func sameProps(a, b []interface{}) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		x, ok1 := a[i].(error)
		y, ok2 := b[i].(error)
		if ok1 && ok2 && same(x, y) {
			continue
		}
		if ok1 != ok2 || a[i] != b[i] {
			return false
		}
	}
	return true
}

func line() int {
	_, _, l, _ := runtime.Caller(1)
	return l
}

func setup(level int) {
	vsync.Rewind()
	logged = nil
	spi.MinLevel = level
	countlog.EventWriter = sink()
	countlog.EventAggregator = nothing()
}

func checkEvents(want []event, name string, l int) string {
	if len(logged) != len(want) {
		return fmt.Sprintf("logged %v instead of %v", logged, want)
	}
	for i, e := range logged {
		if e.level != want[i].level || !sameProps(e.props, want[i].props) {
			return fmt.Sprintf("logged %v instead of %v", e, want[i])
		}
		if !strings.Contains(e.name, name) || !strings.HasSuffix(e.name, fmt.Sprintf("main.go:%d", l)) {
			return fmt.Sprintf("logged %q, closed at line %d", e.name, l)
		}
	}
	return ""
}

func closers(c *harn.Ctx) {
	max := 4
	if c.Thorough() {
		max = 6
	}
	var seqs [][]int
	var walk func(s []int)
	walk = func(s []int) {
		seqs = append(seqs, append([]int{}, s...))
		if len(s) < max {
			for e := range errs {
				if len(s) >= 3 && e > 2 {
					continue
				}
				walk(append(s, e))
			}
		}
	}
	walk(nil)
	// long lists
	for _, n := range []int{9, 17, 33, 100, 300} {
		for _, bad := range []int{n, 1, n / 2, 0} {
			for from := 0; from < 2; from++ {
				s := make([]int, n)
				for i := range s {
					if i < bad == (from == 0) {
						s[i] = 1 + i%2
					}
				}
				seqs = append(seqs, s)
			}
		}
	}
	for _, seq := range seqs {
		for _, level := range []int{5, 20, 30, 60} {
			for li := range lists() {
				for kind := 0; kind < 3; kind++ {
					seq, level, li, kind := seq, level, li, kind
					if kind == 0 && len(seq) != 1 {
						continue
					}
					c.Case("", func() string {
						return fmt.Sprintf("%s, errors %v (of %v), minimum level %d, properties %d", []string{"Close", "CloseAll", "CloseAll twice"}[kind], seq, errs, level, li)
					}, func() string {
						setup(level)
						c.Trans(len(seq))
						c.State(fmt.Sprint(kind, seq, level, li))
						props := lists()[li]
						before := append([]interface{}{}, props[:cap(props)]...)
						var trace []int
						var rs []io.Closer
						var failed []error
						var want []event
						var order []int
						for i, e := range seq {
							r := &resource{i, errs[e], &trace}
							switch i % 3 {
							case 0:
								rs = append(rs, r)
							case 1:
								rs = append(rs, valueResource{r})
							case 2:
								rs = append(rs, plz.WrapCloser(r.Close))
							}
							order = append(order, i)
							if errs[e] != nil {
								failed = append(failed, errs[e])
								want = append(want, event{50, "", append(append([]interface{}{}, props...), "err", errs[e])})
							}
						}
						var err error
						var l int
						name := "event!CloseAll called from "
						switch kind {
						case 0:
							name = "event!close "
							err, l = plz.Close(rs[0], props...), line()
							if !same(err, errs[seq[0]]) {
								return fmt.Sprintf("Close returns %v instead of %v", err, errs[seq[0]])
							}
						default:
							err, l = plz.CloseAll(rs, props...), line()
							if s := merged(err, failed); s != "" {
								return "CloseAll " + s
							}
							if len(failed) == 0 && len(props) > 0 && level <= 20 {
								want = append(want, event{20, "", props})
							}
						}
						if fmt.Sprint(trace) != fmt.Sprint(order) {
							return fmt.Sprintf("closed %v instead of %v", trace, order)
						}
						if s := checkEvents(want, name, l); s != "" {
							return s
						}
						if s := props[:cap(props)]; !sameProps(s, before) {
							return fmt.Sprintf("the caller's properties changed from %v to %v", before, s)
						}
						if kind == 2 {
							// again: nothing is remembered
							logged, trace = nil, nil
							err, l = plz.CloseAll(rs, props...), line()
							if s := merged(err, failed); s != "" {
								return "CloseAll again " + s
							}
							if fmt.Sprint(trace) != fmt.Sprint(order) {
								return fmt.Sprintf("closed again %v instead of %v", trace, order)
							}
							return checkEvents(want, name, l)
						}
						return ""
					})
				}
			}
		}
	}
}

// merged checks the error made of others
func merged(err error, want []error) string {
	if len(want) == 0 {
		if err != nil {
			return fmt.Sprintf("returns %v instead of nil", err)
		}
		return ""
	}
	m, ok := err.(plz.MultiError)
	if !ok || len(m) != len(want) {
		return fmt.Sprintf("returns %T %v instead of %d errors", err, err, len(want))
	}
	for i := range m {
		if !same(m[i], want[i]) {
			return fmt.Sprintf("returns %v instead of %v at %d", m[i], want[i], i)
		}
	}
	if m.Error() == "" {
		return "returns an error without text"
	}
	return ""
}

func merge(c *harn.Ctx) {
	max := 5
	if c.Thorough() {
		max = 7
	}
	var walk func(s []int)
	walk = func(s []int) {
		seq := append([]int{}, s...)
		c.Case("", func() string { return fmt.Sprintf("MergeErrors of %v (of %v)", seq, errs) }, func() string {
			c.Trans(1)
			c.State(fmt.Sprint("m", seq))
			var args, want []error
			for _, e := range seq {
				args = append(args, errs[e])
				if errs[e] != nil {
					want = append(want, errs[e])
				}
			}
			if s := merged(plz.MergeErrors(args...), want); s != "" {
				return s
			}
			for i, e := range seq {
				if !same(args[i], errs[e]) {
					return fmt.Sprintf("argument %d changed to %v", i, args[i])
				}
			}
			return ""
		})
		if len(s) < max {
			for e := range errs {
				walk(append(s, e))
			}
		}
	}
	walk(nil)
}

// concurrent: the properties are shared
func concurrent(c *harn.Ctx) {
	for kind := 0; kind < 4; kind++ {
		for li := range lists() {
			for e := 0; e < 9; e++ {
				kind, li, e := kind, li, e
				c.Explore(fmt.Sprintf("at the same time: CloseAll %02b, properties %d, errors %d and %d", kind, li, e%3, e/3), "", harn.Bounds(3, 0, 0, 0), vsched.Options{MaxSteps: 3000}, func() (func(), func(o *vsched.Outcome) vsched.Verdict) {
					vsync.Rewind()
					var got vsched.Journal
					var bad vsched.Journal
					body := func() {
						spi.MinLevel = 20
						countlog.EventWriter = spi.FuncEventSink(func(site *spi.LogSite) spi.EventHandler {
							return spi.FuncEventHandler(func(e *spi.Event) {
								got.Add(fmt.Sprintf("%d %v", e.Level, e.Properties))
							})
						})
						countlog.EventAggregator = nothing()
						props := lists()[li]
						run := func(all bool, err error) {
							var trace []int
							r := &resource{0, err, &trace}
							var ret error
							if all {
								ret = plz.CloseAll([]io.Closer{r, plz.WrapCloser(func() error { vsched.Point("closing"); return nil }), r}, props...)
								if err != nil && (ret == nil || len(ret.(plz.MultiError)) != 2) || err == nil && ret != nil {
									bad.Add(fmt.Sprintf("CloseAll returned %v", ret))
								}
								return
							}
							if ret = plz.Close(r, props...); !same(ret, err) {
								bad.Add(fmt.Sprintf("Close returned %v", ret))
							}
						}
						h := vsched.Go(func() { run(kind&1 != 0, errs[e%3]) })
						run(kind&2 != 0, errs[e/3])
						h.Join()
					}
					return body, func(o *vsched.Outcome) vsched.Verdict {
						if o.End != "" {
							return vsched.Verdict{Obs: o.End, Violation: "execution ended abnormally: " + o.End}
						}
						if x := bad.Items(); len(x) > 0 {
							return vsched.Verdict{Obs: "bad", Violation: x[0]}
						}
						want := map[string]int{}
						props := lists()[li]
						for t := 0; t < 2; t++ {
							err := errs[[]int{e % 3, e / 3}[t]]
							all := kind&(1<<t) != 0
							ev := fmt.Sprintf("50 %v", append(append([]interface{}{}, props...), "err", err))
							switch {
							case err != nil && all:
								want[ev] += 2
							case err != nil:
								want[ev]++
							case all && len(props) > 0:
								want[fmt.Sprintf("20 %v", props)]++
							}
						}
						for _, g := range got.Items() {
							want[g]--
						}
						for g, n := range want {
							if n != 0 {
								return vsched.Verdict{Obs: "bad", Violation: fmt.Sprintf("%d events %q are missing, logged: %q", n, g, got.Items())}
							}
						}
						return vsched.Verdict{Obs: fmt.Sprint(got.Items())}
					}
				})
			}
		}
	}
}

func main() {
	vsync.Mark()
	harn.Main(harn.Check{
		ID: "C23", Level: "model_checking", StateMeaning: "distinct (function, errors, level, properties), and orders of concurrent events",
		Bounds: func(tier string) string {
			n, m := 4, 5
			if tier == "thorough" {
				n, m = 6, 7
			}
			return fmt.Sprintf("all sequences of up to %d resources with 6 results (from the 4th on 3) x 4 minimum levels x 9 property lists; MergeErrors of all sequences of up to %d errors; 2 goroutines closing with the same properties, preemptions <=3, race detection", n, m)
		},
		Assumptions: []string{"Close of a resource does not panic"},
		Jobs: func(tier string) []harn.Job {
			return []harn.Job{
				{Name: "closers", Shards: 8, Run: closers},
				{Name: "merge", Shards: 4, Run: merge},
				{Name: "concurrent", Shards: 8, Run: concurrent},
				{Name: "race", Race: true, Shards: 8, Run: concurrent},
			}
		},
	})
}
