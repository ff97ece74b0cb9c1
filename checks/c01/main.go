// C01: executor life cycle. Every interleaving (within the bounds) of handlers
// started from several call sites with Stop / StopAndWait, virtual time.
package main

import (
	"context"
	"fmt"
	"runtime"
	"strings"
	"time"

	"github.com/v2pro/plz/concurrent"
	vcontext "verif/shim/context"

	"verif/harn"
	"verif/vsched"
)

// handler kinds
const (
	quick   = iota // returns at once
	steps          // a few scheduling points
	until          // until cancelled
	linger         // until cancelled, then 250 ms of work
	nested         // starts another handler (kind until) and returns
	panics         // panics with an ordinary value
	stopsig        // panics with the stop signal
	goexit         // ends its goroutine
	deep           // starts a handler which starts a handler after cancellation
	stuck          // does not end before the waiter has returned
	nkinds
)

var kindName = []string{"quick", "steps", "until", "linger", "nested", "panics", "stopsig", "goexit", "deep", "stuck"}

type world struct {
	started, finished vsched.Cell // handlers that must be awaited
	runs              [16]vsched.Cell
	stopCalled        vsched.Cell
	early             vsched.Cell // saw a cancelled context before stop
	release           vsched.Cell
	returned          vsched.Cell
	missing           vsched.Cell
	ctxDone           vsched.Cell
	nsub              vsched.Cell
}

func (w *world) body(ex *concurrent.UnboundedExecutor, kind, slot int) func(ctx context.Context) {
	return func(ctx context.Context) {
		w.runs[slot].Add(1)
		defer w.finished.Add(1)
		if w.stopCalled.Get() == 0 && ctx.Err() != nil {
			w.early.Set(1)
		}
		switch kind {
		case quick:
		case steps:
			vsched.Point("a")
			vsched.Point("b")
		case until:
			vsched.Recv(ctx.Done())
		case linger:
			vsched.Recv(ctx.Done())
			vsched.Sleep(250 * time.Millisecond)
		case nested:
			w.started.Add(1)
			ex.Go(w.body(ex, until, slot+4))
		case deep:
			w.started.Add(1)
			ex.Go(func(ctx context.Context) {
				defer w.finished.Add(1)
				vsched.Recv(ctx.Done())
				w.started.Add(1)
				ex.Go(w.body(ex, steps, slot+8))
			})
		case panics:
			vsched.Point("p")
			panic("boom")
		case stopsig:
			panic(concurrent.StopSignal)
		case goexit:
			vsched.Point("g")
			runtime.Goexit()
		case stuck:
			w.release.AwaitGE(1)
		}
	}
}

// the handlers are started from different source lines or from the same one
func start(ex *concurrent.UnboundedExecutor, site int, f func(ctx context.Context)) {
	switch site {
	case 0:
		ex.Go(f)
	case 1:
		ex.Go(f)
	default:
		ex.Go(f)
	}
}

// waiter kinds
var waits = []string{"forever", "stop-then-wait", "ctx-timeout", "ctx-cancel", "two-waiters", "waiter-thread", "ctx-done-already", "stop-at-once", "reporter-go", "reporter-wait"}

func harness(kinds []int, sites []int, wait string, otherThread bool) harn.Harness {
	return func() (func(), func(o *vsched.Outcome) vsched.Verdict) {
		w := &world{}
		concurrent.LogPanic = func(recovered interface{}, properties ...interface{}) interface{} { return recovered }
		concurrent.LogInfo = func(string, ...interface{}) {}
		violation := ""
		hasStuck := false
		for _, k := range kinds {
			hasStuck = hasStuck || k == stuck
		}
		body := func() {
			ex := concurrent.NewUnboundedExecutor()
			launch := func() {
				for i, k := range kinds {
					w.started.Add(1)
					start(ex, sites[i], w.body(ex, k, i))
				}
			}
			if otherThread {
				vsched.GoNamed("starter", launch).Join()
			} else {
				launch()
			}
			var ctx context.Context = context.Background()
			judge := func() {
				done := ctx.Err() != nil
				if done {
					w.ctxDone.Set(1)
				}
				if !done && w.finished.Get() < w.started.Get() {
					w.missing.Set(w.started.Get() - w.finished.Get())
				}
				w.returned.Add(1)
			}
			switch wait {
			case "forever":
				w.stopCalled.Set(1)
				ex.StopAndWaitForever()
				judge()
			case "stop-then-wait":
				w.stopCalled.Set(1)
				ex.Stop()
				vsched.Point("between")
				ex.StopAndWaitForever()
				judge()
			case "ctx-timeout":
				c, cancel := vcontext.WithTimeout(context.Background(), 150*time.Millisecond)
				ctx = c
				w.stopCalled.Set(1)
				ex.StopAndWait(ctx)
				judge()
				cancel()
			case "ctx-cancel":
				c, cancel := vcontext.WithCancel(context.Background())
				ctx = c
				vsched.GoNamed("canceller", func() { cancel() })
				w.stopCalled.Set(1)
				ex.StopAndWait(ctx)
				judge()
			case "ctx-done-already":
				c, cancel := vcontext.WithCancel(context.Background())
				ctx = c
				cancel()
				w.stopCalled.Set(1)
				ex.StopAndWait(ctx)
				judge()
			case "stop-at-once": // also if a handler does not end
				w.stopCalled.Set(1)
				ex.Stop()
				w.release.Set(1)
				ex.StopAndWaitForever()
				judge()
			case "reporter-go": // a log that is written by a handler of the executor
				reports := 0
				concurrent.LogInfo = func(string, ...interface{}) {
					if reports++; reports < 3 {
						ex.Go(func(ctx context.Context) { vsched.Point("log") })
					}
				}
				w.stopCalled.Set(1)
				ex.StopAndWaitForever()
				judge()
			case "reporter-wait": // a log that waits for something the handlers are doing
				concurrent.LogInfo = func(string, ...interface{}) {
					w.finished.AwaitGE(1)
				}
				w.stopCalled.Set(1)
				ex.StopAndWaitForever()
				judge()
			case "two-waiters":
				w.stopCalled.Set(1)
				h := vsched.GoNamed("waiter2", func() { ex.StopAndWaitForever(); judge() })
				ex.StopAndWaitForever()
				judge()
				h.Join()
			case "waiter-thread":
				w.stopCalled.Set(1)
				h := vsched.GoNamed("waiter", func() { ex.StopAndWait(ctx); judge() })
				h.Join()
			}
			if hasStuck {
				w.release.Set(1)
				vsched.Quiesce()
			}
		}
		judge := func(o *vsched.Outcome) vsched.Verdict {
			obs := fmt.Sprintf("end=%s started=%d finished=%d ctxdone=%d", word(o.End), w.started.Get(), w.finished.Get(), w.ctxDone.Get())
			switch {
			case o.End != "":
				violation = "execution ended abnormally: " + o.End
			case w.missing.Get() > 0:
				violation = fmt.Sprintf("waiting for the executor returned although %d of %d started handlers had not finished and the caller's context was not done", w.missing.Get(), w.started.Get())
			case w.early.Get() != 0:
				violation = "a handler observed a cancelled context before the executor was stopped"
			}
			for i := range w.runs {
				if w.runs[i].Get() > 1 {
					violation = fmt.Sprintf("handler %d was run %d times", i, w.runs[i].Get())
				}
				if i < len(kinds) && w.runs[i].Get() == 0 && o.End == "" && w.ctxDone.Get() == 0 && violation == "" {
					violation = fmt.Sprintf("handler %d was never run although waiting returned", i)
				}
			}
			return vsched.Verdict{Obs: obs, Violation: violation}
		}
		return body, judge
	}
}

func word(s string) string { return strings.SplitN(s, ":", 2)[0] }

func combos(n, k int) (r [][]int) {
	if n == 0 {
		return [][]int{{}}
	}
	for _, c := range combos(n-1, k) {
		lo := 0
		if len(c) > 0 {
			lo = c[len(c)-1]
		}
		for i := lo; i < k; i++ {
			r = append(r, append(append([]int{}, c...), i))
		}
	}
	return
}

func all(n int, maxB int, clock int, deadlineShards int) func(c *harn.Ctx) {
	return func(c *harn.Ctx) {
		i := 0
		for _, ks := range combos(n, nkinds) {
			hasStuck := false
			for _, k := range ks {
				hasStuck = hasStuck || k == stuck
			}
			for _, wt := range waits {
				if hasStuck && !strings.HasPrefix(wt, "ctx-") && wt != "stop-at-once" {
					continue
				}
				for v := 0; v < 3; v++ {
					sites := []int{0, 0, 0}
					if v == 1 {
						sites = []int{0, 1, 2}
					}
					other := v == 2
					if n == 1 && v == 1 {
						continue
					}
					i++
					if !c.Mine(i) {
						continue
					}
					name := ""
					for _, k := range ks {
						name += kindName[k] + ","
					}
					name += wt + fmt.Sprintf(",v%d,clock%d", v, clock)
					exploreOne(c, name, ks, sites, wt, other, maxB, clock)
				}
			}
		}
	}
}

func exploreOne(c *harn.Ctx, name string, ks, sites []int, wt string, other bool, maxB, clock int) {
	c.ExploreWhole(name, "", harn.Bounds(maxB, clock, 0, 0), vsched.Options{MaxSteps: 5000, DelayBound: len(ks) == 3}, harness(ks, sites, wt, other))
}

// long: handlers that take long to end after the cancellation, among others that have ended
func long(c *harn.Ctx) {
	for i, d := range []time.Duration{time.Second, 10 * time.Second, 31 * time.Second, 2 * time.Minute, 11 * time.Minute, 3 * time.Hour} {
		for _, wait := range []string{"forever", "ctx-timeout"} {
			if !c.Mine(i) {
				continue
			}
			d, wait := d, wait
			c.ExploreWhole(fmt.Sprintf("a handler that takes %v to end, %s", d, wait), "", harn.Bounds(0, 0, 0, 0), vsched.Options{MaxSteps: 3000000}, func() (func(), func(o *vsched.Outcome) vsched.Verdict) {
				var finished, early vsched.Cell
				concurrent.LogPanic = func(recovered interface{}, properties ...interface{}) interface{} { return recovered }
				concurrent.LogInfo = func(string, ...interface{}) {}
				body := func() {
					ex := concurrent.NewUnboundedExecutor()
					for k := 0; k < 4; k++ {
						k := k
						ex.Go(func(ctx context.Context) {
							if k == 2 {
								vsched.Recv(ctx.Done())
								vsched.Sleep(d)
								finished.Add(1)
							}
						})
					}
					judge := func() {
						if finished.Get() == 0 {
							early.Set(1)
						}
					}
					switch wait {
					case "forever":
						ex.StopAndWaitForever()
						judge()
					case "ctx-timeout":
						ctx, cancel := vcontext.WithTimeout(context.Background(), d+time.Hour)
						ex.StopAndWait(ctx)
						judge()
						cancel()
					}
				}
				return body, func(o *vsched.Outcome) vsched.Verdict {
					v := ""
					if early.Get() != 0 {
						v = fmt.Sprintf("waiting for the executor returned although a handler had not finished, it ends %v after the cancellation", d)
					}
					if o.End != "" {
						v = "execution ended abnormally: " + o.End
					}
					return vsched.Verdict{Obs: fmt.Sprint(word(o.End), finished.Get()), Violation: v}
				}
			})
		}
	}
}

// submit: handlers that wait for something the submitter does after it gave
// them to the executor, which is running or was stopped
func submit(c *harn.Ctx) {
	for i, n := range []int{1, 2, 20, 300} {
		for k, when := range []string{"running", "stopped", "stopped and waited for", "stopped in between"} {
			for _, inner := range []bool{false, true} {
				if !c.Mine(i + k) {
					continue
				}
				n, when, inner := n, when, inner
				b := 1
				if n > 2 {
					b = 0
				}
				c.ExploreWhole(fmt.Sprintf("%d handlers wait for what their submitter does next, executor %s, submitted by a handler %v", n, when, inner), "", harn.Bounds(b, 0, 0, 0), vsched.Options{MaxSteps: 1000000, DelayBound: n > 2}, func() (func(), func(o *vsched.Outcome) vsched.Verdict) {
					var gate, ran, early, began vsched.Cell
					concurrent.LogPanic = func(recovered interface{}, properties ...interface{}) interface{} { return recovered }
					concurrent.LogInfo = func(string, ...interface{}) {}
					body := func() {
						ex := concurrent.NewUnboundedExecutor()
						switch when {
						case "stopped":
							ex.Stop()
						case "stopped and waited for":
							ex.StopAndWaitForever()
						}
						give := func(ctx context.Context) {
							for j := 0; j < n; j++ {
								if j == n/2 && when == "stopped in between" {
									ex.Stop()
								}
								ex.Go(func(ctx context.Context) {
									gate.AwaitGE(1)
									ran.Add(1)
								})
							}
							gate.Set(1)
							began.Set(1)
						}
						if inner {
							ex.Go(give)
						} else {
							give(nil)
						}
						began.AwaitGE(1)
						ex.StopAndWaitForever()
						if int(ran.Get()) != n {
							early.Set(1)
						}
					}
					return body, func(o *vsched.Outcome) vsched.Verdict {
						v := ""
						if early.Get() != 0 {
							v = fmt.Sprintf("waiting for the executor returned before all of %d handlers had finished, in the end %d had", n, ran.Get())
						}
						if int(ran.Get()) != n && o.End == "" {
							v = fmt.Sprintf("of %d handlers %d ran", n, ran.Get())
						}
						if o.End != "" {
							v = "execution ended abnormally: " + o.End
						}
						return vsched.Verdict{Obs: fmt.Sprint(word(o.End), ran.Get()), Violation: v}
					}
				})
			}
		}
	}
}

func main() {
	harn.Main(harn.Check{
		ID: "C01", Level: "model_checking",
		StateMeaning: "distinct (configuration, observable outcome) pairs",
		Bounds: func(tier string) string {
			if tier == "thorough" {
				return "1..3 handlers of 10 kinds x 10 ways of waiting x 3 start variants; preemptions <=3 (1 handler), <=2 (2 handlers), (delay bound) <=2 (3 handlers); clock deviations <=1 (1-2 handlers); handlers that take up to 3 hours to end (default schedule); race detector on every schedule of 1-2 handlers with <=1 preemption; 1 and 2 (<=1 preemption), 20 and 300 (default schedule) handlers that wait for what their submitter, a handler or not, does after giving them to an executor that runs or was stopped"
			}
			return "1..3 handlers of 10 kinds x 10 ways of waiting x 3 start variants; preemptions <=2 (1 handler), <=1 (2 handlers), (delay bound) <=1 (3 handlers); clock deviations <=1 (1 handler); handlers that take up to 3 hours to end (default schedule); race detector on every schedule of 1-2 handlers with <=1 preemption; 1 and 2 (<=1 preemption), 20 and 300 (default schedule) handlers that wait for what their submitter, a handler or not, does after giving them to an executor that runs or was stopped"
		},
		Assumptions: []string{
			"scheduling points at synchronisation operations only; unsynchronised accesses are covered by the race-detecting runs of the same schedules",
			"sequentially consistent memory for synchronised accesses", "a handler that never ends is only combined with a waiter whose context ends",
		},
		Jobs: func(tier string) []harn.Job {
			if tier == "thorough" {
				return []harn.Job{
					{Name: "long", Shards: 6, Run: long},
					{Name: "submit", Shards: 7, Run: submit},
					{Name: "one", Shards: 4, Run: all(1, 3, 1, 0)},
					{Name: "two", Shards: 16, Run: all(2, 2, 0, 0)},
					{Name: "two-clock", Shards: 16, Run: all(2, 1, 1, 0)},
					{Name: "three", Shards: 16, Run: all(3, 2, 0, 0)},
					{Name: "race-one", Race: true, Shards: 2, Run: all(1, 2, 0, 0)},
					{Name: "race-two", Race: true, Shards: 16, Run: all(2, 1, 0, 0)},
				}
			}
			return []harn.Job{
				{Name: "long", Shards: 6, Run: long},
				{Name: "submit", Shards: 7, Run: submit},
				{Name: "one", Shards: 12, Run: all(1, 2, 1, 0)},
				{Name: "two", Shards: 8, Run: all(2, 1, 0, 0)},
				{Name: "three", Shards: 8, Run: all(3, 1, 0, 0)},
				{Name: "race-one", Race: true, Shards: 2, Run: all(1, 1, 0, 0)},
				{Name: "race-two", Race: true, Shards: 6, Run: all(2, 0, 0, 0)},
			}
		},
	})
}
