// C02: a panicking handler neither ends the process nor disturbs the executor,
// and is reported exactly once (a stop signal is not reported).
package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"runtime"
	"strings"
	"time"

	"github.com/v2pro/plz/concurrent"
	vcontext "verif/shim/context"

	"verif/harn"
	"verif/vsched"
)

type pt struct{ a, b int }

var boomErr = errors.New("boom-err")

// panic kinds; "" = no panic
var kinds = []string{"none", "string", "error", "stop", "nilmap", "index", "struct", "slice", "emptystr", "int0", "nil", "nested", "indefer", "typednil", "stopcopy", "recovered", "stoperror", "stopnamed", "stopstringer", "stopptr", "stopbytes", "stopslice", "stoplong", "stoplower", "goexit", "canceled", "deadline", "eof", "wrapped", "bool"}

func raise(kind string) {
	switch kind {
	case "string":
		panic("boom")
	case "error":
		panic(boomErr)
	case "stop":
		panic(concurrent.StopSignal)
	case "stopcopy":
		panic(string([]byte("STOP!")))
	case "stoperror":
		panic(errors.New("STOP!"))
	case "stopnamed":
		panic(named("STOP!"))
	case "stopstringer":
		panic(stringer{7})
	case "stopptr":
		s := concurrent.StopSignal
		panic(&s)
	case "stopbytes":
		panic([]byte("STOP!"))
	case "stopslice":
		panic([]interface{}{"STOP!"})
	case "stoplong":
		panic("STOP!!")
	case "stoplower":
		panic("stop!")
	case "goexit":
		runtime.Goexit()
	case "canceled": // what the handler's context says when it is stopped
		panic(context.Canceled)
	case "deadline":
		panic(context.DeadlineExceeded)
	case "eof":
		panic(io.EOF)
	case "wrapped":
		panic(fmt.Errorf("STOP!: %w", context.Canceled))
	case "bool":
		panic(false)
	case "nilmap":
		var m map[string]int
		m["a"] = 1
	case "index":
		var s []int
		i := len(s)
		_ = s[i]
	case "struct":
		panic(pt{1, 2})
	case "slice":
		panic([]int{1, 2, 3})
	case "emptystr":
		panic("")
	case "int0":
		panic(0)
	case "nil":
		panic(nil)
	case "typednil":
		var e *pt
		panic(e)
	case "nested":
		defer func() {
			recover()
			panic("second")
		}()
		panic("first")
	case "indefer":
		defer func() { panic("from defer") }()
	case "recovered":
		func() {
			defer func() { recover() }()
			panic("handled")
		}()
	}
}

// expected report of a kind: value as printed, or "" for no report
func want(kind string) string {
	switch kind {
	case "none", "stop", "stopcopy", "recovered", "goexit":
		return ""
	case "canceled":
		return "*errors.errorString context canceled"
	case "deadline":
		return "context.deadlineExceededError context deadline exceeded"
	case "eof":
		return "*errors.errorString EOF"
	case "wrapped":
		return "*fmt.wrapError STOP!: context canceled"
	case "bool":
		return "bool false"
	case "stoperror":
		return "*errors.errorString STOP!"
	case "stopnamed":
		return "main.named STOP!"
	case "stopstringer":
		return "main.stringer STOP!"
	case "stopptr":
		return "*string STOP!"
	case "stopbytes":
		return "[]uint8 STOP!"
	case "stopslice":
		return "[]interface {} [STOP!]"
	case "stoplong":
		return "string STOP!!"
	case "stoplower":
		return "string stop!"
	case "string":
		return "string boom"
	case "error":
		return "*errors.errorString boom-err"
	case "nilmap":
		return "runtime.plainError assignment to entry in nil map"
	case "index":
		return "runtime.boundsError runtime error: index out of range [0] with length 0"
	case "struct":
		return "main.pt {1 2}"
	case "slice":
		return "[]int [1 2 3]"
	case "emptystr":
		return "string "
	case "int0":
		return "int 0"
	case "nil":
		return "*runtime.PanicNilError panic called with nil argument"
	case "typednil":
		return "*main.pt <nil>"
	case "nested":
		return "string second"
	case "indefer":
		return "string from defer"
	}
	panic(kind)
}

type named string

type stringer struct{ n int }

func (stringer) String() string { return "STOP!" }

func show(recovered interface{}) string {
	switch r := recovered.(type) {
	case *string:
		return fmt.Sprintf("%T %s", r, *r)
	case []byte:
		return fmt.Sprintf("%T %s", r, r)
	}
	return fmt.Sprintf("%T %v", recovered, recovered)
}

func harness(ks []string, spread bool, late bool, reporter string) harn.Harness {
	return func() (func(), func(o *vsched.Outcome) vsched.Verdict) {
		var reports vsched.Journal
		var ran, after, other, waited, byReporter vsched.Cell
		var ex *concurrent.UnboundedExecutor
		concurrent.LogPanic = func(recovered interface{}, properties ...interface{}) interface{} {
			vsched.Point("report")
			reports.Add(show(recovered))
			switch reporter { // the executor can be used by the reporter, too
			case "starts":
				ex.Go(func(ctx context.Context) { byReporter.Add(1) })
			case "stops":
				ex.Stop()
			case "waits":
				ctx, cancel := vcontext.WithTimeout(context.Background(), 150*time.Millisecond)
				ex.StopAndWait(ctx)
				cancel()
			}
			return recovered
		}
		concurrent.LogInfo = func(string, ...interface{}) {}
		body := func() {
			ex = concurrent.NewUnboundedExecutor()
			// a handler that must go on undisturbed
			ex.Go(func(ctx context.Context) {
				vsched.Recv(ctx.Done())
				other.Add(1)
			})
			for i := range ks {
				k := ks[i]
				h := func(ctx context.Context) {
					ran.Add(1)
					if late {
						vsched.Recv(ctx.Done())
					} else {
						vsched.Point("work")
					}
					raise(k)
				}
				if spread && i%2 == 1 {
					ex.Go(h)
				} else {
					ex.Go(h)
				}
			}
			// the executor stays usable after panics
			if !late {
				vsched.Quiesce()
				ex.Go(func(ctx context.Context) { after.Add(1) })
			}
			ex.StopAndWaitForever()
			waited.Set(1)
			if other.Get() != 1 {
				waited.Set(2)
			}
		}
		judge := func(o *vsched.Outcome) vsched.Verdict {
			var exp []string
			for _, k := range ks {
				if w := want(k); w != "" {
					exp = append(exp, w)
				}
			}
			got := reports.Items()
			obs := fmt.Sprintf("%s %q", strings.SplitN(o.End, ":", 2)[0], got)
			v := ""
			left := append([]string{}, exp...)
			for _, g := range got {
				found := false
				for i := range left {
					if left[i] == g {
						left = append(left[:i], left[i+1:]...)
						found = true
						break
					}
				}
				if !found {
					v = fmt.Sprintf("unexpected or repeated panic report %q (handlers: %v)", g, ks)
				}
			}
			switch {
			case o.End != "":
				v = "execution ended abnormally (panicking handlers " + strings.Join(ks, ",") + "): " + o.End
			case v != "":
			case len(left) > 0:
				v = fmt.Sprintf("panic values %q were not reported (reports: %q)", left, got)
			case waited.Get() != 1:
				v = "waiting for the executor returned before an undisturbed handler had finished"
			case !late && after.Get() != 1:
				v = "a handler started after the panics was not run"
			case reporter == "starts" && int(byReporter.Get()) != len(got):
				v = fmt.Sprintf("%d of %d handlers started by the panic reporter ran", byReporter.Get(), len(got))
			case int(ran.Get()) != len(ks):
				v = fmt.Sprintf("%d of %d handlers ran", ran.Get(), len(ks))
			}
			return vsched.Verdict{Obs: obs, Violation: v}
		}
		return body, judge
	}
}

func run(n, pre int, delay bool) func(c *harn.Ctx) { return runs(n, pre, delay, false) }

func runs(n, pre int, delay, race bool) func(c *harn.Ctx) {
	return func(c *harn.Ctx) {
		i := 0
		var rec func(ks []string)
		rec = func(ks []string) {
			if len(ks) == n {
				for v := 0; v < 4; v++ {
					if n == 1 && v&1 == 1 {
						continue
					}
					i++
					if !c.Mine(i) {
						continue
					}
					for _, rep := range []string{"", "starts", "stops", "waits"} {
						if rep != "" && (n > 2 || n == 2 && v != 0) || rep == "waits" && (n > 1 || race) {
							continue
						}
						name := fmt.Sprintf("%s/spread=%v/late=%v", strings.Join(ks, ","), v&1 == 1, v&2 == 2)
						if rep != "" {
							name += "/reporter " + rep
						}
						c.ExploreWhole(name, "", harn.Bounds(pre, 0, 0, 0), vsched.Options{MaxSteps: 4000, DelayBound: delay}, harness(ks, v&1 == 1, v&2 == 2, rep))
					}
				}
				return
			}
			for _, k := range kinds {
				rec(append(append([]string{}, ks...), k))
			}
		}
		rec(nil)
	}
}

func main() {
	harn.Main(harn.Check{
		ID: "C02", Level: "model_checking", StateMeaning: "distinct (configuration, observed reports) pairs",
		Bounds: func(tier string) string {
			if tier == "thorough" {
				return "1..3 handlers with 30 panic behaviours (all tuples) before/after cancellation; preemptions <=3 (1), <=1 (2), delay bound 1 (3)"
			}
			return "1..2 handlers with 30 panic behaviours (all pairs) before/after cancellation, panic reporters that use the executor, same/different call site; preemptions <=2 (1 handler), delay bound 1 (2 handlers); race detector on all schedules of one handler"
		},
		Assumptions: []string{"the panic reporter itself does not panic"},
		Jobs: func(tier string) []harn.Job {
			if tier == "thorough" {
				return []harn.Job{
					{Name: "one", Shards: 4, Run: run(1, 3, false)},
					{Name: "two", Shards: 16, Run: run(2, 1, false)},
					{Name: "three", Shards: 16, Run: run(3, 1, true)},
					{Name: "race-one", Race: true, Shards: 4, Run: runs(1, 2, false, true)},
					{Name: "race-two", Race: true, Shards: 8, Run: runs(2, 1, true, true)},
				}
			}
			return []harn.Job{
				{Name: "one", Shards: 2, Run: run(1, 2, false)},
				{Name: "two", Shards: 4, Run: run(2, 1, true)},
				{Name: "race-one", Race: true, Shards: 2, Run: runs(1, 1, false, true)},
			}
		},
	})
}
