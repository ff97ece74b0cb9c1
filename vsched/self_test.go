package vsched

import (
	"fmt"
	"sort"
	"testing"
	"time"
)

func outcomes(r *Report) []string {
	var s []string
	for k := range r.Outcomes {
		s = append(s, k)
	}
	sort.Strings(s)
	return s
}

func TestMutexCounter(t *testing.T) {
	r := Explore(&Options{Bounds: Bound(2, 0, 0, 0)}, func() (func(), func(*Outcome) Verdict) {
		x := 0
		return func() {
			hs := []*ThreadHandle{}
			for i := 0; i < 2; i++ {
				hs = append(hs, Go(func() { Point("load"); v := x; Point("store"); x = v + 1 }))
			}
			for _, h := range hs {
				h.Join()
			}
		}, func(o *Outcome) Verdict { return Verdict{Obs: fmt.Sprint(x, o.End)} }
	})
	t.Log(r.Executions, outcomes(r))
	if fmt.Sprint(outcomes(r)) != "[1 2]" {
		t.Fatal()
	}
}

func TestUnbuffered(t *testing.T) {
	r := Explore(&Options{Bounds: Bound(3, 0, 0, 0)}, func() (func(), func(*Outcome) Verdict) {
		s := ""
		return func() {
			a, b := make(chan int), make(chan string)
			Go(func() { Send(a, 1); Send(b, "x") })
			Go(func() { Send(a, 2) })
			for i := 0; i < 3; i++ {
				c0, c1 := RecvCase(a), RecvCase(b)
				switch Select(false, &c0.Case, &c1.Case) {
				case 0:
					s += fmt.Sprint(c0.V)
				case 1:
					s += c1.V
				}
			}
			tm := make(chan int, 1)
			NewTimer(time.Second, 0, func() { tm <- 1 })
			Recv(tm)
			Recv(make(chan int))
		}, func(o *Outcome) Verdict { return Verdict{Obs: fmt.Sprint(s, " ", o.End)} }
	})
	t.Log(r.Executions, outcomes(r))
}

func TestAB(t *testing.T) {
	r := Explore(&Options{Bounds: Bound(2, 0, 0, 0)}, func() (func(), func(*Outcome) Verdict) {
		var m1, m2 Mutex
		return func() {
			h := Go(func() { m1.Lock(); m2.Lock(); m2.Unlock(); m1.Unlock() })
			m2.Lock()
			m1.Lock()
			m1.Unlock()
			m2.Unlock()
			h.Join()
		}, func(o *Outcome) Verdict { return Verdict{Obs: fmt.Sprint(o.End)} }
	})
	t.Log(r.Executions, outcomes(r))
}
