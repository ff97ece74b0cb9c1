// C16: goroutine local storage is private to its goroutine, inherited by copy,
// and gone (or back to what it was) when the wrapped function ends.
package main

import (
	"fmt"
	"runtime"
	"strings"

	"github.com/v2pro/plz/gls"

	"verif/harn"
	"verif/vsched"
)

// ---- sequential programs against a reference model ----

// node is one operation of a program. Leaves: 'a' set a plain value, 'c' set a
// copiable value, 'm' modify the copiable value in place, 'n' set to nil.
// Containers run a wrapped body: 'I' in the same goroutine, 'G' in a new
// goroutine, 'D' wrapped here, run at the end of the enclosing body, 'T' wrapped
// once, run twice here, 'H' wrapped once, run in two goroutines in turn.
type node struct {
	op    byte
	empty bool // WithEmptyGls instead of WithGls
	exit  byte // 'n' returns, 'p' panics, 'x' runtime.Goexit (goroutines only)
	body  []node
}

func show(ns []node) string {
	var sb strings.Builder
	for _, n := range ns {
		sb.WriteByte(n.op)
		if n.op >= 'A' && n.op <= 'Z' {
			if n.empty {
				sb.WriteByte('0')
			}
			if n.exit != 'n' {
				sb.WriteByte(n.exit)
			}
			sb.WriteString("(" + show(n.body) + ")")
		}
	}
	return sb.String()
}

type cv struct{ n int }

func (c *cv) Copy() interface{} { return &cv{c.n} }

type store map[string]interface{} // model: plain values, or int for the copiable value

func (s store) copy() store {
	r := store{}
	for k, v := range s {
		r[k] = v
	}
	return r
}

type keyT struct{ s string }

var keyA interface{} = "a"
var keyC interface{} = keyT{"c"}

type machine struct {
	model   bool
	cur     store // model: the current goroutine's storage, nil if disabled
	counter int
	log     []string
}

func (m *machine) observe(tag string) {
	if m.model {
		if m.cur == nil {
			m.log = append(m.log, tag+" off")
			return
		}
		m.log = append(m.log, fmt.Sprintf("%s on a=%v c=%v", tag, m.cur["a"], m.cur["c"]))
		return
	}
	a, c := gls.Get(keyA), gls.Get(keyC)
	if x, ok := c.(*cv); ok {
		c = x.n
	}
	if !gls.IsGlsEnabled(gls.GoID()) {
		if a != nil || c != nil {
			m.log = append(m.log, fmt.Sprintf("%s off but a=%v c=%v", tag, a, c))
			return
		}
		m.log = append(m.log, tag+" off")
		return
	}
	m.log = append(m.log, fmt.Sprintf("%s on a=%v c=%v", tag, a, c))
}

func (m *machine) leaf(op byte) {
	m.counter++
	n := m.counter
	if m.model {
		if m.cur == nil {
			if op == 'm' {
				return
			}
			m.log = append(m.log, "refused")
			return
		}
		switch op {
		case 'a':
			m.cur["a"] = fmt.Sprint("v", n)
		case 'n':
			m.cur["a"] = nil
		case 'c':
			m.cur["c"] = n * 1000
		case 'm':
			if x, ok := m.cur["c"].(int); ok {
				m.cur["c"] = x + 1
			}
		}
		return
	}
	defer func() {
		if r := recover(); r != nil {
			m.log = append(m.log, "refused")
		}
	}()
	switch op {
	case 'a':
		gls.Set(keyA, fmt.Sprint("v", n))
	case 'n':
		gls.Set(keyA, nil)
	case 'c':
		gls.Set(keyC, &cv{n * 1000})
	case 'm':
		if x, ok := gls.Get(keyC).(*cv); ok {
			x.n++
		}
	}
}

// wrap returns the runnable form of a container.
func (m *machine) wrap(n node) func() {
	body := func() {
		m.exec(n.body)
		m.counter++
		if n.exit == 'p' {
			panic("from body")
		}
		if n.exit == 'x' && !m.model {
			runtime.Goexit()
		}
	}
	if !m.model {
		if n.empty {
			return gls.WithEmptyGls(body)
		}
		return gls.WithGls(body)
	}
	snap := store{}
	if !n.empty && m.cur != nil {
		snap = m.cur.copy()
	}
	return func() {
		saved := m.cur
		defer func() { m.cur = saved }()
		m.cur = snap.copy()
		body()
	}
}

func (m *machine) call(f func()) {
	defer func() {
		if r := recover(); r != nil && r != "from body" {
			panic(r)
		}
	}()
	f()
}

func (m *machine) goroutine(f func()) {
	if m.model {
		saved := m.cur
		m.cur = nil
		m.call(f)
		m.observe("after goroutine")
		m.cur = saved
		return
	}
	done := make(chan interface{}, 1)
	go func() {
		var id int64
		defer func() {
			// also reached by Goexit
			r := recover()
			if gls.GoID() != id {
				m.log = append(m.log, "goroutine id changed")
			}
			m.observe("after goroutine")
			done <- r
		}()
		id = gls.GoID()
		m.call(f)
	}()
	if r := <-done; r != nil {
		panic(r)
	}
}

func (m *machine) exec(ns []node) {
	var deferred []func()
	m.observe("start")
	for _, n := range ns {
		switch n.op {
		case 'I':
			m.call(m.wrap(n))
		case 'G':
			m.goroutine(m.wrap(n))
		case 'D':
			deferred = append(deferred, m.wrap(n))
		case 'T':
			f := m.wrap(n)
			m.call(f)
			m.observe("between")
			m.call(f)
		case 'H':
			f := m.wrap(n)
			m.goroutine(f)
			m.goroutine(f)
		default:
			m.leaf(n.op)
		}
		m.observe("after " + string(n.op))
	}
	for _, f := range deferred {
		m.call(f)
		m.observe("after deferred")
	}
}

func runCase(prog []node) string {
	mod := &machine{model: true}
	mod.goroutine(func() { mod.exec(prog) })
	real := &machine{}
	real.goroutine(func() { real.exec(prog) })
	if len(mod.log) != len(real.log) {
		return fmt.Sprintf("observations differ:\n  expected %v\n  got      %v", mod.log, real.log)
	}
	for i := range mod.log {
		if mod.log[i] != real.log[i] {
			return fmt.Sprintf("observation %d: expected %q, got %q", i, mod.log[i], real.log[i])
		}
	}
	return ""
}

func enumerate(size int, conts []node, leaves string, f func([]node)) {
	// all forests with exactly size tokens
	var forests func(n int, f func([]node))
	forests = func(n int, f func([]node)) {
		if n == 0 {
			f(nil)
			return
		}
		// first tree takes k tokens
		for k := 1; k <= n; k++ {
			k := k
			first := func(t node) {
				forests(n-k, func(rest []node) { f(append([]node{t}, rest...)) })
			}
			if k == 1 {
				for i := 0; i < len(leaves); i++ {
					first(node{op: leaves[i]})
				}
			}
			if k > 1 {
				forests(k-1, func(body []node) {
					for _, c := range conts {
						c.body = body
						first(c)
					}
				})
			}
		}
	}
	forests(size, f)
}

func programs(c *harn.Ctx) {
	var all, few []node
	for _, op := range "IGDTH" {
		for _, e := range []bool{false, true} {
			for _, x := range "npx" {
				if x == 'x' && op != 'G' && op != 'H' {
					continue
				}
				all = append(all, node{op: byte(op), empty: e, exit: byte(x)})
				if x == 'n' && !(e && op == 'D') {
					few = append(few, node{op: byte(op), empty: e, exit: byte(x)})
				}
			}
		}
	}
	run := func(p []node) {
		for _, root := range []int{0, 1, 2} {
			prog := p
			if root > 0 {
				prog = []node{{op: 'I', exit: 'n', empty: root == 2, body: p}}
			}
			if root == 2 && len(p) > 2 {
				continue
			}
			c.Case("", func() string { return "program " + show(prog) }, func() string { return runCase(prog) })
		}
	}
	max := 4
	if c.Thorough() {
		max = 5
	}
	for n := 0; n <= max; n++ {
		conts, leaves := all, "acmn"
		if n == max {
			conts, leaves = few, "acm"
		}
		enumerate(n, conts, leaves, func(p []node) {
			if c.Stop() {
				return
			}
			run(p)
		})
	}
}

// ---- schedules ----

type world struct {
	name    string
	residue func(thread int) int
	mk      func(w *rec) func()
}

type rec struct {
	bad vsched.Journal
	obs vsched.Journal
}

func (r *rec) check(ok bool, format string, args ...interface{}) {
	if !ok {
		r.bad.Add(fmt.Sprintf(format, args...))
	}
}

// worker uses its storage and verifies that nobody else touches it.
func worker(r *rec, id int, inherited interface{}) {
	r.check(gls.Get("k") == inherited, "worker %d starts with k=%v instead of %v", id, gls.Get("k"), inherited)
	gls.Set("k", id)
	vsched.Point("between")
	gls.Set(id, "own")
	r.check(gls.Get("k") == id, "worker %d reads back k=%v", id, gls.Get("k"))
	for j := 1; j < 10; j++ {
		want := interface{}(nil)
		if j == id {
			want = "own"
		}
		r.check(gls.Get(j) == want, "worker %d sees the key of worker %d", id, j)
	}
}

func scenarios(th bool) []world {
	same := func(int) int { return 3 }
	diff := func(t int) int { return t }
	var ws []world
	for _, rd := range []struct {
		n string
		f func(int) int
	}{{"same shard", same}, {"other shards", diff}} {
		rd := rd
		ws = append(ws, world{"siblings/" + rd.n, rd.f, func(r *rec) func() {
			return func() {
				var ids [2]int64
				var hs []*vsched.ThreadHandle
				for i := 0; i < 2; i++ {
					i := i
					hs = append(hs, vsched.Go(func() {
						ids[i] = gls.GoID()
						gls.WithGls(func() { worker(r, i+1, nil) })()
						r.check(!gls.IsGlsEnabled(gls.GoID()), "storage still enabled after the wrapped function ended")
						r.check(gls.Get("k") == nil, "value still visible after the wrapped function ended")
					}))
				}
				for _, h := range hs {
					h.Join()
				}
				r.check(gls.GetGls(ids[0]) == nil && gls.GetGls(ids[1]) == nil, "storage left behind")
				r.check(ids[0] != ids[1], "two live goroutines have the same id")
			}
		}})
		ws = append(ws, world{"inherit/" + rd.n, rd.f, func(r *rec) func() {
			return func() {
				gls.WithGls(func() {
					gls.Set("k", "parent")
					gls.Set("c", &cv{5})
					w := gls.WithGls(func() {
						worker(r, 1, "parent")
						gls.Get("c").(*cv).n++
						r.check(gls.Get("c").(*cv).n == 6, "child sees foreign changes of its copy")
					})
					gls.Set("k", "changed")
					h := vsched.Go(w)
					gls.Get("c").(*cv).n += 10
					gls.Set(1, "parents")
					vsched.Point("parent")
					r.check(gls.Get("k") == "changed", "child's value visible in the parent: %v", gls.Get("k"))
					r.check(gls.Get(1) == "parents", "child's key visible in the parent")
					h.Join()
					r.check(gls.Get("c").(*cv).n == 15, "child changed the parent's copy")
				})()
			}
		}})
		ws = append(ws, world{"wrapped once, run twice/" + rd.n, rd.f, func(r *rec) func() {
			return func() {
				gls.WithGls(func() {
					gls.Set("k", "parent")
					var seq vsched.Cell
					w := gls.WithGls(func() { worker(r, int(seq.Add(1)), "parent") })
					a, b := vsched.Go(w), vsched.Go(w)
					a.Join()
					b.Join()
				})()
			}
		}})
		ws = append(ws, world{"panicking sibling/" + rd.n, rd.f, func(r *rec) func() {
			return func() {
				a := vsched.Go(func() {
					defer func() {
						recover()
						r.check(!gls.IsGlsEnabled(gls.GoID()), "storage still enabled after a panic")
					}()
					gls.WithEmptyGls(func() { worker(r, 1, nil); panic("x") })()
				})
				b := vsched.Go(func() {
					gls.WithEmptyGls(func() {
						worker(r, 2, nil)
						gls.WithGls(func() { gls.Set("k", "inner") })()
						r.check(gls.Get("k") == 2, "nested run disturbed the outer storage: k=%v", gls.Get("k"))
					})()
				})
				a.Join()
				b.Join()
			}
		}})
		ws = append(ws, world{"without storage/" + rd.n, rd.f, func(r *rec) func() {
			return func() {
				a := vsched.Go(gls.WithGls(func() { worker(r, 1, nil) }))
				b := vsched.Go(func() {
					for i := 0; i < 2; i++ {
						r.check(gls.Get("k") == nil && !gls.IsGlsEnabled(gls.GoID()), "goroutine without storage sees a value")
						func() {
							defer func() { r.check(recover() != nil, "Set succeeded without storage") }()
							gls.Set("k", "x")
						}()
					}
				})
				a.Join()
				b.Join()
			}
		}})
		if th {
			ws = append(ws, world{"three siblings/" + rd.n, rd.f, func(r *rec) func() {
				return func() {
					var hs []*vsched.ThreadHandle
					for i := 0; i < 3; i++ {
						i := i
						hs = append(hs, vsched.Go(gls.WithGls(func() { worker(r, i+1, nil) })))
					}
					for _, h := range hs {
						h.Join()
					}
				}
			}})
		}
	}
	return ws
}

func schedules(pre int) func(c *harn.Ctx) {
	return func(c *harn.Ctx) {
		for _, w := range scenarios(c.Thorough()) {
			w := w
			c.Explore(w.name, "", harn.Bounds(pre, 0, 0, 0), vsched.Options{MaxSteps: 4000, Goid: w.residue}, func() (func(), func(o *vsched.Outcome) vsched.Verdict) {
				r := &rec{}
				return w.mk(r), func(o *vsched.Outcome) vsched.Verdict {
					v := strings.Join(r.bad.Items(), "; ")
					if o.End != "" {
						v = "execution ended abnormally: " + o.End
					}
					return vsched.Verdict{Obs: o.End, Violation: v}
				}
			})
		}
	}
}

func main() {
	harn.Main(harn.Check{
		ID: "C16", Level: "model_checking", StateMeaning: "distinct scheduling outcomes; sequential programs are counted as executions",
		Bounds: func(tier string) string {
			n, p := 4, 2
			if tier == "thorough" {
				n, p = 5, 4
			}
			return fmt.Sprintf("all programs of up to %d operations (set, modify, nested/child/deferred/repeated wrapped functions ending normally, by panic or Goexit; the largest size with a reduced alphabet) compared with a reference model; schedules of 2 (thorough 3) goroutines sharing or not sharing a lock shard, preemptions <=%d, with race detection", n, p)
		},
		Jobs: func(tier string) []harn.Job {
			p, rp := 2, 2
			if tier == "thorough" {
				p, rp = 4, 3
			}
			return []harn.Job{
				{Name: "programs", Shards: 12, Run: programs},
				{Name: "schedules", Shards: 6, Run: schedules(p)},
				{Name: "race", Race: true, Shards: 4, Run: schedules(rp)},
			}
		},
	})
}
