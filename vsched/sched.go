// Package vsched is a controlled cooperative scheduler for the code under test.
//
// Every synchronisation operation of the rewritten code (locks, atomics,
// channels, pools, timers, file operations ...) calls into this package before
// it happens. Exactly one controlled thread runs at a time; at every such call
// the running thread hands the baton to the thread selected by the current
// schedule. Executions are therefore deterministic functions of a sequence of
// choices, which explore.go enumerates exhaustively within bounds.
//
// The package is always compiled without race instrumentation, and its
// hand-offs are hidden from the race detector (race_on.go), so that a -race
// build sees only the happens-before edges of the program itself.
package vsched

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"time"
	"unsafe"
)

// Choice classes: each has its own budget of non-default answers.
const (
	ClassFree    = 0 // no budget: all alternatives are explored
	ClassPreempt = 1 // switching away from an enabled thread
	ClassClock   = 2 // time passes while threads could still run
	ClassFault   = 3 // environment faults (failing calls, short writes, crash)
	ClassUser    = 4 // harness defined
	numClasses   = 5
)

var classNames = [numClasses]string{"free", "preempt", "clock", "fault", "user"}

type choiceRec struct {
	chosen int
	n      int
	class  int
	label  string
}

// Thread is one controlled goroutine.
type Thread struct {
	id     int
	Name   string
	wake   chan struct{}
	ready  func() bool
	what   string
	cases  []*Case
	fired  int // index of the case a partner completed, or -1
	done   bool
	idle   bool // enabled only when nothing else is
	sched  *exec
	fn     func()
	goidOK bool
}

type killSignal struct{}

// timer is a virtual timer.
type timer struct {
	when   int64
	seq    int
	period int64
	fire   func()
	active bool
}

// exec is the state of one execution.
type exec struct {
	opts    *Options
	prefix  []int
	choices []choiceRec
	threads []*Thread
	cur     *Thread
	now     int64
	timers  []*timer
	seq     int
	steps   int
	streak  int
	ended   bool
	outcome string // "", "deadlock", "horizon", "panic: ..."
	endCh   chan struct{}
	exitCh  chan struct{}
	killing bool
	diverge string
	trace   []string
	ticks   int
	ended2  bool
}

var (
	active  bool
	ex      *exec
	gen     int // execution counter: lock state of older executions is void
	tickLim = 3000000
	ticks   int
	hung    bool
)

// Active reports whether a controlled execution is running.
func Active() bool { return active }

// Generation identifies the current execution.
func Generation() int { return gen }

// Hung is the panic value raised when code under test exceeds its step budget.
type Hung struct{}

func (Hung) Error() string { return "step budget exceeded (endless loop or recursion)" }

// Tick is inserted by the rewriter in every loop body and function entry of the code under test.
func Tick() {
	ticks++
	if ticks > tickLim {
		hung = true
		ticks = tickLim - 1000 // leave room for deferred functions to run
		if active && ex != nil && !ex.killing {
			ex.end("hang: step budget exceeded (endless loop or recursion)")
			ex.block(ex.cur)
		}
		panic(Hung{})
	}
}

// ResetTicks starts a new step budget (used by sequential harnesses for each case).
func ResetTicks(lim int) {
	ticks = 0
	hung = false
	if lim > 0 {
		tickLim = lim
	}
}

// WasHung reports whether the step budget was exceeded since ResetTicks.
func WasHung() bool { return hung }

// ---------------------------------------------------------------- choices

func (e *exec) choose(n, class int, label string) int {
	if n <= 1 {
		return 0
	}
	i := len(e.choices)
	c := 0
	if i < len(e.prefix) {
		c = e.prefix[i]
		if c >= n {
			e.diverge = fmt.Sprintf("choice %d: recorded alternative %d, but only %d exist (%s)", i, c, n, label)
			c = 0
		}
	}
	e.choices = append(e.choices, choiceRec{c, n, class, label})
	if e.opts.Trace && c != 0 {
		e.trace = append(e.trace, fmt.Sprintf("choice %d (%s, %s): alternative %d of %d", i, classNames[class], label, c, n))
	}
	return c
}

// Choose lets a harness or a shim ask the environment for one of n answers.
func Choose(n, class int, label string) int {
	if !active || ex.killing {
		return 0
	}
	return ex.choose(n, class, label)
}

// Log adds a line to the trace of the execution (kept only when replaying).
func Log(format string, args ...interface{}) {
	if active && ex.opts.Trace {
		ex.trace = append(ex.trace, "  "+ex.cur.Name+": "+fmt.Sprintf(format, args...))
	}
}

// ---------------------------------------------------------------- threads

func (e *exec) newThread(name string, fn func()) *Thread {
	t := &Thread{id: len(e.threads), Name: name, wake: make(chan struct{}, 1), fn: fn, sched: e, fired: -1, what: "start"}
	if t.Name == "" {
		t.Name = threadNames[t.id%len(threadNames)]
	}
	e.threads = append(e.threads, t)
	return t
}

var threadNames = func() (r [64]string) {
	for i := range r {
		r[i] = fmt.Sprintf("T%d", i)
	}
	return
}()

func goid() int64 {
	var b [40]byte
	n := runtime.Stack(b[:], false)
	var id int64
	for _, c := range b[10:n] {
		if c < '0' || c > '9' {
			break
		}
		id = id*10 + int64(c-'0')
	}
	return id
}

func (e *exec) start(t *Thread) {
	want := -1
	if e.opts.Goid != nil {
		want = e.opts.Goid(t.id)
	}
	if want < 0 {
		go t.main()
		return
	}
	// goroutine ids decide which shard of a sharded structure is used: spawn
	// until the new goroutine has the wanted residue modulo 16.
	for i := 0; i < 100000; i++ {
		got := make(chan bool, 1)
		go func() {
			if goid()%16 == int64(want) {
				got <- true
				t.main()
				return
			}
			got <- false
		}()
		raceDisable()
		ok := <-got
		raceEnable()
		if ok {
			return
		}
	}
	panic("vsched: could not obtain goroutine id residue")
}

func (t *Thread) main() {
	e := t.sched
	normal := false
	defer func() {
		r := recover()
		if r != nil {
			if _, isKill := r.(killSignal); !isKill && !e.killing {
				e.end(fmt.Sprintf("panic: thread %s: %v\n%s", t.Name, r, trimStack(debug.Stack())))
			}
		}
		_ = normal
		t.done = true
		if e.killing {
			e.exitCh <- struct{}{}
			return
		}
		// release towards the controller only
		raceRelease(unsafe.Pointer(e))
		if e.ended {
			e.endCh <- struct{}{}
			return
		}
		if t.id == 0 {
			e.end("")
			e.endCh <- struct{}{}
			return
		}
		t.what = "exited"
		t.ready = nil
		e.passOn(t)
	}()
	raceDisable()
	<-t.wake
	raceEnable()
	if e.killing {
		runtime.Goexit()
	}
	t.fn()
	normal = true
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

// end marks the execution as finished; the current thread must stop running afterwards.
func (e *exec) end(outcome string) {
	if e.ended {
		return
	}
	e.ended = true
	e.outcome = outcome
}

// block ends the current thread's participation: signal the controller and wait to be killed.
func (e *exec) block(t *Thread) {
	raceRelease(unsafe.Pointer(e))
	e.endCh <- struct{}{}
	raceDisable()
	<-t.wake
	raceEnable()
	runtime.Goexit()
}

// ThreadHandle lets harness code wait for a thread.
type ThreadHandle struct{ t *Thread }

// Go starts fn as a controlled thread (or a plain goroutine outside executions).
func Go(fn func()) *ThreadHandle { return GoNamed("", fn) }

// GoNamed is Go with a name used in traces.
func GoNamed(name string, fn func()) *ThreadHandle {
	if !active {
		go fn()
		return nil
	}
	if ex.killing {
		return nil
	}
	e := ex
	t := e.newThread(name, fn)
	e.start(t)
	e.point("go")
	return &ThreadHandle{t}
}

// Join waits for the thread to end.
func (h *ThreadHandle) Join() {
	e := ex
	e.wait("join "+h.t.Name, func() bool { return h.t.done })
	raceAcquire(unsafe.Pointer(h.t))
}

// Done reports whether the thread has ended.
func (h *ThreadHandle) Done() bool { return h.t.done }

// Blocked reports whether the thread cannot run now.
func (h *ThreadHandle) Blocked() bool { return !h.t.done && !h.t.enabled() }

func (t *Thread) enabled() bool {
	if t.done {
		return false
	}
	if t.fired >= 0 {
		return true
	}
	if t.ready == nil {
		return true
	}
	return t.ready()
}

// ---------------------------------------------------------------- scheduling

// point is a scheduling point of an operation that never blocks.
func (e *exec) point(what string) { e.wait(what, nil) }

// Point is an explicit scheduling point.
func Point(what string) {
	if active {
		ex.wait(what, nil)
	}
}

// wait announces the next operation of the current thread and returns when the
// thread has been selected and ready() holds.
func (e *exec) wait(what string, ready func() bool) {
	if e.killing {
		if ready != nil && !ready() {
			runtime.Goexit()
		}
		return
	}
	t := e.cur
	t.what = what
	t.ready = ready
	t.fired = -1
	e.dispatch(t)
	t.ready = nil
	t.idle = false
	if e.opts.Trace {
		e.trace = append(e.trace, "  "+t.Name+": "+what)
	}
}

// dispatch selects the next thread; returns when t itself has been selected.
func (e *exec) dispatch(t *Thread) {
	next := e.pick(t)
	if next == nil { // execution ended
		e.block(t)
		return
	}
	if next == t {
		return
	}
	e.cur = next
	raceDisable()
	next.wake <- struct{}{}
	<-t.wake
	raceEnable()
	if e.killing {
		runtime.Goexit()
	}
}

// passOn is dispatch for a thread that has ended.
func (e *exec) passOn(t *Thread) {
	raceRelease(unsafe.Pointer(t))
	next := e.pick(t)
	if next == nil {
		e.endCh <- struct{}{}
		return
	}
	e.cur = next
	raceDisable()
	next.wake <- struct{}{}
	raceEnable()
}

// pick takes the scheduling decision. nil means that the execution has ended.
func (e *exec) pick(cur *Thread) *Thread {
	e.steps++
	if e.steps > e.opts.MaxSteps {
		e.end("horizon: " + e.describe())
		return nil
	}
	for {
		e.fireDue()
		var cand [64]*Thread
		n := 0
		curEnabled := !cur.done && !cur.idle && cur.enabled()
		if curEnabled {
			cand[0] = cur
			n = 1
		}
		// others in ascending id order, starting after the current thread
		nt := len(e.threads)
		for k := 1; k <= nt; k++ {
			t := e.threads[(cur.id+k)%nt]
			if t == cur || t.done || t.idle {
				continue
			}
			if t.enabled() {
				if n < len(cand) {
					cand[n] = t
					n++
				}
			}
		}
		if n == 0 {
			// nothing runnable: an idle waiter, then the clock, then deadlock
			for _, t := range e.threads {
				if !t.done && t.idle && t.enabled() {
					e.streak = 0
					return t
				}
			}
			if e.advance() {
				continue
			}
			e.end("deadlock: " + e.describe())
			return nil
		}
		extra := 0
		if e.opts.Bounds[ClassClock] > 0 && e.hasTimer() {
			extra = 1
		}
		if !curEnabled {
			e.streak = 0
			// free choice between the enabled threads
			idx := 0
			if n > 1 {
				if e.opts.DelayBound {
					idx = e.choose(n, ClassPreempt, "next")
				} else {
					idx = e.choose(n, ClassFree, "next")
				}
			}
			if extra == 1 && e.choose(2, ClassClock, "clock") == 1 {
				e.advance()
				continue
			}
			return cand[idx]
		}
		e.streak++
		if e.streak > e.opts.MaxStreak && n > 1 {
			// fairness: a thread that keeps running without blocking yields
			e.streak = 0
			return cand[1]
		}
		if n > 1 {
			idx := e.choose(n, ClassPreempt, cur.what)
			if idx != 0 {
				e.streak = 0
				return cand[idx]
			}
		}
		if extra == 1 && e.choose(2, ClassClock, "clock") == 1 {
			e.advance()
			continue
		}
		return cur
	}
}

func (e *exec) describe() string {
	if RaceMode {
		return "(no details in race mode)"
	}
	var sb strings.Builder
	for _, t := range e.threads {
		st := "blocked"
		if t.done {
			continue
		} else if t.enabled() {
			st = "runnable"
		}
		fmt.Fprintf(&sb, "%s %s at %s; ", t.Name, st, t.what)
	}
	return sb.String()
}

// ---------------------------------------------------------------- clock

func (e *exec) hasTimer() bool {
	for _, t := range e.timers {
		if t.active {
			return true
		}
	}
	return false
}

func (e *exec) earliest() *timer {
	var best *timer
	for _, t := range e.timers {
		if t.active && (best == nil || t.when < best.when || (t.when == best.when && t.seq < best.seq)) {
			best = t
		}
	}
	return best
}

// advance moves the clock to the earliest timer; false if there is none.
func (e *exec) advance() bool {
	b := e.earliest()
	if b == nil {
		return false
	}
	if b.when > e.now {
		e.now = b.when
	}
	if e.opts.Trace {
		e.trace = append(e.trace, fmt.Sprintf("  clock: now +%v", time.Duration(e.now)))
	}
	e.fireDue()
	return true
}

func (e *exec) fireDue() {
	for {
		b := e.earliest()
		if b == nil || b.when > e.now {
			return
		}
		if b.period > 0 {
			b.when += b.period
		} else {
			b.active = false
		}
		raceDisable()
		b.fire()
		raceEnable()
		if !b.active {
			e.dropTimer(b)
		}
	}
}

// dropTimer removes b without copying slices wholesale (the runtime's copy
// routines report to the race detector even from uninstrumented code).
func (e *exec) dropTimer(b *timer) {
	for i, t := range e.timers {
		if t == b {
			for j := i; j+1 < len(e.timers); j++ {
				e.timers[j] = e.timers[j+1]
			}
			e.timers[len(e.timers)-1] = nil
			e.timers = e.timers[:len(e.timers)-1]
			return
		}
	}
}

// Timer is a handle on a virtual timer.
type Timer struct{ t *timer }

// NewTimer registers fire to be called after d (and then every period if > 0).
func NewTimer(d, period time.Duration, fire func()) *Timer {
	e := ex
	e.seq++
	t := &timer{when: e.now + int64(d), seq: e.seq, period: int64(period), fire: fire, active: true}
	if d < 0 {
		t.when = e.now
	}
	e.timers = append(e.timers, t)
	return &Timer{t}
}

// NewSyncedTimer registers fire to be called after d, with its synchronisation
// visible to the race detector.
func NewSyncedTimer(d time.Duration, fire func()) *Timer {
	tm := NewTimer(d, 0, nil)
	p := unsafe.Pointer(tm.t)
	raceRelease(p)
	tm.t.fire = func() {
		raceEnable()
		raceAcquire(p)
		fire()
		raceDisable()
	}
	return tm
}

// NewTimerThread registers fn to be run in a new thread after d.
func NewTimerThread(d time.Duration, fn func()) *Timer {
	e := ex
	return NewTimer(d, 0, func() {
		t := e.newThread("", fn)
		e.start(t)
	})
}

// Stop deactivates the timer and reports whether it was active.
func (tm *Timer) Stop() bool {
	was := tm.t.active
	tm.t.active = false
	if active {
		ex.dropTimer(tm.t)
	}
	return was
}

// Reset re-arms the timer.
func (tm *Timer) Reset(d time.Duration) bool {
	was := tm.Stop()
	if active {
		ex.seq++
		tm.t.seq = ex.seq
		tm.t.when = ex.now + int64(d)
		tm.t.active = true
		ex.timers = append(ex.timers, tm.t)
	}
	return was
}

// SetPeriod changes the period of a ticker.
func (tm *Timer) SetPeriod(d time.Duration) { tm.t.period = int64(d) }

// Sleep suspends the current thread for d of virtual time.
func Sleep(d time.Duration) {
	if !active {
		time.Sleep(d)
		return
	}
	e := ex
	if e.killing {
		return
	}
	woken := false
	NewTimer(d, 0, func() { woken = true })
	e.wait("sleep", func() bool { return woken })
}

var epoch = time.Date(2020, 3, 4, 5, 6, 7, 0, time.UTC)

// Epoch is the virtual time at which every execution starts.
func Epoch() time.Time { return epoch }

// Now is the virtual time (inside executions).
func Now() time.Time {
	if !active {
		return time.Now()
	}
	t := ex
	t.now += int64(t.opts.NowStep)
	return epoch.Add(time.Duration(t.now)).Local()
}

// PeekNow is Now without the automatic step.
func PeekNow() time.Time { return epoch.Add(time.Duration(ex.now)).Local() }

// Advance lets virtual time pass (harness use).
func Advance(d time.Duration) {
	ex.now += int64(d)
	ex.fireDue()
}

// Quiesce waits until no other thread can run without time passing.
func Quiesce() {
	if !active {
		return
	}
	e := ex
	e.cur.idle = true
	e.wait("quiesce", func() bool { return true })
}

// Await blocks the current thread until cond holds (cond must only read state
// changed by controlled threads).
func Await(what string, cond func() bool) {
	if !active {
		panic("vsched.Await outside execution")
	}
	ex.wait(what, cond)
}

// Yield is runtime.Gosched.
func Yield() {
	if !active {
		runtime.Gosched()
		return
	}
	e := ex
	e.streak = e.opts.MaxStreak
	e.point("gosched")
}

// ThreadID is the id of the running controlled thread.
func ThreadID() int { return ex.cur.id }

// LiveThreads is the number of threads that have not ended (including the caller).
func LiveThreads() int {
	n := 0
	for _, t := range ex.threads {
		if !t.done {
			n++
		}
	}
	return n
}

func fatal(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "vsched: "+format+"\n", args...)
	os.Exit(3)
}

// Crash ends the execution at this point, as if the process had been killed.
func Crash() {
	if !active || ex.killing {
		return
	}
	e := ex
	e.end("crash")
	e.block(e.cur)
}

// Killing reports whether the execution is over and its threads are being unwound.
func Killing() bool { return active && ex.killing }
