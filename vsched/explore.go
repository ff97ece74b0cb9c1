package vsched

import (
	"fmt"
	"time"
	"unsafe"
)

// Options configures an exploration.
type Options struct {
	Bounds      [numClasses]int // budget of non-default answers per class (ClassFree: unlimited)
	MaxSteps    int             // horizon of one execution
	MaxStreak   int             // fairness: steps of one thread before others get a turn
	DelayBound  bool            // charge every non-default thread choice, not only preemptions
	SelectClass int             // class of the choice between several ready select cases
	Goid        func(thread int) int
	NowStep     time.Duration // automatic advance of every Now()
	TickLimit   int
	Trace       bool
	Deadline    time.Time
	Shard       int
	Shards      int
}

// Bound is a convenience constructor for Options.Bounds.
func Bound(preempt, clock, fault, user int) [numClasses]int {
	return [numClasses]int{0, preempt, clock, fault, user}
}

// Outcome is what one execution ended with.
type Outcome struct {
	End     string // "" normal; "deadlock: ..", "horizon: ..", "panic: ..", "hang: .."
	Choices []int
	Recs    []choiceRec
	Steps   int
	Trace   []string
	Diverge string
	Races   int
}

// Run executes body once under the schedule given by prefix (default answers afterwards).
func Run(opts *Options, prefix []int, body func()) *Outcome {
	if active {
		fatal("nested execution")
	}
	if opts.MaxSteps == 0 {
		opts.MaxSteps = 20000
	}
	if opts.MaxStreak == 0 {
		opts.MaxStreak = 400
	}
	lim := opts.TickLimit
	if lim == 0 {
		lim = 3000000
	}
	ResetTicks(lim)
	gen++
	e := &exec{opts: opts, prefix: prefix, endCh: make(chan struct{}, 4), exitCh: make(chan struct{}, 4)}
	ex = e
	active = true
	races := RaceErrors()
	t := e.newThread("main", body)
	e.cur = t
	e.start(t)
	raceDisable()
	t.wake <- struct{}{}
	raceEnable()
	<-e.endCh
	raceAcquire(unsafe.Pointer(e))
	nthreads := len(e.threads)
	outcome := e.outcome
	e.killing = true
	for i := 0; i < nthreads; i++ {
		t := e.threads[i]
		if t.done {
			continue
		}
		e.cur = t
		ticks = 0
		raceDisable()
		t.wake <- struct{}{}
		raceEnable()
		<-e.exitCh
	}
	active = false
	o := &Outcome{End: outcome, Steps: e.steps, Trace: e.trace, Diverge: e.diverge, Recs: e.choices, Races: RaceErrors() - races}
	o.Choices = make([]int, len(e.choices))
	for i := range e.choices {
		o.Choices[i] = e.choices[i].chosen
	}
	if len(prefix) > len(e.choices) && o.Diverge == "" {
		o.Diverge = fmt.Sprintf("execution made %d choices, the prefix has %d", len(e.choices), len(prefix))
	}
	return o
}

// Verdict is the judgement on one execution.
type Verdict struct {
	Obs       string // canonical observation (distinct ones are counted)
	Violation string
}

// Report summarises an exploration.
type Report struct {
	Executions  int
	Transitions int
	Outcomes    map[string]int
	MaxChoices  int
	Completed   bool
	Divergences int
	Violation   string
	Choices     []int
	Trace       []string
}

// Explore enumerates all executions of the harness within opts.Bounds. mk
// builds a fresh harness instance: the body of the main thread and the judge.
func Explore(opts *Options, mk func() (body func(), judge func(o *Outcome) Verdict)) *Report {
	rep := &Report{Outcomes: map[string]int{}, Completed: true}
	if opts.Shards == 0 {
		opts.Shards = 1
	}
	ord := 0
	var explore func(prefix []int, depth int) bool
	explore = func(prefix []int, depth int) bool {
		if !opts.Deadline.IsZero() && time.Now().After(opts.Deadline) {
			rep.Completed = false
			return false
		}
		if depth == 2 {
			mine := ord%opts.Shards == opts.Shard
			ord++
			if !mine {
				return true
			}
		}
		var o *Outcome
		var v Verdict
		for try := 0; ; try++ {
			body, judge := mk()
			o = Run(opts, prefix, body)
			v = judge(o)
			if o.Diverge == "" || v.Violation != "" {
				break
			}
			if try == 3 {
				rep.Divergences++
				rep.Completed = false
				return true
			}
		}
		if depth >= 2 || opts.Shard == 0 {
			rep.Executions++
			rep.Transitions += o.Steps
			if len(rep.Outcomes) < 100000 {
				rep.Outcomes[v.Obs]++
			}
		}
		if len(o.Choices) > rep.MaxChoices {
			rep.MaxChoices = len(o.Choices)
		}
		if v.Violation == "" && o.Races > 0 {
			v.Violation = "data race reported by the race detector in this schedule"
		}
		if v.Violation != "" {
			rep.Violation = v.Violation
			rep.Choices = o.Choices
			rep.Completed = false
			return false
		}
		var used [numClasses]int
		for i, r := range o.Recs {
			if i >= len(prefix) {
				ok := r.class == ClassFree || used[r.class] < opts.Bounds[r.class]
				if ok {
					for alt := 1; alt < r.n; alt++ {
						child := make([]int, i+1)
						copy(child, o.Choices[:i])
						child[i] = alt
						if !explore(child, depth+1) {
							return false
						}
					}
				}
			}
			if r.chosen != 0 {
				used[r.class]++
			}
		}
		return true
	}
	explore(nil, 0)
	return rep
}
