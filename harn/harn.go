// Package harn runs the jobs of one check: it spreads them over worker
// processes, merges what they covered, confirms violations by replaying them
// in fresh processes, and writes the evidence file.
package harn

import (
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/vsched"
)

// Job is one independently explored configuration.
type Job struct {
	Name   string
	Race   bool // run in the race-detecting build
	Shards int  // split the schedule tree of Explore over this many processes
	Run    func(c *Ctx)
}

// Check describes a property's check.
type Check struct {
	ID          string
	Level       string
	Jobs        func(tier string) []Job
	Bounds      func(tier string) string
	Assumptions []string
	QuickBudget time.Duration // wall time after which a quick run stops exploring
	// Trans/State meaning, for the evidence
	StateMeaning string
}

// Violation is one failed execution or case.
type Violation struct {
	Property string
	Tier     string
	Job      string
	Index    int
	Shard    int
	Key      string // identity used by the known-findings file
	What     string
	Case     int    // ordinal of the sequential case, or -1
	Explore  string // name of the exploration
	Choices  []int
	Bounds   [5]int   // which choices are offered depends on them
	Trace    []string `json:",omitempty"`
}

// Result is what a worker reports.
type Result struct {
	Executions  int
	Transitions int
	States      int
	Completed   bool
	Details     []string
	Samples     []string
	Violations  []Violation
	Divergences int
	Notes       []string
}

// Ctx is the interface of a job to the machinery.
type Ctx struct {
	Tier     string
	Deadline time.Time
	job      *Job
	index    int
	shard    int
	shards   int
	res      Result
	prop     string
	ord      int
	replay   *Violation
	progress *os.File
	states   map[string]struct{}
	lastBeat atomic.Int64
	current  string
	dir      string
	pending  []*scenario
}

// scenario is an exploration that was asked for.
type scenario struct {
	name, key     string
	bounds        [][5]int
	opts          vsched.Options
	mk            Harness
	shard, shards int
	next          int // bound to explore next
	over          bool
}

// Thorough reports the tier.
func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// Scratch is a directory private to this worker.
func (c *Ctx) Scratch() string { return c.dir }

// Mine tells whether the worker's shard is responsible for item i of a sequential enumeration.
func (c *Ctx) Mine(i int) bool { return c.replay != nil || i%c.shards == c.shard }

func (c *Ctx) beat(what string) {
	c.lastBeat.Store(time.Now().UnixNano())
	c.current = what
	if c.progress != nil {
		c.progress.WriteAt([]byte(fmt.Sprintf("%-400s", what)), 0)
	}
}

// Stop reports whether the time budget is used up.
func (c *Ctx) Stop() bool {
	if !c.Deadline.IsZero() && time.Now().After(c.Deadline) {
		c.res.Completed = false
		return true
	}
	return len(c.res.Violations) >= 5
}

// State counts a distinct state.
func (c *Ctx) State(s string) {
	if len(c.states) < 2000000 {
		c.states[s] = struct{}{}
	}
}

// Trans counts transitions.
func (c *Ctx) Trans(n int) { c.res.Transitions += n }

// Note adds a remark to the evidence.
func (c *Ctx) Note(format string, args ...interface{}) {
	if len(c.res.Notes) < 20 {
		c.res.Notes = append(c.res.Notes, fmt.Sprintf(format, args...))
	}
}

// Sample records an example case.
func (c *Ctx) Sample(format string, args ...interface{}) {
	if len(c.res.Samples) < 3 {
		c.res.Samples = append(c.res.Samples, fmt.Sprintf(format, args...))
	}
}

// Case runs one sequential case: f returns "" or what is wrong. desc is only
// evaluated when needed. key identifies a finding.
func (c *Ctx) Case(key string, desc func() string, f func() string) {
	ord := c.ord
	c.ord++
	if c.replay != nil && c.replay.Case != ord {
		return
	}
	if c.replay == nil && (ord%c.shards != c.shard || c.Stop()) {
		return
	}
	if ord&63 == 0 || c.progress != nil {
		c.beat(fmt.Sprintf("case %d", ord))
	} else {
		c.current = ""
		c.ord = ord + 1
	}
	what := Protect(f)
	c.res.Executions++
	if len(c.res.Samples) < 3 && (ord/c.shards)%97 == 5 {
		c.Sample("%s", clip(desc(), 300))
	}
	if what != "" {
		c.res.Violations = append(c.res.Violations, Violation{Property: c.prop, Tier: c.Tier, Job: c.job.Name, Index: c.index,
			Shard: c.shard, Key: key, What: clip(desc(), 1500) + "\n  => " + clip(what, 3000), Case: ord})
	}
}

// Protect runs f with a step budget and turns panics and hangs into messages.
func Protect(f func() string) (what string) {
	vsched.ResetTicks(1000000)
	defer func() {
		if r := recover(); r != nil {
			what = fmt.Sprintf("panic: %v\n%s", r, clip(string(debug.Stack()), 2500))
		}
		if vsched.WasHung() {
			what = "endless loop or recursion: step budget exceeded"
		}
	}()
	return f()
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// Harness is one instance of a concurrent harness.
type Harness = func() (body func(), judge func(o *vsched.Outcome) vsched.Verdict)

// Explore explores mk with increasing bounds, at the end of the job.
func (c *Ctx) Explore(name, key string, bounds [][5]int, opts vsched.Options, mk Harness) {
	if c.replay != nil {
		if c.replay.Explore != name {
			return
		}
		opts.Trace = !vsched.RaceMode
		opts.Bounds = c.replay.Bounds
		body, judge := mk()
		o := vsched.Run(&opts, c.replay.Choices, body)
		v := judge(o)
		if v.Violation == "" && o.Races > 0 {
			v.Violation = "data race"
		}
		if v.Violation != "" {
			c.res.Violations = append(c.res.Violations, Violation{Property: c.prop, Job: c.job.Name, Key: key, What: name + ": " + v.Violation, Explore: name, Choices: o.Choices, Trace: o.Trace, Case: -1})
		}
		return
	}
	c.pending = append(c.pending, &scenario{name: name, key: key, bounds: bounds, opts: opts, mk: mk, shard: c.shard, shards: c.shards})
}

// explorePending explores all the scenarios of the job: small bounds first, and
// those that take long last, so that none keeps the others from being explored.
func (c *Ctx) explorePending() {
	slice := 10 * time.Second
	if c.Thorough() {
		slice = time.Minute
	}
	for {
		left := 0
		for level := 0; ; level++ {
			more := false
			for _, s := range c.pending {
				if s.over || s.next != level {
					continue
				}
				more = true
				if c.Stop() {
					return
				}
				c.explore(s, slice)
			}
			if !more {
				break
			}
		}
		for _, s := range c.pending {
			if !s.over {
				left++
				s.next = 0
			}
		}
		if left == 0 {
			return
		}
		slice *= 8
	}
}

// explore explores the next bound of s; if that takes longer than the slice it has to be repeated.
func (c *Ctx) explore(s *scenario, slice time.Duration) {
	count := 0
	wrapped := func() (func(), func(o *vsched.Outcome) vsched.Verdict) {
		if count&31 == 0 || c.progress != nil {
			c.beat("explore " + s.name)
		}
		count++
		return s.mk()
	}
	b := s.bounds[s.next]
	o := s.opts
	o.Bounds = b
	o.Deadline = time.Now().Add(slice)
	final := !c.Deadline.IsZero() && o.Deadline.After(c.Deadline)
	if final {
		o.Deadline = c.Deadline
	}
	o.Shard, o.Shards = s.shard, s.shards
	rep := vsched.Explore(&o, wrapped)
	c.res.Divergences += rep.Divergences
	s.next++
	if !rep.Completed && rep.Violation == "" && !final {
		s.next = -1 // another round
		return
	}
	s.over = s.next == len(s.bounds) || rep.Violation != "" || !rep.Completed
	if s.over {
		c.res.Executions += rep.Executions
		c.res.Transitions += rep.Transitions
		for k := range rep.Outcomes {
			c.State(c.job.Name + "|" + s.name + "|" + k)
		}
		if len(c.res.Details) < 2 || !rep.Completed {
			c.res.Details = append(c.res.Details, fmt.Sprintf("%s bounds[preempt,clock,fault,user]=%v executions=%d transitions=%d outcomes=%d complete=%v",
				s.name, b[1:], rep.Executions, rep.Transitions, len(rep.Outcomes), rep.Completed))
		}
		for k := range rep.Outcomes {
			c.Sample("%s: %s", s.name, clip(k, 300))
			break
		}
	}
	if rep.Violation != "" {
		c.res.Violations = append(c.res.Violations, Violation{Property: c.prop, Tier: c.Tier, Job: c.job.Name, Index: c.index, Shard: c.shard,
			Key: s.key, What: s.name + ": " + clip(rep.Violation, 4000), Explore: s.name, Choices: rep.Choices, Bounds: b, Case: -1})
	} else if !rep.Completed {
		c.res.Completed = false
	}
}

// ExploreWhole is Explore without splitting the schedule tree: the job
// distributes whole configurations over its shards (Mine).
func (c *Ctx) ExploreWhole(name, key string, bounds [][5]int, opts vsched.Options, mk Harness) {
	s, n := c.shard, c.shards
	c.shard, c.shards = 0, 1
	c.Explore(name, key, bounds, opts, mk)
	c.shard, c.shards = s, n
}

// Bounds builds a list of bound vectors with increasing preemption bound.
func Bounds(maxPreempt, clock, fault, user int) (r [][5]int) {
	for i := 0; i <= maxPreempt; i++ {
		r = append(r, vsched.Bound(i, clock, fault, user))
	}
	return
}

type finding struct {
	Property string `json:"property"`
	Status   string `json:"status"`
	Key      string `json:"key"`
	Commit   string `json:"commit"`
	What     string `json:"what"`
}

// Main is the entry point of every check binary.
func Main(ck Check) {
	tier := flag.String("tier", "quick", "")
	worker := flag.Int("worker", -1, "")
	shard := flag.Int("shard", 0, "")
	out := flag.String("out", "", "")
	replay := flag.String("replay", "", "")
	progress := flag.String("progress", "", "")
	deadline := flag.Int64("deadline", 0, "unix ms")
	flag.Parse()
	jobs := ck.Jobs(*tier)
	if *worker >= 0 {
		runWorker(&ck, jobs, *tier, *worker, *shard, *out, *replay, *progress, *deadline)
		return
	}
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		var v Violation
		json.Unmarshal(b, &v)
		jobs = ck.Jobs(v.Tier)
		r := replayOnce(&ck, jobs, &v)
		if r == nil {
			fmt.Println("not reproduced")
			os.Exit(0)
		}
		fmt.Println(r.What)
		for _, l := range r.Trace {
			fmt.Println(l)
		}
		os.Exit(1)
	}
	coordinate(&ck, jobs, *tier)
}

func runWorker(ck *Check, jobs []Job, tier string, idx, shard int, out, replay, progress string, deadline int64) {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(400)
	if tier == "" {
		tier = "quick"
	}
	job := &jobs[idx]
	c := &Ctx{Tier: tier, job: job, index: idx, shard: shard, shards: job.Shards, prop: ck.ID, states: map[string]struct{}{}}
	if c.shards == 0 {
		c.shards = 1
	}
	c.res.Completed = true
	if deadline > 0 {
		c.Deadline = time.UnixMilli(deadline)
	}
	if replay != "" {
		b, err := os.ReadFile(replay)
		if err != nil {
			panic(err)
		}
		c.replay = &Violation{}
		if err := json.Unmarshal(b, c.replay); err != nil {
			panic(err)
		}
		c.shards, c.shard = 1, 0
	}
	if progress != "" {
		f, err := os.Create(progress)
		if err != nil {
			panic(err)
		}
		c.progress = f
	}
	base := os.Getenv("VERIF_SCRATCH")
	dir, err := os.MkdirTemp(base, "verif-job-")
	if err != nil {
		panic(err)
	}
	c.dir = dir
	c.lastBeat.Store(time.Now().UnixNano())
	finish := func() {
		c.res.States = len(c.states)
		b, _ := json.Marshal(&c.res)
		if err := os.WriteFile(out+".tmp", b, 0644); err != nil {
			panic(err)
		}
		os.Rename(out+".tmp", out)
		os.RemoveAll(dir)
	}
	// watchdog: nothing here takes long; a case that does not end is a hang
	go func() {
		for {
			time.Sleep(2 * time.Second)
			if time.Since(time.Unix(0, c.lastBeat.Load())) > 120*time.Second {
				ord := c.ord - 1
				c.res.Violations = append(c.res.Violations, Violation{Property: c.prop, Tier: c.Tier, Job: c.job.Name, Index: c.index,
					Shard: c.shard, Key: "hang", What: "no progress for 120 s near " + c.current, Case: ord})
				finish()
				os.Exit(0)
			}
		}
	}()
	begin := time.Now()
	job.Run(c)
	c.explorePending()
	c.res.Details = append(c.res.Details, fmt.Sprintf("shard %d of %d: executions=%d transitions=%d complete=%v %.1fs", shard, c.shards, c.res.Executions, c.res.Transitions, c.res.Completed, time.Since(begin).Seconds()))
	finish()
}

type task struct {
	job, shard int
}

func workerCmd(ctx context.Context, bin string, args ...string) *exec.Cmd {
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Env = append(os.Environ(), "GORACE=exitcode=0 halt_on_error=0 history_size=2")
	return cmd
}

func binFor(j *Job) string {
	if j.Race {
		return os.Getenv("VERIF_RACE_BIN")
	}
	self, _ := os.Executable()
	return self
}

func runTask(ctx context.Context, jobs []Job, t task, tier, tmp string, deadline time.Time, extra ...string) (*Result, string) {
	out := filepath.Join(tmp, fmt.Sprintf("res-%d-%d-%d.json", t.job, t.shard, time.Now().UnixNano()))
	args := append([]string{"-tier", tier, "-worker", fmt.Sprint(t.job), "-shard", fmt.Sprint(t.shard), "-out", out}, extra...)
	if !deadline.IsZero() {
		args = append(args, "-deadline", fmt.Sprint(deadline.UnixMilli()))
	}
	cmd := workerCmd(ctx, binFor(&jobs[t.job]), args...)
	errFile, _ := os.Create(out + ".err")
	cmd.Stderr = errFile
	cmd.Stdout = nil
	err := cmd.Run()
	errFile.Close()
	tail := ""
	if b, e := os.ReadFile(out + ".err"); e == nil {
		if len(b) > 6000 {
			b = append(b[:3000:3000], b[len(b)-3000:]...)
		}
		tail = string(b)
	}
	b, e := os.ReadFile(out)
	if e != nil {
		return nil, fmt.Sprintf("%v\n%s", err, tail)
	}
	r := &Result{}
	if e := json.Unmarshal(b, r); e != nil {
		return nil, e.Error()
	}
	if len(r.Violations) > 0 && strings.Contains(tail, "DATA RACE") {
		for i := range r.Violations {
			if strings.Contains(r.Violations[i].What, "data race") {
				r.Violations[i].What += "\n" + clip(tail, 3000)
			}
		}
	}
	return r, tail
}

func replayOnce(ck *Check, jobs []Job, v *Violation) *Violation {
	tmp, _ := os.MkdirTemp("", "verif-replay-")
	defer os.RemoveAll(tmp)
	f := filepath.Join(tmp, "v.json")
	b, _ := json.Marshal(v)
	os.WriteFile(f, b, 0644)
	idx := -1
	for i := range jobs {
		if jobs[i].Name == v.Job {
			idx = i
		}
	}
	if idx < 0 {
		return nil
	}
	r, tail := runTask(context.Background(), jobs, task{idx, 0}, v.Tier, tmp, time.Time{}, "-replay", f)
	if r == nil {
		return &Violation{What: "process died: " + clip(tail, 2000)}
	}
	if len(r.Violations) == 0 {
		return nil
	}
	return &r.Violations[0]
}

func coordinate(ck *Check, jobs []Job, tier string) {
	start := time.Now()
	tmp, err := os.MkdirTemp("", "verif-check-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(tmp)
	budget := ck.QuickBudget
	if budget == 0 {
		budget = 240 * time.Second
	}
	if tier == "thorough" {
		budget = 75 * time.Minute
	}
	deadline := start.Add(budget)
	var tasks []task
	for i := range jobs {
		n := jobs[i].Shards
		if n == 0 {
			n = 1
		}
		for s := 0; s < n; s++ {
			tasks = append(tasks, task{i, s})
		}
	}
	results := make([]*Result, len(tasks))
	errs := make([]string, len(tasks))
	par := runtime.NumCPU()
	if par > 8 {
		par = 8
	}
	if par < 2 {
		par = 2
	}
	// findings that are known
	known := map[string]finding{}
	verifDir := os.Getenv("VERIF_DIR")
	if b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.json")); err == nil {
		var fs []finding
		if err := json.Unmarshal(b, &fs); err != nil {
			fmt.Fprintln(os.Stderr, "known_findings.json:", err)
			os.Exit(2)
		}
		for _, f := range fs {
			if f.Status == "known" && f.Property == ck.ID {
				known[f.Key] = f
			}
		}
	}
	// Whether a violation happens again when its execution is repeated. The first one that does ends the run.
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var mu sync.Mutex
	confirm := func(v *Violation) bool {
		ok := v.Key == "died" || v.Key == "hang" // already seen twice / by the watchdog
		for k := 0; k < 5 && !ok; k++ {
			if r := replayOnce(ck, jobs, v); r != nil {
				v.Trace = r.Trace
				ok = true
			}
		}
		return ok
	}
	var confirmed *Violation
	tried := map[*Violation]bool{}
	var wg sync.WaitGroup
	ch := make(chan int)
	started := 0
	one := func(i int) {
		// none takes so long that there is no time for others
		mu.Lock()
		started++
		left := len(tasks) - started + 1
		mu.Unlock()
		until := deadline
		share := time.Until(deadline) * time.Duration(3*par) / time.Duration(2*left)
		if share < budget/4 {
			share = budget / 4
		}
		if t := time.Now().Add(share); t.Before(until) {
			until = t
		}
		results[i], errs[i] = runTask(ctx, jobs, tasks[i], tier, tmp, until)
		if ctx.Err() != nil {
			return
		}
		if results[i] == nil {
			// the worker died: run it again, recording how far it gets
			prog := filepath.Join(tmp, fmt.Sprintf("prog-%d", i))
			r, e := runTask(ctx, jobs, tasks[i], tier, tmp, until, "-progress", prog)
			if ctx.Err() != nil {
				return
			}
			results[i] = r
			if r == nil {
				at, _ := os.ReadFile(prog)
				what := "the process running the code under test died at " + strings.TrimSpace(string(at)) + "\n" + e
				ord := -1
				fmt.Sscanf(string(at), "case %d", &ord)
				results[i] = &Result{Violations: []Violation{{Property: ck.ID, Tier: tier, Job: jobs[tasks[i].job].Name, Index: tasks[i].job,
					Shard: tasks[i].shard, Key: "died", What: what, Case: ord}}}
			}
		}
		for k := range results[i].Violations {
			v := &results[i].Violations[k]
			if _, ok := known[v.Key]; ok {
				continue
			}
			ok := confirm(v)
			mu.Lock()
			tried[v] = true
			if ok && confirmed == nil {
				confirmed = v
			}
			mu.Unlock()
			if ok {
				cancel()
				return
			}
		}
	}
	for w := 0; w < par; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				if ctx.Err() == nil {
					one(i)
				}
			}
		}()
	}
	for i := range tasks {
		ch <- i
	}
	close(ch)
	wg.Wait()

	var sum Result
	sum.Completed = true
	var details []string
	var vio []*Violation
	for i, r := range results {
		if r == nil { // not needed any more
			sum.Completed = false
			continue
		}
		sum.Executions += r.Executions
		sum.Transitions += r.Transitions
		sum.States += r.States
		sum.Divergences += r.Divergences
		sum.Completed = sum.Completed && r.Completed
		if len(sum.Samples) < 12 {
			n := len(r.Samples)
			if n > 2 {
				n = 2
			}
			for _, s := range r.Samples[:n] {
				sum.Samples = append(sum.Samples, jobs[tasks[i].job].Name+": "+s)
			}
		}
		sum.Notes = append(sum.Notes, r.Notes...)
		for _, d := range r.Details {
			details = append(details, jobs[tasks[i].job].Name+": "+d)
		}
		if len(r.Details) == 0 {
			details = append(details, fmt.Sprintf("%s/%d: executions=%d states=%d transitions=%d complete=%v", jobs[tasks[i].job].Name, tasks[i].shard, r.Executions, r.States, r.Transitions, r.Completed))
		}
		for k := range r.Violations {
			vio = append(vio, &r.Violations[k])
		}
	}

	seen := map[string]bool{}
	unconfirmed := 0
	nviol := 0
	for i := range vio {
		v := vio[i]
		if f, ok := known[v.Key]; ok {
			if !seen[v.Key] {
				seen[v.Key] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", ck.ID, f.What)
			}
			continue
		}
		nviol++
		if confirmed != nil {
			continue
		}
		if tried[v] {
			unconfirmed++
			sum.Notes = append(sum.Notes, "violation not reproduced: "+clip(v.What, 500))
		}
	}
	var missing []string
	for k := range known {
		if !seen[k] {
			missing = append(missing, k)
		}
	}
	sort.Strings(missing)
	if len(missing) > 0 && sum.Completed {
		sum.Notes = append(sum.Notes, fmt.Sprintf("known findings not observed in this run: %v", missing))
	}

	exit := 0
	if confirmed != nil {
		dir := filepath.Join(verifDir, "replays")
		os.MkdirAll(dir, 0755)
		path := filepath.Join(dir, ck.ID+".json")
		b, _ := json.MarshalIndent(confirmed, "", " ")
		os.WriteFile(path, b, 0644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", ck.ID, path)
		fmt.Println(clip(confirmed.What, 3000))
		for i, l := range confirmed.Trace {
			if i > 200 {
				break
			}
			fmt.Println("   ", l)
		}
		exit = 1
	}
	seed := 0
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	if len(sum.Samples) == 0 {
		sum.Samples = []string{"(none)"}
	}
	if len(details) > 60 {
		details = append(details[:60], fmt.Sprintf("... %d more", len(details)-60))
	}
	ev := map[string]interface{}{
		"property": ck.ID, "tier": tier, "seed": seed, "level": ck.Level,
		"coverage": map[string]interface{}{
			"states": sum.States, "transitions": sum.Transitions, "traces_validated_against_impl": sum.Executions,
			"samples": sum.Samples, "exhaustive": sum.Completed && sum.Divergences == 0, "bounds": ck.Bounds(tier),
			"state_meaning": ck.StateMeaning, "jobs": details, "notes": sum.Notes, "replay_divergences": sum.Divergences,
			"unconfirmed": unconfirmed, "processes": len(tasks),
		},
		"assumptions": ck.Assumptions, "wall_s": time.Since(start).Seconds(), "violations": nviol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(verifDir, "evidence", ck.ID+".json"), b, 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	fmt.Printf("%s %s: executions=%d states=%d transitions=%d exhaustive=%v wall=%.1fs\n", ck.ID, tier, sum.Executions, sum.States, sum.Transitions, sum.Completed && sum.Divergences == 0, time.Since(start).Seconds())
	os.RemoveAll(tmp)
	os.Exit(exit)
}
