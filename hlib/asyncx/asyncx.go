// Package asyncx is the harness for the asynchronous writers.
package asyncx

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"
	"time"

	"github.com/v2pro/plz/countlog/loglog"
	"github.com/v2pro/plz/countlog/output/async"

	"verif/harn"
	"verif/vsched"
)

// Config is one harness configuration.
type Config struct {
	Blocking  bool
	Queue     int
	Producers []int  // messages per producer
	Sink      string // "fast" "slow" (100 ms per write) "err" (alternate writes fail) "panic" (alternate writes panic) "short" "gate" (blocked until released)
	Closer    string // "none" "ok" "err"
	Drop      string // "callback" "default"
	Sizes     string // "small" "mixed"
	Close     string // "after": when all producers are done; "concurrent": while they write; "none"
	Pre       int    // messages written by main before the producers start
}

func (c Config) Name() string {
	mode := "nonblocking"
	if c.Blocking {
		mode = "blocking"
	}
	return fmt.Sprintf("%s/q%d/p%v/sink=%s/closer=%s/drop=%s/sizes=%s/close=%s/pre%d", mode, c.Queue, c.Producers, c.Sink, c.Closer, c.Drop, c.Sizes, c.Close, c.Pre)
}

type write struct {
	id          string
	start, end  int64 // logical times; end == 0: not returned
	before      bool  // returned before Close was called
	outstanding int64
}

type sink struct {
	cfg     *Config
	clock   *vsched.Cell
	inside  vsched.Cell
	n       int
	gate    vsched.Cell
	got     []string // instrumented on purpose: the writer must serialise its calls
	started vsched.Cell
	conc    vsched.Cell
	closed  vsched.Cell
	late    vsched.Cell
	failed  vsched.Cell
}

var errSink = errors.New("sink failure")
var errClose = errors.New("close failure")

func (s *sink) Write(b []byte) (int, error) {
	if s.inside.Add(1) > 1 {
		s.conc.Set(1)
	}
	if s.closed.Get() > 0 {
		s.late.Set(1)
	}
	s.started.Add(1)
	if s.cfg.Sink == "gate" {
		s.gate.AwaitGE(1)
	}
	vsched.Point("sink.begin")
	s.got = append(s.got, string(b))
	s.n++
	if s.cfg.Sink == "slow" {
		vsched.Sleep(100 * time.Millisecond)
	}
	vsched.Point("sink.end")
	if s.got[s.n-1] != string(b) {
		s.got[s.n-1] = fmt.Sprintf("buffer changed during the sink's Write: %q -> %q", s.got[s.n-1], b)
	}
	s.inside.Add(-1)
	if s.cfg.Sink == "err" && s.n%2 == 1 {
		s.failed.Add(1)
		return 0, errSink
	}
	if s.cfg.Sink == "panic" && s.n%2 == 1 {
		s.failed.Add(1)
		panic(errSink)
	}
	if s.cfg.Sink == "short" && s.n%2 == 1 && len(b) > 0 {
		s.failed.Add(1)
		return len(b) - 1, io.ErrShortWrite
	}
	return len(b), nil
}

type closerSink struct {
	*sink
	err error
}

func (s closerSink) Close() error {
	s.closed.Add(1)
	vsched.Point("sink.close")
	return s.err
}

func message(cfg *Config, p, k int) []byte {
	m := fmt.Sprintf("p%d-m%d", p, k)
	if cfg.Sizes == "mixed" {
		switch {
		case p == 0 && k == 1:
			return nil // an empty message is a message
		case p == 0 && k%6 == 0:
			m += strings.Repeat("z", 70000)
		}
		switch (p + k) % 5 {
		case 2:
			m += strings.Repeat("y", 5000)
		case 3:
			m += strings.Repeat(".", 120)
		case 4:
			m += strings.Repeat("x", 1500)
		}
	}
	return []byte(m + "\n")
}

// Make builds the harness.
func Make(cfg Config) harn.Harness {
	return func() (func(), func(o *vsched.Outcome) vsched.Verdict) {
		var clock vsched.Cell
		snk := &sink{cfg: &cfg, clock: &clock}
		var dropped vsched.Journal
		var complaints vsched.Cell
		var reports vsched.Cell
		loglog.Error = func(err error) {
			complaints.Add(1)
			if err != nil && (strings.Contains(err.Error(), errSink.Error()) || strings.Contains(err.Error(), io.ErrShortWrite.Error())) {
				reports.Add(1)
			}
		}
		var writes []*write // appended by main before the threads start
		var accepted vsched.Cell
		bad := ""
		var closeErr error
		closeReturned := false
		closeCalled := int64(0)
		nPerProducer := map[int][]*write{}
		mk := func(p, k int) *write {
			w := &write{id: string(message(&cfg, p, k))}
			writes = append(writes, w)
			nPerProducer[p] = append(nPerProducer[p], w)
			return w
		}
		for k := 0; k < cfg.Pre; k++ {
			mk(9, k)
		}
		for p, n := range cfg.Producers {
			for k := 0; k < n; k++ {
				mk(p, k)
			}
		}
		var closedAt vsched.Cell
		body := func() {
			var dst io.Writer = snk
			if cfg.Closer == "ok" {
				dst = closerSink{snk, nil}
			} else if cfg.Closer == "err" {
				dst = closerSink{snk, errClose}
			}
			c := async.AsyncWriterConfig{QueueLength: cfg.Queue, Writer: dst, IsQueueBlocking: cfg.Blocking}
			if cfg.Drop == "callback" {
				c.OnMessageDropped = func(m []byte) {
					vsched.Point("drop")
					dropped.Add(string(m))
				}
			}
			aw := async.NewAsyncWriter(c)
			one := func(w *write, buf []byte) string {
				buf = append(buf[:0], w.id...)
				w.start = clock.Add(1)
				w.outstanding = accepted.Get() - snk.started.Get()
				nd := dropped.Len()
				n, err := aw.Write(buf)
				w.end = clock.Add(1)
				w.before = closedAt.Get() == 0
				if dropped.Len() == nd {
					accepted.Add(1)
				}
				for i := range buf { // the caller may reuse its buffer at once
					buf[i] = '#'
				}
				if n != len(w.id) || err != nil {
					return fmt.Sprintf("Write of %d bytes returned (%d, %v)", len(w.id), n, err)
				}
				return ""
			}
			buf := make([]byte, 0, 6000)
			for _, w := range nPerProducer[9] {
				if e := one(w, buf); e != "" {
					bad = e
				}
			}
			var hs []*vsched.ThreadHandle
			errs := make([]string, len(cfg.Producers))
			for p := range cfg.Producers {
				p := p
				mine := nPerProducer[p]
				hs = append(hs, vsched.GoNamed(fmt.Sprintf("producer%d", p), func() {
					buf := make([]byte, 0, 6000)
					for _, w := range mine {
						if e := one(w, buf); e != "" {
							errs[p] = e
						}
					}
				}))
			}
			if cfg.Close != "concurrent" {
				if cfg.Sink == "gate" && cfg.Blocking {
					vsched.Quiesce()
					snk.gate.Set(1)
				}
				for _, h := range hs {
					h.Join()
				}
			}
			snk.gate.Set(1)
			if cfg.Close != "none" {
				closeCalled = clock.Add(1)
				closedAt.Set(closeCalled)
				closeErr = aw.Close()
				closeReturned = true
			} else {
				vsched.Sleep(20 * time.Second)
				vsched.Quiesce()
			}
			for i, h := range hs {
				if cfg.Close != "concurrent" || h.Done() {
					h.Join()
					if errs[i] != "" {
						bad = errs[i]
					}
				}
			}
		}
		judge := func(o *vsched.Outcome) vsched.Verdict {
			obs := fmt.Sprintf("%s got=%d dropped=%d order=%s", strings.SplitN(o.End, ":", 2)[0], len(snk.got), dropped.Len(), order(snk.got))
			v := func() string {
				if o.End != "" {
					return "execution ended abnormally: " + o.End
				}
				if bad != "" {
					return bad
				}
				if !cfg.Blocking && cfg.Drop == "default" && cfg.Close != "concurrent" && cfg.Sink != "err" && cfg.Sink != "panic" && cfg.Sink != "short" && len(snk.got) < len(writes) && complaints.Get() == 0 {
					return fmt.Sprintf("%d of %d messages were dropped without any report", len(writes)-len(snk.got), len(writes))
				}
				if cfg.Blocking && (reports.Get() != snk.failed.Get() || complaints.Get() != reports.Get()) {
					return fmt.Sprintf("%d writes of the sink failed, %d failures were reported (%d reports in all)", snk.failed.Get(), reports.Get(), complaints.Get())
				}
				if snk.conc.Get() != 0 {
					return "the sink's Write was called concurrently"
				}
				if snk.late.Get() != 0 {
					return "the sink was written to after it had been closed"
				}
				idx := map[string]int{}
				for i, g := range snk.got {
					if j, dup := idx[g]; dup {
						return fmt.Sprintf("message %q delivered twice (positions %d and %d)", clip(g), j, i)
					}
					idx[g] = i
				}
				drops := map[string]bool{}
				for _, d := range dropped.Items() {
					if drops[d] {
						return fmt.Sprintf("message %q reported dropped twice", clip(d))
					}
					drops[d] = true
				}
				known := map[string]*write{}
				for _, w := range writes {
					known[w.id] = w
				}
				for _, g := range snk.got {
					if known[g] == nil {
						return fmt.Sprintf("the sink received %q, which nobody wrote", clip(g))
					}
				}
				for d := range drops {
					if known[d] == nil {
						return fmt.Sprintf("drop callback received %q, which nobody wrote", clip(d))
					}
					if _, both := idx[d]; both {
						return fmt.Sprintf("message %q was both delivered and reported as dropped", clip(d))
					}
				}
				q := int64(cfg.Queue)
				if q == 0 {
					q = 1024
				}
				for _, w := range writes {
					_, deliv := idx[w.id]
					if w.end != 0 && w.before && !deliv {
						if cfg.Blocking {
							return fmt.Sprintf("message %q, written before Close, never reached the sink (%d of %d delivered)", clip(w.id), len(snk.got), len(writes))
						}
						if cfg.Drop == "callback" && !drops[w.id] {
							return fmt.Sprintf("message %q was neither delivered nor reported as dropped", clip(w.id))
						}
						if len(cfg.Producers) <= 1 && w.outstanding < q {
							return fmt.Sprintf("message %q was dropped although at most %d of %d queue slots were in use", clip(w.id), w.outstanding, q)
						}
					}
				}
				// delivery respects the real-time order of the writes
				byEnd := []*write{}
				byStart := []*write{}
				for _, w := range writes {
					if w.end != 0 {
						byEnd = append(byEnd, w)
					}
					if w.start != 0 {
						byStart = append(byStart, w)
					}
				}
				sort.Slice(byEnd, func(i, j int) bool { return byEnd[i].end < byEnd[j].end })
				sort.Slice(byStart, func(i, j int) bool { return byStart[i].start < byStart[j].start })
				k, max, last := 0, -1, (*write)(nil)
				for _, b := range byStart {
					for k < len(byEnd) && byEnd[k].end < b.start {
						if i, ok := idx[byEnd[k].id]; ok && i > max {
							max, last = i, byEnd[k]
						}
						k++
					}
					if i, ok := idx[b.id]; ok && i < max {
						return fmt.Sprintf("message %q was written after %q had been accepted, but delivered before it", clip(b.id), clip(last.id))
					}
				}
				if cfg.Close != "none" {
					if !closeReturned {
						return "Close did not return"
					}
					switch cfg.Closer {
					case "ok":
						if closeErr != nil || snk.closed.Get() != 1 {
							return fmt.Sprintf("Close: error %v, the sink was closed %d times", closeErr, snk.closed.Get())
						}
					case "err":
						if closeErr != errClose || snk.closed.Get() != 1 {
							return fmt.Sprintf("Close returned %v instead of the sink's error (sink closed %d times)", closeErr, snk.closed.Get())
						}
					default:
						if closeErr != nil {
							return fmt.Sprintf("Close returned %v", closeErr)
						}
					}
				} else if snk.closed.Get() != 0 {
					return "the sink was closed although Close was never called"
				}
				return ""
			}()
			return vsched.Verdict{Obs: obs, Violation: v}
		}
		return body, judge
	}
}

func clip(s string) string {
	s = string(bytes.TrimRight([]byte(s), "\n"))
	if len(s) > 60 {
		return s[:60] + fmt.Sprintf("...(%d bytes)", len(s))
	}
	return s
}

func order(got []string) string {
	var sb strings.Builder
	for i, g := range got {
		if i > 12 {
			break
		}
		if j := strings.IndexAny(g, ".xy\n"); j > 0 {
			g = g[:j]
		}
		sb.WriteString(strings.TrimSpace(g) + " ")
	}
	return sb.String()
}
