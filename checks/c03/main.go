// C03: the blocking asynchronous writer loses, duplicates, reorders and
// corrupts nothing, and Close drains it.
package main

import (
	"verif/harn"
	"verif/hlib/asyncx"
	"verif/vsched"
)

func configs(tier string, race bool) (r []asyncx.Config) {
	th := tier == "thorough"
	prods := [][]int{{1}, {2}, {3}, {1, 1}, {2, 1}}
	if th {
		prods = append(prods, []int{2, 2}, []int{1, 1, 1}, []int{4}, []int{3, 2})
	}
	for _, p := range prods {
		for _, q := range []int{1, 2, 3} {
			for _, s := range []string{"fast", "slow", "err", "panic", "short", "gate"} {
				for _, cl := range []string{"none", "ok", "err"} {
					if cl != "none" && s != "fast" && !th && !(s == "slow" && q == 2) {
						continue
					}
					for _, mode := range []string{"after", "concurrent", "none"} {
						if mode == "concurrent" && s == "gate" {
							continue
						}
						if race && (s == "short" || cl == "err") {
							continue
						}
						sizes := "small"
						if len(p) == 1 {
							sizes = "mixed"
						}
						r = append(r, asyncx.Config{Blocking: true, Queue: q, Producers: p, Sink: s, Closer: cl, Sizes: sizes, Close: mode})
					}
				}
			}
		}
	}
	return
}

func run(tier string, race bool, preOne, preMany int) func(c *harn.Ctx) {
	return func(c *harn.Ctx) {
		for i, cfg := range configs(tier, race) {
			if !c.Mine(i) {
				continue
			}
			b := preOne
			if len(cfg.Producers) > 1 {
				b = preMany
			}
			c.ExploreWhole(cfg.Name(), "", harn.Bounds(b, 0, 0, 0), vsched.Options{MaxSteps: 4000}, asyncx.Make(cfg))
		}
	}
}

// backlog: long queues, slow sinks within the grace period, default queue length
func backlog(c *harn.Ctx) {
	i := 0
	for _, n := range []int{4, 7, 9} {
		for _, q := range []int{2, 8, 16} {
			for _, cl := range []string{"none", "ok", "err"} {
				i++
				if c.Mine(i) {
					cfg := asyncx.Config{Blocking: true, Queue: q, Producers: []int{n}, Sink: "slow", Closer: cl, Sizes: "small", Close: "after"}
					c.ExploreWhole(cfg.Name(), "", harn.Bounds(1, 0, 0, 0), vsched.Options{MaxSteps: 4000}, asyncx.Make(cfg))
				}
			}
		}
	}
	for _, n := range []int{1024, 1023} {
		i++
		if c.Mine(i) {
			cfg := asyncx.Config{Blocking: true, Queue: 0, Pre: n, Sink: "gate", Closer: "ok", Sizes: "mixed", Close: "after"}
			c.ExploreWhole(cfg.Name(), "", harn.Bounds(0, 0, 0, 0), vsched.Options{MaxSteps: 40000}, asyncx.Make(cfg))
		}
	}
}

func main() {
	harn.Main(harn.Check{
		ID: "C03", Level: "model_checking", StateMeaning: "distinct (configuration, delivery order) pairs",
		Bounds: func(tier string) string {
			if tier == "thorough" {
				return "1..3 producers, 1..4 messages each, queue 1..3, 6 sinks, 3 closers, Close after/during/never; preemptions <=3 (one producer), <=2 (more); backlogs up to 9 slow writes and 1024 queued messages"
			}
			return "1..2 producers, 1..3 messages each, queue 1..3, 6 sinks (fast, slow, failing, panicking, short, blocked), messages of 0..70000 bytes, 3 closers, Close after/during/never; preemptions <=2 (one producer), <=1 (two); all select choices; backlogs up to 9 slow writes and 1024 queued messages; race detector on the schedules with <=1 preemption"
		},
		Assumptions: []string{"the sink absorbs the backlog within the one-second grace period of Close", "messages written after or during Close may be lost"},
		Jobs: func(tier string) []harn.Job {
			if tier == "thorough" {
				return []harn.Job{
					{Name: "main", Shards: 24, Run: run(tier, false, 3, 2)},
					{Name: "backlog", Shards: 4, Run: backlog},
					{Name: "race", Race: true, Shards: 16, Run: run(tier, true, 2, 1)},
				}
			}
			return []harn.Job{
				{Name: "main", Shards: 12, Run: run(tier, false, 2, 1)},
				{Name: "backlog", Shards: 4, Run: backlog},
				{Name: "race", Race: true, Shards: 4, Run: run(tier, true, 1, 0)},
			}
		},
	})
}
