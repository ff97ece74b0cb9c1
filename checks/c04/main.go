// C04: the non-blocking asynchronous writer never blocks its caller, and every
// message is either delivered once or reported as dropped once.
package main

import (
	"verif/harn"
	"verif/hlib/asyncx"
	"verif/vsched"
)

func configs(tier string, race bool) (r []asyncx.Config) {
	th := tier == "thorough"
	prods := [][]int{{1}, {2}, {3}, {4}, {1, 1}, {2, 1}, {2, 2}}
	if th {
		prods = append(prods, []int{1, 1, 1}, []int{3, 2}, []int{5})
	}
	for _, p := range prods {
		for _, q := range []int{1, 2, 3} {
			for _, s := range []string{"fast", "slow", "err", "panic", "gate"} {
				for _, d := range []string{"callback", "default"} {
					for _, mode := range []string{"after", "concurrent", "none"} {
						if mode == "concurrent" && s == "gate" {
							continue
						}
						cl := "none"
						if mode == "after" {
							cl = "ok"
						}
						sizes := "small"
						if len(p) == 1 {
							sizes = "mixed"
						}
						r = append(r, asyncx.Config{Queue: q, Producers: p, Sink: s, Closer: cl, Drop: d, Sizes: sizes, Close: mode})
					}
				}
			}
		}
	}
	return
}

func run(tier string, race bool, preOne, preMany int) func(c *harn.Ctx) {
	return func(c *harn.Ctx) {
		for i, cfg := range configs(tier, race) {
			if !c.Mine(i) {
				continue
			}
			b := preOne
			if len(cfg.Producers) > 1 {
				b = preMany
			}
			c.ExploreWhole(cfg.Name(), "", harn.Bounds(b, 0, 0, 0), vsched.Options{MaxSteps: 4000}, asyncx.Make(cfg))
		}
	}
}

func big(c *harn.Ctx) {
	i := 0
	for _, n := range []int{1024, 1030} {
		for _, d := range []string{"callback", "default"} {
			i++
			if c.Mine(i) {
				cfg := asyncx.Config{Queue: 0, Pre: n, Producers: []int{3}, Sink: "gate", Closer: "ok", Drop: d, Sizes: "mixed", Close: "after"}
				c.ExploreWhole(cfg.Name(), "", harn.Bounds(0, 0, 0, 0), vsched.Options{MaxSteps: 40000}, asyncx.Make(cfg))
			}
		}
	}
	for _, n := range []int{1002, 2005} {
		i++
		if c.Mine(i) {
			cfg := asyncx.Config{Queue: 1, Pre: n, Producers: []int{1}, Sink: "gate", Closer: "ok", Drop: "default", Sizes: "small", Close: "after"}
			c.ExploreWhole(cfg.Name(), "", harn.Bounds(0, 0, 0, 0), vsched.Options{MaxSteps: 40000}, asyncx.Make(cfg))
		}
	}
}

func main() {
	harn.Main(harn.Check{
		ID: "C04", Level: "model_checking", StateMeaning: "distinct (configuration, deliveries and drops) pairs",
		Bounds: func(tier string) string {
			if tier == "thorough" {
				return "1..3 producers, 1..5 messages each, queue 1..3, 5 sinks, callback/default drop handler, Close after/during/never; preemptions <=3 (one producer), <=2 (more); default queue of 1024 filled by 1030 messages"
			}
			return "1..2 producers, 1..4 messages each, queue 1..3, 5 sinks (fast, slow, failing, panicking, blocked), messages of 0..70000 bytes, callback/default drop handler, Close after/during/never; preemptions <=2 (one producer), <=1 (two); default queue of 1024 filled by 1030 messages; race detector on the schedules with <=1 preemption"
		},
		Assumptions: []string{"the drop callback does not panic", "messages written after or during Close may be lost"},
		Jobs: func(tier string) []harn.Job {
			if tier == "thorough" {
				return []harn.Job{
					{Name: "main", Shards: 24, Run: run(tier, false, 3, 2)},
					{Name: "big", Shards: 2, Run: big},
					{Name: "race", Race: true, Shards: 16, Run: run(tier, true, 2, 1)},
				}
			}
			return []harn.Job{
				{Name: "main", Shards: 12, Run: run(tier, false, 2, 1)},
				{Name: "big", Shards: 2, Run: big},
				{Name: "race", Race: true, Shards: 4, Run: run(tier, true, 1, 0)},
			}
		},
	})
}
