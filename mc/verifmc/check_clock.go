//go:build go1.23

package main

import (
	"fmt"
	"strings"

	"github.com/IfanTsai/metis/config"
	rt "github.com/IfanTsai/metis/verifvrt"
)

// --- C42: setting the system clock does not stop the server's work ---

type clockEnv struct {
	*seqEnv
	what string
}

// pass lets time pass as the server's own poll timeouts make it pass, but at least what is given.
func (x *clockEnv) pass(ms int64, ok func() bool) bool {
	s := x.s
	end := s.w.NowNS + ms*1e6
	for n := 0; s.w.NowNS <= end; n++ {
		s.settle()
		if ok != nil && ok() {
			return true
		}
		was := s.w.NowNS
		s.w.Net.Advance = -1 // the timeout the server asks for
		s.step(s.t0)
		s.alive("cron")
		if s.w.NowNS == was {
			s.w.NowNS += 1e6
		}
		if n > 20000 {
			x.c.Fail("%s: the server polls all the time", x.what)
		}
	}
	s.settle()
	return ok == nil || ok()
}

// set sets the system clock.
func (x *clockEnv) set(ms int64) {
	now := x.s.w.NowMS()
	for i := range x.m.dbs {
		for k, v := range x.m.dbs[i] {
			if v.dead(now) { // removed or not: it must not come back to life
				x.do(op{args: []string{"select", itoa(i)}})
				x.do(op{args: []string{"get", k}})
			}
		}
	}
	x.what = fmt.Sprintf("the system clock is set by %d ms", ms)
	x.c.Logf("%s", x.what)
	x.s.w.WallOff += ms * 1e6
}

func clockRun(depth int, few bool) func(c *Ctx) {
	steps := []int64{-1, -99, -1000, -3600_000, -400 * 86400_000, 1, 1000, 3600_000, 400 * 86400_000}
	ops := opsOf("set w #\nsetex x 1 v\nsetex y 4000 v\nrpush l #\nexpire l 3\nttl y\nget x\n@tick100\n@tick30\nkeys *")
	if few {
		steps = []int64{-3600_000, -700, 3600_000}
		ops = opsOf("set w #\nsetex x 1 v\nget x\n@tick100")
	}
	return func(c *Ctx) {
		pol := []config.TypeAppnedFsync{config.TypeAppendFsyncEverySecond, config.TypeAppendFsyncAlways}[c.Choose(2, "fsync policy")]
		deed := c.Choose(5, "work")
		cfg := aofConfig(pol)
		e := &seqEnv{c: c, m: newModel(cfg)}
		e.s = bootRec(c, nil, cfg, 0)
		e.k = append(e.k, e.s.dial())
		x := &clockEnv{seqEnv: e}
		defer func() { x.s.end() }()
		x.do(o("set a 1"))
		at := c.Choose(2, "the work is due before the clock is set") == 1
		due := func() {
			switch deed {
			case 0:
				x.do(o("set w last"))
			case 1:
				x.do(o("setex gone 2 v"))
			case 2:
				x.do(o("bgrewriteaof"))
			}
		}
		old := x.s.w.FS.Files[aofPath].ID
		for i := 0; i < depth; i++ {
			if k := c.Choose(len(steps)+len(ops), "event"); k < len(steps) {
				if i == depth-1 && at {
					due()
				}
				x.set(steps[k])
			} else {
				if i == depth-1 && at {
					return // the clock is not set after it
				}
				x.do(ops[k-len(steps)])
			}
		}
		if !at {
			due()
		}
		switch deed {
		case 0: // a write is made durable
			wrote := -1
			for i, e := range x.s.w.Log {
				if e.Kind == rt.EWrite {
					wrote = i
				}
			}
			if !x.pass(1500, func() bool {
				for _, e := range x.s.w.Log[wrote:] {
					if e.Kind == rt.ESync {
						return true
					}
				}
				return false
			}) {
				c.Fail("%s: a write is not made durable within 1.5 seconds", x.what)
			}
		case 1: // an expired key is removed
			var exp int64
			if v := x.m.dbs[0]["gone"]; v != nil {
				exp = v.exp
			}
			if wait := exp - x.s.w.NowMS(); exp != 0 && wait < 10_000 {
				if !x.pass(max(wait, 0)+600, func() bool {
					cmds, _ := parseLog(x.s.aofBytes())
					for _, a := range cmds {
						if strings.EqualFold(a[0], "del") && a[1] == "gone" {
							return true
						}
					}
					return false
				}) {
					c.Fail("%s: a key is not removed within 600 ms of its expiry", x.what)
				}
			}
		case 2: // a rewrite is completed
			if !x.pass(600, func() bool {
				i := x.s.w.FS.Files[aofPath]
				return i != nil && i.ID != old
			}) {
				c.Fail("%s: a rewrite is not completed within 600 ms", x.what)
			}
		case 3: // nothing, for a while
			x.pass(700, nil)
		case 4: // a restart
			x.pass(150, nil)
			x.restart()
			x.s.compare(x.m, 1000, "after a restart") // the log has seconds
			x.do(o("get a"))
			c.Sample(x.what)
			return
		}
		x.do(o("get a"))
		x.do(o("ttl y"))
		x.do(o("set after #"))
		x.s.compare(x.m, 0, "afterwards")
		c.State(x.m.canon(x.s.w.NowMS()))
		c.Sample(x.what)
	}
}

func init() {
	register(&Check{ID: "C42", Explanation: "The system clock of the simulated world is set forwards and backwards by amounts from 1 ms to 400 days, at every position of all sequences of writes, expiring keys and waiting up to a length, while time itself (the monotonic clock) goes on as the server's own poll timeouts make it. Whatever is due then (making a write durable, removing an expired key, completing a rewrite) must happen within its usual time, and commands are answered according to the clock as set.",
		Phases: []Phase{
			{Name: "one event", Shard: 2, Run: clockRun(1, false)},
			{Name: "two events", Shard: 3, Weight: 5, Run: clockRun(2, false)},
			{Name: "three events", Shard: 3, Weight: 6, Run: clockRun(3, true)},
			{Name: "three events of more kinds", Tier: "thorough", Shard: 3, Weight: 6, Run: clockRun(3, false)},
			{Name: "four events", Tier: "thorough", Shard: 4, Weight: 8, Run: clockRun(4, true)},
		}})
}
