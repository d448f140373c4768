//go:build go1.23

package main

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/IfanTsai/metis/config"
)

// op is one step of an operation sequence.
type op struct {
	cli  int      // connection
	args []string // "#" in an argument becomes a value unique to the step
	late int64    // ms that pass after the poll and before the command is read (no cron in between)
	tick int64    // ms that pass in a poll, with the cron running; no command
	n    int      // repetitions in one command: the last argument is repeated with distinct values
}

func o(args string) op              { return op{args: strings.Fields(args)} }
func late(ms int64, args string) op { return op{late: ms, args: strings.Fields(args)} }
func tick(ms int64) op              { return op{tick: ms} }
func on(cli int, args string) op    { return op{cli: cli, args: strings.Fields(args)} }
func oa(args ...string) op          { return op{args: args} }

func (p op) String() string {
	if p.tick > 0 {
		return fmt.Sprintf("tick %dms", p.tick)
	}
	s := showArgs(p.args)
	if p.late > 0 {
		s = fmt.Sprintf("(+%dms) %s", p.late, s)
	}
	if p.cli > 0 {
		s = fmt.Sprintf("c%d: %s", p.cli, s)
	}
	return s
}

func opsOf(lines string) []op {
	var r []op
	for _, l := range strings.Split(lines, "\n") {
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		p := op{}
		f := strings.Fields(l)
		for len(f) > 0 {
			switch {
			case strings.HasPrefix(f[0], "@c"):
				p.cli, _ = strconv.Atoi(f[0][2:])
			case strings.HasPrefix(f[0], "@late"):
				p.late, _ = strconv.ParseInt(f[0][5:], 10, 64)
			case strings.HasPrefix(f[0], "@tick"):
				p.tick, _ = strconv.ParseInt(f[0][5:], 10, 64)
			default:
				goto done
			}
			f = f[1:]
		}
	done:
		for i := range f {
			if f[i] == `""` {
				f[i] = ""
			}
		}
		p.args = f
		if len(f) > 0 && f[0] == "tick" || len(f) == 0 && p.tick == 0 || len(f) > 0 && p.tick > 0 {
			panic("opsOf: malformed: " + l)
		}
		r = append(r, p)
	}
	return r
}

// seqEnv runs operation sequences in lock step against the model.
type seqEnv struct {
	c   *Ctx
	s   *Srv
	m   *Model
	k   []*Cli
	uid int
}

func newSeq(c *Ctx, cfg config.Config, clients int) *seqEnv {
	e := &seqEnv{c: c, m: newModel(cfg)}
	e.s = boot(c, nil, cfg, 0)
	for i := 0; i < clients; i++ {
		e.k = append(e.k, e.s.dial())
	}
	return e
}

func (e *seqEnv) subst(args []string) []string {
	out := make([]string, len(args))
	for i, a := range args {
		if strings.Contains(a, "#") {
			e.uid++
			a = strings.ReplaceAll(a, "#", strconv.Itoa(e.uid))
		}
		if strings.HasPrefix(a, "NOW+") || strings.HasPrefix(a, "NOW-") {
			d, _ := strconv.ParseInt(a[3:], 10, 64)
			a = strconv.FormatInt(e.s.w.NowMS()/1000+d, 10)
		}
		out[i] = a
	}
	return out
}

func (e *seqEnv) do(p op) Reply {
	if p.tick > 0 {
		e.c.Logf("%d ms pass", p.tick)
		e.s.tick(p.tick)
		return Reply{}
	}
	k := e.k[p.cli]
	if p.late > 0 {
		e.c.Logf("%d ms pass before the next command", p.late)
		done := false
		k.conn.OnRead = func() {
			if !done {
				done = true
				e.s.w.NowNS += p.late * 1e6
			}
		}
	}
	return k.do(e.m, e.subst(p.args)...)
}

func (e *seqEnv) run(ops []op) {
	for _, p := range ops {
		e.do(p)
	}
}

func (e *seqEnv) restart() {
	e.c.Logf("the process is killed and restarted on %q", cutN(string(e.s.aofBytes()), 1000))
	e.s = e.s.restart()
	for i := range e.k {
		e.k[i] = e.s.dial()
	}
}

type seqPhase struct {
	cfg     func() config.Config
	clients int
	setups  [][]op // one is chosen
	ops     []op
	depth   int
	after   func(e *seqEnv) // after the sequence
	slack   int64
	noDump  bool
	each    func(e *seqEnv)
}

func choosePick(c *Ctx, ops []op, depth int) []op {
	r := make([]op, depth)
	for i := range r {
		r[i] = ops[c.Choose(len(ops), "op")]
	}
	return r
}

func (p *seqPhase) run(c *Ctx) {
	var setup []op
	if len(p.setups) > 0 {
		setup = p.setups[c.Choose(len(p.setups), "setup")]
	}
	ops := choosePick(c, p.ops, p.depth)
	cfg := baseConfig()
	if p.cfg != nil {
		cfg = p.cfg()
	}
	n := p.clients
	if n == 0 {
		n = 1
	}
	e := newSeq(c, cfg, n)
	defer e.s.end()
	e.run(setup)
	for _, q := range ops {
		e.do(q)
		if p.each != nil {
			p.each(e)
		}
	}
	if p.after != nil {
		p.after(e)
	}
	if !p.noDump {
		e.s.compare(e.m, p.slack, "after the sequence")
	}
	if c.eng != nil && len(c.eng.samples) < 3 {
		c.Sample(fmt.Sprint(setup, ops))
	}
}

func (p seqPhase) phase(name, tier string, weight float64) Phase {
	sh := 2
	if len(p.setups) > 1 {
		sh = 3
	}
	if p.depth < 2 {
		sh = 1
		if len(p.setups) > 1 {
			sh = 2
		}
	}
	return Phase{Name: name, Tier: tier, Weight: weight, Shard: sh, Run: func(c *Ctx) { q := p; q.run(c) }}
}
