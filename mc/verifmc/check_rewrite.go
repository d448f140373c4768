//go:build go1.23

package main

import (
	"fmt"
	"strings"
	"syscall"

	"github.com/IfanTsai/metis/config"
	rt "github.com/IfanTsai/metis/verifvrt"
)

// --- AOF rewrites overlapping with commands ---

// rwRun interleaves the background rewrite with the event loop.
type rwRun struct {
	c      *Ctx
	s      *Srv
	n      int         // commands to send
	send   func(i int) // puts command i on its connection
	done   func(i int) // takes its reply once the server is idle again
	sent   int
	taken  int
	ticks  int // extra periodic runs that may come anywhere
	leap   int // milliseconds that may pass at once during the rewrite
	seen   int
	begun  int
	placed int
}

// look counts the rewrites that have begun and those that have replaced the file.
func (r *rwRun) look() {
	log := r.s.w.Log
	path := rt.Abs(r.s.cfg.AofFilename)
	for ; r.seen < len(log); r.seen++ {
		switch e := log[r.seen]; {
		case e.Kind == rt.ECreate && e.Path != path:
			r.begun++
		case e.Kind == rt.ERename && e.Path2 == path:
			r.placed++
		}
	}
}

func (r *rwRun) bg() *rt.Thread { return r.s.bgEnabled() }

func (r *rwRun) stepBG() {
	r.s.step(r.bg())
	r.s.alive("rewrite")
}

// others lists the background threads that can go on.
func (r *rwRun) others() []*rt.Thread {
	var o []*rt.Thread
	for _, t := range r.s.w.Threads {
		if t != r.s.t0 && t.Enabled() {
			o = append(o, t)
		}
	}
	return o
}

// run schedules everything until the commands are answered and no rewrite is in progress.
// Preemptions of the event loop inside a command are deviations.
func (r *rwRun) run() {
	s, c := r.s, r.c
	idleTicks := 0
	for n := 0; ; n++ {
		if n > 30000 {
			c.Fail("the rewrite does not end")
		}
		r.look()
		s.w.Net.Advance = 0
		busy := !s.t0.AtEpoll() || s.w.AnyReady(s.t0)
		if busy {
			if r.bg() != nil {
				if !s.t0.Enabled() {
					r.stepBG()
					continue
				}
				switch c.Dev(3, "preempt the event loop") {
				case 1:
					r.stepBG()
					continue
				case 2: // to its end
					for r.bg() != nil {
						r.stepBG()
					}
					continue
				}
			} else if !s.t0.Enabled() {
				c.Fail("the server is stuck at %s", s.t0.Pt.Label)
			}
			s.step(s.t0)
			s.alive("serving")
			continue
		}
		for r.taken < r.sent {
			r.done(r.taken)
			r.taken++
		}
		// the event loop is idle: what happens next?
		var opts []byte
		others := r.others()
		for range others {
			opts = append(opts, 'b')
		}
		if r.sent < r.n {
			opts = append(opts, 'c')
		}
		if r.sent < r.n && (r.ticks > 0 || r.bg() == nil && r.begun > r.placed) || r.ticks > 0 && r.bg() != nil {
			opts = append(opts, 't')
		}
		if r.leap > 0 && r.bg() != nil {
			opts = append(opts, 'T')
		}
		if len(opts) == 0 {
			if idleTicks >= 3 && r.begun == r.placed {
				return
			}
			if idleTicks > 20 {
				c.Fail("a rewrite began and is never completed")
			}
			idleTicks++
			s.w.Net.Advance = 1
			s.step(s.t0)
			s.alive("cron")
			continue
		}
		i := c.Choose(len(opts), "next "+string(opts))
		switch opts[i] {
		case 'b':
			s.step(others[i])
			s.alive("background task")
		case 'c':
			r.send(r.sent)
			r.sent++
		case 't':
			if r.bg() != nil || r.begun == r.placed {
				r.ticks--
			}
			s.w.Net.Advance = 1
			s.step(s.t0)
			s.alive("cron")
		case 'T':
			s.w.Net.Advance = int64(r.leap)
			r.leap = 0
			s.step(s.t0)
			s.alive("cron")
		}
	}
}

var rwSetups = [][]string{
	{"rpush l a b c", "sadd s p q r", "hset h f 1 g 2", "zadd z 1 m 2 n", "set a old", "select 1", "rpush l x", "set c one", "select 0"},
	{"select 1", "rpush l one", "set a one", "select 0", "rpush l a", "setex a 70 old", "expire l 80", "sadd s p", "zadd z 1 m", "hset h f 1"},
	{"select 1", "rpush l a b", "set a old", "select 0"},
	{},
}

var rwCmds = []string{
	"rpush l #", "lpop l", "spop s", "set a #", "zremrangebyrank z 0 0", "select 1", "expire a 100", "setex b 50 #",
	"zadd z 0 #", "hset h f #", "del a", "bgrewriteaof",
}

// bigSetup fills one collection with n elements.
func bigSetup(kind string, n int) []string {
	var b strings.Builder
	switch kind {
	case "list":
		b.WriteString("rpush l")
	case "set":
		b.WriteString("sadd s")
	case "hash":
		b.WriteString("hset h")
	case "zset":
		b.WriteString("zadd z")
	}
	for i := 0; i < n; i++ {
		switch kind {
		case "hash":
			fmt.Fprintf(&b, " f%d v%d", i, i)
		case "zset":
			fmt.Fprintf(&b, " %d m%d", i%5, i)
		default:
			fmt.Fprintf(&b, " e%d", i)
		}
	}
	return []string{b.String()}
}

var bigCmds = map[string][]string{
	"list": {"rpush l #", "lpush l #", "lpop l", "rpop l", "set l #"},
	"set":  {"sadd s #", "spop s", "srem s e0", "srem s e64", "del s"},
	"hash": {"hset h # 1", "hset h f0 #", "hdel h f1", "hdel h f64", "expire h 50"},
	"zset": {"zadd z -1 #", "zadd z 9 m0", "zrem z m1", "zremrangebyrank z 0 0", "zremrangebyrank z -1 -1", "zremrangebyscore z 2 3"},
}

type rwEnv struct {
	e    *seqEnv
	cmds [][]string
	cli  []int
	ps   []*pipe
	ok   bool
	mem  int // granularity of the scheduler
	leap int
}

func newRewrite(c *Ctx, cfg config.Config, setup []string, clients int) *rwEnv {
	x := &rwEnv{}
	e := &seqEnv{c: c, m: newModel(cfg)}
	e.s = bootRec(c, nil, cfg, 0)
	x.e = e
	for i := 0; i < clients; i++ {
		x.ps = append(x.ps, e.s.pipe(e.m))
	}
	for _, a := range substAll(setup) {
		x.ps[0].send(x.ps[0].queue(a))
		e.s.settle()
		x.ps[0].check(true)
	}
	if clients > 1 {
		x.ps[1].send(x.ps[1].queue(f("select 1")))
		e.s.settle()
		x.ps[1].check(true)
	}
	return x
}

// play runs the commands against the rewrite.
func (x *rwEnv) play(ticks int) {
	e := x.e
	e.s.w.Mem = x.mem
	e.s.noBG = true
	e.s.w.Fine = true
	r := &rwRun{c: e.c, s: e.s, n: len(x.cmds), ticks: ticks, leap: x.leap, seen: len(e.s.w.Log)}
	at := func(i int) *pipe {
		if i < len(x.cli) {
			return x.ps[x.cli[i]]
		}
		return x.ps[0]
	}
	r.send = func(i int) { at(i).send(at(i).queue(x.cmds[i])) }
	r.done = func(i int) { at(i).check(true) }
	r.run()
	e.s.w.Fine = false
	e.s.noBG = false
	if r.placed == 0 {
		for _, a := range x.cmds {
			if a[0] == "bgrewriteaof" {
				e.c.Fail("BGREWRITEAOF leads to no rewrite")
			}
		}
	}
}

// verify restarts on the append-only file alone.
func (x *rwEnv) verify(what string) {
	e := x.e
	e.s.compare(e.m, 0, "the live keyspace")
	k := fsKey(e.s.w.FS, e.m.canon(e.s.w.NowMS()))
	if verified[k] && !e.c.tracing {
		return // the same file was checked against the same keyspace
	}
	defer func() {
		if x.ok {
			verified[k] = true
		}
	}()
	for i := 0; i < 2; i++ {
		fs := rt.NewFS()
		fs.Files[aofPath] = &rt.Inode{ID: 1, Data: append([]byte(nil), e.s.aofBytes()...)}
		e.c.Logf("the file: %q", cutN(string(e.s.aofBytes()), 1500))
		e.s.w.Kill()
		e.s.w.FS = fs
		e.s = e.s.restart()
		e.s.compare(e.m, 1000, what)
		if i == 0 {
			p := e.s.pipe(e.m)
			p.send(p.queue(f("rpush l again"), f("select 1"), f("rpush l again1")))
			e.s.settle()
			p.check(false)
			p.check(true)
			what += ", more commands and another restart"
		}
	}
	x.ok = true
}

var verified = map[[2]uint64]bool{}

// volume: a great many bytes are written during the rewrite.
func volume(c *Ctx) {
	n0 := []int{30000, 66000, 600000, 1<<20 + 1, 4<<20 + 1}[c.Choose(5, "bytes of a value")]
	n := n0
	many := 1 + c.Choose(4, "values")
	if n < 100000 && many > 2 {
		many *= 12
	}
	if n > 1<<20 && many > 2 {
		return
	}
	other := c.Choose(2, "another database meanwhile") == 1
	x := newRewrite(c, never(), []string{"set a old", "select 1", "set b old", "select 0"}, 1)
	defer func() { x.e.s.end() }()
	e := x.e
	e.s.noBG = true
	p := x.ps[0]
	do := func(a ...string) {
		p.send(p.queue(a))
		e.s.settle()
		p.check(true)
	}
	do("bgrewriteaof")
	do("rpush", "l", "first")
	for i := 0; i < many; i++ {
		if other {
			do("select", itoa(i%2))
		}
		do("set", "v"+itoa(i), fill(n-i))
		do("rpush", "l", itoa(i))
	}
	do("del", "a")
	if c.Choose(2, "the process is killed before the rewrite ends") == 1 {
		n := e.s.restart()
		defer n.end()
		n.compare(e.m, 1000, fmt.Sprintf("after a crash during a rewrite with %d values of %d bytes", many, n0))
		return
	}
	e.s.noBG = false
	e.s.settle()
	e.s.tick(2)
	e.s.tick(2)
	do("rpush", "l", "last")
	c.Sample(fmt.Sprintf("%d values of %d bytes during the rewrite, another database: %v", many, n, other))
	x.verify("after a restart on the rewritten file")
}

// leapMix: keys reach their time to expire during the rewrite, and commands prolong or replace them.
func leapMix(depth int) func(c *Ctx) {
	setups := [][]string{
		{"setex a 1 old", "rpush l x y", "expire l 1"},
		{"select 1", "setex a 1 old", "rpush l x", "expire l 1", "sadd s p", "select 0", "set a other"},
	}
	cmds := []string{"expire a 100", "expire l 100", "setex a 50 #", "set a #", "rpush l #", "lpop l", "del a", "get a"}
	return func(c *Ctx) {
		setup := setups[c.Choose(len(setups), "setup")]
		picked := pickCmds(c, cmds, depth)
		if len(setup) > 4 {
			picked = append([]string{"select 1"}, picked...)
		}
		x := newRewrite(c, never(), setup, 1)
		defer func() { x.e.s.end() }()
		x.leap = 1500
		x.cmds = substAll(append([]string{"bgrewriteaof"}, picked...))
		x.play(0)
		c.Sample(fmt.Sprint(setup, picked))
		x.verify("after a restart on the rewritten file")
	}
}

// rewriteMix runs commands around and during a rewrite.
func rewriteMix(setups [][]string, cmds []string, depth, ticks int, second []string) func(c *Ctx) {
	return func(c *Ctx) {
		setup := setups[c.Choose(len(setups), "setup")]
		picked := pickCmds(c, cmds, depth)
		x := newRewrite(c, never(), setup, 1)
		defer func() { x.e.s.end() }()
		all := append([]string{"bgrewriteaof"}, picked...)
		x.cmds = substAll(append(all, second...))
		x.play(ticks)
		c.Sample(fmt.Sprint(setup, all))
		x.verify("after a restart on the rewritten file")
	}
}

func init() {
	sizes := []int{1, 2, 63, 64, 65, 127, 128, 129, 130, 192, 193}

	bigKinds := []string{"list", "set", "hash", "zset"}
	big := func(depth int, sizes []int) func(c *Ctx) {
		return func(c *Ctx) {
			kind := bigKinds[c.Choose(len(bigKinds), "type")]
			n := sizes[c.Choose(len(sizes), "elements")]
			picked := pickCmds(c, bigCmds[kind], depth)
			x := newRewrite(c, never(), bigSetup(kind, n), 1)
			defer func() { x.e.s.end() }()
			x.cmds = substAll(append([]string{"bgrewriteaof"}, picked...))
			x.play(0)
			x.verify("after a restart on the rewritten file")
		}
	}
	huge := func(sizes ...int) func(c *Ctx) {
		return func(c *Ctx) {
			kind := bigKinds[c.Choose(len(bigKinds), "type")]
			n := sizes[c.Choose(len(sizes), "elements")]
			x := newRewrite(c, never(), bigSetup(kind, n), 1)
			defer func() { x.e.s.end() }()
			p := x.ps[0]
			p.send(p.queue(f("bgrewriteaof")))
			x.e.s.settle()
			p.check(true)
			x.e.s.tick(2)
			x.e.s.tick(2)
			c.Sample(fmt.Sprintf("a %s of %d elements", kind, n))
			x.verify("after a restart on the rewritten file")
		}
	}
	twoDBs := func(depth int) func(c *Ctx) {
		cmds := []string{"rpush l #", "set a #", "select 0", "select 1", "lpop l"}
		return func(c *Ctx) {
			picked := pickCmds(c, cmds, depth)
			x := newRewrite(c, never(), rwSetups[0], 2)
			defer func() { x.e.s.end() }()
			x.cli = []int{c.Choose(2, "client of the rewrite")}
			for range picked {
				x.cli = append(x.cli, c.Choose(2, "client"))
			}
			x.cmds = substAll(append([]string{"bgrewriteaof"}, picked...))
			x.play(0)
			x.verify("after a restart on the rewritten file")
		}
	}
	// lists of several pages, of which the copy must share none
	pages := func(depth int) func(c *Ctx) {
		return func(c *Ctx) {
			n := []int{1024, 1025, 1026, 2049}[c.Choose(4, "elements")]
			front := []string{"", "lpush l #", "lpush l # # #", "drained"}[c.Choose(4, "elements in front")]
			setup := bigSetup("list", n)
			var two []string
			if front == "drained" { // one element is left in the first page, and the next command moves into the second one
				if n != 1024 {
					return
				}
				setup = append(setup, "lpush l #")
				for i := 0; i < 512; i++ {
					setup = append(setup, "lpop l")
				}
				two = []string{"lpop l", "lpop l"}
			} else if front != "" {
				setup = append(setup, front)
			}
			picked := pickCmds(c, []string{"lpop l", "rpop l", "lpush l #", "rpush l #"}, depth)
			x := newRewrite(c, never(), setup, 1)
			defer func() { x.e.s.end() }()
			x.cmds = substAll(append(append([]string{"bgrewriteaof"}, two...), picked...))
			x.play(0)
			x.verify("after a restart on the rewritten file")
		}
	}
	// the rewrite may be stopped at every function and loop body
	shared := func(depth, mem int) func(c *Ctx) {
		return func(c *Ctx) {
			kind := append(bigKinds[:4:4], "keys")[c.Choose(5, "type")]
			n := []int{3, 8}[c.Choose(2, "elements")]
			var cmds []string
			if depth == 1 { // one command that makes the table or list grow or shrink, or many small ones
				switch kind {
				case "list":
					cmds = []string{"rpush l # # # # # # # # # #", "lpush l # #", "lpop l", "del l"}
				case "set":
					cmds = []string{"sadd s # # # # # # # # # # # #", "srem s e0 e1 e2", "spop s"}
				case "hash":
					cmds = []string{"hset h # 1 # 2 # 3 # 4 # 5 # 6 # 7 # 8 # 9", "hdel h f0 f1", "hset h f0 #"}
				case "zset":
					cmds = []string{"zadd z 1 # 2 # 3 # 4 # -5 # 6 # 7 # 8 # 9 #", "zrem z m0 m1", "zadd z 7 m0"}
				}
				cmds = append(cmds, "set x #")
			} else {
				cmds = bigCmds[kind]
			}
			if kind == "keys" {
				cmds = []string{"expire k0 900", "setex new 90 #", "set k1 #", "del k0 k1", "ttl k2"}
			}
			picked := pickCmds(c, cmds, depth)
			setup := append(bigSetup(kind, n), "set a 1", "setex b 50 2", "set c 3")
			if kind == "keys" { // the tables of keys and expiries are in the middle of growing
				setup = nil
				for i := 0; i < n+1; i++ {
					setup = append(setup, fmt.Sprintf("setex k%d %d %d", i, 50+i, i))
				}
			}
			x := newRewrite(c, never(), setup, 1)
			defer func() { x.e.s.end() }()
			x.mem = mem
			x.cmds = substAll(append([]string{"bgrewriteaof"}, picked...))
			x.play(0)
			x.verify("after a restart on the rewritten file")
		}
	}
	var realRwSetups [][]op
	for _, s := range rwSetups {
		realRwSetups = append(realRwSetups, opsOf(strings.Join(s, "\n")))
	}
	register(&Check{ID: "C04", Explanation: "The real server runs with the rewrite goroutine under the control of the scheduler, which may stop it at every file, channel and atomic operation. All placements of up to three write commands (in one or two databases, from one or two connections) before, between the steps of, and after the rewrite are enumerated, for keyspaces with all types, with expiries, and with collections around the number of elements of one log command; preemptions of the event loop inside a command are bounded. Then the server is started on the append-only file alone and its keyspace must equal the model, and again after more commands.",
		Assumptions: []string{"the scheduler switches threads at file, channel, lock and atomic operations; data races between plain memory accesses inside one such step are not explored"},
		Phases: []Phase{
			{Name: "one command", Shard: 3, Weight: 4, Dev: 1, Run: rewriteMix(rwSetups, rwCmds, 1, 0, nil)},
			seqPhase{setups: realRwSetups, ops: opsOf(strings.Join(rwCmds, "\n")), depth: 1}.real(realRewrite, "", 3),
			seqPhase{setups: realRwSetups, ops: opsOf(strings.Join(rwCmds, "\n")), depth: 2}.real(realRewrite, "thorough", 2),
			{Name: "periodic task", Shard: 3, Weight: 5, Run: rewriteMix(rwSetups[1:2], rwCmds, 1, 1, nil)},
			{Name: "two commands", Shard: 4, Weight: 8, Run: rewriteMix(rwSetups[:2], rwCmds[:8], 2, 0, nil)},
			{Name: "rewrite again", Shard: 4, Weight: 2, Run: rewriteMix(rwSetups[1:2], []string{"rpush l #", "spop s", "select 1", "setex a 50 #"}, 1, 0, []string{"bgrewriteaof", "rpush l #"})},
			{Name: "large collections", Shard: 3, Weight: 3, Run: big(1, sizes)},
			{Name: "pages", Shard: 3, Weight: 12, Run: pages(1)},
			{Name: "pages, two commands", Tier: "thorough", Shard: 4, Weight: 2, Run: pages(2)},
			{Name: "shared memory", Shard: 3, Weight: 4, Run: shared(1, 1)},
			{Name: "two databases", Shard: 5, Weight: 7, Run: twoDBs(2)},
			{Name: "many keys", Shard: 2, Weight: 2, Run: func(c *Ctx) {
				n := 1 + c.Choose(70, "keys")
				step := c.Choose(3, "deleted")
				var setup []string
				for i := 0; i < n; i++ {
					switch i % 3 {
					case 0, 1:
						setup = append(setup, fmt.Sprintf("set k%d v%d", i, i))
					case 2:
						setup = append(setup, fmt.Sprintf("setex k%d %d v%d", i, 100+i, i))
					}
				}
				for i := 0; step > 0 && i < n; i += step + 1 {
					setup = append(setup, fmt.Sprintf("del k%d", i))
				}
				x := newRewrite(c, never(), setup, 1)
				defer func() { x.e.s.end() }()
				x.cmds = substAll([]string{"bgrewriteaof"})
				x.play(0)
				x.verify("after a restart on the rewritten file")
			}},
			{Name: "every database", Shard: 2, Run: func(c *Ctx) {
				ids := []int{0, 1, 9, 10, 12, 15, 99, 100, 255, 256, 1000}
				n := []int{16, 1001}[c.Choose(2, "databases")]
				a, b := ids[c.Choose(len(ids), "database")], ids[c.Choose(len(ids), "second database")]
				if a >= n || b >= n {
					return
				}
				cfg := never()
				cfg.DatabaseNum = n
				sel := "select " + itoa(a)
				x := newRewrite(c, cfg, []string{sel, "rpush l a b", "setex a 70 old", "select " + itoa(b), "rpush l c", "set b other"}, 1)
				defer func() { x.e.s.end() }()
				x.e.s.noBG = true
				cmds := [][]string{{"bgrewriteaof"}, {"rpush", "l", "late"}, {"select", itoa(a)}, {"rpush", "l", "later"}}
				for _, r := range cmds {
					x.ps[0].send(x.ps[0].queue(r))
				}
				x.e.s.settle()
				x.ps[0].check(true)
				x.e.s.noBG = false
				x.e.s.tick(2)
				x.e.s.tick(2)
				x.e.s.tick(2)
				x.verify("after a restart on the rewritten file")
			}},
			{Name: "contents", Shard: 2, Weight: 3, Run: func(c *Ctx) {
				odd := []string{"", "\r\n", "\x00", "*2\r\n", "$-1", " ", "\xff", fill(4096), fill(65536), fill(70001)}
				a, b := odd[c.Choose(len(odd), "first string")], odd[c.Choose(len(odd), "second string")]
				if len(a) > 5000 && len(b) > 5000 {
					return
				}
				scores := []string{"0", "-1.5", "1e300", "0.1", "inf", "-inf", "1e-7", "123456789012345680", "1e-20", "5e-324", "-1.7976931348623157e308", "0.30000000000000004"}
				sc, ttl := scores[0], 0
				if len(a)+len(b) < 1000 {
					sc = scores[c.Choose(len(scores), "score")]
					ttl = c.Choose(2, "with expiries")
				}
				x := newRewrite(c, never(), nil, 1)
				defer func() { x.e.s.end() }()
				x.cmds = [][]string{{"set", a, b}, {"rpush", "l" + a, a, b}, {"hset", "h" + a, a, b}, {"sadd", "s" + b, a, b}, {"zadd", "z" + b, sc, a}, {"bgrewriteaof"}}
				if ttl == 1 {
					var y [][]string
					for i, r := range x.cmds {
						if y = append(y, r); len(r) > 1 {
							y = append(y, []string{"expire", r[1], itoa(100 + i)})
						}
					}
					x.cmds = y
				}
				x.e.s.noBG = false
				for _, r := range x.cmds {
					x.ps[0].send(x.ps[0].queue(r))
				}
				x.e.s.settle()
				x.ps[0].check(true)
				x.e.s.tick(2)
				x.e.s.tick(2)
				x.e.s.tick(2)
				x.verify("after a restart on the rewritten file")
			}},
			{Name: "huge collections", Shard: 2, Weight: 2, Run: huge(5000, 33333)},
			{Name: "huge collections, larger", Tier: "thorough", Shard: 2, Run: huge(66000, 140000)},
			{Name: "volume", Shard: 3, Weight: 2, Run: volume},
			{Name: "expiry during the rewrite", Shard: 3, Weight: 3, Run: leapMix(1)},
			{Name: "expiry during the rewrite, two commands", Tier: "thorough", Shard: 3, Weight: 3, Run: leapMix(2)},
			{Name: "automatic", Shard: 3, Weight: 4, Run: func(c *Ctx) {
				cfg := never()
				cfg.AofRewritePercent = 50
				cfg.AofRewriteMinSize = []uint{60, 200}[c.Choose(2, "minimum")]
				picked := pickCmds(c, []string{"rpush l # # #", "set a #", "select 1", "spop s", "setex b 50 #"}, 3)
				x := newRewrite(c, cfg, []string{"sadd s a b c d e"}, 1)
				defer func() { x.e.s.end() }()
				x.cmds = substAll(picked)
				x.play(1)
				x.verify("after a restart on the rewritten file")
			}},
			{Name: "shared memory, two commands", Tier: "thorough", Shard: 4, Weight: 4, Run: shared(2, 1)},
			{Name: "shared memory, preemptions", Tier: "thorough", Shard: 4, Weight: 4, Dev: 1, Run: shared(1, 2)},
			{Name: "three commands", Tier: "thorough", Shard: 4, Weight: 6, Run: rewriteMix(rwSetups[:2], rwCmds, 3, 0, nil)},
			{Name: "preemptions", Tier: "thorough", Shard: 4, Weight: 3, Dev: 2, Run: rewriteMix(rwSetups, rwCmds, 2, 1, nil)},
			{Name: "large collections, two commands", Tier: "thorough", Shard: 4, Weight: 4, Run: big(2, sizes)},
			{Name: "two databases, three commands", Tier: "thorough", Shard: 6, Weight: 4, Run: twoDBs(3)},
			{Name: "rewrite again, longer", Tier: "thorough", Shard: 4, Weight: 3, Run: rewriteMix(rwSetups[:3], rwCmds, 1, 1, []string{"bgrewriteaof", "rpush l #"})},
		}})
}

// --- C05 ---

// again runs a rewrite on a recovered server and restarts once more.
func again(s *Srv, m *Model, what func() string) {
	c := s.c
	p := s.pipe(m.clone())
	s.w.Rec = true
	from := len(s.w.Log)
	p.send(p.queue(f("rpush rec x"), f("bgrewriteaof"), f("rpush rec y")))
	s.settle()
	s.tick(1)
	s.tick(1)
	s.tick(1)
	p.check(true)
	renamed := false
	for _, e := range s.w.Log[from:] {
		renamed = renamed || e.Kind == rt.ERename && e.Path2 == rt.Abs(s.cfg.AofFilename)
	}
	c.Check(renamed, "%s: no further rewrite is possible", what())
	n := s.restart()
	defer n.end()
	if d := p.m.diff(n.dump(), n.w.NowMS(), 1000); d != "" {
		c.Fail("%s: after a further rewrite and restart: %s", what(), d)
	}
}

// rewriteCrash crashes at every effect around a rewrite.
func rewriteCrash(setups [][]string, cmds []string, depth, ticks int, auto bool) func(c *Ctx) {
	return func(c *Ctx) {
		setup := setups[c.Choose(len(setups), "setup")]
		pol := policies[c.Choose(2, "fsync policy")]
		picked := pickCmds(c, cmds, depth)
		cfg := aofConfig(pol)
		if auto {
			cfg.AofRewritePercent, cfg.AofRewriteMinSize = 50, 200
		}
		s := bootRec(c, nil, cfg, 0)
		defer func() { s.end() }()
		h := newHist(c, s, newModel(cfg))
		for _, a := range substAll(setup) {
			h.p.send(h.p.queue(a))
			s.settle()
			h.absorb(true)
		}
		h.from = len(s.w.Log)
		h.extra = again
		if !auto {
			picked = append([]string{"bgrewriteaof"}, picked...)
		}
		reqs := substAll(picked)
		s.noBG = true
		s.w.Fine = true
		r := &rwRun{c: c, s: s, n: len(reqs), ticks: ticks, seen: len(s.w.Log)}
		r.send = func(i int) { h.p.send(h.p.queue(reqs[i])) }
		r.done = func(i int) { h.absorb(false) }
		r.run()
		s.noBG, s.w.Fine = false, false
		s.settle()
		h.absorb(true)
		if auto && r.placed == 0 {
			return
		}
		c.Sample(fmt.Sprint(setup, picked, " fsync ", pol))
		h.scan(true, pol == config.TypeAppendFsyncAlways)
	}
}

// rewriteFaults lets one file operation around a rewrite fail.
func rewriteFaults(setups [][]string, cmds []string, depth int) func(c *Ctx) {
	return func(c *Ctx) {
		at := c.Choose(40, "failing operation")
		setup := setups[c.Choose(len(setups), "setup")]
		pol := policies[c.Choose(2, "fsync policy")]
		where := c.Choose(depth+1, "place of the rewrite")
		picked := pickCmds(c, cmds, depth)
		early := c.Choose(2, "the rewrite goes on before the next command") == 1
		cfg := aofConfig(pol)
		s := bootRec(c, nil, cfg, 0)
		defer func() { s.end() }()
		h := newHist(c, s, newModel(cfg))
		for _, a := range substAll(setup) {
			h.p.send(h.p.queue(a))
			s.settle()
			h.absorb(true)
		}
		h.from = len(s.w.Log)
		h.extra = again
		s.dieOK = true
		n, hit := 0, ""
		s.w.FS.Fault = func(op, path string, k int) (int, error) {
			n++
			if n-1 != at {
				return k, nil
			}
			hit = op + " " + path
			c.Logf("%s fails", hit)
			return k / 2, syscall.EIO
		}
		picked = append(picked[:where:where], append([]string{"bgrewriteaof"}, picked[where:]...)...)
		dead := func() bool { return s.w.Dead() != nil }
		for _, r := range substAll(picked) {
			if dead() || h.p.conn.SrvClose {
				break
			}
			s.noBG = !early
			h.p.send(h.p.queue(r))
			s.settle()
			if !dead() {
				h.absorb(false)
			}
		}
		s.noBG = false
		for i := 0; i < 4 && !dead(); i++ {
			s.settle()
			if !dead() {
				s.tick(211)
			}
		}
		if hit == "" {
			return // nothing has failed
		}
		if !dead() && !h.p.conn.SrvClose {
			h.p.send(h.p.queue(f("rpush after x")))
			s.settle()
		}
		h.absorb(false)
		m := h.p.m.clone()
		st := h.p.st
		for _, a := range h.p.sent[h.p.done:] {
			applyBlind(m, &st, a, s.w.NowMS())
			h.snaps = append(h.snaps, m.clone())
		}
		s.w.FS.Fault = nil
		c.Sample(fmt.Sprint(picked, ": ", hit, " fails"))
		h.scan(true, pol == config.TypeAppendFsyncAlways)
	}
}

func init() {
	setups := [][]string{
		{"rpush l a b c", "sadd s p q r", "set a old", "select 1", "rpush l x", "select 0"},
		{"zadd z 1 m 2 n", "hset h f 1", "setex a 70 old", "rpush l a"},
		{},
	}
	cmds := []string{"rpush l #", "set a #", "spop s", "select 1", "setex b 50 #", "zremrangebyrank z 0 0"}
	register(&Check{ID: "C05", Explanation: "The real server runs with the rewrite goroutine under the scheduler's control, which places up to two or three write commands between its steps in every way. For each such run the process is crashed after every effect on a file or socket, with every torn last write, and with appendfsync=always also with every loss of what was not fsynced (including renames); the server is started on what is left and must have every acknowledged write, and it must be able to rewrite the file again. Every file operation around a rewrite also fails once, with the same crashes and the same demands.",
		Assumptions: []string{"power loss: directory operations reach the disk in order and at least up to the last fsync of anything; of the writes to a file after its last fsync none, half or all survive"},
		Phases: []Phase{
			{Name: "one command", Shard: 3, Weight: 4, Run: rewriteCrash(setups, cmds, 1, 1, false)},
			{Name: "two commands", Shard: 4, Weight: 5, Run: rewriteCrash(setups[:1], cmds[:4], 2, 0, false)},
			{Name: "automatic", Shard: 4, Weight: 2, Run: rewriteCrash(setups[:2], []string{"rpush l # # #", "set a #", "select 1"}, 3, 0, true)},
			{Name: "two rewrites", Shard: 4, Weight: 2, Run: rewriteCrash(setups[2:], []string{"rpush l #", "bgrewriteaof"}, 3, 0, false)},
			{Name: "failing operations", Shard: 2, Weight: 3, Run: rewriteFaults(setups, []string{"rpush l #", "set a #", "select 1"}, 1)},
			{Name: "failing operations, two commands", Tier: "thorough", Shard: 3, Weight: 4, Run: rewriteFaults(setups, []string{"rpush l #", "set a #", "spop s", "select 1"}, 2)},
			{Name: "two commands, longer", Tier: "thorough", Shard: 4, Weight: 4, Run: rewriteCrash(setups, cmds, 2, 1, false)},
			{Name: "three commands", Tier: "thorough", Shard: 5, Weight: 5, Run: rewriteCrash(setups[:2], cmds, 3, 0, false)},
		}})
}
