//go:build go1.23

package main

import (
	"fmt"
	"strings"
	"syscall"

	"github.com/IfanTsai/metis/config"
	rt "github.com/IfanTsai/metis/verifvrt"
)

func never() config.Config { return aofConfig(config.TypeAppendFsyncNever) }

// survive restarts, compares, adds a write and does it again.
func survive(more ...op) func(e *seqEnv) {
	return func(e *seqEnv) {
		e.restart()
		e.s.compare(e.m, 1000, "after a restart")
		if len(more) == 0 {
			return
		}
		e.do(more[e.c.Choose(len(more), "command after the restart")])
		e.restart()
		e.s.compare(e.m, 1000, "after a further command and a second restart")
	}
}

func registerRestart() {
	alphabets := map[string][]op{
		"strings": opsOf(`
			set a #
			set b #
			setex a 50 #
			set a # exat NOW+70
			expire a 100
			expireat b NOW+200
			expire a -1
			expireat b 5
			del a b
			get a
			randomget
			rpush a x#`),
		"lists": opsOf(`
			rpush l x# y#
			lpush l x# y#
			lpush l same
			rpush l same
			lpop l
			rpop l
			lpush m z
			rpop m
			expire l 90
			lrange l 0 -1
			set l s`),
		"hashes": opsOf(`
			hset h f v#
			hset h g v# f w#
			hset h f same
			hdel h f
			hdel h f g
			hdel h nof g
			hset i f v#
			hdel i f
			expire h 90
			hget h f
			hset h f`),
		"sets": opsOf(`
			sadd s a b
			sadd s c d e
			sadd s a
			srem s a
			srem s nob b
			spop s
			spop t
			sadd t x y
			expire s 90
			sunion s t
			sadd s b f`),
		"zsets": opsOf(`
			zadd z 1 a 2 b
			zadd z 3 a
			zadd z 1.5 c -inf d
			zadd z 1 a
			zadd z x a 4 b
			zrem z a
			zrem z no b
			zremrangebyrank z 0 0
			zremrangebyrank z -1 -1
			zremrangebyscore z 1 2
			expire z 90
			zadd y 1e300 a 0.1 b
			zrange z 0 -1`),
		"databases": opsOf(`
			select 0
			select 1
			set a #
			rpush l x#
			@c1 select 0
			@c1 select 1
			@c1 set a #
			@c1 rpush l x#
			@c1 del a
			@c1 set k # exat NOW+50`),
	}
	var phases []Phase
	for _, name := range sortedKeys(alphabets) {
		n := 1
		setups := [][]op{nil}
		more := []op{o("set later #")}
		switch name {
		case "databases":
			n = 2
			more = []op{o("set a #"), on(1, "set b #")}
		case "lists":
			more = []op{o("rpush l x#"), o("lpop l")}
		case "hashes":
			more = []op{o("hset h f v#"), o("hdel h f")}
		case "sets":
			more = []op{o("sadd s a z"), o("spop s")}
		case "zsets":
			more = []op{o("zadd z 0 a"), o("zremrangebyrank z 0 0")}
		}
		phases = append(phases, seqPhase{cfg: never, clients: n, setups: setups, ops: alphabets[name], depth: 3, noDump: true, after: survive(more...)}.phase(name, "", 1))
		phases = append(phases, seqPhase{cfg: never, clients: n, setups: setups, ops: alphabets[name], depth: 4, noDump: true, after: survive(more...)}.phase("long "+name, "thorough", 2))
	}

	// every command on every type of key
	every := opsOf(`
		set k n#
		setex k 50 n#
		set k n# exat NOW+9
		expire k 77
		expire k 0
		expireat k NOW+7
		del k
		get k
		ttl k
		lpush k n#
		rpush k n# m#
		lpop k
		rpop k
		llen k
		hset k f n# h n#
		hdel k f g
		hget k f
		sadd k a n#
		srem k a b
		spop k
		smembers k
		zadd k 7 a 8 n#
		zrem k a
		zremrangebyrank k 0 -1
		zremrangebyscore k -inf 1
		zscore k a
		bgrewriteaof`)
	var setups [][]op
	for _, k := range kinds {
		setups = append(setups, []op{mkKey(k, "k")}, []op{mkKey(k, "k"), o("expire k 60")}, []op{mkKey(k, "k"), o("expire k 1"), tick(1503)})
	}
	setups = append(setups, nil)
	phases = append(phases, seqPhase{cfg: never, setups: setups, ops: every, depth: 2, noDump: true, after: survive(o("rpush other x#"))}.phase("every command", "", 4))
	phases = append(phases, seqPhase{setups: setups, ops: every, depth: 1}.real(realKill, "", 4), seqPhase{setups: setups, ops: every, depth: 2}.real(realKill, "thorough", 3))
	phases = append(phases, seqPhase{cfg: never, setups: setups, ops: every, depth: 3, noDump: true, after: survive(o("rpush other x#"))}.phase("every command, longer", "thorough", 3))

	// every sequence of databases
	selections := func(n, depth int) func(c *Ctx) {
		return func(c *Ctx) {
			cfg := never()
			cfg.DatabaseNum = n
			e := newSeq(c, cfg, 2)
			defer func() { e.s.end() }()
			var ids []int
			for i := 0; i < depth; i++ {
				ids = append(ids, c.Choose(n, "database"))
			}
			down := c.Choose(depth+1, "restart after")
			other := c.Choose(2, "one or two connections")
			for i, id := range ids {
				cli := i & other
				e.do(on(cli, "select "+itoa(id)))
				e.do(on(cli, "rpush l #"))
				if i == down {
					e.restart()
				}
			}
			e.restart()
			e.s.compare(e.m, 1000, "after a restart")
			c.Sample(fmt.Sprint(ids))
		}
	}
	phases = append(phases, Phase{Name: "letter case", Shard: 2, Weight: 2, Run: letterCase})
	phases = append(phases, Phase{Name: "large batches", Shard: 2, Weight: 7, Run: largeBatches})
	phases = append(phases, Phase{Name: "selections", Shard: 2, Weight: 4, Run: selections(16, 3)})
	phases = append(phases, Phase{Name: "selections, longer", Tier: "thorough", Shard: 2, Weight: 2, Run: selections(16, 4)})

	// expiries, with time passing before and after the restart
	timed := opsOf(`
		set k #
		setex k 2 #
		expire k 2
		expire k 0
		expireat k NOW+2
		rpush k x#
		hset k f #
		sadd k x#
		get k
		ttl k
		@tick1499
		@tick2503
		@late1501 get k
		@late2603 rpush k y#`)
	timedRun := func(depth int) func(c *Ctx) {
		return func(c *Ctx) {
			ops := choosePick(c, timed, depth)
			down := []int64{0, 1507, 4013}[c.Choose(3, "time until the restart")]
			db := c.Choose(2, "database")
			e := newSeq(c, never(), 1)
			defer func() { e.s.end() }()
			if db == 1 {
				e.do(o("select 1"))
			}
			e.run(ops)
			e.s.w.NowNS += down * 1e6
			e.restart()
			e.s.compare(e.m, 1000, "after a restart")
			e.do(o("rpush l x#"))
			e.s.tick(1009)
			e.restart()
			e.s.compare(e.m, 1000, "after a second restart")
		}
	}
	phases = append(phases, Phase{Name: "expiries", Shard: 3, Weight: 2, Run: timedRun(3)})
	phases = append(phases, Phase{Name: "far expiries", Shard: 2, Run: farExpiries(3, true)})
	phases = append(phases, Phase{Name: "long expiries", Tier: "thorough", Shard: 3, Weight: 2, Run: timedRun(4)})

	// restarts and rewrites at every position
	restarts := func(depth int) func(c *Ctx) {
		ops := opsOf(`
			set a #
			rpush l x# y#
			lpop l
			spop s
			sadd s p q
			select 1
			expire a 100
			zadd z 1 m`)
		return func(c *Ctx) {
			pol := policies[c.Choose(3, "fsync policy")]
			e := newSeq(c, aofConfig(pol), 1)
			defer func() { e.s.end() }()
			e.do(o("sadd s u v w"))
			for i := 0; i < depth; i++ {
				k := c.Choose(len(ops)+2, "operation")
				switch {
				case k < len(ops):
					e.do(ops[k])
				case k == len(ops):
					e.restart()
					e.k[0].st = ConnState{}
				default:
					e.do(o("bgrewriteaof"))
					e.s.tick(3)
				}
			}
			e.restart()
			e.s.compare(e.m, 1000, "after the restarts")
		}
	}
	phases = append(phases, Phase{Name: "restarts", Shard: 3, Weight: 5, Run: restarts(4)})
	phases = append(phases, Phase{Name: "more restarts", Tier: "thorough", Shard: 3, Weight: 3, Run: restarts(6)})

	// contents
	odd := []string{"", "\r\n", "\x00", "\xff\xfe", "*2\r\n$3\r\nset\r\n", "$-1", " ", "a\nb", "\r", "\n", "*", "$5\r\nhello\r\n", "1", "-0", "é", "\r\n\r\n"}
	phases = append(phases, Phase{Name: "bytes", Shard: 2, Run: func(c *Ctx) {
		x, y := odd[c.Choose(len(odd), "first string")], odd[c.Choose(len(odd), "second string")]
		e := newSeq(c, never(), 1)
		defer func() { e.s.end() }()
		switch c.Choose(6, "command") {
		case 0:
			e.do(oa("set", x, y))
		case 1:
			e.do(oa("rpush", x, y, x, "z", y))
		case 2:
			e.do(oa("hset", x, y, x, x, y))
		case 3:
			e.do(oa("sadd", x, y, x))
			e.do(oa("srem", x, "nothing", y))
		case 4:
			e.do(oa("zadd", x, "1", y, "2", x))
		case 5:
			e.do(oa("setex", x, "100", y))
			e.do(oa("expire", x, "200"))
		}
		survive(oa("set", y, x))(e)
	}})
	phases = append(phases, Phase{Name: "sizes", Shard: 2, Weight: 2, Run: func(c *Ctx) {
		sizes := []int{0, 1, 9, 10, 99, 100, 1023, 4095, 4096, 4097, 8192, 16384, 32767, 32768, 65500, 65535, 65536, 65537, 131072, 200000}
		n := sizes[c.Choose(len(sizes), "size")]
		e := newSeq(c, never(), 1)
		defer func() { e.s.end() }()
		switch c.Choose(6, "command") {
		case 0:
			e.do(oa("set", "k", fill(n)))
		case 1:
			e.do(oa("set", fill(n), "v"))
		case 2:
			e.do(oa("rpush", "l", fill(n), "x", fill(n/2)))
			e.do(oa("lpush", "l", fill(n)))
		case 3:
			e.do(oa("hset", "h", fill(n), fill(n), "f", ""))
		case 4:
			e.do(oa("sadd", "s", fill(n), fill(n/3)))
		case 5:
			e.do(oa("zadd", "z", "1", fill(n), "2", "b"))
		}
		survive(oa("set", "after", "x"), oa("rpush", "l", "y"))(e)
	}})
	// where the chunks of the file reader end: every offset in the following commands
	phases = append(phases, Phase{Name: "offsets", Shard: 1, Weight: 2, Run: func(c *Ctx) {
		chunk := []int{4096, 65536}[c.Choose(2, "chunk")]
		d := c.Choose(100, "offset")
		e := newSeq(c, never(), 1)
		defer func() { e.s.end() }()
		e.do(o("select 0"))
		head := len(encode("select", "0")) + len(encode("set", "k", fill(chunk))) - chunk
		e.do(oa("set", "k", fill(chunk-head-d)))
		e.do(oa("rpush", "l", "a\r\n", "", "bcd"))
		e.do(oa("hset", "h", "field", "value\r\n"))
		e.do(oa("sadd", "s", "m"))
		survive(oa("set", "after", "x"))(e)
	}})
	phases = append(phases, Phase{Name: "many arguments", Shard: 2, Run: func(c *Ctx) {
		ns := []int{2, 9, 10, 63, 64, 65, 99, 100, 127, 128, 129, 999, 1000, 1023, 1024, 1025, 4999, 10001, 33001, 65535, 65536, 65537, 70001}
		n := ns[c.Choose(len(ns), "count")]
		e := newSeq(c, never(), 1)
		defer func() { e.s.end() }()
		a := []string{"", "k"}
		for i := 0; i < n; i++ {
			a = append(a, "m"+itoa(i))
		}
		switch c.Choose(5, "command") {
		case 0:
			a[0] = "rpush"
		case 1:
			a[0] = "lpush"
		case 2:
			a[0] = "sadd"
		case 3:
			a[0] = "hset"
			for i := 0; i < n; i++ {
				a = append(a, "v"+itoa(i))
			}
			if len(a)%2 != 0 {
				a = a[:len(a)-1]
			}
		case 4:
			a = a[:2]
			a[0] = "zadd"
			for i := 0; i < n; i++ {
				a = append(a, itoa(i%7), "m"+itoa(i))
			}
		}
		e.do(op{args: a})
		survive(o("set after x"))(e)
	}})
	// many keys: the tables grow while the file is loaded
	phases = append(phases, Phase{Name: "many keys", Shard: 1, Run: func(c *Ctx) {
		ns := []int{1, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 300}
		n := ns[c.Choose(len(ns), "keys")]
		e := newSeq(c, never(), 1)
		defer func() { e.s.end() }()
		var reqs [][]string
		for i := 0; i < n; i++ {
			switch i % 4 {
			case 0:
				reqs = append(reqs, []string{"set", "k" + itoa(i), itoa(i)})
			case 1:
				reqs = append(reqs, []string{"setex", "k" + itoa(i), "100", itoa(i)})
			case 2:
				reqs = append(reqs, []string{"rpush", "k" + itoa(i), itoa(i), "x"})
			case 3:
				reqs = append(reqs, []string{"del", "k" + itoa(i-3)})
			}
		}
		for _, r := range reqs {
			e.do(oa(r...))
		}
		survive(o("set after x"))(e)
	}})
	// pipelined commands of two clients in different databases
	interleaved := func(depth int) func(c *Ctx) {
		return func(c *Ctx) {
			ops := []string{"set a #", "rpush l #", "select 0", "select 1", "spop s"}
			cmds := pickCmds(c, ops, depth)
			who := make([]int, depth)
			for i := range who {
				who[i] = c.Choose(2, "client")
			}
			s := boot(c, nil, never(), 0)
			defer func() { s.end() }()
			m := newModel(s.cfg)
			p := []*pipe{s.pipe(m), s.pipe(m)}
			p[0].send(p[0].queue(f("sadd s 1 2 3 4")))
			p[1].send(p[1].queue(f("select 1")))
			s.settle()
			p[0].check(true)
			p[1].check(true)
			// commands of one client up to the next of the other are one segment
			reqs := substAll(cmds)
			for i := 0; i < depth; {
				j := i
				for j < depth && who[j] == who[i] {
					j++
				}
				p[who[i]].send(p[who[i]].queue(reqs[i:j]...))
				s.settle()
				p[who[i]].check(true)
				i = j
			}
			n := s.restart()
			defer n.end()
			n.compare(m, 1000, "after a restart")
		}
	}
	phases = append(phases, Phase{Name: "two clients", Shard: 3, Run: interleaved(4)})
	phases = append(phases, Phase{Name: "two clients, longer", Tier: "thorough", Shard: 3, Weight: 2, Run: interleaved(5)})

	register(&Check{ID: "C02", Explanation: "The real server runs all sequences of commands of the phases' alphabets (every write command, in two databases, with expiries, random removals, all kinds of bytes, sizes around the buffer boundaries, and many arguments) with the append-only file enabled, is stopped without warning and started again on the file; the keyspace read back through commands must equal the model. Further commands and a second restart follow. Random choices continue with other values in the next process.",
		Phases: phases})
}

// largeBatches: a great many bytes are logged at once, in one database or another.
func largeBatches(c *Ctx) {
	n := []int{4000, 65000, 66000, 1 << 19, 1<<20 + 1, 5<<20 + 7}[c.Choose(6, "bytes")]
	from, to := c.Choose(3, "database"), c.Choose(3, "database afterwards")
	if n > 1<<20 && from+to != 1 || n == 1<<19 && from != 1 {
		return
	}
	parts := []int{1, 7, 300}[c.Choose(3, "commands")]
	at := c.Choose(3, "another database before, in the middle of or after the batch")
	down := c.Choose(2, "a restart in between") == 1
	e := newSeq(c, never(), 1)
	defer func() { e.s.end() }()
	p := e.s.pipe(e.m)
	reqs := [][]string{{"select", itoa(from)}, {"rpush", "l", "a"}}
	for i := 0; i < parts; i++ {
		if at == 1 && i == parts/2 {
			reqs = append(reqs, []string{"select", itoa(to)})
		}
		reqs = append(reqs, []string{"set", "k" + itoa(i%5), fill(n/parts + i)}, []string{"rpush", "l", itoa(i)})
	}
	if at == 2 {
		reqs = append(reqs, []string{"select", itoa(to)}, []string{"rpush", "l", "z"})
	}
	p.send(p.queue(reqs...))
	e.s.settle()
	p.check(true)
	if at == 0 {
		p.send(p.queue([]string{"select", itoa(to)}))
		e.s.settle()
	}
	p.send(p.queue(f("rpush l next")))
	e.s.settle()
	p.check(true)
	if down {
		e.restart()
		p = e.s.pipe(e.m)
		p.send(p.queue(f("rpush l again"), []string{"select", itoa(to)}, f("lpop l"), f("lpop l")))
		e.s.settle()
		p.check(true)
	}
	e.restart()
	e.s.compare(e.m, 1000, "after a restart")
	c.Sample(fmt.Sprintf("%d bytes in %d commands in database %d, then %d", n, parts, from, to))
}

// --- C03 ---

// torn is a recorded history of complete commands in the append-only file.
type tornHist struct {
	e     *seqEnv
	ends  []int    // length of the file after each command
	snaps []*Model // keyspace then
}

func (t *tornHist) do(p op) {
	t.e.do(p)
	t.snap()
}

func (t *tornHist) snap() {
	t.ends = append(t.ends, len(t.e.s.aofBytes()))
	t.snaps = append(t.snaps, t.e.m.clone())
}

// cutAt restarts on the first n bytes of the file and checks the outcome.
func (t *tornHist) cutAt(n int) {
	e := t.e
	fs := rt.NewFS()
	for p, i := range e.s.w.FS.Files {
		fs.Files[p] = &rt.Inode{ID: i.ID, Data: append([]byte(nil), i.Data...)}
	}
	fs.Files[aofPath].Data = fs.Files[aofPath].Data[:n]
	e.s.w.Kill()
	e.s.w.FS = fs
	e.c.Logf("the file is cut to %d of %d bytes", n, t.ends[len(t.ends)-1])
	what := fmt.Sprintf("file cut at byte %d of %d", n, t.ends[len(t.ends)-1])
	e.s = e.s.restart()
	lo, hi := -1, -1
	for i := range t.ends {
		if t.ends[i] <= n {
			lo = i
		}
		if t.ends[i] < n {
			hi = i
		}
	}
	_ = hi
	// between two recorded positions the bytes of SELECT may be complete; they change no key
	e.s.compare(t.snaps[lo], 1000, what)
	e.m = t.snaps[lo].clone()
	e.k = []*Cli{e.s.dial()}
}

// failingStart lets a file operation of the start on a possibly torn file fail: the server may refuse to
// start, but what the file holds must neither be lost nor served in part.
func failingStart(ops []op, depth int) func(c *Ctx) {
	return func(c *Ctx) {
		at := c.Choose(12, "failing operation")
		seq := choosePick(c, ops, depth)
		lost := []int{0, 1, 9, 1 << 20}[c.Choose(4, "bytes lost")]
		short := c.Choose(2, "error or short read") == 1
		large := c.Choose(2, "file larger than a read") == 1
		t := &tornHist{e: newSeq(c, never(), 1)}
		e := t.e
		defer func() { e.s.end() }()
		t.snap()
		if large {
			t.do(oa("set", "big", fill(70000)))
			t.do(oa("rpush", "l", fill(70000)))
		}
		for _, p := range seq {
			t.do(p)
		}
		n := len(e.s.aofBytes())
		lost = min(lost, n)
		if lost == n {
			lost = n / 2
		}
		fs := rt.NewFS()
		for p, i := range e.s.w.FS.Files {
			fs.Files[p] = &rt.Inode{ID: i.ID, Data: append([]byte(nil), i.Data...)}
		}
		fs.Files[aofPath].Data = fs.Files[aofPath].Data[:n-lost]
		want := t.snaps[0]
		for i := range t.ends {
			if t.ends[i] <= n-lost {
				want = t.snaps[i]
			}
		}
		e.s.w.Kill()
		k, hit := 0, ""
		fs.Fault = func(op, path string, m int) (int, error) {
			k++
			if k-1 != at {
				return m, nil
			}
			if short {
				if op == "read" {
					hit = "short " + op
					return (m + 1) / 2, nil
				}
				return m, nil
			}
			hit = op
			return 0, syscall.EIO
		}
		s := start(c, fs, e.s.cfg, e.s.w.NowNS)
		s.dieOK = true
		for !s.t0.AtEpoll() && !s.t0.Done && s.w.Dead() == nil {
			s.step(s.t0)
		}
		if hit == "" {
			s.end()
			e.s = s
			return
		}
		fs.Fault = nil
		up := s.w.Dead() == nil && !s.t0.Done
		c.Logf("%s fails at the start, the server comes up: %v", hit, up)
		c.Check(up || !short, "the server does not start after a short read")
		e.s = s
		if up {
			s.dieOK = false
			s.compare(want, 1000, "started although "+hit+" failed")
			e.m = want.clone()
			e.k = []*Cli{s.dial()}
			e.do(o("rpush fresh x"))
			want = e.m
		}
		e.s = s.restart()
		e.s.compare(want, 1000, "started again after a start at which "+hit+" failed")
		c.Sample(fmt.Sprint(seq, ": ", hit, " fails, up: ", up))
	}
}

func registerTorn() {
	ops := opsOf(`
		set a #
		setex b 50 #
		rpush l x# y#
		lpop l
		spop s
		sadd s p q
		select 1
		expire a 100
		hset h f #
		del a
		zadd z 1.5 m`)
	after := opsOf(`
		set n #
		rpush l new#
		spop s
		setex b 90 n#`)
	run := func(ops, after []op, depth int, second bool, step int) func(c *Ctx) {
		return func(c *Ctx) {
			seq := choosePick(c, ops, depth)
			more := after[c.Choose(len(after), "command after the recovery")]
			t := &tornHist{e: newSeq(c, never(), 1)}
			e := t.e
			defer func() { e.s.end() }()
			t.snap()
			t.do(o("sadd s u v"))
			for _, p := range seq {
				t.do(p)
			}
			n := t.ends[len(t.ends)-1]
			first := t.ends[1]
			cutLen := first + c.Choose(n-first+1, "length")
			t.cutAt(cutLen)
			if !second {
				e.do(more)
				e.s.tick(1103)
				e.restart()
				e.s.compare(e.m, 1000, "after a further command and another restart")
				return
			}
			// tear again, within what was added
			t2 := &tornHist{e: e}
			t2.snap()
			t2.do(more)
			t2.do(o("rpush l last#"))
			m := t2.ends[len(t2.ends)-1]
			t2.cutAt(t2.ends[0] + step*c.Choose((m-t2.ends[0])/step+1, "second length"))
			e.do(o("set fin x"))
			e.restart()
			e.s.compare(e.m, 1000, "after the third restart")
		}
	}
	register(&Check{ID: "C03", Explanation: "For all short command histories the append-only file is cut at every byte, also a second time after more commands, and in files written by a rewrite; the real server is started on the result and must serve exactly the keyspace of the complete commands, and keep what is then added over a further restart. Every file operation of such a start also fails once, or reads short: the server must then serve all of it or not start, and lose nothing for the next start. The unmodified binary is killed with a torn file too.",
		Phases: []Phase{
			{Name: "every byte", Shard: 4, Weight: 5, Run: run(ops, after[:2], 2, false, 1)},
			{Name: "twice", Shard: 2, Weight: 4, Run: run(ops[:5], after[1:2], 1, true, 2)},
			{Name: "failing start", Shard: 3, Weight: 2, Run: failingStart(ops, 1)},
			{Name: "failing start, longer", Tier: "thorough", Shard: 3, Weight: 2, Run: failingStart(ops, 2)},
			seqPhase{ops: ops, depth: 1}.real(realTorn, "", 1),
			seqPhase{ops: ops, depth: 2}.real(realTorn, "thorough", 2),
			{Name: "from the first byte", Shard: 2, Run: func(c *Ctx) {
				p := ops[c.Choose(len(ops), "command")]
				t := &tornHist{e: newSeq(c, never(), 1)}
				e := t.e
				defer func() { e.s.end() }()
				t.snap()
				t.do(p)
				t.cutAt(c.Choose(t.ends[len(t.ends)-1]+1, "length"))
				e.do(o("set n #"))
				e.restart()
				e.s.compare(e.m, 1000, "after another restart")
			}},
			{Name: "large commands", Shard: 2, Weight: 2, Run: func(c *Ctx) {
				n := []int{4070, 4096, 65490, 65536, 131072}[c.Choose(5, "size")]
				what := c.Choose(3, "command")
				t := &tornHist{e: newSeq(c, never(), 1)}
				e := t.e
				defer func() { e.s.end() }()
				t.snap()
				t.do(o("rpush l a b"))
				switch what {
				case 0:
					t.do(oa("set", "k", fill(n)))
				case 1:
					t.do(oa("rpush", "l", fill(n/2), strings.Repeat("\r\n", n/4)))
				case 2:
					a := []string{"sadd", "s"}
					for i := 0; i < n/40; i++ {
						a = append(a, "member-number-"+itoa(i))
					}
					t.do(op{args: a})
				}
				t.do(o("set last x"))
				at := tears(e.s.aofBytes()[t.ends[1]:])
				t.cutAt(t.ends[1] + at[c.Choose(len(at), "length")])
				e.do(o("rpush l z"))
				e.restart()
				e.s.compare(e.m, 1000, "after another restart")
			}},
			{Name: "rewritten files", Shard: 2, Weight: 2, Run: func(c *Ctx) {
				// a rewritten file holds the commands in the order of its own tables: the complete ones are found
				// by cutting only behind the rewrite
				p := ops[c.Choose(len(ops), "command")]
				q := ops[c.Choose(len(ops), "second command")]
				t := &tornHist{e: newSeq(c, never(), 1)}
				e := t.e
				defer func() { e.s.end() }()
				for _, x := range opsOf("set a 1\nrpush l x y\nsadd s a b c\nhset h f v\nzadd z 1 m\nsetex v 80 w") {
					e.do(x)
				}
				e.do(o("bgrewriteaof"))
				e.s.tick(3)
				e.s.tick(3)
				t.snap()
				t.do(p)
				t.do(q)
				t.cutAt(t.ends[0] + c.Choose(t.ends[2]-t.ends[0]+1, "length"))
				e.do(o("rpush l z"))
				e.restart()
				e.s.compare(e.m, 1000, "after another restart")
			}},
			{Name: "inside a rewritten file", Shard: 1, Run: func(c *Ctx) {
				// one key per database: the file is SELECT, one command, SELECT, one command
				t := &tornHist{e: newSeq(c, never(), 1)}
				e := t.e
				defer func() { e.s.end() }()
				e.do(o("rpush l x y z"))
				e.do(o("select 1"))
				e.do(o("setex v 80 w"))
				e.do(o("bgrewriteaof"))
				e.s.tick(3)
				e.s.tick(3)
				b := e.s.aofBytes()
				n := c.Choose(len(b)+1, "length")
				full := e.m.clone()
				t.ends = []int{len(b)}
				t.snaps = []*Model{full}
				fs := rt.NewFS()
				fs.Files[aofPath] = &rt.Inode{ID: 1, Data: append([]byte(nil), b[:n]...)}
				e.s.w.Kill()
				e.s.w.FS = fs
				e.s = e.s.restart()
				got := e.s.dump()
				// whatever the order, each key is there completely or not at all, apart from a missing expiry
				for db := range got.dbs {
					for k, v := range got.dbs[db] {
						w := full.dbs[db][k]
						if w == nil || w.show2() != v.show2() && !(w.exp != 0 && v.exp == 0 && v.s == w.s) {
							if w != nil && w.exp != 0 && v.exp != 0 && v.s == w.s {
								continue
							}
							c.Fail("cut at byte %d: key %q of db %d is %s", n, k, db, v.show(e.s.w.NowMS()))
						}
					}
				}
				e.m = got
				e.k = []*Cli{e.s.dial()}
				e.do(o("set n #"))
				e.restart()
				e.s.compare(e.m, 1000, "after another restart")
			}},
			{Name: "every byte, longer", Tier: "thorough", Shard: 4, Weight: 4, Run: run(ops, after, 3, false, 1)},
			{Name: "twice, longer", Tier: "thorough", Shard: 4, Weight: 4, Run: run(ops, after, 2, true, 1)},
		}})
}

func init() {
	registerRestart()
	registerTorn()
}
