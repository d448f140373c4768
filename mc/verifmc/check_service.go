//go:build go1.23

package main

import (
	"bytes"
	"fmt"
	"strings"
	"syscall"

	"github.com/IfanTsai/metis/config"
	rt "github.com/IfanTsai/metis/verifvrt"
)

// --- C34: reading changes nothing ---

var readOps = opsOf(`
	ping
	get a
	get k
	get none
	ttl a
	ttl k
	ttl none
	keys *
	keys a
	keys none
	randomget
	hget k f
	hget k none
	hget a f
	hget none f
	hexists k f
	hexists k none
	hexists none f
	hkeys k
	hkeys none
	hlen k
	hlen none
	llen k
	llen none
	lindex k 0
	lindex k -1
	lindex k 7
	lindex none 0
	lrange k 0 -1
	lrange k 1 1
	lrange k 5 9
	lrange none 0 -1
	scard k
	scard none
	sismember k m
	sismember k none
	sismember none m
	smembers k
	smembers none
	sdiff k k2
	sdiff k none
	sdiff none k
	sdiff k k2 none k2
	sdiff k k
	sinter k k2
	sinter k none
	sinter none k
	sinter k k
	sunion k k2
	sunion none k2
	sunion k none k2
	sunion k k
	zrange k 0 -1
	zrange k 0 -1 withscores
	zrange k 5 9
	zrange none 0 -1
	zrangebyscore k -inf +inf
	zrangebyscore k 1 1 withscores
	zrangebyscore none 0 9
	zcard k
	zcard none
	zcount k 0 9
	zcount none 0 9
	zscore k m
	zscore k none
	zscore none m
	select 1
	select 0
	select 99
	auth x`)

// parseLog splits the bytes of the append-only file into commands.
func parseLog(b []byte) (cmds [][]string, err error) {
	for len(b) > 0 {
		r, n, err := parseReply(b)
		if err != nil {
			return cmds, err
		}
		if r.T != '*' {
			return cmds, fmt.Errorf("no command: %q", cut(b))
		}
		var a []string
		for _, x := range r.A {
			a = append(a, x.S)
		}
		cmds = append(cmds, a)
		b = b[n:]
	}
	return cmds, nil
}

// gone remembers which keys have been seen past their expiry.
type gone map[string]bool

func (g gone) note(e *seqEnv, later int64) {
	now := e.s.w.NowMS() + later
	for i, db := range e.m.dbs {
		for k, v := range db {
			id := fmt.Sprint(i, " ", k)
			if v.dead(now) {
				g[id] = true
			} else {
				delete(g, id)
			}
		}
	}
}

// reads runs every read and fails if one is logged.
func reads(e *seqEnv, g gone, list []op) {
	db := "?"
	for _, p := range list {
		g.note(e, p.late)
		before := append([]byte(nil), e.s.aofBytes()...)
		e.do(p)
		after := e.s.aofBytes()
		if bytes.Equal(before, after) {
			continue
		}
		if !bytes.HasPrefix(after, before) {
			e.c.Fail("%s alters what is in the append-only file", p)
		}
		cmds, err := parseLog(after[len(before):])
		if err != nil {
			e.c.Fail("%s: %v", p, err)
		}
		for i, a := range cmds {
			switch strings.ToLower(a[0]) {
			case "select":
				if i == len(cmds)-1 {
					break
				}
				db = a[1]
				continue
			case "del":
				ok := true
				for _, k := range a[1:] {
					any := false
					for id := range g {
						if strings.HasSuffix(id, " "+k) && (db == "?" || strings.HasPrefix(id, db+" ")) {
							any = true
						}
					}
					ok = ok && any
				}
				if ok {
					continue
				}
			}
			e.c.Fail("%s only reads, yet the append-only file gets %q", p, a)
		}
	}
}

func init() {
	writes := opsOf(`
		set k #
		setex k 1 #
		rpush k x y
		sadd k m #
		hset k f #
		zadd k 1 m 2 #
		sadd k2 m p
		set a #
		setex a 5 #
		expire k 1
		expire k 1000
		del k
		lpop k
		srem k m
		hdel k f
		zrem k m
		select 1
		@tick503
		@tick1001
		@tick1503`)
	firstRead := func(depth int) func(c *Ctx) {
		return func(c *Ctx) {
			ops := choosePick(c, writes, depth)
			r := readOps[c.Choose(len(readOps), "read")]
			late := c.Choose(2, "time passes just before") == 1
			e := newSeq(c, never(), 2)
			defer func() { e.s.end() }()
			e.run(ops)
			g := gone{}
			if late {
				r.late = 1503 // keys expire before the background expiry gets to them
			}
			reads(e, g, []op{r})
			r.late = 0
			e.do(tick(2))
			reads(e, g, []op{r, r})
			e.s.compare(e.m, 0, "after the reads")
			e.restart()
			e.s.compare(e.m, 1000, "after the reads and a restart")
		}
	}
	readPhase := func(depth int) func(c *Ctx) {
		return func(c *Ctx) {
			ops := choosePick(c, writes, depth)
			e := newSeq(c, never(), 2)
			defer func() { e.s.end() }()
			e.run(ops)
			reads(e, gone{}, readOps)
			e.s.compare(e.m, 0, "after the reads")
			e.restart()
			e.s.compare(e.m, 1000, "after the reads and a restart")
			if c.eng != nil && len(c.eng.samples) < 3 {
				c.Sample(fmt.Sprint(ops))
			}
		}
	}
	register(&Check{
		ID:          "C34",
		Explanation: "After every sequence of writes, expiries and time up to the stated depth, each command that only reads is run with existing, missing, expired and wrongly typed keys: the append-only file must not grow (but for the deletion of keys that have expired), the keyspace with all expiries must be as before, also after a restart; the same at every size around the thresholds of the data structures, and while a rewrite is under way, which must not carry a read into the new file.",
		Phases: []Phase{
			{Name: "reads-2", Shard: 2, Weight: 3, Run: readPhase(2)},
			{Name: "reads-3", Shard: 3, Weight: 4, Run: readPhase(3)},
			{Name: "reads-4", Tier: "thorough", Shard: 4, Weight: 8, Run: readPhase(4)},
			{Name: "first read-2", Shard: 2, Weight: 2, Run: firstRead(2)},
			{Name: "first read-3", Tier: "thorough", Shard: 3, Weight: 8, Run: firstRead(3)},
			{Name: "sizes", Shard: 2, Weight: 1, Run: func(c *Ctx) {
				kind := c.Choose(5, "kind")
				n2 := []int{0, 1, 2, 5, 20, 400}[c.Choose(6, "size of the other")]
				n := []int{1, 2, 3, 4, 5, 8, 9, 16, 17, 64, 65, 300}[c.Choose(12, "size")]
				rep := 1 + c.Choose(2, "times")*9
				e := newSeq(c, never(), 1)
				defer func() { e.s.end() }()
				for i := 0; i < n; i++ {
					v := itoa(i)
					switch kind {
					case 0:
						e.do(oa("set", "k"+v, v))
					case 1:
						e.do(oa("rpush", "k", "m"+v))
					case 2:
						e.do(oa("hset", "k", "f"+v, v))
					case 3:
						e.do(oa("sadd", "k", "m"+v))
					case 4:
						e.do(oa("zadd", "k", itoa(i/2), "m"+v))
					}
				}
				for i := 0; i < n2; i++ {
					if i%2 == 0 {
						e.do(oa("sadd", "k2", "m"+itoa(i)))
					} else {
						e.do(oa("sadd", "k2", "o"+itoa(i)))
					}
				}
				e.do(o("expire k 500"))
				for i := 0; i < rep; i++ {
					reads(e, gone{}, readOps)
				}
				e.s.compare(e.m, 0, "after the reads")
				e.restart()
				e.s.compare(e.m, 1000, "after the reads and a restart")
				c.Sample(fmt.Sprintf("kind %d, %d elements, %d times", kind, n, rep))
			}},
			{Name: "during a rewrite", Shard: 2, Weight: 1, Run: func(c *Ctx) {
				ops := choosePick(c, writes, 1)
				r := readOps[c.Choose(len(readOps), "read")]
				w := writes[c.Choose(len(writes), "write")]
				order := c.Choose(3, "order")
				e := newSeq(c, never(), 1)
				defer func() { e.s.end() }()
				e.run(ops)
				e.s.noBG = true
				e.do(o("bgrewriteaof"))
				switch order {
				case 0:
					e.do(r)
				case 1:
					e.do(r)
					e.do(w)
				case 2:
					e.do(w)
					e.do(r)
				}
				e.s.noBG = false
				e.s.settle()
				e.do(tick(2))
				e.do(tick(2))
				cmds, err := parseLog(e.s.aofBytes())
				if err != nil {
					c.Fail("the rewritten file: %v", err)
				}
				for _, a := range cmds {
					switch strings.ToLower(a[0]) {
					case "select":
					case r.args[0]:
						c.Fail("%s during a rewrite is in the rewritten file as %q", r, a)
					}
				}
				e.s.compare(e.m, 0, "after the rewrite")
				e.restart()
				e.s.compare(e.m, 1000, "after the rewrite and a restart")
			}},
		},
	})
}

// --- C35: resources do not grow with the time of service ---

type usage struct {
	fds     map[rt.FDKind]int
	threads int
	files   int
	names   []string
}

func (e *seqEnv) usage() usage {
	u := usage{fds: e.s.w.Net.OpenFDs(), names: e.s.w.FS.Paths()}
	u.files = len(u.names)
	for _, t := range e.s.w.Threads {
		if !t.Done {
			u.threads++
		}
	}
	return u
}

type cycle struct {
	name string
	run  func(e *seqEnv)
}

func (e *seqEnv) open() *rt.Conn {
	k := e.s.w.Dial(localhost, testPort)
	if k == nil {
		e.c.Fail("a connection is refused")
	}
	return k
}

func (e *seqEnv) failOnce(op string, errno syscall.Errno, f func()) {
	n := 0
	e.s.w.Net.Fail = func(o string, fd int) syscall.Errno {
		if o == op && n == 0 {
			n++
			return errno
		}
		return 0
	}
	f()
	e.s.w.Net.Fail = nil
}

func visit(send string, leave func(k *rt.Conn)) func(e *seqEnv) {
	return func(e *seqEnv) {
		k := e.open()
		e.s.settle()
		k.Send([]byte(send))
		e.s.settle()
		leave(k)
		e.s.settle()
	}
}

var cycles = []cycle{
	{"a client comes, asks and goes", visit(string(encode("get", "a")), func(k *rt.Conn) { k.Close() })},
	{"a client goes at once", func(e *seqEnv) {
		k := e.open()
		k.Close()
		e.s.settle()
	}},
	{"a client resets with half a request sent", visit("*2\r\n$3\r\nGET\r\n$1", func(k *rt.Conn) { k.Rst() })},
	{"a client sends garbage", visit("*x\r\n", func(k *rt.Conn) { k.Close() })},
	{"a client sends requests and stops sending", visit(string(encode("get", "a"))+"*1\r\n", func(k *rt.Conn) { k.ShutWrite() })},
	{"a client goes with replies unsent", func(e *seqEnv) {
		k := e.open()
		e.s.settle()
		k.OutFull = true
		k.Send(encode("lrange", "l", "0", "-1"))
		k.Send(encode("ping"))
		e.s.settle()
		k.Close()
		k.OutFull = false
		e.s.settle()
	}},
	{"a client resets with replies unsent", func(e *seqEnv) {
		k := e.open()
		e.s.settle()
		k.OutFull = true
		k.Send(encode("lrange", "l", "0", "-1"))
		k.Send(encode("ping"))
		e.s.settle()
		k.Rst()
		k.OutFull = false
		e.s.settle()
	}},
	{"three clients come and go", func(e *seqEnv) {
		a, b, d := e.open(), e.open(), e.open()
		e.s.settle()
		a.Send(encode("ping"))
		b.Send(encode("nosuch"))
		e.s.settle()
		b.Close()
		e.s.settle()
		a.Close()
		d.Rst()
		e.s.settle()
	}},
	{"a failing accept", func(e *seqEnv) {
		e.failOnce("accept", syscall.ECONNABORTED, func() {
			k := e.open()
			e.s.settle()
			k.Close()
			e.s.settle()
		})
	}},
	{"an accept without descriptors left", func(e *seqEnv) {
		e.failOnce("accept", syscall.EMFILE, func() {
			k := e.open()
			e.s.settle()
			k.Close()
			e.s.settle()
		})
	}},
	{"a new connection that cannot be made non-blocking", func(e *seqEnv) {
		e.failOnce("setnonblock", syscall.EINVAL, func() {
			k := e.open()
			e.s.settle()
			k.Close()
			e.s.settle()
		})
	}},
	{"a new connection that cannot be polled", func(e *seqEnv) {
		e.failOnce("epoll_ctl", syscall.ENOMEM, func() {
			k := e.open()
			e.s.settle()
			k.Close()
			e.s.settle()
		})
	}},
	{"a read that fails", func(e *seqEnv) {
		k := e.open()
		e.s.settle()
		e.failOnce("read", syscall.EIO, func() {
			k.Send(encode("ping"))
			e.s.settle()
		})
		k.Close()
		e.s.settle()
	}},
	{"a write that fails", func(e *seqEnv) {
		k := e.open()
		e.s.settle()
		e.failOnce("write", syscall.EIO, func() {
			k.Send(encode("ping"))
			e.s.settle()
		})
		k.Close()
		e.s.settle()
	}},
	{"a rewrite", func(e *seqEnv) {
		e.do(o("set a #"))
		e.do(o("bgrewriteaof"))
		e.do(tick(2))
		e.do(tick(2))
	}},
	{"a rewrite with commands meanwhile, asked for twice", func(e *seqEnv) {
		e.s.noBG = true
		e.do(o("bgrewriteaof"))
		e.do(o("set b #"))
		e.do(o("bgrewriteaof"))
		e.do(tick(2))
		e.s.noBG = false
		e.s.settle()
		e.do(tick(2))
		e.do(tick(2))
	}},
	{"a rewrite in the middle of a pipeline", func(e *seqEnv) {
		e.s.w.Fine = true
		k := e.open()
		e.s.settle()
		k.Send(append(append(encode("set", "a", "x"), encode("bgrewriteaof")...), encode("ping")...))
		e.s.settle()
		e.do(o("set a #"))
		k.Close()
		e.s.settle()
		e.do(tick(2))
		e.s.w.Fine = false
		e.do(tick(2))
	}},
	{"a rewrite of nothing", func(e *seqEnv) {
		e.do(o("del a b l x y"))
		for i := 0; i < 2; i++ {
			e.do(o("bgrewriteaof"))
			e.do(tick(2))
			e.do(tick(2))
		}
		e.do(o("rpush l value-# value-#"))
	}},
	{"a request and garbage at once", visit(string(encode("get", "a"))+"*x\r\n", func(k *rt.Conn) { k.Close() })},
	{"writes and fsyncs", func(e *seqEnv) {
		e.do(o("set a #"))
		e.do(tick(1100))
		e.do(o("set b #"))
		e.do(tick(1100))
		e.do(tick(1100))
	}},
	{"a key that expires", func(e *seqEnv) {
		e.do(o("setex x 1 #"))
		e.do(tick(2001))
		e.do(o("setex y 1 #"))
		e.s.w.NowNS += 2001e6
		e.do(o("get y"))
	}},
	{"a rewrite during an fsync", func(e *seqEnv) {
		e.do(o("set a #"))
		e.s.noBG = true
		e.do(tick(1100))
		e.do(o("bgrewriteaof"))
		e.s.noBG = false
		e.s.settle()
		e.do(tick(2))
		e.do(tick(2))
	}},
	{"errors", func(e *seqEnv) {
		e.do(o("nosuch"))
		e.do(o("lpush a x"))
		e.do(o("zadd z nan m"))
		e.do(o("select 99"))
		e.do(o("auth no"))
	}},
}

func resPhase(depth int) func(c *Ctx) {
	return func(c *Ctx) {
		pol := policies[c.Choose(len(policies), "policy")]
		var cs []cycle
		for i := 0; i < depth; i++ {
			cs = append(cs, cycles[c.Choose(len(cycles), "cycle")])
		}
		pct := c.Choose(2, "automatic rewrites")
		cfg := aofConfig(pol)
		if pct == 1 {
			cfg.AofRewritePercent, cfg.AofRewriteMinSize = 50, 100
		}
		e := newSeq(c, cfg, 1)
		defer func() { e.s.end() }()
		for i := 0; i < 20; i++ {
			e.do(o("rpush l value-#"))
		}
		e.do(o("set a #"))
		round := func() usage {
			for _, y := range cs {
				c.Logf("%s", y.name)
				y.run(e)
			}
			for i := 0; i < 4; i++ {
				e.do(tick(1100))
			}
			return e.usage()
		}
		a := round()
		round()
		b := round()
		var names []string
		for _, y := range cs {
			names = append(names, y.name)
		}
		what := strings.Join(names, "; ")
		for _, k := range []rt.FDKind{rt.FDSock, rt.FDListen, rt.FDConn, rt.FDEpoll, rt.FDFile} {
			if b.fds[k] > a.fds[k] {
				c.Fail("the server holds %d more descriptors (%s) after two more rounds of: %s", b.fds[k]-a.fds[k], fdNames[k], what)
			}
		}
		if b.threads > a.threads {
			c.Fail("the server has %d more goroutines after two more rounds of: %s", b.threads-a.threads, what)
		}
		if b.files > a.files {
			c.Fail("two more rounds of: %s leave more files: %v", what, b.names)
		}
		if n := b.fds[rt.FDConn]; n != 1 {
			c.Fail("one client is connected, the server holds %d connections after: %s", n, what)
		}
		e.s.compare(e.m, 0, "after the rounds")
		c.Sample(what)
	}
}

var fdNames = map[rt.FDKind]string{rt.FDSock: "sockets", rt.FDListen: "listening sockets", rt.FDConn: "connections", rt.FDEpoll: "pollers", rt.FDFile: "files"}

func init() {
	register(&Check{
		ID:          "C35",
		Explanation: "Every sequence up to the stated length of ways to use the server (clients that come and go in every manner, failing socket calls, rewrites alone and overlapping with commands and fsyncs, expiring keys, errors), under every fsync policy, with and without automatic rewrites, is repeated: later rounds must leave no more open descriptors of any kind, running goroutines and files than the first, and no connection but those of connected clients.",
		Phases: []Phase{
			{Name: "rounds-1", Shard: 2, Weight: 1, Run: resPhase(1)},
			{Name: "rounds-2", Shard: 3, Weight: 4, Run: resPhase(2)},
			{Name: "rounds-3", Shard: 3, Weight: 8, Run: resPhase(3)},
			{Name: "rounds-4", Tier: "thorough", Shard: 4, Weight: 8, Run: resPhase(4)},
		},
	})
}

// --- C36: slow background work delays nobody ---

// stall lets the background threads do n file operations and holds those after them.
func (s *Srv) stall(n int) (release func()) {
	s.w.Fine, s.w.SlowSync = true, true
	done := 0
	s.hold = func(t *rt.Thread) bool { return t.Pt.Kind == rt.PFS && done >= n }
	s.ran = func(t *rt.Thread) {
		if t.Pt.Kind == rt.PFS {
			done++
		}
	}
	return func() {
		s.hold, s.ran = nil, nil
		s.w.Fine, s.w.SlowSync = false, false
		s.settle()
	}
}

func (s *Srv) held() int {
	n := 0
	for _, t := range s.w.Threads {
		if t != s.t0 && !t.Done {
			n++
		}
	}
	return n
}

func slowRewrite(depth int) func(c *Ctx) {
	ops := opsOf(`
		set a ` + strings.Repeat("0123456789", 11) + `#
		get a
		rpush l #
		lrange l 0 -1
		del l
		expire a 1
		bgrewriteaof
		select 1
		@tick1100
		@tick5000
		@c1 sadd s #
		keys *`)
	return func(c *Ctx) {
		k := c.Choose(14, "file operations before the disk stalls")
		pol := policies[c.Choose(len(policies), "policy")]
		auto := c.Choose(2, "automatic") == 1
		seq := choosePick(c, ops, depth)
		cfg := aofConfig(pol)
		if auto {
			cfg.AofRewritePercent, cfg.AofRewriteMinSize = 100, 60
		}
		e := newSeq(c, cfg, 2)
		defer func() { e.s.end() }()
		release := e.s.stall(k)
		e.do(o("set a #"))
		e.do(o("rpush l x y"))
		e.do(on(1, "select 1"))
		e.do(on(1, "sadd s p q"))
		e.do(o("hset h f #"))
		if auto {
			e.do(tick(2))
		} else {
			e.do(o("bgrewriteaof"))
		}
		for _, p := range seq {
			e.do(p)
		}
		// a new client is served as well
		n := e.s.dial()
		n.do(e.m, "set", "n", "1")
		n.do(e.m, "get", "a")
		n.conn.Close()
		e.s.settle()
		stalled := e.s.held()
		release()
		e.do(tick(2))
		e.do(tick(2))
		if e.s.held() > 0 {
			c.Fail("%d background tasks never end", e.s.held())
		}
		e.do(o("set z #"))
		e.s.compare(e.m, 0, "after the rewrite")
		e.restart()
		e.s.compare(e.m, 1000, "after the rewrite and a restart")
		if stalled > 0 {
			c.Sample(fmt.Sprintf("%s, automatic: %v, stalled after %d file operations, meanwhile %v", pol, auto, k, seq))
		}
	}
}

func slowFsync(depth int) func(c *Ctx) {
	ops := opsOf(`
		set a #
		rpush l #
		get a
		@tick500
		@tick1100
		@tick5000
		@c1 set b #
		setex x 1 #`)
	return func(c *Ctx) {
		k := c.Choose(5, "file operations before the disk stalls")
		seq := choosePick(c, ops, depth)
		e := newSeq(c, aofConfig(config.TypeAppendFsyncEverySecond), 2)
		defer func() { e.s.end() }()
		release := e.s.stall(k)
		e.do(o("set a #"))
		e.do(tick(1100))
		for _, p := range seq {
			e.do(p)
		}
		n := e.s.dial()
		n.do(e.m, "set", "n", "1")
		n.do(e.m, "get", "a")
		n.conn.Close()
		e.s.settle()
		release()
		e.do(tick(1100))
		if e.s.held() > 0 {
			c.Fail("%d background tasks never end", e.s.held())
		}
		e.s.compare(e.m, 0, "after the fsync")
		e.restart()
		e.s.compare(e.m, 1000, "after the fsync and a restart")
	}
}

func init() {
	register(&Check{
		ID:          "C36",
		Explanation: "The disk is made to stall at every file operation of the background rewriting and of the background fsync (before and inside it); meanwhile every sequence of commands of two clients, time and a new connection up to the stated depth must be answered as if nothing were under way, and the work must complete once the disk does. And, for several amounts of data, the thread that serves clients must neither write the rewritten data nor, with everysec, run the fsync itself.",
		Phases: []Phase{
			{Name: "rewrite-1", Shard: 2, Weight: 2, Run: slowRewrite(1)},
			{Name: "rewrite-2", Shard: 3, Weight: 4, Run: slowRewrite(2)},
			{Name: "fsync-3", Shard: 2, Weight: 3, Run: slowFsync(3)},
			{Name: "expiry", Shard: 2, Weight: 1, Run: func(c *Ctx) {
				k := c.Choose(14, "file operations before the disk stalls")
				pol := policies[c.Choose(len(policies), "policy")]
				what := c.Choose(3, "stalled")
				order := c.Choose(2, "expiry set before") == 1
				e := newSeq(c, aofConfig(pol), 2)
				defer func() { e.s.end() }()
				set := func() {
					e.do(o("setex x 1 #"))
					e.do(on(1, "select 1"))
					e.do(on(1, "rpush l a b"))
					e.do(on(1, "expire l 1"))
				}
				release := e.s.stall(k)
				e.do(o("set a #"))
				if order {
					set()
				}
				if what > 0 {
					e.do(tick(1100)) // an fsync may be under way
				}
				if what != 1 {
					e.do(o("bgrewriteaof"))
				}
				if !order {
					set()
				}
				for i := 0; i < 3; i++ {
					e.do(tick(1100))
				}
				cmds, err := parseLog(e.s.aofBytes())
				if err != nil {
					c.Fail("the log: %v", err)
				}
				gone, has := map[string]bool{}, false
				for _, a := range cmds {
					if len(a) > 1 && strings.EqualFold(a[0], "del") {
						for _, key := range a[1:] {
							gone[key] = true
						}
					}
					has = has || len(a) > 1 && a[1] == "x"
				}
				if has && !(gone["x"] && gone["l"]) && e.s.held() > 0 {
					c.Fail("keys that have expired are not removed while background work is stalled: the log is %q", cmds)
				}
				release()
				e.do(tick(2))
				e.do(tick(2))
				e.s.compare(e.m, 0, "after the background work")
				e.restart()
				e.s.compare(e.m, 1000, "after the background work and a restart")
			}},
			{Name: "who works", Shard: 2, Weight: 1, Run: func(c *Ctx) {
				kind := c.Choose(6, "data")
				pol := policies[c.Choose(len(policies), "policy")]
				auto := c.Choose(2, "automatic") == 1
				busy := c.Choose(2, "writes before and after") == 1
				cfg := aofConfig(pol)
				if auto {
					cfg.AofRewritePercent, cfg.AofRewriteMinSize = 100, 60
				}
				e := newSeq(c, cfg, 1)
				defer func() { e.s.end() }()
				if kind == 5 {
					e.do(oa("set", "k", fill(60000)))
				}
				for i := 0; i < 300 && kind < 5; i++ {
					v := fmt.Sprintf("%s%d", fill(150), i)
					switch kind {
					case 0:
						e.do(oa("set", "k"+itoa(i), v))
					case 1:
						e.do(oa("rpush", "k", v))
					case 2:
						e.do(oa("hset", "k", v, v))
					case 3:
						e.do(oa("sadd", "k", v))
					case 4:
						e.do(oa("zadd", "k", itoa(i), v))
					}
				}
				e.s.w.Rec = true
				old := e.s.w.FS.Files[aofPath].ID
				from := len(e.s.w.Log)
				if auto {
					e.do(tick(2))
				} else {
					e.do(o("bgrewriteaof"))
				}
				if busy {
					e.do(o("set w #"))
				}
				e.do(tick(2))
				if busy {
					e.do(o("set w #"))
				}
				e.do(tick(2))
				if e.s.w.FS.Files[aofPath].ID == old {
					c.Logf("the append-only file has been rewritten in place, or not")
				}
				written := 0
				for _, x := range e.s.w.Log[from:] {
					if x.Thread == e.s.t0.ID && x.Kind == rt.EWrite {
						written += len(x.Data)
					}
				}
				if written > 10000 {
					c.Fail("the thread that serves clients writes %d bytes itself for a rewrite of %d bytes", written, len(e.s.aofBytes()))
				}
				if pol == config.TypeAppendFsyncEverySecond {
					e.do(tick(1100))
					ino := e.s.w.FS.Files[aofPath].ID
					from = len(e.s.w.Log)
					for i := 0; i < 4; i++ {
						e.do(o("set w #"))
						e.do(tick(700))
					}
					syncs := 0
					for _, x := range e.s.w.Log[from:] {
						if x.Kind != rt.ESync || x.Ino != ino {
							continue
						}
						syncs++
						if x.Thread == e.s.t0.ID {
							c.Fail("with everysec the thread that serves clients runs an fsync itself")
						}
					}
					if syncs == 0 && !auto {
						c.Fail("no fsync within 2.8 seconds of writes")
					}
				}
				e.s.compare(e.m, 0, "after the rewrite")
				c.Sample(fmt.Sprintf("data %d, %s, automatic: %v, writes: %v", kind, pol, auto, busy))
			}},
			{Name: "rewrite-3", Tier: "thorough", Shard: 3, Weight: 8, Run: slowRewrite(3)},
			{Name: "fsync-4", Shard: 3, Weight: 4, Run: slowFsync(4)},
			{Name: "fsync-5", Tier: "thorough", Shard: 3, Weight: 4, Run: slowFsync(5)},
		},
	})
}
