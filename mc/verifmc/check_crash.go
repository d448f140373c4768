//go:build go1.23

package main

import (
	"fmt"
	"strconv"
	"strings"
	"syscall"

	"github.com/IfanTsai/metis/config"
	rt "github.com/IfanTsai/metis/verifvrt"
)

var policies = []config.TypeAppnedFsync{config.TypeAppendFsyncAlways, config.TypeAppendFsyncEverySecond, config.TypeAppendFsyncNever}

// crashCmds are commands of every kind of effect; # is a value unique to the step.
var crashCmds = []string{
	"set a #", "rpush l # #", "lpop l", "hset h f #", "sadd s #", "spop s", "zadd z 1 #", "expire a 100",
	"setex b 50 #", "select 1", "get a",
}

func substAll(cmds []string) [][]string {
	var r [][]string
	for i, s := range cmds {
		a := strings.Fields(s)
		for j := range a {
			if a[j] == "#" {
				a[j] = fmt.Sprintf("v%d.%d", i, j)
			}
		}
		r = append(r, a)
	}
	return r
}

func pickCmds(c *Ctx, alphabet []string, n int) []string {
	r := make([]string, n)
	for i := range r {
		r[i] = alphabet[c.Choose(len(alphabet), "command")]
	}
	return r
}

// crashPipelines runs pipelined commands and crashes at every effect.
func crashPipelines(depth int, alphabet []string, segs int) func(c *Ctx) {
	return func(c *Ctx) {
		cmds := pickCmds(c, alphabet, depth)
		pol := policies[c.Choose(3, "fsync policy")]
		seg := c.Choose(segs, "segmentation")
		short := c.Choose(2, "short socket writes") == 1
		s := bootRec(c, nil, aofConfig(pol), 0)
		defer func() { s.end() }()
		h := newHist(c, s, newModel(s.cfg))
		h.p.send(h.p.queue(f("set a old"), f("rpush l x y"), f("sadd s p q")))
		s.settle()
		h.absorb(true)
		h.from = len(s.w.Log)
		if short {
			h.p.conn.WriteFn = func(n int) (int, syscall.Errno) { return min(n, 3), 0 }
		}
		reqs := substAll(cmds)
		switch seg {
		case 0:
			h.p.send(h.p.queue(reqs...))
		case 1:
			for _, r := range reqs {
				h.p.send(h.p.queue(r))
				s.settle()
			}
		case 2:
			h.p.conn.ReadMax = func(n int) int { return min(n, 13) }
			h.p.send(h.p.queue(reqs...))
		case 3:
			b := h.p.queue(reqs...)
			k := len(encode(reqs[0]...)) + 9
			h.p.send(b[:k])
			s.settle()
			h.p.send(b[k:])
		}
		s.settle()
		h.absorb(true)
		c.Sample(fmt.Sprint(cmds, " fsync ", pol, " segmentation ", seg))
		h.scan(true, pol == config.TypeAppendFsyncAlways)
	}
}

// crashClients runs several connections that append to one list.
func crashClients(conns, depth int) func(c *Ctx) {
	return func(c *Ctx) {
		pol := policies[c.Choose(2, "fsync policy")]
		rev := c.Choose(2, "order of events") == 1
		s := bootRec(c, nil, aofConfig(pol), 0)
		defer func() { s.end() }()
		if rev {
			s.w.Net.Reorder = reverse
		}
		s.w.Net.Advance = 0
		var ks []*Cli
		for i := 0; i < conns; i++ {
			ks = append(ks, s.dial())
		}
		n := 0
		req := func() []byte {
			n++
			return encode("rpush", "list", "e"+itoa(n))
		}
		from := len(s.w.Log)
		var rest [8][]byte
		for i := 0; i < depth; i++ {
			a := c.Choose(2+5*conns, "action")
			if a == 0 {
				s.step(s.t0)
				s.alive("iteration")
				continue
			}
			if a == 1 {
				s.tick(1103)
				continue
			}
			k := ks[(a-2)/5]
			ri := (a - 2) / 5
			if k.conn.Closed {
				continue
			}
			switch (a - 2) % 5 {
			case 0:
				k.conn.Send(append(rest[ri], req()...))
				rest[ri] = nil
			case 1:
				b := append(rest[ri], req()...)
				k.conn.Send(append(b, req()...))
				rest[ri] = nil
			case 2:
				b := append(rest[ri], req()...)
				k.conn.Send(b[:len(b)-7])
				rest[ri] = b[len(b)-7:]
			case 3:
				k.conn.OutFull = !k.conn.OutFull
			case 4:
				k.conn.Close()
			}
		}
		for i, k := range ks {
			k.conn.OutFull = false
			if !k.conn.Closed && rest[i] != nil {
				k.conn.Send(rest[i])
			}
		}
		s.settle()
		mark := len(s.w.Log)
		final := s.dump()
		log := s.w.Log[:mark]
		s.w.Kill()
		var order []string
		if v := final.dbs[0]["list"]; v != nil {
			order = v.l
		}
		// what each connection had been told, as positions in the list, by offset in its replies
		type told struct {
			off int
			pos int64
		}
		tolds := map[int][]told{}
		for _, k := range ks {
			off := 0
			rs, restb, err := parseReplies(k.conn.Out)
			if err != nil {
				c.Fail("%v", err)
			}
			for _, r := range rs {
				c.Check(r.T == ':' && r.N >= 1 && r.N <= int64(len(order)), "RPUSH answers %s, the list has %d elements", r, len(order))
				tolds[k.conn.ID] = append(tolds[k.conn.ID], told{off, r.N})
				off += len(r.String()) + 2
			}
			c.Check(len(restb) == 0 || k.conn.Closed, "an incomplete reply %q", restb)
		}
		sent := map[int]int{}
		acked := int64(0)
		for n := 0; n <= len(log); n++ {
			now := s.w.NowNS
			if n < len(log) {
				now = log[n].NowNS
			}
			if n > 0 && log[n-1].Kind == rt.EAck {
				id := log[n-1].Conn
				sent[id] += len(log[n-1].Data)
				for _, t := range tolds[id] {
					if t.off < sent[id] && t.pos > acked {
						acked = t.pos
					}
				}
			}
			if n < from {
				continue
			}
			check := func(fs *rt.FS, what func() string) {
				got := recoverState(c, fs, s.cfg, now, what, nil)
				var l []string
				if v := got.dbs[0]["list"]; v != nil {
					l = v.l
				}
				if int64(len(l)) < acked {
					c.Fail("%s: %d appends were acknowledged, %v is recovered of %v", what(), acked, l, order)
				}
				if len(l) > len(order) || fmt.Sprint(l) != fmt.Sprint(order[:len(l)]) {
					c.Fail("%s: %v is recovered, which is no prefix of what was executed, %v", what(), l, order)
				}
			}
			what := func() string {
				w := fmt.Sprintf("crash after effect %d of %d", n, len(log))
				if n > 0 {
					w += " (" + log[n-1].String() + ")"
				}
				return w
			}
			check(rt.CrashState(s.fs0, log, n, -1), what)
			if pol == config.TypeAppendFsyncAlways {
				rt.PowerLossStates(s.fs0, log, n, func(fs *rt.FS, desc string) {
					check(fs, func() string { return what() + ", " + desc })
				})
			}
		}
	}
}

// crashTimed has expiring keys and passing time.
func crashTimed(depth int) func(c *Ctx) {
	ops := []string{"setex a 2 #", "set a #", "expire a 2", "rpush a # #", "get a", "tick", "set b #", "hset c f #"}
	return func(c *Ctx) {
		cmds := pickCmds(c, ops, depth)
		down := []int64{0, 1507, 3011}[c.Choose(3, "time until the restart")]
		s := bootRec(c, nil, aofConfig(policies[c.Choose(2, "fsync policy")]), 0)
		defer func() { s.end() }()
		h := newHist(c, s, newModel(s.cfg))
		h.down = down
		for _, r := range substAll(cmds) {
			if r[0] == "tick" {
				s.tick(1499)
				continue
			}
			h.p.send(h.p.queue(r))
			s.settle()
			h.absorb(true)
		}
		h.scan(true, false)
	}
}

// crashFaults lets one operation on the append-only file fail.
func crashFaults(depth int) func(c *Ctx) {
	return func(c *Ctx) {
		cmds := pickCmds(c, []string{"rpush l #", "set a #", "setex b 50 #", "select 1"}, depth)
		pol := policies[c.Choose(2, "fsync policy")]
		opn := []string{"write", "sync"}[c.Choose(2, "failing operation")]
		at := c.Choose(depth+1, "failing call")
		part := c.Choose(3, "bytes written")
		together := c.Choose(2, "pipelined") == 1
		s := bootRec(c, nil, aofConfig(pol), 0)
		defer func() { s.end() }()
		s.dieOK = true
		h := newHist(c, s, newModel(s.cfg))
		n := 0
		s.w.FS.Fault = func(op, path string, k int) (int, error) {
			if op != opn || path != aofPath {
				return k, nil
			}
			n++
			if n-1 != at {
				return k, nil
			}
			e := syscall.ENOSPC
			if op == "sync" {
				e = syscall.EIO
			}
			return []int{0, k / 2, max(0, k-1)}[part], e
		}
		reqs := substAll(cmds)
		if together {
			h.p.send(h.p.queue(reqs...))
			s.settle()
		} else {
			for _, r := range reqs {
				if s.w.Dead() != nil || h.p.conn.SrvClose {
					break
				}
				h.p.send(h.p.queue(r))
				s.settle()
				if opn == "sync" && c.Choose(2, "time passes") == 1 && s.w.Dead() == nil {
					h.absorb(false)
					s.tick(1101)
				}
			}
		}
		// commands that were refused changed nothing; the model takes their replies as they come
		h.absorb(false)
		// what was executed but not answered may or may not be there
		lo := len(h.snaps) - 1
		m := h.p.m.clone()
		st := h.p.st
		for _, a := range h.p.sent[h.p.done:] {
			applyBlind(m, &st, a, s.w.NowMS())
			h.snaps = append(h.snaps, m.clone())
		}
		_ = lo
		h.scan(true, pol == config.TypeAppendFsyncAlways)
	}
}

// applyBlind executes a command of crashFaults on the model without knowing its reply.
func applyBlind(m *Model, st *ConnState, a []string, now int64) {
	var r Reply
	switch a[0] {
	case "rpush":
		n := int64(1)
		if v := m.live(st.db, a[1], now); v != nil {
			n += int64(len(v.l))
		}
		r = Reply{T: ':', N: n}
	default:
		r = Reply{T: '+', S: "OK"}
	}
	if err := m.exec(st, a, r, now); err != nil {
		panic("verifmc: " + err.Error())
	}
}

// crashTwice crashes, goes on with the recovered server and crashes again.
func crashTwice(d1, d2 int) func(c *Ctx) {
	alphabet := []string{"set a #", "rpush l # #", "setex b 50 #", "select 1", "spop s"}
	return func(c *Ctx) {
		pol := policies[c.Choose(2, "fsync policy")]
		first := pickCmds(c, alphabet, d1)
		second := pickCmds(c, alphabet, d2)
		s := bootRec(c, nil, aofConfig(pol), 0)
		defer func() { s.end() }()
		m := newModel(s.cfg)
		h := newHist(c, s, m)
		h.p.send(h.p.queue(f("sadd s x y z")))
		s.settle()
		h.absorb(true)
		h.from = len(s.w.Log)
		h.p.send(h.p.queue(substAll(first)...))
		s.settle()
		h.absorb(true)
		// the first crash, in the middle of a write
		at := h.from + c.Choose(len(s.w.Log)-h.from+1, "crash")
		torn := -1
		if at < len(s.w.Log) && s.w.Log[at].Kind == rt.EWrite {
			if t := c.Choose(len(s.w.Log[at].Data), "torn at"); t > 0 {
				torn = t
			}
		}
		fs := rt.CrashState(s.fs0, s.w.Log, at, torn)
		s.w.Kill()
		s2 := bootRec(c, fs, s.cfg, s.w.NowNS)
		defer func() { s2.end() }()
		rec := s2.dump()
		h.explain(rec, h.acked(at), len(h.snaps)-1, s.w.NowMS(), func() string { return h.describe(at, torn) })
		h2 := newHist(c, s2, rec.clone())
		reqs := substAll(second)
		for i := range reqs {
			for j := range reqs[i] {
				reqs[i][j] = strings.Replace(reqs[i][j], "v", "w", 1)
			}
		}
		h2.p.send(h2.p.queue(reqs...))
		s2.settle()
		h2.absorb(true)
		h2.scan(true, pol == config.TypeAppendFsyncAlways)
	}
}

// crashLarge: values and replies that fill buffers.
func crashLarge(depth int) func(c *Ctx) {
	alphabet := []string{"set a @600", "rpush l @5000", "lpop l", "rpop l", "sadd s @20000", "spop s", "get b", "lrange l 0 -1", "bgrewriteaof"}
	return func(c *Ctx) {
		cmds := pickCmds(c, alphabet, depth)
		pol := policies[2*c.Choose(2, "fsync policy")]
		seg := c.Choose(2, "segmentation")
		s := bootRec(c, nil, aofConfig(pol), 0)
		defer func() { s.end() }()
		h := newHist(c, s, newModel(s.cfg))
		large := func(cmds []string) [][]string {
			rs := substAll(cmds)
			for i, r := range rs {
				for j := range r {
					if r[j][0] == '@' {
						n, _ := strconv.Atoi(r[j][1:])
						r[j] = fmt.Sprintf("%d.%d.%d", len(h.p.sent), i, j) + fill(n)
					}
				}
			}
			return rs
		}
		h.p.send(h.p.queue(large([]string{"set b @9000", "rpush l @600 x @5000 @20000", "sadd s @600"})...))
		s.settle()
		h.absorb(true)
		h.from = len(s.w.Log)
		reqs := large(cmds)
		if seg == 0 {
			h.p.send(h.p.queue(reqs...))
		} else {
			for _, r := range reqs {
				h.p.send(h.p.queue(r))
				s.settle()
			}
		}
		s.settle()
		h.absorb(true)
		c.Sample(fmt.Sprint(cmds, " fsync ", pol, " segmentation ", seg))
		h.scan(false, pol == config.TypeAppendFsyncAlways)
	}
}

func init() {
	register(&Check{ID: "C01", Explanation: "The real server runs in a simulated world in which every effect on files and sockets is recorded, in order, while one to three connections send all sequences of write commands, in all segmentations and readiness orders of the phases. For each run the process is crashed after every single effect, with every torn last write, and with appendfsync=always also with every loss of what was not yet fsynced; the real server is started on what is left, and its keyspace, read back through commands, must be the model state after some number of commands that is at least the number of those of which any reply byte had left.",
		Assumptions: []string{"a write(2) may be cut at any byte by a crash; completed ones survive a process crash", "power loss: directory operations reach the disk in order and at least up to the last fsync of anything; of the writes to a file after its last fsync none, half or all survive"},
		Phases: []Phase{
			{Name: "pipelines", Shard: 3, Weight: 2, Run: crashPipelines(2, crashCmds, 4)},
			{Name: "clients", Shard: 4, Weight: 2, Run: crashClients(2, 4)},
			{Name: "expiries", Shard: 3, Run: crashTimed(3)},
			{Name: "failing files", Shard: 4, Run: crashFaults(2)},
			{Name: "large values", Shard: 3, Weight: 2, Run: crashLarge(2)},
			{Name: "large values, longer", Tier: "thorough", Shard: 3, Weight: 2, Run: crashLarge(3)},
			{Name: "crash again", Shard: 4, Run: crashTwice(2, 1)},
			seqPhase{ops: opsOf(strings.Join(crashCmds, "\n")), depth: 2}.real(realKill, "", 3),
			{Name: "long pipelines", Tier: "thorough", Shard: 3, Weight: 3, Run: crashPipelines(3, crashCmds, 4)},
			{Name: "more clients", Tier: "thorough", Shard: 4, Weight: 3, Run: crashClients(2, 6)},
			{Name: "three clients", Tier: "thorough", Shard: 4, Weight: 3, Run: crashClients(3, 5)},
			{Name: "long expiries", Tier: "thorough", Shard: 3, Weight: 2, Run: crashTimed(5)},
			{Name: "more failing files", Tier: "thorough", Shard: 4, Run: crashFaults(4)},
			{Name: "long crash again", Tier: "thorough", Shard: 4, Weight: 2, Run: crashTwice(3, 2)},
		}})
}
