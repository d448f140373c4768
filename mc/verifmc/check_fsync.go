//go:build go1.23

package main

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"
	"syscall"

	"github.com/IfanTsai/metis/config"
	rt "github.com/IfanTsai/metis/verifvrt"
)

// --- C06: the fsync policy ---

// fsyncSlack is how long after its reply a write may wait for its fsync under appendfsync=everysec, in ms.
const fsyncSlack = 2100

// syncMon replays the recorded effects and knows at every point what is on stable storage.
type syncMon struct {
	data, synced map[int][]byte
	path         map[string]int
	n            int               // effects applied
	old          map[int][]version // contents of each file
	upto         map[int]int       // where the last fsync that has ended had begun
}

type version struct {
	n    int // it exists before effect n
	data []byte
}

func newSyncMon(fs0 *rt.FS) *syncMon {
	m := &syncMon{data: map[int][]byte{}, synced: map[int][]byte{}, path: map[string]int{}, old: map[int][]version{}, upto: map[int]int{}}
	for p, i := range fs0.Files {
		m.path[p] = i.ID
		m.data[i.ID] = append([]byte(nil), i.Data...)
		m.synced[i.ID] = m.data[i.ID]
	}
	return m
}

func (m *syncMon) apply(e rt.Effect) {
	switch e.Kind {
	case rt.EWrite, rt.ETruncate:
		m.old[e.Ino] = append(m.old[e.Ino], version{m.n, m.data[e.Ino]})
	}
	m.n++
	switch e.Kind {
	case rt.ECreate:
		m.path[e.Path] = e.Ino
		m.data[e.Ino] = nil
	case rt.EWrite:
		d := m.data[e.Ino]
		n := int(e.Off) + len(e.Data)
		b := make([]byte, max(n, len(d)))
		copy(b, d)
		copy(b[e.Off:], e.Data)
		m.data[e.Ino] = b
	case rt.ETruncate:
		b := make([]byte, e.Off)
		copy(b, m.data[e.Ino])
		m.data[e.Ino] = b
	case rt.ESync:
		if int(e.Off) < m.upto[e.Ino] {
			break // a later fsync of the file has ended before
		}
		m.upto[e.Ino] = int(e.Off)
		d := m.data[e.Ino]
		for o := m.old[e.Ino]; len(o) > 0 && o[len(o)-1].n >= int(e.Off); o = o[:len(o)-1] {
			d = o[len(o)-1].data // written while the fsync was running
		}
		m.synced[e.Ino] = d
	case rt.ERename:
		m.path[e.Path2] = m.path[e.Path]
		delete(m.path, e.Path)
	case rt.ERemove:
		delete(m.path, e.Path)
	}
}

// fsyncRun is a run with commands that each carry a value never removed again.
type fsyncRun struct {
	c   *Ctx
	s   *Srv
	ps  []*pipe
	val map[int][]string // connection: the values of its commands, in order ("" for none)
	n   int
	off map[int][]int // connection: offsets of the replies
}

func newFsyncRun(c *Ctx, pol config.TypeAppnedFsync, conns int, tweak func(*config.Config)) *fsyncRun {
	cfg := aofConfig(pol)
	if tweak != nil {
		tweak(&cfg)
	}
	r := &fsyncRun{c: c, val: map[int][]string{}, off: map[int][]int{}}
	r.s = bootRec(c, nil, cfg, 0)
	for i := 0; i < conns; i++ {
		r.ps = append(r.ps, r.s.pipe(newModel(cfg)))
	}
	return r
}

// queue makes the requests for one connection; "#" stands for a new value.
func (r *fsyncRun) queue(i int, cmds ...string) []byte {
	var b []byte
	p := r.ps[i]
	for _, s := range cmds {
		a := strings.Fields(s)
		v := ""
		for j := range a {
			if strings.HasPrefix(a[j], "#") { // #N adds N bytes
				r.n++
				v = fmt.Sprintf("<v%d>", r.n)
				k, _ := strconv.Atoi(a[j][1:])
				a[j] = v + fill(k)
			}
		}
		r.val[p.conn.ID] = append(r.val[p.conn.ID], v)
		p.sent = append(p.sent, a)
		b = append(b, encode(a...)...)
	}
	return b
}

// finish splits the replies.
func (r *fsyncRun) finish(all bool) {
	for _, p := range r.ps {
		off := 0
		for off < len(p.conn.Out) {
			rep, n, err := parseReply(p.conn.Out[off:])
			if err != nil {
				if err == errShort && !all {
					break
				}
				r.c.Fail("%v", err)
			}
			k := len(r.off[p.conn.ID])
			if rep.T == '-' {
				r.c.Fail("%s answers %s", showArgs(p.sent[k]), rep)
			}
			r.off[p.conn.ID] = append(r.off[p.conn.ID], off)
			off += n
		}
		if all && len(r.off[p.conn.ID]) != len(p.sent) {
			r.c.Fail("%d of %d requests answered", len(r.off[p.conn.ID]), len(p.sent))
		}
	}
}

// monitor checks the whole log: a value whose reply has begun to leave must be fsynced slack ms later.
func (r *fsyncRun) monitor(slack int64) {
	s, c := r.s, r.c
	log := s.w.Log
	mon := newSyncMon(s.fs0)
	aof := rt.Abs(s.cfg.AofFilename)
	type due struct {
		val string
		at  int64
		who int
	}
	var dues []due
	out := map[int]int{}
	told := map[int]int{}
	for n := 0; n <= len(log); n++ {
		c.Step()
		now := s.w.NowNS / 1e6
		if n < len(log) {
			now = log[n].NowNS / 1e6
		}
		content := mon.synced[mon.path[aof]]
		for len(dues) > 0 && now >= dues[0].at {
			d := dues[0]
			if !bytes.Contains(content, []byte(d.val)) {
				what := "the end"
				if n < len(log) {
					what = log[n].String()
				}
				c.Fail("%s was acknowledged at ms %d and is not fsynced at ms %d (before effect %d: %s)", d.val, d.at-slack, now, n, what)
			}
			dues = dues[1:]
		}
		if n == len(log) {
			break
		}
		e := log[n]
		mon.apply(e)
		if e.Kind == rt.EAck {
			out[e.Conn] += len(e.Data)
			offs := r.off[e.Conn]
			for told[e.Conn] < len(offs) && offs[told[e.Conn]] < out[e.Conn] {
				if v := r.val[e.Conn][told[e.Conn]]; v != "" {
					dues = append(dues, due{v, now + slack, e.Conn})
				}
				told[e.Conn]++
			}
			if slack == 0 {
				content := mon.synced[mon.path[aof]]
				for _, d := range dues {
					if !bytes.Contains(content, []byte(d.val)) {
						c.Fail("the reply to the command with %s leaves before its record is fsynced (effect %d: %s)", d.val, n, e)
					}
				}
				dues = dues[:0]
			}
		}
	}
	if c.eng != nil {
		c.State(string(mon.data[mon.path[aof]]))
	}
}

// pass lets ms milliseconds go by in polls of at most step ms.
func (r *fsyncRun) pass(ms, step int64) {
	for ms > 0 {
		d := min(step, ms)
		r.s.tick(d)
		ms -= d
	}
}

// everysec runs every schedule of writes, waits, rewrites and slow or failing fsyncs.
func everysec(depth int, waits []int64, faults bool) func(c *Ctx) {
	return func(c *Ctx) {
		step := []int64{1, 97}[c.Choose(2, "length of a poll")]
		fail := 0
		if faults {
			fail = c.Choose(1<<3, "failing fsyncs")
		}
		r := newFsyncRun(c, config.TypeAppendFsyncEverySecond, 1, nil)
		s := r.s
		defer func() { s.end() }()
		lastBad := s.w.NowMS()
		nsync := 0
		if faults {
			s.w.FS.Fault = func(op, path string, n int) (int, error) {
				if op != "sync" || path != aofPath {
					return n, nil
				}
				nsync++
				if nsync <= 3 && fail>>(nsync-1)&1 == 1 {
					lastBad = s.w.NowMS()
					return 0, syscall.EIO
				}
				return n, nil
			}
		}
		held := int64(0) // when the background threads were stopped
		longest := int64(0)
		release := func() {
			if s.noBG {
				s.noBG = false
				longest = max(longest, s.w.NowMS()-held)
				s.settle()
			}
		}
		var desc []string
		for i := 0; i < depth; i++ {
			a := c.Choose(3+len(waits), "action")
			if faults && a == 2 {
				continue // a rewrite syncs in the foreground
			}
			switch a {
			case 0:
				r.ps[0].conn.Send(r.queue(0, "rpush l #"))
				s.settle()
				desc = append(desc, "rpush")
			case 1:
				if !s.noBG {
					s.noBG, held = true, s.w.NowMS()
				} else {
					release()
				}
				desc = append(desc, "hold")
			case 2:
				r.ps[0].conn.Send(r.queue(0, "bgrewriteaof"))
				s.settle()
				desc = append(desc, "rewrite")
			default:
				st := step
				if waits[a-3] > 300 {
					st = 97
				}
				r.pass(waits[a-3], st)
				desc = append(desc, fmt.Sprint(waits[a-3]))
			}
		}
		release()
		if faults {
			r.pass(3300, 97) // the failing ones
		}
		r.pass(fsyncSlack+97, 97)
		r.finish(true)
		c.Sample(strings.Join(desc, " "))
		slack := fsyncSlack + longest
		if fail > 0 {
			slack += lastBad - rt.StartSec*1000
		}
		r.monitor(slack)
		// nothing stays unsynced for ever
		mon := newSyncMon(s.fs0)
		for _, e := range s.w.Log {
			mon.apply(e)
		}
		ino := mon.path[rt.Abs(s.cfg.AofFilename)]
		if !bytes.Equal(mon.data[ino], mon.synced[ino]) {
			c.Fail("%s: two seconds after the last event %d of %d bytes of the append-only file are fsynced", strings.Join(desc, " "), len(mon.synced[ino]), len(mon.data[ino]))
		}
	}
}

// largeWrites: the amount written does not matter to when it is fsynced.
func largeWrites(depth int) func(c *Ctx) {
	return func(c *Ctx) {
		pol := policies[c.Choose(2, "fsync policy")]
		r := newFsyncRun(c, pol, 1, nil)
		s := r.s
		defer func() { s.end() }()
		ops := []string{"rpush l #", "rpush l #5000", "rpush l #70000", "rpush l #2000000", "307", "1103", "bgrewriteaof"}
		var desc []string
		for i := 0; i < depth; i++ {
			a := ops[c.Choose(len(ops), "action")]
			desc = append(desc, a)
			if n, err := strconv.Atoi(a); err == nil {
				r.pass(int64(n), 97)
				continue
			}
			r.ps[0].conn.Send(r.queue(0, a))
			s.settle()
		}
		r.pass(fsyncSlack+97, 97)
		r.finish(true)
		c.Sample(fmt.Sprint(pol, strings.Join(desc, ", ")))
		slack := int64(fsyncSlack)
		if pol == config.TypeAppendFsyncAlways {
			slack = 0
		}
		r.monitor(slack)
	}
}

// everysecSteps interleaves writes and waits with the single steps of the background fsyncs.
func everysecSteps(depth int, waits []int64) func(c *Ctx) {
	return func(c *Ctx) {
		r := newFsyncRun(c, config.TypeAppendFsyncEverySecond, 1, nil)
		s := r.s
		defer func() { s.end() }()
		s.noBG = true
		s.w.Fine, s.w.SlowSync = true, true
		idle := func() {
			for n := 0; !s.t0.AtEpoll() || s.w.AnyReady(s.t0); n++ {
				if n > 1000 {
					c.Fail("the server is stuck at %s", s.t0.Pt.Label)
				}
				if !s.t0.Enabled() {
					t := s.bgEnabled()
					if t == nil {
						c.Fail("the server is stuck at %s", s.t0.Pt.Label)
					}
					s.step(t)
					continue
				}
				s.w.Net.Advance = 0
				s.step(s.t0)
				s.alive("serving")
			}
		}
		held, longest := int64(-1), int64(0)
		note := func() { // how long a background thread has been waiting for the processor
			if s.bgEnabled() == nil {
				held = -1
			} else if held < 0 {
				held = s.w.NowMS()
			} else {
				longest = max(longest, s.w.NowMS()-held)
			}
		}
		var desc []string
		for i := 0; i < depth; i++ {
			var threads []*rt.Thread
			for _, t := range s.w.Threads {
				if t != s.t0 && t.Enabled() {
					threads = append(threads, t)
				}
			}
			a := c.Choose(1+len(waits)+len(threads), "action")
			switch {
			case a == 0:
				r.ps[0].conn.Send(r.queue(0, "rpush l #"))
				idle()
				desc = append(desc, "rpush")
			case a <= len(waits):
				for ms := waits[a-1]; ms > 0; {
					d := min(97, ms)
					ms -= d
					s.w.Net.Advance = d
					s.step(s.t0)
					s.alive("waiting")
					idle()
					note()
				}
				desc = append(desc, fmt.Sprint(waits[a-1]))
			default:
				t := threads[a-1-len(waits)]
				desc = append(desc, fmt.Sprintf("thread %d: %s", t.ID, t.Pt.Label))
				s.step(t)
				s.alive("fsync")
			}
			note()
		}
		c.Sample(strings.Join(desc, ", "))
		s.noBG = false
		s.w.Fine = false
		s.settle()
		r.pass(fsyncSlack+97, 97)
		r.finish(true)
		r.monitor(fsyncSlack + longest)
		mon := newSyncMon(s.fs0)
		for _, e := range s.w.Log {
			mon.apply(e)
		}
		ino := mon.path[rt.Abs(s.cfg.AofFilename)]
		if !bytes.Equal(mon.data[ino], mon.synced[ino]) {
			c.Fail("%s: two seconds after the last event %d of %d bytes of the append-only file are fsynced", strings.Join(desc, ", "), len(mon.synced[ino]), len(mon.data[ino]))
		}
	}
}

// fsyncAlways sends write commands in every segmentation from up to two connections.
func fsyncAlways(depth int, cmds []string) func(c *Ctx) {
	return func(c *Ctx) {
		conns := 1 + c.Choose(2, "connections")
		short := c.Choose(2, "short socket writes") == 1
		rev := c.Choose(2, "order of events") == 1
		r := newFsyncRun(c, config.TypeAppendFsyncAlways, conns, nil)
		s := r.s
		defer func() { s.end() }()
		if rev {
			s.w.Net.Reorder = reverse
		}
		if short {
			for _, p := range r.ps {
				p.conn.WriteFn = func(n int) (int, syscall.Errno) { return min(n, 3), 0 }
			}
		}
		s.w.Net.Advance = 0
		for i := 0; i < depth; i++ {
			who := c.Choose(conns, "connection")
			cmd := cmds[c.Choose(len(cmds), "command")]
			r.ps[who].conn.Send(r.queue(who, cmd))
			switch c.Choose(3, "then") {
			case 1:
				s.step(s.t0)
				s.alive("iteration")
			case 2:
				s.settle()
			}
		}
		s.settle()
		r.finish(true)
		r.monitor(0)
	}
}

// fsyncRewrite places commands and fsyncs between the steps of a rewrite.
func fsyncRewrite(pol config.TypeAppnedFsync, cmds []string, depth, ticks int, slow bool) func(c *Ctx) {
	return func(c *Ctx) {
		picked := pickCmds(c, cmds, depth)
		r := newFsyncRun(c, pol, 1, nil)
		s := r.s
		defer func() { s.end() }()
		r.ps[0].conn.Send(r.queue(0, "rpush l #", "sadd s #"))
		s.noBG = true
		s.settle()
		s.noBG = false
		if c.Choose(2, "fsync in progress") == 0 {
			s.settle()
		}
		s.noBG = true
		s.w.Fine, s.w.SlowSync = true, slow
		all := append([]string{"bgrewriteaof"}, picked...)
		x := &rwRun{c: c, s: s, n: len(all), ticks: ticks, seen: len(s.w.Log)}
		x.send = func(i int) {
			if i < len(all) && all[i] == "wait" {
				s.w.Net.Advance = 1203
				s.step(s.t0)
				s.alive("cron")
				return
			}
			r.ps[0].conn.Send(r.queue(0, all[i]))
		}
		x.done = func(int) {}
		x.run()
		s.noBG, s.w.Fine = false, false
		s.settle()
		busy := s.w.NowMS() - rt.StartSec*1000
		r.pass(fsyncSlack+97, 97)
		r.finish(true)
		if pol == config.TypeAppendFsyncAlways {
			r.monitor(0)
			return
		}
		r.monitor(fsyncSlack + busy)
	}
}

// everysecPowerLoss checks by recovery instead of by looking at fsyncs.
func everysecPowerLoss(depth int) func(c *Ctx) {
	return func(c *Ctx) {
		var acts []int
		for i := 0; i < depth; i++ {
			acts = append(acts, c.Choose(5, "action"))
		}
		s := bootRec(c, nil, aofConfig(config.TypeAppendFsyncEverySecond), 0)
		defer func() { s.end() }()
		h := newHist(c, s, newModel(s.cfg))
		type ack struct {
			n  int
			at int64
		}
		acks := []ack{{0, 0}}
		for i, a := range acts {
			switch a {
			case 0, 1, 2:
				cmd := [][]string{{"rpush", "l", "v" + itoa(i)}, {"set", "a", "v" + itoa(i)}, {"bgrewriteaof"}}[a]
				h.p.send(h.p.queue(cmd))
				s.settle()
				h.absorb(true)
				acks = append(acks, ack{h.p.done, s.w.NowMS()})
			case 3:
				for t := 0; t < 7; t++ {
					s.tick(97)
				}
			case 4:
				for t := 0; t < 14; t++ {
					s.tick(97)
				}
			}
		}
		for t := 0; t < 24; t++ {
			s.tick(97)
		}
		h.absorb(true)
		log := s.w.Log
		end := s.w.NowNS
		s.w.Kill()
		for n := h.from; n <= len(log); n++ {
			now := end
			if n < len(log) {
				now = log[n].NowNS
			}
			lo := 0
			for _, k := range acks {
				if now/1e6-k.at >= fsyncSlack {
					lo = k.n
				}
			}
			rt.PowerLossStates(s.fs0, log, n, func(fs *rt.FS, desc string) {
				c.Step()
				what := func() string { return fmt.Sprintf("%v: %s, %s", acts, h.describe(n, -1), desc) }
				got := recoverState(c, fs, s.cfg, now, what, nil)
				h.explain(got, lo, len(h.snaps)-1, now/1e6, what)
			})
		}
	}
}

// alwaysFault lets an fsync fail: nothing may be acknowledged on the strength of it.
func alwaysFault(depth int) func(c *Ctx) {
	return func(c *Ctx) {
		at := c.Choose(depth+1, "failing fsync")
		together := c.Choose(2, "pipelined") == 1
		cmds := pickCmds(c, []string{"rpush l #", "sadd s #", "get x"}, depth)
		r := newFsyncRun(c, config.TypeAppendFsyncAlways, 1, nil)
		s := r.s
		defer func() { s.end() }()
		s.dieOK = true
		n := 0
		s.w.FS.Fault = func(op, path string, k int) (int, error) {
			if op != "sync" || path != aofPath {
				return k, nil
			}
			n++
			if n-1 == at {
				return 0, syscall.EIO
			}
			return k, nil
		}
		for _, cmd := range cmds {
			if s.w.Dead() != nil || r.ps[0].conn.SrvClose {
				break
			}
			r.ps[0].conn.Send(r.queue(0, cmd))
			if !together {
				s.settle()
			}
		}
		if s.w.Dead() == nil {
			s.settle()
		}
		r.finish(false)
		r.monitor(0)
	}
}

func init() {
	mixed := []string{"rpush l #", "sadd s #", "hset h # 1", "zadd z 1 #", "setex # 500 x", "get a", "select 1"}
	register(&Check{ID: "C06", Explanation: "The real server runs with all effects on files and sockets recorded. With appendfsync=always every sequence of commands from one or two connections, in all segmentations, and every placement of commands between the steps of a rewrite is run, and at the first byte of each reply the record of its command must be in the fsynced content of the append-only file. With appendfsync=everysec every schedule of writes, waits, rewrites, held-up and failing background fsyncs is run in virtual time, and each acknowledged record must be fsynced 2.1 s later (plus the time the fsync itself was held up or failed), and all of the file 2.2 s after the last event. A further phase judges by recovery: each loss of unsynced data at each instant must leave every command acknowledged 2.1 s before.",
		Assumptions: []string{"the event loop is given the processor at least every 97 ms"},
		Phases: []Phase{
			{Name: "always", Shard: 4, Weight: 3, Run: fsyncAlways(2, mixed)},
			{Name: "always, during a rewrite", Shard: 3, Weight: 3, Run: fsyncRewrite(config.TypeAppendFsyncAlways, []string{"rpush l #", "sadd s #", "get a", "bgrewriteaof"}, 2, 0, true)},
			{Name: "always, failing fsyncs", Shard: 3, Run: alwaysFault(3)},
			{Name: "everysec", Shard: 4, Weight: 5, Run: everysec(5, []int64{1, 307, 1000, 1103}, false)},
			{Name: "everysec, steps of the fsync", Shard: 3, Weight: 3, Run: everysecSteps(8, []int64{307, 1103})},
			{Name: "everysec, steps of the fsync, longer", Tier: "thorough", Shard: 4, Weight: 3, Run: everysecSteps(10, []int64{307, 1103})},
			{Name: "everysec, failing fsyncs", Shard: 3, Weight: 2, Run: everysec(5, []int64{1, 1103}, true)},
			{Name: "everysec, during a rewrite", Shard: 3, Weight: 3, Run: fsyncRewrite(config.TypeAppendFsyncEverySecond, []string{"rpush l #", "wait"}, 2, 0, false)},
			{Name: "large writes", Shard: 2, Weight: 2, Run: largeWrites(3)},
			{Name: "large writes, longer", Tier: "thorough", Shard: 2, Weight: 2, Run: largeWrites(4)},
			{Name: "everysec, power loss", Shard: 3, Weight: 2, Run: everysecPowerLoss(5)},
			{Name: "always, longer", Tier: "thorough", Shard: 4, Weight: 3, Run: fsyncAlways(3, mixed)},
			{Name: "always, rewrite, longer", Tier: "thorough", Shard: 4, Weight: 3, Run: fsyncRewrite(config.TypeAppendFsyncAlways, []string{"rpush l #", "sadd s #", "get a", "bgrewriteaof"}, 3, 1, true)},
			{Name: "everysec, longer", Tier: "thorough", Shard: 5, Weight: 5, Run: everysec(6, []int64{1, 307, 999, 1000, 1001, 1103, 1999}, false)},
			{Name: "everysec, failing fsyncs, longer", Tier: "thorough", Shard: 4, Weight: 2, Run: everysec(6, []int64{1, 503, 1103}, true)},
			{Name: "everysec, rewrite, longer", Tier: "thorough", Shard: 4, Weight: 3, Run: fsyncRewrite(config.TypeAppendFsyncEverySecond, []string{"rpush l #", "wait", "bgrewriteaof"}, 3, 1, true)},
			{Name: "everysec, power loss, longer", Tier: "thorough", Shard: 4, Weight: 3, Run: everysecPowerLoss(6)},
		}})
}
