//go:build go1.23

package main

import (
	"fmt"
	"hash/fnv"
	"sort"

	"github.com/IfanTsai/metis/config"
	rt "github.com/IfanTsai/metis/verifvrt"
)

// --- crash enumeration over a recorded history ---

// hist is a recorded run: the commands one connection sent, in order, and the effects the server had on
// files and sockets. snaps[i] is the keyspace after the first i commands.
type hist struct {
	c     *Ctx
	s     *Srv
	p     *pipe
	from  int // effects before this one belong to the setup
	snaps []*Model
	reply []int // offset in the reply stream at which the reply to command i starts
	conn  int
	down  int64                                      // ms between the crash and the restart
	extra func(s *Srv, m *Model, what func() string) // further checks on the recovered server
}

// newHist starts recording on a running server (started with bootRec).
func newHist(c *Ctx, s *Srv, m *Model) *hist {
	h := &hist{c: c, s: s, p: s.pipe(m), from: len(s.w.Log)}
	h.conn = h.p.conn.ID
	h.snaps = []*Model{m.clone()}
	return h
}

// absorb takes the replies that have arrived, in lock step with the model.
func (h *hist) absorb(all bool) {
	p, s := h.p, h.s
	for {
		b := p.conn.Out[p.off:]
		if len(b) == 0 {
			break
		}
		r, n, err := parseReply(b)
		if err == errShort {
			break
		}
		if err != nil {
			h.c.Fail("%v", err)
		}
		if p.done >= len(p.sent) {
			h.c.Fail("reply %s without a request", r)
		}
		a := p.sent[p.done]
		if h.c.tracing {
			h.c.Logf("> %s -> %s", showArgs(a), r)
		}
		if err := p.m.exec(&p.st, a, r, s.w.NowMS()); err != nil {
			h.c.Fail("%s: %v", showArgs(a), err)
		}
		h.reply = append(h.reply, p.off)
		p.off += n
		p.done++
		h.snaps = append(h.snaps, p.m.clone())
	}
	if all && p.done < len(p.sent) {
		h.c.Fail("%d of %d requests answered", p.done, len(p.sent))
	}
}

// acked is the number of commands of which some reply byte has left among the first n effects.
func (h *hist) acked(n int) int {
	sent := 0
	for _, e := range h.s.w.Log[:n] {
		if e.Kind == rt.EAck && e.Conn == h.conn {
			sent += len(e.Data)
		}
	}
	return sort.SearchInts(h.reply, sent)
}

func fsKey(fs *rt.FS, extra string) [2]uint64 {
	a, b := fnv.New64a(), fnv.New64()
	for _, p := range fs.Paths() {
		for _, h := range []interface{ Write([]byte) (int, error) }{a, b} {
			d := fs.Files[p].Data
			fmt.Fprintf(writer{h}, "%d %s %d ", len(p), p, len(d))
			h.Write(d)
		}
	}
	fmt.Fprintf(a, "|%s", extra)
	return [2]uint64{a.Sum64(), b.Sum64()}
}

type writer struct {
	w interface{ Write([]byte) (int, error) }
}

func (w writer) Write(b []byte) (int, error) { return w.w.Write(b) }

var recovered = map[[2]uint64]*Model{}

// recover starts a server on the files of a crash state and reads its keyspace.
func recoverState(c *Ctx, fs *rt.FS, cfg config.Config, nowNS int64, what func() string, extra func(s *Srv, m *Model, what func() string)) *Model {
	k := fsKey(fs, fmt.Sprint(nowNS, cfg.AofFsync, cfg.DatabaseNum))
	if m := recovered[k]; m != nil && !c.tracing {
		return m
	}
	s := start(c, fs, cfg, nowNS)
	defer func() { s.end() }()
	for !s.t0.AtEpoll() {
		s.step(s.t0)
		if d := s.w.Dead(); d != nil {
			c.Fail("%s: the server does not start again: %s %s", what(), cutN(fmt.Sprint(d.Panic), 300), trimStack(d.Stack))
		}
		if s.t0.Done {
			c.Fail("%s: the server ends at start", what())
		}
	}
	m := s.dump()
	if extra != nil {
		extra(s, m, what)
	}
	if len(recovered) > 200000 {
		clear(recovered)
	}
	recovered[k] = m
	if c.eng != nil {
		c.eng.addState(k[0])
	}
	return m
}

// explain checks that a recovered keyspace is the state after some number of commands in [lo, hi].
func (h *hist) explain(got *Model, lo, hi int, nowMS int64, what func() string) int {
	for j := lo; j <= hi && j < len(h.snaps); j++ {
		if h.snaps[j].diff(got, nowMS, 1000) == "" {
			return j
		}
	}
	for j := 0; j < lo; j++ {
		if h.snaps[j].diff(got, nowMS, 1000) == "" {
			h.c.Fail("%s: %d commands were acknowledged but only the first %d are recovered; lost: %s", what(), lo, j, showArgs(h.p.sent[j]))
		}
	}
	h.c.Fail("%s: the recovered keyspace is not the state after any number of commands (%d acknowledged): against %d commands: %s; against all: %s",
		what(), lo, lo, h.snaps[min(lo, len(h.snaps)-1)].diff(got, nowMS, 1000), h.snaps[len(h.snaps)-1].diff(got, nowMS, 1000))
	return 0
}

func (h *hist) describe(n, torn int) string {
	log := h.s.w.Log
	s := fmt.Sprintf("crash after effect %d of %d", n, len(log))
	if n > 0 {
		s += " (" + log[n-1].String() + ")"
	}
	if torn >= 0 {
		s += fmt.Sprintf(" and the first %d bytes of (%s)", torn, log[n].String())
	}
	return s
}

// scan crashes the recorded run at every effect, with every torn write, and checks what a restart recovers.
// powerloss adds every loss of what is not yet synced.
func (h *hist) scan(torn, powerloss bool) {
	log := h.s.w.Log
	h.s.w.Kill()
	cfg := h.s.cfg
	acked := make([]int, len(log)+1)
	sent := 0
	for n := range log {
		if e := log[n]; e.Kind == rt.EAck && e.Conn == h.conn {
			sent += len(e.Data)
		}
		acked[n+1] = sort.SearchInts(h.reply, sent)
	}
	last := len(h.snaps) - 1
	check := func(fs *rt.FS, n int, now int64, what func() string) {
		h.c.Step()
		now += h.down * 1e6
		got := recoverState(h.c, fs, cfg, now, what, h.extra)
		h.explain(got, acked[n], last, now/1e6, what)
	}
	for n := h.from; n <= len(log); n++ {
		now := h.s.w.NowNS
		if n < len(log) {
			now = log[n].NowNS
		}
		// nothing on disk changes with a reply: the crash before it is the same state with less acknowledged
		if n == len(log) || log[n].Kind != rt.EAck || powerloss {
			check(rt.CrashState(h.s.fs0, log, n, -1), n, now, func() string { return h.describe(n, -1) })
		}
		if powerloss {
			rt.PowerLossStates(h.s.fs0, log, n, func(fs *rt.FS, desc string) {
				check(fs, n, now, func() string { return h.describe(n, -1) + ", " + desc })
			})
		}
		if torn && n < len(log) && log[n].Kind == rt.EWrite {
			cuts := tears(log[n].Data)
			if main := rt.CrashState(h.s.fs0, log, n, -1).Files[rt.Abs(cfg.AofFilename)]; main == nil || main.ID != log[n].Ino {
				cuts = []int{len(log[n].Data) / 2} // another file than the append-only file
			}
			for _, t := range cuts {
				check(rt.CrashState(h.s.fs0, log, n, t), n, now, func() string { return h.describe(n, t) })
			}
		}
	}
}

// tears lists the lengths to which a write may be cut: all of them up to some size, beyond that those near
// the ends and around every line break.
func tears(b []byte) []int {
	var r []int
	if len(b) <= 400 {
		for i := 1; i < len(b); i++ {
			r = append(r, i)
		}
		return r
	}
	for i := 1; i < len(b); i++ {
		if i < 40 || i > len(b)-40 || i%4096 < 2 || b[i-1] == '\n' && (i < 200 || i > len(b)-200) {
			r = append(r, i)
		}
	}
	return r
}
