//go:build go1.23

package main

import (
	"bytes"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/IfanTsai/metis/config"
	rt "github.com/IfanTsai/metis/verifvrt"
)

// --- C33: stopping the server ---

// stopRun is one run in which Server.Stop is called by other threads while the server works.
type stopRun struct {
	c     *Ctx
	s     *Srv
	h     *hist
	acts  []string
	next  int
	stops []*rt.Thread
	ended []bool
	begun int
	early bool // Stop may come before the server waits for events for the first time
}

// threads lists who can be run now, the usual choice first; the server counts only when it has work.
func (r *stopRun) threads() []*rt.Thread {
	var o []*rt.Thread
	s := r.s
	if s.t0.Enabled() && (!s.t0.AtEpoll() || s.w.AnyReady(s.t0)) {
		o = append(o, s.t0)
	}
	for _, t := range s.w.Threads {
		if t != s.t0 && t.Enabled() {
			o = append(o, t)
		}
	}
	return o
}

func (r *stopRun) begin() {
	i := r.begun
	r.begun++
	r.c.Logf("Stop is called")
	s := r.s
	r.stops = append(r.stops, s.w.Spawn("stop", func() { s.s.Stop(); r.ended[i] = true }))
}

func (r *stopRun) act() {
	a := r.acts[r.next]
	r.next++
	p := r.h.p
	switch a {
	case "wait":
		r.s.w.Net.Advance = 1203
		if r.s.t0.AtEpoll() {
			r.s.step(r.s.t0)
		}
	case "half":
		b := p.queue([]string{"rpush", "l", "half" + itoa(r.next)})
		p.conn.Send(b[:len(b)-9])
		r.acts = append(r.acts[:r.next:r.next], append([]string{"rest"}, r.acts[r.next:]...)...)
	case "rest":
		a := p.sent[len(p.sent)-1]
		b := encode(a...)
		p.conn.Send(b[len(b)-9:])
	case "bye": // the client goes once it has its replies
		r.acts = r.acts[:r.next]
		p.conn.Close()
	case "two":
		p.conn.Send(p.queue([]string{"rpush", "l", "x" + itoa(r.next)}, []string{"set", "a", "y" + itoa(r.next)}))
	default:
		f := strings.Fields(a)
		for i := range f {
			if f[i] == "#" {
				f[i] = "v" + itoa(r.next)
			}
		}
		p.conn.Send(p.queue(f))
	}
}

// run schedules with bounded deviations from: the server first, then Stop, then background tasks.
func (r *stopRun) run(calls int) {
	s, c := r.s, r.c
	r.ended = make([]bool, calls)
	s.noBG = true
	s.w.Fine = true
	s.stopOK = true
	idle := 0
	var last *rt.Thread
	for n := 0; ; n++ {
		s.alive("stopping")
		if n > 30000 {
			c.Fail("Stop does not return: the server is at %q", s.t0.Pt.Label)
		}
		all := r.begun == calls
		for _, e := range r.ended {
			all = all && e
		}
		if all {
			break
		}
		s.w.Net.Advance = 0
		ts := r.threads()
		for i, t := range ts { // go on with the same thread by default
			if t == last && t != s.t0 && len(ts) > 1 {
				copy(ts[1:], ts[:i])
				ts[0] = t
			}
		}
		const (
			oThread = iota
			oAct
			oStop
			oTime
		)
		type opt struct{ kind, i int }
		var opts []opt
		for i := range ts {
			opts = append(opts, opt{oThread, i})
		}
		if r.next < len(r.acts) && s.t0.AtEpoll() && !s.w.AnyReady(s.t0) && !s.t0.Done {
			opts = append(opts, opt{oAct, 0})
		}
		ready := s.s != nil && (r.early || s.s != nil && r.h != nil)
		if r.begun < calls && ready {
			opts = append(opts, opt{oStop, 0})
		}
		if len(opts) == 0 || (len(ts) == 0 && r.begun == calls) {
			opts = append(opts, opt{oTime, 0})
		}
		o := opts[c.Dev(len(opts), fmt.Sprintf("next of %d", len(opts)))]
		last = nil
		switch o.kind {
		case oThread:
			idle = 0
			last = ts[o.i]
			s.step(ts[o.i])
		case oAct:
			r.act()
		case oStop:
			r.begin()
		case oTime:
			idle++
			if idle > 50 {
				c.Fail("Stop does not return although 50 polls of the event loop have passed")
			}
			if s.t0.Done {
				c.Fail("the event loop has ended but Stop does not return")
			}
			s.w.Net.Advance = 1
			s.step(s.t0)
		}
	}
}

// after checks the process at the moment Stop has returned.
func (r *stopRun) after(wasUp bool) {
	s, c := r.s, r.c
	mark := len(s.w.Log)
	files := s.w.FS.Clone()
	if wasUp {
		c.Check(s.t0.Done, "Stop has returned but the event loop has not ended")
		if l := s.w.Net.Listeners(); len(l) > 0 {
			c.Fail("Stop has returned but the server still listens on %v", l)
		}
	}
	// should the process not end at once, nothing may fail
	for n := 0; n < 3000; n++ {
		t := s.bgEnabled()
		if t == nil {
			if s.t0.Done || !s.t0.Enabled() && !s.t0.AtEpoll() {
				break
			}
			t = s.t0
		}
		s.w.Net.Advance = 1
		s.step(t)
		s.alive("after Stop")
	}
	c.Check(s.t0.Done, "after Stop has returned the event loop goes on")
	if l := s.w.Net.Listeners(); len(l) > 0 {
		c.Fail("the event loop has ended but the server listens on %v", l)
	}
	if o := s.w.Net.OpenFDs(); o[rt.FDEpoll] > 0 {
		c.Fail("the event loop has ended but its descriptor is open")
	}
	if r.h == nil {
		return
	}
	h := r.h
	h.absorb(false)
	acked := h.acked(mark)
	m := h.p.m.clone()
	st := h.p.st
	for _, a := range h.p.sent[h.p.done:] {
		if a[0] == "bgrewriteaof" {
			h.snaps = append(h.snaps, m.clone())
			continue
		}
		applyBlind(m, &st, a, s.w.NowMS())
		h.snaps = append(h.snaps, m.clone())
	}
	end := s.w.NowNS
	s.w.Kill()
	if s.cfg.AofEnable {
		what := func() string { return fmt.Sprintf("%v: after Stop and a restart", r.acts) }
		got := recoverState(c, files, s.cfg, end, what, func(n *Srv, m *Model, what func() string) {
			k := n.dial()
			if rep := k.raw("rpush", "again", "1"); rep.T != ':' {
				c.Fail("%s: RPUSH answers %s", what(), rep)
			}
		})
		h.explain(got, acked, len(h.snaps)-1, end/1e6, what)
		if wasUp && s.cfg.AofFsync != config.TypeAppendFsyncNever {
			// what was acknowledged is on stable storage
			rt.PowerLossStates(s.fs0, s.w.Log[:mark], mark, func(fs *rt.FS, desc string) {
				what := func() string { return fmt.Sprintf("%v: after Stop, %s, and a restart", r.acts, desc) }
				h.explain(recoverState(c, fs, s.cfg, end, what, nil), acked, len(h.snaps)-1, end/1e6, what)
			})
		}
	}
}

// stopping runs plans of actions against Stop.
func stopping(depth, calls int, actions []string, pols []config.TypeAppnedFsync) func(c *Ctx) {
	return func(c *Ctx) {
		var acts []string
		for i := 0; i < depth; i++ {
			acts = append(acts, actions[c.Choose(len(actions), "action")])
		}
		pi := c.Choose(len(pols), "fsync policy")
		s := bootRec(c, nil, aofConfig(pols[pi]), 0)
		defer func() { s.end() }()
		h := newHist(c, s, newModel(s.cfg))
		h.p.send(h.p.queue([]string{"rpush", "l", "first"}, []string{"select", "1"}, []string{"set", "b", "second"}))
		s.settle()
		h.absorb(true)
		r := &stopRun{c: c, s: s, h: h, acts: acts}
		r.run(calls)
		c.Sample(fmt.Sprint(acts))
		r.after(true)
	}
}

// stopEarly calls Stop while the server starts.
func stopEarly(withFile bool) func(c *Ctx) {
	return func(c *Ctx) {
		cfg := aofConfig(policies[c.Choose(3, "fsync policy")])
		if c.Choose(2, "append-only file") == 0 {
			cfg.AofEnable = false
		}
		fs := rt.NewFS()
		fs.Files[aofPath] = &rt.Inode{ID: 1, Data: []byte("*2\r\n$6\r\nselect\r\n$1\r\n1\r\n*3\r\n$5\r\nrpush\r\n$1\r\nl\r\n$1\r\nx\r\n*3\r\n$5\r\nrpush\r\n$1\r\nl\r\n$1\r\ny\r\n")}
		if t := c.Choose(3, "the file"); t == 1 {
			fs.Files[aofPath].Data = append(fs.Files[aofPath].Data, "*3\r\n$5\r\nrp"...)
		} else if t == 2 {
			delete(fs.Files, aofPath)
		}
		before := fs.Clone()
		s := start(c, fs, cfg, 0)
		defer func() { s.end() }()
		r := &stopRun{c: c, s: s, early: true}
		r.run(1)
		files := s.w.FS.Clone()
		r.after(false)
		s.w.Kill()
		if b := before.Files[aofPath]; b != nil && cfg.AofEnable {
			a := files.Files[aofPath]
			if a == nil || !bytes.HasPrefix(a.Data, b.Data[:81]) {
				c.Fail("stopping the server at its start loses the file")
			}
		}
	}
}

// realStop stops the unmodified binary by a signal.
func realStop(c *Ctx) {
	sig := []syscall.Signal{syscall.SIGTERM, syscall.SIGINT}[c.Choose(2, "signal")]
	when := c.Choose(5, "moment")
	pol := []string{"always", "everysec", "no"}[c.Choose(3, "fsync policy")]
	dir := c.scratch()
	defer os.RemoveAll(dir)
	port := freePort()
	ps := strconv.Itoa(port)
	writeFile(dir+"/c.toml", realConfig("127.0.0.1", port, "appendonly = true", "appendfilename = \"a.aof\"", "appendfsync = "+strconv.Quote(pol)))
	r := startReal(c, dir, "-c", "c.toml")
	defer r.kill()
	k := r.dial("127.0.0.1:"+ps, true)
	m := newModel(aofConfig(config.TypeAppendFsyncAlways))
	k.do(m, "rpush", "l", "a", "b")
	k.do(m, "set", "x", "1")
	time.Sleep(50 * time.Millisecond) // the signal handler is installed after the server was started
	acked := 0
	switch when {
	case 1: // pipelined requests in flight
		var b []byte
		for i := 0; i < 400; i++ {
			b = append(b, encode("rpush", "p", "e"+itoa(i))...)
		}
		if _, err := k.conn.Write(b); err != nil {
			c.Fail("real server: %v", err)
		}
	case 2: // a rewrite
		k.do(m, "bgrewriteaof")
	case 3: // half a request
		_, _ = k.conn.Write([]byte("*3\r\n$5\r\nrpush\r\n$1\r\nl\r\n$4\r\nab"))
	case 4: // many idle connections
		for i := 0; i < 20; i++ {
			o := r.dial("127.0.0.1:"+ps, true)
			defer o.close()
		}
	}
	_ = r.cmd.Process.Signal(sig)
	if when == 1 {
		_ = k.conn.SetDeadline(time.Now().Add(10 * time.Second))
		for acked < 400 {
			rep, err := k.read()
			if err != nil {
				break
			}
			acked++
			if rep.T != ':' || rep.N != int64(acked) {
				c.Fail("real server: request %d answered %s", acked, rep)
			}
		}
	}
	if !r.waitExit(20 * time.Second) {
		c.Fail("real server: 20 s after %v the process still runs", sig)
	}
	if code := r.cmd.ProcessState.ExitCode(); code != 0 {
		c.Fail("real server: after %v the process ends with status %d: %s", sig, code, r.output())
	}
	k.close()
	if kk := r.dial("127.0.0.1:"+ps, false); kk != nil {
		c.Fail("real server: the port is still served")
	}
	if _, err := os.Stat(filepath.Join(dir, "a.aof")); err != nil {
		c.Fail("real server: %v", err)
	}
	l, err := net.Listen("tcp4", "127.0.0.1:"+ps)
	if err == nil {
		l.Close()
	}
	r2 := startReal(c, dir, "-c", "c.toml")
	defer r2.kill()
	k2 := r2.dial("127.0.0.1:"+ps, true)
	defer k2.close()
	k2.do(m, "lrange", "l", "0", "-1")
	k2.do(m, "get", "x")
	if n := k2.raw("llen", "p"); n.T != ':' || n.N < int64(acked) {
		c.Fail("real server: %d appends were acknowledged before the server stopped, %s are there after a restart", acked, n)
	}
}

func init() {
	acts := []string{"rpush l #", "two", "half", "bgrewriteaof", "wait", "set a #", "bye"}
	all := []config.TypeAppnedFsync{config.TypeAppendFsyncAlways, config.TypeAppendFsyncEverySecond, config.TypeAppendFsyncNever}
	register(&Check{ID: "C33", Real: true, Explanation: "Server.Stop is called by a thread of its own while the real server, its background fsyncs and rewrites run, at every scheduling point of every plan of requests, and with bounded further deviations of the scheduler (delay bounding); also twice at once, and while the server starts. Stop must return, with the event loop ended and the listening socket closed, nothing may panic even if the process lingers, and a restart on the files must recover a state with every acknowledged command (with appendfsync always or everysec even after a power loss). The unmodified binary is stopped by SIGTERM and SIGINT in several situations, must end with status 0, release the port and recover.",
		Assumptions: []string{"time passes for the event loop: polls return after their timeout"},
		Phases: []Phase{
			{Name: "requests", Shard: 3, Weight: 4, Dev: 1, Run: stopping(3, 1, acts, all)},
			{Name: "two deviations", Shard: 3, Weight: 4, Dev: 2, Run: stopping(2, 1, append(acts[:5:5], "bye"), all[:2])},
			{Name: "twice", Shard: 3, Weight: 1, Dev: 2, Run: stopping(1, 2, append(acts[:4:4], "bye"), all[:1])},
			{Name: "at the start", Shard: 3, Weight: 1, Dev: 3, Run: stopEarly(true)},
			{Name: "real", Shard: 3, Weight: 2, Run: realStop},
			{Name: "requests, longer", Tier: "thorough", Shard: 4, Weight: 4, Dev: 1, Run: stopping(4, 1, acts, all)},
			{Name: "three deviations", Tier: "thorough", Shard: 3, Weight: 4, Dev: 3, Run: stopping(1, 1, acts, all)},
			{Name: "requests, two deviations", Tier: "thorough", Shard: 4, Weight: 5, Dev: 2, Run: stopping(3, 1, acts, all)},
			{Name: "twice, longer", Tier: "thorough", Shard: 3, Weight: 2, Dev: 3, Run: stopping(1, 2, acts[:4], all[:2])},
		}})
}
