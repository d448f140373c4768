//go:build go1.23

package main

import (
	"bytes"
	"fmt"
	"net"
	"os"
	"strings"
	"time"

	"github.com/IfanTsai/metis/config"
)

// newReal gives an execution the worker's shared process (a memory-only server with empty databases).
func newReal(c *Ctx, f func(e *realEnv)) {
	cfg := config.Config{DatabaseNum: realDBs}
	e := &realEnv{c: c, cfg: cfg, m: newModel(cfg)}
	e.share("")
	ok := false
	defer func() {
		for _, k := range e.k {
			k.close()
		}
		if !ok { // whatever state it is in is not the next execution's
			shared.r.kill()
			shared.r = nil
		}
	}()
	f(e)
	e.wipe()
	ok = true
}

// share makes e use the shared process.
func (e *realEnv) share(password string) {
	if shared.r == nil || shared.r.dead() || shared.pw != password {
		dir := e.c.scratch()
		e.boot(dir, e.file(false, password))
		r := e.r
		shared.r, shared.addr, shared.pw = r, e.addr, password
		curOpts.atEnd = append(curOpts.atEnd, func() { r.kill(); os.RemoveAll(dir) })
	}
	e.r, e.addr = shared.r, shared.addr
	e.r.c = e.c
}

// write puts bytes on the wire at once (Go sets TCP_NODELAY).
func (k *RCli) write(b []byte) {
	_ = k.conn.SetWriteDeadline(time.Now().Add(20 * time.Second))
	if _, err := k.conn.Write(b); err != nil {
		k.r.c.Fail("real server: %v (ended: %v) %s", err, k.r.dead(), k.r.output())
	}
}

// expect reads the replies of reqs and holds them against the model.
func (k *RCli) expect(m *Model, reqs [][]string) {
	_ = k.conn.SetReadDeadline(time.Now().Add(20 * time.Second))
	for i, a := range reqs {
		k.r.c.Step()
		k.r.c.alive()
		r, err := k.read()
		if err != nil {
			k.r.c.Fail("real server: reply %d of %d (%s): %v (ended: %v)", i+1, len(reqs), showArgs(a), err, k.r.dead())
		}
		if err := m.exec(&k.st, a, r, time.Now().UnixMilli()); err != nil {
			k.r.c.Fail("real server: request %d (%s): %v", i+1, showArgs(a), err)
		}
	}
}

// quiet checks that nothing is left to read.
func (k *RCli) quiet() {
	_ = k.conn.SetReadDeadline(time.Now().Add(time.Millisecond))
	if b, err := k.br.Peek(1); err == nil {
		k.r.c.Fail("real server: stray bytes after the last reply: %q", b)
	}
}

// realSplit sends every stream cut at every position.
func realSplit(streams [][][]string, cutsN int) func(c *Ctx) {
	return func(c *Ctx) {
		reqs := streams[c.Choose(len(streams), "stream")]
		b := encodeAll(reqs)
		var at []int
		p := 0
		for i := 0; i < cutsN; i++ {
			p += c.Choose(len(b)+1-p, "cut")
			at = append(at, p)
		}
		newReal(c, func(e *realEnv) {
			e.dial(1)
			k := e.k[0]
			for i, part := range cuts(b, at...) {
				if len(part) == 0 {
					continue
				}
				if i > 0 {
					time.Sleep(400 * time.Microsecond) // so that the parts arrive apart
				}
				k.write(part)
			}
			k.expect(e.m, reqs)
			k.quiet()
			k.write(encodeAll(probeTail))
			k.expect(e.m, probeTail)
			e.compare("after the requests")
		})
	}
}

// realPipelines sends pipelines of many requests at once.
func realPipelines(c *Ctx) {
	n := []int{1, 2, 3, 10, 63, 64, 65, 255, 256, 257, 1000, 3000, 9000}[c.Choose(13, "requests")]
	size := []int{1, 60, 1500, 5000}[c.Choose(4, "size of a value")]
	if n*size > 9000000 {
		size = 1000
	}
	conns := 1 + c.Choose(3, "connections")
	newReal(c, func(e *realEnv) {
		e.dial(conns)
		var all [][][]string
		done := make(chan error, conns)
		for j := range e.k {
			var reqs [][]string
			key := fmt.Sprintf("k%d", j)
			for i := 0; i < n; i++ {
				switch i % 4 {
				case 0:
					reqs = append(reqs, []string{"set", key, fmt.Sprintf("%d-%s", i, fill(size))})
				case 1:
					reqs = append(reqs, []string{"get", key})
				case 2:
					reqs = append(reqs, []string{"rpush", key + "l", fmt.Sprint(i)})
				case 3:
					reqs = append(reqs, []string{"lindex", key + "l", "-1"})
				}
			}
			all = append(all, reqs)
			go func(k *RCli) {
				_ = k.conn.SetWriteDeadline(time.Now().Add(30 * time.Second))
				_, err := k.conn.Write(encodeAll(reqs))
				done <- err
			}(e.k[j])
		}
		for j, k := range e.k {
			k.expect(e.m, all[j])
			k.quiet()
		}
		for range e.k {
			if err := <-done; err != nil {
				c.Fail("real server: %v", err)
			}
		}
	})
}

// realSlow asks for more than the socket buffers hold and reads later, while another client is served.
func realSlow(c *Ctx) {
	size := []int{1000, 70000, 300000, 1000000}[c.Choose(4, "size of a reply")]
	n := []int{1, 20, 60}[c.Choose(3, "replies")]
	piece := []int{0, 4096, 100000}[c.Choose(3, "bytes read at a time")]
	newReal(c, func(e *realEnv) {
		e.dial(2)
		k, o := e.k[0], e.k[1]
		if t, ok := k.conn.(*net.TCPConn); ok {
			_ = t.SetReadBuffer(128 << 10)
		}
		o.do(e.m, "set", "big", fill(size))
		var reqs [][]string
		for i := 0; i < n; i++ {
			reqs = append(reqs, []string{"get", "big"}, []string{"rpush", "l", fmt.Sprint(i)})
		}
		k.write(encodeAll(reqs))
		for i := 0; i < 5; i++ {
			time.Sleep(3 * time.Millisecond)
			o.do(e.m, "set", "o", fmt.Sprint(i))
			o.do(e.m, "get", "o")
		}
		if piece == 0 {
			k.expect(e.m, reqs)
		} else {
			var want bytes.Buffer
			v := fill(size)
			for i := 0; i < n; i++ {
				fmt.Fprintf(&want, "$%d\r\n%s\r\n:%d\r\n", len(v), v, i+1)
			}
			buf := make([]byte, piece)
			w := want.Bytes()
			for off := 0; off < len(w); {
				_ = k.conn.SetReadDeadline(time.Now().Add(20 * time.Second))
				m, err := k.conn.Read(buf)
				if err != nil {
					c.Fail("real server: after %d of %d bytes of replies: %v", off, len(w), err)
				}
				if off+m > len(w) || !bytes.Equal(buf[:m], w[off:off+m]) {
					c.Fail("real server: the replies differ from what is expected between byte %d and %d", off, off+m)
				}
				off += m
				c.alive()
				c.Step()
			}
			k.st = ConnState{}
			for i := 0; i < n; i++ {
				_ = e.m.exec(&k.st, []string{"rpush", "l", fmt.Sprint(i)}, Reply{T: ':', N: int64(i + 1)}, time.Now().UnixMilli())
			}
		}
		k.quiet()
		k.do(e.m, "ping")
		e.compare("after the replies were read")
	})
}

// realPeers runs sequences of what peers do to their connections.
func realPeers(peers, depth int) func(c *Ctx) {
	acts := []string{"request", "half a request", "the other half", "close", "reset", "shut down writing", "leave replies unread and close"}
	return func(c *Ctx) {
		type act struct{ peer, what int }
		var seq []act
		for i := 0; i < depth; i++ {
			x := c.Choose(peers*len(acts), "action")
			seq = append(seq, act{x / len(acts), x % len(acts)})
		}
		newReal(c, func(e *realEnv) {
			e.dial(1)
			ks := make([]*RCli, peers)
			half := make([]bool, peers)
			uid := 0
			for _, a := range seq {
				if ks[a.peer] == nil {
					ks[a.peer] = e.r.dial(e.addr, true)
					half[a.peer] = false
				}
				k := ks[a.peer]
				c.Logf("peer %d: %s", a.peer, acts[a.what])
				key := fmt.Sprintf("p%d", a.peer)
				req := encode("rpush", key, "whole")
				end := func() { k.close(); ks[a.peer] = nil }
				switch acts[a.what] {
				case "request":
					if half[a.peer] {
						k.write(req[9:])
						half[a.peer] = false
						k.expect(e.m, [][]string{{"rpush", key, "whole"}})
					} else {
						uid++
						k.do(e.m, "rpush", key, fmt.Sprint(uid))
						k.do(e.m, "lrange", key, "0", "-1")
					}
				case "half a request":
					if !half[a.peer] {
						k.write(req[:9])
						half[a.peer] = true
					}
				case "the other half":
					if half[a.peer] {
						k.write(req[9:])
						half[a.peer] = false
						k.expect(e.m, [][]string{{"rpush", key, "whole"}})
					}
				case "close":
					end()
				case "reset":
					_ = k.conn.(*net.TCPConn).SetLinger(0)
					end()
				case "shut down writing":
					_ = k.conn.(*net.TCPConn).CloseWrite()
					_ = k.conn.SetReadDeadline(time.Now().Add(20 * time.Second))
					if b, err := k.br.ReadByte(); err == nil {
						c.Fail("real server: an idle connection receives %q", b)
					} else if ne, ok := err.(net.Error); ok && ne.Timeout() {
						c.Fail("real server: a connection whose peer has shut down is not closed within 20 s")
					}
					end()
				case "leave replies unread and close":
					if !half[a.peer] {
						k.write(encodeAll([][]string{{"get", "nokey"}, {"ping"}}))
					}
					end()
				}
				e.k[0].do(e.m, "rpush", "watch", "x")
			}
			for i, k := range ks {
				if k == nil {
					k = e.r.dial(e.addr, true)
				} else if half[i] {
					k.write(encode("rpush", fmt.Sprintf("p%d", i), "whole")[9:])
					k.expect(e.m, [][]string{{"rpush", fmt.Sprintf("p%d", i), "whole"}})
				}
				k.do(e.m, "select", "1")
				k.do(e.m, "get", "nokey")
				k.close()
			}
			e.compare("after the connections ended")
			c.Sample(strings.TrimSpace(fmt.Sprint(seq)))
		})
	}
}

// realRaw sends arbitrary bytes, whose sender then goes away, while another client is served.
func realRaw(gen func(c *Ctx) []byte) func(c *Ctx) {
	return func(c *Ctx) {
		b := gen(c)
		newReal(c, func(e *realEnv) {
			e.dial(2)
			k, o := e.k[0], e.k[1]
			o.do(e.m, "set", "b", "v")
			o.do(e.m, "rpush", "l", "x", "y")
			c.Logf("real> %q", cut(b))
			look := func() {
				o.do(e.m, "get", "b")
				o.do(e.m, "lrange", "l", "0", "-1")
			}
			if len(b) > 0 {
				k.write(b)
			}
			look()
			// the server may have closed the connection, then the rest is not delivered
			_ = k.conn.SetWriteDeadline(time.Now().Add(20 * time.Second))
			_, _ = k.conn.Write(append(append(encode("ping"), "\r\n"...), encode("get", "b")...))
			look()
			_ = k.conn.(*net.TCPConn).CloseWrite()
			_ = k.conn.SetReadDeadline(time.Now().Add(20 * time.Second))
			var got []byte
			buf := make([]byte, 4096)
			for {
				n, err := k.br.Read(buf)
				got = append(got, buf[:n]...)
				if err != nil {
					if ne, ok := err.(net.Error); ok && ne.Timeout() {
						c.Fail("real server: after %q and the end of the stream the connection is not closed within 20 s", cut(b))
					}
					break
				}
			}
			if _, _, err := parseReplies(got); err != nil {
				c.Fail("real server: after %q: %v", cut(b), err)
			}
			n := e.r.dial(e.addr, true)
			n.do(e.m, "get", "b")
			n.close()
			e.compare("after the bytes")
			c.Sample(fmt.Sprintf("%q", cut(b)))
		})
	}
}

// realExpire carries out every sequence of three steps, each with a key of its own and 1.5 s apart, at once.
func realExpire(c *Ctx) {
	steps := [][]string{nil, {"set", "K", "v"}, {"setex", "K", "1", "v"}, {"setex", "K", "2", "v"}, {"expire", "K", "1"}, {"expire", "K", "2"},
		{"expireat", "K", "NOW+2"}, {"expire", "K", "0"}, {"rpush", "K", "a", "b"}, {"lpop", "K"}, {"sadd", "K", "m"}, {"del", "K"}, {"get", "K"}}
	n := len(steps)
	var at time.Time // when the current step is due
	late := func() bool { return time.Since(at) > 200*time.Millisecond }
	attempt := func() (ok bool) {
		cfg := config.Config{DatabaseNum: realDBs}
		e := &realEnv{c: c, cfg: cfg, m: newModel(cfg)}
		dir := c.scratch()
		defer os.RemoveAll(dir)
		e.boot(dir, e.file(true, ""))
		defer func() { e.r.kill() }()
		e.dial(1)
		// every expiry instant is at least a quarter of a second away from the steps
		time.Sleep(time.Until(time.Now().Truncate(time.Second).Add(1250 * time.Millisecond)))
		t0 := time.Now()
		timed := true
		defer func() {
			if x := recover(); x != nil {
				if timed && late() { // the machine was too busy: no verdict
					ok = false
					return
				}
				panic(x)
			}
		}()
		for s := 0; s < 4; s++ {
			at = t0.Add(time.Duration(s) * 1500 * time.Millisecond)
			time.Sleep(time.Until(at))
			for first := 0; first < n; first++ {
				reqs := [][]string{{"select", fmt.Sprint(first % realDBs)}}
				for i := 0; i < n*n; i++ {
					a := []string{"get", ""}
					if s < 3 {
						a = steps[[]int{first, i / n, i % n}[s]]
					}
					if a != nil {
						a = append([]string(nil), a...)
						a[1] = fmt.Sprintf("k%d.%d", first, i)
						reqs = append(reqs, e.subst(a))
					}
				}
				e.k[0].write(encodeAll(reqs))
				e.k[0].expect(e.m, reqs)
			}
			if late() {
				return false
			}
		}
		timed = false
		time.Sleep(time.Until(t0.Add(6 * time.Second))) // nothing with an expiry is left
		e.compare("after the steps")
		e.r.kill()
		e.boot(dir, e.file(true, ""))
		e.k = nil
		e.compare("after a SIGKILL and a restart")
		return true
	}
	for try := 0; try < 3 && !attempt(); try++ {
	}
}
