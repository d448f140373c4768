//go:build go1.23

package main

import (
	"fmt"
	"strings"
	"syscall"

	"github.com/IfanTsai/metis/config"
	rt "github.com/IfanTsai/metis/verifvrt"
)

// --- C38: busy connections do not starve anything else ---

// busy is a connection, or a series of them, that never lets up.
type busy struct {
	kind string
	conn *rt.Conn
	sent int // complete requests
	hog  bool
	n    int // reads since the last poll
	feed []byte
}

var busyKinds = []string{"one request at a time", "one write at a time", "pipelines", "pipelines, replies not read", "bytes of one request", "sips of a large reply", "connections that come and go", "connections that send garbage", "a large value"}

type fairEnv struct {
	*seqEnv
	busy  []*busy
	step1 int64 // ms per round
	stop  bool
}

func (x *fairEnv) add(kind string) {
	b := &busy{kind: kind}
	x.busy = append(x.busy, b)
	switch kind {
	case "connections that come and go", "connections that send garbage":
		return
	}
	b.conn = x.s.dial().conn
}

func (x *fairEnv) start(b *busy) {
	switch b.kind {
	case "connections that come and go", "connections that send garbage":
		return
	case "one request at a time":
		b.feed, b.sent = encode("ping"), 1
	case "one write at a time":
		b.feed, b.sent = encode("set", "w", "v"), 1
	case "pipelines", "pipelines, replies not read":
		for i := 0; i < 200; i++ {
			b.feed = append(b.feed, encode("get", "a")...)
		}
		b.sent = 200
		b.conn.OutFull = b.kind != "pipelines"
	case "bytes of one request":
		b.conn.Send([]byte("*3\r\n$3\r\nset\r\n$1\r\nd\r\n$200000\r\n"))
		b.feed = []byte("x")
	case "a large value":
		b.conn.Send([]byte("*3\r\n$3\r\nset\r\n$1\r\nd\r\n$500000000\r\n"))
		b.feed = []byte(fill(5000))
	case "sips of a large reply":
		b.conn.WriteFn = func(n int) (int, syscall.Errno) {
			b.n++
			if b.n > 500 {
				b.hog = true
			}
			if b.n > 1 && !x.stop { // there is room for one byte each time
				return 0, syscall.EAGAIN
			}
			return 1, 0
		}
		b.conn.Send(encode("lrange", "big", "0", "-1"))
		b.feed = nil
	}
	b.sent = 0
	if b.feed != nil {
		b.conn.OnRead = func() {
			b.n++
			if b.n > 500 {
				b.hog = true
			} else if !x.stop && len(b.conn.In) == 0 {
				b.refill()
			}
		}
	}
}

func (b *busy) refill() {
	b.conn.In = append(b.conn.In, b.feed...)
	switch b.kind {
	case "one request at a time", "one write at a time":
		b.sent++
	case "pipelines", "pipelines, replies not read":
		b.sent += 200
	}
}

// turn lets the server go once through its event loop.
func (x *fairEnv) turn() {
	s := x.s
	for _, b := range x.busy {
		b.n = 0
		switch b.kind {
		case "connections that come and go", "connections that send garbage":
			if b.conn != nil && b.conn.Accepted && len(b.conn.In) == 0 {
				b.conn.Close()
			}
			if b.conn == nil || b.conn.Closed {
				b.conn = s.w.Dial(localhost, testPort)
				if b.kind == "connections that come and go" {
					b.conn.Send(encode("ping"))
				} else {
					b.conn.Send([]byte("*1\r\n!\r\n"))
				}
			}
		default:
			if b.feed != nil && len(b.conn.In) == 0 {
				b.refill()
			}
		}
	}
	s.w.Net.Advance = 0
	s.w.NowNS += x.step1 * 1e6
	for n := 0; ; n++ {
		if t := s.bgEnabled(); t != nil {
			s.step(t)
			s.alive("background task")
			continue
		}
		if !s.t0.Enabled() {
			x.c.Fail("the server is stuck at %s", s.t0.Pt.Label)
		}
		s.step(s.t0)
		s.alive("serving")
		if s.t0.AtEpoll() {
			break
		}
		if n > 200000 {
			x.c.Fail("the event loop does not get round: 200000 steps without polling again")
		}
	}
	s.netState()
	for _, b := range x.busy {
		if b.hog {
			x.c.Fail("one connection (%s) keeps the server to itself: 500 reads or writes without a look at the others", b.kind)
		}
	}
}

// within turns the loop until what is wanted has happened.
func (x *fairEnv) within(rounds int, what string, ok func() bool) {
	rounds += 2 * len(x.busy) // a poll need not report everything at once
	for i := 0; i < rounds; i++ {
		if x.turn(); ok() {
			return
		}
	}
	var kinds []string
	for _, b := range x.busy {
		kinds = append(kinds, b.kind)
	}
	x.c.Fail("%s has not happened after %d rounds of the event loop while %d connections are busy (%s)", what, rounds, len(kinds), cutN(strings.Join(kinds, "; "), 200))
}

func newFair(c *Ctx, fsync config.TypeAppnedFsync, ms int64) *fairEnv {
	x := &fairEnv{step1: ms}
	cfg := aofConfig(fsync)
	e := &seqEnv{c: c, m: newModel(cfg)}
	e.s = bootRec(c, nil, cfg, 0)
	e.k = append(e.k, e.s.dial())
	x.seqEnv = e
	// the list of ready descriptors of Linux: what becomes ready joins its end, and so does what has been reported
	var order []int32
	find := func(fd int32) int {
		for i, o := range order {
			if o == fd {
				return i
			}
		}
		return -1
	}
	e.s.w.Net.Reorder = func(evs []syscall.EpollEvent) []syscall.EpollEvent {
		by := map[int32]syscall.EpollEvent{}
		for _, v := range evs {
			by[v.Fd] = v
			if find(v.Fd) < 0 {
				order = append(order, v.Fd)
			}
		}
		old := order
		order = nil
		var r []syscall.EpollEvent
		for _, fd := range old {
			if v, ok := by[fd]; ok {
				r, order = append(r, v), append(order, fd)
			}
		}
		return r
	}
	e.s.w.Net.Reported = func(evs []syscall.EpollEvent) {
		for _, v := range evs {
			i := find(v.Fd)
			order = append(append(order[:i:i], order[i+1:]...), v.Fd)
		}
	}
	return x
}

var fairActions = []string{"request", "pipeline", "new connection", "expiry", "rewrite", "fsync", "disconnection", "rest of a request"}

func fair(counts []int, kinds2 []string) func(c *Ctx) {
	return func(c *Ctx) {
		kind := busyKinds[c.Choose(len(busyKinds), "busy")]
		second := kinds2[c.Choose(len(kinds2), "and")]
		n := counts[c.Choose(len(counts), "busy connections")]
		action := fairActions[c.Choose(len(fairActions), "action")]
		early := c.Choose(2, "connected before the busy ones") == 1
		pol := config.TypeAppendFsyncNever
		ms := int64(1)
		switch action {
		case "expiry":
			ms = 41
		case "fsync":
			pol, ms = config.TypeAppendFsyncEverySecond, 41
		}
		x := newFair(c, pol, ms)
		s := x.s
		defer func() { x.s.end() }()
		x.do(o("set a #"))
		x.do(o("set w v"))
		big := []string{"rpush", "big"}
		for i := 0; i < 300; i++ {
			big = append(big, "element"+itoa(i))
		}
		x.do(op{args: big})
		var v *pipe
		if early {
			v = s.pipe(x.m)
		}
		for i := 0; i < n; i++ {
			x.add(kind)
			if second != "" {
				x.add(second)
			}
		}
		for _, b := range x.busy {
			x.start(b)
		}
		if !early {
			x.turn()
			conn := s.w.Dial(localhost, testPort)
			v = &pipe{Cli: &Cli{s: s, conn: conn, name: "late"}, m: x.m}
			x.within(8+len(x.busy), "the acceptance of a connection", func() bool { return conn.Accepted })
		}
		for i := 0; i < 4; i++ {
			x.turn()
		}
		answered := func(p *pipe) func() bool {
			return func() bool {
				p.check(false)
				return p.done == len(p.sent)
			}
		}
		switch action {
		case "request":
			for i := 0; i < 3; i++ {
				v.send(v.queue(f("rpush l x")))
				x.within(4, "the reply to a request", answered(v))
			}
		case "rest of a request":
			b := v.queue(f("rpush l x"))
			for i := range b {
				v.send(b[i : i+1])
				x.turn()
			}
			x.within(4, "the reply to a request", answered(v))
		case "pipeline":
			for i := 0; i < 40; i++ {
				v.send(v.queue(f("rpush l x"), f("get a")))
			}
			x.within(12, "the last reply to 80 requests", answered(v))
		case "new connection":
			waiting := 0
			for _, k := range s.w.Net.Conns {
				if !k.Accepted {
					waiting++
				}
			}
			conn := s.w.Dial(localhost, testPort)
			w := &pipe{Cli: &Cli{s: s, conn: conn, name: "late"}, m: x.m}
			w.send(w.queue(f("rpush l x")))
			x.within(8+waiting, "the reply to the first request of a new connection", answered(w))
		case "expiry":
			v.send(v.queue(f("setex x 1 v")))
			x.within(4, "the reply to a request", answered(v))
			for i := 0; i < 1100/41; i++ {
				x.turn()
			}
			x.within(6, "the removal of an expired key", func() bool {
				cmds, _ := parseLog(x.s.aofBytes())
				for _, a := range cmds {
					if strings.EqualFold(a[0], "del") {
						return true
					}
				}
				return false
			})
		case "rewrite":
			old := s.w.FS.Files[aofPath].ID
			v.send(v.queue(f("bgrewriteaof")))
			x.within(12, "the replacement of the append-only file", func() bool {
				i := s.w.FS.Files[aofPath]
				return i != nil && i.ID != old
			})
			answered(v)()
		case "fsync":
			for i := 0; i < 1100/41; i++ {
				x.turn()
			}
			v.send(v.queue(f("rpush l x")))
			x.within(4, "the reply to a request", answered(v))
			wrote := -1
			for i, e := range s.w.Log {
				if e.Kind == rt.EWrite {
					wrote = i
				}
			}
			x.within(1100/41+4, "the fsync of a write", func() bool {
				for _, e := range s.w.Log[wrote:] {
					if e.Kind == rt.ESync {
						return true
					}
				}
				return false
			})
		case "disconnection":
			v.conn.Close()
			x.within(4, "the closing of a connection its client has closed", func() bool { return v.conn.SrvClose })
		}
		x.stop = true
		for _, b := range x.busy {
			if b.conn == nil {
				continue
			}
			b.conn.OutFull, b.conn.WriteFn, b.conn.OnRead = false, nil, nil
			switch b.kind {
			case "connections that come and go", "connections that send garbage", "bytes of one request", "a large value":
				b.conn.Close()
			}
		}
		s.settle()
		for _, b := range x.busy {
			if b.sent == 0 {
				continue
			}
			rs, rest, err := parseReplies(b.conn.Out)
			if err != nil || len(rest) > 0 || len(rs) != b.sent {
				c.Fail("a busy connection (%s) sent %d requests and received %d replies (%v)", b.kind, b.sent, len(rs), err)
			}
		}
		if action != "disconnection" {
			v.check(true)
		}
		s.w.Net.Reorder, s.w.Net.Reported = nil, nil
		x.s.compare(x.m, 0, "afterwards")
		c.Sample(fmt.Sprintf("%d times %s, %s: %s within its rounds", n, kind, second, action))
	}
}

func init() {
	register(&Check{
		ID:          "C38",
		Explanation: "Some connections never let up (an endless flow of requests one by one or in pipelines, replies never read or sipped byte by byte, a request that trickles in or never ends, connections that come and go or send garbage), in every combination of two such kinds and several numbers of them, reported by the poller in the order of Linux. Meanwhile another connection sends a request, a pipeline or the rest of a request, connects or disconnects, or a key expires, a rewrite or an fsync is due: each must be done within a few rounds of the event loop, and no connection may keep the loop to itself. Afterwards all requests have been answered and the keyspace is the model's.",
		Assumptions: []string{"the poller reports ready descriptors in the order in which they became ready or were last reported, as Linux does"},
		Phases: []Phase{
			{Name: "one kind", Shard: 2, Weight: 4, Run: fair([]int{1, 2, 5, 17}, []string{""})},
			{Name: "two kinds", Shard: 3, Weight: 6, Run: fair([]int{1, 3}, busyKinds)},
			{Name: "many connections", Shard: 3, Weight: 3, Run: fair([]int{70}, []string{""})},
			{Name: "more connections, two kinds", Tier: "thorough", Shard: 3, Weight: 4, Run: fair([]int{2, 9, 33}, busyKinds)},
			{Name: "very many connections", Tier: "thorough", Shard: 3, Weight: 4, Run: fair([]int{300, 600}, []string{""})},
		},
	})
}
