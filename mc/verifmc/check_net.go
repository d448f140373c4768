//go:build go1.23

package main

import (
	"fmt"
	"strings"
	"syscall"

	rt "github.com/IfanTsai/metis/verifvrt"
)

// pipe is a client that sends requests without waiting for the replies.
type pipe struct {
	*Cli
	m    *Model
	sent [][]string
	done int
}

func (s *Srv) pipe(m *Model) *pipe { return &pipe{Cli: s.dial(), m: m} }

// check compares the replies that came so far with the model. all: every request must be answered.
func (p *pipe) check(all bool) {
	s := p.s
	for _, r := range p.got() {
		if p.done >= len(p.sent) {
			s.c.Fail("%s: reply %s without a request (%d requests sent)", p.name, r, len(p.sent))
		}
		a := p.sent[p.done]
		if s.c.tracing {
			s.c.Logf("%s> %s -> %s", p.name, showArgs(a), r)
		}
		if err := p.m.exec(&p.st, a, r, s.w.NowMS()); err != nil {
			s.c.Fail("%s: request %d (%s): %v", p.name, p.done+1, showArgs(a), err)
		}
		p.done++
	}
	if all {
		if p.done < len(p.sent) {
			s.c.Fail("%s: %d of %d requests answered, the next one is %s (%d bytes of an incomplete reply, connection closed: %v)",
				p.name, p.done, len(p.sent), showArgs(p.sent[p.done]), len(p.conn.Out)-p.off, p.conn.SrvClose)
		}
		if p.off != len(p.conn.Out) {
			s.c.Fail("%s: %d stray bytes after the last reply: %q", p.name, len(p.conn.Out)-p.off, cut(p.conn.Out[p.off:]))
		}
	}
}

func (p *pipe) send(b []byte) {
	if p.s.c.tracing {
		p.s.c.Logf("%s sends %d bytes: %q", p.name, len(b), cut(b))
	}
	p.conn.Send(b)
}

func (p *pipe) queue(reqs ...[]string) []byte {
	var b []byte
	for _, a := range reqs {
		b = append(b, encode(a...)...)
		p.sent = append(p.sent, a)
	}
	return b
}

func encodeAll(reqs [][]string) []byte {
	var b []byte
	for _, a := range reqs {
		b = append(b, encode(a...)...)
	}
	return b
}

func f(s string) []string { return strings.Fields(s) }

// idle checks that the server has nothing left to do for the connections.
func (s *Srv) idle() {
	if s.w.AnyReady(s.t0) {
		s.c.Fail("the server still has events after everything was handled")
	}
	s.netState()
}

// netState records the state of the connections.
func (s *Srv) netState() {
	if s.c.eng == nil {
		return
	}
	b := make([]byte, 0, 64)
	it := s.w.Net.Interest()
	for _, k := range s.w.Net.Conns {
		fl := byte(0)
		for i, x := range []bool{k.EOF, k.Closed, k.Reset, k.SrvClose, k.OutFull, k.Accepted} {
			if x {
				fl |= 1 << i
			}
		}
		b = append(b, fl, byte(k.FD), byte(it[k.FD]), byte(len(k.In)), byte(len(k.Out)), byte(len(k.Out)>>8))
	}
	s.c.State(string(b))
}

// chunked runs a request stream through one connection in the given chunks and checks everything.
func chunked(c *Ctx, reqs [][]string, chunks [][]byte, readMax int, tail [][]string) {
	s := boot(c, nil, baseConfig(), 0)
	defer s.end()
	p := s.pipe(newModel(s.cfg))
	if readMax > 0 {
		p.conn.ReadMax = func(int) int { return readMax }
	}
	p.queue(reqs...)
	sent, full, next := 0, 0, 0 // complete requests among the bytes sent
	for _, b := range chunks {
		p.send(b)
		s.settle()
		if p.conn.SrvClose {
			c.Fail("the connection is closed although every request is valid")
		}
		for sent += len(b); next < len(reqs) && full+reqLen(reqs[next]) <= sent; next++ {
			full += reqLen(reqs[next])
		}
		if len(chunks) <= 64 {
			p.check(false)
			c.Check(p.done >= next, "%d of %d complete requests are answered while the connection is quiet", p.done, next)
			s.idle()
		}
	}
	p.check(true)
	// the connection is as good as new
	p.send(p.queue(tail...))
	s.settle()
	p.check(true)
	s.idle()
	s.compare(p.m, 0, "after the stream")
}

// reqLen is the length of an encoded request.
func reqLen(a []string) int {
	n := 3 + len(itoa(len(a)))
	for _, x := range a {
		n += 5 + len(itoa(len(x))) + len(x)
	}
	return n
}

var probeTail = [][]string{{"set", "tail", "t"}, {"get", "tail"}}

func streams() [][][]string {
	return [][][]string{
		{f("set a 1"), f("get a"), f("rpush l x y"), f("lrange l 0 -1")},
		{{"set", "", ""}, {"get", ""}, {"set", "k", ""}, {"get", "k"}},
		{{"set", "a\r\n", "\r\n"}, {"get", "a\r\n"}, {"set", "\r", "\n"}, {"get", "\r"}},
		{{"set", "k", "*1\r\n$4\r\nping\r\n"}, {"get", "k"}, {"ping"}},
		{{"set", "k", "$-1\r\n"}, {"sadd", "s", "", "\r\n", "\x00\xff"}, {"smembers", "s"}},
		{f("ping"), f("get"), f("nosuch x"), f("select 1"), f("set a b"), f("select 0"), f("get a")},
		{{"hset", "h", "", "v", "\r\n\r\n", ""}, {"hget", "h", ""}, {"hget", "h", "\r\n\r\n"}},
		{{"get", "0123456789"}, {"set", "0123456789", "0123456789ab"}, {"get", "0123456789"}},
		{{"zadd", "z", "1", "", "2", "\r\n"}, {"zrange", "z", "0", "-1"}, {"keys", "*"}},
	}
}

type bytesResult struct {
	out    string
	closed bool
	keys   string
}

// rawBytes sends chunks of arbitrary bytes.
func rawBytes(c *Ctx, chunks [][]byte) bytesResult {
	s := boot(c, nil, baseConfig(), 0)
	defer s.end()
	k := s.dial()
	for _, b := range chunks {
		k.conn.Send(b)
		s.settle()
	}
	if s.c.tracing {
		c.Logf("%q -> %q, closed: %v", cutN(fmt.Sprintf("%q", chunks), 500), cut(k.conn.Out), k.conn.SrvClose)
	}
	return bytesResult{string(k.conn.Out), k.conn.SrvClose, s.dump().canon(s.w.NowMS())}
}

// longLines holds splits of streams with lines longer than a read, valid or not, against the unsplit stream.
func longLines(c *Ctx) {
	sizes := []int{1, 100, 1000, 4000, 4080, 4085, 4086, 4087, 4088, 4089, 4090, 4094, 4095, 4096, 4097, 4200, 8190, 8192, 8193, 20000, 32768, 60000, 65000, 65500, 65525, 70000}
	n := sizes[c.Choose(len(sizes), "bytes of the line")]
	var b []byte
	switch c.Choose(6, "line") {
	case 0:
		b = []byte("+SET a " + strings.Repeat("x", n) + "\r\n")
	case 1:
		b = []byte("SET a " + strings.Repeat("x", n) + "\r\n")
	case 2:
		b = []byte("+PING" + strings.Repeat(" ", n) + "\r\n")
	case 3:
		b = []byte("*" + strings.Repeat("0", n) + "1\r\n$4\r\nPING\r\n")
	case 4:
		b = []byte("*1\r\n$" + strings.Repeat("0", n) + "4\r\nPING\r\n")
	case 5:
		b = []byte("+RPUSH l" + strings.Repeat(" y", n/2) + "\r\n")
	}
	b = append(encode("set", "first", "1"), append(b, encode("rpush", "last", "z")...)...)
	whole := rawBytes(c, [][]byte{b})
	for _, m := range []int{1 + len(b)/7, 4095, 4096, 4097, 1000} {
		var at []int
		for p := m; p < len(b); p += m {
			at = append(at, p)
		}
		if len(at) > 0 {
			sameBytes(c, b, fmt.Sprintf("in pieces of %d", m), whole, rawBytes(c, cuts(b, at...)))
		}
	}
	for _, i := range []int{len(b) / 2, len(b) - len(encode("rpush", "last", "z")) - 1, len(b) - 3} {
		sameBytes(c, b, fmt.Sprintf("cut at %d", i), whole, rawBytes(c, cuts(b, i)))
	}
	c.Sample(fmt.Sprintf("%q", cut(b)))
}

// sameBytes: an error that closes the connection may discard replies that were not sent yet.
func sameBytes(c *Ctx, b []byte, what string, got, whole bytesResult) {
	ok := got.closed == whole.closed && got.keys == whole.keys &&
		(got.out == whole.out || whole.closed && strings.HasPrefix(got.out, whole.out))
	c.Check(ok, "%q %s: replies %q, closed %v, keyspace %s; unsplit: replies %q, closed %v, keyspace %s", cut(b), what, cutN(got.out, 300), got.closed, cutN(got.keys, 300), cutN(whole.out, 300), whole.closed, cutN(whole.keys, 300))
}

// anyBytes holds every split of arbitrary bytes, valid or not, against the unsplit stream.
func anyBytes(n int) func(c *Ctx) {
	toks := []string{"*1\r\n$4\r\nPING\r\n", "*3\r\n$3\r\nSET\r\n$1\r\nk\r\n$2\r\nv\r\r\n", "+SET a b\r\n", "+GET k\r\n", "$4\r\nPING\r\n", "$0\r\n\r\n", "*0\r\n", "*-1\r\n", "\r\n", "*2\r\n$3\r\nGET\r\n$1\r\na\r\n",
		"*2\r\n$3\r\nGET\r\n", "$1\r\nk\r\n", "*x\r\n", "$-1\r\n", "*1\r\n$2\r\nPING\r\n", "*1\r\n+OK\r\n", "\r", "\n", "$"}
	return func(c *Ctx) {
		var b []byte
		for i := 0; i < n; i++ {
			b = append(b, toks[c.Choose(len(toks), "token")]...)
		}
		whole := rawBytes(c, [][]byte{b})
		var bytes [][]byte
		for i := range b {
			bytes = append(bytes, b[i:i+1])
		}
		check := func(what string, got bytesResult) { sameBytes(c, b, what, got, whole) }
		check("byte by byte", rawBytes(c, bytes))
		for i := 1; i < len(b); i += 1 + len(b)/60 {
			check(fmt.Sprintf("cut at %d", i), rawBytes(c, cuts(b, i)))
		}
		c.Sample(fmt.Sprintf("%q", b))
	}
}

func cuts(b []byte, at ...int) [][]byte {
	var r [][]byte
	p := 0
	for _, a := range at {
		r = append(r, b[p:a])
		p = a
	}
	return append(r, b[p:])
}

func init() {
	sts := streams()
	register(&Check{ID: "C18", Explanation: "The real server parses the same request streams under every segmentation: all pairs of cut points (and triples in the thorough tier) of short streams with empty, CRLF-bearing and protocol-like arguments, every uniform read size, and long arguments around every buffer boundary. Every execution checks each reply, the final keyspace and that the connection is still in step.",
		Phases: []Phase{
			{Name: "real binary", Shard: 2, Weight: 1, Run: realSplit(sts, 1)},
			{Name: "real binary, two cuts", Tier: "thorough", Shard: 3, Weight: 1, Run: realSplit(sts, 2)},
			{Name: "cut-pairs", Shard: 2, Weight: 2, Run: func(c *Ctx) {
				r := sts[c.Choose(len(sts), "stream")]
				b := encodeAll(r)
				i := c.Choose(len(b)+1, "first cut")
				j := i + c.Choose(len(b)+1-i, "second cut")
				c.Sample(fmt.Sprintf("%v cut at %d and %d", r, i, j))
				chunked(c, r, cuts(b, i, j), 0, probeTail)
			}},
			{Name: "cut-triples", Tier: "thorough", Shard: 2, Weight: 4, Run: func(c *Ctx) {
				r := sts[c.Choose(len(sts), "stream")]
				b := encodeAll(r)
				i := c.Choose(len(b)+1, "first cut")
				j := i + c.Choose(len(b)+1-i, "second cut")
				k := j + c.Choose(len(b)+1-j, "third cut")
				chunked(c, r, cuts(b, i, j, k), 0, probeTail)
			}},
			{Name: "uniform-chunks", Run: func(c *Ctx) {
				r := sts[c.Choose(len(sts), "stream")]
				b := encodeAll(r)
				n := 1 + c.Choose(len(b), "chunk size")
				if c.Choose(2, "by the sender or by the reads") == 1 {
					chunked(c, r, [][]byte{b}, n, probeTail)
					return
				}
				var at []int
				for p := n; p < len(b); p += n {
					at = append(at, p)
				}
				chunked(c, r, cuts(b, at...), 0, probeTail)
			}},
			{Name: "long-arguments", Weight: 2, Run: func(c *Ctx) {
				sizes := []int{1000, 4060, 4061, 4062, 4063, 4064, 4080, 4090, 4095, 4096, 4097, 4100, 8191, 8192, 8193, 12288, 16384, 65535, 65536, 65537, 70000}
				n := sizes[c.Choose(len(sizes), "size")]
				v := fill(n)
				var r [][]string
				switch c.Choose(3, "shape") {
				case 0:
					r = [][]string{{"set", "k", v}, {"get", "k"}, {"ping"}}
				case 1:
					r = [][]string{{"ping"}, {"set", v, "x"}, {"get", v}, {"rpush", "l", v, "", v}, {"llen", "l"}}
				case 2:
					r = [][]string{{"rpush", "l", "\r\n", v, "\r\n", v, "e"}, {"lrange", "l", "0", "-1"}}
				}
				b := encodeAll(r)
				ms := []int{0, 1, 7, 100, 1000, 4094, 4095, 4096, 4097, 8192, 16384, 65536}
				m := ms[c.Choose(len(ms), "chunk")]
				if m == 1 && n > 9000 {
					m = 13
				}
				if m == 0 {
					chunked(c, r, [][]byte{b}, 0, probeTail)
				} else if c.Choose(2, "by the sender or by the reads") == 1 {
					chunked(c, r, [][]byte{b}, m, probeTail)
				} else {
					var at []int
					for p := m; p < len(b); p += m {
						at = append(at, p)
					}
					chunked(c, r, cuts(b, at...), 0, probeTail)
				}
			}},
			{Name: "huge-arguments", Shard: 2, Weight: 2, Run: func(c *Ctx) {
				n := []int{1<<20 - 1, 1 << 20, 1<<20 + 1, 3<<20 + 5, 1 << 23, 16<<20 + 1}[c.Choose(6, "size")]
				m := []int{0, 4096, 65536, 1 << 19, 1 << 20}[c.Choose(5, "chunk")]
				v := fill(n)
				r := [][]string{{"set", "k", v}, {"ping"}, {"get", "k"}}
				switch c.Choose(3, "shape") {
				case 1:
					r = [][]string{{"set", v, "x"}, {"get", v}}
				case 2:
					r = [][]string{{"rpush", "l", "a", v, "", v[:n/2]}, {"llen", "l"}, {"lindex", "l", "1"}}
				}
				b := encodeAll(r)
				if m == 0 {
					chunked(c, r, [][]byte{b}, 0, probeTail)
					return
				}
				var at []int
				for p := m; p < len(b); p += m {
					at = append(at, p)
				}
				chunked(c, r, cuts(b, at...), 0, probeTail)
			}},
			{Name: "many-arguments", Shard: 2, Weight: 2, Run: func(c *Ctx) {
				n := []int{1, 15, 16, 17, 1023, 1024, 1025, 9999, 10000, 65535, 65536, 100000, 262144}[c.Choose(13, "elements")]
				m := []int{0, 4096, 100003}[c.Choose(3, "chunk")]
				cmd := []string{"rpush", "sadd"}[c.Choose(2, "command")]
				a := []string{cmd, "l"}
				for i := 0; i < n; i++ {
					a = append(a, "e"+itoa(i))
				}
				r := [][]string{a, {"ping"}}
				b := encodeAll(r)
				if m == 0 {
					chunked(c, r, [][]byte{b}, 0, probeTail)
					return
				}
				var at []int
				for p := m; p < len(b); p += m {
					at = append(at, p)
				}
				chunked(c, r, cuts(b, at...), 0, probeTail)
			}},
			{Name: "any bytes", Shard: 2, Weight: 2, Run: anyBytes(3)},
			{Name: "long lines", Shard: 2, Weight: 2, Run: longLines},
			{Name: "any bytes, longer", Tier: "thorough", Shard: 3, Weight: 3, Run: anyBytes(4)},
			{Name: "boundary-slide", Weight: 2, Shard: 1, Run: func(c *Ctx) {
				// a pad moves every byte of the following requests over the read-buffer boundaries
				n := c.Choose(4200, "pad")
				r := [][]string{{"set", "p", fill(n)}, {"set", "a\r\n", ""}, {"get", "a\r\n"}, f("rpush l x y"), f("lrange l 0 -1"), {"get", "p"}}
				chunked(c, r, [][]byte{encodeAll(r)}, 0, probeTail)
			}},
			{Name: "one-cut-long", Weight: 1, Shard: 1, Run: func(c *Ctx) {
				r := [][]string{f("set a b"), {"set", "k", fill(4100)}, f("get a"), {"get", "k"}}
				b := encodeAll(r)
				i := c.Choose(len(b)+1, "cut")
				chunked(c, r, cuts(b, i), 0, probeTail)
			}},
			{Name: "many-requests-cut", Weight: 1, Shard: 1, Run: func(c *Ctx) {
				// a partial request follows a pipeline and is completed after a pause, at every byte
				r := [][]string{f("set a b"), f("get a"), {"set", "c", "\r\n"}, f("get c")}
				b := encodeAll(r)
				all := append(append([][]string{}, r...), r...)
				i := c.Choose(len(b)+1, "cut")
				bb := append(append([]byte{}, b...), b...)
				k := c.Choose(3, "in one piece or more")
				switch k {
				case 0:
					chunked(c, all, cuts(bb, len(b)+i), 0, probeTail)
				case 1:
					chunked(c, all, cuts(bb, i, len(b)+i), 0, probeTail)
				case 2:
					chunked(c, all, cuts(bb, i), 1+i, probeTail)
				}
			}},
		}})

	cmds := [][]string{f("get a"), f("set a 1"), {"set", "a", "\r\n+OK\r\n"}, f("nosuch"), f("set"), f("rpush a x"), f("lrange l 0 -1"), f("rpush l x y"), f("keys *"), f("select 1"), {"zadd", "z", "a\r\n:1\r\n", "m"}}
	register(&Check{ID: "C19", Explanation: "Pipelines on the real server: all sequences of requests up to a depth under every grouping into segments, pipelines of every length up to 300 and of several thousand requests with replies of all kinds and sizes, under several read sizes, with a reader that does not read for a while, and on two connections at once. Each reply stream is compared with the model request by request.",
		Phases: []Phase{
			{Name: "sequences", Shard: 2, Weight: 2, Run: func(c *Ctx) {
				r := make([][]string, 4)
				for i := range r {
					r[i] = cmds[c.Choose(len(cmds), "request")]
				}
				chunked(c, r, [][]byte{encodeAll(r)}, 0, probeTail)
				c.Sample(fmt.Sprintf("%q in one segment", r))
			}},
			{Name: "real binary", Shard: 2, Weight: 1, Run: realPipelines},
			{Name: "groupings", Shard: 2, Weight: 1, Run: func(c *Ctx) {
				r := make([][]string, 3)
				for i := range r {
					r[i] = cmds[c.Choose(len(cmds), "request")]
				}
				r = append(r, r...)
				var chunks [][]byte
				var b []byte
				for i, a := range r {
					b = append(b, encode(a...)...)
					if i == len(r)-1 || c.Choose(2, "segment ends here") == 1 {
						chunks = append(chunks, b)
						b = nil
					}
				}
				chunked(c, r, chunks, 0, probeTail)
			}},
			{Name: "lengths", Shard: 2, Weight: 2, Run: func(c *Ctx) {
				n := 1 + c.Choose(300, "requests")
				if n > 290 {
					n = []int{500, 512, 1000, 1024, 2000, 2048, 3000, 4096, 5000, 10000}[n-291]
				}
				kind := c.Choose(4, "kind")
				var r [][]string
				for i := 0; i < n; i++ {
					switch kind {
					case 0:
						r = append(r, []string{"ping"})
					case 1:
						if i%2 == 0 {
							r = append(r, []string{"set", "k" + itoa(i%5), itoa(i)})
						} else {
							r = append(r, []string{"get", "k" + itoa((i-1)%5)})
						}
					case 2:
						switch i % 4 {
						case 0:
							r = append(r, []string{"set", "k", fill(i % 700)})
						case 1:
							r = append(r, []string{"get", "k"})
						case 2:
							r = append(r, []string{"nosuch", itoa(i)})
						case 3:
							r = append(r, []string{"get", "missing"})
						}
					case 3:
						r = append(r, []string{"rpush", "l", itoa(i)})
						if n < 400 && i%3 == 2 {
							r = append(r, []string{"lrange", "l", "0", "-1"})
						}
					}
				}
				ms := []int{0, 1, 10, 33, 1000, 4096}
				m := ms[c.Choose(len(ms), "read size")]
				if m > 0 && m < 30 && n > 64 {
					m = 97
				}
				chunked(c, r, [][]byte{encodeAll(r)}, m, probeTail)
			}},
			{Name: "short requests", Shard: 2, Weight: 1, Run: func(c *Ctx) {
				// as many requests as one read can hold
				form := []string{"+PING\r\n", "+GET a\r\n", "-get\r\n", "*1\r\n$4\r\nPING\r\n", "*1\r\n$1\r\nx\r\n", "+x\r\n", "$4\r\nPING\r\n", "$1\r\nx\r\n"}[c.Choose(8, "form")]
				var r [][]string
				one := strings.Fields(form[1:]) // an inline request loses its first byte
				if form[0] == '*' || form[0] == '$' {
					one = []string{one[len(one)-1]}
				}
				n := []int{60, 250, 255, 256, 257, 500, 511, 512, 513, 585, 682, 683, 700, 1000, 1023, 1024, 1025, 1365, 1366, 1500, 2049, 3000, 5000}[c.Choose(23, "requests")]
				b := []byte("*3\r\n$3\r\nset\r\n$1\r\na\r\n$1\r\n1\r\n")
				r = append(r, []string{"set", "a", "1"})
				for i := 0; i < n; i++ {
					b = append(b, form...)
					r = append(r, one)
				}
				chunks := [][]byte{b}
				if c.Choose(2, "segments") == 1 {
					chunks = cuts(b, len(b)/2+1)
				}
				chunked(c, r, chunks, 0, probeTail)
				c.Sample(fmt.Sprintf("%d times %q", n, form))
			}},
			{Name: "forms", Shard: 2, Weight: 1, Run: func(c *Ctx) {
				// every form of a request, mixed
				forms := []struct {
					b    string
					args []string
				}{
					{"$1\r\nx\r\n", f("x")}, {"$2\r\nxy\r\n", f("xy")}, {"$4\r\nPING\r\n", f("PING")}, {"$4\r\nping\r\n", f("ping")},
					{"+PING\r\n", f("PING")}, {"+x\r\n", f("x")}, {"+set a inline\r\n", f("set a inline")}, {"+get a\r\n", f("get a")},
					{"*1\r\n$4\r\nPING\r\n", f("PING")}, {"*2\r\n$3\r\nget\r\n$1\r\na\r\n", f("get a")}, {"*3\r\n$3\r\nset\r\n$1\r\na\r\n$2\r\nxx\r\n", f("set a xx")}, {"*1\r\n$1\r\nx\r\n", f("x")},
				}
				var b []byte
				var r [][]string
				var chunks [][]byte
				for i := 0; i < 4; i++ {
					x := forms[c.Choose(len(forms), "form")]
					b = append(b, x.b...)
					r = append(r, x.args)
					chunks = append(chunks, []byte(x.b))
				}
				chunked(c, r, [][]byte{b}, 0, probeTail)
				chunked(c, r, chunks, 0, probeTail)
				c.Sample(fmt.Sprintf("%q", b))
			}},
			{Name: "very long", Shard: 2, Weight: 2, Run: func(c *Ctx) {
				n := []int{16384, 20000, 65536, 100001, 150000}[c.Choose(5, "requests")]
				stuck := c.Choose(2, "the client reads late") == 1
				two := c.Choose(2, "segments") == 1
				s := boot(c, nil, baseConfig(), 0)
				defer s.end()
				p := s.pipe(newModel(s.cfg))
				p.conn.OutFull = stuck
				var r [][]string
				for i := 0; i < n; i++ {
					if i%2 == 0 {
						r = append(r, []string{"rpush", "l", itoa(i)})
					} else {
						r = append(r, []string{"lpop", "l"})
					}
				}
				b := p.queue(r...)
				if two {
					p.conn.Send(b[:len(b)/2])
					s.settle()
					b = b[len(b)/2:]
				}
				p.send(b)
				s.settle()
				if stuck {
					p.conn.OutFull = false
					s.settle()
				}
				p.check(true)
				s.idle()
				s.compare(p.m, 0, "after the pipeline")
			}},
			{Name: "big-replies", Shard: 2, Run: func(c *Ctx) {
				n := []int{0, 1, 100, 1000, 4095, 4096, 5000, 65536, 300000}[c.Choose(9, "size")]
				cnt := []int{1, 2, 5, 20}[c.Choose(4, "requests")]
				shape := c.Choose(3, "shape")
				slow := c.Choose(4, "reader")
				s := boot(c, nil, baseConfig(), 0)
				defer s.end()
				p := s.pipe(newModel(s.cfg))
				switch slow {
				case 1:
					p.conn.WriteFn = func(n int) (int, syscall.Errno) { return min(n, 1000), 0 }
				case 2:
					p.conn.OutFull = true
				case 3:
					p.conn.WriteFn = func(n int) (int, syscall.Errno) { return (n + 1) / 2, 0 }
				}
				var r [][]string
				switch shape {
				case 0:
					r = append(r, []string{"set", "k", fill(n)})
					for i := 0; i < cnt; i++ {
						r = append(r, []string{"get", "k"}, []string{"get", "m"})
					}
				case 1:
					a := []string{"rpush", "l"}
					for i := 0; i <= n && i < 5000; i++ {
						a = append(a, itoa(i))
					}
					r = append(r, a)
					for i := 0; i < cnt; i++ {
						r = append(r, f("lrange l 0 -1"), f("llen l"))
					}
				case 2:
					a := []string{"hset", "h"}
					for i := 0; i <= n && i < 2000; i++ {
						a = append(a, itoa(i), "v")
					}
					r = append(r, a)
					for i := 0; i < cnt; i++ {
						r = append(r, f("hkeys h"), f("hlen h"))
					}
				}
				p.send(p.queue(r...))
				s.settle()
				if slow == 2 {
					p.conn.OutFull = false
					s.settle()
				}
				p.check(true)
				s.idle()
				s.compare(p.m, 0, "after the pipeline")
			}},
			{Name: "two-connections", Shard: 2, Weight: 1, Run: func(c *Ctx) {
				s := boot(c, nil, baseConfig(), 0)
				defer s.end()
				rev := c.Choose(2, "order of events") == 1
				if rev {
					s.w.Net.Reorder = reverse
				}
				// each connection uses keys of its own, so its replies are determined
				var ps []*pipe
				ms := []*Model{newModel(s.cfg), newModel(s.cfg)}
				var streams [][]byte
				for i := 0; i < 2; i++ {
					p := s.pipe(ms[i])
					ps = append(ps, p)
					x := "k" + itoa(i)
					r := [][]string{{"set", x, "v" + itoa(i)}, {"get", x}, {"rpush", "l" + x, "a", itoa(i)}, {"lrange", "l" + x, "0", "-1"}, {"nosuch"}, {"get", x}}
					streams = append(streams, p.queue(r...))
				}
				// three segments each at chosen cut points, merged in every order
				n0, n1 := len(streams[0]), len(streams[1])
				a := cuts(streams[0], c.Choose(8, "cut")*n0/8, n0*8/9)
				b := cuts(streams[1], c.Choose(8, "cut")*n1/8, n1*8/9)
				for len(a) > 0 || len(b) > 0 {
					k := 0
					if len(a) == 0 || (len(b) > 0 && c.Choose(2, "who") == 1) {
						k = 1
					}
					if k == 0 {
						ps[0].send(a[0])
						a = a[1:]
					} else {
						ps[1].send(b[0])
						b = b[1:]
					}
					if c.Choose(2, "the server runs") == 1 {
						s.settle()
					}
				}
				s.settle()
				ps[0].check(true)
				ps[1].check(true)
			}},
		}})

	registerSlow()
	registerConns()
	registerSerial()
}

func fill(n int) string {
	if n <= 0 {
		return ""
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = "0123456789abcdefghijklmnopqrstuvwxyz\r\n*$"[(i*7+i/40)%40]
	}
	return string(b)
}

func reverse(e []syscall.EpollEvent) []syscall.EpollEvent {
	for i, j := 0, len(e)-1; i < j; i, j = i+1, j-1 {
		e[i], e[j] = e[j], e[i]
	}
	return e
}

// --- C21 ---

func registerSlow() {
	sets := [][][]string{
		{f("set k v"), f("get k"), f("nosuch"), f("keys *")},
		{f("rpush l a b c d e"), f("lrange l 0 -1"), f("lrange l 1 2")},
		{{"set", "k", fill(900)}, f("get k"), f("ping"), f("get k")},
	}
	writes := []string{"all", "1 byte", "half", "all but one byte", "EAGAIN", "EINTR"}
	wfn := func(k, n int) (int, syscall.Errno) {
		switch k {
		case 1:
			return 1, 0
		case 2:
			return (n + 1) / 2, 0
		case 3:
			return max(n-1, 1), 0
		case 4:
			return 0, syscall.EAGAIN
		case 5:
			return 0, syscall.EINTR
		}
		return n, 0
	}
	patterns := func(depth int) func(c *Ctx) {
		return func(c *Ctx) {
			r := sets[c.Choose(len(sets), "requests")]
			s := boot(c, nil, baseConfig(), 0)
			defer s.end()
			m := newModel(s.cfg)
			p, q := s.pipe(m), s.pipe(m)
			left := depth
			p.conn.WriteFn = func(n int) (int, syscall.Errno) {
				if left == 0 {
					return n, 0
				}
				left--
				k := c.Choose(len(writes), "write")
				return wfn(k, n)
			}
			p.send(p.queue(r...))
			s.settle()
			p.check(true)
			q.send(q.queue(f("ping")))
			s.settle()
			q.check(true)
			p.conn.WriteFn = nil
			p.send(p.queue(probeTail...))
			s.settle()
			p.check(true)
			s.idle()
		}
	}
	register(&Check{ID: "C21", Explanation: "Every pattern of short, refused and interrupted writes up to a depth, every uniform write size, and every order of sending requests, blocking and unblocking the socket up to a depth, on the real server. The bytes that reach the client must be exactly the expected replies, the server must become idle, and a second connection must be served meanwhile.",
		Phases: []Phase{
			{Name: "write-patterns", Weight: 3, Shard: 3, Run: patterns(5)},
			{Name: "real binary", Shard: 3, Run: realSlow},
			{Name: "write-patterns-deep", Tier: "thorough", Weight: 3, Shard: 3, Run: patterns(8)},
			{Name: "pending request", Weight: 2, Shard: 3, Run: pendingRequest(2)},
			{Name: "pending request, deeper", Tier: "thorough", Weight: 2, Shard: 3, Run: pendingRequest(4)},
			{Name: "uniform-writes", Shard: 2, Run: func(c *Ctx) {
				sizes := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 31, 32, 33, 63, 64, 65, 100, 127, 128, 255, 511, 512, 899, 900, 901, 908, 909, 910, 1023, 1024, 4095, 4096, 4097}
				k := sizes[c.Choose(len(sizes), "size")]
				r := sets[c.Choose(len(sets), "requests")]
				every := c.Choose(4, "would-block every n-th write")
				s := boot(c, nil, baseConfig(), 0)
				defer s.end()
				p := s.pipe(newModel(s.cfg))
				cnt := 0
				p.conn.WriteFn = func(n int) (int, syscall.Errno) {
					cnt++
					if every > 0 && cnt%(every+1) == 0 {
						return 0, []syscall.Errno{syscall.EAGAIN, syscall.EINTR}[cnt%2]
					}
					return min(n, k), 0
				}
				p.send(p.queue(r...))
				p.send(p.queue(r...))
				s.settle()
				p.check(true)
				s.idle()
			}},
			{Name: "huge-reply", Shard: 2, Run: func(c *Ctx) {
				n := []int{70000, 200000, 1 << 20}[c.Choose(3, "size")]
				k := []int{777, 4096, 65536, 100000}[c.Choose(4, "write size")]
				s := boot(c, nil, baseConfig(), 0)
				defer s.end()
				p := s.pipe(newModel(s.cfg))
				full := 0
				p.conn.WriteFn = func(n int) (int, syscall.Errno) {
					full++
					if full%3 == 0 {
						return 0, syscall.EAGAIN
					}
					return min(n, k), 0
				}
				p.send(p.queue([]string{"set", "k", fill(n)}, f("get k"), f("ping"), f("get k"), f("nosuch"), f("get k")))
				s.settle()
				p.check(true)
				s.idle()
			}},
			{Name: "half-sent replies", Shard: 2, Weight: 2, Run: halfSent(3)},
			{Name: "half-sent replies, longer", Tier: "thorough", Shard: 3, Weight: 3, Run: halfSent(5)},
			{Name: "blocked-reader", Shard: 3, Weight: 3, Run: blockedReader(6)},
			{Name: "blocked-reader-deep", Tier: "thorough", Shard: 3, Weight: 3, Run: blockedReader(8)},
		}})
}

// pendingRequest: while a part of a request is there, replies are sent and nothing else happens.
func pendingRequest(depth int) func(c *Ctx) {
	return func(c *Ctx) {
		reqs := [][]string{f("rpush l a b c"), f("lrange l 0 -1"), f("nosuch")}
		next := [][]string{f("lrange l 0 -1"), {"set", "big", fill(5000)}}[c.Choose(2, "pending request")]
		enc := encode(next...)
		step := 1 + len(enc)/30
		at := 1 + c.Choose((len(enc)-1)/step, "bytes that are there")*step
		apart := c.Choose(2, "sent together or apart") == 1
		s := boot(c, nil, baseConfig(), 0)
		defer s.end()
		m := newModel(s.cfg)
		p, q := s.pipe(m), s.pipe(newModel(s.cfg))
		left := depth
		p.conn.WriteFn = func(n int) (int, syscall.Errno) {
			if left == 0 {
				return n, 0
			}
			left--
			switch c.Choose(4, "write") {
			case 1:
				return 1, 0
			case 2:
				return (n + 1) / 2, 0
			case 3:
				return 0, syscall.EAGAIN
			}
			return n, 0
		}
		b := p.queue(reqs...)
		if apart {
			p.send(b)
			s.settle()
			b = nil
		}
		p.send(append(b, enc[:at]...))
		s.settle()
		p.check(true)
		s.idle()
		q.send(q.queue(f("set q 1"), f("get q")))
		s.settle()
		q.check(true)
		s.idle()
		p.sent = append(p.sent, next)
		p.send(enc[at:])
		s.settle()
		p.check(true)
		p.send(p.queue(f("llen l")))
		s.settle()
		p.check(true)
		s.idle()
	}
}

// halfSent: the socket accepts a part of what is there and then nothing, more requests arrive, and so on.
func halfSent(rounds int) func(c *Ctx) {
	return func(c *Ctx) {
		reqs := [][][]string{{f("ping")}, {f("get nothing")}, {f("get k")}, {f("lrange l 0 -1")}, {f("llen l"), f("ping")}, {f("get long")}}
		s := boot(c, nil, baseConfig(), 0)
		defer s.end()
		m := newModel(s.cfg)
		p := s.pipe(m)
		p.send(p.queue(f("set k v"), f("rpush l a b"), []string{"set", "long", fill(300)}))
		s.settle()
		p.check(true)
		budget := 0
		p.conn.WriteFn = func(n int) (int, syscall.Errno) {
			if budget < 0 {
				return n, 0
			}
			k := min(n, budget)
			budget -= k
			if budget == 0 {
				p.conn.OutFull = true
			}
			if k == 0 {
				return 0, syscall.EAGAIN
			}
			return k, 0
		}
		for i := 0; i < rounds; i++ {
			p.send(p.queue(reqs[c.Choose(len(reqs), "requests")]...))
			budget = []int{0, 1, 3, 5, 6, 7, 11}[c.Choose(7, "bytes accepted")]
			p.conn.OutFull = false
			s.settle()
		}
		p.check(false)
		budget = -1
		p.conn.OutFull = false
		s.settle()
		p.check(true)
		p.send(p.queue(probeTail...))
		s.settle()
		p.check(true)
		s.idle()
	}
}

func blockedReader(depth int) func(c *Ctx) {
	return func(c *Ctx) {
		s := boot(c, nil, baseConfig(), 0)
		defer s.end()
		m := newModel(s.cfg)
		p, q := s.pipe(m), s.pipe(m)
		p.send(p.queue(f("rpush l a b c")))
		s.settle()
		p.check(true)
		q.m = newModel(s.cfg)
		budget := -1
		p.conn.WriteFn = func(n int) (int, syscall.Errno) {
			if budget < 0 {
				return n, 0
			}
			if budget == 0 {
				p.conn.OutFull = true
				return 0, syscall.EAGAIN
			}
			k := min(n, budget)
			budget -= k
			if budget == 0 {
				p.conn.OutFull = true
			}
			return k, 0
		}
		for i := 0; i < depth; i++ {
			switch c.Choose(7, "event") {
			case 0:
				p.send(p.queue(f("lrange l 0 -1")))
			case 1:
				p.send(p.queue(f("get nothing"), f("nosuch")))
			case 2:
				c.Logf("the socket of %s is full", p.name)
				p.conn.OutFull, budget = true, 0
			case 3:
				c.Logf("the socket of %s takes 3 bytes", p.name)
				p.conn.OutFull, budget = false, 3
			case 4:
				c.Logf("the socket of %s is writable", p.name)
				p.conn.OutFull, budget = false, -1
			case 5:
				s.settle()
			case 6:
				q.send(q.queue([]string{"set", "q", itoa(i)}, []string{"get", "q"}))
				s.settle()
				q.check(true)
			}
		}
		s.settle()
		p.check(false)
		s.idle()
		p.conn.OutFull, budget = false, -1
		s.settle()
		p.check(true)
		s.idle()
		p.send(p.queue(f("set l2 x"), f("get l2")))
		s.settle()
		p.check(true)
	}
}

// --- C22 ---

// peer is a connection in the disturbance checks: it uses keys of its own.
type peer struct {
	*pipe
	id     int
	n      int
	ended  bool // closed or broken from this side, or by a protocol error
	half   []byte
	broken bool
	shut   bool // the client sends nothing more but still reads
}

func (p *peer) request() []byte {
	p.n++
	x := fmt.Sprintf("p%d", p.id)
	switch p.n % 3 {
	case 1:
		return p.queue([]string{"set", x, x + "=" + itoa(p.n)}, []string{"get", x})
	case 2:
		return p.queue([]string{"rpush", "l" + x, x}, []string{"lrange", "l" + x, "0", "-1"})
	}
	return p.queue([]string{"get", x})
}

type crowd struct {
	many bool // too many clients to compare states after every event
	c    *Ctx
	s    *Srv
	ps   []*peer
	old  []*peer
	ids  int
}

func newCrowd(c *Ctx, n int) *crowd {
	w := &crowd{c: c, s: boot(c, nil, baseConfig(), 0)}
	for i := 0; i < n; i++ {
		w.ps = append(w.ps, w.join(true))
	}
	return w
}

func (w *crowd) join(settle bool) *peer {
	conn := w.s.w.Dial(localhost, testPort)
	if conn == nil {
		w.c.Fail("a new connection is refused")
	}
	if settle {
		w.s.settle()
	}
	w.ids++
	p := &peer{pipe: &pipe{Cli: &Cli{s: w.s, conn: conn, name: "c" + itoa(conn.ID)}, m: newModel(w.s.cfg)}, id: w.ids}
	return p
}

const peerEvents = 11

func (w *crowd) event(p *peer, k int) *peer {
	c, s := w.c, w.s
	if !w.many {
		defer s.netState()
	}
	if p.ended && k != 0 && k != 10 && k != 7 {
		k = 7
	}
	switch k {
	case 0: // come back on a new connection
		if !p.ended {
			c.Logf("%s closes and a new client connects", p.name)
			p.conn.Close()
			p.ended = true
		} else {
			c.Logf("a new client connects")
		}
		w.old = append(w.old, p)
		return w.join(false)
	case 1:
		if p.half != nil {
			p.send(p.half)
			p.half = nil
		} else {
			p.send(p.request())
		}
	case 2: // half a request
		if p.half != nil {
			p.send(p.half)
			p.half = nil
			break
		}
		b := p.request()
		p.send(b[:len(b)-9])
		p.half = b[len(b)-9:]
	case 3:
		c.Logf("%s closes", p.name)
		p.conn.Close()
		p.ended = true
	case 4:
		c.Logf("%s resets the connection", p.name)
		p.conn.Rst()
		p.ended = true
	case 5:
		if p.half != nil {
			p.conn.Send([]byte("\r\n!\r\n!!!!!!!!!!!!!!!!!"))
		} else {
			p.conn.Send([]byte("*1\r\n!bad\r\n"))
		}
		c.Logf("%s sends a malformed request", p.name)
		p.broken, p.ended = true, true
	case 6:
		c.Logf("the socket of %s is full", p.name)
		p.conn.OutFull = true
	case 7:
		s.settle()
	case 8:
		c.Logf("the socket of %s is writable", p.name)
		p.conn.OutFull = false
	case 9:
		c.Logf("%s shuts down its sending side", p.name)
		p.conn.ShutWrite()
		p.ended = true
	case 10: // one event-loop iteration
		if !s.t0.Done && s.w.AnyReady(s.t0) {
			s.w.Net.Advance = 0
			s.step(s.t0)
			s.alive("serving")
		}
	}
	return p
}

// verdict ends the scenario: everyone still connected has exactly its replies, nothing is leaked.
func (w *crowd) verdict() {
	c, s := w.c, w.s
	s.w.Net.Fail = nil
	s.settle()
	for _, p := range append(append([]*peer{}, w.ps...), w.old...) {
		p.conn.OutFull = false
	}
	s.settle()
	open := 0
	for _, p := range append(append([]*peer{}, w.ps...), w.old...) {
		if p.ended {
			p.checkEnded()
			continue
		}
		if p.conn.SrvClose {
			c.Fail("%s was closed by the server although it did nothing wrong", p.name)
		}
		open++
		if p.half != nil {
			p.send(p.half)
			p.half = nil
			s.settle()
		}
		p.check(true)
		p.send(p.request())
		s.settle()
		p.check(true)
	}
	w.leaks(open)
	n := w.join(true)
	n.send(n.request())
	s.settle()
	n.check(true)
	w.leaks(open + 1)
	s.idle()
}

// checkEnded: a connection that ended has at most its own replies, a prefix of the right ones.
func (p *peer) checkEnded() {
	c := p.s.c
	rs, rest, err := parseReplies(p.conn.Out[p.off:])
	if err != nil {
		c.Fail("%s (ended): %v", p.name, err)
	}
	p.off = len(p.conn.Out) - len(rest)
	for _, r := range rs {
		if p.done >= len(p.sent) {
			if p.broken && r.T == '-' && p.done == len(p.sent) {
				p.done++ // an error reply to the malformed request
				continue
			}
			c.Fail("%s (ended): reply %s without a request", p.name, r)
		}
		if err := p.m.exec(&p.st, p.sent[p.done], r, p.s.w.NowMS()); err != nil {
			if p.broken && r.T == '-' {
				continue
			}
			c.Fail("%s (ended): %s: %v", p.name, showArgs(p.sent[p.done]), err)
		}
		p.done++
	}
}

func (w *crowd) leaks(open int) {
	n := w.s.w.Net.OpenFDs()
	if n[rt.FDConn] != open || n[rt.FDSock] != 0 {
		w.c.Fail("%d connections are open but the server holds %d connection descriptors", open, n[rt.FDConn]+n[rt.FDSock])
	}
	if n[rt.FDListen] != 1 || n[rt.FDEpoll] != 1 {
		w.c.Fail("descriptors: %d listening, %d pollers", n[rt.FDListen], n[rt.FDEpoll])
	}
}

func crowdPhase(peers, depth int) func(c *Ctx) {
	return func(c *Ctx) {
		order := c.Choose(2, "order of events")
		w := newCrowd(c, peers)
		defer w.s.end()
		if order == 1 {
			w.s.w.Net.Reorder = reverse
		}
		for i := 0; i < depth; i++ {
			k := c.Choose(peers*(peerEvents-2)+2, "event")
			if k >= peers*(peerEvents-2) {
				w.ps[0] = w.event(w.ps[0], []int{7, 10}[k-peers*(peerEvents-2)])
				continue
			}
			j := k % peers
			e := []int{0, 1, 2, 3, 4, 5, 6, 8, 9}[k/peers]
			w.ps[j] = w.event(w.ps[j], e)
		}
		w.verdict()
	}
}

type sysFault struct {
	op string
	e  syscall.Errno
}

func registerConns() {
	faults := []sysFault{
		{"accept", syscall.EAGAIN}, {"accept", syscall.EMFILE}, {"accept", syscall.EINTR}, {"accept", syscall.ENFILE},
		{"setnonblock", syscall.EBADF}, {"epoll_ctl", syscall.ENOMEM}, {"epoll_ctl", syscall.ENOSPC},
		{"read", syscall.EINTR}, {"read", syscall.EAGAIN}, {"read", syscall.ECONNRESET}, {"read", syscall.ETIMEDOUT}, {"read", syscall.EIO},
		{"write", syscall.EINTR}, {"write", syscall.EAGAIN}, {"write", syscall.EPIPE}, {"write", syscall.ECONNRESET}, {"write", syscall.ETIMEDOUT},
		{"epoll_wait", syscall.EINTR},
	}
	register(&Check{ID: "C22", Explanation: "All sequences, up to a depth, of connecting, complete, partial and malformed requests, closing, resetting, half-closing, and full socket buffers on two and three connections, with the server running in between or not and events reported in either order; and a fault in every single socket call of a busy scenario. Afterwards each surviving connection must have exactly its own replies and still be served, each ended one no more than a prefix of its own, descriptors must be balanced, no call may hit a closed or reused descriptor, and a new client must be served.",
		Phases: []Phase{
			{Name: "three-peers", Shard: 3, Weight: 2, Run: crowdPhase(3, 3)},
			{Name: "real binary", Shard: 2, Run: realPeers(2, 3)},
			{Name: "real binary, longer", Tier: "thorough", Shard: 3, Weight: 2, Run: realPeers(2, 4)},
			{Name: "two-peers-deep", Tier: "thorough", Shard: 3, Weight: 5, Run: crowdPhase(2, 5)},
			{Name: "three-peers-deep", Tier: "thorough", Shard: 3, Weight: 4, Run: crowdPhase(3, 4)},
			{Name: "one-peer-deep", Shard: 3, Weight: 4, Run: crowdPhase(1, 5)},
			{Name: "one-peer-deeper", Tier: "thorough", Shard: 3, Weight: 2, Run: crowdPhase(1, 6)},
			{Name: "pending-then-leave", Shard: 3, Weight: 2, Run: func(c *Ctx) {
				// both have unsent replies; one leaves in some way, its descriptor is reused at once
				order := c.Choose(2, "order of events")
				w := newCrowd(c, 2)
				defer w.s.end()
				if order == 1 {
					w.s.w.Net.Reorder = reverse
				}
				for _, p := range w.ps {
					w.event(p, 6)
					w.event(p, 1)
					if c.Choose(2, "half a request more") == 1 {
						w.event(p, 2)
					}
				}
				w.s.settle()
				how := []int{3, 4, 5, 9}[c.Choose(4, "how it leaves")]
				if c.Choose(2, "its socket becomes writable first") == 1 {
					w.event(w.ps[0], 8)
				}
				w.event(w.ps[0], how)
				if c.Choose(2, "the other becomes writable") == 1 {
					w.event(w.ps[1], 8)
				}
				if c.Choose(2, "the other sends") == 1 {
					w.event(w.ps[1], 1)
				}
				for i := 0; i < 3; i++ {
					switch c.Choose(4, "then") {
					case 0:
						w.event(w.ps[0], 10)
					case 1:
						w.ps[0] = w.event(w.ps[0], 0)
						w.event(w.ps[0], 1)
					case 2:
						w.event(w.ps[1], 1)
					case 3:
						w.event(w.ps[0], 7)
					}
				}
				w.verdict()
			}},
			{Name: "churn", Shard: 2, Run: func(c *Ctx) {
				n := []int{1, 2, 3, 10, 100}[c.Choose(5, "clients")]
				how := []int{3, 4, 5, 9}[c.Choose(4, "how they leave")]
				full := c.Choose(2, "with unsent replies")
				batch := c.Choose(2, "all at once")
				w := newCrowd(c, 1)
				defer w.s.end()
				var ps []*peer
				for i := 0; i < n; i++ {
					p := w.join(batch == 0)
					ps = append(ps, p)
					if full == 1 {
						w.event(p, 6)
					}
					w.event(p, 1)
				}
				w.s.settle()
				for _, p := range ps {
					w.event(p, 1)
					w.event(p, how)
					if batch == 0 {
						w.s.settle()
					}
				}
				w.old = ps
				w.verdict()
			}},
			{Name: "many clients", Shard: 2, Weight: 2, Run: func(c *Ctx) {
				n := []int{130, 1025}[c.Choose(2, "clients")]
				leave := c.Choose(4, "who leaves, and how")
				how, which := []int{3, 4, 5, 9}[leave], leave%3
				batch := c.Choose(2, "all at once") == 1
				order := leave & 1
				w := newCrowd(c, 1)
				w.many = true
				defer w.s.end()
				if order == 1 {
					w.s.w.Net.Reorder = reverse
				}
				var ps []*peer
				for i := 0; i < n; i++ {
					p := w.join(!batch && i%50 == 49)
					ps = append(ps, p)
					switch i % 5 {
					case 1:
						w.event(p, 2)
					case 2:
						w.event(p, 6)
						w.event(p, 1)
					case 3:
						w.event(p, 1)
					case 4:
						w.event(p, 1)
						w.event(p, 2)
					}
				}
				if !batch {
					w.s.settle()
				} else {
					w.event(w.ps[0], 10)
				}
				for i, p := range ps {
					if which == 0 && i%2 == 0 || which == 1 && i >= n-40 || which == 2 && i%7 == 3 {
						w.event(p, how)
						ps = append(ps, w.join(false))
						w.event(ps[len(ps)-1], 1)
						w.old = append(w.old, p)
					} else {
						w.ps = append(w.ps, p)
					}
				}
				w.ps = append(w.ps, ps[n:]...)
				for _, p := range w.ps {
					w.event(p, 1)
				}
				w.verdict()
				c.Sample(fmt.Sprintf("%d clients, %d newcomers", n, len(ps)-n))
			}},
			{Name: "socket-faults", Shard: 2, Weight: 2, Run: func(c *Ctx) {
				ft := faults[c.Choose(len(faults), "fault")]
				at := c.Choose(16, "at call")
				rep := 1 + c.Choose(2, "times")
				w := newCrowd(c, 1)
				defer w.s.end()
				n := 0
				hit := map[int]bool{}
				w.s.w.Net.Fail = func(op string, fd int) syscall.Errno {
					if op != ft.op {
						return 0
					}
					n++
					if n > at && n <= at+rep {
						hit[fd] = true
						c.Logf("call %d of %s (descriptor %d) fails: %v", n, op, fd, ft.e)
						return ft.e
					}
					return 0
				}
				a := w.ps[0]
				w.event(a, 1)
				w.s.settle()
				b := w.join(true)
				w.event(b, 1)
				w.event(a, 2)
				w.s.settle()
				cc := w.join(false)
				w.event(cc, 1)
				w.event(a, 1)
				w.s.settle()
				w.event(b, 1)
				w.s.settle()
				w.s.w.Net.Fail = nil
				w.s.settle()
				w.ps = []*peer{a, b, cc}
				fatal := ft.e != syscall.EINTR && ft.e != syscall.EAGAIN && ft.op != "accept"
				lost := 0
				for _, p := range w.ps {
					if p.conn.SrvClose {
						lost++
						p.ended = true
						p.half = nil
					}
				}
				if lost > 0 && !fatal {
					c.Fail("%v on %s made the server close %d connections", ft.e, ft.op, lost)
				}
				if lost > rep {
					c.Fail("%d failing calls of %s made the server close %d connections", rep, ft.op, lost)
				}
				w.verdict()
			}},
			{Name: "two-peers", Shard: 3, Weight: 4, Run: crowdPhase(2, 4)},
		}})
}

// --- C30 ---

type call struct {
	cli      int
	args     []string
	inv, res int // positions in the history
	reply    Reply
	answered bool
}

// linearize searches an order of the calls that respects real time and explains every reply and the
// final keyspace.
func linearize(calls []*call, m *Model, sts []ConnState, now int64, final *Model) bool {
	left := 0
	for _, k := range calls {
		if k != nil {
			left++
		}
	}
	if left == 0 {
		return m.diff(final, now, 0) == ""
	}
	minRes := 1 << 30
	for _, k := range calls {
		if k != nil && k.res < minRes {
			minRes = k.res
		}
	}
	first := map[int]bool{}
	for i, k := range calls {
		if k == nil || first[k.cli] {
			continue
		}
		first[k.cli] = true // calls of one connection are listed in order
		if k.inv > minRes {
			continue
		}
		n := m.clone()
		st := append([]ConnState(nil), sts...)
		if n.exec(&st[k.cli], k.args, k.reply, now) != nil {
			continue
		}
		rest := append([]*call(nil), calls...)
		rest[i] = nil
		if linearize(rest, n, st, now, final) {
			return true
		}
	}
	return false
}

func registerSerial() {
	progs := [][][]string{
		{f("set k A"), f("get k")},
		{f("get k"), f("set k B")},
		{f("rpush l A"), f("lpop l")},
		{f("lrange l 0 -1"), f("rpush l B C")},
		{f("sadd s x"), f("spop s")},
		{f("smembers s"), f("sadd s y x")},
		{f("select 1"), f("set k D")},
		{f("rpush k x"), f("lrange k 0 -1")},
		{f("zadd z 1 m 2 n"), f("zrange z 0 -1")},
		{f("hset h f A"), f("hkeys h")},
		{f("zrem z m"), f("hdel h f")},
	}
	deliver := func(nCli, stepModes, nProgs, orders int) func(c *Ctx) {
		return func(c *Ctx) {
			progs := progs[:nProgs]
			type piece struct {
				b    []byte
				call *call
			}
			var pieces [][]piece
			var calls []*call
			for i := 0; i < nCli; i++ {
				p := progs[c.Choose(len(progs), "program")]
				var ps []piece
				for j, a := range p {
					k := &call{cli: i, args: a, inv: -1, res: 1 << 29}
					calls = append(calls, k)
					b := encode(a...)
					if j == 0 {
						cutAt := len(b) - 7
						ps = append(ps, piece{b[:cutAt], nil}, piece{b[cutAt:], k})
					} else {
						ps = append(ps, piece{b, k})
					}
				}
				pieces = append(pieces, ps)
			}
			s := boot(c, nil, baseConfig(), 0)
			defer s.end()
			if c.Choose(orders, "order of events") == 1 {
				s.w.Net.Reorder = reverse
			}
			var ks []*Cli
			for i := 0; i < nCli; i++ {
				ks = append(ks, s.dial())
			}
			clock := 0
			collect := func() {
				for i, k := range ks {
					for _, r := range k.got() {
						clock++
						var x *call
						for _, y := range calls {
							if y.cli == i && !y.answered {
								x = y
								break
							}
						}
						if x == nil || x.inv < 0 {
							c.Fail("%s gets a reply %s to a request it has not sent completely", k.name, r)
						}
						x.answered, x.reply, x.res = true, r, clock
						c.Logf("%s: %s -> %s", k.name, showArgs(x.args), r)
					}
				}
			}
			for {
				var who []int
				for i := range pieces {
					if len(pieces[i]) > 0 {
						who = append(who, i)
					}
				}
				if len(who) == 0 {
					break
				}
				i := who[c.Choose(len(who), "whose bytes arrive")]
				p := pieces[i][0]
				pieces[i] = pieces[i][1:]
				c.Logf("%s sends %q", ks[i].name, p.b)
				ks[i].conn.Send(p.b)
				if p.call != nil {
					clock++
					p.call.inv = clock
				}
				switch c.Choose(stepModes, "the server runs") {
				case 1:
					if s.w.AnyReady(s.t0) {
						s.step(s.t0)
						s.alive("serving")
						collect()
					}
				case 2:
					s.settle()
					collect()
				}
			}
			s.settle()
			collect()
			for _, k := range calls {
				if !k.answered {
					c.Fail("c%d gets no reply to %s", k.cli, showArgs(k.args))
				}
			}
			got := s.dump()
			if !linearize(calls, newModel(s.cfg), make([]ConnState, nCli), s.w.NowMS(), got) {
				var d []string
				for _, k := range calls {
					d = append(d, fmt.Sprintf("c%d[%d,%d] %s -> %s", k.cli, k.inv, k.res, showArgs(k.args), k.reply))
				}
				c.Fail("no serial order of the commands explains the replies and the final keyspace: %s; keyspace %s", strings.Join(d, "; "), got.canon(s.w.NowMS()))
			}
			c.State(got.canon(s.w.NowMS()))
		}
	}
	register(&Check{ID: "C30", Explanation: "Histories of two and three connections with pipelined requests of which the first arrives in two pieces: all interleavings of the arriving pieces with event-loop iterations are run on the real server, and for each history a serial order consistent with real time is searched that explains all replies and the final keyspace.",
		Phases: []Phase{
			{Name: "two-clients", Shard: 3, Weight: 3, Run: deliver(2, 2, 9, 2)},
			{Name: "two-clients-3", Tier: "thorough", Shard: 3, Weight: 3, Run: deliver(2, 3, len(progs), 2)},
			{Name: "three-clients", Tier: "thorough", Shard: 3, Weight: 5, Run: deliver(3, 2, len(progs), 2)},
			{Name: "three-clients-settled", Shard: 3, Weight: 2, Run: deliver(3, 1, 5, 1)},
		}})
}
