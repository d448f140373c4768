//go:build go1.23

package main

import (
	"fmt"
	"strings"

	rt "github.com/IfanTsai/metis/verifvrt"
)

// --- C39: the cost of a command does not follow the size of the data ---

// cost is measured in functions and loop bodies of the server that are entered.

type costCase struct {
	name string
	// fill returns the command that adds elements [from, to)
	fill  func(from, to int) []op
	reads []string
	ops   []string // @ is an element that is there, ! one that is not, + a new one each time
}

func fillArgs(prefix string, per func(i int) []string) func(from, to int) []op {
	return func(from, to int) []op {
		a := strings.Fields(prefix)
		for i := from; i < to; i++ {
			a = append(a, per(i)...)
		}
		return []op{{args: a}}
	}
}

func fillEach(per func(i int) []string) func(from, to int) []op {
	return func(from, to int) []op {
		var r []op
		for i := from; i < to; i++ {
			r = append(r, op{args: per(i)})
		}
		return r
	}
}

var costCases = []costCase{
	{"hash", fillArgs("hset k", func(i int) []string { return []string{"e" + itoa(i), "v"} }), []string{"hkeys k", "hlen k", "smembers k", "hget k", "bgrewriteaof", "keys *"},
		[]string{"hset k + v", "hset k @ w", "hget k @", "hget k !", "hexists k @", "hdel k @", "hdel k !", "hlen k", "get k", "expire k 100", "ttl k"}},
	{"set", fillArgs("sadd k", func(i int) []string { return []string{"e" + itoa(i)} }), []string{"smembers k", "sunion k none", "sinter k k", "sdiff k none", "sdiff none k", "hkeys k", "sinter k none", "sunion none k", "sunion k k", "sdiff k k", "bgrewriteaof"},
		[]string{"sadd k +", "sadd k @", "sismember k @", "sismember k !", "srem k @", "srem k !", "scard k", "spop k", "ttl k"}},
	{"zset", fillArgs("zadd k", func(i int) []string { return []string{itoa(i % 9973), "e" + itoa(i)} }), []string{"zrange k 0 -1", "zrangebyscore k -inf inf", "zcount k -inf inf", "zrange k 0 -1 nonsense", "bgrewriteaof"},
		[]string{"zadd k 5 +", "zadd k 7 @", "zadd k 9970.5 +", "zrem k @", "zrem k !", "zscore k @", "zscore k !", "zcard k", "zrange k 100 102", "zrange k -3 -1", "zrange k 1000 1001 withscores", "zrangebyscore k 9971.5 9971.6", "zcount k 9971.5 9971.6", "zremrangebyrank k 100 100", "zremrangebyrank k -1 -1", "zremrangebyscore k 9971.5 9971.6"}},
	{"list", fillArgs("rpush k", func(i int) []string { return []string{"e" + itoa(i)} }), []string{"lrange k 0 -1", "lindex k 50", "lindex k 5000", "bgrewriteaof"},
		[]string{"rpush k +", "lpush k +", "lpop k", "rpop k", "llen k", "lindex k 0", "lindex k -1", "lrange k 0 1", "lrange k -2 -1", "get k"}},
	{"list from the left", fillArgs("lpush k", func(i int) []string { return []string{"e" + itoa(i)} }), []string{"lrange k 0 -1"},
		[]string{"rpush k +", "lpush k +", "lpop k", "rpop k", "llen k", "lindex k 0", "lindex k -1", "lrange k 0 1", "lrange k -2 -1"}},
	{"keys", fillEach(func(i int) []string { return []string{"set", "e" + itoa(i), "v"} }), []string{"keys *", "keys e1.", "keys [", "keys (", "randomget", "bgrewriteaof"},
		[]string{"set + v", "set @ w", "get @", "get !", "del @", "del !", "expire @ 100", "ttl @", "ttl !", "setex + 100 v", "randomget", "rpush small x", "sadd small2 +", "hset + f v", "lpop !", "zadd + 1 m"}},
	{"keys that expire", fillEach(func(i int) []string { return []string{"setex", "e" + itoa(i), "1000", "v"} }), []string{"keys *", "keys [", "ttl e0", "bgrewriteaof"},
		[]string{"set + v", "set @ w", "get @", "get !", "del @", "expire @ 100", "ttl @", "setex + 100 v", "expire + 5", "@tick100"}},
	{"keys that have expired", fillEach(func(i int) []string { return []string{"setex", "e" + itoa(i), "1", "v"} }), []string{"ttl e0"},
		[]string{"@late1503 ping", "get @", "set + v", "@tick100", "rpush @ x"}},
}

func (e *seqEnv) batch(ops []op) {
	k := e.k[0]
	var b []byte
	for _, p := range ops {
		b = append(b, encode(p.args...)...)
	}
	k.conn.Send(b)
	e.s.settle()
	if n := len(k.got()); n != len(ops) || k.conn.SrvClose {
		e.c.Fail("%d replies to %d requests", n, len(ops))
	}
}

// costOf runs an operation m times on a structure of n elements and returns the cost of one.
func costOf(c *Ctx, kc costCase, read string, again bool, opn string, n int, aof bool) (float64, float64) {
	cfg := baseConfig()
	if aof {
		cfg = never()
	}
	e := newSeq(c, cfg, 1)
	defer func() { e.s.end() }()
	use := func() {
		if read != "" {
			e.batch([]op{o(read)})
			if read == "bgrewriteaof" {
				e.s.tick(100)
				e.s.tick(100)
			}
		}
	}
	e.batch(kc.fill(0, 5))
	use()
	if again {
		e.batch(kc.fill(5, 700))
		use()
		e.batch(kc.fill(700, n))
		use()
	} else {
		e.batch(kc.fill(5, n))
	}
	return costEach(c, e, opn, n, 40)
}

// costEach runs an operation m times.
func costEach(c *Ctx, e *seqEnv, opn string, n, m int) (float64, float64) {
	total, worst := 0, 0
	for i := 0; i < m; i++ {
		p := opsOf(opn)[0]
		for j := range p.args {
			switch p.args[j] {
			case "@":
				p.args[j] = "e" + itoa((i*37+11)%n)
			case "!":
				p.args[j] = "absent" + itoa(i)
			case "+":
				p.args[j] = "new" + itoa(i)
			}
		}
		if p.tick > 0 {
			from := rt.Beats
			e.s.tick(p.tick)
			total += rt.Beats - from
			worst = most(worst, rt.Beats-from)
			continue
		}
		if p.late > 0 {
			e.s.w.NowNS += p.late * 1e6
		}
		b := encode(p.args...)
		from := rt.Beats
		e.k[0].conn.Send(b)
		e.s.settle()
		total += rt.Beats - from
		worst = most(worst, rt.Beats-from)
		if len(e.k[0].got()) != 1 {
			c.Fail("no reply to %s", showArgs(p.args))
		}
	}
	return float64(total) / float64(m), float64(worst)
}

func costs(small, large int) func(c *Ctx) {
	return func(c *Ctx) {
		kc := costCases[c.Choose(len(costCases), "data")]
		r := c.Choose(len(kc.reads)+1, "use of the data before")
		read := ""
		again := false
		if r > 0 {
			read = kc.reads[r-1]
			again = c.Choose(2, "used at other sizes as well") == 1
		}
		aof := c.Choose(2, "append-only file") == 1
		if read == "bgrewriteaof" && !aof {
			return
		}
		small, large := small, large
		if strings.HasPrefix(kc.name, "list") {
			small, large = small*6, large*6
		}
		for _, opn := range kc.ops {
			a, worst := costOf(c, kc, read, again, opn, small, aof)
			b, _ := costOf(c, kc, read, again, opn, large, aof)
			lim := a*1.6 + 64
			if strings.HasPrefix(kc.name, "keys that") { // the periodic work comes now and then
				lim = worst*1.6 + 64
			}
			if b > lim {
				c.Fail("%s takes %.0f steps with %d elements and %.0f with %d (%s, after %q)", opn, a, small, b, large, kc.name, read)
			}
			if c.tracing {
				c.Logf("%s: %.0f %.0f", opn, a, b)
			}
			c.Sample(fmt.Sprintf("%s %q %s: %.1f steps with %d elements, %.1f with %d", kc.name, read, opn, a, small, b, large))
		}
	}
}

// shrunk: what is left of much data costs no more than as little data that was always little.
func shrunk(large int) func(c *Ctx) {
	ways := []struct {
		name string
		fill func(from, to int) []op
		del  func(i int) []string // removes element i
		all  string               // removes everything that has expired
		ops  []string
	}{
		{"hash", costCases[0].fill, func(i int) []string { return []string{"hdel", "k", "e" + itoa(i)} }, "", []string{"hkeys k", "hget k @", "hset k @ x", "hset k + x", "hdel k !"}},
		{"set", costCases[1].fill, func(i int) []string { return []string{"srem", "k", "e" + itoa(i)} }, "", []string{"smembers k", "sismember k @", "sadd k +", "sunion k none", "sdiff k none", "spop k"}},
		{"zset", costCases[2].fill, func(i int) []string { return []string{"zrem", "k", "e" + itoa(i)} }, "", []string{"zrange k 0 -1", "zscore k @", "zadd k 5 +", "zrem k !"}},
		{"list", costCases[3].fill, func(i int) []string { return []string{"rpop", "k"} }, "", []string{"lrange k 0 -1", "rpush k +", "lpush k +", "lindex k 5"}},
		{"list from the left", costCases[3].fill, func(i int) []string { return []string{"lpop", "k"} }, "", []string{"lrange k 0 -1", "rpush k +", "lpush k +", "lindex k 5"}},
		{"keys", costCases[5].fill, func(i int) []string { return []string{"del", "e" + itoa(i)} }, "", []string{"keys *", "get @", "set + x", "randomget", "ttl @"}},
		{"keys that expire", costCases[6].fill, func(i int) []string { return []string{"del", "e" + itoa(i)} }, "", []string{"keys *", "get @", "set + x", "randomget", "ttl @", "@tick100", "setex + 5 x"}},
		{"keys that have expired", func(from, to int) []op {
			var r []op
			for i := from; i < to; i++ {
				t := "1"
				if i < 12 {
					t = "1000000"
				}
				r = append(r, op{args: []string{"setex", "e" + itoa(i), t, "v"}})
			}
			return r
		}, nil, "keys *", []string{"keys *", "get @", "set + x", "randomget", "ttl @", "@tick100", "setex + 5 x"}},
	}
	return func(c *Ctx) {
		way := ways[c.Choose(len(ways), "data")]
		opn := way.ops[c.Choose(len(way.ops), "then")]
		aof := c.Choose(2, "append-only file") == 1
		large := []int{large, 8192 + 200}[c.Choose(2, "much")] // just before and just after a table is too small
		run := func(n int) float64 {
			cfg := baseConfig()
			if aof {
				cfg = never()
			}
			e := newSeq(c, cfg, 1)
			defer func() { e.s.end() }()
			e.batch(way.fill(0, 12))
			if n > 12 {
				e.batch(way.fill(12, n))
				var ops []op
				if way.del != nil {
					for i := n - 1; i >= 12; i-- {
						ops = append(ops, op{args: way.del(i)})
					}
					e.batch(ops)
				} else {
					e.s.w.NowNS += 2e9
					e.batch([]op{o(way.all)})
				}
			}
			// what is left to do afterwards may take a while
			for i := 0; i < 100; i++ {
				var ops []op
				for j := 0; j < 20; j++ {
					look := []string{"ttl", "absent" + itoa(j)}
					switch way.name {
					case "hash":
						look = []string{"hget", "k", "no"}
					case "set":
						look = []string{"sismember", "k", "no"}
					case "zset":
						look = []string{"zscore", "k", "no"}
					}
					ops = append(ops, op{args: look})
				}
				e.batch(ops)
				e.s.tick(100)
			}
			each, _ := costEach(c, e, opn, 12, 10)
			return each
		}
		a, b := run(12), run(large)
		c.Sample(fmt.Sprintf("%s: %s %.1f steps with 12 elements, %.1f with 12 left of %d", way.name, opn, a, b, large))
		if b > a*6+200 {
			c.Fail("%s takes %.0f steps with 12 elements, %.0f with 12 that are left of %d (%s)", opn, a, b, large, way.name)
		}
	}
}

func most(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// growth: elements are added one by one; neither on average nor at any of them does the cost follow the size.
func growth(n int) func(c *Ctx) {
	return func(c *Ctx) {
		kc := costCases[c.Choose(7, "data")]
		aof := c.Choose(2, "append-only file") == 1
		cfg := baseConfig()
		if aof {
			cfg = never()
		}
		e := newSeq(c, cfg, 1)
		defer func() { e.s.end() }()
		var sum, worst [2]int
		part := n / 8
		for i := 0; i < n; i++ {
			p := kc.fill(i, i+1)[0]
			b := encode(p.args...)
			from := rt.Beats
			e.k[0].conn.Send(b)
			e.s.settle()
			d := rt.Beats - from
			e.k[0].off = len(e.k[0].conn.Out)
			switch {
			case i < part:
				sum[0] += d
				worst[0] = most(worst[0], d)
			case i >= n-part:
				sum[1] += d
				worst[1] = most(worst[1], d)
			case i >= n/2-2:
				worst[1] = most(worst[1], d)
			}
		}
		c.Sample(fmt.Sprintf("%s: %.1f steps for each of the first %d additions, %.1f for each of the last; at most %d and %d", kc.name, float64(sum[0])/float64(part), part, float64(sum[1])/float64(part), worst[0], worst[1]))
		if float64(sum[1]) > float64(sum[0])*1.6+64*float64(part) {
			c.Fail("adding an element to %d takes %.0f steps, to %d %.0f (%s)", part, float64(sum[0])/float64(part), n, float64(sum[1])/float64(part), kc.name)
		}
		if float64(worst[1]) > float64(worst[0])*3+300 {
			c.Fail("a single addition to %d elements takes %d steps, to %d %d (%s)", part, worst[0], n, worst[1], kc.name)
		}
	}
}

// much: really much data, all operations one after the other.
func much(large int) func(c *Ctx) {
	return func(c *Ctx) {
		kc := costCases[c.Choose(7, "data")]
		e := newSeq(c, baseConfig(), 1)
		defer func() { e.s.end() }()
		cost := func(n int) (r []float64) {
			for _, opn := range kc.ops {
				each, _ := costEach(c, e, opn, n, 100)
				r = append(r, each)
			}
			return r
		}
		fillTo := func(from, to int) {
			for ; from < to; from += 10000 {
				end := from + 10000
				if end > to {
					end = to
				}
				e.batch(kc.fill(from, end))
			}
		}
		fillTo(0, 1000)
		a := cost(1000)
		fillTo(1000, large)
		b := cost(large)
		for i, opn := range kc.ops {
			lim := a[i]*1.4 + 24
			if kc.name == "zset" {
				lim = a[i]*2 + 64
			}
			if opn[0] == '@' { // how full the tables are decides how many tries a random choice takes
				lim = a[i]*3 + 64
			}
			if strings.HasPrefix(kc.name, "list") {
				lim = a[i]*1.6 + 64
			}
			c.Sample(fmt.Sprintf("%s: %s %.1f steps with 1000 elements, %.1f with %d", kc.name, opn, a[i], b[i], large))
			if c.tracing {
				c.Logf("%s: %.0f %.0f", opn, a[i], b[i])
			}
			if b[i] > lim {
				c.Fail("%s takes %.0f steps with 1000 elements and %.0f with %d (%s)", opn, a[i], b[i], large, kc.name)
			}
		}
	}
}

// crowd: other clients do not make a request more expensive.
func crowdCost(small, large int) func(c *Ctx) {
	return func(c *Ctx) {
		what := []string{"ping", "set a b", "set a", "connection", "disconnection", "@tick100"}[c.Choose(6, "what")]
		state := c.Choose(3, "the others")
		run := func(n int) float64 {
			e := newSeq(c, baseConfig(), 1)
			defer func() { e.s.end() }()
			for i := 0; i < n; i++ {
				k := e.s.w.Dial(localhost, testPort)
				switch state {
				case 1:
					k.Send(encode("get", "a"))
				case 2:
					k.Send([]byte("*2\r\n$3\r\nge"))
				}
			}
			e.s.settle()
			from := rt.Beats
			const m = 20
			for i := 0; i < m; i++ {
				switch what {
				case "connection":
					e.s.w.Dial(localhost, testPort)
				case "disconnection":
					e.s.w.Net.Conns[len(e.s.w.Net.Conns)-1-i].Close()
				case "@tick100":
					e.s.tick(100)
				default:
					e.k[0].conn.Send(encode(f(what)...))
				}
				e.s.settle()
			}
			return float64(rt.Beats-from) / m
		}
		a, b := run(small), run(large)
		c.Sample(fmt.Sprintf("%s: %.1f steps with %d other clients, %.1f with %d", what, a, small, b, large))
		if b > a*1.6+32 {
			c.Fail("%s takes %.0f steps with %d other clients and %.0f with %d", what, a, small, b, large)
		}
	}
}

func init() {
	register(&Check{
		ID:          "C39",
		Explanation: "The closed world counts the functions and loop bodies of the server that are entered. For every type of data, every command on single elements of it (present, absent, new, changed, removed), every use of the data before (at a small size, or at several), with and without an append-only file, the command is run on data of two sizes and may not cost more in proportion to them; elements are added one by one, and neither the average nor any single addition may; and so for the number of other clients.",
		Assumptions: []string{"cost is the number of functions and loop bodies of the repository's code entered; work inside the standard library and single copies is not seen"},
		Phases: []Phase{
			{Name: "commands", Shard: 3, Weight: 9, Run: costs(1000, 16000)},
			{Name: "growth", Shard: 2, Weight: 2, Run: growth(16384)},
			{Name: "shrunk", Shard: 2, Weight: 3, Run: shrunk(7000)},
			{Name: "much", Shard: 1, Weight: 2, Run: much(300000)},
			{Name: "much more", Tier: "thorough", Shard: 1, Weight: 2, Run: much(2000000)},
			{Name: "clients", Shard: 2, Weight: 1, Run: crowdCost(30, 900)},
			{Name: "commands, larger", Tier: "thorough", Shard: 3, Weight: 6, Run: costs(3000, 100000)},
			{Name: "growth, longer", Tier: "thorough", Shard: 2, Weight: 2, Run: growth(131072)},
		},
	})
}
