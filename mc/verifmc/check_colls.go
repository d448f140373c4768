//go:build go1.23

package main

import (
	"fmt"
	"strconv"
	"strings"

	rt "github.com/IfanTsai/metis/verifvrt"
)

func itoa(n int) string { return strconv.Itoa(n) }

// bulk builds one command with n unique elements.
func (e *seqEnv) bulk(prefix string, n int) op {
	args := strings.Fields(prefix)
	for i := 0; i < n; i++ {
		args = append(args, "#")
	}
	return op{args: args}
}

func growList(e *seqEnv, key, how string, n int) {
	switch how {
	case "rpush":
		for n > 0 {
			k := min(n, 700)
			e.do(e.bulk("rpush "+key, k))
			n -= k
		}
	case "lpush":
		for n > 0 {
			k := min(n, 700)
			e.do(e.bulk("lpush "+key, k))
			n -= k
		}
	case "mixed":
		for n > 0 {
			k := min(n, 300)
			e.do(e.bulk("rpush "+key, (k+1)/2))
			if k/2 > 0 {
				e.do(e.bulk("lpush "+key, k/2))
			}
			n -= k
		}
	case "single":
		for ; n > 0; n-- {
			e.do(o("rpush " + key + " #"))
		}
	}
}

// probeList checks indexes and ranges around every multiple of step and at both ends.
func probeList(e *seqEnv, key string, step int) {
	v := e.m.dbs[0][key]
	n := 0
	if v != nil {
		n = len(v.l)
	}
	var pts []int
	for p := 0; p <= n+step; p += step {
		for d := -2; d <= 2; d++ {
			pts = append(pts, p+d)
		}
	}
	pts = append(pts, n/2-1, n/2, n/2+1, n-1, n, n+1)
	for _, p := range pts {
		e.do(oa("lindex", key, itoa(p)))
		e.do(oa("lindex", key, itoa(p-n)))
		e.do(oa("lrange", key, itoa(p), itoa(p+3)))
		e.do(oa("lrange", key, itoa(p-n-2), itoa(p-n+1)))
	}
}

func allListRanges(e *seqEnv) {
	v := e.m.dbs[0]["k"]
	n := 0
	if v != nil {
		n = len(v.l)
	}
	for i := -n - 2; i <= n+2; i++ {
		e.do(oa("lindex", "k", itoa(i)))
		for j := -n - 2; j <= n+2; j++ {
			e.do(oa("lrange", "k", itoa(i), itoa(j)))
		}
	}
}

func init() {
	listOps := opsOf(`
		lpush k #
		rpush k #
		lpush k # # #
		rpush k # # #
		lpop k
		rpop k
		llen k
		lindex k 1
		lindex k -2
		lrange k 1 -2
		lrange k -100 100
		lrange k 2 1
		rpush k ""
		lpush k "" # ""
		rpush j #
		lpop j
		del k`)
	mut := opsOf(`
		lpush k #
		rpush k # #
		lpush k # "" #
		lpop k
		rpop k`)
	bigOps := opsOf(`
		lpush k #
		rpush k #
		lpush k # # #
		lpop k
		rpop k
		lindex k 1023
		lindex k -1024
		lrange k 1020 1030
		llen k`)
	bigSizes := []int{511, 512, 513, 1023, 1024, 1025, 1535, 1536, 2047, 2048, 2049, 3073}
	hows := []string{"rpush", "lpush", "mixed"}
	big := func(depth int) func(c *Ctx) {
		return func(c *Ctx) {
			n := bigSizes[c.Choose(len(bigSizes), "length")]
			how := hows[c.Choose(len(hows), "how built")]
			e := newSeq(c, baseConfig(), 1)
			defer e.s.end()
			ops := choosePick(c, bigOps, depth)
			growList(e, "k", how, n)
			e.run(ops)
			e.do(o("lrange k 0 -1"))
			e.do(o("llen k"))
			probeList(e, "k", 512)
			c.Sample(fmt.Sprintf("list of %d built by %s, then %v", n, how, ops))
		}
	}
	register(&Check{
		ID:          "C08",
		Explanation: "All operation sequences over small lists with every index and every range read back; lists of 511 to 3073 elements (every page-boundary length) built in three ways and then changed by every operation sequence of the stated depth, all page-boundary indexes and ranges read back; and all lists drained from either end in every pattern. Reply-by-reply comparison with a mathematical sequence.",
		Phases: []Phase{
			seqPhase{ops: listOps, depth: 4}.phase("sequences-4", "", 3),
			seqPhase{ops: listOps, depth: 3}.real(realMemory, "", 1),
			seqPhase{ops: listOps, depth: 4}.real(realMemory, "thorough", 2),
			seqPhase{ops: mut, depth: 5, after: allListRanges, noDump: true}.phase("all-ranges-5", "", 3),
			manyList,
			{Name: "extreme indexes", Shard: 2, Run: func(c *Ctx) {
				n := []int{0, 1, 2, 5, 1030}[c.Choose(5, "elements")]
				i := extremes[c.Choose(len(extremes), "from")]
				j := extremes[c.Choose(len(extremes), "to")]
				e := newSeq(c, baseConfig(), 1)
				defer e.s.end()
				growList(e, "k", "rpush", n)
				e.do(oa("lindex", "k", i))
				e.do(oa("lrange", "k", i, j))
				e.do(o("llen k"))
				e.s.compare(e.m, 0, "after the commands")
			}},
			{Name: "big-2", Shard: 3, Weight: 3, Run: big(2)},
			{Name: "drain", Shard: 3, Weight: 2, Run: func(c *Ctx) {
				n := []int{1, 2, 3, 1025, 1537, 2049, 2600}[c.Choose(7, "length")]
				how := hows[c.Choose(len(hows), "how built")]
				pat := [][]string{{"lpop"}, {"rpop"}, {"lpop", "rpop"}, {"lpop", "lpop", "rpush", "lpop"}, {"rpop", "lpush", "rpop", "rpop"}}[c.Choose(5, "pattern")]
				e := newSeq(c, baseConfig(), 1)
				defer e.s.end()
				growList(e, "k", how, n)
				for i := 0; e.m.dbs[0]["k"] != nil; i++ {
					cmd := pat[i%len(pat)]
					if strings.HasSuffix(cmd, "push") {
						e.do(o(cmd + " k #"))
					} else {
						e.do(o(cmd + " k"))
					}
					if i%257 == 0 {
						e.do(o("lindex k -1"))
						e.do(o("lindex k 0"))
						e.do(o("lindex k " + itoa(i%1500)))
					}
				}
				e.do(o("rpush k #"))
				e.s.compare(e.m, 0, "after draining")
			}},
			seqPhase{ops: listOps, depth: 5}.phase("sequences-5", "thorough", 6),
			seqPhase{ops: mut, depth: 6, after: allListRanges, noDump: true}.phase("all-ranges-6", "thorough", 3),
			{Name: "big-3", Tier: "thorough", Shard: 4, Weight: 6, Run: big(3)},
		},
	})

	hashOps := opsOf(`
		hset h a #
		hset h b #
		hset h a # b # c #
		hset h a # a #
		hset h "" ""
		hset g a #
		hget h a
		hget h b
		hget h ""
		hdel h a
		hdel h b a b
		hdel h "" c
		hexists h a
		hexists h zz
		hkeys h
		hlen h
		hdel g a`)
	// growth: every number of elements up to a bound is a different stage of incremental rehashing
	growth := func(max int, add func(e *seqEnv, i int), touch []func(e *seqEnv, n, i int), read func(e *seqEnv, n int), depth int) func(c *Ctx) {
		return func(c *Ctx) {
			n := c.Choose(max, "elements")
			type t struct{ f, i int }
			var ts []t
			for d := 0; d < depth; d++ {
				ts = append(ts, t{c.Choose(len(touch), "operation"), c.Choose(6, "element")})
			}
			e := newSeq(c, baseConfig(), 1)
			defer e.s.end()
			for i := 0; i < n; i++ {
				add(e, i)
			}
			for _, x := range ts {
				i := 0
				switch x.i {
				case 1:
					i = n - 1
				case 2:
					i = n / 2
				case 3:
					i = n // absent
				case 4:
					i = n / 3
				case 5:
					i = 1
				}
				touch[x.f](e, n, i)
			}
			read(e, n)
			e.s.compare(e.m, 0, "after the sequence")
			c.Sample(fmt.Sprintf("%d elements, then %v", n, ts))
		}
	}
	f := func(i int) string { return "f" + itoa(i) }
	hGrow := func(max, depth int) func(c *Ctx) {
		return growth(max, func(e *seqEnv, i int) { e.do(oa("hset", "h", f(i), "#")) },
			[]func(e *seqEnv, n, i int){
				func(e *seqEnv, n, i int) { e.do(oa("hset", "h", f(i), "#")) },
				func(e *seqEnv, n, i int) { e.do(oa("hdel", "h", f(i))) },
				func(e *seqEnv, n, i int) { e.do(oa("hget", "h", f(i))) },
				func(e *seqEnv, n, i int) { e.do(oa("hexists", "h", f(i))) },
				func(e *seqEnv, n, i int) { e.do(oa("hkeys", "h")) },
				func(e *seqEnv, n, i int) { e.do(oa("hset", "h", f(i), "#", f(n+1), "#", f(n+2), "#", f(n+1), "#")) },
				func(e *seqEnv, n, i int) { e.do(oa("hdel", "h", f(0), f(i), f(i), f(n-1))) },
			},
			func(e *seqEnv, n int) {
				e.do(oa("hlen", "h"))
				for i := 0; i < n+4; i++ {
					e.do(oa("hexists", "h", f(i)))
				}
				e.do(oa("hkeys", "h"))
			}, depth)
	}
	register(&Check{
		ID:          "C09",
		Explanation: "All operation sequences over two hashes with overlapping fields; and, for every number of fields up to the bound (each a different stage of the incremental rehashing), every pair of operations on first, last, middle, absent fields, with all fields read back. Reply-by-reply comparison with a map.",
		Phases: []Phase{
			seqPhase{ops: hashOps, depth: 4}.phase("sequences-4", "", 3),
			seqPhase{ops: hashOps, depth: 3}.real(realMemory, "", 1),
			seqPhase{ops: hashOps, depth: 4}.real(realMemory, "thorough", 2),
			manyHash,
			{Name: "growth-70", Shard: 2, Weight: 3, Run: hGrow(70, 1)},
			{Name: "growth-28-pairs", Shard: 3, Weight: 5, Run: hGrow(28, 2)},
			{Name: "growth-large", Shard: 1, Weight: 2, Run: func(c *Ctx) {
				n := []int{127, 128, 129, 130, 255, 256, 257, 258, 300, 512, 513, 514, 600, 1024, 1025, 1026, 2500}[c.Choose(17, "fields")]
				how := c.Choose(2, "one or many per command")
				e := newSeq(c, baseConfig(), 1)
				defer e.s.end()
				if how == 0 {
					for i := 0; i < n; i++ {
						e.do(oa("hset", "h", f(i), "#"))
					}
				} else {
					for i := 0; i < n; i += 50 {
						a := []string{"hset", "h"}
						for j := i; j < min(n, i+50); j++ {
							a = append(a, f(j), "#")
						}
						e.do(op{args: a})
					}
				}
				e.do(oa("hkeys", "h"))
				for i := 0; i < n; i += 3 {
					e.do(oa("hdel", "h", f(i)))
				}
				e.do(oa("hlen", "h"))
				for i := 0; i < n; i++ {
					e.do(oa("hget", "h", f(i)))
				}
				e.s.compare(e.m, 0, "after the sequence")
			}},
			seqPhase{ops: hashOps, depth: 5}.phase("sequences-5", "thorough", 6),
			{Name: "growth-80-pairs", Tier: "thorough", Shard: 3, Weight: 5, Run: hGrow(80, 2)},
			{Name: "growth-40-triples", Tier: "thorough", Shard: 4, Weight: 6, Run: hGrow(40, 3)},
		},
	})

	setOps := opsOf(`
		sadd s a
		sadd s b c
		sadd s a a
		sadd s ""
		sadd t b
		sadd t c d
		srem s a
		srem s b c b a ""
		srem s ""
		srem t b c d
		spop s
		spop t
		scard s
		sismember s a
		sismember t ""
		smembers s
		sunion s t
		sinter s t
		sdiff s t
		sdiff t s`)
	mem := func(i int) string { return "m" + itoa(i) }
	sGrow := func(max, depth int) func(c *Ctx) {
		return growth(max, func(e *seqEnv, i int) { e.do(oa("sadd", "s", mem(i))) },
			[]func(e *seqEnv, n, i int){
				func(e *seqEnv, n, i int) { e.do(oa("sadd", "s", mem(i))) },
				func(e *seqEnv, n, i int) { e.do(oa("srem", "s", mem(i))) },
				func(e *seqEnv, n, i int) { e.do(oa("sismember", "s", mem(i))) },
				func(e *seqEnv, n, i int) { e.s.w.Rand.Counter = int64(i); e.do(oa("spop", "s")) },
				func(e *seqEnv, n, i int) { e.do(oa("smembers", "s")) },
				func(e *seqEnv, n, i int) { e.do(oa("sunion", "s", "t")); e.do(oa("sdiff", "s", "s")) },
				func(e *seqEnv, n, i int) { e.do(oa("sadd", "s", mem(i), mem(n+1), mem(n+2), mem(n+1))) },
				func(e *seqEnv, n, i int) {
					e.do(oa("sadd", "t", mem(i), mem(n+9)))
					e.do(oa("sinter", "s", "t"))
					e.do(oa("sinter", "t", "s"))
				},
			},
			func(e *seqEnv, n int) {
				e.do(oa("scard", "s"))
				for i := 0; i < n+4; i++ {
					e.do(oa("sismember", "s", mem(i)))
				}
				e.do(oa("smembers", "s"))
			}, depth)
	}
	register(&Check{
		ID:          "C10",
		Explanation: "All operation sequences over two overlapping sets; every operand list up to length 4 over six sets (empty, missing, overlapping, mid-rehash) for each of SUNION, SINTER, SDIFF; for every set size up to the bound, every pair of operations on chosen members; and SPOP to exhaustion under every starting random outcome. Comparison with mathematical sets; SPOP may return any current member.",
		Phases: []Phase{
			seqPhase{ops: setOps, depth: 3}.phase("sequences-3", "", 2),
			seqPhase{ops: setOps, depth: 4}.phase("sequences-4", "", 4),
			seqPhase{ops: setOps, depth: 3}.real(realMemory, "", 1),
			seqPhase{ops: setOps, depth: 4}.real(realMemory, "thorough", 2),
			{Name: "operands", Shard: 3, Weight: 2, Run: func(c *Ctx) {
				keys := []string{"a", "b", "c", "none", "big", "one", "apart", "str"}
				cmd := []string{"sunion", "sinter", "sdiff"}[c.Choose(3, "command")]
				n := 1 + c.Choose(4, "operands")
				args := []string{cmd}
				for i := 0; i < n; i++ {
					args = append(args, keys[c.Choose(len(keys), "operand")])
				}
				e := newSeq(c, baseConfig(), 1)
				defer e.s.end()
				e.do(o("sadd a 1 2 3 4"))
				e.do(o("sadd b 3 4 5 6"))
				e.do(o("sadd c 1 3 5 7 9"))
				e.do(o("sadd one 3"))
				e.do(o("sadd apart 100 101"))
				e.do(o("set str v"))
				for i := 0; i < 23; i++ {
					e.do(oa("sadd", "big", itoa(i)))
				}
				e.do(op{args: args})
				e.do(op{args: args})
				e.s.compare(e.m, 0, "operands changed")
				c.Sample(strings.Join(args, " "))
			}},
			manySet,
			{Name: "growth-70", Shard: 2, Weight: 2, Run: sGrow(70, 1)},
			{Name: "growth-28-pairs", Shard: 3, Weight: 5, Run: sGrow(28, 2)},
			{Name: "spop", Shard: 2, Weight: 1, Run: func(c *Ctx) {
				n := 1 + c.Choose(24, "members")
				r := c.Choose(24, "random outcome")
				e := newSeq(c, baseConfig(), 1)
				defer e.s.end()
				for i := 0; i < n; i++ {
					e.do(oa("sadd", "s", mem(i)))
				}
				for e.m.dbs[0]["s"] != nil {
					e.s.w.Rand.Counter = int64(r)
					e.do(o("spop s"))
					e.do(o("scard s"))
				}
				e.do(o("spop s"))
				e.do(o("sadd s x"))
				e.s.compare(e.m, 0, "after popping all")
			}},
			seqPhase{ops: setOps, depth: 5}.phase("sequences-5", "thorough", 6),
			{Name: "growth-80-pairs", Tier: "thorough", Shard: 3, Weight: 5, Run: sGrow(80, 2)},
			{Name: "growth-40-triples", Tier: "thorough", Shard: 4, Weight: 6, Run: sGrow(40, 3)},
		},
	})

	registerZset()

	keyOps := opsOf(`
		set a #
		set b #
		set ab #
		lpush l #
		lpop l
		sadd s a
		srem s a
		sadd s a b
		srem s b a
		spop s
		hset h f #
		hdel h f
		hset h f # g #
		hdel h g f g
		zadd z 1 m
		zrem z m
		zadd z 1 m 2 n
		zrem z n x m
		rpush l # ""
		del a
		del l s
		del h z h
		zremrangebyrank z 0 -1
		zremrangebyscore z 0 5
		zremrangebyrank z -2 -1
		zremrangebyscore z 2 5
		expire l 3
		expire s 3
		expire h 3
		expire z 3
		expire a 3
		@late4001 keys *
		@tick4003
		keys *
		keys a
		randomget`)
	register(&Check{
		ID:          "C14",
		Explanation: "All operation sequences over keys of every type that create, empty, expire and recreate them, with KEYS, RANDOMGET and every key read back; for every number of keys up to the bound (each a stage of the incremental rehashing of the keyspace) KEYS * and RANDOMGET under every starting random outcome, with and without expired keys; and KEYS with plain patterns over all short keys.",
		Phases: []Phase{
			seqPhase{ops: keyOps, depth: 3, after: func(e *seqEnv) { e.do(o("keys *")); e.do(o("randomget")) }}.phase("sequences-3", "", 2),
			seqPhase{setups: [][]op{
				opsOf("lpush l #\nexpire l 3"), opsOf("sadd s a\nexpire s 3"), opsOf("hset h f #\nexpire h 3"), opsOf("zadd z 1 m\nexpire z 3"),
				opsOf("rpush l # #\nsadd s a b\nhset h f # g #\nzadd z 1 m 2 n\nexpire s 3\nexpire l 900\nexpire a 3\nset a #\nexpire a 900"),
			}, ops: keyOps, depth: 3, after: func(e *seqEnv) {
				e.do(tick(5003))
				e.do(o("keys *"))
			}}.phase("emptied-3", "", 4),
			{Name: "randomget", Shard: 2, Weight: 2, Run: func(c *Ctx) {
				n := c.Choose(45, "keys")
				dead := c.Choose(4, "expired keys") // none, every other, all, all but one
				e := newSeq(c, baseConfig(), 1)
				defer e.s.end()
				for i := 0; i < n; i++ {
					e.do(oa("set", "key"+itoa(i), "#"))
				}
				for i := 0; i < n; i++ {
					if dead == 2 || dead == 1 && i%2 == 0 || dead == 3 && i != n/2 {
						e.do(oa("expire", "key"+itoa(i), "1"))
					}
				}
				e.do(o("keys *"))
				for r := int64(0); r < 70; r++ {
					e.s.w.Rand.Counter = r
					e.do(o("randomget"))
				}
				e.s.w.Rand.Counter = -1
				if n > 0 {
					p := o("keys *")
					p.late = 1503
					if c.Choose(2, "first access after expiry") == 1 {
						p = o("randomget")
						p.late = 1503
					}
					e.do(p)
				}
				for r := int64(0); r < 70; r++ {
					e.s.w.Rand.Counter = r
					e.do(o("randomget"))
				}
				e.s.w.Rand.Counter = -1
				e.s.compare(e.m, 0, "after random picks")
			}},
			manyKeys,
			manyExpired,
			{Name: "long keys", Shard: 1, Run: func(c *Ctx) {
				n := []int{100, 255, 256, 1000, 4095, 4096, 16383, 16384, 16400, 32768, 65535, 65536, 70000, 1 << 20}[c.Choose(14, "length")]
				kind := kinds[c.Choose(len(kinds), "type")]
				e := newSeq(c, baseConfig(), 1)
				defer e.s.end()
				k := fill(n - 1)
				e.do(mkKey(kind, k+"x"))
				e.do(oa("set", k, "v"))
				e.do(o("keys *"))
				e.do(oa("keys", "x$"))
				e.do(o("randomget"))
				e.do(oa("del", k))
				e.do(o("keys *"))
				e.do(o("randomget"))
				e.do(oa("expire", k+"x", "1"))
				p := o("keys *")
				p.late = 1503
				e.do(p)
			}},
			{Name: "special patterns", Shard: 1, Run: func(c *Ctx) {
				// as regular expressions of Go
				ps := []string{"x*", "a.c", "^a", "b$", "^$", "[0-9]+", "\\d+", "\\w", "(?i)A", "a|b", "a.*?c", "\\bkey", "(a)(b)", "[^a]", "k.y", "a{2}", "\\x41", "\\pL", "(?s).", ".", "\\.", "é", "caf.$"}
				p := ps[c.Choose(len(ps), "pattern")]
				e := newSeq(c, baseConfig(), 1)
				defer e.s.end()
				for _, k := range []string{"", "a", "b", "ab", "abc", "aac", "key:1", "key:10", "A", "a\nc", "a.c", "café", "caf\xff", " key", "monkey"} {
					e.do(oa("set", k, "#"))
				}
				e.do(oa("keys", p))
				e.do(oa("keys", "*"))
			}},
			{Name: "patterns", Shard: 1, Run: func(c *Ctx) {
				alpha := []string{"", "a", "b", "ab", "ba", "aa", "aba", "abc", "key:1", "key:10", "x-y", "A"}
				p := alpha[c.Choose(len(alpha), "pattern")]
				mask := c.Choose(64, "keys present")
				e := newSeq(c, baseConfig(), 1)
				defer e.s.end()
				for i, k := range alpha {
					if mask>>(i%6)&1 == 1 {
						e.do(oa("set", k, "#"))
					}
				}
				e.do(oa("keys", p))
				e.do(oa("keys", "*"))
			}},
			seqPhase{ops: keyOps, depth: 3}.real(realMemory, "", 1),
			seqPhase{ops: keyOps, depth: 4}.real(realMemory, "thorough", 2),
			seqPhase{ops: keyOps, depth: 4}.phase("sequences-4", "thorough", 6),
		},
	})
}

var _ = rt.StartSec
