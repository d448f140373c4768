//go:build go1.23

package main

import "fmt"

// One command with a great many arguments: thresholds on counts must not show.

var manySizes = []int{65, 257, 1000, 1023, 1024, 1025, 2047, 2049, 4097, 10001, 33333, 70001}

func manyArgs(prefix []string, n int, f func(i int) []string) op {
	a := append([]string(nil), prefix...)
	for i := 0; i < n; i++ {
		a = append(a, f(i)...)
	}
	return op{args: a}
}

func one(p string) func(i int) []string {
	return func(i int) []string { return []string{p + itoa(i)} }
}

type manyCase struct {
	name string
	run  func(e *seqEnv, n int)
}

func manyPhase(cases ...manyCase) Phase {
	return Phase{Name: "many arguments", Shard: 2, Weight: 2, Run: func(c *Ctx) {
		k := cases[c.Choose(len(cases), "case")]
		n := manySizes[c.Choose(len(manySizes), "arguments")]
		e := newSeq(c, baseConfig(), 1)
		defer e.s.end()
		k.run(e, n)
		e.s.compare(e.m, 0, "after "+k.name)
		c.Sample(fmt.Sprintf("%s with %d arguments", k.name, n))
	}}
}

var manyList = manyPhase(
	manyCase{"rpush", func(e *seqEnv, n int) {
		e.do(manyArgs([]string{"rpush", "k"}, n, one("e")))
		e.do(o("lpop k"))
		e.do(o("lrange k 0 -1"))
		e.do(oa("lrange", "k", itoa(n-9), itoa(n+9)))
		e.do(oa("lrange", "k", "1", itoa(n-2)))
		e.do(oa("lindex", "k", itoa(n-2)))
	}},
	manyCase{"lpush", func(e *seqEnv, n int) {
		e.do(o("rpush k a b"))
		e.do(manyArgs([]string{"lpush", "k"}, n, one("e")))
		e.do(o("rpop k"))
		e.do(o("lrange k -1000 -1"))
		e.do(o("lindex k 0"))
	}},
)

var manyHash = manyPhase(
	manyCase{"hset", func(e *seqEnv, n int) {
		e.do(manyArgs([]string{"hset", "h"}, n, func(i int) []string { return []string{"f" + itoa(i), "v" + itoa(i)} }))
		e.do(o("hlen h"))
		e.do(manyArgs([]string{"hset", "h"}, n, func(i int) []string { return []string{"f" + itoa(i*2), "w" + itoa(i)} }))
	}},
	manyCase{"hdel", func(e *seqEnv, n int) {
		e.do(manyArgs([]string{"hset", "h"}, n, func(i int) []string { return []string{"f" + itoa(i), "v" + itoa(i)} }))
		e.do(manyArgs([]string{"hdel", "h"}, n, func(i int) []string { return []string{"f" + itoa(i*3/2)} }))
		e.do(manyArgs([]string{"hdel", "h"}, n-1, one("f")))
	}},
)

var manySet = manyPhase(
	manyCase{"sadd", func(e *seqEnv, n int) {
		e.do(manyArgs([]string{"sadd", "s"}, n, one("m")))
		e.do(manyArgs([]string{"sadd", "s"}, n, func(i int) []string { return []string{"m" + itoa(i*2)} }))
		e.do(o("smembers s"))
	}},
	manyCase{"srem", func(e *seqEnv, n int) {
		e.do(manyArgs([]string{"sadd", "s"}, n, one("m")))
		e.do(manyArgs([]string{"srem", "s"}, n, func(i int) []string { return []string{"m" + itoa(i*3/2)} }))
		e.do(manyArgs([]string{"srem", "s"}, n-1, one("m")))
		e.do(o("scard s"))
	}},
	manyCase{"unequal operands", func(e *seqEnv, n int) {
		e.do(manyArgs([]string{"sadd", "big"}, n, one("m")))
		e.do(o("sadd small m1 x m3"))
		e.do(o("sadd one y"))
		e.do(o("sadd sub m5"))
		for _, c := range []string{"sunion", "sinter", "sdiff"} {
			for _, k := range []string{"small", "one", "sub", "none"} {
				e.do(o(c + " big " + k))
				e.do(o(c + " " + k + " big"))
				e.do(o("scard big"))
				e.do(o("smembers " + k))
			}
		}
		e.do(o("sinter small big one"))
		e.do(o("sunion one small big sub"))
		e.do(o("sdiff small none big one"))
	}},
	manyCase{"spop", func(e *seqEnv, n int) {
		n = min(n, 4097)
		e.do(manyArgs([]string{"sadd", "s"}, n, one("m")))
		for i := 0; i < n; i++ {
			e.do(o("spop s"))
			if i%97 == 0 {
				e.do(o("smembers s"))
			}
		}
		e.do(o("scard s"))
	}},
	manyCase{"operands", func(e *seqEnv, n int) {
		n = min(n, 4097)
		for i := 0; i < 7; i++ {
			e.do(oa("sadd", "s"+itoa(i), "all", "m"+itoa(i), "x"+itoa(i%2)))
		}
		args := func(i int) []string { return []string{"s" + itoa(i%6)} }
		last := []string{"s6"}
		e.do(op{args: append(manyArgs([]string{"sunion"}, n, args).args, last...)})
		e.do(op{args: append(manyArgs([]string{"sinter"}, n, args).args, last...)})
		e.do(op{args: append(manyArgs([]string{"sdiff", "s6"}, n, func(i int) []string { return []string{"none" + itoa(i)} }).args, "s0")})
		e.do(op{args: append(manyArgs([]string{"sunion"}, n, func(i int) []string { return []string{"none" + itoa(i)} }).args, last...)})
	}},
)

var manyZset = manyPhase(
	manyCase{"zadd", func(e *seqEnv, n int) {
		e.do(manyArgs([]string{"zadd", "z"}, n, func(i int) []string { return []string{itoa(i * 7919 % 10007), "m" + itoa(i)} }))
		e.do(o("zrange z 0 -1"))
		e.do(manyArgs([]string{"zadd", "z"}, n, func(i int) []string { return []string{itoa(i % 13), "m" + itoa(i*2)} }))
		e.do(o("zcard z"))
		e.do(o("zcount z 3 5"))
	}},
	manyCase{"zrem", func(e *seqEnv, n int) {
		e.do(manyArgs([]string{"zadd", "z"}, n, func(i int) []string { return []string{itoa(i * 7919 % 10007), "m" + itoa(i)} }))
		e.do(manyArgs([]string{"zrem", "z"}, n, func(i int) []string { return []string{"m" + itoa(i*3/2)} }))
		e.do(o("zrange z 0 -1"))
		e.do(manyArgs([]string{"zrem", "z"}, n-1, one("m")))
		e.do(o("zcard z"))
	}},
	manyCase{"ranges", func(e *seqEnv, n int) {
		e.do(manyArgs([]string{"zadd", "z"}, n, func(i int) []string { return []string{itoa(i * 7919 % 10007), "m" + itoa(i)} }))
		for i := 0; i < n; i += n/50 + 1 {
			e.do(oa("zrange", "z", itoa(i), itoa(i+1), "withscores"))
			e.do(oa("zrange", "z", itoa(-i), itoa(-i+1)))
		}
		e.do(oa("zremrangebyrank", "z", itoa(n/3), itoa(n/2)))
		e.do(o("zcount z 1000 5000"))
		e.do(oa("zrange", "z", "0", itoa(n)))
		e.do(oa("zremrangebyrank", "z", itoa(n/2), itoa(n+3)))
		e.do(o("zremrangebyscore z 100 9000"))
	}},
)

var manyKeys = manyPhase(
	manyCase{"del", func(e *seqEnv, n int) {
		n = min(n, 10001)
		for i := 0; i < n; i++ {
			e.do(oa("set", "k"+itoa(i), "v"))
		}
		e.do(o("keys *"))
		e.do(o("keys k1.*7"))
		e.do(manyArgs([]string{"del"}, n, func(i int) []string { return []string{"k" + itoa(i*3/2)} }))
		e.do(o("keys *"))
		e.do(o("randomget"))
		e.do(manyArgs([]string{"del"}, n-1, one("k")))
		e.do(o("keys *"))
		e.do(o("randomget"))
	}},
)

// manyExpired: of many keys most, or all, have expired.
var manyExpired = Phase{Name: "many expired keys", Shard: 1, Weight: 1, Run: func(c *Ctx) {
	n := []int{1, 10, 100, 1000, 1001, 1025, 3000}[c.Choose(7, "keys")]
	live := c.Choose(3, "live keys")
	first := [][]string{f("randomget"), f("keys *"), f("get k1"), f("rpush k1 x"), f("set k1 x")}[c.Choose(5, "first command")]
	e := newSeq(c, baseConfig(), 1)
	defer e.s.end()
	for i := 0; i < n; i++ {
		e.do(oa("setex", "k"+itoa(i), "1", "v"))
	}
	for i := 0; i < live; i++ {
		e.do(oa("set", "live"+itoa(i), "v"))
	}
	p := op{args: first, late: 1503}
	e.do(p)
	for i := 0; i < 5; i++ {
		e.do(o("randomget"))
	}
	e.do(o("keys *"))
	e.do(o("keys k1.*"))
	e.do(oa("rpush", "k"+itoa(n-1), "y"))
	e.do(o("keys *"))
	e.s.compare(e.m, 0, "with many expired keys")
}}

// integers at which arithmetic may wrap around
var extremes = []string{"0", "1", "-1", "2", "-3", "1024", "-1025", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "4294967297", "-4294967296",
	"9223372036854775806", "9223372036854775807", "-9223372036854775807", "-9223372036854775808", "9223372036854775808", "-9223372036854775809"}
