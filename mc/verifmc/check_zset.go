//go:build go1.23

package main

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/IfanTsai/metis/config"
	rt "github.com/IfanTsai/metis/verifvrt"
)

// levelScript makes the next skip list insertions draw the given heights.
func levelScript(levels ...int) []rt.Draw {
	var s []rt.Draw
	for _, l := range levels {
		for i := 1; i < l; i++ {
			s = append(s, rt.Draw{Kind: 'l'})
		}
		s = append(s, rt.Draw{Kind: 'h'})
	}
	return s
}

type zop struct {
	op
	levels []int
}

func (z zop) String() string {
	if z.levels != nil {
		return fmt.Sprintf("%s (heights %v)", z.op, z.levels)
	}
	return z.op.String()
}

func doZ(e *seqEnv, z zop) {
	e.s.w.Rand.Script = levelScript(z.levels...)
	e.do(z.op)
	e.s.w.Rand.Script = nil
}

// queryZset checks every rank range and score range of sorted set z.
func queryZset(e *seqEnv, members []string, scores []string) {
	n := 0
	if v := e.m.dbs[0]["z"]; v != nil {
		n = len(v.z)
	}
	e.do(o("zcard z"))
	e.do(o("zrange z 0 -1 withscores"))
	for i := -n - 1; i <= n+1; i++ {
		for j := -n - 1; j <= n+1; j++ {
			e.do(oa("zrange", "z", itoa(i), itoa(j)))
		}
	}
	for i, a := range scores {
		for _, b := range scores[max(0, i-1):] {
			e.do(oa("zcount", "z", a, b))
			e.do(oa("zrangebyscore", "z", a, b, "withscores"))
		}
	}
	for _, m := range members {
		e.do(oa("zscore", "z", m))
	}
}

func registerZset() {
	mk := func(mems, scores []string, levels []int, more string) []zop {
		var r []zop
		for _, m := range mems {
			for _, s := range scores {
				for _, l := range levels {
					r = append(r, zop{oa("zadd", "z", s, m), []int{l}})
				}
			}
		}
		for _, p := range opsOf(more) {
			r = append(r, zop{op: p})
		}
		return r
	}
	full := mk([]string{"a", "b", "c"}, []string{"1", "2"}, []int{1, 3}, `
		zrem z a
		zrem z b c b
		zrem z x
		zremrangebyrank z 0 0
		zremrangebyrank z 1 1
		zremrangebyrank z -2 -1
		zremrangebyrank z 5 9
		zremrangebyscore z 1 1
		zremrangebyscore z 1.5 inf
		zremrangebyscore z -inf +inf
		zremrangebyscore z 2 1`)
	full = append(full, zop{o("zadd z 1 a 2 b 3 d"), []int{1, 2, 1}}, zop{o("zadd z 5 a 0 a"), []int{2, 1}})
	small := mk([]string{"a", "b", "c"}, []string{"1", "2"}, []int{1, 2}, `
		zrem z b
		zremrangebyrank z 0 0
		zremrangebyrank z 1 -1
		zremrangebyscore z 2 2`)
	tiny := mk([]string{"a", "b"}, []string{"1", "2"}, []int{1, 2}, `
		zrem z b
		zremrangebyrank z 0 0
		zremrangebyrank z 1 -1
		zremrangebyscore z 2 2
		zadd z 1.5 c`)
	scores := []string{"-inf", "0", "1", "1.5", "2", "3", "+inf"}
	seq := func(ops []zop, depth int) func(c *Ctx) {
		return func(c *Ctx) {
			var pick []zop
			for i := 0; i < depth; i++ {
				pick = append(pick, ops[c.Choose(len(ops), "op")])
			}
			e := newSeq(c, baseConfig(), 1)
			defer e.s.end()
			for _, z := range pick {
				doZ(e, z)
			}
			queryZset(e, []string{"a", "b", "c", "d", "x"}, scores)
			e.s.compare(e.m, 0, "after the sequence")
			c.Sample(fmt.Sprint(pick))
		}
	}
	heights := func(c *Ctx, n int) []int {
		switch k := c.Choose(6, "heights"); k {
		case 0, 1, 2:
			r := make([]int, n)
			for i := range r {
				r[i] = []int{1, 4, 32}[k]
			}
			return r
		default:
			r := make([]int, n)
			for i := range r {
				h := 1
				for x := (i*7 + k) % 16; x&1 == 1; x >>= 1 {
					h++
				}
				r[i] = h
			}
			return r
		}
	}
	var realOps []op
	for _, z := range mk([]string{"a", "b", "c"}, []string{"1", "2"}, []int{0}, `
		zadd z 1 b 5 c 5 a
		zrem z a
		zrem z b c b
		zremrangebyrank z 1 1
		zremrangebyrank z -2 -1
		zremrangebyscore z 1 1
		zremrangebyscore z 1.5 inf
		zrange z 0 -1 withscores
		zrangebyscore z 1 2 withscores
		zcount z -inf 1
		zscore z b`) {
		realOps = append(realOps, z.op)
	}
	register(&Check{
		ID:          "C11",
		Explanation: "All operation sequences over a sorted set with scripted skip list heights, after each of which every rank range (negative ranks included), every score range, every count and every score is read back; every rank range and score range removed from sets of 5 to 40 members under six height patterns; scores of extreme magnitudes, infinities, equal and equivalent spellings. Comparison with a map from member to score ordered by (score, member).",
		Phases: []Phase{
			{Name: "sequences-3", Shard: 2, Weight: 4, Run: seq(full, 3)},
			{Name: "sequences-4", Shard: 3, Weight: 7, Run: seq(tiny, 4)},
			seqPhase{ops: realOps, depth: 3}.real(realMemory, "", 1),
			seqPhase{ops: realOps, depth: 4}.real(realMemory, "thorough", 2),
			{Name: "remove-ranges", Shard: 3, Weight: 3, Run: func(c *Ctx) {
				n := []int{5, 8}[c.Choose(2, "members")]
				hs := heights(c, n)
				byRank := c.Choose(2, "by rank or score") == 0
				i := c.Choose(2*n+3, "from") - n - 1
				j := c.Choose(2*n+3, "to") - n - 1
				e := newSeq(c, baseConfig(), 1)
				defer e.s.end()
				var mems []string
				for k := 0; k < n; k++ {
					m := "m" + itoa(k*7%n)
					mems = append(mems, m)
					doZ(e, zop{oa("zadd", "z", itoa(k*5%n/2), m), hs[k : k+1]})
				}
				if byRank {
					e.do(oa("zremrangebyrank", "z", itoa(i), itoa(j)))
				} else {
					e.do(oa("zremrangebyscore", "z", strconv.FormatFloat(float64(i)/2, 'f', -1, 64), strconv.FormatFloat(float64(j)/2, 'f', -1, 64)))
				}
				e.do(o("zrange z 0 -1 withscores"))
				for k := 0; k < n; k += 2 {
					doZ(e, zop{oa("zadd", "z", itoa(k), mems[k]), hs[k : k+1]})
				}
				if n < 8 {
					queryZset(e, mems, []string{"-inf", "0", "1", "2.5", "3", "inf"})
				}
				e.s.compare(e.m, 0, "after removing the range")
			}},
			{Name: "scores", Shard: 2, Weight: 2, Run: func(c *Ctx) {
				vals := []string{"0", "-0", "1e308", "-1e308", "5e-324", "-5e-324", "0.1", "0.30000000000000004", "inf", "-inf", "+Inf", "1e3", "1000", "9007199254740993", "-1", "3.0"}
				a := vals[c.Choose(len(vals), "score a")]
				b := vals[c.Choose(len(vals), "score b")]
				d := vals[c.Choose(len(vals), "new score of a")]
				e := newSeq(c, baseConfig(), 1)
				defer e.s.end()
				doZ(e, zop{oa("zadd", "z", a, "a"), []int{2}})
				doZ(e, zop{oa("zadd", "z", b, "b"), []int{1}})
				e.do(o("zrange z 0 -1 withscores"))
				e.do(o("zscore z a"))
				e.do(oa("zrangebyscore", "z", a, b))
				doZ(e, zop{oa("zadd", "z", d, "a", "0", "c"), []int{3, 1}})
				e.do(o("zrange z 0 -1 withscores"))
				e.do(o("zscore z a"))
				e.do(oa("zcount", "z", d, d))
				e.do(oa("zremrangebyscore", "z", b, d))
				e.do(o("zrange z 0 -1 withscores"))
			}},
			{Name: "spellings", Shard: 2, Run: func(c *Ctx) {
				words := []string{"NaN", "NAN", "nAn", "+nan", "-nan", "nan(1)", "Inf", "INF", "+inf", "-INF", "infinity", "-Infinity", "inf1", "infin", "0x1p-2", "0X10", "0x1_0p0", "1_0", "1e2", "1E+2", "1e-400", "1e400", "-1e999", ".5", "5.", ".", "+", "-", "+1", "--1", "1,5", " 1", "1 ", "1\n", "١", "1f", "(1", "[1", "0b1", "0o7", "00012", "1e", "e1", "1e1e1"}
				w := words[c.Choose(len(words), "spelling")]
				form := c.Choose(3, "form")
				e := newSeq(c, aofConfig(config.TypeAppendFsyncNever), 1)
				defer func() { e.s.end() }()
				e.do(o("zadd z 1 a 2 b 3 d"))
				switch form {
				case 0:
					e.noErrChange(oa("zadd", "z", w, "a"))
					e.noErrChange(oa("zadd", "y", w, "a"))
				case 1:
					e.noErrChange(oa("zadd", "z", "9", "c", w, "a", "7", "b"))
				case 2:
					e.noErrChange(oa("zadd", "z", "9", "c", "7", "b", w, "c"))
				}
				e.noErrChange(oa("zcount", "z", w, "2"))
				e.noErrChange(oa("zcount", "z", "2", w))
				e.noErrChange(oa("zrangebyscore", "z", w, "9"))
				e.noErrChange(oa("zrangebyscore", "z", "-9", w, "withscores"))
				e.do(o("zscore z a"))
				e.do(o("zrange z 0 -1 withscores"))
				e.noErrChange(oa("zremrangebyscore", "z", w, "2"))
				e.noErrChange(oa("zremrangebyscore", "z", "3", w))
				e.s.compare(e.m, 0, "after the commands")
				e.restart()
				e.s.compare(e.m, 0, "after a restart")
			}},
			{Name: "growth", Shard: 2, Weight: 2, Run: func(c *Ctx) {
				n := c.Choose(60, "members")
				hs := heights(c, 60)
				e := newSeq(c, baseConfig(), 1)
				defer e.s.end()
				for k := 0; k < n; k++ {
					doZ(e, zop{oa("zadd", "z", itoa(k*37%61/3), "m"+itoa(k)), hs[k : k+1]})
				}
				for k := 0; k < n; k += 3 {
					doZ(e, zop{oa("zadd", "z", itoa(k*11%23), "m"+itoa(k)), hs[k : k+1]})
				}
				for k := 1; k < n; k += 4 {
					e.do(oa("zrem", "z", "m"+itoa(k)))
				}
				e.do(o("zrange z 0 -1 withscores"))
				for k := 0; k < n; k++ {
					e.do(oa("zscore", "z", "m"+itoa(k)))
					e.do(oa("zrange", "z", itoa(k), itoa(k)))
					e.do(oa("zcount", "z", itoa(k/3), itoa(k)))
				}
				e.do(oa("zremrangebyrank", "z", itoa(n/5), itoa(n/3)))
				e.do(oa("zremrangebyscore", "z", "3", "7"))
				e.s.compare(e.m, 0, "after the sequence")
			}},
			manyZset,
			{Name: "extreme ranks", Shard: 2, Run: func(c *Ctx) {
				n := c.Choose(6, "members")
				i := extremes[c.Choose(len(extremes), "from")]
				j := extremes[c.Choose(len(extremes), "to")]
				e := newSeq(c, baseConfig(), 1)
				defer e.s.end()
				for k := 0; k < n; k++ {
					doZ(e, zop{oa("zadd", "z", itoa(k), "m"+itoa(k)), []int{1 + k%3}})
				}
				e.do(oa("zrange", "z", i, j))
				e.do(oa("zrange", "z", i, j, "withscores"))
				e.do(oa("zcount", "z", i, j))
				e.do(oa("zrangebyscore", "z", i, j))
				e.do(oa("zremrangebyrank", "z", i, j))
				e.do(o("zrange z 0 -1"))
				e.do(oa("zremrangebyscore", "z", i, j))
				e.do(o("zadd z 1 again"))
				e.s.compare(e.m, 0, "after the commands")
			}},
			{Name: "sequences-4-small", Tier: "thorough", Shard: 3, Weight: 4, Run: seq(small, 4)},
			{Name: "sequences-4-full", Tier: "thorough", Shard: 3, Weight: 6, Run: seq(full, 4)},
			{Name: "sequences-5", Tier: "thorough", Shard: 3, Weight: 6, Run: seq(small, 5)},
		},
	})
	_ = strings.Join
}
