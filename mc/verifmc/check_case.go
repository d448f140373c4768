//go:build go1.23

package main

import (
	"fmt"
	"strings"
)

// Command names and option words may be written in any mixture of small and capital letters, and what is
// logged in any of them is replayed.

// spellings lists mixtures of small and capital letters of a word.
func spellings(w string) []string {
	w = strings.ToLower(w)
	alt := func(from int) string {
		b := []byte(w)
		for i := from; i < len(b); i += 2 {
			b[i] = strings.ToUpper(string(b[i]))[0]
		}
		return string(b)
	}
	up := strings.ToUpper(w)
	return []string{w, up, up[:1] + w[1:], w[:1] + up[1:], w[:len(w)-1] + up[len(w)-1:], up[:len(up)-1] + w[len(w)-1:], alt(0), alt(1)}
}

var caseLines = []string{
	"ping", "select 1", "auth x", "bgrewriteaof",
	"expire str 50", "expireat str NOW+70", "ttl str", "del str list", "keys s.*", "keys S.*",
	"set str v2", "set str v3 exat NOW+60", "set fresh v exat NOW+60", "setex str 40 v4", "get str", "randomget",
	"hset hash f 9 n 1", "hget hash f", "hdel hash f", "hexists hash f", "hkeys hash", "hlen hash", "hset hash F big",
	"lpush list n", "rpush list n", "lpop list", "rpop list", "llen list", "lindex list 0", "lrange list 0 -1",
	"sadd set n", "srem set a", "spop set", "scard set", "sismember set a", "sismember set A", "smembers set", "sdiff set none", "sinter set set", "sunion set none",
	"zadd zset 5 n", "zrange zset 0 -1", "zrange zset 0 -1 withscores", "zrangebyscore zset -inf inf", "zrangebyscore zset -inf inf withscores",
	"zrem zset a", "zremrangebyrank zset 0 0", "zremrangebyscore zset -inf 1", "zcard zset", "zcount zset -inf inf", "zscore zset a", "zscore zset A",
}

func letterCase(c *Ctx) {
	line := strings.Fields(caseLines[c.Choose(len(caseLines), "command")])
	cfg := never()
	name := spellings(line[0])
	line[0] = name[c.Choose(len(name), "spelling")]
	for i, w := range line[1:] {
		if w == "exat" || w == "withscores" {
			o := spellings(w)
			line[i+1] = o[c.Choose(len(o), "spelling of the option")]
		}
	}
	e := newSeq(c, cfg, 1)
	defer func() { e.s.end() }()
	for _, l := range []string{"set str v", "rpush list a b c", "hset hash f 1 g 2", "sadd set a b c", "zadd zset 1 a 2 b"} {
		e.do(o(l))
	}
	e.do(o(strings.Join(line, " ")))
	e.s.tick(3)
	e.s.tick(3)
	c.Sample(fmt.Sprint(line))
	e.s.compare(e.m, 1000, "after the command")
	e.restart()
	e.s.compare(e.m, 1000, "after a restart")
	e.s.tick(5)
	e.do(o("rpush later x"))
	e.restart()
	e.s.compare(e.m, 1000, "after another restart")
}
