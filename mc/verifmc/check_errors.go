//go:build go1.23

package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/IfanTsai/metis/config"
)

// noErrChange runs a command and, if it answers with an error, checks that the log did not change.
func (e *seqEnv) noErrChange(p op) Reply {
	before := append([]byte(nil), e.s.aofBytes()...)
	r := e.do(p)
	if r.T == '-' && !bytes.Equal(before, e.s.aofBytes()) {
		e.c.Fail("%s answers %s, yet appends to the append-only file: %q", p, r, cut(e.s.aofBytes()[len(before):]))
	}
	return r
}

var allCommands = []string{
	"ping", "select", "auth", "expire", "expireat", "ttl", "del", "keys", "set", "setex", "get", "randomget",
	"hset", "hget", "hdel", "hexists", "hkeys", "hlen", "lpush", "rpush", "lpop", "rpop", "llen", "lindex", "lrange",
	"sadd", "srem", "spop", "scard", "sismember", "smembers", "sdiff", "sinter", "sunion",
	"zadd", "zrange", "zrangebyscore", "zrem", "zremrangebyrank", "zremrangebyscore", "zcard", "zcount", "zscore",
	"nosuch", "",
}

// populate creates one key of every type, some with an expiry, in databases 0 and 1.
func populate(e *seqEnv, ttl bool) {
	for _, k := range kinds {
		e.do(mkKey(k, "k_"+k))
		if ttl {
			e.do(o("expire k_" + k + " 1000"))
		}
	}
}

var keyNames = []string{"k_string", "k_list", "k_hash", "k_set", "k_zset", "k_none"}

func init() {
	aofNo := func() config.Config { return aofConfig(config.TypeAppendFsyncNever) }
	vals := []string{"a", "", "1", "-1", "x1", "1.5", "nan", "inf", "1e400", "9223372036854775807", "9223372036854775808", "withscores"}
	few := []string{"a", "1", "x", "9223372036854775808"}
	combos := func(cmds []string, vals []string) func(c *Ctx) {
		return func(c *Ctx) {
			cmd := cmds[c.Choose(len(cmds), "command")]
			key := keyNames[c.Choose(len(keyNames), "key")]
			a := vals[c.Choose(len(vals), "argument")]
			b := vals[c.Choose(len(vals), "argument")]
			ttl := c.Choose(2, "expiry on the keys") == 1
			if cmd == "setex" || cmd == "expire" || cmd == "expireat" {
				ttl = false
			}
			e := newSeq(c, aofNo(), 1)
			defer e.s.end()
			e.do(o("select 1"))
			populate(e, ttl)
			e.noErrChange(oa(cmd, key, a))
			e.noErrChange(oa(cmd, key, a, b))
			for _, d := range vals {
				e.noErrChange(oa(cmd, key, a, b, d))
			}
			for _, d := range few {
				e.noErrChange(oa(cmd, key, a, b, a, d))
			}
			e.s.compare(e.m, 0, "after "+cmd)
			e.do(o("ping"))
			c.Sample(strings.Join([]string{cmd, key, a, b}, " "))
		}
	}
	register(&Check{
		ID:          "C12",
		Explanation: "Every command of the table (and unknown ones) applied to a key of every type and to a missing key, with every number of arguments around its arity and every combination of up to three further arguments from a pool of valid, malformed and extreme values; the model decides which must be errors, and after every error reply the append-only file, and at the end every database, expiry and the selection, must be unchanged. Also all sequences of erroneous and valid commands up to the stated depth.",
		Phases: []Phase{
			{Name: "letter case", Shard: 2, Run: letterCase},
			{Name: "similar names", Shard: 2, Run: func(c *Ctx) {
				cmd := allCommands[c.Choose(len(allCommands)-2, "command")]
				how := c.Choose(16, "name")
				name := []string{" " + cmd, cmd + " ", "\t" + cmd, cmd + "\n", cmd + "\r\n", "\x00" + cmd, cmd + "\x00", cmd + "s", "x" + cmd, cmd[1:], cmd[:len(cmd)-1], cmd + cmd, "\"" + cmd + "\"", strings.ReplaceAll(cmd, "s", "\u017f") + "\u200b", cmd[:1] + "\xff" + cmd[1:], cmd + "|" + cmd}[how]
				key := keyNames[c.Choose(len(keyNames), "key")]
				n := c.Choose(5, "arguments")
				e := newSeq(c, aofNo(), 1)
				defer e.s.end()
				e.do(o("select 1"))
				populate(e, false)
				e.noErrChange(op{args: append([]string{name}, []string{key, "1", "1", "1"}[:n]...)})
				e.s.compare(e.m, 0, "after the command")
				e.do(o("ping"))
			}},
			{Name: "arity", Shard: 2, Weight: 2, Run: func(c *Ctx) {
				cmd := allCommands[c.Choose(len(allCommands), "command")]
				key := keyNames[c.Choose(len(keyNames), "key")]
				up := c.Choose(2, "upper case") == 1
				e := newSeq(c, aofNo(), 1)
				defer e.s.end()
				e.do(o("select 1"))
				populate(e, false)
				name := cmd
				if up {
					name = strings.ToUpper(cmd)
				}
				args := []string{name}
				for n := 0; n < 8; n++ {
					if n > 0 && cmd != "select" {
						if n == 1 {
							args = append(args, key)
						} else {
							args = append(args, "1")
						}
					} else if n > 0 {
						args = append(args, "1")
					}
					e.noErrChange(op{args: append([]string(nil), args...)})
				}
				e.s.compare(e.m, 0, "after "+cmd)
			}},
			{Name: "wrong-type", Shard: 2, Weight: 2, Run: func(c *Ctx) {
				cmd := allCommands[c.Choose(len(allCommands), "command")]
				key := keyNames[c.Choose(len(keyNames), "key")]
				forms := [][]string{{}, {"f"}, {"0", "-1"}, {"1", "m"}, {"f", "v", "g", "w"}, {"-inf", "+inf"}, {"1", "m", "2", "n"}, {"0", "-1", "withscores"}, {"k_set"}, {"k_none", "k_set", "k_string"}}
				f := forms[c.Choose(len(forms), "arguments")]
				ttl := c.Choose(2, "expiry on the keys") == 1
				e := newSeq(c, aofNo(), 1)
				defer e.s.end()
				populate(e, ttl)
				e.noErrChange(op{args: append([]string{cmd, key}, f...)})
				e.s.compare(e.m, 0, "after "+cmd)
			}},
			{Name: "arguments", Shard: 3, Weight: 5, Run: combos(allCommands, []string{"a", "", "1", "-1", "1.5", "nan", "inf", "9223372036854775808", "withscores"})},
			seqPhase{cfg: aofNo, clients: 1, ops: opsOf(`
				set s v#
				lpush s #
				rpush l #
				get l
				hset l f #
				hset h f
				hset h f #
				zadd z 1 a x b
				zadd z nan a
				zadd z 1 a
				zadd z 2 a 3
				zrange z 0 -1 foo
				select 9
				select 1
				expire s x
				expire s 99999999999999999
				setex s x v
				setex l 1.5 v
				sadd l a
				nosuch a
				incr s`), depth: 3}.phase("sequences-3", "", 3),
			{Name: "arguments-full", Tier: "thorough", Shard: 3, Weight: 5, Run: combos(allCommands, vals)},
		},
	})

	edges := []string{"0", "1", "-1", "2", "-2", "3", "-3", "4", "-4", "5", "-5", "2147483647", "2147483648", "-2147483648", "4294967295", "4294967296", "-4294967296",
		"9223372036854775806", "9223372036854775807", "-9223372036854775807", "-9223372036854775808", "9223372036854775808", "18446744073709551615", "18446744073709551616", "99999999999999999999999999", "-0", "+1", "0x10", "1_0", "1e3", "", " "}
	type rc struct{ cmd, kind string }
	ranged := []rc{{"lrange", "list"}, {"zrange", "zset"}, {"zremrangebyrank", "zset"}, {"zrangebyscore", "zset"}, {"zremrangebyscore", "zset"}, {"zcount", "zset"}, {"zadd", "zset"}, {"zadd", "none"}, {"lindex", "list"}, {"expire", "string"}, {"expireat", "string"}, {"setex", "string"}, {"select", "none"}, {"keys", "none"}}
	toks := []string{"*", "$", "\r\n", "\r", "\n", "0", "1", "-", "2", "9", "GET", " ", "a", "\x00"}
	nums := []string{"0", "1", "2", "3", "-1", "-2", "4", "1048576", "1048577", "2147483647", "2147483648", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551617", "", " ", "a", "1a", "+1", "01", "-0", "1.5", "\x00"}

	// other connections and all data must be unaffected by what k sends
	bystander := func(e *seqEnv, conn interface{ Send([]byte) }, chunks [][]byte) {
		for _, b := range chunks {
			conn.Send(b)
			e.s.settle()
		}
		e.do(on(1, "get b"))
		e.do(on(1, "set b #"))
		e.do(on(1, "get b"))
		e.do(on(1, "lrange l 0 -1"))
	}
	rawPhase := func(gen func(c *Ctx) []byte) func(c *Ctx) {
		return func(c *Ctx) {
			b := gen(c)
			e := newSeq(c, baseConfig(), 2)
			defer e.s.end()
			e.do(on(1, "set b #"))
			e.do(on(1, "rpush l x y"))
			k := e.k[0]
			if c.tracing {
				c.Logf("c0 sends %q", cut(b))
			}
			bystander(e, k.conn, [][]byte{b})
			if !k.conn.SrvClose {
				bystander(e, k.conn, [][]byte{encode("ping"), []byte("\r\n"), encode("get", "b")})
			}
			_, _, err := parseReplies(k.conn.Out)
			c.Check(err == nil, "after %q: %v", cut(b), err)
			k.conn.Close()
			e.s.settle()
			c.Check(len(e.s.w.Net.OpenFDs()) <= 3 && e.s.w.Net.OpenFDs()[2] == 1, "descriptors of closed connections stay open: %v", e.s.w.Net.OpenFDs())
			n := e.s.dial()
			n.do(e.m, "get", "b")
			c.Sample(fmt.Sprintf("%q", cut(b)))
		}
	}
	tokens := func(toks []string, n int) func(c *Ctx) []byte {
		return func(c *Ctx) []byte {
			var b []byte
			for i := 0; i < n; i++ {
				b = append(b, toks[c.Choose(len(toks), "token")]...)
			}
			return b
		}
	}
	register(&Check{
		ID:          "C20",
		Explanation: "Every byte stream of up to the stated number of tokens over the protocol's alphabet, every array and bulk length from a pool of boundary and malformed values at every position of a request, over-long lines, and every pair of boundary numbers as arguments of every command that takes numbers, on keys of several sizes; each followed by requests of another connection, which must see all data unaffected, and by a new connection. The process must neither panic, exit nor spin.",
		Assumptions: []string{"Memory is limited to 8 GB per process."},
		Phases: []Phase{
			{Name: "tokens-4", Shard: 2, Weight: 4, Run: rawPhase(tokens(toks, 4))},
			{Name: "real binary", Shard: 2, Weight: 2, Run: realRaw(tokens(toks, 3))},
			{Name: "real binary, longer", Tier: "thorough", Shard: 2, Weight: 2, Run: realRaw(tokens(toks, 4))},
			{Name: "tokens-5-small", Shard: 3, Weight: 4, Run: rawPhase(tokens([]string{"*1", "*2", "$1", "$0", "\r\n", "a", "$-1", "*0", "*-1"}, 5))},
			{Name: "lengths", Shard: 2, Weight: 2, Run: rawPhase(func(c *Ctx) []byte {
				x := nums[c.Choose(len(nums), "array length")]
				y := nums[c.Choose(len(nums), "bulk length")]
				tail := []string{"", "\r\n", "GET\r\n", "GET\r\n$1\r\nb\r\n", "abc", "abcd\r\n", "\r\n\r\n", "$3\r\nGET\r\n", "*1\r\n$4\r\nPING\r\n"}[c.Choose(9, "rest")]
				switch c.Choose(3, "shape") {
				case 0:
					return []byte("*" + x + "\r\n$" + y + "\r\n" + tail)
				case 1:
					return []byte("*2\r\n$3\r\nGET\r\n$" + y + "\r\n" + tail + x)
				default:
					return []byte("*" + x + "\r\n" + tail + "$" + y + "\r\n" + tail)
				}
			})},
			{Name: "malformed arrays", Shard: 2, Run: func(c *Ctx) {
				// an array request with one malformed part is answered by an error or ends the connection, and is not executed
				args := []string{"set", "b", []string{"new", ""}[c.Choose(2, "value")]}
				at := c.Choose(len(args), "malformed argument")
				n := itoa(len(args[at]))
				heads := []string{":" + n, "+" + n, "-" + n, "*" + n, "x" + n, " " + n, "\x00" + n, "%" + n, n, "$-1", "$-2", "$-" + n + "1", "$", "$a", "$" + n + ".0", "$" + n + " ", "$ " + n, "$0x" + n, "$" + n + "a"}
				ends := []string{"\r\r", "\n\n", "\n\r", "xx", "x\n", "\rx", "\x00\x00", "  "}
				k := c.Choose(len(heads)+len(ends), "what is malformed")
				one := c.Choose(2, "byte by byte") == 1
				b := "*3\r\n"
				for i, a := range args {
					h, t := "$"+itoa(len(a)), "\r\n"
					if i == at && k < len(heads) {
						h = heads[k]
					} else if i == at {
						t = ends[k-len(heads)]
					}
					b += h + "\r\n" + a + t
				}
				e := newSeq(c, baseConfig(), 2)
				defer e.s.end()
				e.do(on(1, "set b #"))
				e.do(on(1, "rpush l x y"))
				c.Logf("c0 sends %q", b)
				chunks := [][]byte{[]byte(b)}
				if one {
					chunks = nil
					for i := range b {
						chunks = append(chunks, []byte{b[i]})
					}
				}
				conn := e.k[0].conn
				for _, x := range chunks {
					conn.Send(x)
					e.s.settle()
				}
				e.do(on(1, "get b"))
				c.Check(conn.SrvClose || len(conn.Out) > 0 && conn.Out[0] == '-', "%q is answered by %q and the connection stays open", b, cut(conn.Out))
				e.do(on(1, "lrange l 0 -1"))
			}},
			{Name: "long-lines", Shard: 2, Weight: 1, Run: rawPhase(func(c *Ctx) []byte {
				n := []int{4094, 4095, 4096, 4097, 8192, 65534, 65535, 65536, 65537, 65538, 70000, 131072, 1048577}[c.Choose(13, "length")]
				ch := []string{"a", " ", "\n", "\r", "*", "$", "\x00", "1", "a b ", "\xff"}[c.Choose(10, "byte")]
				pre := []string{"", "*", "$", "*1\r\n$", "*3\r\n$3\r\nSET\r\n$1\r\na\r\n$", "GET "}[c.Choose(6, "prefix")]
				post := []string{"", "\r\n"}[c.Choose(2, "end")]
				return []byte(pre + strings.Repeat(ch, n/len(ch)) + post)
			})},
			{Name: "inline", Shard: 2, Weight: 1, Run: rawPhase(func(c *Ctx) []byte {
				w := []string{"get", "set", "b", "", "x", "PING", "lrange", "l", "0", "-1", "nosuch", "\t"}
				var p []string
				for i, n := 0, 1+c.Choose(3, "words"); i < n; i++ {
					p = append(p, w[c.Choose(len(w), "word")])
				}
				s := strings.Join(p, " ")
				if f := strings.Fields(s); len(f) > 2 && f[0] == "set" && (f[1] == "b" || f[1] == "l") {
					s = "set x y"
				}
				return []byte(s + []string{"\r\n", "\n", "\r\n\r\n"}[c.Choose(3, "end")])
			})},
			{Name: "numbers", Shard: 3, Weight: 3, Run: func(c *Ctx) {
				r := ranged[c.Choose(len(ranged), "command")]
				size := c.Choose(4, "size of the key")
				a := edges[c.Choose(len(edges), "number")]
				e := newSeq(c, baseConfig(), 2)
				defer e.s.end()
				k := "k_" + r.kind
				e.do(on(1, "set b #"))
				for _, b := range edges {
					switch r.kind {
					case "list":
						e.do(oa("del", k))
						for i := 0; i < size; i++ {
							e.do(oa("rpush", k, "#"))
						}
					case "zset":
						e.do(oa("del", k))
						for i := 0; i < size; i++ {
							e.do(oa("zadd", k, itoa(i), "m"+itoa(i)))
						}
					case "string":
						e.do(oa("set", k, "#"))
					}
					switch r.cmd {
					case "lindex", "expire", "expireat", "select", "keys":
						if b != a {
							continue
						}
						if r.cmd == "select" || r.cmd == "keys" {
							e.do(oa(r.cmd, a))
						} else {
							e.do(oa(r.cmd, k, a))
						}
						e.do(oa("ttl", k))
					case "zadd":
						e.do(oa(r.cmd, k, a, b))
						e.do(oa(r.cmd, k, a, "m", b, "n"))
					case "setex":
						if b != a {
							continue
						}
						e.do(oa(r.cmd, k, a, b))
						e.do(oa("ttl", k))
					default:
						e.do(oa(r.cmd, k, a, b))
					}
				}
				e.do(on(1, "get b"))
				e.do(tick(1503))
				e.do(on(1, "set b #"))
				e.s.compare(e.m, 0, "after "+r.cmd)
			}},
			{Name: "regexps", Shard: 2, Weight: 1, Run: func(c *Ctx) {
				t := []string{"*", "[", "]", "(", ")", "\\", "a", "+", "?", "{", "}", "1", ".", "^", "$", "|", "a{1000}", "(?i)", "\xff"}
				p := t[c.Choose(len(t), "token")] + t[c.Choose(len(t), "token")] + t[c.Choose(len(t), "token")]
				e := newSeq(c, baseConfig(), 2)
				defer e.s.end()
				e.do(on(1, "set a #"))
				r := e.k[0].raw("keys", p)
				c.Check(r.T == '*' || r.T == '-', "KEYS %q answers %s", p, r)
				e.do(on(1, "get a"))
				e.do(o("keys *"))
			}},
			{Name: "tokens-5", Tier: "thorough", Shard: 3, Weight: 6, Run: rawPhase(tokens(toks, 5))},
			{Name: "tokens-6-small", Tier: "thorough", Shard: 3, Weight: 6, Run: rawPhase(tokens([]string{"*1", "*2", "$1", "$0", "\r\n", "a", "$-1", "*0", "*-1"}, 6))},
		},
	})

	pwCfg := func() config.Config {
		c := baseConfig()
		c.RequirePassword = "secret"
		return c
	}
	authOps := opsOf(`
		auth secret
		auth wrong
		auth ""
		auth secret2
		auth secre
		auth SECRET
		auth
		auth secret secret
		set a #
		get a
		keys *
		select 1
		expire a 100
		nosuch
		@c1 auth secret
		@c1 auth wrong
		@c1 set a #
		@c1 get a
		@c1 rpush b #`)
	register(&Check{
		ID:          "C23",
		Explanation: "All sequences of AUTH attempts (right, wrong, near misses, wrong arity) and commands of two connections up to the stated depth; every command with every kind of key and argument count on a connection that never authenticated, or whose authentication was withdrawn, or pipelined right behind a failing AUTH; new connections after others authenticated; and the same without a password. The keyspace is read back by an authenticated connection.",
		Phases: []Phase{
			seqPhase{cfg: pwCfg, clients: 2, ops: authOps, depth: 3}.phase("sequences-3", "", 2),
			seqPhase{cfg: pwCfg, clients: 2, ops: authOps, depth: 3}.real(realMemory, "", 1),
			seqPhase{cfg: pwCfg, clients: 2, ops: authOps, depth: 4}.real(realMemory, "thorough", 2),
			seqPhase{cfg: pwCfg, clients: 2, ops: authOps, depth: 4}.phase("sequences-4", "", 4),
			{Name: "commands", Shard: 3, Weight: 3, Run: func(c *Ctx) {
				cmds := append([]string{"bgrewriteaof", "nosuch", ""}, allCommands...)
				cmd := cmds[c.Choose(len(cmds), "command")]
				key := keyNames[c.Choose(len(keyNames), "key")]
				state := c.Choose(4, "authentication")
				cfg := pwCfg()
				cfg.AofEnable, cfg.AofFilename, cfg.AofFsync = true, "appendonly.aof", config.TypeAppendFsyncNever
				e := newSeq(c, cfg, 2)
				defer e.s.end()
				e.do(on(1, "auth secret"))
				for _, kd := range kinds {
					p := mkKey(kd, "k_"+kd)
					p.cli = 1
					e.do(p)
				}
				switch state {
				case 1:
					e.do(o("auth secret"))
					e.do(o("auth nope"))
				case 2:
					e.do(o("auth nope"))
				case 3:
					e.do(o("auth"))
				}
				before := len(e.s.aofBytes())
				args := []string{cmd}
				for n := 0; n < 6; n++ {
					name := args[0]
					for _, w := range []string{name, strings.ToUpper(name), strings.Title(name)} {
						if cmd == "auth" && n == 1 {
							break
						}
						args[0] = w
						r := e.do(op{args: append([]string(nil), args...)})
						c.Check(r.T == '-', "unauthenticated %s answers %s", showArgs(args), r)
					}
					args[0] = name
					e.do(o("ping")) // and still is
					if n == 0 {
						args = append(args, key)
					} else {
						args = append(args, "1")
					}
				}
				c.Check(len(e.s.aofBytes()) == before, "unauthenticated %s changes the append-only file", cmd)
				c.Check(len(e.s.w.Threads) == 1, "unauthenticated %s starts a background task", cmd)
				e.s.compare(e.m, 0, "after "+cmd)
				e.do(o("auth secret"))
				e.do(o("ping"))
			}},
			{Name: "pipelined", Shard: 3, Weight: 2, Run: func(c *Ctx) {
				lines := [][]string{{"auth", "secret"}, {"auth", "wrong"}, {"set", "a", "1"}, {"get", "a"}, {"select", "1"}, {"ping"}, {"auth"}}
				var b []byte
				var rs [][]string
				for i := 0; i < 4; i++ {
					a := lines[c.Choose(len(lines), "request")]
					rs = append(rs, a)
					b = append(b, encode(a...)...)
				}
				e := newSeq(c, pwCfg(), 2)
				defer e.s.end()
				e.do(on(1, "auth secret"))
				k := e.k[0]
				k.conn.Send(b)
				e.s.settle()
				got := k.got()
				c.Check(len(got) == len(rs) && !k.conn.SrvClose, "%d replies to %d pipelined requests %v", len(got), len(rs), rs)
				for i, a := range rs {
					if err := e.m.exec(&k.st, a, got[i], e.s.w.NowMS()); err != nil {
						c.Fail("pipeline %v: %s: %v", rs, showArgs(a), err)
					}
				}
				n := e.s.dial()
				n.do(e.m, "get", "a")
				e.s.compare(e.m, 0, "after the pipeline")
			}},
			seqPhase{clients: 2, ops: authOps, depth: 3}.phase("no-password-3", "", 2),
			{Name: "passwords", Shard: 2, Run: func(c *Ctx) {
				ps := []string{"secret", "p w", "a\r\nb", "\x00", strings.Repeat("x", 5000), "*", "$6", "ünï", "0"}
				try := append(append([]string(nil), ps...), "", "secretx", "xsecret", "secre", " secret", "secret ", strings.Repeat("x", 4999), strings.Repeat("x", 5001), "\x00\x00")
				cfg := baseConfig()
				cfg.RequirePassword = ps[c.Choose(len(ps), "password")]
				t := try[c.Choose(len(try), "attempt")]
				e := newSeq(c, cfg, 2)
				defer e.s.end()
				e.do(oa("auth", t))
				e.do(o("set a #"))
				e.do(on(1, "get a"))
				e.do(oa("auth", cfg.RequirePassword))
				e.do(o("set a #"))
				e.do(oa("auth", t+"?"))
				e.do(o("get a"))
				e.s.compare(e.m, 0, "after the attempts")
			}},
		},
	})
}
