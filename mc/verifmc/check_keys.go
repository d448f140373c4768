//go:build go1.23

package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/IfanTsai/metis/config"
)

// setKey creates a key of each type.
var setKey = map[string]string{
	"string": "set %s v#", "list": "rpush %s x# y#", "hash": "hset %s f v# g w#", "set": "sadd %s a b", "zset": "zadd %s 1 a 2 b",
}

var kinds = []string{"string", "list", "hash", "set", "zset"}

func mkKey(kind, key string) op { return o(fmt.Sprintf(setKey[kind], key)) }

// readsOf are commands that observe key k of a kind.
var readsOf = map[string][]string{
	"string": {"get k"},
	"list":   {"llen k", "lrange k 0 -1", "lindex k 0"},
	"hash":   {"hlen k", "hkeys k", "hget k f", "hexists k f"},
	"set":    {"scard k", "smembers k", "sismember k a", "sunion k", "sinter k k", "sdiff k none", "sunion none k", "sdiff none k"},
	"zset":   {"zcard k", "zrange k 0 -1", "zrangebyscore k -inf inf", "zcount k 0 9", "zscore k a"},
}

// writesOf are commands that modify key k of a kind.
var writesOf = map[string][]string{
	"string": {"set k n#", "setex k 50 n#"},
	"list":   {"lpush k n#", "rpush k n#", "lpop k", "rpop k"},
	"hash":   {"hset k z n#", "hdel k f"},
	"set":    {"sadd k z", "srem k a", "spop k"},
	"zset":   {"zadd k 9 z", "zrem k a", "zremrangebyrank k 0 0", "zremrangebyscore k 0 1"},
}

// emptying lists the ways by which the key made by mkKey(kind, "k") ceases to exist.
var emptying = map[string][]string{
	"string": {"del k", "del none k k"},
	"list":   {"del k", "lpop k;lpop k", "rpop k;rpop k", "lpop k;rpop k"},
	"hash":   {"del k", "hdel k f g", "hdel k g;hdel k f", "hdel k x f x g g"},
	"set":    {"del k", "srem k a b", "srem k b;srem k a", "spop k;spop k", "srem k x b x a a"},
	"zset":   {"del k", "zrem k a b", "zrem k b;zrem k a", "zremrangebyrank k 0 -1", "zremrangebyscore k -inf +inf", "zremrangebyrank k 1 1;zremrangebyscore k 1 1", "zremrangebyrank k -2 -1", "zremrangebyrank k -9 9", "zremrangebyrank k -1 -1;zremrangebyrank k -1 -1", "zremrangebyscore k 1 2", "zremrangebyscore k 2 9;zremrangebyscore k -5 1", "zrem k x b a b"},
}

// farExpiries runs all sequences of commands that set or replace expiries, most of them past, at the epoch,
// before it or in the far future, in database 0 or 1, and optionally restarts the server in between.
func farExpiries(depth int, restart bool) func(c *Ctx) {
	ops := opsOf(`
		set k #
		set k # exat 0
		set k # exat -5
		set k # exat NOW+1
		setex k 0 #
		setex k -9999999999 #
		setex k 9000000000000000 #
		rpush k x#
		expire k -9999999999
		expire k 1
		expireat k 0
		expireat k -7
		expireat k NOW+9
		expireat k 9000000000000000
		get k
		@tick1103`)
	return func(c *Ctx) {
		db := c.Choose(2, "database")
		e := newSeq(c, never(), 1)
		defer func() { e.s.end() }()
		if db == 1 {
			e.do(o("select 1"))
		}
		e.run(choosePick(c, ops, depth))
		if restart {
			e.s.w.NowNS += []int64{0, 4013}[c.Choose(2, "time until the restart")] * 1e6
			e.restart()
			if db == 1 {
				e.do(o("select 1"))
			}
		}
		if restart { // the log keeps whole seconds
			e.s.compare(e.m, 1000, "after a restart")
			e.do(o("rpush l x#"))
			e.s.tick(1009)
			e.restart()
			e.s.compare(e.m, 1000, "after a second restart")
			return
		}
		e.s.compare(e.m, 0, "after the commands")
		e.do(o("get k"))
		e.do(o("ttl k"))
		e.do(o("set k again#"))
		e.s.tick(2003)
		e.do(o("get k"))
	}
}

func setKeyOf(kind string) string { return fmt.Sprintf(setKey[kind], "k") }

var expireForms = []string{"expire k 2", "expireat k NOW+2", "setex"}

func init() {
	timeOps := opsOf(`
		set a #
		setex a 2 #
		expire a 3
		expireat a NOW+2
		expire a 0
		expireat a NOW-5
		expire b 2
		del a
		del b a
		rpush b #
		lpop b
		get a
		ttl a
		ttl b
		keys *
		randomget
		@late1501 get a
		@late2503 lrange b 0 -1
		@late2507 keys *
		@tick1519
		@tick3523`)
	register(&Check{
		ID:          "C15",
		Explanation: "All sequences of writes, expiry commands, reads and passing time (with and without the periodic collection running in between) over two keys, compared with a timed map; and for every key type, way of setting the expiry and observing command, the millisecond-exact boundary: served until the expiry instant, absent after it, with TTL checked at every 100 ms before it.",
		Assumptions: []string{"Time stands still while one command executes; whether the exact millisecond of the expiry counts as before or after it is left open."},
		Phases: []Phase{
			seqPhase{ops: timeOps, depth: 3}.phase("sequences-3", "", 2),
			seqPhase{ops: timeOps, depth: 4}.phase("sequences-4", "", 5),
			{Name: "real binary", OneProc: true, Weight: 4, Run: realExpire},
			{Name: "boundary", Shard: 3, Weight: 2, Run: func(c *Ctx) {
				kind := kinds[c.Choose(len(kinds), "type")]
				form := c.Choose(3, "expiry command")
				if form == 2 && kind != "string" {
					return
				}
				reads := append([]string{"ttl k", "keys *", "keys k", "randomget", "del k"}, readsOf[kind]...)
				rd := reads[c.Choose(len(reads), "observation")]
				dt := []int64{1, 1000, 1998, 1999, 2001, 2002, 2999, 3600_000}[c.Choose(8, "time")]
				how := c.Choose(3, "how time passes")
				replace := c.Choose(4, "expiry replaced before")
				e := newSeq(c, baseConfig(), 1)
				defer e.s.end()
				if replace == 1 {
					e.do(mkKey(kind, "k"))
					e.do(o("expire k 1"))
				}
				if replace == 2 {
					e.do(mkKey(kind, "k"))
					e.do(o("expire k 900"))
				}
				if form == 2 {
					e.do(o("setex k 2 v#"))
				} else {
					e.do(mkKey(kind, "k"))
					e.do(o(expireForms[form]))
				}
				if replace == 3 {
					if kind != "string" {
						return
					}
					e.do(o("set k again#"))
				}
				p := o(rd)
				switch how {
				case 0:
					p.late = dt
				case 1:
					e.do(tick(dt))
				case 2:
					if dt > 1 {
						e.do(tick(dt / 2))
					}
					p.late = dt - dt/2
				}
				e.do(p)
				e.do(o("ttl k"))
				e.s.compare(e.m, 0, "after the observation")
				c.Sample(fmt.Sprintf("%s with %s, %s after %d ms", kind, expireForms[form], rd, dt))
			}},
			{Name: "far expiries", Shard: 2, Run: farExpiries(3, false)},
			{Name: "ttl", Shard: 2, Run: func(c *Ctx) {
				secs := []string{"1", "2", "59", "60", "3600", "86400", "100000000", "9000000000"}[c.Choose(8, "seconds")]
				form := c.Choose(3, "expiry command")
				off := int64(c.Choose(10, "start offset")) * 101
				e := newSeq(c, baseConfig(), 1)
				defer e.s.end()
				e.s.w.NowNS += off * 1e6
				switch form {
				case 0:
					e.do(o("set k v"))
					e.do(oa("expire", "k", secs))
				case 1:
					e.do(o("set k v"))
					e.do(oa("expireat", "k", "NOW+"+secs))
				case 2:
					e.do(oa("setex", "k", secs, "v"))
				}
				for i := 0; i < 25; i++ {
					p := o("ttl k")
					p.late = 103
					e.do(p)
					e.do(o("get k"))
				}
			}},
			{Name: "extreme expiries", Shard: 2, Run: func(c *Ctx) {
				form := []string{"expire", "expireat", "setex"}[c.Choose(3, "command")]
				base := c.Choose(7, "boundary")
				off := int64(c.Choose(9, "distance")) - 4
				down := c.Choose(2, "restart") == 1
				e := newSeq(c, never(), 1)
				defer func() { e.s.end() }()
				now := e.s.w.NowMS()
				n := []int64{math.MaxInt64 / 1000, math.MinInt64 / 1000, (math.MaxInt64 - now) / 1000, math.MinInt64/1000 - now/1000, math.MaxInt32, math.MinInt32, now / 1000}[base] + off
				for _, v := range []int64{n, n * 1000, -n} {
					a := strconv.FormatInt(v, 10)
					if form == "setex" {
						e.do(oa("setex", "k", a, "v#"))
					} else {
						e.do(o("set k v#"))
						e.do(oa(form, "k", a))
					}
					e.do(o("get k"))
					e.do(o("ttl k"))
					e.do(o("keys *"))
					e.do(tick(1103))
					e.do(o("get k"))
					if down {
						e.restart()
						e.do(o("get k"))
						e.do(o("ttl k"))
					}
					e.do(o("del k"))
				}
				c.Sample(fmt.Sprintf("%s %d", form, n))
			}},
			seqPhase{ops: timeOps, depth: 5}.phase("sequences-5", "thorough", 6),
		},
	})

	register(&Check{
		ID:          "C16",
		Explanation: "For every type of the dead value, every way it was given its expiry, every write command of every type, with and without the collection running before and after, and every follow-up write: the result is compared with that of the same commands on a key that never existed, immediately and long after the old expiry; likewise expiry commands on missing keys.",
		Phases: []Phase{
			manyExpired,
			{Name: "write-expired", Shard: 3, Weight: 4, Run: func(c *Ctx) {
				kind := kinds[c.Choose(len(kinds), "type of the dead value")]
				form := c.Choose(3, "expiry command")
				wk := kinds[c.Choose(len(kinds), "type of the write")]
				ws := writesOf[wk]
				wr := ws[c.Choose(len(ws), "write")]
				when := []int64{2001, 2600, 90_000}[c.Choose(3, "time")]
				cron := c.Choose(2, "collection before the write") == 1
				again := c.Choose(3, "second write")
				if form == 2 && kind != "string" {
					return
				}
				others := c.Choose(2, "other expiring keys") * 20
				e := newSeq(c, baseConfig(), 1)
				defer e.s.end()
				for i := 0; i < others; i++ {
					e.do(oa("setex", "other"+itoa(i), "5000", "v"))
				}
				if form == 2 {
					e.do(o("setex k 2 v#"))
				} else {
					e.do(mkKey(kind, "k"))
					e.do(o(expireForms[form]))
				}
				p := o(wr)
				if cron {
					e.do(tick(when))
				} else {
					p.late = when
				}
				e.do(p)
				e.do(o("ttl k"))
				switch again {
				case 1:
					e.do(o(wr))
				case 2:
					e.do(o("expire k 100"))
				}
				e.s.compare(e.m, 0, "after writing to the expired key")
				e.do(tick(3001))
				for i := 0; i < 5; i++ {
					e.do(tick(7))
				}
				e.s.compare(e.m, 0, "some seconds after writing to the expired key")
				c.Sample(fmt.Sprintf("%s dead after %d ms, then %s", kind, when, wr))
			}},
			{Name: "removed", Shard: 3, Weight: 2, Run: func(c *Ctx) {
				kind := kinds[c.Choose(len(kinds), "type of the removed value")]
				how := emptying[kind][c.Choose(len(emptying[kind]), "how it was removed")]
				form := c.Choose(3, "expiry command")
				wk := kinds[c.Choose(len(kinds), "type of the write")]
				ws := append([]string{setKeyOf(wk)}, writesOf[wk]...)
				wr := ws[c.Choose(len(ws), "write")]
				when := []int64{0, 1503, 2503}[c.Choose(3, "time between")]
				down := c.Choose(2, "restart between") == 1
				if form == 2 && kind != "string" {
					return
				}
				others := c.Choose(2, "other expiring keys") * 20
				e := newSeq(c, never(), 1)
				defer func() { e.s.end() }()
				for i := 0; i < others; i++ {
					e.do(oa("setex", "other"+itoa(i), "5000", "v"))
				}
				if form == 2 {
					e.do(o("setex k 2 v#"))
				} else {
					e.do(mkKey(kind, "k"))
					e.do(o(expireForms[form]))
				}
				for _, q := range strings.Split(how, ";") {
					e.do(o(q))
				}
				if when > 0 {
					e.do(tick(when))
				}
				if down {
					e.restart()
				}
				e.do(o("keys *"))
				e.do(o(wr))
				e.do(o("ttl k"))
				e.s.compare(e.m, 0, "after writing to the removed key")
				e.do(tick(3001))
				for i := 0; i < 5; i++ {
					e.do(tick(7))
				}
				e.do(o("ttl k"))
				e.s.compare(e.m, 0, "some seconds after writing to the removed key")
				e.restart()
				e.s.compare(e.m, 0, "after a restart")
				c.Sample(fmt.Sprintf("%s with an expiry removed by %s, then %s", kind, how, wr))
			}},
			{Name: "expire-missing", Shard: 3, Weight: 2, Run: func(c *Ctx) {
				how := c.Choose(4, "why the key is missing")
				ex := []string{"expire k 2", "expireat k NOW+2", "expire k -1", "expireat k 5"}[c.Choose(4, "expiry command")]
				wk := kinds[c.Choose(len(kinds), "type of the write")]
				ws := writesOf[wk]
				wr := ws[c.Choose(len(ws), "write")]
				order := c.Choose(2, "time between")
				others := c.Choose(2, "other expiring keys") * 20
				e := newSeq(c, baseConfig(), 1)
				defer e.s.end()
				for i := 0; i < others; i++ {
					e.do(oa("setex", "other"+itoa(i), "5000", "v"))
				}
				switch how {
				case 1:
					e.do(o("rpush k x"))
					e.do(o("lpop k"))
				case 2:
					e.do(o("setex k 1 v"))
					e.do(tick(1503))
				case 3:
					e.do(o("setex k 1 v"))
					p := o(ex)
					p.late = 1503
					e.do(p)
				}
				e.do(o(ex))
				e.do(o("ttl k"))
				if order == 1 {
					e.do(tick(517))
				}
				e.do(o(wr))
				e.do(o("ttl k"))
				e.s.compare(e.m, 0, "after the write")
				e.do(tick(3001))
				for i := 0; i < 5; i++ {
					e.do(tick(7))
				}
				e.s.compare(e.m, 0, "some seconds after the write")
			}},
			seqPhase{ops: opsOf(`
				setex k 2 #
				rpush k #
				sadd k m
				expire k 2
				lpop k
				spop k
				set k #
				del k
				zadd k 1 m 2 n
				zrem k n m
				@late2503 rpush k #
				@late2503 sadd k m
				@late2503 lpop k
				@late2503 set k #
				@late2503 expire k 50
				@late2503 setex k 50 #
				@late2503 hset k f #
				@tick2507`), depth: 4}.phase("sequences-4", "", 4),
			seqPhase{ops: opsOf(`
				setex k 2 #
				rpush k #
				sadd k m
				expire k 2
				lpop k
				spop k
				set k #
				zadd k 1 m
				zrem k m
				del k
				@late2503 rpush k #
				@late2503 sadd k m
				@late2503 lpop k
				@late2503 set k #
				@late2503 expire k 50
				@late2503 setex k 50 #
				@late2503 hset k f #
				@tick2507`), depth: 5}.phase("sequences-5", "thorough", 4),
		},
	})

	dbCfg := func() config.Config {
		c := baseConfig()
		c.DatabaseNum = 3
		return c
	}
	dbOps := opsOf(`
		select 1
		select 2
		select 0
		select 3
		select -1
		select x
		set a #
		get a
		rpush l #
		lpop l
		setex e 2 #
		expire a 2
		ttl a
		keys *
		randomget
		del a
		sunion s
		@c1 select 1
		@c1 set a #
		@c1 get a
		@c1 keys *
		@c1 sadd s #
		@c1 @late2503 keys *
		@tick2507`)
	freshDB0 := func(e *seqEnv) {
		k := e.s.dial()
		k.do(e.m, "keys", "*")
		k.do(e.m, "set", "fresh", "1")
		for i := range e.k {
			e.do(op{cli: i, args: []string{"keys", "*"}})
		}
	}
	register(&Check{
		ID:          "C13",
		Explanation: "All operation sequences of two connections over three databases (SELECT of valid and invalid indexes, writes, expiries, reads, passing time), followed by a new connection that must be in database 0; every database read back at the end. Also SELECT of every boundary index for every configured number of databases, and every command in a non-default database with the same keys populated in the others.",
		Phases: []Phase{
			seqPhase{cfg: dbCfg, clients: 2, ops: dbOps, depth: 3, after: freshDB0}.phase("sequences-3", "", 2),
			seqPhase{clients: 2, ops: dbOps, depth: 3}.real(realMemory, "", 1),
			seqPhase{cfg: func() config.Config { c := dbCfg(); c.RequirePassword = "pw"; return c }, clients: 2, setups: [][]op{opsOf("auth pw\nselect 1\nset a #\n@c1 auth pw"), opsOf("select 1\n@c1 auth pw\n@c1 select 2\n@c1 set a #")},
				ops: opsOf(`
		auth pw
		auth no
		auth
		select 1
		select 2
		select 9
		set a #
		get a
		@c1 auth pw
		@c1 auth no
		@c1 select 0
		@c1 get a`), depth: 3}.phase("with a password", "", 2),
			seqPhase{clients: 2, ops: dbOps, depth: 4}.real(realMemory, "thorough", 2),
			seqPhase{cfg: dbCfg, clients: 2, setups: [][]op{opsOf("set a #\n@c1 select 2\n@c1 set a #\n@c1 expire a 2"), opsOf("select 1\nset a #\nexpire a 2\n@c1 set a #")},
				ops: dbOps, depth: 3, after: freshDB0}.phase("populated-3", "", 4),
			{Name: "indexes", Shard: 2, Weight: 1, Run: func(c *Ctx) {
				n := []int{0, 1, 2, 3, 16, 17, 100}[c.Choose(7, "databases")]
				idx := []string{"0", "1", "2", "3", "15", "16", "17", "99", "100", "-1", "-2", "", "a", "0x1", "1.0", " 1", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "4294967296", "65536", "256", "1e0"}
				i := idx[c.Choose(len(idx), "index")]
				before := c.Choose(2, "selected before")
				cfg := baseConfig()
				cfg.DatabaseNum = n
				e := newSeq(c, cfg, 2)
				defer e.s.end()
				if before == 1 {
					e.do(o("select 1"))
				}
				e.do(o("set a #"))
				e.do(oa("select", i))
				e.do(o("get a"))
				e.do(o("set b #"))
				e.do(on(1, "get a"))
				e.do(on(1, "keys *"))
				e.do(o("keys *"))
				e.s.compare(e.m, 0, "after selecting")
			}},
			{Name: "commands", Shard: 2, Weight: 2, Run: func(c *Ctx) {
				kind := kinds[c.Choose(len(kinds), "type")]
				cmds := append(append([]string{"expire k 2", "expireat k NOW+2", "ttl k", "del k", "keys *", "randomget", "set k n#", "setex k 5 n#"}, readsOf[kind]...), writesOf[kind]...)
				cmd := cmds[c.Choose(len(cmds), "command")]
				other := kinds[c.Choose(len(kinds), "type of the same key in the other databases")]
				exp := c.Choose(3, "which one expires")
				e := newSeq(c, dbCfg(), 3)
				defer e.s.end()
				e.do(on(1, "select 1"))
				e.do(on(2, "select 2"))
				for i := 0; i < 3; i++ {
					kd := other
					if i == 1 {
						kd = kind
					}
					p := mkKey(kd, "k")
					p.cli = i
					e.do(p)
					if exp > 0 && exp-1 == i {
						e.do(on(i, "expire k 3"))
					}
				}
				e.do(on(1, cmd))
				e.s.compare(e.m, 0, "after the command in database 1")
				e.do(tick(3503))
				for i := 0; i < 3; i++ {
					e.do(tick(5))
				}
				e.do(on(1, cmd))
				e.s.compare(e.m, 0, "after the command in database 1, later")
			}},
			seqPhase{cfg: dbCfg, clients: 2, ops: dbOps, depth: 4, after: freshDB0}.phase("sequences-4", "thorough", 6),
		},
	})

	register(&Check{
		ID:          "C17",
		Explanation: "For every number of keys, pattern of expiries (none, past, future) over two databases and every starting random outcome, the periodic collection runs over simulated time; afterwards the clock is set back to before the expiries, so that what is really stored becomes visible: exactly the expired keys must be gone, without any access. Sequences of writes between collections are enumerated, and the removals are checked to survive a restart from the append-only file.",
		Assumptions: []string{"The collection is given 400 periods (of 1 ms) to remove up to 40 expired keys; the statement only says eventually."},
		Phases: []Phase{
			{Name: "collect", Shard: 3, Weight: 4, Run: func(c *Ctx) {
				n := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 24, 33, 40}[c.Choose(15, "keys")]
				pat := c.Choose(6, "expiry pattern")
				db := c.Choose(2, "database")
				seed := c.Choose(4, "random outcomes")
				e := newSeq(c, baseConfig(), 1)
				defer e.s.end()
				w := e.s.w
				e.do(oa("select", itoa(db)))
				for i := 0; i < n; i++ {
					e.do(mkKey(kinds[i%5], "k"+itoa(i)))
				}
				for i := 0; i < n; i++ {
					var past, fut bool
					switch pat {
					case 0:
						past = true
					case 1:
						past = i%2 == 0
					case 2:
						past, fut = i%3 == 0, i%3 == 1
					case 3:
						fut = true
					case 4:
						past = i == n/2
						fut = !past
					}
					if past {
						e.do(oa("expire", "k"+itoa(i), itoa(1+i%3)))
					}
					if fut {
						e.do(oa("expire", "k"+itoa(i), "1000"))
					}
				}
				if seed < 2 {
					w.Rand.Counter = int64(seed * 3)
				} else {
					w.Rand.Seed(uint64(seed))
				}
				base := w.NowNS
				e.do(tick(5003))
				for i := 0; i < 400; i++ {
					if i == 5 {
						w.Rand.Counter = -1 // counting up is not fair in the long run
					}
					w.Net.Advance = 1
					e.s.step(e.s.t0)
					e.s.alive("cron")
				}
				gone := e.m.clone()
				for _, d := range gone.dbs {
					for k, v := range d {
						if v.dead(w.NowMS()) {
							delete(d, k)
						}
					}
				}
				// with the clock set back, an expired key that is still stored is visible
				w.NowNS = base
				e.s.compare(gone, 0, "after 400 collections (with the clock set back to see what is stored)")
				c.Sample(fmt.Sprintf("%d keys, pattern %d, db %d", n, pat, db))
			}},
			seqPhase{ops: opsOf(`
				set a #
				setex a 1 #
				rpush b #
				expire b 1
				expire a 900
				setex c 2 #
				select 1
				select 0
				lpop b
				set c #
				@tick501
				@tick1503
				@tick2507`), depth: 4, after: func(e *seqEnv) {
				for i := 0; i < 20; i++ {
					e.do(tick(1))
				}
			}}.phase("sequences-4", "", 3),
			{Name: "restart", Shard: 3, Weight: 3, Run: func(c *Ctx) {
				n := 1 + c.Choose(8, "keys")
				pat := c.Choose(3, "expiry pattern")
				again := c.Choose(6, "afterwards")
				db := c.Choose(2, "database")
				e := newSeq(c, aofConfig(config.TypeAppendFsyncNever), 1)
				if db == 1 {
					e.do(o("select 1"))
				}
				for i := 0; i < n; i++ {
					e.do(mkKey(kinds[i%5], "k"+itoa(i)))
					if pat == 0 || pat == 1 && i%2 == 0 {
						e.do(oa("expire", "k"+itoa(i), "2"))
					}
				}
				if again >= 4 { // the last write before the collection is in the other database
					e.do(oa("select", itoa(1-db)))
					e.do(o("set k0 other"))
				}
				e.do(tick(3001))
				for i := 0; i < 60; i++ {
					e.do(tick(1))
				}
				switch again {
				case 1:
					e.do(o("rpush k0 anew"))
				case 2:
					e.do(o("select 1"))
					e.do(o("set k0 other"))
				case 3:
					e.do(o("sadd k1 anew"))
					e.do(o("expire k1 800"))
				case 4:
					e.do(o("set k1 other"))
				case 5:
					e.do(oa("select", itoa(db)))
					e.do(o("rpush k1 anew"))
				}
				e.do(tick(2))
				e.restart()
				defer e.s.end()
				e.s.compare(e.m, 1000, "after a restart")
				for i := 0; i < 20; i++ {
					e.do(tick(101))
				}
				e.s.compare(e.m, 1000, "some time after a restart")
			}},
			{Name: "many", Shard: 2, Weight: 2, Run: func(c *Ctx) {
				n := []int{1, 150, 1030, 5000}[c.Choose(4, "keys with an expiry")]
				db := []int{0, 1, 15}[c.Choose(3, "database")]
				pat := c.Choose(3, "expiry pattern")
				cfg := baseConfig()
				cfg.DatabaseNum = 16
				e := newSeq(c, cfg, 1)
				defer e.s.end()
				e.do(oa("select", itoa(db)))
				ks := make([]string, n)
				for i := range ks {
					ks[i] = "k" + itoa(i)
					secs := "1"
					if pat == 1 && i%2 == 1 || pat == 2 && i != n/2 {
						secs = "90000"
					}
					e.do(oa("setex", ks[i], secs, "v"))
				}
				if pat == 1 { // some in every other database
					for i := 0; i < 16; i++ {
						e.do(oa("select", itoa(i)))
						e.do(o("setex a 1 x"))
						e.do(o("setex b 90000 x"))
					}
				}
				w := e.s.w
				base := w.NowNS
				e.do(tick(2003))
				for i := 0; i < 60+n*3/4; i++ { // 100 picks each
					w.Net.Advance = 1
					e.s.step(e.s.t0)
					e.s.alive("cron")
				}
				gone := e.m.clone()
				for _, d := range gone.dbs {
					for k, v := range d {
						if v.dead(w.NowMS()) {
							delete(d, k)
						}
					}
				}
				w.NowNS = base
				e.s.compare(gone, 0, "after the collections (with the clock set back to see what is stored)")
			}},
			{Name: "random", Shard: 2, Tier: "thorough", Weight: 3, Run: func(c *Ctx) {
				n := 1 + c.Choose(60, "keys")
				r := int64(c.Choose(130, "random outcome"))
				e := newSeq(c, baseConfig(), 1)
				defer e.s.end()
				for i := 0; i < n; i++ {
					e.do(oa("set", "k"+itoa(i), "#"))
					e.do(oa("expire", "k"+itoa(i), itoa(1+i%2*1000)))
				}
				e.s.w.Rand.Counter = r
				base := e.s.w.NowNS
				e.do(tick(2003))
				for i := 0; i < 30; i++ {
					e.s.w.Rand.Counter = r
					e.do(tick(1))
				}
				e.s.w.Rand.Counter = -1
				for i := 0; i < 300; i++ {
					e.do(tick(1))
				}
				gone := e.m.clone()
				for k, v := range gone.dbs[0] {
					if v.dead(e.s.w.NowMS()) {
						delete(gone.dbs[0], k)
					}
				}
				e.s.w.NowNS = base
				e.s.compare(gone, 0, "after the collections")
			}},
		},
	})
	_ = strings.Join
}
