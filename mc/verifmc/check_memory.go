//go:build go1.23

package main

import (
	"fmt"
	"reflect"
	"strings"
	"unsafe"

	rt "github.com/IfanTsai/metis/verifvrt"
)

// --- C37: memory held follows the data ---

// footprint is the number of bytes that v and what it refers to occupy, as far as the server's own
// data structures go (the closed world and the libraries are left out).
type footprint struct {
	seen map[unsafe.Pointer]bool
	sum  uint64 // with slices at their capacity
	used uint64 // with slices at their length
}

func measure(v any) (sum, used uint64) {
	f := footprint{seen: map[unsafe.Pointer]bool{}}
	f.walk(reflect.ValueOf(v))
	return f.sum, f.used
}

func (f *footprint) add(n uint64) {
	f.sum += n
	f.used += n
}

func foreign(t reflect.Type) bool {
	p := t.PkgPath()
	return strings.Contains(p, "/verifvrt") || strings.Contains(p, ".") && !strings.HasPrefix(p, "github.com/IfanTsai/metis")
}

func flat(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Array:
		return flat(t.Elem())
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if !flat(t.Field(i).Type) {
				return false
			}
		}
		return true
	case reflect.Ptr, reflect.Interface, reflect.Slice, reflect.Map, reflect.String, reflect.Func, reflect.Chan, reflect.UnsafePointer:
		return false
	}
	return true
}

func (f *footprint) first(p unsafe.Pointer) bool {
	if p == nil || f.seen[p] {
		return false
	}
	f.seen[p] = true
	return true
}

// walk adds what v refers to; the place that v itself takes is counted by who holds it.
func (f *footprint) walk(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || foreign(v.Type().Elem()) || !f.first(v.UnsafePointer()) {
			return
		}
		f.add(uint64(v.Type().Elem().Size()))
		f.walk(v.Elem())
	case reflect.Interface:
		if e := v.Elem(); e.IsValid() && !foreign(e.Type()) {
			if e.Kind() != reflect.Ptr {
				f.add(uint64(e.Type().Size()))
			}
			f.walk(e)
		}
	case reflect.Struct:
		if foreign(v.Type()) {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			f.walk(v.Field(i))
		}
	case reflect.Array:
		if !flat(v.Type()) {
			for i := 0; i < v.Len(); i++ {
				f.walk(v.Index(i))
			}
		}
	case reflect.Slice:
		if v.IsNil() || v.Cap() > 0 && !f.first(v.UnsafePointer()) {
			return
		}
		f.sum += uint64(v.Cap()) * uint64(v.Type().Elem().Size())
		f.used += (uint64(v.Len()) * uint64(v.Type().Elem().Size()))
		if !flat(v.Type().Elem()) {
			for i := 0; i < v.Len(); i++ {
				f.walk(v.Index(i))
			}
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		f.add(uint64(v.Len()) * uint64(v.Type().Key().Size()+v.Type().Elem().Size()))
		for it := v.MapRange(); it.Next(); {
			f.walk(it.Key())
			f.walk(it.Value())
		}
	case reflect.String:
		f.add(uint64(v.Len()))
	case reflect.Chan:
		if !v.IsNil() {
			f.add(uint64(v.Len()) * uint64(v.Type().Elem().Size()))
		}
	}
}

type memEnv struct {
	*seqEnv
	round int
	half  *rt.Conn // a client that has always sent a part of its next request
}

type memUse struct {
	name string
	run  func(e *memEnv)
}

func cmds(lines string) func(e *memEnv) {
	ops := opsOf(lines)
	return func(e *memEnv) { e.run(ops) }
}

// many repeats commands with # replaced by n numbers, others in each round, one loop after the other.
func many(n int, lines ...string) func(e *memEnv) {
	return func(e *memEnv) {
		for _, l := range lines {
			for i := 0; i < n; i++ {
				e.do(o(strings.ReplaceAll(l, "#", fmt.Sprintf("%d", 100000+1000*e.round+i))))
			}
		}
	}
}

var memUses = []memUse{
	{"keys set, replaced and deleted", many(20, "set k# a", "set k# b", "del k#")},
	{"keys set, replaced by other types", many(3, "set r# a", "sadd s# a", "set s# b", "del r#", "del s#")},
	{"keys that expire in the background", func(e *memEnv) {
		many(10, "setex x# 1 v")(e)
		for i := 0; i < 4; i++ {
			e.do(tick(1100))
		}
	}},
	{"keys found expired", func(e *memEnv) {
		many(5, "setex y# 1 v")(e)
		e.s.w.NowNS += 2001e6
		many(5, "get y#")(e)
	}},
	{"expiries of missing keys, set and dropped expiries", cmds(`
		expire none 100
		expireat none 1
		set a 1
		expire a 100
		set a 2
		expire a 0
		setex b 100 x
		setex b 200 y
		del b
		expire l 100
		expireat l 99999999999`)},
	{"a queue, pushed at the back", many(5, "rpush q a b c d", "lpop q", "lpop q", "lpop q", "lpop q")},
	{"a queue, pushed at the front", many(5, "lpush q a b c d", "rpop q", "rpop q", "rpop q", "rpop q")},
	{"a long queue that never empties", func(e *memEnv) {
		many(300, "rpush lq value-of-some-length x y z", "lpop lq", "lpop lq", "lpop lq", "lpop lq")(e)
	}},
	{"a list of several pages, filled at the front, emptied at the back", func(e *memEnv) {
		args := []string{"lpush", "pages"}
		for i := 0; i < 1100; i++ {
			args = append(args, "e")
		}
		e.do(oa(args...))
		e.do(o("rpush pages last"))
		many(1090, "rpop pages")(e)
		e.do(o("lrange pages 0 3"))
		many(11, "lpop pages")(e)
	}},
	{"expiring keys deleted", many(20, "setex d# 1000 v", "del d#")},
	{"expiring keys emptied and replaced", many(12, "rpush w# a", "expire w# 1000", "lpop w#", "setex w# 1000 v", "set w# v", "del w#")},
	{"live fields, members and keys written again and again", func(e *memEnv) {
		for _, n := range []int{1, 4, 5, 8, 16, 33, 64} {
			for i := 0; i < 2+n; i++ {
				v := itoa(i % n)
				e.do(oa("hset", "h"+itoa(n), v, "v"))
				e.do(oa("sadd", "s"+itoa(n), v))
				e.do(oa("zadd", "z"+itoa(n), v, v))
			}
		}
		for i := 0; i < 64; i++ {
			e.do(oa("hset", "h64", itoa(i), "v"))
			e.do(oa("setex", "live"+itoa(i), "1000", "v"))
		}
	}},
	{"a stack", many(20, "lpush st a", "lpop st", "rpush st a", "rpop st")},
	{"fields set and deleted", many(20, "hset h f# a keep v", "hset h f# b", "hdel h f#")},
	{"members added, removed and popped", func(e *memEnv) {
		many(20, "sadd s m#", "srem s m#")(e)
		many(20, "sadd s m#")(e)
		many(20, "spop s")(e)
	}},
	{"scored members added, moved and removed", many(20, "zadd z # m#", "zadd z 5 m#", "zrem z m#")},
	{"scored members removed by rank and score", func(e *memEnv) {
		many(20, "zadd z # m#")(e)
		cmds("zremrangebyrank z 0 9\nzremrangebyscore z -inf +inf")(e)
	}},
	{"reads", cmds(`
		keys *
		randomget
		get k0
		lrange lq 0 -1
		sunion s h
		sunion s none
		zrange z 0 -1
		hkeys h
		ttl a
		select 1
		keys *
		select 0`)},
	{"errors", cmds("nosuch\nlpush a\nzadd z nan m\nselect 99\nhset a f v\nauth no\nexpire a x")},
	{"a client that comes and goes", func(e *memEnv) { visit(string(encode("get", "a")), func(k *rt.Conn) { k.Close() })(e.seqEnv) }},
	{"a client that goes with half a request", func(e *memEnv) { visit("*2\r\n$3\r\nget\r\n$400\r\nxxxxx", func(k *rt.Conn) { k.Close() })(e.seqEnv) }},
	{"a client that goes with replies unsent", func(e *memEnv) {
		k := e.open()
		e.s.settle()
		k.OutFull = true
		k.Send(encode("lrange", "lq", "0", "-1"))
		k.Send(encode("ping"))
		e.s.settle()
		k.Close()
		k.OutFull = false
		e.s.settle()
	}},
	{"a slow reader", func(e *memEnv) {
		k := e.k[1].conn
		n := len(k.Out)
		k.OutFull = true
		for i := 0; i < 10; i++ {
			k.Send(encode("set", "a", "0123456789"))
			k.Send(encode("get", "a"))
		}
		e.s.settle()
		k.OutFull = false
		e.s.settle()
		if len(k.Out) != n+10*(5+17) {
			e.c.Fail("a slow reader gets %d bytes instead of %d", len(k.Out)-n, 10*(5+17))
		}
		e.k[1].off = len(k.Out)
		if err := e.m.exec(&e.k[1].st, []string{"set", "a", "0123456789"}, Reply{T: '+', S: "OK"}, e.s.w.NowMS()); err != nil {
			e.c.Fail("%v", err)
		}
	}},
	{"a client that always has half a request pending", func(e *memEnv) {
		for i := 0; i < 30; i++ {
			n := len(e.half.Out)
			e.half.Send([]byte("\r\nnone\r\n*2\r\n$3\r\nget\r\n$4"))
			e.s.settle()
			if got := string(e.half.Out[n:]); got != "$-1\r\n" {
				e.c.Fail("a request in two parts is answered with %q", got)
			}
		}
	}},
	{"large requests", func(e *memEnv) {
		e.do(oa("set", "big", fill(70000)))
		e.do(oa("set", "big", fill(100)))
	}},
	{"inline requests", func(e *memEnv) {
		for i := 0; i < 5; i++ {
			e.k[1].conn.Send([]byte("xping\r\n"))
			e.s.settle()
			e.k[1].off = len(e.k[1].conn.Out)
		}
	}},
	{"writes and fsyncs", cmds("set a 1\n@tick1100\nset a 2\n@tick1100")},
	{"a rewrite", cmds("set a 1\nbgrewriteaof\nset a 2\n@tick2\n@tick2")},
	{"a rewrite with writes meanwhile", func(e *memEnv) {
		e.s.noBG = true
		cmds("bgrewriteaof\nset a 1\nrpush q x\nbgrewriteaof\ndel q\n@tick2")(e)
		e.s.noBG = false
		e.s.settle()
		cmds("@tick2\n@tick2")(e)
	}},
	{"nothing", cmds("@tick101\n@tick1003")},
}

func memPhase(depth int) func(c *Ctx) {
	return func(c *Ctx) {
		aof := c.Choose(2, "append-only file") == 1
		cfg := baseConfig()
		if aof {
			cfg = aofConfig(policies[2])
		}
		var us []memUse
		for i := 0; i < depth; i++ {
			us = append(us, memUses[c.Choose(len(memUses), "use")])
		}
		se := newSeq(c, cfg, 2)
		defer func() { se.s.end() }()
		e := &memEnv{seqEnv: se}
		e.half = e.open()
		e.half.Send([]byte("*2\r\n$3\r\nget\r\n$4"))
		e.s.settle()
		many(100, "rpush lq value-#")(e)
		var what []string
		for _, u := range us {
			what = append(what, u.name)
		}
		c.Logf("again and again: %s", strings.Join(what, "; "))
		const rounds, warm = 14, 4
		var sizes, used []uint64
		for i := 0; i < rounds; i++ {
			tr := c.tracing
			c.tracing = tr && i == 0
			e.round = i
			for _, u := range us {
				u.run(e)
			}
			e.do(tick(1100))
			e.do(tick(1100))
			c.tracing = tr
			n, u := measure(e.s.s)
			c.Logf("round %d: %d bytes, %d of them in use", i, n, u)
			sizes, used = append(sizes, n), append(used, u)
		}
		growing := true
		for i := warm + 1; i < rounds; i++ {
			growing = growing && used[i] > used[i-1]
		}
		if growing {
			c.Fail("the memory held grows with every round of: %s (%v bytes)", strings.Join(what, "; "), used[warm:])
		}
		if n, early := sizes[rounds-1], sizes[2]; n > early+early*2/5 {
			c.Fail("the memory held grows from %d to %d bytes in %d rounds of: %s", early, n, rounds-3, strings.Join(what, "; "))
		}
		e.s.compare(e.m, 1000, "after the rounds")
		c.State(fmt.Sprint(us[0].name, sizes[rounds-1]))
		c.Sample(fmt.Sprintf("%s: %v", strings.Join(what, "; "), sizes))
	}
}

func init() {
	register(&Check{
		ID:          "C37",
		Explanation: "Every sequence up to the stated length of uses of the server (data of every type created, changed and removed in every way, expiries, requests in parts, slow and vanishing clients, errors, rewrites, fsyncs) is repeated again and again, after each round the memory that the server's own structures occupy is measured by walking them: it must stop growing.",
		Phases: []Phase{
			{Name: "uses-1", Shard: 2, Weight: 1, Run: memPhase(1)},
			{Name: "uses-2", Shard: 3, Weight: 6, Run: memPhase(2)},
			{Name: "uses-3", Tier: "thorough", Shard: 3, Weight: 8, Run: memPhase(3)},
		},
	})
}
