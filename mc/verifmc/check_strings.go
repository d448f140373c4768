//go:build go1.23

package main

import "strings"

func init() {
	alpha := opsOf(`
		set a x#
		set a ""
		set b #
		get a
		get b
		setex a 10 y#
		setex b 3 y#
		lpush a l#
		hset a f #
		expire a 5
		@late4000 get a
		@tick4500
		@late6000 set a z#
		@late6000 setex a 100 w#
		ttl a
		lrange a 0 -1`)
	lens := func(c *Ctx, max int, step func(int) bool) {}
	_ = lens
	register(&Check{
		ID: "C07",
		Explanation: "All sequences up to the stated depth over an alphabet of SET/GET/SETEX/expiry/wrong-type operations, each executed on the implementation " +
			"in a closed world and compared reply by reply, and key by key at the end, with a map model; plus every value and key length across the internal buffer sizes and all byte values and byte pairs.",
		Phases: []Phase{
			seqPhase{ops: alpha, depth: 3}.phase("sequences-3", "", 1),
			seqPhase{ops: alpha, depth: 4}.phase("sequences-4", "", 2),
			seqPhase{ops: alpha, depth: 3}.real(realMemory, "", 1),
			seqPhase{ops: alpha, depth: 4}.real(realMemory, "thorough", 2),
			{Name: "lengths", Shard: 1, Weight: 2, Run: func(c *Ctx) {
				block := c.Choose(64, "block of 150 lengths")
				where := c.Choose(2, "value or key")
				e := newSeq(c, baseConfig(), 1)
				defer e.s.end()
				for n := block * 150; n < (block+1)*150; n++ {
					v := strings.Repeat("v", n)
					if n > 2 {
						v = v[:n-3] + "\r\n\x00"
					}
					if where == 0 {
						e.do(oa("set", "k", v))
						e.do(oa("get", "k"))
					} else {
						e.do(oa("set", v, "x#"))
						e.do(oa("get", v))
					}
				}
				if where == 0 {
					e.s.compare(e.m, 0, "after storing values of all lengths of the block")
				}
			}},
			{Name: "big", Shard: 2, Run: func(c *Ctx) {
				sizes := []int{100, 4096, 16383, 16384, 16385, 32767, 32768, 65533, 65534, 65535, 65536, 65537, 65538, 69632, 131071, 131072, 131073, 1 << 20, 1<<20 + 1, 3 << 20}
				n := sizes[c.Choose(len(sizes), "size")]
				cmd := c.Choose(2, "command")
				e := newSeq(c, baseConfig(), 1)
				defer e.s.end()
				b := make([]byte, n)
				for i := range b {
					b[i] = byte(i*7 + i>>8)
				}
				if last := c.Choose(5, "last byte"); last > 0 {
					b[n-1] = "\n\r\x00 "[last-1]
				}
				if cmd == 0 {
					e.do(oa("set", "k", string(b)))
				} else {
					e.do(oa("setex", "k", "100", string(b)))
				}
				e.do(oa("get", "k"))
				e.do(oa("set", "k2", "small"))
				e.do(oa("get", "k"))
				e.do(oa("get", "k2"))
				e.do(oa("set", "k", "tiny"))
				e.do(oa("get", "k"))
				c.Sample("value of " + op{args: []string{"set", "k", string(b)}}.String())
			}},
			{Name: "bytes", Shard: 1, Run: func(c *Ctx) {
				hi := c.Choose(256, "first byte")
				e := newSeq(c, baseConfig(), 1)
				defer e.s.end()
				for lo := 0; lo < 256; lo++ {
					p := string([]byte{byte(hi), byte(lo)})
					e.do(oa("set", p, p+"!"))
				}
				for lo := 0; lo < 256; lo++ {
					e.do(oa("get", string([]byte{byte(hi), byte(lo)})))
				}
				e.do(oa("set", string([]byte{byte(hi)}), string([]byte{byte(hi)})))
				e.do(oa("get", string([]byte{byte(hi)})))
				e.do(oa("keys", "*"))
			}},
			seqPhase{ops: alpha, depth: 5}.phase("sequences-5", "thorough", 8),
		},
	})
}
