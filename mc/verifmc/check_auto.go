//go:build go1.23

package main

import (
	"fmt"

	"github.com/IfanTsai/metis/config"
	rt "github.com/IfanTsai/metis/verifvrt"
)

// rwWatch observes rewrites from outside: a new file appears, and later the append-only file is replaced.
type rwWatch struct {
	c       *Ctx
	s       *Srv
	path    string
	seen    int // effects looked at
	started int
	done    int
	base    int64
	running bool
	written int // rewrites done when padTo last wrote
}

func watch(s *Srv) *rwWatch {
	return &rwWatch{c: s.c, s: s, path: rt.Abs(s.cfg.AofFilename), base: 1}
}

func (r *rwWatch) look() {
	for ; r.seen < len(r.s.w.Log); r.seen++ {
		e := r.s.w.Log[r.seen]
		switch {
		case e.Kind == rt.ECreate && e.Path != r.path:
			if r.running {
				r.c.Fail("a second rewrite starts (%s) while one is running", e)
			}
			r.running = true
			r.started++
			r.c.Logf("a rewrite starts: %s", e)
		case e.Kind == rt.ERename && e.Path2 == r.path:
			r.running = false
			r.done++
			r.c.Logf("a rewrite completes")
		}
	}
}

func (r *rwWatch) size() int64 {
	if i := r.s.w.FS.Files[r.path]; i != nil {
		return int64(len(i.Data))
	}
	return 0
}

func (r *rwWatch) due() bool {
	g := r.s.cfg
	return g.AofEnable && g.AofRewritePercent > 0 && r.size() > int64(g.AofRewriteMinSize) &&
		r.size()*100 >= int64(100+g.AofRewritePercent)*r.base
}

// quiesce lets the periodic task run a few times and checks that a rewrite happens exactly if one is due.
func (r *rwWatch) quiesce() {
	r.look()
	for i := 0; i < 3; i++ {
		want, before, size, base := r.due(), r.done, r.size(), r.base
		for j := 0; j < 3; j++ {
			r.s.tick(2)
			r.look()
		}
		if r.running {
			r.c.Fail("the rewrite does not end")
		}
		n := r.done - before
		if want && n == 0 {
			r.c.Fail("no rewrite starts although the file has %d bytes (minimum %d), %d after the last rewrite (percentage %d)",
				size, r.s.cfg.AofRewriteMinSize, base, r.s.cfg.AofRewritePercent)
		}
		if !want && n > 0 {
			r.c.Fail("a rewrite starts although the file has %d bytes (minimum %d), %d after the last rewrite (percentage %d)",
				size, r.s.cfg.AofRewriteMinSize, base, r.s.cfg.AofRewritePercent)
		}
		if n > 1 {
			r.c.Fail("%d rewrites at one occasion", n)
		}
		if n == 1 {
			r.base = max(r.size(), 1)
		}
		if !want {
			return
		}
	}
}

// padTo sends a SET that makes the append-only file exactly n bytes long, if that is possible.
func padTo(k *Cli, r *rwWatch, n int64) bool {
	room := n - r.size()
	if r.written != r.done { // the first write after a rewrite is preceded by SELECT
		room -= int64(len(encode("select", "0")))
	}
	for kl := 1; kl <= 3; kl++ {
		key := fill(kl)
		empty := len(encode("set", key, ""))
		for vl := max(0, int(room)-empty-6); vl <= int(room)-empty; vl++ {
			if empty-1+len(itoa(vl))+vl == int(room) {
				k.raw("set", key, fill(vl))
				r.written = r.done
				return true
			}
		}
	}
	return false
}

func init() {
	pcts := []uint{1, 10, 50, 100, 150, 300}
	mins := []uint{0, 1, 100, 500}
	rwCfg := func(pct, min uint) config.Config {
		cfg := aofConfig(config.TypeAppendFsyncNever)
		cfg.AofRewritePercent, cfg.AofRewriteMinSize = pct, min
		return cfg
	}
	register(&Check{ID: "C31", Explanation: "The real server runs with every combination of growth percentage and minimum size over all sequences of writes that grow the file by small and large amounts, without growing the data, manual rewrites and restarts; sizes are also steered to one byte below, at and above each threshold. The start of a rewrite is observed from outside as the creation of a file and the replacement of the append-only file, and compared with the stated condition at every step. A rewrite that is held in progress is combined with every order of further writes, timer runs and rewrite requests.",
		Assumptions: []string{"the periodic task that decides about rewrites runs every few milliseconds"},
		Phases: []Phase{
			{Name: "growth", Shard: 3, Weight: 2, Run: func(c *Ctx) {
				cfg := rwCfg(pcts[c.Choose(len(pcts), "percentage")], mins[c.Choose(len(mins), "minimum")])
				var fs *rt.FS
				if k := c.Choose(3, "existing file"); k > 0 {
					fs = rt.NewFS()
					data := encodeAll([][]string{f("select 0"), {"set", "old", fill(60)}, {"set", "old", fill(61)}})
					if k == 2 { // it ends in a large incomplete command
						torn := encode("set", "torn", fill(3000))
						data = append(data, torn[:len(torn)-1]...)
					}
					fs.Files[aofPath] = &rt.Inode{ID: 1000, Data: data}
				}
				s := bootRec(c, fs, cfg, 0)
				defer func() { s.end() }()
				r := watch(s)
				r.quiesce()
				k := s.dial()
				for i := 0; i < 4; i++ {
					switch c.Choose(6, "operation") {
					case 0:
						k.raw("set", "a", fill(5))
					case 1:
						k.raw("rpush", "l"+itoa(i), fill(200))
					case 2:
						k.raw("set", "b", fill(300))
					case 3:
						k.raw("get", "a")
					case 4:
						k.raw("bgrewriteaof")
						for j := 0; j < 3; j++ {
							s.tick(2)
						}
						before := r.done
						r.look()
						c.Check(r.done == before+1, "BGREWRITEAOF leads to %d rewrites", r.done-before)
						r.base = max(r.size(), 1)
					case 5:
						s.w.Kill()
						s = bootRec(c, s.w.FS, cfg, s.w.NowNS)
						r = watch(s)
						k = s.dial()
					}
					r.quiesce()
				}
				c.State(fmt.Sprint(cfg.AofRewritePercent, cfg.AofRewriteMinSize, r.base, r.size()))
				c.Sample(fmt.Sprintf("percentage %d, minimum %d: %d rewrites, size %d, base %d", cfg.AofRewritePercent, cfg.AofRewriteMinSize, r.done, r.size(), r.base))
			}},
			{Name: "thresholds", Shard: 3, Run: func(c *Ctx) {
				more := append([]uint{299, 1000, 1001, 5000, 40000}, pcts...)
				pct, min := more[c.Choose(len(more), "percentage")], []uint{0, 100, 200, 500, 1000}[c.Choose(5, "minimum")]
				s := bootRec(c, nil, rwCfg(pct, min), 0)
				defer s.end()
				r := watch(s)
				k := s.dial()
				// the first rewrite gives a base of b bytes
				switch c.Choose(3, "data") {
				case 0:
					k.raw("set", "x", fill(10))
				case 1:
					k.raw("set", "x", fill(150))
				case 2:
					k.raw("rpush", "x", fill(100), fill(333))
				}
				r.quiesce()
				k.raw("bgrewriteaof")
				for j := 0; j < 3; j++ {
					s.tick(2)
				}
				r.look()
				r.base = r.size()
				r.quiesce()
				for round := 0; round < 2; round++ {
					grown := (int64(100+pct)*r.base + 99) / 100 // the first size that has grown enough
					first := max(grown, int64(min)+1)           // and above the minimum
					b := []int64{first, grown, int64(min) + 1}[c.Choose(3, "threshold")]
					d := int64(c.Choose(5, "offset")) - 2
					if b+d <= r.size() || !padTo(k, r, b+d) {
						return
					}
					if r.size() == b+d {
						c.State(fmt.Sprint("at a threshold", pct, min, b, d))
					}
					r.quiesce()
				}
			}},
			{Name: "held", Shard: 4, Weight: 2, Run: func(c *Ctx) {
				s := bootRec(c, nil, rwCfg(100, 50), 0)
				defer s.end()
				s.noBG = true
				r := watch(s)
				k := s.dial()
				n := 0
				for i := 0; i < 7; i++ {
					switch c.Choose(5, "operation") {
					case 0:
						k.raw("set", "a", fill(120))
					case 1:
						s.tick(3)
					case 2:
						if r.running {
							n++
						}
						if rep := k.raw("bgrewriteaof"); rep.T != '+' {
							c.Fail("BGREWRITEAOF answers %s", rep)
						}
					case 3: // a little progress of the rewrite
						if t := s.bgEnabled(); t != nil {
							s.step(t)
							s.alive("rewrite")
						}
					case 4: // all of it
						for t := s.bgEnabled(); t != nil; t = s.bgEnabled() {
							s.step(t)
							s.alive("rewrite")
						}
					}
					r.look()
				}
				// let everything end; then a new one can run
				s.noBG = false
				s.tick(2)
				s.tick(2)
				s.tick(2)
				r.look()
				c.Check(!r.running, "the rewrite does not end")
				before := r.started
				k.raw("bgrewriteaof")
				s.tick(2)
				s.tick(2)
				r.look()
				c.Check(r.started == before+1 && !r.running, "after a completed rewrite a new one does not run")
				r.base = r.size()
				r.quiesce()
				padTo(k, r, 2*r.base)
				r.quiesce()
			}},
			{Name: "large files", Shard: 3, Weight: 2, Run: func(c *Ctx) {
				n := []int{21_500_000, 43_000_000}[c.Choose(2, "bytes")]
				pct := []uint{50, 100}[c.Choose(2, "percentage")]
				min := []uint{0, 64 << 20, 5 << 30}[c.Choose(3, "minimum")]
				s := bootRec(c, nil, rwCfg(pct, min), 0)
				defer s.end()
				r := watch(s)
				k := s.dial()
				k.raw("set", "x", fill(n))
				r.quiesce()
				s.w.Log = append(s.w.Log[:0:0], s.w.Log[r.seen:]...)
				r.seen = 0
				k.raw("set", "y", "1")
				r.quiesce()
				k.raw("set", "y", fill(n+n/10))
				r.quiesce()
			}},
			{Name: "off", Shard: 2, Run: func(c *Ctx) {
				cfg := rwCfg(0, mins[c.Choose(len(mins), "minimum")])
				if c.Choose(2, "append-only file") == 1 {
					cfg.AofEnable = false
					cfg.AofRewritePercent = []uint{0, 1, 100}[c.Choose(3, "percentage")]
				}
				s := bootRec(c, nil, cfg, 0)
				defer s.end()
				k := s.dial()
				for i := 0; i < 4; i++ {
					switch c.Choose(3, "operation") {
					case 0:
						k.raw("set", "a", fill(400))
					case 1:
						s.tick(1501)
					case 2:
						for j := 0; j < 20; j++ {
							k.raw("rpush", "l", fill(100))
						}
					}
					s.tick(2)
					s.tick(2)
					for _, e := range s.w.Log {
						if e.Kind == rt.ERename || e.Kind == rt.ECreate && (!cfg.AofEnable || e.Path != aofPath) {
							c.Fail("rewriting is off but the server does: %s", e)
						}
					}
				}
			}},
			{Name: "long", Tier: "thorough", Shard: 4, Weight: 6, Run: func(c *Ctx) {
				cfg := rwCfg(pcts[c.Choose(len(pcts), "percentage")], mins[c.Choose(len(mins), "minimum")])
				s := bootRec(c, nil, cfg, 0)
				defer func() { s.end() }()
				r := watch(s)
				k := s.dial()
				for i := 0; i < 8; i++ {
					switch c.Choose(5, "operation") {
					case 0:
						k.raw("set", "a", fill(7))
					case 1:
						k.raw("set", "a", fill(90))
					case 2:
						k.raw("rpush", "l", fill(150))
					case 3:
						k.raw("set", "l", fill(3))
					case 4:
						s.w.Kill()
						s = bootRec(c, s.w.FS, cfg, s.w.NowNS)
						r = watch(s)
						k = s.dial()
					}
					r.quiesce()
				}
			}},
		}})
}
