//go:build go1.23

package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"github.com/IfanTsai/metis/config"
)

// Operation sequences of the simulated world carried out by the unmodified binary, over loopback
// sockets and real files: what the simulation assumes about the kernel, the clock, the files and the
// random numbers is thereby held against the real ones.

type realMode int

const (
	realMemory  realMode = iota // no append-only file; one process serves many sequences
	realKill                    // append-only file, SIGKILL and restart after the sequence
	realTorn                    // as realKill, with the last command cut short
	realRewrite                 // a rewrite before the last command, then SIGKILL and restart
)

const realDBs = 3

// realable tells whether an operation means the same in real time.
func realable(p op) bool {
	if p.late > 0 || p.tick > 0 || len(p.args) == 0 || strings.EqualFold(p.args[0], "ttl") {
		return false
	}
	sec := ""
	switch strings.ToLower(p.args[0]) {
	case "expire", "setex", "expireat":
		if len(p.args) > 2 {
			sec = p.args[2]
		}
	case "set":
		if len(p.args) == 5 {
			sec = p.args[4]
		}
	}
	now := strings.HasPrefix(sec, "NOW")
	if n, err := strconv.ParseInt(strings.TrimPrefix(sec, "NOW"), 10, 64); err == nil && (now || !strings.EqualFold(p.args[0], "expireat")) {
		return n < 0 || n >= 30
	}
	return true
}

func realOps(ops []op) []op {
	var r []op
	for _, p := range ops {
		if realable(p) {
			r = append(r, p)
		}
	}
	return r
}

type realEnv struct {
	c    *Ctx
	cfg  config.Config
	m    *Model
	r    *Real
	addr string
	k    []*RCli
	uid  int
}

// shared is the process that serves the sequences of this worker in mode realMemory.
var shared struct {
	r    *Real
	addr string
	pw   string
}

func (e *realEnv) file(aof bool, password string) []string {
	l := []string{fmt.Sprintf("databases = %d", realDBs)}
	if password != "" {
		l = append(l, "requirepass = "+strconv.Quote(password))
	}
	if aof {
		l = append(l, "appendonly = true", "appendfilename = \"a.aof\"", "appendfsync = \"no\"")
	}
	return l
}

// boot starts a process in dir.
func (e *realEnv) boot(dir string, file []string) {
	port := freePort()
	e.addr = "127.0.0.1:" + strconv.Itoa(port)
	writeFile(filepath.Join(dir, "c.toml"), realConfig("127.0.0.1", port, file...))
	e.r = startReal(e.c, dir, "-c", "c.toml")
}

func (e *realEnv) subst(args []string) []string {
	out := make([]string, len(args))
	for i, a := range args {
		if strings.Contains(a, "#") {
			e.uid++
			a = strings.ReplaceAll(a, "#", strconv.Itoa(e.uid))
		}
		if strings.HasPrefix(a, "NOW+") || strings.HasPrefix(a, "NOW-") {
			d, _ := strconv.ParseInt(a[3:], 10, 64)
			a = strconv.FormatInt(time.Now().Unix()+d, 10)
		}
		out[i] = a
	}
	return out
}

func (e *realEnv) dial(n int) {
	for i := range e.k {
		e.k[i].close()
	}
	e.k = nil
	for i := 0; i < n; i++ {
		e.k = append(e.k, e.r.dial(e.addr, true))
	}
}

func (e *realEnv) compare(what string) {
	k := e.r.dial(e.addr, true)
	defer k.close()
	if p := e.cfg.RequirePassword; p != "" {
		k.raw("auth", p)
	}
	got := newModel(e.cfg)
	dumpAll(e.c, got, k.raw, func() int64 { return time.Now().UnixMilli() })
	if d := e.m.diff(got, time.Now().UnixMilli(), 2000); d != "" {
		e.c.Fail("real server: %s: %s", what, d)
	}
}

// wipe empties the databases for the next sequence.
func (e *realEnv) wipe() {
	k := e.r.dial(e.addr, true)
	defer k.close()
	if p := e.cfg.RequirePassword; p != "" {
		k.raw("auth", p)
	}
	for db := 0; db < realDBs; db++ {
		k.raw("select", strconv.Itoa(db))
		if r := k.raw("keys", "*"); len(r.A) > 0 {
			args := []string{"del"}
			for _, x := range r.A {
				args = append(args, x.S)
			}
			k.raw(args...)
		}
	}
}

// realSeq runs every sequence of the operations that mean the same in real time.
func realSeq(mode realMode, password string, clients int, setups [][]op, ops []op, depth int) func(c *Ctx) {
	ops = realOps(ops)
	var ss [][]op
	seen := map[string]bool{}
	for _, s := range setups {
		s = realOps(s)
		if k := fmt.Sprint(s); !seen[k] {
			seen[k] = true
			ss = append(ss, s)
		}
	}
	return func(c *Ctx) {
		var setup []op
		if len(ss) > 0 {
			setup = ss[c.Choose(len(ss), "setup")]
		}
		seq := choosePick(c, ops, depth)
		cfg := config.Config{DatabaseNum: realDBs, AofEnable: mode != realMemory, RequirePassword: password}
		e := &realEnv{c: c, cfg: cfg, m: newModel(cfg)}
		n := max(clients, 1)
		if mode == realMemory {
			e.share(password)
			ok := false
			defer func() {
				for _, k := range e.k {
					k.close()
				}
				if !ok { // whatever state it is in is not the next sequence's
					shared.r.kill()
					shared.r = nil
				}
			}()
			e.dial(n)
			for _, p := range append(append([]op{}, setup...), seq...) {
				e.k[p.cli].do(e.m, e.subst(p.args)...)
			}
			e.compare("after the sequence")
			e.wipe()
			ok = true
			return
		}
		dir := c.scratch()
		defer os.RemoveAll(dir)
		boot := func() { e.boot(dir, e.file(true, password)) }
		boot()
		defer func() { e.r.kill() }()
		e.dial(n)
		do := func(p op) { e.k[p.cli].do(e.m, e.subst(p.args)...) }
		for _, p := range setup {
			do(p)
		}
		aof := filepath.Join(dir, "a.aof")
		for i, p := range seq {
			if mode == realRewrite && i == depth-1 {
				before, err := os.Stat(aof)
				if err != nil {
					c.Fail("real server: %v", err)
				}
				e.k[0].do(e.m, "bgrewriteaof")
				do(p)
				for t := 0; ; t++ {
					now, err := os.Stat(aof)
					if err == nil && !os.SameFile(before, now) {
						break
					}
					if t > 1000 {
						c.Fail("real server: the append-only file is not replaced 10 s after BGREWRITEAOF")
					}
					time.Sleep(10 * time.Millisecond)
				}
				continue
			}
			do(p)
		}
		if mode == realRewrite {
			e.k[0].do(e.m, "set", "last", "v")
		}
		if mode == realTorn {
			// the model of everything but the last command, whose bytes are cut
			before, err := os.Stat(aof)
			if err != nil {
				c.Fail("real server: %v", err)
			}
			e.k[0].raw("rpush", "torn", "x")
			for t := 0; t < 500; t++ { // the reply follows the write to the file
				if now, _ := os.Stat(aof); now != nil && now.Size() > before.Size() {
					break
				}
				time.Sleep(time.Millisecond)
			}
			e.r.kill()
			b, err := os.ReadFile(aof)
			if err != nil {
				c.Fail("real server: %v", err)
			}
			cut := []int{1, 2, 5, 9, 17}[c.Choose(5, "bytes lost")]
			if err := os.Truncate(aof, int64(len(b)-cut)); err != nil {
				panic("verifmc: " + err.Error())
			}
		}
		e.r.kill()
		e.r.log.Close()
		boot()
		e.k = nil
		e.dial(n)
		e.compare("after a SIGKILL and a restart")
		e.k[0].do(e.m, "set", "more", "v")
		e.k[0].do(e.m, "rpush", "morel", "v")
		e.r.kill()
		boot()
		e.k = nil
		e.compare("after a second SIGKILL and restart")
		c.Sample(fmt.Sprint(setup, seq))
	}
}

// real is the phase that carries the sequences out on the unmodified binary.
func (p seqPhase) real(mode realMode, tier string, weight float64) Phase {
	name := []string{"real binary", "real binary, killed", "real binary, torn file", "real binary, rewritten"}[mode]
	if tier == "thorough" {
		name += ", longer"
	}
	pw := ""
	if p.cfg != nil {
		pw = p.cfg().RequirePassword
	}
	return Phase{Name: name, Tier: tier, Weight: weight, Shard: 2, Run: realSeq(mode, pw, p.clients, p.setups, p.ops, p.depth)}
}
