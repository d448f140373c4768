//go:build go1.23

package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/IfanTsai/metis/config"
	rt "github.com/IfanTsai/metis/verifvrt"
)

// setting is one key of the configuration file: the literal values to try (nil: the key is absent)
// and what each of them means.
type setting struct {
	key  string
	vals []any
	want []any
}

func fileText(ext string, kv map[string]any, order []string) string {
	switch ext {
	case "json":
		b, _ := json.MarshalIndent(kv, "", " ")
		return string(b)
	case "yaml":
		var b strings.Builder
		for _, k := range order {
			j, _ := json.Marshal(kv[k])
			fmt.Fprintf(&b, "%s: %s\n", k, j)
		}
		return b.String()
	}
	var b strings.Builder
	b.WriteString("# a comment\n")
	for _, k := range order {
		j, _ := json.Marshal(kv[k])
		fmt.Fprintf(&b, "%s = %s\n", k, j)
	}
	return b.String()
}

var settings = []setting{
	{"port", []any{6380, 7001, 65535}, []any{6380, 7001, 65535}},
	{"databases", []any{nil, 1, 2, 16, 17, 100}, []any{16, 1, 2, 16, 17, 100}},
	{"requirepass", []any{nil, "", "secret", "p w\"#x"}, []any{"", "", "secret", "p w\"#x"}},
	{"appendonly", []any{true, false, nil}, []any{true, false, false}},
	{"appendfilename", []any{"appendonly.aof", "other.aof", "x.y"}, []any{"appendonly.aof", "other.aof", "x.y"}},
	{"appendfsync", []any{"everysec", "always", "no"}, []any{config.TypeAppendFsyncEverySecond, config.TypeAppendFsyncAlways, config.TypeAppendFsyncNever}},
	{"auto-aof-rewrite-percentage", []any{100, nil, 0, 50, 200}, []any{100, 0, 0, 50, 200}},
	{"auto-aof-rewrite-min-size", []any{"1kb", "300", "300b", 700, "2KB", "1mb", "1Mb", "1gb", "64mb"},
		[]any{1 << 10, 300, 300, 700, 2 << 10, 1 << 20, 1 << 20, 1 << 30, 64 << 20}},
}

// pickConfig chooses a value for each key, deviating from the first one in at most the phase's bound.
func pickConfig(c *Ctx) (map[string]any, []string, config.Config) {
	kv := map[string]any{"bind": "127.0.0.1", "loglevel": "error"}
	order := []string{"bind", "loglevel"}
	var w []any
	for _, s := range settings {
		i := c.Dev(len(s.vals), s.key)
		if s.vals[i] != nil {
			kv[s.key] = s.vals[i]
			order = append(order, s.key)
		}
		w = append(w, s.want[i])
	}
	return kv, order, config.Config{
		Host: "127.0.0.1", Port: uint16(w[0].(int)), DatabaseNum: w[1].(int), RequirePassword: w[2].(string),
		AofEnable: w[3].(bool), AofFilename: w[4].(string), AofFsync: w[5].(config.TypeAppnedFsync),
		AofRewritePercent: uint(w[6].(int)), AofRewriteMinSize: uint(w[7].(int)),
	}
}

// probe checks that a server started with loaded behaves as want says.
func probeConfig(c *Ctx, loaded, want config.Config) {
	s := bootRec(c, nil, loaded, 0)
	defer s.end()
	s.cfg = want
	only := s.w.Net.Listeners()
	if len(only) != 1 || only[0] != [5]int{127, 0, 0, 1, int(want.Port)} {
		c.Fail("configured for port %d, the server listens on %v", want.Port, only)
	}
	conn := s.w.Dial(localhost, int(want.Port))
	s.settle()
	k := &Cli{s: s, conn: conn, name: "c"}
	m := newModel(want)
	k.do(m, "get", "a")
	k.do(m, "set", "a", "1")
	k.do(m, "auth", "wrong")
	if want.RequirePassword != "" {
		k.do(m, "get", "a")
		k.do(m, "auth", want.RequirePassword)
	}
	n := want.DatabaseNum
	k.do(m, "select", strconv.Itoa(n))
	k.do(m, "select", strconv.Itoa(n-1))
	k.do(m, "set", "in", "last")
	k.do(m, "select", "0")
	k.do(m, "select", strconv.Itoa(n+1))
	k.do(m, "get", "a")

	path := rt.Abs(want.AofFilename)
	files := strings.Join(s.w.FS.Paths(), " ")
	if !want.AofEnable {
		k.raw("bgrewriteaof")
		for i := 0; i < 5; i++ {
			s.tick(707)
			k.do(m, "set", "b", fill(100))
		}
		for _, e := range s.w.Log {
			if e.Kind != rt.EAck {
				c.Fail("appendonly is off but the server does: %s", e)
			}
		}
		k.do(m, "get", "b")
		return
	}
	if files != path {
		c.Fail("appendfilename is %s, the files are: %s", want.AofFilename, files)
	}
	// the fsync policy
	mark := len(s.w.Log)
	for i := 0; i < 4; i++ {
		k.do(m, "rpush", "l", itoa(i))
		s.tick(2)
	}
	dirty, syncs, acks := false, 0, 0
	ino := s.w.FS.Files[path]
	for _, e := range s.w.Log[mark:] {
		switch {
		case e.Kind == rt.EWrite:
			dirty = true
		case e.Kind == rt.ESync && e.Ino == ino.ID:
			dirty = false
			syncs++
		case e.Kind == rt.EAck:
			acks++
			if dirty && want.AofFsync == config.TypeAppendFsyncAlways {
				c.Fail("appendfsync is always but a write is acknowledged before it is synced")
			}
		}
	}
	if acks < 4 {
		c.Fail("only %d of 4 replies seen", acks)
	}
	switch want.AofFsync {
	case config.TypeAppendFsyncEverySecond:
		s.tick(1101)
		s.tick(1101)
		last := rt.EWrite
		for _, e := range s.w.Log {
			if e.Kind == rt.EWrite || e.Kind == rt.ESync {
				last = e.Kind
			}
		}
		if last != rt.ESync {
			c.Fail("appendfsync is everysec but a write is not synced after two seconds")
		}
	case config.TypeAppendFsyncNever:
		s.tick(3001)
		k.do(m, "set", "n", "o")
		s.tick(3001)
		for _, e := range s.w.Log {
			if e.Kind == rt.ESync && e.Ino == ino.ID {
				c.Fail("appendfsync is no but the server syncs the file")
			}
		}
	}
	// the rewrite thresholds
	r := watch(s)
	for _, e := range s.w.Log {
		if e.Kind == rt.ERename {
			r.base = max(r.size(), 1) // the file has already been rewritten, at its size before this point
		}
	}
	r.seen = len(s.w.Log)
	if r.base == 1 {
		r.quiesce()
	}
	k.raw("bgrewriteaof")
	for i := 0; i < 3; i++ {
		s.tick(2)
	}
	r.look()
	r.base = r.size()
	lim := int64(want.AofRewriteMinSize)
	for _, t := range []int64{lim, lim + 1, r.base * int64(100+want.AofRewritePercent) / 100, max(lim+1, 2*r.base) + 1} {
		if t > 3<<20 {
			t = 3 << 20
		}
		for r.size() < t {
			room := t - r.size()
			if room < 60 {
				break
			}
			if room > 200000 {
				k.raw("set", "big", fill(100000))
			} else if !padTo(k, r, t) {
				break
			}
			r.quiesce()
			if r.written != r.done {
				break
			}
		}
	}
	k.raw("set", "big", fill(2000))
	r.quiesce()
	k.raw("set", "big", fill(3000))
	r.quiesce()
}

func init() {
	run := func(c *Ctx) {
		ext := []string{"toml", "yaml", "json"}[c.Dev(3, "format")]
		kv, order, want := pickConfig(c)
		if c.Dev(2, "order of the keys") == 1 {
			sort.Sort(sort.Reverse(sort.StringSlice(order)))
		}
		dir := c.scratch()
		defer os.RemoveAll(dir)
		text := fileText(ext, kv, order)
		writeFile(dir+"/conf."+ext, text)
		c.Logf("%s", text)
		loaded := loadConfig(c, dir+"/conf."+ext)
		c.Sample(strings.ReplaceAll(text, "\n", "; "))
		c.State(fmt.Sprintf("%+v", want))
		probeConfig(c, loaded, want)
	}
	register(&Check{ID: "C32", Real: true, Explanation: "Configuration files in each format with every value of every key, and every pair of deviations from a base configuration (triples in the thorough tier), are read by the unmodified loader; the real server is started in the simulated world with the outcome and probed: listening port, every boundary of the database numbers, password, file name, absence of any file, fsync policy from the recorded effects, and rewrite thresholds in bytes. The unmodified binary is then started with the same files and flag variants and probed over loopback.",
		Assumptions: []string{"sizes are whole numbers with no suffix or b, kb, mb, gb in any case"},
		Phases: []Phase{
			{Name: "pairs", Shard: 4, Dev: 2, Weight: 4, Run: run},
			{Name: "triples", Tier: "thorough", Shard: 5, Dev: 3, Weight: 10, Run: run},
			{Name: "real", Shard: 3, Dev: 1, Weight: 2, Run: func(c *Ctx) {
				kv, order, want := pickConfig(c)
				how := c.Choose(4, "how the file is given")
				ext := "toml"
				if how == 3 {
					ext = []string{"yaml", "json"}[c.Choose(2, "format")]
				}
				port := freePort()
				kv["port"] = port
				dir := c.scratch()
				defer os.RemoveAll(dir)
				var args []string
				switch how {
				case 0:
					writeFile(dir+"/config.toml", fileText(ext, kv, order))
				case 1:
					writeFile(dir+"/c.toml", fileText(ext, kv, order))
					args = []string{"-c", "c.toml"}
				case 2:
					writeFile(dir+"/config.toml", "port = 1\nbind = \"256.0.0.1\"\n")
					if err := os.Mkdir(dir+"/etc", 0o755); err != nil {
						panic("verifmc: " + err.Error())
					}
					writeFile(dir+"/etc/m.toml", fileText(ext, kv, order))
					args = []string{"--config=" + dir + "/etc/m.toml"}
				case 3:
					writeFile(dir+"/c."+ext, fileText(ext, kv, order))
					args = []string{"-c", "./c." + ext}
				}
				r := startReal(c, dir, args...)
				defer r.kill()
				k := r.dial("127.0.0.1:"+strconv.Itoa(port), true)
				path := filepath.Join(dir, want.AofFilename)
				var first os.FileInfo
				if fh, err := os.Open(path); err == nil { // open, so that its inode is not used again
					first, _ = fh.Stat()
					defer fh.Close()
				}
				m := newModel(want)
				k.do(m, "get", "a")
				k.do(m, "auth", "wrong")
				if want.RequirePassword != "" {
					k.do(m, "auth", want.RequirePassword)
				}
				k.do(m, "set", "a", "1")
				k.do(m, "select", strconv.Itoa(want.DatabaseNum))
				k.do(m, "select", strconv.Itoa(want.DatabaseNum-1))
				k.do(m, "set", "b", "2")
				k.do(m, "get", "a")
				aofs := func() []string {
					var out []string
					es, _ := os.ReadDir(dir)
					for _, e := range es {
						n := e.Name()
						if n != "config.toml" && n != "etc" && !strings.HasPrefix(n, "c.") && !strings.HasPrefix(n, "temp-rewriteaof-") {
							out = append(out, n)
						}
					}
					return out
				}
				if !want.AofEnable {
					k.raw("bgrewriteaof")
					time.Sleep(30 * time.Millisecond)
					k.do(m, "get", "b")
					if fs := aofs(); len(fs) > 0 {
						c.Fail("appendonly is off but there are files: %v", fs)
					}
					return
				}
				if fs := aofs(); len(fs) != 1 || fs[0] != want.AofFilename {
					c.Fail("appendfilename is %s, the files are %v", want.AofFilename, fs)
				}
				if want.AofRewritePercent > 0 && want.AofRewriteMinSize <= 2048 {
					// grow the file over the minimum: a new one replaces it
					for i := 0; i < 60; i++ {
						k.do(m, "set", "x", fill(100))
					}
					for i := 0; ; i++ {
						if fi, err := os.Stat(path); err == nil && !os.SameFile(fi, first) {
							break
						}
						if i > 2000 {
							c.Fail("the file is not rewritten although it is beyond the configured thresholds")
						}
						time.Sleep(10 * time.Millisecond)
					}
					k.do(m, "get", "x")
				}
				k.close()
			}},
		}})
}
