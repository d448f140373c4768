//go:build go1.23

package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/IfanTsai/metis/config"
)

// --- C41: editing the configuration file does not disturb the running server ---

type confFile struct {
	keys []string
	vals map[string]string
}

func (f confFile) text() string {
	var b strings.Builder
	for _, k := range f.keys {
		if v, ok := f.vals[k]; ok {
			fmt.Fprintf(&b, "%s = %s\n", k, v)
		}
	}
	return b.String()
}

func (f confFile) with(k, v string) string {
	g := confFile{keys: f.keys, vals: map[string]string{}}
	for x, y := range f.vals {
		g.vals[x] = y
	}
	if _, ok := g.vals[k]; !ok {
		g.keys = append(append([]string{}, g.keys...), k)
	}
	g.vals[k] = v
	return g.text()
}

type confEdit struct {
	name string
	text func(f confFile) string
}

func setTo(k, v string) confEdit {
	return confEdit{k + " = " + v, func(f confFile) string { return f.with(k, v) }}
}

func becomes(name, text string) confEdit {
	return confEdit{name, func(confFile) string { return text }}
}

// files that are none
const confGone, confDir = "\x00gone", "\x00dir"

var confEdits = []confEdit{
	{"the same text", func(f confFile) string { return f.text() }},
	setTo("requirepass", `"other"`), setTo("requirepass", `""`), setTo("databases", "1"), setTo("databases", "64"),
	setTo("databases", "-3"), setTo("databases", `"many"`), setTo("databases", "[1, 2]"), setTo("port", "1"), setTo("port", "70000"),
	setTo("port", `"abc"`), setTo("port", "-1"), setTo("port", "1.5"), setTo("bind", `"0.0.0.0"`), setTo("bind", "7"), setTo("bind", `["a"]`),
	setTo("appendonly", "false"), setTo("appendonly", `"maybe"`), setTo("appendonly", "2"), setTo("appendfilename", `"elsewhere.aof"`), setTo("appendfilename", `""`),
	setTo("appendfsync", `"always"`), setTo("appendfsync", `"sometimes"`), setTo("appendfsync", "3"), setTo("loglevel", `"none"`), setTo("loglevel", `"error"`),
	setTo("logfile", `"/nonexistent/dir/x.log"`), setTo("auto-aof-rewrite-percentage", "1"), setTo("auto-aof-rewrite-percentage", "-1"),
	setTo("auto-aof-rewrite-percentage", `"lots"`), setTo("auto-aof-rewrite-min-size", `"1b"`), setTo("auto-aof-rewrite-min-size", `"x"`), setTo("auto-aof-rewrite-min-size", "-5"),
	setTo("unknown-key", "1"), setTo("[section]\nport", "1"),
	becomes("empty", ""), becomes("a comment", "# nothing\n"), becomes("malformed", "port = \n= = [[[\n"), becomes("half a line", "bind = \"127.0."), becomes("binary", "\x00\xff\xfe\x00port\x00"),
	setTo("port", "0"), setTo("bind", `""`), becomes("removed", confGone), becomes("a directory", confDir),
	becomes("the port only", "port = 1\n"), becomes("twice the same key", "port = 1\nport = 2\n"), becomes("json", `{"port": 1, "appendonly": {"a": 1}}`),
}

var confWays = []string{"written in place", "replaced by a rename", "written in two parts", "removed and created"}

// applyEdit changes the file in one of the ways; the server gets some time to notice.
func applyEdit(c *Ctx, path, text string, way int) {
	c.Step()
	if fi, err := os.Stat(path); err == nil && fi.IsDir() {
		os.RemoveAll(path)
	}
	if text == confGone || text == confDir {
		os.Remove(path)
		if text == confDir {
			_ = os.Mkdir(path, 0o755)
		}
		way = -1
	}
	switch way {
	case 0:
		writeFile(path, text)
	case 1:
		writeFile(path+".new", text)
		if err := os.Rename(path+".new", path); err != nil {
			panic("verifmc: " + err.Error())
		}
	case 2:
		writeFile(path, text[:len(text)/2])
		time.Sleep(5 * time.Millisecond)
		writeFile(path, text)
	case 3:
		os.Remove(path)
		time.Sleep(5 * time.Millisecond)
		writeFile(path, text)
	}
	time.Sleep(25 * time.Millisecond)
}

// confEditRun starts the unmodified binary, edits its configuration, and compares all it does with what it was started with.
func confEditRun(edits []confEdit, ways int, depth int) func(c *Ctx) {
	return func(c *Ctx) {
		dir := c.scratch()
		defer os.RemoveAll(dir)
		port := freePort()
		addr := "127.0.0.1:" + strconv.Itoa(port)
		f := confFile{keys: []string{"bind", "port", "databases", "requirepass", "loglevel", "appendonly", "appendfilename", "appendfsync",
			"auto-aof-rewrite-percentage", "auto-aof-rewrite-min-size"},
			vals: map[string]string{"bind": `"127.0.0.1"`, "port": strconv.Itoa(port), "databases": "5", "requirepass": `"pw"`, "loglevel": `"error"`,
				"appendonly": "true", "appendfilename": `"a.aof"`, "appendfsync": `"no"`, "auto-aof-rewrite-percentage": "100", "auto-aof-rewrite-min-size": `"1mb"`}}
		cfg := aofConfig(config.TypeAppendFsyncAlways)
		cfg.RequirePassword, cfg.DatabaseNum = "pw", 5
		path := filepath.Join(dir, "c.toml")
		writeFile(path, f.text())
		r := startReal(c, dir, "-c", "c.toml")
		defer func() { r.kill() }()
		k := r.dial(addr, true)
		m := newModel(cfg)
		k.do(m, "auth", "pw")
		k.do(m, "set", "a", "1")
		k.do(m, "select", "4")
		k.do(m, "rpush", "l", "x")
		aof := filepath.Join(dir, "a.aof")
		before, err := os.Stat(aof)
		if err != nil {
			c.Fail("there is no append-only file: %v", err)
		}
		pushed := int64(1)
		probe := func(what string, n int) {
			pushed++
			if r.dead() {
				c.Fail("%s: the server ends: %v: %s", what, r.err, r.output())
			}
			k.do(m, "rpush", "l", "y"+strconv.Itoa(n))
			k.do(m, "lrange", "l", "0", "-1")
			k.do(m, "select", "5")
			k.do(m, "select", "0")
			k.do(m, "get", "a")
			k.do(m, "select", "4")
			o := r.dial(addr, false)
			if o == nil {
				c.Fail("%s: the server accepts no new connection on %s", what, addr)
			}
			defer o.close()
			o.do(m, "get", "a")
			o.do(m, "auth", "other")
			o.do(m, "auth", "")
			o.do(m, "get", "a")
			o.do(m, "auth", "pw")
			o.do(m, "set", "a", "2"+strconv.Itoa(n))
			if r.dead() {
				c.Fail("%s: the server ends: %v: %s", what, r.err, r.output())
			}
		}
		what := ""
		for i := 0; i < depth; i++ {
			e := edits[c.Choose(len(edits), "edit")]
			w := c.Choose(ways, "way")
			what = fmt.Sprintf("the configuration file is %s (%s)", confWays[w], e.name)
			c.Logf("%s", what)
			applyEdit(c, path, e.text(f), w)
			probe(what, i)
		}
		if depth == 1 {
			time.Sleep(130 * time.Millisecond) // periodic work
			probe(what, 0)
		}
		es, err := os.ReadDir(dir)
		if err != nil {
			panic("verifmc: " + err.Error())
		}
		for _, e := range es {
			if n := e.Name(); n != "c.toml" && n != "a.aof" {
				c.Fail("%s: there is a file %s", what, n)
			}
		}
		if now, err := os.Stat(aof); err != nil || !os.SameFile(before, now) {
			c.Fail("%s: the append-only file was replaced although it is below the minimum size", what)
		}
		k.close()
		// the next start
		if depth == 1 && c.Choose(2, "end") == 0 {
			time.Sleep(30 * time.Millisecond)
			_ = r.cmd.Process.Signal(syscall.SIGTERM)
			if !r.waitExit(10 * time.Second) {
				c.Fail("%s: the server does not end at SIGTERM", what)
			}
		}
		r.kill()
		os.RemoveAll(path)
		writeFile(path, f.with("requirepass", `""`))
		cfg.RequirePassword = ""
		m2 := newModel(cfg)
		r = startReal(c, dir, "-c", "c.toml")
		k = r.dial(addr, true)
		defer k.close()
		if rep := k.raw("get", "a"); rep.S != "2"+strconv.Itoa(depth-1) {
			c.Fail("%s: after the next start the value is %s", what, rep)
		}
		k.do(m2, "select", "4")
		if rep := k.raw("llen", "l"); rep.N != pushed {
			c.Fail("%s: after the next start the list has %s elements", what, rep)
		}
		c.Sample(what)
	}
}

func init() {
	var some []confEdit
	for i := 0; i < len(confEdits); i += 2 {
		some = append(some, confEdits[i])
	}
	register(&Check{ID: "C41", Real: true, Explanation: "The unmodified binary runs with a configuration file, which is then edited: all sequences of edits (every setting to valid, out-of-range and ill-typed values; empty, malformed, partial, binary and foreign files) in every way (in place, by rename, in two parts, removed and created again). After each edit the server must be running and answer old and new connections as before, with the same password, databases, port and append-only file; after stopping or killing it, the next start has all data and the new settings.",
		Phases: []Phase{
			{Name: "one edit", Shard: 2, Weight: 2, Run: confEditRun(confEdits, 4, 1)},
			{Name: "two edits", Shard: 2, Weight: 4, Run: confEditRun(some, 1, 2)},
			{Name: "two edits, every way", Tier: "thorough", Shard: 3, Weight: 6, Run: confEditRun(confEdits, 4, 2)},
		}})
}
