//go:build go1.23

package main

import (
	"bytes"
	"errors"
	"fmt"
	"strconv"
	"strings"

	"github.com/IfanTsai/metis/config"
	mlog "github.com/IfanTsai/metis/log"
	"github.com/IfanTsai/metis/server"
	rt "github.com/IfanTsai/metis/verifvrt"
	"go.uber.org/zap"
)

func init() {
	nop := func(string, ...zap.Field) {}
	mlog.Debug, mlog.Info, mlog.Warn, mlog.Error = nop, nop, nop, nop
	mlog.Fatal = func(m string, f ...zap.Field) { panic(rt.Exit{Code: 1, Msg: "log.Fatal: " + m + fieldErr(f)}) }
	mlog.Panic = func(m string, f ...zap.Field) { panic("log.Panic: " + m + fieldErr(f)) }
}

func fieldErr(fs []zap.Field) string {
	for _, f := range fs {
		if e, ok := f.Interface.(error); ok {
			return ": " + e.Error()
		}
	}
	return ""
}

// --- replies ---

type Reply struct {
	T   byte // + - : $ *
	S   string
	N   int64
	Nil bool
	A   []Reply
}

func (r Reply) String() string {
	switch r.T {
	case '+', '-':
		return string(r.T) + r.S
	case ':':
		return ":" + strconv.FormatInt(r.N, 10)
	case '$':
		if r.Nil {
			return "(nil)"
		}
		if len(r.S) > 48 {
			return fmt.Sprintf("%q...(%d bytes)", r.S[:32], len(r.S))
		}
		return strconv.Quote(r.S)
	case '*':
		if r.Nil {
			return "(nil array)"
		}
		var p []string
		for i, x := range r.A {
			if i == 40 {
				p = append(p, fmt.Sprintf("... %d in all", len(r.A)))
				break
			}
			p = append(p, x.String())
		}
		return "[" + strings.Join(p, " ") + "]"
	}
	return "(none)"
}

var errShort = errors.New("incomplete reply")

func parseReply(b []byte) (Reply, int, error) {
	i := bytes.Index(b, []byte("\r\n"))
	if i < 0 {
		return Reply{}, 0, errShort
	}
	if i == 0 {
		return Reply{}, 0, fmt.Errorf("malformed reply %q", cut(b))
	}
	line := string(b[1:i])
	switch b[0] {
	case '+', '-':
		return Reply{T: b[0], S: line}, i + 2, nil
	case ':':
		n, err := strconv.ParseInt(line, 10, 64)
		if err != nil {
			return Reply{}, 0, fmt.Errorf("malformed integer reply %q", line)
		}
		return Reply{T: ':', N: n}, i + 2, nil
	case '$':
		n, err := strconv.Atoi(line)
		if err != nil || n < -1 {
			return Reply{}, 0, fmt.Errorf("malformed bulk reply %q", line)
		}
		if n == -1 {
			return Reply{T: '$', Nil: true}, i + 2, nil
		}
		if len(b) < i+2+n+2 {
			return Reply{}, 0, errShort
		}
		if b[i+2+n] != '\r' || b[i+3+n] != '\n' {
			return Reply{}, 0, fmt.Errorf("bulk reply of length %d without final CRLF", n)
		}
		return Reply{T: '$', S: string(b[i+2 : i+2+n])}, i + 4 + n, nil
	case '*':
		n, err := strconv.Atoi(line)
		if err != nil || n < -1 {
			return Reply{}, 0, fmt.Errorf("malformed array reply %q", line)
		}
		if n == -1 {
			return Reply{T: '*', Nil: true}, i + 2, nil
		}
		r := Reply{T: '*', A: make([]Reply, 0, n)}
		p := i + 2
		for k := 0; k < n; k++ {
			e, m, err := parseReply(b[p:])
			if err != nil {
				return Reply{}, 0, err
			}
			r.A = append(r.A, e)
			p += m
		}
		return r, p, nil
	}
	return Reply{}, 0, fmt.Errorf("malformed reply %q", cut(b))
}

func cut(b []byte) string {
	if len(b) > 60 {
		return string(b[:60]) + "..."
	}
	return string(b)
}

func cutS(s string) string { return cut([]byte(s)) }

// parseReplies splits a byte stream into complete replies and a rest.
func parseReplies(b []byte) ([]Reply, []byte, error) {
	var rs []Reply
	for len(b) > 0 {
		r, n, err := parseReply(b)
		if err == errShort {
			return rs, b, nil
		}
		if err != nil {
			return rs, b, err
		}
		rs = append(rs, r)
		b = b[n:]
	}
	return rs, nil, nil
}

func encode(args ...string) []byte {
	var b []byte
	b = append(b, '*')
	b = strconv.AppendInt(b, int64(len(args)), 10)
	b = append(b, "\r\n"...)
	for _, a := range args {
		b = append(b, '$')
		b = strconv.AppendInt(b, int64(len(a)), 10)
		b = append(b, "\r\n"...)
		b = append(b, a...)
		b = append(b, "\r\n"...)
	}
	return b
}

// --- the server under test in its closed world ---

type Srv struct {
	c      *Ctx
	w      *rt.World
	t0     *rt.Thread
	s      *server.Server
	cfg    config.Config
	noBG   bool                    // background threads run only when stepped explicitly
	hold   func(t *rt.Thread) bool // keeps a background thread where it is
	ran    func(t *rt.Thread)      // called before a background thread is run
	steps  int
	stopOK bool // the event loop may end
	dieOK  bool // the process may end
	fs0    *rt.FS
}

const testPort = 6380

var localhost = [4]byte{127, 0, 0, 1}

func baseConfig() config.Config {
	return config.Config{Host: "127.0.0.1", Port: testPort, DatabaseNum: 2}
}

func aofConfig(fsync config.TypeAppnedFsync) config.Config {
	c := baseConfig()
	c.AofEnable = true
	c.AofFilename = "appendonly.aof"
	c.AofFsync = fsync
	return c
}

const aofPath = "/work/appendonly.aof"

// start creates the world and the server without running it.
func start(c *Ctx, fs *rt.FS, cfg config.Config, nowNS int64) *Srv {
	w := rt.NewWorld(fs, nowNS)
	s := &Srv{c: c, w: w, cfg: cfg}
	s.t0 = w.Spawn("server", func() {
		cc := cfg
		s.s = server.NewServer(&cc)
		_ = s.s.Run()
	})
	return s
}

// boot starts a server and runs it until it first waits for events.
func boot(c *Ctx, fs *rt.FS, cfg config.Config, nowNS int64) *Srv {
	return start(c, fs, cfg, nowNS).up()
}

// up runs a created server until it first waits for events.
func (s *Srv) up() *Srv {
	for !s.t0.AtEpoll() {
		s.step(s.t0)
		s.alive("start")
	}
	return s
}

// bootRec is boot with all effects on files and sockets recorded.
func bootRec(c *Ctx, fs *rt.FS, cfg config.Config, nowNS int64) *Srv {
	s := start(c, fs, cfg, nowNS)
	s.w.Rec = true
	s.fs0 = s.w.FS.Clone()
	return s.up()
}

func (s *Srv) step(t *rt.Thread) {
	if s.ran != nil && t != s.t0 {
		s.ran(t)
	}
	s.steps++
	s.c.Step()
	s.w.Step(t)
}

// alive fails the execution if the process has died.
func (s *Srv) alive(when string) {
	if d := s.w.Dead(); d != nil {
		if s.dieOK {
			return
		}
		msg := fmt.Sprint(d.Panic)
		s.c.Fail("the server dies (%s): %s %s", when, cutN(msg, 300), trimStack(d.Stack))
	}
	if s.t0.Done && !s.stopOK {
		s.c.Fail("the event loop ended by itself (%s)", when)
	}
	if len(s.w.Anomalies) > 0 {
		s.c.Fail("misuse of descriptors (%s): %s", when, s.w.Anomalies[0])
	}
}

func cutN(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func (s *Srv) bgEnabled() *rt.Thread {
	for _, t := range s.w.Threads {
		if t != s.t0 && t.Enabled() && (s.hold == nil || !s.hold(t)) {
			return t
		}
	}
	return nil
}

// settle runs the server until it has nothing to do, without letting time pass.
func (s *Srv) settle() {
	s.w.Net.Advance = 0
	progress := 0
	for n := 0; ; n++ {
		if n&255 == 255 {
			p := 0
			for _, k := range s.w.Net.Conns {
				p += len(k.Out) - len(k.In)
			}
			if p != progress {
				progress, n = p, 0
			}
		}
		if n > 20000 {
			s.c.Fail("the server spins: 20000 event-loop steps without finishing")
		}
		if !s.noBG {
			if t := s.bgEnabled(); t != nil {
				s.step(t)
				s.alive("background task")
				continue
			}
		}
		if s.t0.Done {
			s.alive("event loop")
			return
		}
		if s.dieOK && s.w.Dead() != nil {
			return
		}
		if s.t0.AtEpoll() && !s.w.AnyReady(s.t0) {
			return
		}
		if !s.t0.Enabled() {
			t := s.bgEnabled()
			if t == nil {
				s.c.Fail("the server is stuck at %s", s.t0.Pt.Label)
			}
			s.step(t)
			s.alive("background task")
			continue
		}
		s.step(s.t0)
		if s.w.Dead() != nil || len(s.w.Anomalies) > 0 || s.t0.Done {
			s.alive("serving")
		}
	}
}

// tick lets ms milliseconds pass in one poll and runs what became due.
func (s *Srv) tick(ms int64) {
	s.settle()
	if s.t0.Done {
		return
	}
	s.w.Net.Advance = ms
	s.step(s.t0)
	s.alive("cron")
	s.settle()
}

// Cli is one client connection, acting in lock step with the server.
type Cli struct {
	s    *Srv
	conn *rt.Conn
	off  int
	st   ConnState
	name string
}

func (s *Srv) dial() *Cli {
	conn := s.w.Dial(localhost, testPort)
	if conn == nil {
		s.c.Fail("connection refused at %v:%d", localhost, testPort)
	}
	s.settle()
	return &Cli{s: s, conn: conn, name: "c" + strconv.Itoa(conn.ID)}
}

// got returns the replies received since the last call.
func (k *Cli) got() []Reply {
	rs, rest, err := parseReplies(k.conn.Out[k.off:])
	if err != nil {
		k.s.c.Fail("%s: %v", k.name, err)
	}
	k.off = len(k.conn.Out) - len(rest)
	return rs
}

func showArgs(args []string) string {
	var p []string
	for i, a := range args {
		if i == 12 {
			p = append(p, fmt.Sprintf("... %d args", len(args)))
			break
		}
		if len(a) > 40 {
			a = fmt.Sprintf("%s...(%d bytes)", a[:20], len(a))
		}
		if a == "" || strings.ContainsAny(a, " \r\n\x00\"") || a[0] >= 0x80 {
			a = strconv.Quote(a)
		}
		p = append(p, a)
	}
	return strings.Join(p, " ")
}

// raw sends a request and returns its reply without any check of the content.
func (k *Cli) raw(args ...string) Reply {
	return k.rawBytes(encode(args...), args)
}

func (k *Cli) rawBytes(b []byte, args []string) Reply {
	k.conn.Send(b)
	k.s.settle()
	if k.conn.SrvClose {
		k.s.c.Fail("%s: the connection is closed on %s", k.name, showArgs(args))
	}
	rs := k.got()
	if len(rs) != 1 {
		k.s.c.Fail("%s: %d replies to one request (%s): %v", k.name, len(rs), showArgs(args), rs)
	}
	return rs[0]
}

// do sends a request and checks its reply against the model, which it updates.
func (k *Cli) do(m *Model, args ...string) Reply {
	r := k.raw(args...)
	if k.s.c.tracing {
		k.s.c.Logf("%s> %s -> %s", k.name, showArgs(args), r)
	}
	if err := m.exec(&k.st, args, r, k.s.w.NowMS()); err != nil {
		k.s.c.Fail("%s> %s: %v", k.name, showArgs(args), err)
	}
	return r
}

// --- reading the keyspace back ---

// dump reads the whole keyspace of the live server through commands.
func (s *Srv) dump() *Model {
	k := s.dial()
	m := newModel(s.cfg)
	if s.cfg.RequirePassword != "" {
		k.raw("auth", s.cfg.RequirePassword)
	}
	now := s.w.NowMS()
	dumpAll(s.c, m, k.raw, func() int64 { return now })
	k.conn.Close()
	s.settle()
	return m
}

// dumpAll reads the whole keyspace into m, through commands sent by raw.
func dumpAll(c *Ctx, m *Model, raw func(args ...string) Reply, now func() int64) {
	for db := range m.dbs {
		if r := raw("select", strconv.Itoa(db)); r.T != '+' {
			c.Fail("dump: SELECT %d answers %s", db, r)
		}
		r := raw("keys", "*")
		if r.T != '*' {
			c.Fail("dump: KEYS * answers %s", r)
		}
		for _, kr := range r.A {
			key := kr.S
			if m.dbs[db][key] != nil {
				c.Fail("KEYS * of db %d lists %q twice", db, key)
			}
			v := dumpKey(c, raw, key)
			if v == nil {
				c.Fail("KEYS * of db %d lists %q but no command finds it", db, key)
			}
			t := raw("ttl", key)
			if t.T != ':' {
				c.Fail("dump: TTL %q answers %s", key, t)
			}
			if t.N >= 0 {
				v.exp = now() + t.N*1000
			} else if t.N != -1 {
				c.Fail("TTL of listed key %q is %d", key, t.N)
			}
			m.dbs[db][key] = v
		}
	}
}

func dumpKey(c *Ctx, raw func(args ...string) Reply, key string) *Val {
	if r := raw("get", key); r.T == '$' && !r.Nil {
		return &Val{kind: 's', s: r.S}
	} else if r.T == '$' {
		return nil
	}
	if r := raw("lrange", key, "0", "-1"); r.T == '*' || r.T == '$' {
		v := &Val{kind: 'l'}
		for _, e := range r.A {
			v.l = append(v.l, e.S)
		}
		if n := raw("llen", key); n.T != ':' || int(n.N) != len(v.l) {
			c.Fail("LLEN %q = %s but LRANGE lists %d elements", key, n, len(v.l))
		}
		return v
	}
	if r := raw("hkeys", key); r.T == '*' {
		v := &Val{kind: 'h', h: map[string]string{}}
		for _, e := range r.A {
			if _, dup := v.h[e.S]; dup {
				c.Fail("HKEYS %q lists field %q twice", key, e.S)
			}
			f := raw("hget", key, e.S)
			if f.T != '$' || f.Nil {
				c.Fail("HKEYS %q lists %q but HGET answers %s", key, e.S, f)
			}
			v.h[e.S] = f.S
		}
		if n := raw("hlen", key); n.T != ':' || int(n.N) != len(v.h) {
			c.Fail("HLEN %q = %s but HKEYS lists %d", key, n, len(v.h))
		}
		return v
	}
	if r := raw("smembers", key); r.T == '*' {
		v := &Val{kind: 'S', h: map[string]string{}}
		for _, e := range r.A {
			if _, dup := v.h[e.S]; dup {
				c.Fail("SMEMBERS %q lists %q twice", key, e.S)
			}
			v.h[e.S] = ""
		}
		if n := raw("scard", key); n.T != ':' || int(n.N) != len(v.h) {
			c.Fail("SCARD %q = %s but SMEMBERS lists %d", key, n, len(v.h))
		}
		return v
	}
	if r := raw("zrange", key, "0", "-1", "withscores"); r.T == '*' && len(r.A)%2 == 0 {
		v := &Val{kind: 'z', z: map[string]float64{}}
		for i := 0; i < len(r.A); i += 2 {
			f, err := strconv.ParseFloat(r.A[i+1].S, 64)
			if err != nil {
				c.Fail("ZRANGE %q: bad score %q", key, r.A[i+1].S)
			}
			if _, dup := v.z[r.A[i].S]; dup {
				c.Fail("ZRANGE %q lists %q twice", key, r.A[i].S)
			}
			v.z[r.A[i].S] = f
		}
		if n := raw("zcard", key); n.T != ':' || int(n.N) != len(v.z) {
			c.Fail("ZCARD %q = %s but ZRANGE lists %d", key, n, len(v.z))
		}
		// the order the server lists must be the order of (score, member)
		want := v.zsorted()
		for i, e := range want {
			if r.A[2*i].S != e.m {
				c.Fail("ZRANGE %q lists %s, the order by (score, member) is %v", key, r, want)
			}
		}
		return v
	}
	return nil
}

// compare checks the live keyspace against the model; expiries may be slack ms earlier.
func (s *Srv) compare(m *Model, slack int64, what string) {
	got := s.dump()
	if d := m.diff(got, s.w.NowMS(), slack); d != "" {
		s.c.Fail("%s: %s", what, d)
	}
	if s.c.eng != nil {
		s.c.State(m.canon(s.w.NowMS()))
	}
}

// restart ends the process abruptly and starts a new one on the files left.
func (s *Srv) restart() *Srv {
	s.w.Kill()
	n := start(s.c, s.w.FS, s.cfg, s.w.NowNS+s.w.WallOff)
	n.w.Rand = s.w.Rand // random choices must not repeat those of the first process
	n.w.Rand.Script = nil
	if n.w.Rand.Counter >= 0 {
		n.w.Rand.Counter += 7
	}
	return n.up()
}

func (s *Srv) end() { s.w.Kill() }

func (s *Srv) aofBytes() []byte {
	if i := s.w.FS.Files[aofPath]; i != nil {
		return i.Data
	}
	return nil
}
