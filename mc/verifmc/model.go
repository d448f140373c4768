//go:build go1.23

package main

import (
	"fmt"
	"math"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/IfanTsai/metis/config"
)

// Val is a value of the reference keyspace.
type Val struct {
	kind byte // s string, l list, h hash, S set, z sorted set
	s    string
	l    []string
	h    map[string]string
	z    map[string]float64
	exp  int64 // expiry in ms, 0: none
}

func (v *Val) clone() *Val {
	n := *v
	n.l = append([]string(nil), v.l...)
	if v.h != nil {
		n.h = make(map[string]string, len(v.h))
		for k, x := range v.h {
			n.h[k] = x
		}
	}
	if v.z != nil {
		n.z = make(map[string]float64, len(v.z))
		for k, x := range v.z {
			n.z[k] = x
		}
	}
	return &n
}

type zel struct {
	s float64
	m string
}

func (v *Val) zsorted() []zel {
	r := make([]zel, 0, len(v.z))
	for m, s := range v.z {
		r = append(r, zel{s, m})
	}
	sort.Slice(r, func(i, j int) bool {
		if r[i].s != r[j].s {
			return r[i].s < r[j].s
		}
		return r[i].m < r[j].m
	})
	return r
}

func (v *Val) canon(sb *strings.Builder, now int64) {
	sb.WriteByte(v.kind)
	switch v.kind {
	case 's':
		sb.WriteString(strconv.Quote(v.s))
	case 'l':
		for _, x := range v.l {
			sb.WriteString(strconv.Quote(x))
		}
	case 'h', 'S':
		for _, k := range sortedKeys(v.h) {
			sb.WriteString(strconv.Quote(k))
			if v.kind == 'h' {
				sb.WriteByte('=')
				sb.WriteString(strconv.Quote(v.h[k]))
			}
		}
	case 'z':
		for _, e := range v.zsorted() {
			sb.WriteString(strconv.Quote(e.m))
			sb.WriteString(strconv.FormatFloat(e.s, 'g', -1, 64))
			sb.WriteByte(' ')
		}
	}
	if v.exp != 0 {
		sb.WriteString(" exp" + strconv.FormatInt(v.exp-now, 10))
	}
}

// Model is the reference keyspace.
type Model struct {
	dbs      []map[string]*Val
	password string
	aof      bool
}

// ConnState is what the server knows of a connection.
type ConnState struct {
	db   int
	auth bool
}

func newModel(cfg config.Config) *Model {
	n := cfg.DatabaseNum
	if n <= 0 {
		n = 16
	}
	m := &Model{password: cfg.RequirePassword, aof: cfg.AofEnable}
	for i := 0; i < n; i++ {
		m.dbs = append(m.dbs, map[string]*Val{})
	}
	return m
}

func (m *Model) clone() *Model {
	n := &Model{password: m.password, aof: m.aof}
	for _, db := range m.dbs {
		d := make(map[string]*Val, len(db))
		for k, v := range db {
			d[k] = v.clone()
		}
		n.dbs = append(n.dbs, d)
	}
	return n
}

func (v *Val) dead(now int64) bool { return v.exp != 0 && v.exp < now }

// live returns the value under key, dropping it if it has expired.
func (m *Model) live(db int, key string, now int64) *Val {
	v := m.dbs[db][key]
	if v != nil && v.dead(now) {
		delete(m.dbs[db], key)
		return nil
	}
	return v
}

func (m *Model) canon(now int64) string {
	var sb strings.Builder
	for i, db := range m.dbs {
		for _, k := range sortedKeys(db) {
			v := db[k]
			if v.dead(now) {
				continue
			}
			fmt.Fprintf(&sb, "%d/%q:", i, k)
			v.canon(&sb, now)
			sb.WriteByte(';')
		}
	}
	return sb.String()
}

// diff compares a dumped keyspace with the model. Expiries in got are rounded to seconds.
func (m *Model) diff(got *Model, now, slack int64) string {
	for i := range m.dbs {
		for _, k := range sortedKeys(m.dbs[i]) {
			v := m.dbs[i][k]
			if v.dead(now) {
				continue
			}
			g := got.dbs[i][k]
			if g == nil {
				if v.exp != 0 && v.exp-slack <= now {
					continue
				}
				return fmt.Sprintf("key %q of db %d is missing, expected %s", k, i, v.show(now))
			}
			if d := v.same(g, now, slack); d != "" {
				return fmt.Sprintf("key %q of db %d: %s", k, i, d)
			}
		}
		for _, k := range sortedKeys(got.dbs[i]) {
			if v := m.dbs[i][k]; v == nil || v.dead(now) {
				return fmt.Sprintf("key %q of db %d exists (%s) and should not", k, i, got.dbs[i][k].show(now))
			}
		}
	}
	return ""
}

func (v *Val) show(now int64) string {
	var sb strings.Builder
	v.canon(&sb, now)
	return cutN(sb.String(), 200)
}

func (v *Val) same(g *Val, now, slack int64) string {
	a, b := *v, *g
	a.exp, b.exp = 0, 0
	if x, y := a.show2(), b.show2(); x != y {
		return fmt.Sprintf("is %s, expected %s", firstDiff(y, x), firstDiff(x, y))
	}
	if (v.exp == 0) != (g.exp == 0) {
		return fmt.Sprintf("expiry present: %v, expected: %v", g.exp != 0, v.exp != 0)
	}
	if v.exp != 0 {
		// g.exp was read as whole seconds, rounded in either direction
		d := g.exp - v.exp
		if d <= -1000-slack || d >= 1000 {
			return fmt.Sprintf("expires in %d ms, expected in %d ms", g.exp-now, v.exp-now)
		}
	}
	return ""
}

func (v *Val) show2() string {
	var sb strings.Builder
	v.canon(&sb, 0)
	return sb.String()
}

func firstDiff(a, b string) string {
	if len(a) < 200 {
		return a
	}
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	i -= 40
	if i < 0 {
		i = 0
	}
	e := i + 160
	if e > len(a) {
		e = len(a)
	}
	return fmt.Sprintf("...%s... (%d characters)", a[i:e], len(a))
}

// --- command semantics ---

type cmdInfo struct {
	arity  int
	kind   byte // type it needs, 0: any
	write  bool
	maxLen int // exact semantics are claimed up to this many arguments
}

var commands = map[string]cmdInfo{
	"ping": {1, 0, false, 0}, "select": {2, 0, false, 0}, "auth": {2, 0, false, 0}, "bgrewriteaof": {1, 0, false, 0},
	"expire": {3, 0, true, 0}, "expireat": {3, 0, true, 0}, "ttl": {2, 0, false, 0}, "del": {-2, 0, true, 0}, "keys": {2, 0, false, 0},
	"set": {-3, 0, true, 3}, "setex": {4, 0, true, 0}, "get": {2, 's', false, 0}, "randomget": {1, 0, false, 0},
	"hset": {-4, 'h', true, 0}, "hget": {3, 'h', false, 0}, "hdel": {-3, 'h', true, 0}, "hexists": {3, 'h', false, 0},
	"hkeys": {2, 'h', false, 0}, "hlen": {2, 'h', false, 0},
	"lpush": {-3, 'l', true, 0}, "rpush": {-3, 'l', true, 0}, "lpop": {2, 'l', true, 0}, "rpop": {2, 'l', true, 0},
	"llen": {2, 'l', false, 0}, "lindex": {3, 'l', false, 0}, "lrange": {-4, 'l', false, 4},
	"sadd": {-3, 'S', true, 0}, "srem": {-3, 'S', true, 0}, "spop": {2, 'S', true, 0}, "scard": {2, 'S', false, 0},
	"sismember": {3, 'S', false, 0}, "smembers": {2, 'S', false, 0}, "sdiff": {-3, 'S', false, 0}, "sinter": {-3, 'S', false, 0},
	"sunion": {-3, 'S', false, 0},
	"zadd":   {-4, 'z', true, 0}, "zrange": {-4, 'z', false, 5}, "zrangebyscore": {-4, 'z', false, 5}, "zrem": {-3, 'z', true, 0},
	"zremrangebyrank": {-4, 'z', true, 4}, "zremrangebyscore": {-4, 'z', true, 4}, "zcard": {2, 'z', false, 0},
	"zcount": {4, 'z', false, 0}, "zscore": {3, 'z', false, 0},
}

func wantErr(r Reply, why string) error {
	if r.T != '-' {
		return fmt.Errorf("answers %s, expected an error (%s)", r, why)
	}
	return nil
}

func wantInt(r Reply, n int64) error {
	if r.T != ':' || r.N != n {
		return fmt.Errorf("answers %s, expected :%d", r, n)
	}
	return nil
}

func wantNull(r Reply) error {
	if (r.T == '$' || r.T == '*') && r.Nil {
		return nil
	}
	return fmt.Errorf("answers %s, expected null", r)
}

func wantOK(r Reply) error {
	if r.T != '+' || r.S != "OK" {
		return fmt.Errorf("answers %s, expected OK", r)
	}
	return nil
}

func wantBulk(r Reply, s string) error {
	if r.T != '$' || r.Nil || r.S != s {
		return fmt.Errorf("answers %s, expected %s", r, Reply{T: '$', S: s})
	}
	return nil
}

func arr(ss []string) Reply {
	r := Reply{T: '*'}
	for _, s := range ss {
		r.A = append(r.A, Reply{T: '$', S: s})
	}
	return r
}

func wantArray(r Reply, want []string) error {
	if len(want) == 0 && r.T == '$' && r.Nil {
		return nil
	}
	if r.T != '*' || len(r.A) != len(want) {
		return fmt.Errorf("answers %s, expected %s", r, arr(want))
	}
	for i := range want {
		if r.A[i].T != '$' || r.A[i].Nil || r.A[i].S != want[i] {
			return fmt.Errorf("answers %s, expected %s (element %d is %s, expected %q)", r, arr(want), i, r.A[i], cutS(want[i]))
		}
	}
	return nil
}

func wantBag(r Reply, want []string) error {
	if len(want) == 0 && r.T == '$' && r.Nil {
		return nil
	}
	if r.T != '*' || len(r.A) != len(want) {
		return fmt.Errorf("answers %s, expected (in any order) %s", r, arr(want))
	}
	got := make([]string, len(want))
	for i, e := range r.A {
		if e.T != '$' || e.Nil {
			return fmt.Errorf("answers %s, expected (in any order) %s", r, arr(want))
		}
		got[i] = e.S
	}
	sort.Strings(got)
	w := append([]string(nil), want...)
	sort.Strings(w)
	for i := range w {
		if got[i] != w[i] {
			return fmt.Errorf("answers %s, expected (in any order) %s", r, arr(want))
		}
	}
	return nil
}

func wantScore(r Reply, f float64) error {
	if (r.T != '+' && r.T != '$') || r.Nil {
		return fmt.Errorf("answers %s, expected score %v", r, f)
	}
	g, err := strconv.ParseFloat(r.S, 64)
	if err != nil || g != f {
		return fmt.Errorf("answers %s, expected score %v", r, f)
	}
	return nil
}

func setOf(v *Val) []string {
	if v == nil {
		return nil
	}
	return sortedKeys(v.h)
}

// clampRange converts a start/stop pair with negative indexes to [lo,hi) of a sequence of n.
func clampRange(start, stop, n int64) (int64, int64) {
	if start < 0 {
		start += n
		if start < 0 {
			start = 0
		}
	}
	if stop < 0 {
		stop += n
	}
	if stop >= n {
		stop = n - 1
	}
	if start > stop || start >= n || stop < 0 {
		return 0, 0
	}
	return start, stop + 1
}

func (m *Model) drop(db int, key string, v *Val) {
	if len(v.l) == 0 && len(v.h) == 0 && len(v.z) == 0 {
		delete(m.dbs[db], key)
	}
}

// exec checks a reply against the semantics of the command and applies the command to the model.
func (m *Model) exec(cs *ConnState, args []string, r Reply, now int64) error {
	name := strings.ToLower(args[0])
	ci, ok := commands[name]
	if !ok {
		return wantErr(r, "unknown command")
	}
	if (ci.arity > 0 && len(args) != ci.arity) || len(args) < -ci.arity {
		return wantErr(r, "wrong number of arguments")
	}
	if m.password != "" && !cs.auth && name != "auth" {
		return wantErr(r, "not authenticated")
	}
	db := cs.db
	d := m.dbs[db]
	var key string
	var v *Val
	if len(args) > 1 && name != "select" && name != "auth" && name != "keys" {
		key = args[1]
		v = m.live(db, key, now)
	}
	if ci.kind != 0 && v != nil && v.kind != ci.kind {
		return wantErr(r, "wrong type")
	}
	ensure := func(kind byte) *Val {
		if v == nil {
			v = &Val{kind: kind}
			switch kind {
			case 'h', 'S':
				v.h = map[string]string{}
			case 'z':
				v.z = map[string]float64{}
			}
			d[key] = v
		}
		return v
	}
	atoi := func(s string) (int64, error) { return strconv.ParseInt(s, 10, 64) }
	switch name {
	case "ping":
		if (r.T != '+' && r.T != '$') || r.S != "PONG" {
			return fmt.Errorf("answers %s, expected PONG", r)
		}
	case "select":
		n, err := atoi(args[1])
		if err != nil || n < 0 || n >= int64(len(m.dbs)) {
			return wantErr(r, "invalid database")
		}
		cs.db = int(n)
		return wantOK(r)
	case "auth":
		if m.password != "" && args[1] != m.password {
			cs.auth = false
			return wantErr(r, "invalid password")
		}
		if m.password == "" && r.T == '-' {
			return nil
		}
		cs.auth = true
		return wantOK(r)
	case "bgrewriteaof":
		if r.T == '+' || (!m.aof && r.T == '-') {
			return nil
		}
		return fmt.Errorf("answers %s", r)
	case "expire", "expireat":
		n, err := atoi(args[2])
		if err != nil {
			return wantErr(r, "not an integer")
		}
		if r.T == '-' && (n > math.MaxInt64/1000-now/1000-1 || n < math.MinInt64/1000+1) {
			return nil // out of range, refused
		}
		if v == nil {
			if (r.T == '+' && r.S == "OK") || (r.T == ':' && r.N == 0) {
				return nil
			}
			return fmt.Errorf("answers %s for a missing key", r)
		}
		if name == "expire" {
			v.exp = satAdd(now, n)
		} else {
			v.exp = satAdd(0, n)
		}
		if (r.T == '+' && r.S == "OK") || (r.T == ':' && r.N == 1) {
			return nil
		}
		return fmt.Errorf("answers %s", r)
	case "ttl":
		if v == nil {
			return wantInt(r, -2)
		}
		if v.exp == 0 {
			return wantInt(r, -1)
		}
		rem := v.exp - now
		if r.T != ':' || r.N != floorDiv(rem, 1000) { // whole seconds
			return fmt.Errorf("answers %s, the remaining time is %d ms", r, rem)
		}
	case "keys":
		re, err := regexp.Compile(args[1])
		if args[1] == "*" {
			re, err = nil, nil
		}
		if err != nil {
			if r.T == '-' || (r.T == '*' && len(r.A) == 0) {
				return nil
			}
			return wantErr(r, "invalid pattern")
		}
		var want []string
		for _, k := range sortedKeys(d) {
			if m.live(db, k, now) != nil && (re == nil || re.MatchString(k)) {
				want = append(want, k)
			}
		}
		if r.T == '$' && r.Nil {
			return fmt.Errorf("answers %s", r)
		}
		return wantBag(r, want)
	case "randomget":
		n := 0
		for _, k := range sortedKeys(d) {
			if m.live(db, k, now) != nil {
				n++
				if r.T == '$' && !r.Nil && r.S == k {
					return nil
				}
			}
		}
		if n == 0 {
			return wantNull(r)
		}
		return fmt.Errorf("answers %s, which is not one of the %d live keys", r, n)
	case "del":
		var n int64
		for _, k := range args[1:] {
			if m.live(db, k, now) != nil {
				n++
				delete(d, k)
			}
		}
		return wantInt(r, n)
	case "set":
		if len(args) != 3 && r.T == '-' {
			return nil // options may be refused or ignored
		}
		d[key] = &Val{kind: 's', s: args[2]}
		if len(args) == 5 && strings.EqualFold(args[3], "exat") {
			if n, err := atoi(args[4]); err == nil {
				d[key].exp = satAdd(0, n)
			}
		}
		return wantOK(r)
	case "setex":
		n, err := atoi(args[2])
		if err != nil {
			return wantErr(r, "not an integer")
		}
		if r.T == '-' && (n <= 0 || n > math.MaxInt64/1000-now/1000-1) {
			return nil
		}
		d[key] = &Val{kind: 's', s: args[3], exp: satAdd(now, n)}
		return wantOK(r)
	case "get":
		if v == nil {
			return wantNull(r)
		}
		return wantBulk(r, v.s)
	case "hset":
		if len(args)%2 != 0 {
			return wantErr(r, "odd number of arguments")
		}
		ensure('h')
		var n int64
		for i := 2; i < len(args); i += 2 {
			if _, ok := v.h[args[i]]; !ok {
				n++
			}
			v.h[args[i]] = args[i+1]
		}
		return wantInt(r, n)
	case "hget":
		if v == nil {
			return wantNull(r)
		}
		x, ok := v.h[args[2]]
		if !ok {
			return wantNull(r)
		}
		return wantBulk(r, x)
	case "hexists", "sismember":
		if v == nil {
			return wantInt(r, 0)
		}
		_, ok := v.h[args[2]]
		return wantInt(r, b2i(ok))
	case "hdel", "srem":
		var n int64
		if v != nil {
			for _, f := range args[2:] {
				if _, ok := v.h[f]; ok {
					n++
					delete(v.h, f)
				}
			}
			m.drop(db, key, v)
		}
		return wantInt(r, n)
	case "hkeys", "smembers":
		if r.T != '*' {
			return fmt.Errorf("answers %s, expected an array", r)
		}
		return wantBag(r, setOf(v))
	case "hlen", "scard":
		return wantInt(r, int64(len(setOf(v))))
	case "lpush", "rpush":
		ensure('l')
		if name == "rpush" {
			v.l = append(v.l, args[2:]...)
		} else {
			l := make([]string, 0, len(args)-2+len(v.l))
			for i := len(args) - 1; i >= 2; i-- {
				l = append(l, args[i])
			}
			v.l = append(l, v.l...)
		}
		return wantInt(r, int64(len(v.l)))
	case "lpop", "rpop":
		if v == nil {
			return wantNull(r)
		}
		var x string
		if name == "lpop" {
			x, v.l = v.l[0], v.l[1:]
		} else {
			x, v.l = v.l[len(v.l)-1], v.l[:len(v.l)-1]
		}
		m.drop(db, key, v)
		return wantBulk(r, x)
	case "llen":
		if v == nil {
			return wantInt(r, 0)
		}
		return wantInt(r, int64(len(v.l)))
	case "lindex":
		i, err := atoi(args[2])
		if err != nil {
			if v == nil {
				return okOrErr(r, wantNull)
			}
			return wantErr(r, "not an integer")
		}
		if v == nil {
			return wantNull(r)
		}
		n := int64(len(v.l))
		if i < 0 {
			i += n
		}
		if i < 0 || i >= n {
			return wantNull(r)
		}
		return wantBulk(r, v.l[i])
	case "lrange":
		a, e1 := atoi(args[2])
		b, e2 := atoi(args[3])
		if e1 != nil || e2 != nil {
			if v == nil {
				return okOrErr(r, func(r Reply) error { return wantArray(r, nil) })
			}
			return wantErr(r, "not an integer")
		}
		if v == nil {
			return wantArray(r, nil)
		}
		lo, hi := clampRange(a, b, int64(len(v.l)))
		return wantArray(r, v.l[lo:hi])
	case "sadd":
		ensure('S')
		var n int64
		for _, x := range args[2:] {
			if _, ok := v.h[x]; !ok {
				n++
				v.h[x] = ""
			}
		}
		return wantInt(r, n)
	case "spop":
		if v == nil {
			return wantNull(r)
		}
		if r.T != '$' || r.Nil {
			return fmt.Errorf("answers %s, expected a member of %v", r, setOf(v))
		}
		if _, ok := v.h[r.S]; !ok {
			return fmt.Errorf("answers %s, which is not a member of %v", r, setOf(v))
		}
		delete(v.h, r.S)
		m.drop(db, key, v)
	case "sdiff", "sinter", "sunion":
		lenient := false
		var sets []map[string]string
		for _, k := range args[1:] {
			x := m.live(db, k, now)
			if x != nil && x.kind != 'S' {
				if lenient && r.T != '-' {
					// an earlier operand decides already; either answer
					sets = append(sets, nil)
					continue
				}
				return wantErr(r, "wrong type")
			}
			if x == nil {
				lenient = true
				sets = append(sets, nil)
			} else {
				sets = append(sets, x.h)
			}
		}
		if r.T != '*' {
			return fmt.Errorf("answers %s, expected an array", r)
		}
		res := map[string]string{}
		for k := range sets[0] {
			res[k] = ""
		}
		for _, s := range sets[1:] {
			switch name {
			case "sunion":
				for k := range s {
					res[k] = ""
				}
			case "sdiff":
				for k := range s {
					delete(res, k)
				}
			case "sinter":
				for k := range res {
					if _, ok := s[k]; !ok {
						delete(res, k)
					}
				}
			}
		}
		return wantBag(r, sortedKeys(res))
	case "zadd":
		if len(args)%2 != 0 {
			return wantErr(r, "odd number of arguments")
		}
		var sc []float64
		for i := 2; i < len(args); i += 2 {
			f, err := strconv.ParseFloat(args[i], 64)
			if err != nil || math.IsNaN(f) {
				return wantErr(r, "malformed score")
			}
			sc = append(sc, f)
		}
		ensure('z')
		var n int64
		for i, f := range sc {
			mem := args[3+2*i]
			if _, ok := v.z[mem]; !ok {
				n++
			}
			v.z[mem] = f
		}
		return wantInt(r, n)
	case "zrem":
		var n int64
		if v != nil {
			for _, f := range args[2:] {
				if _, ok := v.z[f]; ok {
					n++
					delete(v.z, f)
				}
			}
			m.drop(db, key, v)
		}
		return wantInt(r, n)
	case "zcard":
		if v == nil {
			return wantInt(r, 0)
		}
		return wantInt(r, int64(len(v.z)))
	case "zscore":
		if v == nil {
			return wantNull(r)
		}
		f, ok := v.z[args[2]]
		if !ok {
			return wantNull(r)
		}
		return wantScore(r, f)
	case "zcount", "zrangebyscore", "zremrangebyscore":
		lo, e1 := strconv.ParseFloat(args[2], 64)
		hi, e2 := strconv.ParseFloat(args[3], 64)
		if e1 != nil || e2 != nil {
			return wantErr(r, "malformed score")
		}
		if math.IsNaN(lo) || math.IsNaN(hi) {
			if r.T == '-' {
				return nil
			}
		}
		var sel []zel
		if v != nil {
			for _, e := range v.zsorted() {
				if e.s >= lo && e.s <= hi {
					sel = append(sel, e)
				}
			}
		}
		switch name {
		case "zcount":
			return wantInt(r, int64(len(sel)))
		case "zremrangebyscore":
			for _, e := range sel {
				delete(v.z, e.m)
			}
			if v != nil {
				m.drop(db, key, v)
			}
			return wantInt(r, int64(len(sel)))
		}
		return wantZ(r, sel, args, 4, v == nil)
	case "zrange", "zremrangebyrank":
		a, e1 := atoi(args[2])
		b, e2 := atoi(args[3])
		if e1 != nil || e2 != nil {
			return wantErr(r, "not an integer")
		}
		var sel []zel
		if v != nil {
			all := v.zsorted()
			lo, hi := clampRange(a, b, int64(len(all)))
			sel = all[lo:hi]
		}
		if name == "zremrangebyrank" {
			for _, e := range sel {
				delete(v.z, e.m)
			}
			if v != nil {
				m.drop(db, key, v)
			}
			return wantInt(r, int64(len(sel)))
		}
		return wantZ(r, sel, args, 4, v == nil)
	}
	return nil
}

func okOrErr(r Reply, f func(Reply) error) error {
	if r.T == '-' {
		return nil
	}
	return f(r)
}

func wantZ(r Reply, sel []zel, args []string, opt int, missing bool) error {
	with := false
	if len(args) > opt {
		if !strings.EqualFold(args[opt], "withscores") {
			if missing && r.T != '-' {
				return wantArray(r, nil)
			}
			return wantErr(r, "invalid option")
		}
		with = true
	}
	if len(sel) == 0 {
		return wantArray(r, nil)
	}
	n := len(sel)
	if with {
		n *= 2
	}
	var want []string
	for _, e := range sel {
		want = append(want, e.m)
		if with {
			want = append(want, strconv.FormatFloat(e.s, 'f', -1, 64))
		}
	}
	if r.T != '*' || len(r.A) != n {
		return fmt.Errorf("answers %s, expected %s", r, arr(want))
	}
	for i := range r.A {
		if with && i%2 == 1 {
			if err := wantScore(r.A[i], sel[i/2].s); err != nil {
				return fmt.Errorf("answers %s, expected %s", r, arr(want))
			}
			continue
		}
		if r.A[i].T != '$' || r.A[i].Nil || r.A[i].S != want[i] {
			return fmt.Errorf("answers %s, expected %s", r, arr(want))
		}
	}
	return nil
}

func satAdd(now, secs int64) int64 {
	if secs > (math.MaxInt64-now)/1000 {
		return math.MaxInt64
	}
	if secs < (math.MinInt64+1)/1000 {
		return 1
	}
	x := now + secs*1000
	if x <= 0 {
		x = 1 // long past
	}
	return x
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}
