//go:build go1.23

package main

import (
	"bytes"
	"fmt"
	"slices"
	"strconv"

	rt "github.com/IfanTsai/metis/verifvrt"
)

// --- C40: a damaged append-only file is refused and left as it is ---

const (
	logWhole     = iota // a sequence of commands
	logTorn             // a sequence of commands and the beginning of another one
	logMalformed        // neither
	logOdd              // depends on how numbers are read; not judged
)

var logKinds = []string{"whole", "torn", "malformed", "odd"}

// readLog is an independent, strict reader of append-only files.
func readLog(b []byte) (cmds [][]string, kind int) {
	p := 0
	// number reads a line of the given type; ok is false at the end of the file
	number := func(typ byte) (n int, kind int) {
		if p == len(b) {
			return 0, logTorn
		}
		if b[p] != typ {
			return 0, logMalformed
		}
		q := p + 1
		for q < len(b) && b[q] >= '0' && b[q] <= '9' {
			q++
		}
		digits := b[p+1 : q]
		if q < len(b) && b[q] != '\r' || q+1 < len(b) && b[q+1] != '\n' {
			if q < len(b) && (b[q] == '+' || b[q] == '-' || b[q] == '_' || b[q] == '\n' || b[q] == '\r') {
				// signs, line ends of other kinds
				return 0, logOdd
			}
			if i := bytes.IndexByte(b[p:], '\n'); i < 0 {
				return 0, logOdd // a line without an end, could have been torn
			}
			return 0, logMalformed
		}
		if len(digits) > 1 && digits[0] == '0' || len(digits) > 9 {
			return 0, logOdd
		}
		if q+2 > len(b) {
			return 0, logTorn
		}
		if len(digits) == 0 {
			return 0, logMalformed
		}
		n, _ = strconv.Atoi(string(digits))
		p = q + 2
		return n, logWhole
	}
	for p < len(b) {
		argc, k := number('*')
		if k != logWhole {
			return cmds, k
		}
		if argc == 0 {
			return cmds, logOdd
		}
		var args []string
		for i := 0; i < argc; i++ {
			n, k := number('$')
			if k != logWhole {
				return cmds, k
			}
			if p+n+2 > len(b) {
				if p+n < len(b) && b[p+n] != '\r' {
					return cmds, logOdd
				}
				return cmds, logTorn
			}
			if string(b[p+n:p+n+2]) != "\r\n" {
				return cmds, logMalformed
			}
			args = append(args, string(b[p:p+n]))
			p += n + 2
		}
		cmds = append(cmds, args)
	}
	return cmds, logWhole
}

func damages(ops []op, depth int, bytes []byte, large bool) func(c *Ctx) {
	return func(c *Ctx) {
		seq := choosePick(c, ops, depth)
		t := &tornHist{e: newSeq(c, never(), 1)}
		e := t.e
		defer func() { e.s.end() }()
		t.snap()
		t.do(o("sadd s u v"))
		if large {
			t.do(oa("set", "big", fill(70000)))
		}
		for _, p := range seq {
			t.do(p)
		}
		t.do(o("set last one"))
		orig := append([]byte(nil), e.s.aofBytes()...)
		var b []byte
		what := ""
		if c.Choose(2, "damage of") == 1 { // several bytes
			ends := t.ends[1:]
			at := ends[c.Choose(len(ends), "after command")]
			switch c.Choose(4, "damage") {
			case 0:
				what = "garbage between commands"
				g := []string{"\r\n", "garbage\r\n", "$1\r\nx\r\n", "\x00\x00\x00\x00\x00\x00\x00\x00\n", "*\r\n", "+OK\r\n", "*1\r\n*1\r\n", "*-1\r\n"}[c.Choose(8, "garbage")]
				b = slices.Concat(orig[:at], []byte(g), orig[at:])
			case 1:
				n := []int{2, 3, 5, 16}[c.Choose(4, "bytes")]
				if at+n > len(orig) {
					return
				}
				what = "bytes missing at the beginning of a command"
				b = slices.Concat(orig[:at], orig[at+n:])
			case 2:
				n := []int{1, 2, 3, 5, 8}[c.Choose(5, "bytes")]
				what = "bytes missing at the end of a command"
				b = slices.Concat(orig[:at-n], orig[at:])
			case 3:
				n := []int{4, 8, 12}[c.Choose(3, "bytes")]
				what = "bytes that became zero"
				b = slices.Concat(orig[:at-n], make([]byte, n), orig[at:])
			}
		} else {
			n := len(orig)
			if large {
				n = min(n, 200)
			}
			i := c.Choose(n, "position")
			if large && i >= 100 {
				i = len(orig) - 200 + i
			}
			k := c.Choose(2*len(bytes)+1, "damage")
			switch {
			case k < len(bytes):
				b = append([]byte(nil), orig...)
				b[i] = bytes[k]
				what = fmt.Sprintf("byte %d is %q instead of %q", i, b[i], orig[i])
			case k < 2*len(bytes):
				b = slices.Concat(orig[:i], bytes[k-len(bytes):k-len(bytes)+1], orig[i:])
				what = fmt.Sprintf("%q is inserted at byte %d", b[i], i)
			default:
				b = slices.Concat(orig[:i], orig[i+1:])
				what = fmt.Sprintf("byte %d is missing", i)
			}
		}
		cmds, kind := readLog(b)
		whole, k0 := readLog(orig)
		c.Check(k0 == logWhole, "the file written by the server is %s: %q", logKinds[k0], cutN(string(orig), 300))
		same := len(cmds) <= len(whole)
		for i := range cmds {
			same = same && slices.Equal(cmds[i], whole[i])
		}
		e.s.w.Kill()
		fs := rt.NewFS()
		for p, i := range e.s.w.FS.Files {
			fs.Files[p] = &rt.Inode{ID: i.ID, Data: append([]byte(nil), i.Data...)}
		}
		fs.Files[aofPath].Data = append([]byte(nil), b...)
		e.s.w.FS = fs
		s := start(c, fs, e.s.cfg, e.s.w.NowNS)
		s.dieOK = true
		for !s.t0.AtEpoll() && !s.t0.Done && s.w.Dead() == nil {
			s.step(s.t0)
		}
		e.s = s
		up := s.w.Dead() == nil && !s.t0.Done
		c.Logf("%s (%s): the server starts: %v", what, logKinds[kind], up)
		c.State(fmt.Sprint(kind, up, what))
		if !up {
			now := fs.Files[aofPath]
			c.Check(now != nil && string(now.Data) == string(b), "%s: the server refuses to start and changes the file", what)
			c.Check(kind == logMalformed || kind == logOdd || !same, "%s: the server does not start although the file is %s", what, logKinds[kind])
			return
		}
		s.dieOK = false
		c.Check(kind != logMalformed, "%s: the server starts on a file that is no sequence of commands", what)
		if kind == logOdd || !same {
			return
		}
		// exactly the complete commands
		n := 0
		for ; len(cmds) > 0 && n+1 < len(t.ends); n++ {
			c2, _ := readLog(orig[:t.ends[n+1]])
			if len(c2) > len(cmds) {
				break
			}
		}
		s.compare(t.snaps[n], 1000, what)
		c.Sample(fmt.Sprintf("%s after %v: %s, started: %v", what, seq, logKinds[kind], up))
	}
}

func init() {
	ops := opsOf(`
		set a #
		setex b 50 #
		rpush l x# y#
		select 1
		expire s 100
		hset h f #
		del s
		zadd z 1.5 m
		set "" ""`)
	structural := []byte("*$019\r\nx\x00-")
	register(&Check{
		ID:          "C40",
		Explanation: "For all short command histories every byte of the append-only file is replaced by, or preceded by, each of a set of bytes, or missing; bytes at the end or the beginning of a command are missing or zero; garbage stands between commands. An independent strict reader says whether the result is a sequence of commands, a torn one, or neither; the real server is started on it.",
		Assumptions: []string{"damage that leaves a well-formed sequence of other commands is not recognisable; unusual spellings of numbers and line ends are not judged"},
		Phases: []Phase{
			{Name: "one command", Shard: 3, Weight: 3, Run: damages(ops, 1, structural, false)},
			{Name: "large command", Shard: 3, Weight: 2, Run: damages(ops[:2], 1, structural[:6], true)},
			{Name: "two commands", Shard: 4, Weight: 5, Run: damages(ops, 2, []byte("*$1\r\x00"), false)},
			{Name: "any byte", Tier: "thorough", Shard: 3, Weight: 5, Run: damages(ops, 1, allBytes(), false)},
			{Name: "three commands", Tier: "thorough", Shard: 4, Weight: 5, Run: damages(ops, 3, []byte("*$1\rx"), false)},
		},
	})
}

func allBytes() []byte {
	b := make([]byte, 256)
	for i := range b {
		b[i] = byte(i)
	}
	return b
}
