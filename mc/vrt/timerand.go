package verifvrt

import (
	"time"
	"unsafe"
)

// --- clock ---

// NowMS is what the system clock says.
func (w *World) NowMS() int64 { return (w.NowNS + w.WallOff) / 1e6 }

// stdTime has the layout of time.Time.
type stdTime struct {
	wall uint64
	ext  int64
	loc  *time.Location
}

// clockReading is a time.Time as time.Now makes it, with a wall clock and a monotonic clock reading.
func clockReading(wall, mono int64) time.Time {
	const since1885 = 2682288000 // seconds from 1885 to 1970
	t := time.Unix(0, wall)
	sec := uint64(t.Unix() + since1885)
	if sec>>33 != 0 {
		return t
	}
	r := t
	p := (*stdTime)(unsafe.Pointer(&r))
	p.wall, p.ext = 1<<63|sec<<30|uint64(t.Nanosecond()), mono
	if !r.Equal(t) {
		return t
	}
	return r
}

func now() time.Time {
	if W == nil {
		return clockReading(StartSec*1e9, StartSec*1e9)
	}
	if W.NowFn != nil {
		W.NowFn()
	}
	return clockReading(W.NowNS+W.WallOff, W.NowNS)
}

func Time_Now() time.Time                  { return now() }
func Time_Since(t time.Time) time.Duration { return now().Sub(t) }
func Time_Until(t time.Time) time.Duration { return t.Sub(now()) }
func Time_Sleep(d time.Duration) {
	if W == nil || W.killing {
		return
	}
	if W.Cur == nil || len(W.Threads) <= 1 {
		W.NowNS += int64(d)
		return
	}
	until := W.NowNS + int64(d)
	W.Sleepers++
	w := W
	point(Point{Kind: PYield, Label: "sleep", Ready: func() bool { return w.NowNS >= until }})
	W.Sleepers--
}

// Time_Timer stands for time.Timer; its channel fills when virtual time has come to it and somebody looks.
type Time_Timer struct {
	C      <-chan time.Time
	c      chan time.Time
	f      func()
	when   int64
	period int64
	gen    int
	live   bool
}

// Time_Ticker stands for time.Ticker.
type Time_Ticker struct {
	C <-chan time.Time
	t *Time_Timer
}

func (w *World) fireTimers() {
	if w == nil {
		return
	}
	for _, t := range w.timers {
		if t.live && t.c != nil && w.NowNS >= t.when {
			select {
			case t.c <- clockReading(w.NowNS+w.WallOff, w.NowNS):
			default:
			}
			if t.period > 0 {
				t.when = w.NowNS + t.period
			} else {
				t.live = false
			}
		}
	}
}

func (t *Time_Timer) start(d time.Duration) {
	w := W
	t.live = true
	t.gen++
	gen := t.gen
	t.when = w.NowNS + int64(d)
	if t.f == nil {
		return
	}
	w.Spawn("timer", func() {
		point(Point{Kind: PYield, Label: "timer", Ready: func() bool { return t.gen != gen || !t.live || w.NowNS >= t.when }})
		if t.gen == gen && t.live {
			t.live = false
			t.f()
		}
	})
}

func newTimer(d, period time.Duration, f func()) *Time_Timer {
	t := &Time_Timer{f: f, period: int64(period)}
	if f == nil {
		t.c = make(chan time.Time, 1)
		t.C = t.c
	}
	W.timers = append(W.timers, t)
	t.start(d)
	return t
}

func (t *Time_Timer) Stop() bool { was := t.live; t.live = false; return was }
func (t *Time_Timer) Reset(d time.Duration) bool {
	was := t.live
	if t.c != nil && len(t.c) > 0 {
		<-t.c
	}
	t.start(d)
	return was
}
func (t *Time_Ticker) Stop() { t.t.Stop() }
func (t *Time_Ticker) Reset(d time.Duration) {
	t.t.period = int64(d)
	t.t.Reset(d)
}

func Time_NewTimer(d time.Duration) *Time_Timer            { return newTimer(d, 0, nil) }
func Time_AfterFunc(d time.Duration, f func()) *Time_Timer { return newTimer(d, 0, f) }
func Time_After(d time.Duration) <-chan time.Time          { return newTimer(d, 0, nil).C }
func Time_NewTicker(d time.Duration) *Time_Ticker {
	t := newTimer(d, d, nil)
	return &Time_Ticker{C: t.C, t: t}
}
func Time_Tick(d time.Duration) <-chan time.Time { return Time_NewTicker(d).C }

// --- randomness ---

// Draw is one scripted random outcome.
type Draw struct {
	Kind byte // 'l' lowest value, 'h' highest value, 'v' the value V (reduced to the range)
	V    uint64
}

type RandState struct {
	Script  []Draw
	Counter int64 // >= 0: draws are Counter, Counter+1, ... (reduced to the range)
	Used    int   // draws made since the last Set
	s       uint64
	Salt    uint64
}

func (r *RandState) reset() { r.s = 0x9e3779b97f4a7c15; r.Counter = -1; r.Script = nil; r.Used = 0 }

func (r *RandState) Seed(s uint64) { r.s = 0x9e3779b97f4a7c15 ^ (s * 0xbf58476d1ce4e5b9) }

func (r *RandState) prng() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// draw returns a value in [0, n) (n == 0: full uint64 range).
func draw(n uint64) uint64 {
	if W == nil {
		var r RandState
		r.reset()
		return 0
	}
	r := &W.Rand
	r.Used++
	var d Draw
	switch {
	case len(r.Script) > 0:
		d = r.Script[0]
		r.Script = r.Script[1:]
	case r.Counter >= 0:
		d = Draw{'v', uint64(r.Counter)}
		r.Counter++
	default:
		d = Draw{'v', r.prng()}
	}
	switch d.Kind {
	case 'l':
		return 0
	case 'h':
		return n - 1
	}
	if n == 0 {
		return d.V
	}
	return d.V % n
}

func unit() float64 {
	if W == nil {
		return 0
	}
	r := &W.Rand
	if len(r.Script) == 0 && r.Counter >= 0 {
		r.Used++
		v := float64(r.Counter%64) / 64
		r.Counter++
		return v
	}
	return float64(draw(1<<53)) / (1 << 53)
}

func need(n int64, f string) {
	if n <= 0 {
		panic("invalid argument to " + f)
	}
}

func Rand_Int63() int64            { return int64(draw(1 << 63)) }
func Rand_Int64() int64            { return int64(draw(1 << 63)) }
func Rand_Int31() int32            { return int32(draw(1 << 31)) }
func Rand_Int32() int32            { return int32(draw(1 << 31)) }
func Rand_Int() int                { return int(draw(1 << 63)) }
func Rand_Uint32() uint32          { return uint32(draw(1 << 32)) }
func Rand_Uint64() uint64          { return draw(0) }
func Rand_Intn(n int) int          { need(int64(n), "Intn"); return int(draw(uint64(n))) }
func Rand_IntN(n int) int          { need(int64(n), "IntN"); return int(draw(uint64(n))) }
func Rand_Int63n(n int64) int64    { need(n, "Int63n"); return int64(draw(uint64(n))) }
func Rand_Int64N(n int64) int64    { need(n, "Int64N"); return int64(draw(uint64(n))) }
func Rand_Int31n(n int32) int32    { need(int64(n), "Int31n"); return int32(draw(uint64(n))) }
func Rand_Int32N(n int32) int32    { need(int64(n), "Int32N"); return int32(draw(uint64(n))) }
func Rand_Uint32N(n uint32) uint32 { need(int64(n), "Uint32N"); return uint32(draw(uint64(n))) }
func Rand_Uint64N(n uint64) uint64 { need(int64(n), "Uint64N"); return draw(n) }
func Rand_Float64() float64        { return unit() }
func Rand_Float32() float32        { return float32(unit()) }
func Rand_Seed(int64)              {}
func Rand_Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	Rand_Shuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
	return p
}
func Rand_Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, int(draw(uint64(i+1))))
	}
}

func Rand_ExpFloat64() float64  { return unit() }
func Rand_NormFloat64() float64 { return unit() - 0.5 }

// Rand_N is rand.N of math/rand/v2.
func Rand_N[T interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}](n T) T {
	need(int64(n), "N")
	return T(draw(uint64(n)))
}

// Rand_Rand stands for rand.Rand, Rand_Source for rand.Source: every generator draws from the script.
type Rand_Rand struct{}
type Rand_Source interface{ source() }
type scripted struct{}

func (scripted) source() {}

func Rand_NewSource(int64) Rand_Source             { return scripted{} }
func Rand_NewPCG(_, _ uint64) Rand_Source          { return scripted{} }
func Rand_New(Rand_Source) *Rand_Rand              { return &Rand_Rand{} }
func (*Rand_Rand) Seed(int64)                      {}
func (*Rand_Rand) Int63() int64                    { return Rand_Int63() }
func (*Rand_Rand) Int64() int64                    { return Rand_Int64() }
func (*Rand_Rand) Int31() int32                    { return Rand_Int31() }
func (*Rand_Rand) Int32() int32                    { return Rand_Int32() }
func (*Rand_Rand) Int() int                        { return Rand_Int() }
func (*Rand_Rand) Uint32() uint32                  { return Rand_Uint32() }
func (*Rand_Rand) Uint64() uint64                  { return Rand_Uint64() }
func (*Rand_Rand) Intn(n int) int                  { return Rand_Intn(n) }
func (*Rand_Rand) IntN(n int) int                  { return Rand_IntN(n) }
func (*Rand_Rand) Int63n(n int64) int64            { return Rand_Int63n(n) }
func (*Rand_Rand) Int64N(n int64) int64            { return Rand_Int64N(n) }
func (*Rand_Rand) Int31n(n int32) int32            { return Rand_Int31n(n) }
func (*Rand_Rand) Int32N(n int32) int32            { return Rand_Int32N(n) }
func (*Rand_Rand) Uint32N(n uint32) uint32         { return Rand_Uint32N(n) }
func (*Rand_Rand) Uint64N(n uint64) uint64         { return Rand_Uint64N(n) }
func (*Rand_Rand) Float64() float64                { return Rand_Float64() }
func (*Rand_Rand) Float32() float32                { return Rand_Float32() }
func (*Rand_Rand) Perm(n int) []int                { return Rand_Perm(n) }
func (*Rand_Rand) Shuffle(n int, f func(i, j int)) { Rand_Shuffle(n, f) }
