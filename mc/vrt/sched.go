// Package verifvrt is the closed world in which the system under test runs during model checking:
// virtual time, scripted randomness, a simulated kernel, and a cooperative scheduler whose every
// decision is taken by the harness.
package verifvrt

import (
	"fmt"
	"iter"
	"reflect"
	"runtime/debug"
)

type PointKind uint8

const (
	PStart PointKind = iota
	PEpoll
	PFS
	PAtomic
	PChan
	PLock
	PSock
	PYield
	PMem
)

var kindNames = []string{"start", "epoll", "fs", "atomic", "chan", "lock", "sock", "yield", "mem"}

func (k PointKind) String() string { return kindNames[k] }

// Point is where a thread waits for the scheduler.
type Point struct {
	Kind    PointKind
	Label   string
	Ready   func() bool // nil: always enabled
	Timeout int         // PEpoll: timeout in ms
	EpFD    int
}

type killed struct{}

// Exit is the panic value that stands for the process exiting.
type Exit struct {
	Code int
	Msg  string
}

func (e Exit) String() string { return fmt.Sprintf("process exit(%d) %s", e.Code, e.Msg) }

type Thread struct {
	ID    int
	Name  string
	Pt    Point
	Done  bool
	Panic any
	Stack string
	next  func() (Point, bool)
	stop  func()
	yield func(Point) bool
}

func (t *Thread) Enabled() bool {
	if t.Done {
		return false
	}
	return t.Pt.Ready == nil || t.Pt.Ready()
}

func (t *Thread) AtEpoll() bool { return !t.Done && t.Pt.Kind == PEpoll }

type World struct {
	NowNS    int64 // time that has passed
	WallOff  int64 // by how much the system clock has been set, in ns
	Threads  []*Thread
	Cur      *Thread
	Fine     bool // scheduling points at every file/channel/atomic/lock operation
	SlowSync bool // with Fine: a scheduling point inside every fsync
	Mem      int  // with Fine: points at function and loop bodies too; 1: of background threads, 2: of all
	killing  bool

	Rand  RandState
	Net   NetState
	FS    *FS
	Log   []Effect
	Rec   bool   // record effects
	NowFn func() // called at every clock reading, if set

	Anomalies []string
	Sleepers  int

	unbufs map[uintptr]*unbuf
	sel    []func() bool
	timers []*Time_Timer
}

// W is the current world. Exactly one exists per process at a time.
var W *World

const StartSec = 1_700_000_000

func NewWorld(fs *FS, nowNS int64) *World {
	w := &World{NowNS: nowNS, FS: fs}
	if fs == nil {
		w.FS = NewFS()
	}
	if nowNS == 0 {
		w.NowNS = StartSec * 1e9
	}
	w.Rand.reset()
	w.Net.init()
	W = w
	return w
}

func (w *World) Anomaly(format string, args ...any) {
	if !w.killing {
		w.Anomalies = append(w.Anomalies, fmt.Sprintf(format, args...))
	}
}

// Spawn registers a new thread; it does not run until Step.
func (w *World) Spawn(name string, f func()) *Thread {
	t := &Thread{ID: len(w.Threads), Name: name}
	t.Pt = Point{Kind: PStart}
	seq := func(yield func(Point) bool) {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(killed); ok {
					return
				}
				if _, ok := r.(interface{ HarnessPanic() }); ok {
					panic(r) // a harness callback ends the execution
				}
				if w.killing {
					return
				}
				t.Panic = r
				if _, ok := r.(Exit); !ok {
					t.Stack = string(debug.Stack())
				}
			}
		}()
		t.yield = yield
		f()
	}
	t.next, t.stop = iter.Pull(iter.Seq[Point](seq))
	w.Threads = append(w.Threads, t)
	return t
}

// Step runs t to its next scheduling point.
func (w *World) Step(t *Thread) {
	prev := w.Cur
	w.Cur = t
	pt, ok := t.next()
	w.Cur = prev
	if !ok {
		t.Done = true
		return
	}
	t.Pt = pt
}

// Kill abandons all threads (a process crash as far as they are concerned).
func (w *World) Kill() {
	w.killing = true
	for i := 0; i < len(w.Threads); i++ {
		t := w.Threads[i]
		w.Cur = t
		t.stop()
		t.Done = true
	}
	w.Cur = nil
}

// Dead returns the thread whose panic or exit ended the process, if any.
func (w *World) Dead() *Thread {
	for _, t := range w.Threads {
		if t.Panic != nil {
			return t
		}
	}
	return nil
}

func point(p Point) {
	w := W
	if w == nil || w.killing {
		if w != nil && p.Ready != nil && !p.Ready() {
			panic(killed{})
		}
		return
	}
	t := w.Cur
	if t == nil {
		if p.Ready != nil && !p.Ready() {
			panic("verifvrt: blocking operation outside a thread: " + p.Label)
		}
		return
	}
	if p.Kind != PEpoll && !w.Fine {
		if p.Ready == nil || p.Ready() {
			return
		}
	}
	if !t.yield(p) {
		panic(killed{})
	}
}

// GoCall starts a goroutine of the system under test as a cooperative thread.
func GoCall(fn any, args ...any) { goCall(fn, args, false) }

// GoCallSlice is GoCall for a call with "...".
func GoCallSlice(fn any, args ...any) { goCall(fn, args, true) }

func goCall(fn any, args []any, slice bool) {
	if f, ok := fn.(func()); ok && len(args) == 0 {
		W.Spawn("go", f)
		return
	}
	v := reflect.ValueOf(fn)
	t := v.Type()
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		var pt reflect.Type
		if t.IsVariadic() && i >= t.NumIn()-1 && !slice {
			pt = t.In(t.NumIn() - 1).Elem()
		} else {
			pt = t.In(i)
		}
		if a == nil {
			in[i] = reflect.Zero(pt)
			continue
		}
		x := reflect.ValueOf(a)
		if !x.Type().AssignableTo(pt) {
			x = x.Convert(pt)
		}
		in[i] = x
	}
	W.Spawn("go", func() {
		if slice {
			v.CallSlice(in)
		} else {
			v.Call(in)
		}
	})
}

// Beats counts the functions and loop bodies entered.
var Beats int

// Mem is a scheduling point between plain memory accesses.
func Mem() {
	Beats++
	if w := W; w != nil && w.Mem > 0 && w.Fine && w.Cur != nil && (w.Mem > 1 || w.Cur.ID > 0) {
		point(Point{Kind: PMem, Label: "memory"})
	}
}

// --- channels ---

// unbuf holds, per unbuffered channel, how many senders have handed over a value (to a helper
// goroutine that is about to deliver it) and how many receivers wait.
type unbuf struct{ sent, waiting int }

func (w *World) unbuf(ch any) *unbuf {
	p := reflect.ValueOf(ch).Pointer()
	if w.unbufs == nil {
		w.unbufs = map[uintptr]*unbuf{}
	}
	if w.unbufs[p] == nil {
		w.unbufs[p] = &unbuf{}
	}
	return w.unbufs[p]
}

func sendReady[T any](ch chan<- T) bool {
	if ch == nil {
		return false
	}
	if cap(ch) > 0 {
		return len(ch) < cap(ch)
	}
	u := W.unbuf(ch)
	return u.waiting > u.sent
}

// Send is ch <- v.
func Send[T any](ch chan<- T) func(T) {
	return func(v T) {
		point(Point{Kind: PChan, Label: "send", Ready: func() bool { return sendReady(ch) }})
		if cap(ch) > 0 || W == nil {
			ch <- v
			return
		}
		W.unbuf(ch).sent++
		go func() { defer func() { recover() }(); ch <- v }()
	}
}

func recvReady[T any](ch <-chan T) bool {
	if ch == nil {
		return false
	}
	W.fireTimers()
	if len(ch) > 0 {
		return true
	}
	if cap(ch) == 0 && W != nil && W.unbuf(ch).sent > 0 {
		return true
	}
	if cap(ch) == 0 || len(ch) == 0 {
		select {
		case _, ok := <-ch:
			return !ok
		default:
		}
	}
	return false
}

// recvWait waits until a value can be received from ch; done is to be called after the receive.
func recvWait[T any](ch <-chan T) (done func()) {
	if W == nil || cap(ch) > 0 || ch == nil {
		point(Point{Kind: PChan, Label: "recv", Ready: func() bool { return recvReady(ch) }})
		return func() {}
	}
	u := W.unbuf(ch)
	u.waiting++
	point(Point{Kind: PChan, Label: "recv", Ready: func() bool { return recvReady(ch) }})
	u.waiting--
	return func() {
		if u.sent > 0 {
			u.sent--
		}
	}
}

func Recv[T any](ch <-chan T) T {
	done := recvWait(ch)
	v := <-ch
	done()
	return v
}

func Recv2[T any](ch <-chan T) (T, bool) {
	done := recvWait(ch)
	v, ok := <-ch
	done()
	return v, ok
}

// SelRecv and SelSend stand around the channel operands of a select, which are evaluated in order.
func SelRecv[T any](last, def bool, ch <-chan T) <-chan T {
	selWait(last, def, func() bool { return recvReady(ch) })
	return ch
}

func SelSend[T any](last, def bool, ch chan<- T) chan<- T {
	selWait(last, def, func() bool { return sendReady(ch) })
	return ch
}

func selWait(last, def bool, ready func() bool) {
	w := W
	if w == nil {
		return
	}
	w.sel = append(w.sel, ready)
	if !last {
		return
	}
	l := w.sel
	w.sel = nil
	if def {
		point(Point{Kind: PChan, Label: "select"})
		w.fireTimers()
		return
	}
	point(Point{Kind: PChan, Label: "select", Ready: func() bool {
		for _, r := range l {
			if r() {
				return true
			}
		}
		return false
	}})
}
