//go:build go1.23

package main

import (
	"fmt"
	"syscall"

	"github.com/IfanTsai/metis/ae"
	"github.com/IfanTsai/metis/socket"
	rt "github.com/IfanTsai/metis/verifvrt"
)

// --- the event loop on its own ---

type lTimer struct {
	id      int64
	known   bool
	order   int64
	mask    ae.TypeTimeEvent
	iv      int64
	early   int64 // not before this instant
	due     int64 // at an iteration whose wait ends at or after this instant
	alive   bool
	running bool
	fired   int
	iter    int // last iteration in which it fired
	alone   bool
}

type fKey struct {
	fd   int
	mask ae.TypeFileEvent
}

type lFile struct {
	data  int
	wait  bool // registered when the current iteration's wait ended
	touch bool // removed (and perhaps added again) since
}

type loopEnv struct {
	c      *Ctx
	w      *rt.World
	t      *rt.Thread
	el     *ae.EventLoop
	timers []*lTimer
	offset int64
	iter   int
	inWait bool

	files  map[fKey]*lFile
	data   int
	want   map[fKey]bool // of this iteration, still to run
	may    map[fKey]bool // may run although not at the wait
	ran    map[fKey]bool
	slept  int
	conns  []*rt.Conn
	fds    []int
	onTime func(t *lTimer)
	onFile func(k fKey, data int)
}

func newLoop(c *Ctx, nconn int, setup func(e *loopEnv)) *loopEnv {
	e := &loopEnv{c: c, files: map[fKey]*lFile{}, want: map[fKey]bool{}, may: map[fKey]bool{}, ran: map[fKey]bool{}}
	e.w = rt.NewWorld(nil, 1_700_000_000_000_700_000)
	e.t = e.w.Spawn("loop", func() {
		el, err := ae.NewEventLoop()
		if err != nil {
			c.Fail("NewEventLoop: %v", err)
		}
		e.el = el
		if nconn > 0 {
			lfd, err := rt.Syscall_Socket(syscall.AF_INET, syscall.SOCK_STREAM, 0)
			if err == nil {
				err = rt.Syscall_Bind(lfd, &syscall.SockaddrInet4{Port: 7000, Addr: localhost})
			}
			if err == nil {
				err = rt.Syscall_Listen(lfd, 1024)
			}
			if err != nil {
				panic("verifmc: " + err.Error())
			}
			for i := 0; i < nconn; i++ {
				k := e.w.Dial(localhost, 7000)
				fd, _, err := rt.Syscall_Accept(lfd)
				if err != nil {
					panic("verifmc: " + err.Error())
				}
				e.conns = append(e.conns, k)
				e.fds = append(e.fds, fd)
			}
		}
		el.SetBeforeSleepProc(func(l *ae.EventLoop) {
			c.Check(l == el, "the before-sleep callback gets another event loop")
			e.slept++
		})
		setup(e)
		_ = el.Main()
	})
	for !e.t.AtEpoll() {
		e.w.Step(e.t)
		e.alive()
	}
	e.atWait()
	return e
}

func (e *loopEnv) alive() {
	if d := e.w.Dead(); d != nil {
		e.c.Fail("the event loop dies: %s %s", cutN(fmt.Sprint(d.Panic), 200), trimStack(d.Stack))
	}
	e.c.Check(!e.t.Done, "the event loop ended by itself")
	if len(e.w.Anomalies) > 0 {
		e.c.Fail("misuse of descriptors: %s", e.w.Anomalies[0])
	}
}

func (e *loopEnv) now() int64 { return e.w.NowMS() }

func (e *loopEnv) logf(f string, a ...any) {
	if e.c.tracing {
		e.c.Logf("[%d, iteration %d] "+f, append([]any{e.now() - 1_700_000_000_000, e.iter}, a...)...)
	}
}

func (e *loopEnv) addTimer(mask ae.TypeTimeEvent, iv int64) *lTimer {
	t := &lTimer{order: int64(len(e.timers)), mask: mask, iv: iv, early: e.now() + iv, due: e.now() + iv, alive: true, iter: -1}
	e.timers = append(e.timers, t)
	e.logf("add timer %d: every %d ms, once: %v", t.order, iv, mask == ae.TypeTimeEventOnce)
	err := e.el.AddTimeEvent(mask, iv, func(l *ae.EventLoop, id int64, data any) {
		e.c.Check(l == e.el, "a timer handler gets another event loop")
		tt, ok := data.(*lTimer)
		e.c.Check(ok && tt == t, "timer %d runs with the data of another", t.order)
		e.fire(t, id)
	}, t)
	e.c.Check(err == nil, "AddTimeEvent: %v", err)
	return t
}

func (e *loopEnv) idOf(t *lTimer) int64 {
	if t.known {
		return t.id
	}
	return t.order + e.offset
}

func (e *loopEnv) removeTimer(t *lTimer) {
	err := e.el.RemoveTimeEvent(e.idOf(t))
	e.logf("remove timer %d: %v", t.order, err)
	if (err == nil) != t.alive {
		e.c.Fail("removing timer %d reports %v, it exists: %v", t.order, err, t.alive)
	}
	t.alive = false
}

func (e *loopEnv) fire(t *lTimer, id int64) {
	e.c.Step()
	e.logf("timer %d fires", t.order)
	if t.known {
		e.c.Check(id == t.id, "timer %d runs under id %d, before under %d", t.order, id, t.id)
	} else {
		t.id, t.known = id, true
		e.offset = id - t.order
	}
	if !t.alive {
		e.c.Fail("timer %d (interval %d, once: %v) fires although it is removed or was due only once", t.order, t.iv, t.mask == ae.TypeTimeEventOnce)
	}
	now := e.now()
	if now < t.early {
		e.c.Fail("timer %d (interval %d) fires %d ms early", t.order, t.iv, t.early-now)
	}
	if t.iter == e.iter {
		e.c.Fail("timer %d fires twice in one iteration", t.order)
	}
	t.iter = e.iter
	t.fired++
	t.early = now + t.iv
	t.running = true
	if e.onTime != nil {
		e.onTime(t)
	}
	t.running = false
	t.due = e.now() + t.iv
	if t.mask == ae.TypeTimeEventOnce {
		t.alive = false
	}
}

// atWait is called when the loop has reached its next wait: the iteration is over.
func (e *loopEnv) atWait() {
	to := e.w.Net.Timeouts
	ms := int64(to[len(to)-1])
	near, any := int64(0), false
	for _, t := range e.timers {
		if t.alive && (!any || t.due < near) {
			near, any = t.due, true
		}
	}
	if any {
		lim := max(near-e.now(), 10)
		if ms < 0 || ms > lim {
			e.c.Fail("the loop waits for %d ms although a timer is due in %d ms", ms, near-e.now())
		}
	}
	for k := range e.want {
		if !e.ran[k] {
			e.c.Fail("descriptor %d (%s) is registered and ready but its handler does not run", k.fd, dirName(k.mask))
		}
	}
	if e.slept != 1 {
		e.c.Fail("the before-sleep callback runs %d times before a wait", e.slept)
	}
	e.slept = 0
	e.interest()
	if e.c.eng != nil {
		var st []string
		for _, t := range e.timers {
			if t.alive {
				st = append(st, fmt.Sprint(t.iv, t.due-e.now(), t.mask))
			}
		}
		e.c.State(fmt.Sprint(st, e.w.Net.Interest()))
	}
}

// iterate lets the wait end and runs the loop to its next wait. advance < 0: the full timeout.
func (e *loopEnv) iterate(advance int64) {
	e.iter++
	evs := e.w.Net.Ready(e.t.Pt.EpFD)
	if len(evs) > 0 {
		if advance > 0 {
			e.w.NowNS += advance * 1e6
		}
	} else {
		e.w.Net.Advance = advance
	}
	clear(e.want)
	clear(e.may)
	clear(e.ran)
	for _, ev := range evs {
		for _, d := range []ae.TypeFileEvent{ae.TypeFileEventReadable, ae.TypeFileEventWritable} {
			k := fKey{int(ev.Fd), d}
			if r := e.files[k]; r != nil && ev.Events&pollBit(d) != 0 {
				e.want[k] = true
			}
		}
	}
	// the wait ends within this step and the handlers run in it: due timers are computed from the clock it ends at
	end := e.now()
	if len(evs) == 0 {
		if advance >= 0 {
			end += advance
		} else if to := e.t.Pt.Timeout; to > 0 {
			end += int64(to)
		}
	}
	var must []*lTimer
	for _, t := range e.timers {
		if t.alive && t.due <= end {
			must = append(must, t)
		}
	}
	for first := true; first || !e.t.AtEpoll(); first = false {
		e.w.Step(e.t)
		e.alive()
	}
	for _, t := range must {
		// a timer removed by an earlier handler need not fire
		if t.iter != e.iter && t.alive {
			e.c.Fail("timer %d (interval %d) does not fire although it was due %d ms before the end of the wait", t.order, t.iv, end-t.due)
		}
	}
	e.atWait()
}

func pollBit(d ae.TypeFileEvent) uint32 {
	if d == ae.TypeFileEventReadable {
		return syscall.EPOLLIN
	}
	return syscall.EPOLLOUT
}

func dirName(d ae.TypeFileEvent) string {
	if d == ae.TypeFileEventReadable {
		return "readable"
	}
	return "writable"
}

// interest compares what is registered with the poller with the model.
func (e *loopEnv) interest() {
	want := map[int]uint32{}
	for k := range e.files {
		want[k.fd] |= pollBit(k.mask)
	}
	got := e.w.Net.Interest()
	for fd, m := range got {
		m &= syscall.EPOLLIN | syscall.EPOLLOUT
		if want[fd] != m {
			e.c.Fail("descriptor %d is polled for %#x, registered for %#x", fd, m, want[fd])
		}
	}
	for fd, m := range want {
		if got[fd]&(syscall.EPOLLIN|syscall.EPOLLOUT) != m {
			e.c.Fail("descriptor %d is polled for %#x, registered for %#x", fd, got[fd], m)
		}
	}
}

func (e *loopEnv) addFile(k fKey) {
	_, had := e.files[k]
	e.data++
	data := e.data
	err := e.el.AddFileEvent(socket.FD(k.fd), k.mask, func(l *ae.EventLoop, fd socket.FD, d any) {
		e.c.Step()
		e.c.Check(l == e.el, "a file handler gets another event loop")
		e.logf("handler of %d %s with data %v", k.fd, dirName(k.mask), d)
		e.c.Check(int(fd) == k.fd, "the handler of descriptor %d gets descriptor %d", k.fd, fd)
		r := e.files[k]
		if r == nil {
			e.c.Fail("the handler of descriptor %d (%s) runs after its removal", k.fd, dirName(k.mask))
		}
		if d != r.data || data != r.data {
			e.c.Fail("the handler of descriptor %d (%s) runs with data %v, registered with %d", k.fd, dirName(k.mask), d, r.data)
		}
		if e.ran[k] {
			e.c.Fail("the handler of descriptor %d (%s) runs twice in one iteration", k.fd, dirName(k.mask))
		}
		if !e.want[k] && !e.may[k] {
			e.c.Fail("the handler of descriptor %d (%s) runs although that is not ready", k.fd, dirName(k.mask))
		}
		e.ran[k] = true
		if e.onFile != nil {
			e.onFile(k, r.data)
		}
	}, data)
	e.logf("add %d %s: %v", k.fd, dirName(k.mask), err)
	if (err == nil) == had {
		e.c.Fail("adding descriptor %d (%s) reports %v, registered before: %v", k.fd, dirName(k.mask), err, had)
	}
	if !had {
		e.files[k] = &lFile{data: data}
	}
}

func (e *loopEnv) removeFile(k fKey) {
	_, had := e.files[k]
	err := e.el.RemoveFileEvent(socket.FD(k.fd), k.mask)
	e.logf("remove %d %s: %v", k.fd, dirName(k.mask), err)
	if (err == nil) != had {
		e.c.Fail("removing descriptor %d (%s) reports %v, registered: %v", k.fd, dirName(k.mask), err, had)
	}
	delete(e.files, k)
	if e.want[k] && !e.ran[k] {
		delete(e.want, k)
		e.may[k] = true // if it is added again, running it already now is fine
	}
}

func (e *loopEnv) end() { e.w.Kill() }

const (
	rd   = ae.TypeFileEventReadable
	wr   = ae.TypeFileEventWritable
	no   = ae.TypeTimeEventNormal
	once = ae.TypeTimeEventOnce
)

// drain is a read handler that takes what is there.
func (e *loopEnv) drain(k fKey) {
	for i, fd := range e.fds {
		if fd == k.fd && k.mask == rd {
			e.conns[i].In = nil
		}
	}
}

func init() {
	ivs := []int64{0, 1, 7, 50, 100, 150, 999, 1000, 1500}
	masks := []ae.TypeTimeEvent{no, once}
	// steps lets the loop make n iterations under every behaviour of the environment
	steps := func(c *Ctx, e *loopEnv, n int) {
		for i := 0; i < n; i++ {
			switch c.Choose(4, "wait") {
			case 0:
				e.iterate(-1)
			case 1:
				e.conns[0].In = []byte("x")
				e.iterate(0)
			case 2:
				e.conns[0].In = []byte("x")
				e.iterate(int64(e.t.Pt.Timeout) / 2)
			case 3: // the process is stopped for a while
				e.iterate(int64(e.t.Pt.Timeout) + 333)
			}
		}
	}
	file := func(e *loopEnv) {
		e.onFile = func(k fKey, _ int) { e.drain(k) }
		e.addFile(fKey{e.fds[0], rd})
	}
	handlerActions := func(waits, nsets int) func(c *Ctx) {
		return func(c *Ctx) {
			sets := [][3]int64{{7, 7, 7}, {50, 50, 100}, {100, 50, 7}, {1, 150, 1000}}
			set := sets[c.Choose(nsets, "intervals")]
			ones := c.Choose(4, "one-shot timers")
			act := func(e *loopEnv, self *lTimer) {
				rel := func(d int64) *lTimer {
					if self == nil {
						return e.timers[d+1]
					}
					i := self.order + d
					if i < 0 || i >= int64(len(e.timers)) {
						return nil
					}
					return e.timers[i]
				}
				switch c.Dev(10, "action") {
				case 1:
					e.removeTimer(rel(0))
				case 2:
					if t := rel(1); t != nil {
						e.removeTimer(t)
					}
				case 3:
					if t := rel(-1); t != nil {
						e.removeTimer(t)
					}
				case 4:
					e.addTimer(once, 5)
				case 5:
					e.addTimer(no, 7)
				case 6:
					e.w.NowNS += 30e6
				case 7:
					e.w.NowNS += 600e6
				case 8:
					e.removeTimer(rel(0))
					e.addTimer(no, 50)
				case 9:
					for _, t := range e.timers {
						if t.alive {
							e.removeTimer(t)
						}
					}
				}
			}
			e := newLoop(c, 1, func(e *loopEnv) {
				e.onTime = func(t *lTimer) { act(e, t) }
				e.onFile = func(k fKey, _ int) { e.drain(k); act(e, nil) }
				e.addFile(fKey{e.fds[0], rd})
				for i, iv := range set {
					m := no
					if ones&(i+1) != 0 {
						m = once
					}
					e.addTimer(m, iv)
				}
			})
			defer e.end()
			for i := 0; i < waits; i++ {
				switch c.Choose(3, "wait") {
				case 0:
					e.iterate(-1)
				case 1:
					e.conns[0].In = []byte("x")
					e.iterate(0)
				case 2:
					e.iterate(int64(e.t.Pt.Timeout) + 333)
				}
			}
			c.Sample(fmt.Sprintf("intervals %v, one-shot mask %d, %d timers in the end", set, ones, len(e.timers)))
		}
	}
	register(&Check{ID: "C27", Explanation: "The real event loop runs in the simulated world under every combination of up to three timers with any of nine intervals (0 included), repeating or one-shot, every behaviour of the waits (full timeout, cut short by a file event at once or half way, overslept), and every action of the handlers (removing itself or others, adding timers, being slow) up to a number of actions. A monitor checks each firing and each wait timeout.",
		Assumptions: []string{"time is observed in whole milliseconds", "timer ids are numbered in the order of addition from an unknown start"},
		Phases: []Phase{
			{Name: "one-timer", Weight: 0.6, Run: func(c *Ctx) {
				iv, m := ivs[c.Choose(len(ivs), "interval")], masks[c.Choose(2, "once")]
				e := newLoop(c, 1, func(e *loopEnv) { file(e); e.addTimer(m, iv) })
				defer e.end()
				steps(c, e, 6)
			}},
			{Name: "two-timers", Shard: 3, Run: func(c *Ctx) {
				iv, m := ivs[c.Choose(len(ivs), "interval")], masks[c.Choose(2, "once")]
				iv2, m2 := ivs[c.Choose(len(ivs), "interval")], masks[c.Choose(2, "once")]
				e := newLoop(c, 1, func(e *loopEnv) { file(e); e.addTimer(m, iv); e.addTimer(m2, iv2) })
				defer e.end()
				steps(c, e, 4)
			}},
			{Name: "three-timers", Shard: 4, Weight: 2, Run: func(c *Ctx) {
				iv := []int64{0, 1, 50, 1500}
				var is [3]int64
				var ms [3]ae.TypeTimeEvent
				for i := range is {
					is[i], ms[i] = iv[c.Choose(len(iv), "interval")], masks[c.Choose(2, "once")]
				}
				e := newLoop(c, 1, func(e *loopEnv) {
					file(e)
					for i := range is {
						e.addTimer(ms[i], is[i])
					}
				})
				defer e.end()
				steps(c, e, 4)
			}},
			{Name: "handler-actions", Shard: 5, Dev: 2, Weight: 4, Run: handlerActions(4, 3)},
			{Name: "handler-actions, longer", Tier: "thorough", Shard: 5, Dev: 2, Weight: 4, Run: handlerActions(5, 4)},
			{Name: "handler-actions, three actions", Shard: 5, Dev: 3, Weight: 4, Run: handlerActions(3, 2)},
			{Name: "handler-actions, three, longer", Tier: "thorough", Shard: 5, Dev: 3, Weight: 6, Run: handlerActions(5, 4)},
			{Name: "many-timers", Shard: 1, Run: func(c *Ctx) {
				n := 1 + c.Choose(64, "timers")
				kind := c.Choose(5, "intervals")
				e := newLoop(c, 1, func(e *loopEnv) {
					file(e)
					for i := 0; i < n; i++ {
						m := masks[(i/3)%2]
						iv := int64(1 + i*[]int{0, 1, 17, 100, 31}[kind]%997)
						e.addTimer(m, iv)
					}
				})
				defer e.end()
				// every fifth firing removes another timer
				k := 0
				e.onTime = func(t *lTimer) {
					if k++; k%5 == 0 {
						e.removeTimer(e.timers[(int(t.order)*7+k)%n])
					}
				}
				for i := 0; i < 60; i++ {
					if i%4 == 3 {
						e.conns[0].In = []byte("x")
						e.iterate(0)
					} else if i%7 == 5 {
						e.iterate(int64(e.t.Pt.Timeout) + 90)
					} else {
						e.iterate(-1)
					}
				}
			}},
			{Name: "interrupted-waits", Run: func(c *Ctx) {
				iv := ivs[c.Choose(len(ivs), "interval")]
				e := newLoop(c, 1, func(e *loopEnv) { file(e); e.addTimer(no, iv); e.addTimer(once, 40) })
				defer e.end()
				for i := 0; i < 6; i++ {
					switch c.Choose(3, "wait") {
					case 0:
						e.iterate(-1)
					case 1:
						e.iterate(int64(e.t.Pt.Timeout))
					case 2: // a signal interrupts the wait after some time: no timer is lost by that
						e.w.NowNS += 3e6
						e.w.Net.Fail = func(op string, fd int) syscall.Errno {
							if op == "epoll_wait" {
								return syscall.EINTR
							}
							return 0
						}
						for first := true; first || !e.t.AtEpoll(); first = false {
							e.w.Step(e.t)
							e.alive()
						}
						e.w.Net.Fail = nil
						e.atWait()
					}
				}
			}},
			{Name: "handler-actions-deep", Tier: "thorough", Shard: 6, Dev: 2, Weight: 8, Run: func(c *Ctx) {
				var set [3]int64
				var ms [3]ae.TypeTimeEvent
				iv := []int64{7, 50, 100, 1000}
				for i := range set {
					set[i], ms[i] = iv[c.Choose(len(iv), "interval")], masks[c.Choose(2, "once")]
				}
				e := newLoop(c, 1, func(e *loopEnv) {
					e.onTime = func(t *lTimer) {
						switch a := c.Dev(8, "action"); a {
						case 0:
						case 1, 2, 3:
							e.removeTimer(e.timers[a-1])
						case 4:
							e.addTimer(once, 5)
						case 5:
							e.addTimer(no, 100)
						case 6:
							e.w.NowNS += 70e6
						case 7:
							e.removeTimer(t)
							e.addTimer(t.mask, t.iv)
						}
					}
					file(e)
					for i := range set {
						e.addTimer(ms[i], set[i])
					}
				})
				defer e.end()
				for i := 0; i < 6; i++ {
					if c.Choose(2, "wait") == 0 {
						e.iterate(-1)
					} else {
						e.conns[0].In = []byte("x")
						e.iterate(int64(e.t.Pt.Timeout) / 2)
					}
				}
			}},
		}})

	keysOf := func(e *loopEnv) []fKey {
		var ks []fKey
		for _, fd := range e.fds {
			ks = append(ks, fKey{fd, rd}, fKey{fd, wr})
		}
		return ks
	}
	reorder := func(c *Ctx, e *loopEnv) {
		e.w.Net.Reorder = func(evs []syscall.EpollEvent) []syscall.EpollEvent {
			out := append([]syscall.EpollEvent{}, evs...)
			for i := 0; i+1 < len(out); i++ {
				j := i + c.Choose(len(out)-i, "order of the reported descriptors")
				out[i], out[j] = out[j], out[i]
			}
			return out
		}
	}
	actions := func(waits int) func(c *Ctx) {
		return func(c *Ctx) {
			regs := []int{0b1111, 0b0101, 0b1001, 0b0111}
			reg := regs[c.Choose(len(regs), "registered")]
			timer := c.Choose(2, "timer")
			ready := []int{0b1111, 0b0011, 0b0110}
			act := func(e *loopEnv) {
				ks := keysOf(e)
				n := c.Dev(13, "action")
				switch {
				case n == 0:
				case n <= 4:
					e.removeFile(ks[n-1])
				case n <= 8:
					e.addFile(ks[n-5])
				case n <= 12:
					if e.files[ks[n-9]] != nil {
						e.removeFile(ks[n-9])
						e.addFile(ks[n-9])
					}
				}
				e.interest()
			}
			e := newLoop(c, 2, func(e *loopEnv) {
				for i, k := range keysOf(e) {
					if reg>>i&1 != 0 {
						e.addFile(k)
					}
				}
				e.onTime = func(*lTimer) { act(e) }
				e.onFile = func(k fKey, _ int) { act(e) }
				if timer == 1 {
					e.addTimer(no, 1)
				}
			})
			defer e.end()
			reorder(c, e)
			for i := 0; i < waits; i++ {
				n := ready[c.Choose(len(ready), "ready")]
				for j, k := range e.conns {
					k.In = nil
					if n>>j&1 != 0 {
						k.In = []byte("x")
					}
					k.OutFull = n>>(j+2)&1 == 0
				}
				e.iterate(3)
			}
			c.Sample(fmt.Sprintf("registered %04b, timer %d", reg, timer))
		}
	}
	readiness := func(all bool) func(c *Ctx) {
		return func(c *Ctx) {
			reg := c.Choose(64, "registered")
			e := newLoop(c, 3, func(e *loopEnv) {
				for i, k := range keysOf(e) {
					if reg>>i&1 != 0 {
						e.addFile(k)
					}
				}
			})
			defer e.end()
			drains := c.Choose(2, "handlers read")
			e.onFile = func(k fKey, _ int) {
				if drains == 1 {
					e.drain(k)
				}
			}
			last := 0
			for i := 0; i < 2; i++ {
				var n int
				if i == 0 || all {
					n = c.Choose(64, "ready")
				} else {
					n = []int{0, 63, last, last ^ 63, 7, 56, last << 1 & 63, last >> 1}[c.Choose(8, "ready next")]
				}
				last = n
				for j, k := range e.conns {
					k.In = nil
					if n>>j&1 != 0 {
						k.In = []byte("x")
					}
					k.OutFull = n>>(j+3)&1 == 0
				}
				e.iterate(5)
			}
		}
	}
	register(&Check{ID: "C28", Explanation: "The real event loop runs in the simulated world with up to three descriptors in every registration state, every readiness in each iteration, every order in which the poller reports them, and every action (removing or adding itself or another pair, also repeatedly or twice) of the file and timer handlers up to a number of actions. A monitor derives from the poller's report which handlers have to run, and compares the poller's interest set with what is registered.",
		Assumptions: []string{"at most 1024 descriptors are ready at once (the size of one poll)", "a pair removed and added again within an iteration may run in it or in the next"},
		Phases: []Phase{
			{Name: "registration", Shard: 3, Run: func(c *Ctx) {
				e := newLoop(c, 2, func(e *loopEnv) {
					ks := keysOf(e)
					for i := 0; i < 5; i++ {
						n := c.Choose(2*len(ks), "operation")
						if n < len(ks) {
							e.addFile(ks[n])
						} else {
							e.removeFile(ks[n-len(ks)])
						}
						e.interest()
					}
				})
				defer e.end()
				e.onFile = func(k fKey, _ int) { e.drain(k) }
				e.iterate(0)
				e.conns[1].In = []byte("x")
				e.iterate(0)
			}},
			{Name: "readiness", Shard: 4, Run: readiness(false)},
			{Name: "readiness, every pair", Tier: "thorough", Shard: 4, Weight: 3, Run: readiness(true)},
			{Name: "actions", Shard: 5, Dev: 2, Weight: 5, Run: actions(2)},
			{Name: "actions, longer", Shard: 5, Dev: 1, Weight: 3, Run: actions(3)},
			{Name: "actions, two, longer", Tier: "thorough", Shard: 5, Dev: 2, Weight: 3, Run: actions(3)},
			{Name: "actions, three", Tier: "thorough", Shard: 5, Dev: 3, Weight: 3, Run: actions(2)},
			{Name: "three-descriptors", Shard: 4, Dev: 2, Weight: 2, Run: func(c *Ctx) {
				reg := []int{0b010101, 0b101010, 0b111111, 0b011001}[c.Choose(4, "registered")]
				e := newLoop(c, 3, func(e *loopEnv) {
					for i, k := range keysOf(e) {
						if reg>>i&1 != 0 {
							e.addFile(k)
						}
					}
				})
				defer e.end()
				e.onFile = func(k fKey, _ int) {
					ks := keysOf(e)
					if n := c.Dev(1+2*len(ks), "action"); n > len(ks) {
						e.addFile(ks[n-1-len(ks)])
					} else if n > 0 {
						e.removeFile(ks[n-1])
					}
				}
				reorder(c, e)
				for i := 0; i < 2; i++ {
					for _, k := range e.conns {
						k.In = []byte("x")
					}
					e.iterate(0)
				}
			}},
			{Name: "closed-and-reused", Shard: 3, Dev: 2, Run: func(c *Ctx) {
				// a handler removes another descriptor's events, closes it and a new one takes its number
				e := newLoop(c, 3, func(e *loopEnv) {
					e.addFile(fKey{e.fds[0], rd})
					e.addFile(fKey{e.fds[1], rd})
					e.addFile(fKey{e.fds[1], wr})
					e.addFile(fKey{e.fds[2], rd})
				})
				defer e.end()
				e.onFile = func(k fKey, _ int) {
					e.drain(k)
					i := c.Dev(4, "descriptor to replace")
					if i == 0 {
						return
					}
					i--
					fd := e.fds[i]
					for _, d := range []ae.TypeFileEvent{rd, wr} {
						if e.files[fKey{fd, d}] != nil {
							e.removeFile(fKey{fd, d})
						}
						delete(e.may, fKey{fd, d})
					}
					rt.Syscall_Close(fd)
					k2 := e.w.Dial(localhost, 7000)
					nfd, _, err := rt.Syscall_Accept(3 + 1)
					if err != nil || nfd != fd {
						panic(fmt.Sprintf("verifmc: accept %v %v", nfd, err))
					}
					e.conns[i] = k2
					e.addFile(fKey{nfd, rd})
				}
				reorder(c, e)
				for i := 0; i < 3; i++ {
					for _, k := range e.conns {
						k.In = []byte("x")
					}
					e.iterate(0)
				}
			}},
			{Name: "refused-by-the-poller", Shard: 2, Run: func(c *Ctx) {
				e := newLoop(c, 2, func(e *loopEnv) {
					k := keysOf(e)[c.Choose(4, "pair")]
					e.w.Net.Fail = func(op string, fd int) syscall.Errno {
						if op == "epoll_ctl" {
							return syscall.ENOSPC
						}
						return 0
					}
					err := e.el.AddFileEvent(socket.FD(k.fd), k.mask, func(*ae.EventLoop, socket.FD, any) {
						c.Fail("a handler runs although its registration was refused")
					}, nil)
					c.Check(err != nil, "AddFileEvent reports success although the poller refuses it")
					e.w.Net.Fail = nil
					e.interest()
					if c.Choose(2, "then") == 0 {
						e.addFile(k)
					} else {
						e.removeFile(k)
					}
					e.addFile(keysOf(e)[c.Choose(4, "next")])
				})
				defer e.end()
				for i := 0; i < 2; i++ {
					for _, k := range e.conns {
						k.In = []byte("x")
					}
					e.iterate(0)
				}
			}},
			{Name: "many-descriptors", Shard: 1, Run: func(c *Ctx) {
				ns := []int{10, 100, 255, 256, 257, 500, 1000, 1024}
				n := ns[c.Choose(len(ns), "descriptors")]
				kind := c.Choose(3, "readiness")
				e := newLoop(c, n, func(e *loopEnv) {
					for i, fd := range e.fds {
						e.addFile(fKey{fd, rd})
						if i%3 == 0 {
							e.addFile(fKey{fd, wr})
						}
					}
				})
				defer e.end()
				e.onFile = func(k fKey, _ int) { e.drain(k) }
				for i := 0; i < 3; i++ {
					for j, k := range e.conns {
						if kind == 0 || (j*7+i)%(kind+1) == 0 {
							k.In = []byte("x")
						}
						k.OutFull = (j+i)%4 == 1
					}
					e.iterate(0)
				}
			}},
			{Name: "four-actions", Tier: "thorough", Shard: 6, Dev: 4, Weight: 8, Run: func(c *Ctx) {
				reg := c.Choose(16, "registered")
				e := newLoop(c, 2, func(e *loopEnv) {
					for i, k := range keysOf(e) {
						if reg>>i&1 != 0 {
							e.addFile(k)
						}
					}
					e.addTimer(no, 1)
				})
				defer e.end()
				act := func() {
					ks := keysOf(e)
					if n := c.Dev(1+2*len(ks), "action"); n > len(ks) {
						e.addFile(ks[n-1-len(ks)])
					} else if n > 0 {
						e.removeFile(ks[n-1])
					}
				}
				e.onTime = func(*lTimer) { act() }
				e.onFile = func(fKey, int) { act() }
				reorder(c, e)
				for i := 0; i < 3; i++ {
					for _, k := range e.conns {
						k.In = []byte("x")
					}
					e.iterate(2)
				}
			}},
		}})
}
