package verifvrt

import (
	"sync"
	"sync/atomic"
)

func apoint(l string) { point(Point{Kind: PAtomic, Label: l}) }

type Sync_Mutex struct {
	mu   sync.Mutex
	held bool
}

func (m *Sync_Mutex) Lock() {
	point(Point{Kind: PLock, Label: "lock", Ready: func() bool { return !m.held }})
	m.held = true
	m.mu.Lock()
}
func (m *Sync_Mutex) TryLock() bool {
	apoint("trylock")
	if m.held {
		return false
	}
	m.held = true
	return m.mu.TryLock()
}
func (m *Sync_Mutex) Unlock() {
	m.held = false
	m.mu.Unlock()
}

type Sync_RWMutex struct {
	w bool
	r int
}

func (m *Sync_RWMutex) Lock() {
	point(Point{Kind: PLock, Label: "lock", Ready: func() bool { return !m.w && m.r == 0 }})
	m.w = true
}
func (m *Sync_RWMutex) Unlock() {
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
}
func (m *Sync_RWMutex) RLock() {
	point(Point{Kind: PLock, Label: "rlock", Ready: func() bool { return !m.w }})
	m.r++
}
func (m *Sync_RWMutex) RUnlock() {
	if m.r <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
}
func (m *Sync_RWMutex) TryLock() bool {
	apoint("trylock")
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}
func (m *Sync_RWMutex) TryRLock() bool {
	apoint("tryrlock")
	if m.w {
		return false
	}
	m.r++
	return true
}
func (m *Sync_RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

type rlocker Sync_RWMutex

func (r *rlocker) Lock()   { (*Sync_RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*Sync_RWMutex)(r).RUnlock() }

// Sync_Once stands for sync.Once (whose function may reach scheduling points).
type Sync_Once struct {
	m    Sync_Mutex
	done bool
}

func (o *Sync_Once) Do(f func()) {
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func Sync_OnceFunc(f func()) func() { var o Sync_Once; return func() { o.Do(f) } }
func Sync_OnceValue[T any](f func() T) func() T {
	var o Sync_Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// Sync_Cond stands for sync.Cond.
type Sync_Cond struct {
	L       sync.Locker
	waiting []*bool
}

func Sync_NewCond(l sync.Locker) *Sync_Cond { return &Sync_Cond{L: l} }
func (c *Sync_Cond) Wait() {
	woken := new(bool)
	c.waiting = append(c.waiting, woken)
	c.L.Unlock()
	point(Point{Kind: PLock, Label: "cond", Ready: func() bool { return *woken }})
	c.L.Lock()
}
func (c *Sync_Cond) Signal() {
	apoint("signal")
	if len(c.waiting) > 0 {
		*c.waiting[0] = true
		c.waiting = c.waiting[1:]
	}
}
func (c *Sync_Cond) Broadcast() {
	apoint("broadcast")
	for _, w := range c.waiting {
		*w = true
	}
	c.waiting = nil
}

type Sync_WaitGroup struct{ n int }

func (g *Sync_WaitGroup) Add(n int) {
	g.n += n
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (g *Sync_WaitGroup) Done() { g.Add(-1) }
func (g *Sync_WaitGroup) Wait() {
	point(Point{Kind: PLock, Label: "wait", Ready: func() bool { return g.n == 0 }})
}
func (g *Sync_WaitGroup) Go(f func()) {
	g.Add(1)
	GoCall(func() { defer g.Done(); f() })
}

type Atomic_Uint32 struct{ v atomic.Uint32 }

func (a *Atomic_Uint32) Load() uint32         { apoint("load"); return a.v.Load() }
func (a *Atomic_Uint32) Store(x uint32)       { apoint("store"); a.v.Store(x) }
func (a *Atomic_Uint32) Add(x uint32) uint32  { apoint("add"); return a.v.Add(x) }
func (a *Atomic_Uint32) Swap(x uint32) uint32 { apoint("swap"); return a.v.Swap(x) }
func (a *Atomic_Uint32) CompareAndSwap(o, n uint32) bool {
	apoint("cas")
	return a.v.CompareAndSwap(o, n)
}

type Atomic_Int32 struct{ v atomic.Int32 }

func (a *Atomic_Int32) Load() int32        { apoint("load"); return a.v.Load() }
func (a *Atomic_Int32) Store(x int32)      { apoint("store"); a.v.Store(x) }
func (a *Atomic_Int32) Add(x int32) int32  { apoint("add"); return a.v.Add(x) }
func (a *Atomic_Int32) Swap(x int32) int32 { apoint("swap"); return a.v.Swap(x) }
func (a *Atomic_Int32) CompareAndSwap(o, n int32) bool {
	apoint("cas")
	return a.v.CompareAndSwap(o, n)
}

type Atomic_Uint64 struct{ v atomic.Uint64 }

func (a *Atomic_Uint64) Load() uint64         { apoint("load"); return a.v.Load() }
func (a *Atomic_Uint64) Store(x uint64)       { apoint("store"); a.v.Store(x) }
func (a *Atomic_Uint64) Add(x uint64) uint64  { apoint("add"); return a.v.Add(x) }
func (a *Atomic_Uint64) Swap(x uint64) uint64 { apoint("swap"); return a.v.Swap(x) }
func (a *Atomic_Uint64) CompareAndSwap(o, n uint64) bool {
	apoint("cas")
	return a.v.CompareAndSwap(o, n)
}

type Atomic_Int64 struct{ v atomic.Int64 }

func (a *Atomic_Int64) Load() int64        { apoint("load"); return a.v.Load() }
func (a *Atomic_Int64) Store(x int64)      { apoint("store"); a.v.Store(x) }
func (a *Atomic_Int64) Add(x int64) int64  { apoint("add"); return a.v.Add(x) }
func (a *Atomic_Int64) Swap(x int64) int64 { apoint("swap"); return a.v.Swap(x) }
func (a *Atomic_Int64) CompareAndSwap(o, n int64) bool {
	apoint("cas")
	return a.v.CompareAndSwap(o, n)
}

type Atomic_Bool struct{ v atomic.Bool }

func (a *Atomic_Bool) Load() bool       { apoint("load"); return a.v.Load() }
func (a *Atomic_Bool) Store(x bool)     { apoint("store"); a.v.Store(x) }
func (a *Atomic_Bool) Swap(x bool) bool { apoint("swap"); return a.v.Swap(x) }
func (a *Atomic_Bool) CompareAndSwap(o, n bool) bool {
	apoint("cas")
	return a.v.CompareAndSwap(o, n)
}

type Atomic_Value struct{ v atomic.Value }

func (a *Atomic_Value) Load() any      { apoint("load"); return a.v.Load() }
func (a *Atomic_Value) Store(x any)    { apoint("store"); a.v.Store(x) }
func (a *Atomic_Value) Swap(x any) any { apoint("swap"); return a.v.Swap(x) }
func (a *Atomic_Value) CompareAndSwap(o, n any) bool {
	apoint("cas")
	return a.v.CompareAndSwap(o, n)
}

type Atomic_Pointer[T any] struct{ v atomic.Pointer[T] }

func (a *Atomic_Pointer[T]) Load() *T     { apoint("load"); return a.v.Load() }
func (a *Atomic_Pointer[T]) Store(x *T)   { apoint("store"); a.v.Store(x) }
func (a *Atomic_Pointer[T]) Swap(x *T) *T { apoint("swap"); return a.v.Swap(x) }
func (a *Atomic_Pointer[T]) CompareAndSwap(o, n *T) bool {
	apoint("cas")
	return a.v.CompareAndSwap(o, n)
}

func Atomic_LoadInt32(p *int32) int32             { apoint("load"); return atomic.LoadInt32(p) }
func Atomic_LoadInt64(p *int64) int64             { apoint("load"); return atomic.LoadInt64(p) }
func Atomic_LoadUint32(p *uint32) uint32          { apoint("load"); return atomic.LoadUint32(p) }
func Atomic_LoadUint64(p *uint64) uint64          { apoint("load"); return atomic.LoadUint64(p) }
func Atomic_StoreInt32(p *int32, v int32)         { apoint("store"); atomic.StoreInt32(p, v) }
func Atomic_StoreInt64(p *int64, v int64)         { apoint("store"); atomic.StoreInt64(p, v) }
func Atomic_StoreUint32(p *uint32, v uint32)      { apoint("store"); atomic.StoreUint32(p, v) }
func Atomic_StoreUint64(p *uint64, v uint64)      { apoint("store"); atomic.StoreUint64(p, v) }
func Atomic_AddInt32(p *int32, v int32) int32     { apoint("add"); return atomic.AddInt32(p, v) }
func Atomic_AddInt64(p *int64, v int64) int64     { apoint("add"); return atomic.AddInt64(p, v) }
func Atomic_AddUint32(p *uint32, v uint32) uint32 { apoint("add"); return atomic.AddUint32(p, v) }
func Atomic_AddUint64(p *uint64, v uint64) uint64 { apoint("add"); return atomic.AddUint64(p, v) }
func Atomic_CompareAndSwapInt32(p *int32, o, n int32) bool {
	apoint("cas")
	return atomic.CompareAndSwapInt32(p, o, n)
}
func Atomic_CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	apoint("cas")
	return atomic.CompareAndSwapUint32(p, o, n)
}

func (a *Atomic_Uint32) And(x uint32) uint32       { apoint("and"); return a.v.And(x) }
func (a *Atomic_Uint32) Or(x uint32) uint32        { apoint("or"); return a.v.Or(x) }
func Atomic_SwapUint32(p *uint32, v uint32) uint32 { apoint("swap"); return atomic.SwapUint32(p, v) }

func (a *Atomic_Int32) And(x int32) int32      { apoint("and"); return a.v.And(x) }
func (a *Atomic_Int32) Or(x int32) int32       { apoint("or"); return a.v.Or(x) }
func Atomic_SwapInt32(p *int32, v int32) int32 { apoint("swap"); return atomic.SwapInt32(p, v) }

func (a *Atomic_Uint64) And(x uint64) uint64       { apoint("and"); return a.v.And(x) }
func (a *Atomic_Uint64) Or(x uint64) uint64        { apoint("or"); return a.v.Or(x) }
func Atomic_SwapUint64(p *uint64, v uint64) uint64 { apoint("swap"); return atomic.SwapUint64(p, v) }

func (a *Atomic_Int64) And(x int64) int64      { apoint("and"); return a.v.And(x) }
func (a *Atomic_Int64) Or(x int64) int64       { apoint("or"); return a.v.Or(x) }
func Atomic_SwapInt64(p *int64, v int64) int64 { apoint("swap"); return atomic.SwapInt64(p, v) }

func Atomic_CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	apoint("cas")
	return atomic.CompareAndSwapUint64(p, o, n)
}

func Atomic_CompareAndSwapInt64(p *int64, o, n int64) bool {
	apoint("cas")
	return atomic.CompareAndSwapInt64(p, o, n)
}
