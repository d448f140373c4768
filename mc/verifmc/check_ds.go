//go:build go1.23

package main

import (
	"errors"
	"fmt"
	"hash/fnv"
	"math"
	"sort"
	"strings"

	"github.com/IfanTsai/metis/datastruct"
	rt "github.com/IfanTsai/metis/verifvrt"
)

// --- C24: the dictionary ---

type dtype struct {
	hash  func(int) int64
	equal *int64
}

func (t dtype) Hash(a any) int64 { return t.hash(a.(int)) }
func (t dtype) Equal(a, b any) bool {
	*t.equal++
	return a.(int) == b.(int)
}

type hashFn struct {
	name string
	f    func(int) int64
}

var hashFns = []hashFn{
	{"identity", func(k int) int64 { return int64(k) }},
	{"constant", func(int) int64 { return 0 }},
	{"multiple of 4", func(k int) int64 { return int64(k) * 4 }},
	{"mod 3", func(k int) int64 { return int64(k % 3) }},
	{"negative", func(k int) int64 { return -int64(k) - 1 }},
	{"fnv", func(k int) int64 {
		h := fnv.New64a()
		h.Write([]byte{byte(k), byte(k >> 8)})
		return int64(h.Sum64())
	}},
	{"extremes", func(k int) int64 { return []int64{math.MinInt64, math.MaxInt64, -1, 0}[k&3] }},
}

type dictEnv struct {
	c    *Ctx
	d    *datastruct.Dict
	m    map[int]int
	next int
	cmp  int64
}

func newDict(c *Ctx, h func(int) int64) *dictEnv {
	e := &dictEnv{c: c, m: map[int]int{}}
	e.d = datastruct.NewDict(dtype{h, &e.cmp})
	return e
}

func (e *dictEnv) set(k int) {
	e.next++
	v := e.next
	_, old := e.m[k]
	e.c.Step()
	if isNew := e.d.Set(k, v); isNew == old {
		e.c.Fail("Set(%d) reports new=%v, the key was present: %v", k, isNew, old)
	}
	e.m[k] = v
}

func (e *dictEnv) del(k int) {
	_, old := e.m[k]
	e.c.Step()
	err := e.d.Delete(k)
	if (err == nil) != old {
		e.c.Fail("Delete(%d) reports %v, the key was present: %v", k, err, old)
	}
	if err != nil && !errors.Is(err, datastruct.ErrKeyNotFound) && !errors.Is(err, datastruct.ErrNotInitialized) {
		e.c.Fail("Delete(%d): unexpected error %v", k, err)
	}
	delete(e.m, k)
	e.size()
}

func (e *dictEnv) get(k int) {
	v, ok := e.m[k]
	e.c.Step()
	if g := e.d.Get(k); (ok && g != any(v)) || (!ok && g != nil) {
		e.c.Fail("Get(%d) = %v, expected %v (present: %v)", k, g, v, ok)
	}
	en := e.d.Find(k)
	if (en != nil) != ok {
		e.c.Fail("Find(%d) = %v, the key is present: %v", k, en, ok)
	}
	if en != nil && (en.Key != any(k) || en.Value != any(v)) {
		e.c.Fail("Find(%d) gives the entry %v=%v, expected value %v", k, en.Key, en.Value, v)
	}
}

func (e *dictEnv) size() {
	if n := e.d.Size(); n != int64(len(e.m)) {
		e.c.Fail("Size() = %d, there are %d keys", n, len(e.m))
	}
}

func (e *dictEnv) pick() {
	e.c.Step()
	en := e.d.GetRandomKey()
	if len(e.m) == 0 {
		if en != nil {
			e.c.Fail("GetRandomKey() of an empty dictionary gives %v", en.Key)
		}
		return
	}
	if en == nil {
		e.c.Fail("GetRandomKey() gives nothing although there are %d keys", len(e.m))
	}
	if v, ok := e.m[en.Key.(int)]; !ok || any(v) != en.Value {
		e.c.Fail("GetRandomKey() gives %v=%v which is not present", en.Key, en.Value)
	}
}

// iterate walks the dictionary; during is called at each entry and may look up and delete visited keys.
func (e *dictEnv) iterate(d *datastruct.Dict, limit int, during func(i, k int)) {
	must := map[int]int{}
	for k, v := range e.m {
		must[k] = v
	}
	e.c.Step()
	it := datastruct.NewDictIterator(d)
	seen := map[int]bool{}
	n := 0
	for en := it.Next(); en != nil; en = it.Next() {
		k := en.Key.(int)
		if v, ok := must[k]; !ok || any(v) != en.Value {
			e.c.Fail("iteration visits %d=%v which is not present", k, en.Value)
		}
		if seen[k] {
			e.c.Fail("iteration visits %d twice", k)
		}
		seen[k] = true
		if n > len(must) {
			e.c.Fail("iteration does not end")
		}
		if during != nil {
			during(n, k)
		}
		n++
		if limit > 0 && n >= limit {
			it.Release()
			return
		}
	}
	it.Release()
	if len(seen) != len(must) {
		for k := range must {
			if !seen[k] {
				e.c.Fail("iteration visits %d of %d entries and misses %d", len(seen), len(must), k)
			}
		}
	}
}

func (e *dictEnv) full() {
	e.size()
	e.iterate(e.d, 0, nil)
	for k := range e.m {
		e.get(k)
	}
	e.get(-5)
	e.size()
	e.iterate(e.d, 0, nil)
}

func (e *dictEnv) copyCheck() {
	e.c.Step()
	cp := &dictEnv{c: e.c, d: e.d.DeepCopy(), m: map[int]int{}, next: 1000000}
	for k, v := range e.m {
		cp.m[k] = v
	}
	cp.size()
	cp.iterate(cp.d, 0, nil)
	// independent in both directions
	for i, k := range sortedInts(e.m) {
		if i%2 == 0 {
			cp.del(k)
		} else {
			cp.set(k)
		}
	}
	cp.set(-77)
	e.iterate(e.d, 0, nil)
	e.size()
	e.set(-78)
	e.del(-78)
	cp.full()
}

func sortedInts(m map[int]int) []int {
	r := make([]int, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Ints(r)
	return r
}

var dictOpNames = []string{"set new", "set first", "set last", "delete first", "delete last", "delete middle", "delete absent", "get middle",
	"get absent", "random pick", "deep copy", "iterate", "iterate deleting all", "iterate deleting every second", "iterate looking up", "partial iteration", "two iterations", "set 5 new", "delete half"}

func (e *dictEnv) op(k int) {
	e.c.Logf("%s", dictOpNames[k])
	ks := sortedInts(e.m)
	at := func(i int) int {
		if len(ks) == 0 {
			return -9
		}
		return ks[i]
	}
	switch k {
	case 0:
		e.next++
		e.set(1000 + e.next)
	case 1:
		if len(ks) > 0 {
			e.set(at(0))
		}
	case 2:
		if len(ks) > 0 {
			e.set(at(len(ks) - 1))
		}
	case 3:
		e.del(at(0))
	case 4:
		e.del(at(len(ks) - 1))
	case 5:
		e.del(at(len(ks) / 2))
	case 6:
		e.del(-9)
	case 7:
		e.get(at(len(ks) / 2))
	case 8:
		e.get(-9)
	case 9:
		e.pick()
	case 10:
		e.copyCheck()
	case 11:
		e.iterate(e.d, 0, nil)
	case 12:
		e.iterate(e.d, 0, func(i, k int) { e.del(k) })
		e.size()
	case 13:
		var prev int
		e.iterate(e.d, 0, func(i, k int) {
			if i%2 == 1 {
				e.del(prev)
			}
			prev = k
		})
	case 14:
		e.iterate(e.d, 0, func(i, k int) { e.get(k); e.get(-9); e.get(at(len(ks) / 2)); e.pick() })
	case 15:
		e.iterate(e.d, 2, nil)
	case 16:
		e.iterate(e.d, 0, func(i, k int) {
			if i == 1 {
				e.iterate(e.d, 0, nil)
			}
			if i == 2 {
				e.iterate(e.d, 1, nil)
				e.get(k)
			}
		})
	case 17:
		for i := 0; i < 5; i++ {
			e.next++
			e.set(1000 + e.next)
		}
	case 18:
		for i, k := range ks {
			if i%2 == 0 {
				e.del(k)
			}
		}
	}
}

var dictSizes = []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 18, 20, 24, 25, 31, 32, 33, 34, 36, 48, 63, 64, 65, 66, 70}

func dictStages(depth int, advs []int) func(c *Ctx) {
	return func(c *Ctx) {
		rt.NewWorld(nil, 0)
		n := dictSizes[c.Choose(len(dictSizes), "keys")]
		h := hashFns[c.Choose(len(hashFns), "hash")]
		e := newDict(c, h.f)
		for i := 0; i < n; i++ {
			e.set(i)
		}
		adv := advs[c.Choose(len(advs), "rehash steps")]
		for i := 0; i < adv; i++ {
			e.get(-9)
		}
		for i := 0; i < depth; i++ {
			e.op(c.Choose(len(dictOpNames), "operation"))
			e.size()
		}
		e.full()
		c.State(fmt.Sprintf("%s %d %v", h.name, adv, e.m))
		c.Sample(fmt.Sprintf("%d keys, hash %s, %d steps", n, h.name, adv))
	}
}

// dictShrunk: the stages that are reached by removing.
func dictShrunk(depth int, grown, advs []int) func(c *Ctx) {
	return func(c *Ctx) {
		rt.NewWorld(nil, 0)
		n := grown[c.Choose(len(grown), "keys")]
		h := hashFns[c.Choose(len(hashFns), "hash")]
		lefts := []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 33, 64}
		left := lefts[c.Choose(len(lefts), "left")]
		if left >= n {
			return
		}
		e := newDict(c, h.f)
		for i := 0; i < n; i++ {
			e.set(i)
		}
		way := c.Choose(5, "removed")
		switch way {
		case 0: // the newest first
			for i := n - 1; i >= left; i-- {
				e.del(i)
			}
		case 1: // the oldest first
			for i := 0; i < n-left; i++ {
				e.del(i)
			}
		case 2: // everywhere
			for step, i, gone := 7, 0, 0; gone < n-left; i += step {
				k := i % n
				for {
					if _, ok := e.m[k]; ok {
						break
					}
					k = (k + 1) % n
				}
				e.del(k)
				gone++
			}
		case 3: // while iterating
			e.iterate(e.d, 0, func(i, k int) {
				if i < n-left {
					e.del(k)
				}
			})
		case 4: // while iterating over part of it
			for len(e.m) > left {
				it := datastruct.NewDictIterator(e.d)
				for i := 0; i < 9 && len(e.m) > left; i++ {
					x := it.Next()
					if x == nil {
						break
					}
					e.del(x.Key.(int))
				}
				it.Release()
			}
		}
		e.size()
		adv := advs[c.Choose(len(advs), "rehash steps")]
		for i := 0; i < adv; i++ {
			e.get(-9)
		}
		for i := 0; i < depth; i++ {
			e.op(c.Choose(len(dictOpNames), "operation"))
			e.size()
		}
		e.full()
		c.Sample(fmt.Sprintf("%d keys, %d left, hash %s, %d steps", n, left, h.name, adv))
	}
}

func registerDict() {
	register(&Check{ID: "C24", Explanation: "Every sequence of dictionary operations up to a depth, started from every stage of growth and rehashing (sizes around all resize thresholds times rehash steps done) and under hash functions from perfect to constant, negative and extreme; all hash assignments of a few keys; and every outcome of the random choice. Each result is compared with a plain map, and each iteration with the set of present entries.",
		Phases: []Phase{
			{Name: "stages", Shard: 2, Weight: 3, Run: dictStages(2, []int{0, 1, 2, 5})},
			{Name: "shrunk stages", Shard: 3, Weight: 3, Run: dictShrunk(1, []int{1, 4, 8, 9, 16, 17, 32, 33, 40, 65, 70, 129, 520}, []int{0, 1, 3})},
			{Name: "shrunk stages-2", Shard: 4, Weight: 4, Run: dictShrunk(2, []int{9, 33, 70}, []int{0, 2})},
			{Name: "shrunk stages-3", Tier: "thorough", Shard: 4, Weight: 5, Run: dictShrunk(3, []int{9, 17, 33, 70, 129, 257}, []int{0, 1, 2, 5})},
			{Name: "stages-3", Tier: "thorough", Shard: 3, Weight: 5, Run: dictStages(3, []int{0, 1, 2, 3, 5, 9})},
			{Name: "all-hashes", Shard: 3, Weight: 2, Run: func(c *Ctx) {
				rt.NewWorld(nil, 0)
				fillers := []int{0, 4, 7, 8, 9}[c.Choose(5, "other keys")]
				hv := []int64{0, 1, 4, -1, 5}
				var hs [3]int64
				for i := range hs {
					hs[i] = hv[c.Choose(len(hv), "hash")]
				}
				e := newDict(c, func(k int) int64 {
					if k >= 0 && k < 3 {
						return hs[k]
					}
					return int64(k)
				})
				for i := 0; i < fillers; i++ {
					e.set(10 + i)
				}
				for i := 0; i < 4; i++ {
					k := c.Choose(8, "operation")
					c.Logf("op %d", k)
					switch {
					case k < 3:
						e.set(k)
					case k < 6:
						e.del(k - 3)
					case k == 6:
						e.iterate(e.d, 0, func(i, k int) {
							if k < 3 {
								e.del(k)
							}
						})
					case k == 7:
						e.next++
						e.set(50 + e.next)
					}
				}
				e.full()
			}},
			{Name: "random-picks", Shard: 2, Weight: 1, Run: func(c *Ctx) {
				w := rt.NewWorld(nil, 0)
				n := dictSizes[c.Choose(len(dictSizes), "keys")]
				h := hashFns[c.Choose(len(hashFns), "hash")]
				e := newDict(c, h.f)
				for i := 0; i < n; i++ {
					e.set(i)
				}
				for i, k := 0, c.Choose(4, "rehash steps"); i < k; i++ {
					e.get(-9)
				}
				if c.Choose(2, "after deletions") == 1 {
					for i := 0; i < n; i += 2 {
						e.del(i)
					}
				}
				for a := uint64(0); a < 150; a++ {
					for b := uint64(0); b < 3; b++ {
						w.Rand.Script = []rt.Draw{{Kind: 'v', V: a}, {Kind: 'v', V: b}}
						e.pick()
					}
				}
				for _, k := range []byte{'l', 'h'} {
					w.Rand.Script = []rt.Draw{{Kind: k}, {Kind: k}}
					e.pick()
				}
				w.Rand.Script = nil
				e.full()
			}},
			{Name: "every entry can be picked", Shard: 2, Weight: 1, Run: func(c *Ctx) {
				w := rt.NewWorld(nil, 0)
				n := 1 + c.Choose(34, "keys")
				h := hashFns[c.Choose(len(hashFns), "hash")]
				e := newDict(c, h.f)
				for i := 0; i < n; i++ {
					e.set(i)
				}
				for i, k := 0, c.Choose(4, "rehash steps"); i < k; i++ {
					e.get(-9)
				}
				frozen := c.Choose(2, "while iterating") == 1
				if frozen { // no step of the rehashing
					it := datastruct.NewDictIterator(e.d)
					it.Next()
					defer it.Release()
				}
				seen := map[int]bool{}
				try := func() {
					c.Step()
					if en := e.d.GetRandomKey(); en != nil {
						seen[en.Key.(int)] = true
					}
				}
				for i := 0; i < 60 && len(seen) < n; i++ { // let the rehashing end
					try()
				}
				clear(seen)
				for a := 0; a < 300 && len(seen) < n; a++ {
					for b := 0; b < n; b++ {
						w.Rand.Script = []rt.Draw{{Kind: 'v', V: uint64(a)}, {Kind: 'v', V: uint64(b)}}
						try()
					}
				}
				w.Rand.Script = nil
				for i := 0; i < 500*n && len(seen) < n; i++ {
					try()
				}
				for i := 0; i < n; i++ {
					c.Check(seen[i], "of %d entries, %d never comes up as a random pick, whatever the random numbers", n, i)
				}
			}},
			{Name: "growth", Shard: 2, Weight: 1, Run: func(c *Ctx) {
				rt.NewWorld(nil, 0)
				h := hashFns[[]int{0, 4, 5}[c.Choose(3, "hash")]]
				at := []int{0, 1, 3, 4, 5, 8, 9, 10, 12, 16, 17, 18, 20, 32, 33, 34, 40, 64, 65, 66, 100}[c.Choose(21, "an iteration happens at")]
				how := c.Choose(6, "how")
				e := newDict(c, h.f)
				const n = 3000
				for i := 0; i < n; i++ {
					if i == at {
						switch how {
						case 0:
							e.op(11)
						case 1:
							e.op(15)
						case 2:
							e.op(16)
						case 3:
							it := datastruct.NewDictIterator(e.d)
							it.Release() // never used
						case 4:
							e.op(10)
						case 5:
							e.op(13)
						}
					}
					e.set(i)
				}
				e.size()
				for i := 0; i < n; i++ {
					e.get(i) // lets rehashing finish
				}
				e.cmp = 0
				for i := 0; i < n; i++ {
					e.get(i)
				}
				// a dictionary that no longer grows compares each key with hundreds of others
				if per := e.cmp / (2 * n); per > 16 {
					c.Fail("after an iteration the dictionary no longer spreads its keys: %d comparisons per lookup among %d keys", per, n)
				}
				e.iterate(e.d, 0, nil)
				for i := 0; i < n; i++ {
					e.del(i)
				}
				e.full()
			}},
		}})
}

// --- C25: the paged list ---

const pageLen = 1024

type listEnv struct {
	c *Ctx
	q *datastruct.Quicklist
	m []int
	n int
}

func (e *listEnv) insert(i int) {
	e.n++
	ok := i >= 0 && i <= len(e.m)
	e.c.Step()
	if r := e.q.Insert(i, e.n); r != ok {
		e.c.Fail("Insert(%d) into %d elements reports %v", i, len(e.m), r)
	}
	if ok {
		e.m = append(e.m, 0)
		copy(e.m[i+1:], e.m[i:])
		e.m[i] = e.n
	}
}

func (e *listEnv) remove(i int) {
	e.c.Step()
	r := e.q.Remove(i)
	if i < 0 || i >= len(e.m) {
		if r != nil {
			e.c.Fail("Remove(%d) of %d elements removes %v", i, len(e.m), r)
		}
		return
	}
	if r != any(e.m[i]) {
		e.c.Fail("Remove(%d) of %d elements gives %v, expected %v", i, len(e.m), r, e.m[i])
	}
	e.m = append(e.m[:i], e.m[i+1:]...)
}

func (e *listEnv) pushBack() { e.n++; e.c.Step(); e.q.PushBack(e.n); e.m = append(e.m, e.n) }
func (e *listEnv) pushFront() {
	e.n++
	e.c.Step()
	e.q.PushFront(e.n)
	e.m = append([]int{e.n}, e.m...)
}

func (e *listEnv) pop(front bool) {
	e.c.Step()
	var r any
	if front {
		r = e.q.PopFront()
	} else {
		r = e.q.PopBack()
	}
	if len(e.m) == 0 {
		if r != nil {
			e.c.Fail("popping an empty list gives %v", r)
		}
		return
	}
	if front {
		if r != any(e.m[0]) {
			e.c.Fail("PopFront() of %d elements gives %v, expected %v", len(e.m), r, e.m[0])
		}
		e.m = e.m[1:]
	} else {
		if l := len(e.m) - 1; r != any(e.m[l]) {
			e.c.Fail("PopBack() of %d elements gives %v, expected %v", len(e.m), r, e.m[l])
		}
		e.m = e.m[:len(e.m)-1]
	}
}

// spots are the positions worth addressing: the ends, the middle, page boundaries and beyond.
func (e *listEnv) spots() []int {
	n := len(e.m)
	return []int{-1, 0, 1, n/2 - 1, n / 2, n/2 + 1, 511, 512, 513, 1023, 1024, 1025, n - 2, n - 1, n, n + 1}
}

func (e *listEnv) check(q *datastruct.Quicklist, full bool) {
	c, m := e.c, e.m
	if q.Len() != len(m) {
		c.Fail("Len() = %d, the sequence has %d elements", q.Len(), len(m))
	}
	it := datastruct.NewQuicklistIterator(q)
	for i := range m {
		if v := it.Next(); v != any(m[i]) {
			c.Fail("iteration: element %d is %v, expected %d (length %d)", i, v, m[i], len(m))
		}
	}
	if v := it.Next(); v != nil {
		c.Fail("iteration goes on after %d elements: %v", len(m), v)
	}
	if !full {
		return
	}
	for i := range m {
		if v := q.Get(i); v != any(m[i]) {
			c.Fail("Get(%d) = %v, expected %d (length %d)", i, v, m[i], len(m))
		}
	}
	for _, i := range []int{-1, len(m), len(m) + 1, -len(m) - 1} {
		if v := q.Get(i); v != nil {
			c.Fail("Get(%d) of %d elements = %v", i, len(m), v)
		}
	}
	// backwards from the end and from the middle
	for _, from := range []int{len(m), len(m) / 2} {
		if from == 0 {
			continue
		}
		it := datastruct.NewQuicklistIterator(q)
		for i := 0; i < from; i++ {
			it.Next()
		}
		for i := from - 2; i >= 0; i-- {
			if v := it.Prev(); v != any(m[i]) {
				c.Fail("backward iteration: element %d is %v, expected %d (length %d)", i, v, m[i], len(m))
			}
		}
		if v := it.Prev(); v != nil {
			c.Fail("backward iteration goes on before the first element: %v", v)
		}
	}
	sp := e.spots()
	for _, a := range sp {
		for _, b := range sp {
			if len(m) < 100 || a >= b-3 || b == 512 || b == 1024 || b == len(m)-1 {
				e.rng(q, a, b)
			}
		}
		if a >= 0 && a < len(m) {
			if i := q.Find(m[a]); i != a {
				c.Fail("Find of the element at %d gives %d", a, i)
			}
			e.rng(q, a-len(m), -1)
			e.rng(q, 0, a-len(m))
		}
	}
	e.rng(q, -len(m)-3, len(m)+3)
	if i := q.Find(-1); i != -1 {
		c.Fail("Find of an absent element gives %d", i)
	}
}

func (e *listEnv) rng(q *datastruct.Quicklist, a, b int) {
	lo, hi := clampRange(int64(a), int64(b), int64(len(e.m)))
	r := q.Range(a, b)
	want := int(hi - lo)
	if len(r) != want {
		e.c.Fail("Range(%d, %d) of %d elements gives %d elements, expected %d", a, b, len(e.m), len(r), want)
	}
	for i := range r {
		if r[i] != any(e.m[int(lo)+i]) {
			e.c.Fail("Range(%d, %d): element %d is %v, expected %d", a, b, i, r[i], e.m[int(lo)+i])
		}
	}
}

var listOps = []string{"push back", "push front", "pop front", "pop back"}

func (e *listEnv) op(k int) {
	switch k {
	case 0:
		e.pushBack()
	case 1:
		e.pushFront()
	case 2:
		e.pop(true)
	case 3:
		e.pop(false)
	default:
		k -= 4
		sp := e.spots()
		if k < len(sp) {
			e.insert(sp[k])
		} else {
			e.remove(sp[k-len(sp)])
		}
	}
}

const listOpCount = 4 + 2*16

var listBuilds = []string{"push back", "push front", "insert in the middle", "alternating", "push back then remove from every page", "front pages consumed"}

func buildList(c *Ctx, n, how int) *listEnv {
	e := &listEnv{c: c, q: datastruct.NewQuicklist()}
	switch how {
	case 0:
		for i := 0; i < n; i++ {
			e.pushBack()
		}
	case 1:
		for i := 0; i < n; i++ {
			e.n++
			e.q.PushFront(e.n)
		}
		for i := 0; i < n; i++ {
			e.m = append(e.m, n-i)
		}
	case 2:
		for i := 0; i < n; i++ {
			e.insert(len(e.m) / 2)
		}
	case 3:
		for i := 0; i < n; i++ {
			if i%2 == 0 {
				e.pushBack()
			} else {
				e.insert(0)
			}
		}
	case 4:
		for i := 0; i < n+n/64; i++ {
			e.pushBack()
		}
		for i := 0; len(e.m) > n; i++ {
			e.remove((i*97 + 13) % len(e.m))
		}
	case 5:
		for i := 0; i < n+700; i++ {
			e.pushBack()
		}
		for i := 0; i < 700; i++ {
			e.pop(true)
		}
	}
	return e
}

var listSizes = []int{0, 1, 2, 3, 4, 510, 511, 512, 513, 514, 1022, 1023, 1024, 1025, 1026, 1535, 1536, 1537, 2047, 2048, 2049, 2050, 3073, 4100}

func listPhase(sizes []int, depth int) func(c *Ctx) {
	return func(c *Ctx) {
		n := sizes[c.Choose(len(sizes), "length")]
		how := c.Choose(len(listBuilds), "built by")
		ops := make([]int, depth)
		for i := range ops {
			ops[i] = c.Choose(listOpCount, "operation")
		}
		e := buildList(c, n, how)
		e.check(e.q, false)
		for _, k := range ops {
			e.op(k)
		}
		e.check(e.q, depth < 3 || n < 600)
		// a copy is equal and independent
		cp := e.q.DeepCopy()
		e.check(cp, false)
		cp.PushFront(-2)
		cp.Insert(cp.Len()/2, -3)
		cp.PushBack(-4)
		cp.Remove(cp.Len() / 3)
		e.check(e.q, false)
		h := fnv.New64a()
		for _, x := range e.m {
			h.Write([]byte{byte(x), byte(x >> 8)})
		}
		c.State(fmt.Sprint(len(e.m), e.q.Size(), h.Sum64()))
		if depth > 1 && n > 5 {
			return
		}
		// popping everything gives the sequence
		for i := 0; len(e.m) > 0; i++ {
			e.pop(i%3 != 0)
		}
		e.pop(true)
		e.pop(false)
		e.check(e.q, true)
		e.pushFront()
		e.pushBack()
		e.check(e.q, true)
		c.Sample(fmt.Sprintf("%d elements by %s, operations %v", n, listBuilds[how], ops))
	}
}

func registerList() {
	register(&Check{ID: "C25", Explanation: "All sequences of list operations up to a depth at all positions of interest (ends, middle, page and half-page boundaries, out of range), on lists built in six ways to lengths around every page boundary. After each sequence the complete content is read by iteration forwards and backwards, by index, by ranges of all pairs of positions of interest and by search, a copy is checked for independence, and the list is emptied again.",
		Assumptions: []string{"Prev is called on an iterator that stands on an element"},
		Phases: []Phase{
			{Name: "short", Shard: 2, Run: listPhase([]int{0, 1, 2, 3, 4}, 2)},
			{Name: "boundaries-1", Shard: 2, Weight: 2, Run: listPhase(listSizes, 1)},
			{Name: "boundaries-2", Shard: 3, Weight: 4, Run: listPhase([]int{512, 1024, 1025, 2049}, 2)},
			{Name: "boundaries-2-all", Tier: "thorough", Shard: 3, Weight: 8, Run: listPhase(listSizes, 2)},
			{Name: "short-3", Tier: "thorough", Shard: 3, Weight: 4, Run: listPhase([]int{0, 1, 2, 3}, 3)},
			{Name: "page shapes", Shard: 3, Weight: 3, Run: func(c *Ctx) {
				// consecutive pages of chosen lengths
				lens := []int{1, 2, 512, 1023, 1024}
				shape := make([]int, 2+c.Choose(2, "pages"))
				for i := range shape {
					shape[i] = lens[c.Choose(len(lens), "page length")]
				}
				e := &listEnv{c: c, q: datastruct.NewQuicklist()}
				for range shape {
					for i := 0; i < 1024; i++ {
						e.pushBack()
					}
				}
				bounds := []int{0}
				for i, n := range shape {
					for k := 1024; k > n; k-- {
						e.remove(bounds[i] + k/2)
					}
					bounds = append(bounds, bounds[i]+n)
				}
				b := bounds[c.Choose(len(bounds), "boundary")]
				switch c.Choose(9, "operation") {
				case 0:
				case 1:
					e.insert(b)
				case 2:
					e.insert(b - 1)
				case 3:
					e.insert(b + 1)
				case 4:
					e.remove(b)
				case 5:
					e.remove(b - 1)
				case 6:
					e.insert(b)
					e.insert(b)
					e.remove(b - 1)
					e.remove(b)
				case 7: // the page before the boundary is emptied
					for i := 0; i < 1024 && b > 0; i++ {
						e.remove(b - 1)
						if b--; b == 0 || b == bounds[1] {
							break
						}
					}
				case 8:
					for i := 0; i < 3; i++ {
						e.pop(true)
						e.pop(false)
					}
				}
				e.check(e.q, true)
				e.check(e.q.DeepCopy(), false)
				c.Sample(fmt.Sprintf("pages %v", shape))
			}},
			{Name: "many pages", Shard: 2, Weight: 2, Run: func(c *Ctx) {
				n := []int{5121, 8193, 9000, 20481, 40000, 70001}[c.Choose(6, "length")]
				how := []int{0, 1, 4, 5}[c.Choose(4, "built by")]
				if how == 4 && n > 10000 {
					return
				}
				e := buildList(c, n, how)
				ops := func() {
					for _, i := range []int{0, 1024, n / 2, n - 1024, n - 2} {
						i = min(i, len(e.m)-1)
						e.insert(i)
						e.insert(i + 1)
						e.remove(i)
					}
				}
				for round := 0; round < 2; round++ {
					e.check(e.q, false)
					m := e.m
					for i := 0; i < len(m); i += 61 {
						if v := e.q.Get(i); v != any(m[i]) {
							c.Fail("Get(%d) = %v, expected %d (length %d)", i, v, m[i], len(m))
						}
					}
					for _, i := range []int{0, 1023, 1024, 2048, 5000, len(m) / 2, len(m) / 2 * 3 / 2, len(m) - 1025, len(m) - 1} {
						e.rng(e.q, i, -1)
						e.rng(e.q, 0, i)
						e.rng(e.q, i, i+1500)
						e.rng(e.q, i-len(m), i+1)
						if j := e.q.Find(m[i]); j != i {
							c.Fail("Find of the element at %d gives %d", i, j)
						}
					}
					ops()
				}
				e.check(e.q, false)
				e.check(e.q.DeepCopy(), false)
				for i := 0; i < 2100; i++ {
					e.pop(i%2 == 0)
				}
				e.check(e.q, false)
				e.rng(e.q, 0, -1)
				c.Sample(fmt.Sprintf("%d elements", n))
			}},
			{Name: "growth", Shard: 2, Weight: 1, Run: func(c *Ctx) {
				// grow and shrink over several pages at one chosen place, checking as it goes
				where := c.Choose(5, "where to insert")
				out := c.Choose(5, "where to remove")
				e := &listEnv{c: c, q: datastruct.NewQuicklist()}
				at := func(w int) int {
					switch w {
					case 0:
						return 0
					case 1:
						return len(e.m)
					case 2:
						return len(e.m) / 2
					case 3:
						return len(e.m) / 3
					}
					return min(len(e.m), 700)
				}
				for i := 0; i < 2600; i++ {
					e.insert(at(where))
					if i%256 == 255 {
						e.check(e.q, false)
					}
				}
				e.check(e.q, true)
				for len(e.m) > 0 {
					p := at(out)
					if p == len(e.m) {
						p--
					}
					e.remove(p)
					if len(e.m)%256 == 0 {
						e.check(e.q, false)
					}
				}
				e.check(e.q, true)
			}},
			{Name: "duplicates", Shard: 2, Run: func(c *Ctx) {
				// Find gives the first of equal elements
				q := datastruct.NewQuicklist()
				n := listSizes[c.Choose(len(listSizes), "length")]
				i := c.Choose(7, "first")
				j := c.Choose(7, "second")
				pos := []int{0, 1, n / 2, 1023, 1024, n - 2, n - 1}
				a, b := pos[i], pos[j]
				for k := 0; k < n; k++ {
					if k == a || k == b {
						q.PushBack("x")
					} else {
						q.PushBack("y" + itoa(k))
					}
				}
				want := -1
				for _, p := range []int{a, b} {
					if p >= 0 && p < n && (want < 0 || p < want) {
						want = p
					}
				}
				if g := q.Find("x"); g != want {
					c.Fail("Find gives %d, the first of the equal elements is at %d (length %d)", g, want, n)
				}
			}},
		}})
}

// --- C26: the skip list and the sorted set ---

type slEnv struct {
	c  *Ctx
	w  *rt.World
	sl *datastruct.Skiplist
	m  []zel // sorted
}

func less(a, b zel) bool { return a.s < b.s || (a.s == b.s && a.m < b.m) }

func (e *slEnv) insert(z zel, height int) {
	e.w.Rand.Script = levelScript(height)
	e.c.Step()
	n := e.sl.Insert(z.s, z.m)
	e.w.Rand.Script = nil
	if n == nil || n.Member != z.m || n.Score != z.s {
		e.c.Fail("Insert(%v) returns %v", z, n)
	}
	i := sort.Search(len(e.m), func(i int) bool { return less(z, e.m[i]) })
	e.m = append(e.m, zel{})
	copy(e.m[i+1:], e.m[i:])
	e.m[i] = z
	e.c.Logf("insert %v %q height %d", z.s, z.m, height)
}

func (e *slEnv) cut(lo, hi int) []zel {
	if lo >= hi {
		return nil
	}
	r := append([]zel(nil), e.m[lo:hi]...)
	e.m = append(append([]zel(nil), e.m[:lo]...), e.m[hi:]...)
	return r
}

func (e *slEnv) same(what string, got []*datastruct.SkiplistNode, want []zel) {
	ok := len(got) == len(want)
	for i := 0; ok && i < len(got); i++ {
		ok = got[i] != nil && got[i].Score == want[i].s && got[i].Member == want[i].m
	}
	if !ok {
		var g []zel
		for _, n := range got {
			if n == nil {
				g = append(g, zel{math.NaN(), "nil"})
				continue
			}
			g = append(g, zel{n.Score, n.Member})
		}
		e.c.Fail("%s gives %v, expected %v (all: %v)", what, g, want, e.m)
	}
}

func (e *slEnv) del(z zel) {
	i := -1
	for j := range e.m {
		if e.m[j] == z {
			i = j
		}
	}
	e.c.Step()
	e.c.Logf("delete %v %q", z.s, z.m)
	n := e.sl.Delete(z.s, z.m)
	if i < 0 {
		if n != nil {
			e.c.Fail("Delete(%v) of an absent element returns %v %q", z, n.Score, n.Member)
		}
		return
	}
	if n == nil || n.Score != z.s || n.Member != z.m {
		e.c.Fail("Delete(%v) returns %v", z, n)
	}
	e.cut(i, i+1)
}

func (e *slEnv) bounds(min, max float64) (int, int) {
	lo := sort.Search(len(e.m), func(i int) bool { return e.m[i].s >= min })
	hi := sort.Search(len(e.m), func(i int) bool { return e.m[i].s > max })
	if hi < lo {
		hi = lo
	}
	return lo, hi
}

func (e *slEnv) delScore(min, max float64) {
	e.c.Step()
	e.c.Logf("delete scores %v..%v", min, max)
	got := e.sl.DeleteRangeByScore(min, max)
	lo, hi := e.bounds(min, max)
	e.same(fmt.Sprintf("DeleteRangeByScore(%v, %v)", min, max), got, append([]zel(nil), e.m[lo:hi]...))
	e.cut(lo, hi)
}

func (e *slEnv) delRank(a, b int) {
	e.c.Step()
	e.c.Logf("delete ranks %d..%d", a, b)
	got := e.sl.DeleteRangeByRank(int64(a), int64(b))
	lo, hi := a-1, b
	if lo < 0 || hi < 1 || lo >= hi || lo >= len(e.m) {
		lo, hi = 0, 0
	}
	hi = min(hi, len(e.m))
	e.same(fmt.Sprintf("DeleteRangeByRank(%d, %d)", a, b), got, append([]zel(nil), e.m[lo:hi]...))
	e.cut(lo, hi)
}

// check compares the structure with the reference, queries included.
func (e *slEnv) check() {
	c, m, sl := e.c, e.m, e.sl
	if sl.Length != int64(len(m)) {
		c.Fail("Length = %d, there are %d elements", sl.Length, len(m))
	}
	x := sl.Head.Levels[0].Forward
	var last *datastruct.SkiplistNode
	for i, z := range m {
		if x == nil || x.Score != z.s || x.Member != z.m {
			c.Fail("forward traversal: element %d is %v, expected %v (all: %v)", i, x, z, m)
		}
		if x.Backward != last {
			c.Fail("backward link of element %d (%v) is wrong", i, z)
		}
		last, x = x, x.Levels[0].Forward
	}
	if x != nil {
		c.Fail("forward traversal goes on after %d elements: %v %q", len(m), x.Score, x.Member)
	}
	if sl.Tail != last {
		c.Fail("Tail is not the last element of %v", m)
	}
	for i, z := range m {
		if r := sl.GetRank(z.s, z.m); r != int64(i+1) {
			c.Fail("GetRank(%v) = %d, expected %d (all: %v)", z, r, i+1, m)
		}
		if n := sl.GetElementByRank(int64(i + 1)); n == nil || n.Score != z.s || n.Member != z.m {
			c.Fail("GetElementByRank(%d) = %v, expected %v", i+1, n, z)
		}
	}
	for _, r := range []int64{0, -1, int64(len(m) + 1), int64(len(m) + 5)} {
		if n := sl.GetElementByRank(r); n != nil {
			c.Fail("GetElementByRank(%d) of %d elements gives %v %q", r, len(m), n.Score, n.Member)
		}
	}
	if r := sl.GetRank(1, "absent"); r != 0 {
		c.Fail("GetRank of an absent element = %d", r)
	}
	if r := sl.GetRank(0, ""); r != 0 {
		c.Fail("GetRank of the absent element (0, \"\") = %d", r)
	}
	n := len(m)
	for a := 1; a <= n+1; a++ {
		for b := a - 1; b <= n+1; b++ {
			lo, hi := a-1, min(b, n)
			var want []zel
			if lo < hi {
				want = m[lo:hi]
			}
			e.same(fmt.Sprintf("RangeByRank(%d, %d)", a, b), sl.RangeByRank(int64(a), int64(b), false), want)
			e.same(fmt.Sprintf("RangeByRank(%d, %d, reverse)", a, b), sl.RangeByRank(int64(a), int64(b), true), rev(m, lo, hi))
		}
	}
	for _, a := range slScores {
		for _, b := range slScores {
			lo, hi := e.bounds(a, b)
			what := fmt.Sprintf("(%v, %v)", a, b)
			e.same("RangeByScore"+what, sl.RangeByScore(a, b, -1, false), m[lo:hi])
			var r []zel
			for i := hi - 1; i >= lo; i-- {
				r = append(r, m[i])
			}
			e.same("RangeByScore"+what+" reverse", sl.RangeByScore(a, b, -1, true), r)
			if hi > lo {
				e.same("RangeByScore"+what+" limit 1", sl.RangeByScore(a, b, 1, false), m[lo:lo+1])
			}
			e.same("RangeByScore"+what+" limit 0", sl.RangeByScore(a, b, 0, false), nil)
			if g := sl.Count(a, b); g != int64(hi-lo) {
				c.Fail("Count%s = %d, expected %d (all: %v)", what, g, hi-lo, m)
			}
			f, l := sl.GetFirstInScoreRange(a, b), sl.GetLastInScoreRange(a, b)
			if hi == lo {
				if f != nil || l != nil {
					c.Fail("GetFirst/LastInScoreRange%s of an empty range give %v, %v", what, f, l)
				}
			} else {
				e.same("GetFirstInScoreRange"+what, []*datastruct.SkiplistNode{f}, m[lo:lo+1])
				e.same("GetLastInScoreRange"+what, []*datastruct.SkiplistNode{l}, m[hi-1:hi])
			}
		}
	}
}

func rev(m []zel, lo, hi int) []zel {
	// ranks counted from the end
	var r []zel
	for i := lo; i < hi; i++ {
		r = append(r, m[len(m)-1-i])
	}
	return r
}

var slScores = []float64{math.Inf(-1), 0, 1, 1.5, 2, 3, 4, math.Inf(1)}
var slPool = []zel{{1, "a"}, {1, "b"}, {2, "a2"}, {2, "b2"}, {3, "c"}}

func (e *slEnv) deletions() int { return len(slPool) + 2 + 10 + 15 }

func (e *slEnv) deletion(k int) {
	if k < len(slPool) {
		e.del(slPool[k])
		return
	}
	k -= len(slPool)
	switch {
	case k == 0:
		e.del(zel{2, "a"})
		return
	case k == 1:
		e.del(zel{5, "z"})
		return
	}
	k -= 2
	if k < 10 {
		p := [][2]float64{{1, 1}, {1, 2}, {2, 2}, {2, 3}, {3, 3}, {0, 5}, {1.5, 1.7}, {3, 1}, {math.Inf(-1), 1}, {2, math.Inf(1)}}[k]
		e.delScore(p[0], p[1])
		return
	}
	k -= 10
	for a := 1; a <= 5; a++ {
		for b := a; b <= 5; b++ {
			if k == 0 {
				e.delRank(a, b)
				return
			}
			k--
		}
	}
}

func slPhase(n int, heights []int, dels, again int) func(c *Ctx) {
	return func(c *Ctx) {
		w := rt.NewWorld(nil, 0)
		e := &slEnv{c: c, w: w, sl: datastruct.NewSkiplist()}
		left := append([]zel(nil), slPool...)
		for i := 0; i < n; i++ {
			k := c.Choose(len(left), "element")
			h := heights[c.Choose(len(heights), "height")]
			z := left[k]
			left = append(append([]zel(nil), left[:k]...), left[k+1:]...)
			e.insert(z, h)
		}
		if dels == 0 {
			e.check()
		}
		for i := 0; i < dels; i++ {
			e.deletion(c.Choose(e.deletions(), "deletion"))
			e.check()
		}
		for i := 0; i < again; i++ {
			for _, z := range slPool {
				in := false
				for _, y := range e.m {
					in = in || y == z
				}
				if !in {
					e.insert(z, heights[c.Choose(len(heights), "height again")])
					e.check()
					break
				}
			}
		}
		c.State(fmt.Sprint(e.m))
		if c.eng != nil && len(c.eng.samples) < 3 {
			c.Sample(fmt.Sprintf("%d insertions and %d deletions leave %v", n, dels, e.m))
		}
	}
}

// strType is the dictionary type of a sorted set with string members.
type strType struct{}

func (strType) Hash(a any) int64 {
	h := fnv.New64a()
	h.Write([]byte(a.(string)))
	return int64(h.Sum64())
}
func (strType) Equal(a, b any) bool { return a.(string) == b.(string) }

type zsEnv struct {
	c *Ctx
	w *rt.World
	z *datastruct.Zset
	v *Val
}

func (e *zsEnv) names(els []*datastruct.ZsetElement) string {
	var p []string
	for _, x := range els {
		if x == nil {
			p = append(p, "nil")
			continue
		}
		p = append(p, fmt.Sprintf("%s=%v", x.Member, x.Score))
	}
	return strings.Join(p, " ")
}

func zNames(m []zel) string {
	var p []string
	for _, x := range m {
		p = append(p, fmt.Sprintf("%s=%v", x.m, x.s))
	}
	return strings.Join(p, " ")
}

func (e *zsEnv) eq(what string, got []*datastruct.ZsetElement, want []zel) {
	if g, w := e.names(got), zNames(want); g != w {
		e.c.Fail("%s gives [%s], expected [%s] (all: %s)", what, g, w, zNames(e.v.zsorted()))
	}
}

func (e *zsEnv) add(m string, s float64, h int) {
	_, old := e.v.z[m]
	e.w.Rand.Script = levelScript(h)
	e.c.Step()
	e.c.Logf("add %s=%v height %d", m, s, h)
	if r := e.z.Add(s, m); r == old {
		e.c.Fail("Add(%v, %s) reports new=%v, the member was present: %v", s, m, r, old)
	}
	e.w.Rand.Script = nil
	e.v.z[m] = s
}

func (e *zsEnv) del(m string) {
	_, old := e.v.z[m]
	e.c.Step()
	e.c.Logf("delete %s", m)
	if r := e.z.Delete(m); r != old {
		e.c.Fail("Delete(%s) = %v, the member was present: %v", m, r, old)
	}
	delete(e.v.z, m)
}

func (e *zsEnv) rm(what string, got []*datastruct.ZsetElement, want []zel) {
	e.c.Step()
	e.c.Logf("%s", what)
	e.eq(what, got, want)
	for _, x := range want {
		delete(e.v.z, x.m)
	}
}

func (e *zsEnv) check() {
	c := e.c
	m := e.v.zsorted()
	n := int64(len(m))
	if e.z.Size() != n {
		c.Fail("Size() = %d, expected %d", e.z.Size(), n)
	}
	for i, x := range m {
		g := e.z.Get(x.m)
		if g == nil || g.Score != x.s || g.Member != x.m {
			c.Fail("Get(%s) = %v, expected score %v", x.m, g, x.s)
		}
		if r := e.z.GetRank(x.m, false); r != int64(i) {
			c.Fail("GetRank(%s) = %d, expected %d (all: %s)", x.m, r, i, zNames(m))
		}
		if r := e.z.GetRank(x.m, true); r != n-1-int64(i) {
			c.Fail("GetRank(%s, reverse) = %d, expected %d (all: %s)", x.m, r, n-1-int64(i), zNames(m))
		}
	}
	for _, x := range []string{"a", "b", "c", "absent"} {
		if _, ok := e.v.z[x]; !ok {
			if g := e.z.Get(x); g != nil {
				c.Fail("Get(%s) of an absent member = %v", x, g)
			}
			if r := e.z.GetRank(x, false); r != -1 {
				c.Fail("GetRank(%s) of an absent member = %d", x, r)
			}
		}
	}
	for a := -n - 1; a <= n; a++ {
		for b := -n - 1; b <= n; b++ {
			lo, hi := clampRange(a, b, n)
			var want, back []zel
			for i := lo; i < hi; i++ {
				want = append(want, m[i])
				back = append(back, m[n-1-i])
			}
			e.eq(fmt.Sprintf("RangeByRank(%d, %d)", a, b), e.z.RangeByRank(a, b, false), want)
			e.eq(fmt.Sprintf("RangeByRank(%d, %d, reverse)", a, b), e.z.RangeByRank(a, b, true), back)
		}
	}
	for _, a := range []float64{0, 1, 2, 3} {
		for _, b := range []float64{1, 2, 3, math.Inf(1)} {
			var want, back []zel
			for i := range m {
				if m[i].s >= a && m[i].s <= b {
					want = append(want, m[i])
					back = append([]zel{m[i]}, back...)
				}
			}
			e.eq(fmt.Sprintf("RangeByScore(%v, %v)", a, b), e.z.RangeByScore(a, b, -1, false), want)
			e.eq(fmt.Sprintf("RangeByScore(%v, %v, reverse)", a, b), e.z.RangeByScore(a, b, -1, true), back)
			if g := e.z.Count(a, b); g != int64(len(want)) {
				c.Fail("Count(%v, %v) = %d, expected %d", a, b, g, len(want))
			}
		}
	}
}

func zsPhase(depth int, members []string, heights []int) func(c *Ctx) {
	return func(c *Ctx) {
		w := rt.NewWorld(nil, 0)
		e := &zsEnv{c: c, w: w, z: datastruct.NewZset(strType{}), v: &Val{kind: 'z', z: map[string]float64{}}}
		rk := [][2]int64{{0, 0}, {0, 1}, {1, 1}, {-1, -1}, {0, -1}, {1, 5}, {-5, 0}, {2, 1}}
		sc := [][2]float64{{1, 1}, {2, 3}, {0, 9}, {3, 1}}
		for i := 0; i < depth; i++ {
			k := c.Choose(3*len(members)*len(heights)+len(members)+len(rk)+len(sc), "operation")
			na := 3 * len(members) * len(heights)
			switch {
			case k < na:
				h := heights[k%len(heights)]
				k /= len(heights)
				e.add(members[k%len(members)], float64(1+k/len(members)), h)
			case k < na+len(members):
				e.del(members[k-na])
			case k < na+len(members)+len(rk):
				r := rk[k-na-len(members)]
				m := e.v.zsorted()
				lo, hi := clampRange(r[0], r[1], int64(len(m)))
				var want []zel
				want = m[lo:hi]
				e.rm(fmt.Sprintf("DeleteRangeByRank(%d, %d)", r[0], r[1]), e.z.DeleteRangeByRank(r[0], r[1]), want)
			default:
				r := sc[k-na-len(members)-len(rk)]
				var want []zel
				for _, x := range e.v.zsorted() {
					if x.s >= r[0] && x.s <= r[1] {
						want = append(want, x)
					}
				}
				got := e.z.DeleteRangeByScore(r[0], r[1])
				e.rmScore(fmt.Sprintf("DeleteRangeByScore(%v, %v)", r[0], r[1]), got, want)
			}
		}
		e.check()
		cp := &zsEnv{c: c, w: w, z: e.z.DeepCopy(), v: e.v.clone()}
		cp.check()
		cp.add("zz", 2, 2)
		cp.del(members[0])
		cp.check()
		e.check()
		c.State(zNames(e.v.zsorted()))
	}
}

func (e *zsEnv) rmScore(what string, got []*datastruct.ZsetElement, want []zel) {
	e.rm(what, got, want)
}

func registerSkiplist() {
	register(&Check{ID: "C26", Explanation: "All insertion orders of up to four of five elements with equal and different scores, all assignments of heights, every deletion by element, score range and rank range and pairs of them, with re-insertion, on the real skip list; all sequences of sorted-set operations with all heights up to a depth. After every operation the traversal in both directions, every rank, element-at-rank, every rank and score range in both directions, counts and first and last in range are compared with a sorted reference.",
		Assumptions: []string{"one random height draw does not exceed 100 consecutive low outcomes (probability below 4^-100)", "scores are not NaN (refused by the server, C12)"},
		Phases: []Phase{
			{Name: "insert-4", Shard: 3, Weight: 2, Run: slPhase(4, []int{1, 2, 3}, 0, 0)},
			{Name: "insert-3-delete", Shard: 4, Weight: 2, Run: slPhase(3, []int{1, 2, 3}, 1, 0)},
			{Name: "insert-3-delete-2", Tier: "thorough", Shard: 4, Weight: 4, Run: slPhase(3, []int{1, 2, 3}, 2, 1)},
			{Name: "insert-4-delete", Tier: "thorough", Shard: 4, Weight: 4, Run: slPhase(4, []int{1, 2, 3}, 1, 1)},
			{Name: "insert-5-delete", Tier: "thorough", Shard: 4, Weight: 4, Run: slPhase(5, []int{1, 2}, 1, 0)},
			{Name: "insert-4-delete-12", Shard: 4, Weight: 3, Run: slPhase(4, []int{1, 2}, 1, 1)},
			{Name: "extreme-heights", Shard: 3, Weight: 2, Run: slPhase(3, []int{1, 31, 32, 40}, 1, 0)},
			{Name: "sorted-set", Shard: 2, Weight: 3, Run: zsPhase(3, []string{"a", "b", "c"}, []int{1, 3})},
			{Name: "sorted-set-4", Tier: "thorough", Shard: 3, Weight: 5, Run: zsPhase(4, []string{"a", "b", "c"}, []int{1, 3})},
			{Name: "large", Shard: 2, Weight: 1, Run: func(c *Ctx) {
				// many elements with a regular height pattern, deletions over long ranges
				n := []int{10, 64, 300}[c.Choose(3, "elements")]
				pat := [][]int{{1}, {1, 2, 1, 3}, {4, 1, 1, 2}, {5, 4, 3, 2, 1}, {1, 1, 1, 8}}[c.Choose(5, "heights")]
				ties := []int{1, 2, 7, 1000}[c.Choose(4, "elements per score")]
				kind := c.Choose(4, "deletion")
				w := rt.NewWorld(nil, 0)
				e := &slEnv{c: c, w: w, sl: datastruct.NewSkiplist()}
				for i := 0; i < n; i++ {
					k := (i*37 + 11) % n
					if n%37 == 0 {
						k = i
					}
					e.insert(zel{float64(k / ties), fmt.Sprintf("m%03d", k)}, pat[i%len(pat)])
				}
				light := func() {
					x := e.sl.Head.Levels[0].Forward
					for i, z := range e.m {
						if x == nil || x.Score != z.s || x.Member != z.m {
							c.Fail("forward traversal: element %d is wrong, expected %v", i, z)
						}
						if r := e.sl.GetRank(z.s, z.m); r != int64(i+1) {
							c.Fail("GetRank(%v) = %d, expected %d", z, r, i+1)
						}
						if y := e.sl.GetElementByRank(int64(i + 1)); y != x {
							c.Fail("GetElementByRank(%d) is not element %v", i+1, z)
						}
						x = x.Levels[0].Forward
					}
					if x != nil || e.sl.Length != int64(len(e.m)) {
						c.Fail("the traversal does not end after %d elements (Length %d)", len(e.m), e.sl.Length)
					}
				}
				light()
				switch kind {
				case 0:
					e.delRank(n/4, n/2)
				case 1:
					e.delScore(float64(n/ties/4), float64(n/ties/2))
				case 2:
					for i := 0; i < n; i += 3 {
						if i < len(e.m) {
							e.del(e.m[i])
						}
					}
				case 3:
					e.delRank(1, n-1)
				}
				light()
				for i := 0; i < 5; i++ {
					e.insert(zel{float64(i), "new" + itoa(i)}, pat[(i+1)%len(pat)])
				}
				light()
			}},
		}})
}

func init() {
	registerDict()
	registerList()
	registerSkiplist()
}
