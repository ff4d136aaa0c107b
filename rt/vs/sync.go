package vs

import (
	"context"
	"sync"
	"sync/atomic"
	"unsafe"
)

// Mutex stands in for sync.Mutex.
type Mutex struct {
	st *mstate
}

type mstate struct {
	obj
	s       *sched
	locked  bool // write locked (or a writer has announced itself)
	readers int
	wtok    *hbTok
	rtok    *hbTok
}

func (s *sched) mstate(p **mstate) *mstate {
	if *p == nil || (*p).s != s {
		*p = &mstate{s: s, wtok: new(hbTok), rtok: new(hbTok)}
	}
	return *p
}

func (m *Mutex) Lock() {
	s, t := self()
	if s == nil {
		return
	}
	st := s.mstate(&m.st)
	s.do(t, &op{kind: "lock", alts: func() int {
		if st.locked {
			return 0
		}
		return 1
	}, exec: func(int) { st.locked = true; touch(t, &st.obj, 21) }, acq: []*hbTok{st.wtok}})
}

func (m *Mutex) TryLock() bool {
	s, t := self()
	if s == nil {
		return true
	}
	st := s.mstate(&m.st)
	ok := false
	o := &op{kind: "trylock", alts: yes}
	o.exec = func(int) {
		touch(t, &st.obj, 22)
		if !st.locked {
			st.locked = true
			ok = true
			o.acq = []*hbTok{st.wtok}
		}
	}
	s.do(t, o)
	return ok
}

func (m *Mutex) Unlock() {
	s, t := self()
	if s == nil {
		return
	}
	st := s.mstate(&m.st)
	if !st.locked {
		fatal("sync: unlock of unlocked mutex")
	}
	releaseMerge(st.wtok)
	st.locked = false
	touch(t, &st.obj, 23)
}

// fatal is an unrecoverable runtime error.
func fatal(msg string) {
	s, t := self()
	s.fail("panic", "", "fatal error: "+msg+" at "+callSite())
	s.do(t, &op{kind: "fatal", alts: func() int { return 0 }})
}

// RWMutex stands in for sync.RWMutex.
type RWMutex struct {
	st *mstate
}

func (m *RWMutex) Lock() {
	s, t := self()
	if s == nil {
		return
	}
	st := s.mstate(&m.st)
	got := false
	s.do(t, &op{kind: "wlock", alts: func() int {
		if st.locked {
			return 0
		}
		return 1
	}, exec: func(int) { st.locked = true; got = st.readers == 0; touch(t, &st.obj, 24) }, acq: []*hbTok{st.wtok}})
	if got {
		acquire(st.rtok)
		return
	}
	s.do(t, &op{kind: "wlock-wait", alts: func() int {
		if st.readers > 0 {
			return 0
		}
		return 1
	}, exec: func(int) { touch(t, &st.obj, 25) }, acq: []*hbTok{st.rtok}})
}

func (m *RWMutex) Unlock() {
	s, t := self()
	if s == nil {
		return
	}
	st := s.mstate(&m.st)
	if !st.locked {
		fatal("sync: Unlock of unlocked RWMutex")
	}
	releaseMerge(st.wtok)
	st.locked = false
	touch(t, &st.obj, 26)
}

func (m *RWMutex) RLock() {
	s, t := self()
	if s == nil {
		return
	}
	st := s.mstate(&m.st)
	s.do(t, &op{kind: "rlock", alts: func() int {
		if st.locked {
			return 0
		}
		return 1
	}, exec: func(int) { st.readers++; touch(t, &st.obj, 27) }, acq: []*hbTok{st.wtok}})
}

func (m *RWMutex) RUnlock() {
	s, t := self()
	if s == nil {
		return
	}
	st := s.mstate(&m.st)
	if st.readers == 0 {
		fatal("sync: RUnlock of unlocked RWMutex")
	}
	releaseMerge(st.rtok)
	st.readers--
	touch(t, &st.obj, 28)
}

func (m *RWMutex) TryLock() bool {
	s, t := self()
	if s == nil {
		return true
	}
	st := s.mstate(&m.st)
	ok := false
	o := &op{kind: "trywlock", alts: yes}
	o.exec = func(int) {
		touch(t, &st.obj, 29)
		if !st.locked && st.readers == 0 {
			st.locked = true
			ok = true
			o.acq = []*hbTok{st.wtok, st.rtok}
		}
	}
	s.do(t, o)
	return ok
}

func (m *RWMutex) TryRLock() bool {
	s, t := self()
	if s == nil {
		return true
	}
	st := s.mstate(&m.st)
	ok := false
	o := &op{kind: "tryrlock", alts: yes}
	o.exec = func(int) {
		touch(t, &st.obj, 30)
		if !st.locked {
			st.readers++
			ok = true
			o.acq = []*hbTok{st.wtok}
		}
	}
	s.do(t, o)
	return ok
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

// Cond stands in for sync.Cond.
type Cond struct {
	L  sync.Locker
	st *cstate
}

type cstate struct {
	obj
	s    *sched
	wait []*cwaiter
}

type cwaiter struct {
	ok  bool
	tok *hbTok
}

func NewCond(l sync.Locker) *Cond { return &Cond{L: l} }

func (c *Cond) state(s *sched) *cstate {
	if c.st == nil || c.st.s != s {
		c.st = &cstate{s: s}
	}
	return c.st
}

func (c *Cond) Wait() {
	s, t := self()
	if s == nil {
		panic("vs: Cond.Wait outside of an execution")
	}
	st := c.state(s)
	w := &cwaiter{}
	st.wait = push(st.wait, w)
	touch(t, &st.obj, 31)
	c.L.Unlock()
	o := &op{kind: "cond.Wait", alts: func() int {
		if w.ok {
			return 1
		}
		return 0
	}}
	o.exec = func(int) { touch(t, &st.obj, 32); o.acq = []*hbTok{w.tok} }
	s.do(t, o)
	c.L.Lock()
}

func (c *Cond) Signal() {
	s, t := self()
	if s == nil {
		return
	}
	st := c.state(s)
	s.do(t, &op{kind: "cond.Signal", alts: yes, exec: func(int) {
		touch(t, &st.obj, 33)
		if len(st.wait) > 0 {
			st.wait[0].ok = true
			st.wait[0].tok = t.tok
			st.wait = st.wait[1:]
		}
	}})
}

func (c *Cond) Broadcast() {
	s, t := self()
	if s == nil {
		return
	}
	st := c.state(s)
	s.do(t, &op{kind: "cond.Broadcast", alts: yes, exec: func(int) {
		touch(t, &st.obj, 34)
		for _, w := range st.wait {
			w.ok = true
			w.tok = t.tok
		}
		st.wait = nil
	}})
}

// Once stands in for sync.Once.
type Once struct {
	m    Mutex
	s    *sched
	done bool
}

func (o *Once) Do(f func()) {
	s, _ := self()
	if o.s != s && s != nil {
		o.s = s
		if !o.done {
			o.m = Mutex{}
		}
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var r T
	return func() T { o.Do(func() { r = f() }); return r }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var r1 T1
	var r2 T2
	return func() (T1, T2) { o.Do(func() { r1, r2 = f() }); return r1, r2 }
}

// WaitGroup stands in for sync.WaitGroup.
type WaitGroup struct {
	st *wgstate
}

type wgstate struct {
	obj
	s   *sched
	n   int
	tok *hbTok
}

func (w *WaitGroup) state(s *sched) *wgstate {
	if w.st == nil || w.st.s != s {
		w.st = &wgstate{s: s, tok: new(hbTok)}
	}
	return w.st
}

func (w *WaitGroup) Add(n int) {
	s, t := self()
	if s == nil {
		return
	}
	st := w.state(s)
	s.do(t, &op{kind: "wg.Add", alts: yes, exec: func(int) { touch(t, &st.obj, 35); st.n += n }})
	releaseMerge(st.tok)
	if st.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

func (w *WaitGroup) Done() {
	if s, _ := self(); s != nil {
		releaseMerge(w.state(s).tok)
	}
	w.Add(-1)
}

func (w *WaitGroup) Wait() {
	s, t := self()
	if s == nil {
		return
	}
	st := w.state(s)
	s.do(t, &op{kind: "wg.Wait", alts: func() int {
		if st.n > 0 {
			return 0
		}
		return 1
	}, exec: func(int) { touch(t, &st.obj, 36) }, acq: []*hbTok{st.tok}})
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() {
		defer w.Done()
		f()
	})
}

// Map stands in for sync.Map.
type Map struct {
	st   *mapState
	keys []interface{}
	vals []interface{}
}

type mapState struct {
	obj
	s   *sched
	tok *hbTok
}

func (m *Map) at(kind string) {
	s, t := self()
	if s == nil {
		return
	}
	if m.st == nil || m.st.s != s {
		m.st = &mapState{s: s, tok: new(hbTok)}
	}
	s.do(t, &op{kind: "syncmap." + kind, alts: yes, exec: func(int) { touch(t, &m.st.obj, 37) }, acq: []*hbTok{m.st.tok}})
	releaseMerge(m.st.tok)
}

func (m *Map) get(k interface{}) (interface{}, bool) {
	for i, x := range m.keys {
		if x == k {
			return m.vals[i], true
		}
	}
	return nil, false
}

func (m *Map) set(k, v interface{}) {
	for i, x := range m.keys {
		if x == k {
			m.vals[i] = v
			return
		}
	}
	m.keys = push(m.keys, k)
	m.vals = push(m.vals, v)
}

// without copies l except for element i (like push, unseen by the race detector).
func without(l []interface{}, i int) []interface{} {
	var out []interface{}
	for j, x := range l {
		if j != i {
			out = push(out, x)
		}
	}
	return out
}

func (m *Map) del(k interface{}) {
	for i, x := range m.keys {
		if x == k {
			m.keys = without(m.keys, i)
			m.vals = without(m.vals, i)
			return
		}
	}
}

func (m *Map) Load(k interface{}) (interface{}, bool) {
	m.at("Load")
	return m.get(k)
}

func (m *Map) Store(k, v interface{}) {
	m.at("Store")
	m.set(k, v)
}

func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	m.at("LoadOrStore")
	if x, ok := m.get(k); ok {
		return x, true
	}
	m.set(k, v)
	return v, false
}

func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	m.at("LoadAndDelete")
	v, ok := m.get(k)
	m.del(k)
	return v, ok
}

func (m *Map) Delete(k interface{}) {
	m.at("Delete")
	m.del(k)
}

func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	m.at("Swap")
	x, ok := m.get(k)
	m.set(k, v)
	return x, ok
}

func (m *Map) CompareAndSwap(k, o, n interface{}) bool {
	m.at("CompareAndSwap")
	if x, ok := m.get(k); ok && x == o {
		m.set(k, n)
		return true
	}
	return false
}

func (m *Map) CompareAndDelete(k, o interface{}) bool {
	m.at("CompareAndDelete")
	if x, ok := m.get(k); ok && x == o {
		m.del(k)
		return true
	}
	return false
}

func (m *Map) Clear() {
	m.at("Clear")
	m.keys, m.vals = nil, nil
}

func (m *Map) Range(f func(k, v interface{}) bool) {
	m.at("Range")
	for _, k := range without(m.keys, -1) {
		m.at("Range.next")
		v, ok := m.get(k)
		if !ok {
			continue
		}
		if !f(k, v) {
			return
		}
	}
}

// Pool stands in for sync.Pool: it never keeps anything.
type Pool struct {
	New func() interface{}
}

func (p *Pool) Get() interface{} {
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(interface{}) {}

// ---------------------------------------------------------------- atomics

func at(p unsafe.Pointer, pin interface{}, kind string) {
	s, t := self()
	if s == nil {
		return
	}
	st := s.chans.get(p)
	if st == nil {
		st = &chanState{}
		st.pin = pin
		s.chans.put(p, st)
	}
	s.point(t, kind, &st.obj)
	releaseMerge(&st.tok)
}

func AddInt32(p *int32, d int32) int32 {
	at(unsafe.Pointer(p), p, "atomic")
	return atomic.AddInt32(p, d)
}
func AddInt64(p *int64, d int64) int64 {
	at(unsafe.Pointer(p), p, "atomic")
	return atomic.AddInt64(p, d)
}
func AddUint32(p *uint32, d uint32) uint32 {
	at(unsafe.Pointer(p), p, "atomic")
	return atomic.AddUint32(p, d)
}
func AddUint64(p *uint64, d uint64) uint64 {
	at(unsafe.Pointer(p), p, "atomic")
	return atomic.AddUint64(p, d)
}
func LoadInt32(p *int32) int32        { at(unsafe.Pointer(p), p, "atomic"); return atomic.LoadInt32(p) }
func LoadInt64(p *int64) int64        { at(unsafe.Pointer(p), p, "atomic"); return atomic.LoadInt64(p) }
func LoadUint32(p *uint32) uint32     { at(unsafe.Pointer(p), p, "atomic"); return atomic.LoadUint32(p) }
func LoadUint64(p *uint64) uint64     { at(unsafe.Pointer(p), p, "atomic"); return atomic.LoadUint64(p) }
func StoreInt32(p *int32, v int32)    { at(unsafe.Pointer(p), p, "atomic"); atomic.StoreInt32(p, v) }
func StoreInt64(p *int64, v int64)    { at(unsafe.Pointer(p), p, "atomic"); atomic.StoreInt64(p, v) }
func StoreUint32(p *uint32, v uint32) { at(unsafe.Pointer(p), p, "atomic"); atomic.StoreUint32(p, v) }
func StoreUint64(p *uint64, v uint64) { at(unsafe.Pointer(p), p, "atomic"); atomic.StoreUint64(p, v) }
func SwapInt32(p *int32, v int32) int32 {
	at(unsafe.Pointer(p), p, "atomic")
	return atomic.SwapInt32(p, v)
}
func SwapInt64(p *int64, v int64) int64 {
	at(unsafe.Pointer(p), p, "atomic")
	return atomic.SwapInt64(p, v)
}
func SwapUint32(p *uint32, v uint32) uint32 {
	at(unsafe.Pointer(p), p, "atomic")
	return atomic.SwapUint32(p, v)
}
func SwapUint64(p *uint64, v uint64) uint64 {
	at(unsafe.Pointer(p), p, "atomic")
	return atomic.SwapUint64(p, v)
}
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	at(unsafe.Pointer(p), p, "atomic")
	return atomic.CompareAndSwapInt32(p, o, n)
}
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	at(unsafe.Pointer(p), p, "atomic")
	return atomic.CompareAndSwapInt64(p, o, n)
}
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	at(unsafe.Pointer(p), p, "atomic")
	return atomic.CompareAndSwapUint32(p, o, n)
}
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	at(unsafe.Pointer(p), p, "atomic")
	return atomic.CompareAndSwapUint64(p, o, n)
}

type Int32 struct{ v atomic.Int32 }

func (x *Int32) at()                            { at(unsafe.Pointer(x), x, "atomic") }
func (x *Int32) Load() int32                    { x.at(); return x.v.Load() }
func (x *Int32) Store(v int32)                  { x.at(); x.v.Store(v) }
func (x *Int32) Add(d int32) int32              { x.at(); return x.v.Add(d) }
func (x *Int32) Swap(v int32) int32             { x.at(); return x.v.Swap(v) }
func (x *Int32) CompareAndSwap(o, n int32) bool { x.at(); return x.v.CompareAndSwap(o, n) }

type Int64 struct{ v atomic.Int64 }

func (x *Int64) at()                            { at(unsafe.Pointer(x), x, "atomic") }
func (x *Int64) Load() int64                    { x.at(); return x.v.Load() }
func (x *Int64) Store(v int64)                  { x.at(); x.v.Store(v) }
func (x *Int64) Add(d int64) int64              { x.at(); return x.v.Add(d) }
func (x *Int64) Swap(v int64) int64             { x.at(); return x.v.Swap(v) }
func (x *Int64) CompareAndSwap(o, n int64) bool { x.at(); return x.v.CompareAndSwap(o, n) }

type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) at()                             { at(unsafe.Pointer(x), x, "atomic") }
func (x *Uint32) Load() uint32                    { x.at(); return x.v.Load() }
func (x *Uint32) Store(v uint32)                  { x.at(); x.v.Store(v) }
func (x *Uint32) Add(d uint32) uint32             { x.at(); return x.v.Add(d) }
func (x *Uint32) Swap(v uint32) uint32            { x.at(); return x.v.Swap(v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { x.at(); return x.v.CompareAndSwap(o, n) }

type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) at()                             { at(unsafe.Pointer(x), x, "atomic") }
func (x *Uint64) Load() uint64                    { x.at(); return x.v.Load() }
func (x *Uint64) Store(v uint64)                  { x.at(); x.v.Store(v) }
func (x *Uint64) Add(d uint64) uint64             { x.at(); return x.v.Add(d) }
func (x *Uint64) Swap(v uint64) uint64            { x.at(); return x.v.Swap(v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { x.at(); return x.v.CompareAndSwap(o, n) }

type Bool struct{ v atomic.Bool }

func (x *Bool) at()                           { at(unsafe.Pointer(x), x, "atomic") }
func (x *Bool) Load() bool                    { x.at(); return x.v.Load() }
func (x *Bool) Store(v bool)                  { x.at(); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool              { x.at(); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(o, n bool) bool { x.at(); return x.v.CompareAndSwap(o, n) }

type Value struct{ v atomic.Value }

func (x *Value) at()                                  { at(unsafe.Pointer(x), x, "atomic") }
func (x *Value) Load() interface{}                    { x.at(); return x.v.Load() }
func (x *Value) Store(v interface{})                  { x.at(); x.v.Store(v) }
func (x *Value) Swap(v interface{}) interface{}       { x.at(); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(o, n interface{}) bool { x.at(); return x.v.CompareAndSwap(o, n) }

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) at()                         { at(unsafe.Pointer(x), x, "atomic") }
func (x *Pointer[T]) Load() *T                    { x.at(); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)                  { x.at(); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T                { x.at(); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { x.at(); return x.v.CompareAndSwap(o, n) }

var _ context.Context
