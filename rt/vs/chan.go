package vs

import (
	"fmt"
	"reflect"
	"unsafe"
)

type item struct {
	v   interface{}
	tok *hbTok
}

type chanState struct {
	obj
	cap    int
	buf    []item
	closed bool
	dead   *hbTok   // token of the closer
	sent   int      // sends that went through the buffer
	freed  []*hbTok // tokens of the receivers that freed its slots
	elem   func() interface{}
	wait   [2]int // pending receive and send cases
}

type selCase struct {
	ch   *chanState // nil for a nil channel
	send bool
	val  interface{}
	out  interface{}
	ok   bool
}

func chanPtr(c interface{}) (unsafe.Pointer, reflect.Value) {
	v := reflect.ValueOf(c)
	return v.UnsafePointer(), v
}

func (s *sched) chanOf(c interface{}) *chanState {
	p, v := chanPtr(c)
	if p == nil {
		return nil
	}
	st := s.chans.get(p)
	if st == nil {
		st = &chanState{cap: v.Cap()}
		st.pin = c
		s.chans.put(p, st)
		// adopt what was put into the channel before the execution began
	}
	return st
}

// partners lists the pending select cases that can meet case c of t.
func (s *sched) partners(t *thread, c *selCase) []*opCase {
	var out []*opCase
	left := c.ch.wait[dir(!c.send)]
	if left == 0 {
		return nil
	}
	for _, x := range s.threads {
		if x == t || x.op == nil {
			continue
		}
		for i, k := range x.op.cases {
			if k.ch != nil && k.ch == c.ch && k.send != c.send {
				out = push(out, &opCase{x, i})
				left--
			}
		}
		if left == 0 {
			break
		}
	}
	return out
}

func dir(send bool) int {
	if send {
		return 1
	}
	return 0
}

// count notes that the operation is pending, or no longer.
func (o *op) count(n int) {
	for _, k := range o.cases {
		if k.ch != nil {
			k.ch.wait[dir(k.send)] += n
		}
	}
}

type opCase struct {
	t *thread
	i int
}

type selAlt struct {
	i       int // case index, -1 default
	partner *opCase
}

func (s *sched) selAlts(o *op) []selAlt {
	var out []selAlt
	ready := false
	for i, c := range o.cases {
		if c.ch == nil {
			continue
		}
		st := c.ch
		if c.send {
			if st.closed || len(st.buf) < st.cap {
				ready = true
				out = push(out, selAlt{i, nil})
				continue
			}
		} else if len(st.buf) > 0 || st.closed {
			ready = true
			out = push(out, selAlt{i, nil})
			continue
		}
		if st.cap == 0 {
			for _, p := range s.partners(o.t, c) {
				ready = true
				// a rendezvous is listed under the last-run thread if it takes
				// part in it, and under the receiver otherwise
				if c.send && o.t != s.last {
					continue
				}
				if !c.send && o.t != s.last && p.t == s.last {
					continue
				}
				out = push(out, selAlt{i, p})
			}
		}
	}
	if o.hasDef && !ready {
		out = push(out, selAlt{-1, nil})
	}
	return out
}

func (s *sched) selExec(o *op, a selAlt) {
	o.chosen = a.i
	t := o.t
	if a.i < 0 {
		h := uint64(5)
		for _, c := range o.cases {
			if c.ch != nil {
				h = mix(h, c.ch.h)
			}
		}
		t.hash = mix(t.hash, h)
		for _, c := range o.cases {
			if c.ch != nil {
				c.ch.h = mix(c.ch.h, t.hash)
			}
		}
		return
	}
	c := o.cases[a.i]
	st := c.ch
	if a.partner != nil {
		p := a.partner
		po := p.t.op
		pc := po.cases[p.i]
		po.chosen = p.i
		// both sides synchronise with each other
		h := mix(mix(t.hash, p.t.hash), uint64(a.i*64+p.i))
		if c.send {
			pc.out, pc.ok = c.val, true
			h = mix(mix(t.hash, p.t.hash), uint64(a.i*64+p.i))
		} else {
			c.out, c.ok = pc.val, true
			h = mix(mix(p.t.hash, t.hash), uint64(p.i*64+a.i))
		}
		st.h = mix(st.h, h)
		t.hash = mix(t.hash, st.h)
		p.t.hash = mix(p.t.hash, st.h)
		o.acq = push(o.acq, p.t.tok)
		po.acq = push(po.acq, t.tok)
		s.resume(p.t)
		return
	}
	if c.send {
		touch(t, &st.obj, uint64(11+a.i*16))
		if st.closed {
			o.panicV = runtimeError("send on closed channel")
			return
		}
		// the receive which freed the slot happens before the send completes
		if st.sent >= st.cap && len(st.freed) > 0 {
			o.acq = push(o.acq, st.freed[0])
			st.freed = st.freed[1:]
		}
		st.sent++
		st.buf = push(st.buf, item{c.val, t.tok})
		return
	}
	touch(t, &st.obj, uint64(12+a.i*16))
	if len(st.buf) > 0 {
		it := st.buf[0]
		st.buf = st.buf[1:]
		st.freed = push(st.freed, t.tok)
		c.out, c.ok = it.v, true
		if it.tok != nil {
			o.acq = push(o.acq, it.tok)
		}
		return
	}
	c.out, c.ok = nil, false
	if st.dead != nil {
		o.acq = push(o.acq, st.dead)
	}
}

type rtErr struct{ s string }

func (e rtErr) Error() string { return e.s }
func (e rtErr) RuntimeError() {}

func runtimeError(s string) error { return rtErr{s} }

func (s *sched) sel(t *thread, kind string, hasDef bool, cases []*selCase) int {
	o := &op{kind: kind, cases: cases, hasDef: hasDef, t: t}
	if s.tracing {
		o.site = callSite()
	}
	var last []selAlt
	o.alts = func() int { last = s.selAlts(o); return len(last) }
	o.exec = func(i int) { s.selExec(o, last[i]) }
	s.do(t, o)
	return o.chosen
}

func sendAny(c interface{}, v interface{}) {
	s, t := self()
	if s == nil {
		bareSend(c, v)
		return
	}
	s.sel(t, "send", false, []*selCase{{ch: s.chanOf(c), send: true, val: v}})
}

func recvAny(c interface{}) (interface{}, bool) {
	s, t := self()
	if s == nil {
		return bareRecv(c)
	}
	k := &selCase{ch: s.chanOf(c)}
	s.sel(t, "recv", false, []*selCase{k})
	return k.out, k.ok
}

// outside of an execution the native channel is used directly
func bareSend(c interface{}, v interface{}) {
	cv := reflect.ValueOf(c)
	vv := reflect.ValueOf(v)
	if v == nil {
		vv = reflect.Zero(cv.Type().Elem())
	}
	cv.Send(vv)
}

func bareRecv(c interface{}) (interface{}, bool) {
	v, ok := reflect.ValueOf(c).Recv()
	return v.Interface(), ok
}

// S returns the function that sends on c (curried for type inference).
func S[T any](c chan<- T) func(T) { return func(v T) { sendAny(c, v) } }

func conv[T any](v interface{}) T {
	if v == nil {
		var z T
		return z
	}
	return v.(T)
}

// Recv is <-c.
func Recv[T any](c <-chan T) T {
	v, _ := recvAny(c)
	return conv[T](v)
}

// Recv2 is v, ok := <-c.
func Recv2[T any](c <-chan T) (T, bool) {
	v, ok := recvAny(c)
	return conv[T](v), ok
}

// Close is close(c).
func Close[T any](c chan<- T) { closeAny(c) }

func closeAny(c interface{}) {
	s, t := self()
	if s == nil {
		reflect.ValueOf(c).Close()
		return
	}
	st := s.chanOf(c)
	if st == nil {
		panic(runtimeError("close of nil channel"))
	}
	o := &op{kind: "close", alts: yes}
	o.exec = func(int) {
		touch(t, &st.obj, 13)
		if st.closed {
			o.panicV = runtimeError("close of closed channel")
			return
		}
		st.closed = true
		st.dead = t.tok
	}
	s.do(t, o)
}

func lenAny(c interface{}) int {
	s, t := self()
	if s == nil {
		return reflect.ValueOf(c).Len()
	}
	st := s.chanOf(c)
	if st == nil {
		return 0
	}
	n := 0
	s.do(t, &op{kind: "chanlen", alts: yes, exec: func(int) { touch(t, &st.obj, 14); n = len(st.buf) }})
	return n
}

// Len is len(c).
func Len[T any](c <-chan T) int { return lenAny(c) }

// LenS is len(c) of a send-only channel.
func LenS[T any](c chan<- T) int { return lenAny(c) }

// CaseR is a receive case of a select statement.
type CaseR[T any] struct{ k *selCase }

// CaseS is a send case of a select statement.
type CaseS[T any] struct{ k *selCase }

type anyCase interface{ sc() *selCase }

func (c CaseR[T]) sc() *selCase { return c.k }
func (c CaseS[T]) sc() *selCase { return c.k }

// NewRecv makes a receive case.
func NewRecv[T any](c <-chan T) CaseR[T] {
	k := &selCase{}
	if s, _ := self(); s != nil {
		k.ch = s.chanOf(c)
	} else {
		k.val = c
	}
	return CaseR[T]{k}
}

// NewSend makes a send case (curried for type inference).
func NewSend[T any](c chan<- T) func(T) CaseS[T] {
	return func(v T) CaseS[T] {
		k := &selCase{send: true, val: v}
		if s, _ := self(); s != nil {
			k.ch = s.chanOf(c)
		} else {
			panic("vs: select with a send case outside of an execution")
		}
		return CaseS[T]{k}
	}
}

// Get is the value received.
func (c CaseR[T]) Get() T { return conv[T](c.k.out) }

// Get2 is the value received and whether the channel was open.
func (c CaseR[T]) Get2() (T, bool) { return conv[T](c.k.out), c.k.ok }

// Select performs a select statement; it returns the index of the case taken,
// or -1 for the default clause.
func Select(hasDef bool, cases ...anyCase) int {
	s, t := self()
	ks := make([]*selCase, len(cases))
	for i, c := range cases {
		ks[i] = c.sc()
	}
	if s == nil {
		return bareSelect(hasDef, ks)
	}
	return s.sel(t, "select", hasDef, ks)
}

func bareSelect(hasDef bool, ks []*selCase) int {
	var rc []reflect.SelectCase
	for _, k := range ks {
		rc = push(rc, reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(k.val)})
	}
	if hasDef {
		rc = push(rc, reflect.SelectCase{Dir: reflect.SelectDefault})
	}
	i, v, ok := reflect.Select(rc)
	if i == len(ks) {
		return -1
	}
	ks[i].out, ks[i].ok = v.Interface(), ok
	return i
}

// BlockForever is select{}.
func BlockForever() {
	s, t := self()
	if s == nil {
		select {}
	}
	s.do(t, &op{kind: "select{}", alts: func() int { return 0 }})
	panic("unreachable")
}

// ChanIter drives a range loop over a channel.
type ChanIter[T any] struct{ c <-chan T }

// NewChanIter returns the iterator and a zero element.
func NewChanIter[T any](c <-chan T) (ChanIter[T], T) {
	var z T
	return ChanIter[T]{c}, z
}

// Next stores the next element.
func (i ChanIter[T]) Next(v *T) bool {
	x, ok := Recv2(i.c)
	if !ok {
		return false
	}
	if v != nil {
		*v = x
	}
	return true
}

// MapIter drives a range loop over a map in an order the explorer owns.
type MapIter[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
}

// NewMapIter returns the iterator and zero key and element.
func NewMapIter[M ~map[K]V, K comparable, V any](m M) (*MapIter[K, V], K, V) {
	var zk K
	var zv V
	it := &MapIter[K, V]{m: m}
	if s, _ := self(); s == nil {
		for k := range m {
			it.keys = push(it.keys, k)
		}
		return it, zk, zv
	}
	type ks struct {
		k K
		s string
	}
	var all []ks
	for k := range m {
		all = push(all, ks{k, fmt.Sprint(k)})
	}
	for i := 1; i < len(all); i++ {
		for j := i; j > 0 && all[j].s < all[j-1].s; j-- {
			all[j], all[j-1] = all[j-1], all[j]
		}
	}
	if n := len(all); n > 1 {
		// Go starts a range loop anywhere: the start is an environment choice
		off := Choose(n)
		all = append(append([]ks{}, all[off:]...), all[:off]...)
	}
	for _, k := range all {
		it.keys = push(it.keys, k.k)
	}
	return it, zk, zv
}

// Next stores the next key and element.
func (it *MapIter[K, V]) Next(k *K, v *V) bool {
	for it.i < len(it.keys) {
		key := it.keys[it.i]
		it.i++
		val, ok := it.m[key]
		if !ok {
			continue
		}
		if k != nil {
			*k = key
		}
		if v != nil {
			*v = val
		}
		return true
	}
	return false
}
