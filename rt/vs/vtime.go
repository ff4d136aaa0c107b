package vs

import (
	"context"
	"errors"
	"io"
	"log"
	"math"
	"math/rand"
	"net"
	"net/http"
	"time"
)

// Base is the wall clock at the start of every execution.
var Base = time.Date(2024, 1, 2, 3, 4, 5, 0, time.UTC)

func Now() time.Time {
	s := cs
	if s == nil {
		return Base
	}
	return Base.Add(time.Duration(s.now))
}

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

func Sleep(d time.Duration) {
	s, t := self()
	if s == nil {
		time.Sleep(d)
		return
	}
	when := s.now + int64(d)
	if d > 0 {
		s.addTimer(int64(d), func() {})
	}
	s.do(t, &op{kind: "sleep", alts: func() int {
		if s.now >= when {
			return 1
		}
		return 0
	}, exec: func(int) { t.hash = mix(t.hash, uint64(s.now)) }})
}

// Timer stands in for time.Timer.
type Timer struct {
	C  <-chan time.Time
	c  chan time.Time
	tm *timer
	f  func()
}

func (s *sched) fireInto(c chan time.Time, tok *hbTok) {
	st := s.chanOf(c)
	if len(st.buf) < st.cap {
		st.buf = push(st.buf, item{Base.Add(time.Duration(s.now)), tok})
		st.h = mix(st.h, uint64(s.now))
	}
}

func NewTimer(d time.Duration) *Timer {
	s, th := self()
	t := &Timer{c: make(chan time.Time, 1)}
	t.C = t.c
	if s == nil {
		return t
	}
	tok := th.release()
	t.tm = s.addTimer(int64(d), func() { s.fireInto(t.c, tok) })
	return t
}

func AfterFunc(d time.Duration, f func()) *Timer {
	s, th := self()
	t := &Timer{f: f}
	if s == nil {
		return t
	}
	tok := th.release()
	t.tm = s.addTimer(int64(d), func() { s.startTimerFunc(th, f, tok) })
	return t
}

func (s *sched) startTimerFunc(parent *thread, f func(), tok *hbTok) {
	n := s.newThread(parent, "")
	n.from = tok
	n.name = "timer" + n.path
	s.spawn(n, f)
}

//go:noinline
func (t *Timer) Stop() bool {
	if t.tm == nil {
		return false
	}
	was := !t.tm.dead
	t.tm.dead = true
	if s, _ := self(); s != nil && t.c != nil {
		// Go 1.23 semantics: no stale value after Stop
		if st := s.chanOf(t.c); len(st.buf) > 0 && asyncTimers() {
			st.buf = nil
		}
	}
	return was
}

// modules that declare a language version before 1.23 keep buffered timers
func asyncTimers() bool { return false }

//go:noinline
func (t *Timer) Reset(d time.Duration) bool {
	s, th := self()
	was := t.Stop()
	if s == nil {
		return was
	}
	tok := th.release()
	if t.f != nil {
		f := t.f
		t.tm = s.addTimer(int64(d), func() { s.startTimerFunc(th, f, tok) })
	} else {
		t.tm = s.addTimer(int64(d), func() { s.fireInto(t.c, tok) })
	}
	return was
}

func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

// Ticker stands in for time.Ticker.
type Ticker struct {
	C  <-chan time.Time
	c  chan time.Time
	tm *timer
	d  time.Duration
	tk *hbTok
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic(errors.New("non-positive interval for NewTicker"))
	}
	t := &Ticker{c: make(chan time.Time, 1), d: d}
	t.C = t.c
	if _, th := self(); th != nil {
		t.tk = th.release()
	}
	t.arm()
	return t
}

//go:noinline
func (t *Ticker) arm() {
	s := cs
	if s == nil {
		return
	}
	t.tm = s.addTimer(int64(t.d), func() {
		s.fireInto(t.c, t.tk)
		t.arm()
	})
}

//go:noinline
func (t *Ticker) Stop() {
	if t.tm != nil {
		t.tm.dead = true
	}
}

//go:noinline
func (t *Ticker) Reset(d time.Duration) {
	t.Stop()
	t.d = d
	t.arm()
}

func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }

// ---------------------------------------------------------------- random

func Rand64() uint64 {
	s := cs
	if s == nil || s.cur == nil {
		return 0x1234567890abcdef
	}
	s.cur.rndCtr++
	return mix(mix(s.cur.ph, 0xabcdef), s.cur.rndCtr)
}

func RandUint64() uint64          { return Rand64() }
func RandInt63() int64            { return int64(Rand64() >> 1) }
func RandUint32() uint32          { return uint32(Rand64()) }
func RandInt() int                { return int(Rand64() >> 1) }
func RandInt31() int32            { return int32(Rand64() >> 33) }
func RandIntn(n int) int          { return Choose(n) }
func RandInt63n(n int64) int64    { return int64(Rand64()>>1) % n }
func RandInt31n(n int32) int32    { return int32(Rand64()>>33) % n }
func RandUint64n(n uint64) uint64 { return Rand64() % n }
func RandUint32n(n uint32) uint32 { return uint32(Rand64()>>32) % n }
func RandN[T ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr](n T) T {
	return T(Rand64()>>1) % n
}
func RandFloat64() float64 { return float64(Rand64()>>11) / math.Pow(2, 53) }
func RandFloat32() float32 { return float32(RandFloat64()) }
func RandSeed(int64)       {}
func RandPerm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	return p
}
func RandShuffle(n int, swap func(i, j int)) {}
func RandRead(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(Rand64())
	}
	return len(p), nil
}
func RandNew(src rand.Source) *rand.Rand { return rand.New(fixedSrc{}) }

type fixedSrc struct{}

func (fixedSrc) Int63() int64    { return RandInt63() }
func (fixedSrc) Uint64() uint64  { return Rand64() }
func (fixedSrc) Seed(seed int64) {}

// RandReader is a deterministic stand-in for crypto/rand.Reader.
type RandReader struct{}

func (RandReader) Read(p []byte) (int, error) { return RandRead(p) }

var RandSource io.Reader = RandReader{}

// ---------------------------------------------------------------- context

type ctx struct {
	parent   context.Context
	done     chan struct{}
	m        Mutex
	err      error
	cause    error
	deadline time.Time
	kids     []*ctx
	stop     func()
}

//go:noinline
func (c *ctx) Deadline() (time.Time, bool) {
	if !c.deadline.IsZero() {
		return c.deadline, true
	}
	return c.parent.Deadline()
}

//go:noinline
func (c *ctx) Done() <-chan struct{} { return c.done }

//go:noinline
func (c *ctx) Err() error {
	c.m.Lock()
	defer c.m.Unlock()
	return c.err
}
func (c *ctx) Value(k interface{}) interface{} { return c.parent.Value(k) }

func (c *ctx) cancel(err, cause error) {
	c.m.Lock()
	if c.err != nil {
		c.m.Unlock()
		return
	}
	c.err = err
	c.cause = cause
	kids := c.kids
	c.kids = nil
	c.m.Unlock()
	closeAny(c.done)
	for _, k := range kids {
		k.cancel(err, cause)
	}
}

func newCtx(parent context.Context) *ctx {
	c := &ctx{parent: parent, done: make(chan struct{})}
	if p, ok := parent.(*ctx); ok {
		p.m.Lock()
		if p.err != nil {
			p.m.Unlock()
			c.cancel(p.err, p.cause)
			return c
		}
		p.kids = push(p.kids, c)
		p.m.Unlock()
	} else if parent.Done() != nil {
		d := parent.Done()
		Go(func() {
			Daemon()
			i := Select(false, NewRecv(d), NewRecv((<-chan struct{})(c.done)))
			if i == 0 {
				c.cancel(parent.Err(), nil)
			}
		})
	}
	return c
}

func WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	if cs == nil {
		return context.WithCancel(parent)
	}
	c := newCtx(parent)
	return c, func() { c.cancel(context.Canceled, nil) }
}

func WithCancelCause(parent context.Context) (context.Context, context.CancelCauseFunc) {
	if cs == nil {
		return context.WithCancelCause(parent)
	}
	c := newCtx(parent)
	return c, func(e error) { c.cancel(context.Canceled, e) }
}

func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	if cs == nil {
		return context.WithTimeout(parent, d)
	}
	c := newCtx(parent)
	c.deadline = Now().Add(d)
	t := AfterFunc(d, func() { c.cancel(context.DeadlineExceeded, nil) })
	return c, func() { t.Stop(); c.cancel(context.Canceled, nil) }
}

func WithTimeoutCause(parent context.Context, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	if cs == nil {
		return context.WithTimeoutCause(parent, d, cause)
	}
	c := newCtx(parent)
	c.deadline = Now().Add(d)
	t := AfterFunc(d, func() { c.cancel(context.DeadlineExceeded, cause) })
	return c, func() { t.Stop(); c.cancel(context.Canceled, nil) }
}

func WithDeadlineCause(parent context.Context, at time.Time, cause error) (context.Context, context.CancelFunc) {
	return WithTimeoutCause(parent, at.Sub(Now()), cause)
}

// CtxCause stands in for context.Cause.
func CtxCause(c context.Context) error {
	if p, ok := c.(*ctx); ok {
		p.m.Lock()
		defer p.m.Unlock()
		if p.cause != nil {
			return p.cause
		}
		return p.err
	}
	return context.Cause(c)
}

// CtxAfterFunc stands in for context.AfterFunc.
func CtxAfterFunc(c context.Context, f func()) (stop func() bool) {
	if cs == nil {
		return context.AfterFunc(c, f)
	}
	var m Mutex
	begun, stopped := false, make(chan struct{})
	off := false
	Go(func() {
		Daemon()
		if Select(false, NewRecv(c.Done()), NewRecv((<-chan struct{})(stopped))) == 1 {
			return
		}
		m.Lock()
		if off {
			m.Unlock()
			return
		}
		begun = true
		m.Unlock()
		f()
	})
	return func() bool {
		m.Lock()
		was := off || begun
		off = true
		m.Unlock()
		if !was {
			closeAny(stopped)
		}
		return !was
	}
}

func WithDeadline(parent context.Context, at time.Time) (context.Context, context.CancelFunc) {
	return WithTimeout(parent, at.Sub(Now()))
}

// ---------------------------------------------------------------- network

// ListenHook is asked about every listener of the code under test.
var ListenHook func(addr string) error

type addr string

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return string(a) }

// Listener stands in for the listener of a server; nobody connects to it, requests
// come from the harness.
type Listener struct {
	addr   addr
	m      Mutex
	closed chan struct{}
	is     bool
}

func Listen(network, a string) (net.Listener, error) {
	if cs == nil {
		return net.Listen(network, a)
	}
	if ListenHook != nil {
		if err := ListenHook(a); err != nil {
			return nil, err
		}
	}
	return &Listener{addr: addr(a), closed: make(chan struct{})}, nil
}

func (l *Listener) Accept() (net.Conn, error) {
	recvAny(l.closed)
	return nil, net.ErrClosed
}

func (l *Listener) Close() error {
	l.m.Lock()
	was := l.is
	l.is = true
	l.m.Unlock()
	if was {
		return net.ErrClosed
	}
	closeAny(l.closed)
	return nil
}

func (l *Listener) Addr() net.Addr { return l.addr }

func ListenAndServe(addr string, h http.Handler) error {
	return (&Server{Addr: addr, Handler: h}).ListenAndServe()
}

func Serve(l net.Listener, h http.Handler) error { return (&Server{Handler: h}).Serve(l) }

// DialHook answers every dial of the code under test.
var DialHook func(network, addr string) (net.Conn, error)

func Dial(network, addr string) (net.Conn, error) {
	if DialHook == nil {
		return nil, errors.New("vs: no network")
	}
	return DialHook(network, addr)
}

func DialTimeout(network, addr string, _ time.Duration) (net.Conn, error) {
	return Dial(network, addr)
}

// Dialer stands in for net.Dialer.
type Dialer struct {
	Timeout   time.Duration
	Deadline  time.Time
	KeepAlive time.Duration
	LocalAddr net.Addr
}

func (d *Dialer) Dial(network, addr string) (net.Conn, error) { return Dial(network, addr) }
func (d *Dialer) DialContext(_ context.Context, network, addr string) (net.Conn, error) {
	return Dial(network, addr)
}

// Server stands in for http.Server: requests are handed to Handler by the
// harness.
type Server struct {
	Addr              string
	Handler           http.Handler
	ReadTimeout       time.Duration
	ReadHeaderTimeout time.Duration
	WriteTimeout      time.Duration
	IdleTimeout       time.Duration
	MaxHeaderBytes    int
	ErrorLog          *log.Logger
	BaseContext       func(net.Listener) context.Context
	ConnContext       func(context.Context, net.Conn) context.Context
	ConnState         func(net.Conn, http.ConnState)
	m                 Mutex
	closed            chan struct{}
	isClosed          bool
	active            int
	onShut            []func()
}

// ServerHook is told about every server that starts to listen; the error it
// returns, if any, is the error of listening.
var ServerHook func(*Server) error

func (v *Server) init() {
	v.m.Lock()
	if v.closed == nil {
		v.closed = make(chan struct{})
	}
	v.m.Unlock()
}

func (v *Server) ListenAndServe() error {
	v.init()
	v.m.Lock()
	c := v.isClosed
	v.m.Unlock()
	if c {
		return http.ErrServerClosed
	}
	if ServerHook != nil {
		if err := ServerHook(v); err != nil {
			return err
		}
	}
	recvAny(v.closed)
	return http.ErrServerClosed
}

// Serve serves on a listener of the code under test.
func (v *Server) Serve(l net.Listener) error {
	defer l.Close()
	return v.ListenAndServe()
}

// Serve1 runs one request; it reports false if the server does not accept.
func (v *Server) Serve1(w http.ResponseWriter, r *http.Request) (ok bool) {
	v.init()
	v.m.Lock()
	if v.isClosed {
		v.m.Unlock()
		return false
	}
	v.active++
	v.m.Unlock()
	defer func() {
		v.m.Lock()
		v.active--
		v.m.Unlock()
	}()
	if v.BaseContext != nil {
		r = r.WithContext(v.BaseContext(nil))
	}
	v.Handler.ServeHTTP(w, r)
	return true
}

func (v *Server) SetKeepAlivesEnabled(bool) {}

func (v *Server) Close() error {
	v.init()
	v.m.Lock()
	was := v.isClosed
	v.isClosed = true
	v.m.Unlock()
	if !was {
		closeAny(v.closed)
	}
	return nil
}

func (v *Server) Shutdown(c context.Context) error {
	v.Close()
	v.m.Lock()
	fs := v.onShut
	v.onShut = nil
	v.m.Unlock()
	for _, f := range fs {
		Go(f)
	}
	for {
		v.m.Lock()
		n := v.active
		v.m.Unlock()
		if n == 0 {
			return nil
		}
		if err := c.Err(); err != nil {
			return err
		}
		Sleep(100 * time.Millisecond)
	}
}

func (v *Server) RegisterOnShutdown(f func()) {
	v.m.Lock()
	v.onShut = append(v.onShut, f)
	v.m.Unlock()
}
