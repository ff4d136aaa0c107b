// Package vs is the controlled runtime of the model checker: it runs the
// instrumented code one goroutine at a time, owns every synchronisation
// operation, clock, timer and random source, and takes every scheduling or
// environment decision from a replayable decision vector.
package vs

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
	"unsafe"
)

// ---------------------------------------------------------------- hashing

func mix(a, b uint64) uint64 {
	x := a*0x9E3779B97F4A7C15 ^ (b + 0x7F4A7C159E3779B9 + (a << 6) + (a >> 2))
	x ^= x >> 30
	x *= 0xBF58476D1CE4E5B9
	x ^= x >> 27
	x *= 0x94D049BB133111EB
	x ^= x >> 31
	return x
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

// ---------------------------------------------------------------- threads

type thread struct {
	path   string
	ph     uint64
	name   string
	wake   chan struct{}
	hash   uint64
	kids   int
	op     *op
	done   bool
	rndCtr uint64
	spins  int
	spinE  uint64
	daemon bool
	tok    *hbTok // what happened before the pending operation
	from   *hbTok // what happened before the start, for the function of a timer
}

type hbTok struct{ b byte }

// op is what a thread is about to do.
type op struct {
	kind string
	t    *thread
	// alts returns the number of ways the operation can happen now.
	alts func() int
	// exec performs alternative i.
	exec func(i int)
	// select cases, for channel rendezvous
	cases  []*selCase
	hasDef bool
	chosen int
	low    bool // quiescence operations: enabled only when nothing else is
	spin   bool // a spinner waiting for somebody else's progress
	site   string
	panicV interface{}
	acq    []*hbTok
}

type timer struct {
	when int64
	seq  int64
	fire func()
	dead bool
}

// Decision is one recorded choice point.
type Decision struct {
	N      int    // number of alternatives
	Chosen int    // the alternative taken
	Free   bool   // alternatives other than 0 cost nothing
	Sig    uint64 // state signature at the choice point
}

// Result is the outcome of one execution.
type Result struct {
	Decisions []Decision
	States    []uint64 // signatures of all scheduler states visited
	Steps     int
	Kind      string // ok | fail | panic | deadlock | stepcap | diverged | hang
	Tag       string // property tag given to Fail
	Msg       string
	Outcome   string // digest of what was observed (coverage)
	Trace     []string
	FinalTime int64
}

type sched struct {
	threads  []*thread // live, sorted by path
	ready    []*thread
	cur      *thread // running
	last     *thread // the thread that took the last decision
	now      int64
	timers   []*timer
	tseq     int64
	yield    chan *thread
	chans    ptrTable
	decs     []Decision
	states   []uint64
	prefix   [][2]int
	expectAt int
	expect   uint64
	steps    int
	maxSteps int
	horizon  int64
	aborting bool
	res      *Result
	over     bool
	preempt  bool // free switching when the current thread is blocked
	tracing  bool
	trace    []string
	outcome  []string
	wg       sync.WaitGroup
	strong   bool
}

// S is the execution in progress (nil outside of one).
var cs *sched

var globalTok hbTok

type obj struct {
	h   uint64
	tok hbTok
	pin interface{}
}

// Options configure one execution.
type Options struct {
	Prefix   [][2]int // deviations (decision, alternative), ascending
	ExpectAt int
	Expect   uint64 // signature expected at decision ExpectAt (0: any)
	MaxSteps int
	Horizon  time.Duration
	Preempt  bool
	Trace    bool
}

type failure struct{ tag, msg string }

// Run performs one execution of main under the decision vector.
func Run(main func(), o Options) *Result {
	s := &sched{
		yield:    make(chan *thread),
		prefix:   o.Prefix,
		expectAt: o.ExpectAt,
		expect:   o.Expect,
		maxSteps: o.MaxSteps,
		horizon:  int64(o.Horizon),
		preempt:  o.Preempt,
		tracing:  o.Trace,
		res:      &Result{Kind: ""},
	}
	if s.maxSteps == 0 {
		s.maxSteps = 20000
	}
	if s.horizon == 0 {
		s.horizon = int64(time.Hour)
	}
	cs = s
	t := s.newThread(nil, "main")
	s.spawn(t, main)
	s.loop(t)
	s.abort()
	acquire(&globalTok)
	cs = nil
	s.res.Decisions = s.decs
	s.res.States = s.states
	s.res.Steps = s.steps
	s.res.Trace = s.trace
	s.res.Outcome = strings.Join(s.outcome, "|")
	s.res.FinalTime = s.now
	return s.res
}

func (s *sched) newThread(parent *thread, name string) *thread {
	p := "0"
	if parent != nil {
		p = parent.path + "." + strconv.Itoa(parent.kids) // (fmt has a pool the race detector would see)
		parent.kids++
	}
	t := &thread{path: p, ph: hashStr(p), name: name, wake: make(chan struct{}), tok: new(hbTok)}
	t.hash = t.ph
	if parent != nil {
		t.hash = mix(parent.hash, t.ph)
	}
	i := sort.Search(len(s.threads), func(i int) bool { return lessPath(t.path, s.threads[i].path) })
	s.threads = push(s.threads, nil)
	for j := len(s.threads) - 1; j > i; j-- {
		s.threads[j] = s.threads[j-1]
	}
	s.threads[i] = t
	s.ready = push(s.ready, t)
	return t
}

// push is append without the accesses that the race detector sees in the
// runtime's append (the scheduler's hand-overs are hidden from it).
func push[T any](s []T, v T) []T {
	if len(s) == cap(s) {
		n := make([]T, len(s), 2*len(s)+4)
		for i := range s {
			n[i] = s[i]
		}
		s = n
	}
	s = s[:len(s)+1]
	s[len(s)-1] = v
	return s
}

func lessPath(a, b string) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	return a < b
}

func (s *sched) spawn(t *thread, f func()) {
	s.wg.Add(1)
	go func() {
		normal := false
		defer func() {
			if !normal && !s.aborting {
				if r := recover(); r != nil {
					if fl, ok := r.(failure); ok {
						s.fail("fail", fl.tag, fl.msg)
					} else {
						s.fail("panic", "", fmt.Sprintf("unrecovered panic in goroutine %s: %v\n%s", t.name, r, trimStack(debug.Stack())))
					}
				}
			}
			t.done = true
			releaseMerge(&globalTok)
			if s.aborting {
				s.wg.Done()
				return
			}
			raceDisable()
			s.wg.Done()
			s.yield <- t
			raceEnable()
		}()
		raceDisable()
		<-t.wake
		raceEnable()
		if t.path == "0" {
			acquire(&globalTok)
		}
		if t.from != nil {
			acquire(t.from)
		}
		if s.aborting {
			runtime.Goexit()
		}
		f()
		normal = true
	}()
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	for i := 0; i < len(lines); i++ {
		l := lines[i]
		if strings.Contains(l, "verif/vs.") || strings.Contains(l, "/vs/core.go") || strings.HasPrefix(l, "runtime/debug") || strings.HasPrefix(l, "panic(") || strings.Contains(l, "runtime/panic.go") || strings.Contains(l, "debug/stack.go") {
			continue
		}
		out = push(out, l)
		if len(out) > 24 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func (s *sched) fail(kind, tag, msg string) {
	releaseMerge(&globalTok)
	if s.res.Kind == "" {
		s.res.Kind, s.res.Tag, s.res.Msg = kind, tag, msg
	}
	s.over = true
}

func (s *sched) remove(t *thread) {
	for i, x := range s.threads {
		if x == t {
			for j := i; j+1 < len(s.threads); j++ {
				s.threads[j] = s.threads[j+1]
			}
			s.threads = s.threads[:len(s.threads)-1]
			return
		}
	}
}

// HangAfter bounds the real time between two scheduling points.
var HangAfter = 30 * time.Second

// loop is the scheduler proper.
func (s *sched) loop(main *thread) {
	raceDisable()
	defer raceEnable()
	hang := time.NewTimer(HangAfter)
	defer hang.Stop()
	lastReset := time.Now()
	for {
		for len(s.ready) > 0 {
			t := s.ready[0]
			s.ready = s.ready[1:]
			s.cur = t
			t.wake <- struct{}{}
			if s.steps&255 == 0 || time.Since(lastReset) > time.Second {
				if !hang.Stop() {
					select {
					case <-hang.C:
					default:
					}
				}
				hang.Reset(HangAfter)
				lastReset = time.Now()
			}
			var y *thread
			select {
			case y = <-s.yield:
			case <-hang.C:
				s.fail("hang", "", fmt.Sprintf("goroutine %s ran %v without reaching a synchronisation point", t.name, HangAfter))
				fmt.Fprintln(os.Stderr, "vs: hang", t.name)
				return
			}
			if y.done {
				s.remove(y)
			}
			if s.over {
				return
			}
			if main.done {
				if s.res.Kind == "" {
					s.res.Kind = "ok"
				}
				return
			}
		}
		if s.last == nil {
			s.last = main
		}
		if !s.step() {
			return
		}
	}
}

type trans struct {
	t   *thread
	alt int
}

// step takes one decision and performs it; false ends the execution.
func (s *sched) step() bool {
	for {
		if s.steps >= s.maxSteps {
			s.fail("stepcap", "", "step cap reached\n"+s.dump())
			return false
		}
		var tr []trans
		curN := 0
		add := func(t *thread) {
			if t.op == nil || t.op.low {
				return
			}
			n := t.op.alts()
			for i := 0; i < n; i++ {
				tr = push(tr, trans{t, i})
			}
		}
		ci := -1
		for i, t := range s.threads {
			if t == s.last {
				ci = i
			}
		}
		if ci >= 0 {
			add(s.last)
			curN = len(tr)
		}
		start := ci + 1
		if ci < 0 {
			start = 0
			for i, t := range s.threads {
				if lessPath(s.last.path, t.path) {
					start = i
					break
				}
			}
		}
		for k := 0; k < len(s.threads); k++ {
			t := s.threads[(start+k)%len(s.threads)]
			if t != s.last {
				add(t)
			}
		}
		if len(tr) == 0 {
			// quiescence operations come next
			var low *thread
			for _, t := range s.threads {
				if t.op != nil && t.op.low && t.op.alts() > 0 {
					low = t
					break
				}
			}
			if low != nil {
				tr = push(tr, trans{low, 0})
			} else if s.advance() {
				continue
			} else {
				s.fail("deadlock", "", fmt.Sprintf("nothing can run at virtual time %v\n%s", time.Duration(s.now), s.dump()))
				return false
			}
		}
		sig := s.sig()
		s.states = push(s.states, sig)
		ix := 0
		if len(tr) > 1 {
			ix = s.decide(len(tr), s.preempt && curN == 0, sig)
			if ix < 0 {
				return false
			}
		}
		c := tr[ix]
		s.steps++
		if s.tracing {
			alt := ""
			if len(tr) > 1 {
				alt = fmt.Sprintf(" [%d/%d]", ix, len(tr))
			}
			s.trace = push(s.trace, fmt.Sprintf("t=%v %s: %s%s %s", time.Duration(s.now), c.t.name, c.t.op.kind, alt, c.t.op.site))
		}
		o := c.t.op
		s.last = c.t
		o.exec(c.alt)
		s.resume(c.t)
		return true
	}
}

func (s *sched) resume(t *thread) {
	t.op.count(-1)
	t.op = nil
	s.ready = push(s.ready, t)
}

func (s *sched) decide(n int, free bool, sig uint64) int {
	pos := len(s.decs)
	ix := 0
	if len(s.prefix) > 0 && s.prefix[0][0] == pos {
		ix = s.prefix[0][1]
		s.prefix = s.prefix[1:]
	}
	if s.expect != 0 && s.expectAt == pos && s.expect != sig {
		s.fail("diverged", "", fmt.Sprintf("state signature differs at decision %d", pos))
		return -1
	}
	if ix >= n {
		s.fail("diverged", "", fmt.Sprintf("decision %d: alternative %d of %d", pos, ix, n))
		return -1
	}
	s.decs = push(s.decs, Decision{N: n, Chosen: ix, Free: free, Sig: sig})
	return ix
}

func (s *sched) sig() uint64 {
	var h uint64
	for _, t := range s.threads {
		k := uint64(0)
		if t.op != nil {
			k = hashStr(t.op.kind)
		}
		h += mix(mix(t.ph, t.hash), k)
	}
	h = mix(h, uint64(s.now))
	if s.last != nil {
		h = mix(h, s.last.ph)
	}
	return h
}

func (s *sched) advance() bool {
	var best *timer
	live := s.timers[:0]
	for _, t := range s.timers {
		if t.dead {
			continue
		}
		live = push(live, t)
		if best == nil || t.when < best.when || (t.when == best.when && t.seq < best.seq) {
			best = t
		}
	}
	s.timers = live
	if best == nil || best.when > s.horizon {
		return false
	}
	if best.when > s.now {
		s.now = best.when
	}
	var due []*timer
	for _, t := range s.timers {
		if t.when <= s.now {
			due = push(due, t)
		}
	}
	for i := range due {
		for j := i; j > 0 && (due[j].when < due[j-1].when || due[j].when == due[j-1].when && due[j].seq < due[j-1].seq); j-- {
			due[j], due[j-1] = due[j-1], due[j]
		}
	}
	for _, t := range due {
		t.dead = true
		t.fire()
	}
	if s.tracing {
		s.trace = push(s.trace, fmt.Sprintf("t=%v -- time advances", time.Duration(s.now)))
	}
	return true
}

func (s *sched) addTimer(d int64, fire func()) *timer {
	if d < 0 {
		d = 0
	}
	s.tseq++
	t := &timer{when: s.now + d, seq: s.tseq, fire: fire}
	s.timers = push(s.timers, t)
	return t
}

func (s *sched) dump() string {
	var b strings.Builder
	for _, t := range s.threads {
		if t.op != nil {
			fmt.Fprintf(&b, "  %s blocked in %s %s\n", t.name, t.op.kind, t.op.site)
		}
	}
	return b.String()
}

// abort ends all remaining threads, one at a time.
func (s *sched) abort() {
	raceDisable()
	defer raceEnable()
	if s.res.Kind == "hang" {
		return
	}
	s.aborting = true
	for len(s.threads) > 0 {
		t := s.threads[0]
		if t.done {
			s.threads = s.threads[1:]
			continue
		}
		select {
		case t.wake <- struct{}{}:
		case <-time.After(5 * time.Second):
		}
		s.threads = s.threads[1:]
		// wait for it to end
		end := time.Now().Add(5 * time.Second)
		for n := 0; !t.done && time.Now().Before(end); n++ {
			runtime.Gosched()
			if n > 1000 {
				time.Sleep(50 * time.Microsecond)
			}
		}
	}
}

// ---------------------------------------------------------------- operations

// self returns the running thread, or nil outside of an execution.
func self() (*sched, *thread) {
	s := cs
	if s == nil {
		return nil, nil
	}
	if s.aborting {
		runtime.Goexit()
	}
	return s, s.cur
}

// do parks the calling thread at o until the scheduler performs it.
func (s *sched) do(t *thread, o *op) {
	o.t = t
	if s.tracing && o.site == "" {
		o.site = callSite()
	}
	t.op = o
	o.count(1)
	t.release()
	raceDisable()
	s.yield <- t
	<-t.wake
	raceEnable()
	if s.aborting {
		runtime.Goexit()
	}
	for _, k := range o.acq {
		acquire(k)
	}
	if o.panicV != nil {
		panic(o.panicV)
	}
}

// release makes what the running thread did so far happen before whoever
// acquires its token.
func (t *thread) release() *hbTok {
	if RaceBuild {
		t.tok = new(hbTok)
		releaseMerge(t.tok)
	}
	return t.tok
}

func callSite() string {
	pcs := make([]uintptr, 24)
	n := runtime.Callers(3, pcs)
	fr := runtime.CallersFrames(pcs[:n])
	for {
		f, more := fr.Next()
		if !strings.Contains(f.Function, "verif/vs.") {
			file := f.File
			if i := strings.LastIndex(file, "/pkg/"); i >= 0 {
				file = file[i+1:]
			} else if i := strings.LastIndex(file, "/internal/"); i >= 0 {
				file = file[i+1:]
			} else if i := strings.LastIndex(file, "/"); i >= 0 {
				file = file[i+1:]
			}
			return fmt.Sprintf("%s:%d", file, f.Line)
		}
		if !more {
			return "?"
		}
	}
}

func yes() int { return 1 }

// touch makes the operation of t on o part of both histories.
func touch(t *thread, o *obj, k uint64) {
	t.hash = mix(mix(t.hash, k), o.h)
	o.h = mix(o.h, t.hash)
}

// point is a plain scheduling point on object o.
func (s *sched) point(t *thread, kind string, o *obj) {
	kh := hashStr(kind)
	s.do(t, &op{kind: kind, alts: yes, exec: func(int) { touch(t, o, kh) }, acq: []*hbTok{&o.tok}})
}

// Go starts f as a new thread.
func Go(f func()) {
	s, t := self()
	if s == nil {
		go f()
		return
	}
	n := s.newThread(t, "")
	n.name = "g" + n.path
	if s.tracing {
		n.name += "(" + callSite() + ")"
	}
	s.spawn(n, f)
}

// ---------------------------------------------------------------- harness API

// Fail reports a violation of the property tag and ends the execution.
func Fail(tag, format string, a ...interface{}) {
	s, _ := self()
	if s == nil {
		panic(fmt.Sprintf(tag+": "+format, a...))
	}
	s.fail("fail", tag, fmt.Sprintf(format, a...))
	t := s.cur
	s.do(t, &op{kind: "failed", alts: func() int { return 0 }})
}

// Observe adds to the digest of what this execution showed.
func Observe(format string, a ...interface{}) {
	s, _ := self()
	if s != nil {
		s.outcome = push(s.outcome, fmt.Sprintf(format, a...))
		releaseMerge(&globalTok)
	}
}

// Tracef adds a line to the trace.
func Tracef(format string, a ...interface{}) {
	if s := cs; s != nil && s.tracing {
		s.trace = push(s.trace, fmt.Sprintf("      # "+format, a...))
	}
}

// Choose is an environment decision with n alternatives (0 is the default).
func Choose(n int) int { return choose(n, false) }

// ChooseFree is a decision all alternatives of which are explored at no cost.
func ChooseFree(n int) int { return choose(n, true) }

func choose(n int, free bool) int {
	s, t := self()
	if s == nil || n <= 1 {
		return 0
	}
	sig := mix(s.sig(), 77)
	ix := s.decide(n, free, sig)
	if ix < 0 {
		s.do(t, &op{kind: "diverged", alts: func() int { return 0 }})
	}
	t.hash = mix(t.hash, uint64(ix)+1000)
	if s.tracing {
		s.trace = push(s.trace, fmt.Sprintf("t=%v %s: choose %d/%d %s", time.Duration(s.now), t.name, ix, n, callSite()))
	}
	return ix
}

// Quiesce waits until no other thread can run without time passing.
func Quiesce() {
	s, t := self()
	s.do(t, &op{kind: "quiesce", low: true, alts: yes, exec: func(int) { t.hash = mix(t.hash, 91) }})
}

// Point is an explicit scheduling point.
func Point() {
	s, t := self()
	if s == nil {
		return
	}
	s.do(t, &op{kind: "point", alts: yes, exec: func(int) { t.hash = mix(t.hash, 92) }})
}

// Spin is called by environment stubs that the code under test polls: after
// budget consecutive calls without progress of any other thread the caller is
// parked until another thread makes progress or time passes.
func Spin(budget int) {
	s, t := self()
	if s == nil {
		return
	}
	e := s.epochOthers(t)
	if e != t.spinE {
		t.spinE = e
		t.spins = 0
	}
	t.spins++
	if t.spins <= budget {
		return
	}
	s.do(t, &op{kind: "spin", spin: true,
		alts: func() int {
			if s.epochOthers(t) != e {
				return 1
			}
			return 0
		},
		exec: func(int) { t.spins = 0; t.hash = mix(t.hash, 93) }})
}

func (s *sched) epochOthers(t *thread) uint64 {
	var h uint64
	for _, x := range s.threads {
		if x != t {
			h += mix(x.ph, x.hash)
		}
	}
	return mix(h, uint64(s.now))
}

// Now is the virtual time since the start of the execution.
func Elapsed() time.Duration {
	if s := cs; s != nil {
		return time.Duration(s.now)
	}
	return 0
}

// Daemon marks the calling thread as not interesting for leak checks.
func Daemon() {
	if s, t := self(); s != nil {
		t.daemon = true
	}
}

// Live lists the threads other than the caller that still exist and are not
// daemons, with where they are blocked.
func Live() []string {
	s, t := self()
	var out []string
	for _, x := range s.threads {
		if x != t && !x.daemon && !x.done {
			k := "running"
			if x.op != nil {
				k = x.op.kind + " " + x.op.site
			}
			out = push(out, x.name+" in "+k)
		}
	}
	return out
}

// Active reports whether an execution is in progress.
func Active() bool { return cs != nil }

// ptrTable is a hash table the race detector does not look into (the
// runtime's own maps report their accesses to it).
type ptrTable struct {
	keys []unsafe.Pointer
	vals []*chanState
	n    int
}

func (p *ptrTable) get(k unsafe.Pointer) *chanState {
	if p.n == 0 {
		return nil
	}
	m := len(p.keys) - 1
	for i := int(uintptr(k)>>4*0x9E3779B1) & m; ; i = (i + 1) & m {
		if p.keys[i] == k {
			return p.vals[i]
		}
		if p.keys[i] == nil {
			return nil
		}
	}
}

func (p *ptrTable) put(k unsafe.Pointer, v *chanState) {
	if 2*p.n >= len(p.keys) {
		old := *p
		n := 2 * len(p.keys)
		if n == 0 {
			n = 64
		}
		*p = ptrTable{keys: make([]unsafe.Pointer, n), vals: make([]*chanState, n)}
		for i, x := range old.keys {
			if x != nil {
				p.put(x, old.vals[i])
			}
		}
	}
	m := len(p.keys) - 1
	i := int(uintptr(k)>>4*0x9E3779B1) & m
	for p.keys[i] != nil {
		i = (i + 1) & m
	}
	p.keys[i], p.vals[i] = k, v
	p.n++
}
