package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/google/uuid"
	"github.com/vulpemventures/go-elements/transaction"
	"github.com/vulpemventures/neutrino-elements/pkg/blockservice"
	"github.com/vulpemventures/neutrino-elements/pkg/repository"
	"github.com/vulpemventures/neutrino-elements/pkg/scanner"
	"github.com/vulpemventures/neutrino-elements/vsharness/lib"

	"verif/vs"
)

var errFault = errors.New("injected fault")

// item is a watch item of the harness: either an output script or an outpoint
type item struct {
	script []byte
	txid   string
	vout   uint32
}

func (i *item) Bytes() []byte { return i.script }
func (i *item) Match(tx *transaction.Transaction) bool {
	if i.txid != "" {
		for _, in := range tx.Inputs {
			if fmt.Sprintf("%x", in.Hash) == i.txid && in.Index == i.vout {
				return true
			}
		}
		return false
	}
	for _, o := range tx.Outputs {
		if string(o.Script) == string(i.script) {
			return true
		}
	}
	return false
}
func (i *item) EventType() scanner.EventType {
	if i.txid != "" {
		return scanner.SpentUtxo
	}
	return scanner.UnspentUtxo
}

type request struct {
	name    string
	id      uuid.UUID
	start   uint32
	it      scanner.WatchItem
	persist bool
}

func id(n int) (u uuid.UUID) {
	u[0], u[14], u[15] = 0xaa, byte(n>>8), byte(n)
	return
}

func num(u uuid.UUID) int { return int(u[14])<<8 | int(u[15]) }

func pay(name string, n int, start uint32, script int, persist bool) *request {
	return &request{name, id(n), start, &item{script: lib.Script(script)}, persist}
}

func spentOf(name string, n int, start uint32, tx *transaction.Transaction, vout uint32, persist bool) *request {
	h := tx.TxHash()
	return &request{name, id(n), start, &item{script: tx.Outputs[vout].Script, txid: fmt.Sprintf("%x", h[:]), vout: vout}, persist}
}

// expected reports of r on the first tip+1 blocks of c
func expected(c *lib.Chain, tip int, r *request) []string {
	var out []string
	for h := int(r.start); h <= tip; h++ {
		hit := false
		for _, tx := range c.Blocks[h].TransactionsData.Transactions {
			if r.it.Match(tx) {
				hit = true
				out = append(out, fmt.Sprintf("%x@%d:%s", num(r.id), h, tx.TxHash().String()[:8]))
			}
		}
		if hit && !r.persist {
			break
		}
	}
	return out
}

type world struct {
	c       *lib.Chain
	hr      *lib.HeaderRepo
	fr      *lib.FilterRepo
	bs      *lib.BlockSource
	svc     scanner.Service
	mu      sync.Mutex
	got     []string
	bad     string
	closed  bool
	reqs    map[int][]*request
	stopped chan struct{}
}

func newWorld(c *lib.Chain, tip int) *world {
	w := &world{c: c, reqs: map[int][]*request{}}
	w.hr = lib.NewHeaderRepo(c, tip)
	w.hr.SpinTip = 2 * (len(c.Blocks) + 2)
	w.fr = lib.NewFilterRepo(c, tip)
	w.bs = lib.NewBlockSource(c)
	w.bs.NotFound = blockservice.ErrorBlockNotFound
	w.svc = scanner.New(w.fr, w.hr, w.bs, &c.Hashes[0])
	return w
}

func (w *world) watch(r *request) {
	w.mu.Lock()
	w.reqs[num(r.id)] = append(w.reqs[num(r.id)], r)
	w.mu.Unlock()
	o := []scanner.ScanRequestOption{scanner.WithRequestID(r.id), scanner.WithStartBlock(r.start), scanner.WithWatchItem(r.it)}
	if r.persist {
		o = append(o, scanner.WithPersistentWatch())
	}
	w.svc.Watch(o...)
}

// collect reads the reports until the channel is closed.
func (w *world) collect(ch <-chan scanner.Report) {
	vs.Daemon()
	for r := range ch {
		w.mu.Lock()
		switch {
		case r.Transaction == nil || r.BlockHash == nil || r.Request == nil:
			w.bad = "report with missing parts"
		default:
			h := w.c.HeightOf(*r.BlockHash)
			if h != int(r.BlockHeight) {
				w.bad = fmt.Sprintf("report says height %d, its block hash has height %d", r.BlockHeight, h)
			}
			qs := w.reqs[num(r.Request.ClientID)]
			if qs == nil {
				w.bad = fmt.Sprintf("report for an unknown client id %v", r.Request.ClientID)
			}
			known := false
			for _, q := range qs {
				known = known || q.it == r.Request.Item && q.persist == r.Request.IsPersistent
			}
			if qs != nil && !known {
				w.bad = "report carries the wrong request"
			}
			w.got = append(w.got, fmt.Sprintf("%x@%d:%s", num(r.Request.ClientID), r.BlockHeight, r.Transaction.TxHash().String()[:8]))
		}
		w.mu.Unlock()
	}
	w.mu.Lock()
	w.closed = true
	w.mu.Unlock()
}

// settle lets everything that can happen without outside events happen.
func (w *world) settle() {
	for i := 0; i < 2; i++ {
		vs.Quiesce()
	}
}

func count(l []string) map[string]int {
	m := map[string]int{}
	for _, s := range l {
		m[s]++
	}
	return m
}

// verify compares the reports with what the chain up to tip demands.
func (w *world) verify(tag string, tip int, reqs ...*request) {
	var want []string
	for _, r := range reqs {
		want = append(want, expected(w.c, tip, r)...)
	}
	e := count(want)
	state := func() (got []string, g map[string]int, missing bool) {
		w.mu.Lock()
		defer w.mu.Unlock()
		if w.bad != "" {
			vs.Fail(tag, "malformed report: %s", w.bad)
		}
		got = append(got, w.got...)
		g = count(got)
		for k, n := range e {
			missing = missing || g[k] < n
		}
		return
	}
	got, g, missing := state()
	// a scanner may pause between its scans
	for d := 100 * time.Millisecond; missing && d < 2*time.Minute; d *= 2 {
		vs.Sleep(d)
		w.settle()
		if got, g, missing = state(); !missing {
			vs.Sleep(d)
			w.settle()
			got, g, missing = state()
		}
	}
	var diff []string
	for k, n := range e {
		if g[k] < n {
			diff = append(diff, fmt.Sprintf("missing %s (%d of %d)", k, g[k], n))
		}
	}
	for k, n := range g {
		if n > e[k] {
			diff = append(diff, fmt.Sprintf("surplus %s (%d instead of %d)", k, n, e[k]))
		}
	}
	sort.Strings(diff)
	if len(diff) > 0 {
		vs.Fail(tag, "reports differ: %s; got %v, live: %v", strings.Join(diff, ", "), got, vs.Live())
	}
	// per request, heights never go down
	last := map[string]int{}
	of := map[string]int{}
	for _, r := range reqs {
		of[fmt.Sprintf("%x", num(r.id))]++
	}
	for _, s := range got {
		i := strings.Index(s, "@")
		if of[s[:i]] > 1 {
			continue
		}
		h := 0
		fmt.Sscanf(s[i+1:], "%d:", &h)
		if h < last[s[:i]] {
			vs.Fail(tag, "reports out of order: %v", got)
		}
		last[s[:i]] = h
	}
	vs.Observe("%v", got)
}

var (
	txA2  = lib.Tx(1, lib.Script(1))
	txA4  = lib.Tx(2, lib.Script(1), lib.Script(9))
	txB3a = lib.Tx(3, lib.Script(2))
	txB3b = lib.Tx(4, lib.Script(2), lib.Script(2))
	txC5  = lib.Spend(5, txA2, 0, lib.Script(3))
	txA0  = lib.Tx(6, lib.Script(4))
	txB4  = lib.Tx(7, lib.Script(2))
)

// theChain: A in 2 and 4, B twice in 3 and once in 4, A2's output spent in 5,
// script 4 in the genesis block.
func theChain(n int) *lib.Chain {
	return lib.NewChain(n, map[int][]*transaction.Transaction{
		0: {txA0}, 2: {txA2}, 3: {txB3a, lib.Tx(20, lib.Script(50)), txB3b}, 4: {txA4, txB4}, 5: {txC5},
	}, map[int][][]byte{5: {lib.Script(1)}}, 1)
}

func (w *world) start() {
	ch, err := w.svc.Start()
	if err != nil {
		vs.Fail("C12,C14", "Start failed: %v", err)
	}
	go w.collect(ch)
}

// all requests are there and the chain does not change
func static(reqs func() []*request, split bool) func() {
	return func() {
		c := theChain(5)
		w := newWorld(c, 5)
		rs := reqs()
		w.start()
		if split {
			for _, r := range rs {
				go w.watch(r)
			}
		} else {
			for _, r := range rs {
				w.watch(r)
			}
		}
		w.settle()
		w.verify("C12,C13", 5, rs...)
	}
}

// the chain grows while the scanner works
func growth(from int, reqs func() []*request) func() {
	return func() {
		c := theChain(5)
		w := newWorld(c, from)
		rs := reqs()
		w.start()
		go func() {
			for h := from + 1; h <= 5; h++ {
				w.fr.Put(c.FilterKey(h), c.Filters[h])
				w.hr.Put(*c.Blocks[h].Header)
			}
		}()
		for _, r := range rs {
			w.watch(r)
		}
		w.settle()
		w.verify("C12,C13", 5, rs...)
	}
}

// up to n calls of the environment fail, any of them
func faults(n int, reqs func() []*request) func() {
	return func() {
		c := theChain(5)
		w := newWorld(c, 5)
		var mu sync.Mutex
		left := n
		fail := func() bool {
			mu.Lock()
			defer mu.Unlock()
			if left > 0 && vs.Choose(2) == 1 {
				left--
				return true
			}
			return false
		}
		w.hr.OnCall = func(op string, h int) error {
			if fail() {
				return errFault
			}
			return nil
		}
		w.fr.OnCall = func(op string, k repository.FilterKey) error {
			if fail() {
				return errFault
			}
			return nil
		}
		w.bs.OnCall = func(int) error {
			if fail() {
				return errFault
			}
			return nil
		}
		rs := reqs()
		w.start()
		for _, r := range rs {
			w.watch(r)
		}
		w.settle()
		// another request must not be needed to get going again, but time may
		vs.Sleep(time.Minute)
		w.settle()
		w.verify("C13", 5, rs...)
	}
}

// a watch made at any time while the scanner is idle or becoming idle
func wakeup() {
	c := theChain(5)
	w := newWorld(c, 5)
	w.start()
	a := pay("a", 1, 2, 1, false)
	b := pay("b", 2, 3, 2, false)
	done := make(chan struct{})
	go func() { w.watch(a); done <- struct{}{} }()
	go func() { w.watch(b); done <- struct{}{} }()
	<-done
	<-done
	w.settle()
	w.verify("C13", 5, a, b)
	d := pay("d", 3, 4, 1, false)
	w.watch(d)
	w.settle()
	w.verify("C13", 5, a, b, d)
}

// requests keep being served while others wait for blocks that do not exist
func starve() {
	c := theChain(5)
	w := newWorld(c, 5)
	w.start()
	p := pay("p", 1, 5, 3, true) // hit at the tip, then waits for block 6
	f := pay("f", 2, 9, 1, false)
	a := pay("a", 3, 2, 1, false)
	b := pay("b", 4, 0, 4, false)
	if vs.Choose(2) == 0 {
		w.watch(f)
		w.watch(p)
	} else {
		w.watch(p)
		w.settle()
	}
	w.watch(a)
	w.settle()
	w.watch(b)
	w.settle()
	w.verify("C12,C13", 5, p, a, b)
}

// lifecycle: Stop at any moment, then again, then Start again
func lifecycle(consumer bool) func() {
	return func() {
		c := theChain(5)
		w := newWorld(c, 5)
		ch, err := w.svc.Start()
		if err != nil {
			vs.Fail("C14", "Start failed: %v", err)
		}
		if _, err := w.svc.Start(); err == nil {
			vs.Fail("C14", "a second Start without Stop succeeded")
		}
		if consumer {
			go w.collect(ch)
		}
		go w.watch(pay("a", 1, 2, 1, false))
		w.watch(pay("b", 2, 3, 2, true))
		for i := vs.ChooseFree(3); i > 0; i-- {
			vs.Point()
		}
		ok := make(chan struct{})
		go func() {
			vs.Daemon()
			w.svc.Stop()
			close(ok)
		}()
		select {
		case <-ok:
		case <-time.After(time.Hour / 2):
			vs.Fail("C14", "Stop does not return: %v", vs.Live())
		}
		// or go on at once
		if vs.ChooseFree(2) == 0 {
			w.settle()
			if l := vs.Live(); len(l) > 0 {
				vs.Fail("C14", "still running after Stop: %v", l)
			}
		} else if consumer {
			vs.Point()
			ch, err = w.svc.Start()
			if err != nil {
				vs.Fail("C14", "Start after Stop failed: %v", err)
			}
			go w.collect(ch)
			ds := []*request{pay("d", 7, 3, 1, false), pay("e", 8, 2, 1, true)}
			for _, d := range ds {
				w.watch(d)
			}
			w.settle()
			w.mu.Lock()
			got := count(append([]string{}, w.got...))
			w.mu.Unlock()
			for _, d := range ds {
				for _, x := range expected(c, 5, d) {
					if got[x] != 1 {
						vs.Fail("C14", "after Stop and Start at once the new request got %d reports %s", got[x], x)
					}
				}
			}
			for k, m := range got {
				if m > 1 {
					vs.Fail("C14", "after Stop and Start at once %s was reported %d times", k, m)
				}
			}
			w.svc.Stop()
			vs.Observe("at once %v", got)
			return
		}
		n := func() int { w.mu.Lock(); defer w.mu.Unlock(); return len(w.got) }
		before := n()
		if !consumer {
			go w.collect(ch)
			w.settle()
			if n() != before {
				vs.Fail("C14", "a report is delivered after Stop")
			}
		}
		w.watch(pay("x", 5, 2, 1, false))
		w.settle()
		if n() != before {
			vs.Fail("C14", "a stopped scanner reports")
		}
		ch, err = w.svc.Start()
		if err != nil {
			vs.Fail("C14", "Start after Stop failed: %v", err)
		}
		go w.collect(ch)
		d := pay("d", 7, 3, 1, false)
		w.watch(d)
		w.settle()
		got := count(func() []string { w.mu.Lock(); defer w.mu.Unlock(); return append([]string{}, w.got...) }())
		for _, e := range expected(c, 5, d) {
			if got[e] != 1 {
				vs.Fail("C14", "after Stop and Start the new request got %d reports %s", got[e], e)
			}
		}
		for k, m := range got {
			if m > 1 {
				vs.Fail("C14", "after Stop and Start %s was reported %d times", k, m)
			}
		}
		w.svc.Stop()
		w.settle()
		if l := vs.Live(); len(l) > 0 {
			vs.Fail("C14", "still running after the last Stop: %v", l)
		}
		vs.Observe("%v", got)
	}
}

// idle: Stop of a scanner that has nothing to do
func idle() {
	c := theChain(5)
	w := newWorld(c, 5)
	for round := 0; round < 2; round++ {
		w.start()
		if round == vs.Choose(2) {
			w.settle()
		}
		w.svc.Stop()
		w.settle()
		if l := vs.Live(); len(l) > 0 {
			vs.Fail("C14", "still running after Stop of an idle scanner: %v", l)
		}
	}
	w.start()
	a := pay("a", 1, 2, 1, false)
	w.watch(a)
	w.settle()
	w.verify("C14", 5, a)
}

// Stop before Start and Stop twice
func stopEarly() {
	w := newWorld(theChain(5), 5)
	w.svc.Stop()
	w.start()
	w.svc.Stop()
	w.svc.Stop()
	w.settle()
	if l := vs.Live(); len(l) > 0 {
		vs.Fail("C14", "still running after Stop: %v", l)
	}
}

func main() {
	lib.Quiet()
	oneshot := func() []*request {
		return []*request{pay("a", 1, 0, 1, false), pay("a3", 2, 3, 1, false), pay("b", 3, 1, 2, false), pay("none", 4, 1, 77, false),
			spentOf("s", 5, 2, txA2, 0, false)}
	}
	persistent := func() []*request {
		return []*request{pay("b", 1, 1, 2, true), pay("a", 2, 0, 1, true), pay("b1", 3, 3, 2, false)}
	}
	mixed := func() []*request {
		return []*request{pay("b", 1, 2, 2, true), pay("g", 2, 0, 4, false), spentOf("s", 3, 4, txA2, 0, true)}
	}
	two := func() []*request {
		return []*request{pay("b", 1, 2, 2, true), pay("a", 2, 1, 1, false)}
	}
	// one client watches the same things in several ways
	same := func() []*request {
		return []*request{pay("a1", 1, 2, 1, false), pay("a2", 1, 2, 1, true), pay("b3", 1, 3, 2, true), pay("b4", 1, 4, 2, true),
			pay("a3", 2, 2, 1, false), pay("a4", 1, 3, 1, false), spentOf("s", 1, 2, txA2, 0, false)}
	}
	P := func(p ...string) []string { return p }
	vs.Main(append([]*vs.Scenario{
		{Name: "items", Props: P("C12"), Enum: enumItems, Desc: "every transaction with up to two inputs and two outputs from alphabets of outpoints and scripts against every kind of watch item and address"},
		{Name: "real-items", Props: P("C12"), Run: realItems, Desc: "the library's watch items; sibling outputs spent in three orders; schedules"},
		{Name: "oneshot", Props: P("C12"), Run: static(oneshot, false), Desc: "five one-shot watches on a six block chain; schedules of caller, scanner and report reader"},
		{Name: "same-client", Props: P("C12"), Run: static(same, false), Desc: "one client watches the same items once and for ever, from several heights; schedules"},
		{Name: "persistent", Props: P("C12"), Run: static(persistent, false), Desc: "persistent and one-shot watches with several hits per block; schedules"},
		{Name: "concurrent", Props: P("C12", "C13", "C27"), Race: true, Run: static(mixed, true), Desc: "three callers watch concurrently; schedules"},
		{Name: "growth", Props: P("C12", "C13"), Run: growth(2, mixed), Desc: "the chain grows from height 2 to 5 while scanning; schedules"},
		{Name: "growth0", Props: P("C12"), Run: growth(0, two), Desc: "the chain grows from genesis while scanning; schedules"},
		{Name: "faults1", Props: P("C13"), Run: faults(1, mixed), Desc: "any one call to the repositories or the block source fails; all fault points and schedules"},
		{Name: "faults2", Props: P("C13"), Run: faults(2, two), Desc: "any two calls fail"},
		{Name: "wakeup", Props: P("C13"), Run: wakeup, Desc: "watches racing with an idle scanner; schedules"},
		{Name: "starve", Props: P("C12", "C13"), Run: starve, Desc: "requests ahead of the tip in front of others"},
		{Name: "lifecycle", Props: P("C14"), Run: lifecycle(true), Desc: "Stop at any point, Start again; schedules"},
		{Name: "lifecycle-noreader", Props: P("C14"), Run: lifecycle(false), Desc: "as lifecycle, but nobody reads the reports"},
		{Name: "idle", Props: P("C14"), Run: idle, Desc: "Stop and restart of an idle scanner"},
		{Name: "stop-early", Props: P("C14"), Run: stopEarly, Desc: "Stop before Start and repeated"},
	}, append(append(lateScenarios(), scaleScenarios()...), descriptorScenarios()...)...))
}
