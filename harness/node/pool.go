package main

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/vulpemventures/go-elements/block"
	"github.com/vulpemventures/go-elements/transaction"
	"github.com/vulpemventures/neutrino-elements/pkg/node"
	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
	"github.com/vulpemventures/neutrino-elements/vsharness/lib"

	"verif/vs"
)

// listener collects the events of one subscriber.
type listener struct {
	mu     sync.Mutex
	name   string
	got    map[string]int
	closed bool
	slow   time.Duration
}

func listen(p *node.MemPool, name string, slow time.Duration) *listener {
	l := &listener{name: name, got: map[string]int{}, slow: slow}
	ch := p.AddSubscriber(name)
	go func() {
		vs.Daemon()
		for e := range ch {
			s := "new " + e.TxID()
			if e.Type() == node.TxConfirmed {
				s = "confirmed " + e.TxID()
			}
			l.mu.Lock()
			l.got[s]++
			l.mu.Unlock()
			if l.slow > 0 {
				vs.Sleep(l.slow)
			}
		}
		l.mu.Lock()
		l.closed = true
		l.mu.Unlock()
	}()
	return l
}

func (l *listener) events() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	var o []string
	for k, n := range l.got {
		i := strings.Index(k, " ")
		o = append(o, fmt.Sprintf("%dx %s", n, k[:i+9]))
	}
	sort.Strings(o)
	return strings.Join(o, ", ")
}

func id(t *transaction.Transaction) string { return t.TxHash().String() }

func contents(p *node.MemPool) string {
	var o []string
	for k, t := range p.GetMemPool() {
		x := t
		if id(&x) != k {
			vs.Fail("C11", "the pool maps %s to another transaction", k)
		}
		o = append(o, k[:8])
	}
	sort.Strings(o)
	return strings.Join(o, " ")
}

func ids(m map[string]bool) string {
	var o []string
	for k := range m {
		o = append(o, k[:8])
	}
	sort.Strings(o)
	return strings.Join(o, " ")
}

func blk(txs ...*transaction.Transaction) block.Block {
	return block.Block{Header: lib.Header(1, nil, 1), TransactionsData: &block.Transactions{Transactions: txs}}
}

func msg(t *transaction.Transaction) protocol.MsgTx { return protocol.MsgTx{Transaction: *t} }

var (
	t1 = lib.Tx(201, lib.Script(1))
	t2 = lib.WithWitness(lib.Tx(202, lib.Script(2)), 1)
	// the same transaction with another witness
	t2b = lib.WithWitness(t2, 2)
	t3 = lib.Tx(203, lib.Script(3))
	tx = []*transaction.Transaction{t1, t2, t3}
)

// ops: all sequences of operations, settled, against the reference
func poolOps(n int) func() {
	return func() {
		p := node.NewMemPool()
		p.Start()
		ref := map[string]bool{}
		type want struct {
			l *listener
			m map[string]int
		}
		subs := []*want{{listen(&p, "s0", 0), map[string]int{}}}
		_ = p.AddSubscriber("absent")
		var names []string
		tell := func(s string) {
			for _, w := range subs {
				w.m[s]++
			}
		}
		for i := 0; i < n; i++ {
			op := vs.ChooseFree(9)
			switch {
			case op < 3:
				names = append(names, fmt.Sprintf("add %d", op))
				p.AddTx(msg(tx[op]))
				if !ref[id(tx[op])] {
					ref[id(tx[op])] = true
					tell("new " + id(tx[op]))
				}
			case op < 7:
				var in []*transaction.Transaction
				switch op {
				case 3:
					in = []*transaction.Transaction{t1}
				case 4:
					in = []*transaction.Transaction{t2b, t1}
				case 5:
					in = []*transaction.Transaction{lib.Tx(300), t3, lib.Tx(301)}
				case 6:
					in = nil
				}
				names = append(names, fmt.Sprintf("block %d", op))
				p.CheckTxConfirmed(blk(in...))
				for _, t := range in {
					if ref[id(t)] {
						delete(ref, id(t))
						tell("confirmed " + id(t))
					}
				}
			case op == 7:
				// the names need not differ
				names = append(names, "subscribe")
				subs = append(subs, &want{listen(&p, fmt.Sprint("s", len(subs)/2), 0), map[string]int{}})
			case op == 8:
				names = append(names, "add 1 with another witness")
				p.AddTx(msg(t2b))
				if !ref[id(t2)] {
					ref[id(t2)] = true
					tell("new " + id(t2))
				}
			}
			vs.Quiesce()
			if got := contents(&p); got != ids(ref) {
				vs.Fail("C11", "after %v the pool holds [%s] instead of [%s]", names, got, ids(ref))
			}
		}
		settle(time.Second)
		for _, w := range subs {
			x := &listener{got: w.m}
			if g, e := w.l.events(), x.events(); g != e {
				vs.Fail("C11", "after %v subscriber %s got [%s] instead of [%s]", names, w.l.name, g, e)
			}
		}
		vs.Observe("%v", names)
	}
}

// concurrent sources, repeated transactions, a confirming block
func poolConcurrent() {
	p := node.NewMemPool()
	p.Start()
	a, b := listen(&p, "a", 0), listen(&p, "b", time.Minute)
	_ = p.AddSubscriber("absent")
	done := make(chan bool, 3)
	go func() { p.AddTx(msg(t1)); p.AddTx(msg(t2)); done <- true }()
	go func() { p.AddTx(msg(t2)); p.AddTx(msg(t1)); done <- true }()
	go func() { p.AddTx(msg(t3)); p.CheckTxConfirmed(blk(t3)); done <- true }()
	for i := 0; i < 3; i++ {
		<-done
	}
	vs.Quiesce()
	if got, want := contents(&p), ids(map[string]bool{id(t1): true, id(t2): true}); got != want {
		vs.Fail("C11", "the pool holds [%s] instead of [%s]", got, want)
	}
	p.CheckTxConfirmed(blk(t1, lib.Tx(300)))
	vs.Quiesce()
	if got, want := contents(&p), ids(map[string]bool{id(t2): true}); got != want {
		vs.Fail("C11", "the pool holds [%s] instead of [%s] after a block", got, want)
	}
	want := (&listener{got: map[string]int{"new " + id(t1): 1, "new " + id(t2): 1, "new " + id(t3): 1, "confirmed " + id(t3): 1, "confirmed " + id(t1): 1}}).events()
	if g := a.events(); g != want {
		vs.Fail("C11", "next to slow and absent subscribers a prompt one got [%s] instead of [%s]", g, want)
	}
	settle(20 * time.Minute)
	if g := b.events(); g != want {
		vs.Fail("C11", "the slow subscriber got [%s] instead of [%s]", g, want)
	}
}

// adding, confirming and reading race freely: no event is doubled or invented
func poolRace() {
	p := node.NewMemPool()
	p.Start()
	a := listen(&p, "a", 0)
	done := make(chan bool, 4)
	go func() { p.AddTx(msg(t1)); done <- true }()
	go func() { p.CheckTxConfirmed(blk(t1, t2)); done <- true }()
	go func() { p.AddTx(msg(t1)); p.AddTx(msg(t2)); done <- true }()
	go func() { _ = contents(&p); done <- true }()
	for i := 0; i < 4; i++ {
		<-done
	}
	settle(time.Second)
	in := p.GetMemPool()
	a.mu.Lock()
	defer a.mu.Unlock()
	for _, t := range []*transaction.Transaction{t1, t2} {
		n, c := a.got["new "+id(t)], a.got["confirmed "+id(t)]
		_, held := in[id(t)]
		h := 0
		if held {
			h = 1
		}
		if n != c+h || c > 1 || n < 1 || n > 2 {
			vs.Fail("C11", "%d new and %d confirmed events of a transaction, held: %v", n, c, held)
		}
	}
	vs.Observe("%v", a.got)
}

// stop the pool at any moment
func poolStop() {
	p := node.NewMemPool()
	p.Start()
	a := listen(&p, "a", 0)
	_ = p.AddSubscriber("absent")
	done := make(chan bool, 3)
	go func() { p.AddTx(msg(t1)); p.AddTx(msg(t2)); done <- true }()
	go func() { p.CheckTxConfirmed(blk(t1)); done <- true }()
	go func() { p.Stop(); done <- true }()
	for i := 0; i < 3; i++ {
		select {
		case <-done:
		case <-time.After(time.Minute):
			vs.Fail("C11,C10", "a call on the memory pool hangs while it is stopped: %v", vs.Live())
		}
	}
	settle(time.Second)
	if l := vs.Live(); len(l) > 0 {
		vs.Fail("C11,C10", "still running after the pool was stopped: %v", l)
	}
	a.mu.Lock()
	defer a.mu.Unlock()
	if !a.closed {
		vs.Fail("C11,C10", "the events channel of a subscriber was not closed")
	}
	for k, n := range a.got {
		if n > 1 {
			vs.Fail("C11", "event %s %d times", k, n)
		}
	}
}

// through the node: tx and block messages of peers
func poolNode() {
	w := newWorld(chain(5), 1)
	p := pool(w.svc)
	if p == nil {
		return
	}
	k := w.conn(0)
	passive(k, 1)
	l := listen(p, "s", 0)
	w.startWith(0)
	vs.Quiesce()
	k.Deliver(lib.TxMsg(txA), lib.TxMsg(txB), lib.TxMsg(txA), lib.TxMsg(txC))
	if vs.ChooseFree(2) == 0 {
		vs.Quiesce()
		if got, want := contents(p), ids(map[string]bool{id(txA): true, id(txB): true, id(txC): true}); got != want {
			vs.Fail("C11", "after tx messages the pool holds [%s] instead of [%s]", got, want)
		}
	}
	switch vs.ChooseFree(4) {
	case 0: // the next block
		k.Deliver(lib.BlockMsg(w.c.Blocks[2]))
	case 1: // its header came first
		k.Deliver(lib.HeadersMsg(w.c.Blocks[2].Header))
		if vs.ChooseFree(2) == 0 {
			vs.Quiesce()
		}
		k.Deliver(lib.BlockMsg(w.c.Blocks[2]))
	case 2: // twice
		k.Deliver(lib.BlockMsg(w.c.Blocks[2]), lib.BlockMsg(w.c.Blocks[2]))
	case 3: // after a block without known transactions
		k.Deliver(lib.BlockMsg(&block.Block{Header: lib.Header(2, w.c.Hashes[1].CloneBytes(), 77), TransactionsData: &block.Transactions{}}), lib.BlockMsg(w.c.Blocks[2]))
	}
	settle(time.Second)
	if got, want := contents(p), ids(map[string]bool{id(txB): true, id(txC): true}); got != want {
		vs.Fail("C11", "after a block message the pool holds [%s] instead of [%s]", got, want)
	}
	want := (&listener{got: map[string]int{"new " + id(txA): 1, "new " + id(txB): 1, "new " + id(txC): 1, "confirmed " + id(txA): 1}}).events()
	if g := l.events(); g != want {
		vs.Fail("C11", "the subscriber of a node got [%s] instead of [%s]", g, want)
	}
}

func pools() []*vs.Scenario {
	return []*vs.Scenario{
		{Name: "pool-ops", Props: list("C11"), MaxCost: 1, Run: poolOps(4), Desc: "all sequences of four of 8 operations (add, confirm, subscribe), settled and compared with the reference; schedules"},
		{Name: "pool-ops-5", Props: list("C11"), MaxCost: 0, Thorough: true, Run: poolOps(5), Desc: "all sequences of five operations"},
		{Name: "pool-concurrent", Props: list("C11"), Run: poolConcurrent, Desc: "three sources, repeated transactions, slow and absent subscribers; schedules"},
		{Name: "pool-race", Props: list("C11", "C27"), Race: true, Run: poolRace, Desc: "add, confirm and read race; schedules"},
		{Name: "pool-stop", Props: list("C11", "C10", "C27"), Race: true, Run: poolStop, Desc: "Stop races with add and confirm; schedules"},
		{Name: "pool-node", Props: list("C11"), Run: poolNode, Desc: "tx and block messages of a peer in several orders; schedules"},
	}
}
