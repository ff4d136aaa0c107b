package main

import (
	"errors"
	"fmt"
	"sync"
	"time"

	"github.com/vulpemventures/go-elements/block"
	"github.com/vulpemventures/neutrino-elements/pkg/repository"
	"github.com/vulpemventures/neutrino-elements/vsharness/lib"

	"verif/vs"
)

// stop stops the node and checks that everything ends.
func (w *world) stop() {
	ok := make(chan error, 1)
	go func() {
		vs.Daemon()
		ok <- w.svc.Stop()
	}()
	select {
	case err := <-ok:
		if err != nil {
			vs.Fail("C10", "Stop failed: %v", err)
		}
	case <-time.After(5 * time.Second):
		vs.Fail("C10", "Stop does not return; live: %v", vs.Live())
	}
	vs.Quiesce()
	vs.Sleep(2 * time.Second)
	vs.Quiesce()
	if l := vs.Live(); len(l) > 0 {
		vs.Fail("C10", "still running after Stop: %v", l)
	}
	writes, puts := len(w.hr.Written()), w.fr.Count()
	for _, k := range w.conns {
		k.Mark()
		if !k.Closed() && len(k.Msgs()) > 0 {
			vs.Fail("C10", "the connection to %s is still open after Stop", k.Name)
		}
		k.Deliver(lib.PingMsg("ping", 5), lib.HeadersMsg(w.c.Blocks[1].Header), lib.CFilterMsg(0, w.c.Hashes[1], w.c.Filters[1]))
	}
	vs.Quiesce()
	vs.Sleep(10 * time.Minute)
	vs.Quiesce()
	if l := vs.Live(); len(l) > 0 {
		vs.Fail("C10", "running again after Stop: %v", l)
	}
	for _, k := range w.conns {
		if late := k.LateMsgs(); len(late) > 0 {
			vs.Fail("C10", "a stopped node sent %s", late[0].Cmd)
		}
	}
	if len(w.hr.Written()) != writes || w.fr.Count() != puts {
		vs.Fail("C10", "a stopped node writes to its stores")
	}
	// again, harmlessly
	if err := w.svc.Stop(); err != nil {
		vs.Fail("C10", "the second Stop failed: %v", err)
	}
	if !w.started() {
		vs.Fail("C10", "Start does not return after Stop")
	}
}

func stopSync(maxPoints int) func() {
	return func() {
		c := chain(6)
		w := newWorld(c, 0)
		k := w.conn(0)
		h := lib.NewHonest(c, 4, k)
		h.Batch = 2
		w.startWith(0)
		// when
		for i := vs.ChooseFree(maxPoints); i > 0; i-- {
			vs.Point()
		}
		w.stop()
		vs.Observe("%d", w.hr.Tip())
	}
}

// stop while different messages are being handled
func stopBusy() {
	c := chain(6)
	w := newWorld(c, 0)
	k := w.conn(0)
	passive(k, 5)
	w.startWith(0)
	vs.Quiesce()
	msgs := [][]byte{
		lib.HeadersMsg(c.Blocks[1].Header, c.Blocks[2].Header, c.Blocks[3].Header),
		lib.BlockMsg(c.Blocks[1]),
		lib.TxMsg(txA),
		lib.CFilterMsg(0, c.Hashes[1], c.Filters[1]),
		lib.PingMsg("pong", 9),
		lib.InvMsg(lib.Inv{Type: 1, Hash: invHash(1)}),
		lib.PingMsg("ping", 9),
		lib.GetCFiltersMsg(0, 0, c.Hashes[0]),
	}
	a, b := vs.ChooseFree(len(msgs)), vs.ChooseFree(len(msgs))
	k.Deliver(msgs[a], msgs[b], msgs[a][:20])
	for i := vs.ChooseFree(3); i > 0; i-- {
		vs.Point()
	}
	w.stop()
}

// stop around pings and disconnections
func stopProbing() {
	w := newWorld(chain(2), 1)
	p := w.prober(0, []string{"prompt", "silent", "hangup", "write-fails", "59s"}[vs.ChooseFree(5)])
	q := w.prober(1, []string{"prompt", "silent"}[vs.ChooseFree(2)])
	_, _ = p, q
	w.startWith(0)
	if err := w.add(1); err != nil {
		vs.Fail("C10", "AddOutboundPeer: %v", err)
	}
	vs.Quiesce()
	vs.Sleep([]time.Duration{120 * time.Second, 150 * time.Second, 180 * time.Second}[vs.ChooseFree(3)])
	w.stop()
}

// stop before the handshake, without peers, before Start
func stopEarly() {
	w := newWorld(chain(3), -1)
	switch vs.ChooseFree(4) {
	case 0: // the peer never answers
		w.conn(0)
		w.startWith(0)
		settle(time.Second)
	case 1: // the dial fails
		w.startWith(0)
		settle(time.Second)
		if err := <-w.start; err == nil {
			vs.Fail("C10", "Start reports success without a connection")
		}
	case 2: // the version cannot be sent
		k := w.conn(0)
		k.OnWrite = func([]byte) error { return lib.ErrWrite }
		w.startWith(0)
		settle(time.Second)
		if err := <-w.start; err == nil {
			vs.Fail("C10", "Start reports success although the version could not be sent")
		}
	case 3: // half a version
		k := w.conn(0)
		k.Deliver(lib.VersionMsg(65, 3)[:40])
		w.startWith(0)
		settle(time.Second)
	}
	w.stop()
}

// transactions on their way to subscribers of the memory pool
func stopSubscribers() {
	w := newWorld(chain(3), 1)
	p := pool(w.svc)
	if p == nil {
		return
	}
	k := w.conn(0)
	passive(k, 1)
	ch := p.AddSubscriber("a")
	_ = p.AddSubscriber("nobody reads")
	closed := make(chan int, 1)
	go func() {
		n := 0
		for range ch {
			n++
		}
		closed <- n
	}()
	w.startWith(0)
	vs.Quiesce()
	k.Deliver(lib.TxMsg(txA), lib.TxMsg(txB))
	for i := vs.ChooseFree(3); i > 0; i-- {
		vs.Point()
	}
	w.stop()
	select {
	case <-closed:
	default:
		vs.Fail("C10", "the events channel of a subscriber is not closed by Stop")
	}
}

// stop while the stores fail, for good or for some time
func stopFailingStores() {
	c := chain(6)
	w := newWorld(c, 0)
	heal := vs.ChooseFree(2) == 1
	which := vs.ChooseFree(3)
	var mu sync.Mutex
	calls := 0
	fail := func() error {
		mu.Lock()
		defer mu.Unlock()
		if calls++; heal && calls > 2 {
			return nil
		}
		return errStore
	}
	k := w.conn(0)
	passive(k, 5)
	w.startWith(0)
	vs.Quiesce()
	if which != 1 {
		w.fr.OnCall = func(op string, _ repository.FilterKey) error {
			if op == "PutFilter" {
				return fail()
			}
			return nil
		}
	}
	if which != 0 {
		w.hr.OnWrite = func([]block.Header) error { return fail() }
	}
	k.Deliver(lib.CFilterMsg(0, c.Hashes[1], c.Filters[1]), lib.HeadersMsg(c.Blocks[1].Header, c.Blocks[2].Header), lib.CFilterMsg(0, c.Hashes[2], c.Filters[2]), lib.BlockMsg(c.Blocks[3]))
	for i := vs.ChooseFree(4); i > 0; i-- {
		vs.Point()
	}
	if vs.ChooseFree(2) == 1 {
		vs.Sleep(time.Second)
	}
	w.stop()
}

func stopping() []*vs.Scenario {
	return []*vs.Scenario{
		{Name: "stop-failing-stores", Props: list("C10"), Run: stopFailingStores, Desc: "Stop while the stores fail, for good or for a while; schedules"},
		{Name: "stop-sync", Props: list("C10", "C27"), Race: true, Weight: 2, Run: stopSync(8), Desc: "Stop at any point of an initial sync; schedules"},
		{Name: "stop-busy", Props: list("C10"), Weight: 2, MaxCost: 2, Run: stopBusy, Desc: "Stop while any two of eight kinds of messages are handled; schedules"},
		{Name: "stop-probing", Props: list("C10"), Horizon: 3 * time.Hour, Run: stopProbing, Desc: "Stop at the moment of pings, timeouts and disconnections of two peers; schedules"},
		{Name: "stop-early", Props: list("C10"), Run: stopEarly, Desc: "Stop before the handshake and after failed starts"},
		{Name: "stop-subscribers", Props: list("C10", "C11"), Run: stopSubscribers, Desc: "Stop while events are on their way; schedules"},
	}
}

var errStore = errors.New("the store fails")

var _ = fmt.Sprint
