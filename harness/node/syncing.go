package main

import (
	"errors"
	"fmt"
	"sync"
	"time"

	"github.com/vulpemventures/go-elements/block"
	"github.com/vulpemventures/neutrino-elements/pkg/repository"
	"github.com/vulpemventures/neutrino-elements/vsharness/lib"

	"verif/vs"
)

// farTip: a peer that announces far more than it serves so far.
func farTip() {
	c := chain(9)
	far := []int32{65535, 65536, 65537, 70000, 1 << 24, 1<<31 - 1}[vs.ChooseFree(6)]
	tip := []int{0, 3, 9}[vs.ChooseFree(3)]
	w := newWorld(c, tip)
	k := w.conn(0)
	h := lib.NewHonest(c, 9, k)
	h.Refuse = map[string]bool{"version": true}
	k.Deliver(lib.VersionMsg(65, far), lib.Frame("verack", nil))
	w.startWith(0)
	settle(10 * time.Second)
	if w.started() {
		vs.Fail("C06", "Start reports completion although the peer announced a tip of %d and the node is at %d", far, w.hr.Tip())
	}
	for i := 1; i <= 9; i++ {
		if x, ok := w.hr.Has(uint32(i)); !ok || x != c.Hashes[i] {
			vs.Fail("C06", "from a peer that announced a tip of %d the header of height %d was not fetched (started at %d)", far, i, tip)
		}
	}
}

// syncTo: an honest peer with a chain of height top, the node starts at tip.
func syncTo(tips, tops, batches []int, mine int, announceBy []string) func() {
	return func() {
		tip := tips[vs.ChooseFree(len(tips))]
		top := tops[vs.ChooseFree(len(tops))]
		batch := batches[vs.ChooseFree(len(batches))]
		how := announceBy[vs.ChooseFree(len(announceBy))]
		c := chain(9)
		w := newWorld(c, tip)
		k := w.conn(0)
		h := lib.NewHonest(c, top, k)
		h.Batch = batch
		var reached []string
		go func() {
			err := w.svc.Start(addrOf(0))
			if err != nil {
				vs.Fail("C06", "Start failed: %v", err)
			}
			// what the peer announced in its version message
			for i := 1; i <= top; i++ {
				if x, ok := w.hr.Has(uint32(i)); !ok || x != c.Hashes[i] {
					vs.Fail("C06", "Start reports completion while the header of height %d of %d is missing (started at %d)", i, top, tip)
				}
			}
			w.mu.Lock()
			w.done = true
			reached = append(reached, "started")
			w.mu.Unlock()
		}()
		if mine > 0 {
			for i := vs.ChooseFree(4); i > 0; i-- {
				vs.Point()
			}
		}
		for i := 0; i < mine; i++ {
			if i > 0 && how != "inv-late" {
				vs.Quiesce()
			}
			n := h.Mine()
			b := c.Blocks[n]
			switch how {
			case "inv", "inv-late":
				k.Deliver(lib.InvMsg(lib.Inv{Type: 2, Hash: c.Hashes[n]}))
			case "headers":
				k.Deliver(lib.HeadersMsg(b.Header))
			case "block":
				k.Deliver(lib.BlockMsg(b))
			}
		}
		settle(10 * time.Second)
		w.clean("C06")
		if !w.started() {
			vs.Fail("C06", "Start has not returned although the node is at %d of %d; live: %v", w.hr.Tip(), top, vs.Live())
		}
		end := h.Tip()
		for i := 1; i <= end; i++ {
			if x, ok := w.hr.Has(uint32(i)); !ok || x != c.Hashes[i] {
				vs.Fail("C06", "the header of height %d of %d is missing at the end (started at %d, announced by %s)", i, end, tip, how)
			}
			if got := w.fr.Get(c.FilterKey(i)); string(got) != string(c.Filters[i]) {
				vs.Fail("C06", "the filter of the block at height %d is missing or wrong (started at %d, tip %d, announced by %s)", i, tip, end, how)
			}
		}
		if tip > end {
			end = tip
		}
		if t, err := w.svc.GetChainTip(); end > 0 && (err != nil || int(t.Height) != end) {
			vs.Fail("C06", "GetChainTip says %v, %v instead of %d", t, err, end)
		}
		vs.Observe("%d %d %d", tip, top, len(k.Of("getheaders")))
	}
}

// the peer does not complete its handshake for a while: no premature report
func slowHandshake() {
	c := chain(6)
	w := newWorld(c, 2)
	k := w.conn(0)
	h := lib.NewHonest(c, 5, k)
	h.Refuse = map[string]bool{"version": true}
	w.startWith(0)
	settle(5 * time.Second)
	if w.started() {
		vs.Fail("C06", "Start reports completion before the peer announced its tip")
	}
	h.Refuse = nil
	k.Deliver(lib.VersionMsg(65, 5), lib.Frame("verack", nil))
	settle(5 * time.Second)
	if !w.started() || w.hr.Tip() != 5 {
		vs.Fail("C06", "after a late handshake the node is at %d of 5, started: %v", w.hr.Tip(), w.started())
	}
}

// a second peer joins and announces; it must not disturb the sync
func secondPeer() {
	c := chain(9)
	w := newWorld(c, 0)
	k := w.conn(0)
	h := lib.NewHonest(c, 6, k)
	h.Batch = 2
	k2 := w.conn(1)
	h2 := lib.NewHonest(c, 6, k2)
	h2.Batch = 3
	w.startWith(0)
	if err := w.add(1); err != nil {
		vs.Fail("C06", "AddOutboundPeer: %v", err)
	}
	settle(5 * time.Second)
	h2.Mine()
	h.Mine()
	k2.Deliver(lib.InvMsg(lib.Inv{Type: 2, Hash: c.Hashes[7]}))
	k.Deliver(lib.InvMsg(lib.Inv{Type: 2, Hash: c.Hashes[7]}))
	settle(5 * time.Second)
	w.clean("C06")
	if !w.started() {
		vs.Fail("C06", "Start has not returned at height %d; live: %v", w.hr.Tip(), vs.Live())
	}
	for i := 1; i <= 7; i++ {
		if x, ok := w.hr.Has(uint32(i)); !ok || x != c.Hashes[i] {
			vs.Fail("C06", "with two peers the header of height %d of 7 is missing", i)
		}
		if string(w.fr.Get(c.FilterKey(i))) != string(c.Filters[i]) {
			vs.Fail("C06", "with two peers the filter of height %d of 7 is missing", i)
		}
	}
}

// killed: the node is killed before its k-th store access that changes
// something, and started again on what is stored, while the chain grew.
func killed(tops, batches []int, grow int) func() {
	return func() {
		top := tops[vs.ChooseFree(len(tops))]
		batch := batches[vs.ChooseFree(len(batches))]
		k := vs.ChooseFree(2*top + 1)
		c := chain(9)
		w := newWorld(c, -1)
		dead := errors.New("the process is gone")
		var mu sync.Mutex
		n, isDead, gone := 0, false, make(chan struct{})
		step := func() error {
			mu.Lock()
			isDead = isDead || n >= k
			n++
			d := isDead
			mu.Unlock()
			if d {
				<-gone
				return dead
			}
			return nil
		}
		w.hr.OnWrite = func([]block.Header) error { return step() }
		w.fr.OnCall = func(op string, _ repository.FilterKey) error {
			if op == "PutFilter" {
				return step()
			}
			return nil
		}
		conn := w.conn(0)
		h := lib.NewHonest(c, top, conn)
		h.Batch = batch
		w.startWith(0)
		for i := 0; i < 10; i++ {
			settle(2 * time.Second)
			mu.Lock()
			d := isDead
			mu.Unlock()
			if d || w.started() {
				break
			}
		}
		w.svc.Stop()
		close(gone)
		settle(5 * time.Second)
		before := w.hr.Tip()
		has := map[int]bool{}
		for i := 0; i <= before; i++ {
			has[i] = w.fr.Get(c.FilterKey(i)) != nil
		}
		w.hr.OnWrite, w.fr.OnCall = nil, nil

		w2 := newWorldOn(c, w.hr, w.fr)
		conn2 := w2.conn(0)
		h2 := lib.NewHonest(c, top+grow, conn2)
		h2.Batch = batch
		w2.startWith(0)
		settle(20 * time.Second)
		w2.clean("C06")
		if !w2.started() {
			vs.Fail("C06", "killed after %d store accesses and started again, Start has not returned; the node is at %d of %d", k, w2.hr.Tip(), top+grow)
		}
		flight := 0
		for i := 1; i <= top+grow; i++ {
			if x, ok := w2.hr.Has(uint32(i)); !ok || x != c.Hashes[i] {
				vs.Fail("C06", "killed after %d store accesses (at height %d) and started again: the header of height %d of %d is missing at the end", k, before, i, top+grow)
			}
			if got := w2.fr.Get(c.FilterKey(i)); string(got) != string(c.Filters[i]) {
				if got == nil && i <= before && !has[i] {
					flight++
					continue
				}
				vs.Fail("C06", "killed after %d store accesses (at height %d) and started again: the filter of height %d of %d is missing or wrong at the end", k, before, i, top+grow)
			}
		}
		vs.Observe("%d %d %d", top, before, flight)
		if flight > 0 {
			vs.Fail("C06", "a filter in flight when the node was killed is never fetched")
		}
	}
}

// storeFaults: d calls in a row to the header store fail from the k-th on; the
// node catches up at the latest when the next block is announced.
func storeFaults(tips, tops, batches []int, runs []int, calls int, how []string) func() {
	return func() {
		tip := tips[vs.ChooseFree(len(tips))]
		top := tops[vs.ChooseFree(len(tops))]
		batch := batches[vs.ChooseFree(len(batches))]
		by := how[vs.ChooseFree(len(how))]
		d := runs[vs.ChooseFree(len(runs))]
		k := vs.ChooseFree(calls)
		c := chain(9)
		w := newWorld(c, tip)
		var mu sync.Mutex
		n, failed := 0, ""
		w.hr.OnCall = func(op string, _ int) error {
			mu.Lock()
			defer mu.Unlock()
			n++
			if n > k && n <= k+d {
				failed += " " + op
				return errors.New("injected")
			}
			return nil
		}
		conn := w.conn(0)
		h := lib.NewHonest(c, top, conn)
		h.Batch = batch
		w.startWith(0)
		settle(20 * time.Second)
		mu.Lock()
		k = -1 - d // from now on the store works
		mu.Unlock()
		m := h.Mine()
		switch by {
		case "inv":
			conn.Deliver(lib.InvMsg(lib.Inv{Type: 2, Hash: c.Hashes[m]}))
		case "headers":
			conn.Deliver(lib.HeadersMsg(c.Blocks[m].Header))
		}
		settle(20 * time.Second)
		w.clean("C06")
		mu.Lock()
		what := fmt.Sprintf("the store calls%s failed (tip %d, peer at %d, announced by %s)", failed, tip, m, by)
		if n < k {
			what = "no store call failed"
		}
		mu.Unlock()
		if !w.started() {
			vs.Fail("C06", "%s: Start has not returned; the node is at %d; live: %v", what, w.hr.Tip(), vs.Live())
		}
		for i := 1; i <= m; i++ {
			if x, ok := w.hr.Has(uint32(i)); !ok || x != c.Hashes[i] {
				vs.Fail("C06", "%s: the header of height %d is missing at the end", what, i)
			}
			if got := w.fr.Get(c.FilterKey(i)); string(got) != string(c.Filters[i]) {
				vs.Fail("C06", "%s: the filter of height %d is missing or wrong at the end", what, i)
			}
		}
		vs.Observe("%d %d %s", tip, top, failed)
	}
}

func syncing() []*vs.Scenario {
	return []*vs.Scenario{
		{Name: "sync", Props: list("C06", "C27"), Race: true, MaxCost: 3, Run: syncTo([]int{-1, 0, 3}, []int{5, 6, 1}, []int{2, 3, 2000}, 0, list("")), Desc: "initial sync: 3 initial tips x 3 peer tips x 3 batch sizes (2, 3, 2000); schedules"},
		{Name: "sync-start-above", Props: list("C06"), Run: syncTo([]int{5, 4}, []int{5}, []int{2}, 0, list("")), Desc: "the node is already (nearly) at the peer's tip"},
		{Name: "sync-mining", Props: list("C06", "C27"), Race: true, Weight: 2, Run: syncTo([]int{0, -1}, []int{4}, []int{2}, 2, list("inv", "headers", "block", "inv-late")), Desc: "two blocks are mined and announced (by inv, headers or block) at any point of the sync; schedules"},
		{Name: "far-tip", Props: list("C06"), MaxCost: 0, Run: farTip, Desc: "the peer announces a tip of 70000 to 2^31-1 but has few headers yet: no completion is reported"},
		{Name: "slow-handshake", Props: list("C06"), Run: slowHandshake, Desc: "the handshake completes late"},
		{Name: "killed", Props: list("C06"), Run: killed([]int{4, 5}, []int{2, 3, 2000}, 1), Desc: "the node is killed before any of its store accesses and started again, a block was mined meanwhile; schedules"},
		{Name: "store-faults", Props: list("C06"), Run: storeFaults([]int{-1, 0, 3}, []int{5}, []int{2, 2000}, []int{1, 3}, 34, list("inv", "headers")), Desc: "one or three calls in a row to the header store fail during the sync, wherever; the node has caught up once the next block is announced; schedules"},
		{Name: "two-peers", Props: list("C06"), Run: secondPeer, Desc: "two honest peers, both announcing a new block; schedules"},
	}
}

var _ = fmt.Sprint
