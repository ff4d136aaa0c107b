package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/vulpemventures/go-elements/block"
	"github.com/vulpemventures/go-elements/transaction"
	"github.com/vulpemventures/neutrino-elements/pkg/node"
	"github.com/vulpemventures/neutrino-elements/vsharness/lib"

	"verif/vs"
)

// Scenarios of realistic size: what holds for a few items holds for as many as
// the protocol allows.

var veryLong *lib.Chain

func big() *lib.Chain {
	if veryLong == nil {
		veryLong = lib.NewChain(4700, nil, nil, 1)
	}
	return veryLong
}

// syncBig: thousands of headers, in batches as large as the protocol allows.
func syncBig() {
	tip := []int{-1, 499, 1999, 2000}[vs.ChooseFree(4)]
	batch := []int{2000, 1000, 333}[vs.ChooseFree(3)]
	c := big()
	w := newWorld(c, tip)
	k := w.conn(0)
	h := lib.NewHonest(c, 4500, k)
	h.Batch = batch
	w.startWith(0)
	settle(10 * time.Second)
	if !w.started() {
		vs.Fail("C06", "Start has not returned although the node is at %d of 4500", w.hr.Tip())
	}
	for i := 0; i < 150; i++ {
		h.Mine()
	}
	n := h.Mine()
	k.Deliver(lib.InvMsg(lib.Inv{Type: 2, Hash: c.Hashes[n]}))
	settle(10 * time.Second)
	w.clean("C06")
	for i := 1; i <= n; i++ {
		if x, ok := w.hr.Has(uint32(i)); !ok || x != c.Hashes[i] {
			vs.Fail("C06", "the header of height %d of %d is missing at the end (started at %d, batches of %d)", i, n, tip, batch)
		}
		if string(w.fr.Get(c.FilterKey(i))) != string(c.Filters[i]) {
			vs.Fail("C06", "the filter of height %d of %d is missing at the end (started at %d, batches of %d)", i, n, tip, batch)
		}
	}
}

// gapBig: one large batch with a gap, or a repetition, somewhere in it.
func gapBig() {
	c := big()
	w := newWorld(c, 100)
	g := newGuard(w, 100)
	k := w.conn(0)
	passive(k, 100)
	w.startWith(0)
	vs.Quiesce()
	at := []int{1, 2, 99, 100, 255, 256, 500, 999, 1000, 1500, 1998, 1999}[vs.ChooseFree(12)]
	n := []int{at + 1, 2000}[vs.ChooseFree(2)]
	d := []int{1, -1, 5}[vs.ChooseFree(3)]
	var hs []*block.Header
	for i := 0; i < n; i++ {
		x := 101 + i
		if i >= at {
			x += d
		}
		hs = append(hs, c.Blocks[x].Header)
	}
	g.offer(hs...)
	if d > 0 {
		g.refuse("a batch with a gap", hs...)
	}
	k.Deliver(lib.HeadersMsg(hs...))
	settle(time.Second)
	g.check()
	// the same without the gap
	hs = nil
	for i := 0; i < 2000; i++ {
		hs = append(hs, c.Blocks[101+i].Header)
	}
	g = newGuard(w, w.hr.Tip())
	g.offer(hs...)
	before := w.hr.Tip()
	k.Deliver(lib.HeadersMsg(hs...))
	settle(time.Second)
	if w.hr.Tip() < before {
		vs.Fail("C05", "the tip went from %d to %d", before, w.hr.Tip())
	}
	for i := 101; i <= w.hr.Tip(); i++ {
		if x, ok := w.hr.Has(uint32(i)); !ok || x != c.Hashes[i] {
			vs.Fail("C05", "the tip is %d but the header of height %d is missing", w.hr.Tip(), i)
		}
	}
	vs.Observe("%d %d", before, w.hr.Tip())
}

// invBig: as many announcements as the protocol allows.
func invBig() {
	n := []int{1000, 2500, 20000, 49999, 50000}[vs.ChooseFree(5)]
	w := newWorld(chain(2), 1)
	k := w.conn(0)
	passive(k, 1)
	w.startWith(0)
	vs.Quiesce()
	var inv []lib.Inv
	for i := 0; i < n; i++ {
		var h [32]byte
		h[0], h[1], h[2], h[31] = byte(i), byte(i>>8), byte(i>>16), 9
		inv = append(inv, lib.Inv{Type: []uint32{1, 2, 0x40000002}[i%3], Hash: h})
	}
	k.Deliver(lib.InvMsg(inv...), lib.PingMsg("ping", 5))
	settle(time.Second)
	w.clean("C07")
	var got []lib.Inv
	for _, p := range k.Of("getdata") {
		l, ok := lib.ParseInv(p)
		if !ok {
			vs.Fail("C07", "malformed getdata")
		}
		got = append(got, l...)
	}
	if len(got) != n {
		vs.Fail("C07", "of %d announced items %d are asked for", n, len(got))
	}
	for i := range inv {
		if got[i] != inv[i] {
			vs.Fail("C07", "of %d announced items item %d is not asked for", n, i)
		}
	}
	if len(k.Of("pong")) != 1 {
		vs.Fail("C07", "a ping after an inventory of %d items is not answered", n)
	}
}

// frameMany: thousands of messages on one connection.
func frameMany() {
	const n = 3000
	split := []int{0, 7, 4096}[vs.ChooseFree(3)]
	w := newWorld(chain(2), 1)
	k := w.conn(0)
	passive(k, 1)
	w.startWith(0)
	vs.Quiesce()
	k.SetFrag(func(have int) int {
		if split == 0 || have < split {
			return have
		}
		return split
	})
	var all [][]byte
	var want []string
	for i := 0; i < n; i++ {
		switch i % 5 {
		case 0, 3:
			all = append(all, lib.PingMsg("ping", nonce(i)))
			want = append(want, fmt.Sprintf("pong %x", nonce(i)))
		case 1:
			h := invHash(0)
			h[1], h[2] = byte(i), byte(i>>8)
			all = append(all, lib.InvMsg(lib.Inv{Type: 1, Hash: h}))
			want = append(want, fmt.Sprintf("getdata [1 %s]", short(h)))
		case 2:
			all = append(all, lib.Frame("addr", make([]byte, i%300)))
		case 4:
			all = append(all, lib.Frame("inv", []byte{200, 1, 2}))
		}
	}
	k.Deliver(all...)
	settle(time.Second)
	w.clean("C04")
	got := replies(k)
	for i, x := range want {
		if i >= len(got) || got[i] != x {
			vs.Fail("C04", "of %d messages the answer %d is %v instead of %s", n, i, append(got, "missing")[i], x)
		}
	}
	if len(got) != len(want) || k.Closed() {
		vs.Fail("C04", "%d answers to %d messages, closed: %v", len(got), n, k.Closed())
	}
}

// probeLong: a peer that answers stays for a day, and is dropped when it stops answering.
func probeLong() {
	w := newWorld(chain(2), 1)
	p := w.prober(0, goodModes[vs.ChooseFree(len(goodModes))])
	w.startWith(0)
	const day = 24 * time.Hour
	settle(day + time.Second)
	if p.k.Closed() {
		vs.Fail("C09", "a peer (%s) that answers every ping in time was disconnected within a day, after %d pings", p.mode, len(p.k.Of("ping")))
	}
	if n := len(p.k.Of("ping")); n < int(day/(120*time.Second))-2 {
		vs.Fail("C09", "a peer (%s) got only %d pings in a day", p.mode, n)
	}
	alive(p.k, "a peer of a day")
	p.mu.Lock()
	p.mode = "silent"
	p.mu.Unlock()
	settle(9 * time.Minute)
	if !p.k.Closed() {
		vs.Fail("C09", "a peer that stopped answering after a day was not disconnected")
	}
	w.clean("C09")
}

// manyPeers: dozens of peers, some dead, one transaction.
func manyPeers() {
	const n = 130
	w := newWorld(chain(2), 1)
	var ps []*prober
	for i := 0; i < n; i++ {
		m := "prompt"
		if i%7 == 3 {
			m = []string{"silent", "hangup", "late"}[i%3]
		}
		ps = append(ps, w.prober(i, m))
	}
	w.startWith(0)
	for i := 1; i < n; i++ {
		if err := w.add(i); err != nil {
			vs.Fail("C09,C25", "AddOutboundPeer of peer %d: %v", i, err)
		}
	}
	settle(9*time.Minute + time.Second)
	refuse := vs.ChooseFree(2) == 1
	for i, p := range ps {
		if good(p.mode) == p.k.Closed() {
			vs.Fail("C09", "peer %d of %d (%s) disconnected: %v", i, n, p.mode, p.k.Closed())
		}
		if refuse && i%5 == 2 {
			p.k.SetOnWrite(func(b []byte) error {
				if string(b[4:7]) == "tx\x00" {
					return lib.ErrWrite
				}
				return nil
			})
		}
	}
	if err := w.svc.SendTransaction(fmt.Sprintf("%x", lib.TxBytes(txB))); err != nil && !refuse {
		vs.Fail("C25", "SendTransaction to %d peers: %v", n, err)
	}
	settle(time.Second)
	for i, p := range ps {
		want := 1
		if !good(p.mode) || refuse && i%5 == 2 {
			want = 0
		}
		if got := len(p.k.Of("tx")); got != want {
			vs.Fail("C25", "peer %d of %d (%s) got the transaction %d times", i, n, p.mode, got)
		}
	}
	if refuse {
		for _, p := range ps {
			p.k.SetOnWrite(nil)
		}
	}
	for i, p := range ps {
		if good(p.mode) {
			alive(p.k, fmt.Sprintf("peer %d of %d", i, n))
		}
	}
	w.clean("C25")
	w.stop()
}

// sendBig: transactions of unusual size.
func sendBig() {
	n := []int{70000, 390000, 1 << 20, 3900000}[vs.ChooseFree(4)]
	w := newWorld(chain(2), 1)
	k, k2 := w.conn(0), w.conn(1)
	passive(k, 1)
	passive(k2, 1)
	w.startWith(0)
	if err := w.add(1); err != nil {
		vs.Fail("C25", "AddOutboundPeer: %v", err)
	}
	settle(time.Second)
	tx := lib.Tx(2, lib.Script(2), make([]byte, n))
	raw := fmt.Sprintf("%x", lib.TxBytes(tx))
	if err := w.svc.SendTransaction(raw); err != nil {
		vs.Fail("C25", "SendTransaction of %d bytes: %v", n, err)
	}
	w.clean("C25")
	for i, c := range []*lib.Conn{k, k2} {
		got := c.Of("tx")
		if len(got) != 1 || fmt.Sprintf("%x", got[0]) != raw {
			vs.Fail("C25", "peer %d got %d tx messages of a transaction of %d bytes, or another one", i, len(got), n)
		}
	}
}

// poolMany: a well filled pool, subscribers of different speed, a full block.
func poolMany() {
	n := 2200
	p := node.NewMemPool()
	p.Start()
	ls := []*listener{listen(&p, "a", 0), listen(&p, "c", 0)}
	if vs.ChooseFree(2) == 1 {
		n = 300
		ls = append(ls, listen(&p, "b", time.Second))
		_ = p.AddSubscriber("absent")
	}
	var in []*transaction.Transaction
	want, ref := map[string]int{}, map[string]bool{}
	for i := 0; i < n; i++ {
		t := lib.Tx(1000+i, lib.Script(i))
		p.AddTx(msg(t))
		if i%50 == 0 {
			vs.Quiesce()
		}
		want["new "+id(t)] = 1
		if i%5 < 3 {
			in = append(in, t)
			want["confirmed "+id(t)] = 1
		} else {
			ref[id(t)] = true
		}
		if i%100 == 99 {
			in = append(in, lib.Tx(20000+i, lib.Script(i)))
		}
	}
	settle(time.Second)
	if m := p.GetMemPool(); len(m) != n {
		vs.Fail("C11", "after %d transactions the pool holds %d", n, len(m))
	}
	p.CheckTxConfirmed(blk(in...))
	settle(time.Second)
	if contents(&p) != ids(ref) {
		vs.Fail("C11", "of %d transactions %d were confirmed, the pool holds %d", n, len(in)-n/100, len(p.GetMemPool()))
	}
	settle(2 * time.Hour)
	for _, l := range ls {
		l.mu.Lock()
		for k, x := range want {
			if l.got[k] != x {
				vs.Fail("C11", "subscriber %s got %d times %q, of %d transactions", l.name, l.got[k], k, n)
			}
		}
		if len(l.got) != len(want) {
			vs.Fail("C11", "subscriber %s got %d kinds of events instead of %d", l.name, len(l.got), len(want))
		}
		l.mu.Unlock()
	}
}

// poolDays: a transaction may stay unconfirmed for long, whatever happens meanwhile.
func poolDays() {
	wait := []time.Duration{time.Hour, 25 * time.Hour, 8 * 24 * time.Hour, 15 * 24 * time.Hour, 45 * 24 * time.Hour}[vs.ChooseFree(5)]
	p := node.NewMemPool()
	p.Start()
	l := listen(&p, "a", 0)
	want, ref := map[string]int{}, map[string]bool{}
	add := func(t *transaction.Transaction) {
		p.AddTx(msg(t))
		if !ref[id(t)] {
			want["new "+id(t)]++
		}
		ref[id(t)] = true
	}
	block := func(ts ...*transaction.Transaction) {
		p.CheckTxConfirmed(blk(ts...))
		for _, t := range ts {
			if ref[id(t)] {
				want["confirmed "+id(t)]++
				delete(ref, id(t))
			}
		}
	}
	check := func(when string) {
		settle(wait)
		if got := contents(&p); got != ids(ref) {
			vs.Fail("C11", "%s, with %v between two events, the pool holds [%s] instead of [%s]", when, wait, got, ids(ref))
		}
		l.mu.Lock()
		defer l.mu.Unlock()
		for k, n := range want {
			if l.got[k] != n {
				vs.Fail("C11", "%s, with %v between two events, the subscriber got %d times %q instead of %d", when, wait, l.got[k], k, n)
			}
		}
		if len(l.got) != len(want) {
			vs.Fail("C11", "%s, with %v between two events, the subscriber got %v instead of %v", when, wait, l.got, want)
		}
	}
	add(t1)
	check("after one transaction")
	add(t2)
	check("after two transactions")
	add(t1)
	check("after a repeated transaction")
	block(t3, t2)
	check("after a block")
	add(t3)
	check("after a third transaction")
	block(t1)
	check("after another block")
	block(t3, t1)
	add(t1)
	check("at the end")
}

// peerChurn: peers come and go, one after another, and are forgotten.
func peerChurn() {
	kind := vs.ChooseFree(5)
	w := newWorld(chain(2), 1)
	p := w.prober(0, "prompt")
	w.startWith(0)
	vs.Quiesce()
	const n = 50
	var sizes, live []int
	next := 1
	for r := 0; r < 3; r++ {
		for i := 0; i < n; i++ {
			var k *lib.Conn
			switch kind {
			case 0, 1: // hangs up after the handshake, or after a while
				k = w.prober(next, "prompt").k
			case 2: // never answers a ping
				k = w.prober(next, "silent").k
			case 3: // hangs up at once
				k = w.conn(next)
			case 4: // a peer without compact filters
				k = w.conn(next)
				k.Deliver(lib.VersionMsg(1, 1), lib.Frame("verack", nil))
			}
			if kind == 3 {
				k.Hangup()
			}
			if err := w.add(next); err != nil && kind != 3 {
				vs.Fail("C09", "AddOutboundPeer: %v", err)
			}
			next++
			settle(time.Second)
			switch kind {
			case 0, 4:
				k.Hangup()
			case 1:
				k.Deliver(lib.TxMsg(txA), lib.InvMsg(lib.Inv{Type: 1, Hash: invHash(3)}))
				settle(10 * time.Minute)
				k.Hangup()
			}
			settle(10 * time.Second)
			if kind == 2 && i%8 == 7 {
				settle(9 * time.Minute)
			}
			if kind != 2 && !k.Closed() {
				vs.Fail("C09", "a peer that hung up (kind %d) was not disconnected", kind)
			}
		}
		settle(9 * time.Minute)
		if r == 0 {
			for i, c := range w.conns[1:] {
				if !c.Closed() {
					vs.Fail("C09", "peer %d, which went away or does not answer (kind %d), was not disconnected", i+1, kind)
				}
			}
		}
		sizes = append(sizes, lib.Size(w.svc))
		live = append(live, len(vs.Live()))
	}
	if sizes[2]-sizes[1] >= n && sizes[1]-sizes[0] >= n {
		vs.Fail("C09", "peers that went away (kind %d) are not forgotten: after %d, %d and %d peers the node holds %d, %d and %d entries", kind, n, 2*n, 3*n, sizes[0], sizes[1], sizes[2])
	}
	if live[2] > live[1] && live[1] > live[0] {
		vs.Fail("C09", "activities stay behind of peers that went away (kind %d): %v", kind, vs.Live())
	}
	alive(p.k, "a peer next to many that came and went")
	if p.k.Closed() {
		vs.Fail("C09", "a good peer next to many that came and went was disconnected")
	}
	w.clean("C09")
	w.stop()
}

func scale() []*vs.Scenario {
	const steps = 8000000
	return []*vs.Scenario{
		{Name: "sync-big", Props: list("C06"), Run: syncBig, MaxCost: -1, MaxSteps: steps, Desc: "4500 headers, and 151 more in one go: 4 initial tips x 3 batch sizes"},
		{Name: "gap-big", Props: list("C05"), Run: gapBig, MaxCost: -1, MaxSteps: steps, Desc: "batches of up to 2000 headers with a gap or a repetition at 12 positions, and then a good one"},
		{Name: "inv-big", Props: list("C07"), Run: invBig, MaxCost: -1, MaxSteps: steps, Desc: "inventories of 1000 to 50000 items"},
		{Name: "frame-many", Props: list("C04"), Run: frameMany, MaxCost: -1, MaxSteps: steps, Desc: "3000 messages of five kinds on one connection x 3 read sizes"},
		{Name: "probe-long", Props: list("C09"), Run: probeLong, MaxCost: -1, MaxSteps: steps, Horizon: 48 * time.Hour, Desc: "a peer is probed for a day x 6 ways of answering, then stops answering"},
		{Name: "many-peers", Props: list("C09", "C25", "C10"), Run: manyPeers, MaxCost: -1, MaxSteps: steps, Horizon: 48 * time.Hour, Desc: "130 peers, eighteen dead, a transaction is sent (with and without failing peers), all others are served, stop"},
		{Name: "send-big", Props: list("C25"), Run: sendBig, MaxCost: -1, MaxSteps: steps, Desc: "transactions of up to 3.9 MB"},
		{Name: "peer-churn", Props: list("C09"), Run: peerChurn, MaxCost: -1, MaxSteps: steps, Horizon: 48 * time.Hour, Desc: "150 peers come and go in five ways: the node holds no more afterwards"},
		{Name: "pool-days", Props: list("C11"), Run: poolDays, MaxCost: -1, Horizon: 3000 * time.Hour * 24, Desc: "hours to weeks pass between transactions and blocks"},
		{Name: "pool-many", Props: list("C11"), Run: poolMany, MaxCost: -1, MaxSteps: steps, Horizon: 48 * time.Hour, Desc: "2200 transactions, 1320 confirmed in one block, prompt subscribers; 300 next to slow and absent subscribers"},
	}
}

var _ = strings.Join
