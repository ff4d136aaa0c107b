package main

import (
	"fmt"
	"time"

	"github.com/vulpemventures/go-elements/transaction"
	"github.com/vulpemventures/neutrino-elements/vsharness/lib"

	"verif/vs"
)

func bigTx(kind int) *transaction.Transaction {
	switch kind {
	case 0:
		return txA
	case 1:
		return txC
	case 2: // many outputs
		var s [][]byte
		for i := 0; i < 260; i++ {
			s = append(s, lib.Script(i))
		}
		return lib.Tx(50, s...)
	case 3: // with witness
		t := lib.Tx(51, lib.Script(1))
		t.Flag = 1
		t.Inputs[0].Witness = [][]byte{{1, 2, 3}, {}, make([]byte, 72)}
		return t
	}
	panic("kind")
}

func send() {
	n := 1 + vs.ChooseFree(3)
	tx := bigTx(vs.ChooseFree(4))
	w := newWorld(chain(2), 1)
	var ks []*lib.Conn
	for i := 0; i < n; i++ {
		k := w.conn(i)
		passive(k, 1)
		ks = append(ks, k)
	}
	failing := vs.ChooseFree(1 << uint(n))
	for i, k := range ks {
		if failing&(1<<uint(i)) != 0 {
			k.OnWrite = func(b []byte) error {
				if string(b[4:7]) == "tx\x00" {
					return lib.ErrWrite
				}
				return nil
			}
		}
	}
	w.startWith(0)
	for i := 1; i < n; i++ {
		if err := w.add(i); err != nil {
			vs.Fail("C25", "AddOutboundPeer: %v", err)
		}
	}
	settle(time.Second)
	raw := fmt.Sprintf("%x", lib.TxBytes(tx))
	err := w.svc.SendTransaction(raw)
	if failing == 0 && err != nil {
		vs.Fail("C25", "SendTransaction: %v", err)
	}
	if failing == 1<<uint(n)-1 && err == nil {
		vs.Fail("C25", "SendTransaction reports success although it could not be sent to any peer")
	}
	w.clean("C25")
	for i, k := range ks {
		if failing&(1<<uint(i)) != 0 {
			continue
		}
		got := k.Of("tx")
		if len(got) != 1 || fmt.Sprintf("%x", got[0]) != raw {
			vs.Fail("C25", "peer %d of %d (writes to peers %b fail) got %d tx messages %.60x instead of %.60s", i, n, failing, len(got), got, raw)
		}
	}
	vs.Observe("%d %b %v", n, failing, err)
}

// what is no transaction is refused and never sent
func sendBad() {
	w := newWorld(chain(2), 1)
	k := w.conn(0)
	passive(k, 1)
	w.startWith(0)
	settle(time.Second)
	raw := fmt.Sprintf("%x", lib.TxBytes(txA))
	bad := []string{"", "zz", raw[:len(raw)-1], "00", raw[:20], "x" + raw}
	b := bad[vs.ChooseFree(len(bad))]
	var err error
	func() {
		defer func() {
			if r := recover(); r != nil {
				vs.Fail("C25", "SendTransaction(%.20q) panics: %v", b, r)
			}
		}()
		err = w.svc.SendTransaction(b)
	}()
	if err == nil {
		vs.Fail("C25", "SendTransaction(%.20q) reports success", b)
	}
	if len(k.Of("tx")) != 0 {
		vs.Fail("C25", "SendTransaction(%.20q) sent %x", b, k.Of("tx"))
	}
}

// two callers, peers coming and going
func sendConcurrent() {
	w := newWorld(chain(2), 1)
	k := w.conn(0)
	passive(k, 1)
	k2 := w.conn(1)
	w.startWith(0)
	if err := w.add(1); err != nil {
		vs.Fail("C25", "AddOutboundPeer: %v", err)
	}
	vs.Quiesce()
	done := make(chan error, 2)
	go func() { done <- w.svc.SendTransaction(fmt.Sprintf("%x", lib.TxBytes(txA))) }()
	go func() { done <- w.svc.SendTransaction(fmt.Sprintf("%x", lib.TxBytes(txB))) }()
	k2.Deliver(lib.VersionMsg(65, 1))
	if vs.ChooseFree(2) == 1 {
		k2.Hangup()
	}
	<-done
	<-done
	settle(time.Second)
	w.clean("C25")
	m := map[string]int{}
	for _, p := range k.Of("tx") {
		m[fmt.Sprintf("%x", p)]++
	}
	if m[fmt.Sprintf("%x", lib.TxBytes(txA))] != 1 || m[fmt.Sprintf("%x", lib.TxBytes(txB))] != 1 || len(m) != 2 {
		vs.Fail("C25", "two transactions sent concurrently arrived as %d messages", len(k.Of("tx")))
	}
}

// the peers may be at any height
func sendTips() {
	at := []int32{1, 0, 2, 70000}
	w := newWorld(chain(4), 1)
	var ks []*lib.Conn
	var tips []int32
	for i := 0; i < 3; i++ {
		k := w.conn(i)
		tips = append(tips, at[vs.ChooseFree(len(at))])
		passive(k, tips[i])
		ks = append(ks, k)
	}
	w.startWith(0)
	for i := 1; i < 3; i++ {
		if err := w.add(i); err != nil {
			vs.Fail("C25", "AddOutboundPeer: %v", err)
		}
	}
	settle(time.Second)
	if vs.ChooseFree(2) == 1 { // the node goes on, and one of the peers says so
		ks[1].Deliver(lib.BlockMsg(w.c.Blocks[2]))
		settle(time.Second)
	}
	raw := fmt.Sprintf("%x", lib.TxBytes(txB))
	if err := w.svc.SendTransaction(raw); err != nil {
		vs.Fail("C25", "SendTransaction: %v", err)
	}
	w.clean("C25")
	for i, k := range ks {
		if got := k.Of("tx"); len(got) != 1 || fmt.Sprintf("%x", got[0]) != raw {
			vs.Fail("C25", "peer %d (the peers are at %v) got %d tx messages %.60x instead of %.60s", i, tips, len(got), got, raw)
		}
	}
}

func broadcast() []*vs.Scenario {
	return []*vs.Scenario{
		{Name: "send", Props: list("C25"), MaxCost: 2, Run: send, MaxSteps: 400000, Desc: "1-3 peers x all subsets of failing peers x 4 transactions (with witness, 260 outputs); map order and schedules"},
		{Name: "send-tips", Props: list("C25"), MaxCost: -1, Run: sendTips, MaxSteps: 400000, Desc: "three peers, each at one of four heights, with and without a block in between"},
		{Name: "send-bad", Props: list("C25"), Run: sendBad, Desc: "six inputs that are no transaction"},
		{Name: "send-concurrent", Props: list("C25", "C27"), Race: true, Run: sendConcurrent, Desc: "two concurrent senders while a peer joins and leaves; schedules"},
	}
}
