package main

import (
	"fmt"
	"sync"
	"time"

	"github.com/vulpemventures/neutrino-elements/vsharness/lib"

	"verif/vs"
)

// prober answers pings in a given way
type prober struct {
	mu   sync.Mutex
	k    *lib.Conn
	mode string
	n    int
	tip  int32
}

func (p *prober) handle(m lib.Msg) {
	if m.Cmd != "ping" {
		return
	}
	p.mu.Lock()
	p.n++
	n := p.n
	mode := p.mode
	p.mu.Unlock()
	pong := lib.Frame("pong", m.Payload)
	later := func(d time.Duration, f func()) {
		go func() {
			vs.Daemon()
			vs.Sleep(d)
			f()
		}()
	}
	r := &lib.R{B: m.Payload}
	nonce := r.U64()
	switch mode {
	case "prompt":
		p.k.Deliver(pong)
	case "1s":
		later(time.Second, func() { p.k.Deliver(pong) })
	case "59s":
		later(59*time.Second, func() { p.k.Deliver(pong) })
	case "twice":
		p.k.Deliver(pong, pong)
	case "chatty": // unsolicited pongs around the right one
		p.k.Deliver(lib.PingMsg("pong", nonce+1), lib.PingMsg("pong", 0), pong, lib.PingMsg("pong", nonce-1), pong)
	case "twice-late":
		p.k.Deliver(pong)
		later(90*time.Second, func() { p.k.Deliver(pong) })
	case "silent":
	case "wrong":
		p.k.Deliver(lib.PingMsg("pong", nonce^1))
	case "late": // after the timeout
		later(75*time.Second, func() { p.k.Deliver(pong) })
	case "hangup":
		p.k.Hangup()
	case "pong-hangup":
		p.k.Deliver(pong)
		p.k.Hangup()
	case "second-silent":
		if n == 1 {
			p.k.Deliver(pong)
		}
	case "half":
		p.k.Deliver(pong[:30])
	case "write-fails": // see setup
	}
}

var goodModes = []string{"prompt", "1s", "59s", "twice", "chatty", "twice-late"}
var badModes = []string{"silent", "wrong", "late", "hangup", "pong-hangup", "second-silent", "half", "write-fails"}

func good(m string) bool {
	for _, g := range goodModes {
		if g == m {
			return true
		}
	}
	return false
}

// alive checks that the node still serves the peer.
func alive(k *lib.Conn, what string) {
	before := len(k.Of("pong"))
	bg := len(k.Of("getdata"))
	k.Deliver(lib.PingMsg("ping", 4242), lib.InvMsg(lib.Inv{Type: 1, Hash: invHash(3)}))
	settle(0)
	if len(k.Of("pong")) != before+1 || len(k.Of("getdata")) != bg+1 {
		vs.Fail("C09", "the node no longer answers %s; live: %v", what, vs.Live())
	}
}

func (w *world) prober(i int, mode string) *prober {
	k := w.conn(i)
	p := &prober{k: k, mode: mode}
	k.OnMsg = p.handle
	k.Deliver(lib.VersionMsg(65, 1), lib.Frame("verack", nil))
	if mode == "write-fails" {
		k.OnWrite = func(b []byte) error {
			if string(b[4:8]) == "ping" {
				return lib.ErrWrite
			}
			return nil
		}
	}
	return p
}

func probe(modes [][]string, period time.Duration, extra bool) func() {
	return func() {
		w := newWorld(chain(2), 1)
		var ps []*prober
		for i, m := range modes {
			ps = append(ps, w.prober(i, m[vs.ChooseFree(len(m))]))
		}
		w.startWith(0)
		for i := 1; i < len(ps); i++ {
			if err := w.add(i); err != nil {
				vs.Fail("C09", "AddOutboundPeer: %v", err)
			}
		}
		if extra {
			go func() {
				vs.Daemon()
				vs.Sleep(120 * time.Second)
				for _, p := range ps {
					p.k.Deliver(lib.PingMsg("pong", 77))
				}
			}()
		}
		vs.Quiesce()
		desc := ""
		for _, p := range ps {
			desc += " " + p.mode
		}
		settle(period)
		for i, p := range ps {
			if good(p.mode) {
				if p.k.Closed() {
					vs.Fail("C09", "peer %d (%s) of%s answers every ping in time but was disconnected", i, p.mode, desc)
				}
				if n := len(p.k.Of("ping")); n < int(period/(120*time.Second))-1 {
					vs.Fail("C09", "peer %d (%s) of%s got only %d pings in %v; live: %v", i, p.mode, desc, n, period, vs.Live())
				}
				alive(p.k, fmt.Sprintf("peer %d (%s) of%s", i, p.mode, desc))
			} else if !p.k.Closed() {
				vs.Fail("C09", "peer %d (%s) of%s is dead but was not disconnected after %v; live: %v", i, p.mode, desc, period, vs.Live())
			}
		}
		// forgotten: nothing is sent to a disconnected peer
		if err := w.svc.SendTransaction(fmt.Sprintf("%x", lib.TxBytes(txB))); err != nil {
			vs.Fail("C09", "SendTransaction fails after dead peers of%s were dropped: %v", desc, err)
		}
		for i, p := range ps {
			if n := len(p.k.Of("tx")); good(p.mode) && n != 1 {
				vs.Fail("C09,C25", "peer %d (%s) of%s got a transaction %d times", i, p.mode, desc, n)
			}
		}
		w.clean("C09")
		for _, p := range ps {
			vs.Observe("%d %v", len(p.k.Of("ping")), p.k.Closed())
		}
	}
}

// a dropped peer connects again
func rejoin() {
	w := newWorld(chain(2), 1)
	p := w.prober(0, []string{"silent", "hangup", "write-fails", "prompt"}[vs.ChooseFree(4)])
	w.startWith(0)
	settle(5 * time.Minute)
	q := w.prober(1, "prompt")
	if err := w.add(1); err != nil {
		vs.Fail("C09", "AddOutboundPeer after a peer was dropped: %v", err)
	}
	settle(10 * time.Minute)
	if q.k.Closed() {
		vs.Fail("C09", "a good peer that joined after %s was disconnected", p.mode)
	}
	alive(q.k, "a peer that joined later")
	if n := len(q.k.Of("ping")); n < 4 {
		vs.Fail("C09", "a peer that joined later got %d pings in ten minutes", n)
	}
}

// disconnections at any moment of the sync with the other peer
func dropWhile() {
	c := chain(6)
	w := newWorld(c, 0)
	k := w.conn(0)
	h := lib.NewHonest(c, 5, k)
	h.Batch = 2
	h.Refuse = map[string]bool{"getheaders": true}
	k2 := w.conn(1)
	passive(k2, 5)
	w.startWith(0)
	vs.Quiesce()
	h.Refuse = nil
	for _, m := range k.Msgs() {
		if m.Cmd == "getheaders" {
			m := m
			go h.Handle(m)
		}
	}
	if err := w.add(1); err != nil {
		vs.Fail("C09", "AddOutboundPeer: %v", err)
	}
	for i := vs.ChooseFree(6); i > 0; i-- {
		vs.Point()
	}
	if vs.ChooseFree(2) == 0 {
		k2.Hangup()
	} else {
		k2.Deliver([]byte{1, 2, 3})
		k2.Hangup()
	}
	settle(10 * time.Second)
	if !k2.Closed() {
		vs.Fail("C09", "a peer that hung up was not disconnected")
	}
	alive(k, "the peer that stayed")
	if w.hr.Tip() != 5 || !w.started() {
		vs.Fail("C09", "after another peer hung up the sync stopped at %d of 5", w.hr.Tip())
	}
	if err := w.svc.SendTransaction(fmt.Sprintf("%x", lib.TxBytes(txB))); err != nil || len(k.Of("tx")) != 1 || len(k2.Of("tx")) != 0 {
		vs.Fail("C09,C25", "after a peer hung up: SendTransaction %v, delivered %d and %d times", err, len(k.Of("tx")), len(k2.Of("tx")))
	}
	w.clean("C09")
}

// connections that end at every stage of the handshake
func hangups() {
	w := newWorld(chain(2), 1)
	p := w.prober(0, "prompt")
	w.startWith(0)
	k := w.conn(1)
	services := []uint64{65, 1}[vs.ChooseFree(2)]
	v := lib.VersionMsg(services, 1)
	stage := vs.ChooseFree(6)
	early := stage < 3 && vs.ChooseFree(2) == 1
	end := func() {
		switch stage {
		case 0: // at once
		case 1: // within its version
			k.Deliver(v[:40])
		case 2: // after its version
			k.Deliver(v)
		case 3: // after the handshake
			k.Deliver(v, lib.Frame("verack", nil))
			settle(time.Second)
		case 4: // much later
			k.Deliver(v, lib.Frame("verack", nil))
			settle(30 * time.Minute)
		case 5: // long after an unanswered version
			settle(30 * time.Minute)
		}
		k.Hangup()
	}
	if early {
		end()
	}
	vs.Quiesce()
	err := w.add(1)
	if err != nil && !early {
		vs.Fail("C09", "AddOutboundPeer: %v", err)
	}
	if !early {
		end()
	}
	settle(10 * time.Second)
	what := fmt.Sprintf("a peer with services %d that hung up at stage %d of the handshake", services, stage)
	if !k.Closed() {
		vs.Fail("C09", "%s was not disconnected", what)
	}
	sent := len(k.Msgs())
	alive(p.k, "the peer next to "+what)
	if err := w.svc.SendTransaction(fmt.Sprintf("%x", lib.TxBytes(txB))); err != nil || len(p.k.Of("tx")) != 1 {
		vs.Fail("C09,C25", "next to %s: SendTransaction %v, delivered %d times", what, err, len(p.k.Of("tx")))
	}
	settle(5 * time.Minute)
	if len(k.Msgs()) != sent {
		vs.Fail("C09", "%s was sent %v", what, k.Cmds()[sent:])
	}
	if p.k.Closed() {
		vs.Fail("C09", "a good peer next to %s was disconnected", what)
	}
	w.clean("C09")
}

func probing() []*vs.Scenario {
	every := append(append([]string{}, goodModes...), badModes...)
	return []*vs.Scenario{
		{Name: "probe-one", Props: list("C09"), Horizon: 3 * time.Hour, Run: probe([][]string{every}, 21*time.Minute+time.Second, false), Desc: "one peer x 14 ways of answering pings over ten ping periods; schedules"},
		{Name: "probe-unsolicited", Props: list("C09"), Horizon: 3 * time.Hour, Run: probe([][]string{every}, 9*time.Minute+time.Second, true), Desc: "as above with unsolicited pongs at the moment of the first ping; schedules"},
		{Name: "probe-two", Props: list("C09", "C27"), Race: true, Horizon: 3 * time.Hour, MaxCost: 2, Run: probe([][]string{every, goodModes[:3]}, 9*time.Minute+time.Second, false), Desc: "a second peer next to one of the 14 kinds; schedules"},
		{Name: "probe-three", Props: list("C09"), Thorough: true, Horizon: 3 * time.Hour, Run: probe([][]string{every, every, {"prompt"}}, 9*time.Minute+time.Second, false), Desc: "three peers, two of any kind; schedules"},
		{Name: "rejoin", Props: list("C09"), Horizon: 3 * time.Hour, Run: rejoin, Desc: "a peer is added after another was dropped; schedules"},
		{Name: "hangups", Props: list("C09"), Horizon: 3 * time.Hour, Run: hangups, Desc: "a connection ends at one of six stages of the handshake, with and without compact filters, next to a good peer; schedules"},
		{Name: "drop-while", Props: list("C09"), Horizon: 3 * time.Hour, Run: dropWhile, Desc: "a peer hangs up at any point of the sync with another; schedules"},
	}
}
