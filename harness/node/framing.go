package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/vulpemventures/go-elements/block"
	"github.com/vulpemventures/go-elements/transaction"
	"github.com/vulpemventures/neutrino-elements/vsharness/lib"

	"verif/vs"
)

// a letter of the alphabet of messages a peer may send
type letter struct {
	name  string
	bytes func(w *world, i int) []byte // i makes nonces and hashes unique
	// reply is what the node must answer; maybe: it may answer so
	reply func(w *world, i int) string
	maybe bool
	// effect checks what the message must have changed
	effect func(w *world, i int) string
}

func nonce(i int) uint64 { return 0x1000000000000000 + uint64(i) }
func invHash(i int) (h [32]byte) {
	h[0], h[31] = byte(i+1), 0x77
	return
}

func pongOf(w *world, i int) string { return fmt.Sprintf("pong %x", nonce(i)) }
func getdataOf(w *world, i int) string {
	return fmt.Sprintf("getdata [1 %s]", short(invHash(i)))
}
func le64(n uint64) []byte { return (&lib.W{}).U64(n).B }

// wide is a header with a long challenge, so that messages exceed any buffer
func alphabet() []letter {
	garbage := func(n int) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(i*37 + 11)
		}
		return b
	}
	// a payload that contains a complete ping message
	trap := func(i int) []byte { return append(lib.PingMsg("ping", nonce(900+i)), garbage(5)...) }
	pc := func(b []byte) func(*world, int) []byte { return func(*world, int) []byte { return b } }
	return []letter{
		{name: "ping", bytes: func(w *world, i int) []byte { return lib.PingMsg("ping", nonce(i)) }, reply: pongOf},
		{name: "inv", bytes: func(w *world, i int) []byte { return lib.InvMsg(lib.Inv{Type: 1, Hash: invHash(i)}) }, reply: getdataOf},
		{name: "tx", bytes: func(w *world, i int) []byte { return lib.TxMsg(lib.Tx(100+i, lib.Script(i))) }, effect: func(w *world, i int) string {
			if m := poolTxs(w.svc); m != nil && !m[lib.Tx(100+i, lib.Script(i)).TxHash().String()] {
				return "the transaction is not in the memory pool"
			}
			return ""
		}},
		{name: "cfilter", bytes: func(w *world, i int) []byte { return lib.CFilterMsg(0, invHash(i), w.c.Filters[1]) }, effect: func(w *world, i int) string {
			h := invHash(i)
			k := w.c.FilterKey(1)
			k.BlockHash = h[:]
			if string(w.fr.Get(k)) != string(w.c.Filters[1]) {
				return "the filter is not stored"
			}
			return ""
		}},
		{name: "getcfilters", bytes: func(w *world, i int) []byte { return lib.GetCFiltersMsg(0, 1, w.c.Hashes[1]) }, reply: func(w *world, i int) string {
			return "cfilter " + short(w.c.Hashes[1])
		}},
		{name: "unknown-with-trap", bytes: func(w *world, i int) []byte { return lib.Frame("addr", trap(i)) }},
		{name: "feefilter", bytes: pc(lib.Frame("feefilter", garbage(8)))},
		{name: "invalid-command", bytes: func(w *world, i int) []byte { return lib.Frame("nonsense", trap(i)) }},
		{name: "invalid-magic", bytes: func(w *world, i int) []byte { return lib.FrameM([4]byte{1, 2, 3, 4}, "ping", trap(i)) }},
		{name: "long-ping", bytes: func(w *world, i int) []byte {
			return lib.Frame("ping", append(le64(nonce(i)), trap(i)...))
		}, reply: pongOf, maybe: true},
		{name: "short-ping", bytes: pc(lib.Frame("ping", garbage(3)))},
		{name: "verack-with-payload", bytes: func(w *world, i int) []byte { return lib.Frame("verack", trap(i)) }},
		{name: "second-version", bytes: func(w *world, i int) []byte {
			v := lib.VersionMsg(65, 0)
			return lib.Frame("version", append(v[24:], trap(i)...))
		}},
		{name: "inv-cut", bytes: func(w *world, i int) []byte {
			return lib.Frame("inv", append([]byte{200}, garbage(36)...))
		}},
		{name: "headers-cut", bytes: func(w *world, i int) []byte {
			v := lib.HeadersMsg(w.c.Blocks[1].Header)
			return lib.Frame("headers", v[24:len(v)-3])
		}},
		{name: "headers-gap-long", bytes: func(w *world, i int) []byte {
			v := lib.HeadersMsg(lib.Header(7, nil, 9), lib.Header(9, nil, 9))
			return lib.Frame("headers", append(v[24:], trap(i)...))
		}},
		{name: "block-garbage", bytes: func(w *world, i int) []byte { return lib.Frame("block", garbage(90)) }},
		{name: "tx-garbage", bytes: func(w *world, i int) []byte { return lib.Frame("tx", garbage(40)) }},
		{name: "cfilter-bad-type", bytes: func(w *world, i int) []byte {
			return lib.Frame("cfilter", append([]byte{1}, trap(i)...))
		}},
		{name: "getcfilters-refused", bytes: func(w *world, i int) []byte {
			v := lib.GetCFiltersMsg(0, 0, invHash(50))
			return lib.Frame("getcfilters", append(v[24:], trap(i)...))
		}},
		{name: "pong", bytes: func(w *world, i int) []byte {
			return lib.Frame("pong", append(le64(nonce(i)), trap(i)...))
		}},
		{name: "empty-sendcmpct", bytes: pc(lib.Frame("sendcmpct", nil))},
		{name: "getheaders", bytes: func(w *world, i int) []byte {
			return lib.Frame("getheaders", append((&lib.W{}).U32(70016).CS(1).Raw(w.c.Hashes[0][:]).Raw(make([]byte, 32)).B, trap(i)...))
		}},
		{name: "large-unknown", bytes: pc(lib.Frame("cmpctblock", garbage(70000)))},
	}
}

// replies renders what the node sent after the handshake.
func replies(c *lib.Conn) (out []string) {
	for _, m := range c.Msgs() {
		switch m.Cmd {
		case "pong":
			r := &lib.R{B: m.Payload}
			out = append(out, fmt.Sprintf("pong %x", r.U64()))
			if !r.End() {
				vs.Fail("C04,C07", "malformed pong %x", m.Payload)
			}
		case "getdata":
			l, ok := lib.ParseInv(m.Payload)
			if !ok {
				vs.Fail("C04,C07", "malformed getdata %x", m.Payload)
			}
			s := "getdata"
			for _, i := range l {
				s += fmt.Sprintf(" [%d %s]", i.Type, short(i.Hash))
			}
			out = append(out, s)
		case "cfilter":
			r := &lib.R{B: m.Payload}
			r.Take(1)
			out = append(out, "cfilter "+short(r.H32()))
		}
	}
	return
}

var fragments = []struct {
	name string
	f    func(int) int
}{
	{"whole", nil},
	{"bytewise", func(int) int { return 1 }},
	{"23", func(int) int { return 23 }},
	{"25", func(int) int { return 25 }},
	{"any", func(n int) int {
		if vs.Choose(2) == 1 {
			return 1
		}
		return n
	}},
}

func sequence(length int, frags []int, pick func(k int) letter, glue bool) func() {
	return func() {
		w := newWorld(chain(2), 1)
		w.fr.Put(w.c.FilterKey(1), w.c.Filters[1])
		c := w.conn(0)
		fr := fragments[frags[vs.ChooseFree(len(frags))]]
		passive(c, 1)
		w.startWith(0)
		vs.Quiesce()
		c.SetFrag(fr.f)
		var want []string
		may := map[string]int{}
		var names []string
		var ls []letter
		all := [][]byte{}
		for k := 0; k < length; k++ {
			l := pick(k)
			ls = append(ls, l)
			names = append(names, l.name)
			b := l.bytes(w, k)
			all = append(all, b)
			if l.reply != nil {
				if l.maybe {
					may[l.reply(w, k)]++
				} else {
					want = append(want, l.reply(w, k))
				}
			}
			if !glue {
				c.Deliver(b)
				vs.Quiesce()
			}
		}
		if glue {
			c.Deliver(all...)
		}
		c.Deliver(lib.PingMsg("ping", nonce(99)))
		want = append(want, fmt.Sprintf("pong %x", nonce(99)))
		settle(time.Second)
		w.clean("C04")
		var got []string
		for _, r := range replies(c) {
			if may[r] > 0 {
				may[r]--
				continue
			}
			got = append(got, r)
		}
		if strings.Join(got, ";") != strings.Join(want, ";") {
			vs.Fail("C04", "after the messages %v (reads: %s) and a ping the node answered %v instead of %v", names, fr.name, got, want)
		}
		for k, l := range ls {
			if l.effect != nil {
				if e := l.effect(w, k); e != "" {
					vs.Fail("C04", "after the messages %v (reads: %s): %s (%s)", names, fr.name, e, l.name)
				}
			}
		}
		if c.Closed() {
			vs.Fail("C04", "after %v the node closed the connection", names)
		}
		vs.Observe("%v", got)
	}
}

// large: the messages as large as the network allows, between small ones.
func large() {
	w := newWorld(chain(2), 1)
	c := w.conn(0)
	passive(c, 1)
	w.startWith(0)
	vs.Quiesce()
	n := []int{70000, 1<<20 - 100, 1 << 20, 1<<20 + 1, 2<<20 + 1, 3900000}[vs.ChooseFree(6)]
	kind := vs.ChooseFree(6)
	step := []int{0, 1 << 16, 99991}[vs.ChooseFree(3)]
	c.SetFrag(func(have int) int {
		if step == 0 || have < step {
			return have
		}
		return step
	})
	filler := make([]byte, n)
	for i := range filler {
		filler[i] = byte(i * 7)
	}
	small, big := lib.Tx(1, lib.Script(1)), lib.Tx(2, lib.Script(2), filler)
	hash := w.c.Hashes[1]
	c.Deliver(lib.TxMsg(small), lib.InvMsg(lib.Inv{Type: 1, Hash: invHash(1)}))
	var check func() string
	has := func(t *transaction.Transaction, want bool) string {
		if m := poolTxs(w.svc); m != nil && m[t.TxHash().String()] != want {
			return fmt.Sprintf("the transaction is in the memory pool: %v", !want)
		}
		return ""
	}
	switch kind {
	case 0:
		c.Deliver(lib.TxMsg(big))
		check = func() string { return has(big, true) + has(small, true) }
	case 1:
		c.Deliver(lib.BlockMsg(&block.Block{Header: lib.Header(2, hash[:], 1), TransactionsData: &block.Transactions{Transactions: []*transaction.Transaction{big, small}}}))
		check = func() string { return has(small, false) }
	case 2:
		c.Deliver(lib.CFilterMsg(0, hash, append([]byte{1}, filler...)))
		check = func() string {
			if string(w.fr.Get(w.c.FilterKey(1))) != string(append([]byte{1}, filler...)) {
				return "the filter is not stored"
			}
			return ""
		}
	case 3:
		c.Deliver(lib.Frame("cmpctblock", filler))
	case 4:
		c.Deliver(lib.Frame("block", filler))
	case 5:
		c.Deliver(lib.FrameM([4]byte{1, 2, 3, 4}, "tx", filler))
	}
	c.Deliver(lib.InvMsg(lib.Inv{Type: 1, Hash: invHash(2)}), lib.PingMsg("ping", nonce(99)))
	settle(time.Second)
	w.clean("C04")
	want := []string{getdataOf(w, 1), getdataOf(w, 2), fmt.Sprintf("pong %x", nonce(99))}
	if got := replies(c); strings.Join(got, ";") != strings.Join(want, ";") {
		vs.Fail("C04", "around a message (kind %d) of %d bytes the node answered %v instead of %v", kind, n, got, want)
	}
	if check != nil {
		if e := check(); e != "" {
			vs.Fail("C04", "after a message (kind %d) of %d bytes: %s", kind, n, e)
		}
	}
	if c.Closed() {
		vs.Fail("C04", "after a message (kind %d) of %d bytes the node closed the connection", kind, n)
	}
}

func framing() []*vs.Scenario {
	al := alphabet()
	any := func(k int) letter { return al[vs.ChooseFree(len(al))] }
	few := func(k int) letter { return al[[]int{0, 1, 5, 12, 14}[vs.ChooseFree(5)]] }
	order := func(k int) letter { return al[[]int{0, 1, 4, 2}[k%4]] }
	return []*vs.Scenario{
		{Name: "frame-pairs", Props: list("C04"), MaxCost: 1, Run: sequence(2, []int{0, 1, 2, 3}, any, true), MaxSteps: 400000,
			Desc: "all ordered pairs of 24 kinds of messages (valid, unknown, malformed, over-long, refused) in one burst, followed by a ping x 4 read sizes; schedules"},
		{Name: "frame-triples", Props: list("C04"), MaxCost: 0, Thorough: true, Weight: 3, Run: sequence(3, []int{0, 3}, any, true), MaxSteps: 400000,
			Desc: "all ordered triples of the 24 kinds x 2 read sizes"},
		{Name: "frame-five", Props: list("C04"), Run: sequence(5, []int{0, 3}, few, true), MaxSteps: 400000,
			Desc: "all sequences of five over five kinds x 2 read sizes; schedules"},
		{Name: "frame-large", Props: list("C04"), MaxCost: 1, Run: large, Desc: "messages of up to 3.9 MB (transaction, block, filter, unknown, malformed, foreign) between small ones x 3 read sizes"},
		{Name: "frame-splits", Props: list("C04"), Run: sequence(3, []int{4}, order, true), Desc: "every read of a burst of good messages returns all or one byte; schedules"},
		{Name: "frame-order", Props: list("C04", "C07", "C27"), Race: true, Run: sequence(4, []int{0}, order, false), Desc: "good messages one after the other; schedules"},
	}
}

var _ = block.Header{}
