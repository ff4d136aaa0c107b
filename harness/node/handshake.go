package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/vulpemventures/neutrino-elements/vsharness/lib"

	"verif/vs"
)

func count(l []string, x string) (n int) {
	for _, s := range l {
		if s == x {
			n++
		}
	}
	return
}

// every combination of service flags, with repeated and early messages
func handshake() {
	services := []uint64{65, 64, 0, 1, 1 | 8 | 1024, 64 | 8 | 1024, 128, ^uint64(64), ^uint64(0), 32}
	sv := services[vs.ChooseFree(len(services))]
	cf := sv&64 != 0
	pattern := vs.ChooseFree(7)
	w := newWorld(chain(4), 1)
	k := w.conn(0)
	v := lib.VersionMsg(sv, 4)
	w.startWith(0)
	if vs.ChooseFree(2) == 1 {
		vs.Quiesce()
	}
	switch pattern {
	case 0:
		k.Deliver(v)
	case 1:
		k.Deliver(v, lib.Frame("verack", nil), v)
	case 2:
		k.Deliver(lib.Frame("verack", nil), v, v, v)
	case 3:
		k.Deliver(lib.InvMsg(lib.Inv{Type: 1, Hash: invHash(1)}), v, lib.Frame("verack", nil))
	case 4:
		k.Deliver(v[:24+10])
		vs.Quiesce()
		k.Deliver(v[24+10:], lib.Frame("sendcmpct", []byte{0, 1, 0, 0, 0, 0, 0, 0, 0}), v)
	case 5: // again, from a peer that is now further along, or behind
		k.Deliver(v, lib.Frame("verack", nil), lib.VersionMsg(sv, 9), lib.VersionMsg(sv, 0), lib.VersionMsg(sv, 9))
	case 6: // again, offering other services beyond compact filters
		k.Deliver(v, lib.VersionMsg(sv^9, 4), lib.VersionMsg(sv^1024, 5), lib.Frame("verack", nil))
	}
	settle(2 * time.Second)
	_ = w.svc.SendTransaction(fmt.Sprintf("%x", lib.TxBytes(txA)))
	settle(0)
	w.clean("C07")
	got := k.Cmds()
	if len(got) == 0 || got[0] != "version" || count(got, "version") != 1 {
		vs.Fail("C07", "the node sent %v: not its version first and once", got)
	}
	r := &lib.R{B: k.Msgs()[0].Payload}
	r.U32()
	if s := r.U64(); s&64 == 0 {
		vs.Fail("C07", "the node does not announce compact filters: services %d", s)
	}
	if cf {
		if count(got, "verack") != 1 || count(got, "sendheaders") != 1 {
			vs.Fail("C07", "to a compact filter peer (services %d, pattern %d) the node sent %v: verack and sendheaders not exactly once", sv, pattern, got)
		}
		for i, c := range got {
			if c == "verack" {
				break
			}
			if c == "sendheaders" || c == "getheaders" || c == "tx" {
				vs.Fail("C07", "the node sent %v: %s (%d) before verack", got, c, i)
			}
		}
		if count(got, "tx") != 1 {
			vs.Fail("C07,C25", "a transaction was sent %d times to a connected peer: %v", count(got, "tx"), got)
		}
		if count(got, "getheaders") == 0 {
			vs.Fail("C07", "the node does not ask a compact filter peer for headers: %v", got)
		}
		return
	}
	settle(time.Hour / 4)
	for _, c := range k.Cmds() {
		if c != "version" && c != "getdata" && c != "pong" {
			vs.Fail("C07", "to a peer without compact filters (services %d, pattern %d) the node sent %v", sv, pattern, k.Cmds())
		}
	}
}

// replies to pings and inventories
func answers() {
	w := newWorld(chain(2), 1)
	k := w.conn(0)
	passive(k, 1)
	w.startWith(0)
	vs.Quiesce()
	var want []string
	n := 0
	for round := 0; round < 2; round++ {
		switch x := vs.ChooseFree(12); {
		case x < 6:
			v := []uint64{0, 1, 0xff, 1 << 32, 1 << 63, ^uint64(0)}[x]
			k.Deliver(lib.PingMsg("ping", v))
			want = append(want, fmt.Sprintf("pong %x", v))
		default:
			l := []int{0, 1, 2, 3, 252, 253}[x-6]
			var inv []lib.Inv
			s := "getdata"
			for i := 0; i < l; i++ {
				var h [32]byte
				for j := range h {
					h[j] = byte(i*31 + j*7 + n)
				}
				n++
				t := []uint32{1, 2, 0, 0x40000002, 0xffffffff}[i%5]
				inv = append(inv, lib.Inv{Type: t, Hash: h})
				s += fmt.Sprintf(" [%d %s]", t, short(h))
			}
			k.Deliver(lib.InvMsg(inv...))
			if l > 0 {
				want = append(want, s)
			}
		}
	}
	settle(time.Second)
	w.clean("C07")
	var got []string
	for _, r := range replies(k) {
		if r != "getdata" {
			got = append(got, r)
		}
	}
	if strings.Join(got, ";") != strings.Join(want, ";") {
		vs.Fail("C07", "answered %v instead of %v", got, want)
	}
	// the full items, not only a prefix of the hash
	for _, p := range k.Of("getdata") {
		l, _ := lib.ParseInv(p)
		for _, i := range l {
			for j := 1; j < 32; j++ {
				if i.Hash[j] != i.Hash[0]+byte(j*7) {
					vs.Fail("C07", "getdata asks for %x, which was not announced", i.Hash)
				}
			}
		}
	}
}

// what is announced may be known already
func announceKnown() {
	w := newWorld(chain(4), 1)
	k := w.conn(0)
	passive(k, 1)
	w.startWith(0)
	vs.Quiesce()
	k.Deliver(lib.TxMsg(txA), lib.TxMsg(txB), lib.BlockMsg(w.c.Blocks[2]))
	settle(time.Second)
	before := len(k.Of("getdata"))
	items := []lib.Inv{{Type: 1, Hash: txA.TxHash()}, {Type: 2, Hash: w.c.Hashes[1]}, {Type: 1, Hash: invHash(7)}, {Type: 2, Hash: w.c.Hashes[2]}, {Type: 0x40000001, Hash: txB.TxHash()}, {Type: 2, Hash: w.c.Hashes[3]}, {Type: 1, Hash: txB.TxHash()}}
	var want []string
	say := func(l []lib.Inv) string {
		s := ""
		for _, i := range l {
			s += fmt.Sprintf("[%x %x]", i.Type, i.Hash)
		}
		return s
	}
	for round := 0; round < 2; round++ {
		var inv []lib.Inv
		switch x := vs.ChooseFree(len(items) + 4); {
		case x < len(items):
			inv = items[x : x+1]
		case x == len(items):
			inv = items
		case x == len(items)+1: // twice the same
			inv = []lib.Inv{items[2], items[6], items[0], items[2]}
		case x == len(items)+2:
			inv = []lib.Inv{items[2], items[6]}
		default:
			inv = []lib.Inv{items[1], items[5]}
		}
		k.Deliver(lib.InvMsg(inv...))
		want = append(want, say(inv))
	}
	settle(time.Second)
	w.clean("C07")
	var got []string
	for _, p := range k.Of("getdata")[before:] {
		l, _ := lib.ParseInv(p)
		got = append(got, say(l))
	}
	if strings.Join(got, ";") != strings.Join(want, ";") {
		vs.Fail("C07", "announcements of items some of which are known were answered by requests for %v instead of %v", got, want)
	}
}

func handshakes() []*vs.Scenario {
	return []*vs.Scenario{
		{Name: "handshake", Props: list("C07"), Run: handshake, Desc: "10 service flag sets x 7 handshake patterns (repeated, changed, early, fragmented version) x timing; schedules"},
		{Name: "announce-known", Props: list("C07"), MaxCost: 0, Run: announceKnown, Desc: "all pairs of eleven announcements of transactions and blocks some of which are already in the pool or stored, or repeated"},
		{Name: "answers", Props: list("C07"), MaxCost: 1, Run: answers, MaxSteps: 400000, Desc: "all pairs of pings (boundary nonces) and inventories (0..253 items); schedules"},
	}
}
