package main

import (
	"bytes"
	"fmt"

	"github.com/vulpemventures/go-elements/address"
	"github.com/vulpemventures/go-elements/network"
	"github.com/vulpemventures/go-elements/transaction"
	"github.com/vulpemventures/neutrino-elements/pkg/scanner"
	"github.com/vulpemventures/neutrino-elements/vsharness/lib"

	"verif/vs"
)

// an address with the script it stands for, built by hand
type addrCase struct {
	name, addr string
	script     []byte
}

func prog(n int, b byte) []byte {
	p := make([]byte, n)
	for i := range p {
		p[i] = b + byte(i)
	}
	return p
}

func addresses() []addrCase {
	pub := append([]byte{2}, prog(32, 0x40)...)
	var out []addrCase
	add := func(name, a string, err error, s ...[]byte) {
		if err == nil {
			out = append(out, addrCase{name, a, bytes.Join(s, nil)})
		}
	}
	for _, n := range []network.Network{network.Regtest, network.Liquid, network.Testnet} {
		for _, b := range []byte{1, 0x80} {
			h, s := prog(20, b), prog(32, b)
			a, err := address.ToBech32(&address.Bech32{Prefix: n.Bech32, Version: 0, Program: h})
			add("p2wpkh "+n.Name, a, err, []byte{0, 20}, h)
			a, err = address.ToBech32(&address.Bech32{Prefix: n.Bech32, Version: 0, Program: s})
			add("p2wsh "+n.Name, a, err, []byte{0, 32}, s)
			add("p2pkh "+n.Name, address.ToBase58(&address.Base58{Version: n.PubKeyHash, Data: h}), nil, []byte{0x76, 0xa9, 20}, h, []byte{0x88, 0xac})
			add("p2sh "+n.Name, address.ToBase58(&address.Base58{Version: n.ScriptHash, Data: h}), nil, []byte{0xa9, 20}, h, []byte{0x87})
			a, err = address.ToBlech32(&address.Blech32{Prefix: n.Blech32, Version: 0, PublicKey: pub, Program: h})
			add("confidential p2wpkh "+n.Name, a, err, []byte{0, 20}, h)
			a, err = address.ToBlech32(&address.Blech32{Prefix: n.Blech32, Version: 0, PublicKey: pub, Program: s})
			add("confidential p2wsh "+n.Name, a, err, []byte{0, 32}, s)
			add("confidential p2pkh "+n.Name, address.ToBase58Confidential(&address.Base58Confidential{Base58: address.Base58{Version: n.PubKeyHash, Data: h}, Version: n.Confidential, PublicKey: pub}), nil,
				[]byte{0x76, 0xa9, 20}, h, []byte{0x88, 0xac})
		}
	}
	return out
}

// ins and outs make a transaction.
type in struct {
	tx int
	ix uint32
}

func itemTx(ins []in, outs [][]byte) *transaction.Transaction {
	t := lib.Tx(9, outs...)
	t.Inputs = nil
	for _, i := range ins {
		t.AddInput(transaction.NewTxInput(itemHash(i.tx), i.ix))
	}
	return t
}

// hashes which agree in all but one byte
func itemHash(n int) []byte {
	h := prog(32, 7)
	switch n {
	case 1:
		h[0] ^= 1
	case 2:
		h[31] ^= 0x80
	}
	return h
}

// enumItems: every small transaction against every kind of watch item.
func enumItems(e *vs.Enum) {
	as := addresses()
	if len(as) > 14 && e.Tier != "thorough" {
		as = as[:14]
	}
	indexes := []uint32{0, 1, 2, 255, 256, 65536, 1<<30 - 1}
	var points []in
	for _, x := range indexes {
		points = append(points, in{0, x})
	}
	points = append(points, in{1, 0}, in{1, 1}, in{2, 0})
	scripts := [][]byte{}
	for _, a := range as {
		s := a.script
		if len(scripts) > 5 {
			break
		}
		scripts = append(scripts, s)
	}
	// scripts which resemble the others
	scripts = append(scripts, scripts[0][:len(scripts[0])-1], append(append([]byte{}, scripts[0]...), 0), []byte{})
	// outputs
	for ai := range as {
		a := as[ai]
		e.Case(func() string { return "watch " + a.name + " " + a.addr }, func() {
			it, err := scanner.NewUnspentWatchItemFromAddress(a.addr)
			if err != nil {
				e.Fail("C12", "address", "%s %s is refused: %v", a.name, a.addr, err)
			}
			if !bytes.Equal(it.Bytes(), a.script) {
				e.Fail("C12", "script", "%s %s is watched as script %x, not %x", a.name, a.addr, it.Bytes(), a.script)
			}
			if it.EventType() != scanner.UnspentUtxo {
				e.Fail("C12", "type", "%s has event type %d", a.name, it.EventType())
			}
			all := append([][]byte{a.script}, scripts...)
			for i := -1; i < len(all); i++ {
				for j := -1; j < len(all); j++ {
					var outs [][]byte
					want := false
					for _, k := range []int{i, j} {
						if k >= 0 {
							outs = append(outs, all[k])
							want = want || bytes.Equal(all[k], a.script)
						}
					}
					if got := it.Match(itemTx([]in{{0, 0}}, outs)); got != want {
						e.Fail("C12", "match", "%s: a transaction with the outputs %x matches: %v, should be %v", a.name, outs, got, want)
					}
				}
			}
			e.Distinct(a.addr)
		})
	}
	// inputs
	for _, w := range points {
		w := w
		e.Case(func() string { return fmt.Sprintf("watch outpoint %+v", w) }, func() {
			it, err := scanner.NewSpentWatchItemFromInput(transaction.NewTxInput(itemHash(w.tx), w.ix), scripts[0])
			if err != nil {
				e.Fail("C12", "outpoint", "the outpoint %+v is refused: %v", w, err)
			}
			if !bytes.Equal(it.Bytes(), scripts[0]) || it.EventType() != scanner.SpentUtxo {
				e.Fail("C12", "outpoint", "the outpoint %+v is watched as %x, type %d", w, it.Bytes(), it.EventType())
			}
			for i := -1; i < len(points); i++ {
				for j := -1; j < len(points); j++ {
					for o := 0; o < 2; o++ {
						var ins []in
						want := false
						for _, k := range []int{i, j} {
							if k >= 0 {
								ins = append(ins, points[k])
								want = want || points[k] == w
							}
						}
						// paying to the script again does not matter
						tx := itemTx(ins, [][]byte{scripts[o]})
						if got := it.Match(tx); got != want {
							e.Fail("C12", "spent", "outpoint %+v: a transaction spending %+v matches: %v, should be %v", w, ins, got, want)
						}
					}
				}
			}
			e.Distinct(fmt.Sprint(w))
		})
	}
	for _, bad := range []string{"", "x", "ert1", "ert1qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq", as[0].addr + "q", as[0].addr[:len(as[0].addr)-1]} {
		bad := bad
		e.Case(func() string { return "address " + bad }, func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(error); ok {
						e.Fail("C12", "panic", "address %q: panic %v", bad, r)
					}
					panic(r)
				}
			}()
			if it, err := scanner.NewUnspentWatchItemFromAddress(bad); err == nil {
				e.Fail("C12", "bad", "the address %q is accepted and watched as %x", bad, it.Bytes())
			}
		})
	}
}

// realItems runs the library's own watch items: siblings of the watched
// outpoint are spent before it and after it.
func realItems() {
	sA, sB := addresses()[0], addresses()[1]
	pay := lib.Tx(1, sA.script, sA.script, sB.script)
	spend0, spend1, spend2 := lib.Spend(2, pay, 0, lib.Script(8)), lib.Spend(3, pay, 1, sB.script), lib.Spend(4, pay, 2, lib.Script(8))
	both := lib.Spend(5, pay, 2, sB.script)
	order := [][]*transaction.Transaction{{spend0, spend1, spend2}, {spend2, spend1, spend0}, {spend1, both, spend0}}[vs.ChooseFree(3)]
	c := lib.NewChain(5, map[int][]*transaction.Transaction{1: {pay}, 2: {order[0]}, 3: {order[1], lib.Tx(7, sB.script)}, 4: {order[2]}},
		map[int][][]byte{2: {sA.script, sB.script}, 3: {sA.script, sB.script}, 4: {sA.script, sB.script}}, 1)
	w := newWorld(c, 5)
	var rs []*request
	h := pay.TxHash()
	for ix := uint32(0); ix < 3; ix++ {
		it, err := scanner.NewSpentWatchItemFromInput(transaction.NewTxInput(h[:], ix), pay.Outputs[ix].Script)
		if err != nil {
			vs.Fail("C12", "outpoint %d is refused: %v", ix, err)
		}
		rs = append(rs, &request{fmt.Sprint("spent", ix), id(int(1 + ix)), 1, it, ix == 1})
	}
	it, err := scanner.NewUnspentWatchItemFromAddress(sB.addr)
	if err != nil {
		vs.Fail("C12", "%s is refused: %v", sB.addr, err)
	}
	rs = append(rs, &request{"pays", id(9), 0, it, true})
	w.start()
	for _, r := range rs {
		w.watch(r)
	}
	w.settle()
	// the expectation must not come from the items under test
	w.verify("C12", 5, rs...)
	w.mu.Lock()
	defer w.mu.Unlock()
	for ix := 0; ix < 3; ix++ {
		for hh := 2; hh <= 4; hh++ {
			for _, tx := range c.Blocks[hh].TransactionsData.Transactions {
				if len(tx.Inputs) == 1 && bytes.Equal(tx.Inputs[0].Hash, h[:]) && int(tx.Inputs[0].Index) == ix {
					s := fmt.Sprintf("%x@%d:%s", 1+ix, hh, tx.TxHash().String()[:8])
					if count(w.got)[s] != 1 {
						if ix == 1 || !earlier(c, hh, h[:], ix) {
							vs.Fail("C12", "spending output %d in block %d is reported %d times; reports %v", ix, hh, count(w.got)[s], w.got)
						}
					}
				}
			}
		}
	}
}

func earlier(c *lib.Chain, below int, txid []byte, ix int) bool {
	for hh := 0; hh < below; hh++ {
		for _, tx := range c.Blocks[hh].TransactionsData.Transactions {
			for _, i := range tx.Inputs {
				if bytes.Equal(i.Hash, txid) && int(i.Index) == ix {
					return true
				}
			}
		}
	}
	return false
}
