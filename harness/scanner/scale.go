package main

import (
	"fmt"
	"sync"
	"time"

	"github.com/vulpemventures/go-elements/transaction"
	"github.com/vulpemventures/neutrino-elements/pkg/repository"
	"github.com/vulpemventures/neutrino-elements/vsharness/lib"

	"verif/vs"
)

var lengthy *lib.Chain

// heights with something to find in the long chain
var hits = []int{1, 2, 255, 256, 257, 999, 1000, 1001, 1002, 1999, 2000, 2001, 2015, 2016, 2017, 2100, 2599, 2600}

func longChain() *lib.Chain {
	if lengthy == nil {
		txs := map[int][]*transaction.Transaction{}
		for i, h := range hits {
			txs[h] = []*transaction.Transaction{lib.Tx(100+i, lib.Script(1)), lib.Tx(200+i, lib.Script(1000+h))}
		}
		lengthy = lib.NewChain(2600, txs, nil, 1)
	}
	return lengthy
}

// scanLong: watches from several heights on a chain longer than any batch.
func scanLong() {
	c := longChain()
	from := 2600
	if vs.ChooseFree(2) == 1 {
		from = 1500 // the rest arrives while scanning
	}
	w := newWorld(c, from)
	w.start()
	rs := []*request{pay("p", 1, 1, 1, true)}
	for i, h := range hits {
		start := []uint32{0, 1, uint32(h)}[i%3]
		rs = append(rs, pay(fmt.Sprint("o", h), 10+i, start, 1000+h, i%4 == 3))
	}
	rs = append(rs, pay("none", 2, 3, 77, false))
	for _, r := range rs {
		w.watch(r)
	}
	for h := from + 1; h <= 2600; h++ {
		w.fr.Put(c.FilterKey(h), c.Filters[h])
		w.hr.Put(*c.Blocks[h].Header)
	}
	w.settle()
	w.verify("C12,C13", 2600, rs...)
}

// scanMany: hundreds of watches, hundreds of payments in one block.
func scanMany() {
	const n = 1500
	var in []*transaction.Transaction
	for i := 0; i < n; i += 2 {
		in = append(in, lib.Tx(i, lib.Script(2000+i)))
	}
	var one [][]byte
	for i := 1; i < n; i += 2 {
		one = append(one, lib.Script(2000+i))
	}
	c := lib.NewChain(4, map[int][]*transaction.Transaction{2: in, 3: {lib.Tx(5000, one...), lib.Tx(5001, one[0])}, 4: in[:40]}, nil, 1)
	w := newWorld(c, 4)
	var rs []*request
	for i := 0; i < n; i++ {
		rs = append(rs, pay("r", 1+i, uint32(i%4), 2000+i, i%3 == 0))
	}
	w.start()
	for _, r := range rs {
		w.watch(r)
	}
	w.settle()
	w.verify("C12,C13", 4, rs...)
}

// outage: a store or the block source is away for long, and comes back.
func outage() {
	n := []int{7, 60, 300}[vs.ChooseFree(3)]
	what := vs.ChooseFree(4)
	after := vs.ChooseFree(3)
	c := theChain(5)
	w := newWorld(c, 5)
	var mu sync.Mutex
	fail := func(k int) error {
		mu.Lock()
		defer mu.Unlock()
		if what != 3 && what != k {
			return nil
		}
		if after > 0 {
			after--
			return nil
		}
		if n > 0 {
			n--
			return errFault
		}
		return nil
	}
	w.hr.OnCall = func(op string, h int) error { return fail(0) }
	w.hr.SpinTip = 700 // far more calls than fail
	w.fr.OnCall = func(op string, k repository.FilterKey) error { return fail(1) }
	w.bs.OnCall = func(int) error { return fail(2) }
	rs := []*request{pay("a", 1, 0, 1, true), pay("b", 2, 2, 2, false), pay("c", 3, 1, 1, false)}
	w.start()
	for _, r := range rs {
		w.watch(r)
	}
	vs.Sleep(2 * time.Hour)
	w.settle()
	w.verify("C13", 5, rs...)
	mu.Lock()
	defer mu.Unlock()
	vs.Observe("%d failures left", n)
}

func scaleScenarios() []*vs.Scenario {
	return []*vs.Scenario{
		{Name: "long-chain", Props: []string{"C12", "C13"}, Run: scanLong, MaxCost: -1, MaxSteps: 4000000, Desc: "twenty watches on a chain of 2600 blocks with payments around powers of two, 1000, 2000 and 2016; all blocks stored before or arriving while scanning"},
		{Name: "outage", Props: []string{"C13"}, Run: outage, MaxCost: -1, MaxSteps: 4000000, Horizon: 12 * time.Hour, Desc: "7, 60 or 300 calls in a row to the header store, the filter store, the block source or all of them fail"},
		{Name: "many-watches", Props: []string{"C12", "C13"}, Run: scanMany, MaxCost: -1, MaxSteps: 4000000, Desc: "1500 watches, one-shot and persistent, 750 payments in one block and 750 outputs in one transaction"},
	}
}
