package main

import (
	"fmt"

	"github.com/vulpemventures/go-elements/transaction"
	"github.com/vulpemventures/neutrino-elements/pkg/blockservice"
	"github.com/vulpemventures/neutrino-elements/vsharness/lib"

	"verif/vs"
)

// late: the filters, or the blocks, of stored headers become available one by
// one in any order while the scanner works. Nothing may be passed over.
func late(blocks bool) func() {
	return func() {
		txs := map[int][]*transaction.Transaction{1: {lib.Tx(1, lib.Script(7))}, 2: {lib.Tx(2, lib.Script(1))}, 3: {lib.Tx(3, lib.Script(1))}, 4: {lib.Tx(4, lib.Script(1))}}
		c := lib.NewChain(4, txs, nil, 1)
		w := newWorld(c, 4)
		order := [][]int{{2, 3, 4}, {4, 3, 2}, {3, 2, 4}, {3, 4, 2}, {4, 2, 3}, {2, 4, 3}}[vs.ChooseFree(6)]
		here := map[int]bool{0: true, 1: true}
		if blocks {
			w.bs.OnCall = func(h int) error {
				if !here[h] {
					return blockservice.ErrorBlockNotFound
				}
				return nil
			}
		} else {
			for h := 2; h <= 4; h++ {
				w.fr.Drop(c.FilterKey(h))
			}
		}
		p, o := pay("p", 1, 0, 1, true), pay("o", 2, 1, 1, false)
		w.start()
		w.watch(p)
		w.watch(o)
		for _, h := range order {
			if blocks {
				here[h] = true
				vs.Point()
			} else {
				w.fr.Put(c.FilterKey(h), c.Filters[h])
			}
		}
		w.settle()
		// something new wakes the scanner
		w.watch(pay("x", 3, 0, 99, false))
		w.settle()
		w.mu.Lock()
		g := count(w.got)
		bad := w.bad
		w.mu.Unlock()
		if bad != "" {
			vs.Fail("C12,C13", "malformed report: %s", bad)
		}
		top, missing := 0, []int{}
		one := 0
		for h := 1; h <= 4; h++ {
			for _, tx := range txs[h] {
				id := tx.TxHash().String()[:8]
				np, no := g[fmt.Sprintf("1@%d:%s", h, id)], g[fmt.Sprintf("2@%d:%s", h, id)]
				if np > 1 || no > 1 || h == 1 && np+no > 0 {
					vs.Fail("C12,C13", "surplus reports: %v", w.got)
				}
				if np == 0 && h > 1 {
					missing = append(missing, h)
				} else if np > 0 {
					top = h
				}
				if no > 0 {
					if one > 0 {
						vs.Fail("C12,C13", "the one-shot watch has several reports: %v", w.got)
					}
					one = h
				}
			}
		}
		if one == 0 {
			vs.Fail("C13", "the one-shot watch is never reported: %v; live: %v", w.got, vs.Live())
		}
		for _, h := range missing {
			if h > top {
				vs.Fail("C13", "block %d is never reported to the persistent watch: %v; live: %v", h, w.got, vs.Live())
			}
		}
		if len(missing) > 0 {
			vs.Fail("C13", "passed over, reported only above: persistent watch, blocks %v; available in the order %v", missing, order)
		}
		vs.Observe("%v one-shot at %d", missing, one)
	}
}

func lateScenarios() []*vs.Scenario {
	return []*vs.Scenario{
		{Name: "late-filters", Props: []string{"C13"}, Run: late(false), Desc: "the filters of stored headers arrive one by one in every order while the scanner works; schedules"},
		{Name: "late-blocks", Props: []string{"C13"}, Run: late(true), Desc: "the blocks become available one by one in every order while the scanner works; schedules"},
	}
}
