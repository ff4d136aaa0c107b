package main

import (
	"context"
	"errors"
	"fmt"
	"sync"
	"time"

	"github.com/vulpemventures/go-elements/block"
	"github.com/vulpemventures/neutrino-elements/vsharness/lib"

	"verif/vs"
)

// guard watches every write to the header store.
type guard struct {
	mu      sync.Mutex
	w       *world
	stored  map[uint32]string
	top     int
	offered map[string]bool
	never   map[string]string // headers that must not be stored, and why
}

func key(h *block.Header) string {
	x, err := h.Hash()
	if err != nil {
		panic(err)
	}
	return x.String()
}

func newGuard(w *world, tip int) *guard {
	g := &guard{w: w, stored: map[uint32]string{}, top: tip, offered: map[string]bool{}, never: map[string]string{}}
	for i := 0; i <= tip; i++ {
		g.stored[uint32(i)] = w.c.Hashes[i].String()
	}
	return g
}

func (g *guard) offer(hs ...*block.Header) {
	g.mu.Lock()
	defer g.mu.Unlock()
	for _, h := range hs {
		g.offered[key(h)] = true
	}
}

func (g *guard) refuse(why string, hs ...*block.Header) {
	g.mu.Lock()
	defer g.mu.Unlock()
	for _, h := range hs {
		g.never[key(h)] = why
	}
}

// wrote checks the headers in the order they were written.
func (g *guard) check() {
	g.mu.Lock()
	defer g.mu.Unlock()
	top := g.top
	has := map[uint32]bool{}
	for h := range g.stored {
		has[h] = true
	}
	for _, h := range g.w.hr.Written() {
		x := h
		k := key(&x)
		if !g.offered[k] {
			vs.Fail("C05", "stored a header of height %d no peer sent", h.Height)
		}
		if why := g.never[k]; why != "" {
			vs.Fail("C05", "stored the header of height %d of %s", h.Height, why)
		}
		if int(h.Height) > top+1 && !(top < 0 && h.Height <= 1) {
			vs.Fail("C05", "stored the header of height %d while the tip is %d: a gap", h.Height, top)
		}
		has[h.Height] = true
		if int(h.Height) > top {
			top = int(h.Height)
		}
	}
	for h := 1; h <= top; h++ {
		if !has[uint32(h)] {
			vs.Fail("C05", "the tip is %d but no header of height %d is stored", top, h)
		}
	}
	tip, err := g.w.hr.ChainTip(context.Background())
	if top >= 0 && (err != nil || int(tip.Height) != top) {
		vs.Fail("C05", "tip is %v, %v instead of %d", tip, err, top)
	}
}

type step struct {
	name string
	send func(g *guard) []byte
}

func steps(c *lib.Chain) []step {
	hs := func(from, to int) (o []*block.Header) {
		for i := from; i <= to; i++ {
			o = append(o, c.Blocks[i].Header)
		}
		return
	}
	batch := func(from, to int) step {
		return step{fmt.Sprintf("headers %d-%d", from, to), func(g *guard) []byte {
			g.offer(hs(from, to)...)
			return lib.HeadersMsg(hs(from, to)...)
		}}
	}
	bad := func(name string, pick ...int) step {
		return step{name, func(g *guard) []byte {
			f := fork(c, 0, 8, byte(100+len(name)))
			var o []*block.Header
			for _, i := range pick {
				o = append(o, f[i-1])
			}
			g.offer(o...)
			g.refuse(name, o...)
			return lib.HeadersMsg(o...)
		}}
	}
	blk := func(i int) step {
		return step{fmt.Sprintf("block %d", i), func(g *guard) []byte {
			g.offer(c.Blocks[i].Header)
			return lib.BlockMsg(c.Blocks[i])
		}}
	}
	return []step{
		batch(1, 2), batch(2, 4), batch(3, 3), batch(4, 6), batch(6, 7), batch(1, 1),
		bad("a batch with a gap", 1, 2, 4), bad("a batch that goes back", 3, 2), bad("a batch with a repetition", 3, 3, 4), bad("a batch with a gap at the start", 1, 3, 4),
		{"no headers", func(g *guard) []byte { return lib.HeadersMsg() }},
		blk(1), blk(3), blk(4), blk(7),
		{"fork 2-5", func(g *guard) []byte {
			f := fork(c, 1, 5, 66)
			g.offer(f...)
			return lib.HeadersMsg(f...)
		}},
	}
}

func announce(tips []int, n int, alpha []int, settleBetween bool, faults int, peers int) func() {
	return func() {
		c := chain(8)
		tip := tips[vs.ChooseFree(len(tips))]
		w := newWorld(c, tip)
		g := newGuard(w, tip)
		left := faults
		var mu sync.Mutex
		if faults > 0 {
			w.hr.OnWrite = func([]block.Header) error {
				mu.Lock()
				defer mu.Unlock()
				if left > 0 && vs.Choose(2) == 1 {
					left--
					return errors.New("injected")
				}
				return nil
			}
		}
		var cs []*lib.Conn
		for i := 0; i < peers; i++ {
			k := w.conn(i)
			passive(k, 8)
			cs = append(cs, k)
		}
		w.startWith(0)
		for i := 1; i < peers; i++ {
			if err := w.add(i); err != nil {
				vs.Fail("C05", "AddOutboundPeer: %v", err)
			}
		}
		vs.Quiesce()
		st := steps(c)
		var names []string
		for k := 0; k < n; k++ {
			x := vs.ChooseFree(len(alpha))
			s := st[alpha[x]]
			names = append(names, s.name)
			cs[k%peers].Deliver(s.send(g))
			if settleBetween {
				vs.Quiesce()
			}
		}
		settle(3 * time.Second)
		vs.Tracef("%v", names)
		g.check()
		w.clean("C05")
		vs.Observe("%v %d", names, w.hr.Tip())
	}
}

func headers() []*vs.Scenario {
	var all []int
	for i := 0; i < 16; i++ {
		all = append(all, i)
	}
	some := []int{0, 1, 3, 6, 12, 13, 15}
	return []*vs.Scenario{
		{Name: "headers-3", Props: list("C05"), MaxCost: 1, Weight: 2, Run: announce([]int{0, -1, 3}, 3, all, true, 0, 1), Desc: "all sequences of three over 16 header batches and blocks (in order, overlapping, stale, ahead, gaps, forks) x 3 initial tips; schedules"},
		{Name: "headers-burst", Props: list("C05"), Weight: 2, Run: announce([]int{0}, 3, some, false, 0, 1), Desc: "bursts of three of 7 announcements; schedules of reader and writer"},
		{Name: "headers-4", Props: list("C05"), Thorough: true, MaxCost: 0, Weight: 3, Run: announce([]int{0, -1}, 4, all, true, 0, 1), Desc: "all sequences of four over 16 announcements"},
		{Name: "headers-faults", Props: list("C05"), Run: announce([]int{0, -1}, 3, []int{0, 1, 3, 12, 13}, true, 2, 1), Desc: "sequences of three announcements while up to two writes to the store fail; schedules"},
		{Name: "headers-two-peers", Props: list("C05", "C27"), Race: true, Run: announce([]int{0}, 4, []int{0, 1, 15, 13}, false, 0, 2), Desc: "two peers announce concurrently, one of them a fork; schedules"},
	}
}
