package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/vulpemventures/go-elements/block"
	"github.com/vulpemventures/neutrino-elements/vsharness/lib"

	"verif/vs"
)

// ask sends one getcfilters and compares the answer with the reference.
func ask(w *world, k *lib.Conn, typ byte, start uint32, stop [32]byte, where string) {
	before := len(k.Of("cfilter"))
	k.Deliver(lib.GetCFiltersMsg(typ, start, stop))
	settle(0)
	var want []string
	e := -1
	for i := range w.c.Hashes {
		if w.c.Hashes[i] == stop && i <= w.hr.Tip() {
			e = i
		}
	}
	if typ == 0 && e >= 0 && uint32(e) >= start && e-int(start) < 1000 {
		for i := int(start); i <= e; i++ {
			if f := w.fr.Get(w.c.FilterKey(i)); f != nil {
				want = append(want, fmt.Sprintf("%d:%x", i, f))
			}
		}
	}
	var got []string
	for _, p := range k.Of("cfilter")[before:] {
		r := &lib.R{B: p}
		if t := r.Take(1)[0]; t != 0 {
			vs.Fail("C08", "cfilter of type %d", t)
		}
		h := r.H32()
		n := int(r.CS())
		f := r.Take(n)
		if !r.End() {
			vs.Fail("C08", "malformed cfilter %x", p)
		}
		got = append(got, fmt.Sprintf("%d:%x", w.c.HeightOf(h), f))
	}
	if strings.Join(got, ",") != strings.Join(want, ",") {
		cut := func(l []string) string {
			if len(l) > 8 {
				return fmt.Sprint(len(l), " filters, ", l[:2], "...", l[len(l)-1:])
			}
			return fmt.Sprint(l)
		}
		vs.Fail("C08", "getcfilters type %d from %d to %s: got %s instead of %s", typ, start, where, cut(got), cut(want))
	}
	vs.Observe("%v", got)
}

func ranges() {
	c := chain(5)
	w := newWorld(c, 4)
	w.fr = nil
	w = newWorld(c, 4)
	k := w.conn(0)
	passive(k, 4)
	// which filters are there
	subset := vs.ChooseFree(32)
	for i := 0; i <= 4; i++ {
		if subset&(1<<uint(i)) == 0 {
			w.fr.Drop(c.FilterKey(i))
		}
	}
	w.startWith(0)
	vs.Quiesce()
	stops := []int{0, 1, 2, 3, 4, 5, -1}
	s := stops[vs.ChooseFree(len(stops))]
	h, where := [32]byte{9, 9}, "an unknown block"
	if s >= 0 {
		h, where = c.Hashes[s], fmt.Sprintf("block %d", s)
	}
	starts := []uint32{0, 1, 2, 3, 4, 5, 6, 1 << 31, ^uint32(0)}
	st := starts[vs.ChooseFree(len(starts))]
	typ := byte(0)
	if st < 3 {
		typ = []byte{0, 1, 255}[vs.ChooseFree(3)]
	}
	ask(w, k, typ, st, h, where)
	// the connection still works and a good request is served
	ask(w, k, 0, 1, c.Hashes[3], "block 3")
	w.clean("C08")
}

var (
	longChain *lib.Chain
)

func long() *lib.Chain {
	if longChain == nil {
		longChain = lib.NewChain(1003, nil, nil, 4)
	}
	return longChain
}

func limit() {
	c := long()
	w := newWorld(c, 1003)
	k := w.conn(0)
	passive(k, 1003)
	w.startWith(0)
	vs.Quiesce()
	p := [][2]int{{1, 1000}, {1, 1001}, {0, 1000}, {0, 999}, {3, 1002}, {2, 1002}, {4, 1003}, {3, 1003}}[vs.ChooseFree(8)]
	ask(w, k, 0, uint32(p[0]), c.Hashes[p[1]], fmt.Sprintf("block %d", p[1]))
	w.clean("C08")
}

// a request while filters arrive: what is answered is right
func whileStoring() {
	c := chain(5)
	w := newWorld(c, 4)
	for i := 2; i <= 4; i++ {
		w.fr.Drop(c.FilterKey(i))
	}
	k := w.conn(0)
	passive(k, 4)
	w.startWith(0)
	vs.Quiesce()
	for i := 4; i >= 2; i-- {
		k.Deliver(lib.CFilterMsg(0, c.Hashes[i], c.Filters[i]))
	}
	k.Deliver(lib.GetCFiltersMsg(0, 1, c.Hashes[4]))
	settle(0)
	last := 0
	for _, p := range k.Of("cfilter") {
		r := &lib.R{B: p}
		r.Take(1)
		h := c.HeightOf(r.H32())
		if h <= last {
			vs.Fail("C08", "filters out of order: %d after %d", h, last)
		}
		last = h
		if f := r.Take(int(r.CS())); string(f) != string(c.Filters[h]) {
			vs.Fail("C08", "wrong filter for height %d", h)
		}
	}
	ask(w, k, 0, 0, c.Hashes[4], "block 4")
}

func cfilters() []*vs.Scenario {
	return []*vs.Scenario{
		{Name: "cfilter-ranges", Props: list("C08"), MaxCost: 0, Run: ranges, Desc: "all stop blocks (known, unknown, not stored) x start heights x filter types x 32 subsets of stored filters on a five block chain, each followed by a good request"},
		{Name: "cfilter-limit", Props: list("C08"), MaxCost: 0, Run: limit, MaxSteps: 400000, Desc: "eight ranges around the limit of 1000 blocks on a chain of 1003"},
		{Name: "cfilter-storing", Props: list("C08"), Run: whileStoring, Desc: "a request while filters are being stored; schedules"},
	}
}

var _ = block.Header{}
var _ = time.Second
