package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/vulpemventures/neutrino-elements/vsharness/lib"

	"verif/vs"
)

// manyEvents: hundreds of events over hours to clients and web hooks, one of
// which reads only from time to time.
func manyEvents() {
	w := newWorld()
	slow := vs.ChooseFree(3)
	a, b, c := w.connect("A"), w.connect("B"), w.connect("C")
	a.send(reg("w"))
	b.send(reg("w"))
	c.send(reg("w2"))
	settle()
	if r := w.post(hookReg("w", "http://hook/1")).reply(); r != "ok" {
		vs.Fail("C21", "registration of a web hook was answered with %q", r)
	}
	settle()
	var want1, want2 []string
	n := 0
	burst := func(k int) {
		for i := 0; i < k; i++ {
			n++
			x := n
			if n%3 == 0 {
				x += 10000 // reported as spent
			} else if x >= 100 {
				x += 20000
			}
			w.sc.emit("w", x)
			want1 = append(want1, ev(x))
			if n%10 == 0 {
				w.sc.emit("w2", x)
				want2 = append(want2, ev(x))
			}
		}
	}
	for round := 0; round < 6; round++ {
		if slow == 1 && round == 2 {
			b.setStall(true)
		}
		burst(40)
		if slow == 2 { // pauses shorter than any time limit of the daemon
			b.setStall(true)
			settleFor(2 * time.Second)
			b.setStall(false)
		}
		settleFor(45 * time.Minute)
	}
	a.send(reg("w3"))
	settle()
	w.sc.emit("w3", 7)
	settleFor(time.Minute)
	want("C20,C22", "events of A", a.only("ev:"), append(append([]string{}, want1...), ev(7)))
	if slow != 1 {
		want("C20,C22", "events of B", b.only("ev:"), want1)
	}
	want("C20,C22", "events of C", c.only("ev:"), want2)
	wantSet("C20,C22", "events of the web hook", w.hk.of("http://hook/1"), want1)
	want("C21,C22", "replies to A", replies(a), []string{"ok", "ok"})
	a.odd("C22")
	b.odd("C22")
	c.odd("C22")
	if a.isClosed() || c.isClosed() || slow != 1 && b.isClosed() {
		vs.Fail("C22", "the connection of a client that reads was closed")
	}
}

// manyClients: dozens of clients and web hooks, some of which go away.
func manyClients() {
	w := newWorld()
	const n = 130
	settle()
	before := len(vs.Live())
	var cs []*wsClient
	for i := 0; i < n; i++ {
		c := w.connect(fmt.Sprint("c", i))
		c.send(reg(fmt.Sprint("w", i%4)))
		cs = append(cs, c)
	}
	settle()
	for i, c := range cs { // some have a second wallet
		if i%4 == 0 {
			c.send(reg(fmt.Sprint("x", i)))
		}
	}
	for i := 0; i < 20; i++ {
		if r := w.post(hookReg(fmt.Sprint("w", i%4), fmt.Sprint("http://hook/", i))).reply(); r != "ok" {
			vs.Fail("C21", "registration of web hook %d was answered with %q", i, r)
		}
	}
	settle()
	for k := 0; k < 4; k++ {
		w.sc.emit(fmt.Sprint("w", k), 1+k)
	}
	settleFor(time.Second)
	for i := 0; i < n; i += 4 {
		w.sc.emit(fmt.Sprint("x", i), 21)
	}
	settleFor(time.Second)
	for i, c := range cs {
		if i%5 == 2 {
			c.bye(i%2 == 0)
		}
		if i%5 == 3 {
			c.send(unreg)
		}
	}
	settleFor(time.Second)
	for i := 0; i < 20; i += 3 {
		if r := w.post(hookUnreg(fmt.Sprint("http://hook/", i))).reply(); r != "ok" {
			vs.Fail("C21", "un-registering web hook %d was answered with %q", i, r)
		}
	}
	for k := 0; k < 4; k++ {
		w.sc.emit(fmt.Sprint("w", k), 11+k)
	}
	settleFor(time.Second)
	for i, c := range cs {
		exp := evs(1 + i%4)
		rep := []string{"ok"}
		if i%4 == 0 {
			exp = append(exp, ev(21))
			rep = append(rep, "ok")
		}
		switch i % 5 {
		default:
			exp = append(exp, ev(11+i%4))
		case 2:
			if !c.isClosed() {
				vs.Fail("C22", "the connection of client %d, which went away, is still open", i)
			}
		case 3:
			rep = append(rep, "ok")
		}
		want("C20", fmt.Sprintf("events of client %d of %d", i, n), c.only("ev:"), exp)
		want("C21", fmt.Sprintf("replies to client %d of %d", i, n), replies(c), rep)
	}
	for i := 0; i < 20; i++ {
		exp := evs(1+i%4, 11+i%4)
		if i%3 == 0 {
			exp = exp[:1]
		}
		want("C20", fmt.Sprintf("events of web hook %d", i), w.hk.of(fmt.Sprint("http://hook/", i)), exp)
	}
	for _, c := range cs {
		c.bye(true)
	}
	settleFor(time.Minute)
	if l := vs.Live(); len(l) > before {
		vs.Fail("C22", "goroutines stay behind of %d clients that went away: %v", n, l)
	}
}

// manyRequests: hundreds of requests of one client, and of web hooks.
func manyRequests() {
	w := newWorld()
	a, b := w.connect("A"), w.connect("B")
	b.send(reg("w"))
	settle()
	var exp []string
	regs := 0
	for i := 0; i < 400; i++ {
		switch i % 5 {
		case 0, 1:
			a.send(reg(fmt.Sprint("x", i)))
			exp = append(exp, "ok")
			regs++
		case 2:
			a.send(`{"actionType":"dance"}`)
			exp = append(exp, "err")
		case 3:
			a.send(`{"actionType":`)
			exp = append(exp, "err")
		case 4:
			a.send(unreg)
			exp = append(exp, "ok")
		}
		if i%7 == 0 {
			w.sc.emit("w", 1+i)
		}
		if i%50 == 0 {
			settleFor(time.Minute)
		}
	}
	settleFor(time.Minute)
	want("C21", "replies to 400 requests", replies(a), exp)
	a.send(reg("last"))
	settle()
	w.sc.emit("last", 3)
	settle()
	want("C20,C21", "events of a client after 400 requests", a.only("ev:"), evs(3))
	if n := len(b.only("ev:")); n != 58 {
		vs.Fail("C20,C22", "another client got %d events instead of 58", n)
	}
}

// churn: clients come and go all the time, and leave nothing behind.
func churn() {
	w := newWorld()
	kind := vs.ChooseFree(11)
	stay := w.connect("stay")
	stay.send(reg("w"))
	if r := w.post(hookReg("w", "http://stay")).reply(); r != "ok" {
		vs.Fail("C21", "registration of a web hook was answered with %q", r)
	}
	settle()
	const n = 100
	visit := func(i int) {
		url := fmt.Sprint("http://hook/", i)
		if kind >= 8 {
			exp := []string{"ok", "ok"}
			switch kind {
			case 8:
				exp[0] = w.post(hookReg("w", url)).reply()
				w.sc.emit("w", 1)
				settle()
				exp[1] = w.post(hookUnreg(url)).reply()
			case 9: // two wallets, one endpoint
				exp[0] = w.post(hookReg("w", url)).reply()
				w.post(hookReg("v", url))
				settle()
				exp[1] = w.post(hookUnreg(url)).reply()
			case 10:
				w.post("{")
				w.post(hookUnreg(url))
				w.post(strings.Replace(hookReg("w", url), "unspentUtxo", "x", 1))
			}
			settle()
			if exp[0] != "ok" || exp[1] != "ok" {
				vs.Fail("C21", "registering and un-registering a web hook was answered with %v", exp)
			}
			return
		}
		c := w.connect(fmt.Sprint("c", i))
		switch kind {
		case 0, 1: // clean, abrupt
			c.send(reg("w"))
		case 2:
			c.send(reg("w"), reg("v"), unreg)
		case 3:
			c.send(reg("bad"))
		case 4:
			c.send("{", unreg)
		case 5: // nothing at all
		case 6:
			c.send(reg("w"), reg("v"), reg("w"))
		case 7: // in the middle of a burst of events it does not read
			c.send(reg("w"))
			settle()
			c.setStall(true)
			w.sc.emit("w", 1, 2, 3)
		}
		settle()
		if kind != 7 {
			w.sc.emit("w", 1)
		}
		if i%2 == 0 {
			settle()
		}
		c.bye(kind != 1 && kind != 7)
		settle()
		settleFor(time.Minute)
		if !c.isClosed() {
			vs.Fail("C22", "the connection of a client that went away is still open (kind %d)", kind)
		}
	}
	var sizes, live []int
	for r := 0; r < 3; r++ {
		for i := 0; i < n; i++ {
			visit(r*n + i)
		}
		settleFor(time.Minute)
		sizes = append(sizes, lib.Size(w.h, w.ns))
		live = append(live, len(vs.Live()))
	}
	if sizes[2]-sizes[1] >= n && sizes[1]-sizes[0] >= n {
		vs.Fail("C22", "something stays behind of every client that went away (kind %d): after %d, %d and %d clients the daemon holds %d, %d and %d entries", kind, n, 2*n, 3*n, sizes[0], sizes[1], sizes[2])
	}
	if live[2] > live[1] && live[1] > live[0] {
		vs.Fail("C22", "goroutines stay behind of clients that went away (kind %d): %v", kind, vs.Live())
	}
	a := stay.only("ev:")
	w.sc.emit("w", 99)
	settle()
	want("C20,C22", "events of a client that stays", stay.only("ev:"), append(a, ev(99)))
	if l := w.hk.of("http://stay"); len(l) != len(a)+1 {
		vs.Fail("C20,C22", "a web hook that stays got %d events instead of %d", len(l), len(a)+1)
	}
}

// burst: events without a pause to web hooks, some of which hang or fail.
func burst() {
	w := newWorld()
	n := []int{1, 3, 60}[vs.ChooseFree(3)]
	troubled := vs.ChooseFree(5) // none, hang, fail, both, refuse
	events := []int{2, 5, 400}[vs.ChooseFree(3)]
	if n == 60 && events == 400 {
		events = 25
	}
	url := func(i int) string { return fmt.Sprint("http://hook/", i) }
	bad := func(i int) bool { return troubled > 0 && i%3 == n/2%3 }
	c := w.connect("C")
	c.send(reg("w"))
	settle()
	for i := 0; i < n; i++ {
		if r := w.post(hookReg("w", url(i))).reply(); r != "ok" {
			vs.Fail("C21", "registration of web hook %d was answered with %q", i, r)
		}
		if bad(i) {
			w.hk.mu.Lock()
			if troubled == 4 {
				w.hk.code[url(i)] = []int{500, 404, 410, 302, 204}[i%5]
			} else if troubled&1 != 0 && i%2 == 0 || troubled == 1 {
				w.hk.hang[url(i)] = true
			} else {
				w.hk.fail[url(i)] = true
			}
			w.hk.mu.Unlock()
		}
	}
	settle()
	var ns []int
	for i := 1; i <= events; i++ {
		x := i
		if i%3 == 0 {
			x += 10000
		}
		ns = append(ns, x)
	}
	w.sc.emit("w", ns...)
	settleFor(time.Minute)
	if troubled > 0 { // and once more next to those that hang
		w.sc.emit("w", 70, 71)
		ns = append(ns, 70, 71)
		settleFor(time.Minute)
	}
	for i := 0; i < n; i++ {
		if !bad(i) || troubled == 4 {
			wantSet("C20,C22", fmt.Sprintf("events of web hook %d of %d, next to others which hang or fail (%d)", i, n, troubled), w.hk.of(url(i)), evs(ns...))
		}
	}
	want("C20,C22", "events of a client next to web hooks", c.only("ev:"), evs(ns...))
	// the trouble is over
	w.hk.mu.Lock()
	w.hk.hang, w.hk.fail, w.hk.code = map[string]bool{}, map[string]bool{}, map[string]int{}
	before := map[string]int{}
	for u, l := range w.hk.got {
		before[u] = len(l)
	}
	w.hk.mu.Unlock()
	w.sc.emit("w", 80, 181)
	settleFor(time.Minute)
	for i := 0; i < n; i++ {
		wantSet("C20,C22", fmt.Sprintf("events of web hook %d of %d after its trouble (%d) is over", i, n, troubled), w.hk.of(url(i))[before[url(i)]:], evs(80, 181))
	}
}

func scale() []*vs.Scenario {
	const steps = 4000000
	return []*vs.Scenario{
		{Name: "many-events", Props: []string{"C20", "C22"}, Run: manyEvents, MaxCost: -1, MaxSteps: steps, Horizon: 48 * time.Hour, Desc: "240 events over hours to three clients and a web hook, one client slow or stalled"},
		{Name: "churn", Props: []string{"C22", "C21"}, Run: churn, MaxCost: -1, MaxSteps: steps, Horizon: 48 * time.Hour, Desc: "three hundred clients or web hooks, one after another, in eleven ways: the daemon holds no more afterwards"},
		{Name: "burst", Props: []string{"C20", "C22"}, Run: burst, MaxCost: -1, MaxSteps: steps, Horizon: 48 * time.Hour, Desc: "up to 400 events in one go to up to sixty web hooks, a third of which hang, fail or refuse, and two events after they have recovered"},
		{Name: "many-clients", Props: []string{"C20", "C21", "C22"}, Run: manyClients, MaxCost: -1, MaxSteps: steps, Horizon: 48 * time.Hour, Desc: "130 clients and twenty web hooks on four wallets, some go away or unregister"},
		{Name: "many-requests", Props: []string{"C21", "C20"}, Run: manyRequests, MaxCost: -1, MaxSteps: steps, Horizon: 48 * time.Hour, Desc: "400 requests of five kinds on one connection, events to another"},
	}
}
