package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/vulpemventures/neutrino-elements/vsharness/lib"

	"verif/vs"
)

func init() { lib.Quiet() }

func replies(c *wsClient) []string {
	var out []string
	for _, g := range c.got() {
		if !strings.HasPrefix(g, "ev:") {
			out = append(out, g)
		}
	}
	return out
}

// routing: two clients, two wallets, a sequence of events.
func routing() {
	w := newWorld()
	a, b := w.connect("A"), w.connect("B")
	a.send(reg("wA"))
	b.send(reg("wB"))
	settle()
	w.sc.emit("wA", 1)
	w.sc.emit("wB", 2)
	w.sc.emit("wA", 3)
	w.sc.emit("wB", 104)
	settle()
	want("C20", "events of A", a.only("ev:"), evs(1, 3))
	want("C20", "events of B", b.only("ev:"), evs(2, 104))
	want("C21", "replies to A", replies(a), []string{"ok"})
	want("C21", "replies to B", replies(b), []string{"ok"})
}

// sameWallet: two clients and a web hook watch one wallet.
func sameWallet() {
	w := newWorld()
	a, b := w.connect("A"), w.connect("B")
	a.send(reg("w"))
	b.send(reg("w"))
	done := make(chan string, 1)
	go func() { done <- w.post(hookReg("w", "http://hook/1")).reply() }()
	if r := <-done; r != "ok" {
		vs.Fail("C21", "the registration of a web hook was answered with %q", r)
	}
	settle()
	w.sc.emit("w", 1)
	settle()
	want("C20", "events of A", a.only("ev:"), evs(1))
	want("C20", "events of B", b.only("ev:"), evs(1))
	want("C20", "events of the web hook", w.hk.of("http://hook/1"), evs(1))
}

// atOnce: the wallets have events the moment they are watched.
func atOnce() {
	w := newWorld()
	w.sc.now["wA"], w.sc.now["wB"] = 1, 2
	a, b := w.connect("A"), w.connect("B")
	a.send(reg("wA"))
	b.send(reg("wB"))
	settle()
	want("C20", "events of A", a.only("ev:"), evs(1))
	want("C20", "events of B", b.only("ev:"), evs(2))
	want("C21", "replies to A", replies(a), []string{"ok"})
	want("C21", "replies to B", replies(b), []string{"ok"})
}

// hookAtOnce: the same for web hooks.
func hookAtOnce() {
	w := newWorld()
	w.sc.now["wA"], w.sc.now["wB"] = 1, 2
	go w.post(hookReg("wA", "http://hook/1"))
	go w.post(hookReg("wB", "http://hook/2"))
	settle()
	want("C20", "events of web hook 1", w.hk.of("http://hook/1"), evs(1))
	want("C20", "events of web hook 2", w.hk.of("http://hook/2"), evs(2))
}

// twoWallets: one client with several registrations, sent without waiting.
func twoWallets() {
	w := newWorld()
	w.sc.now["wB"] = 5
	a := w.connect("A")
	a.send(reg("wA"), reg("wB"), reg("wC"))
	settle()
	w.sc.emit("wA", 1)
	w.sc.emit("wC", 2)
	w.sc.emit("wB", 3)
	settle()
	want("C20", "events of A", a.only("ev:"), evs(5, 1, 2, 3))
	want("C21", "replies to A", replies(a), []string{"ok", "ok", "ok"})
}

// badDescriptor: a registration that cannot be watched, between good ones.
func badDescriptor() {
	w := newWorld()
	a, b, c := w.connect("A"), w.connect("B"), w.connect("C")
	a.send(reg("wA"))
	c.send(reg("bad"))
	b.send(reg("wB"))
	settle()
	w.sc.emit("wA", 1)
	w.sc.emit("wB", 2)
	settle()
	want("C20", "events of A", a.only("ev:"), evs(1))
	want("C20", "events of B", b.only("ev:"), evs(2))
	want("C21", "replies to A", replies(a), []string{"ok"})
	want("C21", "replies to B", replies(b), []string{"ok"})
	if len(c.only("err")) != 1 {
		vs.Fail("C21", "a descriptor that cannot be watched: the client was told %v", c.got())
	}
	// everybody can go on
	c.send(reg("wC"))
	settle()
	w.sc.emit("wC", 3)
	w.sc.emit("wA", 4)
	settle()
	want("C20", "events of C after a failed registration", c.only("ev:"), evs(3))
	want("C20", "events of A after another's failed registration", a.only("ev:"), evs(1, 4))
}

// badHook: the same for a web hook, which is told by a message to it.
func badHook() {
	w := newWorld()
	a := w.connect("A")
	a.send(reg("wA"))
	go w.post(hookReg("bad", "http://hook/1"))
	settle()
	w.sc.emit("wA", 1)
	go w.post(hookReg("wB", "http://hook/2"))
	settle()
	w.sc.emit("wB", 2)
	settle()
	want("C20", "events of A", a.only("ev:"), evs(1))
	want("C20", "events of web hook 2", w.hk.of("http://hook/2"), evs(2))
	want("C21", "what the web hook with the bad descriptor was told", w.hk.of("http://hook/1"), []string{"err"})
}

// unregister ends the events of one client only, and it can come back.
func unregister() {
	w := newWorld()
	a, b := w.connect("A"), w.connect("B")
	a.send(reg("w"), reg("w2"))
	b.send(reg("w"))
	settle()
	w.sc.emit("w", 1)
	settle()
	a.send(unreg)
	settle()
	w.sc.emit("w", 2)
	w.sc.emit("w2", 3)
	settle()
	want("C20", "events of A, which unregistered", a.only("ev:"), evs(1))
	want("C20", "events of B", b.only("ev:"), evs(1, 2))
	a.send(unreg)
	settle()
	want("C21", "replies to A", replies(a), []string{"ok", "ok", "ok", "err"})
	a.send(reg("w"))
	settle()
	w.sc.emit("w", 4)
	settle()
	want("C20", "events of A, which registered again", a.only("ev:"), evs(1, 4))
	want("C20", "events of B", b.only("ev:"), evs(1, 2, 4))
}

// unregisterRace: events while a client unregisters.
func unregisterRace() {
	w := newWorld()
	a, b := w.connect("A"), w.connect("B")
	a.send(reg("w"))
	b.send(reg("w"))
	settle()
	w.sc.emit("w", 1, 2)
	a.send(unreg)
	settle()
	w.sc.emit("w", 3)
	settle()
	want("C20", "events of B", b.only("ev:"), evs(1, 2, 3))
	want("C21", "replies to A", replies(a), []string{"ok", "ok"})
	got := a.only("ev:")
	for i, g := range got {
		if i > 1 || g != ev(i+1) {
			vs.Fail("C20", "events of A, which unregistered while events 1 and 2 came and before event 3: %v", short(got))
		}
	}
}

// disconnectRace: a client goes away while events come.
func disconnectRace() {
	w := newWorld()
	a, b := w.connect("A"), w.connect("B")
	a.send(reg("w"))
	b.send(reg("w"))
	settle()
	clean := vs.ChooseFree(2) == 1
	w.sc.emit("w", 1, 2)
	a.bye(clean)
	settle()
	w.sc.emit("w", 3)
	d := w.connect("D")
	d.send(reg("wD"))
	settle()
	w.sc.emit("wD", 4)
	w.sc.emit("w", 5)
	settle()
	want("C20", "events of B while A went away", b.only("ev:"), evs(1, 2, 3, 5))
	want("C20", "events of D after A went away", d.only("ev:"), evs(4))
	want("C21", "replies to D", replies(d), []string{"ok"})
	if !a.isClosed() {
		vs.Fail("C22", "the connection of a client that went away is still open")
	}
}

// webhooks: registrations by HTTP next to web-socket ones.
func webhooks() {
	w := newWorld()
	a := w.connect("A")
	a.send(reg("w"))
	r1 := make(chan string, 2)
	go func() { r1 <- w.post(hookReg("w", "http://hook/1")).reply() }()
	go func() { r1 <- w.post(hookReg("w", "http://hook/2")).reply() }()
	if x, y := <-r1, <-r1; x != "ok" || y != "ok" {
		vs.Fail("C21", "registrations of web hooks were answered with %q and %q", x, y)
	}
	settle()
	w.sc.emit("w", 1)
	settle()
	if r := w.post(hookUnreg("http://hook/1")).reply(); r != "ok" {
		vs.Fail("C21", "un-registering a web hook was answered with %q", r)
	}
	w.sc.emit("w", 102)
	settle()
	want("C20", "events of web hook 1, which was unregistered", w.hk.of("http://hook/1"), evs(1))
	wantSet("C20", "events of web hook 2", w.hk.of("http://hook/2"), evs(1, 102))
	want("C20", "events of A", a.only("ev:"), evs(1, 102))
	if r := w.post(hookUnreg("http://hook/1")).reply(); r != "err" {
		vs.Fail("C21", "un-registering a web hook again was answered with %q", r)
	}
}

// similarHooks: web hooks and clients whose names resemble each other are
// nevertheless different ones.
func similarHooks() {
	w := newWorld()
	urls := []string{"http://hook/1", "http://hook/12", "http://hook/1/", "http://hook/1?a=1", "http://hook/1?a=2", "http://hook/A", "http://hook/a", "http://hook.example/1", "https://hook/1", "http://hook:81/1", "http://x@hook/1"}
	for i, u := range urls {
		if r := w.post(hookReg("w", u)).reply(); r != "ok" {
			vs.Fail("C21", "the registration of %s was answered with %q", u, r)
		}
		settle()
		_ = i
	}
	i := vs.ChooseFree(len(urls))
	w.sc.emit("w", 1)
	settle()
	if r := w.post(hookUnreg(urls[i])).reply(); r != "ok" {
		vs.Fail("C21", "un-registering %s was answered with %q", urls[i], r)
	}
	settle()
	w.sc.emit("w", 102)
	settle()
	for j, u := range urls {
		exp := evs(1, 102)
		if j == i {
			exp = evs(1)
		}
		wantSet("C20", "events of web hook "+u+" after "+urls[i]+" was unregistered", w.hk.of(u), exp)
	}
	if r := w.post(hookUnreg("http://hook/")).reply(); r != "err" {
		vs.Fail("C21", "un-registering a web hook which never registered was answered with %q", r)
	}
}

// stalledRegister: others register while a client does not read its events.
func stalledRegister() {
	w := newWorld()
	s, b, c := w.connect("S"), w.connect("B"), w.connect("C")
	s.send(reg("w"))
	settle()
	s.setStall(true)
	how := vs.ChooseFree(3)
	w.sc.emit("w", 1)
	if how == 2 { // stalled itself with something to be told
		s.send(reg("bad"))
	}
	settle()
	if how > 0 {
		b.send(reg("bad"), reg("bad2"))
		settle()
	}
	c.send(reg("v"), reg("u"))
	if vs.ChooseFree(2) == 1 {
		if r := w.post(hookReg("v", "http://hook/1")).reply(); r != "ok" {
			vs.Fail("C21", "registration of a web hook next to a stalled client was answered with %q", r)
		}
		settle()
	}
	settleFor(2 * time.Minute)
	w.sc.emit("v", 2)
	w.sc.emit("u", 103)
	settleFor(time.Minute)
	want("C20,C22", "events of a client that registered while another did not read", c.only("ev:"), evs(2, 103))
	want("C21,C22", "replies to a client that registered while another did not read", replies(c), []string{"ok", "ok"})
	for _, l := range [][]string{w.hk.of("http://hook/1")} {
		if len(l) > 0 {
			want("C20,C22", "events of a web hook that registered while a client did not read", l, evs(2))
		}
	}
	if how > 0 {
		n := 0
		for _, r := range replies(b) {
			if r == "err" {
				n++
			}
		}
		if n != 2 {
			vs.Fail("C21", "a client whose two wallets cannot be watched got %v", replies(b))
		}
	}
}

// hookBurst: events in one go to two web hooks.
func hookBurst() {
	w := newWorld()
	urls := []string{"http://hook/1", "http://hook/2"}
	for i, u := range urls {
		if r := w.post(hookReg([]string{"w", "v"}[i], u)).reply(); r != "ok" {
			vs.Fail("C21", "registration of a web hook was answered with %q", r)
		}
	}
	settle()
	w.sc.emit("w", 1, 102)
	w.sc.emit("v", 3)
	w.sc.emit("w", 4)
	settle()
	wantSet("C20", "events in one go to a web hook", w.hk.of(urls[0]), evs(1, 102, 4))
	wantSet("C20", "events in one go to another web hook", w.hk.of(urls[1]), evs(3))
}

// hookWallets: one web hook with several wallets ends as a whole.
func hookWallets() {
	w := newWorld()
	n := 1 + vs.ChooseFree(4)
	const x, y = "http://hook/x", "http://hook/y"
	wallets := []string{"w", "v", "u", "t"}[:n]
	other := vs.ChooseFree(2) == 1
	if other {
		if r := w.post(hookReg("w", y)).reply(); r != "ok" {
			vs.Fail("C21", "registration of a web hook was answered with %q", r)
		}
	}
	regAll := func() {
		for _, d := range wallets {
			if r := w.post(hookReg(d, x)).reply(); r != "ok" {
				vs.Fail("C21", "registration of a web hook for %d wallets was answered with %q", n, r)
			}
		}
		settle()
	}
	regAll()
	var exp []string
	emit := func(k int, to bool) {
		for i, d := range wallets {
			w.sc.emit(d, k+i)
			if to {
				exp = append(exp, ev(k+i))
			}
		}
		settle()
		wantSet("C20,C21", fmt.Sprintf("events of a web hook with %d wallets, registered: %v", n, to), w.hk.of(x), exp)
	}
	emit(1, true)
	if r := w.post(hookUnreg(x)).reply(); r != "ok" {
		vs.Fail("C21", "un-registering a web hook with %d wallets was answered with %q", n, r)
	}
	settle()
	emit(11, false)
	if r := w.post(hookUnreg(x)).reply(); r != "err" {
		vs.Fail("C21", "un-registering a web hook (of %d wallets) twice was answered with %q", n, r)
	}
	emit(21, false)
	if other {
		wantSet("C20", "events of another web hook", w.hk.of(y), evs(1, 11, 21))
	}
	if vs.ChooseFree(2) == 1 {
		wallets = wallets[n-1:]
	}
	// once more
	regAll()
	k := len(exp)
	for i, d := range wallets {
		w.sc.emit(d, 31+i)
		exp = append(exp, ev(31+i))
	}
	settle()
	if l := w.hk.of(x); len(l) > len(exp) {
		// what was watched before may be reported again only if it is registered again
		vs.Fail("C20", "a web hook registered again for %v got %v", wallets, short(l[k:]))
	}
	wantSet("C20", "events of a web hook registered again", w.hk.of(x), exp)
}

// repliesUnderEvents: requests of a client while events are written to it.
func repliesUnderEvents() {
	w := newWorld()
	a := w.connect("A")
	a.send(reg("w"))
	settle()
	w.sc.emit("w", 1, 2)
	a.send(reg("w2"), `{"actionType":"dance"}`, `{`)
	settle()
	a.odd("C22")
	want("C21", "replies to A", replies(a), []string{"ok", "ok", "err", "err"})
	want("C20", "events of A", a.only("ev:"), evs(1, 2))
	if a.isClosed() {
		vs.Fail("C22", "the connection of a client was closed")
	}
}

// stalled: a client that does not read.
func stalled() {
	w := newWorld()
	a, b := w.connect("A"), w.connect("B")
	b.send(reg("w"))
	how := vs.ChooseFree(3)
	if how == 0 {
		a.setStall(true) // it never sees the reply
	}
	a.send(reg("w"))
	settle()
	switch how {
	case 1:
		a.setStall(true)
	case 2:
		a.mu.Lock()
		a.broken = true // its machine is gone, the connection is half open
		a.mu.Unlock()
	}
	w.sc.emit("w", 1, 2, 3)
	settleFor(2 * time.Minute)
	want("C22", "events of B next to a client that does not read", b.only("ev:"), evs(1, 2, 3))
	b.send(reg("w2"))
	settleFor(2 * time.Minute)
	w.sc.emit("w2", 4)
	settleFor(2 * time.Minute)
	want("C22", "events of B after registering again", b.only("ev:"), evs(1, 2, 3, 4))
	want("C22", "replies to B next to a client that does not read", replies(b), []string{"ok", "ok"})
	if r := w.post(hookReg("w", "http://hook/1")).reply(); r != "ok" {
		vs.Fail("C22", "registration of a web hook next to a client that does not read: %q", r)
	}
	settle()
	w.sc.emit("w", 5)
	settleFor(2 * time.Minute)
	want("C22", "events of the web hook", w.hk.of("http://hook/1"), evs(5))
}

// slowHooks: web hooks that hang or fail.
func slowHooks() {
	w := newWorld()
	a := w.connect("A")
	a.send(reg("w"))
	w.hk.hang["http://hook/1"] = true
	w.hk.fail["http://hook/2"] = true
	for i := 1; i <= 3; i++ {
		if r := w.post(hookReg("w", fmt.Sprintf("http://hook/%d", i))).reply(); r != "ok" {
			vs.Fail("C21", "registration of a web hook was answered with %q", r)
		}
	}
	settle()
	if r := w.post(hookReg("bad", "http://hook/1")).reply(); r != "ok" {
		vs.Fail("C21", "registration of a web hook was answered with %q", r)
	}
	settle()
	w.sc.emit("w", 1, 2)
	settleFor(time.Second)
	want("C22", "events of A next to web hooks that hang", a.only("ev:"), evs(1, 2))
	wantSet("C22", "events of web hook 3 next to ones that hang", w.hk.of("http://hook/3"), evs(1, 2))
	if r := w.post(hookUnreg("http://hook/1")).reply(); r != "ok" {
		vs.Fail("C22", "un-registering a web hook that hangs was answered with %q", r)
	}
}

// leaks: nothing stays behind of a client that is gone.
func leaks() {
	w := newWorld()
	settle()
	before := len(vs.Live())
	a := w.connect("A")
	switch vs.ChooseFree(3) {
	case 0:
		a.send(reg("w"))
	case 1:
		a.send(reg("bad"))
	case 2:
		a.send("{", reg("w"), unreg)
	}
	settle()
	clean := vs.ChooseFree(2) == 1
	w.sc.emit("w", 1)
	a.bye(clean)
	settleFor(time.Minute)
	w.sc.emit("w", 2)
	settleFor(time.Minute)
	if l := vs.Live(); len(l) > before {
		vs.Fail("C22", "goroutines stay behind of a client that went away: %v", l)
	}
	if !a.isClosed() {
		vs.Fail("C22", "the connection of a client that went away is still open")
	}
}

// stopping: the services are stopped at any time.
func stopping() {
	w := newWorld()
	a := w.connect("A")
	how := vs.ChooseFree(4)
	a.send(reg("w"))
	settle()
	if how == 1 {
		a.setStall(true)
	}
	w.sc.emit("w", 1, 2)
	switch how {
	case 2:
		a.send(reg("bad"), reg("w2"), unreg)
	case 3:
		go w.post(hookReg("w", "http://hook/1"))
	}
	ret := make(chan struct{})
	go func() {
		w.h.Stop()
		w.sc.Stop()
		close(ret)
	}()
	select {
	case <-ret:
	case <-time.After(2 * time.Minute):
		vs.Fail("C23", "stopping did not end within two minutes")
	}
	// the web-socket connections are the clients'
	a.bye(false)
	settleFor(2 * time.Minute)
	if l := vs.Live(); len(l) > 0 {
		vs.Fail("C23", "goroutines are left after stopping: %v", l)
	}
}

// stopTwice: both services can be stopped by several owners, and what comes
// after does not hang.
func stopTwice() {
	w := newWorld()
	a := w.connect("A")
	a.send(reg("w"))
	ret := make(chan struct{}, 3)
	go func() { w.h.Stop(); ret <- struct{}{} }()
	go func() { w.ns.Stop(); ret <- struct{}{} }()
	go func() { w.h.Stop(); ret <- struct{}{} }()
	for i := 0; i < 3; i++ {
		select {
		case <-ret:
		case <-time.After(2 * time.Minute):
			vs.Fail("C23", "stopping did not end within two minutes")
		}
	}
	late := make(chan struct{}, 2)
	go func() { w.post(hookReg("w", "http://hook/1")); late <- struct{}{} }()
	go func() { w.post(hookUnreg("http://hook/1")); late <- struct{}{} }()
	b := w.connect("B")
	b.send(reg("w"))
	w.sc.emit("w", 1)
	for i := 0; i < 2; i++ {
		select {
		case <-late:
		case <-time.After(2 * time.Minute):
			vs.Fail("C23", "a request after stopping hangs")
		}
	}
	w.sc.Stop()
	a.bye(true)
	b.bye(true)
	settleFor(2 * time.Minute)
	if l := vs.Live(); len(l) > 0 {
		vs.Fail("C23", "goroutines are left after stopping: %v", l)
	}
}

// failingStart: a service that cannot start leaves nothing behind.
func failingStart() {
	f := newFake()
	f.noStart = true
	ns := newService(f)
	if err := ns.Start(); err == nil {
		vs.Fail("C23", "a service whose scanner does not start reports success")
	}
	settle()
	if l := vs.Live(); len(l) > 0 {
		vs.Fail("C23", "goroutines are left of a service that did not start: %v", l)
	}
}

func main() {
	vs.Main(append([]*vs.Scenario{
		{Name: "routing", Props: []string{"C20", "C21", "C27"}, Race: true, Run: routing, Desc: "two web-socket clients with a wallet each and four events; all schedules"},
		{Name: "same-wallet", Props: []string{"C20"}, Run: sameWallet, Desc: "two web-socket clients and a web hook on one wallet; all schedules"},
		{Name: "at-once", Props: []string{"C20", "C21"}, Run: atOnce, Desc: "wallets with an event the moment they are watched; all schedules"},
		{Name: "hook-at-once", Props: []string{"C20"}, Run: hookAtOnce, Desc: "the same with web hooks"},
		{Name: "two-wallets", Props: []string{"C20", "C21"}, Run: twoWallets, Desc: "one client with three registrations sent in one go"},
		{Name: "bad-descriptor", Props: []string{"C20", "C21"}, Run: badDescriptor, Desc: "a registration with a descriptor which cannot be watched between good ones"},
		{Name: "bad-hook", Props: []string{"C20", "C21"}, Run: badHook, Desc: "the same with web hooks"},
		{Name: "unregister", Props: []string{"C20", "C21"}, Run: unregister, Desc: "one of two clients on a wallet unregisters, and registers again"},
		{Name: "unregister-race", Props: []string{"C20", "C21", "C27"}, Race: true, Run: unregisterRace, Desc: "events while one of two clients unregisters"},
		{Name: "disconnect-race", Props: []string{"C20", "C22", "C27"}, Race: true, Run: disconnectRace, Desc: "events while one of two clients disconnects, with and without a close frame"},
		{Name: "similar-hooks", Props: []string{"C20", "C21"}, MaxCost: -1, Run: similarHooks, Desc: "eleven web hooks whose addresses resemble each other, each one is unregistered once"},
		{Name: "stalled-register", Props: []string{"C20", "C22", "C21"}, MaxCost: 1, Run: stalledRegister, Desc: "clients and a web hook register, some for what cannot be watched, while another client does not read its events; schedules"},
		{Name: "hook-burst", Props: []string{"C20", "C27"}, Race: true, Run: hookBurst, Desc: "four events in one go to two web hooks; schedules"},
		{Name: "hook-wallets", Props: []string{"C20", "C21"}, MaxCost: 2, Run: hookWallets, Desc: "a web hook with one to four wallets next to another one: registered, unregistered twice, registered again; map order and schedules"},
		{Name: "webhooks", Props: []string{"C20", "C21"}, Run: webhooks, Desc: "two web hooks and a client on one wallet, one hook is unregistered"},
		{Name: "ops", Props: []string{"C20"}, Run: opsRun, Preempt: true, MaxCost: 1, Desc: "all sequences of subscriptions, cancellations and events of two subscribers up to depth 4 on the notification service against a reference model"},
		{Name: "requests-ws", Props: []string{"C21"}, Enum: requestsWs, Desc: "all pairs (thorough: triples) of web-socket requests from the list of well-formed and malformed ones: exactly one reply each, of the right kind, and the effect it tells"},
		{Name: "requests-http", Props: []string{"C21"}, Enum: requestsHTTP, Desc: "the same for HTTP"},
		{Name: "replies-under-events", Props: []string{"C21", "C22", "C27"}, Race: true, Run: repliesUnderEvents, Desc: "requests of a client while events are written to it"},
		{Name: "stalled", Props: []string{"C22"}, Run: stalled, Desc: "a client which stops reading at different moments, or whose connection is half open, next to a healthy one"},
		{Name: "slow-hooks", Props: []string{"C22"}, Run: slowHooks, Desc: "web hooks which hang or fail next to healthy clients"},
		{Name: "leaks", Props: []string{"C22"}, Run: leaks, Desc: "clients which go away in different states leave nothing behind"},
		{Name: "stopping", Props: []string{"C23"}, Run: stopping, Desc: "the services are stopped while requests and events are on their way"},
		{Name: "stop-twice", Props: []string{"C23", "C27"}, Race: true, Run: stopTwice, Desc: "concurrent stops, and requests and events after them"},
		{Name: "failing-start", Props: []string{"C23"}, Run: failingStart, Desc: "the scanner does not start"},
	}, append(scale(), daemonScenarios()...)...))
}
