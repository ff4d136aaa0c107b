package main

import (
	"context"
	"errors"
	"fmt"
	"net"
	"net/http"
	"strings"
	"sync"
	"time"

	"github.com/vulpemventures/go-elements/descriptor"
	"github.com/vulpemventures/go-elements/transaction"
	neutrinodws "github.com/vulpemventures/neutrino-elements/internal/interface/web-socket"
	"github.com/vulpemventures/neutrino-elements/pkg/blockservice"
	"github.com/vulpemventures/neutrino-elements/pkg/node"
	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
	"github.com/vulpemventures/neutrino-elements/pkg/repository"
	"github.com/vulpemventures/neutrino-elements/vsharness/lib"

	"verif/vs"
)

const (
	descA = "elwpkh(02f9308a019258c31049344f85f89d5229b531c845836f99b08601f113bce036f9)"
	descB = "elwpkh(03fff97bd5755eeea420453a14355235d382f6472f8568a18b2f057a1460297556)"
)

func scriptOf(desc string) []byte {
	w, err := descriptor.Parse(desc)
	if err != nil {
		panic(err)
	}
	s, err := w.Script(nil)
	if err != nil || len(s) == 0 {
		panic(fmt.Sprint("no script: ", err))
	}
	return s[0].Script
}

// daemon is the whole neutrinod but its configuration and database.
type daemon struct {
	c      *lib.Chain
	hr     *lib.HeaderRepo
	fr     *lib.FilterRepo
	bs     *lib.BlockSource
	k      *lib.Conn
	peer   *lib.Honest
	hk     *hooks
	mu     sync.Mutex // guards srv and stops
	srv    *vs.Server
	listen error
	cancel context.CancelFunc
	stops  int
	errC   <-chan error
	refuse bool
}

// chainAB pays A in blocks 2 and 4, B in block 2.
func chainAB() *lib.Chain {
	a, b := scriptOf(descA), scriptOf(descB)
	return lib.NewChain(5, map[int][]*transaction.Transaction{
		1: {lib.Tx(11, lib.Script(7))},
		2: {lib.Tx(21, a), lib.Tx(22, b)},
		3: {lib.Tx(31, lib.Script(8))},
		4: {lib.Tx(41, a)},
	}, nil, 0)
}

func newDaemon(c *lib.Chain, tip, top int, network string) *daemon {
	d := &daemon{c: c, hr: lib.NewHeaderRepo(c, tip), fr: lib.NewFilterRepo(c, tip), bs: lib.NewBlockSource(c), k: lib.NewConn("peer", 40000)}
	d.hr.SpinTip = 2 * (len(c.Blocks) + 2)
	d.bs.NotFound = blockservice.ErrorBlockNotFound
	d.peer = lib.NewHonest(c, top, d.k)
	d.hk = &hooks{got: map[string][]string{}, hang: map[string]bool{}, fail: map[string]bool{}}
	http.DefaultTransport = d.hk
	used := false
	vs.DialHook = func(_, addr string) (net.Conn, error) {
		if d.refuse || used {
			return nil, errors.New("connection refused")
		}
		used = true
		return d.k, nil
	}
	vs.ListenHook = func(string) error { return d.listen }
	vs.ServerHook = func(s *vs.Server) error {
		d.mu.Lock()
		d.srv = s
		d.mu.Unlock()
		return d.listen
	}
	return d
}

// run starts the daemon; it reports whether Start returned within a minute.
func (d *daemon) run(network string) bool {
	srv, err := neutrinodws.NewElementsNeutrinoServer(node.NodeConfig{Network: network, UserAgent: "neutrino-elements:test", FiltersDB: d.fr, BlockHeadersDB: d.hr}, d.bs, "10.0.0.1:18886", "localhost:8000")
	if err != nil {
		vs.Fail("C23", "the server cannot be made for %s: %v", network, err)
	}
	ctx, cancel := context.WithCancel(context.Background())
	d.cancel = cancel
	got := make(chan (<-chan error), 1)
	go func() {
		got <- srv.Start(ctx, func() {
			d.mu.Lock()
			d.stops++
			d.mu.Unlock()
		})
	}()
	select {
	case d.errC = <-got:
		return true
	case <-time.After(time.Minute):
		return false
	}
}

func (d *daemon) mustRun(tag string) {
	if !d.run("regtest") {
		vs.Fail(tag, "the daemon does not start; live: %v", vs.Live())
	}
	settle()
	if d.server() == nil {
		vs.Fail(tag, "the daemon does not listen")
	}
}

func (d *daemon) server() *vs.Server {
	d.mu.Lock()
	defer d.mu.Unlock()
	return d.srv
}

func (d *daemon) serve(w http.ResponseWriter, r *http.Request) bool {
	return d.server().Serve1(w, r)
}

func (d *daemon) connect(name string) *wsClient {
	c := newWs(name)
	r := wsRequest()
	r.RequestURI = r.URL.Path
	go d.serve(&hijack{c, http.Header{}}, r)
	return c
}

func (d *daemon) post(body string) *rw {
	r, _ := http.NewRequest("POST", "/neutrino/subscribe/http", strings.NewReader(body))
	x := &rw{h: http.Header{}}
	if !d.serve(x, r) {
		x.code = 503
	}
	return x
}

// stop shuts the daemon down and checks that it ends.
func (d *daemon) stop(tag string, clients ...*wsClient) {
	d.cancel()
	dl := time.After(2 * time.Minute)
	for open := true; open; {
		select {
		case err, ok := <-d.errC:
			if ok && err != nil {
				vs.Fail(tag, "shutting down ended with the error %v", err)
			}
			open = ok
		case <-dl:
			vs.Fail(tag, "the daemon did not shut down within two minutes; live: %v", vs.Live())
		}
	}
	if s := d.server(); s != nil && s.Serve1(&rw{h: http.Header{}}, wsRequest()) {
		vs.Fail(tag, "the server still accepts requests after the shut down")
	}
	for _, c := range clients {
		c.bye(false)
	}
	settleFor(2 * time.Minute)
	if l := vs.Live(); len(l) > 0 {
		vs.Fail(tag, "goroutines are left after the shut down: %v", l)
	}
}

func txEv(n int, script []byte) string {
	return "ev:unspentUtxo:" + lib.Tx(n, script).TxHash().String()
}

func regFrom(desc string, from int) string {
	return fmt.Sprintf(`{"actionType":"register","eventTypes":["unspentUtxo"],"descriptorWallet":"%s","startBlockHeight":%d}`, desc, from)
}

// endToEnd: the daemon from the peer's messages to the clients.
func endToEnd() {
	d := newDaemon(chainAB(), 0, 3, "regtest")
	d.mustRun("C20")
	from := vs.ChooseFree(2)
	a, b := d.connect("A"), d.connect("B")
	a.send(regFrom(descA, from))
	b.send(regFrom(descB, from))
	settleFor(10 * time.Second)
	sa, sb := scriptOf(descA), scriptOf(descB)
	want("C20", "events of A after registering", a.only("ev:"), []string{txEv(21, sa)})
	want("C20", "events of B after registering", b.only("ev:"), []string{txEv(22, sb)})
	n := d.peer.Mine()
	d.k.Deliver(lib.InvMsg(lib.Inv{Type: 2, Hash: d.c.Hashes[n]}))
	settleFor(30 * time.Second)
	want("C20", "events of A after block 4", a.only("ev:"), []string{txEv(21, sa), txEv(41, sa)})
	want("C20", "events of B after block 4", b.only("ev:"), []string{txEv(22, sb)})
	want("C21", "replies to A", replies(a), []string{"ok"})
	d.stop("C23", a, b)
}

// shutdown: the signal comes while clients register and blocks arrive.
func shutdown() {
	d := newDaemon(chainAB(), 2, 3, "regtest")
	d.mustRun("C23")
	a := d.connect("A")
	a.send(regFrom(descA, 1))
	switch vs.ChooseFree(3) {
	case 1:
		settle()
		a.setStall(true)
		n := d.peer.Mine()
		d.k.Deliver(lib.InvMsg(lib.Inv{Type: 2, Hash: d.c.Hashes[n]}))
		settle()
	case 2:
		settle()
		n := d.peer.Mine()
		d.k.Deliver(lib.InvMsg(lib.Inv{Type: 2, Hash: d.c.Hashes[n]}))
	}
	d.stop("C23", a)
	d.mu.Lock()
	stops := d.stops
	d.mu.Unlock()
	if stops == 0 {
		vs.Fail("C23", "the signal handling was not given up after the shut down")
	}
	if !d.k.Closed() {
		// the connection to the peer is the node's business
		vs.Observe("peer connection open")
	}
}

// startFails: what the daemon needs is not there.
func startFails() {
	how := vs.ChooseFree(3)
	d := newDaemon(chainAB(), 2, 3, "regtest")
	if how == 2 {
		srv, err := neutrinodws.NewElementsNeutrinoServer(node.NodeConfig{Network: "mainnet", UserAgent: "x", FiltersDB: d.fr, BlockHeadersDB: d.hr}, d.bs, "10.0.0.1:18886", "localhost:8000")
		if err == nil || srv != nil {
			vs.Fail("C23", "a daemon for a network which does not exist is made: %v", err)
		}
		return
	}
	switch how {
	case 0:
		d.refuse = true
	case 1:
		d.listen = errors.New("address in use")
	}
	if !d.run("regtest") {
		vs.Fail("C23", "a start which cannot succeed (%d) does not return", how)
	}
	select {
	case err, ok := <-d.errC:
		if !ok || err == nil {
			vs.Fail("C23", "a start which cannot succeed (%d) reports no error", how)
		}
	case <-time.After(time.Minute):
		vs.Fail("C23", "a start which cannot succeed (%d) reports no error within a minute", how)
	}
	if how == 1 {
		// the daemon can still be shut down
		d.stop("C23")
	}
}

// networks: the daemon of every network scans from that network's genesis block.
func networks() {
	name := []string{"liquid", "testnet", "regtest"}[vs.ChooseFree(3)]
	old := lib.Magic
	lib.Magic = protocol.Networks[name]
	defer func() { lib.Magic = old }()
	d := newDaemon(chainAB(), 3, 3, name)
	var asked []string
	d.fr.OnCall = func(op string, k repository.FilterKey) error {
		asked = append(asked, fmt.Sprintf("%x", k.BlockHash))
		return nil
	}
	if !d.run(name) {
		vs.Fail("C23", "the daemon of %s does not start", name)
	}
	settle()
	a := d.connect("A")
	a.send(regFrom(descA, 0))
	settleFor(time.Second)
	exp := map[string]string{
		"liquid":  "1466275836220db2944ca059a3a10ef6fd2ea684b0688d2c379296888a206003",
		"testnet": "a771da8e52ee6ad581ed1e9a99825e5b3b7992225534eaa2ae23244fe26ab1c1",
		"regtest": "00902a6b70c2ca83b5d9c815d96a0e2f4202179316970d14ea1847dae5b1ca21",
	}[name]
	ok := false
	for _, h := range asked {
		ok = ok || h == rev(exp)
	}
	if !ok {
		vs.Fail("C20", "on %s the scan from height 0 does not look at the genesis block %s but at %v", name, exp, asked)
	}
	want("C20", "events of A on "+name, a.only("ev:"), []string{txEv(21, scriptOf(descA))})
}

func rev(h string) string {
	b := []byte(h)
	o := make([]byte, 0, len(b))
	for i := len(b) - 2; i >= 0; i -= 2 {
		o = append(o, b[i], b[i+1])
	}
	return string(o)
}

func daemonScenarios() []*vs.Scenario {
	return []*vs.Scenario{
		{Name: "end-to-end", Props: []string{"C20", "C27"}, Race: true, Run: endToEnd, Desc: "the whole daemon (node, scanner, notifications, web server) with a simulated peer: two clients register descriptors, a block is mined, shut down"},
		{Name: "shutdown", Props: []string{"C23"}, Weight: 2, Run: shutdown, Desc: "the whole daemon is shut down while a client registers, does not read, or a block arrives"},
		{Name: "start-fails", Props: []string{"C23"}, Run: startFails, Desc: "the peer or the port is not available"},
		{Name: "networks", Props: []string{"C20"}, MaxCost: 1, Run: networks, Desc: "the daemon of each of the three networks scans from its genesis block"},
	}
}
