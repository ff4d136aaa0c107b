package main

import (
	"errors"
	"fmt"
	"net"
	"reflect"
	"strings"
	"sync"
	"time"
	"unsafe"

	"github.com/vulpemventures/go-elements/block"
	"github.com/vulpemventures/go-elements/transaction"
	"github.com/vulpemventures/neutrino-elements/pkg/node"
	"github.com/vulpemventures/neutrino-elements/pkg/peer"
	"github.com/vulpemventures/neutrino-elements/vsharness/lib"

	"verif/vs"
)

// world is a node with simulated peers.
type world struct {
	c     *lib.Chain
	hr    *lib.HeaderRepo
	fr    *lib.FilterRepo
	svc   node.NodeService
	mu    sync.Mutex
	conns []*lib.Conn
	queue map[string]*lib.Conn // by remote address
	start chan error           // receives the result of Start
	done  bool
}

func newWorld(c *lib.Chain, tip int) *world {
	return newWorldOn(c, lib.NewHeaderRepo(c, tip), lib.NewFilterRepo(c, tip))
}

// newWorldOn starts from stores left by an earlier node.
func newWorldOn(c *lib.Chain, hr *lib.HeaderRepo, fr *lib.FilterRepo) *world {
	w := &world{c: c, hr: hr, fr: fr, queue: map[string]*lib.Conn{}, start: make(chan error, 1)}
	vs.DialHook = func(network, addr string) (net.Conn, error) {
		w.mu.Lock()
		defer w.mu.Unlock()
		k := w.queue[addr]
		if k == nil {
			return nil, errors.New("connection refused")
		}
		delete(w.queue, addr)
		return k, nil
	}
	svc, err := node.New(node.NodeConfig{Network: "regtest", UserAgent: "neutrino-elements:test", FiltersDB: w.fr, BlockHeadersDB: w.hr})
	if err != nil {
		vs.Fail("C06", "New failed: %v", err)
	}
	w.svc = svc
	return w
}

func addrOf(i int) string { return fmt.Sprintf("10.0.0.%d:18886", i+1) }

// conn prepares a connection for the next dial of peer i.
func (w *world) conn(i int) *lib.Conn {
	c := lib.NewConn(fmt.Sprintf("peer%d", i), 40000+len(w.conns))
	w.mu.Lock()
	w.conns = append(w.conns, c)
	w.queue[addrOf(i)] = c
	w.mu.Unlock()
	return c
}

func (w *world) startWith(i int) {
	go func() {
		err := w.svc.Start(addrOf(i))
		w.mu.Lock()
		w.done = true
		w.mu.Unlock()
		w.start <- err
	}()
}

func (w *world) add(i int) error {
	p, err := peer.NewElementsPeer(addrOf(i))
	if err != nil {
		vs.Fail("C07", "NewElementsPeer: %v", err)
	}
	return w.svc.AddOutboundPeer(p)
}

func (w *world) started() bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.done
}

// passive makes a peer that does the handshake and answers pings but serves
// nothing.
func passive(c *lib.Conn, tip int32) *lib.Honest {
	h := &lib.Honest{Conn: c, C: &lib.Chain{}, Refuse: map[string]bool{"getheaders": true, "getdata": true, "getcfilters": true, "version": true}}
	c.OnMsg = h.Handle
	c.Deliver(lib.VersionMsg(65, tip), lib.Frame("verack", nil))
	return h
}

// pool finds the node's memory pool, whatever its field is called.
func pool(svc node.NodeService) *node.MemPool {
	v := reflect.ValueOf(svc)
	for v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	if v.Kind() != reflect.Struct {
		return nil
	}
	want := reflect.TypeOf(node.MemPool{})
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Type() == want {
			return (*node.MemPool)(unsafe.Pointer(f.UnsafeAddr()))
		}
		if f.Type() == reflect.PtrTo(want) {
			return *(**node.MemPool)(unsafe.Pointer(f.UnsafeAddr()))
		}
	}
	return nil
}

func poolTxs(svc node.NodeService) map[string]bool {
	p := pool(svc)
	if p == nil {
		return nil
	}
	m := map[string]bool{}
	for id := range p.GetMemPool() {
		m[id] = true
	}
	return m
}

// settle lets everything happen that can without an outside event within the
// given virtual time.
func settle(d time.Duration) {
	vs.Quiesce()
	if d > 0 {
		vs.Sleep(d)
		vs.Quiesce()
	}
}

// clean checks that the node wrote only well-formed messages.
func (w *world) clean(tag string) {
	for _, c := range w.conns {
		if b := c.Bad(); b != "" {
			vs.Fail(tag, "%s received %s", c.Name, b)
		}
	}
}

func short(h [32]byte) string { return fmt.Sprintf("%x", h[:4]) }

var (
	txA = lib.Tx(1, lib.Script(1))
	txB = lib.Tx(2, lib.Script(2), lib.Script(3))
	txC = lib.Spend(3, txA, 0, lib.Script(4))
)

func chain(n int) *lib.Chain {
	return lib.NewChain(n, map[int][]*transaction.Transaction{0: {}, 2: {txA}, 3: {txB, txC}}, nil, 1)
}

// fork shares the first common blocks with chain(n) and differs after that.
func fork(c *lib.Chain, common, n int, salt byte) []*block.Header {
	var out []*block.Header
	prev := c.Hashes[common].CloneBytes()
	for h := common + 1; h <= n; h++ {
		x := lib.Header(uint32(h), prev, salt)
		hash, _ := x.Hash()
		prev = hash.CloneBytes()
		out = append(out, x)
	}
	return out
}

func list(p ...string) []string { return p }

func main() {
	lib.Quiet()
	var all []*vs.Scenario
	all = append(all, framing()...)
	all = append(all, headers()...)
	all = append(all, syncing()...)
	all = append(all, handshakes()...)
	all = append(all, cfilters()...)
	all = append(all, probing()...)
	all = append(all, stopping()...)
	all = append(all, broadcast()...)
	all = append(all, pools()...)
	all = append(all, scale()...)
	vs.Main(all)
}

var _ = strings.Join
