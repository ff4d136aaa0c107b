package main

import (
	"errors"
	"fmt"
	"net"
	"net/http"
	"net/http/httptest"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/btcsuite/btcd/chaincfg/chainhash"
	"github.com/vulpemventures/go-elements/block"
	"github.com/vulpemventures/neutrino-elements/pkg/blockservice"

	"verif/vs"
)

// explorer is an Esplora server on the loopback network.
type explorer struct {
	srv *httptest.Server
	mu  sync.Mutex
	f   func(w http.ResponseWriter, r *http.Request)
	// open connections and their maximum
	conns map[net.Conn]bool
	most  int
	paths []string
}

func newExplorer() *explorer {
	x := &explorer{conns: map[net.Conn]bool{}}
	x.srv = httptest.NewUnstartedServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		x.mu.Lock()
		x.paths = append(x.paths, r.Method+" "+r.URL.Path)
		f := x.f
		x.mu.Unlock()
		f(w, r)
	}))
	x.srv.Config.ConnState = func(c net.Conn, s http.ConnState) {
		x.mu.Lock()
		defer x.mu.Unlock()
		switch s {
		case http.StateNew:
			x.conns[c] = true
		case http.StateClosed, http.StateHijacked:
			delete(x.conns, c)
		}
		if len(x.conns) > x.most {
			x.most = len(x.conns)
		}
	}
	x.srv.Start()
	return x
}

func (x *explorer) answer(f func(w http.ResponseWriter, r *http.Request)) {
	x.mu.Lock()
	defer x.mu.Unlock()
	x.f, x.paths = f, nil
}

func (x *explorer) asked() string {
	x.mu.Lock()
	defer x.mu.Unlock()
	return strings.Join(x.paths, ", ")
}

// body answers with the status and the first n bytes of b; less than what the
// length header says if cut.
func body(status int, b []byte, n int, cut, chunked bool) func(w http.ResponseWriter, r *http.Request) {
	return func(w http.ResponseWriter, r *http.Request) {
		switch {
		case cut:
			w.Header().Set("Content-Length", strconv.Itoa(len(b)))
		case !chunked:
			w.Header().Set("Content-Length", strconv.Itoa(n))
		}
		w.WriteHeader(status)
		w.Write(b[:n])
		if f, ok := w.(http.Flusher); ok && chunked {
			f.Flush()
		}
		if cut {
			panic(http.ErrAbortHandler)
		}
	}
}

func blockHash(hk int) chainhash.Hash {
	h, err := mkHeader(hk, 7, 3).Hash()
	if err != nil {
		panic(err)
	}
	return h
}

func showBlock(b *block.Block) string {
	if b == nil || b.Header == nil || b.TransactionsData == nil {
		return "nothing"
	}
	s := []string{showHeader(b.Header), fmt.Sprint(len(b.TransactionsData.Transactions))}
	for _, t := range b.TransactionsData.Transactions {
		s = append(s, showTx(t))
	}
	return strings.Join(s, " ")
}

func get(s blockservice.BlockService, h chainhash.Hash) (b *block.Block, err error, crash string) {
	defer func() {
		if r := recover(); r != nil {
			crash = fmt.Sprint(r)
		}
	}()
	b, err = s.GetBlock(&h)
	return
}

type blockCase struct {
	hk  int
	txs []int
}

func blockCases() []blockCase {
	var l []blockCase
	for hk := 0; hk < headerKinds; hk++ {
		l = append(l, blockCase{hk, []int{2}}, blockCase{hk, []int{2, 0, 3}}, blockCase{hk, nil})
	}
	for k := 0; k < txKinds; k++ {
		l = append(l, blockCase{0, []int{2, k, k}})
	}
	return append(l, blockCase{0, ones(253, 0)}, blockCase{4, ones(300, 3)})
}

// enumLarge serves blocks as large as they get.
func enumLarge(e *vs.Enum) {
	x := newExplorer()
	defer x.srv.Close()
	svc := blockservice.NewEsploraBlockService(x.srv.URL)
	for _, c := range []blockCase{{1, ones(1300, 3)}, {2, ones(20000, 0)}, {3, []int{2, 3900000}}} {
		for _, chunked := range []bool{false, true} {
			c, chunked := c, chunked
			m := blockMsg(c.hk, c.txs)
			e.Case(func() string { return fmt.Sprintf("answer a block of %d bytes, %v", len(m.wire), chunked) }, func() {
				x.answer(body(200, m.wire, len(m.wire), false, chunked))
				b, err, crash := get(svc, blockHash(c.hk))
				if err != nil || crash != "" {
					e.Fail("C16", "block", "a block of %d bytes is refused: %v %s", len(m.wire), err, crash)
				} else if s := showBlock(b); s != m.want {
					e.Fail("C16", "block", "a block of %d bytes comes as %s instead of %s", len(m.wire), clip(s), clip(m.want))
				}
				for _, n := range []int{1 << 16, 1 << 20, len(m.wire) - 1} {
					x.answer(body(200, m.wire, n, true, chunked))
					if b, err, crash := get(svc, blockHash(c.hk)); n < len(m.wire) && (err == nil || crash != "") {
						e.Fail("C16", "cut", "%d of %d bytes: block %s, %v, %s", n, len(m.wire), clip(showBlock(b)), err, crash)
					}
				}
			})
		}
	}
}

func enumExplorer(e *vs.Enum) {
	x := newExplorer()
	defer x.srv.Close()
	svc := blockservice.NewEsploraBlockService(x.srv.URL)
	cases := blockCases()
	// blocks
	for _, c := range cases {
		for _, chunked := range []bool{false, true} {
			c, chunked := c, chunked
			m := blockMsg(c.hk, c.txs)
			e.Case(func() string { return "answer " + m.name }, func() {
				x.answer(body(200, m.wire, len(m.wire), false, chunked))
				h := blockHash(c.hk)
				b, err, crash := get(svc, h)
				if err != nil || crash != "" {
					e.Fail("C16", "block", "%s is refused: %v %s", m.name, err, crash)
				}
				if s := showBlock(b); s != m.want {
					e.Fail("C16", "block", "%s comes as %s instead of %s", m.name, clip(s), clip(m.want))
				}
				if a := x.asked(); a != "GET /block/"+h.String()+"/raw" {
					e.Fail("C16", "request", "the block %v is requested by %s", h, a)
				}
				e.Distinct(m.name)
			})
		}
	}
	// another block than the requested one
	for _, c := range cases {
		for hk := 0; hk < headerKinds; hk++ {
			c, hk := c, hk
			if c.hk == hk || len(c.txs) > 3 {
				continue
			}
			m := blockMsg(c.hk, c.txs)
			e.Case(func() string { return fmt.Sprintf("answer %s to the request for %d", m.name, hk) }, func() {
				x.answer(body(200, m.wire, len(m.wire), false, false))
				b, err, crash := get(svc, blockHash(hk))
				if err == nil || crash != "" || errors.Is(err, blockservice.ErrorBlockNotFound) {
					e.Fail("C16", "wrong-block", "%s is the answer for another block: %s, %v %s", m.name, clip(showBlock(b)), err, crash)
				}
				e.Distinct(fmt.Sprint(m.name, hk))
			})
		}
	}
	// status codes
	good := blockMsg(0, []int{2, 0})
	for st := 200; st <= 599; st++ {
		for _, bd := range [][]byte{nil, []byte("Block not found"), good.wire} {
			st, bd := st, bd
			if st == 200 && len(bd) > 50 || (st == 204 || st == 304) && bd != nil || st == 206 {
				continue
			}
			e.Case(func() string { return fmt.Sprintf("status %d with %d bytes", st, len(bd)) }, func() {
				x.answer(func(w http.ResponseWriter, r *http.Request) {
					w.WriteHeader(st)
					w.Write(bd)
				})
				b, err, crash := get(svc, blockHash(0))
				if crash != "" || err == nil {
					e.Fail("C16", "status", "status %d: block %s, %s", st, clip(showBlock(b)), crash)
				}
				if nf := errors.Is(err, blockservice.ErrorBlockNotFound); nf != (st == 404) {
					e.Fail("C16", "not-found", "status %d gives the error %v, which is the not found error: %v", st, err, nf)
				}
				e.Distinct(fmt.Sprint(st))
			})
		}
	}
	// truncation
	for i, c := range cases {
		m := blockMsg(c.hk, c.txs)
		if len(m.wire) > 6000 && e.Tier != "thorough" {
			continue
		}
		for n := 0; n < len(m.wire); n++ {
			if e.Tier != "thorough" && i > 2 && (n > 400 && n < len(m.wire)-40) && n%37 != 0 {
				continue
			}
			for how := 0; how < 3; how++ {
				if how > 0 && e.Tier != "thorough" && n%16 != 0 && i != 1 {
					continue
				}
				c, n, how := c, n, how
				e.Case(func() string { return fmt.Sprintf("%s cut off after %d bytes (%d)", m.name, n, how) }, func() {
					x.answer(body(200, m.wire, n, how == 1, how == 2))
					b, err, crash := get(svc, blockHash(c.hk))
					if err == nil || crash != "" || errors.Is(err, blockservice.ErrorBlockNotFound) {
						e.Fail("C16", "cut", "%s cut off after %d of %d bytes: block %s, %v, %s", m.name, n, len(m.wire), clip(showBlock(b)), err, crash)
					}
				})
			}
		}
	}
	// damaged bytes: an error or the requested block
	for _, c := range []blockCase{{0, []int{2, 0}}, {4, []int{3}}, {6, []int{1, 5}}} {
		m := blockMsg(c.hk, c.txs)
		for n := 0; n < len(m.wire); n++ {
			for _, v := range []byte{0, 1, 2, 0x40, 0x7f, 0xfc} {
				c, n, v := c, n, v
				if m.wire[n] == v || e.Tier != "thorough" && n > 300 && n%7 != 0 {
					continue
				}
				e.Case(func() string { return fmt.Sprintf("%s, byte %d is %#x", m.name, n, v) }, func() {
					d := append([]byte{}, m.wire...)
					d[n] = v
					x.answer(body(200, d, len(d), false, false))
					h := blockHash(c.hk)
					b, err, crash := get(svc, h)
					if crash != "" || errors.Is(err, blockservice.ErrorBlockNotFound) {
						e.Fail("C16", "damaged", "%s with byte %d changed: %v %s", m.name, n, err, crash)
					}
					if err == nil {
						if b == nil || b.Header == nil {
							e.Fail("C16", "damaged", "%s with byte %d changed: neither block nor error", m.name, n)
						}
						if g, _ := b.Header.Hash(); g != h {
							e.Fail("C16", "damaged", "%s with byte %d changed: block %v for the request of %v", m.name, n, g, h)
						}
					}
				})
			}
		}
	}
	// all at once
	for round := 0; round < 16; round++ {
		e.Case(func() string { return "requests for all blocks at the same time" }, func() {
			by := map[string][]byte{}
			for hk := 0; hk < headerKinds; hk++ {
				h := blockHash(hk)
				by["/block/"+h.String()+"/raw"] = blockMsg(hk, []int{2, hk}).wire
			}
			x.answer(func(w http.ResponseWriter, r *http.Request) { w.Write(by[r.URL.Path]) })
			var wg sync.WaitGroup
			bad := make([]string, headerKinds)
			for hk := 0; hk < headerKinds; hk++ {
				hk := hk
				wg.Add(1)
				go func() {
					defer wg.Done()
					b, err, crash := get(svc, blockHash(hk))
					if err != nil || crash != "" || showBlock(b) != blockMsg(hk, []int{2, hk}).want {
						bad[hk] = fmt.Sprintf("%d: %s %v %s", hk, clip(showBlock(b)), err, crash)
					}
				}()
			}
			wg.Wait()
			if s := strings.Join(bad, ""); s != "" {
				e.Fail("C16", "concurrent", "requests at the same time: %s", s)
			}
		})
	}
	// a failing explorer must not use up the connections
	e.Case(func() string { return "600 failing requests" }, func() {
		for i := 0; i < 600; i++ {
			st := []int{500, 404, 200, 503}[i%4]
			x.answer(func(w http.ResponseWriter, r *http.Request) {
				w.WriteHeader(st)
				w.Write(make([]byte, 20000))
			})
			if _, err, crash := get(svc, blockHash(0)); err == nil || crash != "" {
				e.Fail("C16", "status", "status %d with 20000 zeros: %v %s", st, err, crash)
			}
		}
		time.Sleep(100 * time.Millisecond)
		x.mu.Lock()
		n := len(x.conns)
		x.mu.Unlock()
		if n > 100 {
			e.Fail("C16", "connections", "after 600 failing requests %d connections are open", n)
		}
	})
	// nobody there
	e.Case(func() string { return "connection refused" }, func() {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			return
		}
		u := "http://" + l.Addr().String()
		l.Close()
		if b, err, crash := get(blockservice.NewEsploraBlockService(u), blockHash(0)); err == nil || crash != "" || errors.Is(err, blockservice.ErrorBlockNotFound) {
			e.Fail("C16", "refused", "nobody listens: %s %v %s", clip(showBlock(b)), err, crash)
		}
	})
}

// enumSilent: the explorer stops answering somewhere. Real time passes here.
func enumSilent(e *vs.Enum) {
	m := blockMsg(0, []int{2, 0})
	for _, n := range []int{-1, 0, 50} {
		n := n
		e.Case(func() string { return fmt.Sprintf("the explorer stops after %d bytes", n) }, func() {
			x := newExplorer()
			stop := make(chan struct{})
			x.answer(func(w http.ResponseWriter, r *http.Request) {
				if n >= 0 {
					w.Header().Set("Content-Length", strconv.Itoa(len(m.wire)))
					w.Write(m.wire[:n])
					w.(http.Flusher).Flush()
				}
				<-stop
			})
			done := make(chan string, 1)
			go func() {
				b, err, crash := get(blockservice.NewEsploraBlockService(x.srv.URL), blockHash(0))
				s := ""
				if err == nil || crash != "" || errors.Is(err, blockservice.ErrorBlockNotFound) {
					s = fmt.Sprintf("the explorer stops after %d bytes: %s %v %s", n, clip(showBlock(b)), err, crash)
				}
				done <- s
			}()
			s := "no answer within 25 seconds"
			select {
			case s = <-done:
			case <-time.After(25 * time.Second):
			}
			close(stop)
			if s != "" {
				e.Fail("C16", "silent", "%s", s)
			}
			e.Distinct(fmt.Sprint(n))
		})
	}
}

func explorerScenarios() []*vs.Scenario {
	return []*vs.Scenario{
		{Name: "explorer", Props: []string{"C16"}, Enum: enumExplorer, Desc: "an Esplora server on the loopback: 34 blocks, every other block, every status code, every truncation in three ways, damaged bytes, concurrent requests"},
		{Name: "explorer-large", Props: []string{"C16"}, Enum: enumLarge, Desc: "blocks of up to 4 MB: 1300 confidential transactions, 20000 transactions, one huge transaction; cut off"},
		{Name: "explorer-silent", Props: []string{"C16"}, Enum: enumSilent, Desc: "the explorer stops answering before, after and within its answer (real time)"},
	}
}
