package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net/http"
	"reflect"
	"strings"
	"sync"
	"time"

	"github.com/google/uuid"
	"github.com/vulpemventures/go-elements/transaction"
	"github.com/vulpemventures/neutrino-elements/internal/core/application"
	"github.com/vulpemventures/neutrino-elements/internal/interface/web-socket/handler"
	"github.com/vulpemventures/neutrino-elements/pkg/scanner"
	"github.com/vulpemventures/neutrino-elements/vsharness/lib"

	"verif/vs"
)

type watch struct {
	id     uuid.UUID
	desc   string
	events []scanner.EventType
	start  int
}

// fakeScanner reports what the harness wants for what is watched, the way the
// scanner does: one report at a time, watching does not end.
type fakeScanner struct {
	mu      sync.Mutex
	cond    *sync.Cond
	watches []watch
	q       []scanner.Report
	now     map[string]int // wallets with an event as soon as they are watched
	quit    chan struct{}
	done    chan struct{}
	stops   int
	noStart bool
}

func newFake() *fakeScanner {
	f := &fakeScanner{now: map[string]int{}}
	f.cond = sync.NewCond(&f.mu)
	return f
}

type evItem scanner.EventType

func (e evItem) Bytes() []byte                       { return nil }
func (e evItem) Match(*transaction.Transaction) bool { return false }
func (e evItem) EventType() scanner.EventType        { return scanner.EventType(e) }

func (f *fakeScanner) Start() (<-chan scanner.Report, error) {
	if f.noStart {
		return nil, errors.New("scanner does not start")
	}
	f.quit, f.done = make(chan struct{}), make(chan struct{})
	ch := make(chan scanner.Report)
	go func() {
		defer close(f.done)
		for {
			f.mu.Lock()
			for len(f.q) == 0 && f.stops == 0 {
				f.cond.Wait()
			}
			if f.stops > 0 {
				f.mu.Unlock()
				return
			}
			r := f.q[0]
			f.q = f.q[1:]
			f.mu.Unlock()
			select {
			case ch <- r:
			case <-f.quit:
				return
			}
		}
	}()
	return ch, nil
}

func (f *fakeScanner) Stop() {
	f.mu.Lock()
	f.stops++
	n := f.stops
	f.mu.Unlock()
	f.cond.Broadcast()
	if n == 1 {
		close(f.quit)
	}
	<-f.done
}

func (f *fakeScanner) Watch(...scanner.ScanRequestOption) {}

func (f *fakeScanner) WatchDescriptorWallet(id uuid.UUID, desc string, ev []scanner.EventType, start int) error {
	if strings.HasPrefix(desc, "bad") {
		return errors.New("invalid descriptor")
	}
	f.mu.Lock()
	f.watches = append(f.watches, watch{id, desc, append([]scanner.EventType{}, ev...), start})
	if n := f.now[desc]; n != 0 {
		f.q = append(f.q, report(id, scanner.UnspentUtxo, n))
	}
	f.mu.Unlock()
	f.cond.Broadcast()
	return nil
}

func report(id uuid.UUID, k scanner.EventType, n int) scanner.Report {
	h := lib.NewChain(1, nil, nil, 0).Hashes[0]
	return scanner.Report{
		Transaction: paid(n),
		BlockHash:   &h,
		BlockHeight: 1,
		Request:     &scanner.ScanRequest{ClientID: id, Item: evItem(k), IsPersistent: true},
	}
}

// paid is transaction n; most transactions carry a witness, which is no part
// of their identifier.
func paid(n int) *transaction.Transaction {
	t := lib.Tx(n, lib.Script(1))
	if n%4 == 0 {
		return t
	}
	return lib.WithWitness(t, byte(n))
}

// emit finds transaction n for everybody who watches the wallet.
func (f *fakeScanner) emit(desc string, ns ...int) {
	f.mu.Lock()
	for _, n := range ns {
		for _, w := range f.watches {
			if w.desc != desc {
				continue
			}
			k := scanner.UnspentUtxo
			if n >= 100 {
				k = scanner.SpentUtxo
			}
			f.q = append(f.q, report(w.id, k, n))
		}
	}
	f.mu.Unlock()
	f.cond.Broadcast()
}

func (f *fakeScanner) watched() []watch {
	f.mu.Lock()
	defer f.mu.Unlock()
	return append([]watch{}, f.watches...)
}

func (f *fakeScanner) idle() bool {
	f.mu.Lock()
	defer f.mu.Unlock()
	return len(f.q) == 0
}

func ev(n int) string {
	k := "unspentUtxo"
	if n >= 100 {
		k = "spentUtxo"
	}
	return "ev:" + k + ":" + lib.Tx(n, lib.Script(1)).TxHash().String()
}

func evs(ns ...int) (out []string) {
	for _, n := range ns {
		out = append(out, ev(n))
	}
	return
}

// hooks answers the requests of the daemon to web hooks.
type hooks struct {
	mu    sync.Mutex
	got   map[string][]string
	hang  map[string]bool
	fail  map[string]bool
	code  map[string]int // status other than 200
	calls int
}

func (h *hooks) RoundTrip(r *http.Request) (*http.Response, error) {
	vs.Point()
	var b []byte
	if r.Body != nil {
		b, _ = io.ReadAll(r.Body)
		r.Body.Close()
	}
	u := r.URL.String()
	h.mu.Lock()
	h.calls++
	hang, fail := h.hang[u], h.fail[u]
	h.mu.Unlock()
	if hang {
		select {
		case <-time.After(10 * time.Minute):
		case <-r.Context().Done():
		}
		return nil, errors.New("timeout")
	}
	if fail {
		return nil, errors.New("connection refused")
	}
	h.mu.Lock()
	h.got[u] = append(h.got[u], classify(string(b)))
	h.mu.Unlock()
	code := 200
	h.mu.Lock()
	if c := h.code[u]; c != 0 {
		code = c
	}
	h.mu.Unlock()
	return &http.Response{StatusCode: code, Status: fmt.Sprint(code, " ", http.StatusText(code)), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: io.NopCloser(bytes.NewReader(nil)), Request: r}, nil
}

func (h *hooks) of(u string) []string {
	h.mu.Lock()
	defer h.mu.Unlock()
	return append([]string{}, h.got[u]...)
}

type world struct {
	sc *fakeScanner
	ns application.NotificationService
	h  handler.DescriptorWalletNotifierHandler
	hk *hooks
}

func newWorld() *world {
	w := &world{sc: newFake(), hk: &hooks{got: map[string][]string{}, hang: map[string]bool{}, fail: map[string]bool{}, code: map[string]int{}}}
	http.DefaultTransport = w.hk
	w.ns = application.NewNotificationService(w.sc)
	if err := w.ns.Start(); err != nil {
		vs.Fail("C20", "the notification service does not start: %v", err)
	}
	w.h = handler.NewDescriptorWalletNotifierHandler(w.ns)
	w.h.Start()
	return w
}

// connect opens a web-socket connection.
func (w *world) connect(name string) *wsClient {
	c := newWs(name)
	go w.h.HandleSubscriptionRequestWs(&hijack{c, http.Header{}}, wsRequest())
	return c
}

type rw struct {
	h    http.Header
	code int
	b    bytes.Buffer
}

func (r *rw) Header() http.Header { return r.h }
func (r *rw) WriteHeader(c int) {
	if r.code == 0 {
		r.code = c
	}
}
func (r *rw) Write(p []byte) (int, error) {
	r.WriteHeader(200)
	return r.b.Write(p)
}

// reply classifies an HTTP response: one message or an error status.
func (r *rw) reply() string {
	if r.code >= 400 {
		return "err"
	}
	return classify(r.b.String())
}

// post makes one HTTP request.
func (w *world) post(body string) *rw {
	r, _ := http.NewRequest("POST", "/neutrino/subscribe/http", strings.NewReader(body))
	x := &rw{h: http.Header{}}
	w.h.HandleSubscriptionRequestHttp(x, r)
	return x
}

func reg(desc string) string {
	return `{"actionType":"register","eventTypes":["unspentUtxo"],"descriptorWallet":"` + desc + `","startBlockHeight":1}`
}

const unreg = `{"actionType":"unregister"}`

func hookReg(desc, url string) string {
	return `{"actionType":"register","eventTypes":["unspentUtxo"],"descriptorWallet":"` + desc + `","startBlockHeight":1,"endpointUrl":"` + url + `"}`
}

func hookUnreg(url string) string {
	return `{"actionType":"unregister","endpointUrl":"` + url + `"}`
}

func settle() { vs.Quiesce() }

func settleFor(d time.Duration) {
	vs.Quiesce()
	vs.Sleep(d)
	vs.Quiesce()
}

func want(tag, what string, got, exp []string) {
	if len(got) == 0 && len(exp) == 0 {
		return
	}
	if !reflect.DeepEqual(got, exp) {
		vs.Fail(tag, "%s: got %v, want %v", what, short(got), short(exp))
	}
}

func wantSet(tag, what string, got, exp []string) {
	m := map[string]int{}
	for _, g := range got {
		m[g]++
	}
	for _, e := range exp {
		m[e]--
	}
	for _, v := range m {
		if v != 0 {
			vs.Fail(tag, "%s: got %v, want %v in any order", what, short(got), short(exp))
		}
	}
}

func short(l []string) (out []string) {
	for _, s := range l {
		if strings.HasPrefix(s, "ev:") && len(s) > 26 {
			s = s[:26]
		}
		out = append(out, s)
	}
	return
}

// odd reports anything a client got that is no well-formed message.
func (c *wsClient) odd(tag string) {
	if o := c.only("?"); len(o) > 0 {
		vs.Fail(tag, "%s received something that is no reply and no event: %v", c.name, o)
	}
}

var _ = fmt.Sprint
