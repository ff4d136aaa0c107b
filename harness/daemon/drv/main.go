// Command drv runs one case: the real daemon with a database server, a peer
// and an explorer on the loopback. It prints the result as JSON.
package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/btcsuite/btcd/btcutil"
	"github.com/gorilla/websocket"
	"github.com/vulpemventures/go-elements/transaction"

	"github.com/vulpemventures/neutrino-elements/vsharness/lib"
)

// Case is what to do.
type Case struct {
	Mode  string // run, kill, term, or one of the refusals
	At    int    // the event at which it happens
	Again int    // the event of the second start at which it happens again (-1: none)
	Top   int
	Batch int
	Grow  int
}

// Result is what happened.
type Result struct {
	Fail, Key, Unsupported string
	Events, Second         int
	Trace                  []string
	State                  string
	Flight                 bool
}

const uid = 54321

var plain = os.Getenv("VS_PLAIN")

type failure struct{ key, msg string }

func fail(key, f string, a ...interface{}) { panic(failure{key, fmt.Sprintf(f, a...)}) }

type world struct {
	cs    Case
	c     *lib.Chain
	pg    *pgServer
	peerL net.Listener
	tip   int
	batch int
	addr  string
	exp   *http.Server
	expL  net.Listener
	dir   string
	env   []string

	mu     sync.Mutex
	n      int
	at     int
	hit    bool
	act    func() bool
	silent func() bool
	trace  []string
	peers  []*lib.Honest

	cmd      *exec.Cmd
	out      *safeBuf
	exited   chan struct{}
	code     int
	bySignal bool // it did not handle SIGTERM

	hookL net.Listener
	hooks chan string
}

type safeBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (b *safeBuf) Write(p []byte) (int, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.b.Write(p)
}

func (b *safeBuf) String() string {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.b.String()
}

func listen() net.Listener {
	l, err := net.Listen("tcp", host+":0")
	if err != nil {
		panic(err)
	}
	return l
}

// host is a loopback address of this process alone.
var host = fmt.Sprintf("127.%d.%d.%d", 1+os.Getpid()>>16&0x7f, os.Getpid()>>8&0xff, os.Getpid()&0xff)

// event is a moment the daemon shows itself to the outside.
func (w *world) event(l string, c net.Conn) {
	w.mu.Lock()
	w.trace = append(w.trace, l)
	n := w.n
	w.n++
	now := w.at == n && !w.hit
	if now {
		w.hit = true
	}
	act := w.act
	w.mu.Unlock()
	if now && act() {
		if c != nil {
			c.Close()
		}
		runtime.Goexit()
	}
}

func (w *world) wasHit() bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.hit
}

var (
	_, pubKey = btcec.PrivKeyFromBytes(bytes.Repeat([]byte{7}, 32))
	pub       = pubKey.SerializeCompressed()
	descr     = "wpkh(" + hex.EncodeToString(pub) + ")"
	script    = append([]byte{0, 20}, btcutil.Hash160(pub)...)
)

func newWorld(cs Case) *world {
	w := &world{cs: cs, at: -1, tip: cs.Top, batch: cs.Batch, hooks: make(chan string, 100)}
	txs := map[int][]*transaction.Transaction{}
	for i := 1; i <= 9; i++ {
		txs[i] = []*transaction.Transaction{lib.Tx(i, lib.Script(i)), lib.Tx(100+i, script)}
	}
	w.c = lib.NewChain(9, txs, nil, 1)
	w.pg = newPg(w)
	w.peerL = listen()
	go w.servePeer()
	w.expL = listen()
	w.exp = &http.Server{Handler: http.HandlerFunc(w.explorer)}
	go w.exp.Serve(w.expL)
	w.hookL = listen()
	go http.Serve(w.hookL, http.HandlerFunc(func(_ http.ResponseWriter, r *http.Request) {
		b, _ := io.ReadAll(r.Body)
		w.hooks <- string(b)
	}))
	l := listen()
	w.addr = l.Addr().String()
	l.Close()
	d, err := os.MkdirTemp("", "verif-daemon-")
	if err != nil {
		panic(err)
	}
	os.Chmod(d, 0o755)
	w.dir = d
	w.env = []string{
		"HOME=" + d, "GOMAXPROCS=2", "NEUTRINO_ELEMENTS_NETWORK=regtest",
		"NEUTRINO_ELEMENTS_NEUTRINOD_URL=" + w.addr,
		"NEUTRINO_ELEMENTS_EXPLORER_URL=http://" + w.expL.Addr().String(),
		"NEUTRINO_ELEMENTS_PEER_URL=" + w.peerL.Addr().String(),
		"NEUTRINO_ELEMENTS_DB_HOST=" + host,
		fmt.Sprintf("NEUTRINO_ELEMENTS_DB_PORT=%d", w.pg.l.Addr().(*net.TCPAddr).Port),
		"NEUTRINO_ELEMENTS_DB_MIGRATION_PATH=file://" + filepath.Join(plain, "repo/internal/infrastructure/storage/db/pg/migration"),
	}
	return w
}

func (w *world) explorer(rw http.ResponseWriter, r *http.Request) {
	w.event("explorer", nil)
	for i, h := range w.c.Hashes {
		if strings.Contains(r.URL.Path, h.String()) {
			rw.Write(lib.BlockMsg(w.c.Blocks[i])[24:])
			return
		}
	}
	http.NotFound(rw, r)
}

// servePeer joins the connections of the node to the reference peer.
func (w *world) servePeer() {
	for {
		c, err := w.peerL.Accept()
		if err != nil {
			return
		}
		k := lib.NewConn("peer", c.RemoteAddr().(*net.TCPAddr).Port)
		w.mu.Lock()
		h := lib.NewHonest(w.c, w.tip, k)
		h.Batch = w.batch
		w.peers = append(w.peers, h)
		w.mu.Unlock()
		k.OnMsg = func(m lib.Msg) {
			w.event("peer "+m.Cmd, c)
			w.mu.Lock()
			s := w.silent != nil && w.silent()
			w.mu.Unlock()
			if s {
				return
			}
			h.Handle(m)
		}
		go func() {
			defer k.Close()
			b := make([]byte, 65536)
			for {
				n, err := c.Read(b)
				if n > 0 {
					k.Write(b[:n])
				}
				if err != nil {
					return
				}
			}
		}()
		go func() {
			defer c.Close()
			b := make([]byte, 65536)
			for {
				n, err := k.Read(b)
				if err != nil {
					return
				}
				if _, err := c.Write(b[:n]); err != nil {
					return
				}
			}
		}()
	}
}

// mine makes the next block and announces it.
func (w *world) mine() {
	w.mu.Lock()
	w.tip++
	n := w.tip
	ps := append([]*lib.Honest{}, w.peers...)
	w.mu.Unlock()
	for _, p := range ps {
		for p.Tip() < n {
			p.Mine()
		}
		p.Conn.Deliver(lib.InvMsg(lib.Inv{Type: 2, Hash: w.c.Hashes[n]}))
	}
}

func (w *world) start(env ...string) {
	w.cmd = exec.Command(filepath.Join(plain, "neutrinod"))
	w.cmd.Dir = w.dir
	w.cmd.Env = append(append([]string{}, w.env...), env...)
	w.cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: uid, Gid: uid}, Pdeathsig: syscall.SIGKILL}
	w.out = &safeBuf{}
	w.cmd.Stdout, w.cmd.Stderr = w.out, w.out
	if err := w.cmd.Start(); err != nil {
		panic(err)
	}
	ex, cmd := make(chan struct{}), w.cmd
	w.exited = ex
	go func() {
		err := cmd.Wait()
		w.mu.Lock()
		w.code, w.bySignal = 0, false
		if err != nil {
			w.code = -1
			if x, ok := err.(*exec.ExitError); ok {
				w.code = x.ExitCode()
				st, _ := x.Sys().(syscall.WaitStatus)
				w.bySignal = st.Signaled() && (st.Signal() == syscall.SIGTERM || st.Signal() == syscall.SIGINT)
			}
		}
		w.mu.Unlock()
		close(ex)
	}()
}

func (w *world) dead() bool {
	select {
	case <-w.exited:
		return true
	default:
		return false
	}
}

func (w *world) wait(d time.Duration) bool {
	select {
	case <-w.exited:
		return true
	case <-time.After(d):
		return false
	}
}

func (w *world) log() string {
	s := w.out.String()
	if len(s) > 1500 {
		s = s[len(s)-1500:]
	}
	return s
}

// kill ends the daemon at once.
func (w *world) kill() {
	w.cmd.Process.Kill()
	<-w.exited
	w.pg.quiet()
}

// problem is a reason why the daemon is not as it should be ("": none).
type problem struct{ key, msg string }

func (p problem) Error() string { return p.msg }

// use waits until the daemon serves and uses it: both kinds of clients are
// told of every payment from block from on and of a new one.
func (w *world) use(from int) error {
	limit := time.Now().Add(20 * time.Second)
	for {
		if w.dead() {
			return problem{"exit", fmt.Sprintf("the daemon exits with %d: %s", w.code, w.log())}
		}
		c, err := net.DialTimeout("tcp", w.addr, time.Second)
		if err == nil {
			c.Close()
			break
		}
		if time.Now().After(limit) {
			return problem{"serve", "the daemon does not serve after 20 s: " + w.log()}
		}
		time.Sleep(10 * time.Millisecond)
	}
	d := websocket.Dialer{HandshakeTimeout: 10 * time.Second}
	ws, _, err := d.Dial("ws://"+w.addr+"/neutrino/subscribe/ws", nil)
	if err != nil {
		return problem{"ws", "the web-socket endpoint refuses: " + err.Error()}
	}
	defer ws.Close()
	reg := map[string]interface{}{"actionType": "register", "eventTypes": []string{"unspentUtxo"}, "descriptorWallet": descr, "startBlockHeight": from}
	if err := ws.WriteJSON(reg); err != nil {
		return problem{"ws", err.Error()}
	}
	for len(w.hooks) > 0 {
		<-w.hooks
	}
	reg["endpointUrl"] = "http://" + w.hookL.Addr().String() + "/hook"
	b, _ := json.Marshal(reg)
	hc := http.Client{Timeout: 10 * time.Second}
	r, err := hc.Post("http://"+w.addr+"/neutrino/subscribe/http", "application/json", bytes.NewReader(b))
	if err != nil {
		return problem{"http", "the http endpoint refuses: " + err.Error()}
	}
	r.Body.Close()
	if r.StatusCode != 200 {
		return problem{"http", fmt.Sprintf("the http endpoint answers %d", r.StatusCode)}
	}
	w.mu.Lock()
	tip := w.tip
	w.mu.Unlock()
	id := func(h int) string { return w.c.Blocks[h].TransactionsData.Transactions[1].TxHash().String() }
	due := map[string]int{}
	next := func(h int) error {
		ws.SetReadDeadline(time.Now().Add(20 * time.Second))
		var m map[string]string
		for {
			m = nil
			if err := ws.ReadJSON(&m); err != nil {
				return problem{"event", fmt.Sprintf("no event of block %d on the web-socket: %v; %s", h, err, w.log())}
			}
			if m["message"] == "" {
				break
			}
		}
		if m["eventType"] != "unspentUtxo" || m["txId"] != id(h) {
			return problem{"event", fmt.Sprintf("the web-socket gets %v instead of the payment in block %d", m, h)}
		}
		// web hooks are called in any order
		due[fmt.Sprintf("unspentUtxo %s", id(h))]++
		return nil
	}
	hooked := func() error {
		for n := len(due); n > 0; n-- {
			select {
			case s := <-w.hooks:
				var m map[string]string
				json.Unmarshal([]byte(s), &m)
				k := m["eventType"] + " " + m["txId"]
				if due[k] != 1 {
					return problem{"event", fmt.Sprintf("the web hook gets %s instead of one of %v", s, due)}
				}
				due[k]--
			case <-time.After(20 * time.Second):
				return problem{"event", fmt.Sprintf("%d of the events %v are missing at the web hook", n, due)}
			}
		}
		due = map[string]int{}
		return nil
	}
	for h := from; h <= tip; h++ {
		if err := next(h); err != nil {
			return err
		}
	}
	if err := hooked(); err != nil {
		return err
	}
	w.mine()
	if err := next(tip + 1); err != nil {
		return err
	}
	return hooked()
}

// signal is the way a daemon that has been running for a while is told to
// stop: a different one from case to case.
func (w *world) signal() os.Signal {
	return []os.Signal{syscall.SIGTERM, syscall.SIGINT, syscall.SIGQUIT}[(w.cs.At+3)%3]
}

// stop tells the daemon to stop.
func (w *world) stop(sig os.Signal) error {
	w.cmd.Process.Signal(sig)
	return w.stopped()
}

func (w *world) stopped() error {
	if !w.wait(15 * time.Second) {
		w.cmd.Process.Signal(syscall.SIGABRT)
		w.wait(5 * time.Second)
		s := w.out.String()
		if i := strings.Index(s, "SIGABRT"); i >= 0 {
			s = s[i:]
		}
		if len(s) > 3000 {
			s = s[:3000]
		}
		return problem{"stop", "the daemon runs on 15 s after the signal: " + s}
	}
	w.pg.quiet()
	if w.code != 0 && !w.bySignal {
		return problem{"stop", fmt.Sprintf("the daemon told to stop exits with %d: %s", w.code, w.log())}
	}
	return nil
}

// stored is the contents of the database.
type stored struct {
	headers map[int]string
	filters map[string]string
}

func (w *world) stored() stored {
	e := w.pg.e
	e.mu.Lock()
	defer e.mu.Unlock()
	s := stored{map[int]string{}, map[string]string{}}
	if t := e.tables["block_header"]; t != nil {
		for _, r := range t.rows {
			h := r[t.col("height")].(int64)
			s.headers[int(h)] = fmt.Sprintf("%s %x", r[t.col("hash")], r[t.col("header_bytes")])
		}
	}
	if t := e.tables["filter"]; t != nil {
		for _, r := range t.rows {
			s.filters[r[t.col("filter_key")].(string)] = fmt.Sprintf("%x", r[t.col("filter_value")])
		}
	}
	return s
}

// filter finds the filter of the block at height h, however its key is made.
func (s stored) filter(w *world, h int) (v string, ok bool) {
	v, ok = s.filters[w.c.FilterKey(h).String()]
	return
}

// check compares the database with the chain.
func (w *world) check(top int, before stored) (flight bool, err error) {
	e := w.pg.e
	e.mu.Lock()
	open := len(e.open)
	e.mu.Unlock()
	if open > 0 {
		return false, problem{"open", "a transaction is left open"}
	}
	now := w.stored()
	for h, v := range before.headers {
		if now.headers[h] != v {
			return false, problem{"lost", fmt.Sprintf("the stored header of height %d is lost or changed", h)}
		}
	}
	for k, v := range before.filters {
		if now.filters[k] != v {
			return false, problem{"lost", fmt.Sprintf("the stored filter %s is lost or changed", k)}
		}
	}
	if w.pg.dirty || w.pg.version == "" {
		return false, problem{"schema", fmt.Sprintf("the schema is dirty (%v) or has no version %q", w.pg.dirty, w.pg.version)}
	}
	for i := 1; i <= top; i++ {
		b, _ := w.c.Blocks[i].Header.Serialize()
		if want := fmt.Sprintf("%s %x", w.c.Hashes[i], b); now.headers[i] != want {
			return false, problem{"headers", fmt.Sprintf("the header of height %d of %d is missing or wrong: %q", i, top, now.headers[i])}
		}
		f, ok := now.filter(w, i)
		if !ok {
			if _, had := before.headers[i]; had {
				if _, f := before.filter(w, i); !f {
					flight = true
					continue
				}
			}
			return false, problem{"filters", fmt.Sprintf("the filter of height %d of %d is missing", i, top)}
		}
		if want := hex.EncodeToString(w.c.Filters[i]); f != want {
			return false, problem{"filters", fmt.Sprintf("the filter of height %d of %d is %s instead of %s", i, top, f, want)}
		}
	}
	if n := len(now.headers); n > top+1 {
		return false, problem{"headers", fmt.Sprintf("%d headers are stored instead of %d", n, top)}
	}
	return flight, nil
}

func main() {
	var cs Case
	if err := json.Unmarshal([]byte(os.Args[1]), &cs); err != nil {
		panic(err)
	}
	lib.Quiet()
	var res Result
	w := newWorld(cs)
	func() {
		defer func() {
			if r := recover(); r != nil {
				f, ok := r.(failure)
				if !ok {
					panic(r)
				}
				res.Key, res.Fail = f.key, f.msg
			}
		}()
		run(w, &res)
	}()
	if w.cmd != nil && !w.dead() {
		w.cmd.Process.Kill()
		<-w.exited
	}
	os.RemoveAll(w.dir)
	res.Unsupported = w.pg.odd()
	json.NewEncoder(os.Stdout).Encode(res)
}

func must(err error) {
	if p, ok := err.(problem); ok {
		fail(p.key, "%s", p.msg)
	}
	if err != nil {
		panic(err)
	}
}

// arm sets what happens at which event of the process started next.
func (w *world) arm(at int, mode string) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.n, w.at, w.hit, w.trace = 0, at, false, nil
	w.act = func() bool {
		switch mode {
		case "kill":
			w.cmd.Process.Kill()
			<-w.exited
			return true
		case "drop": // only the connection breaks
			return true
		}
		w.cmd.Process.Signal(syscall.SIGTERM)
		return false
	}
}

// life is one start of the daemon until it is stopped, killed or used; hit
// tells whether the event was reached.
func (w *world) life(at int, mode string, from int) (hit bool) {
	w.arm(at, mode)
	w.start()
	if mode == "drop" && at >= 0 {
		// it may go on, wait or end, but must do so properly
		for i := 0; i < 100 && !w.wasHit() && !w.dead(); i++ {
			time.Sleep(50 * time.Millisecond)
		}
		w.wait(2 * time.Second)
		w.cmd.Process.Signal(syscall.SIGTERM)
		if err := w.stopped(); err != nil && w.dead() && !strings.Contains(w.out.String(), "goroutine 0") {
			for _, bad := range crashes {
				if strings.Contains(w.out.String(), bad) {
					fail("drop", "the daemon crashes: %s", w.log())
				}
			}
		} else {
			must(err)
		}
		w.pg.quiet()
		return w.wasHit()
	}
	err := w.use(from)
	if !w.wasHit() {
		must(err)
		must(w.stop(w.signal()))
		return w.wasHit()
	}
	if mode == "kill" {
		<-w.exited
		w.pg.quiet()
		return true
	}
	must(w.stopped())
	return true
}

func run(w *world, res *Result) {
	cs := w.cs
	switch cs.Mode {
	case "run", "kill", "term", "drop":
		hit := w.life(cs.At, cs.Mode, 1)
		res.Events, res.Trace = w.n, w.trace
		if !hit && cs.Mode != "drop" {
			_, err := w.check(cs.Top+1, stored{})
			must(err)
		}
		first := w.stored()
		before := first
		for i := 0; i < cs.Grow; i++ {
			w.mu.Lock()
			w.tip++
			w.mu.Unlock()
		}
		if cs.Again >= 0 {
			w.life(cs.Again, cs.Mode, w.tip)
			before = w.stored()
			for h, v := range first.headers {
				if before.headers[h] != v {
					fail("lost", "the stored header of height %d is lost or changed", h)
				}
			}
			for k, v := range first.filters {
				if before.filters[k] != v {
					fail("lost", "the stored filter %s is lost or changed", k)
				}
			}
		}
		w.mu.Lock()
		from := w.tip
		if cs.Again >= 0 {
			w.tip++
			from++
		}
		w.mu.Unlock()
		w.life(-1, "", from)
		res.Second = w.n
		flight, err := w.check(w.tip, before)
		must(err)
		res.Flight = flight
		res.State = fmt.Sprintf("%d headers %d filters at the break", len(before.headers), len(before.filters))
	case "stuck":
		// the peer stops answering at some message of the handshake or the sync
		n := 0
		w.arm(-1, "")
		w.mu.Lock()
		w.silent = func() bool { n++; return n > cs.At }
		w.mu.Unlock()
		w.start()
		time.Sleep(1500 * time.Millisecond)
		if w.dead() {
			fail("stuck", "with a peer that is silent after %d messages the daemon exits with %d: %s", cs.At, w.code, w.log())
		}
		must(w.stop([]os.Signal{syscall.SIGTERM, syscall.SIGINT}[cs.At%2]))
	default:
		refusal(w, cs.Mode)
	}
}

var crashes = []string{"nil pointer", "index out of range", "all goroutines are asleep", "invalid memory address", "concurrent map", "send on closed", "close of closed"}

// refusal: what the daemon needs is not there.
func refusal(w *world, mode string) {
	var env []string
	switch mode {
	case "address in use":
		l, err := net.Listen("tcp", w.addr)
		if err != nil {
			panic(err)
		}
		defer l.Close()
	case "malformed address":
		env = append(env, "NEUTRINO_ELEMENTS_NEUTRINOD_URL=nonsense")
	case "database down":
		w.pg.l.Close()
	case "peer down":
		w.peerL.Close()
	case "malformed peer":
		env = append(env, "NEUTRINO_ELEMENTS_PEER_URL=nonsense")
	case "unknown network":
		env = append(env, "NEUTRINO_ELEMENTS_NETWORK=mainnet")
	case "no migrations":
		env = append(env, "NEUTRINO_ELEMENTS_DB_MIGRATION_PATH=file:///nonexistent/verif")
	default:
		panic(mode)
	}
	w.arm(-1, "")
	w.start(env...)
	if !w.wait(20 * time.Second) {
		fail("refusal", "%s: the daemon runs on: %s", mode, w.log())
	}
	if w.code == 0 {
		fail("refusal", "%s: the daemon exits as if all was well: %s", mode, w.log())
	}
	s := w.out.String()
	for _, bad := range crashes {
		if strings.Contains(s, bad) {
			fail("refusal", "%s: the daemon crashes: %s", mode, w.log())
		}
	}
}
