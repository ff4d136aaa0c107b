package lib

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"sync"
	"time"

	"github.com/vulpemventures/go-elements/block"
	"github.com/vulpemventures/go-elements/transaction"

	"verif/vs"
)

// Magic is the network of the harnesses (regtest).
var Magic = [4]byte{0x12, 0x34, 0x56, 0x78}

// W builds wire bytes, independently of the code under test.
type W struct{ B []byte }

func (w *W) U8(v uint8) *W    { w.B = append(w.B, v); return w }
func (w *W) U16(v uint16) *W  { w.B = binary.LittleEndian.AppendUint16(w.B, v); return w }
func (w *W) U32(v uint32) *W  { w.B = binary.LittleEndian.AppendUint32(w.B, v); return w }
func (w *W) U64(v uint64) *W  { w.B = binary.LittleEndian.AppendUint64(w.B, v); return w }
func (w *W) Raw(b []byte) *W  { w.B = append(w.B, b...); return w }
func (w *W) Blob(b []byte) *W { return w.CS(uint64(len(b))).Raw(b) }

// CS is a compact size integer.
func (w *W) CS(v uint64) *W {
	switch {
	case v < 0xfd:
		return w.U8(uint8(v))
	case v <= 0xffff:
		return w.U8(0xfd).U16(uint16(v))
	case v <= 0xffffffff:
		return w.U8(0xfe).U32(uint32(v))
	}
	return w.U8(0xff).U64(v)
}

// Head is a header on the wire.
func (w *W) Head(h *block.Header) *W {
	w.U32(h.Version).Raw(h.PrevBlockHash).Raw(h.MerkleRoot).U32(h.Timestamp).U32(h.Height)
	return w.Blob(h.ExtData.Proof.Challenge).Blob(h.ExtData.Proof.Solution)
}

// Frame is an enveloped message.
func Frame(cmd string, payload []byte) []byte { return FrameM(Magic, cmd, payload) }

func FrameM(magic [4]byte, cmd string, payload []byte) []byte {
	w := &W{}
	c := make([]byte, 12)
	copy(c, cmd)
	h := sha256.Sum256(payload)
	h = sha256.Sum256(h[:])
	return w.Raw(magic[:]).Raw(c).U32(uint32(len(payload))).Raw(h[:4]).Raw(payload).B
}

func VersionMsg(services uint64, start int32) []byte {
	w := &W{}
	w.U32(70016).U64(services).U64(1573430400)
	ip := func(s uint64) {
		w.U64(s).Raw([]byte{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff, 10, 0, 0, 7, 0x49, 0xc6})
	}
	ip(65)
	ip(64)
	w.U64(31337).Blob([]byte("/peer:1/")).U32(uint32(start)).U8(1)
	return Frame("version", w.B)
}

func PingMsg(cmd string, nonce uint64) []byte { return Frame(cmd, (&W{}).U64(nonce).B) }

func HeadersMsg(hs ...*block.Header) []byte {
	w := (&W{}).CS(uint64(len(hs)))
	for _, h := range hs {
		w.Head(h).U8(0)
	}
	return Frame("headers", w.B)
}

func BlockMsg(b *block.Block) []byte {
	w := (&W{}).Head(b.Header).CS(uint64(len(b.TransactionsData.Transactions)))
	for _, t := range b.TransactionsData.Transactions {
		w.Raw(TxBytes(t))
	}
	return Frame("block", w.B)
}

func TxBytes(t *transaction.Transaction) []byte {
	b, err := t.Serialize()
	if err != nil {
		panic(err)
	}
	return b
}

func TxMsg(t *transaction.Transaction) []byte { return Frame("tx", TxBytes(t)) }

// Inv is an inventory item.
type Inv struct {
	Type uint32
	Hash [32]byte
}

func InvMsg(items ...Inv) []byte {
	w := (&W{}).CS(uint64(len(items)))
	for _, i := range items {
		w.U32(i.Type).Raw(i.Hash[:])
	}
	return Frame("inv", w.B)
}

func CFilterMsg(typ byte, hash [32]byte, filter []byte) []byte {
	return Frame("cfilter", (&W{}).U8(typ).Raw(hash[:]).Blob(filter).B)
}

func GetCFiltersMsg(typ byte, start uint32, stop [32]byte) []byte {
	return Frame("getcfilters", (&W{}).U8(typ).U32(start).Raw(stop[:]).B)
}

// R reads wire bytes; Bad is set when they run out.
type R struct {
	B   []byte
	Bad bool
}

func (r *R) Take(n int) []byte {
	if n > len(r.B) || n < 0 {
		r.Bad = true
		r.B = nil
		return make([]byte, n&0xffff)
	}
	o := r.B[:n]
	r.B = r.B[n:]
	return o
}
func (r *R) U32() uint32 { return binary.LittleEndian.Uint32(r.Take(4)) }
func (r *R) U64() uint64 { return binary.LittleEndian.Uint64(r.Take(8)) }
func (r *R) CS() uint64 {
	switch b := r.Take(1)[0]; b {
	case 0xfd:
		return uint64(binary.LittleEndian.Uint16(r.Take(2)))
	case 0xfe:
		return uint64(r.U32())
	case 0xff:
		return r.U64()
	default:
		return uint64(b)
	}
}
func (r *R) H32() (h [32]byte) { copy(h[:], r.Take(32)); return }

// End reports whether everything was read and nothing was missing.
func (r *R) End() bool { return !r.Bad && len(r.B) == 0 }

// Msg is a message the code under test sent.
type Msg struct {
	Cmd     string
	Payload []byte
}

// ParseInv parses inv and getdata payloads.
func ParseInv(p []byte) (out []Inv, ok bool) {
	r := &R{B: p}
	n := r.CS()
	for i := uint64(0); i < n && !r.Bad; i++ {
		t := r.U32()
		out = append(out, Inv{t, r.H32()})
	}
	return out, r.End()
}

// ParseGetHeaders returns the locator hashes and the stop hash.
func ParseGetHeaders(p []byte) (loc [][32]byte, stop [32]byte, ok bool) {
	r := &R{B: p}
	r.U32()
	n := r.CS()
	for i := uint64(0); i < n && !r.Bad; i++ {
		loc = append(loc, r.H32())
	}
	stop = r.H32()
	return loc, stop, r.End()
}

// Conn is the node's end of a connection to a simulated peer.
type Conn struct {
	Name   string
	mu     sync.Mutex
	cond   *sync.Cond
	in     []byte
	raw    []byte
	eof    bool
	closed bool
	Closes int
	msgs   []Msg
	bad    string // what was wrong with the bytes written
	// OnMsg is called for every complete message written, in order
	OnMsg func(m Msg)
	// OnWrite may make a write fail
	OnWrite func(b []byte) error
	// Frag decides how many of the available bytes a read returns
	Frag func(avail int) int
	// Late counts the messages written after Mark
	marked bool
	Late   []Msg
	local  net.Addr
	remote net.Addr
	rdl    time.Time
	wdl    time.Time
}

func NewConn(name string, localPort int) *Conn {
	c := &Conn{Name: name, local: &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: localPort}, remote: &net.TCPAddr{IP: net.IPv4(10, 0, 0, 7), Port: 18886}}
	c.cond = sync.NewCond(&c.mu)
	return c
}

// Deliver hands bytes of the peer to the node.
func (c *Conn) Deliver(b ...[]byte) {
	c.mu.Lock()
	for _, x := range b {
		c.in = append(c.in, x...)
	}
	c.mu.Unlock()
	c.cond.Broadcast()
}

// Hangup ends the stream after what was delivered.
func (c *Conn) Hangup() {
	c.mu.Lock()
	c.eof = true
	c.mu.Unlock()
	c.cond.Broadcast()
}

// Unread is the number of bytes delivered and not read yet.
func (c *Conn) Unread() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.in)
}

// Closed reports whether the node closed the connection.
func (c *Conn) Closed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closed
}

// Fault notes that the bytes written were wrong.
func (c *Conn) Fault(s string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.bad = s
}

// Bad tells what was wrong with the bytes written.
func (c *Conn) Bad() string {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.bad
}

// SetFrag changes how reads are split.
func (c *Conn) SetFrag(f func(n int) int) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.Frag = f
}

// SetOnWrite changes what happens on a write.
func (c *Conn) SetOnWrite(f func(b []byte) error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.OnWrite = f
}

// LateMsgs lists what was sent after Mark.
func (c *Conn) LateMsgs() []Msg {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]Msg{}, c.Late...)
}

// Mark starts counting late messages.
func (c *Conn) Mark() {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.marked = true
}

// Msgs lists what the node sent.
func (c *Conn) Msgs() []Msg {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]Msg{}, c.msgs...)
}

// Cmds lists the commands sent, optionally only some of them.
func (c *Conn) Cmds(only ...string) (out []string) {
	for _, m := range c.Msgs() {
		keep := len(only) == 0
		for _, o := range only {
			keep = keep || o == m.Cmd
		}
		if keep {
			out = append(out, m.Cmd)
		}
	}
	return
}

// Of lists the payloads sent with the command.
func (c *Conn) Of(cmd string) (out [][]byte) {
	for _, m := range c.Msgs() {
		if m.Cmd == cmd {
			out = append(out, m.Payload)
		}
	}
	return
}

func (c *Conn) Read(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for len(c.in) == 0 && !c.eof && !c.closed && !past(c.rdl) {
		if c.rdl.IsZero() {
			c.cond.Wait()
			continue
		}
		t := time.AfterFunc(time.Until(c.rdl), c.cond.Broadcast)
		c.cond.Wait()
		t.Stop()
	}
	if c.closed {
		return 0, net.ErrClosed
	}
	if past(c.rdl) {
		return 0, os.ErrDeadlineExceeded
	}
	if len(c.in) == 0 {
		return 0, io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := len(c.in)
	if len(p) < n {
		n = len(p)
	}
	if c.Frag != nil && n > 1 {
		if f := c.Frag(n); f < n {
			n = f
		}
	}
	copy(p, c.in[:n])
	c.in = c.in[n:]
	return n, nil
}

func (c *Conn) Write(p []byte) (int, error) {
	vs.Point()
	c.mu.Lock()
	f := c.OnWrite
	c.mu.Unlock()
	if f != nil {
		if err := f(p); err != nil {
			return 0, err
		}
	}
	c.mu.Lock()
	if c.closed {
		c.mu.Unlock()
		return 0, net.ErrClosed
	}
	if past(c.wdl) {
		c.mu.Unlock()
		return 0, os.ErrDeadlineExceeded
	}
	c.raw = append(c.raw, p...)
	var done []Msg
	for len(c.raw) >= 24 && c.bad == "" {
		if !bytes.Equal(c.raw[:4], Magic[:]) {
			c.bad = fmt.Sprintf("bytes that are no message: %x", c.raw[:4])
			break
		}
		n := int(binary.LittleEndian.Uint32(c.raw[16:]))
		if len(c.raw) < 24+n {
			break
		}
		cmd := bytes.TrimRight(c.raw[4:16], "\x00")
		m := Msg{string(cmd), append([]byte{}, c.raw[24:24+n]...)}
		if want := Frame(m.Cmd, m.Payload); !bytes.Equal(want, c.raw[:24+n]) {
			c.bad = fmt.Sprintf("malformed envelope %x", c.raw[:24])
		}
		c.raw = c.raw[24+n:]
		c.msgs = append(c.msgs, m)
		if c.marked {
			c.Late = append(c.Late, m)
		}
		done = append(done, m)
	}
	c.mu.Unlock()
	if c.OnMsg != nil {
		for _, m := range done {
			c.OnMsg(m)
		}
	}
	return len(p), nil
}

func (c *Conn) Close() error {
	c.mu.Lock()
	was := c.closed
	c.closed = true
	c.Closes++
	c.mu.Unlock()
	c.cond.Broadcast()
	if was {
		return net.ErrClosed
	}
	return nil
}

func (c *Conn) LocalAddr() net.Addr  { return c.local }
func (c *Conn) RemoteAddr() net.Addr { return c.remote }

// past: a deadline that has passed fails every operation, as in package net
func past(t time.Time) bool { return !t.IsZero() && !time.Now().Before(t) }

func (c *Conn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}

func (c *Conn) SetReadDeadline(t time.Time) error {
	c.mu.Lock()
	c.rdl = t
	c.mu.Unlock()
	c.cond.Broadcast()
	return nil
}

func (c *Conn) SetWriteDeadline(t time.Time) error {
	c.mu.Lock()
	c.wdl = t
	c.mu.Unlock()
	return nil
}

// ErrWrite is the error of a failing write.
var ErrWrite = errors.New("injected write error")

// Honest is a peer that serves a chain.
type Honest struct {
	mu    sync.Mutex
	C     *Chain
	Conn  *Conn
	tip   int
	Batch int // headers per message
	// Answered counts the getheaders answered
	Answered int
	NoPong   bool
	// Refuse drops messages by command
	Refuse map[string]bool
}

// NewHonest is a peer serving the first tip+1 blocks of c.
func NewHonest(c *Chain, tip int, conn *Conn) *Honest {
	h := &Honest{C: c, Conn: conn, tip: tip, Batch: 2000}
	conn.OnMsg = h.Handle
	return h
}

func (h *Honest) Tip() int {
	h.mu.Lock()
	defer h.mu.Unlock()
	return h.tip
}

// Mine makes the next block visible without announcing it.
func (h *Honest) Mine() int {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.tip++
	return h.tip
}

func (h *Honest) Handle(m Msg) {
	if h.Refuse[m.Cmd] {
		return
	}
	switch m.Cmd {
	case "version":
		h.Conn.Deliver(VersionMsg(65, int32(h.Tip())), Frame("verack", nil))
	case "ping":
		if !h.NoPong {
			h.Conn.Deliver(Frame("pong", m.Payload))
		}
	case "getheaders":
		loc, _, ok := ParseGetHeaders(m.Payload)
		if !ok {
			h.Conn.Fault("malformed getheaders")
			return
		}
		from := 0
		for _, l := range loc {
			if i := h.C.HeightOf(l); i >= 0 && i <= h.Tip() {
				from = i
				break
			}
		}
		var hs []*block.Header
		for i := from + 1; i <= h.Tip() && len(hs) < h.Batch; i++ {
			hs = append(hs, h.C.Blocks[i].Header)
		}
		h.mu.Lock()
		h.Answered++
		h.mu.Unlock()
		h.Conn.Deliver(HeadersMsg(hs...))
	case "getdata":
		inv, ok := ParseInv(m.Payload)
		if !ok {
			h.Conn.Fault("malformed getdata")
			return
		}
		for _, i := range inv {
			if k := h.C.HeightOf(i.Hash); k >= 0 && k <= h.Tip() {
				h.Conn.Deliver(BlockMsg(h.C.Blocks[k]))
			}
		}
	case "getcfilters":
		r := &R{B: m.Payload}
		typ := r.Take(1)[0]
		start := r.U32()
		stop := h.C.HeightOf(r.H32())
		if !r.End() || typ != 0 || stop < 0 {
			h.Conn.Fault("malformed getcfilters")
			return
		}
		for i := int(start); i <= stop; i++ {
			h.Conn.Deliver(CFilterMsg(0, h.C.Hashes[i], h.C.Filters[i]))
		}
	}
}
