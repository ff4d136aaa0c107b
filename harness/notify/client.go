package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"strings"
	"sync"
	"time"

	"verif/vs"
)

// wsClient is a web-socket client together with its connection: the daemon
// holds the other end.
type wsClient struct {
	name   string
	mu     sync.Mutex
	cond   *sync.Cond
	in     []byte // bytes the daemon has not read
	out    []byte // bytes the daemon wrote, not parsed yet
	eof    bool
	closed bool // by the daemon
	stall  bool // the client does not read
	broken bool // writes fail
	up     bool // the upgrade response was seen
	texts  []string
	bad    string
	rdl    time.Time
	wdl    time.Time
}

func newWs(name string) *wsClient {
	c := &wsClient{name: name}
	c.cond = sync.NewCond(&c.mu)
	return c
}

func (c *wsClient) Read(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for len(c.in) == 0 && !c.eof && !c.closed {
		if !c.wait(c.rdl) {
			return 0, os.ErrDeadlineExceeded
		}
	}
	if c.closed {
		return 0, net.ErrClosed
	}
	if past(c.rdl) {
		return 0, os.ErrDeadlineExceeded
	}
	if len(c.in) == 0 {
		return 0, io.EOF
	}
	n := copy(p, c.in)
	c.in = c.in[n:]
	return n, nil
}

// past: a deadline that has passed fails every operation, as in package net
func past(t time.Time) bool { return !t.IsZero() && !time.Now().Before(t) }

// wait waits for a change or the deadline.
func (c *wsClient) wait(dl time.Time) bool {
	if dl.IsZero() {
		c.cond.Wait()
		return true
	}
	if !time.Now().Before(dl) {
		return false
	}
	t := time.AfterFunc(time.Until(dl), c.cond.Broadcast)
	c.cond.Wait()
	t.Stop()
	return time.Now().Before(dl)
}

func (c *wsClient) Write(p []byte) (int, error) {
	vs.Point()
	c.mu.Lock()
	defer c.mu.Unlock()
	for c.stall && !c.closed && !c.broken {
		if !c.wait(c.wdl) {
			return 0, os.ErrDeadlineExceeded
		}
	}
	if c.closed {
		return 0, net.ErrClosed
	}
	if c.broken {
		return 0, io.ErrClosedPipe
	}
	if past(c.wdl) {
		return 0, os.ErrDeadlineExceeded
	}
	c.out = append(c.out, p...)
	c.parse()
	return len(p), nil
}

func (c *wsClient) parse() {
	if !c.up {
		i := bytes.Index(c.out, []byte("\r\n\r\n"))
		if i < 0 {
			return
		}
		if !bytes.HasPrefix(c.out, []byte("HTTP/1.1 101 ")) {
			c.bad = "the upgrade was refused"
		}
		c.out = c.out[i+4:]
		c.up = true
	}
	for c.bad == "" && len(c.out) >= 2 {
		b0, n, o := c.out[0], int(c.out[1]), 2
		if n&0x80 != 0 || b0&0x70 != 0 {
			c.bad = fmt.Sprintf("bytes that are no frame of a server: %q", c.out)
			return
		}
		switch n {
		case 126:
			if len(c.out) < 4 {
				return
			}
			n, o = int(binary.BigEndian.Uint16(c.out[2:])), 4
		case 127:
			if len(c.out) < 10 {
				return
			}
			n, o = int(binary.BigEndian.Uint64(c.out[2:])), 10
		}
		if len(c.out) < o+n {
			return
		}
		p := c.out[o : o+n]
		c.out = c.out[o+n:]
		switch b0 {
		case 0x81, 0x82: // complete message
			c.texts = append(c.texts, string(p))
		case 0x88, 0x89, 0x8a: // control
		default:
			c.bad = fmt.Sprintf("bytes that are no frame of a server: %x %q", b0, p)
		}
	}
}

func (c *wsClient) Close() error {
	c.mu.Lock()
	was := c.closed
	c.closed = true
	c.mu.Unlock()
	c.cond.Broadcast()
	if was {
		return net.ErrClosed
	}
	return nil
}

func (c *wsClient) LocalAddr() net.Addr {
	return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 8000}
}
func (c *wsClient) RemoteAddr() net.Addr {
	return &net.TCPAddr{IP: net.IPv4(10, 0, 0, 9), Port: 40000}
}

func (c *wsClient) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}

func (c *wsClient) SetReadDeadline(t time.Time) error {
	c.mu.Lock()
	c.rdl = t
	c.mu.Unlock()
	c.cond.Broadcast()
	return nil
}

func (c *wsClient) SetWriteDeadline(t time.Time) error {
	c.mu.Lock()
	c.wdl = t
	c.mu.Unlock()
	c.cond.Broadcast()
	return nil
}

// Header, WriteHeader and Hijack make it the response writer of the upgrade.
type hijack struct {
	c *wsClient
	h http.Header
}

func (h *hijack) Header() http.Header { return h.h }
func (h *hijack) WriteHeader(int)     {}
func (h *hijack) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	return h.c, bufio.NewReadWriter(bufio.NewReader(h.c), bufio.NewWriter(h.c)), nil
}
func (h *hijack) Write(p []byte) (int, error) {
	h.c.mu.Lock()
	defer h.c.mu.Unlock()
	h.c.bad = "the upgrade was refused: " + string(p)
	return len(p), nil
}

func wsRequest() *http.Request {
	r, _ := http.NewRequest("GET", "/neutrino/subscribe/ws", nil)
	r.Header.Set("Connection", "Upgrade")
	r.Header.Set("Upgrade", "websocket")
	r.Header.Set("Sec-WebSocket-Version", "13")
	r.Header.Set("Sec-WebSocket-Key", "dGhlIHNhbXBsZSBub25jZQ==")
	return r
}

func frame(op byte, p []byte) []byte {
	b := []byte{0x80 | op}
	switch {
	case len(p) < 126:
		b = append(b, 0x80|byte(len(p)))
	default:
		b = append(b, 0x80|126, byte(len(p)>>8), byte(len(p)))
	}
	b = append(b, 0, 0, 0, 0)
	return append(b, p...)
}

// send hands text messages of the client to the daemon.
func (c *wsClient) send(msgs ...string) {
	c.mu.Lock()
	for _, m := range msgs {
		c.in = append(c.in, frame(1, []byte(m))...)
	}
	c.mu.Unlock()
	c.cond.Broadcast()
}

// bye closes the connection from the client's side, with or without a close frame.
func (c *wsClient) bye(clean bool) {
	c.mu.Lock()
	if clean {
		c.in = append(c.in, frame(8, []byte{3, 232})...)
	}
	c.eof = true
	c.broken = true
	c.mu.Unlock()
	c.cond.Broadcast()
}

func (c *wsClient) setStall(v bool) {
	c.mu.Lock()
	c.stall = v
	c.mu.Unlock()
	c.cond.Broadcast()
}

func (c *wsClient) isClosed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closed
}

// got classifies what the client received: "ok", "err", "ev:kind:txid" or "?text".
func (c *wsClient) got() (out []string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, t := range c.texts {
		out = append(out, classify(t))
	}
	if c.bad != "" {
		out = append(out, "?"+c.bad)
	}
	return
}

func (c *wsClient) only(prefix string) (out []string) {
	for _, g := range c.got() {
		if strings.HasPrefix(g, prefix) {
			out = append(out, g)
		}
	}
	return
}

func classify(t string) string {
	var m map[string]interface{}
	d := json.NewDecoder(strings.NewReader(t))
	if err := d.Decode(&m); err != nil || d.More() {
		return "?" + t
	}
	str := func(k string) (string, bool) {
		s, ok := m[k].(string)
		return s, ok && s != "" && len(m) > 0
	}
	if e, ok := str("errorMessage"); ok && len(m) == 1 {
		_ = e
		return "err"
	}
	if k, ok := str("eventType"); ok && len(m) >= 2 {
		if x, ok := str("txId"); ok {
			return "ev:" + k + ":" + x
		}
	}
	if x, ok := str("message"); ok && len(m) == 1 {
		_ = x
		return "ok"
	}
	return "?" + t
}
