// Package main checks the wire codec on the whole of several finite spaces of
// messages, fragmentations and corruptions.
package main

import (
	"bytes"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"reflect"
	"runtime"

	"github.com/btcsuite/btcd/blockchain"
	"github.com/btcsuite/btcd/chaincfg/chainhash"
	"github.com/vulpemventures/go-elements/block"
	"github.com/vulpemventures/neutrino-elements/pkg/binary"
	"github.com/vulpemventures/neutrino-elements/pkg/protocol"

	"github.com/vulpemventures/neutrino-elements/vsharness/lib"
	"verif/vs"
)

var nets = map[string][4]byte{"liquid": {0xfa, 0xbf, 0xb5, 0xda}, "testnet": {0x41, 0x0e, 0xdd, 0x62}, "regtest": {0x12, 0x34, 0x56, 0x78}}
var netNames = []string{"liquid", "testnet", "regtest"}

func short(b []byte) string {
	if len(b) > 120 {
		return fmt.Sprintf("%x…(%d bytes)", b[:120], len(b))
	}
	return fmt.Sprintf("%x", b)
}

func clip(s string) string {
	if len(s) > 300 {
		return s[:300] + "…"
	}
	return s
}

// envl checks a message built by the library against the protocol.
func envl(e *vs.Enum, what string, m *protocol.Message, err error, magic [4]byte, cmd string, payload []byte) {
	if err != nil {
		e.Fail("C01", "build/"+cmd, "%s: the message could not be built: %v", what, err)
	}
	b, err := binary.Marshal(m)
	if err != nil {
		e.Fail("C01", "encode/"+cmd, "%s: the message could not be encoded: %v", what, err)
	}
	want := envelope(magic, cmd, payload)
	if !bytes.Equal(b, want) {
		i := 0
		for i < len(b) && i < len(want) && b[i] == want[i] {
			i++
		}
		e.Fail("C01", "wire/"+cmd, "%s: the encoded message has %d bytes, the protocol's has %d, they differ from byte %d on: %s, want %s", what, len(b), len(want), i, short(b[min(i, len(b)):]), short(want[min(i, len(want)):]))
	}
	// the header is read back as it was written
	var h protocol.MessageHeader
	if err := binary.NewDecoder(bytes.NewReader(b)).Decode(&h); err != nil {
		e.Fail("C01", "header/"+cmd, "%s: the header is not decoded: %v", what, err)
	}
	if h.Magic != magic || h.CommandString() != cmd || h.Length != uint32(len(payload)) || !bytes.Equal(h.Checksum[:], want[20:24]) {
		e.Fail("C01", "header/"+cmd, "%s: the header is decoded as %+v", what, h)
	}
	if err := h.Validate(); err != nil {
		e.Fail("C01", "header/"+cmd, "%s: the header is refused: %v", what, err)
	}
}

func roundTrip(e *vs.Enum, m *msg) {
	for i, n := range netNames {
		if i != len(m.wire)%3 && len(m.wire) > 2000 {
			continue
		}
		if m.val != nil {
			pm, err := protocol.NewMessage(m.cmd, nets[n], m.val)
			envl(e, m.name+" on "+n, pm, err, nets[n], m.cmd, m.wire)
		}
	}
	if m.dec == nil {
		e.Distinct(m.cmd + fmt.Sprint(len(m.wire)))
		return
	}
	got, err := m.dec(bytes.NewReader(m.wire))
	if err != nil {
		e.Fail("C01", "decode/"+m.cmd, "%s: not decoded: %v", m.name, err)
	}
	if got != m.want {
		e.Fail("C01", "value/"+m.cmd, "%s: decoded as %s, want %s", m.name, clip(got), clip(m.want))
	}
	e.Distinct(m.cmd + m.want)
}

func one(e *vs.Enum, f func() *msg) {
	var m *msg
	e.Case(func() string {
		if m == nil {
			m = f()
		}
		return m.name
	}, func() {
		m = f()
		roundTrip(e, m)
	})
}

func enumVersion(e *vs.Enum) {
	vv := verVariants()
	for i := range vv {
		for _, a := range vv[i] {
			for j := i; j < len(vv); j++ {
				for bi, b := range vv[j] {
					if j == i && bi > 0 {
						break
					}
					a, b, i, j := a, b, i, j
					one(e, func() *msg {
						f := baseVer()
						if i != j {
							b(&f)
						}
						a(&f)
						return verMsg(f)
					})
				}
			}
		}
	}
}

func enumSmall(e *vs.Enum) {
	for _, c := range []string{"ping", "pong"} {
		for k := 0; k < 64; k++ {
			for _, d := range []uint64{0, ^uint64(0), 1} {
				c, n := c, uint64(1)<<k+d
				one(e, func() *msg { return pingMsg(c, n) })
			}
		}
	}
	for _, b := range []bool{true, false} {
		for _, v := range u64s {
			b, v := b, v
			one(e, func() *msg { return cmpctMsg(b, v) })
		}
	}
	for t := 0; t < 256; t++ {
		for _, s := range []uint32{0, 1, 255, 256, 65535, 65536, 0x01020304, 1<<31 - 1, 1 << 31, 1<<32 - 1} {
			t, s := byte(t), s
			one(e, func() *msg { return getCFiltersMsg(t, s, hash32(t)) })
		}
	}
	for _, n := range netNames {
		n := n
		e.Case(func() string { return "verack and sendheaders on " + n }, func() {
			m, err := protocol.NewVerackMsg(nets[n])
			envl(e, "verack", m, err, nets[n], "verack", nil)
			m, err = protocol.NewSendHeadersMessage(nets[n])
			envl(e, "sendheaders", m, err, nets[n], "sendheaders", nil)
			for _, c := range []string{"block", "getdata", "inv", "ping", "pong", "tx", "verack", "version", "getheaders", "headers", "sendheaders", "sendcmpct", "getcfilters", "cfilter"} {
				m, err = protocol.NewMessage(c, nets[n], []byte{1, 2, 3})
				envl(e, c, m, err, nets[n], c, []byte{1, 2, 3})
			}
			if m, err := protocol.NewMessage("nosuchcmd", nets[n], []byte{}); err == nil {
				e.Fail("C01", "unknown", "a message with the unknown command is built: %+v", m)
			}
			for i := 0; i < 5; i++ {
				m, nonce, err := protocol.NewPingMsg(nets[n])
				envl(e, "new ping", m, err, nets[n], "ping", (&wr{}).u64(nonce).b)
				m, err = protocol.NewPongMsg(nets[n], nonce)
				envl(e, "new pong", m, err, nets[n], "pong", (&wr{}).u64(nonce).b)
			}
			e.Distinct(n)
		})
		for _, ua := range []int{0, 1, 12, 252, 253, 256, 300} {
			for _, sv := range []protocol.ServiceFlag{0, 1, 64, 65} {
				for _, port := range []uint16{0, 255, 256, 18886} {
					ua, sv, port := ua, sv, port
					e.Case(func() string { return fmt.Sprint("new version on ", n, ua, sv, port) }, func() {
						agent := string(pattern(ua, 0x20))
						m, err := protocol.NewVersionMsg(nets[n], agent, protocol.IPv4{1, 2, 3, 4}, port, sv)
						if err != nil {
							e.Fail("C01", "build/version", "%v", err)
						}
						if len(m.Payload) < 80 {
							e.Fail("C01", "wire/version", "the payload has %d bytes", len(m.Payload))
						}
						ts := int64(uint64(m.Payload[12]) | uint64(m.Payload[13])<<8 | uint64(m.Payload[14])<<16 | uint64(m.Payload[15])<<24 | uint64(m.Payload[16])<<32)
						var nonce uint64
						for i := 0; i < 8; i++ {
							nonce |= uint64(m.Payload[72+i]) << (8 * uint(i))
						}
						w := verMsg(verF{version: 70016, services: uint64(sv), ts: ts, rs: uint64(sv) | 1, rip: [4]byte{1, 2, 3, 4}, rport: port, fs: uint64(sv), fip: [4]byte{127, 0, 0, 1}, fport: 9334, nonce: nonce, ua: agent, start: -1, relay: true})
						envl(e, "new version", m, nil, nets[n], "version", w.wire)
						e.Distinct(fmt.Sprint(ua, sv, port))
					})
				}
			}
		}
	}
}

func enumInventory(e *vs.Enum) {
	top := 600
	if e.Tier == "thorough" {
		top = 3000
	}
	ns := []int{}
	for n := 0; n <= top; n++ {
		ns = append(ns, n)
	}
	ns = append(ns, 50000, 65535, 65536)
	for _, n := range ns {
		n := n
		one(e, func() *msg { return invMsg(n) })
		one(e, func() *msg { return getDataMsg(n) })
	}
}

func enumGetHeaders(e *vs.Enum) {
	for n := 0; n <= 500; n++ {
		n := n
		one(e, func() *msg { return getHeadersMsg(70016, n, hash32(byte(n))) })
		e.Case(func() string { return fmt.Sprint("new getheaders with ", n, " locators") }, func() {
			var bl blockchain.BlockLocator
			w := (&wr{}).u32(70016).cs(uint64(n))
			for i := 0; i < n; i++ {
				h := chainhash.Hash(hash32(byte(i)))
				h[31] = byte(i >> 8)
				bl = append(bl, &h)
				w.raw(h[:])
			}
			stop := hash32(77)
			w.raw(stop[:])
			m, err := protocol.NewMsgGetHeaders(nets["regtest"], stop, bl)
			envl(e, "new getheaders", m, err, nets["regtest"], "getheaders", w.b)
			e.Distinct(fmt.Sprint(n))
		})
	}
	for _, v := range []uint32{0, 1, 70015, 1<<31 - 1, 1 << 31, 1<<32 - 1} {
		for _, n := range []int{0, 1, 31, 252, 253} {
			v, n := v, n
			one(e, func() *msg { return getHeadersMsg(v, n, [32]byte{}) })
		}
	}
}

func enumCFilter(e *vs.Enum) {
	top := 700
	if e.Tier == "thorough" {
		top = 4000
	}
	for n := 0; n <= top; n++ {
		n := n
		one(e, func() *msg { return cfilterMsg(hash32(byte(n)), n%300, filterData(n)) })
	}
	for _, n := range []int{65533, 65534, 65535, 65536, 1 << 17, 1 << 20, 3900000} {
		for _, el := range []int{1, 252, 253, 65535, 65536, 1 << 20} {
			n, el := n, el
			one(e, func() *msg { return cfilterMsg(hash32(byte(n)), el, filterData(n)) })
		}
	}
	// the constructor
	for _, n := range []int{0, 1, 5, 252, 253, 300} {
		n := n
		e.Case(func() string { return fmt.Sprint("new cfilter of ", n) }, func() {
			h := chainhash.Hash(hash32(byte(n)))
			w := cfilterMsg(h, 1, filterData(n))
			m, err := protocol.NewMsgCFilter(nets["liquid"], &h, w.val.(protocol.MsgCFilter).Filter)
			envl(e, "new cfilter", m, err, nets["liquid"], "cfilter", w.wire)
		})
	}
	for _, d := range [][2]uint32{{0, 0}, {5, 5}, {5, 6}, {1, 1000}, {0, 999}, {0, 1000}, {7, 6}, {10, 1200}} {
		d := d
		e.Case(func() string { return fmt.Sprint("new getcfilters ", d) }, func() {
			a, b := mkHeader(0, d[0], 1), mkHeader(0, d[1], 2)
			hb, _ := b.Hash()
			m, err := protocol.NewGetCFilters(nets["testnet"], a, b)
			if d[1] < d[0] || d[1]-d[0] >= 1000 {
				if err == nil {
					e.Fail("C01", "range/getcfilters", "a request for the heights %d to %d is built", d[0], d[1])
				}
				return
			}
			envl(e, "new getcfilters", m, err, nets["testnet"], "getcfilters", (&wr{}).u8(0).u32(d[0]).raw(hb[:]).b)
		})
	}
}

func enumHeaders(e *vs.Enum) {
	for a := 0; a < headerKinds; a++ {
		a := a
		one(e, func() *msg { return headersMsg([]int{a}, 0) })
		for b := 0; b < headerKinds; b++ {
			b := b
			one(e, func() *msg { return headersMsg([]int{a, b}, 1<<31) })
			for c := 0; c < headerKinds; c++ {
				c := c
				one(e, func() *msg { return headersMsg([]int{a, b, c}, 70000) })
			}
		}
	}
	for n := 0; n <= 300; n++ {
		n := n
		one(e, func() *msg { return headersMsg(ones(n, n%headerKinds), uint32(n)) })
	}
	for k := 0; k < headerKinds; k++ {
		k := k
		one(e, func() *msg { return headersMsg(ones(2000, k), 1) })
	}
}

func enumTxBlock(e *vs.Enum) {
	for a := 0; a < txKinds; a++ {
		for n := 0; n < 4; n++ {
			a, n := a, n
			one(e, func() *msg { return txMsg(a, n) })
			e.Case(func() string { return fmt.Sprint("the transaction's identifier, kind ", a, n) }, func() {
				t := mkTx(a, n)
				m, err := protocol.NewMsgTxFromHex(hex.EncodeToString((&wr{}).tx(t).b))
				if err != nil {
					e.Fail("C01", "hex/tx", "%v", err)
				}
				if m.HashStr() != t.id().String() {
					e.Fail("C01", "id/tx", "transaction identifier %s, want %s", m.HashStr(), t.id())
				}
			})
		}
		for h := 0; h < headerKinds; h++ {
			a, h := a, h
			one(e, func() *msg { return blockMsg(h, []int{a}) })
			for b := 0; b < txKinds; b++ {
				b := b
				one(e, func() *msg { return blockMsg(h, []int{2, a, b}) })
			}
		}
	}
	for _, n := range []int{0, 1, 2, 252, 253, 254, 300} {
		n := n
		one(e, func() *msg { return blockMsg(0, ones(n, 0)) })
	}
	// up to what the network allows
	for _, n := range []int{1 << 16, 1<<17 - 1, 1 << 19, 1 << 20, 1<<20 + 1, 2000000, 3900000} {
		n := n
		one(e, func() *msg { return txMsg(n, 0) })
		one(e, func() *msg { return blockMsg(1, []int{2, n}) })
	}
	for _, n := range []int{20, 300, 1200} {
		n := n
		one(e, func() *msg { return blockMsg(2, ones(n, 3)) })
	}
}

func csWant(v uint64) []byte { return (&wr{}).cs(v).b }

func checkVarint(e *vs.Enum, how string, vi protocol.VarInt, err error, v uint64) {
	if err != nil {
		e.Fail("C01", "varint/new", "%s(%d): %v", how, v, err)
	}
	want := csWant(v)
	for i := 0; i < 2; i++ {
		var b []byte
		if i == 0 {
			b, err = binary.Marshal(vi)
		} else {
			b, err = vi.MarshalBinary()
		}
		if err != nil || !bytes.Equal(b, want) {
			e.Fail("C01", "varint/encode", "%s(%d) is encoded as %x (%v), the shortest form is %x", how, v, b, err, want)
		}
	}
	var d protocol.VarInt
	r := bytes.NewReader(append(append([]byte{}, want...), 0xaa, 0xbb))
	if err := binary.NewDecoder(r).Decode(&d); err != nil {
		e.Fail("C01", "varint/decode", "%x is not decoded: %v", want, err)
	}
	n, err := d.Int()
	if err != nil || uint64(n) != v || r.Len() != 2 {
		e.Fail("C01", "varint/decode", "%x is decoded as %d (%v), %d bytes consumed", want, n, err, len(want)+2-r.Len())
	}
}

func enumVarint(e *vs.Enum) {
	chunk := func(name string, lo, hi uint64) {
		e.Case(func() string { return fmt.Sprintf("compact size integers %s %d to %d", name, lo, hi) }, func() {
			for v := lo; v < hi; v++ {
				vi, err := protocol.NewVarint(int(v))
				checkVarint(e, "NewVarint(int)", vi, err, v)
				if v <= 0xff {
					vi, err := protocol.NewVarint(uint8(v))
					checkVarint(e, "NewVarint(uint8)", vi, err, v)
				}
				if v <= 0xffff {
					vi, err := protocol.NewVarint(uint16(v))
					checkVarint(e, "NewVarint(uint16)", vi, err, v)
				}
				if v <= 0xffffffff {
					vi, err := protocol.NewVarint(uint32(v))
					checkVarint(e, "NewVarint(uint32)", vi, err, v)
				}
				vi, err = protocol.NewVarint(v)
				checkVarint(e, "NewVarint(uint64)", vi, err, v)
			}
			e.Distinct(fmt.Sprint(len(csWant(lo)), lo>>14))
		})
	}
	for lo := uint64(0); lo < 70000; lo += 500 {
		chunk("", lo, lo+500)
	}
	for k := uint(17); k < 63; k++ {
		v := uint64(1) << k
		chunk("around a power of two", v-40, v+40)
		chunk("inside", v+v/3, v+v/3+20)
	}
	chunk("at the top", 1<<63-50, 1<<63)
}

// ---- fragmentation

// piece delivers the bytes in the given portions.
type piece struct {
	b     []byte
	sizes []int // repeated last
	zero  bool  // an empty read before every portion
	eofs  bool  // the end of the stream comes with the last bytes
	reset bool  // the stream ends with an error: the connection is reset
	z     bool
	i     int
}

func (p *piece) Read(o []byte) (int, error) {
	if len(o) == 0 {
		return 0, nil
	}
	if p.zero && !p.z {
		p.z = true
		return 0, nil
	}
	p.z = false
	if len(p.b) == 0 {
		return 0, p.end()
	}
	n := p.sizes[min(p.i, len(p.sizes)-1)]
	if n > len(o) {
		// the portion is delivered in several reads
		p.sizes = append([]int{}, p.sizes...)
		p.sizes[min(p.i, len(p.sizes)-1)] -= 0
		n = len(o)
	} else {
		p.i++
	}
	if n > len(p.b) {
		n = len(p.b)
	}
	copy(o, p.b[:n])
	p.b = p.b[n:]
	if len(p.b) == 0 && p.eofs {
		return n, p.end()
	}
	return n, nil
}

func (p *piece) end() error {
	if p.reset {
		return errors.New("connection reset by peer")
	}
	return io.EOF
}

func fragment(e *vs.Enum, m *msg, how string, mk func(b []byte) *piece) {
	tail := []byte{0xde, 0xad, 0xbe, 0xef, 0x01}
	if m.eof {
		tail = nil
	}
	p := mk(append(append([]byte{}, m.wire...), tail...))
	got, err := m.dec(p)
	if err != nil {
		e.Fail("C02", "fragment/"+m.cmd, "%s, %s: not decoded: %v", m.name, how, err)
	}
	if got != m.want {
		e.Fail("C02", "fragment/"+m.cmd, "%s, %s: decoded as %s, want %s", m.name, how, clip(got), clip(m.want))
	}
	if !bytes.Equal(p.b, tail) {
		e.Fail("C02", "consumed/"+m.cmd, "%s, %s: %d bytes are left in the stream, want %d", m.name, how, len(p.b), len(tail))
	}
	e.Distinct(m.cmd + how + fmt.Sprint(len(m.wire)))
}

// sampleOffsets bounds the positions tried in long messages.
func offsets(e *vs.Enum, n int) []int {
	lim := 420
	if e.Tier == "thorough" {
		lim = 4000
	}
	var o []int
	for i := 0; i < n; i++ {
		if n <= lim || i < lim/2 || i >= n-lim/2 {
			o = append(o, i)
		}
	}
	return o
}

func enumFragment(e *vs.Enum) {
	for _, m := range corpus() {
		m := m
		if m.dec == nil {
			continue
		}
		type fr struct {
			how   string
			sizes []int
			zero  bool
			eofs  bool
		}
		var frs []fr
		for _, k := range []int{1, 2, 3, 5, 7, 16, 31, 33, 100} {
			for z := 0; z < 2; z++ {
				for q := 0; q < 2; q++ {
					frs = append(frs, fr{fmt.Sprintf("reads of %d (empty reads %v, end with data %v)", k, z == 1, q == 1), []int{k}, z == 1, q == 1})
				}
			}
		}
		for _, i := range offsets(e, len(m.wire)) {
			if i > 0 {
				frs = append(frs, fr{fmt.Sprintf("split at %d", i), []int{i, 1 << 30}, false, false})
			}
		}
		for _, f := range frs {
			f := f
			e.Case(func() string { return m.name + ", " + f.how }, func() {
				fragment(e, m, f.how, func(b []byte) *piece { return &piece{b: b, sizes: f.sizes, zero: f.zero, eofs: f.eofs} })
			})
		}
	}
}

func enumTruncate(e *vs.Enum) {
	for _, m := range corpus() {
		m := m
		if m.dec == nil {
			continue
		}
		for _, i := range offsets(e, len(m.wire)) {
			i := i
			e.Case(func() string { return fmt.Sprintf("%s cut off after %d of %d bytes", m.name, i, len(m.wire)) }, func() {
				for k := 0; k < 4; k++ {
					got, err := m.dec(&piece{b: append([]byte{}, m.wire[:i]...), sizes: []int{1 << 30}, eofs: k%2 == 1, reset: k >= 2})
					if err == nil {
						e.Fail("C02", "truncated/"+m.cmd, "%s cut off after %d of %d bytes is decoded as %s", m.name, i, len(m.wire), clip(got))
					}
				}
				e.Distinct(m.cmd + fmt.Sprint(i))
			})
		}
	}
	// the message header and the integers
	hd := envelope(nets["regtest"], "getcfilters", []byte{1, 2, 3})[:24]
	for i := 0; i < 24; i++ {
		i := i
		e.Case(func() string { return fmt.Sprint("a message header cut off after ", i) }, func() {
			var h protocol.MessageHeader
			if err := binary.NewDecoder(bytes.NewReader(hd[:i])).Decode(&h); err == nil {
				e.Fail("C02", "truncated/header", "a message header cut off after %d bytes is decoded as %+v", i, h)
			}
		})
	}
	for i := 1; i < 24; i++ {
		i := i
		e.Case(func() string { return fmt.Sprint("a message header split at ", i) }, func() {
			var h, w protocol.MessageHeader
			if err := binary.NewDecoder(&piece{b: append([]byte{}, hd...), sizes: []int{i, 100}}).Decode(&h); err != nil {
				e.Fail("C02", "fragment/header", "a message header split at %d is not decoded: %v", i, err)
			}
			w.Magic, w.Length = nets["regtest"], 3
			copy(w.Command[:], "getcfilters")
			copy(w.Checksum[:], hd[20:])
			if h != w {
				e.Fail("C02", "fragment/header", "a message header split at %d is decoded as %+v", i, h)
			}
		})
	}
	for _, v := range []uint64{0, 252, 253, 65535, 65536, 1<<32 - 1, 1 << 32, 1<<63 - 1} {
		b := csWant(v)
		for i := 0; i < len(b); i++ {
			i := i
			e.Case(func() string { return fmt.Sprintf("%x cut off after %d", b, i) }, func() {
				var d protocol.VarInt
				for k := 0; k < 4; k++ {
					if err := binary.NewDecoder(&piece{b: b[:i], sizes: []int{1 + 8*(k%2)}, reset: k >= 2}).Decode(&d); err == nil {
						e.Fail("C02", "truncated/varint", "%x is decoded as %v", b[:i], d.Value)
					}
				}
			})
		}
	}
	primitives(e)
}

// primitives: the fields messages are made of, whole, in pieces and cut off.
func primitives(e *vs.Enum) {
	type two struct {
		A uint16
		B [4]byte
		C int64
	}
	for _, pat := range [][]byte{
		{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32},
		bytes.Repeat([]byte{255}, 32), bytes.Repeat([]byte{0x80, 0x7f}, 16),
	} {
		le := func(n int) (v uint64) {
			for i := n - 1; i >= 0; i-- {
				v = v<<8 | uint64(pat[i])
			}
			return
		}
		pat := pat
		for _, f := range []struct {
			name string
			n    int
			mk   func() interface{}
			want interface{}
		}{
			{"bool", 1, func() interface{} { return new(bool) }, pat[0] != 0},
			{"int32", 4, func() interface{} { return new(int32) }, int32(le(4))},
			{"int64", 8, func() interface{} { return new(int64) }, int64(le(8))},
			{"uint8", 1, func() interface{} { return new(uint8) }, pat[0]},
			{"uint16", 2, func() interface{} { return new(uint16) }, uint16(pat[0])<<8 | uint16(pat[1])},
			{"uint32", 4, func() interface{} { return new(uint32) }, uint32(le(4))},
			{"uint64", 8, func() interface{} { return new(uint64) }, le(8)},
			{"4 bytes", 4, func() interface{} { return new([4]byte) }, *(*[4]byte)(pat)},
			{"12 bytes", 12, func() interface{} { return new([12]byte) }, *(*[12]byte)(pat)},
			{"32 bytes", 32, func() interface{} { return new([32]byte) }, *(*[32]byte)(pat)},
			{"slice of 32 bytes", 32, func() interface{} { b := make([]byte, 32); return &b }, pat[:32]},
			{"struct", 14, func() interface{} { return new(two) }, two{uint16(pat[0])<<8 | uint16(pat[1]), *(*[4]byte)(pat[2:]), int64(uint64(pat[6]) | uint64(pat[7])<<8 | uint64(pat[8])<<16 | uint64(pat[9])<<24 | uint64(pat[10])<<32 | uint64(pat[11])<<40 | uint64(pat[12])<<48 | uint64(pat[13])<<56)}},
		} {
			f := f
			for i := 0; i <= f.n; i++ {
				i := i
				e.Case(func() string { return fmt.Sprintf("%s of %x cut off after %d", f.name, pat, i) }, func() {
					for k := 0; k < 8; k++ {
						v := f.mk()
						err := binary.NewDecoder(&piece{b: append([]byte{}, pat[:i]...), sizes: []int{1 + 99*(k&1)}, eofs: k&2 != 0, reset: k&4 != 0}).Decode(v)
						switch {
						case i < f.n && err == nil:
							e.Fail("C02", "truncated/"+f.name, "%s cut off after %d bytes is decoded as %v", f.name, i, reflect.ValueOf(v).Elem().Interface())
						case i == f.n && err != nil && k&6 == 6:
							// a reset reported along with the last bytes may be taken for one before them
						case i == f.n && err != nil:
							e.Fail("C02", "fragment/"+f.name, "%s is not decoded: %v", f.name, err)
						case i == f.n && !reflect.DeepEqual(reflect.ValueOf(v).Elem().Interface(), f.want):
							e.Fail("C02", "fragment/"+f.name, "%s %x is decoded as %v", f.name, pat[:i], reflect.ValueOf(v).Elem().Interface())
						}
					}
					e.Distinct(f.name + fmt.Sprint(i))
				})
			}
		}
	}
	// bytes of a given length
	for _, n := range []int64{-1, 0, 1, 2, 3, 33} {
		for _, have := range []int64{0, 1, 2, 3, 32, 33, 34} {
			n, have := n, have
			e.Case(func() string { return fmt.Sprintf("%d bytes of %d", n, have) }, func() {
				for k := 0; k < 8; k++ {
					src := make([]byte, have)
					for i := range src {
						src[i] = byte(i + 1)
					}
					b, err := binary.NewDecoder(&piece{b: src, sizes: []int{1 + 99*(k&1)}, eofs: k&2 != 0, reset: k&4 != 0}).DecodeBytes(n)
					if have < n && err == nil {
						e.Fail("C02", "truncated/bytes", "%d bytes of a stream of %d are decoded as %x", n, have, b)
					}
					if err != nil && have == n && k&6 == 6 {
						continue
					}
					if n > 0 && have >= n && (err != nil || int64(len(b)) != n || b[n-1] != byte(n)) {
						e.Fail("C02", "fragment/bytes", "%d bytes of a stream of %d are decoded as %x, %v", n, have, b, err)
					}
				}
			})
		}
	}
}

// ---- hostile bytes

func allocated() uint64 {
	var s runtime.MemStats
	runtime.ReadMemStats(&s)
	return s.TotalAlloc
}

// hostile decodes arbitrary bytes.
func hostile(e *vs.Enum, m *msg, b []byte) {
	if a := asksFor(m.cmd, b); a > uint64(32<<10+100*len(b)) && a <= 1<<48 {
		// the dependency allocates it before looking at the data
		e.Fail("C03", "dependency-allocates/"+m.cmd, "the %d bytes of the payload make the decoder allocate %d bytes", len(b), a)
	}
	before := allocated()
	_, err := m.dec(bytes.NewReader(b))
	got := allocated() - before
	if limit := uint64(64<<10 + 400*len(b)); got > limit {
		e.Fail("C03", "allocation/"+m.cmd, "decoding the %d bytes %s allocates %d bytes (%v)", len(b), short(b), got, err)
	}
	e.Distinct(m.cmd + fmt.Sprint(err != nil, got>>12))
}

func lengths() [][]byte {
	var o [][]byte
	for _, v := range []uint64{0, 1, 2, 252, 253, 254, 255, 1000, 65534, 65535, 65536, 1<<20 + 1, 1 << 24, 1<<28 + 3, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1 << 33, 1 << 36, 1 << 40, 1 << 47, 1 << 48, 1 << 55, 1 << 58, 1 << 59, 1 << 60, 1 << 61, 1<<62 + 5, 1<<63 - 1, 1 << 63, 1<<64 - 1} {
		o = append(o, csWant(v))
		o = append(o, (&wr{}).u8(0xff).u64(v).b)
		if v < 1<<32 {
			o = append(o, (&wr{}).u8(0xfe).u32(uint32(v)).b)
		}
	}
	return o
}

func csLen(b byte) int {
	switch b {
	case 0xfd:
		return 3
	case 0xfe:
		return 5
	case 0xff:
		return 9
	}
	return 1
}

func enumHostile(e *vs.Enum) {
	ls := lengths()
	for _, m := range corpus() {
		m := m
		if m.dec == nil {
			continue
		}
		for _, at := range m.lens {
			for _, l := range ls {
				at, l := at, l
				if at >= len(m.wire) {
					continue
				}
				e.Case(func() string { return fmt.Sprintf("%s, length at %d replaced by %x", m.name, at, l) }, func() {
					b := append([]byte{}, m.wire[:at]...)
					b = append(b, l...)
					b = append(b, m.wire[at+csLen(m.wire[at]):]...)
					hostile(e, m, b)
					hostile(e, m, b[:at+len(l)])
				})
			}
		}
		for _, i := range offsets(e, len(m.wire)) {
			i := i
			e.Case(func() string { return fmt.Sprintf("%s, byte %d replaced", m.name, i) }, func() {
				for _, v := range []byte{0, 1, 0x7f, 0x80, 0xfc, 0xfd, 0xfe, 0xff, m.wire[i] ^ 0xff, m.wire[i] + 1} {
					b := append([]byte{}, m.wire...)
					b[i] = v
					hostile(e, m, b)
				}
			})
			e.Case(func() string { return fmt.Sprintf("%s cut off after %d", m.name, i) }, func() {
				hostile(e, m, m.wire[:i])
			})
		}
	}
	// every payload of up to two bytes, for every type
	seen := map[string]bool{}
	for _, m := range corpus() {
		m := m
		if seen[m.cmd] || m.dec == nil {
			continue
		}
		seen[m.cmd] = true
		for a := 0; a < 256; a++ {
			a := a
			e.Case(func() string { return fmt.Sprintf("%s, short payload %x", m.cmd, a) }, func() {
				hostile(e, m, []byte{byte(a)})
				for b := 0; b < 256; b += 5 {
					hostile(e, m, []byte{byte(a), byte(b)})
					hostile(e, m, append([]byte{0, byte(a), byte(b)}, pattern(40, byte(b))...))
				}
			})
		}
	}
	// message headers
	hd := envelope(nets["regtest"], "sendheaders", nil)[:24]
	for i := 0; i < 24; i++ {
		for v := 0; v < 256; v++ {
			i, v := i, v
			e.Case(func() string { return fmt.Sprintf("message header, byte %d is %x", i, v) }, func() {
				b := append([]byte{}, hd...)
				b[i] = byte(v)
				var h protocol.MessageHeader
				if err := binary.NewDecoder(bytes.NewReader(b)).Decode(&h); err != nil {
					e.Fail("C03", "header", "24 bytes are not decoded as a header: %v", err)
				}
				err := h.Validate()
				if i < 4 && v != int(hd[i]) && err == nil {
					e.Fail("C03", "magic", "the magic %x is accepted", b[:4])
				}
				if i >= 4 && i < 8 && v != int(hd[i]) && err == nil {
					e.Fail("C03", "command", "the command %q is accepted", b[4:16])
				}
				if i >= 16 && err != nil {
					e.Fail("C03", "header", "the header %x is refused: %v", b, err)
				}
				e.Distinct(fmt.Sprint(i, err != nil))
			})
		}
	}
}

var _ = block.Header{}

func main() {
	lib.Quiet()
	vs.Main(append([]*vs.Scenario{
		{Name: "version", Props: []string{"C01"}, Desc: "version messages: all pairs of boundary values of all fields, on three networks", Enum: enumVersion, Weight: 2},
		{Name: "small", Props: []string{"C01"}, Desc: "ping, pong, sendcmpct, getcfilters, verack, sendheaders and the constructors over boundary values", Enum: enumSmall},
		{Name: "inventory", Props: []string{"C01"}, Desc: "inv and getdata of every length 0..600 and the encoding boundaries", Enum: enumInventory},
		{Name: "getheaders", Props: []string{"C01"}, Desc: "getheaders with every locator length 0..500", Enum: enumGetHeaders},
		{Name: "cfilter", Props: []string{"C01"}, Desc: "cfilter with every filter length 0..700 and the encoding boundaries; range rules of getcfilters", Enum: enumCFilter},
		{Name: "headers", Props: []string{"C01"}, Desc: "headers messages: all sequences up to length 3 over 8 header kinds, every length 0..300, full batches", Enum: enumHeaders, Weight: 2},
		{Name: "txblock", Props: []string{"C01"}, Desc: "transactions of 8 kinds and blocks of them under 8 header kinds", Enum: enumTxBlock},
		{Name: "varint", Props: []string{"C01"}, Desc: "compact size integers: all below 70000, around and between all powers of two, by every constructor", Enum: enumVarint},
		{Name: "fragment", Props: []string{"C02"}, Desc: "every message of the corpus under every two-way split and nine chunk sizes, with empty reads and with end of stream along with data", Enum: enumFragment, Weight: 3},
		{Name: "truncate", Props: []string{"C02"}, Desc: "every message of the corpus cut off at every byte", Enum: enumTruncate, Weight: 3},
		{Name: "hostile", Props: []string{"C03"}, Desc: "every length field replaced by every boundary value, every byte replaced by ten values, every truncation, all short payloads, all single byte changes of the message header", Enum: enumHostile},
	}, append(explorerScenarios(), miscScenarios()...)...))
}
