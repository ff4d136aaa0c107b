package main

import (
	"fmt"
	"io"
	"math"
	"reflect"
	"strings"

	"github.com/btcsuite/btcd/btcutil/gcs"
	"github.com/btcsuite/btcd/btcutil/gcs/builder"
	"github.com/btcsuite/btcd/chaincfg/chainhash"
	"github.com/vulpemventures/go-elements/block"
	"github.com/vulpemventures/go-elements/transaction"
	"github.com/vulpemventures/neutrino-elements/pkg/binary"
	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
)

// msg is one protocol message of the corpus.
type msg struct {
	cmd  string
	name string
	wire []byte      // the payload as the protocol defines it
	val  interface{} // what the library encodes (nil: it only decodes)
	dec  func(r io.Reader) (string, error)
	want string // what decoding must give
	eof  bool   // the message extends to the end of the payload
	lens []int  // offsets of compact size fields in wire
}

func decodeAs(proto interface{}, show func(v interface{}) string) func(r io.Reader) (string, error) {
	t := reflect.TypeOf(proto)
	return func(r io.Reader) (string, error) {
		v := reflect.New(t)
		if err := binary.NewDecoder(r).Decode(v.Interface()); err != nil {
			return "", err
		}
		return show(v.Interface()), nil
	}
}

// ---- version

type verF struct {
	version    int32
	services   uint64
	ts         int64
	rs         uint64
	rip        [4]byte
	rport      uint16
	fs         uint64
	fip        [4]byte
	fport      uint16
	nonce      uint64
	ua         string
	start      int32
	relay      bool
	nonMinimal bool
}

func baseVer() verF {
	return verF{version: 70016, services: 64 | 1, ts: 1573430400, rs: 65, rip: [4]byte{10, 0, 0, 7}, rport: 18886, fs: 64, fip: [4]byte{127, 0, 0, 1}, fport: 9334, nonce: 31337, ua: "/x:1.0/", start: 1000, relay: true}
}

func (f verF) String() string {
	return fmt.Sprintf("%d %d %d %d %v %d %d %v %d %d %q %d %v", f.version, f.services, f.ts, f.rs, f.rip, f.rport, f.fs, f.fip, f.fport, f.nonce, f.ua, f.start, f.relay)
}

func verMsg(f verF) *msg {
	w := &wr{}
	ip := func(s uint64, a [4]byte, p uint16) {
		w.u64(s).raw([]byte{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff}).raw(a[:]).be16(p)
	}
	w.u32(uint32(f.version)).u64(f.services).u64(uint64(f.ts))
	ip(f.rs, f.rip, f.rport)
	ip(f.fs, f.fip, f.fport)
	w.u64(f.nonce)
	at := len(w.b)
	w.bytes([]byte(f.ua)).u32(uint32(f.start)).boolean(f.relay)
	v := protocol.MsgVersion{Version: f.version, Services: f.services, Timestamp: f.ts,
		AddrRecv: protocol.VersionNetAddr{Services: f.rs, IP: f.rip, Port: f.rport},
		AddrFrom: protocol.VersionNetAddr{Services: f.fs, IP: f.fip, Port: f.fport},
		Nonce:    f.nonce, UserAgent: protocol.NewUserAgent(f.ua), StartHeight: f.start, Relay: f.relay}
	return &msg{cmd: "version", name: f.String(), wire: w.b, val: v, want: f.String(), lens: []int{at},
		dec: decodeAs(protocol.MsgVersion{}, func(x interface{}) string {
			m := x.(*protocol.MsgVersion)
			return verF{version: m.Version, services: m.Services, ts: m.Timestamp, rs: m.AddrRecv.Services, rip: m.AddrRecv.IP, rport: m.AddrRecv.Port,
				fs: m.AddrFrom.Services, fip: m.AddrFrom.IP, fport: m.AddrFrom.Port, nonce: m.Nonce, ua: m.UserAgent.String, start: m.StartHeight, relay: m.Relay}.String()
		})}
}

var u64s = []uint64{0, 1, 64, 73, 0xff, 0x100, 0x0102030405060708, 1 << 31, 1 << 32, 1 << 63, math.MaxUint64}

// verVariants lists per field the modifications tried.
func verVariants() [][]func(*verF) {
	var o [][]func(*verF)
	var l []func(*verF)
	flush := func() { o = append(o, l); l = nil }
	for _, v := range []int32{0, 1, 70015, 70016, -1, math.MaxInt32, math.MinInt32, 0x01020304} {
		v := v
		l = append(l, func(f *verF) { f.version = v })
	}
	flush()
	for _, fld := range []func(*verF) *uint64{func(f *verF) *uint64 { return &f.services }, func(f *verF) *uint64 { return &f.rs }, func(f *verF) *uint64 { return &f.fs }, func(f *verF) *uint64 { return &f.nonce }} {
		for _, v := range u64s {
			v, fld := v, fld
			l = append(l, func(f *verF) { *fld(f) = v })
		}
		flush()
	}
	for _, v := range []int64{0, 1, -1, math.MaxInt64, math.MinInt64} {
		v := v
		l = append(l, func(f *verF) { f.ts = v })
	}
	flush()
	for _, v := range [][4]byte{{}, {1, 2, 3, 4}, {255, 255, 255, 255}, {0, 0, 0, 1}} {
		v := v
		l = append(l, func(f *verF) { f.rip = v }, func(f *verF) { f.fip = v })
	}
	flush()
	for _, v := range []uint16{0, 1, 255, 256, 0x1234, 9334, 65535} {
		v := v
		l = append(l, func(f *verF) { f.rport = v }, func(f *verF) { f.fport = v })
	}
	flush()
	for _, n := range []int{0, 1, 2, 31, 32, 33, 252, 253, 254, 255, 256, 257, 300, 65535, 65536} {
		s := string(pattern(n, 0x20))
		l = append(l, func(f *verF) { f.ua = s })
	}
	flush()
	for _, v := range []int32{-1, 0, 1, 255, 65536, math.MaxInt32, math.MinInt32} {
		v := v
		l = append(l, func(f *verF) { f.start = v })
	}
	flush()
	l = append(l, func(f *verF) { f.relay = true }, func(f *verF) { f.relay = false })
	flush()
	return o
}

// ---- small messages

func pingMsg(cmd string, n uint64) *msg {
	w := (&wr{}).u64(n)
	m := &msg{cmd: cmd, name: fmt.Sprintf("%s %#x", cmd, n), wire: w.b, want: fmt.Sprint(n)}
	if cmd == "ping" {
		m.val = protocol.MsgPing{Nonce: n}
		m.dec = decodeAs(protocol.MsgPing{}, func(x interface{}) string { return fmt.Sprint(x.(*protocol.MsgPing).Nonce) })
	} else {
		m.val = protocol.MsgPong{Nonce: n}
		m.dec = decodeAs(protocol.MsgPong{}, func(x interface{}) string { return fmt.Sprint(x.(*protocol.MsgPong).Nonce) })
	}
	return m
}

func cmpctMsg(b bool, v uint64) *msg {
	w := (&wr{}).boolean(b).u64(v)
	return &msg{cmd: "sendcmpct", name: fmt.Sprint("sendcmpct ", b, v), wire: w.b, val: protocol.MsgSendCmpct{LowBandwitdhType: b, Version: v}, want: fmt.Sprint(b, v),
		dec: decodeAs(protocol.MsgSendCmpct{}, func(x interface{}) string {
			m := x.(*protocol.MsgSendCmpct)
			return fmt.Sprint(m.LowBandwitdhType, m.Version)
		})}
}

var invTypes = []uint32{1, 2, 3, 4, 0x40000001, 0x40000002, 0, 0xffffffff}

func inventory(n int) (items []protocol.InvVector, wire []byte) {
	w := (&wr{}).cs(uint64(n))
	for i := 0; i < n; i++ {
		t := invTypes[i%len(invTypes)]
		h := hash32(byte(i))
		h[31], h[30] = byte(i>>8), byte(i)
		items = append(items, protocol.InvVector{Type: t, Hash: h})
		w.u32(t).raw(h[:])
	}
	return items, w.b
}

func showInv(l []protocol.InvVector) string {
	w := &wr{}
	for _, v := range l {
		w.u32(v.Type).raw(v.Hash[:])
	}
	return fmt.Sprintf("%d:%x", len(l), w.b)
}

func varint(n int) protocol.VarInt {
	v, err := protocol.NewVarint(n)
	if err != nil {
		panic(err)
	}
	return v
}

func invMsg(n int) *msg {
	items, wire := inventory(n)
	return &msg{cmd: "inv", name: fmt.Sprint("inv of ", n), wire: wire, want: showInv(items), lens: []int{0},
		dec: decodeAs(protocol.MsgInv{}, func(x interface{}) string { return showInv(x.(*protocol.MsgInv).Inventory) })}
}

// getdata as the node makes it: from a received inventory
func getDataMsg(n int) *msg {
	items, wire := inventory(n)
	return &msg{cmd: "getdata", name: fmt.Sprint("getdata of ", n), wire: wire, val: protocol.MsgGetData{Count: varint(n), Inventory: items}}
}

func showGetHeaders(m *protocol.MsgGetHeaders) string {
	s := fmt.Sprintf("%d %d", m.Version, len(m.BlockLocatorHashes))
	for _, h := range m.BlockLocatorHashes {
		s += fmt.Sprintf(" %x", h)
	}
	return s + fmt.Sprintf(" %x", m.HashStop)
}

func getHeadersMsg(version uint32, n int, stop [32]byte) *msg {
	m := protocol.MsgGetHeaders{Version: version, HashStop: stop, BlockLocatorHashes: [][32]byte{}}
	w := (&wr{}).u32(version).cs(uint64(n))
	for i := 0; i < n; i++ {
		h := hash32(byte(i))
		h[31] = byte(i >> 8)
		m.BlockLocatorHashes = append(m.BlockLocatorHashes, h)
		w.raw(h[:])
	}
	w.raw(stop[:])
	return &msg{cmd: "getheaders", name: fmt.Sprintf("getheaders %d locators version %d", n, version), wire: w.b, val: m, want: showGetHeaders(&m), lens: []int{4},
		dec: decodeAs(protocol.MsgGetHeaders{}, func(x interface{}) string { return showGetHeaders(x.(*protocol.MsgGetHeaders)) })}
}

func getCFiltersMsg(t byte, start uint32, stop [32]byte) *msg {
	w := (&wr{}).u8(t).u32(start).raw(stop[:])
	m := protocol.MsgGetCFilters{FilterType: t, StartHeight: start, StopHash: stop}
	return &msg{cmd: "getcfilters", name: fmt.Sprintf("getcfilters %d %d", t, start), wire: w.b, val: m, want: fmt.Sprintf("%+v", m),
		dec: decodeAs(protocol.MsgGetCFilters{}, func(x interface{}) string { return fmt.Sprintf("%+v", *x.(*protocol.MsgGetCFilters)) })}
}

func cfilterMsg(h [32]byte, n int, data []byte) *msg {
	// the filter is its element count followed by its data
	fb := (&wr{}).cs(uint64(n)).raw(data).b
	w := (&wr{}).u8(0).raw(h[:]).bytes(fb)
	f, err := gcs.FromNBytes(builder.DefaultP, builder.DefaultM, fb)
	if err != nil {
		panic(err)
	}
	ch := chainhash.Hash(h)
	return &msg{cmd: "cfilter", name: fmt.Sprintf("cfilter of %d elements, %d bytes", n, len(data)), wire: w.b, val: protocol.MsgCFilter{FilterType: 0, BlockHash: &ch, Filter: f},
		want: fmt.Sprintf("0 %x %x", h, fb), lens: []int{33},
		dec: decodeAs(protocol.MsgCFilter{}, func(x interface{}) string {
			m := x.(*protocol.MsgCFilter)
			b, err := m.Filter.NBytes()
			if err != nil {
				return "filter: " + err.Error()
			}
			return fmt.Sprintf("%d %x %x", m.FilterType, m.BlockHash[:], b)
		})}
}

// ---- headers, blocks, transactions

func mkHeader(kind int, height uint32, salt byte) *block.Header {
	p, r := hash32(salt), hash32(salt^0x55)
	h := &block.Header{Version: 0x20000000, PrevBlockHash: p[:], MerkleRoot: r[:], Timestamp: 1600000000 + height, Height: height}
	proof := func(c, s int) {
		h.ExtData = &block.ExtData{Proof: &block.Proof{Challenge: pattern(c, salt), Solution: pattern(s, ^salt)}}
	}
	cp := func(n int) *block.DynamicFederationParams {
		e := hash32(salt + 9)
		return &block.DynamicFederationParams{CompactParams: &block.CompactParams{SignBlockScript: pattern(n, 1), SignBlockWitnessLimit: 1416, ElidedRoot: e[:]}}
	}
	fp := func(n, ext int) *block.DynamicFederationParams {
		f := &block.FullParams{SignBlockScript: pattern(34, 1), SignBlockWitnessLimit: 77, FedpegProgram: pattern(22, 3), FedpegScript: pattern(n, 4), ExtensionSpace: [][]byte{}}
		for i := 0; i < ext; i++ {
			f.ExtensionSpace = append(f.ExtensionSpace, pattern(66, byte(i)))
		}
		return &block.DynamicFederationParams{FullParams: f}
	}
	dyna := func(c, p *block.DynamicFederationParams, wits ...int) {
		d := &block.DynamicFederation{Current: c, Proposed: p, SignBlockWitness: [][]byte{}}
		for i, n := range wits {
			d.SignBlockWitness = append(d.SignBlockWitness, pattern(n, byte(i)))
		}
		h.ExtData = &block.ExtData{IsDyna: true, DynamicFederation: d}
	}
	switch kind {
	case 0:
		proof(1, 1)
	case 1:
		proof(0, 0)
	case 2:
		proof(37, 252)
	case 3:
		proof(253, 300)
	case 4:
		dyna(cp(34), nil, 0, 71, 72, 252)
	case 5:
		dyna(cp(34), cp(1))
	case 6:
		dyna(fp(300, 2), nil, 253)
	case 7:
		dyna(nil, fp(5, 0), 1)
	}
	return h
}

const headerKinds = 8

func (w *wr) header(h *block.Header) *wr {
	v := h.Version
	if h.ExtData.IsDyna {
		v |= 1 << 31
	}
	w.u32(v).raw(h.PrevBlockHash).raw(h.MerkleRoot).u32(h.Timestamp).u32(h.Height)
	if !h.ExtData.IsDyna {
		return w.bytes(h.ExtData.Proof.Challenge).bytes(h.ExtData.Proof.Solution)
	}
	d := h.ExtData.DynamicFederation
	for _, p := range []*block.DynamicFederationParams{d.Current, d.Proposed} {
		switch {
		case p == nil:
			w.u8(0)
		case p.CompactParams != nil:
			w.u8(1).bytes(p.CompactParams.SignBlockScript).u32(p.CompactParams.SignBlockWitnessLimit).raw(p.CompactParams.ElidedRoot)
		default:
			f := p.FullParams
			w.u8(2).bytes(f.SignBlockScript).u32(f.SignBlockWitnessLimit).bytes(f.FedpegProgram).bytes(f.FedpegScript).cs(uint64(len(f.ExtensionSpace)))
			for _, e := range f.ExtensionSpace {
				w.bytes(e)
			}
		}
	}
	w.cs(uint64(len(d.SignBlockWitness)))
	for _, e := range d.SignBlockWitness {
		w.bytes(e)
	}
	return w
}

func showHeader(h *block.Header) string { return fmt.Sprintf("%d %x", h.Height, (&wr{}).header(h).b) }

func showHeaders(l []*block.Header) string {
	s := fmt.Sprint(len(l))
	for _, h := range l {
		s += " " + showHeader(h)
	}
	return s
}

func headersMsg(kinds []int, first uint32) *msg {
	var l []*block.Header
	w := (&wr{}).cs(uint64(len(kinds)))
	lens := []int{0}
	for i, k := range kinds {
		h := mkHeader(k, first+uint32(i), byte(i))
		l = append(l, h)
		at := len(w.b)
		w.header(h)
		if len(kinds) <= 3 {
			lens = append(lens, at+76, len(w.b))
		}
		w.cs(0)
	}
	name := fmt.Sprintf("headers %v from %d", kinds, first)
	if len(kinds) > 10 {
		name = fmt.Sprintf("%d headers from %d", len(kinds), first)
	}
	return &msg{cmd: "headers", name: name, wire: w.b, want: showHeaders(l), eof: true, lens: lens,
		dec: decodeAs(protocol.MsgHeaders{}, func(x interface{}) string { return showHeaders(x.(*protocol.MsgHeaders).Headers) })}
}

// txSpec is a transaction described independently of the library.
type txSpec struct {
	version, lock uint32
	ins           []inSpec
	outs          []outSpec
	wit           bool
}
type inSpec struct {
	hash     [32]byte
	ix       uint32
	script   []byte
	seq      uint32
	issuance []byte // serialized, when the index carries the issuance flag
	irp, inf []byte
	w, pw    [][]byte
}
type outSpec struct {
	asset, value, nonce, script []byte
	sp, rp                      []byte
}

func (w *wr) tx(t *txSpec) *wr {
	w.u32(t.version).boolean(t.wit).cs(uint64(len(t.ins)))
	for _, i := range t.ins {
		w.raw(i.hash[:]).u32(i.ix).bytes(i.script).u32(i.seq).raw(i.issuance)
	}
	w.cs(uint64(len(t.outs)))
	for _, o := range t.outs {
		w.raw(o.asset).raw(o.value).raw(o.nonce).bytes(o.script)
	}
	w.u32(t.lock)
	if t.wit {
		for _, i := range t.ins {
			w.bytes(i.irp).bytes(i.inf)
			for _, l := range [][][]byte{i.w, i.pw} {
				w.cs(uint64(len(l)))
				for _, e := range l {
					w.bytes(e)
				}
			}
		}
		for _, o := range t.outs {
			w.bytes(o.sp).bytes(o.rp)
		}
	}
	return w
}

func (t *txSpec) id() chainhash.Hash {
	c := *t
	c.wit = false
	return chainhash.DoubleHashH((&wr{}).tx(&c).b)
}

func expl(v uint64) []byte {
	w := (&wr{}).u8(1)
	for i := 7; i >= 0; i-- {
		w.u8(byte(v >> (8 * uint(i))))
	}
	return w.b
}

const txKinds = 8

func mkTx(kind, n int) *txSpec {
	asset := append([]byte{1}, pattern(32, 3)...)
	ca := append([]byte{10}, pattern(32, 5)...)
	cv := append([]byte{8}, pattern(32, 6)...)
	cn := append([]byte{2}, pattern(32, 7)...)
	in := func(i int) inSpec { return inSpec{hash: hash32(byte(i + n)), ix: uint32(i), seq: 0xfffffffe} }
	out := func(i, l int) outSpec {
		return outSpec{asset: asset, value: expl(uint64(i+1) * 1000), nonce: []byte{0}, script: pattern(l, byte(i))}
	}
	conf := func(i, sp, rp int) outSpec {
		return outSpec{asset: ca, value: cv, nonce: cn, script: pattern(22, byte(i)), sp: pattern(sp, 1), rp: pattern(rp, 2)}
	}
	t := &txSpec{version: 2, lock: uint32(n)}
	switch kind {
	case 0:
		t.ins, t.outs = []inSpec{in(0)}, []outSpec{out(0, 22)}
	case 1:
		t.ins, t.outs = []inSpec{in(0), in(1)}, []outSpec{out(0, 22), out(1, 0), out(2, 34)}
		t.ins[0].script = pattern(253, 9)
	case 2: // coinbase
		t.ins, t.outs = []inSpec{{ix: 0xffffffff, script: pattern(5, 1), seq: 0xffffffff}}, []outSpec{out(0, 1), out(1, 38)}
	case 3: // witness, confidential
		t.wit = true
		t.ins, t.outs = []inSpec{in(0)}, []outSpec{conf(0, 67, 2893), out(1, 0)}
		t.ins[0].w = [][]byte{pattern(72, 1), pattern(33, 2)}
	case 4: // issuance
		t.wit = true
		t.ins, t.outs = []inSpec{in(1)}, []outSpec{out(0, 22), conf(1, 1, 253)}
		t.ins[0].ix |= 1 << 31
		t.ins[0].issuance = append(append(pattern(64, 8), expl(21)...), 0)
		t.ins[0].irp, t.ins[0].inf = pattern(10, 1), pattern(3, 2)
		t.ins[0].w = [][]byte{{}, pattern(1, 1)}
	case 5: // peg-in
		t.wit = true
		t.ins, t.outs = []inSpec{in(3)}, []outSpec{out(0, 22)}
		t.ins[0].ix |= 1 << 30
		t.ins[0].pw = [][]byte{pattern(8, 1), pattern(32, 2), pattern(252, 3)}
		t.ins[0].w = [][]byte{pattern(71, 1)}
	case 6:
		t.ins = []inSpec{in(0)}
		for i := 0; i < 254; i++ {
			t.outs = append(t.outs, out(i, 2))
		}
	case 7:
		t.wit = true
		for i := 0; i < 3; i++ {
			x := in(i)
			x.w = [][]byte{pattern(i, 1)}
			t.ins = append(t.ins, x)
		}
		t.outs = []outSpec{out(0, 22), conf(1, 0, 0)}
	default: // large
		t.ins, t.outs = []inSpec{in(0)}, []outSpec{out(0, 22), out(1, kind)}
	}
	return t
}

func showTx(t *transaction.Transaction) string {
	b, err := t.Serialize()
	return fmt.Sprintf("%s %x %v", t.TxHash(), b, err)
}

func txMsg(kind, n int) *msg {
	t := mkTx(kind, n)
	b := (&wr{}).tx(t).b
	m := &msg{cmd: "tx", name: fmt.Sprint("tx kind ", kind), wire: b, want: fmt.Sprintf("%s %x %v", t.id(), b, nil), eof: true, lens: []int{5},
		dec: decodeAs(protocol.MsgTx{}, func(x interface{}) string { return showTx(&x.(*protocol.MsgTx).Transaction) })}
	if len(t.ins) > 0 {
		m.lens = append(m.lens, 5+1+36)
		at := len((&wr{}).u32(0).u8(0).cs(uint64(len(t.ins))).b)
		for _, i := range t.ins {
			at += 36 + len((&wr{}).bytes(i.script).b) + 4 + len(i.issuance)
		}
		m.lens = append(m.lens, at)
		m.lens = append(m.lens, at+1+len(t.outs[0].asset)+len(t.outs[0].value)+len(t.outs[0].nonce))
	}
	if tx, err := protocol.NewMsgTxFromHex(fmt.Sprintf("%x", b)); err == nil {
		m.val = tx
	}
	return m
}

func blockMsg(hk int, txs []int) *msg {
	h := mkHeader(hk, 7, 3)
	w := (&wr{}).header(h)
	at := len(w.b)
	w.cs(uint64(len(txs)))
	want := []string{showHeader(h), fmt.Sprint(len(txs))}
	for i, k := range txs {
		t := mkTx(k, i)
		b := (&wr{}).tx(t).b
		w.raw(b)
		want = append(want, fmt.Sprintf("%s %x %v", t.id(), b, nil))
	}
	s := strings.Join(want, " ")
	name := fmt.Sprintf("block, header %d, txs %v", hk, txs)
	if len(txs) > 10 {
		name = fmt.Sprintf("block, header %d, %d txs", hk, len(txs))
	}
	return &msg{cmd: "block", name: name, wire: w.b, want: s, eof: true, lens: []int{76, at},
		dec: decodeAs(protocol.MsgBlock{}, func(x interface{}) string {
			m := x.(*protocol.MsgBlock)
			s := showHeader(m.Header) + fmt.Sprint(" ", len(m.TransactionsData.Transactions))
			for _, t := range m.TransactionsData.Transactions {
				s += " " + showTx(t)
			}
			return s
		})}
}

// filterData is Golomb-Rice data of arbitrary content.
func filterData(n int) []byte { return pattern(n, 0x3c) }

func ones(n, k int) []int {
	l := make([]int, n)
	for i := range l {
		l[i] = k
	}
	return l
}

// corpus is the moderate set the fragmentation and corruption checks use.
func corpus() []*msg {
	var l []*msg
	f := baseVer()
	l = append(l, verMsg(f))
	f.ua, f.relay, f.start = string(pattern(253, 0x20)), false, -1
	l = append(l, verMsg(f))
	f.ua = ""
	l = append(l, verMsg(f))
	l = append(l, pingMsg("ping", 0x0102030405060708), pingMsg("pong", math.MaxUint64), cmpctMsg(true, 1))
	for _, n := range []int{0, 1, 2, 253} {
		l = append(l, invMsg(n))
	}
	for _, n := range []int{0, 1, 3, 253} {
		l = append(l, getHeadersMsg(70016, n, hash32(9)))
	}
	l = append(l, getCFiltersMsg(0, 0x01020304, hash32(4)))
	for _, n := range []int{0, 1, 30, 251, 252, 253, 700} {
		l = append(l, cfilterMsg(hash32(5), 1, filterData(n)))
	}
	l = append(l, headersMsg(nil, 0))
	for k := 0; k < headerKinds; k++ {
		l = append(l, headersMsg([]int{k}, 5))
	}
	l = append(l, headersMsg([]int{0, 4, 2}, 1), headersMsg(ones(20, 0), 1))
	for k := 0; k < txKinds; k++ {
		l = append(l, txMsg(k, k))
	}
	l = append(l, blockMsg(0, nil), blockMsg(0, []int{2}), blockMsg(4, []int{2, 0, 1}), blockMsg(6, []int{3}))
	return l
}
