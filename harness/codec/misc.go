package main

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"net"
	"os"
	"sort"
	"strings"

	log "github.com/sirupsen/logrus"
	"github.com/vulpemventures/neutrino-elements/internal/config"
	"github.com/vulpemventures/neutrino-elements/pkg/node"
	"github.com/vulpemventures/neutrino-elements/pkg/peer"
	"github.com/vulpemventures/neutrino-elements/pkg/protocol"

	"github.com/vulpemventures/neutrino-elements/vsharness/lib"
	"verif/vs"
)

var genesis = map[string]string{
	"liquid":  "1466275836220db2944ca059a3a10ef6fd2ea684b0688d2c379296888a206003",
	"testnet": "a771da8e52ee6ad581ed1e9a99825e5b3b7992225534eaa2ae23244fe26ab1c1",
	"regtest": "00902a6b70c2ca83b5d9c815d96a0e2f4202179316970d14ea1847dae5b1ca21",
}

func sortedKeys(m map[string]bool) (out []string) {
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func try(f func()) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = fmt.Sprint(r)
		}
	}()
	f()
	return ""
}

func enumNetworks(e *vs.Enum) {
	for _, n := range netNames {
		n := n
		e.Case(func() string { return "tables of " + n }, func() {
			if m, ok := protocol.Networks[n]; !ok || m != nets[n] {
				e.Fail("C26", "magic", "%s has the magic bytes %x, should be %x", n, m, nets[n])
			}
			if h := protocol.GetCheckpoints(nets[n])[0]; h != genesis[n] {
				e.Fail("C26", "checkpoint", "%s begins with block %s, should be %s", n, h, genesis[n])
			}
			var got, cst string
			switch n {
			case "liquid":
				h, err := protocol.LiquidGenesisHeader.Hash()
				got, cst = fmt.Sprint(h, err), protocol.LiquidGenesisBlockHash
			case "testnet":
				h, err := protocol.LiquidTestnetGenesisHeader.Hash()
				got, cst = fmt.Sprint(h, err), protocol.LiquidTestnetGenesisBlockHash
			case "regtest":
				h, err := protocol.RegtestGenesisHeader.Hash()
				got, cst = fmt.Sprint(h, err), protocol.RegtestGenesisBlockHash
			}
			if cst != genesis[n] {
				e.Fail("C26", "genesis", "the genesis hash of %s is %s, should be %s", n, cst, genesis[n])
			}
			if got != genesis[n]+" <nil>" {
				e.Fail("C26", "genesis", "the genesis header of %s has the hash %s, should be %s", n, got, genesis[n])
			}
		})
	}
	e.Case(func() string { return "number of networks" }, func() {
		if len(protocol.Networks) != len(nets) {
			e.Fail("C26", "magic", "%d networks", len(protocol.Networks))
		}
	})
	// every name at edit distance one from a network's is refused
	names := map[string]bool{"": true, "mainnet": true, "bitcoin": true, "liquidv1": true, "liquidregtest": true}
	for _, n := range netNames {
		names[n] = true
		for i := range n {
			names[n[:i]+n[i+1:]] = true
			names[n[:i]+strings.ToUpper(n[i:i+1])+n[i+1:]] = true
			names[n[:i]+" "+n[i:]] = true
			names[n[:i]+"x"+n[i+1:]] = true
		}
		names[n+" "] = true
		names[n+"\x00"] = true
	}
	c := lib.NewChain(1, nil, nil, 0)
	for _, s := range sortedKeys(names) {
		s := s
		e.Case(func() string { return fmt.Sprintf("network %q", s) }, func() {
			_, known := nets[s]
			svc, err := node.New(node.NodeConfig{Network: s, UserAgent: "x", BlockHeadersDB: lib.NewHeaderRepo(c, -1), FiltersDB: lib.NewFilterRepo(c, -1)})
			if known != (err == nil) || known == (svc == nil) {
				e.Fail("C26", "unknown network", "a node for network %q: %v", s, err)
			}
			if known {
				e.Sched(func() { firstContact(s, "10.9.8.7", 4321) })
			}
			e.Distinct(s)
		})
	}
	for _, n := range netNames {
		for _, ip := range []string{"127.0.0.1", "0.0.0.0", "255.255.255.255", "1.2.3.4", "192.168.200.100"} {
			for _, port := range []uint16{0, 1, 255, 256, 9334, 18886, 65535} {
				n, ip, port := n, ip, port
				e.Case(func() string { return fmt.Sprintf("start on %s with %s:%d", n, ip, port) }, func() {
					e.Sched(func() { firstContact(n, ip, port) })
				})
			}
		}
	}
}

// rawConn is a connection which keeps what is written.
type rawConn struct {
	*lib.Conn
	out bytes.Buffer
}

func (c *rawConn) Write(p []byte) (int, error) { return c.out.Write(p) }

// firstContact starts a node with an empty store and looks at what its peer
// receives.
func firstContact(name, ip string, port uint16) {
	c := lib.NewChain(1, nil, nil, 0)
	k := &rawConn{Conn: lib.NewConn("peer", 40001)}
	addr := fmt.Sprintf("%s:%d", ip, port)
	var dialed []string
	vs.DialHook = func(network, a string) (net.Conn, error) {
		dialed = append(dialed, network+" "+a)
		return k, nil
	}
	svc, err := node.New(node.NodeConfig{Network: name, UserAgent: "agent-" + name, BlockHeadersDB: lib.NewHeaderRepo(c, -1), FiltersDB: lib.NewFilterRepo(c, -1)})
	if err != nil {
		vs.Fail("C26", "New: %v", err)
	}
	done := make(chan error, 1)
	go func() { done <- svc.Start(addr) }()
	vs.Quiesce()
	magic := nets[name]
	if len(dialed) != 1 || dialed[0] != "tcp "+addr {
		vs.Fail("C26", "dialed %v, should be tcp %s", dialed, addr)
	}
	b := k.out.Bytes()
	if len(b) < 24+80 {
		vs.Fail("C26", "on %s the peer received %x", name, b)
	}
	if !bytes.Equal(b[:4], magic[:]) {
		vs.Fail("C26", "on %s the first message has the magic bytes %x, should be %x", name, b[:4], magic)
	}
	p := b[24:]
	v4 := net.ParseIP(ip).To4()
	if got := p[20+8+12 : 20+26]; !bytes.Equal(got[:4], v4) || binary.BigEndian.Uint16(got[4:]) != port {
		vs.Fail("C26", "the version message names the receiver %x, should be %v port %d", got, v4, port)
	}
	if ua := "agent-" + name; !bytes.Contains(p, append([]byte{byte(len(ua))}, ua...)) {
		vs.Fail("C26", "the version message does not carry the agent %q: %x", ua, p)
	}
	k.out.Reset()
	v := verMsg(verF{version: 70016, services: 65, fip: [4]byte{127, 0, 0, 1}, nonce: 77, ua: "/p/", start: 5, relay: true})
	k.Deliver(envelope(magic, "version", v.wire))
	k.Deliver(envelope(magic, "verack", nil))
	vs.Quiesce()
	vs.Sleep(1e10)
	vs.Quiesce()
	seen := false
	for b := k.out.Bytes(); len(b) > 0; {
		if len(b) < 24 || !bytes.Equal(b[:4], magic[:]) {
			vs.Fail("C26", "on %s the peer received %x", name, b)
		}
		n := int(binary.LittleEndian.Uint32(b[16:]))
		if len(b) < 24+n {
			vs.Fail("C26", "on %s the peer received half a message %x", name, b)
		}
		if cmd := string(bytes.TrimRight(b[4:16], "\x00")); cmd == "getheaders" {
			seen = true
			p := b[24 : 24+n]
			g, _ := hex.DecodeString(genesis[name])
			for i, j := 0, 31; i < j; i, j = i+1, j-1 {
				g[i], g[j] = g[j], g[i]
			}
			if len(p) != 4+1+32+32 || !bytes.Equal(p[5:37], g) {
				vs.Fail("C26", "on %s the first getheaders asks from %x, should be the genesis block %x", name, p, g)
			}
		}
		b = b[24+n:]
	}
	if !seen {
		vs.Fail("C26", "on %s the node with an empty store never asks for headers", name)
	}
	if err := svc.Stop(); err != nil {
		vs.Fail("C26", "Stop: %v", err)
	}
}

type addrCase struct {
	s    string
	ok   bool
	ip   [4]byte
	port uint16
}

func addrCases(f func(addrCase)) {
	// every port, every value of every byte
	for p := 0; p <= 65535; p++ {
		f(addrCase{fmt.Sprintf("10.0.0.1:%d", p), true, [4]byte{10, 0, 0, 1}, uint16(p)})
	}
	for i := 0; i < 4; i++ {
		for v := 0; v < 256; v++ {
			ip := [4]byte{1, 2, 3, 4}
			ip[i] = byte(v)
			f(addrCase{fmt.Sprintf("%d.%d.%d.%d:8333", ip[0], ip[1], ip[2], ip[3]), true, ip, 8333})
		}
	}
	vals := []byte{0, 1, 9, 10, 99, 100, 127, 128, 254, 255}
	for _, a := range vals {
		for _, b := range vals {
			for _, c := range vals {
				for _, d := range vals {
					f(addrCase{fmt.Sprintf("%d.%d.%d.%d:18886", a, b, c, d), true, [4]byte{a, b, c, d}, 18886})
				}
			}
		}
	}
	// names are dialed, the address message then carries no address
	for _, h := range []string{"localhost", "node", "node.example.com", "256.1.1.1", "300.300.300.300", "1.2.3", "1.2.3.4.5", "a-b.c"} {
		f(addrCase{h + ":18886", true, [4]byte{}, 18886})
	}
	// the grammar is host:port; everything else over a small alphabet is refused
	for _, s := range []string{"", ":", "::", "10.0.0.1", "10.0.0.1:", ":18886", "10.0.0.1:18886:", "10.0.0.1:1:2", ":10.0.0.1:18886", "10.0.0.1:65536", "10.0.0.1:65537", "10.0.0.1:70000",
		"10.0.0.1:131071", "10.0.0.1:4294967297", "10.0.0.1:4294985582", "10.0.0.1:99999999999999999999", "10.0.0.1:18446744073709551617", "10.0.0.1:-1", "10.0.0.1:-65535", "10.0.0.1:x", "10.0.0.1:1x", "10.0.0.1:x1", "10.0.0.1: 1",
		"10.0.0.1:1 ", "10.0.0.1:0x10", "10.0.0.1:1.5", "10.0.0.1:1e3", "10.0.0.1:http", "10.0.0.1:18886/", "localhost", "localhost:", "localhost:port"} {
		f(addrCase{s: s})
	}
}

func enumAddrs(e *vs.Enum) {
	addrCases(func(a addrCase) {
		e.Case(func() string { return fmt.Sprintf("address %q", a.s) }, func() {
			var got *protocol.Addr
			var err error
			if p := try(func() { got, err = protocol.ParseNodeAddr(a.s) }); p != "" {
				e.Fail("C26", "address", "address %q: panic %s", a.s, p)
			}
			switch {
			case a.ok && (err != nil || got == nil):
				e.Fail("C26", "address", "address %q is refused: %v", a.s, err)
			case !a.ok && err == nil:
				e.Fail("C26", "address", "address %q is accepted as %+v", a.s, got)
			case a.ok && ([4]byte(got.IP) != a.ip || got.Port != a.port):
				e.Fail("C26", "address", "address %q is taken for %v port %d", a.s, got.IP, got.Port)
			}
			if a.ok {
				e.Distinct(fmt.Sprint(got.IP, got.Port))
			}
		})
	})
	// making a peer
	i := 0
	addrCases(func(a addrCase) {
		if i++; a.ok && a.ip == [4]byte{10, 0, 0, 1} && i > 300 && i < 65300 {
			return
		}
		e.Case(func() string { return fmt.Sprintf("peer %q", a.s) }, func() {
			for _, up := range []bool{true, false} {
				var dialed []string
				var conns []*lib.Conn
				e.Sched(func() {
					vs.DialHook = func(network, x string) (net.Conn, error) {
						dialed = append(dialed, network+" "+x)
						if !up {
							return nil, errors.New("connection refused")
						}
						conns = append(conns, lib.NewConn("peer", 40000+len(conns)))
						return conns[len(conns)-1], nil
					}
					p, err := peer.NewElementsPeer(a.s)
					open := 0
					for _, c := range conns {
						if !c.Closed() {
							open++
						}
					}
					switch {
					case a.ok && up:
						if err != nil {
							vs.Fail("C26", "peer %q is refused: %v", a.s, err)
						}
						if len(dialed) != 1 || dialed[0] != "tcp "+a.s {
							vs.Fail("C26", "peer %q: dialed %q", a.s, dialed)
						}
						if x := p.Addr(); x == nil || [4]byte(x.IP) != a.ip || x.Port != a.port {
							vs.Fail("C26", "peer %q has the address %+v", a.s, x)
						}
						if p.Connection() != net.Conn(conns[0]) {
							vs.Fail("C26", "peer %q does not use the connection made for it", a.s)
						}
						p.SetPeersTip(1 << 31)
						if p.PeersTip() != 1<<31 {
							vs.Fail("C26", "peer %q has the tip %d, was set to %d", a.s, p.PeersTip(), uint32(1)<<31)
						}
						q, err := peer.NewElementsPeer(a.s)
						if err != nil || q.ID() == p.ID() {
							vs.Fail("C26", "two connections to %q have the same identity %v (%v)", a.s, p.ID(), err)
						}
					case err == nil || p != nil:
						vs.Fail("C26", "peer %q is made (%v) although it is malformed or refuses the connection", a.s, err)
					case open > 0:
						vs.Fail("C26", "peer %q is refused (%v) but leaves a connection open", a.s, err)
					}
				})
			}
		})
	})
}

func enumTxIDs(e *vs.Enum) {
	for kind := 0; kind < txKinds; kind++ {
		for n := 0; n < 40; n++ {
			kind, n := kind, n
			e.Case(func() string { return fmt.Sprint("id of transaction kind ", kind, " number ", n) }, func() {
				t := mkTx(kind, n)
				m, err := protocol.NewMsgTxFromHex(hex.EncodeToString((&wr{}).tx(t).b))
				if err != nil {
					e.Fail("C26", "txid", "the transaction is refused: %v", err)
				}
				want := t.id()
				if s := m.HashStr(); s != want.String() {
					e.Fail("C26", "txid", "identifier %s, want %s", s, want)
				}
				h, err := m.Hash()
				if err != nil || hex.EncodeToString(h) != want.String() {
					e.Fail("C26", "txid", "identifier %x (%v), want %s", h, err, want)
				}
				e.Distinct(want.String())
			})
		}
	}
}

func enumServices(e *vs.Enum) {
	var vals []uint64
	for i := 0; i < 64; i++ {
		vals = append(vals, 1<<uint(i), 1<<uint(i)-1, ^(uint64(1) << uint(i)))
		for j := 0; j < i; j++ {
			vals = append(vals, 1<<uint(i)|1<<uint(j))
		}
	}
	vals = append(vals, 1<<64-1)
	for i := 0; i < 64; i++ {
		i := i
		e.Case(func() string { return fmt.Sprint("service bit ", i) }, func() {
			for _, v := range vals {
				for _, f := range []uint64{1 << uint(i), 1<<uint(i) | 1, 1<<uint(i) | 1<<6} {
					if got := (protocol.MsgVersion{Services: v}).HasService(protocol.ServiceFlag(f)); got != (v&f == f) {
						e.Fail("C26", "services", "services %x include %x: %v", v, f, got)
					}
				}
			}
		})
	}
}

// enumConfig sets every one and every two of the daemon's variables.
func enumConfig(e *vs.Enum) {
	type key struct {
		name, def string
		vals      []string
	}
	keys := []key{
		{"NEUTRINOD_URL", "localhost:8000", []string{"0.0.0.0:1", "host:65535"}},
		{"EXPLORER_URL", "http://localhost:3001", []string{"https://blockstream.info/liquid/api", "http://h:1/x"}},
		{"PEER_URL", "localhost:18886", []string{"1.2.3.4:7042"}},
		{"NETWORK", "regtest", []string{"liquid", "testnet", "regtest", "mainnet", "Liquid", "liquid "}},
		{"LOG_LEVEL", "4", []string{"0", "1", "5", "6"}},
		{"DB_USER", "root", []string{"me", "a b"}},
		{"DB_PASS", "secret", []string{"p@ss:w/o?r#d%41", "x"}},
		{"DB_HOST", "127.0.0.1", []string{"db"}},
		{"DB_PORT", "5432", []string{"1", "65535"}},
		{"DB_NAME", "neutrino-elements", []string{"n"}},
		{"DB_MIGRATION_PATH", "file://internal/infrastructure/storage/db/pg/migration", []string{"file:///m"}},
	}
	check := func(set map[string]string) {
		e.Case(func() string { return fmt.Sprintf("environment %q", set) }, func() {
			for _, k := range keys {
				os.Unsetenv("NEUTRINO_ELEMENTS_" + k.name)
				os.Unsetenv(k.name)
			}
			for k, v := range set {
				os.Setenv("NEUTRINO_ELEMENTS_"+k, v)
			}
			defer func() {
				for k := range set {
					os.Unsetenv("NEUTRINO_ELEMENTS_" + k)
				}
			}()
			lvl := log.GetLevel()
			defer log.SetLevel(lvl)
			err := config.LoadConfig()
			n, ok := set["NETWORK"]
			if _, known := nets[n]; ok && !known {
				if err == nil {
					e.Fail("C26", "config", "the network %q is accepted", n)
				}
				return
			}
			if err != nil {
				e.Fail("C26", "config", "refused: %v", err)
			}
			for _, k := range keys {
				want, ok := set[k.name]
				if !ok {
					want = k.def
				}
				if got := config.GetString(k.name); got != want {
					e.Fail("C26", "config", "%s is %q, should be %q", k.name, got, want)
				}
				if k.name == "DB_PORT" && fmt.Sprint(config.GetInt(k.name)) != want {
					e.Fail("C26", "config", "%s is %d, should be %s", k.name, config.GetInt(k.name), want)
				}
				if k.name == "LOG_LEVEL" && fmt.Sprint(int(log.GetLevel())) != want {
					e.Fail("C26", "config", "the log level is %d, should be %s", log.GetLevel(), want)
				}
			}
			e.Distinct(fmt.Sprint(set))
		})
	}
	check(map[string]string{})
	for i, k := range keys {
		for _, v := range k.vals {
			check(map[string]string{k.name: v})
			for _, k2 := range keys[:i] {
				for _, v2 := range k2.vals {
					check(map[string]string{k.name: v, k2.name: v2})
				}
			}
		}
	}
}

func miscScenarios() []*vs.Scenario {
	return []*vs.Scenario{
		{Name: "networks", Props: []string{"C26"}, Desc: "constants of the three networks, every network name one edit away from theirs, first contact with a peer on every network at boundary addresses", Enum: enumNetworks},
		{Name: "addresses", Props: []string{"C26"}, Desc: "peer addresses: all ports, all values of every byte, boundary values of all bytes, host names, everything malformed; peers made from them, reachable or not", Enum: enumAddrs, Weight: 2},
		{Name: "txids", Props: []string{"C26"}, Desc: "identifiers of 40 transactions of each of 8 kinds", Enum: enumTxIDs},
		{Name: "services", Props: []string{"C26"}, Desc: "service bits: every flag against every one or two set bits", Enum: enumServices},
		{Name: "settings", Props: []string{"C26"}, Desc: "the daemon's environment: every one and every two variables set", Enum: enumConfig},
		{Name: "database", Props: []string{"C26"}, Desc: "logins at a database server on the loopback: every printable character in user, password and database name, several hosts", Enum: enumDatabase},
	}
}
