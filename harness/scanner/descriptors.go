package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"sort"
	"strings"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/btcsuite/btcd/btcutil"
	"github.com/btcsuite/btcd/btcutil/hdkeychain"
	"github.com/btcsuite/btcd/chaincfg"
	"github.com/vulpemventures/go-elements/transaction"
	"github.com/vulpemventures/neutrino-elements/pkg/repository"
	"github.com/vulpemventures/neutrino-elements/pkg/scanner"
	"github.com/vulpemventures/neutrino-elements/vsharness/lib"

	"verif/vs"
)

// wallet is a descriptor with the scripts it stands for, derived by hand.
type wallet struct {
	name, desc string
	scripts    [][]byte // all the same if it has no range
	others     [][]byte // scripts of related keys it does not stand for
	ranged     bool
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func wpkh(pub []byte) []byte { return append([]byte{0, 20}, btcutil.Hash160(pub)...) }

func derive(k *hdkeychain.ExtendedKey, path ...uint32) *hdkeychain.ExtendedKey {
	for _, i := range path {
		var err error
		k, err = k.Derive(i)
		must(err)
	}
	return k
}

func pubOf(k *hdkeychain.ExtendedKey) []byte {
	p, err := k.ECPubKey()
	must(err)
	return p.SerializeCompressed()
}

const walletRange = 100

func wallets() []wallet {
	var out []wallet
	sk, pk := btcec.PrivKeyFromBytes(prog(32, 3))
	pub := pk.SerializeCompressed()
	hexKey := hex.EncodeToString(pub)
	other := wpkh(pubOf(derive(master(9), 5)))
	single := func(name, desc string, script []byte, others ...[]byte) {
		w := wallet{name: name, desc: desc, others: append(others, other)}
		for i := 0; i < walletRange; i++ {
			w.scripts = append(w.scripts, script)
		}
		out = append(out, w)
	}
	single("public key", "elwpkh("+hexKey+")", wpkh(pub))
	single("public key, upper case", "elwpkh("+strings.ToUpper(hexKey)+")", wpkh(pub))
	single("public key, documented name", "wpkh("+hexKey+")", wpkh(pub))
	single("public key, checksum", "elwpkh("+hexKey+")#12345678", wpkh(pub))
	single("public key, origin", "elwpkh([d34db33f/44'/0'/0']"+hexKey+")", wpkh(pub))
	single("public key, origin without path", "wpkh([d34db33f]"+hexKey+")#abcdefgh", wpkh(pub))
	single("public key, spaces", " elwpkh( "+hexKey+" ) ", wpkh(pub))
	wif, err := btcutil.NewWIF(sk, &chaincfg.MainNetParams, true)
	must(err)
	single("wif", "elwpkh("+wif.String()+")", wpkh(pub))
	single("wif, documented name", "wpkh("+wif.String()+")", wpkh(pub))

	const hard = hdkeychain.HardenedKeyStart
	m := master(1)
	mpub, err := m.Neuter()
	must(err)
	single("xprv", "elwpkh("+m.String()+")", wpkh(pubOf(m)), wpkh(pubOf(derive(m, 0))))
	single("xpub", "wpkh("+mpub.String()+")", wpkh(pubOf(m)), wpkh(pubOf(derive(m, 0))))
	single("xprv path", "elwpkh("+m.String()+"/1/2)", wpkh(pubOf(derive(m, 1, 2))), wpkh(pubOf(derive(m, 1))), wpkh(pubOf(derive(m, 2, 1))))
	single("xprv hardened path", "elwpkh("+m.String()+"/1'/2h/3)", wpkh(pubOf(derive(m, hard+1, hard+2, 3))), wpkh(pubOf(derive(m, 1, 2, 3))))
	single("xpub path", "elwpkh([ffffffff/13']"+mpub.String()+"/1/2)", wpkh(pubOf(derive(m, 1, 2))))
	ranged := func(name, prefix string, k *hdkeychain.ExtendedKey, path ...uint32) {
		w := wallet{name: name, ranged: true}
		b := derive(m, path...)
		for i := 0; i < walletRange; i++ {
			w.scripts = append(w.scripts, wpkh(pubOf(derive(b, uint32(i)))))
		}
		w.others = [][]byte{other, wpkh(pubOf(b))}
		if len(path) > 0 {
			w.others = append(w.others, wpkh(pubOf(derive(derive(m, path[:len(path)-1]...), 77777))))
		}
		p := ""
		for _, i := range path {
			if i >= hard {
				p += fmt.Sprintf("/%d'", i-hard)
			} else {
				p += fmt.Sprintf("/%d", i)
			}
		}
		w.desc = prefix + k.String() + p + "/*)"
		out = append(out, w)
	}
	ranged("xpub range", "elwpkh(", mpub, 1)
	ranged("xprv range", "elwpkh(", m, 1, 2)
	ranged("xpub range, documented name", "wpkh([d34db33f/44'/0'/0']", mpub, 0)
	ranged("xprv hardened path and range", "wpkh(", m, hard+84, hard+1776, hard, 0)
	return out
}

func master(seed byte) *hdkeychain.ExtendedKey {
	k, err := hdkeychain.NewMaster(prog(32, seed), &chaincfg.MainNetParams)
	must(err)
	return k
}

// chainOf pays scripts of the wallet in every block but the third, where the
// first payment is spent.
func chainOf(w wallet) *lib.Chain {
	s := w.scripts
	t1 := lib.Tx(1, s[0])
	txs := map[int][]*transaction.Transaction{
		1: {t1},
		2: {lib.Tx(2, lib.Script(60), s[1]), lib.Tx(3, lib.Script(61))},
		3: {lib.Spend(4, t1, 0, lib.Script(62))},
		4: {lib.Tx(5, s[57]), lib.Tx(6, lib.Script(63)), lib.Tx(7, s[0], s[99])},
		6: {lib.Tx(9, s[99])},
	}
	for i, o := range w.others {
		txs[5] = append(txs[5], lib.Tx(20+i, o))
	}
	txs[5] = append(txs[5], lib.Tx(8, lib.Script(1)))
	return lib.NewChain(6, txs, map[int][][]byte{3: {s[0]}}, 3)
}

// wantUnspent lists the reports of a registration.
func wantUnspent(c *lib.Chain, w wallet, id byte, from, tip int) (out []string) {
	seen := map[string]bool{}
	for _, s := range w.scripts {
		if seen[string(s)] {
			continue
		}
		seen[string(s)] = true
		for h := from; h <= tip; h++ {
			for _, tx := range c.Blocks[h].TransactionsData.Transactions {
				for _, o := range tx.Outputs {
					if bytes.Equal(o.Script, s) {
						out = append(out, fmt.Sprintf("%x unspent@%d:%s", id, h, tx.TxHash().String()[:8]))
						break
					}
				}
			}
		}
	}
	return
}

func (w *world) collectAll(ch <-chan scanner.Report) {
	vs.Daemon()
	for r := range ch {
		w.mu.Lock()
		if r.Transaction == nil || r.BlockHash == nil || r.Request == nil || r.Request.Item == nil {
			w.bad = "report with missing parts"
		} else {
			if h := w.c.HeightOf(*r.BlockHash); h != int(r.BlockHeight) {
				w.bad = fmt.Sprintf("report says height %d, its block hash has height %d", r.BlockHeight, h)
			}
			kind := map[scanner.EventType]string{scanner.UnspentUtxo: "unspent", scanner.SpentUtxo: "spent"}[r.Request.Item.EventType()]
			w.got = append(w.got, fmt.Sprintf("%x %s@%d:%s", r.Request.ClientID[15], kind, r.BlockHeight, r.Transaction.TxHash().String()[:8]))
		}
		w.mu.Unlock()
	}
}

// diff compares the reports of the given kind.
func (w *world) diff(kind string, want []string) string {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.bad != "" {
		return w.bad
	}
	var got []string
	for _, s := range w.got {
		if strings.Contains(s, " "+kind+"@") {
			got = append(got, s)
		}
	}
	g, x := append([]string{}, got...), append([]string{}, want...)
	sort.Strings(g)
	sort.Strings(x)
	if strings.Join(g, ",") != strings.Join(x, ",") {
		return fmt.Sprintf("reports %v, should be %v", g, x)
	}
	return ""
}

func (w *world) startAll() {
	ch, err := w.svc.Start()
	if err != nil {
		vs.Fail("C14,C15", "Start failed: %v", err)
	}
	go w.collectAll(ch)
}

func (w *world) extend(from, to int) {
	for h := from; h <= to; h++ {
		w.fr.Put(w.c.FilterKey(h), w.c.Filters[h])
		w.hr.Put(*w.c.Blocks[h].Header)
	}
}

// watchDesc calls the library; a panic is an answer too.
func (w *world) watchDesc(id byte, desc string, ev []scanner.EventType, from int) (err error, crash string) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(error); !ok && fmt.Sprintf("%T", r) != "string" {
				panic(r)
			}
			crash = fmt.Sprint(r)
		}
	}()
	return w.svc.WatchDescriptorWallet(idOf(id), desc, ev, from), ""
}

func idOf(n byte) [16]byte { return id(int(n)) }

// enumDescriptors: valid descriptors with all lists of events and start heights.
func enumDescriptors(e *vs.Enum) {
	const u, s = scanner.UnspentUtxo, scanner.SpentUtxo
	events := [][]scanner.EventType{{u}, {u, u}, {u, s}, {s, u}, {s}, {}}
	for _, wl := range wallets() {
		c := chainOf(wl)
		for _, ev := range events {
			for _, from := range []int{0, 1, 2, 4, 5, 6, 7, 255, 65535, 65537, 1<<31 - 1, 1<<31 + 1, 1<<32 - 1} {
				for _, restart := range []bool{false, true} {
					wl, ev, from, restart := wl, ev, from, restart
					if restart && (from != 2 || wl.ranged && e.Tier != "thorough") {
						continue
					}
					if from > 100 && e.Tier != "thorough" && (wl.name != "xprv" || len(ev) != 1) {
						continue
					}
					if wl.ranged && e.Tier != "thorough" && from > 2 && from != 5 {
						continue
					}
					e.Case(func() string {
						return fmt.Sprintf("%s %q events %v from %d restart %v", wl.name, wl.desc, ev, from, restart)
					}, func() {
						hasU, hasS := false, false
						for _, x := range ev {
							hasU = hasU || x == u
							hasS = hasS || x == s
						}
						spent := ""
						e.Sched(func() {
							w := newWorld(c, 5)
							w.startAll()
							if restart {
								w.svc.Stop()
							}
							err, crash := w.watchDesc(1, wl.desc, ev, from)
							if crash != "" || err != nil {
								vs.Fail("C15", "%s: refused: %v %s", wl.name, err, crash)
							}
							if restart {
								w.startAll()
							}
							w.settle()
							var want []string
							if hasU {
								want = wantUnspent(c, wl, 1, from, 5)
							}
							if d := w.diff("unspent", want); d != "" {
								vs.Fail("C15", "%s: %s", wl.name, d)
							}
							w.extend(6, 6)
							// another watch wakes the scanner
							w.watch(pay("x", 9, 0, 999, false))
							w.settle()
							if hasU {
								want = wantUnspent(c, wl, 1, from, 6)
							}
							if d := w.diff("unspent", want); d != "" {
								vs.Fail("C15", "%s, after the chain has grown: %s", wl.name, d)
							}
							want = nil
							if hasS && from <= 3 {
								want = []string{fmt.Sprintf("1 spent@3:%s", c.Blocks[3].TransactionsData.Transactions[0].TxHash().String()[:8])}
							}
							spent = w.diff("spent", want)
							w.svc.Stop()
						})
						e.Distinct(fmt.Sprint(wl.name, ev, from))
						if spent != "" {
							key := "spent-wrong"
							if strings.HasPrefix(spent, "reports [], ") {
								key = "spent-events"
							}
							e.Fail("C15", key, "%s: an output of the wallet is spent in block 3: %s", wl.name, spent)
						}
					})
				}
			}
		}
	}
}

// enumBadDescriptors: what is not a supported descriptor is refused and
// watches nothing; whatever comes nothing panics.
func enumBadDescriptors(e *vs.Enum) {
	ws := wallets()
	try := func(desc, why string, from int, mustFail bool) {
		e.Case(func() string { return fmt.Sprintf("%s: %q from %d", why, desc, from) }, func() {
			e.Sched(func() {
				w := newWorld(chainOf(ws[0]), 5)
				looked := 0
				w.fr.OnCall = func(string, repository.FilterKey) error {
					looked++
					return nil
				}
				w.startAll()
				err, crash := w.watchDesc(1, desc, []scanner.EventType{scanner.UnspentUtxo}, from)
				w.settle()
				if crash != "" {
					vs.Fail("C15", "%s: %q: panic: %s", why, desc, crash)
				}
				if mustFail && err == nil {
					vs.Fail("C15", "%s: %q from %d is accepted", why, desc, from)
				}
				if err != nil && looked > 0 {
					vs.Fail("C15", "%s: %q is refused (%v) but something is watched", why, desc, err)
				}
				if err == nil && looked == 0 {
					vs.Fail("C15", "%s: %q is accepted but nothing is watched", why, desc)
				}
				// the scanner still works
				n := len(w.got)
				r := pay("x", 9, 5, 1, false)
				w.watch(r)
				w.settle()
				if len(w.got) != n+1 {
					vs.Fail("C15", "%s: after %q another watch has the reports %v", why, desc, w.got)
				}
				w.svc.Stop()
			})
			e.Distinct(desc)
		})
	}
	key := ws[0].desc[len("elwpkh(") : len(ws[0].desc)-1]
	for _, f := range []string{"sh", "wsh", "pk", "pkh", "combo", "multi", "sortedmulti", "multi_a", "sortedmulti_a", "tr", "addr", "raw", "wpk", "x", ""} {
		for _, p := range []string{"el", ""} {
			for _, in := range []string{key, "elwpkh(" + key + ")", "1," + key, key + "," + key} {
				try(p+f+"("+in+")", "unsupported", 0, !strings.HasPrefix(in, "elwpkh") || p+f != "")
			}
		}
	}
	for _, d := range []string{"", " ", "(", ")", "()", "elwpkh", "elwpkh(", "elwpkh()", "wpkh()", "wpkh", "elwpkh(])", "elwpkh([)", "elwpkh([])", "elwpkh([]" + key + ")", "elwpkh(]" + key + ")", "elwpkh([d34db33f" + key + ")",
		"elwpkh([d34db33]" + key + ")", "elwpkh([d34db33g]" + key + ")", "elwpkh([d34db33f/]" + key + ")", "elwpkh([d34db33f/x]" + key + ")", "elwpkh([d34db33f/1]]" + key + ")",
		"elwpkh(" + key + ")#", "elwpkh(" + key + ")#1234567", "elwpkh(" + key + ")#12345678#", "elwpkh(" + key[:64] + ")", "elwpkh(" + key + "00)", "elwpkh(zz" + key + ")", "elwpkh(xpub)", "elwpkh(xprv/*)", "elwpkh(xpub/1/2/*)", "elwpkh(/)", "elwpkh(/*)", "elwpkh(*)"} {
		try(d, "malformed", 0, true)
	}
	m := master(1)
	mpub, _ := m.Neuter()
	for _, p := range []string{"/1'/*", "/1'", "/x/*", "/-1", "/4294967296/*", "//*", "/", "/1/", "/*/1", "/**", "/*h", "/*'", "/1//2"} {
		try("elwpkh("+mpub.String()+p+")", "impossible path", 0, true)
		if !strings.Contains(p, "1'") {
			try("elwpkh("+m.String()+p+")", "impossible path", 0, true)
		}
	}
	for _, from := range []int{-1, -100, -1 << 31, 1 << 32, 1<<32 + 1} {
		try(ws[0].desc, "impossible height", from, true)
	}
	// everything one edit away from valid descriptors
	for wi, wl := range ws {
		if e.Tier != "thorough" && wi != 4 && wi != 17 && wi != 7 {
			continue
		}
		d := wl.desc
		for i := 0; i <= len(d); i++ {
			if i < len(d) {
				try(d[:i], "cut off", 0, len(strings.TrimSpace(d[:i])) == 0 || !strings.Contains(d[:i], ")"))
				try(d[:i]+d[i+1:], "one character missing", 0, false)
			}
			for _, x := range []string{"]", "[", "(", ")", "/", "*", "#", "'", "é", "\x00", "0"} {
				try(d[:i]+x+d[i:], "one character inserted", 0, false)
				if i < len(d) && e.Tier == "thorough" {
					try(d[:i]+x+d[i+1:], "one character replaced", 0, false)
				}
			}
		}
	}
}

// descriptorRace: wallets are watched at the same time while the chain grows.
func descriptorRace() {
	ws := wallets()
	a, b := ws[0], ws[11]
	txs := map[int][]*transaction.Transaction{
		1: {lib.Tx(1, a.scripts[0])},
		2: {lib.Tx(2, b.scripts[0], a.scripts[0]), lib.Tx(3, b.scripts[0])},
		3: {lib.Tx(4, a.scripts[0])},
	}
	c := lib.NewChain(4, txs, nil, 2)
	w := newWorld(c, 1)
	w.startAll()
	var done [3]chan struct{}
	for i := range done {
		done[i] = make(chan struct{})
	}
	u := []scanner.EventType{scanner.UnspentUtxo}
	watch := func(n byte, wl wallet, from int) {
		if err, crash := w.watchDesc(n, wl.desc, u, from); err != nil || crash != "" {
			vs.Fail("C15", "%s: refused: %v %s", wl.name, err, crash)
		}
		close(done[n-1])
	}
	go watch(1, a, 0)
	go watch(2, b, 2)
	go watch(3, a, 2)
	w.extend(2, 3)
	for i := range done {
		<-done[i]
	}
	w.settle()
	// something has to happen for the persistent watches to be looked at again
	w.watch(pay("x", 9, 0, 999, false))
	w.settle()
	var want []string
	want = append(want, wantUnspent(c, a, 1, 0, 3)...)
	want = append(want, wantUnspent(c, b, 2, 2, 3)...)
	want = append(want, wantUnspent(c, a, 3, 2, 3)...)
	if d := w.diff("unspent", want); d != "" {
		vs.Fail("C15", "two clients, three wallets: %s; live: %v", d, vs.Live())
	}
}

func descriptorScenarios() []*vs.Scenario {
	return []*vs.Scenario{
		{Name: "descriptors", Props: []string{"C15"}, Weight: 3, Enum: enumDescriptors, Desc: "descriptors of every supported form x lists of event types x start heights on a chain paying the wallet's first, second, middle and last script, related keys and others; the chain grows; restarts"},
		{Name: "bad-descriptors", Props: []string{"C15"}, Weight: 2, Enum: enumBadDescriptors, Desc: "unsupported and malformed descriptors and heights, and every descriptor one edit away from a valid one: refused without a trace or watched, never a panic"},
		{Name: "descriptor-race", Props: []string{"C15", "C27"}, Race: true, Run: descriptorRace, Desc: "three registrations of two wallets at the same time while the chain grows; schedules"},
	}
}
