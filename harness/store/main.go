package main

import (
	"bytes"
	"context"
	"database/sql/driver"
	"errors"
	"fmt"
	"sync"

	"github.com/btcsuite/btcd/blockchain"
	"github.com/btcsuite/btcd/btcutil/gcs"
	"github.com/btcsuite/btcd/btcutil/gcs/builder"
	"github.com/btcsuite/btcd/chaincfg/chainhash"
	"github.com/btcsuite/btcd/wire"
	"github.com/lib/pq"
	"github.com/vulpemventures/go-elements/block"
	"github.com/vulpemventures/neutrino-elements/internal/infrastructure/storage/db/inmemory"
	dbpg "github.com/vulpemventures/neutrino-elements/internal/infrastructure/storage/db/pg"
	"github.com/vulpemventures/neutrino-elements/pkg/repository"
	"github.com/vulpemventures/neutrino-elements/vsharness/lib"

	"verif/vs"
)

var bg = context.Background()

// store is a pair of repositories of one of the two implementations.
type store struct {
	kind string
	e    *engine
	hr   repository.BlockHeaderRepository
	fr   repository.FilterRepository
	done func()
}

// kinds: 0 in memory, 1 Postgres, 2 Postgres with unordered results reversed
func newStore(kind int) *store {
	if kind == 0 {
		return &store{kind: "inmemory", hr: inmemory.NewHeaderInmemory(), fr: inmemory.NewFilterInmemory(), done: func() {}}
	}
	e := newEngine()
	e.reverse = kind == 2
	s := &store{kind: "postgres", e: e}
	s.open()
	return s
}

// open makes new repositories over the same database.
func (s *store) open() {
	if s.e == nil {
		return
	}
	if s.done != nil {
		s.done()
	}
	db := s.e.db()
	svc := &dbpg.DbService{Db: db}
	s.hr, _ = dbpg.NewHeaderRepositoryImpl(svc)
	s.fr, _ = dbpg.NewFilterRepositoryImpl(svc)
	s.done = func() { _ = db.Close() }
}

// unsupported: the code issues statements the stand-in does not know; nothing
// can be said then.
func (s *store) unsupported() bool {
	if s.e == nil {
		return false
	}
	s.e.mu.Lock()
	defer s.e.mu.Unlock()
	return s.e.odd != ""
}

// ---- headers

var (
	mainHeaders = func() (out []*block.Header) {
		var prev []byte
		for h := 0; h <= 8; h++ {
			x := lib.Header(uint32(h), prev, 1)
			hash, _ := x.Hash()
			prev = hash.CloneBytes()
			out = append(out, x)
		}
		return
	}()
	b2 = func() *block.Header {
		h, _ := mainHeaders[1].Hash()
		return lib.Header(2, h.CloneBytes(), 7)
	}()
	b3 = func() *block.Header {
		h, _ := b2.Hash()
		return lib.Header(3, h.CloneBytes(), 7)
	}()
	every = append(append([]*block.Header{}, mainHeaders[1:5]...), b2, b3)
)

func hashOf(h *block.Header) chainhash.Hash { x, _ := h.Hash(); return x }

func bytesOf(h *block.Header) []byte { x, _ := h.Serialize(); return x }

// refStore is the reference: must holds what is certainly stored, may what a
// store may or may not keep (a second header of a height).
type refStore struct {
	must, may map[chainhash.Hash]*block.Header
	heights   map[uint32][]*block.Header
}

func newRef() *refStore {
	return &refStore{map[chainhash.Hash]*block.Header{}, map[chainhash.Hash]*block.Header{}, map[uint32][]*block.Header{}}
}

func (r *refStore) write(b []*block.Header) (conflict bool) {
	for _, h := range b {
		x := hashOf(h)
		if r.must[x] != nil || r.may[x] != nil {
			continue
		}
		if len(r.heights[h.Height]) > 0 {
			r.may[x] = h
			conflict = true
		} else {
			r.must[x] = h
		}
		r.heights[h.Height] = append(r.heights[h.Height], h)
	}
	return
}

func (r *refStore) copy() *refStore {
	n := newRef()
	for k, v := range r.must {
		n.must[k] = v
	}
	for k, v := range r.may {
		n.may[k] = v
	}
	for k, v := range r.heights {
		n.heights[k] = append([]*block.Header{}, v...)
	}
	return n
}

func (r *refStore) tip() (t uint32) {
	for h := range r.heights {
		if h > t {
			t = h
		}
	}
	return
}

func (r *refStore) ancestors(h *block.Header, with map[chainhash.Hash]*block.Header) bool {
	for h.Height > 1 {
		p, _ := chainhash.NewHash(h.PrevBlockHash)
		n := r.must[*p]
		if n == nil && with != nil {
			n = with[*p]
		}
		if n == nil {
			return false
		}
		h = n
	}
	return true
}

func (r *refStore) at(h uint32, x chainhash.Hash) bool {
	for _, v := range r.heights[h] {
		if hashOf(v) == x {
			return true
		}
	}
	return false
}

// locatorFault says what is wrong with a block locator of a chain whose
// heights are all stored.
func locatorFault(l blockchain.BlockLocator, tip uint32, height func(chainhash.Hash) int) string {
	if len(l) == 0 || len(l) > wire.MaxBlockLocatorsPerMsg {
		return fmt.Sprintf("has %d entries", len(l))
	}
	var hs []int
	for _, x := range l {
		if x == nil {
			return "has an empty entry"
		}
		h := height(*x)
		if h < 0 {
			return "names a block that is not stored"
		}
		if n := len(hs); n > 0 && hs[n-1] == h {
			continue // a repeated entry does no harm
		}
		hs = append(hs, h)
	}
	if hs[0] != int(tip) {
		return fmt.Sprintf("begins at height %d, the tip is %d", hs[0], tip)
	}
	gap := 1
	for i := 1; i < len(hs); i++ {
		g := hs[i-1] - hs[i]
		if g <= 0 {
			return fmt.Sprintf("is not descending: %v", hs)
		}
		if i < 9 && g != 1 || g > 2*gap {
			return fmt.Sprintf("leaves out too much: %v", hs)
		}
		gap = g
	}
	if last := hs[len(hs)-1]; last > 2*gap && len(l) < wire.MaxBlockLocatorsPerMsg {
		return fmt.Sprintf("ends too early: %v", hs)
	}
	if n := len(hs); n > 60 {
		return fmt.Sprintf("is not thinned out: %d entries", n)
	}
	return ""
}

// diff compares everything the header repository answers with the reference.
func (s *store) diff(r *refStore) string {
	tip, err := s.hr.ChainTip(bg)
	if len(r.heights) == 0 {
		if !errors.Is(err, repository.ErrNoBlocksHeaders) {
			return fmt.Sprintf("ChainTip of an empty store: %v, %v", tip, err)
		}
	} else if err != nil || tip == nil {
		return fmt.Sprintf("ChainTip: %v", err)
	} else if tip.Height != r.tip() || !r.at(tip.Height, hashOf(tip)) {
		return fmt.Sprintf("ChainTip is at height %d, the highest stored header at %d", tip.Height, r.tip())
	}
	for i, h := range every {
		x := hashOf(h)
		got, err := s.hr.GetBlockHeader(bg, x)
		stored := r.must[x] != nil
		maybe := r.may[x] != nil
		switch {
		case err == nil && !stored && !maybe:
			return fmt.Sprintf("GetBlockHeader finds header %d that was never written", i)
		case err == nil && (got == nil || !bytes.Equal(bytesOf(got), bytesOf(h))):
			return fmt.Sprintf("GetBlockHeader returns another header than %d", i)
		case err != nil && stored:
			return fmt.Sprintf("GetBlockHeader of the stored header %d: %v", i, err)
		case err != nil && !errors.Is(err, repository.ErrBlockNotFound):
			return fmt.Sprintf("GetBlockHeader of an unknown hash: %v", err)
		}
		isMay := maybe && err == nil
		ok, err := s.hr.HasAllAncestors(bg, x)
		switch {
		case stored || isMay:
			a, b := r.ancestors(h, nil), r.ancestors(h, r.may)
			if err != nil || ok != a && ok != b {
				return fmt.Sprintf("HasAllAncestors of header %d: %v, %v", i, ok, err)
			}
		case maybe:
		default:
			if err == nil || ok || !errors.Is(err, repository.ErrBlockNotFound) && !errors.Is(err, repository.ErrNoBlocksHeaders) {
				return fmt.Sprintf("HasAllAncestors of an unknown hash: %v, %v", ok, err)
			}
		}
	}
	all := len(r.heights) > 0
	for h := uint32(1); h <= 5; h++ {
		x, err := s.hr.GetBlockHashByHeight(bg, h)
		if len(r.heights[h]) == 0 {
			if !errors.Is(err, repository.ErrBlockNotFound) {
				return fmt.Sprintf("GetBlockHashByHeight of the unknown height %d: %v, %v", h, x, err)
			}
			all = all && h > r.tip()
			continue
		}
		if err != nil || x == nil || !r.at(h, *x) {
			return fmt.Sprintf("GetBlockHashByHeight(%d): %v, %v", h, x, err)
		}
	}
	l, err := s.hr.LatestBlockLocator(bg)
	height := func(x chainhash.Hash) int {
		for h, v := range r.heights {
			for _, w := range v {
				if hashOf(w) == x {
					return int(h)
				}
			}
		}
		return -1
	}
	switch {
	case len(r.heights) == 0:
		if !errors.Is(err, repository.ErrNoBlocksHeaders) {
			return fmt.Sprintf("LatestBlockLocator of an empty store: %v, %v", l, err)
		}
	case all:
		if err != nil {
			return fmt.Sprintf("LatestBlockLocator: %v", err)
		}
		if f := locatorFault(l, r.tip(), height); f != "" {
			return "the locator " + f
		}
	case err == nil:
		for _, x := range l {
			if x == nil || height(*x) < 0 {
				return "the locator names a block that is not stored"
			}
		}
	}
	return ""
}

type batch struct {
	name string
	hs   []*block.Header
}

func batches() []batch {
	a := mainHeaders
	return []batch{
		{"1", a[1:2]}, {"2", a[2:3]}, {"3", a[3:4]}, {"1-2", a[1:3]}, {"2-3", a[2:4]}, {"1-3", a[1:4]}, {"4", a[4:5]},
		{"2'", []*block.Header{b2}}, {"2'-3'", []*block.Header{b2, b3}}, {"none", nil}, {"2,2", []*block.Header{a[2], a[2]}}, {"3,2,1", []*block.Header{a[3], a[2], a[1]}},
	}
}

func args(b []*block.Header) (out []block.Header) {
	for _, h := range b {
		out = append(out, *h)
	}
	return
}

func guard(f func() string) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = fmt.Sprintf("panic: %v", r)
		}
	}()
	return f()
}

var kindName = []string{"inmemory", "postgres", "postgres (results unordered)"}

func headerOps(depth int) func(e *vs.Enum) {
	return func(e *vs.Enum) {
		bs := batches()
		n := 1
		for i := 0; i < depth; i++ {
			n *= len(bs)
		}
		for i := 0; i < n && !e.Stopped(); i++ {
			for kind := range kindName {
				i, kind := i, kind
				seq := func() (out []batch) {
					for k, x := 0, i; k < depth; k++ {
						out = append(out, bs[x%len(bs)])
						x /= len(bs)
					}
					return
				}
				desc := func() string {
					s := kindName[kind] + ":"
					for _, b := range seq() {
						s += " write " + b.name
					}
					return s
				}
				e.Case(desc, func() {
					s := newStore(kind)
					defer func() { s.done() }()
					r := newRef()
					bad := guard(func() string {
						if d := s.diff(r); d != "" {
							return "empty store: " + d
						}
						for _, b := range seq() {
							before := r.copy()
							conflict := r.write(b.hs)
							if err := s.hr.WriteHeaders(bg, args(b.hs)...); err != nil {
								if !conflict {
									return fmt.Sprintf("WriteHeaders: %v", err)
								}
								r = before // refused as a whole
							}
							if s.e != nil && !s.e.idle() {
								return "a transaction stays open"
							}
							if d := s.diff(r); d != "" {
								return "after writing " + b.name + ": " + d
							}
						}
						s.open()
						if d := s.diff(r); d != "" {
							return "after a restart: " + d
						}
						return ""
					})
					if s.unsupported() {
						e.Distinct("unsupported statement")
						return
					}
					e.Distinct(fmt.Sprint(kind, len(r.must), len(r.may), r.tip()))
					if bad != "" {
						e.Fail("C17", bad, "%s: %s", desc(), bad)
					}
				})
			}
		}
	}
}

// every set of stored heights of a chain, written in both orders
func subsets(e *vs.Enum) {
	const n = 4
	for kind := range kindName {
		for set := 0; set < 1<<n; set++ {
			for order := 0; order < 3; order++ {
				kind, set, order := kind, set, order
				desc := func() string {
					return fmt.Sprintf("%s: heights %04b stored in order %d", kindName[kind], set, order)
				}
				e.Case(desc, func() {
					s := newStore(kind)
					defer func() { s.done() }()
					r := newRef()
					var hs []*block.Header
					for h := 1; h <= n; h++ {
						if set&(1<<(h-1)) != 0 {
							hs = append(hs, mainHeaders[h])
						}
					}
					if order == 1 {
						for i, j := 0, len(hs)-1; i < j; i, j = i+1, j-1 {
							hs[i], hs[j] = hs[j], hs[i]
						}
					}
					bad := guard(func() string {
						if order == 2 {
							for _, h := range hs {
								if err := s.hr.WriteHeaders(bg, *h); err != nil {
									return err.Error()
								}
							}
						} else if err := s.hr.WriteHeaders(bg, args(hs)...); err != nil {
							return err.Error()
						}
						r.write(hs)
						return s.diff(r)
					})
					if s.unsupported() {
						e.Distinct("unsupported statement")
						return
					}
					e.Distinct(fmt.Sprint(kind, set))
					if bad != "" {
						e.Fail("C17", bad, "%s: %s", desc(), bad)
					}
				})
			}
		}
	}
}

// locators of chains of every length
func locators(e *vs.Enum) {
	top := 300
	if e.Tier == "thorough" {
		top = 1200
	}
	var prev []byte
	var hs []*block.Header
	at := map[chainhash.Hash]int{}
	for h := 1; h <= 5000; h++ {
		x := lib.Header(uint32(h), prev, 1)
		hash, _ := x.Hash()
		prev = hash.CloneBytes()
		hs = append(hs, x)
		at[hash] = h
	}
	lens := []int{}
	for n := 1; n <= top; n++ {
		lens = append(lens, n)
	}
	lens = append(lens, 1999, 2000, 2001, 4095, 4096, 5000)
	for kind := 0; kind < 2; kind++ {
		for _, n := range lens {
			kind, n := kind, n
			desc := func() string { return fmt.Sprintf("%s: a chain of %d headers", kindName[kind], n) }
			e.Case(desc, func() {
				s := newStore(kind)
				defer func() { s.done() }()
				bad := guard(func() string {
					if err := s.hr.WriteHeaders(bg, args(hs[:n])...); err != nil {
						return err.Error()
					}
					l, err := s.hr.LatestBlockLocator(bg)
					if err != nil {
						return err.Error()
					}
					if f := locatorFault(l, uint32(n), func(x chainhash.Hash) int {
						if h, ok := at[x]; ok && h <= n {
							return h
						}
						return -1
					}); f != "" {
						return "the locator " + f
					}
					if ok, err := s.hr.HasAllAncestors(bg, hashOf(hs[n-1])); err != nil || !ok {
						return fmt.Sprintf("HasAllAncestors of the tip: %v, %v", ok, err)
					}
					return ""
				})
				if s.unsupported() {
					e.Distinct("unsupported statement")
					return
				}
				e.Distinct(fmt.Sprint(kind, n))
				if bad != "" {
					e.Fail("C17", kindName[kind]+" locator", "%s: %s", desc(), bad)
				}
			})
		}
	}
}

// ---- filters

func filterKey(i int) repository.FilterKey {
	h := make([]byte, 32)
	h[0] = byte(i)
	h[31] = byte(i >> 8)
	return repository.FilterKey{BlockHash: h}
}

func keys() []repository.FilterKey {
	a, b, c := filterKey(1), filterKey(2), filterKey(1)
	c.FilterType = 1
	return []repository.FilterKey{a, b, c}
}

var values = [][]byte{{1, 2, 3}, {1, 2, 4}, {0}}

func filterOps(depth int) func(e *vs.Enum) {
	return func(e *vs.Enum) {
		ks := keys()
		ops := len(ks) * len(values)
		n := 1
		for i := 0; i < depth; i++ {
			n *= ops
		}
		for i := 0; i < n && !e.Stopped(); i++ {
			for kind := 0; kind < 2; kind++ {
				i, kind := i, kind
				desc := func() string {
					s := kindName[kind] + ":"
					for k, x := 0, i; k < depth; k++ {
						s += fmt.Sprintf(" put(key%d, value%d)", x%ops/len(values), x%ops%len(values))
						x /= ops
					}
					return s
				}
				e.Case(desc, func() {
					s := newStore(kind)
					defer func() { s.done() }()
					want := map[int][]byte{}
					check := func() string {
						for j, k := range ks {
							got, err := s.fr.GetFilter(bg, k)
							w, ok := want[j]
							switch {
							case !ok && !errors.Is(err, repository.ErrFilterNotFound):
								return fmt.Sprintf("GetFilter of a key that was never stored: %v, %v", got, err)
							case ok && (err != nil || got == nil || !bytes.Equal(got.NBytes, w)):
								return fmt.Sprintf("GetFilter(key%d) does not return what was stored: %v", j, err)
							case ok && (!bytes.Equal(got.Key.BlockHash, k.BlockHash) || got.Key.FilterType != k.FilterType):
								return "GetFilter returns another key"
							}
						}
						return ""
					}
					bad := guard(func() string {
						if d := check(); d != "" {
							return d
						}
						for k, x := 0, i; k < depth; k++ {
							j, v := x%ops/len(values), values[x%ops%len(values)]
							x /= ops
							err := s.fr.PutFilter(bg, &repository.FilterEntry{Key: ks[j], NBytes: append([]byte{}, v...)})
							old, had := want[j]
							switch {
							case err != nil && (!had || bytes.Equal(old, v)):
								return fmt.Sprintf("PutFilter: %v", err)
							case err == nil:
								want[j] = v
							}
							if s.e != nil && !s.e.idle() {
								return "a transaction stays open"
							}
							if d := check(); d != "" {
								return d
							}
						}
						s.open()
						return check()
					})
					if s.unsupported() {
						e.Distinct("unsupported statement")
						return
					}
					e.Distinct(fmt.Sprint(kind, want))
					if bad != "" {
						e.Fail("C18", kindName[kind]+": "+bad, "%s: %s", desc(), bad)
					}
				})
			}
		}
	}
}

// keys: a key depends on nothing but hash and type, and computing it has no
// side effects
func filterKeys(e *vs.Enum) {
	for extra := 0; extra < 4; extra++ {
		for typ := 0; typ < 2; typ++ {
			for i := 0; i < 300; i++ {
				extra, typ, i := extra, typ, i
				desc := func() string {
					return fmt.Sprintf("key of hash %d, type %d, with %d bytes behind it", i, typ, extra)
				}
				e.Case(desc, func() {
					h := filterKey(i).BlockHash
					buf := append(append([]byte{}, h...), 0xa5, 0xa5, 0xa5, 0xa5)[:32+extra]
					k := repository.FilterKey{BlockHash: buf[:32], FilterType: repository.FilterType(typ)}
					one := k.String()
					two := k.String()
					ref := repository.FilterKey{BlockHash: h[:32:32], FilterType: k.FilterType}.String()
					other := repository.FilterKey{BlockHash: filterKey(i + 1).BlockHash, FilterType: k.FilterType}.String()
					otherT := repository.FilterKey{BlockHash: h[:32:32], FilterType: k.FilterType + 1}.String()
					e.Distinct(one)
					full := buf[:cap(buf)]
					for x := 32; x < 36 && x < len(full); x++ {
						if full[x] != 0xa5 {
							e.Fail("C18", "side effect", "%s: computing the key overwrites the byte behind the hash", desc())
						}
					}
					if one != two || one != ref {
						e.Fail("C18", "key", "%s: the key is not a function of hash and type", desc())
					}
					if one == other || one == otherT {
						e.Fail("C18", "key clash", "%s: two different keys share an entry", desc())
					}
				})
			}
		}
	}
}

// contents: what is stored decodes to a filter that matches what it was built
// from
func filterContents(e *vs.Enum) {
	top := 130
	if e.Tier == "thorough" {
		top = 600
	}
	for n := 1; n <= top; n++ {
		for kind := 0; kind < 2; kind++ {
			n, kind := n, kind
			desc := func() string { return fmt.Sprintf("%s: a filter of %d items", kindName[kind], n) }
			e.Case(desc, func() {
				s := newStore(kind)
				defer func() { s.done() }()
				k := filterKey(n)
				var h chainhash.Hash
				copy(h[:], k.BlockHash)
				key := builder.DeriveKey(&h)
				var items [][]byte
				for i := 0; i < n; i++ {
					items = append(items, lib.Script(i))
				}
				f, err := gcs.BuildGCSFilter(builder.DefaultP, builder.DefaultM, key, items)
				if err != nil {
					return
				}
				bad := guard(func() string {
					en, err := repository.NewFilterEntry(k, f)
					if err != nil {
						return err.Error()
					}
					if err := s.fr.PutFilter(bg, en); err != nil {
						return err.Error()
					}
					got, err := s.fr.GetFilter(bg, k)
					if err != nil {
						return err.Error()
					}
					g, err := got.GcsFilter()
					if err != nil {
						return err.Error()
					}
					if g.N() != f.N() {
						return "other number of elements"
					}
					for i, x := range items {
						if ok, err := g.Match(key, x); err != nil || !ok {
							return fmt.Sprintf("item %d does not match any more: %v", i, err)
						}
					}
					return ""
				})
				e.Distinct(fmt.Sprint(kind, n))
				if bad != "" && !s.unsupported() {
					e.Fail("C18", "contents", "%s: %s", desc(), bad)
				}
			})
		}
	}
}

// ---- faults

var injected = []struct {
	err  error
	also bool
}{
	{nil, false},
	{errors.New("connection reset by peer"), false},
	{&pq.Error{Code: "40001", Severity: "ERROR", Message: "could not serialize access"}, false},
	{driver.ErrBadConn, false},
}

// faults: any driver call of an operation fails
func faults() {
	s := newStore(1)
	defer func() { s.done() }()
	r := newRef()
	a := mainHeaders
	if err := s.hr.WriteHeaders(bg, args(a[1:3])...); err != nil {
		if s.unsupported() {
			return
		}
		vs.Fail("C19", "WriteHeaders: %v", err)
	}
	r.write(a[1:3])
	ks := keys()
	if err := s.fr.PutFilter(bg, &repository.FilterEntry{Key: ks[0], NBytes: values[0]}); err != nil {
		if s.unsupported() {
			return
		}
		vs.Fail("C19", "PutFilter: %v", err)
	}
	arm := func() {
		s.e.mu.Lock()
		defer s.e.mu.Unlock()
		s.e.fault = func(n int, kind string) (error, bool) {
			if kind == "rollback" {
				return nil, false
			}
			k := len(injected)
			if kind == "commit" {
				k += 1
			}
			c := vs.Choose(k)
			if c == len(injected) {
				return errors.New("connection lost while committing"), true
			}
			return injected[c].err, injected[c].also
		}
	}
	calm := func() {
		s.e.mu.Lock()
		defer s.e.mu.Unlock()
		s.e.fault = nil
	}
	op := vs.ChooseFree(9)
	arm()
	name := ""
	after := r
	again := func() error { return nil }
	wantF := values[0]
	var err error
	switch op {
	case 0, 1, 2, 3:
		b := [][]*block.Header{a[3:4], a[3:6], a[2:5], {b2, a[3]}}[op]
		name = []string{"WriteHeaders(3)", "WriteHeaders(3,4,5)", "WriteHeaders(2,3,4)", "WriteHeaders(2',3)"}[op]
		after = r.copy()
		after.write(b)
		again = func() error { return s.hr.WriteHeaders(bg, args(b)...) }
		err = again()
	case 4:
		name = "PutFilter of a new key"
		again = func() error { return s.fr.PutFilter(bg, &repository.FilterEntry{Key: ks[1], NBytes: values[1]}) }
		err = again()
	case 5:
		name = "PutFilter of the stored value"
		again = func() error { return s.fr.PutFilter(bg, &repository.FilterEntry{Key: ks[0], NBytes: values[0]}) }
		err = again()
	case 6:
		name = "PutFilter of another value"
		err = s.fr.PutFilter(bg, &repository.FilterEntry{Key: ks[0], NBytes: values[1]})
		if err == nil {
			wantF = values[1]
		}
	case 7:
		name = "header queries"
		if t, e := s.hr.ChainTip(bg); e == nil && t.Height != 2 || errors.Is(e, repository.ErrNoBlocksHeaders) {
			vs.Fail("C19", "ChainTip during failures: %v, %v", t, e)
		}
		if h, e := s.hr.GetBlockHeader(bg, hashOf(a[1])); e == nil && hashOf(h) != hashOf(a[1]) || errors.Is(e, repository.ErrBlockNotFound) {
			vs.Fail("C19", "GetBlockHeader of a stored header during failures: %v", e)
		}
		if h, e := s.hr.GetBlockHashByHeight(bg, 2); e == nil && *h != hashOf(a[2]) || errors.Is(e, repository.ErrBlockNotFound) || errors.Is(e, repository.ErrNoBlocksHeaders) {
			vs.Fail("C19", "GetBlockHashByHeight of a stored header during failures: %v", e)
		}
		if ok, e := s.hr.HasAllAncestors(bg, hashOf(a[2])); e == nil && !ok || errors.Is(e, repository.ErrBlockNotFound) || errors.Is(e, repository.ErrNoBlocksHeaders) {
			vs.Fail("C19", "HasAllAncestors of a complete chain during failures: %v, %v", ok, e)
		}
		if l, e := s.hr.LatestBlockLocator(bg); e == nil && (len(l) == 0 || *l[0] != hashOf(a[2])) || errors.Is(e, repository.ErrNoBlocksHeaders) {
			vs.Fail("C19", "LatestBlockLocator during failures: %v, %v", l, e)
		}
	case 8:
		name = "GetFilter"
		if f, e := s.fr.GetFilter(bg, ks[0]); e == nil && !bytes.Equal(f.NBytes, values[0]) || errors.Is(e, repository.ErrFilterNotFound) {
			vs.Fail("C19", "GetFilter of a stored filter during failures: %v", e)
		}
	}
	calm()
	if s.unsupported() {
		return
	}
	if !s.e.idle() {
		vs.Fail("C19", "%s returned (%v) and leaves a transaction open", name, err)
	}
	filter := func() string {
		f, e := s.fr.GetFilter(bg, ks[0])
		if e != nil || !bytes.Equal(f.NBytes, wantF) && (op != 6 || err == nil || !bytes.Equal(f.NBytes, values[1])) {
			return fmt.Sprintf("the stored filter is lost: %v", e)
		}
		g, e := s.fr.GetFilter(bg, ks[1])
		switch {
		case op == 4 && err == nil && e != nil:
			return fmt.Sprintf("an acknowledged filter is lost: %v", e)
		case e == nil && (op != 4 || !bytes.Equal(g.NBytes, values[1])):
			return "a filter nobody stored"
		case e != nil && !errors.Is(e, repository.ErrFilterNotFound):
			return e.Error()
		}
		return ""
	}
	d1, d2 := s.diff(after), s.diff(r)
	if d1 != "" && (err == nil || d2 != "") {
		vs.Fail("C19", "%s returned %v; then: %s", name, err, d1)
	}
	if d := filter(); d != "" {
		vs.Fail("C19", "%s returned %v; then: %s", name, err, d)
	}
	if e := again(); e != nil && op != 3 {
		vs.Fail("C19", "%s cannot be repeated after it failed with %v: %v", name, err, e)
	}
	if op != 3 {
		err = nil
		if d := s.diff(after); d != "" {
			vs.Fail("C19", "%s repeated: %s", name, d)
		}
		if d := filter(); d != "" {
			vs.Fail("C19", "%s repeated: %s", name, d)
		}
	}
	vs.Observe("%d %v", op, err == nil)
}

// ---- concurrency

func concurrent(kinds []int) func() {
	return func() {
		kind := kinds[vs.ChooseFree(len(kinds))]
		s := newStore(kind)
		defer func() { s.done() }()
		a := mainHeaders
		shape := vs.ChooseFree(3)
		var wg sync.WaitGroup
		fail := func(f string, x ...interface{}) { vs.Fail("C19", "%s: %s", kindName[kind], fmt.Sprintf(f, x...)) }
		if err := s.hr.WriteHeaders(bg, *a[1]); err != nil {
			if s.unsupported() {
				return
			}
			fail("WriteHeaders: %v", err)
		}
		first := [][]*block.Header{a[2:4], a[2:5], a[2:3]}[shape]
		second := [][]*block.Header{a[2:5], a[3:5], a[2:3]}[shape]
		ks := keys()
		writer := func(hs []*block.Header, v []byte) {
			defer wg.Done()
			if err := s.hr.WriteHeaders(bg, args(hs)...); err != nil {
				fail("WriteHeaders: %v", err)
			}
			for _, h := range hs {
				if _, err := s.hr.GetBlockHeader(bg, hashOf(h)); err != nil {
					fail("a header whose write was acknowledged cannot be read: %v", err)
				}
			}
			if err := s.fr.PutFilter(bg, &repository.FilterEntry{Key: ks[0], NBytes: values[0]}); err != nil {
				fail("PutFilter: %v", err)
			}
			if err := s.fr.PutFilter(bg, &repository.FilterEntry{Key: ks[1], NBytes: v}); err != nil && bytes.Equal(v, values[1]) && shape == 2 {
				fail("PutFilter: %v", err)
			}
			f, err := s.fr.GetFilter(bg, ks[0])
			if err != nil || !bytes.Equal(f.NBytes, values[0]) {
				fail("a filter whose write was acknowledged cannot be read: %v", err)
			}
		}
		wg.Add(3)
		go writer(first, values[1])
		other := values[2]
		if shape == 2 {
			other = values[1]
		}
		go writer(second, other)
		go func() {
			defer wg.Done()
			last := uint32(1)
			for i := 0; i < 2; i++ {
				t, err := s.hr.ChainTip(bg)
				if err != nil {
					fail("ChainTip: %v", err)
				}
				if t.Height < last {
					fail("the tip went down from %d to %d", last, t.Height)
				}
				last = t.Height
				if ok, err := s.hr.HasAllAncestors(bg, hashOf(t)); err != nil || !ok && shape != 1 {
					fail("the tip at height %d misses ancestors: %v", t.Height, err)
				}
				if l, err := s.hr.LatestBlockLocator(bg); shape != 1 && (err != nil || len(l) == 0) {
					fail("LatestBlockLocator: %v, %v", l, err)
				}
			}
		}()
		wg.Wait()
		if s.unsupported() {
			return
		}
		if s.e != nil && !s.e.idle() {
			fail("a transaction stays open")
		}
		r := newRef()
		r.write(a[1:2])
		r.write(first)
		r.write(second)
		if d := s.diff(r); d != "" {
			fail("%s", d)
		}
		f, err := s.fr.GetFilter(bg, ks[1])
		if err != nil || !bytes.Equal(f.NBytes, values[1]) && !bytes.Equal(f.NBytes, other) {
			fail("filter after concurrent writes: %v", err)
		}
		vs.Observe("%d %d %x", kind, shape, f.NBytes)
	}
}

func list(p ...string) []string { return p }

func main() {
	lib.Quiet()
	vs.Main(append([]*vs.Scenario{
		{Name: "subsets", Props: list("C17"), Enum: subsets, Desc: "every subset of the heights 1-4 stored in three orders, 3 stores: all queries"},
		{Name: "locators", Props: list("C17"), Enum: locators, Desc: "chains of every length up to 300 (1200) and some up to 5000: the block locator"},
		{Name: "header-ops-3", Props: list("C17"), Enum: headerOps(3), Weight: 2, Desc: "all sequences of three of 12 header batches (in order, overlapping, repeated, descending, forks, gaps, empty), 3 stores, all queries after each and after a restart"},
		{Name: "header-ops-4", Props: list("C17"), Enum: headerOps(4), Thorough: true, Weight: 3, Desc: "all sequences of four"},
		{Name: "filter-ops-3", Props: list("C18"), Enum: filterOps(3), Desc: "all sequences of three of 9 puts (3 keys x 3 values), 2 stores, all queries after each and after a restart"},
		{Name: "filter-ops-4", Props: list("C18"), Enum: filterOps(4), Thorough: true, Weight: 3, Desc: "all sequences of four"},
		{Name: "filter-keys", Props: list("C18"), Enum: filterKeys, Desc: "keys of 300 hashes x 2 types x 4 buffer shapes"},
		{Name: "filter-contents", Props: list("C18"), Enum: filterContents, Desc: "filters of 1-130 (600) items stored, read and matched, 2 stores"},
		{Name: "faults", Props: list("C19"), Run: faults, Weight: 2, Desc: "9 operations x every driver call failing in 3-4 ways (1, 2, 3 failures): all or nothing, no wrong answer, repeatable"},
		{Name: "concurrent-pg", Props: list("C19"), Run: concurrent([]int{1, 2}), Weight: 2, Desc: "two writers of overlapping batches and filters and a reader over the transactional engine; schedules"},
		{Name: "concurrent-mem", Props: list("C19", "C27"), Race: true, Run: concurrent([]int{0}), Desc: "the same over the in-memory store; schedules"},
	}, scale()...))
}
