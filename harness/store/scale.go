package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"errors"
	"fmt"

	"github.com/btcsuite/btcd/chaincfg/chainhash"
	"github.com/vulpemventures/go-elements/block"
	"github.com/vulpemventures/neutrino-elements/pkg/repository"
	"github.com/vulpemventures/neutrino-elements/vsharness/lib"

	"verif/vs"
)

var longHeaders []*block.Header

func long(n int) []*block.Header {
	for len(longHeaders) < n {
		var prev []byte
		if k := len(longHeaders); k > 0 {
			h := hashOf(longHeaders[k-1])
			prev = h.CloneBytes()
		}
		longHeaders = append(longHeaders, lib.Header(uint32(len(longHeaders)+1), prev, 3))
	}
	return longHeaders[:n]
}

// longChains: chains of thousands of headers written in batches, complete or
// with one header missing.
func longChains(e *vs.Enum) {
	for kind := 0; kind < 2; kind++ {
		for _, n := range []int{1001, 2001, 3100} {
			for _, size := range []int{2000, 700} {
				for _, miss := range []int{0, 1, 2, n / 2, n - 1001, n - 1000, n - 999, n - 2, n - 1} {
					kind, n, size, miss := kind, n, size, miss
					if miss < 0 || e.Stopped() {
						continue
					}
					desc := func() string {
						return fmt.Sprintf("%s: %d headers in batches of %d, without the one of height %d", kindName[kind], n, size, miss)
					}
					e.Case(desc, func() {
						s := newStore(kind)
						defer func() { s.done() }()
						hs := long(n)
						bad := guard(func() string {
							for i := 0; i < n; i += size {
								var b []block.Header
								for k := i; k < n && k < i+size; k++ {
									if k+1 != miss {
										b = append(b, *hs[k])
									}
								}
								if err := s.hr.WriteHeaders(bg, b...); err != nil {
									return err.Error()
								}
							}
							s.open()
							if t, err := s.hr.ChainTip(bg); err != nil || int(t.Height) != n {
								return fmt.Sprintf("ChainTip: %v, %v", t, err)
							}
							for k, h := range hs {
								if k%7 != 0 && k > 3 && k < n-3 && (k+1-miss > 2 || miss-k-1 > 2) {
									continue
								}
								got, err := s.hr.GetBlockHeader(bg, hashOf(h))
								x, err2 := s.hr.GetBlockHashByHeight(bg, h.Height)
								if k+1 == miss {
									if !errors.Is(err, repository.ErrBlockNotFound) || !errors.Is(err2, repository.ErrBlockNotFound) {
										return fmt.Sprintf("the missing header %d is found: %v, %v", miss, err, err2)
									}
									continue
								}
								if err != nil || !bytes.Equal(bytesOf(got), bytesOf(h)) {
									return fmt.Sprintf("GetBlockHeader of height %d: %v", k+1, err)
								}
								if err2 != nil || *x != hashOf(h) {
									return fmt.Sprintf("GetBlockHashByHeight(%d): %v", k+1, err2)
								}
							}
							for _, h := range []int{n, n - 1, n/2 + 1, miss + 1, miss - 1, 1} {
								if h < 1 || h > n || h == miss {
									continue
								}
								want := miss == 0 || h < miss
								if ok, err := s.hr.HasAllAncestors(bg, hashOf(hs[h-1])); err != nil || ok != want {
									return fmt.Sprintf("HasAllAncestors of height %d: %v, %v", h, ok, err)
								}
							}
							return ""
						})
						if s.unsupported() {
							e.Distinct("unsupported statement")
							return
						}
						e.Distinct(fmt.Sprint(kind, n, miss))
						if bad != "" {
							e.Fail("C17", kindName[kind]+" long", "%s: %s", desc(), bad)
						}
					})
				}
			}
		}
	}
}

// manyFilters: thousands of filters of two types, and large ones.
func manyFilters(e *vs.Enum) {
	for kind := 0; kind < 2; kind++ {
		for _, n := range []int{100, 1100, 5000} {
			for _, size := range []int{5, 300, 5 << 20} {
				kind, n, size := kind, n, size
				if size > 1<<20 {
					n = n / 1000
				}
				desc := func() string { return fmt.Sprintf("%s: %d filters of %d bytes", kindName[kind], n, size) }
				e.Case(desc, func() {
					s := newStore(kind)
					defer func() { s.done() }()
					key := func(i int) repository.FilterKey {
						var b [4]byte
						binary.LittleEndian.PutUint32(b[:], uint32(i/2))
						h := sha256.Sum256(b[:])
						return repository.FilterKey{BlockHash: h[:], FilterType: repository.FilterType(i % 2)}
					}
					val := func(i int) []byte {
						v := make([]byte, size)
						for k := range v {
							v[k] = byte(k * (i + 3))
						}
						binary.LittleEndian.PutUint32(v, uint32(i))
						return v
					}
					bad := guard(func() string {
						for i := 0; i < n; i++ {
							if err := s.fr.PutFilter(bg, &repository.FilterEntry{Key: key(i), NBytes: val(i)}); err != nil {
								return fmt.Sprintf("PutFilter %d: %v", i, err)
							}
						}
						s.open()
						for i := 0; i < n; i++ {
							f, err := s.fr.GetFilter(bg, key(i))
							if err != nil || !bytes.Equal(f.NBytes, val(i)) {
								return fmt.Sprintf("GetFilter %d: %v", i, err)
							}
						}
						if _, err := s.fr.GetFilter(bg, key(n+2)); !errors.Is(err, repository.ErrFilterNotFound) {
							return fmt.Sprintf("GetFilter of a key never stored: %v", err)
						}
						return ""
					})
					if s.unsupported() {
						e.Distinct("unsupported statement")
						return
					}
					e.Distinct(fmt.Sprint(kind, n, size))
					if bad != "" {
						e.Fail("C18", kindName[kind]+" many", "%s: %s", desc(), bad)
					}
				})
			}
		}
	}
}

// distinctKeys: no two of many hashes, among them all that differ from another
// in one byte, share a key.
func distinctKeys(e *vs.Enum) {
	for typ := 0; typ < 2; typ++ {
		typ := typ
		e.Case(func() string { return fmt.Sprint("keys of type ", typ) }, func() {
			seen := map[string][32]byte{}
			add := func(h [32]byte) bool {
				k := repository.FilterKey{BlockHash: append([]byte{}, h[:]...), FilterType: repository.FilterType(typ)}.String()
				if o, ok := seen[k]; ok && o != h {
					e.Fail("C18", "key clash", "the hashes %x and %x have the same filter key", o, h)
					return false
				}
				seen[k] = h
				return true
			}
			for _, base := range []string{"", "a", "b"} {
				var h [32]byte
				if base != "" {
					h = sha256.Sum256([]byte(base))
				}
				for p := range h {
					x := h
					for v := 0; v < 256; v++ {
						x[p] = byte(v)
						if !add(x) {
							return
						}
					}
				}
			}
			for i := 0; i < 300000; i++ {
				var b [4]byte
				binary.LittleEndian.PutUint32(b[:], uint32(i))
				if !add(sha256.Sum256(b[:])) {
					return
				}
			}
			e.Distinct(fmt.Sprint(typ, len(seen)))
		})
	}
}

// faultsBig: a batch as large as the protocol allows, and a driver call of it
// fails or takes effect without saying so.
func faultsBig() {
	const n = 2000
	hs := long(n + 100)
	run := func(f func(i int, kind string) (error, bool)) (*store, error, bool) {
		s := newStore(1)
		if err := s.hr.WriteHeaders(bg, args(hs[:100])...); err != nil {
			s.done()
			return nil, nil, false
		}
		s.e.mu.Lock()
		s.e.fault = f
		s.e.mu.Unlock()
		err := s.hr.WriteHeaders(bg, args(hs[100:])...)
		s.e.mu.Lock()
		s.e.fault = nil
		s.e.mu.Unlock()
		return s, err, !s.unsupported()
	}
	calls := 0
	s, err, ok := run(func(int, string) (error, bool) { calls++; return nil, false })
	if !ok {
		return
	}
	s.done()
	if err != nil {
		vs.Fail("C19", "WriteHeaders of %d headers: %v", n, err)
	}
	const points = 30
	at := vs.ChooseFree(points)
	switch {
	case at < 10: // the first calls
	case at < 20: // the last ones
		at = calls - (at - 9)
	default: // in between
		at = calls * (at - 19) / 11
	}
	if at < 0 || at >= calls {
		return
	}
	how := vs.ChooseFree(3)
	i, which := 0, ""
	s, err, ok = run(func(_ int, kind string) (error, bool) {
		i++
		if i-1 == at && kind != "rollback" {
			which = kind
			return injected[1+how%2].err, how == 2 && kind == "commit"
		}
		return nil, false
	})
	if !ok {
		return
	}
	defer s.done()
	if !s.e.idle() {
		vs.Fail("C19", "WriteHeaders of %d headers, call %d of %d (%s) fails: a transaction stays open", n, at, calls, which)
	}
	s.open()
	there, not := 0, 0
	for k := 100; k < len(hs); k++ {
		_, e := s.hr.GetBlockHeader(bg, hashOf(hs[k]))
		switch {
		case e == nil:
			there++
		case errors.Is(e, repository.ErrBlockNotFound):
			not++
		default:
			vs.Fail("C19", "GetBlockHeader: %v", e)
		}
	}
	if there != 0 && not != 0 || err == nil && not != 0 {
		vs.Fail("C19", "WriteHeaders of %d headers, call %d of %d (%s) fails: it returns %v and %d of the headers are stored", n, at, calls, which, err, there)
	}
	t, e := s.hr.ChainTip(bg)
	if want := map[bool]uint32{true: n + 100, false: 100}[there > 0]; e != nil || t.Height != want {
		vs.Fail("C19", "ChainTip: %v, %v instead of %d", t, e, want)
	}
	if e := s.hr.WriteHeaders(bg, args(hs[100:])...); e != nil {
		vs.Fail("C19", "WriteHeaders cannot be repeated: %v", e)
	}
	if t, e := s.hr.ChainTip(bg); e != nil || t.Height != n+100 {
		vs.Fail("C19", "ChainTip after the repetition: %v, %v", t, e)
	}
	vs.Observe("%s %v %d", which, err == nil, there)
}

func scale() []*vs.Scenario {
	return []*vs.Scenario{
		{Name: "long-chains", Props: list("C17"), Enum: longChains, Desc: "chains of up to 3100 headers in large batches, complete or with one of nine headers missing, 2 stores: queries after a restart"},
		{Name: "many-filters", Props: list("C18"), Enum: manyFilters, Desc: "up to 5000 filters of two types, filters of 5 MB, 2 stores"},
		{Name: "distinct-keys", Props: list("C18"), Enum: distinctKeys, Desc: "keys of 300000 hashes and of all hashes that differ in one byte from one of three"},
		{Name: "faults-big", Props: list("C19"), Run: faultsBig, MaxCost: -1, MaxSteps: 4000000, Desc: "a batch of 2000 headers x 30 driver calls failing in three ways: all or nothing, repeatable"},
	}
}

var _ chainhash.Hash
