// Package lib holds the reference chain, repositories and other environment
// of the harnesses.
package lib

import (
	"context"
	"fmt"
	"io"
	"sync"

	"github.com/btcsuite/btcd/blockchain"
	"github.com/btcsuite/btcd/btcutil/gcs"
	"github.com/btcsuite/btcd/btcutil/gcs/builder"
	"github.com/btcsuite/btcd/chaincfg/chainhash"
	"github.com/google/uuid"
	"github.com/sirupsen/logrus"
	"github.com/vulpemventures/go-elements/block"
	"github.com/vulpemventures/go-elements/transaction"
	"github.com/vulpemventures/neutrino-elements/pkg/repository"

	"verif/vs"
)

// Quiet silences logging and makes identifiers deterministic.
func Quiet() {
	logrus.SetOutput(io.Discard)
	logrus.SetLevel(logrus.PanicLevel)
	logrus.StandardLogger().ExitFunc = func(c int) { panic(fmt.Sprintf("process exit %d", c)) }
	uuid.SetRand(vs.RandReader{})
}

// Header makes a block header.
func Header(height uint32, prev []byte, salt byte) *block.Header {
	if prev == nil {
		prev = make([]byte, 32)
	}
	root := make([]byte, 32)
	root[0], root[1] = salt, byte(height)
	return &block.Header{Version: 0x20000000, PrevBlockHash: prev, MerkleRoot: root, Timestamp: 1600000000 + height, Height: height,
		ExtData: &block.ExtData{Proof: &block.Proof{Challenge: []byte{0x51}, Solution: []byte{0x51}}}}
}

// Script is a distinguishable output script.
func Script(i int) []byte {
	s := make([]byte, 22)
	s[0], s[1] = 0, 20
	s[2], s[3] = byte(i), byte(i>>8)
	return s
}

// Tx makes a transaction paying to the scripts; n makes it unique.
func Tx(n int, scripts ...[]byte) *transaction.Transaction {
	t := transaction.NewTx(2)
	t.Locktime = uint32(n)
	h := make([]byte, 32)
	h[0], h[1], h[2] = 0xfe, byte(n), byte(n>>8)
	t.AddInput(transaction.NewTxInput(h, 0))
	for _, s := range scripts {
		asset := append([]byte{1}, make([]byte, 32)...)
		value := append([]byte{1}, make([]byte, 8)...)
		value[8] = 1
		t.AddOutput(transaction.NewTxOutput(asset, value, s))
	}
	return t
}

// WithWitness is t with a witness, which is not part of its identity.
func WithWitness(t *transaction.Transaction, n byte) *transaction.Transaction {
	c := *t
	c.Flag = 1
	c.Inputs = nil
	for _, in := range t.Inputs {
		i := *in
		i.Witness = [][]byte{{n, 1, 2}, {n}}
		c.Inputs = append(c.Inputs, &i)
	}
	return &c
}

// Spend makes a transaction spending output ix of prev.
func Spend(n int, prev *transaction.Transaction, ix uint32, scripts ...[]byte) *transaction.Transaction {
	t := Tx(n, scripts...)
	h := prev.TxHash()
	t.Inputs = []*transaction.TxInput{transaction.NewTxInput(h[:], ix)}
	return t
}

// Chain is a reference chain: Blocks[i] has height i.
type Chain struct {
	Blocks  []*block.Block
	Hashes  []chainhash.Hash
	Filters [][]byte
	heights map[chainhash.Hash]int
}

// NewChain makes a chain of n blocks above genesis with the given
// transactions; extra scripts per height enter the filter as spent outputs.
func NewChain(n int, txs map[int][]*transaction.Transaction, spent map[int][][]byte, salt byte) *Chain {
	c := &Chain{heights: map[chainhash.Hash]int{}}
	var prev []byte
	for h := 0; h <= n; h++ {
		b := &block.Block{Header: Header(uint32(h), prev, salt), TransactionsData: &block.Transactions{Transactions: txs[h]}}
		hash, err := b.Header.Hash()
		if err != nil {
			panic(err)
		}
		prev = hash.CloneBytes()
		c.Blocks = append(c.Blocks, b)
		c.Hashes = append(c.Hashes, hash)
		c.heights[hash] = h
		var items [][]byte
		seen := map[string]bool{}
		add := func(s []byte) {
			if !seen[string(s)] {
				seen[string(s)] = true
				items = append(items, s)
			}
		}
		add([]byte(fmt.Sprintf("coinbase-%d-%d", h, salt)))
		for _, t := range txs[h] {
			for _, o := range t.Outputs {
				add(o.Script)
			}
		}
		for _, s := range spent[h] {
			add(s)
		}
		f, err := gcs.BuildGCSFilter(builder.DefaultP, builder.DefaultM, builder.DeriveKey(&hash), items)
		if err != nil {
			panic(err)
		}
		nb, err := f.NBytes()
		if err != nil {
			panic(err)
		}
		c.Filters = append(c.Filters, nb)
	}
	return c
}

// HeightOf finds a block by hash (-1: unknown).
func (c *Chain) HeightOf(h chainhash.Hash) int {
	if i, ok := c.heights[h]; ok {
		return i
	}
	return -1
}

// FilterKey is the key of the filter of the block at height h.
func (c *Chain) FilterKey(h int) repository.FilterKey {
	return repository.FilterKey{BlockHash: c.Hashes[h].CloneBytes(), FilterType: repository.RegularFilter}
}

// HeaderRepo is the reference header repository.
type HeaderRepo struct {
	mu       sync.Mutex
	byHeight map[uint32]*block.Header
	hashes   map[uint32]chainhash.Hash
	tip      int
	Writes   []block.Header
	// OnWrite is called, without the lock, before headers are stored
	OnWrite func(headers []block.Header) error
	// OnCall may make a call fail
	OnCall func(op string, height int) error
	// SpinTip makes polling ChainTip fair
	SpinTip int
}

// NewHeaderRepo makes a repository holding the first n+1 headers of c (none
// for n < 0).
func NewHeaderRepo(c *Chain, n int) *HeaderRepo {
	r := &HeaderRepo{byHeight: map[uint32]*block.Header{}, hashes: map[uint32]chainhash.Hash{}, tip: -1}
	for i := 0; i <= n; i++ {
		r.put(*c.Blocks[i].Header)
	}
	return r
}

func (r *HeaderRepo) put(h block.Header) {
	hash, err := h.Hash()
	if err != nil {
		panic(err)
	}
	if _, ok := r.byHeight[h.Height]; ok {
		return
	}
	r.byHeight[h.Height] = &h
	r.hashes[h.Height] = hash
	if int(h.Height) > r.tip {
		r.tip = int(h.Height)
	}
}

// Put stores a header directly.
func (r *HeaderRepo) Put(h block.Header) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.put(h)
}

// Tip is the height of the tip (-1: empty).
func (r *HeaderRepo) Tip() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.tip
}

// Heights lists what is stored, in no particular order, by height.
func (r *HeaderRepo) Has(h uint32) (chainhash.Hash, bool) {
	r.mu.Lock()
	defer r.mu.Unlock()
	x, ok := r.hashes[h]
	return x, ok
}

// Written lists the headers written through WriteHeaders, in order.
func (r *HeaderRepo) Written() []block.Header {
	r.mu.Lock()
	defer r.mu.Unlock()
	return append([]block.Header{}, r.Writes...)
}

func (r *HeaderRepo) fault(op string, h int) error {
	if r.OnCall != nil {
		return r.OnCall(op, h)
	}
	return nil
}

func (r *HeaderRepo) ChainTip(context.Context) (*block.Header, error) {
	if r.SpinTip > 0 {
		vs.Spin(r.SpinTip)
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	if err := r.fault("ChainTip", 0); err != nil {
		return nil, err
	}
	if r.tip < 0 {
		return nil, repository.ErrNoBlocksHeaders
	}
	h := *r.byHeight[uint32(r.tip)]
	return &h, nil
}

func (r *HeaderRepo) GetBlockHeader(_ context.Context, hash chainhash.Hash) (*block.Header, error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if err := r.fault("GetBlockHeader", 0); err != nil {
		return nil, err
	}
	for i := r.tip; i >= 0; i-- {
		if x, ok := r.hashes[uint32(i)]; ok && x == hash {
			h := *r.byHeight[uint32(i)]
			return &h, nil
		}
	}
	return nil, repository.ErrBlockNotFound
}

func (r *HeaderRepo) GetBlockHashByHeight(_ context.Context, height uint32) (*chainhash.Hash, error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if err := r.fault("GetBlockHashByHeight", int(height)); err != nil {
		return nil, err
	}
	x, ok := r.hashes[height]
	if !ok {
		return nil, repository.ErrBlockNotFound
	}
	return &x, nil
}

func (r *HeaderRepo) WriteHeaders(_ context.Context, hs ...block.Header) error {
	if r.OnWrite != nil {
		if err := r.OnWrite(hs); err != nil {
			return err
		}
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	if err := r.fault("WriteHeaders", 0); err != nil {
		return err
	}
	for _, h := range hs {
		r.Writes = append(r.Writes, h)
		r.put(h)
	}
	return nil
}

func (r *HeaderRepo) LatestBlockLocator(context.Context) (blockchain.BlockLocator, error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if err := r.fault("LatestBlockLocator", 0); err != nil {
		return nil, err
	}
	if r.tip < 0 {
		return nil, repository.ErrNoBlocksHeaders
	}
	var out blockchain.BlockLocator
	for i, step := r.tip, 1; i >= 0; i -= step {
		if x, ok := r.hashes[uint32(i)]; ok {
			y := x
			out = append(out, &y)
		}
		if len(out) >= 40 { // a long chain
			step *= 2
		}
	}
	return out, nil
}

func (r *HeaderRepo) HasAllAncestors(_ context.Context, hash chainhash.Hash) (bool, error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if err := r.fault("HasAllAncestors", 0); err != nil {
		return false, err
	}
	if r.tip < 0 {
		return false, repository.ErrNoBlocksHeaders
	}
	for i := r.tip; i >= 0; i-- {
		if x, ok := r.hashes[uint32(i)]; ok && x == hash {
			for k := i; k >= 1; k-- {
				if _, ok := r.hashes[uint32(k)]; !ok {
					return false, nil
				}
			}
			return true, nil
		}
	}
	return false, repository.ErrBlockNotFound
}

// FilterRepo is the reference filter repository.
type FilterRepo struct {
	mu     sync.Mutex
	m      map[string][]byte
	Puts   []repository.FilterEntry
	OnCall func(op string, key repository.FilterKey) error
}

// NewFilterRepo makes a repository with the filters of blocks 0..n.
func NewFilterRepo(c *Chain, n int) *FilterRepo {
	r := &FilterRepo{m: map[string][]byte{}}
	for i := 0; i <= n; i++ {
		r.Put(c.FilterKey(i), c.Filters[i])
	}
	return r
}

func fkey(k repository.FilterKey) string { return fmt.Sprintf("%x/%d", k.BlockHash, k.FilterType) }

// Put stores a filter directly.
func (r *FilterRepo) Put(k repository.FilterKey, b []byte) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.m[fkey(k)] = b
}

// Get reads a filter directly.
func (r *FilterRepo) Get(k repository.FilterKey) []byte {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.m[fkey(k)]
}

// Count is the number of filters stored.
func (r *FilterRepo) Count() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.m)
}

func (r *FilterRepo) PutFilter(_ context.Context, e *repository.FilterEntry) error {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.OnCall != nil {
		if err := r.OnCall("PutFilter", e.Key); err != nil {
			return err
		}
	}
	r.m[fkey(e.Key)] = e.NBytes
	r.Puts = append(r.Puts, *e)
	return nil
}

func (r *FilterRepo) GetFilter(_ context.Context, k repository.FilterKey) (*repository.FilterEntry, error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.OnCall != nil {
		if err := r.OnCall("GetFilter", k); err != nil {
			return nil, err
		}
	}
	b, ok := r.m[fkey(k)]
	if !ok {
		return nil, repository.ErrFilterNotFound
	}
	return &repository.FilterEntry{Key: k, NBytes: b}, nil
}

// BlockSource is the reference block source.
type BlockSource struct {
	mu       sync.Mutex
	c        *Chain
	OnCall   func(height int) error
	NotFound error
}

func NewBlockSource(c *Chain) *BlockSource { return &BlockSource{c: c} }

func (s *BlockSource) GetBlock(h *chainhash.Hash) (*block.Block, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	i := s.c.HeightOf(*h)
	if s.OnCall != nil {
		if err := s.OnCall(i); err != nil {
			return nil, err
		}
	}
	if i < 0 {
		return nil, s.NotFound
	}
	return s.c.Blocks[i], nil
}

// Drop removes a filter.
func (r *FilterRepo) Drop(k repository.FilterKey) {
	r.mu.Lock()
	defer r.mu.Unlock()
	delete(r.m, fkey(k))
}
