// Package chainenv builds a complete cluster in one process - a root chain and
// every shard's chain, wired together the way master and slaves wire them - so
// that properties can be stated over histories of real blocks.
package chainenv

import (
	"crypto/ecdsa"
	"errors"
	"fmt"
	"math/big"
	"sort"
	"time"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/config"
	qcom "github.com/QuarkChain/goquarkchain/common"
	"github.com/QuarkChain/goquarkchain/consensus"
	"github.com/QuarkChain/goquarkchain/core"
	"github.com/QuarkChain/goquarkchain/core/state"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/core/vm"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/ethdb"
	"github.com/ethereum/go-ethereum/params"
)

// QKC is the id of the default token.
var QKC = qcom.TokenIDEncode("QKC")

// NetworkID is the network of every environment.
const NetworkID = 3

// Keys are fixed; sender i of an environment is Keys[i].
var Keys []*ecdsa.PrivateKey

// Addrs are the addresses of Keys.
var Addrs []common.Address

func init() {
	for i := 0; i < 12; i++ {
		k, err := crypto.ToECDSA(crypto.Keccak256([]byte(fmt.Sprintf("verif key %d", i))))
		if err != nil {
			panic(err)
		}
		Keys = append(Keys, k)
		Addrs = append(Addrs, crypto.PubkeyToAddress(k.PublicKey))
	}
}

// Opt describes a cluster.
type Opt struct {
	ChainSize, ShardSize uint32
	// Alloc gives genesis balances (token name -> amount), the same in every shard.
	Alloc map[common.Address]map[string]*big.Int
	// Code/Storage of genesis accounts, the same in every shard.
	Code    map[common.Address][]byte
	Storage map[common.Address]map[common.Hash]common.Hash
	// Mutate adjusts the configuration before anything is built.
	Mutate func(*config.ClusterConfig)
	// Engine makes the consensus engine of one chain (id 0 is the root chain).
	Engine func(id uint32, cfg *config.ClusterConfig) consensus.Engine
	// DB makes the database of one chain.
	DB func(id uint32) ethdb.Database
	// Cache overrides the trie cache configuration.
	Cache *core.CacheConfig
	// Only builds just these shards' chains (all if nil).
	Only []uint32
}

// Env is one node (cluster).
type Env struct {
	Opt    Opt
	Cfg    *config.ClusterConfig
	Root   *core.RootBlockChain
	Shard  map[uint32]*core.MinorBlockChain
	DBs    map[uint32]ethdb.Database
	IDs    []uint32
	Gen    map[uint32]*types.MinorBlock
	Events []string
	// Late are the shards whose genesis root block has not come yet.
	Late []uint32
	mk   func(uint32) ethdb.Database
}

// MakeConfig builds the cluster configuration for opt.
func MakeConfig(opt Opt) *config.ClusterConfig {
	c := config.NewClusterConfig()
	q := c.Quarkchain
	q.NetworkID = NetworkID
	q.Update(opt.ChainSize, opt.ShardSize, 10, 1)
	q.Root.DifficultyAdjustmentCutoffTime = 40
	q.Root.DifficultyAdjustmentFactor = 1024
	q.SkipMinorDifficultyCheck = true
	q.SkipRootCoinbaseCheck = false
	q.SkipRootDifficultyCheck = true
	c.EnableTransactionHistory = true
	q.MinMiningGasPrice = new(big.Int)
	q.MinTXPoolGasPrice = new(big.Int)
	q.EnableEvmTimeStamp = 1
	for _, id := range q.GetGenesisShardIds() {
		sc := q.GetShardConfigByFullShardID(id)
		for a, bals := range opt.Alloc {
			cp := map[string]*big.Int{}
			for k, v := range bals {
				cp[k] = new(big.Int).Set(v)
			}
			addr := account.NewAddress(a, 0)
			sc.Genesis.Alloc[addr.AddressInShard(id)] = config.Allocation{Balances: cp, Code: opt.Code[a], Storage: opt.Storage[a]}
		}
		sc.PoswConfig.WindowSize = 3
		cb := account.NewAddress(common.Address{}, 0)
		sc.CoinbaseAddress = cb.AddressInShard(id)
	}
	if opt.Mutate != nil {
		opt.Mutate(c)
	}
	return c
}

// New builds a node with only its genesis blocks.
func New(opt Opt) *Env {
	e := &Env{Opt: opt, Cfg: MakeConfig(opt), Shard: map[uint32]*core.MinorBlockChain{}, DBs: map[uint32]ethdb.Database{}, Gen: map[uint32]*types.MinorBlock{}}
	q := e.Cfg.Quarkchain
	e.IDs = append(e.IDs, q.GetGenesisShardIds()...)
	sort.Slice(e.IDs, func(i, j int) bool { return e.IDs[i] < e.IDs[j] })
	if opt.Only != nil {
		e.IDs = opt.Only
	}
	mk := opt.DB
	if mk == nil {
		mk = func(uint32) ethdb.Database { return ethdb.NewMemDatabase() }
	}
	e.mk = mk
	var now []uint32
	for _, id := range e.IDs {
		if q.GetGenesisRootHeight(id) > 0 {
			e.Late = append(e.Late, id)
		} else {
			now = append(now, id)
		}
	}
	e.IDs = now
	e.DBs[0] = mk(0)
	genesis := core.NewGenesis(q)
	rb := genesis.MustCommitRootBlock(e.DBs[0])
	for _, id := range e.IDs {
		db := mk(id)
		e.DBs[id] = db
		genesis.MustCommitMinorBlock(db, rb, id)
	}
	if err := e.Open(); err != nil {
		panic(err)
	}
	for _, id := range e.IDs {
		gb, err := e.Shard[id].InitGenesisState(rb)
		if err != nil {
			panic(err)
		}
		e.Gen[id] = gb
		e.Root.AddValidatedMinorBlockHeader(gb.Hash(), gb.CoinbaseAmount())
	}
	return e
}

func (e *Env) engine(id uint32) consensus.Engine {
	if e.Opt.Engine != nil {
		return e.Opt.Engine(id, e.Cfg)
	}
	return new(consensus.FakeEngine)
}

// Open (re)creates the chain objects over the databases.
func (e *Env) Open() error {
	q := e.Cfg.Quarkchain
	r, err := core.NewRootBlockChain(e.DBs[0], q, e.engine(0))
	if err != nil {
		return err
	}
	e.Root = r
	for _, id := range e.IDs {
		if err := e.open(id); err != nil {
			return err
		}
	}
	return nil
}

func (e *Env) open(id uint32) error {
	cc := e.Opt.Cache
	if cc == nil {
		cc = &core.CacheConfig{TrieCleanLimit: 0, TrieDirtyLimit: 32, TrieTimeLimit: 5 * time.Minute, Disabled: true}
	}
	m, err := core.NewMinorBlockChain(e.DBs[id], cc, params.TestChainConfig, e.Cfg, e.engine(id), vm.Config{}, nil, id)
	if err != nil {
		return err
	}
	e.Shard[id] = m
	return nil
}

// Start creates a shard on its genesis root block, as slaves do for shards that
// join later, and announces its genesis block.
func (e *Env) Start(id uint32, rb *types.RootBlock) (*types.MinorBlock, error) {
	if e.Shard[id] == nil {
		e.DBs[id] = e.mk(id)
		core.NewGenesis(e.Cfg.Quarkchain).MustCommitMinorBlock(e.DBs[id], rb, id)
		if err := e.open(id); err != nil {
			return nil, err
		}
		e.IDs = append(e.IDs, id)
		sort.Slice(e.IDs, func(i, j int) bool { return e.IDs[i] < e.IDs[j] })
		for i, x := range e.Late {
			if x == id {
				e.Late = append(e.Late[:i:i], e.Late[i+1:]...)
				break
			}
		}
	}
	gb, err := e.Shard[id].InitGenesisState(rb)
	if err != nil {
		return nil, err
	}
	if e.Gen[id] == nil {
		e.Gen[id] = gb
	}
	if err := e.Broadcast(gb, nil); err != nil {
		return nil, err
	}
	e.Root.AddValidatedMinorBlockHeader(gb.Hash(), gb.CoinbaseAmount())
	return gb, nil
}

// Stop ends the node's goroutines.
func (e *Env) Stop() {
	for _, m := range e.Shard {
		m.Stop()
	}
	if e.Root != nil {
		e.Root.Stop()
	}
}

// GenesisRoot returns the root chain's genesis block.
func (e *Env) GenesisRoot() *types.RootBlock { return e.Root.Genesis() }

// AddMinor adds a minor block as cluster/shard does: insert, hand the
// cross-shard lists to the neighbours, report the header to the master.
func (e *Env) AddMinor(b *types.MinorBlock) error {
	id := b.Branch().Value
	m := e.Shard[id]
	if m == nil {
		return errors.New("no such shard")
	}
	if m.IsMinorBlockCommittedByHash(b.Hash()) {
		return nil
	}
	_, lists, err := m.InsertChainForDeposits([]types.IBlock{b}, false)
	if err != nil {
		return err
	}
	if len(lists) != 1 || lists[0] == nil {
		return errors.New("block not taken (already known or future)")
	}
	if err := e.Broadcast(b, lists[0]); err != nil {
		return err
	}
	e.Root.AddValidatedMinorBlockHeader(b.Hash(), b.CoinbaseAmount())
	m.CommitMinorBlockByHash(b.Hash())
	return nil
}

// Broadcast hands a block's outgoing deposits to the neighbour shards.
func (e *Env) Broadcast(b *types.MinorBlock, list []*types.CrossShardTransactionDeposit) error {
	q := e.Cfg.Quarkchain
	m := e.Shard[b.Branch().Value]
	rh := m.GetRootBlockByHash(b.PrevRootBlockHash()).Number()
	init := q.GetInitializedShardIdsBeforeRootHeight(rh)
	by := map[uint32][]*types.CrossShardTransactionDeposit{}
	for _, id := range init {
		by[id] = []*types.CrossShardTransactionDeposit{}
	}
	for _, d := range list {
		fid, err := q.GetFullShardIdByFullShardKey(d.To.FullShardKey)
		if err != nil {
			return err
		}
		if _, ok := by[fid]; !ok {
			return fmt.Errorf("deposit to uninitialised shard %x", fid)
		}
		by[fid] = append(by[fid], d)
	}
	for fid, l := range by {
		br := account.Branch{Value: fid}
		if fid == b.Branch().Value || !account.IsNeighbor(b.Branch(), br, uint32(len(init))) {
			if len(l) != 0 {
				return fmt.Errorf("deposits for non-neighbour %x", fid)
			}
			continue
		}
		if d, ok := e.Shard[fid]; ok {
			d.AddCrossShardTxListByMinorBlockHash(b.Hash(), types.CrossShardTransactionDepositList{TXList: l})
		}
	}
	return nil
}

// MineOpt are the inputs of one minor block.
type MineOpt struct {
	Time      uint64 // 0: parent+1
	Coinbase  account.Address
	Gas, XGas *big.Int
	NoTx      bool
}

// Build assembles a block on the shard's head.
func (e *Env) Build(id uint32, o MineOpt) (*types.MinorBlock, error) {
	m := e.Shard[id]
	t := o.Time
	if t == 0 {
		t = m.CurrentBlock().Time() + 1
		if rt := m.GetRootTip().Time(); rt > t {
			t = rt
		}
	}
	inc := !o.NoTx
	cb := o.Coinbase
	return m.CreateBlockToMine(&t, &cb, o.Gas, o.XGas, &inc)
}

// Mine builds and adds.
func (e *Env) Mine(id uint32, o MineOpt) (*types.MinorBlock, error) {
	b, err := e.Build(id, o)
	if err != nil {
		return nil, fmt.Errorf("build: %v", err)
	}
	return b, e.AddMinor(b)
}

// Unconfirmed lists the headers every shard offers for the next root block, in order.
func (e *Env) Unconfirmed() []*types.MinorBlockHeader {
	var hs []*types.MinorBlockHeader
	for _, id := range e.IDs {
		hs = append(hs, e.Shard[id].GetUnconfirmedHeaderList()...)
	}
	return hs
}

// BuildRoot assembles a root block with the given headers on the root head.
func (e *Env) BuildRoot(hs []*types.MinorBlockHeader, cb account.Address, t uint64) (*types.RootBlock, error) {
	if t == 0 {
		t = e.Root.CurrentBlock().Time() + 1
		for _, h := range hs {
			if h.Time > t {
				t = h.Time
			}
		}
	}
	return e.Root.CreateBlockToMine(hs, &cb, &t)
}

// AddRoot adds a root block to the root chain and then to every shard.
func (e *Env) AddRoot(b *types.RootBlock) error {
	if _, err := e.Root.InsertChain([]types.IBlock{b}); err != nil {
		return err
	}
	for _, id := range e.IDs {
		if e.Cfg.Quarkchain.GetGenesisRootHeight(id) >= b.Number() {
			continue
		}
		if _, err := e.Shard[id].AddRootBlock(b); err != nil {
			return fmt.Errorf("shard %x: %v", id, err)
		}
	}
	for _, id := range append(append([]uint32{}, e.IDs...), e.Late...) {
		if e.Cfg.Quarkchain.GetGenesisRootHeight(id) == b.Number() && b.Number() > 0 {
			if _, err := e.Start(id, b); err != nil {
				return fmt.Errorf("starting shard %x: %v", id, err)
			}
		}
	}
	return nil
}

// MineRoot confirms everything unconfirmed.
func (e *Env) MineRoot(cb account.Address) (*types.RootBlock, error) {
	b, err := e.BuildRoot(e.Unconfirmed(), cb, 0)
	if err != nil {
		return nil, err
	}
	return b, e.AddRoot(b)
}

// State of the shard's head.
func (e *Env) State(id uint32) *state.StateDB {
	st, err := e.Shard[id].StateAt(e.Shard[id].CurrentBlock().Root())
	if err != nil {
		panic(err)
	}
	return st
}

// Key returns a full shard key of the shard, with low bits of salt varied.
func Key(id uint32, salt uint32) uint32 {
	chain := id &^ 0xffff
	br := account.Branch{Value: id}
	size := br.GetShardSize()
	return chain | (salt&0xffff)&^(size-1) | id&(size-1)
}

// TxOpt describes a transaction.
type TxOpt struct {
	From           int
	To             *common.Address
	Nonce          uint64
	Value          *big.Int
	Gas            uint64
	Price          *big.Int
	FromKey, ToKey uint32
	Data           []byte
	GasToken       uint64 // 0: QKC
	Token          uint64 // 0: QKC
	Version        uint32
	Network        uint32
}

// Tx makes a signed transaction.
func Tx(o TxOpt) *types.Transaction {
	if o.GasToken == 0 {
		o.GasToken = QKC
	}
	if o.Token == 0 {
		o.Token = QKC
	}
	if o.Value == nil {
		o.Value = new(big.Int)
	}
	if o.Price == nil {
		o.Price = new(big.Int)
	}
	if o.Network == 0 {
		o.Network = NetworkID
	}
	var tx *types.EvmTransaction
	if o.To == nil {
		tx = types.NewEvmContractCreation(o.Nonce, o.Value, o.Gas, o.Price, o.FromKey, o.ToKey, o.Network, o.Version, o.Data, o.GasToken, o.Token)
	} else {
		tx = types.NewEvmTransaction(o.Nonce, *o.To, o.Value, o.Gas, o.Price, o.FromKey, o.ToKey, o.Network, o.Version, o.Data, o.GasToken, o.Token)
	}
	stx, err := types.SignTx(tx, types.MakeSigner(o.Network), Keys[o.From])
	if err != nil {
		panic(err)
	}
	return &types.Transaction{EvmTx: stx, TxType: types.EvmTx}
}

// Copy re-decodes a transaction so that chains under test share no cached state.
func CopyTx(tx *types.Transaction) *types.Transaction {
	c := *tx.EvmTx
	return &types.Transaction{TxType: types.EvmTx, EvmTx: &c}
}

// Fund is an amount no generated history can exhaust.
func Fund() *big.Int { return new(big.Int).Exp(big.NewInt(10), big.NewInt(30), nil) }

// Pool lists the hashes of the transactions in a shard's pool.
func (e *Env) Pool(id uint32) map[common.Hash]bool {
	out := map[common.Hash]bool{}
	for _, a := range Addrs {
		l, _, err := e.Shard[id].GetTransactionByAddress(account.NewAddress(a, Key(id, 0)), nil, []byte{1}, 1000)
		if err != nil {
			panic(err)
		}
		for _, d := range l {
			out[d.TxHash] = true
		}
	}
	return out
}

// InPool tells whether a transaction is in a shard's pool.
func (e *Env) InPool(id uint32, h common.Hash) bool { return e.Pool(id)[h] }
