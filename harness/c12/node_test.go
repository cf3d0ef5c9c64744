package c12

import (
	"errors"
	"fmt"
	"sort"
	"time"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/config"
	"github.com/QuarkChain/goquarkchain/cluster/master"
	"github.com/QuarkChain/goquarkchain/cluster/rpc"
	"github.com/QuarkChain/goquarkchain/cluster/service"
	"github.com/QuarkChain/goquarkchain/cluster/shard"
	"github.com/QuarkChain/goquarkchain/consensus"
	"github.com/QuarkChain/goquarkchain/consensus/simulate"
	"github.com/QuarkChain/goquarkchain/core"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/zzverif/world"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/event"
)

// node is a master and its shards over recorded databases.
type node struct {
	cfg    *config.ClusterConfig
	ids    []uint32
	order  []uint32 // in which shards get root blocks
	prune  bool
	d      *disk
	db     map[uint32]*store
	m      *master.QKCMasterBackend
	shards map[uint32]*shard.ShardBackend
}

func newNode(cfg *config.ClusterConfig, ids, order []uint32, prune bool) *node {
	n := &node{cfg: cfg, ids: ids, order: order, prune: prune}
	n.d, n.db = new(disk).at(0, append([]uint32{0}, ids...))
	return n
}

// caught turns a panic into an error.
func caught(what string, f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%s panics: %v", what, r)
		}
	}()
	if err = f(); err != nil {
		err = fmt.Errorf("%s: %v", what, err)
	}
	return err
}

func (n *node) start() error {
	return caught("start", func() error {
		n.shards = map[uint32]*shard.ShardBackend{}
		var err error
		ctx := &service.ServiceContext{EventMux: new(event.TypeMux)}
		if n.m, err = master.NewVerif(ctx, n.cfg, n.db[0]); err != nil {
			return err
		}
		return n.m.Connect(&slave{n: n})
	})
}

func (n *node) stop() {
	for _, s := range n.shards {
		s.Stop()
	}
	n.shards = nil
	if n.m != nil {
		n.m.StopVerif()
	}
	n.m = nil
}

// crash loses all writes after the first k.
func (n *node) crash(k int) {
	d, db := n.d.at(k, append([]uint32{0}, n.ids...))
	n.stop()
	n.d, n.db = d, db
}

func (n *node) minor(b *types.MinorBlock, sync bool) error {
	return caught("adding a minor block", func() error {
		s := n.shards[b.Branch().Value]
		if sync {
			return s.AddBlockListForSync([]*types.MinorBlock{world.Copy(b)})
		}
		return s.AddMinorBlock(world.Copy(b))
	})
}

func (n *node) root(b *types.RootBlock) error {
	if n.m.RootChain().HasBlock(b.Hash()) {
		return nil
	}
	return caught("adding a root block", func() error {
		return n.m.AddRootBlock(types.NewRootBlockWithHeader(b.Header()).WithBody(b.MinorBlockHeaders(), b.TrackingData()))
	})
}

// slave stands for the only slave, as the master sees it.
type slave struct {
	rpc.ISlaveConn
	n *node
}

func (s *slave) GetSlaveID() string { return "S0" }

func (s *slave) AddRootBlock(b *types.RootBlock, _ bool) (err error) {
	for _, id := range s.n.order {
		if _, e := s.n.shards[id].AddRootBlock(b); e != nil {
			return e
		}
	}
	return nil
}

// MasterInfo creates the shards, as SlaveBackend.CreateShards.
func (s *slave) MasterInfo(_ string, _ uint16, tip *types.RootBlock) error {
	n := s.n
	for _, id := range n.order {
		sc := n.cfg.Quarkchain.GetShardConfigByFullShardID(id)
		eng := simulate.New(&consensus.EthDifficultyCalculator{MinimumDifficulty: common.Big1, AdjustmentCutoff: sc.DifficultyAdjustmentCutoffTime, AdjustmentFactor: sc.DifficultyAdjustmentFactor}, false, []byte{}, 0)
		cc := &core.CacheConfig{TrieDirtyLimit: 32, TrieTimeLimit: 5 * time.Minute, Disabled: !n.prune}
		ctx := &service.ServiceContext{EventMux: new(event.TypeMux)}
		sh, err := shard.NewVerif(ctx, tip, &conn{n: n, id: id}, n.cfg, id, n.db[id], eng, cc)
		if err != nil {
			return err
		}
		n.shards[id] = sh
	}
	for _, id := range n.order {
		if err := n.shards[id].InitFromRootBlock(tip); err != nil {
			return fmt.Errorf("shard %x does not start from root block %d: %v", id, tip.Number(), err)
		}
	}
	return nil
}

// conn is a shard's way to its neighbours and the master.
type conn struct {
	shard.ConnManager
	n  *node
	id uint32
}

func (c *conn) send(h common.Hash, l []*types.CrossShardTransactionDeposit, height uint32) error {
	q := c.n.cfg.Quarkchain
	init := q.GetInitializedShardIdsBeforeRootHeight(height)
	by := map[uint32][]*types.CrossShardTransactionDeposit{}
	for _, d := range l {
		id, err := q.GetFullShardIdByFullShardKey(d.To.FullShardKey)
		if err != nil {
			return err
		}
		by[id] = append(by[id], d)
	}
	sort.Slice(init, func(i, j int) bool { return init[i] < init[j] })
	for _, id := range init {
		if id == c.id || !account.IsNeighbor(account.Branch{Value: c.id}, account.Branch{Value: id}, uint32(len(init))) {
			continue
		}
		s := c.n.shards[id]
		if s == nil {
			return errors.New("neighbour is not there")
		}
		s.MinorBlockChain.AddCrossShardTxListByMinorBlockHash(h, types.CrossShardTransactionDepositList{TXList: by[id]})
	}
	return nil
}

func (c *conn) BroadcastXshardTxList(b *types.MinorBlock, l []*types.CrossShardTransactionDeposit, height uint32) error {
	if b.Number() == 0 {
		return nil // neighbours need nothing of a genesis block
	}
	return c.send(b.Hash(), l, height)
}

func (c *conn) BatchBroadcastXshardTxList(m map[common.Hash]*shard.XshardListTuple, br account.Branch) error {
	for h, t := range m {
		if err := c.send(h, t.XshardTxList, t.PrevRootHeight); err != nil {
			return err
		}
	}
	return nil
}

func (c *conn) SendMinorBlockHeaderToMaster(r *rpc.AddMinorBlockHeaderRequest) error {
	c.n.m.RootChain().AddValidatedMinorBlockHeader(r.MinorBlockHeader.Hash(), r.CoinbaseAmountMap)
	return nil
}

func (c *conn) SendMinorBlockHeaderListToMaster(r *rpc.AddMinorBlockHeaderListRequest) error {
	for _, h := range r.MinorBlockHeaderList {
		c.n.m.RootChain().AddValidatedMinorBlockHeader(h.Hash(), h.CoinbaseAmount)
	}
	return nil
}

func (c *conn) BroadcastNewTip([]*types.MinorBlockHeader, *types.RootBlockHeader, uint32) error {
	return nil
}
func (c *conn) BroadcastTransactions(string, uint32, []*types.Transaction) error { return nil }
func (c *conn) BroadcastMinorBlock(string, *types.MinorBlock) error              { return nil }
