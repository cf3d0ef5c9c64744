// Package stack runs whole clusters in the test process: the real master and
// the real slaves with their shards, joined by their own gRPC connections over
// the loopback, on databases in memory.
package stack

import (
	"fmt"
	"io"
	"net"
	"os"
	"sort"
	"time"

	"github.com/QuarkChain/goquarkchain/cluster/config"
	"github.com/QuarkChain/goquarkchain/cluster/master"
	crpc "github.com/QuarkChain/goquarkchain/cluster/rpc"
	"github.com/QuarkChain/goquarkchain/cluster/service"
	"github.com/QuarkChain/goquarkchain/cluster/shard"
	"github.com/QuarkChain/goquarkchain/cluster/slave"
	"github.com/QuarkChain/goquarkchain/core"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/p2p"
	"github.com/QuarkChain/goquarkchain/rpc"
	"github.com/QuarkChain/goquarkchain/zzverif/world"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/event"
	"google.golang.org/grpc"
)

// Mutate makes a configuration fit for New.
func Mutate(cc *config.ClusterConfig) {
	q := cc.Quarkchain
	q.Root.ConsensusType = config.PoWSimulate
	if q.Root.ConsensusConfig == nil {
		q.Root.ConsensusConfig = &config.POWConfig{TargetBlockTime: 60}
	}
	for _, id := range q.GetGenesisShardIds() {
		sc := q.GetShardConfigByFullShardID(id)
		sc.ConsensusType = config.PoWSimulate
		if sc.ConsensusConfig == nil {
			sc.ConsensusConfig = &config.POWConfig{TargetBlockTime: 10}
		}
	}
}

// Node is one cluster.
type Node struct {
	Cfg    *config.ClusterConfig
	IDs    []uint32
	M      *master.QKCMasterBackend
	Slaves []*slave.SlaveBackend
	Exit   chan os.Signal
	srv    []*grpc.Server
	lis    []net.Listener
	pipes  []io.Closer
}

func ctx(exit chan os.Signal) *service.ServiceContext {
	return &service.ServiceContext{EventMux: new(event.TypeMux), Shutdown: exit}
}

// New starts a cluster of n slaves. It takes the configuration of its own.
func New(cfg *config.ClusterConfig, n int) (*Node, error) {
	x := &Node{Cfg: cfg, Exit: make(chan os.Signal, 16)}
	x.IDs = append(x.IDs, cfg.Quarkchain.GetGenesisShardIds()...)
	sort.Slice(x.IDs, func(i, j int) bool { return x.IDs[i] < x.IDs[j] })
	cfg.SlaveList = nil
	for i := 0; i < n; i++ {
		sc := &config.SlaveConfig{IP: "127.0.0.1", ID: fmt.Sprintf("S%d", i)}
		for k, id := range x.IDs {
			if k%n == i {
				sc.FullShardList = append(sc.FullShardList, id)
			}
		}
		cfg.SlaveList = append(cfg.SlaveList, sc)
		s, err := slave.New(ctx(x.Exit), cfg, sc)
		if err != nil {
			return nil, err
		}
		x.Slaves = append(x.Slaves, s)
		if sc.Port, err = x.serve(slave.NewServerSideOp(s)); err != nil {
			return nil, err
		}
	}
	var err error
	if x.M, err = master.New(ctx(x.Exit), cfg); err != nil {
		return nil, err
	}
	cfg.Quarkchain.GRPCHost = "127.0.0.1"
	if cfg.Quarkchain.GRPCPort, err = x.serve(master.NewServerSideOp(x.M)); err != nil {
		return nil, err
	}
	if err = x.M.Init(nil); err != nil {
		return nil, err
	}
	return x, x.M.Start()
}

func (x *Node) serve(op interface{}) (uint16, error) {
	l, s, err := crpc.StartGRPCServer("127.0.0.1:0", []rpc.API{{Namespace: "grpc", Service: op}})
	if err != nil {
		return 0, err
	}
	x.lis, x.srv = append(x.lis, l), append(x.srv, s)
	return uint16(l.Addr().(*net.TCPAddr).Port), nil
}

// Stop ends the cluster.
func (x *Node) Stop() {
	for _, p := range x.pipes {
		p.Close()
	}
	for k := 0; k < 3; k++ {
		Wait(5*time.Second, func() bool { return !x.Busy() })
	}
	x.M.Stop()
	for _, s := range x.Slaves {
		s.Stop()
	}
	for _, s := range x.srv {
		s.Stop()
	}
}

// Shard of a cluster.
func (x *Node) Shard(id uint32) *shard.ShardBackend {
	for _, s := range x.Slaves {
		if b := s.GetShard(id); b != nil {
			return b
		}
	}
	return nil
}

// Chain of a shard.
func (x *Node) Chain(id uint32) *core.MinorBlockChain { return x.Shard(id).MinorBlockChain }

// Add delivers an event.
func (x *Node) Add(e world.Event) error {
	if e.M != nil {
		return x.Shard(e.M.ID).AddMinorBlock(world.Copy(e.M.B))
	}
	if b, _, err := x.M.GetRootBlockByHash(e.R.H, false); err == nil && b != nil {
		return nil
	}
	return x.M.AddRootBlock(CopyRoot(e.R.B))
}

// CopyRoot copies a root block.
func CopyRoot(b *types.RootBlock) *types.RootBlock {
	return types.NewRootBlockWithHeader(b.Header()).WithBody(b.MinorBlockHeaders(), b.TrackingData())
}

// Peer is a peer of a node by the other end of its pipe.
type Peer struct {
	P    *p2p.Peer
	Done chan error
}

// Join starts a node's protocol on its end of a pipe, as for a connected peer
// of the given identity.
func (x *Node) Join(id byte, rw p2p.MsgReadWriter) *Peer {
	var nid [32]byte
	nid[0] = id
	p := &Peer{P: p2p.NewPeer(nid, fmt.Sprintf("peer%d", id), nil), Done: make(chan error, 1)}
	if c, ok := rw.(io.Closer); ok {
		x.pipes = append(x.pipes, c)
	}
	go func() { p.Done <- x.M.Protocols()[0].Run(p.P, rw) }()
	return p
}

// Wait polls until f holds.
func Wait(d time.Duration, f func() bool) bool {
	for end := time.Now().Add(d); ; time.Sleep(2 * time.Millisecond) {
		if f() {
			return true
		}
		if time.Now().After(end) {
			return false
		}
	}
}

// Heads of a node: the root chain's and each shard's.
func (x *Node) Heads() map[uint32]common.Hash {
	h := map[uint32]common.Hash{0: x.M.CurrentBlock().Hash()}
	for _, id := range x.IDs {
		h[id] = x.Chain(id).CurrentBlock().Hash()
	}
	return h
}
