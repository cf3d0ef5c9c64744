package c25

import (
	"math/big"
	"testing"
	"time"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/config"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/p2p"
	"github.com/QuarkChain/goquarkchain/zzverif/chainenv"
	"github.com/QuarkChain/goquarkchain/zzverif/hist"
	"github.com/QuarkChain/goquarkchain/zzverif/stack"
	"github.com/QuarkChain/goquarkchain/zzverif/vlib"
	"github.com/ethereum/go-ethereum/common"
	"pgregory.net/rapid"
)

// TestBigBlocks: a chain with full blocks synchronises too, by the root chain
// and by a shard's tip.
func TestBigBlocks(t *testing.T) {
	vlib.Check(t, 1, 8, "megabytes of blocks in one answer", func(rt *rapid.T, c *vlib.C) {
		op := hist.Opt(1, 1)
		op.Mutate = func(cc *config.ClusterConfig) {
			for _, id := range cc.Quarkchain.GetGenesisShardIds() {
				cc.Quarkchain.GetShardConfigByFullShardID(id).Genesis.GasLimit = 12000000
			}
			stack.Mutate(cc)
		}
		e := chainenv.New(op)
		defer e.Stop()
		e2 := chainenv.New(op) // for its configuration
		defer e2.Stop()
		id := e.IDs[0]
		var minors []*types.MinorBlock
		var roots []*types.RootBlock
		root := func() {
			r, err := e.MineRoot(account.NewAddress(chainenv.Addrs[0], chainenv.Key(id, 0)))
			if err != nil {
				rt.Fatalf("root block: %v", err)
			}
			roots = append(roots, r)
		}
		root()
		root()
		size := 0
		nonce := make([]uint64, hist.Senders)
		want := rapid.SampledFrom([]int{3, 5}).Draw(rt, "blocks")
		for k := 0; k < want; k++ {
			n := rapid.SampledFrom([]int{60, 75}).Draw(rt, "txs")
			for i := 0; i < n; i++ {
				from := i % hist.Senders
				tx := chainenv.Tx(chainenv.TxOpt{From: from, Nonce: nonce[from], Value: new(big.Int), Gas: 150000, Price: big.NewInt(10),
					To: &common.Address{1, 2, byte(i)}, FromKey: chainenv.Key(id, 0), ToKey: chainenv.Key(id, 0), Data: make([]byte, 30000)})
				nonce[from]++
				if err := e.Shard[id].AddTx(tx); err != nil {
					rt.Fatalf("transaction: %v", err)
				}
			}
			b, err := e.Mine(id, chainenv.MineOpt{})
			if err != nil {
				rt.Fatalf("block: %v", err)
			}
			hist.Settle(e, id, b)
			size += len(stack.Ser(b))
			minors = append(minors, b)
		}
		split := rapid.SampledFrom([]bool{false, true}).Draw(rt, "bytip")
		if !split {
			root()
		}
		n, err := stack.New(e2.Cfg, 1)
		if err != nil {
			rt.Fatalf("start: %v", err)
		}
		defer n.Stop()
		v := &stack.View{Roots: map[common.Hash]*types.RootBlock{}, Minors: map[common.Hash]*types.MinorBlock{}, Chains: map[uint32][]*types.MinorBlock{}}
		v.Canon = append([]*types.RootBlock{e.Root.Genesis()}, roots...)
		for _, r := range v.Canon {
			v.Roots[r.Hash()] = r
		}
		v.Tip = v.Canon[len(v.Canon)-1].Header()
		v.Chains[id] = append([]*types.MinorBlock{e.Gen[id]}, minors...)
		for _, b := range v.Chains[id] {
			v.Minors[b.Hash()] = b
		}
		w := n.Dial(1, stack.Envelope(stack.Msg{Op: p2p.Hello, Data: stack.Ser(n.Hello(v.Tip, v.Canon[0].Hash()))}), v.Serve)
		if !stack.Wait(60*time.Second, func() bool { return n.M.CurrentBlock().Hash() == v.Tip.Hash() }) {
			rt.Fatalf("%d blocks of %d bytes: the root chain ends in %d instead of %d", want, size, n.M.CurrentBlock().Number(), v.Tip.Number)
		}
		top := minors[len(minors)-1]
		// an announcement that refers to a root block the shard does not have yet is rightly ignored
		if !stack.Wait(60*time.Second, func() bool { return !n.Busy() && n.Chain(id).GetRootBlockByHash(v.Tip.Hash()) != nil }) {
			rt.Fatalf("%d blocks of %d bytes: the shard does not get the root block", want, size)
		}
		if split {
			w.Send(stack.Msg{Op: p2p.NewTipMsg, Branch: id, Data: stack.Ser(&p2p.Tip{RootBlockHeader: v.Tip, MinorBlockHeaderList: []*types.MinorBlockHeader{top.Header()}})})
		}
		if !stack.Wait(60*time.Second, func() bool { return n.Chain(id).CurrentBlock().Hash() == top.Hash() }) {
			rt.Fatalf("%d blocks of %d bytes (by tip %v): the shard ends in %d instead of %d", want, size, split, n.Chain(id).CurrentBlock().NumberU64(), top.NumberU64())
		}
		if size > 4<<20 {
			c.NonTrivial("%d %v", size, split)
		}
		c.Sample("%d blocks of %d bytes, by tip %v", want, size, split)
	})
}
