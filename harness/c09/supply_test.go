package c09

import (
	"fmt"
	"math/big"
	"testing"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/config"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/zzverif/chainenv"
	"github.com/QuarkChain/goquarkchain/zzverif/hist"
	"github.com/QuarkChain/goquarkchain/zzverif/vlib"
	"github.com/ethereum/go-ethereum/common"
	"pgregory.net/rapid"
)

// TestSupply: whatever contracts do, a block changes the supply of a shard by
// its reward, the deposits that leave and arrive and the burned part of fees.
func TestSupply(t *testing.T) {
	rule := "at least two contract transactions and one arriving cross-shard deposit were processed"
	vlib.Check(t, 45, 900, rule, func(rt *rapid.T, c *vlib.C) {
		sh := rapid.SampledFrom([][2]uint32{{1, 2}, {2, 1}, {2, 2}}).Draw(rt, "shape")
		opt := hist.Opt(sh[0], sh[1])
		rate := rapid.SampledFrom([]*big.Rat{big.NewRat(1, 2), big.NewRat(1, 1), big.NewRat(2, 3)}).Draw(rt, "rate")
		cut := func(x *big.Int) *big.Int {
			n := new(big.Int).Mul(x, rate.Num())
			return n.Div(n, rate.Denom())
		}
		rw := rapid.SampledFrom([]int64{0, 1000003}).Draw(rt, "reward")
		gl := rapid.SampledFrom([]uint64{400000, 1000000}).Draw(rt, "gas")
		opt.Mutate = func(cc *config.ClusterConfig) {
			q := cc.Quarkchain
			q.LocalFeeRate = rate
			q.XShardGasDDOSFixRootHeight = 1
			for _, id := range q.GetGenesisShardIds() {
				q.GetShardConfigByFullShardID(id).CoinbaseAmount = big.NewInt(rw)
				q.GetShardConfigByFullShardID(id).Genesis.GasLimit = gl
			}
		}
		e := chainenv.New(opt)
		defer e.Stop()
		g := hist.NewGen(e)
		g.MaxGas = 150000
		cb := account.NewAddress(chainenv.Addrs[8], 0)
		roots := 0
		root := func() {
			if _, err := e.MineRoot(cb); err != nil {
				rt.Fatalf("root block: %v", err)
			}
			roots++
		}
		root()
		root()
		sup := map[uint32]map[uint64]*big.Int{}
		for _, id := range e.IDs {
			sup[id] = chainenv.Dump(e.State(id)).Supply()
		}
		type entry struct {
			dest uint32
			d    *types.CrossShardTransactionDeposit
		}
		flying := map[common.Hash]entry{}
		arrived := map[common.Hash]bool{}
		calls := 0
		mine := func(id uint32) {
			b, err := e.Build(id, chainenv.MineOpt{Coinbase: account.NewAddress(chainenv.Addrs[9+rapid.IntRange(0, 1).Draw(rt, "miner")], chainenv.Key(id, 0))})
			if err != nil {
				rt.Fatalf("building: %v", err)
			}
			m := e.Shard[id]
			_, lists, err := m.InsertChainForDeposits([]types.IBlock{b}, false)
			if err != nil || len(lists) != 1 {
				rt.Fatalf("own block refused: %v", err)
			}
			if err := e.Broadcast(b, lists[0]); err != nil {
				rt.Fatal(err)
			}
			e.Root.AddValidatedMinorBlockHeader(b.Hash(), b.CoinbaseAmount())
			m.CommitMinorBlockByHash(b.Hash())
			delta := map[uint64]*big.Int{chainenv.QKC: cut(big.NewInt(rw))}
			add := func(tok uint64, x *big.Int, sign int64) {
				if delta[tok] == nil {
					delta[tok] = new(big.Int)
				}
				delta[tok].Add(delta[tok], new(big.Int).Mul(x, big.NewInt(sign)))
			}
			txs := b.Transactions()
			rs := m.GetReceiptsByHash(b.Hash())
			out := map[common.Hash]*types.CrossShardTransactionDeposit{}
			for _, d := range lists[0] {
				if out[d.TxHash] != nil {
					rt.Fatalf("transaction %x leaves the shard twice", d.TxHash)
				}
				out[d.TxHash] = d
			}
			burn := func(gas uint64, price *big.Int) {
				f := new(big.Int).Mul(new(big.Int).SetUint64(gas), price)
				add(chainenv.QKC, new(big.Int).Sub(f, cut(f)), -1)
			}
			for i, tx := range txs {
				ev := tx.EvmTx
				burn(rs[i].GasUsed, ev.GasPrice())
				if len(ev.Data()) > 0 {
					calls++
				}
				if d := out[tx.Hash()]; d != nil {
					if !ev.IsCrossShard() {
						rt.Fatalf("a local transaction left the shard")
					}
					add(ev.TransferTokenID(), ev.Value(), -1)
					add(chainenv.QKC, new(big.Int).Mul(new(big.Int).SetUint64(ev.Gas()-rs[i].GasUsed), ev.GasPrice()), -1)
					if flying[tx.Hash()].d != nil || arrived[tx.Hash()] {
						rt.Fatalf("transaction %x left twice", tx.Hash())
					}
					dest, _ := e.Cfg.Quarkchain.GetFullShardIdByFullShardKey(d.To.FullShardKey)
					if d.GasRemained.Value.Uint64() != ev.Gas()-rs[i].GasUsed-9000 || d.Value.Value.Cmp(ev.Value()) != 0 || d.TransferTokenID != ev.TransferTokenID() || d.GasPrice.Value.Cmp(ev.GasPrice()) != 0 || dest != ev.ToFullShardId() {
						rt.Fatalf("deposit %+v of transaction gas %d used %d value %v", d, ev.Gas(), rs[i].GasUsed, ev.Value())
					}
					flying[tx.Hash()] = entry{dest, d}
				} else if ev.IsCrossShard() && rs[i].Status == types.ReceiptStatusSuccessful {
					rt.Fatalf("a successful cross-shard transaction produced no deposit")
				}
			}
			for _, r := range rs[len(txs):] {
				if rb := e.Root.GetBlock(r.TxHash); rb != nil {
					blk := rb.(*types.RootBlock)
					if arrived[common.BytesToHash(append(r.TxHash[:28:28], byte(id>>16), byte(id>>8), byte(id), 1))] {
						rt.Fatalf("root block reward arrived twice in a shard")
					}
					arrived[common.BytesToHash(append(r.TxHash[:28:28], byte(id>>16), byte(id>>8), byte(id), 1))] = true
					d, _ := e.Cfg.Quarkchain.GetFullShardIdByFullShardKey(blk.Coinbase().FullShardKey)
					if d == id {
						add(chainenv.QKC, blk.CoinbaseAmount().GetTokenBalance(chainenv.QKC), 1)
					}
					continue
				}
				en := flying[r.TxHash]
				if en.d == nil {
					rt.Fatalf("a deposit arrived that is not on its way (%x, arrived before: %v)", r.TxHash, arrived[r.TxHash])
				}
				if en.dest != id {
					rt.Fatalf("a deposit for shard %x arrived in %x", en.dest, id)
				}
				d := en.d
				add(d.TransferTokenID, d.Value.Value, 1)
				add(chainenv.QKC, new(big.Int).Mul(new(big.Int).SetUint64(d.GasRemained.Value.Uint64()+9000), d.GasPrice.Value), 1)
				burn(r.GasUsed, d.GasPrice.Value)
				delete(flying, r.TxHash)
				arrived[r.TxHash] = true
				c.Label("deposit status %d create %v", r.Status, d.CreateContract)
			}
			now := chainenv.Dump(e.State(id)).Supply()
			want := map[uint64]*big.Int{}
			for k, v := range sup[id] {
				want[k] = new(big.Int).Set(v)
			}
			for k, v := range delta {
				if want[k] == nil {
					want[k] = new(big.Int)
				}
				want[k].Add(want[k], v)
			}
			if !chainenv.EqBal(want, now) {
				s := ""
				for i, tx := range txs {
					to := "create"
					if tx.EvmTx.To() != nil {
						to = tx.EvmTx.To().Hex()
					}
					s += fmt.Sprintf("\n  %s %x value %v token %d status %d", to, tx.EvmTx.Data(), tx.EvmTx.Value(), tx.EvmTx.TransferTokenID(), rs[i].Status)
				}
				rt.Fatalf("shard %x holds %v after block %d, rewards, fees and deposits give %v; %d deposits, transactions:%s", id, now, b.NumberU64(), want, len(rs)-len(txs), s)
			}
			sup[id] = now
			hist.Settle(e, id, b)
			g.Sync()
		}
		for s := rapid.IntRange(3, 10).Draw(rt, "steps"); s > 0; s-- {
			id := rapid.SampledFrom(e.IDs).Draw(rt, "shard")
			g.Offer(rt, id, rapid.SampledFrom([]int{2, 5, 9}).Draw(rt, "txs"), func(s string) { c.Label(s) })
			mine(id)
			if rapid.IntRange(0, 2).Draw(rt, "r") == 0 {
				root()
			}
		}
		root()
		for i := 0; i < 25; i++ {
			for _, id := range e.IDs {
				mine(id)
			}
			if len(flying) == 0 {
				break
			}
			root()
		}
		if len(flying) != 0 {
			rt.Fatalf("%d deposits confirmed by the root chain never arrived", len(flying))
		}
		n := 0
		for h := range arrived {
			if e.Root.GetBlock(h) == nil {
				n++
			}
		}
		if calls >= 2 && n >= 1 {
			c.NonTrivial("%d contract transactions, %d arrivals over %d shards and %d root blocks", calls, n, len(e.IDs), roots)
		}
	})
}
