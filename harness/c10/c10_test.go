// Package c10: a shard accepts exactly the blocks that follow the rules.
package c10

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"math/big"
	"testing"
	"time"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/config"
	"github.com/QuarkChain/goquarkchain/consensus"
	"github.com/QuarkChain/goquarkchain/consensus/doublesha256"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/serialize"
	"github.com/QuarkChain/goquarkchain/zzverif/chainenv"
	"github.com/QuarkChain/goquarkchain/zzverif/hist"
	"github.com/QuarkChain/goquarkchain/zzverif/vlib"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/ethdb"
	"github.com/ethereum/go-ethereum/rlp"
	"pgregory.net/rapid"
)

type params struct {
	pow      bool // real proof of work and difficulty rule
	posw     bool
	reward   int64
	gasLimit uint64
	shards   uint32
}

func draw(rt *rapid.T) params {
	return params{
		pow:      rapid.Bool().Draw(rt, "pow"),
		posw:     rapid.Bool().Draw(rt, "posw"),
		reward:   rapid.SampledFrom([]int64{0, 1, 1000000007}).Draw(rt, "reward"),
		gasLimit: rapid.SampledFrom([]uint64{200000, 500000, 12000000}).Draw(rt, "gaslimit"),
		shards:   rapid.SampledFrom([]uint32{1, 2}).Draw(rt, "shards"),
	}
}

func (p params) env() *chainenv.Env {
	o := hist.Opt(1, p.shards)
	o.Mutate = func(c *config.ClusterConfig) {
		q := c.Quarkchain
		q.SkipMinorDifficultyCheck = !p.pow
		for _, id := range q.GetGenesisShardIds() {
			sc := q.GetShardConfigByFullShardID(id)
			sc.Genesis.Difficulty = 12
			sc.Genesis.GasLimit = p.gasLimit
			sc.CoinbaseAmount = big.NewInt(p.reward)
			sc.PoswConfig.Enabled = p.posw
			sc.PoswConfig.TotalStakePerBlock = big.NewInt(1000)
			sc.PoswConfig.DiffDivider = 4
		}
	}
	if p.pow {
		o.Engine = func(id uint32, cfg *config.ClusterConfig) consensus.Engine {
			if id == 0 {
				return new(consensus.FakeEngine)
			}
			return doublesha256.New(&consensus.EthDifficultyCalculator{AdjustmentCutoff: 7, AdjustmentFactor: 4, MinimumDifficulty: big.NewInt(3)}, false, []byte{})
		}
	}
	return chainenv.New(o)
}

// powOK is the double SHA-256 rule, written independently.
func powOK(h *types.MinorBlockHeader, diff *big.Int) bool {
	var in [40]byte
	sh := h.SealHash()
	copy(in[:], sh[:])
	binary.BigEndian.PutUint64(in[32:], h.Nonce)
	a := sha256.Sum256(in[:])
	a = sha256.Sum256(a[:])
	t := new(big.Int).Div(new(big.Int).Lsh(big.NewInt(1), 256), diff)
	return new(big.Int).SetBytes(a[:]).Cmp(t) <= 0
}

func seal(h *types.MinorBlockHeader) {
	if h.Difficulty.Sign() <= 0 {
		return
	}
	for h.Nonce = 0; !powOK(h, h.Difficulty); h.Nonce++ {
	}
}

// raw is a block taken apart.
type raw struct {
	h   *types.MinorBlockHeader
	m   *types.MinorBlockMeta
	txs []*types.Transaction
}

// block puts the parts together as a peer would receive them: from their encoding.
func (r raw) block() *types.MinorBlock {
	var buf []byte
	if err := serialize.Serialize(&buf, r.h); err != nil {
		panic(err)
	}
	b := types.NewMinorBlockWithHeader(r.h, r.m).WithBody(r.txs, nil)
	return reload(b)
}

func reload(b *types.MinorBlock) *types.MinorBlock {
	data, err := serialize.SerializeToBytes(b)
	if err != nil {
		panic(err)
	}
	c := new(types.MinorBlock)
	if err := serialize.Deserialize(serialize.NewByteBuffer(data), c); err != nil {
		panic(fmt.Sprintf("a built block cannot be decoded: %v", err))
	}
	return c
}

func reloadRoot(b *types.RootBlock) *types.RootBlock {
	data, err := serialize.SerializeToBytes(b)
	if err != nil {
		panic(err)
	}
	c := new(types.RootBlock)
	if err := serialize.Deserialize(serialize.NewByteBuffer(data), c); err != nil {
		panic(err)
	}
	return c
}

func parts(b *types.MinorBlock) raw {
	c := reload(b)
	return raw{c.Header(), c.Meta(), append([]*types.Transaction{}, c.Transactions()...)}
}

// snap is everything observable about a shard.
type snap struct {
	head  common.Hash
	state chainenv.View
	keys  int
	txs   int
}

func take(e *chainenv.Env, id uint32) snap {
	return snap{e.Shard[id].CurrentBlock().Hash(), chainenv.Dump(e.State(id)), e.DBs[id].(*ethdb.MemDatabase).Len(), len(e.Pool(id))}
}

func (s snap) diff(t snap) string {
	if s.head != t.head {
		return fmt.Sprintf("head %x became %x", s.head, t.head)
	}
	return s.state.Diff(t.state)
}

type mutant struct {
	name string
	// f changes the block; it returns false if it does not apply here.
	f func(r *raw) bool
	// meta: the header's meta hash is recomputed (so that the change itself must be noticed)
	rehash bool
}

var far = uint64(1) << 40

func mutants(rt *rapid.T, e *chainenv.Env, id uint32, p params) []mutant {
	m := e.Shard[id]
	parent := m.CurrentBlock()
	u := func(x *serialize.Uint256, d int64) *serialize.Uint256 {
		v := new(big.Int).Add(x.Value, big.NewInt(d))
		if v.Sign() < 0 {
			v.SetInt64(77)
		}
		return &serialize.Uint256{Value: v}
	}
	flip := func(h common.Hash) common.Hash { h[rapid.IntRange(0, 31).Draw(rt, "byte")] ^= byte(1 << uint(rapid.IntRange(0, 7).Draw(rt, "bit"))); return h }
	sign := rapid.SampledFrom([]int64{-1, 1, 21000}).Draw(rt, "delta")
	l := []mutant{
		{"version", func(r *raw) bool { r.h.Version = 1; return true }, true},
		{"branch", func(r *raw) bool {
			r.h.Branch.Value = rapid.SampledFrom([]uint32{id ^ 1, id ^ 0x10000, 0, id << 1}).Draw(rt, "branch")
			return r.h.Branch.Value != id
		}, true},
		{"number", func(r *raw) bool {
			r.h.Number = rapid.SampledFrom([]uint64{r.h.Number + 1, r.h.Number - 1, 0, 1 << 63}).Draw(rt, "number")
			return true
		}, true},
		{"coinbase-branch", func(r *raw) bool {
			r.h.Coinbase.FullShardKey = rapid.SampledFrom([]uint32{r.h.Coinbase.FullShardKey ^ 0x10000, r.h.Coinbase.FullShardKey ^ 1}).Draw(rt, "ck")
			return !(p.shards == 1 && r.h.Coinbase.FullShardKey>>16 == 0)
		}, true},
		{"coinbase", func(r *raw) bool {
			// nobody is credited, so another miner makes another valid block
			paid := false
			for _, v := range r.h.CoinbaseAmount.GetBalanceMap() {
				paid = paid || v.Sign() != 0
			}
			r.h.Coinbase.Recipient[3] ^= 1
			return paid
		}, true},
		{"amount", func(r *raw) bool {
			mp := r.h.CoinbaseAmount.GetBalanceMap()
			switch rapid.IntRange(0, 3).Draw(rt, "amt") {
			case 0:
				x := mp[chainenv.QKC]
				if x == nil {
					x = new(big.Int)
				}
				mp[chainenv.QKC] = new(big.Int).Add(x, big.NewInt(1))
			case 1:
				mp[hist.TokA] = big.NewInt(5)
			case 2:
				if x := mp[chainenv.QKC]; x != nil && x.Sign() > 0 {
					mp[chainenv.QKC] = new(big.Int).Sub(x, big.NewInt(1))
				} else {
					return false
				}
			case 3:
				if x := mp[chainenv.QKC]; x == nil || x.Sign() == 0 {
					return false
				}
				delete(mp, chainenv.QKC)
			}
			r.h.CoinbaseAmount = types.NewTokenBalancesWithMap(mp)
			return true
		}, true},
		{"parent", func(r *raw) bool {
			if rapid.Bool().Draw(rt, "rnd") || parent.NumberU64() == 0 {
				r.h.ParentHash = flip(r.h.ParentHash)
			} else {
				r.h.ParentHash = parent.ParentHash()
			}
			return true
		}, true},
		{"root-unknown", func(r *raw) bool { r.h.PrevRootBlockHash = flip(r.h.PrevRootBlockHash); return true }, true},
		{"root-decreasing", func(r *raw) bool {
			pr := m.GetRootBlockByHash(parent.PrevRootBlockHash())
			if pr == nil || pr.Number() == 0 {
				return false
			}
			r.h.PrevRootBlockHash = pr.ParentHash()
			return true
		}, true},
		{"gaslimit", func(r *raw) bool { r.h.GasLimit = u(r.h.GasLimit, sign); return true }, true},
		{"metahash", func(r *raw) bool { r.h.MetaHash = flip(r.h.MetaHash); return true }, false},
		{"time-past", func(r *raw) bool {
			r.h.Time = rapid.SampledFrom([]uint64{parent.Time(), parent.Time() - 1, 0}).Draw(rt, "time")
			return true
		}, true},
		{"time-future", func(r *raw) bool {
			r.h.Time = uint64(time.Now().Unix()) + rapid.SampledFrom([]uint64{200, 100000, far}).Draw(rt, "time")
			if p.pow {
				d, err := new(consensus.EthDifficultyCalculator).CalculateDifficulty, error(nil)
				_ = d
				_ = err
				r.h.Difficulty = want(parent, r.h.Time)
			}
			return true
		}, true},
		{"difficulty", func(r *raw) bool {
			r.h.Difficulty = new(big.Int).Add(r.h.Difficulty, big.NewInt(rapid.SampledFrom([]int64{-1, 1, 1000}).Draw(rt, "dd")))
			return p.pow
		}, true},
		{"bloom", func(r *raw) bool { r.h.Bloom[rapid.IntRange(0, 255).Draw(rt, "bb")] ^= 4; return true }, true},
		{"extra", func(r *raw) bool { r.h.Extra = make([]byte, e.Cfg.Quarkchain.BlockExtraDataSizeLimit+1); return true }, true},
		{"m-txhash", func(r *raw) bool { r.m.TxHash = flip(r.m.TxHash); return true }, rapid.IntRange(0, 3).Draw(rt, "rh") > 0},
		{"m-root", func(r *raw) bool { r.m.Root = flip(r.m.Root); return true }, true},
		{"m-parentroot", func(r *raw) bool {
			ok := r.m.Root != parent.Root()
			r.m.Root = parent.Root()
			return ok
		}, true},
		{"m-receipts", func(r *raw) bool { r.m.ReceiptHash = flip(r.m.ReceiptHash); return true }, true},
		{"m-gas", func(r *raw) bool { r.m.GasUsed = u(r.m.GasUsed, sign); return true }, true},
		{"m-xgas", func(r *raw) bool { r.m.CrossShardGasUsed = u(r.m.CrossShardGasUsed, sign); return true }, true},
		{"m-xlimit", func(r *raw) bool { r.m.XShardGasLimit = u(r.m.XShardGasLimit, sign); return true }, true},
		{"m-cursor", func(r *raw) bool {
			c := *r.m.XShardTxCursorInfo
			switch rapid.IntRange(0, 2).Draw(rt, "cur") {
			case 0:
				c.RootBlockHeight++
			case 1:
				c.MinorBlockIndex++
			case 2:
				c.XShardDepositIndex++
			}
			r.m.XShardTxCursorInfo = &c
			return true
		}, true},
		{"drop-tx", func(r *raw) bool {
			if len(r.txs) == 0 {
				return false
			}
			i := rapid.IntRange(0, len(r.txs)-1).Draw(rt, "which")
			r.txs = append(append([]*types.Transaction{}, r.txs[:i]...), r.txs[i+1:]...)
			if rapid.Bool().Draw(rt, "fixroot") {
				r.m.TxHash = types.CalculateMerkleRoot(types.Transactions(r.txs))
			}
			return true
		}, true},
		{"dup-tx", func(r *raw) bool {
			if len(r.txs) == 0 {
				return false
			}
			r.txs = append(r.txs, r.txs[rapid.IntRange(0, len(r.txs)-1).Draw(rt, "which")])
			if rapid.Bool().Draw(rt, "fixroot") {
				r.m.TxHash = types.CalculateMerkleRoot(types.Transactions(r.txs))
			}
			return true
		}, true},
		{"swap-tx", func(r *raw) bool {
			if len(r.txs) < 2 {
				return false
			}
			r.txs[0], r.txs[len(r.txs)-1] = r.txs[len(r.txs)-1], r.txs[0]
			return r.txs[0].Hash() != r.txs[len(r.txs)-1].Hash()
		}, true},
		{"add-tx", func(r *raw) bool {
			st := e.State(id)
			n := uint64(0)
			for _, tx := range r.txs {
				if s, err := types.Sender(types.MakeSigner(tx.EvmTx.NetworkId()), tx.EvmTx); err == nil && s == chainenv.Addrs[4] {
					n++
				}
			}
			r.txs = append(r.txs, chainenv.Tx(chainenv.TxOpt{From: 4, To: &chainenv.Addrs[5], Value: big.NewInt(1), Gas: 21000, Nonce: st.GetNonce(chainenv.Addrs[4]) + n, FromKey: chainenv.Key(id, 0), ToKey: chainenv.Key(id, 0)}))
			if rapid.Bool().Draw(rt, "fixroot") {
				r.m.TxHash = types.CalculateMerkleRoot(types.Transactions(r.txs))
			}
			return true
		}, true},
		{"seal", func(r *raw) bool { return p.pow }, true},
	}
	return l
}

// want is the difficulty rule of the generated chains.
func want(parent *types.MinorBlock, t uint64) *big.Int {
	s := int64(1) - int64((t-parent.Time())/7)
	if s < -99 {
		s = -99
	}
	d := new(big.Int).Div(parent.Difficulty(), big.NewInt(4))
	d.Mul(d, big.NewInt(s))
	d.Add(d, parent.Difficulty())
	if d.Cmp(big.NewInt(3)) < 0 {
		return big.NewInt(3)
	}
	return d
}

// required is the difficulty the seal has to meet.
func required(e *chainenv.Env, id uint32, p params, h *types.MinorBlockHeader) *big.Int {
	d := new(big.Int).Set(h.Difficulty)
	if !p.posw {
		return d
	}
	// stake of the miner in the parent's state, 1000 per block, window of 3 blocks
	m := e.Shard[id]
	st, err := m.StateAt(m.GetMinorBlock(h.ParentHash).Root())
	if err != nil {
		panic(err)
	}
	th := new(big.Int).Div(st.GetBalance(h.Coinbase.Recipient, chainenv.QKC), big.NewInt(1000))
	if th.Cmp(big.NewInt(3)) > 0 {
		th.SetInt64(3)
	}
	cnt := int64(0)
	b := m.GetMinorBlock(h.ParentHash)
	for i := 0; i < 2 && b != nil && b.NumberU64() > 0; i++ {
		if b.Coinbase().Recipient == h.Coinbase.Recipient {
			cnt++
		}
		b = m.GetMinorBlock(b.ParentHash())
	}
	if cnt < th.Int64() {
		d.Div(d, big.NewInt(4))
	}
	return d
}

func cmpReceipts(rt *rapid.T, a, b *chainenv.Env, id uint32, h common.Hash) {
	ra, rb := a.Shard[id].GetReceiptsByHash(h), b.Shard[id].GetReceiptsByHash(h)
	if len(ra) != len(rb) {
		rt.Fatalf("block %x has %d receipts here and %d there", h, len(ra), len(rb))
	}
	for i := range ra {
		ea, _ := rlp.EncodeToBytes(ra[i])
		eb, _ := rlp.EncodeToBytes(rb[i])
		if !bytes.Equal(ea, eb) || ra[i].TxHash != rb[i].TxHash || ra[i].GasUsed != rb[i].GasUsed || ra[i].ContractAddress != rb[i].ContractAddress || ra[i].ContractFullShardKey != rb[i].ContractFullShardKey {
			rt.Fatalf("receipt %d of block %x differs: %v / %v", i, h, ra[i], rb[i])
		}
	}
}

// TestBlocksTravel: blocks one node builds are taken by another and mean the
// same there; changed blocks are refused without a trace.
func TestBlocksTravel(t *testing.T) {
	vlib.Check(t, 60, 900, "a built block with transactions was taken by the other node and at least ten altered versions of it were tried", func(rt *rapid.T, c *vlib.C) {
		p := draw(rt)
		a, b := p.env(), p.env()
		defer a.Stop()
		defer b.Stop()
		g := hist.NewGen(a)
		if p.gasLimit < 400000 {
			g.MaxGas = 100000
		}
		cb := account.NewAddress(chainenv.Addrs[8], 0)
		root := func() {
			r, err := a.MineRoot(cb)
			if err != nil {
				rt.Fatalf("mining a root block: %v", err)
			}
			if err := b.AddRoot(reloadRoot(r)); err != nil {
				rt.Fatalf("the other node refuses the root block: %v", err)
			}
		}
		root()
		n := rapid.IntRange(2, 6).Draw(rt, "blocks")
		tried := 0
		for i := 0; i < n; i++ {
			id := rapid.SampledFrom(a.IDs).Draw(rt, "shard")
			g.Offer(rt, id, rapid.SampledFrom([]int{0, 1, 3, 6, 10}).Draw(rt, "ntx"), func(s string) { c.Label(s) })
			miner := account.NewAddress(chainenv.Addrs[rapid.IntRange(0, 7).Draw(rt, "miner")], chainenv.Key(id, 0))
			head := a.Shard[id].CurrentBlock()
			blk, err := a.Build(id, chainenv.MineOpt{Coinbase: miner, Time: head.Time() + rapid.SampledFrom([]uint64{1, 2, 9, 40}).Draw(rt, "dt")})
			if err != nil {
				rt.Fatalf("building a block: %v", err)
			}
			r := parts(blk)
			if p.pow {
				if w := want(head, r.h.Time); r.h.Difficulty.Cmp(w) != 0 {
					rt.Fatalf("built block has difficulty %v, the rule says %v", r.h.Difficulty, w)
				}
				// a seal that meets the reduced difficulty, and often not the full one
				need := required(a, id, p, r.h)
				for r.h.Nonce = 0; !(need.Sign() == 0 || powOK(r.h, need)); r.h.Nonce++ {
				}
			}
			good := r.block()
			before := take(b, id)
			pend := len(good.Transactions())

			// altered versions on the other node
			for _, mu := range mutants(rt, b, id, p) {
				if rapid.IntRange(0, 3).Draw(rt, "try") != 0 {
					continue
				}
				q := parts(good)
				if !mu.f(&q) {
					continue
				}
				if mu.rehash {
					q.h.MetaHash = q.m.Hash()
				}
				if p.pow {
					if q.h.Difficulty.Sign() <= 0 {
						continue
					}
					seal(q.h)
					if mu.name == "seal" {
						need := required(b, id, p, q.h)
						if need.Sign() == 0 {
							continue
						}
						for q.h.Nonce = rapid.Uint64Range(0, 1000).Draw(rt, "nonce"); powOK(q.h, need); q.h.Nonce++ {
							if need.Cmp(big.NewInt(1)) <= 0 {
								break
							}
						}
						if powOK(q.h, need) {
							continue
						}
					}
				}
				bad := q.block()
				if bad.Hash() == good.Hash() && mu.name != "swap-tx" && mu.name != "drop-tx" && mu.name != "dup-tx" && mu.name != "add-tx" && mu.name[:2] != "m-" {
					continue
				}
				tried++
				c.Label("altered %s", mu.name)
				if err := b.AddMinor(bad); err == nil {
					rt.Fatalf("a block altered in %q was accepted (%+v)", mu.name, q.h)
				}
				if d := before.diff(take(b, id)); d != "" {
					rt.Fatalf("a refused block (%q) left a trace: %s", mu.name, d)
				}
				if bad.Hash() != good.Hash() && b.Shard[id].GetMinorBlock(bad.Hash()) != nil {
					rt.Fatalf("a refused block (%q) was stored", mu.name)
				}
			}
			// a block that differs in nothing the rules fix is as good
			if rapid.IntRange(0, 3).Draw(rt, "ex") == 0 {
				q := parts(good)
				q.h.Extra = []byte("anything goes")
				if p.pow {
					seal(q.h)
				}
				good = q.block()
				c.Label("extra data")
			}
			if err := b.AddMinor(good); err != nil {
				rt.Fatalf("the other node refuses a built block with %d transactions (%+v): %v", pend, p, err)
			}
			own := reload(good)
			if err := a.AddMinor(own); err != nil {
				rt.Fatalf("the builder refuses its own block: %v", err)
			}
			sa, sb := take(a, id), take(b, id)
			if d := sa.diff(sb); d != "" {
				rt.Fatalf("the nodes disagree after the block: %s", d)
			}
			if sa.head != good.Hash() {
				rt.Fatalf("the block did not become the head")
			}
			cmpReceipts(rt, a, b, id, good.Hash())
			if len(a.Shard[id].GetReceiptsByHash(good.Hash())) < pend {
				rt.Fatalf("%d receipts for %d transactions", len(a.Shard[id].GetReceiptsByHash(good.Hash())), pend)
			}
			hist.Settle(a, id, good)
			g.Sync()
			c.Label("block txs=%d", min(pend, 4))
			if pend > 0 && tried >= 10 {
				c.NonTrivial("block %d of shard %x with %d transactions, gas %v of which cross-shard %v; params %+v", good.NumberU64(), id, pend, good.GasUsed(), good.CrossShardGasUsed(), p)
			}
			if rapid.IntRange(0, 2).Draw(rt, "root") == 0 {
				root()
			}
		}
	})
}

// TestHandMade: blocks with arbitrary transaction lists are accepted exactly
// when every transaction is admissible at its place.
func TestHandMade(t *testing.T) {
	vlib.Check(t, 150, 2500, "the hand-made block had at least two transactions and the gas limit or another admission rule decided its fate, or all were admissible", func(rt *rapid.T, c *vlib.C) {
		p := params{reward: 5, gasLimit: rapid.SampledFrom([]uint64{120000, 200000}).Draw(rt, "limit"), shards: 2}
		e := p.env()
		defer e.Stop()
		cb := account.NewAddress(chainenv.Addrs[8], 0)
		if _, err := e.MineRoot(cb); err != nil {
			rt.Fatal(err)
		}
		id, other := e.IDs[0], e.IDs[1]
		// deposits waiting for the shard use up part of the cross-shard reserve
		dep := rapid.IntRange(0, 4).Draw(rt, "deposits")
		if dep > 0 {
			for i := 0; i < dep; i++ {
				tx := chainenv.Tx(chainenv.TxOpt{From: 0, To: &chainenv.Addrs[6], Value: big.NewInt(3), Gas: 30000, Nonce: uint64(i), Price: big.NewInt(1), FromKey: chainenv.Key(other, 0), ToKey: chainenv.Key(id, 0)})
				if err := e.Shard[other].AddTx(tx); err != nil {
					rt.Fatal(err)
				}
			}
			if _, err := e.Mine(other, chainenv.MineOpt{Coinbase: account.NewAddress(chainenv.Addrs[7], chainenv.Key(other, 0))}); err != nil {
				rt.Fatal(err)
			}
			if _, err := e.MineRoot(cb); err != nil {
				rt.Fatal(err)
			}
		}
		empty, err := e.Build(id, chainenv.MineOpt{Coinbase: account.NewAddress(chainenv.Addrs[7], chainenv.Key(id, 0)), NoTx: true})
		if err != nil {
			rt.Fatal(err)
		}
		xused := empty.CrossShardGasUsed().Uint64()
		used := xused
		limit, xlimit := p.gasLimit, p.gasLimit/2
		if empty.GetXShardGasLimit().Uint64() != xlimit {
			rt.Fatalf("cross-shard gas limit is %v of %v", empty.GetXShardGasLimit(), p.gasLimit)
		}
		if xused < xlimit {
			limit -= xlimit - xused
		}
		m := e.Shard[id]
		rh := m.GetRootTip().Hash()
		bt := empty.Time()
		miner := empty.Coinbase()
		blk := m.CurrentBlock().CreateBlockToAppend(&bt, nil, &miner, nil, new(big.Int).SetUint64(p.gasLimit), new(big.Int).SetUint64(xlimit), nil, nil, &rh)

		nonce := map[int]uint64{}
		bal := map[int]*big.Int{}
		tok := map[int]*big.Int{}
		for i := 0; i < hist.Senders; i++ {
			bal[i] = chainenv.Fund()
			tok[i] = new(big.Int)
			if i < 3 {
				tok[i] = big.NewInt(1000000)
			}
		}
		ok, why := true, ""
		bad := func(format string, a ...interface{}) {
			if ok {
				ok, why = false, fmt.Sprintf(format, a...)
			}
		}
		n := rapid.IntRange(1, 7).Draw(rt, "txs")
		for i := 0; i < n; i++ {
			from := rapid.IntRange(0, hist.Senders-1).Draw(rt, "from")
			o := chainenv.TxOpt{From: from, To: &chainenv.Addrs[9], Nonce: nonce[from], Gas: rapid.SampledFrom([]uint64{21000, 21000, 25000, 40000}).Draw(rt, "gas"), Value: big.NewInt(1), Price: big.NewInt(1),
				FromKey: chainenv.Key(id, 0), ToKey: chainenv.Key(id, 0)}
			need := uint64(21000)
			cross := rapid.IntRange(0, 5).Draw(rt, "cross") == 0
			if cross {
				o.ToKey, o.Gas, need = chainenv.Key(other, 0), 30000, 30000
			}
			flaw := rapid.IntRange(0, 24).Draw(rt, "flaw")
			switch flaw {
			case 0:
				o.Nonce += rapid.SampledFrom([]uint64{1, 2, 63, 64, 65, ^uint64(0)}).Draw(rt, "gap")
				bad("nonce")
			case 1:
				o.Gas = need - 1
				bad("intrinsic gas")
			case 2:
				o.Value = chainenv.Fund()
				bad("balance")
			case 3:
				o.Token, o.Value = hist.TokA, new(big.Int).Add(tok[from], big.NewInt(1))
				bad("token balance")
			case 4:
				o.Network = chainenv.NetworkID + 1
				bad("network")
			case 5:
				o.FromKey = chainenv.Key(other, 0)
				bad("from another shard")
			case 6:
				o.ToKey = 0x00070000
				bad("unknown chain")
			case 7:
				if cross {
					o.Gas = xlimit + 1
					bad("cross-shard gas")
				}
			case 8:
				o.GasToken = hist.TokA
				bad("gas token")
			case 9:
				if tok[from].Sign() > 0 {
					o.Token, o.Value = hist.TokA, new(big.Int).Set(tok[from])
					tok[from] = new(big.Int)
				}
			}
			tx := chainenv.Tx(o)
			if used+o.Gas > limit {
				bad("gas: %d used, %d asked, limit %d (deposits used %d)", used, o.Gas, limit, xused)
			}
			used += 21000
			nonce[from]++
			blk.AddTx(tx)
		}
		before := take(e, id)
		_, _, err = m.FinalizeAndAddBlock(blk)
		if ok && err != nil {
			rt.Fatalf("a block of %d admissible transactions was refused: %v", n, err)
		}
		if !ok && err == nil {
			rt.Fatalf("a block with an inadmissible transaction was accepted: %s", why)
		}
		if err != nil {
			if d := before.diff(take(e, id)); d != "" {
				rt.Fatalf("a refused block left a trace: %s", d)
			}
		}
		if ok {
			c.Label("accepted")
			if g := m.CurrentBlock().GasUsed().Uint64(); g != used {
				rt.Fatalf("block used %d gas, expected %d", g, used)
			}
		} else {
			c.Label("refused %s", why[:4])
		}
		if n >= 2 {
			c.NonTrivial("%d transactions, %d deposits, accepted=%v %s", n, dep, ok, why)
		}
	})
}
