// Package c14: difficulty and stake discounts follow the published formulas.
// The calculator, the sliding window over random block trees and the boost
// schedule are compared with models; then shards and root chains with staked
// work mine generated histories, and the required work, the acceptance of seals
// between the two targets and the lock on stakes are predicted.
package c14

import (
	"fmt"
	"math/big"
	"testing"
	"time"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/config"
	"github.com/QuarkChain/goquarkchain/consensus"
	"github.com/QuarkChain/goquarkchain/consensus/doublesha256"
	"github.com/QuarkChain/goquarkchain/consensus/posw"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/zzverif/chainenv"
	"github.com/QuarkChain/goquarkchain/zzverif/evmgen"
	"github.com/QuarkChain/goquarkchain/zzverif/hist"
	"github.com/QuarkChain/goquarkchain/zzverif/vlib"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	"pgregory.net/rapid"
)

func pick(rt *rapid.T, n string, v ...int) uint64 {
	return uint64(rapid.SampledFrom(v).Draw(rt, n))
}

// TestDifficulty compares the calculator with the documented formula.
func TestDifficulty(t *testing.T) {
	vlib.Check(t, 4000, 100000, "the result is not just the minimum", func(rt *rapid.T, c *vlib.C) {
		cut, factor := pick(rt, "cutoff", 1, 2, 7, 40, 150, 1<<31), pick(rt, "factor", 1, 2, 1024, 2048, 1<<31)
		min := new(big.Int).SetUint64(pick(rt, "min", 0, 1, 3, 1000, 1000000))
		d := evmgen.Val(rt, "parent")
		pt := pick(rt, "ptime", 0, 1, 1000, 1<<40)
		dt := rapid.SampledFrom([]int64{-1, 0, 1, 2, 5, 6, 7, 39, 40, 41, 80, 140, 149, 150, 151, 299, 300, 100 * 7, 101 * 7, 4000, 4040, 4080, 15000, 15150, 1 << 40, 1 << 62}).Draw(rt, "dt")
		if rapid.Bool().Draw(rt, "edge") {
			dt = int64(cut)*int64(pick(rt, "mult", 0, 1, 2, 3, 50, 98, 99, 100, 101, 102)) + int64(rapid.SampledFrom([]int{-1, 0, 1}).Draw(rt, "by"))
		}
		if pt == 0 && dt < 0 {
			dt = 0
		}
		calc := &consensus.EthDifficultyCalculator{AdjustmentCutoff: uint32(cut), AdjustmentFactor: uint32(factor), MinimumDifficulty: new(big.Int).Set(min)}
		var parent types.IBlock
		if rapid.Bool().Draw(rt, "root") {
			parent = types.NewRootBlockWithHeader(&types.RootBlockHeader{Time: pt, Difficulty: d})
		} else {
			parent = types.NewMinorBlockWithHeader(&types.MinorBlockHeader{Time: pt, Difficulty: d}, &types.MinorBlockMeta{})
		}
		for i := 0; i < 2; i++ { // a second time: no call may change what the next one sees
			got, err := calc.CalculateDifficulty(parent, uint64(int64(pt)+dt))
			if dt < 0 {
				if err == nil {
					rt.Fatalf("a block before its parent got difficulty %v", got)
				}
				c.Label("before the parent")
				return
			}
			if err != nil {
				rt.Fatalf("parent %v at %d, %d later: %v", d, pt, dt, err)
			}
			q := dt / int64(cut)
			if q > 100 {
				q = 100
			}
			want := new(big.Int).Div(d, new(big.Int).SetUint64(factor))
			want.Mul(want, big.NewInt(1-q)).Add(want, d)
			if want.Cmp(min) <= 0 {
				want.Set(min)
				c.Label("minimum")
			} else {
				c.NonTrivial("%v %d %d %d %v", d, cut, factor, dt, min)
			}
			if got.Cmp(want) != 0 {
				rt.Fatalf("parent %v, %d s later, cutoff %d, factor %d, minimum %v: %v, expected %v (call %d)", d, dt, cut, factor, min, got, want, i)
			}
			c.Sample("parent %v, %d s later, cutoff %d, factor %d, minimum %v: %v", d, dt, cut, factor, min, got)
		}
		if parent.Difficulty().Cmp(d) != 0 || calc.MinimumDifficulty.Cmp(min) != 0 {
			rt.Fatalf("the calculation changed its inputs")
		}
	})
}

type node struct {
	b      *types.MinorBlock
	parent *node
	height int
	cb     int
}

type tree map[common.Hash]*types.MinorBlock

func (x tree) GetBlock(h common.Hash) types.IBlock {
	if b, ok := x[h]; ok {
		return b
	}
	return nil
}

func who(i int) account.Recipient { return common.BytesToAddress([]byte{0xab, byte(i)}) }

func divider(c *config.POSWConfig, t uint64) uint64 {
	d := c.DiffDivider
	if c.BoostTimestamp == 0 || t < c.BoostTimestamp {
		return d
	}
	steps := (t-c.BoostTimestamp)/c.BoostStepInterval + 1
	if steps > c.BoostSteps {
		steps = c.BoostSteps
	}
	for ; steps > 0; steps-- {
		d *= c.BoostMultiplierPerStep
	}
	return d
}

func drawPosw(rt *rapid.T) *config.POSWConfig {
	return &config.POSWConfig{
		Enabled:                true,
		EnableTimestamp:        pick(rt, "enable", 0, 0, 0, 110),
		DiffDivider:            pick(rt, "divider", 1, 2, 20, 1000),
		WindowSize:             pick(rt, "window", 1, 2, 2, 3, 4, 6, 10),
		TotalStakePerBlock:     new(big.Int).SetUint64(pick(rt, "stakePerBlock", 1, 10, 1000, 1000)),
		BoostTimestamp:         pick(rt, "boost", 0, 0, 105, 120),
		BoostMultiplierPerStep: pick(rt, "boostMul", 1, 2, 3),
		BoostSteps:             pick(rt, "boostSteps", 1, 3, 10),
		BoostStepInterval:      pick(rt, "boostEvery", 1, 5, 30),
	}
}

// TestWindow asks the calculator about blocks anywhere in a random tree, in any
// order, so that every answer may come from the database or from its cache.
func TestWindow(t *testing.T) {
	vlib.Check(t, 2500, 60000, "a question about a window in which the miner already mined", func(rt *rapid.T, c *vlib.C) {
		cfg := drawPosw(rt)
		tr := tree{}
		var nodes []*node
		for i, n := 0, rapid.IntRange(1, 30).Draw(rt, "blocks"); i < n; i++ {
			x := &node{cb: int(pick(rt, "miner", 0, 0, 1, 1, 2))}
			h := &types.MinorBlockHeader{Coinbase: account.Address{Recipient: who(x.cb)}, Time: 100 + uint64(i), Difficulty: big.NewInt(1000000), Extra: []byte{byte(i)}}
			if i > 0 {
				k := len(nodes) - 1
				if pick(rt, "fork", 0, 0, 0, 0, 1) == 1 {
					k = rapid.IntRange(0, k).Draw(rt, "parent")
				}
				x.parent = nodes[k]
				x.height = x.parent.height + 1
				h.ParentHash = x.parent.b.Hash()
				h.Number = uint64(x.height)
			}
			x.b = types.NewMinorBlockWithHeader(h, &types.MinorBlockMeta{})
			tr[x.b.Hash()] = x.b
			nodes = append(nodes, x)
		}
		p := posw.NewPoSW(tr, cfg)
		count := func(x *node) map[int]uint64 { // the last window-1 blocks up to x
			m := map[int]uint64{}
			for i := uint64(1); i < cfg.WindowSize && x != nil; i++ {
				m[x.cb]++
				x = x.parent
			}
			return m
		}
		nontrivial := false
		what := ""
		for q := rapid.IntRange(1, 25).Draw(rt, "questions"); q > 0; q-- {
			x := nodes[rapid.IntRange(0, len(nodes)-1).Draw(rt, "at")]
			m := int(pick(rt, "who", 0, 1, 2, 3))
			cnt := count(x)
			if cnt[m] > 0 {
				nontrivial = true
			}
			time := 100 + pick(rt, "time", 0, 1, 4, 5, 9, 10, 15, 20, 25, 35, 40, 100, 1000)
			diff := big.NewInt(int64(pick(rt, "diff", 1, 19, 20, 1000, 1<<40)))
			hdr := &types.MinorBlockHeader{ParentHash: x.b.Hash(), Number: uint64(x.height + 1), Coinbase: account.Address{Recipient: who(m)}, Time: time, Difficulty: new(big.Int).Set(diff)}
			// stakes around what the count needs
			per := cfg.TotalStakePerBlock
			stakes := new(big.Int).Mul(per, big.NewInt(int64(cnt[m])+int64(rapid.SampledFrom([]int{-1, 0, 1, 1, 2}).Draw(rt, "blocks"))))
			switch rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3, 4}).Draw(rt, "stakeKind") {
			case 1:
				stakes.Sub(stakes, big.NewInt(1))
			case 2:
				stakes.Mul(per, new(big.Int).Lsh(big.NewInt(1), 64)) // far more than any window needs
			case 3:
				stakes.Mul(per, new(big.Int).SetUint64(cfg.WindowSize))
			case 4:
				stakes = nil
			}
			if stakes != nil && stakes.Sign() < 0 {
				stakes.SetInt64(0)
			}
			threshold := new(big.Int)
			if stakes != nil {
				threshold.Div(stakes, per)
				if w := new(big.Int).SetUint64(cfg.WindowSize); threshold.Cmp(w) > 0 {
					threshold.Set(w)
				}
			}
			reduced := new(big.Int).Div(diff, new(big.Int).SetUint64(divider(cfg, time)))
			switch rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(rt, "question") {
			case 0:
				got, err := p.PoSWDiffAdjust(hdr, stakes, *per)
				if err != nil {
					rt.Fatalf("PoSWDiffAdjust: %v", err)
				}
				want := diff
				if cnt[m] < threshold.Uint64() {
					want = reduced
					c.Label("discount")
				} else {
					c.Label("no discount")
				}
				if got.Cmp(want) != 0 {
					rt.Fatalf("height %d, miner %d has %d of the last %d blocks and stake %v of %v per block: difficulty %v, expected %v (of %v at %d, %+v)", x.height+1, m, cnt[m], cfg.WindowSize-1, stakes, per, got, want, diff, time, cfg)
				}
				what += fmt.Sprintf("count %d threshold %v: %v of %v; ", cnt[m], threshold, got, diff)
			case 1:
				var extra *account.Recipient
				if rapid.Bool().Draw(rt, "extra") {
					a := who(m)
					extra = &a
					cnt[m]++
				}
				got, err := p.BuildSenderDisallowMap(x.b.Hash(), extra)
				if err != nil {
					rt.Fatalf("BuildSenderDisallowMap: %v", err)
				}
				n := 0
				for k, v := range cnt {
					if v == 0 {
						continue
					}
					n++
					if w := new(big.Int).Mul(per, new(big.Int).SetUint64(v)); got[who(k)] == nil || got[who(k)].Cmp(w) != 0 {
						rt.Fatalf("locked for miner %d: %v, expected %v", k, got[who(k)], w)
					}
				}
				if len(got) != n {
					rt.Fatalf("%d accounts locked, expected %d", len(got), n)
				}
				c.Label("disallow map")
			case 2:
				h := x.b.Header()
				eff, mineable, mined, err := p.GetPoSWInfo(h, stakes, who(m), *per)
				if err != nil || mined != cnt[m] {
					rt.Fatalf("GetPoSWInfo at %d: mined %d, expected %d (%v)", x.height, mined, cnt[m], err)
				}
				want, wantN := h.Difficulty, uint64(0)
				if stakes != nil && x.height > 0 && h.Time >= cfg.EnableTimestamp {
					wantN = threshold.Uint64()
					if cnt[m] < wantN {
						want = new(big.Int).Div(h.Difficulty, new(big.Int).SetUint64(divider(cfg, h.Time)))
					}
				}
				if mineable != wantN || eff.Cmp(want) != 0 {
					rt.Fatalf("GetPoSWInfo at %d: mineable %d effective %v, expected %d %v", x.height, mineable, eff, wantN, want)
				}
				c.Label("info")
			}
			if hdr.Difficulty.Cmp(diff) != 0 {
				rt.Fatalf("the header's difficulty was changed")
			}
		}
		if nontrivial {
			c.NonTrivial("%v %s", cfg, what)
		}
		c.Sample("window %d: %s", cfg.WindowSize, what)
	})
}

// TestShard mines histories on a shard with staked work.
func TestShard(t *testing.T) {
	vlib.Check(t, 40, 800, "a miner with recent blocks tried to spend, and at least one block got the discount", func(rt *rapid.T, c *vlib.C) {
		window := pick(rt, "window", 2, 3, 4, 5)
		div := pick(rt, "divider", 4, 20)
		per := big.NewInt(int64(pick(rt, "stake", 1000, 1000, 50000)))
		decay := rapid.Bool().Draw(rt, "decay")
		epoch := pick(rt, "epoch", 2, 4, 100)
		alloc := map[common.Address]map[string]*big.Int{}
		for i := 0; i < 4; i++ {
			amt := new(big.Int).Mul(per, big.NewInt(int64(pick(rt, "blocks", 0, 1, 2, 3, 8))))
			amt.Add(amt, big.NewInt(int64(pick(rt, "more", 0, 1, 500))))
			alloc[chainenv.Addrs[i]] = map[string]*big.Int{"QKC": amt}
		}
		boostAt := pick(rt, "boostAfter", 0, 0, 3)
		enableAfter := pick(rt, "enableAfter", 0, 0, 3)
		diff := big.NewInt(400)
		var start uint64
		opt := chainenv.Opt{ChainSize: 1, ShardSize: 1, Alloc: alloc, Mutate: func(cc *config.ClusterConfig) {
			q := cc.Quarkchain
			q.DisablePowCheck = false
			for _, id := range q.GetGenesisShardIds() {
				sc := q.GetShardConfigByFullShardID(id)
				sc.CoinbaseAmount = big.NewInt(10)
				sc.EpochInterval = epoch
				p := sc.PoswConfig
				p.Enabled, p.WindowSize, p.DiffDivider, p.TotalStakePerBlock = true, window, div, new(big.Int).Set(per)
				p.BoostMultiplierPerStep, p.BoostSteps, p.BoostStepInterval = 2, 2, 4
				start = sc.Genesis.Timestamp
				if boostAt > 0 {
					p.BoostTimestamp = start + boostAt
				}
				if enableAfter > 0 {
					p.EnableTimestamp = start + enableAfter
				}
				sc.Genesis.Difficulty = diff.Uint64()
			}
			q.BlockRewardDecayFactor = big.NewRat(1, 2)
			q.LocalFeeRate = big.NewRat(1, 1)
			if decay {
				q.EnablePoswStakingDecayTimestamp = start + 2
			}
			q.SkipMinorDifficultyCheck = false
		}, Engine: func(id uint32, cc *config.ClusterConfig) consensus.Engine {
			if id == 0 {
				return consensus.NewFakeEngine(&consensus.EthDifficultyCalculator{MinimumDifficulty: big.NewInt(1), AdjustmentCutoff: 10, AdjustmentFactor: 10})
			}
			// the difficulty never changes: offset is d/1000 = 0
			return doublesha256.New(&consensus.EthDifficultyCalculator{MinimumDifficulty: big.NewInt(1), AdjustmentCutoff: 10, AdjustmentFactor: 1000}, false, []byte{})
		}}
		e := chainenv.New(opt)
		defer e.Stop()
		id := e.IDs[0]
		m := e.Shard[id]
		pcfg := e.Cfg.Quarkchain.GetShardConfigByFullShardID(id).PoswConfig
		// the model: balances, nonces and miners per block
		bal := map[common.Address]*big.Int{}
		for a, b := range alloc {
			bal[a] = new(big.Int).Set(b["QKC"])
		}
		nonce := map[common.Address]uint64{}
		miners := []common.Address{m.CurrentBlock().Coinbase().Recipient}
		reward := func(h uint64) *big.Int { return new(big.Int).Rsh(big.NewInt(10), uint(h/epoch)) }
		perAt := func(h, t uint64) *big.Int {
			if !decay || t < start+2 {
				return per
			}
			return new(big.Int).Rsh(per, uint(h/epoch))
		}
		spent, discounts, what := false, 0, ""
		for n := rapid.IntRange(3, 8).Draw(rt, "blocks"); n > 0; n-- {
			h := uint64(len(miners))
			miner := chainenv.Addrs[pick(rt, "miner", 0, 0, 0, 1, 1, 2)]
			recent := map[common.Address]uint64{}
			for i := uint64(1); i < window && i <= h; i++ {
				recent[miners[h-i]]++
			}
			time := m.CurrentBlock().Time() + 1
			if rtm := m.GetRootTip().Time(); rtm > time {
				time = rtm
			}
			// offer transactions of the miners
			type offer struct {
				from  int
				value *big.Int
				kind  int
			}
			var offers []offer
			locked := map[common.Address]*big.Int{}
			lk := func(a common.Address) *big.Int {
				r := recent[a]
				if a == miner {
					r++
				}
				return new(big.Int).Mul(per, new(big.Int).SetUint64(r))
			}
			for i := 0; i < 4; i++ {
				locked[chainenv.Addrs[i]] = lk(chainenv.Addrs[i])
			}
			next := map[common.Address]*big.Int{}
			for a, b := range bal {
				next[a] = new(big.Int).Set(b)
			}
			for i := 0; i < 3; i++ {
				if pick(rt, "send", 0, 1, 1) == 0 {
					continue
				}
				a := chainenv.Addrs[i]
				// around what is free
				free := new(big.Int).Sub(bal[a], locked[a])
				v := new(big.Int).Add(free, big.NewInt(int64(rapid.SampledFrom([]int{-1, 0, 0, 1, 1, -7}).Draw(rt, "by"))))
				switch rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(rt, "amount") {
				case 1:
					v = new(big.Int)
				case 2:
					v = new(big.Int).Set(bal[a])
				}
				if v.Sign() < 0 {
					v = new(big.Int)
				}
				if v.Cmp(bal[a]) > 0 {
					v.Set(bal[a])
				}
				o := offer{i, v, int(pick(rt, "kind", 0, 0, 1))}
				var to *common.Address
				var data []byte
				gas := uint64(21000)
				if o.kind == 0 {
					x := common.HexToAddress("feed")
					to = &x
				} else {
					data, gas = []byte{0}, 60000 // creates an empty contract
				}
				tx := chainenv.Tx(chainenv.TxOpt{From: i, To: to, Nonce: nonce[a], Value: v, Gas: gas, FromKey: 0, ToKey: 0, Data: data})
				var err error
				for try := 0; try < 1000; try++ { // the pool follows the head with a delay
					if err = m.AddTx(tx); err == nil {
						break
					}
					pause()
				}
				if err != nil {
					rt.Fatalf("the pool refused a transfer of %v by %x holding %v: %v", v, a, bal[a], err)
				}
				offers = append(offers, o)
			}
			b, err := e.Build(id, chainenv.MineOpt{Time: time, Coinbase: account.Address{Recipient: miner, FullShardKey: 0}})
			if err != nil {
				rt.Fatalf("build: %v", err)
			}
			if b.Difficulty().Cmp(diff) != 0 {
				rt.Fatalf("difficulty %v, expected %v", b.Difficulty(), diff)
			}
			if len(b.Transactions()) != len(offers) {
				rt.Fatalf("%d of %d transactions taken", len(b.Transactions()), len(offers))
			}
			// the work required of this block
			want := diff
			th := new(big.Int)
			if on := h > 0 && time >= pcfg.EnableTimestamp; on {
				if pa := perAt(h, time); pa.Sign() == 0 {
					th.SetUint64(window)
				} else if th.Div(balOf(bal, miner), pa); th.Cmp(new(big.Int).SetUint64(window)) > 0 {
					th.SetUint64(window)
				}
				if recent[miner] < th.Uint64() {
					want = new(big.Int).Div(diff, new(big.Int).SetUint64(divider(pcfg, time)))
					discounts++
				}
			}
			got, dv, err := m.GetAdjustedDifficulty(b.Header())
			if err != nil || dv != 1 || got.Cmp(want) != 0 {
				rt.Fatalf("block %d at %d by a miner with %d recent blocks and %v staked (%v per block): required work %v/%d (%v), expected %v", h, time, recent[miner], balOf(bal, miner), perAt(h, time), got, dv, err, want)
			}
			// a seal between the two targets is accepted exactly with the discount
			low := new(big.Int).Div(diff, new(big.Int).SetUint64(divider(pcfg, time)))
			if b2 := sealBetween(b, low, diff); b2 != nil && pick(rt, "between", 0, 1) == 1 {
				err := m.Validator().ValidateBlock(b2, false)
				if (err == nil) != (want.Cmp(diff) < 0) {
					rt.Fatalf("block %d with work between %v and %v, required %v: %v", h, low, diff, want, err)
				}
				c.Label("seal between targets, discount %v", want.Cmp(diff) < 0)
			}
			b = seal(b, want)
			if err := e.AddMinor(b); err != nil {
				rt.Fatalf("a block with the required work %v is refused: %v", want, err)
			}
			hist.Settle(e, id, b)
			recs := m.GetReceiptsByHash(b.Hash())
			for i, o := range offers {
				// find the transaction's position
				k := -1
				for j, tx := range b.Transactions() {
					if f, _ := tx.Sender(types.MakeSigner(chainenv.NetworkID)); f == chainenv.Addrs[o.from] {
						k = j
					}
				}
				a := chainenv.Addrs[o.from]
				refuse := false
				if l := locked[a]; l.Sign() > 0 {
					spent = true
					refuse = new(big.Int).Add(o.value, l).Cmp(bal[a]) > 0
				}
				if (recs[k].Status == 0) != refuse {
					rt.Fatalf("block %d, transaction %d: %x holds %v of which %v is locked and sends %v (kind %d): status %d", h, i, a, bal[a], locked[a], o.value, o.kind, recs[k].Status)
				}
				if refuse {
					c.Label("locked stake refused")
				} else {
					next[a].Sub(next[a], o.value)
					c.Label("spent %v locked %v", o.value.Sign() > 0, locked[a].Sign() > 0)
				}
				nonce[a]++
			}
			if next[miner] == nil {
				next[miner] = new(big.Int)
			}
			next[miner].Add(next[miner], reward(h))
			bal = next
			st := e.State(id)
			for a, v := range bal {
				if st.GetBalance(a, chainenv.QKC).Cmp(v) != 0 {
					rt.Fatalf("block %d: %x holds %v, expected %v", h, a, st.GetBalance(a, chainenv.QKC), v)
				}
			}
			miners = append(miners, miner)
			what += fmt.Sprintf("%x recent %d threshold %v work %v txs %d; ", miner[:2], recent[miner], th, want, len(offers))
			if rapid.IntRange(0, 3).Draw(rt, "root") == 0 {
				if _, err := e.MineRoot(account.Address{}); err != nil {
					rt.Fatalf("root: %v", err)
				}
			}
		}
		if spent && discounts > 0 {
			c.NonTrivial("%s", what)
		}
		c.Sample("window %d, %v per block: %s", window, per, what)
	})
}

func balOf(m map[common.Address]*big.Int, a common.Address) *big.Int {
	if m[a] == nil {
		return new(big.Int)
	}
	return m[a]
}

func work(b *types.MinorBlock, nonce uint64) *big.Int {
	h := b.Header().SealHash()
	d := make([]byte, 40)
	copy(d, h[:])
	for i := 0; i < 8; i++ {
		d[32+i] = byte(nonce >> (56 - 8*uint(i)))
	}
	return new(big.Int).SetBytes(dsha(d))
}

func target(d *big.Int) *big.Int {
	return new(big.Int).Div(new(big.Int).Lsh(big.NewInt(1), 256), d)
}

func seal(b *types.MinorBlock, d *big.Int) *types.MinorBlock {
	t := target(d)
	for n := uint64(0); ; n++ {
		if work(b, n).Cmp(t) <= 0 {
			return b.WithMingResult(n, common.Hash{}, nil).(*types.MinorBlock)
		}
	}
}

// sealBetween finds work that meets low but not high.
func sealBetween(b *types.MinorBlock, low, high *big.Int) *types.MinorBlock {
	tl, th := target(low), target(high)
	for n := uint64(0); n < 20000; n++ {
		if w := work(b, n); w.Cmp(tl) <= 0 && w.Cmp(th) > 0 {
			return b.WithMingResult(n, common.Hash{}, nil).(*types.MinorBlock)
		}
	}
	return nil
}

// TestRoot asks a root chain for the work required of root blocks: the guardian
// key, stakes signed for by their signer, and neither.
func TestRoot(t *testing.T) {
	vlib.Check(t, 60, 1500, "a block whose miner has stakes and a valid signature", func(rt *rapid.T, c *vlib.C) {
		guardian, _ := crypto.ToECDSA(common.LeftPadBytes([]byte{9}, 32))
		cfg := drawPosw(rt)
		cfg.EnableTimestamp, cfg.BoostTimestamp = 0, 0
		var start uint64
		e := chainenv.New(chainenv.Opt{ChainSize: 1, ShardSize: 1, Mutate: func(cc *config.ClusterConfig) {
			start = cc.Quarkchain.Root.Genesis.Timestamp
			cfg.EnableTimestamp = start + pick(rt, "enableAfter", 0, 0, 4)
			if pick(rt, "boosted", 0, 1) == 1 {
				cfg.BoostTimestamp = start + pick(rt, "boostAfter", 1, 5, 20)
			}
			cc.Quarkchain.Root.PoSWConfig = cfg
			cc.Quarkchain.GuardianPublicKey = crypto.FromECDSAPub(&guardian.PublicKey)
		}})
		defer e.Stop()
		stake := map[account.Recipient]*big.Int{}
		signer := map[account.Recipient]account.Recipient{}
		e.Root.SetRootChainStakesFunc(func(a account.Address, last common.Hash) (*big.Int, *account.Recipient, error) {
			if last != e.Shard[e.IDs[0]].GetMinorTip().Hash() {
				return nil, nil, fmt.Errorf("asked at %x", last)
			}
			s, ok := stake[a.Recipient]
			if !ok {
				return nil, nil, fmt.Errorf("no stakes")
			}
			sg := signer[a.Recipient]
			return s, &sg, nil
		})
		var miners []account.Recipient
		miners = append(miners, e.Root.CurrentBlock().Coinbase().Recipient)
		nontrivial, what := false, ""
		for n := rapid.IntRange(1, 6).Draw(rt, "blocks"); n > 0; n-- {
			mi := int(pick(rt, "miner", 1, 1, 2))
			me := who(mi)
			cnt := uint64(0)
			for i := uint64(1); i < cfg.WindowSize && i <= uint64(len(miners)); i++ {
				if miners[uint64(len(miners))-i] == me {
					cnt++
				}
			}
			rb, err := e.BuildRoot(e.Unconfirmed(), account.Address{Recipient: me}, 0)
			if err != nil {
				rt.Fatalf("build: %v", err)
			}
			h := rb.Header()
			h.Difficulty = big.NewInt(int64(pick(rt, "diff", 1000, 123456, 999, 1000000000)))
			h.Time += pick(rt, "later", 0, 0, 1, 3, 10)
			keyIdx := int(pick(rt, "signer", 3, 4))
			hasStake := pick(rt, "hasStake", 1, 1, 1, 0) == 1
			delete(stake, me)
			per := cfg.TotalStakePerBlock
			if hasStake {
				k := int64(cnt) + int64(rapid.SampledFrom([]int{-1, 0, 1, 1, 2}).Draw(rt, "k"))
				if k < 0 {
					k = 0
				}
				stake[me] = new(big.Int).Mul(per, big.NewInt(k))
				signer[me] = chainenv.Addrs[3]
				if pick(rt, "unlocked", 0, 0, 0, 1) == 1 {
					signer[me] = account.Recipient{}
				}
			}
			sigKind := pick(rt, "sig", 0, 1, 1, 1, 2, 3)
			switch sigKind {
			case 1: // by an account
				s, _ := crypto.Sign(h.SealHash().Bytes(), chainenv.Keys[keyIdx])
				copy(h.Signature[:], s)
			case 2: // by the guardian
				s, _ := crypto.Sign(h.SealHash().Bytes(), guardian)
				copy(h.Signature[:], s)
			case 3: // by the guardian, for another block
				s, _ := crypto.Sign(common.Hash{1}.Bytes(), guardian)
				copy(h.Signature[:], s)
			}
			check := func(name string, got *big.Int, dv uint64, err error, needSig bool) {
				want := new(big.Int).Set(h.Difficulty)
				confirmed := len(miners) > 1 // the first root block confirms the shard's genesis
				switch {
				case sigKind == 2:
					want.Div(want, big.NewInt(1000))
				case h.Time >= cfg.EnableTimestamp && confirmed && hasStake:
					ok := !needSig || sigKind == 1 && keyIdx == 3 && signer[me] == chainenv.Addrs[3]
					th := new(big.Int).Div(stake[me], per)
					if w := new(big.Int).SetUint64(cfg.WindowSize); th.Cmp(w) > 0 {
						th = w
					}
					if ok && cnt < th.Uint64() {
						want.Div(want, new(big.Int).SetUint64(divider(cfg, h.Time)))
						c.Label("%s: discount", name)
					} else {
						c.Label("%s: none, signature ok %v", name, ok)
					}
					if ok && sigKind == 1 {
						nontrivial = true
					}
				}
				if err != nil || dv == 0 || new(big.Int).Div(got, new(big.Int).SetUint64(dv)).Cmp(want) != 0 {
					rt.Fatalf("%s: block %d at %d, miner has %d of the last %d and stake %v (%v per block), signature kind %d by key %d, signer %x: work %v/%d (%v), expected %v of %v (%+v)", name, h.Number, h.Time, cnt, cfg.WindowSize-1, stake[me], per, sigKind, keyIdx, signer[me], got, dv, err, want, h.Difficulty, cfg)
				}
				what += fmt.Sprintf("%s count %d work %v of %v; ", name, cnt, want, h.Difficulty)
			}
			got, dv, err := e.Root.GetAdjustedDifficulty(h)
			check("verify", got, dv, err, true)
			got, dv, err = e.Root.GetAdjustedDifficultyToMine(h)
			check("mine", got, dv, err, false)
			if err := e.AddRoot(rb); err != nil {
				rt.Fatalf("root block: %v", err)
			}
			miners = append(miners, me)
		}
		if nontrivial {
			c.NonTrivial("%s", what)
		}
		c.Sample("window %d: %s", cfg.WindowSize, what)
	})
}

func pause() { time.Sleep(time.Millisecond) }
