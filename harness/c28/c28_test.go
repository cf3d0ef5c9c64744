// Package c28: mining rewards and fees are issued exactly by schedule. Chains
// with generated reward schedules (amount, decay, epoch length, tax) are run and
// every block's claim, every miner's balance and every root block's claim is
// recomputed in rational arithmetic from the transactions alone.
package c28

import (
	"fmt"
	"math/big"
	"sync"
	"testing"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/config"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/zzverif/chainenv"
	"github.com/QuarkChain/goquarkchain/zzverif/hist"
	"github.com/QuarkChain/goquarkchain/zzverif/vlib"
	"github.com/ethereum/go-ethereum/common"
	"pgregory.net/rapid"
)

func pick[T any](rt *rapid.T, n string, v ...T) T { return rapid.SampledFrom(v).Draw(rt, n) }

func floor(r *big.Rat) *big.Int {
	q, m := new(big.Int).DivMod(r.Num(), r.Denom(), new(big.Int))
	_ = m
	return q
}

func times(x *big.Int, r *big.Rat) *big.Int {
	return floor(new(big.Rat).Mul(new(big.Rat).SetInt(x), r))
}

// schedule is what a configuration promises.
type schedule struct {
	local, tax, decay *big.Rat
	minor             map[uint32]*big.Int
	minorEpoch        map[uint32]uint64
	stake             map[uint32]*big.Int
	root              *big.Int
	rootEpoch         uint64
}

func pow(r *big.Rat, n uint64) *big.Rat {
	out := big.NewRat(1, 1)
	for ; n > 0; n-- {
		out.Mul(out, r)
	}
	return out
}

// reward of a minor block before fees.
func (s *schedule) reward(id uint32, height uint64) *big.Int {
	return times(times(s.minor[id], s.local), pow(s.decay, height/s.minorEpoch[id]))
}

// claim of a root block over minor blocks' claims.
func (s *schedule) rootClaim(height uint64, claims []map[uint64]*big.Int) map[uint64]*big.Int {
	sum := map[uint64]*big.Int{}
	for _, m := range claims {
		for k, v := range m {
			if sum[k] == nil {
				sum[k] = new(big.Int)
			}
			sum[k].Add(sum[k], v)
		}
	}
	share := new(big.Rat).Quo(s.tax, s.local)
	for k := range sum {
		sum[k] = times(sum[k], share)
	}
	if sum[chainenv.QKC] == nil {
		sum[chainenv.QKC] = new(big.Int)
	}
	sum[chainenv.QKC].Add(sum[chainenv.QKC], times(s.root, pow(s.decay, height/s.rootEpoch)))
	return sum
}

func amount(rt *rapid.T, n string) *big.Int {
	x := big.NewInt(pick(rt, n, int64(0), 1, 2, 999, 1000003, 1000000000000000007))
	if pick(rt, n+" scale", 0, 0, 1) == 1 {
		x.Mul(x, big.NewInt(6500000000000000000))
	}
	return x
}

func draw(rt *rapid.T, opt *chainenv.Opt) *schedule {
	s := &schedule{minor: map[uint32]*big.Int{}, minorEpoch: map[uint32]uint64{}, stake: map[uint32]*big.Int{}}
	s.tax = pick(rt, "tax", big.NewRat(1, 2), big.NewRat(1, 2), big.NewRat(0, 1), big.NewRat(1, 3), big.NewRat(290, 1000), big.NewRat(999, 1000))
	s.local = new(big.Rat).Sub(big.NewRat(1, 1), s.tax)
	s.decay = pick(rt, "decay", big.NewRat(88, 100), big.NewRat(1, 2), big.NewRat(1, 1), big.NewRat(2, 3), big.NewRat(999, 1000), big.NewRat(0, 1), big.NewRat(11, 10))
	s.root = amount(rt, "root reward")
	s.rootEpoch = pick(rt, "root epoch", uint64(1), 2, 3, 7)
	opt.Mutate = func(cc *config.ClusterConfig) {
		q := cc.Quarkchain
		q.RewardTaxRate = new(big.Rat).Set(s.tax)
		q.LocalFeeRate = new(big.Rat).Set(s.local)
		q.RewardCalculateRate = new(big.Rat).Quo(s.tax, s.local)
		q.BlockRewardDecayFactor = new(big.Rat).Set(s.decay)
		q.Root.CoinbaseAmount = new(big.Int).Set(s.root)
		q.Root.EpochInterval = s.rootEpoch
		q.EnablePoswStakingDecayTimestamp = 1000
		for _, id := range q.GetGenesisShardIds() {
			sc := q.GetShardConfigByFullShardID(id)
			s.minor[id], s.minorEpoch[id], s.stake[id] = amount(rt, "reward"), pick(rt, "epoch", uint64(1), 2, 3, 5, 100), amount(rt, "stake")
			sc.CoinbaseAmount = new(big.Int).Set(s.minor[id])
			sc.EpochInterval = s.minorEpoch[id]
			sc.PoswConfig.TotalStakePerBlock = new(big.Int).Set(s.stake[id])
		}
	}
	return s
}

func miner(n int) account.Address {
	return account.Address{Recipient: common.BigToAddress(big.NewInt(int64(0x7000000 + n)))}
}

// TestRewards runs clusters under generated schedules.
func TestRewards(t *testing.T) {
	vlib.Check(t, 60, 1200, "blocks of three epochs, fees of transactions and of incoming deposits, and a taxed root block", func(rt *rapid.T, c *vlib.C) {
		shape := pick(rt, "shape", [2]uint32{1, 1}, [2]uint32{1, 2}, [2]uint32{2, 1})
		opt := hist.Opt(shape[0], shape[1])
		s := draw(rt, &opt)
		e := chainenv.New(opt)
		defer e.Stop()
		claims := map[common.Hash]map[uint64]*big.Int{}
		price := map[common.Hash]*big.Int{}
		g := hist.NewGen(e)
		g.Prices = []int64{0, 1, 3, 1000001, 2000000000}
		epochs, feeBlocks, depositFees, taxed := map[uint64]bool{}, 0, 0, 0
		n := 0
		for _, id := range e.IDs {
			gb := e.Gen[id]
			claims[gb.Hash()] = gb.CoinbaseAmount().GetBalanceMap()
			if want := times(s.minor[id], s.local); !chainenv.EqBal(claims[gb.Hash()], map[uint64]*big.Int{chainenv.QKC: want}) {
				rt.Fatalf("genesis of shard %x claims %v, scheduled %v", id, claims[gb.Hash()], want)
			}
		}
		root := func(cb account.Address) {
			hs := e.Unconfirmed()
			rb, err := e.BuildRoot(hs, cb, 0)
			if err != nil {
				rt.Fatalf("root block: %v", err)
			}
			var l []map[uint64]*big.Int
			for _, h := range rb.MinorBlockHeaders() {
				m := claims[h.Hash()]
				if m == nil {
					rt.Fatalf("root block confirms an unknown block")
				}
				l = append(l, m)
				if x := m[chainenv.QKC]; s.tax.Sign() > 0 && x != nil && x.Sign() > 0 {
					taxed++
				}
			}
			want := s.rootClaim(rb.NumberU64(), l)
			if got := rb.CoinbaseAmount().GetBalanceMap(); !chainenv.EqBal(got, want) {
				rt.Fatalf("root block %d over %d minor blocks claims %v, scheduled %v", rb.NumberU64(), len(l), got, want)
			}
			// every other claim is refused
			if pick(rt, "forge", 0, 0, 1) == 1 {
				bad := types.NewTokenBalancesWithMap(want).Copy()
				k := pick(rt, "forged", "more", "less", "other", "none")
				v := new(big.Int).Set(want[chainenv.QKC])
				switch k {
				case "more":
					bad.SetValue(v.Add(v, big.NewInt(1)), chainenv.QKC)
				case "less":
					bad.SetValue(v.Rsh(v, 1), chainenv.QKC)
				case "other":
					bad.SetValue(big.NewInt(1), hist.TokA)
				case "none":
					bad = types.NewEmptyTokenBalances()
				}
				if !chainenv.EqBal(bad.GetBalanceMap(), want) {
					fb := types.NewRootBlockWithHeader(rb.Header()).WithBody(rb.MinorBlockHeaders(), nil)
					a := rb.Coinbase()
					fb.Finalize(bad, &a, common.Hash{})
					if err := e.AddRoot(fb); err == nil {
						rt.Fatalf("a root block claiming %v instead of %v was accepted", bad.GetBalanceMap(), want)
					}
					c.Label("forged root claim: %s", k)
				}
			}
			if err := e.AddRoot(rb); err != nil {
				rt.Fatalf("root block: %v", err)
			}
		}
		root(miner(0))
		for steps := rapid.IntRange(4, 26).Draw(rt, "steps"); steps > 0; steps-- {
			id := pick(rt, "shard", e.IDs...)
			if pick(rt, "op", 0, 0, 0, 1) == 1 {
				n++
				cb := miner(n)
				cb.FullShardKey = chainenv.Key(id, 0)
				root(cb)
				continue
			}
			for _, tx := range g.Offer(rt, id, pick(rt, "txs", 0, 0, 1, 4), func(k string) { c.Label(k) }) {
				price[tx.Hash()] = tx.EvmTx.GasPrice()
			}
			n++
			cb := miner(n)
			cb.FullShardKey = chainenv.Key(id, 0)
			b, err := e.Build(id, chainenv.MineOpt{Coinbase: cb})
			if err != nil {
				rt.Fatalf("build: %v", err)
			}
			before := chainenv.Dump(e.State(id)).Supply()
			if pick(rt, "forge", 0, 0, 0, 1) == 1 {
				h := b.Header()
				amt := h.CoinbaseAmount.Copy()
				v := new(big.Int).Add(amt.GetTokenBalance(chainenv.QKC), big.NewInt(pick(rt, "by", int64(1), 1000000000000)))
				tok := pick(rt, "forged token", uint64(chainenv.QKC), hist.TokA)
				amt.SetValue(v, tok)
				h.CoinbaseAmount = amt
				if err := e.AddMinor(types.NewMinorBlockWithHeader(h, b.Meta()).WithBody(b.Transactions(), nil)); err == nil {
					rt.Fatalf("a block claiming %v instead of %v was accepted", amt.GetBalanceMap(), b.CoinbaseAmount().GetBalanceMap())
				}
				c.Label("forged minor claim")
			}
			if err := e.AddMinor(b); err != nil {
				rt.Fatalf("add: %v", err)
			}
			hist.Settle(e, id, b)
			g.Sync()
			fees, n1, n2 := new(big.Int), 0, 0
			rs := e.Shard[id].GetReceiptsByHash(b.Hash())
			for i, r := range rs {
				p := price[r.TxHash]
				if p == nil { // a root block's coinbase
					if i < len(b.Transactions()) {
						rt.Fatalf("unknown transaction in the block")
					}
					continue
				}
				f := times(new(big.Int).Mul(new(big.Int).SetUint64(r.GasUsed), p), s.local)
				fees.Add(fees, f)
				if f.Sign() > 0 {
					if i < len(b.Transactions()) {
						n1++
					} else {
						n2++
					}
				}
			}
			if n1 > 0 {
				feeBlocks++
			}
			depositFees += n2
			epochs[uint64(id)<<32|b.NumberU64()/s.minorEpoch[id]] = true
			rw := s.reward(id, b.NumberU64())
			want := map[uint64]*big.Int{chainenv.QKC: new(big.Int).Add(rw, fees)}
			got := b.CoinbaseAmount().GetBalanceMap()
			if !chainenv.EqBal(got, want) {
				rt.Fatalf("block %d of shard %x claims %v; reward %v and fees %v make %v", b.NumberU64(), id, got, rw, fees, want)
			}
			claims[b.Hash()] = got
			st := e.State(id)
			if have := st.GetBalances(cb.Recipient).GetBalanceMap(); !chainenv.EqBal(have, want) {
				rt.Fatalf("the miner of block %d of shard %x holds %v, its block claims %v", b.NumberU64(), id, have, want)
			}
			// tokens without a reward are never created
			after := chainenv.Dump(st).Supply()
			for _, k := range []uint64{hist.TokA, hist.TokB} {
				if len(rs) == len(b.Transactions()) && after[k].Cmp(before[k]) > 0 {
					rt.Fatalf("block %d of shard %x created %v of token %d", b.NumberU64(), id, new(big.Int).Sub(after[k], before[k]), k)
				}
			}
		}
		c.Label("decay %v", s.decay)
		c.Label("tax %v", s.tax)
		if len(epochs) > 2 && feeBlocks > 0 && taxed > 0 && (depositFees > 0 || len(e.IDs) == 1) {
			c.NonTrivial("%v", fmt.Sprint(s, n))
			c.Sample("tax %v, decay %v, %d epochs reached; %d blocks with fees, %d deposits with fees, %d taxed blocks; root reward %v per %d blocks", s.tax, s.decay, len(epochs), feeBlocks, depositFees, taxed, s.root, s.rootEpoch)
		}
	})
}

// TestFarHeights asks for the schedule at heights no test chain reaches, from
// many goroutines at once.
func TestFarHeights(t *testing.T) {
	vlib.Check(t, 50, 1000, "five heights of different epochs, one above epoch 40", func(rt *rapid.T, c *vlib.C) {
		opt := hist.Opt(1, 1)
		s := draw(rt, &opt)
		e := chainenv.New(opt)
		defer e.Stop()
		id := e.IDs[0]
		if _, err := e.MineRoot(miner(0)); err != nil {
			rt.Fatalf("%v", err)
		}
		var hs []*types.MinorBlockHeader
		var cl []map[uint64]*big.Int
		for i := 0; i < 2; i++ {
			b, err := e.Mine(id, chainenv.MineOpt{Coinbase: account.Address{Recipient: common.Address{9}, FullShardKey: chainenv.Key(id, 0)}})
			if err != nil {
				rt.Fatalf("%v", err)
			}
			hs, cl = append(hs, b.Header()), append(cl, b.CoinbaseAmount().GetBalanceMap())
		}
		rb, err := e.BuildRoot(hs, miner(0), 0)
		if err != nil {
			rt.Fatalf("%v", err)
		}
		var heights []uint32
		eps := map[uint64]bool{}
		far := false
		for i := 0; i < 6; i++ {
			ep := pick(rt, "epoch", uint64(0), 1, 2, 10, 41, 97, 200)
			h := uint32(ep*s.rootEpoch + uint64(rapid.IntRange(0, int(s.rootEpoch)-1).Draw(rt, "in")))
			heights = append(heights, h)
			eps[ep] = true
			far = far || ep > 40
		}
		var wg sync.WaitGroup
		errs := make(chan error, 8*len(heights))
		for w := 0; w < 4; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				for i := range heights {
					h := heights[(i+w)%len(heights)]
					hd := rb.Header()
					hd.Number = h
					for k := len(hs); k >= 0; k-- {
						x := types.NewRootBlockWithHeader(hd).WithBody(hs[:k], nil)
						got, err := e.Root.CalculateRootBlockCoinBase(x)
						want := s.rootClaim(uint64(h), cl[:k])
						if err != nil || !chainenv.EqBal(got.GetBalanceMap(), want) {
							errs <- fmt.Errorf("root block %d over %d blocks: %v (%v), scheduled %v", h, k, got, err, want)
							return
						}
					}
					stake := e.Shard[id].DecayByHeightAndTime(uint64(h), 1000)
					if want := times(s.stake[id], pow(s.decay, uint64(h)/s.minorEpoch[id])); stake.Cmp(want) != 0 {
						errs <- fmt.Errorf("stake per block at %d: %v, scheduled %v", h, &stake, want)
						return
					}
					stake = e.Shard[id].DecayByHeightAndTime(uint64(h), 999)
					if stake.Cmp(s.stake[id]) != 0 {
						errs <- fmt.Errorf("stake per block at %d before the decay starts: %v, scheduled %v", h, &stake, s.stake[id])
						return
					}
				}
			}(w)
		}
		wg.Wait()
		select {
		case err := <-errs:
			rt.Fatalf("%v", err)
		default:
		}
		if len(eps) >= 4 && far {
			c.NonTrivial("%v", heights)
			c.Sample("root heights %v with epoch length %d, decay %v, reward %v", heights, s.rootEpoch, s.decay, s.root)
		}
	})
}
