// Package c30 decides C30: the remote sealer and the miner in front of it
// against a model of the outstanding work.
package c30

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"errors"
	"fmt"
	"math/big"
	"testing"
	"time"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/consensus"
	"github.com/QuarkChain/goquarkchain/consensus/doublesha256"
	"github.com/QuarkChain/goquarkchain/core/state"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/serialize"
	"github.com/QuarkChain/goquarkchain/zzverif/vlib"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	"pgregory.net/rapid"
)

var (
	two256   = new(big.Int).Lsh(big.NewInt(1), 256)
	guardian = crypto.ToECDSAUnsafe(bytes.Repeat([]byte{7}, 32))
	stranger = crypto.ToECDSAUnsafe(bytes.Repeat([]byte{9}, 32))
	guardPub = crypto.FromECDSAPub(&guardian.PublicKey)
	calc     = &consensus.EthDifficultyCalculator{MinimumDifficulty: big.NewInt(1), AdjustmentCutoff: 10, AdjustmentFactor: 10}
)

func addr(i int, key uint32) account.Address {
	var r account.Recipient
	r[0], r[19] = byte(i), 1
	return account.NewAddress(r, key)
}

func minor(num uint64, cb account.Address, diff int64, salt uint64) types.IBlock {
	h := &types.MinorBlockHeader{Branch: account.Branch{Value: 1}, Number: num, Coinbase: cb, CoinbaseAmount: types.NewEmptyTokenBalances(),
		GasLimit: &serialize.Uint256{Value: big.NewInt(12)}, Time: 1000 + salt, Difficulty: big.NewInt(diff)}
	h.ParentHash[0] = byte(salt)
	m := &types.MinorBlockMeta{GasUsed: &serialize.Uint256{Value: new(big.Int)}, CrossShardGasUsed: &serialize.Uint256{Value: new(big.Int)},
		XShardGasLimit: &serialize.Uint256{Value: new(big.Int)}, XShardTxCursorInfo: &types.XShardTxCursorInfo{}}
	return types.NewMinorBlock(h, m, nil, nil, nil)
}

func root(num uint64, cb account.Address, diff int64, salt uint64) types.IBlock {
	h := &types.RootBlockHeader{Number: uint32(num), Coinbase: cb, CoinbaseAmount: types.NewEmptyTokenBalances(), Time: 1000 + salt,
		Difficulty: big.NewInt(diff), ToTalDifficulty: big.NewInt(diff)}
	h.ParentHash[0] = byte(salt)
	return types.NewRootBlock(h, nil, nil)
}

// work0 is the proof-of-work value of a nonce, computed from the definition.
func work0(seal common.Hash, nonce uint64) *big.Int {
	var b [40]byte
	copy(b[:], seal[:])
	binary.BigEndian.PutUint64(b[32:], nonce)
	h := sha256.Sum256(b[:])
	h = sha256.Sum256(h[:])
	return new(big.Int).SetBytes(h[:])
}

func solves(seal common.Hash, nonce uint64, d *big.Int) bool {
	if d.Sign() == 0 {
		d = big.NewInt(1)
	}
	return work0(seal, nonce).Cmp(new(big.Int).Div(two256, d)) <= 0
}

type offer struct {
	b     types.IBlock
	seal  common.Hash
	diff  *big.Int
	div   uint64
	where string
}

// strict is an engine which also checks the mix digest, so that the test sees
// what the sealer hands to the verification of an algorithm.
func strict() consensus.Engine {
	spec := consensus.MiningSpec{Name: "STRICT", VerifySeal: func(_ consensus.ChainReader, h types.IHeader, d *big.Int) error {
		mix := h.GetMixDigest()
		if mix != sha256.Sum256(append(h.SealHash().Bytes(), byte(h.GetNonce()))) {
			return consensus.ErrInvalidMixDigest
		}
		if !solves(h.SealHash(), h.GetNonce(), d) {
			return consensus.ErrInvalidPoW
		}
		return nil
	}, HashAlgo: func(*consensus.ShareCache) error { return errors.New("unused") }}
	return &strictEngine{consensus.NewCommonEngine(spec, calc, true, guardPub)}
}

type strictEngine struct{ *consensus.CommonEngine }

func (s *strictEngine) Prepare(consensus.ChainReader, types.IHeader) error { panic("unused") }
func (s *strictEngine) Finalize(consensus.ChainReader, types.IHeader, *state.StateDB, []*types.Transaction, []*types.Receipt) (types.IBlock, error) {
	panic("unused")
}

// within runs f and fails if it does not come back.
func within(rt *rapid.T, what string, f func()) {
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
	case <-time.After(30 * time.Second):
		rt.Fatalf("%s does not return", what)
	}
}

func TestEngine(t *testing.T) {
	vlib.Check(t, 1200, 40000, "a submission that is decided by its difficulty, its age or a signature",
		func(rt *rapid.T, c *vlib.C) {
			isStrict := rapid.Bool().Draw(rt, "strict")
			var e consensus.Engine
			if isStrict {
				e = strict()
			} else {
				e = doublesha256.New(calc, true, guardPub)
			}
			closed := false
			defer e.Close()

			chans := []chan types.IBlock{make(chan types.IBlock, 10), make(chan types.IBlock, 1), make(chan types.IBlock, 3)}
			model := []int{0, 0, 0} // results waiting in each
			var (
				cur     = map[account.Address]*offer{}
				all     []*offer
				results = -1
				height  uint64
				salt    uint64
				base    = uint64(rapid.SampledFrom([]int{1, 3, 100}).Draw(rt, "base"))
				trace   string
				accepts int
			)
			addrs := []account.Address{addr(1, 1), addr(1, 0x10001), addr(2, 1), addr(3, 5)}
			put := func(o *offer, ch int) {
				var given *big.Int
				if o.where != "nil" {
					given = new(big.Int).Set(o.diff)
				}
				within(rt, "Seal", func() {
					if err := e.Seal(nil, o.b, given, o.div, chans[ch], nil); err != nil {
						rt.Fatalf("Seal: %v", err)
					}
				})
				e.GetWork(addr(99, 9)) // the sealer has taken the block in once it answers
				results, height = ch, o.b.NumberU64()
				cur[o.b.Coinbase()] = o
			}
			n := rapid.IntRange(3, 25).Draw(rt, "ops")
			for i := 0; i < n && !closed; i++ {
				switch op := rapid.SampledFrom([]string{"offer", "offer", "get", "get", "submit", "submit", "submit", "submit", "refresh", "reoffer", "drain", "many", "close"}).Draw(rt, "op"); op {
				case "offer":
					salt++
					cb := rapid.SampledFrom(addrs).Draw(rt, "addr")
					num := base + uint64(rapid.SampledFrom([]int{0, 1, 2, 5, 6, 7, 8, 9, 20}).Draw(rt, "height"))
					d := int64(rapid.SampledFrom([]int{1, 2, 7, 40, 300, 2000, 6000}).Draw(rt, "diff"))
					o := &offer{diff: big.NewInt(d), div: uint64(rapid.SampledFrom([]int{1, 1, 2, 20, 1000}).Draw(rt, "div"))}
					if rapid.Bool().Draw(rt, "root") {
						o.b = root(num, cb, d, salt)
					} else {
						o.b = minor(num, cb, d, salt)
					}
					switch o.where = rapid.SampledFrom([]string{"nil", "same", "lower", "zero"}).Draw(rt, "given"); o.where {
					case "lower":
						o.diff = big.NewInt(d / 3)
					case "zero":
						o.diff = new(big.Int)
					}
					o.seal = o.b.IHeader().SealHash()
					all = append(all, o)
					put(o, rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(rt, "chan"))
					trace += fmt.Sprintf("offer %d@%d/%d ", len(all)-1, num, d)
				case "many": // the table of blocks is bounded by 128
					if rapid.IntRange(0, 9).Draw(rt, "often") > 0 {
						continue
					}
					k := rapid.IntRange(100, 126).Draw(rt, "k")
					if len(all)+k > 127 {
						continue
					}
					for j := 0; j < k; j++ {
						salt++
						o := &offer{diff: big.NewInt(1), div: 1, b: minor(base+1, addr(10+j, 1), 1, salt)}
						o.seal = o.b.IHeader().SealHash()
						all = append(all, o)
						put(o, 0)
					}
					c.Label("over a hundred miners")
				case "reoffer":
					if len(all) == 0 {
						continue
					}
					k := rapid.IntRange(0, len(all)-1).Draw(rt, "which")
					o := *all[k]
					if cur[o.b.Coinbase()] == nil || cur[o.b.Coinbase()].seal != o.seal {
						c.Label("reoffer after it was replaced")
					}
					put(&o, rapid.SampledFrom([]int{0, 1, 2}).Draw(rt, "chan"))
					trace += fmt.Sprintf("reoffer %d ", k)
				case "get":
					a := rapid.SampledFrom(append([]account.Address{addr(77, 1)}, addrs...)).Draw(rt, "addr")
					var w *consensus.MiningWork
					var err error
					within(rt, "GetWork", func() { w, err = e.GetWork(a) })
					o := cur[a]
					if o == nil {
						if err != consensus.ErrNoMiningWork || w != nil {
							rt.Fatalf("%sno work is outstanding for %x, GetWork: %v %v", trace, a, w, err)
						}
						continue
					}
					if err != nil {
						rt.Fatalf("%sGetWork of %x: %v", trace, a, err)
					}
					if w.HeaderHash != o.seal || w.Number != o.b.NumberU64() || w.Difficulty.Cmp(o.diff) != 0 || w.OptionalDivider != o.div {
						rt.Fatalf("%sGetWork of %x: %+v, the block offered last is %x height %d difficulty %v/%d", trace, a, w, o.seal, o.b.NumberU64(), o.diff, o.div)
					}
					c.Label("work handed out")
				case "refresh":
					e.RefreshWork(height)
					cur = map[account.Address]*offer{}
					trace += "refresh "
				case "drain":
					k := rapid.IntRange(0, 2).Draw(rt, "chan")
					for ; model[k] > 0; model[k]-- {
						<-chans[k]
					}
				case "close":
					if rapid.IntRange(0, 9).Draw(rt, "often") > 0 {
						continue
					}
					closed = true
				case "submit":
					if len(all) == 0 {
						if e.SubmitWork(1, common.Hash{1}, common.Hash{}, nil) {
							rt.Fatalf("a solution of nothing is accepted")
						}
						continue
					}
					o := all[len(all)-1-rapid.IntRange(0, len(all)-1).Draw(rt, "age")]
					if k := rapid.SampledFrom(addrs).Draw(rt, "of"); cur[k] != nil && rapid.IntRange(0, 3).Draw(rt, "current") > 0 {
						o = cur[k]
					}
					seal := o.seal
					block := o.b
					bd := block.IHeader().GetDifficulty()
					// the quality of the solution: below, between or above the bounds that matter
					bounds := []*big.Int{new(big.Int).Div(bd, big.NewInt(1000)), new(big.Int).Div(bd, new(big.Int).SetUint64(o.div)), o.diff, bd}
					wantOK := bounds[rapid.IntRange(0, 3).Draw(rt, "at least")]
					wantNot := bounds[rapid.IntRange(0, 3).Draw(rt, "but not")]
					start := uint64(rapid.Uint32().Draw(rt, "nonce"))
					if rapid.Bool().Draw(rt, "high") {
						start = ^uint64(0) - start
					}
					nonce := start
					for k := uint64(0); k < 30000; k++ {
						if solves(seal, start+k, wantOK) {
							nonce = start + k
							if wantNot.Cmp(wantOK) <= 0 || !solves(seal, nonce, wantNot) {
								break
							}
						}
					}
					mix := common.Hash(sha256.Sum256(append(seal.Bytes(), byte(nonce))))
					if rapid.IntRange(0, 5).Draw(rt, "badmix") == 0 {
						mix[3] ^= 1
					}
					var sig *[65]byte
					how := rapid.SampledFrom([]string{"none", "none", "guardian", "stranger", "garbage", "other block", "bent"}).Draw(rt, "sig")
					ok := false
					switch how {
					case "guardian", "stranger", "other block", "bent":
						k, h := guardian, seal
						if how == "stranger" {
							k = stranger
						}
						if how == "other block" {
							h[0] ^= 1
						}
						s, err := crypto.Sign(h[:], k)
						if err != nil {
							rt.Fatal(err)
						}
						sig = new([65]byte)
						copy(sig[:], s)
						if how == "bent" {
							sig[40] ^= 4
						}
						ok = how == "guardian"
					case "garbage":
						sig = new([65]byte)
						copy(sig[:], bytes.Repeat([]byte{byte(nonce)}, 65))
					}
					if rapid.IntRange(0, 7).Draw(rt, "unknown") == 0 {
						seal[31] ^= 1
					}
					// expectation
					d := new(big.Int).Set(o.diff)
					w := cur[block.Coinbase()]
					outstanding := w != nil && w.seal == seal
					if outstanding {
						d.Set(w.diff)
						if sig != nil && d.Cmp(bd) == 0 {
							if ok {
								d.Div(bd, big.NewInt(1000))
								c.Label("guardian share")
							} else {
								d.Div(bd, new(big.Int).SetUint64(w.div))
							}
						}
					}
					solved := solves(seal, nonce, d)
					if isStrict {
						good := common.Hash(sha256.Sum256(append(seal.Bytes(), byte(nonce))))
						solved = solved && mix == good
					}
					fresh := block.NumberU64()+7 > height
					space := results >= 0 && model[results] < cap(chans[results])
					want := outstanding && solved && fresh && space
					c.Label("outstanding=%v solved=%v fresh=%v space=%v", outstanding, solved, fresh, space)
					if outstanding && space {
						c.NonTrivial("%d %d %v %v %v %v %s %v", block.NumberU64(), height, bd, d, w.div, solved, how, fresh)
						c.Sample("%ssubmit for block %d (height %d, difficulty %v, divider %d, signature %s): solved=%v fresh=%v", trace, block.NumberU64(), height, bd, w.div, how, solved, fresh)
					}
					var got bool
					within(rt, "SubmitWork", func() { got = e.SubmitWork(nonce, seal, mix, sig) })
					if got != want {
						rt.Fatalf("%sSubmitWork for height %d (newest %d) difficulty %v (needed %v) divider %d, signature %s: accepted=%v, but outstanding=%v solved=%v fresh=%v space=%v",
							trace, block.NumberU64(), height, bd, d, o.div, how, got, outstanding, solved, fresh, space)
					}
					for k := range chans {
						n := len(chans[k])
						if got && k == results {
							n--
						}
						if n != model[k] {
							rt.Fatalf("%san accepted=%v solution left %d results in channel %d (submitted to %d)", trace, got, len(chans[k]), k, results)
						}
					}
					if !got {
						continue
					}
					accepts++
					// take everything out to look at the newest one
					for ; model[results] > 0; model[results]-- {
						<-chans[results]
					}
					res := <-chans[results]
					wantB := block.WithMingResult(nonce, mix, nil)
					if rh, isRoot := wantB.IHeader().(*types.RootBlockHeader); isRoot && sig != nil {
						h := types.CopyRootBlockHeader(rh)
						h.Signature = *sig
						wantB = block.(*types.RootBlock).WithSeal(h)
					}
					rb, _ := serialize.SerializeToBytes(res)
					wb, _ := serialize.SerializeToBytes(wantB)
					if !bytes.Equal(rb, wb) || res.IHeader().GetNonce() != nonce || res.IHeader().GetMixDigest() != mix || res.IHeader().SealHash() != seal || res.Hash() != res.IHeader().Hash() {
						rt.Fatalf("%sthe sealed block is not the one offered with the solution: %x, expected %x", trace, rb, wb)
					}
				}
			}
			c.Label("accepted %d", accepts)
			// the end: nothing hangs on a stopped engine and nothing is accepted
			users := rapid.IntRange(0, 3).Draw(rt, "users")
			done := make(chan struct{}, users)
			for u := 0; u < users; u++ {
				go func() {
					defer func() { done <- struct{}{} }()
					for i := 0; i < 20; i++ {
						e.GetWork(addrs[0])
						e.SubmitWork(1, common.Hash{}, common.Hash{}, nil)
					}
				}()
			}
			within(rt, "Close", func() { e.Close() })
			within(rt, "a call during Close", func() {
				for u := 0; u < users; u++ {
					<-done
				}
			})
			within(rt, "Seal after Close", func() { e.Seal(nil, minor(1, addrs[0], 1, 0), nil, 1, chans[0], nil) })
			time.Sleep(0)
			within(rt, "SubmitWork after Close", func() { e.SubmitWork(1, common.Hash{}, common.Hash{}, nil) })
			within(rt, "GetWork after Close", func() { e.GetWork(addrs[0]) })
			within(rt, "a second Close", func() { e.Close() })
		})
}

// Without remote mining there is no work to hand out and nothing is accepted.
func TestLocal(t *testing.T) {
	vlib.Check(t, 100, 1000, "a local engine asked for work", func(rt *rapid.T, c *vlib.C) {
		e := doublesha256.New(calc, false, guardPub)
		e.SetThreads(1)
		d := int64(rapid.SampledFrom([]int{1, 50, 700, 5000}).Draw(rt, "diff"))
		div := uint64(rapid.SampledFrom([]int{1, 3, 100}).Draw(rt, "div"))
		b := root(uint64(rapid.IntRange(1, 9).Draw(rt, "h")), addr(1, 1), d, uint64(rapid.Uint16().Draw(rt, "salt")))
		if rapid.Bool().Draw(rt, "minor") {
			b = minor(b.NumberU64(), addr(1, 1), d, uint64(rapid.Uint16().Draw(rt, "salt")))
		}
		res := make(chan types.IBlock, 1)
		if err := e.Seal(nil, b, nil, div, res, nil); err != nil {
			rt.Fatal(err)
		}
		if w, err := e.GetWork(addr(1, 1)); err != consensus.ErrNotRemote || w != nil {
			rt.Fatalf("local mining hands out work: %v %v", w, err)
		}
		if e.SubmitWork(0, b.IHeader().SealHash(), common.Hash{}, nil) {
			rt.Fatalf("local mining accepts a solution from outside")
		}
		select {
		case s := <-res:
			if s.IHeader().SealHash() != b.IHeader().SealHash() || !solves(b.IHeader().SealHash(), s.IHeader().GetNonce(), new(big.Int).Div(big.NewInt(d), new(big.Int).SetUint64(div))) {
				rt.Fatalf("the sealed block is not a solution of the block offered at difficulty %d/%d", d, div)
			}
		case <-time.After(60 * time.Second):
			rt.Fatalf("no solution")
		}
		c.NonTrivial("%d %d %x", d, div, b.IHeader().SealHash())
		c.Sample("sealed height %d at difficulty %d/%d", b.NumberU64(), d, div)
	})
}
