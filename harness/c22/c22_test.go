// Package c22: native tokens move in contracts only by their owner and only when
// understood. The native-token precompiles are reached through generated chains
// of contracts (every kind of call at every level) with valid, boundary and
// hostile inputs, and the whole state and the answers are compared with a model.
package c22

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/big"
	"testing"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/config"
	qcom "github.com/QuarkChain/goquarkchain/common"
	"github.com/QuarkChain/goquarkchain/core"
	"github.com/QuarkChain/goquarkchain/core/state"
	"github.com/QuarkChain/goquarkchain/core/vm"
	"github.com/QuarkChain/goquarkchain/zzverif/chainenv"
	"github.com/QuarkChain/goquarkchain/zzverif/vlib"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/ethdb"
	"github.com/ethereum/go-ethereum/params"
	"pgregory.net/rapid"
)

const enableAt = 1000 // the precompiles work after this time

var (
	qkc     = chainenv.QKC
	tka     = qcom.TokenIDEncode("TKA")
	tkb     = qcom.TokenIDEncode("TKB")
	curMnt  = common.HexToAddress("514b430001")
	xferMnt = common.HexToAddress("514b430002")
	deploy  = common.HexToAddress("514b430003")
	mint    = common.HexToAddress("514b430004")
	balMnt  = common.HexToAddress("514b430005")
	sys     = vm.SystemContracts[vm.NON_RESERVED_NATIVE_TOKEN].Address()

	eoa     = chainenv.Addrs[0]
	plain   = common.HexToAddress("aa01")
	fresh   = common.HexToAddress("aa02")
	querier = common.HexToAddress("aa03")
	silent  = common.HexToAddress("aa04")
	thrower = common.HexToAddress("aa05")
)

func init() {
	for _, a := range []common.Address{curMnt, xferMnt, deploy, mint, balMnt} {
		vm.PrecompiledContractsByzantium[a].SetEnableTime(enableAt)
	}
	vm.SystemContracts[vm.NON_RESERVED_NATIVE_TOKEN].SetTimestamp(enableAt + 10)
	vm.SystemContracts[vm.GENERAL_NATIVE_TOKEN].SetTimestamp(enableAt + 20)
}

const (
	CALL = iota
	CALLCODE
	DELEGATE
	STATIC
)

var opOf = []byte{0xf1, 0xf2, 0xf4, 0xfa}
var nameOf = []string{"CALL", "CALLCODE", "DELEGATECALL", "STATICCALL"}

func push(b []byte, v uint64) []byte {
	var x [8]byte
	binary.BigEndian.PutUint64(x[:], v)
	y := bytes.TrimLeft(x[:], "\x00")
	if len(y) == 0 {
		y = []byte{0}
	}
	return append(append(b, byte(0x5f+len(y))), y...)
}

// query asks which token was received (by a call of the given kind).
func query(kind int) []byte {
	b := []byte{0x60, 32, 0x60, 0, 0x60, 0, 0x60, 0}
	if kind < 2 {
		b = append(b, 0x60, 0)
	}
	b = append(append(b, 0x73), curMnt[:]...)
	return append(b, 0x5a, opOf[kind], 0x50)
}

// forwarder passes its input on to target and answers (success, returned data).
func forwarder(kind int, target common.Address, gas uint64, ask, askKind int) []byte {
	var b []byte
	if ask == 1 {
		b = append(b, query(askKind)...)
	}
	b = append(b, 0x36, 0x60, 0, 0x60, 0, 0x37)
	b = append(b, 0x60, 0, 0x60, 0, 0x36, 0x60, 0)
	if kind < 2 {
		b = append(b, 0x60, 0)
	}
	b = append(append(b, 0x73), target[:]...)
	if gas == 0 {
		b = append(b, 0x5a)
	} else {
		b = push(b, gas-1)
	}
	b = append(b, opOf[kind])
	b = append(b, 0x60, 0, 0x52)
	if ask == 2 { // asks only after the call; memory word 0 is preserved at 64
		b = append(b, 0x3d, 0x60, 0, 0x60, 32, 0x3e)
		b = append(b, 0x3d, 0x60, 32, 0x01) // size
		q := query(askKind)
		b = append(b, 0x60, 0, 0x51) // keep success
		b = append(b, q...)
		b = append(b, 0x60, 0, 0x52)
		return append(b, 0x60, 0, 0xf3)
	}
	b = append(b, 0x3d, 0x60, 0, 0x60, 32, 0x3e)
	return append(b, 0x3d, 0x60, 32, 0x01, 0x60, 0, 0xf3)
}

func word(v *big.Int) []byte { return common.LeftPadBytes(v.Bytes(), 32) }

func u(v uint64) *big.Int { return new(big.Int).SetUint64(v) }

func pow2(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }

type frame struct {
	self, caller common.Address
	static       bool
	value        *big.Int
	asks         int
	kind         int
}

func next(p frame, kind int, target common.Address) frame {
	f := frame{static: p.static || kind == STATIC, value: new(big.Int), kind: kind}
	switch kind {
	case CALL, STATIC:
		f.self, f.caller = target, p.self
	case CALLCODE:
		f.self, f.caller = p.self, p.self
	case DELEGATE:
		f.self, f.caller, f.value = p.self, p.caller, p.value
	}
	return f
}

func TestPrecompiles(t *testing.T) {
	vlib.Check(t, 4000, 80000, "the precompile was reached with the native-token features enabled", func(rt *rapid.T, c *vlib.C) {
		cfg := chainenv.MakeConfig(chainenv.Opt{ChainSize: 2, ShardSize: 1}).Quarkchain
		sdb := state.NewDatabase(ethdb.NewMemDatabase())
		st, _ := state.New(common.Hash{}, sdb)
		ts := rapid.SampledFrom([]uint64{enableAt + 1, enableAt + 10, enableAt + 9, enableAt + 20, enableAt + 19, enableAt + 100, enableAt + 100, enableAt + 100, enableAt, enableAt - 1}).Draw(rt, "time")
		chainID := rapid.SampledFrom([]uint32{0, 0, 0, 1}).Draw(rt, "chain")
		prep := func(s *state.StateDB) {
			s.SetQuarkChainConfig(cfg)
			s.SetTimeStamp(ts)
			s.SetFullShardKey(chainID<<16 | uint32(rapid.SampledFrom([]int{0, 0xffff}).Draw(rt, "fsk")))
			s.SetBlockNumber(1)
		}
		prep(st)
		give := func(a common.Address) {
			for _, tk := range []uint64{qkc, tka, tkb} {
				st.AddBalance(a, big.NewInt(int64(rapid.SampledFrom([]int{0, 1, 50, 1000}).Draw(rt, "bal"))), tk)
			}
		}
		for _, tk := range []uint64{qkc, tka, tkb} {
			st.AddBalance(eoa, big.NewInt(1000), tk)
		}
		st.AddBalance(plain, big.NewInt(1), qkc)
		st.SetCode(querier, append(query(CALL), 0x60, 32, 0x60, 0, 0xf3))
		st.SetCode(silent, []byte{0x60, 1, 0x60, 0, 0x52, 0x60, 32, 0x60, 0, 0xf3})
		st.SetCode(thrower, []byte{0x60, 0, 0x60, 0, 0xfd})

		// the chain of contracts: EOA -> F[0] -> ... -> F[n-1] -> precompile
		n := rapid.IntRange(1, 3).Draw(rt, "depth")
		addrs := []common.Address{}
		for i := 0; i < n; i++ {
			addrs = append(addrs, common.BytesToAddress([]byte{0xbb, byte(i + 1)}))
		}
		if rapid.IntRange(0, 2).Draw(rt, "sys") == 0 {
			addrs[rapid.IntRange(0, n-1).Draw(rt, "sysAt")] = sys
		}
		pre := rapid.SampledFrom([]common.Address{xferMnt, xferMnt, xferMnt, mint, mint, balMnt, curMnt, deploy}).Draw(rt, "precompile")
		kinds := make([]int, n) // how F[i] calls the next
		asks := make([]int, n)
		askKinds := make([]int, n)
		gasArg := uint64(0)
		if rapid.IntRange(0, 3).Draw(rt, "limitGas") == 0 {
			gasArg = 1 + rapid.SampledFrom([]uint64{0, 1, 2, 3, 399, 400, 8999, 9000, 9001, 11300, 33999, 34000, 34001, 100000}).Draw(rt, "gas")
		}
		desc := ""
		for i := 0; i < n; i++ {
			kinds[i] = rapid.SampledFrom([]int{CALL, CALL, CALL, CALLCODE, DELEGATE, STATIC}).Draw(rt, "kind")
			asks[i] = rapid.SampledFrom([]int{0, 1, 1, 2}).Draw(rt, "ask")
			askKinds[i] = rapid.SampledFrom([]int{CALL, CALL, CALLCODE, DELEGATE, STATIC}).Draw(rt, "askKind")
			tgt, g := pre, gasArg
			if i+1 < n {
				tgt, g = addrs[i+1], 0
			}
			st.SetNonce(addrs[i], 1)
			st.SetCode(addrs[i], forwarder(kinds[i], tgt, g, asks[i], askKinds[i]))
			give(addrs[i])
			desc += fmt.Sprintf("%x(ask%d)-%s->", addrs[i][17:], asks[i], nameOf[kinds[i]])
		}
		tok := rapid.SampledFrom([]uint64{qkc, qkc, tka, tkb}).Draw(rt, "topToken")
		val := big.NewInt(int64(rapid.SampledFrom([]int{0, 0, 1, 7}).Draw(rt, "topValue")))

		// input of the precompile
		var input []byte
		var to common.Address
		var mtok, mval *big.Int
		drawTok := func() *big.Int {
			return rapid.SampledFrom([]*big.Int{u(qkc), u(tka), u(tka), u(tkb), u(tkb), u(qcom.TOKENIDMAX), u(qcom.TOKENIDMAX + 1), pow2(63), pow2(64), new(big.Int).Add(pow2(64), u(tka)), new(big.Int).Add(pow2(255), u(tkb)), new(big.Int)}).Draw(rt, "mtok")
		}
		drawVal := func() *big.Int {
			return rapid.SampledFrom([]*big.Int{big.NewInt(0), big.NewInt(1), big.NewInt(1), big.NewInt(50), big.NewInt(51), big.NewInt(1000), big.NewInt(1001), pow2(64), pow2(128), new(big.Int).Sub(pow2(256), big.NewInt(1))}).Draw(rt, "mval")
		}
		highAddr := func(a common.Address) []byte {
			w := make([]byte, 32)
			copy(w[12:], a[:])
			if rapid.IntRange(0, 5).Draw(rt, "dirty") == 0 {
				w[3] = 7 // the upper bytes are ignored
			}
			return w
		}
		var index *big.Int
		switch pre {
		case xferMnt:
			to = rapid.SampledFrom([]common.Address{plain, plain, fresh, querier, querier, silent, thrower, eoa, addrs[0], curMnt, xferMnt, {}}).Draw(rt, "to")
			mtok, mval = drawTok(), drawVal()
			input = append(append(highAddr(to), word(mtok)...), word(mval)...)
			input = append(input, rapid.SliceOfN(rapid.Byte(), 0, 3).Draw(rt, "extra")...)
			if rapid.IntRange(0, 9).Draw(rt, "short") == 0 {
				input = input[:rapid.SampledFrom([]int{0, 1, 32, 64, 95}).Draw(rt, "len")]
			}
		case mint:
			to = rapid.SampledFrom([]common.Address{plain, fresh, eoa, addrs[0]}).Draw(rt, "minter")
			mtok, mval = drawTok(), drawVal()
			if mval.BitLen() > 128 {
				mval = pow2(128)
			}
			input = append(append(highAddr(to), word(mtok)...), word(mval)...)
		case balMnt:
			to = rapid.SampledFrom([]common.Address{plain, fresh, eoa, addrs[0]}).Draw(rt, "holder")
			mtok = drawTok()
			input = append(highAddr(to), word(mtok)...)
		case deploy:
			index = rapid.SampledFrom([]*big.Int{u(0), u(1), u(1), u(2), u(2), u(3), u(3), u(4), u(5), pow2(31), pow2(32), pow2(63), new(big.Int).Add(pow2(63), u(1)), pow2(64), new(big.Int).Add(pow2(64), u(1)), new(big.Int).Sub(pow2(64), u(1)), new(big.Int).Sub(pow2(256), u(1))}).Draw(rt, "index")
			input = word(index)
			if rapid.IntRange(0, 4).Draw(rt, "emptyIn") == 0 {
				input, index = nil, u(0)
			}
		case curMnt:
			input = rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(rt, "in")
		}
		root, err := st.Commit(true)
		if err != nil {
			rt.Fatalf("%v", err)
		}
		st, _ = state.New(root, sdb)
		prep(st)
		before := chainenv.Dump(st)

		ctx := vm.Context{CanTransfer: core.CanTransfer, Transfer: core.Transfer, TransferFailureByPoswBalanceCheck: core.TransferFailureByPoswBalanceCheck,
			GetHash: func(uint64) common.Hash { return common.Hash{} }, Origin: eoa, GasPrice: new(big.Int), GasPriceInGasToken: new(big.Int), GasLimit: 1 << 40,
			BlockNumber: big.NewInt(1), Time: u(ts), Difficulty: big.NewInt(1), GasTokenID: qkc, TransferTokenID: tok}
		evm := vm.NewEVM(ctx, st, params.TestChainConfig, vm.Config{})
		ret, left, err := evm.Call(vm.AccountRef(eoa), addrs[0], input, 12000000, val)
		if left > 12000000 {
			rt.Fatalf("%s: gas grew", desc)
		}
		after := chainenv.Dump(st)
		desc += fmt.Sprintf("%x in %x, top token %d value %v, time %d chain %d gas %d", pre[17:], input, tok, val, ts, chainID, gasArg)
		if evm.TransferTokenID != tok {
			rt.Fatalf("%s: the machine is left with token %d instead of %d", desc, evm.TransferTokenID, tok)
		}

		// ---- model
		on := ts > enableAt
		f := frame{self: addrs[0], caller: eoa, value: val, kind: CALL}
		frames := []frame{f}
		for i := 0; i+1 < n; i++ {
			f = next(f, kinds[i], addrs[i+1])
			frames = append(frames, f)
		}
		last := frames[n-1]
		pf := next(last, kinds[n-1], pre)
		exp := before.Clone()
		exp.Add(eoa, tok, new(big.Int).Neg(val))
		exp.Add(addrs[0], tok, val)
		// success[i]: does the call made by frame i succeed, given everything below does its work
		okPre, sure := false, true // sure: the model knows whether the precompile must succeed
		var wantRet []byte
		eff := exp.Clone()
		payer := last.self // who pays, mints: the contract that invoked the precompile
		gasFor := func(need uint64) bool { return gasArg == 0 || gasArg-1 >= need }
		if gasArg != 0 && (gasArg-1 < 100000 || pre == deploy) && pre != curMnt && pre != balMnt {
			sure = false
		}
		if pre == xferMnt && to == plain && gasArg != 0 {
			sure = true
		}
		if !on {
			okPre, sure = true, true
		} else {
			switch pre {
			case curMnt:
				okPre = gasFor(3)
				wantRet = word(u(tok))
			case balMnt:
				okPre = gasFor(400) && mtok.Cmp(u(qcom.TOKENIDMAX)) <= 0
				if okPre {
					wantRet = word(exp.Get(to, mtok.Uint64()))
				}
			case xferMnt:
				okPre = len(input) >= 96 && !pf.static && mtok.Cmp(u(qcom.TOKENIDMAX)) <= 0 && to != xferMnt
				if okPre {
					tk := mtok.Uint64()
					need := uint64(0)
					if mval.Sign() > 0 {
						need = 9000
					}
					okPre = gasFor(need) && exp.Get(payer, tk).Cmp(mval) >= 0
					if kinds[n-1] == DELEGATE {
						sure = false
					}
					switch to {
					case thrower:
						okPre = false
					case silent:
						if tk != qkc && mval.Sign() > 0 {
							okPre = false
						}
						wantRet = word(u(1))
					case querier, curMnt:
						wantRet = word(u(tk))
					case addrs[0]:
						// re-enters the chain: only conservation is checked
						sure = false
						wantRet = nil
					}
					if okPre {
						eff.Add(payer, tk, new(big.Int).Neg(mval))
						eff.Add(to, tk, mval)
					}
				}
			case mint:
				okPre = !pf.static && mval.Sign() != 0 && mtok.Cmp(u(qcom.TOKENIDMAX)) <= 0 && chainID == 0 && mtok.Cmp(u(qkc)) != 0 && payer == sys
				if okPre {
					if kinds[n-1] == DELEGATE {
						sure = false
					}
					eff.Add(to, mtok.Uint64(), mval)
					wantRet = word(u(1))
				}
			case deploy:
				i := index
				if i.Sign() == 0 {
					i = u(1)
				}
				okPre = !pf.static && i.Cmp(u(3)) <= 0 && tok == qkc
				if okPre {
					switch i.Uint64() {
					case 2:
						okPre = chainID == 0 && ts >= enableAt+10
					case 3:
						okPre = ts >= enableAt+20
					}
				}
				if okPre {
					tgt := vm.SystemContracts[i.Uint64()].Address()
					if v, ok := exp[tgt]; ok && v.Nonce != 0 {
						okPre = false // taken by one of our contracts
					} else {
						wantRet = tgt[:]
						a := after[tgt]
						a.Bal, a.Nonce = exp[tgt].Bal, 1
						if a.Code == chainenv.EmptyCode || a.Code == (common.Hash{}) {
							a.Code = common.Hash{1}
						}
						eff[tgt] = a
						pa := eff[pf.self]
						if pa.Code == (common.Hash{}) {
							pa.Code, pa.Store = chainenv.EmptyCode, chainenv.EmptyStore
						}
						pa.Nonce++
						eff[pf.self] = pa
					}
				}
			}
		}
		// walk back up through the token rule
		alive := true // no frame above undoes the effect
		topOK := true
		for i := n - 1; i >= 0; i-- {
			asked := asks[i] != 0
			if pre == curMnt && i == n-1 {
				asked = true
			}
			if !on {
				// asking is still asking
			}
			if tok != qkc && frames[i].value.Sign() != 0 && !asked {
				alive = false
				if i == 0 {
					topOK = false
				}
			}
		}
		if (err == nil) != topOK {
			rt.Fatalf("%s: top call error %v, token rule satisfied %v", desc, err, topOK)
		}
		// answers from the outside in
		got := []bool{}
		data := ret
		for i := 0; i < n; i++ {
			if len(data) < 32 {
				break
			}
			ok := data[31] == 1
			got = append(got, ok)
			data = data[32:]
			if !ok {
				break
			}
		}
		if !on && ts <= enableAt {
			c.Label("disabled")
		} else {
			c.NonTrivial("%s", desc)
		}
		reached := len(got) == n && err == nil
		preOK := reached && got[n-1]
		if sure && reached && got[n-1] != okPre {
			rt.Fatalf("%s: precompile success %v, expected %v (payer %x)", desc, got[n-1], okPre, payer)
		}
		if !sure && preOK && !okPre {
			rt.Fatalf("%s: precompile must refuse but succeeded", desc)
		}
		if sure && alive && topOK && !reached {
			rt.Fatalf("%s: contracts in between failed (%v)", desc, got)
		}
		c.Label("%x %s ok=%v static=%v", pre[18:], nameOf[kinds[n-1]], preOK, pf.static)
		c.Sample("%s -> ok=%v ret %x", desc, preOK, data)
		if preOK && on && wantRet != nil && !bytes.Equal(data, wantRet) {
			rt.Fatalf("%s: returned %x, expected %x", desc, data, wantRet)
		}
		// nothing may be created or destroyed, except minted
		want := before
		if err == nil {
			want = exp
			if preOK && alive && on {
				want = eff
			}
		}
		if on && pre == xferMnt && to == addrs[0] {
			// may re-enter; token totals must still be the same
			if !chainenv.EqBal(before.Supply(), after.Supply()) {
				rt.Fatalf("%s: supply changed from %v to %v", desc, before.Supply(), after.Supply())
			}
			return
		}
		if d := want.Diff(after); d != "" {
			rt.Fatalf("%s (ok=%v alive=%v err=%v): %s", desc, preOK, alive, err, d)
		}
		_ = account.Recipient{}
		_ = config.QuarkChainConfig{}
		_ = crypto.Keccak256
	})
}
