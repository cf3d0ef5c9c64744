// Package c08: executing a transaction conserves every token and charges
// exactly its gas. Transactions of every kind are executed one after another in
// a block on generated states; an independent model says which are admitted,
// what they cost and what leaves the shard, and the whole state before and after
// is compared with it.
package c08

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/big"
	"testing"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/config"
	qcom "github.com/QuarkChain/goquarkchain/common"
	"github.com/QuarkChain/goquarkchain/consensus"
	"github.com/QuarkChain/goquarkchain/core"
	"github.com/QuarkChain/goquarkchain/core/state"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/core/vm"
	"github.com/QuarkChain/goquarkchain/serialize"
	"github.com/QuarkChain/goquarkchain/zzverif/chainenv"
	"github.com/QuarkChain/goquarkchain/zzverif/vlib"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/ethdb"
	"github.com/ethereum/go-ethereum/params"
	"github.com/ethereum/go-ethereum/trie"
	"pgregory.net/rapid"
)

const xcost = 9000

var (
	tka      = qcom.TokenIDEncode("TKA")
	tkb      = qcom.TokenIDEncode("TKB")
	coinbase = common.HexToAddress("0xc01bba5e00000000000000000000000000000001")
	manager  = vm.SystemContracts[vm.GENERAL_NATIVE_TOKEN].Address()
	curMnt   = common.HexToAddress("000000000000000000000000000000514b430001")
	xferMnt  = common.HexToAddress("000000000000000000000000000000514b430002")
)

type chain struct{ cfg *config.QuarkChainConfig }

func (c chain) Engine() consensus.Engine             { return new(consensus.FakeEngine) }
func (c chain) Config() *config.QuarkChainConfig     { return c.cfg }
func (c chain) GetHeader(common.Hash) types.IHeader { return nil }

// ---- contracts ---------------------------------------------------------------

func push(b []byte, v uint64) []byte {
	var x [8]byte
	binary.BigEndian.PutUint64(x[:], v)
	y := bytes.TrimLeft(x[:], "\x00")
	if len(y) == 0 {
		y = []byte{0}
	}
	return append(append(b, byte(0x5f+len(y))), y...)
}
func pushA(b []byte, a common.Address) []byte { return append(append(b, 0x73), a[:]...) }

type tmpl struct {
	name    string
	code    []byte
	queries bool // asks which token it received
	// cost gives the execution gas and refund, or ok=false when not predicted
	cost func(slots map[byte]byte) (gas, refund uint64, ok bool)
	// outcome: "", "revert", "burn" (all gas)
	outcome string
	writes  [][2]byte
}

func konst(g uint64) func(map[byte]byte) (uint64, uint64, bool) {
	return func(map[byte]byte) (uint64, uint64, bool) { return g, 0, true }
}

func slotsTmpl(w [][2]byte) tmpl {
	var code []byte
	for _, x := range w {
		code = append(code, 0x60, x[1], 0x60, x[0], 0x55)
	}
	return tmpl{name: fmt.Sprintf("sstore%v", w), code: append(code, 0), writes: w, cost: func(cur map[byte]byte) (g, r uint64, ok bool) {
		m := map[byte]byte{}
		for k, v := range cur {
			m[k] = v
		}
		for _, x := range w {
			old, nw := m[x[0]], x[1]
			switch {
			case old == 0 && nw != 0:
				g += 20000
			case old != 0 && nw == 0:
				g += 5000
				r += 15000
			default:
				g += 5000
			}
			g += 6
			m[x[0]] = nw
		}
		return g, r, true
	}}
}

// callTmpl calls target with the given value and ignores the result.
func callTmpl(name string, target common.Address, value uint64, in []byte, queries bool, after []byte) tmpl {
	var b []byte
	for i := 0; i < len(in); i += 32 {
		w := make([]byte, 32)
		copy(w, in[i:])
		b = append(append(b, 0x7f), w...)
		b = push(b, uint64(i))
		b = append(b, 0x52)
	}
	b = push(b, 0)
	b = push(b, 0)
	b = push(b, uint64(len(in)))
	b = push(b, 0)
	b = push(b, value)
	b = pushA(b, target)
	b = append(b, 0x5a, 0xf1) // GAS CALL
	b = append(b, 0x50)
	return tmpl{name: name, code: append(append(b, after...), 0), queries: queries}
}

func word(v *big.Int) []byte { return common.LeftPadBytes(v.Bytes(), 32) }

func genTmpl(rt *rapid.T, others []common.Address, label string) tmpl {
	k := rapid.SampledFrom([]string{"stop", "revert", "invalid", "loop", "slots", "slots", "log", "forward", "query", "sendmnt", "suicide", "creator", "random", "retdata"}).Draw(rt, label)
	other := rapid.SampledFrom(others).Draw(rt, label+"other")
	switch k {
	case "stop":
		return tmpl{name: k, code: []byte{0}, cost: konst(0)}
	case "revert":
		return tmpl{name: k, code: []byte{0x60, 0, 0x60, 0, 0xfd}, cost: konst(6), outcome: "revert"}
	case "invalid":
		return tmpl{name: k, code: []byte{0xfe}, cost: konst(0), outcome: "burn"}
	case "loop":
		return tmpl{name: k, code: []byte{0x5b, 0x60, 0, 0x56}, outcome: "burn", cost: konst(0)}
	case "slots":
		n := rapid.SampledFrom([]int{1, 2, 3, 6, 12}).Draw(rt, label+"n")
		var w [][2]byte
		for i := 0; i < n; i++ {
			w = append(w, [2]byte{byte(rapid.IntRange(0, 12).Draw(rt, "slot")), rapid.SampledFrom([]byte{0, 0, 0, 1, 2}).Draw(rt, "val")})
		}
		return slotsTmpl(w)
	case "log":
		return tmpl{name: k, code: []byte{0x60, 7, 0x60, 0, 0x60, 0, 0xa1, 0}, cost: konst(9 + 375 + 375)}
	case "retdata":
		return tmpl{name: k, code: []byte{0x60, 32, 0x60, 0, 0xf3}, cost: konst(6 + 3)}
	case "forward":
		return callTmpl("forward->"+other.Hex()[:6], other, uint64(rapid.SampledFrom([]int{0, 1, 5, 1000000}).Draw(rt, "fv")), nil, false, nil)
	case "query":
		after := rapid.SampledFrom([][]byte{nil, {0x60, 0, 0x60, 0, 0xfd}, {0x60, 1, 0x60, 3, 0x55}}).Draw(rt, "after")
		return callTmpl("query", curMnt, 0, nil, true, after)
	case "sendmnt":
		tok := rapid.SampledFrom([]uint64{chainenv.QKC, tka, tkb}).Draw(rt, "mtok")
		in := append(append(word(new(big.Int).SetBytes(other[:])), word(new(big.Int).SetUint64(tok))...), word(big.NewInt(int64(rapid.SampledFrom([]int{0, 1, 7, 100000}).Draw(rt, "mv"))))...)
		t := callTmpl("sendmnt", xferMnt, 0, in, false, nil)
		if rapid.Bool().Draw(rt, "alsoQuery") {
			q := callTmpl("", curMnt, 0, nil, true, nil)
			t.code = append(q.code[:len(q.code)-1:len(q.code)-1], t.code...)
			t.queries = true
		}
		return t
	case "suicide":
		return tmpl{name: "suicide->" + other.Hex()[:6], code: append(pushA(nil, other), 0xff)}
	case "creator":
		init := rapid.SampledFrom([][]byte{{0}, {0xfe}, {0x60, 1, 0x60, 0, 0xf3}}).Draw(rt, "init")
		var b []byte
		b = append(append(b, 0x7f), common.RightPadBytes(init, 32)...)
		b = append(b, 0x60, 0, 0x52)
		b = push(b, uint64(len(init)))
		b = push(b, 0)
		b = push(b, uint64(rapid.IntRange(0, 3).Draw(rt, "cv")))
		return tmpl{name: k, code: append(b, 0xf0, 0x50, 0)}
	default:
		code := rapid.SliceOfN(rapid.Byte(), 1, 40).Draw(rt, label+"code")
		for i := range code {
			if code[i] == 0xff || code[i] == 0x41 { // no unknown suicides, no payments to the coinbase
				code[i] = 0x50
			}
		}
		return tmpl{name: fmt.Sprintf("random%x", code), code: code}
	}
}

// managerCode answers (rate, price*num/den) and counts its calls in slot 0.
func managerCode(rate, num, den uint64) []byte {
	var b []byte
	b = append(b, 0x60, 0, 0x54, 0x60, 1, 0x01, 0x60, 0, 0x55)
	b = push(b, rate)
	b = append(b, 0x60, 0, 0x52)
	b = push(b, den)
	b = push(b, num)
	b = append(b, 0x60, 68, 0x35, 0x02, 0x04)
	b = append(b, 0x60, 32, 0x52, 0x60, 64, 0x60, 0, 0xf3)
	return b
}

// ---- full view of a state ------------------------------------------------------

type view struct {
	bal   map[uint64]*big.Int
	nonce uint64
	code  common.Hash
	store common.Hash
}

func (v view) String() string {
	return fmt.Sprintf("{%v n%d c%x s%x}", v.bal, v.nonce, v.code[:4], v.store[:4])
}

func dump(rt *rapid.T, st *state.StateDB) map[common.Address]view {
	cp := st.Copy()
	root, err := cp.Commit(true)
	if err != nil {
		rt.Fatalf("commit of a copy: %v", err)
	}
	tr, err := st.Database().OpenTrie(root)
	if err != nil {
		rt.Fatalf("open: %v", err)
	}
	s2, err := state.New(root, st.Database())
	if err != nil {
		rt.Fatalf("open: %v", err)
	}
	out := map[common.Address]view{}
	it := trie.NewIterator(tr.NodeIterator(nil))
	for it.Next() {
		a := common.BytesToAddress(tr.GetKey(it.Key))
		v := view{bal: map[uint64]*big.Int{}, nonce: s2.GetNonce(a), code: s2.GetCodeHash(a)}
		for k, b := range s2.GetBalances(a).GetBalanceMap() {
			if b.Sign() != 0 {
				v.bal[k] = b
			}
			if b.Sign() < 0 {
				rt.Fatalf("negative balance %v of token %d at %x", b, k, a)
			}
		}
		if t := s2.StorageTrie(a); t != nil {
			v.store = t.Hash()
		}
		out[a] = v
	}
	return out
}

func supply(d map[common.Address]view) map[uint64]*big.Int {
	s := map[uint64]*big.Int{}
	for _, v := range d {
		for k, b := range v.bal {
			if s[k] == nil {
				s[k] = new(big.Int)
			}
			s[k].Add(s[k], b)
		}
	}
	return s
}

func eqBal(a, b map[uint64]*big.Int) bool {
	for k, v := range a {
		w := b[k]
		if w == nil {
			w = new(big.Int)
		}
		if v.Cmp(w) != 0 {
			return false
		}
	}
	for k, v := range b {
		if a[k] == nil && v.Sign() != 0 {
			return false
		}
	}
	return true
}

func same(a, b map[common.Address]view) string {
	for k, v := range a {
		w, ok := b[k]
		if !ok {
			return fmt.Sprintf("%x %v vanished", k, v)
		}
		if v.nonce != w.nonce || v.code != w.code || v.store != w.store || !eqBal(v.bal, w.bal) {
			return fmt.Sprintf("%x: %v, expected %v", k, w, v)
		}
	}
	for k, w := range b {
		if _, ok := a[k]; !ok {
			return fmt.Sprintf("%x %v appeared", k, w)
		}
	}
	return ""
}

// clone with balance edits
type edit struct{ d map[common.Address]view }

func cloneView(d map[common.Address]view) edit {
	o := map[common.Address]view{}
	for a, v := range d {
		w := v
		w.bal = map[uint64]*big.Int{}
		for k, b := range v.bal {
			w.bal[k] = new(big.Int).Set(b)
		}
		o[a] = w
	}
	return edit{o}
}

var emptyCode = common.HexToHash("c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470")

func (e edit) add(a common.Address, tok uint64, x *big.Int, emptyStore common.Hash) {
	v, ok := e.d[a]
	if !ok {
		if x.Sign() == 0 {
			return
		}
		v = view{bal: map[uint64]*big.Int{}, code: emptyCode, store: emptyStore}
	}
	if v.bal == nil {
		v = view{bal: map[uint64]*big.Int{}, nonce: v.nonce, code: emptyCode, store: emptyStore}
	}
	if v.bal[tok] == nil {
		v.bal[tok] = new(big.Int)
	}
	v.bal[tok].Add(v.bal[tok], x)
	if v.bal[tok].Sign() == 0 {
		delete(v.bal, tok)
	}
	e.d[a] = v
}

func mul(a uint64, p *big.Int) *big.Int { return new(big.Int).Mul(new(big.Int).SetUint64(a), p) }

// rateOf floors x*r.
func rateOf(x *big.Int, r *big.Rat) *big.Int {
	n := new(big.Int).Mul(x, r.Num())
	return n.Div(n, r.Denom())
}

func intrinsic(data []byte, create, cross bool) uint64 {
	g := uint64(21000)
	if create {
		g = 53000
	}
	for _, b := range data {
		if b == 0 {
			g += 4
		} else {
			g += 68
		}
	}
	if cross {
		g += xcost
	}
	return g
}

var emptyStore = common.HexToHash("56e81f171bcc55a6ff8345e692c0f86e5b48e01b996cadc001622fb5e363b421")

func TestTransactions(t *testing.T) {
	vlib.Check(t, 2000, 40000, "at least one transaction was accepted and charged with a non-zero price, or one was rejected for a reason other than its nonce", func(rt *rapid.T, c *vlib.C) {
		shards := rapid.SampledFrom([]uint32{1, 2, 4}).Draw(rt, "shards")
		cfg := chainenv.MakeConfig(chainenv.Opt{ChainSize: 2, ShardSize: shards})
		q := cfg.Quarkchain
		q.LocalFeeRate = rapid.SampledFrom([]*big.Rat{big.NewRat(1, 2), big.NewRat(1, 1), big.NewRat(1, 3), big.NewRat(7, 10), new(big.Rat)}).Draw(rt, "localFeeRate")
		evmOn := rapid.IntRange(0, 3).Draw(rt, "evm") != 0
		ts := uint64(1000)
		q.EnableEvmTimeStamp = 0
		if !evmOn {
			q.EnableEvmTimeStamp = 2000
		} else if rapid.Bool().Draw(rt, "evmExact") {
			q.EnableEvmTimeStamp = ts
		}
		sdb := state.NewDatabase(ethdb.NewMemDatabase())
		st, err := state.New(common.Hash{}, sdb)
		if err != nil {
			rt.Fatalf("%v", err)
		}
		ids := q.GetGenesisShardIds()
		home := rapid.SampledFrom(ids).Draw(rt, "home")
		limit := rapid.SampledFrom([]uint64{12000000, 12000000, 12000000, 300000, 60000}).Draw(rt, "blockLimit")
		prep := func(s *state.StateDB) {
			s.SetQuarkChainConfig(q)
			s.SetTimeStamp(ts)
			s.SetBlockNumber(5)
			s.SetBlockCoinbase(coinbase)
			s.SetGasLimit(new(big.Int).SetUint64(limit))
		}
		prep(st)
		st.SetFullShardKey(home)

		// accounts
		e18 := new(big.Int).Exp(big.NewInt(10), big.NewInt(18), nil)
		nSend := rapid.IntRange(1, 3).Draw(rt, "senders")
		for i := 0; i < nSend; i++ {
			a := chainenv.Addrs[i]
			st.AddBalance(a, rapid.SampledFrom([]*big.Int{e18, e18, e18, e18, big.NewInt(1000000000), big.NewInt(0), big.NewInt(25000)}).Draw(rt, "qkc"), chainenv.QKC)
			for _, tk := range []uint64{tka, tkb} {
				st.AddBalance(a, rapid.SampledFrom([]*big.Int{e18, e18, e18, big.NewInt(0), big.NewInt(1), big.NewInt(90000)}).Draw(rt, "tok"), tk)
			}
			st.SetNonce(a, uint64(rapid.SampledFrom([]int{0, 1, 300}).Draw(rt, "nonce0")))
		}
		plain := []common.Address{common.HexToAddress("0xaa01"), common.HexToAddress("0xaa02"), chainenv.Addrs[0], chainenv.Addrs[1]}
		nC := rapid.IntRange(1, 3).Draw(rt, "contracts")
		var caddr []common.Address
		for i := 0; i < nC; i++ {
			caddr = append(caddr, common.BytesToAddress([]byte{0xcc, byte(i + 1)}))
		}
		tm := map[common.Address]tmpl{}
		for _, a := range caddr {
			others := plain
			for _, o := range caddr {
				if o != a {
					others = append(others[:len(others):len(others)], o)
				}
			}
			x := genTmpl(rt, others, "tmpl")
			tm[a] = x
			st.SetNonce(a, 1)
			st.SetCode(a, x.code)
			st.AddBalance(a, big.NewInt(int64(rapid.SampledFrom([]int{0, 3, 1000000}).Draw(rt, "cbal"))), chainenv.QKC)
			st.AddBalance(a, big.NewInt(int64(rapid.SampledFrom([]int{0, 9}).Draw(rt, "cbalA"))), tka)
			for s := 0; s < 13; s++ {
				if rapid.Bool().Draw(rt, "preset") {
					st.SetState(a, common.BigToHash(big.NewInt(int64(s))), common.BigToHash(big.NewInt(1)))
				}
			}
		}
		rate := uint64(rapid.SampledFrom([]int{100, 100, 60, 0}).Draw(rt, "refundRate"))
		num := uint64(rapid.SampledFrom([]int{1, 2, 0}).Draw(rt, "num"))
		den := uint64(rapid.SampledFrom([]int{1, 3}).Draw(rt, "den"))
		hasMgr := rapid.IntRange(0, 5).Draw(rt, "mgr") != 0
		reserve := rapid.SampledFrom([]*big.Int{e18, e18, big.NewInt(0), big.NewInt(100000)}).Draw(rt, "reserve")
		if hasMgr {
			st.SetNonce(manager, 1)
			st.SetCode(manager, managerCode(rate, num, den))
			st.AddBalance(manager, reserve, chainenv.QKC)
		}
		root, err := st.Commit(true)
		if err != nil {
			rt.Fatalf("%v", err)
		}
		if st, err = state.New(root, sdb); err != nil {
			rt.Fatalf("%v", err)
		}
		prep(st)
		st.SetFullShardKey(home)
		dis := map[account.Recipient]*big.Int{}
		if rapid.IntRange(0, 3).Draw(rt, "posw") == 0 {
			dis[chainenv.Addrs[0]] = rapid.SampledFrom([]*big.Int{big.NewInt(0), big.NewInt(1000000), e18}).Draw(rt, "locked")
		}
		st.SetSenderDisallowMap(dis)

		header := &types.MinorBlockHeader{Number: 5, Time: ts, Branch: account.Branch{Value: home}, Coinbase: account.NewAddress(coinbase, home),
			Difficulty: big.NewInt(1), GasLimit: &serialize.Uint256{Value: new(big.Int).SetUint64(limit)}}
		gp := new(core.GasPool).AddGas(limit)
		used := new(uint64)
		wantFee := new(big.Int)
		declared := uint64(0)
		n := rapid.IntRange(1, 4).Draw(rt, "txs")
		trivial := true
		key := ""
		for i := 0; i < n; i++ {
			before := dump(rt, st)
			o := chainenv.TxOpt{From: rapid.IntRange(0, nSend-1).Draw(rt, "from")}
			from := chainenv.Addrs[o.From]
			fv := before[from]
			get := func(a common.Address, tk uint64) *big.Int {
				if b := before[a].bal[tk]; b != nil {
					return b
				}
				return new(big.Int)
			}
			kind := rapid.SampledFrom([]string{"plain", "call", "call", "call", "create", "xplain", "xcreate"}).Draw(rt, "kind")
			o.Token = rapid.SampledFrom([]uint64{chainenv.QKC, chainenv.QKC, chainenv.QKC, chainenv.QKC, chainenv.QKC, chainenv.QKC, tka, tka, tkb, tkb, qcom.TOKENIDMAX, qcom.TOKENIDMAX + 1}).Draw(rt, "token")
			o.GasToken = rapid.SampledFrom([]uint64{chainenv.QKC, chainenv.QKC, chainenv.QKC, chainenv.QKC, tka, tkb}).Draw(rt, "gasToken")
			o.FromKey = chainenv.Key(home, uint32(rapid.IntRange(0, 0xffff).Draw(rt, "fk")))
			o.ToKey = chainenv.Key(home, uint32(rapid.IntRange(0, 0xffff).Draw(rt, "tk")))
			create := kind == "create" || kind == "xcreate"
			if kind[0] == 'x' {
				dst := rapid.SampledFrom(ids).Draw(rt, "dst")
				o.ToKey = chainenv.Key(dst, uint32(rapid.IntRange(0, 0xffff).Draw(rt, "tk")))
			}
			var ct *tmpl
			switch {
			case create:
				o.Data = rapid.SampledFrom([][]byte{{0}, {0xfe}, {0x60, 0, 0x60, 0, 0xfd}, {0x60, 3, 0x60, 0, 0xf3}, {}, {0x60, 1, 0x60, 1, 0x55}}).Draw(rt, "initcode")
			case kind == "call":
				a := rapid.SampledFrom(caddr).Draw(rt, "callee")
				o.To = &a
				x := tm[a]
				ct = &x
				o.Data = rapid.SliceOfN(rapid.SampledFrom([]byte{0, 1}), 0, 4).Draw(rt, "data")
			default:
				a := rapid.SampledFrom(plain).Draw(rt, "to")
				o.To = &a
				o.Data = rapid.SliceOfN(rapid.SampledFrom([]byte{0, 1}), 0, 4).Draw(rt, "data")
			}
			tx0 := types.NewEvmTransaction(0, from, nil, 0, nil, o.FromKey, o.ToKey, 0, 0, nil, 0, 0)
			_ = tx0.SetFromShardSize(shards)
			_ = tx0.SetToShardSize(shards)
			cross := tx0.FromFullShardId() != tx0.ToFullShardId()
			intr := intrinsic(o.Data, create, cross)
			o.Nonce = fv.nonce
			switch rapid.IntRange(0, 11).Draw(rt, "nonceKind") {
			case 10:
				o.Nonce++
			case 11:
				o.Nonce--
			}
			o.Gas = rapid.SampledFrom([]uint64{intr, intr + 1, intr + 100000, intr + 30000, intr + 7, intr + 100000, intr + 30000, intr + 200000, intr - 1, limit, limit + 1, 1000000}).Draw(rt, "gas")
			o.Price = rapid.SampledFrom([]*big.Int{big.NewInt(0), big.NewInt(1), big.NewInt(3), big.NewInt(7), big.NewInt(1000000007), big.NewInt(1), big.NewInt(3), big.NewInt(7), big.NewInt(1000000007), new(big.Int).Lsh(big.NewInt(1), 127), new(big.Int).Lsh(big.NewInt(1), 128)}).Draw(rt, "price")
			spare := new(big.Int).Set(get(from, o.Token))
			if o.GasToken == o.Token {
				spare.Sub(spare, mul(o.Gas, o.Price))
			}
			o.Value = rapid.SampledFrom([]*big.Int{big.NewInt(0), big.NewInt(1), big.NewInt(5), spare, new(big.Int).Add(spare, big.NewInt(1)), new(big.Int).Sub(spare, big.NewInt(1))}).Draw(rt, "value")
			if o.Value.Sign() < 0 {
				o.Value = big.NewInt(2)
			}
			tx := chainenv.Tx(o)
			_ = tx.EvmTx.SetFromShardSize(shards)
			_ = tx.EvmTx.SetToShardSize(shards)

			// --- the model: is it admitted?
			price := o.Price
			why := ""
			conv := o.GasToken != chainenv.QKC
			switch {
			case o.Price.BitLen() > 128:
				why = "price"
			case o.Token > qcom.TOKENIDMAX:
				why = "token id"
			case o.Nonce != fv.nonce:
				why = "nonce"
			case o.Gas < intr:
				why = "intrinsic gas"
			case o.Token != chainenv.QKC && get(from, o.Token).Sign() == 0, conv && get(from, o.GasToken).Sign() == 0:
				why = "token not held"
			}
			if why == "" {
				cost := map[uint64]*big.Int{o.Token: new(big.Int).Set(o.Value)}
				if cost[o.GasToken] == nil {
					cost[o.GasToken] = new(big.Int)
				}
				cost[o.GasToken].Add(cost[o.GasToken], mul(o.Gas, o.Price))
				for tk, x := range cost {
					if get(from, tk).Cmp(x) < 0 {
						why = "balance"
					}
				}
			}
			if why == "" && conv {
				price = new(big.Int).Mul(o.Price, new(big.Int).SetUint64(num))
				price.Div(price, new(big.Int).SetUint64(den))
				if !hasMgr {
					why = "no manager"
				} else if price.Sign() == 0 {
					why = "conversion"
				} else if get(manager, chainenv.QKC).Cmp(mul(o.Gas, price)) < 0 {
					why = "reserve"
				}
			}
			gasBefore := new(big.Int).Set(st.GetGasUsed())
			if why == "" && gasBefore.Uint64()+o.Gas > limit {
				why = "block gas"
			}

			// --- the real thing
			xBefore := len(st.GetXShardList())
			feeBefore := new(big.Int)
			if f := st.GetBlockFee()[chainenv.QKC]; f != nil {
				feeBefore.Set(f)
			}
			verr := core.ValidateTransaction(st, params.TestChainConfig, tx, nil)
			if d := same(before, dump(rt, st)); d != "" {
				rt.Fatalf("validating a transaction changed the state: %s", d)
			}
			var rec *types.Receipt
			var aerr error
			if verr == nil {
				st.Prepare(tx.Hash(), common.Hash{}, i)
				gpBefore := gp.Gas()
				_, rec, _, aerr = core.ApplyTransaction(params.TestChainConfig, chain{q}, gp, st, header, tx, used, vm.Config{})
				if aerr != nil && gp.Gas() != gpBefore {
					rt.Fatalf("rejected transaction took gas from the block's pool")
				}
			}
			ok := verr == nil && aerr == nil
			desc := fmt.Sprintf("%s from S%d token %d gastoken %d gas %d(intr %d) price %v value %v evm %v", kind, o.From, o.Token, o.GasToken, o.Gas, intr, o.Price, o.Value, evmOn)
			if ct != nil {
				desc += " code " + ct.name
			}
			if why == "" && aerr == core.ErrGasLimitReached && declared+o.Gas > limit {
				// gas set aside for another shard may count against the block
				why = "block gas pool"
			}
			if ok != (why == "") {
				rt.Fatalf("%s: model says %q, code says validate %v apply %v", desc, why, verr, aerr)
			}
			after := dump(rt, st)
			if !ok {
				c.Label("rejected: %s", why)
				if why != "nonce" {
					trivial = false
				}
				key += "r:" + why + ";"
				if d := same(before, after); d != "" {
					rt.Fatalf("%s rejected (%v %v) but state changed: %s", desc, verr, aerr, d)
				}
				if st.GetGasUsed().Cmp(gasBefore) != 0 || len(st.GetXShardList()) != xBefore {
					rt.Fatalf("%s rejected but block gas or deposits changed", desc)
				}
				continue
			}
			declared += o.Gas
			failed := rec.Status == types.ReceiptStatusFailed
			c.Label("%s failed=%v cross=%v conv=%v", kind, failed, cross, conv)
			if price.Sign() > 0 {
				trivial = false
			}
			key += desc + ";"
			c.Sample("%s -> failed=%v gas=%d", desc, failed, rec.GasUsed)

			// --- nonce
			if after[from].nonce != fv.nonce+1 {
				rt.Fatalf("%s: sender nonce %d -> %d", desc, fv.nonce, after[from].nonce)
			}
			// --- gas
			delta := new(big.Int).Sub(st.GetGasUsed(), gasBefore).Uint64()
			if rec.GasUsed != delta || rec.CumulativeGasUsed != st.GetGasUsed().Uint64() {
				rt.Fatalf("%s: receipt gas %d cumulative %d; the block's gas went from %v to %v", desc, rec.GasUsed, rec.CumulativeGasUsed, gasBefore, st.GetGasUsed())
			}
			if rec.TxHash != tx.Hash() || (failed && len(rec.Logs) != 0) {
				rt.Fatalf("%s: receipt %+v", desc, rec)
			}
			spent := delta // gas charged here at price
			qafter := new(big.Int).Set(get(from, chainenv.QKC))
			if !conv {
				qafter.Sub(qafter, mul(o.Gas, price))
			}
			locked := dis[from]
			posw := locked != nil && new(big.Int).Add(o.Value, locked).Cmp(qafter) > 0
			outGas := uint64(0)
			if cross {
				if posw != failed {
					rt.Fatalf("%s: staked balance rule %v but failed=%v", desc, posw, failed)
				}
				deps := st.GetXShardList()[xBefore:]
				if failed {
					if delta != o.Gas || len(deps) != 0 {
						rt.Fatalf("%s: failed cross-shard transaction used %d, %d deposits", desc, delta, len(deps))
					}
				} else {
					if len(deps) != 1 {
						rt.Fatalf("%s: %d deposits", desc, len(deps))
					}
					d := deps[0]
					rem := uint64(0)
					if evmOn || create {
						rem = o.Gas - intr
					}
					outGas = rem + xcost
					wantDelta := intr - xcost
					if !evmOn {
						wantDelta = intr
						spent = intr - xcost
						if create {
							// gas set aside for the other shard counts as used here
							wantDelta = delta
						}
					}
					if delta != wantDelta {
						rt.Fatalf("%s: used %d, expected %d", desc, delta, wantDelta)
					}
					to := common.Address{}
					if create {
						fk := o.FromKey
						to = vm.CreateAddress(from, &fk, fv.nonce+1)
					} else {
						to = *o.To
					}
					if d.TxHash != tx.Hash() || d.From != (account.Address{Recipient: from, FullShardKey: o.FromKey}) || d.To != (account.Address{Recipient: to, FullShardKey: o.ToKey}) ||
						d.Value.Value.Cmp(o.Value) != 0 || d.GasPrice.Value.Cmp(price) != 0 || d.GasTokenID != chainenv.QKC || d.TransferTokenID != o.Token ||
						d.GasRemained.Value.Uint64() != rem || !bytes.Equal(d.MessageData, o.Data) || d.CreateContract != create || d.IsFromRootChain ||
						(conv && uint64(d.RefundRate) != rate || !conv && d.RefundRate != 100) {
						rt.Fatalf("%s: deposit %+v", desc, d)
					}
				}
			} else {
				if len(st.GetXShardList()) != xBefore {
					rt.Fatalf("%s: in-shard transaction left a deposit", desc)
				}
				if delta > o.Gas || (delta < intr && (failed || ct == nil)) || delta < (intr+1)/2 {
					rt.Fatalf("%s: used %d of %d, intrinsic %d", desc, delta, o.Gas, intr)
				}
				if badCreate := create && o.Token != chainenv.QKC; posw && !badCreate && (!failed || delta != o.Gas) {
					rt.Fatalf("%s: spends staked balance, failed=%v used %d", desc, failed, delta)
				}
				if kind == "plain" || kind == "xplain" {
					if !posw && (failed || delta != intr) {
						rt.Fatalf("%s: plain transfer failed=%v used %d", desc, failed, delta)
					}
				}
				if create && o.Token != chainenv.QKC && (!failed || delta != intr) {
					rt.Fatalf("%s: creation with another token failed=%v used %d", desc, failed, delta)
				}
				if ct != nil && ct.cost != nil && !posw && before[*o.To].code != emptyCode {
					cur := map[byte]byte{}
					for s := 0; s < 13; s++ {
						cur[byte(s)] = preStore(rt, sdb, before, *o.To, s)
					}
					g, r, _ := ct.cost(cur)
					wantUsed, wantFail := uint64(0), false
					avail := o.Gas - intr
					switch {
					case g > avail || ct.outcome == "burn":
						wantUsed, wantFail = o.Gas, true
					case ct.outcome == "revert":
						wantUsed, wantFail = intr+g, true
					case o.Token != chainenv.QKC && o.Value.Sign() > 0:
						wantUsed, wantFail = intr+g, true
					default:
						if r > (intr+g)/2 {
							r = (intr + g) / 2
							c.Label("refund capped")
						} else if r > 0 {
							c.Label("refund")
						}
						wantUsed = intr + g - r
					}
					if st.HasSuicided(*o.To) {
						wantUsed, wantFail = delta, failed
					}
					if wantUsed != delta || wantFail != failed {
						rt.Fatalf("%s: used %d failed %v, expected %d %v", desc, delta, failed, wantUsed, wantFail)
					}
				}
				if ct != nil && !posw && !failed && o.Token != chainenv.QKC && o.Value.Sign() > 0 && !ct.queries && len(ct.name) < 6 {
					rt.Fatalf("%s: token kept by a contract that never asked for it", desc)
				}
			}
			// --- fee
			share := rateOf(mul(spent, price), q.LocalFeeRate)
			wantFee.Add(wantFee, share)
			fee := new(big.Int)
			if f := st.GetBlockFee()[chainenv.QKC]; f != nil {
				fee.Set(f)
			}
			if fee.Cmp(wantFee) != 0 {
				rt.Fatalf("%s: block fee %v, expected %v", desc, fee, wantFee)
			}
			cbGain := new(big.Int)
			if b := after[coinbase].bal[chainenv.QKC]; b != nil {
				cbGain.Add(cbGain, b)
			}
			cbGain.Sub(cbGain, get(coinbase, chainenv.QKC))
			if cbGain.Cmp(share) != 0 {
				rt.Fatalf("%s: coinbase got %v, expected %v (used %d price %v rate %v)", desc, cbGain, share, spent, price, q.LocalFeeRate)
			}
			// --- conservation
			want := supply(before)
			sub := func(tk uint64, x *big.Int) {
				if want[tk] == nil {
					want[tk] = new(big.Int)
				}
				want[tk].Sub(want[tk], x)
			}
			sub(chainenv.QKC, new(big.Int).Sub(mul(spent, price), share))
			if cross && !failed {
				sub(o.Token, o.Value)
				sub(chainenv.QKC, mul(outGas, price))
			}
			for _, a := range caddr {
				if bv, had := before[a]; had {
					if _, still := after[a]; !still {
						for tk, b := range bv.bal {
							if tk != chainenv.QKC {
								sub(tk, b) // documented loss: other tokens of a destroyed contract
							}
						}
						c.Label("self-destruct")
					}
				}
			}
			if got := supply(after); !eqBal(got, want) {
				rt.Fatalf("%s: supply %v, expected %v (before %v) failed=%v", desc, got, want, supply(before), failed)
			}
			// --- exact outcome of failed transactions and plain transfers
			simple := kind == "plain" || kind == "xplain" || kind == "xcreate" && cross
			if failed || simple {
				ex := cloneView(before)
				v := ex.d[from]
				v.nonce++
				ex.d[from] = v
				ex.add(from, o.GasToken, new(big.Int).Neg(mul(o.Gas, o.Price)), emptyStore)
				back := mul(o.Gas-spent-outGas, price)
				if conv {
					ex.add(manager, chainenv.QKC, new(big.Int).Neg(mul(o.Gas, price)), emptyStore)
					ex.add(manager, o.GasToken, mul(o.Gas, o.Price), emptyStore)
					m := ex.d[manager]
					m.store = after[manager].store // its call counter
					ex.d[manager] = m
					keep := new(big.Int).Mul(back, new(big.Int).SetUint64(rate))
					keep.Div(keep, big.NewInt(100))
					ex.add(common.Address{}, chainenv.QKC, new(big.Int).Sub(back, keep), emptyStore)
					back = keep
				}
				ex.add(from, chainenv.QKC, back, emptyStore)
				ex.add(coinbase, chainenv.QKC, share, emptyStore)
				if !failed {
					ex.add(from, o.Token, new(big.Int).Neg(o.Value), emptyStore)
					if !cross {
						ex.add(*o.To, o.Token, o.Value, emptyStore)
					}
				}
				if d := same(ex.d, after); d != "" {
					rt.Fatalf("%s failed=%v: %s", desc, failed, d)
				}
			}
		}
		if !trivial {
			c.NonTrivial("%s", key)
		}
	})
}

// preStore reads a slot as it was in the dumped state.
func preStore(rt *rapid.T, sdb state.Database, d map[common.Address]view, a common.Address, s int) byte {
	tr, err := sdb.OpenStorageTrie(common.BytesToHash(a[:]), d[a].store)
	if err != nil {
		rt.Fatalf("open storage: %v", err)
	}
	key := common.BigToHash(big.NewInt(int64(s)))
	enc, err := tr.TryGet(key[:])
	if err != nil {
		rt.Fatalf("storage: %v", err)
	}
	if len(enc) == 0 {
		return 0
	}
	return enc[len(enc)-1]
}
