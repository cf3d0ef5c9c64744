// Package c21: contract code executes exactly as the Ethereum rules of its fork
// say. Generated programs, operands, precompile inputs and sequences of
// transactions run both here and in go-ethereum 1.8.20 (harness/gethvm, under a
// reference transition written here from the Ethereum rules).
package c21

import (
	"bytes"
	"fmt"
	"math/big"
	"testing"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/config"
	"github.com/QuarkChain/goquarkchain/consensus"
	"github.com/QuarkChain/goquarkchain/core"
	"github.com/QuarkChain/goquarkchain/core/state"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/core/vm"
	qparams "github.com/QuarkChain/goquarkchain/params"
	"github.com/QuarkChain/goquarkchain/serialize"
	"github.com/QuarkChain/goquarkchain/zzverif/chainenv"
	"github.com/QuarkChain/goquarkchain/zzverif/evmgen"
	"github.com/QuarkChain/goquarkchain/zzverif/gethvm"
	"github.com/QuarkChain/goquarkchain/zzverif/vlib"
	"github.com/ethereum/go-ethereum/common"
	gstate "github.com/ethereum/go-ethereum/core/state"
	gtypes "github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/ethdb"
	"github.com/ethereum/go-ethereum/rlp"
	"pgregory.net/rapid"
)

var (
	qkc      = chainenv.QKC
	coinbase = common.HexToAddress("c0ffee01")
	missing  = common.HexToAddress("dead01")
	poor     = common.HexToAddress("dead02")
	caddrs   []common.Address
)

func init() {
	for i := 0; i < 4; i++ {
		caddrs = append(caddrs, common.BytesToAddress([]byte{0xc1, byte(i + 1)}))
	}
}

type pair struct {
	q   *state.StateDB
	g   *gstate.StateDB
	gdb gstate.Database
	cfg *config.QuarkChainConfig
}

func newPair(ts uint64) *pair {
	p := &pair{cfg: chainenv.MakeConfig(chainenv.Opt{ChainSize: 1, ShardSize: 1}).Quarkchain}
	qs, err := state.New(common.Hash{}, state.NewDatabase(ethdb.NewMemDatabase()))
	if err != nil {
		panic(err)
	}
	p.gdb = gstate.NewDatabase(ethdb.NewMemDatabase())
	gs, err := gstate.New(common.Hash{}, p.gdb)
	if err != nil {
		panic(err)
	}
	p.q, p.g = qs, gs
	p.set(qs, ts)
	return p
}

func (p *pair) set(qs *state.StateDB, ts uint64) {
	qs.SetQuarkChainConfig(p.cfg)
	qs.SetTimeStamp(ts)
	qs.SetGasUsed(new(big.Int))
	qs.SetGasLimit(new(big.Int).SetUint64(1 << 62))
}

func (p *pair) bal(a common.Address, v *big.Int) {
	p.q.AddBalance(a, v, qkc)
	p.g.AddBalance(a, v)
}

func (p *pair) contract(a common.Address, code []byte, store map[common.Hash]common.Hash) {
	p.q.SetCode(a, code)
	p.g.SetCode(a, code)
	p.q.SetNonce(a, 1)
	p.g.SetNonce(a, 1)
	for k, v := range store {
		p.q.SetState(a, k, v)
		p.g.SetState(a, k, v)
	}
}

// flush commits both and continues from what was written.
func (p *pair) flush(ts uint64) {
	r, err := p.q.Commit(true)
	if err != nil {
		panic(err)
	}
	q, err := state.New(r, p.q.Database())
	if err != nil {
		panic(err)
	}
	r2, err := p.g.Commit(true)
	if err != nil {
		panic(err)
	}
	g, err := gstate.New(r2, p.gdb)
	if err != nil {
		panic(err)
	}
	p.q, p.g = q, g
	p.set(q, ts)
}

// diff commits copies of both states and compares them entirely.
func (p *pair) diff() string {
	got := chainenv.Dump(p.q)
	cp := p.g.Copy()
	r, err := cp.Commit(true)
	if err != nil {
		return err.Error()
	}
	s, err := gstate.New(r, p.gdb)
	if err != nil {
		return err.Error()
	}
	want := chainenv.View{}
	for h, a := range s.RawDump().Accounts {
		v := chainenv.Acct{Bal: map[uint64]*big.Int{}, Nonce: a.Nonce, Code: common.HexToHash(a.CodeHash), Store: common.HexToHash(a.Root)}
		if b, _ := new(big.Int).SetString(a.Balance, 10); b.Sign() != 0 {
			v.Bal[qkc] = b
		}
		want[common.HexToAddress(h)] = v
	}
	return want.Diff(got)
}

func hashOf(n uint64) common.Hash { return crypto.Keccak256Hash([]byte{byte(n), byte(n >> 8), 7}) }

type world struct {
	origin    common.Address
	price     *big.Int
	num, time uint64
	diff      *big.Int
	limit     uint64
}

func drawWorld(rt *rapid.T) world {
	return world{
		origin: chainenv.Addrs[0],
		price:  big.NewInt(int64(rapid.SampledFrom([]int{0, 1, 7}).Draw(rt, "price"))),
		num:    uint64(rapid.SampledFrom([]int{1, 5, 300, 1000}).Draw(rt, "num")),
		time:   uint64(rapid.SampledFrom([]int{1, 1000, 1 << 40}).Draw(rt, "time")),
		diff:   evmgen.Val(rt, "difficulty"),
		limit:  uint64(rapid.SampledFrom([]int{1, 12000000}).Draw(rt, "limit")),
	}
}

func (p *pair) evms(w world) (*vm.EVM, *gethvm.EVM) {
	qc := vm.Context{
		CanTransfer: core.CanTransfer, Transfer: core.Transfer, TransferFailureByPoswBalanceCheck: core.TransferFailureByPoswBalanceCheck,
		GetHash: hashOf, Origin: w.origin, Coinbase: coinbase, BlockNumber: new(big.Int).SetUint64(w.num), Time: new(big.Int).SetUint64(w.time),
		Difficulty: new(big.Int).Set(w.diff), GasLimit: w.limit, GasPrice: new(big.Int).Set(w.price), GasPriceInGasToken: new(big.Int).Set(w.price),
		GasTokenID: qkc, TransferTokenID: qkc,
	}
	gethvm.NewAddress = func(a common.Address, n uint64) common.Address { return crypto.CreateAddress(a, n) }
	return vm.NewEVM(qc, p.q, &qparams.DefaultConstantinople, vm.Config{}), gethvm.NewEVM(gctx(w, hashOf), p.g, &qparams.DefaultConstantinople, gethvm.Config{})
}

func gctx(w world, gh func(uint64) common.Hash) gethvm.Context {
	return gethvm.Context{
		CanTransfer: func(s gethvm.StateDB, a common.Address, v *big.Int) bool { return s.GetBalance(a).Cmp(v) >= 0 },
		Transfer: func(s gethvm.StateDB, a, b common.Address, v *big.Int) {
			s.SubBalance(a, v)
			s.AddBalance(b, v)
		},
		GetHash: gh, Origin: w.origin, Coinbase: coinbase, BlockNumber: new(big.Int).SetUint64(w.num), Time: new(big.Int).SetUint64(w.time),
		Difficulty: new(big.Int).Set(w.diff), GasLimit: w.limit, GasPrice: new(big.Int).Set(w.price),
	}
}

func errText(e error) string {
	if e == nil {
		return ""
	}
	return e.Error()
}

func sameLogs(q []*types.Log, g []*gtypes.Log) string {
	if len(q) != len(g) {
		return fmt.Sprintf("%d logs, expected %d", len(q), len(g))
	}
	for i := range q {
		a, b := q[i], g[i]
		if common.Address(a.Recipient) != b.Address || !bytes.Equal(a.Data, b.Data) || fmt.Sprint(a.Topics) != fmt.Sprint(b.Topics) || a.BlockNumber != b.BlockNumber || uint(a.Index) != b.Index {
			return fmt.Sprintf("log %d is %v, expected %v", i, a, b)
		}
	}
	return ""
}

// build makes contracts with generated code, balances and storage.
func build(rt *rapid.T, c *vlib.C, p *pair, n int) (*evmgen.World, [][]byte) {
	w := &evmgen.World{Contracts: caddrs[:n], Others: []common.Address{missing, poor, chainenv.Addrs[0], chainenv.Addrs[1]}, Coinbase: coinbase}
	var codes [][]byte
	for i := 0; i < n; i++ {
		code := evmgen.Code(rt, w, 0)
		codes = append(codes, code)
		st := map[common.Hash]common.Hash{}
		for j := rapid.IntRange(0, 3).Draw(rt, "slots"); j > 0; j-- {
			st[common.BigToHash(big.NewInt(int64(j)))] = common.BigToHash(big.NewInt(int64(j * 11)))
		}
		p.contract(caddrs[i], code, st)
		p.bal(caddrs[i], big.NewInt(int64(rapid.SampledFrom([]int{0, 1, 5, 1000}).Draw(rt, "cbal"))))
	}
	p.bal(poor, big.NewInt(3))
	return w, codes
}

// TestPrograms runs generated contracts through each way of entering the
// machine.
func TestPrograms(t *testing.T) {
	vlib.Check(t, 2500, 60000, "the program ran to its end or to a rule (not just out of gas in the first steps) and more than 200 gas were used", func(rt *rapid.T, c *vlib.C) {
		w := drawWorld(rt)
		p := newPair(w.time)
		ew, codes := build(rt, c, p, rapid.IntRange(1, 4).Draw(rt, "contracts"))
		for _, a := range chainenv.Addrs[:2] {
			p.bal(a, big.NewInt(1000000))
		}
		if rapid.Bool().Draw(rt, "flush") {
			p.flush(w.time)
		}
		h := common.Hash{1}
		p.q.Prepare(h, common.Hash{2}, 3)
		p.g.Prepare(h, common.Hash{2}, 3)
		qe, ge := p.evms(w)
		what := ""
		for k := rapid.IntRange(1, 3).Draw(rt, "calls"); k > 0; k-- {
			gas := uint64(rapid.SampledFrom([]int{300000, 300000, 300000, 1000000, 50000, 3000, 500, 25000}).Draw(rt, "gas"))
			in := rapid.SliceOfN(rapid.Byte(), 0, 70).Draw(rt, "input")
			value := big.NewInt(int64(rapid.SampledFrom([]int{0, 0, 1, 7, 2000000}).Draw(rt, "value")))
			to := rapid.SampledFrom(caddrs[:len(codes)]).Draw(rt, "to")
			from := chainenv.Addrs[0]
			kind := rapid.SampledFrom([]string{"call", "call", "call", "create", "create2", "static", "delegate", "code"}).Draw(rt, "kind")
			var r1, r2 []byte
			var g1, g2 uint64
			var e1, e2 error
			var a1, a2 common.Address
			switch kind {
			case "call":
				r1, g1, e1 = qe.Call(vm.AccountRef(from), to, in, gas, value)
				r2, g2, e2 = ge.Call(gethvm.AccountRef(from), to, in, gas, value)
			case "static":
				r1, g1, e1 = qe.StaticCall(vm.AccountRef(from), to, in, gas)
				r2, g2, e2 = ge.StaticCall(gethvm.AccountRef(from), to, in, gas)
			case "code":
				r1, g1, e1 = qe.CallCode(vm.AccountRef(from), to, in, gas, value)
				r2, g2, e2 = ge.CallCode(gethvm.AccountRef(from), to, in, gas, value)
			case "delegate":
				r1, g1, e1 = qe.DelegateCall(vm.NewContract(vm.AccountRef(from), vm.AccountRef(from), value, gas), to, in, gas)
				r2, g2, e2 = ge.DelegateCall(gethvm.NewContract(gethvm.AccountRef(from), gethvm.AccountRef(from), value, gas), to, in, gas)
			case "create":
				code := evmgen.Init(rt, ew, 0)
				r1, a1, g1, e1 = qe.Create(vm.AccountRef(from), code, gas*3, value, nil)
				r2, a2, g2, e2 = ge.Create(gethvm.AccountRef(from), code, gas*3, value)
			case "create2":
				code := evmgen.Init(rt, ew, 0)
				salt := big.NewInt(int64(rapid.IntRange(0, 1).Draw(rt, "salt")))
				r1, a1, g1, e1 = qe.Create2(vm.AccountRef(from), code, gas*3, value, salt)
				r2, a2, g2, e2 = ge.Create2(gethvm.AccountRef(from), code, gas*3, value, salt)
			}
			if errText(e1) != errText(e2) || g1 != g2 || !bytes.Equal(r1, r2) || a1 != a2 {
				rt.Fatalf("%s %x: (%x, gas left %d, %v, %x), expected (%x, %d, %v, %x)\ncodes %x", kind, to, r1, g1, e1, a1, r2, g2, e2, a2, codes)
			}
			if g1 > gas*3 {
				rt.Fatalf("more gas left (%d) than given", g1)
			}
			if p.q.GetRefund() != p.g.GetRefund() {
				rt.Fatalf("%s %x: refund %d, expected %d\ncodes %x", kind, to, p.q.GetRefund(), p.g.GetRefund(), codes)
			}
			es := errText(e1)
			if len(es) > 30 {
				es = es[:30]
			}
			c.Label("%s: %s", kind, es)
			if gas-g1 > 200 && es != "out of gas" || gas-g1 > 60000 {
				c.NonTrivial("%x %d %x %s", codes, gas, in, kind)
			}
			what += fmt.Sprintf("%s with %d gas: %s, used %d; ", kind, gas, es, gas-g1)
		}
		if s := sameLogs(p.q.GetLogs(h), p.g.GetLogs(h)); s != "" {
			rt.Fatalf("%s\ncodes %x", s, codes)
		}
		if len(p.q.GetLogs(h)) > 0 {
			c.Label("logs")
		}
		if s := p.diff(); s != "" {
			rt.Fatalf("state: %s\ncodes %x", s, codes)
		}
		c.Sample("%d contracts of %d.. bytes: %s", len(codes), len(codes[0]), what)
	})
}

// TestOps runs single operations on boundary operands.
func TestOps(t *testing.T) {
	codes, args := evmgen.Arith()
	vlib.Check(t, 6000, 150000, "an arithmetic operation on operands drawn from boundary values", func(rt *rapid.T, c *vlib.C) {
		p := newPair(1000)
		a := &evmgen.Asm{}
		what := ""
		for i := 0; i < 6; i++ {
			k := rapid.IntRange(0, len(codes)-1).Draw(rt, "op")
			for j := 0; j < args[k]; j++ {
				v := evmgen.Val(rt, "v")
				a.Push(v)
				what += fmt.Sprintf("%x ", v)
			}
			a.Op(codes[k]).P(uint64(i * 32)).Op(0x52)
			what += fmt.Sprintf("op%02x; ", codes[k])
			c.Label("op %02x", codes[k])
		}
		a.P(192).P(0).Op(0xf3)
		code := a.Bytes()
		p.contract(caddrs[0], code, nil)
		qe, ge := p.evms(world{price: new(big.Int), diff: new(big.Int), num: 1, time: 1000})
		r1, g1, e1 := qe.Call(vm.AccountRef(missing), caddrs[0], nil, 100000, new(big.Int))
		r2, g2, e2 := ge.Call(gethvm.AccountRef(missing), caddrs[0], nil, 100000, new(big.Int))
		if errText(e1) != errText(e2) || g1 != g2 || !bytes.Equal(r1, r2) {
			rt.Fatalf("%s: (%x, gas left %d, %v), expected (%x, %d, %v)", what, r1, g1, e1, r2, g2, e2)
		}
		c.NonTrivial("%s", what)
		c.Sample("%s", what)
	})
}

// TestDepth calls down to the depth limit with plenty of gas.
func TestDepth(t *testing.T) {
	vlib.Check(t, 15, 400, "calls went deeper than 50 frames", func(rt *rapid.T, c *vlib.C) {
		p := newPair(1000)
		ew := &evmgen.World{Contracts: caddrs[:1], Others: []common.Address{missing}, Coinbase: coinbase}
		code := evmgen.Recursor(rt, ew)
		p.contract(caddrs[0], code, nil)
		p.bal(caddrs[0], big.NewInt(5))
		gas := uint64(rapid.SampledFrom([]int{1000000, 100000000000, 1 << 60}).Draw(rt, "gas"))
		qe, ge := p.evms(world{price: new(big.Int), diff: new(big.Int), num: 1, time: 1000})
		r1, g1, e1 := qe.Call(vm.AccountRef(missing), caddrs[0], nil, gas, new(big.Int))
		r2, g2, e2 := ge.Call(gethvm.AccountRef(missing), caddrs[0], nil, gas, new(big.Int))
		if errText(e1) != errText(e2) || g1 != g2 || !bytes.Equal(r1, r2) {
			rt.Fatalf("%x: (%x, gas left %d, %v), expected (%x, %d, %v)", code, r1, g1, e1, r2, g2, e2)
		}
		if s := p.diff(); s != "" {
			rt.Fatalf("state: %s\ncode %x", s, code)
		}
		if gas-g1 > 50*700 {
			c.NonTrivial("%x %d", code, gas)
		}
		c.Sample("%x with %d gas: %v, used %d", code, gas, e1, gas-g1)
	})
}

// TestPrecompiles calls the Ethereum precompiles directly.
func TestPrecompiles(t *testing.T) {
	vlib.Check(t, 1500, 20000, "the precompile accepted its input", func(rt *rapid.T, c *vlib.C) {
		p := newPair(1000)
		i := rapid.SampledFrom([]int{1, 1, 2, 3, 4, 5, 5, 6, 7, 8}).Draw(rt, "precompile")
		in := evmgen.PreInput(rt, i)
		to := common.BytesToAddress([]byte{byte(i)})
		qe, ge := p.evms(world{price: new(big.Int), diff: new(big.Int), num: 1, time: 1000})
		gas := uint64(rapid.SampledFrom([]int{3000000, 3000, 2999, 100, 500, 39999, 40000, 180000}).Draw(rt, "gas"))
		r1, g1, e1 := qe.Call(vm.AccountRef(missing), to, in, gas, new(big.Int))
		r2, g2, e2 := ge.Call(gethvm.AccountRef(missing), to, in, gas, new(big.Int))
		if errText(e1) != errText(e2) || g1 != g2 || !bytes.Equal(r1, r2) {
			rt.Fatalf("precompile %d on %x: (%x, gas left %d, %v), expected (%x, %d, %v)", i, in, r1, g1, e1, r2, g2, e2)
		}
		c.Label("%d: %v, %d bytes", i, e1, len(r1))
		if e1 == nil && len(r1) > 0 {
			c.NonTrivial("%d %x %d", i, in, gas)
		}
		c.Sample("%d(%x) = %x", i, in, r1)
	})
}

// headers is a chain of 300 blocks for BLOCKHASH.
type chain struct {
	cfg  *config.QuarkChainConfig
	hs   []*types.MinorBlockHeader
	byID map[common.Hash]*types.MinorBlockHeader
}

func (x *chain) Engine() consensus.Engine         { return nil }
func (x *chain) Config() *config.QuarkChainConfig { return x.cfg }
func (x *chain) GetHeader(h common.Hash) types.IHeader {
	if v, ok := x.byID[h]; ok {
		return v
	}
	return nil
}

var theChain *chain

func mkHeader(n uint64, parent common.Hash, w world) *types.MinorBlockHeader {
	return &types.MinorBlockHeader{Number: n, ParentHash: parent, Coinbase: account.Address{Recipient: coinbase},
		CoinbaseAmount: types.NewEmptyTokenBalances(), GasLimit: &serialize.Uint256{Value: new(big.Int).SetUint64(w.limit)},
		Time: w.time, Difficulty: new(big.Int).Set(w.diff)}
}

func getChain() *chain {
	if theChain == nil {
		theChain = &chain{byID: map[common.Hash]*types.MinorBlockHeader{}}
		parent := common.Hash{}
		for i := uint64(0); i < 300; i++ {
			h := mkHeader(i, parent, world{diff: big.NewInt(5), limit: 1, time: i})
			theChain.hs = append(theChain.hs, h)
			parent = h.Hash()
			theChain.byID[parent] = h
		}
	}
	return theChain
}

type txCase struct {
	from  int
	to    *common.Address
	nonce uint64
	value *big.Int
	gas   uint64
	price *big.Int
	data  []byte
}

type outcome struct {
	refused bool
	failed  bool
	gas     uint64
	addr    common.Address
	logs    []*gtypes.Log
}

// refTransition is the Ethereum state transition of one transaction.
func refTransition(st *gstate.StateDB, w world, gh func(uint64) common.Hash, fsk uint32, tx txCase, rateNum, rateDen int64) outcome {
	from := chainenv.Addrs[tx.from]
	w.origin, w.price = from, tx.price
	if st.GetNonce(from) != tx.nonce {
		return outcome{refused: true}
	}
	cost := new(big.Int).Mul(tx.price, new(big.Int).SetUint64(tx.gas))
	if st.GetBalance(from).Cmp(cost) < 0 {
		return outcome{refused: true}
	}
	ig := uint64(21000)
	if tx.to == nil {
		ig = 53000
	}
	for _, b := range tx.data {
		if b == 0 {
			ig += 4
		} else {
			ig += 68
		}
	}
	if tx.gas < ig {
		return outcome{refused: true}
	}
	if new(big.Int).Add(cost, tx.value).Cmp(st.GetBalance(from)) > 0 {
		return outcome{refused: true}
	}
	gethvm.NewAddress = func(a common.Address, n uint64) common.Address {
		d, _ := rlp.EncodeToBytes([]interface{}{a, fsk, n})
		return common.BytesToAddress(crypto.Keccak256(d)[12:])
	}
	st.SubBalance(from, cost)
	evm := gethvm.NewEVM(gctx(w, gh), st, &qparams.DefaultConstantinople, gethvm.Config{})
	left := tx.gas - ig
	var err error
	var o outcome
	if tx.to == nil {
		_, o.addr, left, err = evm.Create(gethvm.AccountRef(from), tx.data, left, tx.value)
		if err != nil {
			o.addr = common.Address{}
		}
	} else {
		st.SetNonce(from, tx.nonce+1)
		_, left, err = evm.Call(gethvm.AccountRef(from), *tx.to, tx.data, left, tx.value)
	}
	o.failed = err != nil
	used := tx.gas - left
	r := used / 2
	if st.GetRefund() < r {
		r = st.GetRefund()
	}
	left += r
	used -= r
	o.gas = used
	st.AddBalance(from, new(big.Int).Mul(tx.price, new(big.Int).SetUint64(left)))
	fee := new(big.Int).Mul(tx.price, new(big.Int).SetUint64(used))
	fee.Mul(fee, big.NewInt(rateNum)).Div(fee, big.NewInt(rateDen))
	st.AddBalance(coinbase, fee)
	st.Finalise(true)
	return o
}

// TestTransactions runs blocks of transactions: creations, calls of what was
// created, self-destructions and what follows them, fees and refunds.
func TestTransactions(t *testing.T) {
	vlib.Check(t, 1200, 25000, "at least two transactions ran code", func(rt *rapid.T, c *vlib.C) {
		ch := getChain()
		w := drawWorld(rt)
		w.limit = 1 << 40
		num := uint64(rapid.SampledFrom([]int{2, 10, 299}).Draw(rt, "height"))
		w.num = num
		p := newPair(w.time)
		num1, den1 := int64(1), int64(1)
		switch rapid.IntRange(0, 2).Draw(rt, "rate") {
		case 1:
			num1, den1 = 1, 2
		case 2:
			num1, den1 = 3, 7
		}
		p.cfg.LocalFeeRate = big.NewRat(num1, den1)
		ch.cfg = p.cfg
		ew, codes := build(rt, c, p, rapid.IntRange(1, 4).Draw(rt, "contracts"))
		for _, a := range chainenv.Addrs[:2] {
			p.bal(a, big.NewInt(1000000000))
		}
		p.flush(w.time)
		header := mkHeader(num, ch.hs[num-1].Hash(), w)
		gh := func(n uint64) common.Hash {
			if n < num {
				return ch.hs[n].Hash()
			}
			return common.Hash{}
		}
		known := append([]common.Address{}, caddrs[:len(codes)]...)
		fsk := uint32(rapid.SampledFrom([]int{0, 0xffff, 3}).Draw(rt, "fsk"))
		ran, used, what := 0, new(uint64), ""
		n := rapid.IntRange(1, 6).Draw(rt, "txs")
		for i := 0; i < n; i++ {
			tx := txCase{from: rapid.IntRange(0, 1).Draw(rt, "from"), price: big.NewInt(int64(rapid.SampledFrom([]int{0, 1, 3}).Draw(rt, "price"))),
				gas:   uint64(rapid.SampledFrom([]int{300000, 300000, 1000000, 100000, 60000, 30000, 21000, 20999}).Draw(rt, "gas")),
				value: big.NewInt(int64(rapid.SampledFrom([]int{0, 0, 1, 9, 1 << 40}).Draw(rt, "value")))}
			tx.nonce = p.g.GetNonce(chainenv.Addrs[tx.from])
			if rapid.SampledFrom([]int{0, 0, 0, 0, 0, 0, 0, 1}).Draw(rt, "badNonce") == 1 {
				tx.nonce += uint64(rapid.IntRange(1, 2).Draw(rt, "off")) - 2
			}
			switch rapid.SampledFrom([]int{0, 0, 0, 0, 1, 1, 2, 3}).Draw(rt, "target") {
			case 0:
				to := rapid.SampledFrom(known).Draw(rt, "to")
				tx.to = &to
				tx.data = rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(rt, "input")
			case 1:
				tx.data = evmgen.Init(rt, ew, 0)
			case 2:
				to := rapid.SampledFrom([]common.Address{missing, poor, chainenv.Addrs[1], coinbase}).Draw(rt, "plain")
				tx.to = &to
			case 3: // a precompile
				k := rapid.IntRange(1, 8).Draw(rt, "pre")
				to := common.BytesToAddress([]byte{byte(k)})
				tx.to, tx.data = &to, evmgen.PreInput(rt, k)
			}
			_ = i
			qtx := chainenv.Tx(chainenv.TxOpt{From: tx.from, To: tx.to, Nonce: tx.nonce, Value: tx.value, Gas: tx.gas, Price: tx.price, FromKey: fsk, ToKey: fsk, Data: tx.data})
			h := qtx.Hash()
			p.q.Prepare(h, common.Hash{2}, i)
			p.g.Prepare(h, common.Hash{2}, i)
			before := *used
			ret, rec, gasUsed, err := core.ApplyTransaction(&qparams.DefaultConstantinople, ch, new(core.GasPool).AddGas(1<<50), p.q, header, qtx, used, vm.Config{})
			_ = ret
			o := refTransition(p.g, w, gh, fsk, tx, num1, den1)
			if (err != nil) != o.refused {
				rt.Fatalf("transaction %d: error %v, refused by the rules: %v", i, err, o.refused)
			}
			if o.refused {
				c.Label("refused")
				continue
			}
			o.logs = p.g.GetLogs(h)
			st := uint64(1)
			if o.failed {
				st = 0
			}
			if rec.Status != st || rec.GasUsed != o.gas || gasUsed != o.gas || *used-before != o.gas || common.Address(rec.ContractAddress) != o.addr {
				rt.Fatalf("transaction %d: status %d gas %d/%d/%d created %x, expected %d %d %x\ncodes %x\ndata %x", i, rec.Status, rec.GasUsed, gasUsed, *used-before, rec.ContractAddress, st, o.gas, o.addr, codes, tx.data)
			}
			if s := sameLogs(rec.Logs, o.logs); s != "" {
				rt.Fatalf("transaction %d: %s", i, s)
			}
			if o.addr != (common.Address{}) {
				known = append(known, o.addr)
				c.Label("created")
			}
			if o.gas > 21300 {
				ran++
			}
			for _, a := range known {
				if p.g.Empty(a) {
					c.Label("a contract is gone before the block ends")
				}
			}
			what += fmt.Sprintf("status %d gas %d; ", st, o.gas)
			if rapid.IntRange(0, 9).Draw(rt, "block") == 0 {
				p.flush(w.time)
			}
		}
		if s := p.diff(); s != "" {
			rt.Fatalf("state: %s\n%s\ncodes %x", s, what, codes)
		}
		if ran >= 2 {
			c.NonTrivial("%x %s", codes, what)
		}
		c.Sample("%s", what)
	})
}
