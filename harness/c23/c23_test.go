// Package c23: calls and gas estimates leave the node as it was, and agree with
// each other and with what the transaction does when it is included.
package c23

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"math/big"
	"os"
	"sort"
	"sync"
	"testing"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/config"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/zzverif/chainenv"
	"github.com/QuarkChain/goquarkchain/zzverif/evmgen"
	"github.com/QuarkChain/goquarkchain/zzverif/hist"
	"github.com/QuarkChain/goquarkchain/zzverif/vlib"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/ethdb"
	"github.com/ethereum/go-ethereum/log"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	log.Root().SetHandler(log.DiscardHandler())
	os.Exit(m.Run())
}

const limit = 1000000

func addr(i byte) common.Address {
	return common.BytesToAddress([]byte{0xc0, 0xde, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, i})
}

// Contracts of this package.
var (
	mix     = addr(1) // digests what it sees, without the block
	mixCtx  = addr(2) // digests what it sees, with the block
	needs   = addr(3) // reverts unless an inner call with most of the gas does enough work
	loop    = addr(4) // counts down from word 0
	clears  = addr(5) // writes and clears slots: refunds
	minGas  = addr(6) // reverts unless GAS > word 0
	sponge  = addr(7) // reverts if it gets more gas than word 0: not monotone
	makes   = addr(8) // creates contracts
	gives   = addr(9) // sends its value on to word 0
	random0 = 0x40    // generated programs
)

func sees(block bool) []byte {
	a := &evmgen.Asm{}
	n := 0
	put := func(op ...byte) {
		a.Op(op...).P(uint64(32 * n)).Op(0x52)
		n++
	}
	put(0x60, 0, 0x54) // SLOAD(0)
	put(0x60, 0, 0x35) // CALLDATALOAD(0)
	put(0x33)          // CALLER
	put(0x34)          // CALLVALUE
	put(0x30)          // ADDRESS
	put(0x30, 0x31)    // BALANCE(ADDRESS)
	put(0x32)          // ORIGIN
	put(0x3a)          // GASPRICE
	if block {
		put(0x43)                      // NUMBER
		put(0x42)                      // TIMESTAMP
		put(0x41)                      // COINBASE
		put(0x45)                      // GASLIMIT
		put(0x44)                      // DIFFICULTY
		put(0x60, 1, 0x43, 0x03, 0x40) // BLOCKHASH(NUMBER-1)
	}
	a.P(uint64(32 * n)).P(0).Op(0x20).Op(0x80).P(0).Op(0x55)
	a.P(0).Op(0x52).P(32).P(0).Op(0xf3)
	return a.Bytes()
}

func code() map[common.Address][]byte {
	m := map[common.Address][]byte{}
	for a, c := range hist.Code {
		m[a] = c
	}
	m[mix], m[mixCtx] = sees(false), sees(true)
	// i = word0; while i { i-- } ; SSTORE(3, word0)
	m[loop] = []byte{0x60, 0, 0x35, // 0: i
		0x5b,                       // 3
		0x80, 0x15, 0x60, 16, 0x57, // 4: if i==0 goto 16
		0x60, 1, 0x90, 0x03, // 9: i-1
		0x60, 3, 0x56, // 13
		0x5b, 0x60, 0, 0x35, 0x60, 3, 0x55, 0} // 16
	// CALL(all gas, loop, 0, calldata) ; if !ok revert
	n := &evmgen.Asm{}
	n.Op(0x36).P(0).P(0).Op(0x37)
	n.P(0).P(0).Op(0x36).P(0).P(0).Addr(loop).Op(0x5a, 0xf1, 0x15)
	at := n.P2()
	n.Op(0x57, 0x60, 1, 0x60, 0, 0x55, 0x00)
	n.Set(at, n.Len())
	n.Op(0x5b, 0x60, 0, 0x80, 0xfd)
	m[needs] = n.Bytes()
	// for slots 0..5: SSTORE(k, word0+k... ) then SSTORE(k, 0)
	cl := &evmgen.Asm{}
	for k := uint64(0); k < 6; k++ {
		cl.P(1).P(k).Op(0x55)
	}
	for k := uint64(0); k < 6; k++ {
		cl.P(0).P(k).Op(0x55)
	}
	cl.Op(0)
	m[clears] = cl.Bytes()
	mg := &evmgen.Asm{}
	mg.Op(0x60, 0, 0x35, 0x5a, 0x11) // gas > word0
	p := mg.P2()
	mg.Op(0x57, 0x60, 0, 0x80, 0xfd)
	mg.Set(p, mg.Len())
	mg.Op(0x5b, 0x60, 1, 0x60, 1, 0x55, 0)
	m[minGas] = mg.Bytes()
	sp := &evmgen.Asm{}
	sp.Op(0x60, 0, 0x35, 0x5a, 0x10) // gas < word0
	p = sp.P2()
	sp.Op(0x57, 0x60, 0, 0x80, 0xfd)
	sp.Set(p, sp.Len())
	sp.Op(0x5b, 0x60, 1, 0x60, 1, 0x55, 0)
	m[sponge] = sp.Bytes()
	// CREATE(callvalue, calldata) ; if 0 revert ; return address
	mk := &evmgen.Asm{}
	mk.Op(0x36).P(0).P(0).Op(0x37).Op(0x36).P(0).Op(0x34, 0xf0, 0x80)
	p = mk.P2()
	mk.Op(0x57, 0x60, 0, 0x80, 0xfd)
	mk.Set(p, mk.Len())
	mk.Op(0x5b).P(0).Op(0x52).P(32).P(0).Op(0xf3)
	m[makes] = mk.Bytes()
	// CALL(gas, word0, callvalue) ; return success
	gv := &evmgen.Asm{}
	gv.P(0).P(0).P(0).P(0).Op(0x34, 0x60, 0, 0x35, 0x5a, 0xf1).P(0).Op(0x52).P(32).P(0).Op(0xf3)
	m[gives] = gv.Bytes()
	return m
}

func env(rt *rapid.T, chains, shards uint32) *chainenv.Env {
	o := hist.Opt(chains, shards)
	o.Code = code()
	for a := range o.Code {
		o.Alloc[a] = map[string]*big.Int{"QKC": big.NewInt(100)}
	}
	w := &evmgen.World{Others: []common.Address{chainenv.Addrs[1], addr(0xee)}, Coinbase: chainenv.Addrs[5]}
	for i := 0; i < 3; i++ {
		w.Contracts = append(w.Contracts, addr(byte(random0+i)))
	}
	for _, a := range w.Contracts {
		o.Code[a] = evmgen.Code(rt, w, 0)
		o.Alloc[a] = map[string]*big.Int{"QKC": big.NewInt(100)}
	}
	o.Mutate = func(cc *config.ClusterConfig) {
		for _, id := range cc.Quarkchain.GetGenesisShardIds() {
			cc.Quarkchain.GetShardConfigByFullShardID(id).Genesis.GasLimit = limit
		}
	}
	return chainenv.New(o)
}

// print fingerprints everything a simulation must leave alone.
func print(e *chainenv.Env, id uint32) string {
	m := e.Shard[id]
	db := e.DBs[id].(*ethdb.MemDatabase)
	keys := db.Keys()
	sort.Slice(keys, func(i, j int) bool { return bytes.Compare(keys[i], keys[j]) < 0 })
	h := sha256.New()
	for _, k := range keys {
		v, err := db.Get(k)
		if err != nil {
			panic(err)
		}
		fmt.Fprintf(h, "%d %x %d %x ", len(k), k, len(v), v)
	}
	var pool []string
	for x := range e.Pool(id) {
		pool = append(pool, x.String())
	}
	sort.Strings(pool)
	var sum [32]byte
	h.Sum(sum[:0])
	head := m.CurrentBlock()
	live, err := m.State()
	if err != nil {
		panic(err)
	}
	nonces := ""
	for _, a := range chainenv.Addrs[:8] {
		nonces += fmt.Sprintf("%d/%v ", live.GetNonce(a), live.GetBalance(a, chainenv.QKC))
	}
	return fmt.Sprintf("head %x (%d), root tip %x, database %x, pool %v, accounts %s", head.Hash(), head.NumberU64(), m.GetRootTip().Hash(), sum, pool, nonces)
}

// sim is a transaction to simulate.
type sim struct {
	o    chainenv.TxOpt
	kind string
	ctx  bool // mixCtx
	// size of the shards of both ends
	e *chainenv.Env
}

// tx makes the unsigned-like copy given to a simulation.
func (s sim) tx(gas uint64) *types.Transaction {
	o := s.o
	o.Gas = gas
	t := chainenv.Tx(o)
	sz, err := s.e.Cfg.Quarkchain.GetShardSizeByChainId(t.EvmTx.FromChainID())
	if err == nil {
		t.EvmTx.SetFromShardSize(sz)
	}
	if sz, err = s.e.Cfg.Quarkchain.GetShardSizeByChainId(t.EvmTx.ToChainID()); err == nil {
		t.EvmTx.SetToShardSize(sz)
	}
	return t
}

func (s sim) from(key uint32) *account.Address {
	return &account.Address{Recipient: chainenv.Addrs[s.o.From], FullShardKey: key}
}

func (s sim) call(id uint32, gas uint64, height *uint64) ([]byte, error) {
	return s.e.Shard[id].ExecuteTx(s.tx(gas), s.from(s.o.FromKey), height)
}

func (s sim) estimate(id uint32, gas uint64) (uint32, error) {
	key := s.o.FromKey
	if s.o.ToKey != s.o.FromKey {
		key = s.o.ToKey
	}
	return s.e.Shard[id].EstimateGas(s.tx(gas), s.from(key))
}

func word(rt *rapid.T, n string, v ...uint64) []byte {
	return hist.Word(rapid.SampledFrom(v).Draw(rt, n))
}

// draw makes a transaction that stays in, or leaves, shard id.
func draw(rt *rapid.T, e *chainenv.Env, id uint32, dest uint32) sim {
	s := sim{e: e}
	s.o.From = rapid.IntRange(0, 6).Draw(rt, "from") // 5 and 6 own nothing unless somebody sent it to them
	s.o.FromKey = chainenv.Key(id, rapid.Uint32Range(0, 2).Draw(rt, "salt")<<4)
	s.o.ToKey = s.o.FromKey
	if dest != id {
		s.o.ToKey = chainenv.Key(dest, rapid.Uint32Range(0, 2).Draw(rt, "dsalt")<<4)
	}
	s.o.Price = big.NewInt(rapid.SampledFrom([]int64{0, 0, 1, 1000}).Draw(rt, "price"))
	s.o.Value = big.NewInt(rapid.SampledFrom([]int64{0, 0, 1, 2, 50, 777}).Draw(rt, "value"))
	s.kind = rapid.SampledFrom([]string{"transfer", "mix", "mix", "mixctx", "needs", "loop", "clears", "mingas", "sponge", "makes", "gives", "create", "hist", "hist", "random", "random", "token"}).Draw(rt, "kind")
	to := func(a common.Address) { s.o.To = &a }
	init := [][]byte{
		{0x60, 1, 0x60, 0, 0x55, 0x60, 1, 0x60, 0, 0xf3},
		{0x60, 0, 0x60, 0, 0xfd}, {}, {0xfe},
		{0x30, 0x60, 0, 0x55, 0x60, 32, 0x60, 0, 0xf3},
		{0x61, 0x30, 0, 0x60, 0, 0xf3}, // more code than a small limit pays
		{0x61, 0x70, 0, 0x60, 0, 0xf3}, // too much code
	}
	switch s.kind {
	case "transfer", "token":
		to(chainenv.Addrs[rapid.IntRange(0, 7).Draw(rt, "to")])
		if s.kind == "token" {
			s.o.Token = rapid.SampledFrom([]uint64{hist.TokA, hist.TokB}).Draw(rt, "tok")
		}
		if rapid.Bool().Draw(rt, "payload") {
			s.o.Data = rapid.SliceOfN(rapid.SampledFrom([]byte{0, 0, 1, 255}), 0, 200).Draw(rt, "data")
		}
	case "mix":
		to(mix)
		s.o.Data = word(rt, "in", 0, 1, 1<<60)
	case "mixctx":
		to(mixCtx)
		s.o.Data = word(rt, "in", 0, 1, 1<<60)
		s.ctx = true
	case "needs":
		to(needs)
		s.o.Data = word(rt, "n", 0, 1, 10, 100, 1000, 5000)
	case "loop":
		to(loop)
		s.o.Data = word(rt, "n", 0, 1, 10, 100, 1000, 5000, 1<<40)
	case "clears":
		to(clears)
	case "mingas":
		to(minGas)
		s.o.Data = word(rt, "g", 0, 1000, 30000, 100000, 400000, 900000, 2000000)
	case "sponge":
		to(sponge)
		s.o.Data = word(rt, "g", 0, 1000, 30000, 100000, 400000, 900000, 2000000)
	case "makes":
		to(makes)
		s.o.Data = rapid.SampledFrom(init).Draw(rt, "init")
	case "gives":
		to(gives)
		s.o.Data = hist.AddrWord(rapid.SampledFrom([]common.Address{chainenv.Addrs[6], hist.BurnGasAddr, hist.StoreAddr, addr(0xee), {}}).Draw(rt, "heir"))
	case "create":
		s.o.Data = rapid.SampledFrom(init).Draw(rt, "init")
	case "hist":
		a, d, k := hist.Call(rt)
		to(a)
		s.o.Data, s.kind = d, "hist-"+k
	case "random":
		to(addr(byte(random0 + rapid.IntRange(0, 2).Draw(rt, "which"))))
		s.o.Data = rapid.SliceOfN(rapid.Byte(), 0, 64).Draw(rt, "data")
	}
	return s
}

// bad turns a transaction into one that cannot succeed.
func bad(rt *rapid.T, s *sim) string {
	k := rapid.SampledFrom([]string{"value", "fee", "token", "gastoken", "network", "chain", "bigprice", "bigtoken", "elsewhere"}).Draw(rt, "bad")
	switch k {
	case "value":
		s.o.Value = new(big.Int).Add(chainenv.Fund(), chainenv.Fund())
	case "fee":
		s.o.Price = chainenv.Fund()
	case "token":
		s.o.Token = 12345
	case "gastoken":
		s.o.GasToken, s.o.Price = 12345, big.NewInt(1)
	case "network":
		s.o.Network = chainenv.NetworkID + 1
	case "chain":
		s.o.ToKey = 77 << 16
	case "bigprice":
		s.o.Price = new(big.Int).Lsh(big.NewInt(1), 128)
	case "bigtoken":
		s.o.Token = ^uint64(0)
	case "elsewhere":
		s.o.FromKey, s.o.ToKey = 77<<16, 77<<16
	}
	return k
}

// expect computes what mix/mixCtx returns.
func expect(e *chainenv.Env, id uint32, s sim, b *types.MinorBlock) common.Hash {
	st, err := e.Shard[id].StateAt(b.Root())
	if err != nil {
		panic(err)
	}
	u := func(x uint64) []byte { return hist.Word(x) }
	bal := new(big.Int).Set(st.GetBalance(*s.o.To, chainenv.QKC))
	tok := s.o.Token == 0 || s.o.Token == chainenv.QKC
	if tok {
		bal.Add(bal, s.o.Value)
	}
	slot := st.GetState(*s.o.To, common.Hash{})
	in := append(append([]byte{}, s.o.Data...), make([]byte, 32)...)[:32]
	l := [][]byte{slot[:], in, hist.AddrWord(chainenv.Addrs[s.o.From]), common.BigToHash(s.o.Value).Bytes(),
		hist.AddrWord(*s.o.To), common.BigToHash(bal).Bytes(), hist.AddrWord(chainenv.Addrs[s.o.From]), common.BigToHash(s.o.Price).Bytes()}
	if s.ctx {
		h := b.ParentHash()
		if b.NumberU64() == 0 {
			h = common.Hash{}
		}
		l = append(l, u(b.NumberU64()), u(b.Time()), hist.AddrWord(b.Coinbase().Recipient), u(b.GasLimit().Uint64()), common.BigToHash(b.Difficulty()).Bytes(), h[:])
	}
	return crypto.Keccak256Hash(l...)
}

// probe calls and estimates, checks the answers against each other, and returns
// the estimate (0: impossible).
func probe(rt *rapid.T, c *vlib.C, s sim, id uint32, gas uint64) uint32 {
	e := s.e
	before := print(e, id)
	lim := e.Shard[id].CurrentBlock().GasLimit().Uint64()
	top := gas
	if gas <= 21000 {
		top = lim
	}
	est, err := s.estimate(id, gas)
	_, atTop := s.call(id, top, nil)
	if err != nil {
		c.Label("%s: impossible", s.kind)
		if atTop == nil {
			rt.Fatalf("%s: no estimate (%v) within %d gas (asked %d), but the call succeeds with as much", s.kind, err, top, gas)
		}
	} else {
		if uint64(est) > top {
			rt.Fatalf("%s: estimate %d above the limit %d", s.kind, est, top)
		}
		if _, err := s.call(id, uint64(est), nil); err != nil {
			rt.Fatalf("%s: estimated %d gas, but the call fails with it: %v", s.kind, est, err)
		}
		if _, err := s.call(id, uint64(est)-1, nil); err == nil {
			rt.Fatalf("%s: estimated %d gas, but the call succeeds with less", s.kind, est)
		}
		again, err := s.estimate(id, gas)
		if err != nil || again != est {
			rt.Fatalf("%s: estimated %d, then %d %v", s.kind, est, again, err)
		}
		if est > 21000 {
			c.Label("%s: more than a transfer", s.kind)
		}
	}
	if after := print(e, id); after != before {
		rt.Fatalf("%s: simulating changed the node\nbefore %s\nafter  %s", s.kind, before, after)
	}
	return est
}

func sameStart(rt *rapid.T, e *chainenv.Env) {
	for i := 0; i < 2; i++ {
		if _, err := e.MineRoot(account.Address{}); err != nil {
			rt.Fatalf("root: %v", err)
		}
		for _, id := range e.IDs {
			if _, err := e.Mine(id, chainenv.MineOpt{Coinbase: account.NewAddress(chainenv.Addrs[8], chainenv.Key(id, 0))}); err != nil {
				rt.Fatalf("mine: %v", err)
			}
		}
	}
}

func receipt(e *chainenv.Env, id uint32, b *types.MinorBlock, h common.Hash) *types.Receipt {
	for _, r := range e.Shard[id].GetReceiptsByHash(b.Hash()) {
		if r.TxHash == h {
			return r
		}
	}
	return nil
}

func say(r *types.Receipt) string {
	if r == nil {
		return "nothing"
	}
	return fmt.Sprintf("status %d with %d gas used", r.Status, r.GasUsed)
}

// TestInShard simulates transactions on random histories of one shard and then
// includes them.
func TestInShard(t *testing.T) {
	vlib.Check(t, 300, 12000, "a call that does something was simulated and then included", func(rt *rapid.T, c *vlib.C) {
		e := env(rt, 1, rapid.SampledFrom([]uint32{1, 2}).Draw(rt, "shards"))
		defer e.Stop()
		sameStart(rt, e)
		id := e.IDs[len(e.IDs)-1]
		m := e.Shard[id]
		type old struct {
			b *types.MinorBlock
			s sim
			w common.Hash
		}
		var past []old
		for n := rapid.IntRange(2, 6).Draw(rt, "steps"); n > 0; n-- {
			s := draw(rt, e, id, id)
			gas := rapid.SampledFrom([]uint64{0, 0, 0, 1, 21000, 21001, 22000, 50000, 300000, limit, limit + 1, 1<<31 - 1, 1 << 31, 1<<32 - 1}).Draw(rt, "gas")
			if rapid.IntRange(0, 3).Draw(rt, "isbad") == 0 {
				before := print(e, id)
				k := bad(rt, &s)
				if _, err := s.estimate(id, gas); err == nil {
					rt.Fatalf("estimate for a transaction with impossible %s (%s)", k, s.kind)
				}
				if _, err := s.call(id, gas, nil); err == nil {
					rt.Fatalf("call for a transaction with impossible %s (%s)", k, s.kind)
				}
				if after := print(e, id); after != before {
					rt.Fatalf("%s: failing to simulate changed the node\nbefore %s\nafter  %s", k, before, after)
				}
				c.Label("bad %s", k)
				continue
			}
			if rapid.IntRange(0, 15).Draw(rt, "huge") == 0 {
				g := rapid.SampledFrom([]uint64{1 << 32, 1 << 63, ^uint64(0)}).Draw(rt, "hugegas")
				if est, err := s.estimate(id, g); err == nil && uint64(est) > limit {
					rt.Fatalf("estimate %d with %d gas", est, g)
				}
				if _, err := s.call(id, g, nil); err == nil {
					rt.Fatalf("call with %d gas succeeds", g)
				}
				c.Label("huge gas")
			}
			head := m.CurrentBlock()
			est := probe(rt, c, s, id, gas)
			var ret []byte
			if est != 0 {
				var err error
				// several at once see the same
				outs := make([][]byte, 3)
				errs := make([]error, 3)
				var wg sync.WaitGroup
				for i := range outs {
					wg.Add(1)
					go func(i int) {
						defer wg.Done()
						h := head.NumberU64()
						p := &h
						if i == 0 {
							p = nil
						}
						outs[i], errs[i] = s.call(id, uint64(est), p)
					}(i)
				}
				wg.Wait()
				ret, err = outs[0], errs[0]
				for i := range outs {
					if errs[i] != nil || !bytes.Equal(outs[i], ret) {
						rt.Fatalf("%s: calls at the same state: %x %v and %x %v", s.kind, ret, err, outs[i], errs[i])
					}
				}
				if s.kind == "mix" || s.kind == "mixctx" {
					w := expect(e, id, s, head)
					if !bytes.Equal(ret, w[:]) {
						rt.Fatalf("%s at head %d: %x, expected %x", s.kind, head.NumberU64(), ret, w)
					}
					past = append(past, old{head, s, w})
				}
			}
			// what earlier calls saw is still what a call at that height sees
			for _, o := range past {
				h := o.b.NumberU64()
				ret, err := o.s.call(id, limit, &h)
				if err != nil || !bytes.Equal(ret, o.w[:]) {
					rt.Fatalf("%s at height %d (head %d): %x %v, expected %x", o.s.kind, h, head.NumberU64(), ret, err, o.w)
				}
				if h != head.NumberU64() {
					c.Label("call in the past")
				}
			}
			if far := head.NumberU64() + 1; true {
				if _, err := s.call(id, limit, &far); err == nil {
					rt.Fatalf("call at a height above the head succeeds")
				}
			}
			// now for real; half of a block is kept for deposits from other shards
			if est > limit/2 {
				c.Label("more than a block without deposits takes")
				continue
			}
			short := est != 0 && rapid.IntRange(0, 2).Draw(rt, "short") == 0
			real := s.o
			real.Nonce = e.State(id).GetNonce(chainenv.Addrs[s.o.From])
			real.Gas = uint64(est)
			if est == 0 {
				real.Gas = limit / 2
			} else if short {
				real.Gas--
			}
			tx := chainenv.Tx(real)
			err := m.AddTx(tx)
			if err != nil && est != 0 && !short {
				rt.Fatalf("%s: the pool refuses the transaction with the estimated gas %d: %v", s.kind, est, err)
			}
			b, merr := e.Mine(id, chainenv.MineOpt{Coinbase: account.NewAddress(chainenv.Addrs[8], chainenv.Key(id, 0))})
			if merr != nil {
				rt.Fatalf("mine: %v", merr)
			}
			hist.Settle(e, id, b)
			r := receipt(e, id, b, tx.Hash())
			ok := r != nil && r.Status == types.ReceiptStatusSuccessful
			switch {
			case est == 0 || short:
				// an impossible transaction asked for with a small limit may work with the whole one
				if ok && (short || gas <= 21000 || gas == limit) && !(s.kind == "sponge" && est == 0) && !volatile(s) {
					rt.Fatalf("%s: succeeded with %d gas; estimate %d", s.kind, real.Gas, est)
				}
				if ok && est == 0 && s.kind != "sponge" && !volatile(s) {
					c.Label("more gas than asked")
				}
			case !ok && !volatile(s):
				rt.Fatalf("%s: does not succeed with the estimated gas %d: %v (pool %v)", s.kind, est, say(r), err)
			}
			if ok && est != 0 && !short {
				c.NonTrivial("%s %d %x", s.kind, est, s.o.Data)
				c.Sample("%s: estimate %d, used %d", s.kind, est, r.GasUsed)
				if r.GasUsed > uint64(est) {
					rt.Fatalf("%s: used %d of %d gas", s.kind, r.GasUsed, est)
				}
				switch s.kind {
				case "mix":
					if got := e.State(id).GetState(mix, common.Hash{}); !bytes.Equal(got[:], ret) {
						rt.Fatalf("mix: the call returned %x, included it computed %x", ret, got)
					}
				case "mixctx":
					// same prediction, with the including block's context on the parent's state
					w := expectOn(e, id, s, head, b)
					if got := e.State(id).GetState(mixCtx, common.Hash{}); got != w {
						rt.Fatalf("mixctx included in %d: %x, expected %x", b.NumberU64(), got, w)
					}
				case "create":
					if got := e.State(id).GetCode(r.ContractAddress); !bytes.Equal(got, ret) {
						rt.Fatalf("create: the call returned %d bytes, included it made %d", len(ret), len(got))
					}
				case "makes":
					if a := common.BytesToAddress(ret); !e.State(id).Exist(a) {
						rt.Fatalf("makes: the call returned %x, but nothing is there", a)
					}
				}
			}
		}
	})
}

// volatile transactions may depend on the block they are in.
func volatile(s sim) bool { return s.kind == "random" }

func expectOn(e *chainenv.Env, id uint32, s sim, head, b *types.MinorBlock) common.Hash {
	st, err := e.Shard[id].StateAt(head.Root())
	if err != nil {
		panic(err)
	}
	u := func(x uint64) []byte { return hist.Word(x) }
	bal := new(big.Int).Add(st.GetBalance(mixCtx, chainenv.QKC), s.o.Value)
	slot := st.GetState(mixCtx, common.Hash{})
	in := append(append([]byte{}, s.o.Data...), make([]byte, 32)...)[:32]
	me := hist.AddrWord(chainenv.Addrs[s.o.From])
	h := b.ParentHash()
	return crypto.Keccak256Hash(slot[:], in, me, common.BigToHash(s.o.Value).Bytes(), hist.AddrWord(mixCtx), common.BigToHash(bal).Bytes(), me, common.BigToHash(s.o.Price).Bytes(),
		u(b.NumberU64()), u(b.Time()), hist.AddrWord(b.Coinbase().Recipient), u(b.GasLimit().Uint64()), common.BigToHash(b.Difficulty()).Bytes(), h[:])
}

// TestCrossShard estimates transactions to another shard as the master does
// (at their destination, plus the price of a deposit) and includes them.
func TestCrossShard(t *testing.T) {
	vlib.Check(t, 150, 6000, "a transaction with an estimate made it to the other shard", func(rt *rapid.T, c *vlib.C) {
		e := env(rt, 2, 1)
		defer e.Stop()
		sameStart(rt, e)
		A, B := e.IDs[0], e.IDs[1]
		if rapid.Bool().Draw(rt, "swap") {
			A, B = B, A
		}
		mine := func(id uint32) *types.MinorBlock {
			b, err := e.Mine(id, chainenv.MineOpt{Coinbase: account.NewAddress(chainenv.Addrs[8], chainenv.Key(id, 0))})
			if err != nil {
				rt.Fatalf("mine: %v", err)
			}
			hist.Settle(e, id, b)
			return b
		}
		if rapid.IntRange(0, 2).Draw(rt, "fund") > 0 {
			for _, k := range []int{5, 6} {
				to := chainenv.Addrs[k]
				x := chainenv.Tx(chainenv.TxOpt{From: 0, To: &to, Nonce: e.State(A).GetNonce(chainenv.Addrs[0]), Value: big.NewInt(rapid.SampledFrom([]int64{1000, 1 << 40}).Draw(rt, "funds")), Gas: 21000, FromKey: chainenv.Key(A, 0), ToKey: chainenv.Key(A, 0)})
				if err := e.Shard[A].AddTx(x); err != nil {
					rt.Fatalf("fund: %v", err)
				}
				mine(A)
			}
		}
		for n := rapid.IntRange(1, 4).Draw(rt, "steps"); n > 0; n-- {
			s := draw(rt, e, A, B)
			if s.ctx {
				continue
			}
			if rapid.IntRange(0, 3).Draw(rt, "poor") == 0 {
				s.o.From = 6
			}
			gas := rapid.SampledFrom([]uint64{0, 0, 0, 1, 21001, 22000, 50000, 300000, limit, limit + 1, 1<<32 - 1}).Draw(rt, "gas")
			before, beforeA := print(e, B), print(e, A)
			est, err := s.estimate(B, gas)
			if err == nil {
				if x, err := s.estimate(B, gas); err != nil || x != est {
					rt.Fatalf("%s: estimated %d, then %d %v", s.kind, est, x, err)
				}
			}
			total := uint64(est) + 9000
			if err != nil {
				total = limit / 2
			}
			_, callErr := s.call(A, total, nil)
			if print(e, B) != before || print(e, A) != beforeA {
				rt.Fatalf("%s: simulating changed the node", s.kind)
			}
			if total > limit/2 {
				c.Label("more than a deposit may use")
				if callErr == nil {
					rt.Fatalf("%s: a cross-shard call with %d gas succeeds", s.kind, total)
				}
				continue
			}
			short := err == nil && rapid.IntRange(0, 2).Draw(rt, "short") == 0
			real := s.o
			real.Nonce = e.State(A).GetNonce(chainenv.Addrs[s.o.From])
			real.Gas = total
			if short {
				real.Gas--
			}
			tx := chainenv.Tx(real)
			perr := e.Shard[A].AddTx(tx)
			a := mine(A)
			ra := receipt(e, A, a, tx.Hash())
			sent := ra != nil && ra.Status == types.ReceiptStatusSuccessful
			if !short && sent != (callErr == nil) {
				rt.Fatalf("%s: the call at the source says %v; included it gives %v (pool %v)", s.kind, callErr, say(ra), perr)
			}
			if _, err := e.MineRoot(account.Address{}); err != nil {
				rt.Fatalf("root: %v", err)
			}
			b := mine(B)
			rb := receipt(e, B, b, tx.Hash())
			if sent && rb == nil {
				rt.Fatalf("%s: sent, but not received in the next block", s.kind)
			}
			ok := rb != nil && rb.Status == types.ReceiptStatusSuccessful
			what := fmt.Sprintf("%s from %d, asked %d, price %v, value %v, data %x: estimate %d %v, included with %d: source %v (pool %v), destination %v", s.kind, s.o.From, gas, s.o.Price, s.o.Value, s.o.Data, est, err, real.Gas, say(ra), perr, say(rb))
			zero := s.o.Token != 0 && s.o.Value.Sign() == 0
			switch {
			case volatile(s):
			case err != nil:
				if ok && !zero && s.kind != "sponge" && (gas <= 21000 || gas == limit) {
					rt.Fatalf("succeeds without an estimate: %s", what)
				}
				c.Label("impossible")
			case short:
				if ok {
					rt.Fatalf("succeeds with less: %s", what)
				}
				c.Label("too little")
			case sent && !ok:
				rt.Fatalf("fails: %s", what)
			case sent:
				c.NonTrivial("%s %d %x", s.kind, est, s.o.Data)
				c.Sample("%s", what)
				if est > 21000 {
					c.Label("%s: more than a transfer", s.kind)
				}
				if s.o.From > 4 {
					c.Label("sender has nothing at the destination")
				}
			default:
				c.Label("the source refuses")
			}
		}
	})
}
