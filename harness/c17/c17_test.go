// Package c17: a block takes the best-paying transactions in nonce order. The
// merge of account lists is compared with a model at every step; then blocks are
// built from generated pools and each inclusion and each omission is justified.
package c17

import (
	"fmt"
	"math/big"
	"testing"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/config"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/zzverif/chainenv"
	"github.com/QuarkChain/goquarkchain/zzverif/hist"
	"github.com/QuarkChain/goquarkchain/zzverif/vlib"
	"github.com/ethereum/go-ethereum/common"
	"pgregory.net/rapid"
)

func pick(rt *rapid.T, n string, v ...int) uint64 {
	return uint64(rapid.SampledFrom(v).Draw(rt, n))
}

var signer = types.MakeSigner(chainenv.NetworkID)

// TestOrder takes and drops at random.
func TestOrder(t *testing.T) {
	vlib.Check(t, 400, 8000, "three accounts or more, a choice between prices, and a drop", func(rt *rapid.T, c *vlib.C) {
		n := rapid.IntRange(0, len(chainenv.Keys)).Draw(rt, "accounts")
		prices := rapid.SampledFrom([][]int64{{0, 1}, {1, 2, 3, 4, 5, 6, 7, 8, 9}, {1 << 40, 1<<40 + 1, 5}, {7}}).Draw(rt, "prices")
		var shape []int
		lists := make([][]*types.Transaction, n)
		groups := map[account.Recipient]types.Transactions{}
		for i := 0; i < n; i++ {
			start := pick(rt, "nonce", 0, 1, 255, 1<<40)
			for k := uint64(0); k < uint64(rapid.IntRange(1, 6).Draw(rt, "txs")); k++ {
				p := big.NewInt(rapid.SampledFrom(prices).Draw(rt, "price"))
				if pick(rt, "huge", 0, 0, 0, 0, 0, 0, 0, 0, 1) == 1 {
					p.Lsh(p, 70)
				}
				to := chainenv.Addrs[0]
				lists[i] = append(lists[i], chainenv.Tx(chainenv.TxOpt{From: i, To: &to, Nonce: start + k, Gas: 21000, Price: p}))
			}
			groups[chainenv.Addrs[i]] = append(types.Transactions{}, lists[i]...)
			shape = append(shape, len(lists[i]))
		}
		set, err := types.NewTransactionsByPriceAndNonce(signer, groups)
		if err != nil {
			rt.Fatalf("%v", err)
		}
		drops, choices := 0, 0
		what := ""
		for step := 0; ; step++ {
			tx := set.Peek()
			var best *big.Int
			live := 0
			for _, l := range lists {
				if len(l) > 0 {
					live++
					if p := l[0].EvmTx.GasPrice(); best == nil || p.Cmp(best) > 0 {
						if best != nil {
							choices++
						}
						best = p
					}
				}
			}
			if (tx == nil) != (best == nil) {
				rt.Fatalf("step %d: got %v with %d accounts left", step, tx, live)
			}
			if tx == nil {
				break
			}
			who := -1
			for i, l := range lists {
				if len(l) > 0 && l[0].Hash() == tx.Hash() {
					who = i
				}
			}
			if who < 0 {
				rt.Fatalf("step %d: %x is not the next transaction of any account", step, tx.Hash())
			}
			if tx.EvmTx.GasPrice().Cmp(best) != 0 {
				rt.Fatalf("step %d: price %v offered, %v is waiting", step, tx.EvmTx.GasPrice(), best)
			}
			if pick(rt, "drop", 0, 0, 0, 1) == 1 {
				set.Pop()
				lists[who] = nil
				drops++
				what += fmt.Sprintf("-%d ", who)
			} else {
				if err := set.Shift(); err != nil {
					rt.Fatalf("%v", err)
				}
				lists[who] = lists[who][1:]
				what += fmt.Sprintf("+%d@%v ", who, tx.EvmTx.GasPrice())
			}
		}
		c.Label("accounts %d", n)
		if n > 2 && drops > 0 && choices > 0 {
			c.NonTrivial("%v %s", shape, what)
			c.Sample("accounts with %v transactions, taken (+) and dropped (-): %s", shape, what)
		}
	})
}

type key struct {
	who int
	tok uint64
}

// TestBuild builds blocks and justifies what is and what is not in them.
func TestBuild(t *testing.T) {
	vlib.Check(t, 60, 1200, "a block that leaves transactions out and includes those of two accounts", func(rt *rapid.T, c *vlib.C) {
		const senders = 5
		minPrice := big.NewInt(int64(pick(rt, "min price", 0, 0, 3)))
		// senders with little
		al := map[common.Address]map[string]*big.Int{}
		for i := 0; i < senders; i++ {
			al[chainenv.Addrs[i]] = map[string]*big.Int{
				"QKC": new(big.Int).SetUint64(pick(rt, "funds", 100000, 1000000, 1000000000, 1000000000, 1000000000)),
				"ABC": big.NewInt(int64(pick(rt, "tokens", 1, 10, 100))),
			}
		}
		for a := range hist.Code {
			al[a] = map[string]*big.Int{"QKC": big.NewInt(100)}
		}
		limit := pick(rt, "gas limit", 90000, 150000, 260000, 12000000)
		e := chainenv.New(chainenv.Opt{ChainSize: 1, ShardSize: 2, Alloc: al, Code: hist.Code, Mutate: func(cc *config.ClusterConfig) {
			q := cc.Quarkchain
			q.MinMiningGasPrice = minPrice
			for _, id := range q.GetGenesisShardIds() {
				q.GetShardConfigByFullShardID(id).Genesis.GasLimit = limit
			}
		}})
		defer e.Stop()
		cb := account.Address{Recipient: common.HexToAddress("c01bba5e")}
		if _, err := e.MineRoot(cb); err != nil {
			rt.Fatalf("%v", err)
		}
		id, other := e.IDs[0], e.IDs[1]
		m := e.Shard[id]
		lists := make([][]*types.Transaction, senders)        // accepted, not in a block
		all := make([]map[uint64]*types.Transaction, senders) // accepted, by nonce
		for i := range all {
			all[i] = map[uint64]*types.Transaction{}
		}
		interesting := false
		what := ""
		for n := rapid.IntRange(1, 4).Draw(rt, "blocks"); n > 0; n-- {
			// the pool
			last, lastFrom := "", 0
			for k := rapid.IntRange(2, 12).Draw(rt, "offers"); k > 0; k-- {
				from := rapid.IntRange(0, senders-1).Draw(rt, "from")
				follow := (last == "all" || last == "token all" || last == "cross") && rapid.Bool().Draw(rt, "follow")
				if follow {
					from = lastFrom
				}
				o := chainenv.TxOpt{From: from, FromKey: chainenv.Key(id, 0), ToKey: chainenv.Key(id, 0)}
				for o.Nonce = e.State(id).GetNonce(chainenv.Addrs[from]); all[from][o.Nonce] != nil; {
					o.Nonce++
				}
				o.Price = big.NewInt(int64(pick(rt, "price", 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 50)))
				to := chainenv.Addrs[rapid.IntRange(0, 7).Draw(rt, "to")]
				o.To, o.Gas = &to, pick(rt, "gas", 21000, 21000, 25000, 60000)
				kind := rapid.SampledFrom([]string{"transfer", "transfer", "transfer", "all", "token", "token all", "token none", "log", "store", "invalid", "cross", "cross"}).Draw(rt, "kind")
				if follow && last == "token all" {
					kind = rapid.SampledFrom([]string{"token none", "token none", "token", "cross"}).Draw(rt, "next")
				}
				last, lastFrom = kind, from
				o.Value = new(big.Int).SetUint64(pick(rt, "value", 0, 1, 1000))
				bal := e.State(id).GetBalance(chainenv.Addrs[from], chainenv.QKC)
				switch kind {
				case "all": // nearly everything the account holds now
					o.Value = new(big.Int).Sub(bal, new(big.Int).Mul(o.Price, new(big.Int).SetUint64(o.Gas)))
					o.Value.Sub(o.Value, new(big.Int).SetUint64(pick(rt, "keep", 0, 1, 21000, 200000)))
					if o.Value.Sign() < 0 {
						o.Value = new(big.Int)
					}
				case "token", "token all", "token none":
					o.Token = hist.TokA
					tb := e.State(id).GetBalance(chainenv.Addrs[from], hist.TokA)
					switch kind {
					case "token":
						o.Value = big.NewInt(int64(pick(rt, "tv", 1, 1, 50)))
					case "token all":
						o.Value = new(big.Int).Set(tb)
					default:
						o.Value = new(big.Int)
					}
				case "log":
					o.To, o.Data, o.Gas = &hist.LogAddr[1], append(hist.Word(1), hist.Word(2)...), pick(rt, "lgas", 30000, 60000)
				case "store":
					o.To, o.Data, o.Gas = &hist.StoreAddr, append(hist.Word(pick(rt, "slot", 0, 1)), hist.Word(pick(rt, "val", 0, 1))...), pick(rt, "sgas", 30000, 60000)
				case "invalid":
					o.To, o.Gas = &hist.BurnGasAddr, 40000
				case "cross":
					o.ToKey, o.Gas = chainenv.Key(other, 0), pick(rt, "xgas", 30000, 44000)
					if pick(rt, "xall", 0, 0, 1) == 1 {
						o.Value = new(big.Int).Sub(bal, new(big.Int).Mul(o.Price, new(big.Int).SetUint64(o.Gas)))
						if o.Value.Sign() < 0 {
							o.Value = new(big.Int)
						}
					} else if pick(rt, "xtok", 0, 0, 1) == 1 {
						o.Token = hist.TokA
					}
				}
				tx := chainenv.Tx(o)
				if err := m.AddTx(tx); err != nil {
					c.Label("refused by the pool")
					continue
				}
				c.Label("offered: %s", kind)
				all[from][o.Nonce] = tx
			}
			// what the pool still holds without a gap
			in := e.Pool(id)
			st := e.State(id)
			bal := map[key]*big.Int{}
			waiting := 0
			for i := range lists {
				lists[i] = nil
				for n := st.GetNonce(chainenv.Addrs[i]); all[i][n] != nil && in[all[i][n].Hash()]; n++ {
					lists[i] = append(lists[i], all[i][n])
				}
				waiting += len(lists[i])
				for _, tok := range []uint64{chainenv.QKC, hist.TokA} {
					bal[key{i, tok}] = st.GetBalance(chainenv.Addrs[i], tok)
				}
			}
			b, err := e.Build(id, chainenv.MineOpt{Coinbase: cb})
			if err != nil {
				rt.Fatalf("build: %v", err)
			}
			if err := e.AddMinor(b); err != nil {
				rt.Fatalf("the block built from the pool is refused: %v", err)
			}
			recs := m.GetReceiptsByHash(b.Hash())
			xused := b.Meta().CrossShardGasUsed.Value.Uint64()
			used := xused
			lim := b.GasLimit().Uint64()
			if xl := b.GetXShardGasLimit().Uint64(); xused < xl {
				lim -= xl - xused
			}
			loose := map[int]bool{} // accounts for which the order among equal prices matters
			// takeable: the transaction can be executed now
			takeable := func(i int, tx *types.Transaction) string {
				e := tx.EvmTx
				if e.Gas() > lim-used {
					return "no room"
				}
				if e.GasPrice().Cmp(minPrice) < 0 {
					return "price"
				}
				tok := e.TransferTokenID()
				cost := new(big.Int).Mul(e.GasPrice(), new(big.Int).SetUint64(e.Gas()))
				if tok == chainenv.QKC {
					cost.Add(cost, e.Value())
				} else {
					if bal[key{i, tok}].Sign() == 0 || bal[key{i, tok}].Cmp(e.Value()) < 0 {
						return "tokens"
					}
				}
				if bal[key{i, chainenv.QKC}].Cmp(cost) < 0 {
					return "funds"
				}
				return ""
			}
			left := make([][]*types.Transaction, senders)
			for i := range lists {
				left[i] = append([]*types.Transaction{}, lists[i]...)
			}
			omitted := 0
			included := map[int]bool{}
			for k, tx := range b.Transactions() {
				who := -1
				for i, l := range left {
					if len(l) > 0 && l[0].Hash() == tx.Hash() {
						who = i
					}
				}
				if who < 0 {
					rt.Fatalf("block %d, transaction %d: %x is not the next transaction of an account of the pool (or its account could not go on)", b.Number(), k, tx.Hash())
				}
				p := tx.EvmTx.GasPrice()
				for i := range left {
					if len(left[i]) == 0 || i == who {
						continue
					}
					h := left[i][0]
					switch h.EvmTx.GasPrice().Cmp(p) {
					case 1:
						why := takeable(i, h)
						if why == "" && !loose[i] {
							rt.Fatalf("block %d takes a transaction at price %v before the one at %v of another account", b.Number(), p, h.EvmTx.GasPrice())
						}
						if !loose[i] {
							left[i] = nil
							omitted++
							c.Label("omitted: %s", why)
						}
					case 0:
						if takeable(i, h) != "" {
							loose[i] = true
						}
					}
				}
				if used >= lim {
					rt.Fatalf("block %d: transaction %d was taken after the gas was used up", b.Number(), k)
				}
				if why := takeable(who, tx); why != "" {
					rt.Fatalf("block %d includes a transaction that cannot be executed: %s", b.Number(), why)
				}
				// its effects on the senders
				x := tx.EvmTx
				g := recs[k].GasUsed
				if x.IsCrossShard() {
					g = x.Gas() // the rest is used, or given back, there
				}
				sub := func(i int, tok uint64, v *big.Int) { bal[key{i, tok}].Sub(bal[key{i, tok}], v) }
				sub(who, chainenv.QKC, new(big.Int).Mul(x.GasPrice(), new(big.Int).SetUint64(g)))
				if recs[k].Status == 1 {
					sub(who, x.TransferTokenID(), x.Value())
					if !x.IsCrossShard() {
						for i := 0; i < senders; i++ {
							if *x.To() == chainenv.Addrs[i] {
								sub(i, x.TransferTokenID(), new(big.Int).Neg(x.Value()))
							}
						}
					}
				}
				used = recs[k].CumulativeGasUsed
				included[who] = true
				left[who] = left[who][1:]
			}
			if used > lim {
				rt.Fatalf("block %d uses %d of %d gas", b.Number(), used, lim)
			}
			for i := range left {
				if len(left[i]) == 0 || loose[i] {
					continue
				}
				omitted++
				if used < lim {
					why := takeable(i, left[i][0])
					if why == "" {
						rt.Fatalf("block %d (%d of %d gas used, %d transactions) omits a transaction of account %d at price %v that could be executed", b.Number(), used, lim, len(b.Transactions()), i, left[i][0].EvmTx.GasPrice())
					}
					c.Label("omitted: %s", why)
				}
			}
			for i := range lists {
				if a := e.State(id); a.GetBalance(chainenv.Addrs[i], chainenv.QKC).Cmp(bal[key{i, chainenv.QKC}]) != 0 && xused == 0 {
					rt.Fatalf("model: account %d holds %v, expected %v", i, a.GetBalance(chainenv.Addrs[i], chainenv.QKC), bal[key{i, chainenv.QKC}])
				}
			}
			what += fmt.Sprintf("%d waiting, %d of %d taken, gas %d of %d; ", waiting, len(b.Transactions()), waiting, used, lim)
			if omitted > 0 && len(included) > 1 {
				interesting = true
			}
			hist.Settle(e, id, b)
			in = e.Pool(id)
			for i := range all {
				for n, tx := range all[i] {
					if !in[tx.Hash()] {
						delete(all[i], n)
					}
				}
			}
			if pick(rt, "other", 0, 1) == 1 {
				if _, err := e.Mine(other, chainenv.MineOpt{Coinbase: cb}); err != nil {
					rt.Fatalf("other: %v", err)
				}
			}
			if pick(rt, "root", 0, 1) == 1 {
				if _, err := e.MineRoot(cb); err != nil {
					rt.Fatalf("root: %v", err)
				}
			}
		}
		if interesting {
			c.NonTrivial("%s", what)
			c.Sample("%s", what)
		}
	})
}
