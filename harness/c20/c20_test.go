// Package c20 decides: paging through the history of an address or of a whole
// shard shows every transaction and every incoming deposit exactly once, newest
// first, as the canonical chain has them.
//
// The oracle is a plain scan of the blocks of the canonical chain and of the
// deposits the root chain's order hands to each of them.
package c20

import (
	"bytes"
	"fmt"
	"io/ioutil"
	"math/big"
	"os"
	"path/filepath"
	"testing"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/config"
	"github.com/QuarkChain/goquarkchain/cluster/rpc"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/qkcdb"
	"github.com/QuarkChain/goquarkchain/zzverif/chainenv"
	"github.com/QuarkChain/goquarkchain/zzverif/hist"
	"github.com/QuarkChain/goquarkchain/zzverif/vlib"
	"github.com/QuarkChain/goquarkchain/zzverif/world"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/ethdb"
	"pgregory.net/rapid"
)

// entry is one line of the history.
type entry struct {
	hash     common.Hash
	from     account.Address
	to       *account.Address
	value    *big.Int
	height   uint64
	time     uint64
	ok       bool
	gas, tok uint64
	root     bool
	nonce    uint64
	index    int // position among the block's transactions, then deposits
	deposit  bool
}

func (e entry) String() string {
	to := "-"
	if e.to != nil {
		to = e.to.ToHex()
	}
	return fmt.Sprintf("%x %s->%s value %v token %d gas token %d height %d time %d success %v root %v nonce %d", e.hash, e.from.ToHex(), to, e.value, e.tok, e.gas, e.height, e.time, e.ok, e.root, e.nonce)
}

func show(d *rpc.TransactionDetail) string {
	return entry{hash: d.TxHash, from: d.FromAddress, to: d.ToAddress, value: d.Value.Value, height: d.BlockHeight, time: d.Timestamp, ok: d.Success, gas: d.GasTokenID, tok: d.TransferTokenID, root: d.IsFromRootChain, nonce: d.Nonce}.String()
}

// scan lists the whole history of a shard, oldest first.
func scan(w *world.World, id uint32) []entry {
	var l []entry
	for _, x := range world.Chain(w.Head(id)) {
		n := len(x.B.Transactions())
		for i, d := range x.In {
			d := d
			to := d.To
			l = append(l, entry{hash: d.Hash, from: d.From, to: &to, value: d.Value, height: x.Num, time: x.B.Time(), ok: x.Rec[n+i].Status == 1, gas: d.Gas, tok: d.Tok, root: d.Root, index: n + i, deposit: true})
		}
		for i, tx := range x.B.Transactions() {
			t := tx.EvmTx
			from, _ := types.Sender(types.MakeSigner(t.NetworkId()), t)
			e := entry{hash: tx.Hash(), from: account.NewAddress(from, t.FromFullShardKey()), value: t.Value(), height: x.Num, time: x.B.Time(), ok: x.Rec[i].Status == 1, gas: t.GasTokenID(), tok: t.TransferTokenID(), nonce: t.Nonce(), index: i}
			if t.To() != nil {
				a := account.NewAddress(*t.To(), t.ToFullShardKey())
				e.to = &a
			}
			l = append(l, e)
		}
	}
	return l
}

// concerns tells whether the entry is part of the history of a in shard id.
func concerns(w *world.World, id uint32, e entry, a common.Address) bool {
	if e.deposit {
		return e.to.Recipient == a
	}
	return e.from.Recipient == a || e.to != nil && e.to.Recipient == a && w.ShardOf(e.to.FullShardKey) == id
}

// page follows the cursor with the given page size.
func page(f func(start []byte, limit uint32) ([]*rpc.TransactionDetail, []byte, error), size uint32, most int) ([]*rpc.TransactionDetail, error) {
	var l []*rpc.TransactionDetail
	var start []byte
	for {
		p, next, err := f(start, size)
		if err != nil {
			return nil, err
		}
		l = append(l, p...)
		if len(p) > int(size) {
			return nil, fmt.Errorf("a page has %d entries, %d were asked for", len(p), size)
		}
		if len(p) == 0 {
			return l, nil
		}
		if len(l) > most+40 {
			return nil, fmt.Errorf("more than %d entries and no end, there are %d", len(l), most)
		}
		start = next
	}
}

func compare(got []*rpc.TransactionDetail, want []entry) error {
	left := map[string]int{}
	for _, e := range want {
		left[e.String()]++
	}
	h := ^uint64(0)
	for i, d := range got {
		if d.BlockHeight > h {
			return fmt.Errorf("entry %d of height %d follows one of height %d", i, d.BlockHeight, h)
		}
		h = d.BlockHeight
		s := show(d)
		left[s]--
		if left[s] < 0 {
			return fmt.Errorf("entry %d of %d is not in the chain or shown twice: %s (the chain has %v)", i, len(got), s, want)
		}
	}
	for s, n := range left {
		if n > 0 {
			return fmt.Errorf("missing from the history: %s (%d entries shown, expected %v)", s, len(got), want)
		}
	}
	return nil
}

func same(a, b []*rpc.TransactionDetail) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if show(a[i]) != show(b[i]) {
			return false
		}
	}
	return true
}

func TestHistory(t *testing.T) {
	rule := "some queried address has entries in at least three blocks, a page boundary fell between them, and a reorganisation had happened"
	tmp, err := ioutil.TempDir("", "verif-c20")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(tmp)
	n := 0
	vlib.Check(t, 400, 9000, rule, func(rt *rapid.T, c *vlib.C) {
		n++
		dir := filepath.Join(tmp, fmt.Sprint(n))
		var dbs []*qkcdb.QKCDataBase
		defer func() {
			for _, d := range dbs {
				d.Close()
			}
			os.RemoveAll(dir)
		}()
		sh := rapid.SampledFrom([][2]uint32{{1, 2}, {2, 1}, {3, 1}}).Draw(rt, "shape")
		reward := rapid.SampledFrom([]*big.Int{big.NewInt(777), new(big.Int), new(big.Int).Lsh(big.NewInt(1), 65)}).Draw(rt, "rootreward")
		w := world.New(rt, c, world.Opt{Chains: sh[0], Shards: sh[1], GasLimit: rapid.SampledFrom([]uint64{120000, 600000}).Draw(rt, "gaslimit"),
			Mutate: func(cc *config.ClusterConfig) {
				cc.Quarkchain.Root.CoinbaseAmount = reward
				cc.EnableTransactionHistory = true
			},
			Subject: func(o *chainenv.Opt) {
				o.DB = func(id uint32) ethdb.Database {
					if id == 0 {
						return ethdb.NewMemDatabase()
					}
					d, err := qkcdb.NewDatabase(filepath.Join(dir, fmt.Sprint(id)), false, false)
					if err != nil {
						panic(err)
					}
					dbs = append(dbs, d)
					return d
				}
			}})
		defer w.Stop()
		deep, cut := false, false
		look := func() {
			for _, id := range w.All {
				m := w.S.Shard[id]
				full := scan(w, id)
				addrs := append([]common.Address{}, chainenv.Addrs[:10]...)
				for i := 0; i < 3; i++ {
					addrs = append(addrs, hist.LogAddr[i])
				}
				addrs = append(addrs, hist.RevertAddr, hist.BurnGasAddr, common.Address{})
				for _, a := range []common.Address{rapid.SampledFrom(addrs).Draw(rt, "who"), rapid.SampledFrom(addrs[:5]).Draw(rt, "sender")} {
					var tok *uint64
					if k := rapid.SampledFrom([]uint64{0, 0, chainenv.QKC, hist.TokA, hist.TokB}).Draw(rt, "token"); k != 0 {
						tok = &k
					}
					var want []entry
					blocks := map[uint64]bool{}
					for _, e := range full {
						if !concerns(w, id, e, a) || e.root && e.value.Sign() == 0 {
							continue
						}
						// rewards of the root chain are shown whatever token is asked for
						if tok != nil && e.tok != *tok && !e.root {
							continue
						}
						want = append(want, e)
						blocks[e.height] = true
					}
					q := func(start []byte, limit uint32) ([]*rpc.TransactionDetail, []byte, error) {
						return m.GetTransactionByAddress(account.NewAddress(a, chainenv.Key(id, 0)), tok, start, limit)
					}
					var first []*rpc.TransactionDetail
					for i, size := range []uint32{1000, uint32(rapid.IntRange(1, 5).Draw(rt, "size")), 20} {
						got, err := page(q, size, len(want))
						if err != nil {
							rt.Fatalf("history of %x in shard %x with pages of %d: %v", a, id, size, err)
						}
						if err := compare(got, want); err != nil {
							rt.Fatalf("history of %x (token %v) in shard %x with pages of %d: %v", a, tok, id, size, err)
						}
						if i == 0 {
							first = got
						} else if !same(first, got) {
							rt.Fatalf("history of %x in shard %x depends on the page size %d", a, id, size)
						}
						if size > 0 && len(want) > int(size) {
							cut = true
						}
					}
					if len(blocks) >= 3 {
						deep = true
					}
				}
				// the whole shard
				var want []entry
				for _, e := range full {
					if !e.root {
						want = append(want, e)
					}
				}
				for _, size := range []uint32{1000, uint32(rapid.IntRange(1, 9).Draw(rt, "allsize"))} {
					got, err := page(m.GetAllTx, size, len(want))
					if err != nil {
						rt.Fatalf("history of shard %x with pages of %d: %v", id, size, err)
					}
					if err := compare(got, want); err != nil {
						rt.Fatalf("history of shard %x with pages of %d: %v", id, size, err)
					}
				}
				// by hash
				on := map[common.Hash]bool{}
				for _, e := range full {
					on[e.hash] = true
				}
				x := w.Head(id)
				for _, e := range full {
					for x = w.Head(id); x.Num != e.height; x = x.Parent {
					}
					b, i := m.GetTransactionByHash(e.hash)
					if b == nil || b.Hash() != x.H || int(i) != e.index {
						rt.Fatalf("transaction %s of block %x position %d is found as %v", e, x.H, e.index, where(b, i))
					}
					b, i, r := m.GetTransactionReceipt(e.hash)
					if b == nil || b.Hash() != x.H || int(i) != e.index || r == nil || (r.Status == 1) != e.ok || r.TxHash != e.hash {
						rt.Fatalf("receipt of %s of block %x position %d is %+v in %v", e, x.H, e.index, r, where(b, i))
					}
				}
				for _, y := range w.Order {
					if y.ID != id || w.Head(id).On(y) {
						continue
					}
					for _, tx := range y.B.Transactions() {
						if on[tx.Hash()] {
							continue
						}
						c.Label("abandoned transaction")
						if b, i := m.GetTransactionByHash(tx.Hash()); b != nil && w.Minors[b.Hash()] != nil {
							// (a pending transaction is shown in a made-up block)
							rt.Fatalf("transaction %x of the abandoned block %x is found as %v", tx.Hash(), y.H, where(b, i))
						}
						if b, i, _ := m.GetTransactionReceipt(tx.Hash()); b != nil {
							rt.Fatalf("receipt of transaction %x of the abandoned block %x is found as %v", tx.Hash(), y.H, where(b, i))
						}
					}
				}
			}
		}
		for s := rapid.IntRange(4, 14).Draw(rt, "steps"); s > 0; s-- {
			w.Step()
			if rapid.IntRange(0, 3).Draw(rt, "look") == 0 {
				look()
			}
		}
		look()
		if deep && cut && w.Forks+w.RootForks > 0 {
			c.NonTrivial("%d blocks, %d root blocks, %d shard and %d root reorganisations", len(w.Order), len(w.Roots), w.Forks, w.RootForks)
		}
	})
}

func where(b *types.MinorBlock, i uint32) string {
	if b == nil {
		return "nothing"
	}
	return fmt.Sprintf("block %x (%d transactions) position %d", b.Hash(), len(b.Transactions()), i)
}


// TestPending: the page with cursor 01 lists the pool's transactions of an address.
func TestPending(t *testing.T) {
	rule := "at least three transactions were pending, of at least two senders"
	vlib.Check(t, 150, 3000, rule, func(rt *rapid.T, c *vlib.C) {
		e := chainenv.New(hist.Opt(1, 2))
		defer e.Stop()
		e.Cfg.EnableTransactionHistory = true
		if _, err := e.MineRoot(account.NewAddress(chainenv.Addrs[9], 0)); err != nil {
			rt.Fatal(err)
		}
		id := rapid.SampledFrom(e.IDs).Draw(rt, "shard")
		g := hist.NewGen(e)
		g.NoCross = true
		txs := g.Offer(rt, id, rapid.IntRange(0, 8).Draw(rt, "n"), func(s string) { c.Label("%s", s) })
		senders := map[common.Address]bool{}
		for _, a := range append(append([]common.Address{}, chainenv.Addrs[:9]...), hist.LogAddr[0], hist.StoreAddr, common.Address{}) {
			for _, tok := range []uint64{0, chainenv.QKC, hist.TokA} {
				var want []entry
				for _, tx := range txs {
					t := tx.EvmTx
					from, _ := types.Sender(types.MakeSigner(t.NetworkId()), t)
					senders[from] = true
					if from != a && (t.To() == nil || *t.To() != a) || tok != 0 && t.TransferTokenID() != tok {
						continue
					}
					x := entry{hash: tx.Hash(), from: account.NewAddress(from, t.FromFullShardKey()), value: t.Value(), gas: t.GasTokenID(), tok: t.TransferTokenID(), nonce: t.Nonce()}
					if t.To() != nil {
						to := account.NewAddress(*t.To(), t.ToFullShardKey())
						x.to = &to
					}
					want = append(want, x)
				}
				pt := &tok
				if tok == 0 {
					pt = nil
				}
				got, next, err := e.Shard[id].GetTransactionByAddress(account.NewAddress(a, chainenv.Key(id, 0)), pt, []byte{1}, 10)
				if err != nil || !bytes.Equal(next, nil) {
					rt.Fatalf("pending transactions of %x: next %x, error %v", a, next, err)
				}
				if err := compare(got, want); err != nil {
					rt.Fatalf("pending transactions of %x: %v", a, err)
				}
			}
		}
		if len(txs) >= 3 && len(senders) >= 2 {
			c.NonTrivial("%d pending transactions of %d senders", len(txs), len(senders))
		}
	})
}
