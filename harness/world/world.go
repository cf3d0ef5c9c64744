// Package world drives a whole cluster through a generated history with forks
// of shards and of the root chain, and keeps a plain record of it: which
// blocks there are, what they contain and which deposits each one took.
//
// Two clusters run: P builds blocks on any parent, S is the one looked at.
package world

import (
	"fmt"
	"math/big"
	"sort"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/config"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/zzverif/chainenv"
	"github.com/QuarkChain/goquarkchain/zzverif/hist"
	"github.com/QuarkChain/goquarkchain/zzverif/vlib"
	"github.com/ethereum/go-ethereum/common"
	"pgregory.net/rapid"
)

// Deposit is one cross-shard transfer or root chain reward.
type Deposit struct {
	Hash     common.Hash
	From, To account.Address
	Value    *big.Int
	Tok, Gas uint64
	Root     bool
	Create   bool
}

// Minor is a minor block.
type Minor struct {
	ID     uint32
	B      *types.MinorBlock
	H      common.Hash
	Num    uint64
	Parent *Minor
	Ref    *Root
	Taken  int       // deposits taken since the shard began
	In     []Deposit // deposits this block took
	Out    map[uint32][]Deposit
	Lists  []*types.CrossShardTransactionDeposit // what it handed out
	Rec    types.Receipts
}

// On tells whether b is a or an ancestor of a.
func (a *Minor) On(b *Minor) bool {
	for ; a != nil && a.Num > b.Num; a = a.Parent {
	}
	return a == b
}

// Root is a root block.
type Root struct {
	B         *types.RootBlock
	H         common.Hash
	Num       uint32
	Parent    *Root
	Listed    []*Minor
	Confirmed map[uint32]*Minor
}

// On tells whether b is a or an ancestor of a.
func (a *Root) On(b *Root) bool {
	for ; a != nil && a.Num > b.Num; a = a.Parent {
	}
	return a == b
}

// Event is one delivery, in order.
type Event struct {
	M *Minor
	R *Root
}

// World is the record and the two clusters.
type World struct {
	RT     *rapid.T
	C      *vlib.C
	P, S   *chainenv.Env
	Gen    *hist.Gen
	Minors map[common.Hash]*Minor
	Order  []*Minor
	Roots  []*Root
	RootH  map[common.Hash]*Root
	All    []uint32
	Events []Event
	GasLim uint64
	// MaxForkDepth limits how far below the root tip a fork starts.
	MaxForkDepth int
	// Stats
	Forks, RootForks, Moves int
	n                       int
}

// Opt of a world.
type Opt struct {
	Chains, Shards uint32
	GasLimit       uint64
	Mutate         func(*config.ClusterConfig)
	// Subject changes the options of S alone.
	Subject func(*chainenv.Opt)
}

// New starts both clusters and adds the first two root blocks.
func New(rt *rapid.T, c *vlib.C, o Opt) *World {
	w := &World{RT: rt, C: c, Minors: map[common.Hash]*Minor{}, RootH: map[common.Hash]*Root{}, GasLim: o.GasLimit, MaxForkDepth: 4}
	if w.GasLim == 0 {
		w.GasLim = 600000
	}
	op := hist.Opt(o.Chains, o.Shards)
	op.Mutate = func(cc *config.ClusterConfig) {
		q := cc.Quarkchain
		w.All = q.GetGenesisShardIds()
		sort.Slice(w.All, func(i, j int) bool { return w.All[i] < w.All[j] })
		for _, id := range w.All {
			q.GetShardConfigByFullShardID(id).Genesis.GasLimit = w.GasLim
		}
		if o.Mutate != nil {
			o.Mutate(cc)
		}
	}
	so := op
	if o.Subject != nil {
		o.Subject(&so)
	}
	w.P = chainenv.New(op)
	w.S = chainenv.New(so)
	w.Gen = hist.NewGen(w.P)
	w.Gen.MaxGas = w.GasLim / 3
	rb := w.S.Root.Genesis()
	r0 := &Root{B: rb, H: rb.Hash(), Confirmed: map[uint32]*Minor{}}
	w.Roots, w.RootH[r0.H] = []*Root{r0}, r0
	for _, id := range w.S.IDs {
		gb := w.S.Gen[id]
		if w.P.Gen[id].Hash() != gb.Hash() {
			rt.Fatalf("two clusters of the same configuration have different genesis blocks")
		}
		x := &Minor{ID: id, B: gb, H: gb.Hash(), Ref: r0, Out: map[uint32][]Deposit{}}
		w.Minors[x.H] = x
		w.Order = append(w.Order, x)
	}
	w.MineRoot(r0, true, false)
	w.MineRoot(w.Tip(), true, false)
	return w
}

// Stop ends both clusters.
func (w *World) Stop() {
	w.P.Stop()
	w.S.Stop()
}

// Tip is the head of the root chain of S.
func (w *World) Tip() *Root { return w.RootH[w.S.Root.CurrentBlock().Hash()] }

// Head is the head of a shard of S.
func (w *World) Head(id uint32) *Minor {
	x := w.Minors[w.S.Shard[id].CurrentBlock().Hash()]
	if x == nil {
		w.RT.Fatalf("shard %x has an unknown head", id)
	}
	return x
}

// Chain is the chain ending in x, genesis first.
func Chain(x *Minor) []*Minor {
	var l []*Minor
	for ; x != nil; x = x.Parent {
		l = append(l, x)
	}
	for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
		l[i], l[j] = l[j], l[i]
	}
	return l
}

// ShardOf is the shard of a full shard key.
func (w *World) ShardOf(key uint32) uint32 {
	for _, id := range w.All {
		br := account.Branch{Value: id}
		size := br.GetShardSize()
		if id>>16 == key>>16 && key&(size-1) == id&(size-1) {
			return id
		}
	}
	return 0
}

// Inbound is the order the root chain ending in r fixes for the deposits of a shard.
func (w *World) Inbound(id uint32, r *Root) []Deposit {
	if r == nil {
		return nil
	}
	l := w.Inbound(id, r.Parent)
	v := new(big.Int)
	cb := r.B.Coinbase()
	if w.ShardOf(cb.FullShardKey) == id {
		v = r.B.CoinbaseAmount().GetTokenBalance(chainenv.QKC)
	}
	l = append(l, Deposit{Hash: r.H, From: cb, To: cb, Value: v, Tok: chainenv.QKC, Gas: chainenv.QKC, Root: true})
	for _, m := range r.Listed {
		if m.ID != id && m.Ref != nil && m.Ref.Num > 0 {
			l = append(l, m.Out[id]...)
		}
	}
	return l
}

// Grow builds a block with up to n transactions on par, referring to ref (nil:
// the best possible), adds it to both clusters and records it.
func (w *World) Grow(par *Minor, ref *Root, n int) *Minor {
	rt := w.RT
	id := par.ID
	if ref == nil {
		for ref = w.Tip(); ref.Num > par.Ref.Num && !(ref.On(par.Ref) && par.On(ref.Confirmed[id])); ref = ref.Parent {
		}
		if !ref.On(par.Ref) {
			ref = par.Ref
		}
	}
	P := w.P.Shard[id]
	st, err := P.StateAt(par.B.Root())
	if err != nil {
		rt.Fatalf("state of block %d of shard %x: %v", par.Num, id, err)
	}
	for i := 0; i < hist.Senders; i++ {
		w.Gen.Nonce[[2]uint32{id, uint32(i)}] = st.GetNonce(chainenv.Addrs[i])
	}
	var txs []*types.Transaction
	gas := uint64(0)
	for i := 0; i < n; i++ {
		tx, k := w.Gen.Tx(rt, id)
		if gas+tx.EvmTx.Gas() > w.GasLim/2 {
			continue
		}
		gas += tx.EvmTx.Gas()
		w.Gen.Used(id, tx)
		txs = append(txs, tx)
		w.C.Label("tx-" + k)
	}
	tm := par.B.Time() + 1
	if t := ref.B.Time(); t > tm {
		tm = t
	}
	gl := new(big.Int).SetUint64(w.GasLim)
	xs := new(big.Int).SetUint64(w.GasLim / 2)
	cb := account.NewAddress(chainenv.Addrs[rapid.IntRange(5, 8).Draw(rt, "miner")], chainenv.Key(id, 0))
	var fin *types.MinorBlock
	for {
		w.n++
		blk := par.B.CreateBlockToAppend(&tm, nil, &cb, nil, gl, xs, []byte(fmt.Sprint(w.n)), nil, &ref.H)
		for _, tx := range txs {
			blk.AddTx(chainenv.CopyTx(tx))
		}
		fin, _, err = P.FinalizeAndAddBlock(blk)
		if err == nil {
			break
		}
		if len(txs) == 0 {
			rt.Fatalf("producer refuses an empty block of shard %x on %d: %v", id, par.Num, err)
		}
		w.C.Label("dropped-tx")
		txs = txs[:len(txs)-1]
	}
	x := &Minor{ID: id, B: fin, H: fin.Hash(), Num: par.Num + 1, Parent: par, Ref: ref, Taken: par.Taken, Out: map[uint32][]Deposit{}}
	old := w.Head(id)
	S := w.S.Shard[id]
	_, lists, err := S.InsertChainForDeposits([]types.IBlock{Copy(fin)}, false)
	if err != nil || len(lists) != 1 {
		rt.Fatalf("shard %x refuses block %d on %x: %v", id, x.Num, par.H, err)
	}
	x.Lists = lists[0]
	for _, e := range []*chainenv.Env{w.S, w.P} {
		if err := e.Broadcast(fin, x.Lists); err != nil {
			rt.Fatal(err)
		}
		e.Root.AddValidatedMinorBlockHeader(x.H, fin.CoinbaseAmount())
		e.Shard[id].CommitMinorBlockByHash(x.H)
	}
	x.Rec = S.GetReceiptsByHash(x.H)
	k := len(x.Rec) - len(txs)
	in := w.Inbound(id, ref)
	if k < 0 || x.Taken+k > len(in) {
		rt.Fatalf("block %d of shard %x has %d receipts for %d transactions and %d waiting deposits", x.Num, id, len(x.Rec), len(txs), len(in)-x.Taken)
	}
	x.In = in[x.Taken : x.Taken+k]
	x.Taken += k
	for _, tx := range txs {
		t := tx.EvmTx
		dest := w.ShardOf(t.ToFullShardKey())
		if dest == id {
			continue
		}
		from, _ := types.Sender(types.MakeSigner(t.NetworkId()), t)
		d := Deposit{Hash: tx.Hash(), From: account.NewAddress(from, t.FromFullShardKey()), Value: t.Value(), Tok: t.TransferTokenID(), Gas: t.GasTokenID(), Create: t.To() == nil}
		if t.To() != nil {
			d.To = account.NewAddress(*t.To(), t.ToFullShardKey())
		} else {
			for _, l := range x.Lists {
				if l.TxHash == d.Hash {
					d.To = l.To
				}
			}
		}
		x.Out[dest] = append(x.Out[dest], d)
	}
	w.Minors[x.H] = x
	w.Order = append(w.Order, x)
	w.Events = append(w.Events, Event{M: x})
	if h := w.Head(id); h == x && old != par {
		w.Forks++
		w.C.Label("shard head moved to a fork")
	}
	return x
}

// Copy re-decodes a block so that the clusters share nothing.
func Copy(b *types.MinorBlock) *types.MinorBlock {
	txs := make(types.Transactions, len(b.Transactions()))
	for i, t := range b.Transactions() {
		txs[i] = chainenv.CopyTx(t)
	}
	return types.NewMinorBlockWithHeader(b.Header(), b.Meta()).WithBody(txs, b.TrackingData())
}

// MineRoot builds a root block on par and adds it to both clusters. With full
// it confirms everything on the way to the heads; with heavy it is heavier
// than usual.
func (w *World) MineRoot(par *Root, full, heavy bool) *Root {
	rt := w.RT
	r := &Root{Num: par.Num + 1, Parent: par, Confirmed: map[uint32]*Minor{}}
	for k, v := range par.Confirmed {
		r.Confirmed[k] = v
	}
	tm := par.B.Time() + 1
	for _, id := range w.All {
		n := 8
		if !full {
			n = rapid.IntRange(0, 3).Draw(rt, "confirm")
		}
		if r.Num == 1 {
			n = 1
		}
		for ; n > 0; n-- {
			var kids []*Minor
			for _, b := range w.Order {
				if b.ID == id && b.Parent == r.Confirmed[id] && (b.Num == 0 || par.On(b.Ref)) {
					kids = append(kids, b)
				}
			}
			if len(kids) == 0 {
				break
			}
			k := kids[0]
			if full {
				for h := w.Head(id); h != nil; h = h.Parent {
					for _, q := range kids {
						if q == h {
							k = q
						}
					}
				}
			} else {
				k = rapid.SampledFrom(kids).Draw(rt, "kid")
			}
			r.Listed = append(r.Listed, k)
			r.Confirmed[id] = k
			if k.B.Time() > tm {
				tm = k.B.Time()
			}
		}
	}
	tip := w.Tip()
	diff := big.NewInt(2)
	if par != tip && heavy {
		diff = new(big.Int).Sub(tip.B.TotalDifficulty(), par.B.TotalDifficulty())
		diff.Add(diff, big.NewInt(1))
	}
	// equal total difficulties are decided differently by the root chain and the shards
	if par != tip && new(big.Int).Add(par.B.TotalDifficulty(), diff).Cmp(tip.B.TotalDifficulty()) == 0 {
		diff = new(big.Int).Add(diff, big.NewInt(1))
	}
	dest := rapid.SampledFrom(w.All).Draw(rt, "rootcb")
	cb := account.NewAddress(chainenv.Addrs[rapid.IntRange(6, 9).Draw(rt, "rcb")], chainenv.Key(dest, rapid.Uint32Range(0, 1).Draw(rt, "rsalt")<<6))
	rb := par.B.Header().CreateBlockToAppend(&tm, diff, &cb, nil, []byte(fmt.Sprint(len(w.Roots))))
	for _, k := range r.Listed {
		rb.AddMinorBlockHeader(k.B.Header())
	}
	amt, err := w.S.Root.CalculateRootBlockCoinBase(rb)
	if err != nil {
		rt.Fatal(err)
	}
	rb.Finalize(amt, &cb, common.Hash{})
	r.B, r.H = rb, rb.Hash()
	before := map[uint32]*Minor{}
	for _, id := range w.All {
		before[id] = w.Head(id)
	}
	for _, e := range []*chainenv.Env{w.S, w.P} {
		if _, err := e.Root.InsertChain([]types.IBlock{rb}); err != nil {
			rt.Fatalf("root block %d refused: %v", r.Num, err)
		}
		for _, id := range e.IDs {
			if _, err := e.Shard[id].AddRootBlock(rb); err != nil {
				rt.Fatalf("shard %x refuses root block %d: %v", id, r.Num, err)
			}
		}
	}
	w.Roots = append(w.Roots, r)
	w.RootH[r.H] = r
	w.Events = append(w.Events, Event{R: r})
	if par != tip && w.Tip() == r {
		w.RootForks++
		w.C.Label("root head moved to a fork")
	}
	for _, id := range w.All {
		if w.Head(id) != before[id] {
			w.Moves++
			w.C.Label("root block moved a shard head")
		}
	}
	return r
}

// Step does one random thing.
func (w *World) Step() {
	rt := w.RT
	switch op := rapid.SampledFrom([]string{"grow", "grow", "grow", "fork", "root", "root", "rootfork"}).Draw(rt, "op"); op {
	case "grow":
		id := rapid.SampledFrom(w.All).Draw(rt, "shard")
		w.Grow(w.Head(id), nil, rapid.SampledFrom([]int{0, 2, 4, 6}).Draw(rt, "txs"))
	case "fork":
		id := rapid.SampledFrom(w.All).Draw(rt, "shard")
		h := w.Head(id)
		for d := rapid.IntRange(1, 3).Draw(rt, "depth"); d > 0 && h.Parent != nil; d-- {
			h = h.Parent
		}
		for k := rapid.IntRange(1, 4).Draw(rt, "branch"); k > 0; k-- {
			h = w.Grow(h, nil, rapid.SampledFrom([]int{0, 2, 4}).Draw(rt, "txs"))
		}
	case "root":
		w.MineRoot(w.Tip(), rapid.Bool().Draw(rt, "full"), false)
	case "rootfork":
		r := w.Tip()
		for d := rapid.IntRange(1, w.MaxForkDepth).Draw(rt, "rdepth"); d > 0 && r.Num > 2; d-- {
			r = r.Parent
		}
		heavy := rapid.Bool().Draw(rt, "heavy")
		for k := rapid.IntRange(1, 3).Draw(rt, "rbranch"); k > 0; k-- {
			r = w.MineRoot(r, false, heavy)
		}
	}
}
