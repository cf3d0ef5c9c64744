// Package c09 decides: cross-shard value arrives exactly once, complete and in
// the order the root chain fixes.
//
// A whole cluster runs in one process. A ledger in plain arithmetic predicts
// every balance after every block from the transactions of the source blocks
// and the order of the root blocks alone.
package c09

import (
	"fmt"
	"math/big"
	"sort"
	"testing"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/config"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/zzverif/chainenv"
	"github.com/QuarkChain/goquarkchain/zzverif/hist"
	"github.com/QuarkChain/goquarkchain/zzverif/vlib"
	"github.com/ethereum/go-ethereum/common"
	"pgregory.net/rapid"
)

type deposit struct {
	hash     common.Hash
	from, to common.Address
	toKey    uint32
	value    *big.Int
	tok      uint64
	price    *big.Int
	remain   uint64
	call     bool
	root     bool
}

type ledger map[common.Address]map[uint64]*big.Int

func (l ledger) clone() ledger {
	o := ledger{}
	for a, m := range l {
		o[a] = map[uint64]*big.Int{}
		for k, v := range m {
			o[a][k] = v
		}
	}
	return o
}

func (l ledger) add(a common.Address, tok uint64, x *big.Int) {
	if x.Sign() == 0 {
		return
	}
	if l[a] == nil {
		l[a] = map[uint64]*big.Int{}
	}
	if l[a][tok] == nil {
		l[a][tok] = new(big.Int)
	}
	l[a][tok] = new(big.Int).Add(l[a][tok], x)
}

func (l ledger) sub(a common.Address, tok uint64, x *big.Int) { l.add(a, tok, new(big.Int).Neg(x)) }

func (l ledger) sum() map[uint64]*big.Int {
	s := map[uint64]*big.Int{}
	for _, m := range l {
		for k, v := range m {
			if s[k] == nil {
				s[k] = new(big.Int)
			}
			s[k].Add(s[k], v)
		}
	}
	return s
}

type minor struct {
	id     uint32
	b      *types.MinorBlock
	h      common.Hash
	num    uint64
	parent *minor
	ref    *root
	bal    ledger
	taken  int // deposits processed since the shard began
	out    map[uint32][]deposit
}

type root struct {
	b         *types.RootBlock
	h         common.Hash
	num       uint32
	parent    *root
	listed    []*minor
	confirmed map[uint32]*minor
}

func (a *root) on(b *root) bool {
	for ; a != nil && a.num > b.num; a = a.parent {
	}
	return a == b
}

type world struct {
	rt      *rapid.T
	c       *vlib.C
	e       *chainenv.Env
	evm     bool
	ddos    uint64
	rate    *big.Rat
	reward  map[uint32]*big.Int
	minors  map[common.Hash]*minor
	order   []*minor
	roots   []*root
	rooth   map[common.Hash]*root
	hold    []held
	crossed int
	late    map[uint32]uint32
	all     []uint32
}

type held struct {
	src  *minor
	dest uint32
	list []*types.CrossShardTransactionDeposit
}

func (w *world) cut(x *big.Int) *big.Int {
	n := new(big.Int).Mul(x, w.rate.Num())
	return n.Div(n, w.rate.Denom())
}

func (w *world) shardOf(key uint32) uint32 {
	for _, id := range w.all {
		br := account.Branch{Value: id}
		size := br.GetShardSize()
		if id>>16 == key>>16 && key&(size-1) == id&(size-1) {
			return id
		}
	}
	return 0
}

// inbound is the order the root chain fixes for a shard.
func (w *world) inbound(id uint32, r *root) []deposit {
	if r == nil || r.num < w.late[id] {
		return nil
	}
	l := w.inbound(id, r.parent)
	v := new(big.Int)
	cb := r.b.Coinbase()
	if w.shardOf(cb.FullShardKey) == id {
		v = r.b.CoinbaseAmount().GetTokenBalance(chainenv.QKC)
	}
	l = append(l, deposit{hash: r.h, from: cb.Recipient, to: cb.Recipient, toKey: cb.FullShardKey, value: v, tok: chainenv.QKC, price: new(big.Int), root: true})
	for _, m := range r.listed {
		if m.id != id && m.ref != nil && m.ref.num > w.late[id] {
			l = append(l, m.out[id]...)
		}
	}
	return l
}

// predict computes the ledger after b on top of p.
func (w *world) predict(b *types.MinorBlock, p *minor) (*minor, error) {
	x := &minor{id: p.id, b: b, h: b.Hash(), num: p.num + 1, parent: p, ref: w.rooth[b.PrevRootBlockHash()], bal: p.bal.clone(), taken: p.taken, out: map[uint32][]deposit{}}
	if x.ref == nil {
		return nil, fmt.Errorf("block refers to an unknown root block")
	}
	rs := w.e.Shard[p.id].GetReceiptsByHash(x.h)
	miner := b.Coinbase().Recipient
	fees := new(big.Int)
	fee := func(gas uint64, price *big.Int) {
		f := w.cut(new(big.Int).Mul(new(big.Int).SetUint64(gas), price))
		x.bal.add(miner, chainenv.QKC, f)
		fees.Add(fees, f)
	}
	limit := b.GetXShardGasLimit().Uint64()
	used := uint64(0)
	in := w.inbound(p.id, x.ref)
	ri := len(b.Transactions())
	for x.taken < len(in) {
		d := in[x.taken]
		x.taken++
		g0 := uint64(9000)
		// root block the deposit came with decides which are free
		if w.free(d, p.id, x.ref, x.taken-1) {
			g0 = 0
		}
		if !w.evm {
			x.bal.add(d.to, d.tok, d.value)
			used += g0
			fee(9000, d.price)
		} else {
			gas := g0
			if ri >= len(rs) {
				return nil, fmt.Errorf("no receipt for deposit %d", ri)
			}
			r := rs[ri]
			ri++
			if r.TxHash != d.hash {
				return nil, fmt.Errorf("deposit %d of the block is transaction %x, the root chain's order says %x (root blocks %v)", ri-1, r.TxHash, d.hash, w.names())
			}
			ok := true
			if d.call {
				gas = r.GasUsed
				ok = r.Status == types.ReceiptStatusSuccessful
				if gas < g0 || gas > g0+d.remain {
					return nil, fmt.Errorf("deposit used %d gas of %d+%d", gas, g0, d.remain)
				}
				if d.to == hist.BurnGasAddr && (ok || gas != g0+d.remain) {
					return nil, fmt.Errorf("a failing call used %d of %d gas (failed: %v)", gas, g0+d.remain, !ok)
				}
				if d.to == hist.LogAddr[0] && d.tok == chainenv.QKC && !ok && d.remain >= 5000 {
					return nil, fmt.Errorf("a call that cannot fail failed")
				}
			} else if r.Status != types.ReceiptStatusSuccessful || r.GasUsed != gas {
				return nil, fmt.Errorf("transfer deposit has status %d and used %d gas, expected success and %d", r.Status, r.GasUsed, gas)
			}
			if ok {
				x.bal.add(d.to, d.tok, d.value)
			} else {
				x.bal.add(d.from, d.tok, d.value)
			}
			x.bal.add(d.from, chainenv.QKC, new(big.Int).Mul(new(big.Int).SetUint64(g0+d.remain-gas), d.price))
			fee(gas, d.price)
			used += gas
			if r.CumulativeGasUsed != used {
				return nil, fmt.Errorf("deposit receipt says %d gas so far, expected %d", r.CumulativeGasUsed, used)
			}
		}
		if used >= limit {
			break
		}
	}
	if got := b.CrossShardGasUsed().Uint64(); got != used {
		return nil, fmt.Errorf("block says its deposits used %d gas, expected %d (%d of %d deposits)", got, used, x.taken, len(in))
	}
	for _, tx := range b.Transactions() {
		t := tx.EvmTx
		from, err := types.Sender(types.MakeSigner(t.NetworkId()), t)
		if err != nil {
			return nil, err
		}
		dest := w.shardOf(t.ToFullShardKey())
		intr := uint64(21000)
		for _, z := range t.Data() {
			if z == 0 {
				intr += 4
			} else {
				intr += 68
			}
		}
		x.bal.sub(from, t.TransferTokenID(), t.Value())
		if dest == p.id {
			x.bal.add(*t.To(), t.TransferTokenID(), t.Value())
			x.bal.sub(from, chainenv.QKC, new(big.Int).Mul(big.NewInt(21000), t.GasPrice()))
			fee(21000, t.GasPrice())
			used += 21000
			continue
		}
		intr += 9000
		d := deposit{hash: tx.Hash(), from: from, to: *t.To(), toKey: t.ToFullShardKey(), value: t.Value(), tok: t.TransferTokenID(), price: t.GasPrice(), call: len(t.Data()) > 0 || hist.Code[*t.To()] != nil}
		if w.evm {
			d.remain = t.Gas() - intr
		}
		x.bal.sub(from, chainenv.QKC, new(big.Int).Mul(new(big.Int).SetUint64(intr+d.remain), t.GasPrice()))
		fee(intr-9000, t.GasPrice())
		if w.evm {
			used += intr - 9000
		} else {
			used += intr
		}
		x.out[dest] = append(x.out[dest], d)
	}
	if got := b.GasUsed().Uint64(); got != used {
		return nil, fmt.Errorf("block says %d gas was used, expected %d", got, used)
	}
	if w.evm && len(rs) != ri {
		return nil, fmt.Errorf("block has %d receipts for %d deposits and %d transactions", len(rs), ri-len(b.Transactions()), len(b.Transactions()))
	}
	x.bal.add(miner, chainenv.QKC, w.reward[p.id])
	cb := new(big.Int).Add(fees, w.reward[p.id])
	if got := b.CoinbaseAmount().GetTokenBalance(chainenv.QKC); got.Cmp(cb) != 0 {
		return nil, fmt.Errorf("block says its coinbase is %v, expected %v", got, cb)
	}
	return x, nil
}

// free tells whether the i-th deposit of the shard costs no gas.
func (w *world) free(d deposit, id uint32, r *root, i int) bool {
	// which root block it came with
	for len(w.inbound(id, r.parent)) > i {
		r = r.parent
	}
	if uint64(r.num) >= w.ddos {
		return d.root
	}
	return d.price.Sign() == 0
}

func (w *world) same(id uint32, l ledger) error {
	v := chainenv.Dump(w.e.State(id))
	for a, m := range l {
		if !chainenv.EqBal(m, v[a].Bal) {
			return fmt.Errorf("shard %x: account %x has %v, expected %v", id, a, v[a].Bal, m)
		}
	}
	for a, m := range v {
		if !chainenv.EqBal(m.Bal, l[a]) {
			return fmt.Errorf("shard %x: account %x has %v, expected %v", id, a, m.Bal, l[a])
		}
	}
	return nil
}

// add adds a built block: checks the deposits it hands out and delivers them.
func (w *world) add(b *types.MinorBlock, withhold bool) {
	rt, e := w.rt, w.e
	id := b.Branch().Value
	m := e.Shard[id]
	_, lists, err := m.InsertChainForDeposits([]types.IBlock{b}, false)
	if err != nil {
		rt.Fatalf("shard %x refuses its own block: %v", id, err)
	}
	if len(lists) != 1 {
		rt.Fatalf("adding one block returned %d deposit lists", len(lists))
	}
	p := w.minors[b.ParentHash()]
	x, err := w.predict(b, p)
	if err != nil {
		rt.Fatalf("block %d of shard %x: %v", b.NumberU64(), id, err)
	}
	if m.CurrentBlock().Hash() == x.h {
		if err := w.same(id, x.bal); err != nil {
			rt.Fatalf("after block %d: %v", b.NumberU64(), err)
		}
	}
	n := 0
	idx := map[uint32]int{}
	by := map[uint32][]*types.CrossShardTransactionDeposit{}
	for _, d := range lists[0] {
		dest := w.shardOf(d.To.FullShardKey)
		if idx[dest] >= len(x.out[dest]) {
			rt.Fatalf("block of shard %x hands out too many deposits for shard %x", id, dest)
		}
		q := x.out[dest][idx[dest]]
		idx[dest]++
		n++
		if d.TxHash != q.hash || d.From.Recipient != q.from || d.To.Recipient != q.to || d.To.FullShardKey != q.toKey || d.Value.Value.Cmp(q.value) != 0 ||
			d.TransferTokenID != q.tok || d.GasTokenID != chainenv.QKC || d.GasPrice.Value.Cmp(q.price) != 0 || d.GasRemained.Value.Uint64() != q.remain || d.IsFromRootChain || d.CreateContract {
			rt.Fatalf("deposit handed out is %+v, the transaction says %+v", d, q)
		}
		by[dest] = append(by[dest], d)
	}
	for _, l := range x.out {
		n -= len(l)
	}
	if n != 0 {
		rt.Fatalf("block of shard %x hands out %d deposits too few", id, -n)
	}
	for _, dest := range w.all {
		if dest == id || w.late[dest] >= x.ref.num {
			continue
		}
		l := by[dest]
		w.crossed += len(l)
		if e.Shard[dest] == nil {
			rt.Fatalf("shard %x should run", dest)
		}
		if withhold && rapid.IntRange(0, 2).Draw(rt, "withhold") == 0 {
			w.hold = append(w.hold, held{x, dest, l})
			continue
		}
		deliver(e, x, dest, l)
	}
	e.Root.AddValidatedMinorBlockHeader(b.Hash(), b.CoinbaseAmount())
	m.CommitMinorBlockByHash(b.Hash())
	w.minors[x.h] = x
	w.order = append(w.order, x)
}

func deliver(e *chainenv.Env, x *minor, dest uint32, l []*types.CrossShardTransactionDeposit) {
	e.Shard[dest].AddCrossShardTxListByMinorBlockHash(x.h, types.CrossShardTransactionDepositList{TXList: l})
}

func (w *world) genesis(id uint32, gb *types.MinorBlock, r *root) *minor {
	if x := w.minors[gb.Hash()]; x != nil {
		return x
	}
	x := &minor{id: id, b: gb, h: gb.Hash(), ref: r, bal: ledger{}, out: map[uint32][]deposit{}}
	st, err := w.e.Shard[id].StateAt(gb.Root())
	if err != nil {
		w.rt.Fatal(err)
	}
	for a, v := range chainenv.Dump(st) {
		for k, q := range v.Bal {
			x.bal.add(a, k, q)
		}
	}
	w.minors[x.h] = x
	w.order = append(w.order, x)
	return x
}

// mineRoot builds and adds a root block on par. Lists are chosen from all blocks known.
func (w *world) mineRoot(par *root, full bool) {
	rt, e := w.rt, w.e
	r := &root{num: par.num + 1, parent: par, confirmed: map[uint32]*minor{}}
	for k, v := range par.confirmed {
		r.confirmed[k] = v
	}
	tm := par.b.Time() + 1
	for _, id := range w.all {
		if w.late[id] >= r.num {
			continue
		}
		n := 8
		if !full {
			n = rapid.IntRange(0, 3).Draw(rt, "confirm")
		}
		if r.num == w.late[id]+1 && n == 0 {
			n = 1
		}
		for ; n > 0; n-- {
			var kids []*minor
			for _, b := range w.order {
				if b.id == id && b.parent == r.confirmed[id] && (b.ref == nil || par.on(b.ref)) {
					kids = append(kids, b)
				}
			}
			if len(kids) == 0 {
				break
			}
			k := kids[0]
			if full { // follow the head when possible
				for h := w.minors[e.Shard[id].CurrentBlock().Hash()]; h != nil; h = h.parent {
					for _, q := range kids {
						if q == h {
							k = q
						}
					}
				}
			} else {
				k = rapid.SampledFrom(kids).Draw(rt, "kid")
			}
			r.listed = append(r.listed, k)
			r.confirmed[id] = k
			if k.b.Time() > tm {
				tm = k.b.Time()
			}
		}
	}
	diff := big.NewInt(rapid.SampledFrom([]int64{2, 2, 2, 3, 5}).Draw(rt, "diff"))
	if par == w.tip() {
		diff = big.NewInt(2)
	}
	// equal total difficulties are decided differently by the root chain and the shards
	if new(big.Int).Add(par.b.TotalDifficulty(), diff).Cmp(w.tip().b.TotalDifficulty()) == 0 {
		diff = new(big.Int).Add(diff, big.NewInt(1))
	}
	dest := rapid.SampledFrom(w.all).Draw(rt, "rootcb")
	cb := account.NewAddress(chainenv.Addrs[rapid.IntRange(6, 9).Draw(rt, "rcb")], chainenv.Key(dest, rapid.Uint32Range(0, 1).Draw(rt, "rsalt")<<6))
	rb := par.b.Header().CreateBlockToAppend(&tm, diff, &cb, nil, []byte{byte(len(w.roots))})
	for _, k := range r.listed {
		rb.AddMinorBlockHeader(k.b.Header())
	}
	amt, err := e.Root.CalculateRootBlockCoinBase(rb)
	if err != nil {
		rt.Fatal(err)
	}
	rb.Finalize(amt, &cb, common.Hash{})
	r.b, r.h = rb, rb.Hash()
	if w.rooth[r.h] != nil {
		return
	}
	if _, err := e.Root.InsertChain([]types.IBlock{rb}); err != nil {
		rt.Fatalf("root block %d refused: %v", r.num, err)
	}
	// lists not delivered yet: the shard must not take the root block
	for i := 0; i < len(w.hold); i++ {
		h := w.hold[i]
		in := false
		for _, k := range r.listed {
			in = in || k == h.src
		}
		if !in {
			continue
		}
		m := e.Shard[h.dest]
		old, tip := m.CurrentBlock().Hash(), m.GetRootTip().Hash()
		if h.src.ref.num > w.late[h.dest] {
			if _, err := m.AddRootBlock(rb); err == nil {
				rt.Fatalf("shard %x took a root block although the deposits of a confirmed block had not arrived", h.dest)
			}
			if m.CurrentBlock().Hash() != old || m.GetRootTip().Hash() != tip {
				rt.Fatalf("a refused root block moved the head of shard %x", h.dest)
			}
			w.c.Label("late-list")
		}
		deliver(e, h.src, h.dest, h.list)
		w.hold = append(w.hold[:i], w.hold[i+1:]...)
		i--
	}
	for _, id := range append([]uint32{}, e.IDs...) {
		if w.late[id] >= r.num {
			continue
		}
		if _, err := e.Shard[id].AddRootBlock(rb); err != nil {
			rt.Fatalf("shard %x refuses root block %d: %v", id, r.num, err)
		}
	}
	w.roots = append(w.roots, r)
	w.rooth[r.h] = r
	for _, id := range w.all {
		if w.late[id] == r.num && r.num > 0 {
			gb, err := e.Start(id, rb)
			if err != nil {
				rt.Fatalf("starting shard %x: %v", id, err)
			}
			w.genesis(id, gb, r)
			w.c.Label("shard started late")
		}
	}
	// the heads still satisfy the ledger
	for _, id := range e.IDs {
		x := w.minors[e.Shard[id].CurrentBlock().Hash()]
		if x == nil {
			rt.Fatalf("shard %x has an unknown head", id)
		}
		if err := w.same(id, x.bal); err != nil {
			rt.Fatalf("after root block %d: %v", r.num, err)
		}
		// (a shard joins a fork of its genesis root block with the next root block only)
		if w.tip().num > w.late[id] && !w.tip().on(x.ref) {
			rt.Fatalf("the head of shard %x refers to a root block off the root chain", id)
		}
	}
}

func (w *world) tip() *root { return w.rooth[w.e.Root.CurrentBlock().Hash()] }

func (w *world) offer(id uint32, n int) {
	rt, e := w.rt, w.e
	st := e.State(id)
	nonce := map[int]uint64{}
	for ; n > 0; n-- {
		from := rapid.IntRange(0, hist.Senders-1).Draw(rt, "from")
		a := chainenv.Addrs[from]
		if _, ok := nonce[from]; !ok {
			nonce[from] = st.GetNonce(a)
		}
		dest := w.all[0]
		if rapid.Bool().Draw(rt, "spread") {
			dest = rapid.SampledFrom(w.all).Draw(rt, "dest")
		}
		to := chainenv.Addrs[rapid.IntRange(0, 9).Draw(rt, "to")]
		o := chainenv.TxOpt{From: from, To: &to, Nonce: nonce[from], FromKey: chainenv.Key(id, rapid.Uint32Range(0, 3).Draw(rt, "s")<<5), ToKey: chainenv.Key(dest, rapid.Uint32Range(0, 3).Draw(rt, "d")<<5),
			Gas: 21000, Value: big.NewInt(rapid.Int64Range(0, 300).Draw(rt, "v")), Price: big.NewInt(rapid.SampledFrom([]int64{0, 1, 3, 1001}).Draw(rt, "price"))}
		if from < 3 && rapid.Bool().Draw(rt, "tok") {
			o.Token = rapid.SampledFrom([]uint64{hist.TokA, hist.TokB}).Draw(rt, "token")
		}
		if dest != id {
			o.Gas = rapid.SampledFrom([]uint64{30000, 30000, 30001, 33333}).Draw(rt, "xgas")
			if w.evm && rapid.IntRange(0, 2).Draw(rt, "call") == 0 {
				if rapid.Bool().Draw(rt, "empty") {
					to = hist.BurnGasAddr
				} else if rapid.Bool().Draw(rt, "rev") {
					to = hist.RevertAddr
					o.Data = hist.Word(rapid.Uint64Range(0, 1).Draw(rt, "fail"))
				} else {
					to = hist.LogAddr[0]
				}
				o.Gas = rapid.SampledFrom([]uint64{33000, 36500, 50000, 90000}).Draw(rt, "cgas")
			}
		}
		if err := e.Shard[id].AddTx(chainenv.Tx(o)); err == nil {
			nonce[from]++
		} else {
			w.c.Label("pool-refused")
		}
	}
}

func (w *world) mine(id uint32, two bool) {
	rt, e := w.rt, w.e
	var bs []*types.MinorBlock
	miner := rapid.IntRange(5, 8).Draw(rt, "miner")
	b, err := e.Build(id, chainenv.MineOpt{Coinbase: account.NewAddress(chainenv.Addrs[miner], chainenv.Key(id, 0))})
	if err != nil {
		rt.Fatalf("building a block of shard %x: %v", id, err)
	}
	bs = append(bs, b)
	if two {
		b2, err := e.Build(id, chainenv.MineOpt{Coinbase: account.NewAddress(chainenv.Addrs[miner+1], chainenv.Key(id, 0)), NoTx: rapid.Bool().Draw(rt, "notx")})
		if err != nil {
			rt.Fatalf("building a block of shard %x: %v", id, err)
		}
		bs = append(bs, b2)
	}
	for _, b := range bs {
		w.add(b, rapid.IntRange(0, 3).Draw(rt, "hold") == 0)
		w.c.Label("minor")
	}
	hist.Settle(e, id, bs[0])
}

func TestLedger(t *testing.T) {
	rule := "at least three cross-shard deposits were delivered and some destination block was cut by its gas limit or a root chain fork happened"
	vlib.Check(t, 45, 900, rule, func(rt *rapid.T, c *vlib.C) {
		sh := rapid.SampledFrom([][2]uint32{{1, 2}, {2, 1}, {2, 2}, {3, 1}}).Draw(rt, "shape")
		opt := hist.Opt(sh[0], sh[1])
		w := &world{rt: rt, c: c, evm: rapid.IntRange(0, 4).Draw(rt, "evm") > 0, reward: map[uint32]*big.Int{}, minors: map[common.Hash]*minor{}, rooth: map[common.Hash]*root{}, late: map[uint32]uint32{}}
		gl := rapid.SampledFrom([]uint64{66666, 66666, 80000, 150000}).Draw(rt, "gaslimit")
		w.ddos = rapid.SampledFrom([]uint64{1, 4, 90000}).Draw(rt, "ddos")
		w.rate = rapid.SampledFrom([]*big.Rat{big.NewRat(1, 2), big.NewRat(1, 1), big.NewRat(2, 3)}).Draw(rt, "rate")
		late := rapid.SampledFrom([]uint32{0, 0, 1, 2, 3}).Draw(rt, "late")
		rw := rapid.SampledFrom([]int64{0, 1000003}).Draw(rt, "reward")
		opt.Mutate = func(cc *config.ClusterConfig) {
			q := cc.Quarkchain
			q.XShardGasDDOSFixRootHeight = w.ddos
			q.LocalFeeRate = w.rate
			q.RewardCalculateRate = new(big.Rat).SetFrac64(1, 3)
			q.Root.CoinbaseAmount = big.NewInt(777)
			if !w.evm {
				q.EnableEvmTimeStamp = 1 << 40
			}
			ids := q.GetGenesisShardIds()
			sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
			w.all = ids
			for _, id := range ids {
				sc := q.GetShardConfigByFullShardID(id)
				sc.Genesis.GasLimit = gl
				if rapid.Bool().Draw(rt, "roomy") {
					sc.Genesis.GasLimit = 600000
				}
				sc.CoinbaseAmount = big.NewInt(rw)
				w.reward[id] = w.cut(big.NewInt(rw))
			}
			if late > 0 {
				l := ids[len(ids)-1]
				w.late[l] = late
				q.GetShardConfigByFullShardID(l).Genesis.RootHeight = late
			}
		}
		w.e = chainenv.New(opt)
		defer w.e.Stop()
		e := w.e
		rb := e.Root.Genesis()
		r0 := &root{b: rb, h: rb.Hash(), confirmed: map[uint32]*minor{}}
		w.roots, w.rooth[r0.h] = []*root{r0}, r0
		for _, id := range e.IDs {
			w.genesis(id, e.Gen[id], r0)
		}
		w.mineRoot(r0, true)
		w.mineRoot(w.tip(), true)
		cutBlocks, forks := 0, 0
		for s := rapid.IntRange(6, 22).Draw(rt, "steps"); s > 0; s-- {
			switch rapid.SampledFrom([]string{"mine", "mine", "mine", "root", "root", "fork"}).Draw(rt, "op") {
			case "mine":
				id := rapid.SampledFrom(e.IDs).Draw(rt, "shard")
				w.offer(id, rapid.SampledFrom([]int{0, 4, 8, 12}).Draw(rt, "txs"))
				w.mine(id, rapid.IntRange(0, 4).Draw(rt, "two") == 0)
				x := w.minors[e.Shard[id].CurrentBlock().Hash()]
				if n := len(w.inbound(id, x.ref)); x.taken < n {
					cutBlocks++
					c.Label("cut")
				}
			case "root":
				w.mineRoot(w.tip(), rapid.Bool().Draw(rt, "full"))
				c.Label("root")
			case "fork":
				if len(w.roots) < 4 {
					continue
				}
				k := len(w.roots) - 4
				w.mineRoot(w.roots[rapid.IntRange(max(k, 2), len(w.roots)-1).Draw(rt, "base")], rapid.Bool().Draw(rt, "ffull"))
				forks++
				c.Label("fork")
			}
		}
		// everything confirmed arrives
		for i := 0; ; i++ {
			if i > 60 {
				rt.Fatalf("deposits confirmed by the root chain do not arrive")
			}
			w.mineRoot(w.tip(), true)
			left := len(e.Late) > 0
			for _, id := range append([]uint32{}, e.IDs...) {
				w.mine(id, false)
				x := w.minors[e.Shard[id].CurrentBlock().Hash()]
				if x.taken < len(w.inbound(id, w.tip())) {
					left = true
				}
			}
			if !left && i > 1 {
				break
			}
		}
		// whole supply of the tokens nobody mints
		tot := map[uint64]*big.Int{}
		for _, id := range e.IDs {
			x := w.minors[e.Shard[id].CurrentBlock().Hash()]
			for k, v := range x.bal.sum() {
				if tot[k] == nil {
					tot[k] = new(big.Int)
				}
				tot[k].Add(tot[k], v)
			}
			// deposits of unconfirmed blocks are still on their way
			for y := x; y != nil && y != w.tip().confirmed[id]; y = y.parent {
				for _, l := range y.out {
					for _, d := range l {
						if tot[d.tok] == nil {
							tot[d.tok] = new(big.Int)
						}
						tot[d.tok].Add(tot[d.tok], d.value)
					}
				}
			}
		}
		for _, k := range []uint64{hist.TokA, hist.TokB} {
			if want := big.NewInt(3000000 * int64(len(w.all))); tot[k].Cmp(want) != 0 {
				rt.Fatalf("there are %v of token %d, there should be %v", tot[k], k, want)
			}
		}
		if w.crossed >= 3 && (cutBlocks > 0 || forks > 0) {
			c.NonTrivial("%d cross-shard deposits over %d shards, %d blocks cut by the gas limit %d, %d forks of the root chain, late start %d", w.crossed, len(w.all), cutBlocks, gl, forks, late)
		}
	})
}

func (w *world) names() (l []string) {
	for _, r := range w.roots {
		l = append(l, fmt.Sprintf("%d:%x", r.num, r.h[:4]))
	}
	return
}
