// Package c11 decides: a shard's head follows the fork-choice rule, and every
// index describes exactly the canonical chain.
//
// One producer node builds trees of minor blocks and root blocks with arbitrary
// forks; a second node receives them in another order, with repetitions and
// with blocks whose ancestors it does not know. A reference model of the rule
// says what each node's head has to be after every step.
package c11

import (
	"fmt"
	"math/big"
	"testing"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/core"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/zzverif/chainenv"
	"github.com/QuarkChain/goquarkchain/zzverif/hist"
	"github.com/QuarkChain/goquarkchain/zzverif/vlib"
	"github.com/ethereum/go-ethereum/common"
	"pgregory.net/rapid"
)

type minor struct {
	name   string
	b      *types.MinorBlock
	h      common.Hash
	num    uint64
	parent *minor
	ref    *root
	nonces map[int]uint64
	txs    []*types.Transaction
	total  uint32
}

type root struct {
	name      string
	b         *types.RootBlock
	h         common.Hash
	num       uint32
	td        *big.Int
	parent    *root
	confirmed *minor
	listed    []*minor
}

func (a *minor) on(b *minor) bool { // b is a or an ancestor of a
	for ; a != nil && a.num > b.num; a = a.parent {
	}
	return a == b
}

func (a *root) on(b *root) bool {
	for ; a != nil && a.num > b.num; a = a.parent {
	}
	return a == b
}

// node is one chain with the model of what it knows.
type node struct {
	name   string
	m      *core.MinorBlockChain
	env    *chainenv.Env
	minors map[*minor]bool
	roots  map[*root]bool
	tip    *root
	conf   *minor
	head   *minor
	deep   int
}

func (n *node) addMinor(b *minor) {
	if n.minors[b] {
		return
	}
	n.minors[b] = true
	if !n.tip.on(b.ref) {
		return
	}
	up := false
	if b.parent == n.head {
		up = true
	} else if n.conf == nil || (b.num > n.conf.num && b.on(n.conf)) {
		up = b.num > n.head.num || (b.num == n.head.num && b.ref.num > n.head.ref.num)
	}
	if up {
		n.move(b)
	}
}

func (n *node) move(b *minor) {
	if d := int(n.head.num) - int(b.num); !b.on(n.head) && d > n.deep {
		n.deep = d
	}
	n.head = b
}

func (n *node) addRoot(r *root) {
	if n.roots[r] {
		return
	}
	n.roots[r] = true
	if r.td.Cmp(n.tip.td) <= 0 {
		return
	}
	n.tip, n.conf = r, r.confirmed
	h := n.head
	if n.conf != nil && !h.on(n.conf) {
		h = n.conf
	}
	for !n.tip.on(h.ref) {
		h = h.parent
	}
	n.move(h)
}

func (n *node) knowsAll(r *root) bool {
	for _, b := range r.listed {
		if !n.minors[b] {
			return false
		}
	}
	return n.roots[r.parent]
}

type world struct {
	id     uint32
	minors []*minor
	roots  []*root
	txs    map[common.Hash]bool
	byHash map[common.Hash]*minor
	// holders of every transaction
	in map[common.Hash][]*minor
}

func (w *world) check(n *node) error {
	m := n.m
	cur := m.CurrentBlock()
	if cur.Hash() != n.head.h {
		who := "an unknown block"
		if x := w.byHash[cur.Hash()]; x != nil {
			who = x.name
		}
		return fmt.Errorf("%s: head is %s, the rule says %s", n.name, who, n.head.name)
	}
	if m.CurrentHeader().Hash() != n.head.h {
		return fmt.Errorf("%s: CurrentHeader differs from the head", n.name)
	}
	if ct := m.GetMinorTip(); (ct == nil) != (n.conf == nil) || (ct != nil && ct.Hash() != n.conf.h) {
		return fmt.Errorf("%s: the last confirmed block is not the one of root tip %s", n.name, n.tip.name)
	}
	if m.GetRootTip().Hash() != n.tip.h {
		return fmt.Errorf("%s: root tip is %x, the rule says %s", n.name, m.GetRootTip().Hash(), n.tip.name)
	}
	canon := map[*minor]bool{}
	max := uint64(0)
	for _, b := range w.minors {
		if b.num > max {
			max = b.num
		}
	}
	for x := n.head; x != nil; x = x.parent {
		canon[x] = true
		g := m.GetBlockByNumber(x.num)
		if b, ok := g.(*types.MinorBlock); !ok || b == nil || b.Hash() != x.h {
			return fmt.Errorf("%s: the block at height %d is not %s", n.name, x.num, x.name)
		}
		if h := m.GetHeaderByNumber(x.num); h == nil || h.Hash() != x.h {
			return fmt.Errorf("%s: the header at height %d is not %s", n.name, x.num, x.name)
		}
	}
	for k := n.head.num + 1; k <= max+1; k++ {
		if g := m.GetBlockByNumber(k); g != nil {
			if b, ok := g.(*types.MinorBlock); !ok || b != nil {
				return fmt.Errorf("%s: there is a block at height %d above the head %s (%d)", n.name, k, n.head.name, n.head.num)
			}
		}
	}
	for x := range n.minors {
		if g := m.GetMinorBlock(x.h); g == nil || g.Hash() != x.h {
			return fmt.Errorf("%s: known block %s cannot be read", n.name, x.name)
		}
	}
	// transactions
	for h := range w.txs {
		var at *minor
		pos := 0
		for _, b := range w.in[h] {
			if canon[b] {
				at = b
				for i, t := range b.txs {
					if t.Hash() == h {
						pos = i
					}
				}
			}
		}
		got, idx := m.GetTransactionByHash(h)
		if at == nil {
			if got != nil && w.byHash[got.Hash()] != nil {
				return fmt.Errorf("%s: a transaction not on the canonical chain is found in block %s", n.name, w.byHash[got.Hash()].name)
			}
			if b, _, r := m.GetTransactionReceipt(h); r != nil {
				return fmt.Errorf("%s: a transaction not on the canonical chain has a receipt in block %d", n.name, b.NumberU64())
			}
			continue
		}
		if got == nil || got.Hash() != at.h || int(idx) != pos {
			return fmt.Errorf("%s: transaction %d of %s is not found there", n.name, pos, at.name)
		}
		b, i, r := m.GetTransactionReceipt(h)
		if r == nil || b.Hash() != at.h || int(i) != pos || r.TxHash != h {
			return fmt.Errorf("%s: transaction %d of %s has no receipt there", n.name, pos, at.name)
		}
	}
	// state of the head
	st, err := m.State()
	if err != nil {
		return fmt.Errorf("%s: no state of the head: %v", n.name, err)
	}
	if got := st.IntermediateRoot(true); got != n.head.b.Root() {
		return fmt.Errorf("%s: the current state is not that of the head %s", n.name, n.head.name)
	}
	for i := 0; i < hist.Senders; i++ {
		c, err := m.GetTransactionCount(chainenv.Addrs[i], nil)
		if err != nil || c != n.head.nonces[i] {
			return fmt.Errorf("%s: sender %d has nonce %d (%v) on head %s, expected %d", n.name, i, c, err, n.head.name, n.head.nonces[i])
		}
	}
	at, err := m.StateAt(n.head.b.Root())
	if err != nil {
		return err
	}
	for _, a := range chainenv.Addrs[:9] {
		b, err := m.GetBalance(a, nil)
		if err != nil || !chainenv.EqBal(b.GetBalanceMap(), at.GetBalances(a).GetBalanceMap()) {
			return fmt.Errorf("%s: latest balance of %x is not that of head %s: %v", n.name, a, n.head.name, err)
		}
	}
	ss, err := m.GetShardStats()
	if err != nil {
		return err
	}
	if ss.Height != n.head.num || ss.TotalTxCount != n.head.total {
		return fmt.Errorf("%s: statistics say height %d and %d transactions, expected %d and %d", n.name, ss.Height, ss.TotalTxCount, n.head.num, n.head.total)
	}
	// unconfirmed headers
	var un []*minor
	for x := n.head; x != nil && x != n.conf; x = x.parent {
		un = append([]*minor{x}, un...)
	}
	got := m.GetUnconfirmedHeaderList()
	lim := int(n.env.Cfg.Quarkchain.GetShardConfigByFullShardID(w.id).MaxBlocksPerShardInOneRootBlock())
	if len(un) > lim {
		un = un[:lim]
	}
	if len(got) != len(un) {
		return fmt.Errorf("%s: %d unconfirmed headers offered, expected %d (head %s)", n.name, len(got), len(un), n.head.name)
	}
	for i := range got {
		if got[i].Hash() != un[i].h {
			return fmt.Errorf("%s: unconfirmed header %d is not %s", n.name, i, un[i].name)
		}
	}
	return nil
}

func TestForkChoice(t *testing.T) {
	rule := "the subject node had to abandon at least one block of its head chain"
	vlib.Check(t, 150, 4000, rule, func(rt *rapid.T, c *vlib.C) {
		opt := hist.Opt(1, 1)
		p := chainenv.New(opt)
		defer p.Stop()
		s := chainenv.New(opt)
		defer s.Stop()
		id := p.IDs[0]
		w := &world{id: id, txs: map[common.Hash]bool{}, byHash: map[common.Hash]*minor{}, in: map[common.Hash][]*minor{}}
		g0 := &minor{name: "m0", b: p.Gen[id], h: p.Gen[id].Hash(), nonces: map[int]uint64{}}
		r0 := &root{name: "r0", b: p.Root.Genesis(), h: p.Root.Genesis().Hash(), td: p.Root.Genesis().TotalDifficulty()}
		g0.ref = r0
		w.minors, w.roots = []*minor{g0}, []*root{r0}
		w.byHash[g0.h] = g0
		mk := func(name string, e *chainenv.Env) *node {
			return &node{name: name, m: e.Shard[id], env: e, minors: map[*minor]bool{g0: true}, roots: map[*root]bool{r0: true}, tip: r0, head: g0}
		}
		P, S := mk("producer", p), mk("subject", s)
		if s.Gen[id].Hash() != g0.h {
			rt.Fatal("two nodes of the same configuration have different genesis blocks")
		}
		gasLimit := p.Cfg.Quarkchain.GetShardConfigByFullShardID(id).Genesis.GasLimit
		xs := new(big.Int).SetUint64(gasLimit / 2)
		abandoned := false
		see := func(n *node, what string, f func()) {
			old := n.head
			f()
			if n == S && !n.head.on(old) {
				abandoned = true
				if n.head.num < old.num {
					c.Label("head-shorter")
				}
				c.Label("reorg")
			}
			if err := w.check(n); err != nil {
				rt.Fatalf("after %s: %v", what, err)
			}
		}
		undelM := func() []*minor { // not at the subject
			var o []*minor
			for _, b := range w.minors {
				if !S.minors[b] {
					o = append(o, b)
				}
			}
			return o
		}
		undelR := func() []*root {
			var o []*root
			for _, b := range w.roots {
				if !S.roots[b] {
					o = append(o, b)
				}
			}
			return o
		}
		sendM := func(b *minor) {
			ok := S.minors[b.parent] && S.roots[b.ref]
			fresh := !S.minors[b]
			_, err := S.m.InsertChain([]types.IBlock{b.b}, false)
			if fresh && ok != (err == nil) {
				rt.Fatalf("subject: inserting %s (deliverable %v) says %v", b.name, ok, err)
			}
			see(S, "inserting "+b.name, func() {
				if ok {
					S.addMinor(b)
				}
			})
		}
		sendR := func(r *root) {
			ok := S.knowsAll(r)
			old := S.tip
			fresh := !S.roots[r]
			tipChanged, err := S.m.AddRootBlock(r.b)
			if fresh && ok != (err == nil) {
				rt.Fatalf("subject: adding %s (deliverable %v) says %v", r.name, ok, err)
			}
			see(S, "adding "+r.name, func() {
				if ok {
					S.addRoot(r)
				}
			})
			if tipChanged != (S.tip != old) {
				rt.Fatalf("subject: adding %s says tip changed %v", r.name, tipChanged)
			}
		}
		steps := rapid.IntRange(18, 45).Draw(rt, "steps")
		bold := rapid.SampledFrom([]int{1, 2, 4}).Draw(rt, "bold")
		txw := rapid.SampledFrom([]int{0, 2, 4}).Draw(rt, "txw")
		for step := 0; step < steps; step++ {
			switch k := rapid.SampledFrom([]int{0, 0, 0, 0, 0, 1, 1, 2, 2, 2, 2, 3, 4, 4, 5, 6}).Draw(rt, "op"); k {
			case 0: // new minor block at the producer
				par := w.minors[len(w.minors)-1]
				switch rapid.IntRange(0, 2+bold).Draw(rt, "par") {
				case 0:
					par = P.head
				case 1, 2:
				case 3:
					par = S.head
				default:
					par = rapid.SampledFrom(w.minors).Draw(rt, "parent")
				}
				var refs []*root
				for _, r := range w.roots {
					if r.on(par.ref) && (r.confirmed == nil || par.on(r.confirmed)) {
						refs = append(refs, r)
					}
				}
				ref := rapid.SampledFrom(refs).Draw(rt, "ref")
				if rapid.IntRange(0, 1).Draw(rt, "late") == 0 {
					ref = refs[len(refs)-1]
				}
				cb := account.NewAddress(chainenv.Addrs[5+rapid.IntRange(0, 2).Draw(rt, "cb")], chainenv.Key(id, 0))
				bt := par.b.Time() + uint64(rapid.SampledFrom([]int{1, 1, 1, 7}).Draw(rt, "dt"))
				rh := ref.h
				blk := par.b.CreateBlockToAppend(&bt, nil, &cb, nil, new(big.Int).SetUint64(gasLimit), xs, []byte{byte(step)}, nil, &rh)
				x := &minor{name: fmt.Sprintf("m%d(%s,%s)", len(w.minors), short(par.name), ref.name), num: par.num + 1, parent: par, ref: ref, nonces: map[int]uint64{}}
				for k, v := range par.nonces {
					x.nonces[k] = v
				}
				for i := rapid.IntRange(0, txw).Draw(rt, "txs"); i > 0; i-- {
					from := rapid.IntRange(0, hist.Senders-1).Draw(rt, "from")
					v := rapid.IntRange(1, 2).Draw(rt, "variant")
					o := chainenv.TxOpt{From: from, To: &chainenv.Addrs[(from+v)%9], Nonce: x.nonces[from], Gas: 60000, Value: big.NewInt(int64(v)), Price: big.NewInt(int64(v)), FromKey: chainenv.Key(id, 0), ToKey: chainenv.Key(id, 0)}
					if v == 2 {
						o.To, o.Value = &hist.LogAddr[1], new(big.Int)
						o.Data = append(hist.Word(7), hist.Word(8)...)
					}
					tx := chainenv.Tx(o)
					x.nonces[from]++
					x.txs = append(x.txs, tx)
					blk.AddTx(chainenv.CopyTx(tx))
				}
				fin, _, err := P.m.FinalizeAndAddBlock(blk)
				if err != nil {
					rt.Fatalf("producer: valid block %s refused: %v", x.name, err)
				}
				x.b, x.h = fin, fin.Hash()
				if w.byHash[x.h] != nil {
					c.Label("identical")
					continue
				}
				x.total = par.total + uint32(len(x.txs))
				w.minors = append(w.minors, x)
				w.byHash[x.h] = x
				for _, tx := range x.txs {
					w.txs[tx.Hash()] = true
					w.in[tx.Hash()] = append(w.in[tx.Hash()], x)
				}
				see(P, "building "+x.name, func() { P.addMinor(x) })
			case 1: // new root block
				par := w.roots[len(w.roots)-1]
				if rapid.IntRange(0, 2).Draw(rt, "fork") == 0 {
					par = rapid.SampledFrom(w.roots).Draw(rt, "rparent")
				}
				r := &root{num: par.num + 1, parent: par, confirmed: par.confirmed}
				n := rapid.IntRange(0, 4).Draw(rt, "confirm")
				if par == r0 && n == 0 {
					n = rapid.IntRange(0, 1).Draw(rt, "gen")
				}
				for ; n > 0; n-- {
					var kids []*minor
					for _, b := range w.minors {
						if b.parent == r.confirmed && par.on(b.ref) {
							kids = append(kids, b)
						}
					}
					if len(kids) == 0 {
						break
					}
					kid := rapid.SampledFrom(kids).Draw(rt, "kid")
					r.listed = append(r.listed, kid)
					r.confirmed = kid
				}
				diff := big.NewInt(int64(rapid.SampledFrom([]int{1, 2, 2, 3, 5}).Draw(rt, "diff")))
				cb := account.NewAddress(chainenv.Addrs[8], chainenv.Key(id, 0))
				rtm := par.b.Time() + uint64(1+rapid.IntRange(0, 3).Draw(rt, "rdt"))
				rb := par.b.Header().CreateBlockToAppend(&rtm, diff, &cb, nil, []byte{byte(step)})
				for _, b := range r.listed {
					rb.AddMinorBlockHeader(b.b.Header())
				}
				amt := types.NewTokenBalancesWithMap(map[uint64]*big.Int{chainenv.QKC: big.NewInt(1000 + int64(len(w.roots)))})
				rb.Finalize(amt, &cb, common.Hash{})
				r.b, r.h, r.td = rb, rb.Hash(), rb.TotalDifficulty()
				if new(big.Int).Add(par.td, diff).Cmp(r.td) != 0 {
					rt.Fatalf("total difficulty %v after %v plus %v", r.td, par.td, diff)
				}
				r.name = fmt.Sprintf("r%d(%s,+%v", len(w.roots), short(par.name), diff)
				for _, b := range r.listed {
					r.name += "," + short(b.name)
				}
				r.name += ")"
				dup := false
				for _, o := range w.roots {
					dup = dup || o.h == r.h
				}
				if dup {
					c.Label("identical")
					continue
				}
				if _, err := P.m.AddRootBlock(rb); err != nil {
					rt.Fatalf("producer: %s refused: %v", r.name, err)
				}
				w.roots = append(w.roots, r)
				see(P, "adding "+r.name, func() { P.addRoot(r) })
			case 6: // a minor block whose root reference is not allowed
				par := rapid.SampledFrom(w.minors).Draw(rt, "parent")
				var refs []*root
				for _, r := range w.roots {
					if !r.on(par.ref) || (r.confirmed != nil && !par.on(r.confirmed)) {
						refs = append(refs, r)
					}
				}
				if len(refs) == 0 {
					continue
				}
				ref := rapid.SampledFrom(refs).Draw(rt, "badref")
				cb := account.NewAddress(chainenv.Addrs[5], chainenv.Key(id, 0))
				bt, rh := par.b.Time()+1, ref.h
				blk := par.b.CreateBlockToAppend(&bt, nil, &cb, nil, new(big.Int).SetUint64(gasLimit), xs, []byte{byte(step)}, nil, &rh)
				if _, _, err := P.m.FinalizeAndAddBlock(blk); err == nil {
					rt.Fatalf("producer: block on %s with reference %s accepted", par.name, ref.name)
				}
				c.Label("bad-reference")
				see(P, "refusing a block", func() {})
			case 2:
				if l := undelM(); len(l) > 0 {
					i := 0
					if rapid.IntRange(0, 2).Draw(rt, "any") == 0 {
						i = rapid.IntRange(0, len(l)-1).Draw(rt, "which")
					}
					sendM(l[i])
				}
			case 3:
				if l := undelR(); len(l) > 0 {
					sendR(rapid.SampledFrom(l).Draw(rt, "whichr"))
				}
			case 4: // everything deliverable, in a drawn order
				for n := 0; n < 6; n++ {
					var ds []interface{}
					for _, b := range undelM() {
						if S.minors[b.parent] && S.roots[b.ref] {
							ds = append(ds, b)
						}
					}
					for _, r := range undelR() {
						if S.knowsAll(r) {
							ds = append(ds, r)
						}
					}
					if len(ds) == 0 {
						break
					}
					switch d := ds[rapid.IntRange(0, len(ds)-1).Draw(rt, "next")].(type) {
					case *minor:
						sendM(d)
					case *root:
						sendR(d)
					}
				}
			case 5: // repetition
				sendM(rapid.SampledFrom(w.minors).Draw(rt, "again"))
				sendR(rapid.SampledFrom(w.roots[:]).Draw(rt, "againr"))
			}
		}
		if abandoned {
			c.NonTrivial("%d minor and %d root blocks, subject ends on %s", len(w.minors), len(w.roots), S.head.name)
		}
	})
}

func short(s string) string {
	for i := range s {
		if s[i] == '(' {
			return s[:i]
		}
	}
	return s
}
