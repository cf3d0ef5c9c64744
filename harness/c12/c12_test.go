// Package c12 decides: a restarted node continues from a consistent chain.
//
// A generated history is delivered to a node whose every database write is
// recorded. The node is stopped, or crashes after a generated number of
// writes, starts again, is examined, gets what it lost once more and must
// follow the history as a node that never stopped.
package c12

import (
	"fmt"
	"testing"

	"github.com/QuarkChain/goquarkchain/cluster/config"
	qcom "github.com/QuarkChain/goquarkchain/common"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/internal/encoder"
	"github.com/QuarkChain/goquarkchain/zzverif/chainenv"
	"github.com/QuarkChain/goquarkchain/zzverif/vlib"
	"github.com/QuarkChain/goquarkchain/zzverif/world"
	"github.com/ethereum/go-ethereum/common"
	"pgregory.net/rapid"
)

// examine checks that the node is on a consistent chain of accepted blocks.
func examine(w *world.World, n *node, restarted bool) error {
	rc := n.m.RootChain()
	r := w.RootH[rc.CurrentBlock().Hash()]
	if r == nil {
		return fmt.Errorf("the root head is a block never accepted")
	}
	for x := r; x != nil; x = x.Parent {
		b := rc.GetBlockByNumber(uint64(x.Num))
		if qcom.IsNil(b) || b.Hash() != x.H {
			return fmt.Errorf("root block %d below the head %d is not the canonical one", x.Num, r.Num)
		}
		if qcom.IsNil(rc.GetBlock(x.H)) {
			return fmt.Errorf("root block %d below the head %d is missing", x.Num, r.Num)
		}
		for _, k := range x.Listed {
			if !rc.ContainMinorBlockByHash(k.H) {
				return fmt.Errorf("minor block %d of shard %x is not known as confirmed by root block %d", k.Num, k.ID, x.Num)
			}
		}
	}
	if b := rc.GetBlockByNumber(uint64(r.Num) + 1); !qcom.IsNil(b) {
		return fmt.Errorf("there is a canonical root block above the head %d", r.Num)
	}
	for _, k := range w.Order {
		h := rc.GetRootBlockConfirmingMinorBlock(encoder.IDEncoder(k.H.Bytes(), k.ID))
		if c := r.Confirmed[k.ID]; c == nil || !c.On(k) {
			if h != (common.Hash{}) {
				return fmt.Errorf("minor block %d of shard %x is shown as confirmed by root block %x, which is not on the chain of %d", k.Num, k.ID, h, r.Num)
			}
		} else if x := w.RootH[h]; x == nil || !lists(x, k) {
			return fmt.Errorf("minor block %d of shard %x is not shown as confirmed (root head %d)", k.Num, k.ID, r.Num)
		}
	}
	for _, id := range n.ids {
		if err := examineShard(w, n, id, r, restarted); err != nil {
			return fmt.Errorf("shard %x with root head %d: %v", id, r.Num, err)
		}
	}
	return nil
}

func lists(r *world.Root, k *world.Minor) bool {
	for _, x := range r.Listed {
		if x == k {
			return true
		}
	}
	return false
}

func examineShard(w *world.World, n *node, id uint32, r *world.Root, restarted bool) error {
	m := n.shards[id].MinorBlockChain
	if m.GetRootTip().Hash() != r.H {
		return fmt.Errorf("its root tip is %d %x", m.GetRootTip().Number(), m.GetRootTip().Hash())
	}
	h := w.Minors[m.CurrentBlock().Hash()]
	if h == nil {
		return fmt.Errorf("the head is a block never accepted")
	}
	if c := r.Confirmed[id]; c != nil && !h.On(c) {
		return fmt.Errorf("the head %d is not on the confirmed block %d", h.Num, c.Num)
	} else if restarted && c != nil && h != c {
		return fmt.Errorf("the head is %d, %d is confirmed", h.Num, c.Num)
	}
	on := map[common.Hash]*world.Minor{}
	at := map[common.Hash]int{}
	for x := h; x != nil; x = x.Parent {
		b := m.GetBlockByNumber(x.Num)
		if qcom.IsNil(b) || b.Hash() != x.H {
			return fmt.Errorf("block %d below the head %d is not the canonical one", x.Num, h.Num)
		}
		if !m.HasBlock(x.H) {
			return fmt.Errorf("block %d below the head %d is not there", x.Num, h.Num)
		}
		for i, tx := range x.B.Transactions() {
			on[tx.Hash()], at[tx.Hash()] = x, i
		}
		if len(m.GetReceiptsByHash(x.H)) != len(x.Rec) {
			return fmt.Errorf("block %d below the head %d has %d receipts instead of %d", x.Num, h.Num, len(m.GetReceiptsByHash(x.H)), len(x.Rec))
		}
	}
	if b := m.GetBlockByNumber(h.Num + 1); !qcom.IsNil(b) {
		return fmt.Errorf("there is a canonical block above the head %d", h.Num)
	}
	st, err := m.StateAt(h.B.Root())
	if err != nil {
		return fmt.Errorf("the state of the head %d is missing: %v", h.Num, err)
	}
	if _, err := chainenv.DumpRoot(st.Database(), h.B.Root()); err != nil {
		return fmt.Errorf("the state of the head %d is damaged: %v", h.Num, err)
	}
	for _, x := range w.Order {
		if x.ID != id {
			continue
		}
		for _, tx := range x.B.Transactions() {
			b, i := m.GetTransactionByHash(tx.Hash())
			if y := on[tx.Hash()]; y != nil {
				if b == nil || b.Hash() != y.H || int(i) != at[tx.Hash()] {
					return fmt.Errorf("transaction %d of block %d is found as %v %d", at[tx.Hash()], y.Num, b, i)
				}
			} else if b != nil && w.Minors[b.Hash()] != nil {
				return fmt.Errorf("a transaction outside the chain is found in block %d %x, which is not canonical (head %d)", b.Number(), b.Hash(), h.Num)
			}
		}
	}
	return nil
}

// tie tells whether a shard may have either head, whichever was seen first.
func tie(a, b *world.Minor) bool {
	return a.Num == b.Num && a.Ref == b.Ref
}

// same compares the node with one that never stopped.
func same(w *world.World, n *node, strict bool) error {
	if a, b := n.m.RootChain().CurrentBlock(), w.S.Root.CurrentBlock(); a.Hash() != b.Hash() {
		return fmt.Errorf("the root head is %d %x, that of a node which never stopped %d %x", a.Number(), a.Hash(), b.Number(), b.Hash())
	}
	for _, r := range w.Roots {
		if !n.m.RootChain().HasBlock(r.H) {
			return fmt.Errorf("root block %d is missing", r.Num)
		}
	}
	for _, id := range n.ids {
		m, s := n.shards[id].MinorBlockChain, w.S.Shard[id]
		a, b := w.Minors[m.CurrentBlock().Hash()], w.Head(id)
		if a != b && (strict || a == nil || !tie(a, b)) {
			return fmt.Errorf("the head of shard %x is %d %x, that of a node which never stopped %d %x", id, m.CurrentBlock().NumberU64(), m.CurrentBlock().Hash(), b.Num, b.H)
		}
		for _, x := range w.Order {
			if x.ID == id && (!m.HasBlock(x.H) || m.GetMinorBlock(x.H) == nil) {
				return fmt.Errorf("block %d %x of shard %x is missing", x.Num, x.H, id)
			}
			if x.ID == id && !n.m.RootChain().IsMinorBlockValidated(x.H) {
				return fmt.Errorf("the master does not know block %d %x of shard %x", x.Num, x.H, id)
			}
		}
		if a != b {
			continue
		}
		l1, l2 := m.GetUnconfirmedHeaderList(), s.GetUnconfirmedHeaderList()
		if fmt.Sprint(hashes(l1)) != fmt.Sprint(hashes(l2)) {
			return fmt.Errorf("shard %x offers the headers %v, without the stop %v", id, hashes(l1), hashes(l2))
		}
	}
	return nil
}

func hashes(l []*types.MinorBlockHeader) (h []common.Hash) {
	for _, x := range l {
		h = append(h, x.Hash())
	}
	return h
}

func TestRestart(t *testing.T) {
	rule := "a crash fell into the addition of a block or a root block (some of its writes were kept, some lost)"
	vlib.Check(t, 500, 5000, rule, func(rt *rapid.T, c *vlib.C) {
		sh := rapid.SampledFrom([][2]uint32{{1, 1}, {1, 2}, {2, 1}}).Draw(rt, "shape")
		w := world.New(rt, c, world.Opt{Chains: sh[0], Shards: sh[1], Mutate: func(cc *config.ClusterConfig) {
			cc.Quarkchain.Root.ConsensusType = config.PoWSimulate
			if cc.Quarkchain.Root.ConsensusConfig == nil {
				cc.Quarkchain.Root.ConsensusConfig = &config.POWConfig{TargetBlockTime: 60}
			}
		}})
		defer w.Stop()
		order := rapid.Permutation(w.All).Draw(rt, "order")
		n := newNode(w.S.Cfg, w.All, order, rapid.Bool().Draw(rt, "prune"))
		defer func() { n.stop() }()
		begun := false
		begin := func() {
			if err := n.start(); err != nil {
				rt.Fatalf("the node does not start: %v", err)
			}
			begun = true
		}
		done := 0 // events delivered at least once
		marks := []int{0}
		deliver := func(i int, again bool) {
			e := w.Events[i]
			var err error
			if e.M != nil {
				sync := rapid.SampledFrom([]bool{false, false, true}).Draw(rt, "sync")
				err = n.minor(e.M.B, sync)
			} else {
				err = n.root(e.R.B)
			}
			if err != nil {
				rt.Fatalf("delivery %d (again %v) of %v fails: %v", i, again, show(e), err)
			}
		}
		lost, stopped := false, false
		redeliver := func() {
			for i := 0; i < done; i++ {
				deliver(i, true)
			}
			if err := examine(w, n, false); err != nil {
				rt.Fatalf("after the lost blocks came again: %v", err)
			}
			if err := same(w, n, !lost && !stopped); err != nil {
				rt.Fatalf("after the lost blocks came again: %v", err)
			}
		}
		inside := false
		steps := rapid.IntRange(2, 7).Draw(rt, "steps")
		for k := 0; k < steps; k++ {
			if k > 0 {
				w.Step()
			}
			if !begun {
				begin()
			}
			for ; done < len(w.Events); done++ {
				marks = append(marks, n.d.len())
				deliver(done, false)
			}
			if err := examine(w, n, false); err != nil {
				rt.Fatal(err)
			}
			switch how := rapid.SampledFrom([]string{"go on", "stop", "crash", "crash"}).Draw(rt, "how"); how {
			case "stop":
				c.Label("clean stop")
				stopped = true
				tip := n.m.RootChain().CurrentBlock().Hash()
				n.stop()
				if err := n.start(); err != nil {
					rt.Fatalf("after a clean stop: %v", err)
				}
				if h := n.m.RootChain().CurrentBlock().Hash(); h != tip {
					rt.Fatalf("after a clean stop the root head is another one")
				}
				if err := examine(w, n, true); err != nil {
					rt.Fatalf("after a clean stop: %v", err)
				}
				redeliver()
			case "crash":
				for again := true; again; again = rapid.SampledFrom([]bool{false, false, true}).Draw(rt, "again") {
					all := n.d.len()
					at := rapid.IntRange(0, all).Draw(rt, "writes")
					if rapid.SampledFrom([]bool{true, true, false}).Draw(rt, "late") {
						at = all - rapid.IntRange(0, min(all, 60)).Draw(rt, "lost")
					}
					before := fmt.Sprint(n.d.tail(at))
					n.crash(at)
					lost = true
					if err := n.start(); err != nil {
						rt.Fatalf("after a crash that kept %d of %d writes (%s): %v", at, all, before, err)
					}
					if err := examine(w, n, true); err != nil {
						rt.Fatalf("after a crash that kept %d of %d writes (%s): %v", at, all, before, err)
					}
					c.Label("crash")
					if at < all {
						inside = true
					}
				}
				redeliver()
			}
		}
		if inside {
			c.NonTrivial("%d events, %d writes", len(w.Events), n.d.len())
		}
	})
}

func show(e world.Event) string {
	if e.M != nil {
		return fmt.Sprintf("block %d of shard %x", e.M.Num, e.M.ID)
	}
	return fmt.Sprintf("root block %d", e.R.Num)
}
