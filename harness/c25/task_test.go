package c25

import (
	"errors"
	"fmt"
	"math/big"
	"os"
	"sort"
	"testing"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/rpc"
	qsync "github.com/QuarkChain/goquarkchain/cluster/sync"
	"github.com/QuarkChain/goquarkchain/core"
	"github.com/QuarkChain/goquarkchain/core/state"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/p2p"
	"github.com/QuarkChain/goquarkchain/serialize"
	"github.com/QuarkChain/goquarkchain/zzverif/vlib"
	"github.com/ethereum/go-ethereum/common"
	"pgregory.net/rapid"
)

// The long chains: one trunk per kind, and forks off it.

type kind interface {
	make(parent types.IHeader, salt int) types.IHeader
	block(h types.IHeader) types.IBlock
}

type rootKind struct{}

func (rootKind) make(p types.IHeader, salt int) types.IHeader {
	h := &types.RootBlockHeader{Difficulty: big.NewInt(10), ToTalDifficulty: big.NewInt(10), CoinbaseAmount: types.NewEmptyTokenBalances()}
	if p != nil {
		q := p.(*types.RootBlockHeader)
		h.Number, h.ParentHash, h.Time = q.Number+1, q.Hash(), q.Time+1
		h.Nonce = uint64(salt)
		h.Difficulty = big.NewInt(10 + int64(salt%7))
		h.ToTalDifficulty = new(big.Int).Add(q.ToTalDifficulty, h.Difficulty)
	}
	return h
}

func (rootKind) block(h types.IHeader) types.IBlock {
	return types.NewRootBlockWithHeader(h.(*types.RootBlockHeader))
}

type minorKind struct{}

func (minorKind) make(p types.IHeader, salt int) types.IHeader {
	h := &types.MinorBlockHeader{Branch: account.Branch{Value: 1}, Difficulty: big.NewInt(10), CoinbaseAmount: types.NewEmptyTokenBalances(), GasLimit: &serialize.Uint256{Value: big.NewInt(1)}}
	if p != nil {
		q := p.(*types.MinorBlockHeader)
		h.Number, h.ParentHash, h.Time = q.Number+1, q.Hash(), q.Time+1
		h.Nonce = uint64(salt)
	}
	return h
}

func (minorKind) block(h types.IHeader) types.IBlock {
	return types.NewMinorBlockWithHeader(h.(*types.MinorBlockHeader), &types.MinorBlockMeta{
		GasUsed: &serialize.Uint256{Value: new(big.Int)}, CrossShardGasUsed: &serialize.Uint256{Value: new(big.Int)},
		XShardTxCursorInfo: &types.XShardTxCursorInfo{}, XShardGasLimit: &serialize.Uint256{Value: new(big.Int)}})
}

type trunk struct {
	k kind
	h []types.IHeader
	x []common.Hash
}

func (t *trunk) grow(n int) {
	for len(t.h) < n {
		var p types.IHeader
		if len(t.h) > 0 {
			p = t.h[len(t.h)-1]
		}
		h := t.k.make(p, 0)
		t.h, t.x = append(t.h, h), append(t.x, h.Hash())
	}
}

var rootTrunk, minorTrunk = &trunk{k: rootKind{}}, &trunk{k: minorKind{}}

// side is a chain that leaves the trunk after block f.
type side struct {
	t *trunk
	f int
	h []types.IHeader
	x []common.Hash
}

func (t *trunk) fork(f, n, salt int) *side {
	t.grow(f + 1)
	s := &side{t: t, f: f}
	p := t.h[f]
	for i := 0; i < n; i++ {
		p = t.k.make(p, salt)
		s.h, s.x = append(s.h, p), append(s.x, p.Hash())
	}
	return s
}

func (s *side) top() int { return s.f + len(s.h) }

func (s *side) at(n int) (types.IHeader, common.Hash) {
	if n <= s.f {
		return s.t.h[n], s.t.x[n]
	}
	return s.h[n-s.f-1], s.x[n-s.f-1]
}

// chain is the local chain: the trunk up to a block, and the first part of
// some forks.
type chain struct {
	t       *trunk
	local   *side
	known   map[common.Hash]bool // beyond the trunk
	onTrunk map[common.Hash]int
	badSeal common.Hash
	refuse  common.Hash
	valid   map[common.Hash]bool
	added   []types.IBlock
	broken  string
	vcalls  int
}

func (c *chain) HasBlock(h common.Hash) bool {
	if n, ok := c.onTrunk[h]; ok && n <= c.local.f {
		return true
	}
	return c.known[h]
}

func (c *chain) AddBlock(b types.IBlock) error {
	h := b.Hash()
	if !c.HasBlock(b.IHeader().GetParentHash()) {
		c.broken = fmt.Sprintf("block %d was handed over without its parent", b.NumberU64())
	}
	if h == c.badSeal {
		c.broken = fmt.Sprintf("block %d with a bad seal was handed over", b.NumberU64())
	}
	if h == c.refuse || !c.HasBlock(h) && !c.valid[h] {
		return errors.New("invalid block")
	}
	c.added = append(c.added, b)
	c.known[h] = true
	return nil
}

func (c *chain) CurrentHeader() types.IHeader {
	h, _ := c.local.at(c.local.top())
	return h
}
func (c *chain) Validator() core.Validator                                          { return c }
func (c *chain) AddValidatedMinorBlockHeader(h common.Hash, t *types.TokenBalances) {}
func (c *chain) IsMinorBlockValidated(h common.Hash) bool                           { return false }
func (c *chain) ValidateBlock(b types.IBlock, force bool) error                     { return nil }
func (c *chain) ValidateState(block, parent types.IBlock, s *state.StateDB, r types.Receipts, u uint64) error {
	return nil
}
func (c *chain) ValidateSeal(h types.IHeader, usePosw bool) error {
	c.vcalls++
	if h.Hash() == c.badSeal {
		return errors.New("bad seal")
	}
	return nil
}

var errCalls = errors.New("the task asks without end")

// other is the peer at the level of the task.
type other struct {
	t      *trunk
	views  []*side // what it has at first, and after each further answer of headers
	all    []types.IHeader
	faults map[int]fault
	n, hn  int
	max    int
	used   []string
	byHash map[common.Hash]types.IHeader
	last   *side
	bad    string
	limit  int
	blimit int
}

func (o *other) PeerID() string                   { return "other" }
func (o *other) RootHead() *types.RootBlockHeader { return nil }

func (o *other) next() (fault, bool, error) {
	if o.n++; o.n > o.max {
		return fault{}, false, errCalls
	}
	f, ok := o.faults[o.n-1]
	for i := o.n - 1; i >= 0 && !ok; i-- {
		if g, has := o.faults[i]; has && g.always {
			f, ok = g, true
		}
	}
	return f, ok, nil
}

func (o *other) headers(height uint64, skip, limit uint32, dir uint8) (*side, []types.IHeader) {
	v := o.views[len(o.views)-1]
	if o.hn < len(o.views) {
		v = o.views[o.hn]
	}
	o.hn++
	o.last = v
	if dir != 1 || limit == 0 || int(limit) > 2*o.limit {
		o.bad = fmt.Sprintf("a request for %d headers in direction %d", limit, dir)
	}
	var l []types.IHeader
	for h := height; h <= uint64(v.top()) && uint32(len(l)) < limit; h += uint64(skip) + 1 {
		x, _ := v.at(int(h))
		l = append(l, x)
	}
	return v, l
}

func zeroHeader(h types.IHeader) types.IHeader {
	switch x := h.(type) {
	case *types.RootBlockHeader:
		y := types.CopyRootBlockHeader(x)
		y.Number = 0
		return y
	case *types.MinorBlockHeader:
		y := types.CopyMinorBlockHeader(x)
		y.Number = 0
		return y
	}
	return h
}

func mutHeader(h types.IHeader, f fault) types.IHeader {
	switch x := h.(type) {
	case *types.RootBlockHeader:
		return mutRootHeader(x, f)
	case *types.MinorBlockHeader:
		return mutMinorHeader(x, f)
	}
	return h
}

func (o *other) spoil(l []types.IHeader, f fault) []types.IHeader {
	o.used = append(o.used, "headers-"+f.name)
	if f.name == "spread" {
		// ordered headers at other heights
		v := o.last
		if len(l) == 0 || v.top() == 0 {
			return l
		}
		hs := map[int]bool{}
		lo, hi := int(l[0].NumberU64()), int(l[len(l)-1].NumberU64())
		for i := 0; len(hs) < len(l) && i < 4*len(l); i++ {
			hs[lo+(i*(f.j+1)+f.k)%(hi-lo+1)] = true
		}
		for h := lo; len(hs) < len(l); h++ {
			hs[h] = true
		}
		var ns []int
		for h := range hs {
			ns = append(ns, h)
		}
		sort.Ints(ns)
		l = nil
		for _, h := range ns {
			x, _ := v.at(h)
			l = append(l, x)
		}
		return l
	}
	if f.name == "below" {
		// shifted to the trunk
		l = append([]types.IHeader(nil), l...)
		for i := range l {
			n := int(l[i].NumberU64())
			if n < len(o.t.h) {
				l[i] = o.t.h[n]
			}
		}
		return l
	}
	return lists(l, f, o.all, o.all, mutHeader, zeroHeader)
}

func (o *other) GetRootBlockHeaderList(q *p2p.GetRootBlockHeaderListWithSkipRequest) (*p2p.GetRootBlockHeaderListResponse, error) {
	f, bad, err := o.next()
	if err != nil {
		return nil, err
	}
	v, l := o.headers(uint64(*q.GetHeight()), q.Skip, q.Limit, q.Direction)
	tip, _ := v.at(v.top())
	a := &p2p.GetRootBlockHeaderListResponse{RootTip: tip.(*types.RootBlockHeader)}
	if bad {
		if f.name == "close" {
			return nil, errors.New("closed")
		}
		if f.name == "tip" {
			a.RootTip = o.all[f.j%len(o.all)].(*types.RootBlockHeader)
			if f.n%3 == 0 {
				a.RootTip = mutRootHeader(tip.(*types.RootBlockHeader), f)
			}
		}
		l = o.spoil(l, f)
	}
	for _, h := range l {
		a.BlockHeaderList = append(a.BlockHeaderList, h.(*types.RootBlockHeader))
	}
	return a, nil
}

func (o *other) GetMinorBlockHeaderList(q *rpc.GetMinorBlockHeaderListWithSkipRequest) ([]*types.MinorBlockHeader, error) {
	f, bad, err := o.next()
	if err != nil {
		return nil, err
	}
	_, l := o.headers(*q.GetHeight(), q.Skip, q.Limit, q.Direction)
	if bad {
		if f.name == "close" {
			return nil, errors.New("closed")
		}
		l = o.spoil(l, f)
	}
	var a []*types.MinorBlockHeader
	for _, h := range l {
		a = append(a, h.(*types.MinorBlockHeader))
	}
	return a, nil
}

func (o *other) blocks(hashes []common.Hash) ([]types.IBlock, error) {
	f, bad, err := o.next()
	if err != nil {
		return nil, err
	}
	if len(hashes) > 2*o.blimit {
		o.bad = fmt.Sprintf("a request for %d blocks", len(hashes))
	}
	var l []types.IBlock
	for _, h := range hashes {
		if x := o.byHash[h]; x != nil {
			l = append(l, o.t.k.block(x))
		}
	}
	if bad {
		if f.name == "close" {
			return nil, errors.New("closed")
		}
		o.used = append(o.used, "blocks-"+f.name)
		hs := make([]types.IHeader, 0, len(l))
		for _, b := range l {
			hs = append(hs, b.IHeader())
		}
		hs = lists(hs, f, o.all, o.all, mutHeader, zeroHeader)
		l = nil
		for _, h := range hs {
			l = append(l, o.t.k.block(h))
		}
	}
	return l, nil
}

func (o *other) GetRootBlockList(hashes []common.Hash) (r []*types.RootBlock, err error) {
	l, err := o.blocks(hashes)
	for _, b := range l {
		r = append(r, b.(*types.RootBlock))
	}
	return r, err
}

func (o *other) GetMinorBlockList(hashes []common.Hash, branch uint32) (r []*types.MinorBlock, err error) {
	l, err := o.blocks(hashes)
	for _, b := range l {
		r = append(r, b.(*types.MinorBlock))
	}
	return r, err
}

func TestTask(t *testing.T) {
	long := os.Getenv("VERIF_SHARD") == "0" || vlib.Tier() == "thorough"
	onRoot, onMinor := map[common.Hash]int{}, map[common.Hash]int{}
	vlib.Check(t, 150, 4000, "blocks to fetch beyond a common ancestor found by search, or faults in the answers", func(rt *rapid.T, c *vlib.C) {
		isRoot := rapid.Bool().Draw(rt, "root")
		tr, on, stale := minorTrunk, onMinor, 22500*6
		if isRoot {
			tr, on, stale = rootTrunk, onRoot, 22500
		}
		sizes := []int{0, 1, 2, 5, 20, 99, 100, 101, 499, 500, 501, 700, 1500, 3000}
		if isRoot || long {
			sizes = append(sizes, stale-1, stale, stale+1, stale+700)
		}
		l := rapid.SampledFrom(sizes).Draw(rt, "local")
		if l > 3000 {
			l += rapid.IntRange(0, 100).Draw(rt, "more")
		}
		back := rapid.SampledFrom([]int{0, 1, 2, 3, 10, 50, 99, 100, 101, 300, 499, 500, 501, 1000, 2500, stale - 1, stale, stale + 1, stale + 50, l, l - 1}).Draw(rt, "back")
		if back > l || back < 0 {
			back = l
		}
		f := l - back // where the peer's chain leaves
		n := rapid.SampledFrom([]int{1, 2, 3, 4, 10, 50, 100, 101, 120, 501, 600, back, back + 1, back + 2, back + 30}).Draw(rt, "remote")
		if n > 6000 || n == 0 {
			n = 700
		}
		// local chain: trunk to q, then its own fork
		q := f + rapid.SampledFrom([]int{0, back, back / 2}).Draw(rt, "own")
		tr.grow(q + 1)
		for i := len(on); i < len(tr.x); i++ {
			on[tr.x[i]] = i
		}
		local := &side{t: tr, f: q}
		if l > q {
			if l-q > 6000 {
				tr.grow(l + 1)
				for i := len(on); i < len(tr.x); i++ {
					on[tr.x[i]] = i
				}
				local = &side{t: tr, f: l}
			} else {
				local = tr.fork(q, l-q, 1)
			}
		}
		salt := rapid.SampledFrom([]int{2, 5, 6}).Draw(rt, "salt")
		remote := tr.fork(f, n, salt)
		ch := &chain{t: tr, local: local, known: map[common.Hash]bool{}, onTrunk: on, valid: map[common.Hash]bool{}}
		for _, x := range local.x {
			ch.known[x] = true
		}
		for _, x := range remote.x {
			ch.valid[x] = true
		}
		// some of the peer's blocks may be known already
		anc := f
		if k := rapid.SampledFrom([]int{0, 0, 0, 1, 2, 10, n / 2, n - 1}).Draw(rt, "had"); k < n {
			for _, x := range remote.x[:k] {
				ch.known[x] = true
			}
			anc += k
		}
		o := &other{t: tr, views: []*side{remote}, faults: map[int]fault{}, byHash: map[common.Hash]types.IHeader{}, limit: 100, blimit: 100}
		if isRoot {
			o.limit = 500
		}
		grown := 0
		if rapid.IntRange(0, 3).Draw(rt, "grows") == 0 {
			grown = rapid.IntRange(1, 20).Draw(rt, "grown")
			w := tr.fork(f, n, salt)
			p := w.h[n-1]
			for i := 0; i < grown; i++ {
				p = tr.k.make(p, salt)
				w.h, w.x = append(w.h, p), append(w.x, p.Hash())
			}
			for k := rapid.IntRange(0, 3).Draw(rt, "when"); k > 0; k-- {
				o.views = append(o.views, remote)
			}
			if isRoot {
				o.views = append(o.views, w)
			}
			for _, x := range w.x {
				ch.valid[x] = true
			}
			remote = w
			if !isRoot {
				remote = o.views[0]
			}
		}
		for i, x := range remote.x {
			o.byHash[x] = remote.h[i]
		}
		for i := 0; i <= f && i < 40; i++ {
			o.all = append(o.all, tr.h[f-i])
			o.byHash[tr.x[f-i]] = tr.h[f-i]
		}
		for i := 0; i < len(remote.h) && i < 40; i++ {
			o.all = append(o.all, remote.h[len(remote.h)-1-i])
		}
		honest := rapid.Bool().Draw(rt, "honest")
		if !honest {
			for k := rapid.IntRange(0, 3).Draw(rt, "nfaults"); k > 0; k-- {
				o.faults[rapid.SampledFrom([]int{0, 0, 1, 1, 2, 3, 4, 5, 7, 12, 30}).Draw(rt, "at")] = drawFault(rt,
					[]string{"empty", "drop", "dup", "swap", "reverse", "extend", "replace", "known", "mutate", "tip", "zero", "close", "spread", "spread", "below"})
			}
			switch rapid.IntRange(0, 4).Draw(rt, "invalid") {
			case 0:
				ch.badSeal = remote.x[rapid.IntRange(0, len(remote.x)-1).Draw(rt, "badseal")]
			case 1:
				ch.refuse = remote.x[rapid.IntRange(0, len(remote.x)-1).Draw(rt, "refuse")]
			}
		}
		// each request settles at least one height below the staleness limit
		o.max = 6000 + len(remote.x) + stale
		first := o.views[0]
		tip, _ := first.at(first.top())
		var task qsync.Task
		if isRoot {
			task = qsync.NewRootChainTask(o, tip.(*types.RootBlockHeader), &qsync.BlockSychronizerStats{}, make(chan *rpc.ShardStatus, 1), nil)
		} else {
			task = qsync.NewMinorChainTask(o, tip.(*types.MinorBlockHeader))
		}
		cur := ch.CurrentHeader()
		err := task.Run(ch)
		desc := fmt.Sprintf("root %v, local %d (own from %d), peer leaves at %d with %d blocks (+%d), known up to %d, faults %v", isRoot, l, q, f, n, grown, anc, o.faults)
		if o.n > o.max {
			rt.Fatalf("the task makes more than %d requests: %s", o.max, desc)
		}
		if ch.broken != "" {
			rt.Fatalf("%s: %s", ch.broken, desc)
		}
		for _, u := range o.used {
			c.Label("task " + u)
		}
		if honest && o.bad != "" {
			rt.Fatalf("an honest peer would refuse %s: %s", o.bad, desc)
		}
		if honest {
			better := tip.NumberU64() > cur.NumberU64()
			if isRoot {
				better = tip.GetTotalDifficulty().Cmp(cur.GetTotalDifficulty()) > 0
			}
			a := anc
			if a > l {
				a = l
			}
			switch {
			case !better:
				c.Label("nothing to do")
				if len(ch.added) > 0 || o.n > 0 {
					rt.Fatalf("%d blocks and %d requests for a chain that is not better: %s", len(ch.added), o.n, desc)
				}
			case l-a > stale:
				c.Label("too old")
				if len(ch.added) > 0 {
					rt.Fatalf("a fork older than the limit was fetched: %s", desc)
				}
			default:
				c.Label("fetched")
				if err != nil {
					rt.Fatalf("the task failed with an honest peer: %v: %s", err, desc)
				}
				// everything from the ancestor to the last tip the peer told
				end := o.last
				for i := a + 1; i <= end.top(); i++ {
					_, x := end.at(i)
					if k := i - a - 1; k >= len(ch.added) || ch.added[k].Hash() != x {
						rt.Fatalf("block %d is not fetched in its turn (%d blocks fetched, first %v): %s", i, len(ch.added), num(ch.added), desc)
					}
				}
				if len(ch.added) != end.top()-a {
					rt.Fatalf("%d blocks fetched instead of %d: %s", len(ch.added), end.top()-a, desc)
				}
				if ch.vcalls < len(ch.added) {
					rt.Fatalf("%d seals checked of %d: %s", ch.vcalls, len(ch.added), desc)
				}
				c.NonTrivial("honest %v %d %d %d %d", isRoot, l, f, n, anc)
			}
		} else if len(o.used) > 0 || ch.badSeal != (common.Hash{}) || ch.refuse != (common.Hash{}) {
			c.NonTrivial("%s", desc)
		}
		c.Sample("%s: %d added, %d requests, error %v", desc, len(ch.added), o.n, err)
	})
}

func num(l []types.IBlock) string {
	if len(l) == 0 {
		return "none"
	}
	return fmt.Sprint(l[0].NumberU64())
}
