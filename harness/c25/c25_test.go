// Package c25 decides: synchronising adopts only verified chains and survives
// any peer.
//
// A whole cluster that knows a part of a generated history meets, over its
// real peer protocol, peers which this program plays: liars first, whose
// answers carry generated faults or consistently forged chains, then an honest
// one (played, or a second whole cluster), with which it must end up on the
// honest peer's chain.
package c25

import (
	"fmt"
	"math/big"
	"os"
	"sync"
	"testing"
	"time"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/p2p"
	"github.com/QuarkChain/goquarkchain/serialize"
	"github.com/QuarkChain/goquarkchain/zzverif/stack"
	"github.com/QuarkChain/goquarkchain/zzverif/vlib"
	"github.com/QuarkChain/goquarkchain/zzverif/world"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/log"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	if os.Getenv("VLOG") == "" {
		log.Root().SetHandler(log.DiscardHandler())
	} else {
		log.Root().SetHandler(log.StreamHandler(os.Stderr, log.TerminalFormat(false)))
	}
	os.Exit(m.Run())
}

// A fault is what is done to one answer.
type fault struct {
	name    string
	k, j, n int
	always  bool // to every answer from this one on
}

func (f fault) String() string {
	return fmt.Sprintf("%s(%d,%d,%d,%v)", f.name, f.k, f.j, f.n, f.always)
}

var faultNames = []string{"empty", "drop", "dup", "swap", "reverse", "extend", "replace", "known", "mutate", "tip", "zero",
	"truncate", "flip", "wrongop", "wrongrpc", "double", "close", "silent", "hello", "garbage"}

func drawFault(rt *rapid.T, names []string) fault {
	return fault{
		name:   rapid.SampledFrom(names).Draw(rt, "fault"),
		k:      rapid.IntRange(0, 600).Draw(rt, "k"),
		j:      rapid.IntRange(0, 40).Draw(rt, "j"),
		n:      rapid.IntRange(0, 1<<16).Draw(rt, "n"),
		always: rapid.SampledFrom([]bool{false, true}).Draw(rt, "always"),
	}
}

// lists applies a fault to a list.
func lists[T any](l []T, f fault, other, known []T, mutate func(T, fault) T, zero func(T) T) []T {
	l = append([]T(nil), l...)
	k := 0
	if len(l) > 0 {
		k = f.k % len(l)
	}
	switch f.name {
	case "empty":
		return nil
	case "extend":
		return append(l, other[f.j%len(other)])
	}
	if len(l) == 0 {
		return l
	}
	switch f.name {
	case "drop":
		return append(l[:k:k], l[k+1:]...)
	case "dup":
		l[k] = l[f.j%len(l)]
	case "swap":
		j := (k + 1 + f.j) % len(l)
		l[k], l[j] = l[j], l[k]
	case "reverse":
		for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
			l[i], l[j] = l[j], l[i]
		}
	case "replace":
		l[k] = other[f.j%len(other)]
	case "known":
		for i := range l {
			l[i] = known[(i+f.j)%len(known)]
		}
	case "mutate":
		l[k] = mutate(l[k], f)
	case "zero":
		l[k] = zero(l[k])
	}
	return l
}

func mutRootHeader(h *types.RootBlockHeader, f fault) *types.RootBlockHeader {
	h = types.CopyRootBlockHeader(h)
	switch f.n % 9 {
	case 0:
		h.Number++
	case 1:
		h.Number = ^uint32(0)
	case 2:
		h.ParentHash[3] ^= 1
	case 3:
		h.ToTalDifficulty = new(big.Int).Add(h.ToTalDifficulty, big.NewInt(int64(f.n)))
	case 4:
		h.ToTalDifficulty = big.NewInt(0)
	case 5:
		h.Time++
	case 6:
		h.Difficulty = big.NewInt(0)
	case 7:
		h.Extra = make([]byte, f.n%5000)
	case 8:
		h.Version++
	}
	return h
}

func mutMinorHeader(h *types.MinorBlockHeader, f fault) *types.MinorBlockHeader {
	h = types.CopyMinorBlockHeader(h)
	switch f.n % 8 {
	case 0:
		h.Number++
	case 1:
		h.Number = ^uint64(0)
	case 2:
		h.ParentHash[3] ^= 1
	case 3:
		h.PrevRootBlockHash[0] ^= 4
	case 4:
		h.Time++
	case 5:
		h.Branch = account.Branch{Value: h.Branch.Value ^ 1}
	case 6:
		h.MetaHash[1] ^= 1
	case 7:
		h.CoinbaseAmount = types.NewTokenBalancesWithMap(map[uint64]*big.Int{35760: big.NewInt(int64(f.n))})
	}
	return h
}

func mutRoot(b *types.RootBlock, f fault) *types.RootBlock {
	l := append(types.MinorBlockHeaders{}, b.MinorBlockHeaders()...)
	if f.n%4 == 0 {
		return types.NewRootBlockWithHeader(mutRootHeader(b.Header(), fault{n: f.n / 4})).WithBody(l, nil)
	}
	if len(l) > 0 {
		k := f.j % len(l)
		switch f.n % 4 {
		case 1:
			l = append(l[:k:k], l[k+1:]...)
		case 2:
			l = append(l, l[k])
		case 3:
			l[k] = mutMinorHeader(l[k], fault{n: f.n / 4})
		}
	}
	return types.NewRootBlockWithHeader(b.Header()).WithBody(l, nil)
}

// parts of a block, shared with nothing.
func parts(b *types.MinorBlock) (*types.MinorBlockHeader, *types.MinorBlockMeta, types.Transactions) {
	m := b.Meta()
	c := *m.XShardTxCursorInfo
	m.XShardTxCursorInfo = &c
	m.GasUsed = &serialize.Uint256{Value: new(big.Int).Set(m.GasUsed.Value)}
	return b.Header(), m, b.Transactions()
}

func mutMinor(b *types.MinorBlock, f fault) *types.MinorBlock {
	h, m, t := parts(b)
	switch f.n % 4 {
	case 0:
		h = mutMinorHeader(h, fault{n: f.n / 4})
	case 1:
		m.Root[0] ^= 1
	case 2:
		if len(t) > 0 {
			k := f.j % len(t)
			t = append(t[:k:k], t[k+1:]...)
		} else {
			m.ReceiptHash[5] ^= 1
		}
	case 3:
		if len(t) > 0 {
			t = append(t[:len(t):len(t)], t[f.j%len(t)])
		} else {
			m.GasUsed.Value = big.NewInt(int64(f.n))
		}
	}
	return types.NewMinorBlockWithHeader(h, m).WithBody(t, nil)
}

type env struct {
	w      *world.World
	v      *stack.View
	rhs    []*types.RootBlockHeader
	rbs    []*types.RootBlock
	mhs    map[uint32][]*types.MinorBlockHeader
	mbs    []*types.MinorBlock
	krhs   []*types.RootBlockHeader
	krbs   []*types.RootBlock
	faults map[int]fault
	mu     sync.Mutex
	n      int
	used   []string
	wire   *stack.Wire
}

// serve answers as the view would, with the faults.
func (e *env) serve(m stack.Msg) [][]byte {
	op, a := e.v.Answer(m)
	if a == nil {
		return nil
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	f, ok := e.faults[e.n]
	if !ok {
		for i := e.n; i >= 0 && !ok; i-- {
			if g, has := e.faults[i]; has && g.always {
				f, ok = g, true
			}
		}
	}
	e.n++
	if !ok {
		return [][]byte{stack.Envelope(stack.Msg{Op: op, Rpc: m.Rpc, Branch: m.Branch, Data: stack.Ser(a)})}
	}
	kind := "headers"
	switch x := a.(type) {
	case *p2p.GetRootBlockHeaderListResponse:
		if f.name == "tip" {
			x.RootTip = e.rhs[f.j%len(e.rhs)]
			if f.n%3 == 0 {
				x.RootTip = mutRootHeader(e.v.Tip, f)
			}
		}
		x.BlockHeaderList = lists(x.BlockHeaderList, f, e.rhs, e.krhs, mutRootHeader, func(h *types.RootBlockHeader) *types.RootBlockHeader {
			h = types.CopyRootBlockHeader(h)
			h.Number = 0
			return h
		})
	case *p2p.GetRootBlockListResponse:
		kind = "blocks"
		x.RootBlockList = lists(x.RootBlockList, f, e.rbs, e.krbs, mutRoot, func(b *types.RootBlock) *types.RootBlock { return e.rbs[0] })
	case *p2p.GetMinorBlockListResponse:
		kind = "minors"
		x.MinorBlockList = lists(x.MinorBlockList, f, e.mbs, e.mbs, mutMinor, func(b *types.MinorBlock) *types.MinorBlock { return e.mbs[0] })
	case *p2p.GetMinorBlockHeaderListResponse:
		kind = "minorheaders"
		if f.name == "tip" {
			x.ShardTip = mutMinorHeader(x.ShardTip, f)
		}
		o := e.mhs[m.Branch]
		x.BlockHeaderList = lists(x.BlockHeaderList, f, o, o, mutMinorHeader, func(h *types.MinorBlockHeader) *types.MinorBlockHeader {
			h = types.CopyMinorBlockHeader(h)
			h.Number = 0
			return h
		})
	}
	e.used = append(e.used, kind+"-"+f.name)
	r := stack.Msg{Op: op, Rpc: m.Rpc, Branch: m.Branch, Data: stack.Ser(a)}
	switch f.name {
	case "truncate":
		r.Data = r.Data[:f.n%(len(r.Data)+1)]
	case "flip":
		if len(r.Data) > 0 {
			r.Data[f.n%len(r.Data)] ^= byte(1 << uint(f.j%8))
		}
	case "garbage":
		r.Data = make([]byte, f.n%200)
		for i := range r.Data {
			r.Data[i] = byte(f.n * (i + 3) >> 3)
		}
	case "wrongop":
		ops := []p2p.P2PCommandOp{p2p.GetRootBlockHeaderListResponseMsg, p2p.GetRootBlockListResponseMsg, p2p.GetMinorBlockListResponseMsg,
			p2p.GetMinorBlockHeaderListResponseMsg, p2p.GetRootBlockHeaderListWithSkipResponseMsg, p2p.GetMinorBlockHeaderListWithSkipResponseMsg, p2p.Ping, 77}
		r.Op = ops[f.j%len(ops)]
		if f.n%2 == 0 {
			r.Data = nil
		}
	case "wrongrpc":
		r.Rpc += uint64(f.n)%3 + 1
	case "double":
		return [][]byte{stack.Envelope(r), stack.Envelope(r), stack.Envelope(r)}
	case "close":
		go e.wire.Close()
		return nil
	case "silent":
		return nil
	case "hello":
		r.Op, r.Rpc = p2p.Hello, 0
	}
	return [][]byte{stack.Envelope(r)}
}

// forgeRoot makes a block that no honest cluster accepts out of a valid one.
func forgeRoot(b *types.RootBlock, par *types.RootBlock, f fault) (*types.RootBlock, string) {
	h := b.Header()
	l := append(types.MinorBlockHeaders{}, b.MinorBlockHeaders()...)
	name := ""
	switch f.k % 7 {
	case 0:
		name = "coinbase"
		m := h.CoinbaseAmount.GetBalanceMap()
		n := map[uint64]*big.Int{}
		for k, v := range m {
			n[k] = new(big.Int).Add(v, big.NewInt(1))
		}
		if len(n) == 0 {
			n[35760] = big.NewInt(1)
		}
		h.CoinbaseAmount = types.NewTokenBalancesWithMap(n)
	case 1:
		name = "totaldifficulty"
		h.ToTalDifficulty = new(big.Int).Add(h.ToTalDifficulty, big.NewInt(int64(f.n)+1))
	case 2:
		name = "time"
		h.Time = par.Time()
	case 3, 4:
		if len(l) > 0 {
			name = "repeat"
			k := f.j % len(l)
			l = append(l[:k+1:k+1], l[k:]...)
			break
		}
		fallthrough
	case 5:
		if len(l) > 0 {
			name = "minor"
			k := f.j % len(l)
			l[k] = mutMinorHeader(l[k], fault{n: []int{4, 6, 7}[f.n%3]})
			break
		}
		name = "root"
		h.Root[0] ^= 1
	case 6:
		name = "number"
		h.Number++
	}
	return types.NewRootBlock(h, l, nil), name
}

// forgeMinor does the same for a minor block.
func forgeMinor(b *types.MinorBlock, f fault) (*types.MinorBlock, string) {
	h, m, t := parts(b)
	name := ""
	switch f.k % 6 {
	case 0:
		name = "coinbase"
		n := map[uint64]*big.Int{}
		for k, v := range h.CoinbaseAmount.GetBalanceMap() {
			n[k] = new(big.Int).Add(v, big.NewInt(1))
		}
		if len(n) == 0 {
			n[35760] = big.NewInt(1)
		}
		h.CoinbaseAmount = types.NewTokenBalancesWithMap(n)
	case 1:
		name = "state"
		m.Root[2] ^= 1
	case 2:
		name = "gas"
		m.GasUsed.Value = new(big.Int).Add(m.GasUsed.Value, big.NewInt(1))
	case 3:
		name = "receipts"
		m.ReceiptHash[0] ^= 1
	case 4:
		if len(t) > 0 {
			name = "txs"
			t = append(append(types.Transactions{}, t...), t[f.j%len(t)])
			m.TxHash = types.CalculateMerkleRoot(types.Transactions(t))
			break
		}
		fallthrough
	case 5:
		name = "cursor"
		m.XShardTxCursorInfo.RootBlockHeight += 1 + uint64(f.j%2)
	}
	h.MetaHash = m.Hash()
	return types.NewMinorBlockWithHeader(h, m).WithBody(t, nil), name
}

type ctx struct {
	rt     *rapid.T
	c      *vlib.C
	w      *world.World
	n      *stack.Node
	forged map[common.Hash]string
	peerID byte
	trace  []string
}

func (x *ctx) head() *world.Root { return x.w.RootH[x.n.M.CurrentBlock().Hash()] }

func (x *ctx) fail(f string, a ...interface{}) {
	x.rt.Fatalf("%s\nrounds: %v", fmt.Sprintf(f, a...), x.trace)
}

// check that the cluster is made of valid blocks.
func (x *ctx) check(when string) {
	for h, name := range x.forged {
		if b, _, err := x.n.M.GetRootBlockByHash(h, false); err == nil && b != nil {
			x.fail("%s: a root block with a false %s was adopted", when, name)
		}
		for _, id := range x.n.IDs {
			if x.n.Chain(id).HasBlock(h) {
				x.fail("%s: a minor block with a false %s was adopted", when, name)
			}
		}
	}
	cur := x.n.M.CurrentBlock()
	for k := uint64(0); k <= uint64(cur.Number()); k++ {
		b, _, err := x.n.M.GetRootBlockByNumber(&k, false)
		if err != nil || b == nil {
			x.fail("%s: root block %d of %d is missing: %v", when, k, cur.Number(), err)
		}
		if x.w.RootH[b.Hash()] == nil {
			x.fail("%s: the root chain contains block %d %x which is not a valid one", when, k, b.Hash())
		}
	}
	r := x.head()
	for _, id := range x.n.IDs {
		ch := x.n.Chain(id)
		for k := uint64(0); k <= ch.CurrentBlock().NumberU64(); k++ {
			b := ch.GetBlockByNumber(k).(*types.MinorBlock)
			m := x.w.Minors[b.Hash()]
			if m == nil || m.ID != id {
				x.fail("%s: the chain of shard %x contains block %d %x which is not a valid one", when, id, k, b.Hash())
			}
			if c := r.Confirmed[id]; c != nil && k == c.Num && c.H != m.H {
				x.fail("%s: the chain of shard %x has block %x at %d where the root chain confirms %x", when, id, m.H, k, c.H)
			}
		}
	}
}

// settle waits until the node has dealt with a peer.
func (x *ctx) settle(w *stack.Wire, what string) {
	end := time.Now().Add(20 * time.Second)
	for !w.Gone() {
		if w.Requests() > 600 {
			x.fail("%s: the node keeps asking: %d requests", what, w.Requests())
		}
		idle := w.Idle()
		if w.Empty() && (idle > 25*time.Millisecond && !x.n.Busy() || idle > 250*time.Millisecond) {
			break
		}
		if time.Now().After(end) {
			x.fail("%s: no end", what)
		}
		time.Sleep(time.Millisecond)
	}
	w.Close()
	if !w.WaitGone(10 * time.Second) {
		x.fail("%s: the peer's handler does not end", what)
	}
	if !stack.Wait(10*time.Second, func() bool { return !x.n.Busy() }) {
		x.fail("%s: a task for a peer that is gone does not end", what)
	}
}

func (x *ctx) newEnv(v *stack.View) *env {
	e := &env{w: x.w, v: v, faults: map[int]fault{}, mhs: map[uint32][]*types.MinorBlockHeader{}}
	have := x.head()
	for _, r := range x.w.Roots {
		e.rhs, e.rbs = append(e.rhs, r.B.Header()), append(e.rbs, r.B)
		if have.On(r) {
			e.krhs, e.krbs = append(e.krhs, r.B.Header()), append(e.krbs, r.B)
		}
	}
	for _, m := range x.w.Minors {
		e.mbs = append(e.mbs, m.B)
		e.mhs[m.ID] = append(e.mhs[m.ID], m.B.Header())
	}
	return e
}

func (x *ctx) liar(i int) {
	rt := x.rt
	have := x.head()
	var better []*world.Root
	for _, r := range x.w.Roots {
		if r.B.TotalDifficulty().Cmp(have.B.TotalDifficulty()) > 0 {
			better = append(better, r)
		}
	}
	if len(better) == 0 {
		better = append(better, have)
	}
	tip := rapid.SampledFrom(better).Draw(rt, "liartip")
	heads := map[uint32]*world.Minor{}
	for _, id := range x.n.IDs {
		heads[id] = x.w.Head(id)
	}
	e := x.newEnv(stack.See(tip, heads, x.n.IDs))
	what := fmt.Sprintf("liar %d", i)
	hello := x.n.Hello(e.v.Tip, x.w.Roots[0].H)
	if tip.Num > 0 && rapid.IntRange(0, 2).Draw(rt, "forge") == 0 {
		f := drawFault(rt, []string{"forge"})
		var forged *types.RootBlock
		var name string
		if len(tip.B.MinorBlockHeaders()) > 0 && rapid.Bool().Draw(rt, "deep") {
			// a false minor block, listed by a root block that is right but for it
			k := f.j % len(tip.B.MinorBlockHeaders())
			mh := tip.B.MinorBlockHeaders()[k]
			m := x.w.Minors[mh.Hash()]
			if m.Num > 0 {
				var fm *types.MinorBlock
				fm, name = forgeMinor(m.B, f)
				l := append(types.MinorBlockHeaders{}, tip.B.MinorBlockHeaders()...)
				l[k] = fm.Header()
				forged = types.NewRootBlock(tip.B.Header(), l, nil)
				name = "minor block's " + name
				e.v.Minors[fm.Hash()] = fm
				x.forged[fm.Hash()] = name
			}
		}
		if forged == nil {
			forged, name = forgeRoot(tip.B, tip.Parent.B, f)
		}
		x.forged[forged.Hash()] = name
		e.v.Tip = forged.Header()
		e.v.Canon[len(e.v.Canon)-1] = forged
		e.v.Roots[forged.Hash()] = forged
		hello.RootBlockHeader = forged.Header()
		what += " forging " + name
		x.c.Label("forged " + name)
	}
	for k := rapid.IntRange(0, 3).Draw(rt, "nfaults"); k > 0; k-- {
		at := rapid.SampledFrom([]int{0, 0, 1, 1, 2, 2, 3, 4, 5, 6, 8, 10}).Draw(rt, "at")
		e.faults[at] = drawFault(rt, faultNames)
	}
	what += fmt.Sprint(" faults ", e.faults)
	x.trace = append(x.trace, what)
	x.peerID++
	td := have.B.TotalDifficulty()
	e.mu.Lock()
	e.wire = x.n.Dial(x.peerID, stack.Envelope(stack.Msg{Op: p2p.Hello, Data: stack.Ser(hello)}), e.serve)
	e.mu.Unlock()
	x.settle(e.wire, what)
	for _, u := range e.used {
		x.c.Label("fault " + u)
	}
	x.check(what)
	if x.head().B.TotalDifficulty().Cmp(td) < 0 {
		x.fail("%s: the root chain went from total difficulty %v to %v", what, td, x.head().B.TotalDifficulty())
	}
}

func (x *ctx) minorLiar(i int, id uint32, tip *world.Minor) {
	rt := x.rt
	have := x.head()
	e := x.newEnv(stack.See(have, map[uint32]*world.Minor{id: tip}, x.n.IDs))
	ann := tip.B.Header()
	what := fmt.Sprintf("minor liar %d", i)
	if tip.Num > 0 && rapid.Bool().Draw(rt, "forge") {
		f := drawFault(rt, []string{"forge"})
		fm, name := forgeMinor(tip.B, f)
		x.forged[fm.Hash()] = name
		ann = fm.Header()
		c := e.v.Chains[id]
		c[len(c)-1] = fm
		e.v.Minors[fm.Hash()] = fm
		what += " forging " + name
		x.c.Label("forged minor " + name)
	}
	for k := rapid.IntRange(0, 2).Draw(rt, "nfaults"); k > 0; k-- {
		e.faults[rapid.IntRange(0, 3).Draw(rt, "at")] = drawFault(rt, faultNames)
	}
	switch rapid.IntRange(0, 5).Draw(rt, "announce") {
	case 0:
		ann = mutMinorHeader(ann, drawFault(rt, []string{"mutate"}))
	}
	what += fmt.Sprint(" faults ", e.faults)
	x.trace = append(x.trace, what)
	x.peerID++
	hello := x.n.Hello(x.w.Roots[0].B.Header(), x.w.Roots[0].H)
	e.mu.Lock()
	e.wire = x.n.Dial(x.peerID, stack.Envelope(stack.Msg{Op: p2p.Hello, Data: stack.Ser(hello)}), e.serve)
	e.mu.Unlock()
	e.wire.Send(stack.Msg{Op: p2p.NewTipMsg, Branch: id, Data: stack.Ser(&p2p.Tip{RootBlockHeader: have.B.Header(), MinorBlockHeaderList: []*types.MinorBlockHeader{ann}})})
	x.settle(e.wire, what)
	for _, u := range e.used {
		x.c.Label("fault " + u)
	}
	x.check(what)
}

func TestSync(t *testing.T) {
	vlib.Check(t, 130, 3000, "the node had to fetch blocks from an honest peer after meeting a liar", func(rt *rapid.T, c *vlib.C) {
		chains := rapid.SampledFrom([]uint32{1, 2}).Draw(rt, "chains")
		shards := rapid.SampledFrom([]uint32{1, 2}).Draw(rt, "shards")
		w := world.New(rt, c, world.Opt{Chains: chains, Shards: shards, Mutate: stack.Mutate})
		defer w.Stop()
		for k := rapid.SampledFrom([]int{6, 10, 16, 24, 34}).Draw(rt, "steps"); k > 0; k-- {
			w.Step()
		}
		best := w.Tip()
		// what the node knows: the first part of the history without one block and what builds on it
		cut := len(w.Events) * rapid.SampledFrom([]int{0, 2, 4, 6, 8, 10}).Draw(rt, "cut") / 10
		lost := map[common.Hash]bool{}
		if cut > 0 && rapid.Bool().Draw(rt, "lose") {
			e := w.Events[rapid.IntRange(0, cut-1).Draw(rt, "lost")]
			if e.M != nil {
				lost[e.M.H] = true
			} else {
				lost[e.R.H] = true
			}
		}
		n, err := stack.New(w.S.Cfg, rapid.SampledFrom([]int{1, 2}).Draw(rt, "slaves"))
		if err != nil {
			rt.Fatalf("start: %v", err)
		}
		defer n.Stop()
		x := &ctx{rt: rt, c: c, w: w, n: n, forged: map[common.Hash]string{}}
		for _, e := range w.Events[:cut] {
			if m := e.M; m != nil {
				if lost[m.H] || m.Parent != nil && lost[m.Parent.H] || m.Ref != nil && lost[m.Ref.H] {
					lost[m.H] = true
					continue
				}
			} else {
				bad := lost[e.R.H] || e.R.Parent != nil && lost[e.R.Parent.H]
				for _, m := range e.R.Listed {
					bad = bad || lost[m.H]
				}
				if bad {
					lost[e.R.H] = true
					continue
				}
			}
			if err := n.Add(e); err != nil {
				rt.Fatalf("a block of the history is refused: %v", err)
			}
		}
		for i := rapid.IntRange(0, 2).Draw(rt, "liars"); i > 0; i-- {
			x.liar(i)
		}
		before := x.head()
		x.peerID++
		if rapid.IntRange(0, 3).Draw(rt, "second") == 0 {
			cfg := *w.P.Cfg
			a, err := stack.New(&cfg, 1)
			if err != nil {
				rt.Fatalf("start: %v", err)
			}
			for _, e := range w.Events {
				if err := a.Add(e); err != nil {
					rt.Fatalf("a block of the history is refused: %v", err)
				}
			}
			p, q := p2p.MsgPipe()
			pa, pb := a.Join(x.peerID, p), n.Join(x.peerID, q)
			ok := stack.Wait(40*time.Second, func() bool { return n.M.CurrentBlock().Hash() == best.H })
			for k := 0; k < 3; k++ {
				stack.Wait(10*time.Second, func() bool { return !n.Busy() && !a.Busy() })
				time.Sleep(2 * time.Millisecond)
			}
			p.Close()
			<-pa.Done
			<-pb.Done
			a.Stop()
			if !ok {
				x.fail("with another cluster: the root chain ends in %v, not in the better chain's %v (local before: %v)", x.head().B.NumberU64(), best.Num, before.Num)
			}
			c.Label("second cluster")
		} else {
			v := stack.See(best, nil, n.IDs)
			wire := n.Dial(x.peerID, stack.Envelope(stack.Msg{Op: p2p.Hello, Data: stack.Ser(n.Hello(v.Tip, w.Roots[0].H))}), v.Serve)
			ok := stack.Wait(40*time.Second, func() bool { return n.M.CurrentBlock().Hash() == best.H })
			if !ok {
				x.fail("the root chain ends in %d, not in the better chain's %d (local before: %d)", x.head().Num, best.Num, before.Num)
			}
			if wire.Gone() {
				x.fail("the connection of an honest peer was ended: %v", <-wire.Done)
			}
			x.settle(wire, "honest peer")
			c.Label(fmt.Sprintf("requests %d0s", wire.Requests()/10))
		}
		x.trace = append(x.trace, "honest")
		x.check("after the honest peer")
		for _, id := range n.IDs {
			if m := best.Confirmed[id]; m != nil && n.Chain(id).CurrentBlock().NumberU64() < m.Num {
				x.fail("shard %x ends in %d, before the confirmed %d", id, n.Chain(id).CurrentBlock().NumberU64(), m.Num)
			}
		}
		if !stack.Wait(40*time.Second, func() bool {
			for _, id := range n.IDs {
				if n.Chain(id).GetRootBlockByHash(best.H) == nil {
					return false
				}
			}
			return !n.Busy()
		}) {
			x.fail("the shards do not get the root block %d", best.Num)
		}
		synced := before.H != best.H
		minor := false
		for _, id := range n.IDs {
			m := w.Minors[n.Chain(id).CurrentBlock().Hash()]
			var cand []*world.Minor
			for _, y := range w.Order {
				if y.ID == id && y.Num > m.Num && y.On(m) && best.On(y.Ref) && !n.Chain(id).HasBlock(y.H) {
					cand = append(cand, y)
				}
			}
			if len(cand) == 0 {
				continue
			}
			y := rapid.SampledFrom(cand).Draw(rt, "minortip")
			for i := rapid.IntRange(0, 2).Draw(rt, "minorliars"); i > 0; i-- {
				x.minorLiar(i, id, y)
			}
			v := stack.See(best, map[uint32]*world.Minor{id: y}, n.IDs)
			x.peerID++
			wire := n.Dial(x.peerID, stack.Envelope(stack.Msg{Op: p2p.Hello, Data: stack.Ser(n.Hello(v.Tip, w.Roots[0].H))}), v.Serve)
			wire.Send(stack.Msg{Op: p2p.NewTipMsg, Branch: id, Data: stack.Ser(&p2p.Tip{RootBlockHeader: best.B.Header(), MinorBlockHeaderList: []*types.MinorBlockHeader{y.B.Header()}})})
			if !stack.Wait(40*time.Second, func() bool { return w.Minors[n.Chain(id).CurrentBlock().Hash()].On(y) }) {
				h := w.Minors[n.Chain(id).CurrentBlock().Hash()]
				x.fail("shard %x: head %d of an honest peer is not adopted; the shard is at %d (before: %d), on it %v", id, y.Num, h.Num, m.Num, h.On(m))
			}
			x.settle(wire, "honest minor peer")
			x.check("after the honest minor peer")
			minor = true
			c.Label("minor sync")
		}
		if before.On(best) || best.On(before) {
			c.Label("same branch")
		} else {
			c.Label("fork")
		}
		if len(x.trace) > 1 && (synced || minor) {
			c.NonTrivial("%d rounds", len(x.trace))
		}
		c.Sample("%d events, %d known, best %d, before %d, rounds %v", len(w.Events), cut, best.Num, before.Num, x.trace)
	})
}
