package c24

import (
	"bytes"
	"fmt"
	"math/big"
	"testing"
	"time"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/p2p"
	"github.com/QuarkChain/goquarkchain/serialize"
	"github.com/QuarkChain/goquarkchain/zzverif/stack"
	"github.com/QuarkChain/goquarkchain/zzverif/vlib"
	"github.com/QuarkChain/goquarkchain/zzverif/world"
	"github.com/ethereum/go-ethereum/common"
	"pgregory.net/rapid"
)

// What has to follow a message.
type want int

const (
	answer want = iota // the given answer
	ends               // the end of the connection, and no answer with content
	none               // nothing
	any                // nothing in particular
)

type cmd struct {
	name string
	m    stack.Msg
	raw  []byte
	want want
	op   p2p.P2PCommandOp
	data []byte                 // the answer
	ok   func(data []byte) bool // or a judge of it
	hist string
}

type peers struct {
	rt  *rapid.T
	c   *vlib.C
	w   *world.World
	n   *stack.Node
	fed map[common.Hash]bool
	id  byte
	rpc uint64
}

func (x *peers) root() *world.Root { return x.w.RootH[x.n.M.CurrentBlock().Hash()] }

func (x *peers) shard(id uint32) *world.Minor {
	return x.w.Minors[x.n.Chain(id).CurrentBlock().Hash()]
}

func (x *peers) canonRoots() (l []*world.Root) {
	for r := x.root(); r != nil; r = r.Parent {
		l = append([]*world.Root{r}, l...)
	}
	return
}

func (x *peers) rootHash() common.Hash {
	rt := x.rt
	switch rapid.SampledFrom([]int{0, 0, 0, 0, 0, 1, 2, 3}).Draw(rt, "hash") {
	case 1:
		return common.Hash{byte(rapid.IntRange(0, 255).Draw(rt, "h0")), 1, 2}
	case 2:
		return common.Hash{}
	case 3: // a minor block's
		return x.shard(rapid.SampledFrom(x.n.IDs).Draw(rt, "shard")).H
	}
	return rapid.SampledFrom(x.w.Roots).Draw(rt, "root").H
}

func (x *peers) minorHash(id uint32) common.Hash {
	rt := x.rt
	switch rapid.SampledFrom([]int{0, 0, 0, 0, 0, 0, 0, 1, 3, 4}).Draw(rt, "hash") {
	case 1:
		return common.Hash{byte(rapid.IntRange(0, 255).Draw(rt, "h0")), 1, 2}
	case 3:
		return x.root().H
	case 4:
		id = rapid.SampledFrom(x.n.IDs).Draw(rt, "other")
	}
	var l []common.Hash
	for _, m := range x.w.Order {
		if m.ID == id {
			l = append(l, m.H)
		}
	}
	return rapid.SampledFrom(l).Draw(rt, "minor")
}

func (x *peers) limit(max uint32) uint32 {
	if rapid.IntRange(0, 5).Draw(x.rt, "hostilelimit") == 0 {
		return rapid.SampledFrom([]uint32{0, max, max + 1, 1 << 31, ^uint32(0)}).Draw(x.rt, "limit")
	}
	return rapid.SampledFrom([]uint32{1, 2, 3, 5, 9, 20, max - 1}).Draw(x.rt, "limit")
}

func (x *peers) height(tip uint64) common.Hash {
	var v *big.Int
	switch rapid.SampledFrom([]int{0, 0, 0, 0, 0, 1, 2, 3, 4, 5, 6}).Draw(x.rt, "height") {
	case 0:
		v = big.NewInt(int64(rapid.SampledFrom([]uint64{0, tip, tip / 2, tip / 3, (tip + 1) * 2 / 3}).Draw(x.rt, "at")))
	case 1:
		v = big.NewInt(int64(tip) + 1)
	case 2:
		v = new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), 32), big.NewInt(int64(tip/2)))
	case 3:
		v = new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), 64), big.NewInt(int64(tip/2)))
	case 4:
		v = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 32), big.NewInt(1))
	case 5:
		v = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 64), big.NewInt(1))
	case 6:
		v = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1))
	}
	return common.BigToHash(v)
}

func (x *peers) skip() uint32 {
	return rapid.SampledFrom([]uint32{0, 0, 1, 1, 2, 3, 7, 1 << 16, 1<<32 - 1, 1<<32 - 2, 1<<32 - 3, 1<<32 - 5}).Draw(x.rt, "skip")
}

func (x *peers) flag() uint8 {
	return rapid.SampledFrom([]uint8{0, 0, 0, 0, 1, 1, 1, 1, 2, 255}).Draw(x.rt, "flag")
}

// heights of a request from at, in numbers without bounds.
func heights(at *big.Int, tip uint64, limit, skip uint32, dir uint8) (l []uint64) {
	h := new(big.Int).Set(at)
	step := new(big.Int).Add(big.NewInt(int64(skip)), big.NewInt(1))
	for uint32(len(l)) < limit && h.Sign() >= 0 && h.IsUint64() && h.Uint64() <= tip {
		l = append(l, h.Uint64())
		if dir == 0 {
			h.Sub(h, step)
		} else {
			h.Add(h, step)
		}
	}
	return
}

func (x *peers) msg(op p2p.P2PCommandOp, branch uint32, v interface{}) stack.Msg {
	x.rpc++
	return stack.Msg{Op: op, Rpc: x.rpc, Branch: branch, Data: stack.Ser(v)}
}

func (x *peers) branch() (uint32, bool) {
	if rapid.IntRange(0, 9).Draw(x.rt, "hostilebranch") == 0 {
		return rapid.SampledFrom([]uint32{0, 2, 3, 0xffffffff, 0x10000, 0x50001}).Draw(x.rt, "branch") | 1<<30, false
	}
	return rapid.SampledFrom(x.n.IDs).Draw(x.rt, "branch"), true
}

func rootList(l []*world.Root) (h []*types.RootBlockHeader) {
	for _, r := range l {
		h = append(h, r.B.Header())
	}
	return
}

// sameMinors judges an answer of minor block headers.
func sameMinors(l []*world.Minor) func([]byte) bool {
	return func(d []byte) bool {
		var a p2p.GetMinorBlockHeaderListResponse
		if serialize.DeserializeFromBytes(d, &a) != nil || len(a.BlockHeaderList) != len(l) {
			return false
		}
		for i, h := range a.BlockHeaderList {
			if h.Hash() != l[i].H || !bytes.Equal(stack.Ser(h), stack.Ser(l[i].B.Header())) {
				return false
			}
		}
		return true
	}
}

// sameSlave says that one slave runs both shards.
func (x *peers) sameSlave(a, b uint32) bool {
	for _, s := range x.n.Slaves {
		if s.GetShard(a) != nil {
			return s.GetShard(b) != nil
		}
	}
	return false
}

func (x *peers) draw() *cmd {
	rt := x.rt
	c := &cmd{}
	switch rapid.SampledFrom([]string{"roots", "roots", "rootsskip", "rootsskip", "rootsskip", "rootblocks", "rootblocks", "minorblocks", "minorblocks",
		"minors", "minors", "minorsskip", "minorsskip", "minorsskip", "stray", "stray", "op", "tip", "tip", "txs", "block", "garbage"}).Draw(rt, "command") {
	case "roots":
		q := p2p.GetRootBlockHeaderListRequest{BlockHash: x.rootHash(), Limit: x.limit(1000), Direction: rapid.SampledFrom([]uint8{0, 0, 0, 0, 1, 7}).Draw(rt, "dir")}
		c.name, c.m = "roots", x.msg(p2p.GetRootBlockHeaderListRequestMsg, 0, &q)
		if !x.fed[q.BlockHash] || x.w.RootH[q.BlockHash] == nil || q.Limit == 0 || q.Limit > 1000 || q.Direction != 0 {
			c.want = ends
			break
		}
		var l []*world.Root
		for r := x.w.RootH[q.BlockHash]; r != nil && uint32(len(l)) < q.Limit; r = r.Parent {
			l = append(l, r)
		}
		c.op = p2p.GetRootBlockHeaderListResponseMsg
		c.data = stack.Ser(&p2p.GetRootBlockHeaderListResponse{RootTip: x.root().B.Header(), BlockHeaderList: rootList(l)})
	case "rootsskip":
		q := p2p.GetRootBlockHeaderListWithSkipRequest{Type: x.flag(), Limit: x.limit(1000), Skip: x.skip(), Direction: x.flag()}
		canon := x.canonRoots()
		tip := uint64(len(canon) - 1)
		if q.Type == 0 {
			q.Data = x.rootHash()
		} else {
			q.Data = x.height(tip)
		}
		c.name, c.m = "rootsskip", x.msg(p2p.GetRootBlockHeaderListWithSkipRequestMsg, 0, &q)
		c.hist = fmt.Sprintf(" type %d data %x limit %d skip %d dir %d tip %d", q.Type, q.Data, q.Limit, q.Skip, q.Direction, tip)
		if q.Limit == 0 || q.Limit > 1000 || q.Direction > 1 || q.Type > 1 {
			c.want = ends
			break
		}
		at := q.Data.Big()
		if q.Type == 0 {
			at = big.NewInt(-1)
			if r := x.w.RootH[q.Data]; r != nil && x.fed[r.H] && x.root().On(r) {
				at = big.NewInt(int64(r.Num))
			}
		}
		var l []*world.Root
		for _, h := range heights(at, tip, q.Limit, q.Skip, q.Direction) {
			l = append(l, canon[h])
		}
		if uint32(len(l)) < q.Limit && q.Skip > 1<<20 && len(l) > 0 {
			x.c.Label("skip beyond the chain")
		}
		c.op = p2p.GetRootBlockHeaderListWithSkipResponseMsg
		c.data = stack.Ser(&p2p.GetRootBlockHeaderListResponse{RootTip: x.root().B.Header(), BlockHeaderList: rootList(l)})
	case "rootblocks":
		q := p2p.GetRootBlockListRequest{}
		n := rapid.SampledFrom([]int{0, 1, 2, 3, 5, 199, 200, 201, 400}).Draw(rt, "n")
		h := x.rootHash()
		a := p2p.GetRootBlockListResponse{}
		for i := 0; i < n; i++ {
			if i < 6 {
				h = x.rootHash()
			}
			q.RootBlockHashList = append(q.RootBlockHashList, h)
			if r := x.w.RootH[h]; r != nil && x.fed[h] {
				a.RootBlockList = append(a.RootBlockList, r.B)
			}
		}
		c.name, c.m = "rootblocks", x.msg(p2p.GetRootBlockListRequestMsg, 0, &q)
		if n > 200 {
			c.want = ends
			break
		}
		c.op = p2p.GetRootBlockListResponseMsg
		var hs []common.Hash
		for _, b := range a.RootBlockList {
			hs = append(hs, b.Hash())
		}
		c.ok = func(d []byte) bool {
			var g p2p.GetRootBlockListResponse
			if serialize.DeserializeFromBytes(d, &g) != nil || len(g.RootBlockList) != len(hs) {
				return false
			}
			for i, b := range g.RootBlockList {
				if b.Hash() != hs[i] || len(b.MinorBlockHeaders()) != len(x.w.RootH[hs[i]].Listed) ||
					b.Number() > 0 && types.CalculateMerkleRoot(b.MinorBlockHeaders()) != b.Header().MinorHeaderHash {
					return false
				}
			}
			return true
		}
	case "minorblocks":
		id, ok := x.branch()
		q := p2p.GetMinorBlockListRequest{}
		n := rapid.SampledFrom([]int{0, 1, 1, 2, 3, 5, 99, 100, 101, 300}).Draw(rt, "n")
		var h common.Hash
		var hs []common.Hash
		good := ok && n <= 100
		for i := 0; i < n; i++ {
			if i < 4 {
				h = x.minorHash(rapid.SampledFrom(x.n.IDs).Draw(rt, "of"))
				if ok && rapid.IntRange(0, 9).Draw(rt, "right") > 0 {
					h = x.minorHash(id)
				}
			}
			q.MinorBlockHashList = append(q.MinorBlockHashList, h)
			hs = append(hs, h)
			if m := x.w.Minors[h]; m == nil || m.ID != id || !x.fed[h] {
				good = false
			}
		}
		c.name, c.m = "minorblocks", x.msg(p2p.GetMinorBlockListRequestMsg, id, &q)
		if !good {
			c.want = ends
			break
		}
		c.op = p2p.GetMinorBlockListResponseMsg
		c.ok = func(d []byte) bool {
			var g p2p.GetMinorBlockListResponse
			if serialize.DeserializeFromBytes(d, &g) != nil || len(g.MinorBlockList) != len(hs) {
				return false
			}
			for i, b := range g.MinorBlockList {
				if b.Hash() != hs[i] || !bytes.Equal(stack.Ser(b), stack.Ser(x.w.Minors[hs[i]].B)) {
					return false
				}
			}
			return true
		}
	case "minors", "minorsskip":
		meta, okm := x.branch()
		id, okb := meta, okm
		if rapid.IntRange(0, 5).Draw(rt, "otherbranch") == 0 {
			id, okb = x.branch()
		}
		good := okm && okb && x.sameSlave(meta, id)
		q := p2p.GetMinorBlockHeaderListWithSkipRequest{Branch: account.Branch{Value: id}, Type: x.flag(), Limit: x.limit(200), Skip: x.skip(), Direction: x.flag()}
		if rapid.Bool().Draw(rt, "plain") {
			q.Type, q.Skip = 0, 0
		}
		var canon []*world.Minor
		if okb {
			canon = world.Chain(x.shard(id))
		}
		tip := uint64(len(canon)) - 1
		some := id
		if !okb {
			some = x.n.IDs[0]
			tip = 1
		}
		if q.Type == 0 {
			q.Data = x.minorHash(some)
		} else {
			q.Data = x.height(tip)
		}
		c.hist = fmt.Sprintf(" branch %x/%x type %d data %x limit %d skip %d dir %d tip %d", meta, id, q.Type, q.Data, q.Limit, q.Skip, q.Direction, tip)
		if rapid.IntRange(0, 2).Draw(rt, "form") == 0 {
			// without skip
			if q.Type != 0 {
				q.Data = x.minorHash(some)
			}
			p := p2p.GetMinorBlockHeaderListRequest{BlockHash: q.Data, Branch: q.Branch, Limit: q.Limit, Direction: q.Direction}
			q.Type, q.Skip = 0, 0
			c.name, c.m, c.op = "minors", x.msg(p2p.GetMinorBlockHeaderListRequestMsg, meta, &p), p2p.GetMinorBlockHeaderListResponseMsg
			good = good && q.Direction == 0
		} else {
			c.name, c.m, c.op = "minorsskip", x.msg(p2p.GetMinorBlockHeaderListWithSkipRequestMsg, meta, &q), p2p.GetMinorBlockHeaderListWithSkipResponseMsg
		}
		good = good && q.Limit > 0 && q.Limit <= 200 && q.Direction <= 1 && q.Type <= 1
		var l []*world.Minor
		if good {
			at := q.Data.Big()
			if q.Type == 0 {
				m := x.w.Minors[q.Data]
				if m == nil || m.ID != id || !x.fed[m.H] {
					good = false
				} else if q.Skip == 0 && q.Direction == 0 {
					// of any chain
					canon, tip = world.Chain(m), m.Num
				} else if m.Num > tip || canon[m.Num] != m {
					good = false
				}
				if good {
					at = new(big.Int).SetUint64(m.Num)
				}
			}
			for _, h := range heights(at, tip, q.Limit, q.Skip, q.Direction) {
				l = append(l, canon[h])
			}
			if good && uint32(len(l)) < q.Limit && q.Skip > 1<<20 && len(l) > 0 {
				x.c.Label("minor skip beyond the chain")
			}
		}
		if !good {
			c.want = ends
			break
		}
		c.ok = sameMinors(l)
	case "stray":
		op := rapid.SampledFrom([]p2p.P2PCommandOp{6, 8, 10, 12, 17, 20}).Draw(rt, "op")
		x.rpc++
		rpc := rapid.SampledFrom([]uint64{0, 1, x.rpc, ^uint64(0)}).Draw(rt, "rpc")
		c.name, c.want = fmt.Sprintf("stray %d", op), none
		c.m = stack.Msg{Op: op, Rpc: rpc}
		if rapid.Bool().Draw(rt, "garbage") {
			c.m.Data = []byte{1, 2, 3}
			if op == 6 || op == 8 || op == 17 {
				c.want = ends
			}
			break
		}
		switch op {
		case 6, 17:
			c.m.Data = stack.Ser(&p2p.GetRootBlockHeaderListResponse{RootTip: x.root().B.Header()})
		case 8:
			c.m.Data = stack.Ser(&p2p.GetRootBlockListResponse{RootBlockList: []*types.RootBlock{x.root().B}})
		default:
			c.m.Data = stack.Ser(&p2p.GetMinorBlockListResponse{})
		}
	case "op":
		c.name, c.want = "op", ends
		c.m = stack.Msg{Op: p2p.P2PCommandOp(rapid.SampledFrom([]int{0, 3, 4, 14, 15, 18, 21, 22, 100, 255}).Draw(rt, "op")), Rpc: 7}
		if rapid.Bool().Draw(rt, "hello") {
			h := x.n.Hello(x.root().B.Header(), x.w.Roots[0].H)
			c.m.Data = stack.Ser(&h)
		}
	case "tip":
		r := x.root()
		t := p2p.Tip{RootBlockHeader: r.B.Header()}
		id := rapid.SampledFrom(x.n.IDs).Draw(rt, "shard")
		mine := x.shard(id)
		c.want = ends
		branch := id
		switch k := rapid.IntRange(0, 7).Draw(rt, "tip"); k {
		case 0: // what it has itself
			c.want, branch = none, 0
		case 1: // a shard's
			t.MinorBlockHeaderList = []*types.MinorBlockHeader{mine.B.Header()}
			c.want = none
		case 2: // none
		case 3: // root tip with a shard's
			branch = 0
			t.MinorBlockHeaderList = []*types.MinorBlockHeader{mine.B.Header()}
		case 4: // two
			t.MinorBlockHeaderList = []*types.MinorBlockHeader{mine.B.Header(), mine.B.Header()}
		case 5: // of another shard
			h := mine.B.Header()
			h.Branch = account.Branch{Value: id ^ 1}
			t.MinorBlockHeaderList = []*types.MinorBlockHeader{h}
		case 6: // of a shard which does not exist
			branch = 0x70001
			h := mine.B.Header()
			h.Branch = account.Branch{Value: branch}
			t.MinorBlockHeaderList = []*types.MinorBlockHeader{h}
		case 7: // less than the greeting told, which is the head
			branch = 0
			if r.Parent == nil {
				t.RootBlockHeader = types.CopyRootBlockHeader(r.B.Header())
				t.RootBlockHeader.Extra = []byte("another")
			} else {
				t.RootBlockHeader = r.Parent.B.Header()
			}
		}
		c.name, c.m = "tip", x.msg(p2p.NewTipMsg, branch, &t)
		if rapid.IntRange(0, 9).Draw(rt, "truncated") == 0 {
			c.m.Data, c.want = c.m.Data[:len(c.m.Data)-1-rapid.IntRange(0, len(c.m.Data)-1).Draw(rt, "cut")], ends
		}
	case "txs":
		c.name, c.want = "txs", none
		branch, ok := x.branch()
		q := p2p.NewTransactionList{}
		for _, m := range x.w.Order {
			for _, t := range m.B.Transactions() {
				if len(q.TransactionList) < 40 {
					q.TransactionList = append(q.TransactionList, t)
				}
			}
		}
		if rapid.IntRange(0, 3).Draw(rt, "zero") == 0 {
			branch, ok = 0, true
		}
		c.m = x.msg(p2p.NewTransactionListMsg, branch, &q)
		if rapid.IntRange(0, 2).Draw(rt, "garbage") == 0 {
			c.m.Data = c.m.Data[:rapid.IntRange(0, len(c.m.Data)-1).Draw(rt, "cut")]
		}
		if !ok {
			c.want = ends
		}
	case "block":
		// a block that is not what it says
		m := rapid.SampledFrom(x.w.Order).Draw(rt, "block")
		h := m.B.Header()
		c.want = any
		switch rapid.IntRange(0, 4).Draw(rt, "false") {
		case 0:
			h.Time = uint64(time.Now().Unix()) + 100000
		case 1:
			h.MetaHash[3] ^= 1
		case 2:
			h.CoinbaseAmount = types.NewTokenBalancesWithMap(map[uint64]*big.Int{5: big.NewInt(3)})
		case 3:
			h.Number += 1
		case 4:
			h.ParentHash[4] ^= 3
		}
		b := types.NewMinorBlockWithHeader(h, m.B.Meta()).WithBody(m.B.Transactions(), nil)
		branch := m.ID
		if rapid.IntRange(0, 3).Draw(rt, "branch") == 0 {
			branch, _ = x.branch()
		}
		if branch != m.ID {
			c.want = ends
		}
		c.name, c.m = "block", x.msg(p2p.NewBlockMinorMsg, branch, &p2p.NewBlockMinor{Block: b})
		if rapid.IntRange(0, 4).Draw(rt, "truncated") == 0 {
			c.m.Data, c.want = c.m.Data[:rapid.IntRange(0, len(c.m.Data)-1).Draw(rt, "cut")], ends
		}
	case "garbage":
		c.name = "garbage"
		if rapid.Bool().Draw(rt, "short") {
			c.raw, c.want = make([]byte, rapid.IntRange(0, 12).Draw(rt, "len")), ends
			break
		}
		// a request with changed bytes
		d := x.draw()
		c.raw, c.want = stack.Envelope(d.m), any
		for k := rapid.IntRange(1, 3).Draw(rt, "changes"); k > 0; k-- {
			i := 13 + rapid.IntRange(0, 4096).Draw(rt, "at")
			if rapid.IntRange(0, 2).Draw(rt, "head") == 0 || len(c.raw) == 13 {
				i = rapid.IntRange(0, 1000).Draw(rt, "at")
			} else {
				i = 13 + i%(len(c.raw)-13)
			}
			c.raw[i%len(c.raw)] = rapid.SampledFrom([]byte{0, 1, 0x7f, 0x80, 0xff}).Draw(rt, "byte")
		}
		switch rapid.IntRange(0, 4).Draw(rt, "cut") {
		case 0:
			c.raw = c.raw[:rapid.IntRange(0, len(c.raw)).Draw(rt, "to")]
		case 1:
			c.raw = append(c.raw, make([]byte, rapid.IntRange(0, 40).Draw(rt, "more"))...)
		}
	}
	return c
}

func (x *peers) dial(hello p2p.HelloCmd) *stack.Wire {
	x.id++
	return x.n.Dial(x.id, stack.Envelope(stack.Msg{Op: p2p.Hello, Data: stack.Ser(&hello)}), nil)
}

func find(w *stack.Wire, rpc uint64, op p2p.P2PCommandOp) (stack.Msg, bool) {
	for _, m := range w.Messages() {
		if m.Rpc == rpc && m.Op == op {
			return m, true
		}
	}
	return stack.Msg{}, false
}

// barrier is a request that has to be answered.
func (x *peers) barrier(w *stack.Wire) (stack.Msg, []byte) {
	q := p2p.GetRootBlockHeaderListWithSkipRequest{Type: 1, Limit: 1}
	m := x.msg(p2p.GetRootBlockHeaderListWithSkipRequestMsg, 0, &q)
	w.Send(m)
	return m, stack.Ser(&p2p.GetRootBlockHeaderListResponse{RootTip: x.root().B.Header(), BlockHeaderList: []*types.RootBlockHeader{x.w.Roots[0].B.Header()}})
}

func (x *peers) alive(w *stack.Wire, what string) {
	m, d := x.barrier(w)
	var got stack.Msg
	if !stack.Wait(10*time.Second, func() (ok bool) {
		got, ok = find(w, m.Rpc, p2p.GetRootBlockHeaderListWithSkipResponseMsg)
		return ok || w.Gone()
	}) || w.Gone() {
		x.rt.Fatalf("%s: the node does not answer any more (connection ended: %v)", what, w.Gone())
	}
	if !bytes.Equal(got.Data, d) {
		x.rt.Fatalf("%s: the genesis header was asked for, and the answer is %x, not %x", what, got.Data, d)
	}
}

func (x *peers) send(w *stack.Wire, c *cmd) {
	if c.raw != nil {
		w.Raw(c.raw)
	} else {
		w.Send(c.m)
	}
}

func (x *peers) judge(w *stack.Wire, c *cmd) {
	what := fmt.Sprintf("%s (op %d branch %x %d bytes%s)", c.name, c.m.Op, c.m.Branch, len(c.m.Data), c.hist)
	x.c.Label("%s %d", c.name, c.want)
	switch c.want {
	case answer:
		var got stack.Msg
		if !stack.Wait(10*time.Second, func() (ok bool) {
			got, ok = find(w, c.m.Rpc, c.op)
			return ok || w.Gone()
		}) || got.Op != c.op {
			x.rt.Fatalf("%s: no answer (connection ended: %v)", what, w.Gone())
		}
		if c.ok != nil && !c.ok(got.Data) || c.ok == nil && !bytes.Equal(got.Data, c.data) {
			x.rt.Fatalf("%s: the answer is\n%x\nnot\n%x", what, got.Data, c.data)
		}
		if got.Branch != c.m.Branch {
			x.rt.Fatalf("%s: answered for branch %x", what, got.Branch)
		}
	case none:
		x.alive(w, what)
	case ends:
		if !stack.Wait(10*time.Second, func() bool {
			if w.Gone() {
				return true
			}
			x.barrier(w)
			return w.WaitGone(4 * time.Millisecond)
		}) {
			x.rt.Fatalf("%s: the connection goes on", what)
		}
		if c.raw == nil {
			for _, m := range w.Messages() {
				if m.Rpc == c.m.Rpc && m.Op != p2p.Hello && len(m.Data) > 0 {
					x.rt.Fatalf("%s: answered with %d: %x", what, m.Op, m.Data)
				}
			}
		}
	}
}

// Whatever peers send, each request is answered as the chain says, a wrong one
// ends its own connection and nothing else, and the node's chains stay.
func TestHandlers(t *testing.T) {
	vlib.Check(t, 40, 1500, "several requests of one connection were answered and another connection was ended", func(rt *rapid.T, c *vlib.C) {
		w := world.New(rt, c, world.Opt{Chains: rapid.SampledFrom([]uint32{1, 2}).Draw(rt, "chains"), Shards: rapid.SampledFrom([]uint32{1, 2}).Draw(rt, "shards"), Mutate: stack.Mutate})
		defer w.Stop()
		for k := rapid.SampledFrom([]int{8, 16, 24}).Draw(rt, "steps"); k > 0; k-- {
			w.Step()
		}
		n, err := stack.New(w.S.Cfg, rapid.SampledFrom([]int{1, 2}).Draw(rt, "slaves"))
		if err != nil {
			rt.Fatalf("start: %v", err)
		}
		defer n.Stop()
		x := &peers{rt: rt, c: c, w: w, n: n, fed: map[common.Hash]bool{w.Roots[0].H: true}, rpc: 100}
		for _, id := range n.IDs {
			x.fed[x.shard(id).H] = true
		}
		cut := len(w.Events) * rapid.SampledFrom([]int{4, 7, 9, 10}).Draw(rt, "cut") / 10
		for _, e := range w.Events[:cut] {
			if err := n.Add(e); err != nil {
				rt.Fatalf("a valid block is refused: %v", err)
			}
			if e.M != nil {
				x.fed[e.M.H] = true
			} else {
				x.fed[e.R.H] = true
			}
		}
		heads := n.Heads()
		greet := func() p2p.HelloCmd { return n.Hello(x.root().B.Header(), w.Roots[0].H) }
		watch := x.dial(greet())
		x.alive(watch, "an honest peer")
		answered, ended := 0, 0
		conns := rapid.SampledFrom([]int{6, 12, 20}).Draw(rt, "connections")
		for k := 0; k < conns; k++ {
			hello := greet()
			if rapid.IntRange(0, 7).Draw(rt, "badhello") == 0 {
				name := rapid.SampledFrom([]string{"version", "network", "genesis", "bytes"}).Draw(rt, "hello")
				raw := []byte(nil)
				switch name {
				case "version":
					hello.Version += uint32(rapid.IntRange(1, 3).Draw(rt, "by"))
				case "network":
					hello.NetWorkID ^= 1
				case "genesis":
					hello.GenesisRootBlockHash[rapid.IntRange(0, 31).Draw(rt, "at")] ^= 1
				}
				raw = stack.Envelope(stack.Msg{Op: p2p.Hello, Data: stack.Ser(&hello)})
				if name == "bytes" {
					raw = raw[:rapid.IntRange(0, len(raw)-1).Draw(rt, "to")]
				}
				x.id++
				p := n.Dial(x.id, raw, nil)
				if !p.WaitGone(8 * time.Second) {
					rt.Fatalf("a greeting with a wrong %s was accepted", name)
				}
				c.Label("hello %s", name)
				continue
			}
			if rapid.IntRange(0, 9).Draw(rt, "twice") == 0 {
				// the same identity again
				p := x.dial(hello)
				x.alive(p, "a peer")
				q := n.Dial(x.id, stack.Envelope(stack.Msg{Op: p2p.Hello, Data: stack.Ser(&hello)}), nil)
				if !q.WaitGone(8 * time.Second) {
					rt.Fatal("a peer is connected twice")
				}
				c.Label("twice")
				p.Close()
				p.WaitGone(8 * time.Second)
				continue
			}
			p := x.dial(hello)
			var good []*cmd
			var bad *cmd
			for j := rapid.IntRange(1, 7).Draw(rt, "commands"); j > 0 && bad == nil; j-- {
				d := x.draw()
				if d.want == ends || d.want == any {
					bad = d
				} else {
					good = append(good, d)
				}
			}
			// all at once: answers may come in any order
			for _, d := range good {
				x.send(p, d)
			}
			for _, d := range good {
				x.judge(p, d)
				if d.want == answer {
					answered++
				}
			}
			if bad != nil {
				x.send(p, bad)
				x.judge(p, bad)
				ended++
			}
			p.Close()
			if !p.WaitGone(10 * time.Second) {
				rt.Fatal("the connection's handler does not end")
			}
		}
		for id, h := range n.Heads() {
			if heads[id] != h {
				rt.Fatalf("the head of %x moved from %x to %x by messages that prove nothing", id, heads[id], h)
			}
		}
		x.alive(watch, "an honest peer after all")
		for _, m := range watch.Messages() {
			if m.Op == p2p.NewTransactionListMsg {
				var l p2p.NewTransactionList
				if serialize.DeserializeFromBytes(m.Data, &l) != nil || len(l.TransactionList) == 0 {
					rt.Fatalf("a list of no transactions is told to others: %x", m.Data)
				}
				c.Label("transactions told")
			}
		}
		if answered > 2 && ended > 0 {
			c.NonTrivial("%d answered, %d ended, %d connections", answered/4, ended/2, conns)
		}
		// the next block of the history, by a peer
		for _, e := range w.Events[cut:] {
			if e.M == nil || e.M.Parent != nil && !x.fed[e.M.Parent.H] || e.M.Ref != nil && !x.fed[e.M.Ref.H] {
				continue
			}
			p := x.dial(greet())
			d := stack.Ser(&p2p.NewBlockMinor{Block: world.Copy(e.M.B)})
			p.Send(stack.Msg{Op: p2p.NewBlockMinorMsg, Branch: e.M.ID, Data: d})
			if !stack.Wait(10*time.Second, func() bool { return n.Chain(e.M.ID).IsMinorBlockCommittedByHash(e.M.H) }) {
				rt.Fatalf("block %d of shard %x that a peer sent is not adopted", e.M.Num, e.M.ID)
			}
			x.alive(p, "the sender of a block")
			// told to the others, not to the one who sent it
			if !stack.Wait(10*time.Second, func() bool { return has(watch, p2p.NewBlockMinorMsg, e.M.ID, d) }) {
				rt.Fatalf("block %d of shard %x that a peer sent is not told to others", e.M.Num, e.M.ID)
			}
			if has(p, p2p.NewBlockMinorMsg, e.M.ID, d) {
				rt.Fatalf("block %d of shard %x is sent back to the peer it came from", e.M.Num, e.M.ID)
			}
			c.Label("block adopted")
			p.Close()
			break
		}
		watch.Close()
	})
}

func has(w *stack.Wire, op p2p.P2PCommandOp, branch uint32, d []byte) bool {
	for _, m := range w.Messages() {
		if m.Op == op && m.Branch == branch && bytes.Equal(m.Data, d) {
			return true
		}
	}
	return false
}
