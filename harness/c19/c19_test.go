// Package c19 decides: a log query returns exactly the matching logs of the
// canonical chain, in order and with their true positions.
//
// The oracle is a plain scan over the receipts of the canonical blocks, taken
// down when each block was made (and compared with what the block's producer
// has), with a matching rule written out here.
package c19

import (
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"testing"

	"github.com/QuarkChain/goquarkchain/cluster/config"
	qhex "github.com/QuarkChain/goquarkchain/common/hexutil"
	"github.com/QuarkChain/goquarkchain/core"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/internal/qkcapi"
	"github.com/QuarkChain/goquarkchain/rpc"
	"github.com/QuarkChain/goquarkchain/serialize"
	"github.com/QuarkChain/goquarkchain/zzverif/chainenv"
	"github.com/QuarkChain/goquarkchain/zzverif/hist"
	"github.com/QuarkChain/goquarkchain/zzverif/vlib"
	"github.com/QuarkChain/goquarkchain/zzverif/world"
	ethereum "github.com/ethereum/go-ethereum"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/crypto"
	"pgregory.net/rapid"
)

// entry is a log with its true position.
type entry struct {
	addr   common.Address
	topics []common.Hash
	data   string
	num    uint64
	block  common.Hash
	tx     common.Hash
	txi    uint32
	index  uint32
}

func (e entry) String() string {
	return fmt.Sprintf("{%x topics %x data %x block %d %x tx %x at %d log %d}", e.addr, e.topics, e.data, e.num, e.block[:4], e.tx[:4], e.txi, e.index)
}

func of(l *types.Log) entry {
	return entry{l.Recipient, append([]common.Hash{}, l.Topics...), string(l.Data), l.BlockNumber, l.BlockHash, l.TxHash, l.TxIndex, l.Index}
}

// record lists the logs of a block from its receipts, with the positions the
// block itself gives them.
func record(w *world.World, x *world.Minor) []entry {
	n := len(x.B.Transactions())
	var l []entry
	idx := map[uint32]bool{}
	other := w.P.Shard[x.ID].GetReceiptsByHash(x.H)
	if len(other) != len(x.Rec) {
		w.RT.Fatalf("block %x has %d receipts here and %d where it was made", x.H, len(x.Rec), len(other))
	}
	for i, r := range x.Rec {
		var h common.Hash
		if i < n {
			h = x.B.Transactions()[i].Hash()
		} else {
			h = x.In[i-n].Hash
		}
		if r.TxHash != h {
			w.RT.Fatalf("receipt %d of block %x is for %x, expected %x", i, x.H, r.TxHash, h)
		}
		if r.Status != types.ReceiptStatusSuccessful && len(r.Logs) > 0 {
			w.RT.Fatalf("a failed transaction left %d logs", len(r.Logs))
		}
		if len(r.Logs) != len(other[i].Logs) {
			w.RT.Fatalf("receipt %d of block %x has %d logs here and %d where it was made", i, x.H, len(r.Logs), len(other[i].Logs))
		}
		for j, g := range r.Logs {
			e := of(g)
			e.num, e.block, e.tx, e.txi = x.Num, x.H, h, uint32(i)
			if idx[e.index] {
				w.RT.Fatalf("two logs of block %x have index %d", x.H, e.index)
			}
			idx[e.index] = true
			l = append(l, e)
			o := other[i].Logs[j]
			if o.Recipient != e.addr || fmt.Sprint(o.Topics) != fmt.Sprint(e.topics) || string(o.Data) != e.data {
				w.RT.Fatalf("log %d of receipt %d of block %x is %v here and %v where it was made", j, i, x.H, e, of(o))
			}
		}
		// a plain call of a log contract
		if i < n {
			t := x.B.Transactions()[i].EvmTx
			if k := logger(t.To()); k >= 0 && w.ShardOf(t.ToFullShardKey()) == x.ID && r.Status == types.ReceiptStatusSuccessful {
				want := entry{addr: *t.To(), data: string(t.Data()[32*k : 32*k+32]), num: x.Num, block: x.H, tx: h, txi: uint32(i)}
				for q := 0; q < k; q++ {
					want.topics = append(want.topics, common.BytesToHash(t.Data()[32*q:32*q+32]))
				}
				if len(r.Logs) != 1 {
					w.RT.Fatalf("a call of a log contract left %d logs", len(r.Logs))
				}
				want.index = r.Logs[0].Index
				if got := l[len(l)-1]; got.String() != want.String() {
					w.RT.Fatalf("a call of a log contract left %v, expected %v", got, want)
				}
				w.C.Label("log of a known call")
			}
		} else if len(r.Logs) > 0 {
			w.C.Label("log of a deposit")
		}
	}
	for i := range l {
		if !idx[uint32(i)] {
			w.RT.Fatalf("the logs of block %x are numbered %v", x.H, idx)
		}
	}
	// bloom
	bl := x.B.Header().Bloom
	has := func(b []byte) bool {
		h := crypto.Keccak256(b)
		for i := 0; i < 6; i += 2 {
			bit := (uint(h[i])<<8 | uint(h[i+1])) & 2047
			if bl[255-bit/8]>>(bit%8)&1 == 0 {
				return false
			}
		}
		return true
	}
	for _, e := range l {
		if !has(e.addr[:]) {
			w.RT.Fatalf("the bloom of block %x lacks the address of %v", x.H, e)
		}
		for _, t := range e.topics {
			if !has(t[:]) {
				w.RT.Fatalf("the bloom of block %x lacks topic %x of %v", x.H, t, e)
			}
		}
	}
	return l
}


func logger(a *common.Address) int {
	if a != nil {
		for k, b := range hist.LogAddr {
			if *a == b {
				return k
			}
		}
	}
	return -1
}

type query struct {
	addrs  []common.Address
	topics [][]common.Hash
}

func (q query) match(e entry) bool {
	if len(q.addrs) > 0 {
		ok := false
		for _, a := range q.addrs {
			ok = ok || a == e.addr
		}
		if !ok {
			return false
		}
	}
	for i, or := range q.topics {
		if i >= len(e.topics) {
			return false
		}
		ok := len(or) == 0
		for _, t := range or {
			ok = ok || t == e.topics[i]
		}
		if !ok {
			return false
		}
	}
	return true
}

func drawQuery(rt *rapid.T) query {
	var q query
	all := append([]common.Address{hist.RevertAddr, hist.TwoLogsAddr, hist.StoreAddr}, hist.LogAddr[:]...)
	for n := rapid.SampledFrom([]int{0, 0, 1, 1, 2, 3}).Draw(rt, "addresses"); n > 0; n-- {
		q.addrs = append(q.addrs, rapid.SampledFrom(all).Draw(rt, "address"))
	}
	for n := rapid.SampledFrom([]int{0, 0, 1, 1, 2, 3, 4, 5}).Draw(rt, "positions"); n > 0; n-- {
		var or []common.Hash
		for k := rapid.SampledFrom([]int{0, 0, 0, 1, 1, 2}).Draw(rt, "or"); k > 0; k-- {
			or = append(or, common.BytesToHash(hist.Word(hist.Topic(rt))))
		}
		q.topics = append(q.topics, or)
	}
	return q
}

// backend is the node behind the public interface: it hands a log query to the
// shard in the form in which the master hands it to its slaves.
type backend struct {
	qkcapi.Backend
	w *world.World
}

func (b *backend) GetClusterConfig() *config.ClusterConfig { return b.w.S.Cfg }
func (b *backend) NetWorkInfo() map[string]interface{} {
	return map[string]interface{}{"networkId": hexutil.Uint(chainenv.NetworkID)}
}
func (b *backend) GetLastMinorBlockByFullShardID(id uint32) (uint64, error) {
	return b.w.S.Shard[id].CurrentBlock().NumberU64(), nil
}
func (b *backend) GetLogs(q *rpc.FilterQuery) ([]*types.Log, error) {
	d, err := serialize.SerializeToBytes(q)
	if err != nil {
		return nil, err
	}
	var p rpc.FilterQuery
	if err := serialize.Deserialize(serialize.NewByteBuffer(d), &p); err != nil {
		return nil, err
	}
	m := b.w.S.Shard[p.FullShardId]
	if m == nil {
		return nil, fmt.Errorf("no shard %x", p.FullShardId)
	}
	return m.GetLogsByFilterQuery(&p)
}

func diff(got, want []entry) string {
	for i := range got {
		if i >= len(want) {
			return fmt.Sprintf("%d logs instead of %d; an extra one is %v", len(got), len(want), got[i])
		}
		if got[i].String() != want[i].String() {
			return fmt.Sprintf("log %d of %d is %v, expected %v of %d", i, len(got), got[i], want[i], len(want))
		}
	}
	if len(got) < len(want) {
		return fmt.Sprintf("%d logs instead of %d; missing %v", len(got), len(want), want[len(got)])
	}
	return ""
}

func TestLogs(t *testing.T) {
	rule := "a query over at least three blocks matched some but not all of the logs in them, after a reorganisation"
	vlib.Check(t, 220, 5000, rule, func(rt *rapid.T, c *vlib.C) {
		sh := rapid.SampledFrom([][2]uint32{{1, 2}, {1, 2}, {2, 1}}).Draw(rt, "shape")
		w := world.New(rt, c, world.Opt{Chains: sh[0], Shards: sh[1]})
		defer w.Stop()
		logs := map[*world.Minor][]entry{}
		done := 0
		good := false
		look := func() {
			for ; done < len(w.Order); done++ {
				logs[w.Order[done]] = record(w, w.Order[done])
			}
			for _, id := range w.All {
				m := w.S.Shard[id]
				chain := world.Chain(w.Head(id))
				head := uint64(len(chain) - 1)
				for k := 0; k < 4; k++ {
					q := drawQuery(rt)
					from := uint64(rapid.IntRange(0, len(chain)-1).Draw(rt, "from"))
					to := uint64(rapid.IntRange(0, len(chain)-1).Draw(rt, "to"))
					if from > to && rapid.IntRange(0, 3).Draw(rt, "swap") > 0 {
						from, to = to, from
					}
					if rapid.IntRange(0, 2).Draw(rt, "whole") == 0 {
						from, to = 0, head
					}
					var want []entry
					all := 0
					for n := from; n <= to; n++ {
						for _, e := range logs[chain[n]] {
							all++
							if q.match(e) {
								want = append(want, e)
							}
						}
					}
					fq := &rpc.FilterQuery{FullShardId: id, FilterQuery: ethereum.FilterQuery{FromBlock: new(big.Int).SetUint64(from), ToBlock: new(big.Int).SetUint64(to), Addresses: q.addrs, Topics: q.topics}}
					res, err := m.GetLogsByFilterQuery(fq)
					if err != nil {
						rt.Fatalf("query %d..%d %+v of shard %x with head %d: %v", from, to, q, id, head, err)
					}
					if d := diff(conv(res), want); d != "" {
						rt.Fatalf("query %d..%d %+v of shard %x with head %d: %s", from, to, q, id, head, d)
					}
					if len(want) > 0 && len(want) < all && to >= from+2 && w.Forks+w.RootForks > 0 {
						good = true
					}
					if len(want) > 0 {
						c.Label("something found")
					}
					// the free function used for subscriptions
					var every []*types.Log
					for _, x := range chain {
						for _, r := range w.S.Shard[id].GetReceiptsByHash(x.H) {
							every = append(every, r.Logs...)
						}
					}
					if d := diff(conv(core.FilterLogs(every, fq.FromBlock, fq.ToBlock, q.addrs, q.topics)), want); d != "" {
						rt.Fatalf("filtering the logs of shard %x by %d..%d %+v: %s", id, from, to, q, d)
					}
					if sh == [2]uint32{1, 2} {
						askAPI(rt, c, w, id, q, from, to, head, want, chain, logs)
					}
				}
			}
		}
		for s := rapid.IntRange(3, 12).Draw(rt, "steps"); s > 0; s-- {
			w.Step()
			if rapid.IntRange(0, 3).Draw(rt, "look") == 0 {
				look()
			}
		}
		look()
		if good {
			c.NonTrivial("%d blocks, %d root blocks, %d+%d reorganisations", len(w.Order), len(w.Roots), w.Forks, w.RootForks)
		}
	})
}

func conv(l []*types.Log) (out []entry) {
	for _, x := range l {
		out = append(out, of(x))
	}
	return
}

// askAPI asks the same through the public interface, as JSON.
func askAPI(rt *rapid.T, c *vlib.C, w *world.World, id uint32, q query, from, to, head uint64, want []entry, chain []*world.Minor, logs map[*world.Minor][]entry) {
	b := &backend{w: w}
	api := qkcapi.GetAPIs(b)[0].Service.(*qkcapi.PublicBlockChainAPI)
	j := map[string]interface{}{}
	mayFail := false
	filter := func(l []entry) (o []entry) {
		for _, e := range l {
			if q.match(e) {
				o = append(o, e)
			}
		}
		return
	}
	span := func(a, b uint64) (o []entry) {
		for n := a; n <= b && n < uint64(len(chain)); n++ {
			o = append(o, filter(logs[chain[n]])...)
		}
		return
	}
	kind := rapid.SampledFrom([]string{"range", "latest", "none", "from", "earliest", "beyond", "pending", "hash", "sidehash", "nohash"}).Draw(rt, "query")
	switch kind {
	case "range":
		j["fromBlock"], j["toBlock"] = hexutil.EncodeUint64(from), hexutil.EncodeUint64(to)
	case "latest":
		j["fromBlock"], j["toBlock"] = hexutil.EncodeUint64(from), "latest"
		want = span(from, head)
	case "none":
		want = span(head, head)
	case "from":
		j["fromBlock"] = hexutil.EncodeUint64(from)
		want = span(from, head)
	case "earliest":
		j["fromBlock"], j["toBlock"] = "earliest", hexutil.EncodeUint64(to)
		want = span(0, to)
	case "beyond":
		j["fromBlock"], j["toBlock"] = hexutil.EncodeUint64(from), hexutil.EncodeUint64(head+uint64(rapid.IntRange(1, 3).Draw(rt, "over")))
		want, mayFail = span(from, head), true
	case "pending":
		j["fromBlock"], j["toBlock"] = hexutil.EncodeUint64(from), "pending"
		want, mayFail = span(from, head), true
	case "hash":
		x := rapid.SampledFrom(chain).Draw(rt, "block")
		j["blockHash"] = x.H.Hex()
		want = filter(logs[x])
	case "sidehash":
		x := rapid.SampledFrom(w.Order).Draw(rt, "any")
		j["blockHash"] = x.H.Hex()
		want = filter(logs[x])
		mayFail = x.ID != id || chain[len(chain)-1].Num < x.Num || chain[x.Num] != x
		if x.ID != id {
			want = nil
		}
	case "nohash":
		j["blockHash"] = common.BytesToHash([]byte{1, 2, 3}).Hex()
		want, mayFail = nil, true
	}
	switch len(q.addrs) {
	case 0:
	case 1:
		j["address"] = q.addrs[0].Hex()
	default:
		var l []string
		for i, a := range q.addrs {
			s := a.Hex()
			if i%2 == 1 { // with its full shard key
				s = strings.ToLower(s) + "00000001"
			}
			l = append(l, s)
		}
		j["address"] = l
	}
	if len(q.topics) > 0 {
		var l []interface{}
		for _, or := range q.topics {
			switch len(or) {
			case 0:
				l = append(l, rapid.SampledFrom([]interface{}{nil, []interface{}{}, []interface{}{nil}}).Draw(rt, "any"))
			case 1:
				l = append(l, or[0].Hex())
			default:
				var s []string
				for _, t := range or {
					s = append(s, t.Hex())
				}
				l = append(l, s)
			}
		}
		j["topics"] = l
	}
	text, _ := json.Marshal(j)
	var fq rpc.FilterQuery
	if err := json.Unmarshal(text, &fq); err != nil {
		rt.Fatalf("query %s refused: %v", text, err)
	}
	res, err := api.GetLogs(&fq, qhex.Uint(chainenv.Key(id, 1<<8)))
	c.Label("api-%s", kind)
	if err != nil {
		if !mayFail {
			rt.Fatalf("query %s of shard %x with head %d: %v", text, id, head, err)
		}
		return
	}
	out, err := json.Marshal(res)
	if err != nil {
		rt.Fatal(err)
	}
	var got []struct {
		LogIndex, TransactionIndex, BlockNumber, BlockHeight hexutil.Uint64
		TransactionHash, BlockHash                           common.Hash
		Address, Recipient                                   common.Address
		Data                                                 hexutil.Bytes
		Topics                                               []common.Hash
		Removed                                              bool
	}
	if err := json.Unmarshal(out, &got); err != nil {
		rt.Fatalf("answer %s: %v", out, err)
	}
	var l []entry
	for _, g := range got {
		if g.Removed || g.BlockNumber != g.BlockHeight || g.Address != g.Recipient {
			rt.Fatalf("inconsistent answer %s", out)
		}
		l = append(l, entry{g.Address, append([]common.Hash{}, g.Topics...), string(g.Data), uint64(g.BlockNumber), g.BlockHash, g.TransactionHash, uint32(g.TransactionIndex), uint32(g.LogIndex)})
	}
	if d := diff(l, want); d != "" {
		rt.Fatalf("query %s of shard %x with head %d: %s", text, id, head, d)
	}
}

// TestMatch compares the matching rule alone on synthetic logs.
func TestMatch(t *testing.T) {
	vlib.Check(t, 4000, 150000, "the query matched some but not all of the logs", func(rt *rapid.T, c *vlib.C) {
		addr := func() common.Address { return common.BytesToAddress([]byte{byte(rapid.IntRange(0, 3).Draw(rt, "a"))}) }
		top := func() common.Hash { return common.BytesToHash([]byte{byte(rapid.IntRange(0, 2).Draw(rt, "t"))}) }
		var logs []*types.Log
		for n := rapid.IntRange(0, 8).Draw(rt, "logs"); n > 0; n-- {
			l := &types.Log{Recipient: addr(), BlockNumber: uint64(rapid.IntRange(0, 5).Draw(rt, "num")), Index: uint32(n)}
			for k := rapid.SampledFrom([]int{0, 1, 2, 3, 4}).Draw(rt, "topics"); k > 0; k-- {
				l.Topics = append(l.Topics, top())
			}
			logs = append(logs, l)
		}
		sort.SliceStable(logs, func(i, j int) bool { return logs[i].BlockNumber < logs[j].BlockNumber })
		var q query
		for n := rapid.SampledFrom([]int{0, 1, 2}).Draw(rt, "qa"); n > 0; n-- {
			q.addrs = append(q.addrs, addr())
		}
		for n := rapid.SampledFrom([]int{0, 1, 2, 3, 4, 5}).Draw(rt, "qt"); n > 0; n-- {
			var or []common.Hash
			for k := rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(rt, "or"); k > 0; k-- {
				or = append(or, top())
			}
			q.topics = append(q.topics, or)
		}
		bound := func(label string) *big.Int {
			k := rapid.IntRange(-2, 6).Draw(rt, label)
			if k == -2 {
				return nil
			}
			return big.NewInt(int64(k))
		}
		from, to := bound("from"), bound("to")
		var want []entry
		for _, l := range logs {
			if from != nil && from.Sign() >= 0 && l.BlockNumber < from.Uint64() || to != nil && to.Sign() >= 0 && l.BlockNumber > to.Uint64() {
				continue
			}
			if q.match(of(l)) {
				want = append(want, of(l))
			}
		}
		if d := diff(conv(core.FilterLogs(logs, from, to, q.addrs, q.topics)), want); d != "" {
			rt.Fatalf("filter %v..%v %+v: %s", from, to, q, d)
		}
		if len(want) > 0 && len(want) < len(logs) {
			c.NonTrivial("%d of %d logs", len(want), len(logs))
		}
		// blooms
		for _, l := range logs {
			bl := types.CreateBloom(types.Receipts{{Logs: logs[:0]}, {Logs: []*types.Log{l}}})
			if !types.BloomLookup(bl, l.Recipient) {
				rt.Fatalf("the bloom of a log lacks its address")
			}
			for _, t := range l.Topics {
				if !types.BloomLookup(bl, t) {
					rt.Fatalf("the bloom of a log lacks topic %x", t)
				}
			}
		}
	})
}
