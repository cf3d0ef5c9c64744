package stack

import (
	"encoding/binary"
	"io"
	"io/ioutil"
	"math/big"
	"sync"
	"sync/atomic"
	"time"

	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/p2p"
	"github.com/QuarkChain/goquarkchain/serialize"
	"github.com/QuarkChain/goquarkchain/zzverif/world"
	"github.com/ethereum/go-ethereum/common"
)

// Msg is one message of the protocol in its parts.
type Msg struct {
	Op     p2p.P2PCommandOp
	Rpc    uint64
	Branch uint32
	Data   []byte
}

// Ser serialises a command.
func Ser(v interface{}) []byte {
	b, err := serialize.SerializeToBytes(v)
	if err != nil {
		panic(err)
	}
	return b
}

// Envelope spells a message: four bytes of branch, one of operation, eight of
// request id, then the command.
func Envelope(m Msg) []byte {
	b := make([]byte, 13, 13+len(m.Data))
	binary.BigEndian.PutUint32(b, m.Branch)
	b[4] = byte(m.Op)
	binary.BigEndian.PutUint64(b[5:], m.Rpc)
	return append(b, m.Data...)
}

// Open reads an envelope.
func Open(b []byte) (Msg, bool) {
	if len(b) < 13 {
		return Msg{}, false
	}
	return Msg{p2p.P2PCommandOp(b[4]), binary.BigEndian.Uint64(b[5:]), binary.BigEndian.Uint32(b), b[13:]}, true
}

// Wire is a peer that this program plays itself.
type Wire struct {
	*Peer
	pipe   *p2p.MsgPipeRW
	handle func(m Msg) [][]byte
	mu     sync.Mutex
	cond   *sync.Cond
	queue  [][]byte
	closed bool
	last   int64
	reqs   int64
	Log    []Msg
	gone   chan struct{}
}

// Hello is the greeting of a peer whose root chain has the given tip.
func (x *Node) Hello(tip *types.RootBlockHeader, genesis common.Hash) p2p.HelloCmd {
	return p2p.HelloCmd{
		Version:              x.Cfg.Quarkchain.P2PProtocolVersion,
		NetWorkID:            x.Cfg.Quarkchain.NetworkID,
		RootBlockHeader:      tip,
		GenesisRootBlockHash: genesis,
	}
}

// Dial joins a node with a peer of the given identity, which greets as told
// and answers each message by handle: a list of envelopes to send.
func (x *Node) Dial(id byte, hello []byte, handle func(m Msg) [][]byte) *Wire {
	a, b := p2p.MsgPipe()
	w := &Wire{pipe: a, handle: handle, gone: make(chan struct{}), last: time.Now().UnixNano()}
	w.cond = sync.NewCond(&w.mu)
	w.Peer = x.Join(id, b)
	go w.read()
	go w.write()
	w.Raw(hello)
	go func() {
		// the node's side ending ends the connection, as the server would do
		err := <-w.Peer.Done
		w.Close()
		w.Peer.Done <- err
		close(w.gone)
	}()
	return w
}

func (w *Wire) read() {
	for {
		m, err := w.pipe.ReadMsg()
		if err != nil {
			w.Close()
			return
		}
		b, err := ioutil.ReadAll(m.Payload)
		if err != nil {
			w.Close()
			return
		}
		q, ok := Open(b)
		if !ok {
			continue
		}
		atomic.StoreInt64(&w.last, time.Now().UnixNano())
		w.mu.Lock()
		w.Log = append(w.Log, q)
		w.mu.Unlock()
		switch q.Op {
		case p2p.Hello, p2p.NewTipMsg, p2p.NewBlockMinorMsg, p2p.NewTransactionListMsg:
		default:
			atomic.AddInt64(&w.reqs, 1)
		}
		if w.handle != nil {
			for _, o := range w.handle(q) {
				w.Raw(o)
			}
		}
	}
}

func (w *Wire) write() {
	for {
		w.mu.Lock()
		for len(w.queue) == 0 && !w.closed {
			w.cond.Wait()
		}
		if w.closed {
			w.mu.Unlock()
			return
		}
		b := w.queue[0]
		w.queue = w.queue[1:]
		w.mu.Unlock()
		r := common.CopyBytes(b)
		if w.pipe.WriteMsg(p2p.Msg{Code: 0, Size: uint32(len(r)), Payload: &reader{b: r}}) != nil {
			w.Close()
			return
		}
	}
}

type reader struct {
	b []byte
}

func (r *reader) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		return 0, io.EOF
	}
	n := copy(p, r.b)
	r.b = r.b[n:]
	return n, nil
}

// Raw sends bytes as one message.
func (w *Wire) Raw(b []byte) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if len(w.queue) < 4096 {
		w.queue = append(w.queue, b)
	}
	w.cond.Signal()
}

// Send a message.
func (w *Wire) Send(m Msg) { w.Raw(Envelope(m)) }

// Close ends the connection.
func (w *Wire) Close() {
	w.mu.Lock()
	w.closed = true
	w.cond.Broadcast()
	w.mu.Unlock()
	w.pipe.Close()
}

// Gone says that the node has ended the connection.
func (w *Wire) Gone() bool {
	select {
	case <-w.gone:
		return true
	default:
		return false
	}
}

// WaitGone waits for the end of the connection.
func (w *Wire) WaitGone(d time.Duration) bool {
	select {
	case <-w.gone:
		return true
	case <-time.After(d):
		return false
	}
}

// Requests the node has made.
func (w *Wire) Requests() int { return int(atomic.LoadInt64(&w.reqs)) }

// Idle is the time since the node last said something.
func (w *Wire) Idle() time.Duration {
	return time.Since(time.Unix(0, atomic.LoadInt64(&w.last)))
}

// Empty says that everything was taken by the node.
func (w *Wire) Empty() bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	return len(w.queue) == 0
}

// Messages received so far.
func (w *Wire) Messages() []Msg {
	w.mu.Lock()
	defer w.mu.Unlock()
	return append([]Msg(nil), w.Log...)
}

// Busy says that some synchronisation of the node is under way.
func (x *Node) Busy() bool {
	if x.M.IsSyncing() {
		return true
	}
	for _, id := range x.IDs {
		if x.Shard(id).IsSyncing() {
			return true
		}
	}
	return false
}

// View is what an honest peer has: all blocks of a set and the canonical
// chains of one root block.
type View struct {
	Tip    *types.RootBlockHeader
	Canon  []*types.RootBlock
	Roots  map[common.Hash]*types.RootBlock
	Minors map[common.Hash]*types.MinorBlock
	Chains map[uint32][]*types.MinorBlock
}

// See makes the view of a peer whose root chain ends in tip and whose shards
// have the given heads (by default those which tip confirms).
func See(tip *world.Root, heads map[uint32]*world.Minor, ids []uint32) *View {
	v := &View{Tip: tip.B.Header(), Roots: map[common.Hash]*types.RootBlock{}, Minors: map[common.Hash]*types.MinorBlock{}, Chains: map[uint32][]*types.MinorBlock{}}
	for r := tip; r != nil; r = r.Parent {
		v.Canon = append([]*types.RootBlock{r.B}, v.Canon...)
		v.Roots[r.H] = r.B
	}
	for _, id := range ids {
		m := tip.Confirmed[id]
		if h := heads[id]; h != nil {
			m = h
		}
		if m == nil {
			continue
		}
		for _, x := range world.Chain(m) {
			v.Chains[id] = append(v.Chains[id], x.B)
			v.Minors[x.H] = x.B
		}
		if m := tip.Confirmed[id]; m != nil {
			for _, x := range world.Chain(m) {
				v.Minors[x.H] = x.B
			}
		}
	}
	return v
}

// RootHeaders answers a request for headers.
func (v *View) RootHeaders(q p2p.GetRootBlockHeaderListWithSkipRequest) []*types.RootBlockHeader {
	var h uint64
	if q.Type == 1 {
		h = new(big.Int).SetBytes(q.Data[:]).Uint64()
	} else {
		b := v.Roots[q.Data]
		if b == nil {
			return nil
		}
		h = uint64(b.Number())
		if h >= uint64(len(v.Canon)) || v.Canon[h].Hash() != q.Data {
			return nil
		}
	}
	var l []*types.RootBlockHeader
	for uint32(len(l)) < q.Limit && h < uint64(len(v.Canon)) {
		l = append(l, v.Canon[h].Header())
		if q.Direction == 0 {
			if h < uint64(q.Skip)+1 {
				break
			}
			h -= uint64(q.Skip) + 1
		} else {
			h += uint64(q.Skip) + 1
		}
	}
	return l
}

// MinorHeaders answers a request for headers.
func (v *View) MinorHeaders(q p2p.GetMinorBlockHeaderListWithSkipRequest) []*types.MinorBlockHeader {
	c := v.Chains[q.Branch.Value]
	var h uint64
	if q.Type == 1 {
		h = new(big.Int).SetBytes(q.Data[:]).Uint64()
	} else {
		b := v.Minors[q.Data]
		if b == nil || b.NumberU64() >= uint64(len(c)) || c[b.NumberU64()].Hash() != q.Data {
			return nil
		}
		h = b.NumberU64()
	}
	var l []*types.MinorBlockHeader
	for uint32(len(l)) < q.Limit && h < uint64(len(c)) {
		l = append(l, c[h].Header())
		if q.Direction == 0 {
			if h < uint64(q.Skip)+1 {
				break
			}
			h -= uint64(q.Skip) + 1
		} else {
			h += uint64(q.Skip) + 1
		}
	}
	return l
}

// Answer is what an honest peer of this view answers to a request: the
// operation and the command; nil when nothing is answered.
func (v *View) Answer(m Msg) (p2p.P2PCommandOp, interface{}) {
	switch m.Op {
	case p2p.GetRootBlockHeaderListWithSkipRequestMsg:
		var q p2p.GetRootBlockHeaderListWithSkipRequest
		if serialize.DeserializeFromBytes(m.Data, &q) == nil {
			return p2p.GetRootBlockHeaderListWithSkipResponseMsg, &p2p.GetRootBlockHeaderListResponse{RootTip: v.Tip, BlockHeaderList: v.RootHeaders(q)}
		}
	case p2p.GetRootBlockListRequestMsg:
		var q p2p.GetRootBlockListRequest
		if serialize.DeserializeFromBytes(m.Data, &q) == nil {
			a := &p2p.GetRootBlockListResponse{}
			for _, h := range q.RootBlockHashList {
				if b := v.Roots[h]; b != nil {
					a.RootBlockList = append(a.RootBlockList, b)
				}
			}
			return p2p.GetRootBlockListResponseMsg, a
		}
	case p2p.GetMinorBlockListRequestMsg:
		var q p2p.GetMinorBlockListRequest
		if serialize.DeserializeFromBytes(m.Data, &q) == nil {
			a := &p2p.GetMinorBlockListResponse{}
			for _, h := range q.MinorBlockHashList {
				if b := v.Minors[h]; b != nil {
					a.MinorBlockList = append(a.MinorBlockList, b)
				}
			}
			return p2p.GetMinorBlockListResponseMsg, a
		}
	case p2p.GetMinorBlockHeaderListWithSkipRequestMsg:
		var q p2p.GetMinorBlockHeaderListWithSkipRequest
		if serialize.DeserializeFromBytes(m.Data, &q) == nil {
			a := &p2p.GetMinorBlockHeaderListResponse{RootTip: v.Tip, BlockHeaderList: v.MinorHeaders(q)}
			if c := v.Chains[q.Branch.Value]; len(c) > 0 {
				a.ShardTip = c[len(c)-1].Header()
			} else {
				return 0, nil
			}
			return p2p.GetMinorBlockHeaderListWithSkipResponseMsg, a
		}
	}
	return 0, nil
}

// Serve is the handler of an honest peer.
func (v *View) Serve(m Msg) [][]byte {
	op, a := v.Answer(m)
	if a == nil {
		return nil
	}
	return [][]byte{Envelope(Msg{op, m.Rpc, m.Branch, Ser(a)})}
}
