// Package c24 checks that messages cross the encrypted link intact or not at all.
package c24

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/rand"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"net"
	"runtime"
	"sync"
	"testing"
	"time"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/p2p"
	"github.com/QuarkChain/goquarkchain/zzverif/stack"
	"github.com/QuarkChain/goquarkchain/zzverif/vlib"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/golang/snappy"
	"pgregory.net/rapid"
)

// wires are two directions of bytes between two ends in memory. Nothing
// blocks a writer. Once something was changed, the streams end when every
// reader waits.
type wires struct {
	mu      sync.Mutex
	cond    *sync.Cond
	buf     [2][]byte // towards end 0 and 1
	seen    [2][]byte // what was written towards each end
	given   [2][]byte // what was delivered towards it
	closed  [2]bool
	waiting [2]bool
	busy    [2]bool // the end may still write
	mangle  func(dir, offset int, b []byte) (out []byte, end bool)
	cut     [2]bool
	changed bool
}

func newWires() *wires {
	w := &wires{busy: [2]bool{true, true}}
	w.cond = sync.NewCond(&w.mu)
	return w
}

func (w *wires) end(i int) *end { return &end{w, i} }

type end struct {
	w *wires
	i int
}

func (e *end) Read(p []byte) (int, error) {
	w := e.w
	w.mu.Lock()
	defer w.mu.Unlock()
	for len(w.buf[e.i]) == 0 {
		if w.closed[1-e.i] || w.closed[e.i] || w.cut[e.i] {
			return 0, io.EOF
		}
		w.waiting[e.i] = true
		o := 1 - e.i
		if w.changed && w.waiting[o] && len(w.buf[o]) == 0 || !w.busy[o] {
			// nobody will write any more
			w.closed[0], w.closed[1] = true, true
			w.cond.Broadcast()
			return 0, io.EOF
		}
		w.cond.Wait()
	}
	w.waiting[e.i] = false
	n := copy(p, w.buf[e.i])
	w.buf[e.i] = w.buf[e.i][n:]
	return n, nil
}

func (e *end) Write(p []byte) (int, error) {
	w := e.w
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.closed[e.i] || w.closed[1-e.i] {
		return 0, errors.New("closed")
	}
	o := 1 - e.i
	out := p
	if w.mangle != nil && !w.cut[o] {
		var stop bool
		out, stop = w.mangle(o, len(w.seen[o]), p)
		if stop {
			w.cut[o] = true
		}
	} else if w.cut[o] {
		out = nil
	}
	if !bytes.Equal(out, p) {
		w.changed = true
	}
	w.seen[o] = append(w.seen[o], p...)
	w.given[o] = append(w.given[o], out...)
	w.buf[o] = append(w.buf[o], out...)
	w.cond.Broadcast()
	return len(p), nil
}

func (e *end) Close() error {
	e.w.mu.Lock()
	defer e.w.mu.Unlock()
	e.w.closed[e.i] = true
	e.w.cond.Broadcast()
	return nil
}

// rest says that this end writes nothing more by itself.
func (e *end) rest() {
	e.w.mu.Lock()
	defer e.w.mu.Unlock()
	e.w.busy[e.i] = false
	e.w.cond.Broadcast()
}

func (e *end) LocalAddr() net.Addr                { return &net.TCPAddr{IP: net.IP{127, 0, 0, 1}} }
func (e *end) RemoteAddr() net.Addr               { return e.LocalAddr() }
func (e *end) SetDeadline(t time.Time) error      { return nil }
func (e *end) SetReadDeadline(t time.Time) error  { return nil }
func (e *end) SetWriteDeadline(t time.Time) error { return nil }

var keys = func() (k []*ecdsa.PrivateKey) {
	for i := 0; i < 6; i++ {
		x, err := crypto.ToECDSA(crypto.Keccak256([]byte{byte(i), 24}))
		if err != nil {
			panic(err)
		}
		k = append(k, x)
	}
	return
}()

func id(k *ecdsa.PrivateKey) []byte { return crypto.FromECDSAPub(&k.PublicKey)[1:] }

type outcome struct {
	remote *ecdsa.PublicKey
	hello  p2p.VerifHello
	err    error
	stage  string
	panic  interface{}
}

// greet runs both handshakes of both ends.
func greet(w *wires, k [2]*ecdsa.PrivateKey, dialed *ecdsa.PublicKey, h [2]p2p.VerifHello) (l [2]*p2p.VerifLink, r [2]outcome) {
	var wg sync.WaitGroup
	for i := 0; i < 2; i++ {
		i := i
		fd := w.end(i)
		l[i] = p2p.NewVerifLink(fd)
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					r[i].panic = e
					fd.Close()
				}
			}()
			var dial *ecdsa.PublicKey
			if i == 0 {
				dial = dialed
			}
			r[i].stage = "encryption"
			if r[i].remote, r[i].err = l[i].Enc(k[i], dial); r[i].err == nil {
				r[i].stage = "protocol"
				r[i].hello, r[i].err = l[i].Proto(h[i])
			}
			if r[i].err != nil {
				fd.Close()
			} else {
				fd.rest() // all it had to say is written
			}
		}()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		r[0].panic = "the handshake hangs"
	}
	return
}

func hello(k *ecdsa.PrivateKey, version uint64, rt *rapid.T) p2p.VerifHello {
	return p2p.VerifHello{Version: version, Name: rapid.StringMatching("[a-z/]{0,20}").Draw(rt, "name"), ID: id(k), Port: uint64(rapid.IntRange(0, 70000).Draw(rt, "port"))}
}

func same(a, b p2p.VerifHello) bool {
	return a.Version == b.Version && a.Name == b.Name && bytes.Equal(a.ID, b.ID) && a.Port == b.Port
}

// open a link; version 4 does without compression.
func open(rt *rapid.T) (*wires, [2]*p2p.VerifLink, uint64) {
	w := newWires()
	i := rapid.IntRange(0, len(keys)-1).Draw(rt, "key")
	j := rapid.IntRange(0, len(keys)-1).Draw(rt, "other key")
	k := [2]*ecdsa.PrivateKey{keys[i], keys[j]}
	version := rapid.SampledFrom([]uint64{5, 5, 4, 6}).Draw(rt, "version")
	h := [2]p2p.VerifHello{hello(k[0], version, rt), hello(k[1], version, rt)}
	l, r := greet(w, k, &k[1].PublicKey, h)
	for i := range r {
		if r[i].panic != nil || r[i].err != nil {
			rt.Fatalf("end %d: handshake fails: %v %v (%s)", i, r[i].panic, r[i].err, r[i].stage)
		}
		if r[i].remote.X.Cmp(k[1-i].X) != 0 || r[i].remote.Y.Cmp(k[1-i].Y) != 0 {
			rt.Fatalf("end %d: takes the other for somebody else", i)
		}
		if !same(r[i].hello, h[1-i]) {
			rt.Fatalf("end %d: greeting %+v arrived as %+v", i, h[1-i], r[i].hello)
		}
	}
	return w, l, version
}

const maxPlain = 1<<24 - 1

type message struct {
	stack.Msg
	made bool // by MakeMsg from a command
}

func drawMessage(rt *rapid.T, big bool) message {
	m := message{Msg: stack.Msg{
		Op:     p2p.P2PCommandOp(rapid.SampledFrom([]int{0, 1, 2, 5, 6, 7, 8, 9, 13, 16, 18, 19, 20, 21, 127, 255}).Draw(rt, "op")),
		Rpc:    rapid.SampledFrom([]uint64{0, 1, 2, 255, 256, 1 << 31, 1 << 32, 1<<63 + 5, ^uint64(0)}).Draw(rt, "rpc"),
		Branch: rapid.SampledFrom([]uint32{0, 1, 2, 0x10001, 0x80000000, ^uint32(0)}).Draw(rt, "branch"),
	}}
	if rapid.IntRange(0, 3).Draw(rt, "typed") == 0 {
		m.made = true
		return m
	}
	sizes := []int{0, 1, 2, 3, 4, 15, 16, 17, 31, 32, 33, 100, 255, 256, 1000, 65522, 65523, 65524, 70000}
	if big {
		sizes = append(sizes, 1<<20, 5<<20, maxPlain-13, maxPlain-14)
	}
	n := rapid.SampledFrom(sizes).Draw(rt, "size")
	m.Data = make([]byte, n)
	switch rapid.IntRange(0, 2).Draw(rt, "content") {
	case 0: // as it is: zeros
	case 1:
		f := byte(rapid.IntRange(1, 255).Draw(rt, "fill"))
		for i := range m.Data {
			m.Data[i] = f + byte(i>>3)
		}
	default:
		rand.Read(m.Data)
	}
	return m
}

func (m *message) build(rt *rapid.T) p2p.Msg {
	var (
		x   p2p.Msg
		err error
	)
	meta := p2p.Metadata{Branch: m.Branch}
	if m.made {
		var cmd interface{}
		h := common.BytesToHash(rapid.SliceOfN(rapid.Byte(), 1, 32).Draw(rt, "hash"))
		switch rapid.IntRange(0, 3).Draw(rt, "command") {
		case 0:
			cmd = &p2p.GetRootBlockHeaderListWithSkipRequest{Type: 1, Data: h, Limit: 7, Skip: 9, Direction: 1}
		case 1:
			cmd = &p2p.GetRootBlockListRequest{RootBlockHashList: []common.Hash{h, {}, h}[:rapid.IntRange(0, 3).Draw(rt, "n")]}
		case 2:
			cmd = &p2p.GetMinorBlockHeaderListRequest{BlockHash: h, Branch: account.Branch{Value: m.Branch}, Limit: 3}
		default:
			cmd = &p2p.PingPongCommand{Message: h}
		}
		m.Data = stack.Ser(cmd)
		x, err = p2p.MakeMsg(m.Op, m.Rpc, meta, cmd)
	} else {
		x, err = p2p.MakeMsgWithSerializedData(m.Op, m.Rpc, meta, m.Data)
	}
	if err != nil {
		rt.Fatalf("cannot make message %v: %v", m.Op, err)
	}
	x.Code += p2p.VerifBase
	return x
}

// next reads a message as the node's protocol does.
func next(l *p2p.VerifLink) (m p2p.QKCMsg, err error, crash interface{}) {
	defer func() {
		if e := recover(); e != nil {
			crash = e
		}
	}()
	x, err := l.ReadMsg()
	if err != nil {
		return m, err, nil
	}
	if x.Code < p2p.VerifBase || x.Code >= p2p.VerifBase+16 {
		return m, nil, fmt.Sprintf("code %d", x.Code)
	}
	b, err := ioutil.ReadAll(x.Payload)
	if err != nil {
		return m, err, nil
	}
	if int(x.Size) != len(b) {
		return m, nil, fmt.Sprintf("size %d for %d bytes", x.Size, len(b))
	}
	m, err = p2p.DecodeQKCMsg(b)
	return m, err, nil
}

func equal(m message, q p2p.QKCMsg) bool {
	return q.Op == m.Op && q.RpcID == m.Rpc && q.MetaData.Branch == m.Branch && bytes.Equal(q.Data, m.Data)
}

func short(m message) string {
	return fmt.Sprintf("{op %d rpc %d branch %d, %d bytes}", m.Op, m.Rpc, m.Branch, len(m.Data))
}

// Messages of both directions, by one or several writers.
func TestLink(t *testing.T) {
	vlib.Check(t, 100, 3000, "messages in both directions, or several writers", func(rt *rapid.T, c *vlib.C) {
		w, l, version := open(rt)
		big := rapid.IntRange(0, 19).Draw(rt, "big") == 0
		total := 0
		for d := 0; d < 2; d++ {
			writers := rapid.IntRange(1, 3).Draw(rt, "writers")
			var sent [][]message
			var built [][]p2p.Msg
			for i := 0; i < writers; i++ {
				var a []message
				var x []p2p.Msg
				for n := rapid.IntRange(0, 6).Draw(rt, "messages"); n > 0; n-- {
					m := drawMessage(rt, big)
					x = append(x, m.build(rt))
					a = append(a, m)
				}
				sent, built = append(sent, a), append(built, x)
				total += len(a)
			}
			toolarge := -1
			if version >= 5 && rapid.IntRange(0, 9).Draw(rt, "too large") == 0 {
				toolarge = rapid.IntRange(0, writers-1).Draw(rt, "who")
			}
			var wg sync.WaitGroup
			fail := make(chan string, 64)
			for i := range built {
				i := i
				wg.Add(1)
				go func() {
					defer wg.Done()
					if i == toolarge {
						x, _ := p2p.MakeMsgWithSerializedData(1, 0, p2p.Metadata{}, make([]byte, maxPlain-12))
						x.Code += p2p.VerifBase
						if l[d].WriteMsg(x) == nil {
							fail <- "a message above the limit is accepted"
						}
					}
					for j, x := range built[i] {
						if err := l[d].WriteMsg(x); err != nil {
							fail <- fmt.Sprintf("cannot send %s: %v", short(sent[i][j]), err)
						}
					}
				}()
			}
			wg.Wait()
			select {
			case s := <-fail:
				rt.Fatal(s)
			default:
			}
			// how far each writer may have come; several if messages are equal
			states := map[[3]int]bool{{}: true}
			n := 0
			for _, a := range sent {
				n += len(a)
			}
			for ; n > 0; n-- {
				q, err, crash := next(l[1-d])
				if crash != nil || err != nil {
					rt.Fatalf("reading what the other sent: %v %v", crash, err)
				}
				// the next one of some writer
				reach := map[[3]int]bool{}
				for pos := range states {
					for i := range sent {
						if pos[i] < len(sent[i]) && equal(sent[i][pos[i]], q) {
							to := pos
							to[i]++
							reach[to] = true
						}
					}
				}
				if states = reach; len(states) == 0 {
					rt.Fatalf("received {op %d rpc %d branch %d, %d bytes}, which is not the next message of any writer", q.Op, q.RpcID, q.MetaData.Branch, len(q.Data))
				}
			}
			if writers > 1 && len(sent[0]) > 1 && len(sent[1]) > 1 {
				c.Label("writers %d", writers)
			}
			w.mu.Lock()
			left := len(w.buf[1-d])
			w.mu.Unlock()
			if left != 0 {
				rt.Fatalf("%d bytes more than the messages", left)
			}
		}
		if total > 2 {
			c.NonTrivial("v%d n%d big%v", version, total, big)
			c.Sample("version %d, %d messages, big %v", version, total, big)
		}
	})
}

// tamper alters a stream of frames; returns the new stream and its kind.
func tamper(rt *rapid.T, s []byte, cuts []int) ([]byte, string) {
	out := common.CopyBytes(s)
	at := func() int {
		if rapid.Bool().Draw(rt, "near a border") {
			b := cuts[rapid.IntRange(0, len(cuts)-1).Draw(rt, "border")] + rapid.IntRange(-33, 49).Draw(rt, "off")
			if b < 0 {
				b = 0
			}
			if b >= len(out) {
				b = len(out) - 1
			}
			return b
		}
		return rapid.IntRange(0, len(out)-1).Draw(rt, "at")
	}
	kind := rapid.SampledFrom([]string{"flip", "drop", "insert", "truncate", "repeat frame", "swap frames", "drop frame", "append", "old frame"}).Draw(rt, "kind")
	n := len(cuts) - 1 // frames
	frame := func(i int) []byte { return common.CopyBytes(s[cuts[i]:cuts[i+1]]) }
	join := func(f [][]byte) (b []byte) {
		for _, x := range f {
			b = append(b, x...)
		}
		return
	}
	var fs [][]byte
	for i := 0; i < n; i++ {
		fs = append(fs, frame(i))
	}
	i := rapid.IntRange(0, n-1).Draw(rt, "frame")
	switch kind {
	case "flip":
		k := at()
		out[k] ^= 1 << uint(rapid.IntRange(0, 7).Draw(rt, "bit"))
	case "drop":
		k := at()
		e := k + rapid.SampledFrom([]int{1, 1, 2, 16, 32}).Draw(rt, "len")
		if e > len(out) {
			e = len(out)
		}
		out = append(out[:k], out[e:]...)
	case "insert":
		k := at()
		x := rapid.SliceOfN(rapid.Byte(), 1, 40).Draw(rt, "bytes")
		out = append(out[:k:k], append(x, out[k:]...)...)
	case "truncate":
		out = out[:at()]
	case "repeat frame":
		out = join(append(append(append([][]byte{}, fs[:i+1]...), fs[i]), fs[i+1:]...))
	case "swap frames":
		j := rapid.IntRange(0, n-1).Draw(rt, "with")
		fs[i], fs[j] = fs[j], fs[i]
		out = join(fs)
	case "drop frame":
		out = join(append(append([][]byte{}, fs[:i]...), fs[i+1:]...))
	case "append":
		out = append(out, rapid.SliceOfN(rapid.Byte(), 1, 100).Draw(rt, "tail")...)
	case "old frame":
		// the header of one and the body of another
		j := rapid.IntRange(0, n-1).Draw(rt, "body of")
		fs[i] = append(fs[i][:32:32], fs[j][32:]...)
		out = join(fs)
	}
	return out, kind
}

// Corruption of the stream: everything before it arrives, nothing after it.
func TestTamper(t *testing.T) {
	vlib.Check(t, 250, 8000, "the stream differs from what was sent", func(rt *rapid.T, c *vlib.C) {
		w, l, version := open(rt)
		d := rapid.IntRange(0, 1).Draw(rt, "direction")
		r := 1 - d
		start := len(w.seen[r])
		cuts := []int{0}
		var sent []message
		for n := rapid.IntRange(1, 6).Draw(rt, "messages"); n > 0; n-- {
			m := drawMessage(rt, false)
			if len(m.Data) > 2000 {
				m.Data = m.Data[:2000]
			}
			if err := l[d].WriteMsg(m.build(rt)); err != nil {
				rt.Fatal(err)
			}
			sent = append(sent, m)
			cuts = append(cuts, len(w.seen[r])-start)
		}
		stream := common.CopyBytes(w.seen[r][start:])
		bad, kind := tamper(rt, stream, cuts)
		w.mu.Lock()
		w.buf[r] = common.CopyBytes(bad)
		w.mu.Unlock()
		w.end(d).rest()
		// the messages that lie wholly before the first difference
		p := 0
		for p < len(bad) && p < len(stream) && bad[p] == stream[p] {
			p++
		}
		whole := 0
		for whole < len(sent) && cuts[whole+1] <= p {
			whole++
		}
		for i := 0; i < whole; i++ {
			q, err, crash := next(l[r])
			if crash != nil || err != nil {
				rt.Fatalf("%s: message %d before the corruption: %v %v", kind, i, crash, err)
			}
			if !equal(sent[i], q) {
				rt.Fatalf("%s: message %d arrived changed", kind, i)
			}
		}
		q, err, crash := next(l[r])
		if crash != nil {
			rt.Fatalf("%s: panic: %v", kind, crash)
		}
		if err == nil {
			rt.Fatalf("%s at byte %d of %d: a corrupted stream delivers {op %d rpc %d branch %d, %d bytes}", kind, p, len(stream), q.Op, q.RpcID, q.MetaData.Branch, len(q.Data))
		}
		c.Label("%s", kind)
		if !bytes.Equal(bad, stream) {
			c.NonTrivial("%s %d/%d %d v%d", kind, whole, len(sent), len(stream), version)
			c.Sample("%s at byte %d of %d, %d of %d messages before it", kind, p, len(stream), whole, len(sent))
		}
	})
}

// Corruption of the handshake: the reader of corrupted bytes refuses.
func TestHandshake(t *testing.T) {
	vlib.Check(t, 150, 5000, "bytes of the handshake changed, or the wrong identity dialed", func(rt *rapid.T, c *vlib.C) {
		w := newWires()
		i := rapid.IntRange(0, len(keys)-1).Draw(rt, "key")
		j := rapid.IntRange(0, len(keys)-1).Draw(rt, "other key")
		k := [2]*ecdsa.PrivateKey{keys[i], keys[j]}
		dialed := j
		if rapid.IntRange(0, 5).Draw(rt, "wrong identity") == 0 {
			dialed = rapid.IntRange(0, len(keys)-1).Draw(rt, "dialed")
		}
		h := [2]p2p.VerifHello{hello(k[0], 5, rt), hello(k[1], 5, rt)}
		kind := rapid.SampledFrom([]string{"flip", "flip", "drop", "insert", "cut", "replace", "none"}).Draw(rt, "kind")
		dir := rapid.IntRange(0, 1).Draw(rt, "direction")
		where := rapid.IntRange(0, 900).Draw(rt, "where")
		if rapid.Bool().Draw(rt, "early") {
			where = rapid.IntRange(0, 330).Draw(rt, "near the start")
		}
		bit := byte(1) << uint(rapid.IntRange(0, 7).Draw(rt, "bit"))
		junk := rapid.SliceOfN(rapid.Byte(), 1, 20).Draw(rt, "junk")
		w.mangle = func(d, offset int, b []byte) ([]byte, bool) {
			if d != dir || kind == "none" || where < offset || where >= offset+len(b) {
				return b, false
			}
			x := where - offset
			o := common.CopyBytes(b)
			switch kind {
			case "flip":
				o[x] ^= bit
			case "drop":
				o = append(o[:x], o[x+1:]...)
			case "insert":
				o = append(o[:x:x], append(common.CopyBytes(junk), o[x:]...)...)
			case "cut":
				return o[:x], true
			case "replace":
				copy(o[x:], junk)
			}
			return o, false
		}
		_, r := greet(w, k, &keys[dialed].PublicKey, h)
		// an end succeeds exactly if it was given everything the other said
		// and could say everything itself before
		clean := dialed == j
		for e := 0; e < 2; e++ {
			if r[e].panic != nil {
				rt.Fatalf("%s at %d towards %d: end %d: panic: %v", kind, where, dir, e, r[e].panic)
			}
			if !bytes.HasPrefix(w.given[e], w.seen[e]) {
				clean = false
				if r[e].err == nil {
					rt.Fatalf("%s at %d: end %d accepts a handshake that was changed on the way", kind, where, e)
				}
			}
		}
		for e := 0; e < 2; e++ {
			if clean && r[e].err != nil {
				rt.Fatalf("%s at %d: nothing was changed, yet end %d fails: %v", kind, where, e, r[e].err)
			}
			if dialed != j && r[e].err == nil {
				rt.Fatalf("end %d accepts although another identity was dialed", e)
			}
			if r[e].err == nil {
				if r[e].remote.X.Cmp(k[1-e].X) != 0 || !same(r[e].hello, h[1-e]) {
					rt.Fatalf("%s at %d: end %d takes the other for somebody else", kind, where, e)
				}
			}
		}
		c.Label("%s clean %v", kind, clean)
		if !clean {
			c.NonTrivial("%s %d %d %d %s/%s", kind, dir, where, dialed, r[0].stage, r[1].stage)
			c.Sample("%s at %d towards end %d: %v / %v", kind, where, dir, r[0].err, r[1].err)
		}
	})
}

// A peer that authenticates its frames but fills them as it likes.
func TestFrames(t *testing.T) {
	vlib.Check(t, 150, 5000, "frames no honest peer writes", func(rt *rapid.T, c *vlib.C) {
		w, l, version := open(rt)
		d := rapid.IntRange(0, 1).Draw(rt, "direction")
		for n := rapid.IntRange(1, 5).Draw(rt, "frames"); n > 0; n-- {
			var tail [12]byte
			if rapid.Bool().Draw(rt, "tail") {
				rand.Read(tail[:])
			}
			plain := rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(rt, "plain")
			body := plain
			if version >= 5 {
				body = snappy.Encode(nil, plain)
			}
			size := uint32(len(body))
			kind := rapid.SampledFrom([]string{"honest", "huge", "over", "more", "less", "garbage", "claims", "empty"}).Draw(rt, "kind")
			written := body
			switch kind {
			case "huge":
				size = rapid.SampledFrom([]uint32{1 << 31, ^uint32(0), 1 << 30, 1<<27 + 1, 1 << 28}).Draw(rt, "size")
			case "over":
				size = 1<<27 + uint32(rapid.IntRange(1, 1000).Draw(rt, "by"))
			case "more":
				size += uint32(rapid.IntRange(1, 5000).Draw(rt, "by"))
			case "less":
				if size > 0 {
					size -= uint32(rapid.IntRange(1, int(size)).Draw(rt, "by"))
				}
			case "garbage":
				written = rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(rt, "bytes")
				size = uint32(len(written))
			case "claims":
				// a compressed body that claims to unpack to very much
				claim := rapid.SampledFrom([]uint64{1 << 24, 1<<24 + 1, 1 << 28, 1<<32 - 1, 1 << 32, 1<<64 - 1}).Draw(rt, "claim")
				var v [10]byte
				k := 0
				for claim >= 0x80 {
					v[k] = byte(claim) | 0x80
					claim >>= 7
					k++
				}
				v[k] = byte(claim)
				written = append(append([]byte{}, v[:k+1]...), plain...)
				size = uint32(len(written))
			case "empty":
				written, size = nil, 0
			}
			if err := l[d].Frame(size, tail, written); err != nil {
				rt.Fatal(err)
			}
			if kind == "more" || kind == "huge" || kind == "over" {
				w.end(d).rest()
			}
			// what it means
			var want []byte
			valid := int(size) == len(written)
			if valid {
				if want = written; version >= 5 {
					k, err := snappy.DecodedLen(written)
					if err != nil || k > maxPlain {
						valid = false
					} else if want, err = snappy.Decode(nil, written); err != nil {
						valid = false
					}
				}
			}
			if len(want) < 13 {
				valid = false
			}
			var before, after runtime.MemStats
			runtime.ReadMemStats(&before)
			q, err, crash := next(l[1-d])
			runtime.ReadMemStats(&after)
			if crash != nil {
				rt.Fatalf("%s frame: panic: %v", kind, crash)
			}
			if a := after.TotalAlloc - before.TotalAlloc; a > 140<<20 {
				rt.Fatalf("%s frame of claimed size %d makes the reader take %d bytes", kind, size, a)
			}
			c.Label("%s valid %v", kind, valid)
			if !valid {
				if err == nil {
					rt.Fatalf("%s frame (size %d, %d bytes) is delivered as {op %d rpc %d branch %d, %d bytes}", kind, size, len(written), q.Op, q.RpcID, q.MetaData.Branch, len(q.Data))
				}
				c.NonTrivial("%s %d %x v%d", kind, size, written, version)
				c.Sample("%s frame of %d bytes with size %d: %v", kind, len(written), size, err)
				return
			}
			if err != nil {
				rt.Fatalf("%s frame of a valid message: %v", kind, err)
			}
			m, _ := stack.Open(want)
			if !equal(message{Msg: m}, q) {
				rt.Fatalf("%s frame delivered differently", kind)
			}
		}
	})
}
