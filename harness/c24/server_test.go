package c24

import (
	"fmt"
	"io/ioutil"
	"sync"
	"testing"
	"time"

	"github.com/QuarkChain/goquarkchain/p2p"
	"github.com/QuarkChain/goquarkchain/zzverif/stack"
	"github.com/QuarkChain/goquarkchain/zzverif/vlib"
	"pgregory.net/rapid"
)

// host is a server of the node's network layer with one protocol.
type host struct {
	*p2p.Server
	mu   sync.Mutex
	rw   p2p.MsgReadWriter
	got  []p2p.QKCMsg
	bad  string
	ends int
}

func (h *host) run(p *p2p.Peer, rw p2p.MsgReadWriter) error {
	h.mu.Lock()
	h.rw = rw
	h.mu.Unlock()
	for {
		var q p2p.QKCMsg
		m, err := rw.ReadMsg()
		if err == nil {
			var b []byte
			if b, err = ioutil.ReadAll(m.Payload); err == nil {
				q, err = p2p.DecodeQKCMsg(b)
			}
		}
		h.mu.Lock()
		if err != nil {
			h.ends++
			h.bad = err.Error()
			h.rw = nil
			h.mu.Unlock()
			return err
		}
		h.got = append(h.got, q)
		h.mu.Unlock()
	}
}

func (h *host) link() p2p.MsgReadWriter {
	h.mu.Lock()
	defer h.mu.Unlock()
	return h.rw
}

func (h *host) count() int {
	h.mu.Lock()
	defer h.mu.Unlock()
	return len(h.got)
}

// Two servers over the loopback: the link lasts and delivers, however long it
// is idle.
func TestServers(t *testing.T) {
	t.Parallel()
	vlib.Check(t, 1, 4, "messages before, during and after an idle time", func(rt *rapid.T, c *vlib.C) {
		var hs [2]*host
		for i := range hs {
			h := &host{}
			h.Server = &p2p.Server{Config: p2p.Config{
				PrivateKey:  keys[i],
				MaxPeers:    3,
				NoDiscovery: true,
				Name:        fmt.Sprintf("host%d", i),
				ListenAddr:  "127.0.0.1:0",
				Protocols:   []p2p.Protocol{{Name: "quarkchain", Version: 1, Length: 16, Run: h.run}},
			}}
			if err := h.Start(); err != nil {
				t.Fatalf("harness: %v", err)
			}
			defer h.Stop()
			hs[i] = h
		}
		hs[0].AddPeer(hs[1].Self())
		if !stack.Wait(20*time.Second, func() bool { return hs[0].link() != nil && hs[1].link() != nil }) {
			rt.Fatal("two servers do not connect")
		}
		var want [2][]message
		exchange := func(what string) {
			for d := range hs {
				for n := rapid.IntRange(1, 5).Draw(rt, "messages"); n > 0; n-- {
					m := drawMessage(rt, rapid.IntRange(0, 9).Draw(rt, "big") == 0)
					x := m.build(rt)
					x.Code = 0
					l := hs[d].link()
					if l == nil {
						rt.Fatalf("%s: the link is gone: %v / %v", what, hs[0].bad, hs[1].bad)
					}
					if err := l.WriteMsg(x); err != nil {
						rt.Fatalf("%s: cannot send %s: %v", what, short(m), err)
					}
					want[1-d] = append(want[1-d], m)
				}
			}
			stack.Wait(30*time.Second, func() bool {
				return hs[0].count() >= len(want[0]) && hs[1].count() >= len(want[1]) || hs[0].link() == nil || hs[1].link() == nil
			})
			for d, h := range hs {
				h.mu.Lock()
				got, bad, ends := h.got, h.bad, h.ends
				h.mu.Unlock()
				if ends > 0 {
					rt.Fatalf("%s: end %d lost its link: %s", what, d, bad)
				}
				if len(got) != len(want[d]) {
					rt.Fatalf("%s: end %d received %d messages of %d", what, d, len(got), len(want[d]))
				}
				for i := range got {
					if !equal(want[d][i], got[i]) {
						rt.Fatalf("%s: message %d to end %d arrived changed", what, i, d)
					}
				}
			}
		}
		exchange("at first")
		idle := time.Duration(rapid.SampledFrom([]int{17, 18, 20, 33}).Draw(rt, "idle")) * time.Second
		if vlib.Tier() == "quick" && idle > 20*time.Second {
			idle = 17 * time.Second
		}
		time.Sleep(idle)
		exchange(fmt.Sprintf("after %v", idle))
		c.NonTrivial("%v %d %d", idle, len(want[0]), len(want[1]))
		c.Sample("%d and %d messages, %v idle", len(want[0]), len(want[1]), idle)
	})
}
