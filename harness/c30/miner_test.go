package c30

import (
	"errors"
	"fmt"
	"math/big"
	"sync"
	"testing"
	"time"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/miner"
	"github.com/QuarkChain/goquarkchain/cluster/service"
	"github.com/QuarkChain/goquarkchain/consensus/doublesha256"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/zzverif/vlib"
	"github.com/ethereum/go-ethereum/common"
	"pgregory.net/rapid"
)

// node is the chain a miner works for: every call makes another block on the tip.
type node struct {
	mu      sync.Mutex
	tip     uint64
	syncing bool
	fails   int // the next calls to create a block fail
	rejects int // the next mined blocks are rejected
	salt    uint64
	diff    int64
	minor   bool
	made    map[common.Hash]types.IBlock
	last    map[account.Address]types.IBlock
	mined   []types.IBlock
}

var home = addr(50, 1)

func (n *node) GetDefaultCoinbaseAddress() account.Address { return home }
func (n *node) IsSyncing() bool                            { n.mu.Lock(); defer n.mu.Unlock(); return n.syncing }
func (n *node) GetTip() uint64                             { n.mu.Lock(); defer n.mu.Unlock(); return n.tip }
func (n *node) CreateBlockToMine(a *account.Address) (types.IBlock, *big.Int, uint64, error) {
	n.mu.Lock()
	defer n.mu.Unlock()
	if n.fails > 0 {
		n.fails--
		return nil, nil, 0, errors.New("planned failure")
	}
	if a == nil {
		a = &home
	}
	n.salt++
	b := root(n.tip+1, *a, n.diff, n.salt)
	if n.minor {
		b = minor(n.tip+1, *a, n.diff, n.salt)
	}
	n.made[b.IHeader().SealHash()] = b
	n.last[*a] = b
	return b, b.IHeader().GetDifficulty(), 1, nil
}
func (n *node) InsertMinedBlock(b types.IBlock) error {
	n.mu.Lock()
	defer n.mu.Unlock()
	n.mined = append(n.mined, b)
	if n.rejects > 0 {
		n.rejects--
		return errors.New("planned rejection")
	}
	return nil
}

type step struct {
	op   string
	wait int
}

var minerOps = []string{"tip", "tip", "tip silently", "fail", "sync on", "sync off", "mining on", "mining on", "mining off", "get", "get other", "submit", "reject"}

// one history of one miner; the error is what went wrong.
func play(minorChain bool, diff int64, steps []step) (err error) {
	n := &node{tip: 5, made: map[common.Hash]types.IBlock{}, last: map[account.Address]types.IBlock{}, diff: diff, minor: minorChain}
	e := doublesha256.New(calc, true, guardPub)
	ctx := &service.ServiceContext{}
	ctx.SetTimestamp(time.Now())
	m := miner.New(ctx, n, e)
	defer func() { go m.Stop(); go e.Close() }()
	call := func(what string, f func()) bool {
		done := make(chan struct{})
		go func() { defer close(done); f() }()
		select {
		case <-done:
			return true
		case <-time.After(40 * time.Second):
			err = fmt.Errorf("%s does not return", what)
			return false
		}
	}
	mining := false
	solve := func(seal common.Hash, b types.IBlock) uint64 {
		k := uint64(0)
		for !solves(seal, k, b.IHeader().GetDifficulty()) {
			k++
		}
		return k
	}
	for _, s := range steps {
		ok := true
		switch s.op {
		case "tip":
			n.mu.Lock()
			n.tip++
			n.mu.Unlock()
			go m.HandleNewTip() // as the chains do
		case "tip silently":
			n.mu.Lock()
			n.tip++
			n.mu.Unlock()
		case "fail":
			n.mu.Lock()
			n.fails = 1
			n.mu.Unlock()
		case "reject":
			n.mu.Lock()
			n.rejects = 1
			n.mu.Unlock()
		case "sync on", "sync off":
			n.mu.Lock()
			n.syncing = s.op == "sync on"
			n.mu.Unlock()
		case "mining on", "mining off":
			mining = s.op == "mining on"
			ok = call("SetMining", func() { m.SetMining(mining) })
		case "get", "get other":
			a := home
			var p *account.Address
			if s.op == "get other" {
				a = addr(60+s.wait%3, 1)
				p = &a
			}
			ok = call("GetWork", func() {
				w, e := m.GetWork(p)
				if e != nil {
					return
				}
				n.mu.Lock()
				defer n.mu.Unlock()
				b := n.made[w.HeaderHash]
				if b == nil || b.NumberU64() != w.Number || b.IHeader().GetDifficulty().Cmp(w.Difficulty) != 0 || b.Coinbase() != a {
					err = fmt.Errorf("GetWork returns %+v, which is no block offered to %x", w, a)
				}
			})
		case "submit":
			n.mu.Lock()
			b := n.last[home]
			syn := n.syncing
			n.mu.Unlock()
			if b == nil {
				continue
			}
			seal := b.IHeader().SealHash()
			var got bool
			ok = call("SubmitWork", func() { got = m.SubmitWork(solve(seal, b), seal, common.Hash{}, nil) })
			if got && (!mining || syn) {
				return fmt.Errorf("a solution is accepted with mining=%v syncing=%v", mining, syn)
			}
		}
		if err != nil || !ok {
			return err
		}
		time.Sleep(time.Duration(s.wait) * 100 * time.Microsecond)
	}
	// The disturbances end; whatever happened before, the miner must offer the current tip.
	n.mu.Lock()
	n.syncing, n.fails, n.rejects = false, 0, 0
	n.tip += 3
	tip := n.tip
	n.mu.Unlock()
	ctx.SetTimestamp(time.Now())
	if !call("SetMining", func() { m.SetMining(true) }) || !call("HandleNewTip", m.HandleNewTip) {
		return err
	}
	// without anyone asking for work
	deadline := time.Now().Add(40 * time.Second)
	for {
		n.mu.Lock()
		b := n.last[home]
		n.mu.Unlock()
		if b != nil && b.NumberU64() == tip+1 {
			break
		}
		if time.Now().After(deadline) {
			return fmt.Errorf("with mining on, the miner makes no block for tip %d", tip)
		}
		time.Sleep(5 * time.Millisecond)
	}
	var work common.Hash
	var stable int
	for stable < 3 { // late reactions to earlier events may still replace it
		w, e := m.GetWork(nil)
		if e == nil && w.Number == tip+1 && w.HeaderHash == work {
			stable++
		} else {
			stable = 0
		}
		if e == nil {
			work = w.HeaderHash
		}
		if time.Now().After(deadline) {
			return fmt.Errorf("with mining on, GetWork gives %v %v for tip %d", w, e, tip)
		}
		time.Sleep(5 * time.Millisecond)
	}
	// work for an address nobody asked for before is accepted at once
	a := addr(70, 1)
	w, e2 := m.GetWork(&a)
	if e2 != nil {
		return fmt.Errorf("GetWork for a new address: %v", e2)
	}
	n.mu.Lock()
	b := n.made[w.HeaderHash]
	n.mu.Unlock()
	if b == nil || b.Coinbase() != a || w.Number != tip+1 {
		return fmt.Errorf("GetWork for a new address: %+v is not the block made for it", w)
	}
	k := solve(w.HeaderHash, b)
	if !m.SubmitWork(k, w.HeaderHash, common.Hash{4}, nil) {
		return fmt.Errorf("the solution of work just handed out is refused")
	}
	want := b.WithMingResult(k, common.Hash{4}, nil).Hash()
	for end := time.Now().Add(40 * time.Second); ; time.Sleep(time.Millisecond) {
		n.mu.Lock()
		found := false
		for _, x := range n.mined {
			found = found || x.Hash() == want
		}
		n.mu.Unlock()
		if found {
			return nil
		}
		if time.Now().After(end) {
			return fmt.Errorf("an accepted solution never reaches the chain")
		}
	}
}

// A case is a set of histories played side by side, because a miner pauses for
// seconds after a failure.
func TestMiner(t *testing.T) {
	vlib.Check(t, 3, 25, "histories with a failure, a sync or a switch of mining", func(rt *rapid.T, c *vlib.C) {
		k := 60
		var all [][]step
		for i := 0; i < k; i++ {
			var h []step
			for j := rapid.SampledFrom([]int{3, 8, 15, 25, 40}).Draw(rt, "len"); j > 0; j-- {
				h = append(h, step{rapid.SampledFrom(minerOps).Draw(rt, "op"), rapid.SampledFrom([]int{0, 0, 0, 1, 2, 10, 100}).Draw(rt, "wait")})
			}
			all = append(all, h)
		}
		isMinor := rapid.Bool().Draw(rt, "minor")
		diff := int64(rapid.SampledFrom([]int{1, 30}).Draw(rt, "diff"))
		errs := make([]error, len(all))
		var wg sync.WaitGroup
		for i := range all {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				errs[i] = play(isMinor, diff, all[i])
			}(i)
		}
		wg.Wait()
		c.NonTrivial("%v", all)
		c.Sample("%d histories side by side, the first: %v", k, all[0])
		for i, e := range errs {
			if e != nil {
				rt.Fatalf("after %v: %v", all[i], e)
			}
		}
	})
}
