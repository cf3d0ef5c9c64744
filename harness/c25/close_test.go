package c25

import (
	"testing"
	"time"

	"github.com/QuarkChain/goquarkchain/cluster/rpc"
	qsync "github.com/QuarkChain/goquarkchain/cluster/sync"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/zzverif/stack"
	"github.com/QuarkChain/goquarkchain/zzverif/vlib"
	"github.com/ethereum/go-ethereum/common"
	"pgregory.net/rapid"
)

// TestSynchronizer: tasks that are added run, whatever came before, and a
// closed synchronizer holds nobody up.
func TestSynchronizer(t *testing.T) {
	vlib.Check(t, 60, 2000, "tasks before and after closing", func(rt *rapid.T, c *vlib.C) {
		tr := rootTrunk
		tr.grow(40)
		on := map[common.Hash]int{}
		for i, x := range tr.x {
			on[x] = i
		}
		ch := &chain{t: tr, local: &side{t: tr, f: 5}, known: map[common.Hash]bool{}, onTrunk: on, valid: map[common.Hash]bool{}}
		s := qsync.NewSynchronizer(ch)
		n := rapid.IntRange(0, 4).Draw(rt, "tasks")
		top := 5
		for i := 0; i < n; i++ {
			l := rapid.IntRange(1, 12).Draw(rt, "blocks")
			r := tr.fork(5, l, 2+i)
			o := &other{t: tr, views: []*side{r}, faults: map[int]fault{}, byHash: map[common.Hash]types.IHeader{}, limit: 500, blimit: 100, max: 1000}
			for k, x := range r.x {
				o.byHash[x] = r.h[k]
				ch.valid[x] = true
			}
			bad := rapid.IntRange(0, 2).Draw(rt, "bad") == 0
			if bad {
				o.faults[0] = fault{name: "empty", always: true}
			}
			end, x := r.at(r.top())
			if e := s.AddTask(qsync.NewRootChainTask(o, end.(*types.RootBlockHeader), &qsync.BlockSychronizerStats{}, make(chan *rpc.ShardStatus, 1), nil)); e != nil {
				rt.Fatalf("a task is refused: %v", e)
			}
			stack.Wait(50*time.Millisecond, func() bool { return s.IsSyncing() })
			if !stack.Wait(5*time.Second, func() bool { return !s.IsSyncing() }) {
				rt.Fatalf("task %d does not end", i)
			}
			if !bad && !ch.HasBlock(x) {
				rt.Fatalf("task %d of %d blocks did not run", i, l)
			}
			top += l
		}
		done := make(chan int, 1)
		m := rapid.IntRange(1, 3).Draw(rt, "after")
		go func() {
			s.Close()
			for i := 0; i < m; i++ {
				r := tr.fork(5, 3, 9)
				end, _ := r.at(r.top())
				s.AddTask(qsync.NewRootChainTask(&other{t: tr, views: []*side{r}}, end.(*types.RootBlockHeader), &qsync.BlockSychronizerStats{}, nil, nil))
			}
			s.Close()
			done <- 1
		}()
		select {
		case <-done:
		case <-time.After(10 * time.Second):
			rt.Fatalf("adding a task to a closed synchronizer, or closing it again, blocks for ever")
		}
		c.NonTrivial("%d %d", n, m)
		c.Sample("%d tasks, closed, %d more", n, m)
	})
}
