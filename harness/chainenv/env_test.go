package chainenv

import (
	"fmt"
	"github.com/QuarkChain/goquarkchain/account"
	"github.com/ethereum/go-ethereum/common"
	"math/big"
	"runtime"
	"testing"
	"time"
)

func TestSmoke(t *testing.T) {
	t0 := time.Now()
	var ms runtime.MemStats
	for i := 0; i < 50; i++ {
		e := New(Opt{ChainSize: 1, ShardSize: 2, Alloc: map[common.Address]map[string]*big.Int{Addrs[0]: {"QKC": Fund()}}})
		if _, err := e.MineRoot(account.NewAddress(Addrs[5], 0)); err != nil {
			t.Fatal(err)
		}
		for k := uint64(0); k < 3; k++ {
			for _, id := range e.IDs {
				for j := range e.IDs {
					to := Addrs[1]
					if err := e.Shard[id].AddTx(Tx(TxOpt{From: 0, To: &to, Nonce: k*2 + uint64(j), Value: big.NewInt(7), Gas: 100000, Price: big.NewInt(3), FromKey: Key(id, 0), ToKey: Key(e.IDs[j], 0)})); err != nil {
						t.Fatal(err)
					}
				}
				b, err := e.Mine(id, MineOpt{Coinbase: account.NewAddress(Addrs[3], Key(id, 0))})
				if err != nil {
					t.Fatal(err)
				}
				if len(b.Transactions()) != 2 {
					t.Fatal(len(b.Transactions()))
				}
			}
			if _, err := e.MineRoot(account.NewAddress(Addrs[5], 0)); err != nil {
				t.Fatal(err)
			}
		}
		for _, id := range e.IDs {
			b, err := e.Mine(id, MineOpt{Coinbase: account.NewAddress(Addrs[3], Key(id, 0))})
			if err != nil {
				t.Fatal(err)
			}
			_ = b
			if v := e.State(id).GetBalance(Addrs[1], QKC); v.Int64() != 42 {
				t.Fatal(v)
			}
		}
		e.Stop()
	}
	runtime.GC()
	runtime.ReadMemStats(&ms)
	fmt.Println(time.Since(t0)/50, ms.HeapAlloc>>20, runtime.NumGoroutine())
}
