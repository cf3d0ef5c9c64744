package c06

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"testing"

	"github.com/QuarkChain/goquarkchain/core/state"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/zzverif/vlib"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/ethdb"
	"pgregory.net/rapid"
)

// ---- model -----------------------------------------------------------------

type acct struct {
	bal      map[uint64]*big.Int
	suicided bool
}

type model map[int]*acct

func (m model) clone() model {
	r := model{}
	for k, a := range m {
		b := &acct{bal: map[uint64]*big.Int{}, suicided: a.suicided}
		for t, v := range a.bal {
			b.bal[t] = v
		}
		r[k] = b
	}
	return r
}

func (m model) get(a int, t uint64) *big.Int {
	if x := m[a]; x != nil && x.bal[t] != nil {
		return x.bal[t]
	}
	return new(big.Int)
}

func (m model) acct(a int) *acct {
	if m[a] == nil {
		m[a] = &acct{bal: map[uint64]*big.Int{}}
	}
	return m[a]
}

// finalise: what a suicided account holds at the end of a transaction is gone
func (m model) finalise() {
	for k, a := range m {
		if a.suicided {
			delete(m, k)
		}
	}
}

func (m model) nonzero(a int) int {
	n := 0
	if m[a] != nil {
		for _, v := range m[a].bal {
			if v.Sign() > 0 {
				n++
			}
		}
	}
	return n
}

// ---- system ----------------------------------------------------------------

type world struct {
	st    *state.StateDB
	m     model
	snaps []snap
}

type snap struct {
	id int
	m  model
}

func addr(a int) common.Address { return common.BytesToAddress([]byte{0x71, byte(a + 1)}) }

func (w *world) check(rt *rapid.T, where string, a int, toks []uint64) {
	for _, t := range toks {
		got := w.st.GetBalance(addr(a), t)
		if got.Cmp(w.m.get(a, t)) != 0 {
			rt.Fatalf("%s: account %d token %d: state has %v, surviving changes sum to %v", where, a, t, got, w.m.get(a, t))
		}
	}
}

func (w *world) checkAll(rt *rapid.T, where string, nacc int, toks []uint64) {
	for a := 0; a < nacc; a++ {
		w.check(rt, where, a, toks)
	}
}

// checkSet: the balance set reported for the account is exactly its non-zero balances
func (w *world) checkSet(rt *rapid.T, where string, a int) {
	got := map[uint64]string{}
	for t, v := range w.st.GetBalances(addr(a)).GetBalanceMap() {
		if v.Sign() != 0 {
			got[t] = v.String()
		}
	}
	want := map[uint64]string{}
	if x := w.m[a]; x != nil {
		for t, v := range x.bal {
			if v.Sign() != 0 {
				want[t] = v.String()
			}
		}
	}
	if fmt.Sprint(sorted(got)) != fmt.Sprint(sorted(want)) {
		rt.Fatalf("%s: account %d: balance set %v, want %v", where, a, sorted(got), sorted(want))
	}
}

func sorted(m map[uint64]string) []string {
	var r []string
	for k, v := range m {
		r = append(r, fmt.Sprintf("%020d:%s", k, v))
	}
	sort.Strings(r)
	return r
}

func amount(rt *rapid.T, max *big.Int) *big.Int {
	switch rapid.IntRange(0, 3).Draw(rt, "amt") {
	case 0:
		return new(big.Int)
	case 1:
		if max != nil {
			return new(big.Int).Set(max)
		}
		return new(big.Int).Lsh(big.NewInt(1), uint(rapid.IntRange(0, 255).Draw(rt, "bits")))
	}
	v := new(big.Int).SetUint64(rapid.Uint64Range(1, 1<<40).Draw(rt, "v"))
	if max != nil && v.Cmp(max) > 0 {
		v.Set(max)
	}
	return v
}

func TestBalancesFollowTheHistory(t *testing.T) {
	vlib.Check(t, 3000, 60000, "a history in which an account passes the token-trie threshold and is then reverted, copied, destroyed or reloaded", func(rt *rapid.T, c *vlib.C) {
		nacc := 3
		ntok := rapid.SampledFrom([]int{3, 16, 17, 18, 24, 40}).Draw(rt, "ntok")
		var toks []uint64
		stride := rapid.SampledFrom([]uint64{1, 7, 1 << 40}).Draw(rt, "stride")
		for i := 0; i < ntok; i++ {
			toks = append(toks, uint64(i)*stride+35760)
		}
		disk := ethdb.NewMemDatabase()
		sdb := state.NewDatabase(disk)
		st, err := state.New(common.Hash{}, sdb)
		if err != nil {
			rt.Fatal(err)
		}
		w := &world{st: st, m: model{}}
		var others []*world // copies, which must not change any more
		var log []string
		say := func(f string, a ...interface{}) { log = append(log, fmt.Sprintf(f, a...)) }
		interesting := false
		maxNZ := 0
		n := rapid.SampledFrom([]int{3, 6, 12, 25, 50}).Draw(rt, "n")
		for i := 0; i < n; i++ {
			a := rapid.IntRange(0, nacc-1).Draw(rt, "a")
			tok := rapid.SampledFrom(toks).Draw(rt, "tok")
			if w.m.nonzero(a) > maxNZ {
				maxNZ = w.m.nonzero(a)
			}
			big17 := w.m.nonzero(a) > types.TokenTrieThreshold
			op := rapid.SampledFrom([]string{"add", "add", "sub", "sub", "set", "fill", "fill", "fill", "drain", "snap", "snap", "revert", "revert", "final", "copy", "commit", "reload", "disk", "suicide", "create", "read", "readset", "nonce"}).Draw(rt, "op")
			switch op {
			case "add":
				v := amount(rt, nil)
				w.st.AddBalance(addr(a), v, tok)
				x := w.m.acct(a)
				x.bal[tok] = new(big.Int).Add(w.m.get(a, tok), v)
				say("add %d %d %v", a, tok, v)
			case "sub":
				v := amount(rt, w.m.get(a, tok))
				w.st.SubBalance(addr(a), v, tok)
				x := w.m.acct(a)
				x.bal[tok] = new(big.Int).Sub(w.m.get(a, tok), v)
				say("sub %d %d %v", a, tok, v)
			case "set":
				v := amount(rt, nil)
				w.st.SetBalance(addr(a), v, tok)
				w.m.acct(a).bal[tok] = v
				say("set %d %d %v", a, tok, v)
			case "fill":
				k := rapid.SampledFrom([]int{ntok, ntok, 1 + ntok/2, 1}).Draw(rt, "k")
				for _, tk := range toks[:k] {
					v := new(big.Int).SetUint64(tk%13 + 1)
					w.st.AddBalance(addr(a), v, tk)
					x := w.m.acct(a)
					x.bal[tk] = new(big.Int).Add(w.m.get(a, tk), v)
				}
				say("fill %d first %d", a, k)
			case "drain":
				k := rapid.SampledFrom([]int{ntok, 1 + ntok/2, 1}).Draw(rt, "k")
				for _, tk := range toks[:k] {
					v := w.m.get(a, tk)
					w.st.SubBalance(addr(a), v, tk)
					if v.Sign() != 0 {
						w.m.acct(a).bal[tk] = new(big.Int)
					}
				}
				say("drain %d first %d", a, k)
			case "snap":
				w.snaps = append(w.snaps, snap{w.st.Snapshot(), w.m.clone()})
				say("snap")
			case "revert":
				if len(w.snaps) == 0 {
					continue
				}
				k := rapid.IntRange(0, len(w.snaps)-1).Draw(rt, "k")
				w.st.RevertToSnapshot(w.snaps[k].id)
				w.m = w.snaps[k].m
				w.snaps = w.snaps[:k]
				say("revert to %d", k)
				if maxNZ > types.TokenTrieThreshold {
					interesting = true
				}
			case "final":
				w.st.Finalise(rapid.Bool().Draw(rt, "del"))
				w.m.finalise()
				w.snaps = nil
				say("finalise")
			case "copy":
				// the node copies states between transactions only: a self-destruction
				// still open in the copied state is settled by its commit, not by Finalise
				open := false
				for _, x := range w.m {
					open = open || x.suicided
				}
				if open {
					continue
				}
				cp := &world{st: w.st.Copy(), m: w.m.clone()}
				say("copy")
				if rapid.Bool().Draw(rt, "continue on the copy") {
					// reverting the original is not part of this: only the current values are compared
					others = append(others, &world{st: w.st, m: w.m})
					w = cp
				} else {
					others = append(others, cp)
				}
				if maxNZ > types.TokenTrieThreshold {
					interesting = true
				}
			case "commit", "reload", "disk":
				root, err := w.st.Commit(rapid.Bool().Draw(rt, "del"))
				if err != nil {
					rt.Fatalf("commit: %v after %s", err, strings.Join(log, "; "))
				}
				w.m.finalise()
				w.snaps = nil
				say("%s", op)
				if op == "disk" {
					if err := sdb.TrieDB().Commit(root, false); err != nil {
						rt.Fatalf("commit to disk: %v", err)
					}
					sdb = state.NewDatabase(disk)
					others = nil // their uncommitted trie nodes lived in the old cache
				}
				if op != "commit" {
					w.st, err = state.New(root, sdb)
					if err != nil {
						rt.Fatalf("cannot reload root %x: %v", root, err)
					}
				}
				if maxNZ > types.TokenTrieThreshold {
					interesting = true
				}
			case "suicide":
				if w.st.Suicide(addr(a)) { // whether it exists at all is C07's question
					w.m[a] = &acct{bal: map[uint64]*big.Int{}, suicided: true}
				}
				say("suicide %d", a)
				if big17 {
					interesting = true
				}
			case "create":
				if w.m[a] != nil && w.m[a].suicided {
					continue
				}
				w.st.CreateAccount(addr(a))
				w.st.SetNonce(addr(a), 1)
				w.m.acct(a)
				say("create %d", a)
				if big17 {
					interesting = true
				}
			case "nonce":
				w.st.SetNonce(addr(a), rapid.Uint64Range(0, 3).Draw(rt, "nonce"))
				w.m.acct(a)
				say("nonce %d", a)
			case "read":
				w.check(rt, "read", a, toks[:rapid.IntRange(0, ntok).Draw(rt, "k")])
				say("read %d", a)
			case "readset":
				w.checkSet(rt, "read set after "+strings.Join(log, "; "), a)
				say("readset %d", a)
			}
			c.Label("op %s", op)
		}
		hist := strings.Join(log, "; ")
		for i, o := range others {
			o.checkAll(rt, fmt.Sprintf("copy %d after %s", i, hist), nacc, toks)
		}
		if rapid.Bool().Draw(rt, "sets") {
			for a := 0; a < nacc; a++ {
				w.checkSet(rt, hist, a)
			}
		}
		w.checkAll(rt, hist, nacc, toks)
		// and on disk
		root, err := w.st.Commit(true)
		if err != nil {
			rt.Fatalf("final commit: %v after %s", err, hist)
		}
		w.m.finalise()
		if err := sdb.TrieDB().Commit(root, false); err != nil {
			rt.Fatal(err)
		}
		w.st, err = state.New(root, state.NewDatabase(disk))
		if err != nil {
			rt.Fatalf("cannot reopen: %v", err)
		}
		w.checkAll(rt, "reopened from disk after "+hist, nacc, toks)
		for a := 0; a < nacc; a++ {
			w.checkSet(rt, "reopened from disk after "+hist, a)
		}
		if interesting {
			c.NonTrivial("%s", hist)
			c.Label("beyond the token-trie threshold")
			c.Sample("%d tokens: %s", ntok, hist)
		}
	})
}

// The encoding of a set of non-zero balances is the same whatever produced it,
// and decodes to the same set.
func TestBalanceEncoding(t *testing.T) {
	vlib.Check(t, 1500, 40000, "at least two tokens, or more than the trie threshold", func(rt *rapid.T, c *vlib.C) {
		n := rapid.IntRange(0, 24).Draw(rt, "n")
		want := map[uint64]*big.Int{}
		for i := 0; i < n; i++ {
			want[rapid.Uint64().Draw(rt, "tok")] = new(big.Int).Add(amount(rt, nil), big.NewInt(1))
		}
		build := func(noise bool) []byte {
			sdb := state.NewDatabase(ethdb.NewMemDatabase())
			b, err := types.NewTokenBalances(nil, sdb.TrieDB())
			if err != nil {
				rt.Fatal(err)
			}
			for k, v := range want {
				if noise {
					b.SetValue(big.NewInt(5), k)
					b.SetValue(big.NewInt(7), k^1)
				}
				b.SetValue(v, k)
			}
			if noise {
				for k := range want {
					if _, ok := want[k^1]; ok {
						b.SetValue(want[k^1], k^1)
					} else {
						b.SetValue(new(big.Int), k^1)
					}
				}
			}
			b.Commit()
			enc, err := b.SerializeToBytes()
			if err != nil {
				rt.Fatalf("encode %v: %v", want, err)
			}
			got, err := types.NewTokenBalances(enc, sdb.TrieDB())
			if err != nil {
				rt.Fatalf("decode %x: %v", enc, err)
			}
			for k, v := range want {
				if got.GetTokenBalance(k).Cmp(v) != 0 {
					rt.Fatalf("token %d: %v decoded as %v", k, v, got.GetTokenBalance(k))
				}
				if _, ok := want[k^1]; !ok && got.GetTokenBalance(k^1).Sign() != 0 {
					rt.Fatalf("token %d appeared", k^1)
				}
			}
			return enc
		}
		a, b := build(false), build(len(want) > 0)
		if string(a) != string(b) {
			rt.Fatalf("balances %v encode to %x and %x", want, a, b)
		}
		if len(want) > types.TokenTrieThreshold {
			c.Label("trie")
		} else {
			c.Label("list")
		}
		if len(want) > 1 {
			c.NonTrivial("%x", a)
			c.Sample("%d tokens -> %x", len(want), a)
		}
	})
}
