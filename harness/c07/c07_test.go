package c07

import (
	"bytes"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"testing"

	"github.com/QuarkChain/goquarkchain/core/state"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/zzverif/vlib"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/ethdb"
	"github.com/ethereum/go-ethereum/rlp"
	"github.com/ethereum/go-ethereum/trie"
	"pgregory.net/rapid"
)

// ---- model -----------------------------------------------------------------

type acct struct {
	nonce     uint64
	bal       map[uint64]uint64
	code      string
	storage   map[common.Hash]common.Hash // current, non-zero only
	committed map[common.Hash]common.Hash // as of the last transaction end
	key       uint32
	suicided  bool
	// zeroEntry: the account has been given a balance entry, so an all-zero set
	// may be encoded as an empty list instead of nothing
	zeroEntry bool
}

type mlog struct {
	addr  byte
	data  string
	tx    common.Hash
	txIdx uint32
	index uint32
}

type model struct {
	acc       map[int]*acct
	dirty     map[int]int // number of surviving changes since the last transaction end
	logs      []mlog
	refund    uint64
	preimages map[common.Hash]string
	shardKey  uint32
	tx        common.Hash
	txIdx     uint32
}

func cpS(m map[common.Hash]common.Hash) map[common.Hash]common.Hash {
	r := map[common.Hash]common.Hash{}
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (m *model) clone() *model {
	r := &model{acc: map[int]*acct{}, dirty: map[int]int{}, refund: m.refund, preimages: map[common.Hash]string{}, shardKey: m.shardKey, tx: m.tx, txIdx: m.txIdx}
	for k, a := range m.acc {
		b := *a
		b.bal = map[uint64]uint64{}
		for t, v := range a.bal {
			b.bal[t] = v
		}
		b.storage = cpS(a.storage)
		b.committed = cpS(a.committed)
		r.acc[k] = &b
	}
	for k, v := range m.dirty {
		r.dirty[k] = v
	}
	r.logs = append(r.logs, m.logs...)
	for k, v := range m.preimages {
		r.preimages[k] = v
	}
	return r
}

func (m *model) getOrNew(a int) *acct {
	if m.acc[a] == nil {
		m.acc[a] = &acct{bal: map[uint64]uint64{}, storage: map[common.Hash]common.Hash{}, committed: map[common.Hash]common.Hash{}, key: m.shardKey}
		m.dirty[a]++
	}
	return m.acc[a]
}

func (a *acct) blank() bool {
	for _, v := range a.bal {
		if v != 0 {
			return false
		}
	}
	return true
}

func (a *acct) empty() bool { return a.nonce == 0 && a.blank() && a.code == "" }

func (m *model) finalise(del bool) {
	for k := range m.dirty {
		a := m.acc[k]
		if a == nil {
			continue
		}
		if a.suicided || (del && a.empty()) {
			delete(m.acc, k)
			continue
		}
		a.committed = cpS(a.storage)
	}
	m.dirty = map[int]int{}
	m.refund = 0
}

// roots are the possible state roots of the contents, computed with nothing but
// a plain trie and this file's own account encoding.
func (m *model) roots(rt *rapid.T) map[common.Hash]bool {
	type enc struct {
		addr common.Address
		alts [][]byte
	}
	var encs []enc
	for k, a := range m.acc {
		st, err := trie.NewSecure(common.Hash{}, trie.NewDatabase(ethdb.NewMemDatabase()), 0)
		if err != nil {
			rt.Fatal(err)
		}
		for sk, sv := range a.storage {
			v, _ := rlp.EncodeToBytes(bytes.TrimLeft(sv[:], "\x00"))
			st.Update(sk[:], v)
		}
		sroot := st.Hash()
		if len(a.storage) == 0 {
			sroot = common.HexToHash("56e81f171bcc55a6ff8345e692c0f86e5b48e01b996cadc001622fb5e363b421")
		}
		type pair struct{ T, V uint64 }
		var ps []pair
		for t, v := range a.bal {
			if v != 0 {
				ps = append(ps, pair{t, v})
			}
		}
		sort.Slice(ps, func(i, j int) bool { return ps[i].T < ps[j].T })
		var alts [][]byte
		list, _ := rlp.EncodeToBytes(ps)
		list = append([]byte{0}, list...)
		bals := [][]byte{list}
		if len(ps) == 0 {
			bals = [][]byte{{}}
			if a.zeroEntry {
				bals = append(bals, list)
			}
		}
		for _, b := range bals {
			e, err := rlp.EncodeToBytes([]interface{}{a.nonce, b, sroot, crypto.Keccak256([]byte(a.code)), []byte{byte(a.key >> 24), byte(a.key >> 16), byte(a.key >> 8), byte(a.key)}, []byte{}})
			if err != nil {
				rt.Fatal(err)
			}
			alts = append(alts, e)
		}
		encs = append(encs, enc{addr(k), alts})
	}
	r := map[common.Hash]bool{}
	n := 1
	for _, e := range encs {
		n *= len(e.alts)
	}
	for i := 0; i < n; i++ {
		tr, _ := trie.NewSecure(common.Hash{}, trie.NewDatabase(ethdb.NewMemDatabase()), 0)
		j := i
		for _, e := range encs {
			tr.Update(e.addr[:], e.alts[j%len(e.alts)])
			j /= len(e.alts)
		}
		r[tr.Hash()] = true
	}
	return r
}

// ---- system ----------------------------------------------------------------

const nacc = 4

var toks = []uint64{35760, 1, 1 << 50}
var codes = []string{"", "\x60\x00", "\x00\x01\x02", strings.Repeat("\x5b", 40)}

func addr(a int) common.Address { return common.BytesToAddress([]byte{0x71, byte(a + 1)}) }
func slot(i int) common.Hash    { return common.BytesToHash([]byte{0x55, byte(i)}) }

var allOps = []string{"add", "sub", "set", "nonce", "code", "store", "store", "store", "log", "refund", "subrefund", "preimage",
	"suicide", "create", "getnonce", "snap", "snap", "revert", "revert", "final", "iroot", "copy", "commit", "reload", "disk", "check", "reset"}

type snap struct {
	id int
	m  *model
}

type world struct {
	st    *state.StateDB
	m     *model
	snaps []snap
}

// check compares everything observable without creating accounts on the way.
func (w *world) check(rt *rapid.T, where string, full bool) {
	for a := 0; a < nacc; a++ {
		x := w.m.acc[a]
		ad := addr(a)
		if w.st.Exist(ad) != (x != nil) {
			rt.Fatalf("%s: account %d exists=%v, want %v", where, a, w.st.Exist(ad), x != nil)
		}
		if x == nil {
			x = &acct{}
			if !w.st.Empty(ad) || w.st.GetCodeHash(ad) != (common.Hash{}) {
				rt.Fatalf("%s: account %d does not exist but is not empty", where, a)
			}
		} else {
			if w.st.Empty(ad) != x.empty() {
				rt.Fatalf("%s: account %d empty=%v, want %v", where, a, w.st.Empty(ad), x.empty())
			}
			if w.st.GetNonce(ad) != x.nonce {
				rt.Fatalf("%s: account %d nonce %d, want %d", where, a, w.st.GetNonce(ad), x.nonce)
			}
			if w.st.GetFullShardKey(ad) != x.key {
				rt.Fatalf("%s: account %d shard key %x, want %x", where, a, w.st.GetFullShardKey(ad), x.key)
			}
			if w.st.GetCodeHash(ad) != crypto.Keccak256Hash([]byte(x.code)) {
				rt.Fatalf("%s: account %d has the wrong code hash", where, a)
			}
		}
		if w.st.HasSuicided(ad) != x.suicided {
			rt.Fatalf("%s: account %d suicided=%v, want %v", where, a, w.st.HasSuicided(ad), x.suicided)
		}
		for _, t := range toks {
			if w.st.GetBalance(ad, t).Cmp(new(big.Int).SetUint64(x.bal[t])) != 0 {
				rt.Fatalf("%s: account %d token %d: %v, want %d", where, a, t, w.st.GetBalance(ad, t), x.bal[t])
			}
		}
		if string(w.st.GetCode(ad)) != x.code || w.st.GetCodeSize(ad) != len(x.code) {
			rt.Fatalf("%s: account %d code %x (size %d), want %x", where, a, w.st.GetCode(ad), w.st.GetCodeSize(ad), x.code)
		}
		if !full {
			continue
		}
		for i := 0; i < 5; i++ {
			if w.st.GetState(ad, slot(i)) != x.storage[slot(i)] {
				rt.Fatalf("%s: account %d slot %d: %x, want %x", where, a, i, w.st.GetState(ad, slot(i)), x.storage[slot(i)])
			}
			if w.st.GetCommittedState(ad, slot(i)) != x.committed[slot(i)] {
				rt.Fatalf("%s: account %d slot %d committed: %x, want %x", where, a, i, w.st.GetCommittedState(ad, slot(i)), x.committed[slot(i)])
			}
		}
	}
	if w.st.GetRefund() != w.m.refund {
		rt.Fatalf("%s: refund %d, want %d", where, w.st.GetRefund(), w.m.refund)
	}
	byTx := map[common.Hash][]mlog{}
	for _, l := range w.m.logs {
		byTx[l.tx] = append(byTx[l.tx], l)
	}
	if len(w.st.Logs()) != len(w.m.logs) {
		rt.Fatalf("%s: %d logs, want %d", where, len(w.st.Logs()), len(w.m.logs))
	}
	for tx, want := range byTx {
		got := w.st.GetLogs(tx)
		if len(got) != len(want) {
			rt.Fatalf("%s: tx %x: %d logs, want %d", where, tx[:2], len(got), len(want))
		}
		for i := range got {
			g := mlog{got[i].Recipient[19], string(got[i].Data), got[i].TxHash, got[i].TxIndex, got[i].Index}
			if g != want[i] {
				rt.Fatalf("%s: log %d of tx %x: %v, want %v", where, i, tx[:2], g, want[i])
			}
		}
	}
	if len(w.st.Preimages()) != len(w.m.preimages) {
		rt.Fatalf("%s: %d preimages, want %d", where, len(w.st.Preimages()), len(w.m.preimages))
	}
	for h, p := range w.m.preimages {
		if string(w.st.Preimages()[h]) != p {
			rt.Fatalf("%s: preimage %x: %x", where, h, w.st.Preimages()[h])
		}
	}
}

func (w *world) checkRoot(rt *rapid.T, where string, root common.Hash) {
	if rs := w.m.roots(rt); !rs[root] {
		rt.Fatalf("%s: root %x is not the root of the contents (%d possible)", where, root, len(rs))
	}
}

func newWorld(rt *rapid.T, sdb state.Database) *world {
	st, err := state.New(common.Hash{}, sdb)
	if err != nil {
		rt.Fatal(err)
	}
	return &world{st: st, m: &model{acc: map[int]*acct{}, dirty: map[int]int{}, preimages: map[common.Hash]string{}}}
}

func TestHistories(t *testing.T) {
	vlib.Check(t, 6000, 150000, "the history contains a revert over at least one change, or a commit followed by further changes", func(rt *rapid.T, c *vlib.C) {
		disk := ethdb.NewMemDatabase()
		sdb := state.NewDatabase(disk)
		w := newWorld(rt, sdb)
		key := rapid.SampledFrom([]uint32{0, 1, 0x00020001, 0xffffffff}).Draw(rt, "shard key")
		w.st.SetFullShardKey(key)
		w.m.shardKey = key
		del := rapid.IntRange(0, 4).Draw(rt, "keep empty accounts") != 4
		var others []*world
		var log []string
		say := func(f string, a ...interface{}) { log = append(log, fmt.Sprintf(f, a...)) }
		reverted, reloaded := false, false
		n := rapid.SampledFrom([]int{4, 8, 16, 30, 60}).Draw(rt, "n")
		// most histories use only a few kinds of operation on few accounts, so that
		// the same ones meet each other often
		ops, accs := allOps, nacc
		if rapid.IntRange(0, 3).Draw(rt, "swarm") != 0 {
			ops = []string{"snap", "snap", "revert", "revert"}
			for j := rapid.IntRange(2, 5).Draw(rt, "kinds"); j > 0; j-- {
				ops = append(ops, rapid.SampledFrom(allOps).Draw(rt, "kind"))
			}
			accs = rapid.IntRange(1, 2).Draw(rt, "accs")
		}
		for i := 0; i < n; i++ {
			a := rapid.IntRange(0, accs-1).Draw(rt, "a")
			ad := addr(a)
			op := rapid.SampledFrom(ops).Draw(rt, "op")
			c.Label("op %s", op)
			switch op {
			case "add":
				tk := rapid.SampledFrom(toks).Draw(rt, "tok")
				v := rapid.SampledFrom([]uint64{0, 1, 7, 1 << 40}).Draw(rt, "v")
				w.st.AddBalance(ad, new(big.Int).SetUint64(v), tk)
				x := w.m.getOrNew(a)
				x.bal[tk] += v
				w.m.dirty[a]++
				if v != 0 {
					x.zeroEntry = true
				}
				say("add %d %d %d", a, tk, v)
			case "sub":
				tk := rapid.SampledFrom(toks).Draw(rt, "tok")
				v := uint64(0)
				if x := w.m.acc[a]; x != nil {
					v = x.bal[tk]
					if v > 0 && rapid.Bool().Draw(rt, "part") {
						v = (v + 1) / 2
					}
				}
				w.st.SubBalance(ad, new(big.Int).SetUint64(v), tk)
				x := w.m.getOrNew(a)
				x.bal[tk] -= v
				if v != 0 {
					w.m.dirty[a]++
				}
				say("sub %d %d %d", a, tk, v)
			case "set":
				tk := rapid.SampledFrom(toks).Draw(rt, "tok")
				v := rapid.SampledFrom([]uint64{0, 1, 9}).Draw(rt, "v")
				w.st.SetBalance(ad, new(big.Int).SetUint64(v), tk)
				x := w.m.getOrNew(a)
				x.bal[tk] = v
				x.zeroEntry = true
				w.m.dirty[a]++
				say("set %d %d %d", a, tk, v)
			case "nonce":
				v := rapid.Uint64Range(0, 3).Draw(rt, "v")
				w.st.SetNonce(ad, v)
				w.m.getOrNew(a).nonce = v
				w.m.dirty[a]++
				say("nonce %d %d", a, v)
			case "code":
				v := rapid.SampledFrom(codes).Draw(rt, "v")
				w.st.SetCode(ad, []byte(v))
				w.m.getOrNew(a).code = v
				w.m.dirty[a]++
				say("code %d %x", a, v)
			case "store":
				k := slot(rapid.IntRange(0, 4).Draw(rt, "k"))
				v := common.BytesToHash([]byte{rapid.SampledFrom([]byte{0, 0, 1, 2, 0x80}).Draw(rt, "v")})
				if rapid.IntRange(0, 4).Draw(rt, "wide") == 0 && v != (common.Hash{}) {
					v[0] = 0xff
				}
				w.st.SetState(ad, k, v)
				x := w.m.getOrNew(a)
				if x.storage[k] != v {
					w.m.dirty[a]++
				}
				if v == (common.Hash{}) {
					delete(x.storage, k)
				} else {
					x.storage[k] = v
				}
				say("store %d %x=%x", a, k[31], v)
			case "log":
				d := rapid.SampledFrom([]string{"", "x", "yy"}).Draw(rt, "d")
				w.st.AddLog(&types.Log{Recipient: ad, Data: []byte(d)})
				w.m.logs = append(w.m.logs, mlog{ad[19], d, w.m.tx, w.m.txIdx, uint32(len(w.m.logs))})
				say("log")
			case "refund":
				v := rapid.Uint64Range(0, 20000).Draw(rt, "v")
				w.st.AddRefund(v)
				w.m.refund += v
				say("refund %d", v)
			case "subrefund":
				v := w.m.refund / 2
				w.st.SubRefund(v)
				w.m.refund -= v
				say("subrefund %d", v)
			case "preimage":
				p := rapid.SampledFrom([]string{"", "p", "pp"}).Draw(rt, "p")
				h := crypto.Keccak256Hash([]byte(p))
				w.st.AddPreimage(h, []byte(p))
				w.m.preimages[h] = p
				say("preimage")
			case "suicide":
				ok := w.st.Suicide(ad)
				if ok != (w.m.acc[a] != nil) {
					rt.Fatalf("suicide of account %d says %v after %s", a, ok, strings.Join(log, "; "))
				}
				if x := w.m.acc[a]; x != nil {
					x.suicided = true
					x.bal = map[uint64]uint64{}
					x.zeroEntry = false
					w.m.dirty[a]++
				}
				say("suicide %d", a)
			case "create":
				// as the EVM does it: on accounts without code or nonce, then nonce 1
				if x := w.m.acc[a]; x != nil && (x.nonce != 0 || x.code != "" || x.suicided) {
					continue
				}
				w.st.CreateAccount(ad)
				w.st.SetNonce(ad, 1)
				x := w.m.getOrNew(a)
				x.nonce = 1
				x.storage = map[common.Hash]common.Hash{}
				x.committed = map[common.Hash]common.Hash{}
				w.m.dirty[a]++
				say("create %d", a)
			case "getnonce":
				want := uint64(0)
				if x := w.m.acc[a]; x != nil {
					want = x.nonce
				}
				if got := w.st.GetNonce(ad); got != want {
					rt.Fatalf("nonce of %d: %d, want %d after %s", a, got, want, strings.Join(log, "; "))
				}
				// reading may leave an empty account behind; it vanishes with the transaction
				if w.m.acc[a] == nil && w.st.Exist(ad) {
					w.m.getOrNew(a)
				}
				say("getnonce %d", a)
			case "snap":
				w.snaps = append(w.snaps, snap{w.st.Snapshot(), w.m.clone()})
				say("snap")
			case "revert":
				if len(w.snaps) == 0 {
					continue
				}
				k := rapid.IntRange(0, len(w.snaps)-1).Draw(rt, "k")
				w.st.RevertToSnapshot(w.snaps[k].id)
				tx, idx, sk := w.m.tx, w.m.txIdx, w.m.shardKey
				w.m = w.snaps[k].m
				w.m.tx, w.m.txIdx, w.m.shardKey = tx, idx, sk
				w.snaps = w.snaps[:k]
				reverted = true
				say("revert to %d", k)
				w.check(rt, strings.Join(log, "; "), rapid.Bool().Draw(rt, "full"))
			case "final", "iroot":
				w.m.finalise(del)
				w.snaps = nil
				say("%s %v", op, del)
				if op == "final" {
					w.st.Finalise(del)
				} else {
					w.checkRoot(rt, strings.Join(log, "; "), w.st.IntermediateRoot(del))
				}
				w.m.tx = common.BytesToHash([]byte{byte(i), 0xaa})
				w.m.txIdx = uint32(i)
				w.st.Prepare(w.m.tx, common.Hash{1}, i)
			case "copy":
				// the node copies states between transactions
				if len(w.m.dirty) != 0 {
					continue
				}
				cp := &world{st: w.st.Copy(), m: w.m.clone()}
				cp.st.SetFullShardKey(key)
				say("copy")
				if rapid.Bool().Draw(rt, "on") {
					others = append(others, &world{st: w.st, m: w.m})
					w = cp
					w.st.Prepare(w.m.tx, common.Hash{1}, int(w.m.txIdx))
				} else {
					others = append(others, cp)
				}
				w.snaps = nil
			case "commit", "reload", "disk", "reset":
				root, err := w.st.Commit(del)
				if err != nil {
					rt.Fatalf("commit: %v", err)
				}
				w.m.finalise(del)
				w.snaps = nil
				say("%s %v", op, del)
				w.checkRoot(rt, strings.Join(log, "; "), root)
				if op == "commit" {
					continue
				}
				if op == "reset" {
					if err := w.st.Reset(root); err != nil {
						rt.Fatal(err)
					}
				} else {
					if op == "disk" {
						if err := sdb.TrieDB().Commit(root, false); err != nil {
							rt.Fatal(err)
						}
						sdb = state.NewDatabase(disk)
						others = nil
					}
					w.st, err = state.New(root, sdb)
					if err != nil {
						rt.Fatalf("cannot reload: %v after %s", err, strings.Join(log, "; "))
					}
					w.st.SetFullShardKey(key)
				}
				reloaded = true
				w.m.logs = nil
				w.m.preimages = map[common.Hash]string{}
				w.m.tx, w.m.txIdx = common.Hash{}, 0
			case "check":
				w.check(rt, strings.Join(log, "; "), true)
				say("check")
			}
		}
		hist := strings.Join(log, "; ")
		w.check(rt, hist, true)
		for i, o := range others {
			o.check(rt, fmt.Sprintf("copy %d after %s", i, hist), true)
		}
		w.m.finalise(del)
		root, err := w.st.Commit(del)
		if err != nil {
			rt.Fatal(err)
		}
		w.checkRoot(rt, hist, root)
		for i, o := range others {
			o.check(rt, fmt.Sprintf("copy %d after commit, after %s", i, hist), true)
			o.m.finalise(del)
			r2, err := o.st.Commit(del)
			if err != nil {
				rt.Fatal(err)
			}
			o.checkRoot(rt, fmt.Sprintf("copy %d after %s", i, hist), r2)
		}
		if err := sdb.TrieDB().Commit(root, false); err != nil {
			rt.Fatal(err)
		}
		st, err := state.New(root, state.NewDatabase(disk))
		if err != nil {
			rt.Fatal(err)
		}
		w.st = st
		w.m.logs, w.m.preimages = nil, nil
		w.check(rt, "reopened from disk after "+hist, true)
		if reverted || reloaded {
			c.NonTrivial("%s", hist)
			c.Sample("%s", hist)
		}
	})
}
