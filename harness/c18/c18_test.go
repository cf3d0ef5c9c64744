// Package c18: what is written to the store is read back, and nothing else is.
// The key-value stores run against a map; the chain records against a model of
// every kind of record, checked completely after every operation.
package c18

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"reflect"
	"sort"
	"testing"

	"github.com/QuarkChain/goquarkchain/cluster/config"
	"github.com/QuarkChain/goquarkchain/cluster/service"
	"github.com/QuarkChain/goquarkchain/core/rawdb"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/qkcdb"
	"github.com/QuarkChain/goquarkchain/zzverif/chainenv"
	"github.com/QuarkChain/goquarkchain/zzverif/gen"
	"github.com/QuarkChain/goquarkchain/zzverif/vlib"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/ethdb"
	"pgregory.net/rapid"
)

func pick[T any](rt *rapid.T, n string, v ...T) T { return rapid.SampledFrom(v).Draw(rt, n) }

// store is a database that can be closed and opened again.
type store struct {
	db   ethdb.Database
	dir  string
	kind string
}

func open(rt *rapid.T, kind string) *store {
	s := &store{kind: kind}
	if kind == "memory" {
		s.db = service.NewQkcMemoryDB(false)
		return s
	}
	d, err := os.MkdirTemp("", "c18")
	if err != nil {
		rt.Fatal(err)
	}
	s.dir = d
	s.reopen(rt, true, false)
	return s
}

func (s *store) reopen(rt *rapid.T, clean, ro bool) {
	if s.db != nil {
		s.db.Close()
	}
	db, err := qkcdb.NewDatabase(s.dir+"/db", clean, ro)
	if err != nil {
		rt.Fatalf("open: %v", err)
	}
	s.db = db
}

func (s *store) close() {
	s.db.Close()
	if s.dir != "" {
		os.RemoveAll(s.dir)
	}
}

func genKey(rt *rapid.T) []byte {
	switch pick(rt, "key form", 0, 0, 1, 2) {
	case 0: // few, sharing prefixes
		return rapid.SampledFrom([][]byte{{1}, {1, 0}, {1, 0, 0}, {1, 0xff}, {0}, {0xff}, {0xff, 0xff}, []byte("h"), []byte("ha")}).Draw(rt, "key")
	case 1:
		return gen.BytesN(rt, 33)
	}
	return gen.Bytes(rt, 1, 40)
}

// TestStore runs the stores against a map.
func TestStore(t *testing.T) {
	vlib.Check(t, 200, 6000, "a batch with a deletion and an overwritten key was written, and the store reopened or emptied", func(rt *rapid.T, c *vlib.C) {
		kind := pick(rt, "store", "memory", "level", "level", "level")
		s := open(rt, kind)
		defer func() { s.close() }()
		m := map[string][]byte{}
		type op struct {
			k, v []byte
			del  bool
		}
		type batch struct {
			b   ethdb.Batch
			ops []op
		}
		var bs []*batch
		reopened, batched := 0, false
		what := ""
		check := func(k []byte) {
			want, in := m[string(k)]
			has, err := s.db.Has(k)
			if err != nil || has != in {
				rt.Fatalf("%s: has %x: %v (%v), expected %v", kind, k, has, err, in)
			}
			got, err := s.db.Get(k)
			if in && (err != nil || !bytes.Equal(got, want)) {
				rt.Fatalf("%s: %x reads %x (%v), written %x", kind, k, got, err, want)
			}
			if !in && (err == nil || len(got) != 0) {
				rt.Fatalf("%s: %x reads %x, it was never written or was deleted", kind, k, got)
			}
		}
		for n := rapid.IntRange(5, 40).Draw(rt, "ops"); n > 0; n-- {
			switch o := pick(rt, "op", "put", "put", "put", "del", "batch", "bput", "bput", "bput", "bdel", "write", "write", "reset", "reopen", "clean", "readonly", "scan"); o {
			case "put":
				k, v := genKey(rt), gen.Bytes(rt, 1, 60)
				kk, vv := append([]byte{}, k...), append([]byte{}, v...)
				if err := s.db.Put(kk, vv); err != nil {
					rt.Fatalf("put: %v", err)
				}
				// the caller may reuse its slices
				kk[0] ^= 0x55
				vv[0] ^= 0x55
				m[string(k)] = v
				what += "p"
			case "del":
				k := genKey(rt)
				if err := s.db.Delete(k); err != nil {
					rt.Fatalf("delete: %v", err)
				}
				delete(m, string(k))
				what += "d"
			case "batch":
				bs = append(bs, &batch{b: s.db.NewBatch()})
				what += "B"
			case "bput", "bdel", "write", "reset":
				if len(bs) == 0 {
					bs = append(bs, &batch{b: s.db.NewBatch()})
				}
				b := bs[rapid.IntRange(0, len(bs)-1).Draw(rt, "which")]
				switch o {
				case "bput":
					k, v := genKey(rt), gen.Bytes(rt, 1, 60)
					kk, vv := append([]byte{}, k...), append([]byte{}, v...)
					if err := b.b.Put(kk, vv); err != nil {
						rt.Fatalf("batch put: %v", err)
					}
					kk[0] ^= 0x55
					vv[0] ^= 0x55
					b.ops = append(b.ops, op{k: k, v: v})
				case "bdel":
					k := genKey(rt)
					if err := b.b.Delete(k); err != nil {
						rt.Fatalf("batch delete: %v", err)
					}
					b.ops = append(b.ops, op{k: k, del: true})
				case "write":
					if err := b.b.Write(); err != nil {
						rt.Fatalf("batch write: %v", err)
					}
					seen, over, del := map[string]bool{}, false, false
					for _, x := range b.ops {
						over = over || seen[string(x.k)]
						seen[string(x.k)] = true
						if x.del {
							del = true
							delete(m, string(x.k))
						} else {
							m[string(x.k)] = x.v
						}
					}
					batched = batched || over && del
					if pick(rt, "again", true, false) {
						b.b.Reset()
						b.ops = nil
					}
				case "reset":
					b.b.Reset()
					b.ops = nil
					if b.b.ValueSize() != 0 {
						rt.Fatalf("a reset batch has size %d", b.b.ValueSize())
					}
				}
				what += o[:2]
			case "reopen":
				if kind == "level" {
					s.reopen(rt, false, false)
					bs = nil
					reopened++
					what += "R"
				}
			case "clean":
				if kind == "level" && pick(rt, "really", 0, 0, 1) == 1 {
					s.reopen(rt, true, false)
					bs = nil
					m = map[string][]byte{}
					reopened++
					what += "C"
				}
			case "readonly": // puts change nothing
				k := genKey(rt)
				if kind == "level" {
					s.reopen(rt, false, true)
					bs = nil
				} else {
					s.db.(*service.QkcMemoryDB).SetIsReadOnly(true)
				}
				if err := s.db.Put(k, []byte{1, 2, 3}); err != nil {
					rt.Fatalf("put on a read-only store: %v", err)
				}
				check(k)
				if kind == "level" {
					s.reopen(rt, false, false)
				} else {
					s.db.(*service.QkcMemoryDB).SetIsReadOnly(false)
				}
				check(k)
				what += "r"
			case "scan":
				if l, ok := s.db.(*qkcdb.QKCDataBase); ok {
					var want []string
					for k := range m {
						want = append(want, k)
					}
					sort.Strings(want)
					from := ""
					if pick(rt, "seek", true, false) {
						from = string(genKey(rt))
					}
					i := sort.SearchStrings(want, from)
					it := l.NewIterator()
					for ok := it.Seek([]byte(from)); ok; ok = it.Next() {
						if i >= len(want) || string(it.Key()) != want[i] || !bytes.Equal(it.Value(), m[want[i]]) {
							rt.Fatalf("scan from %x, entry %d: %x=%x", from, i, it.Key(), it.Value())
						}
						i++
					}
					it.Release()
					if i != len(want) {
						rt.Fatalf("scan from %x ends %d entries early", from, len(want)-i)
					}
					what += "s"
				}
			}
			check(genKey(rt))
		}
		if kind == "level" {
			s.reopen(rt, false, false)
		}
		for k := range m {
			check([]byte(k))
		}
		if mem, ok := s.db.(*service.QkcMemoryDB); ok && mem.Len() != len(m) {
			rt.Fatalf("%d keys stored, %d expected", mem.Len(), len(m))
		}
		c.Label("store %s", kind)
		if batched && (reopened > 0 || kind == "memory") {
			c.NonTrivial("%s %s", kind, what)
			c.Sample("%s: %s, %d keys at the end", kind, what, len(m))
		}
	})
}

// kind of record: how it is read, with "" for absent.
type kind struct {
	name  string
	keyed func(*rapid.T, *world) string             // draws a key
	write func(*rapid.T, *world, string) (any, bool) // returns what must be read
	read  func(*world, string) any
	del   func(*world, string)
}

type world struct {
	s    *store
	db   ethdb.Database
	pool []common.Hash
	// records: kind -> key -> value
	rec map[string]map[string]any
	// objects written under their own hash
	mh map[string]*types.MinorBlockHeader
}

func h(k string) common.Hash { return common.BytesToHash([]byte(k)) }

func (w *world) hash(rt *rapid.T) string {
	x := w.pool[rapid.IntRange(0, len(w.pool)-1).Draw(rt, "hash")]
	return string(x[:])
}

func byHash(rt *rapid.T, w *world) string { return w.hash(rt) }

func one(*rapid.T, *world) string { return "" }

func val(rt *rapid.T, v any) reflect.Value {
	return gen.Value(rt, reflect.TypeOf(v), &gen.Options{MaxList: 3}).Addr()
}

func nilIf(v any) any {
	if x := reflect.ValueOf(v); (x.Kind() == reflect.Ptr || x.Kind() == reflect.Slice) && x.IsNil() {
		return nil
	}
	return v
}

func zero(x common.Hash) any {
	if x == (common.Hash{}) {
		return nil
	}
	return x
}

// same compares what was written with what was read.
func same(a, b any) string {
	if (a == nil) != (b == nil) {
		return fmt.Sprintf("written %v, read %v", short(a), short(b))
	}
	if a == nil {
		return ""
	}
	if reflect.TypeOf(a) != reflect.TypeOf(b) {
		return fmt.Sprintf("written %T, read %T", a, b)
	}
	switch reflect.TypeOf(a).Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Struct:
		return gen.Equal(reflect.ValueOf(a), reflect.ValueOf(b))
	}
	if a != b {
		return fmt.Sprintf("written %v, read %v", short(a), short(b))
	}
	return ""
}

func short(a any) string {
	s := fmt.Sprintf("%v", a)
	if len(s) > 120 {
		s = s[:120]
	}
	return s
}

func listRec(name string, wr func(rawdb.DatabaseWriter, common.Hash, *types.CrossShardTransactionDepositList), rd func(rawdb.DatabaseReader, common.Hash) *types.CrossShardTransactionDepositList) *kind {
	return &kind{name: name, keyed: byHash,
		write: func(rt *rapid.T, w *world, k string) (any, bool) {
			v := val(rt, types.CrossShardTransactionDepositList{}).Interface().(*types.CrossShardTransactionDepositList)
			wr(w.db, h(k), v)
			return v, true
		},
		read: func(w *world, k string) any { return nilIf(rd(w.db, h(k))) }}
}

func hashRec(name string, wr func(rawdb.DatabaseWriter, common.Hash), rd func(rawdb.DatabaseReader) common.Hash, del func(rawdb.DatabaseDeleter)) *kind {
	x := &kind{name: name, keyed: one,
		write: func(rt *rapid.T, w *world, k string) (any, bool) {
			v := h(w.hash(rt))
			wr(w.db, v)
			return zero(v), true
		},
		read: func(w *world, k string) any { return zero(rd(w.db)) }}
	if del != nil {
		x.del = func(w *world, k string) { del(w.db) }
	}
	return x
}

func canonical(name string, ct rawdb.ChainType) *kind {
	num := func(k string) uint64 { return common.BytesToHash([]byte(k)).Big().Uint64() }
	return &kind{name: name, keyed: func(rt *rapid.T, w *world) string {
		return string(common.BigToHash(new(common.Hash).Big().SetUint64(pick(rt, "num", uint64(0), 1, 255, 256, 1<<32, math.MaxUint64))).Bytes())
	},
		write: func(rt *rapid.T, w *world, k string) (any, bool) {
			v := h(w.hash(rt))
			rawdb.WriteCanonicalHash(w.db, ct, v, num(k))
			return zero(v), true
		},
		read: func(w *world, k string) any { return zero(rawdb.ReadCanonicalHash(w.db, ct, num(k))) },
		del:  func(w *world, k string) { rawdb.DeleteCanonicalHash(w.db, ct, num(k)) }}
}

type lookup struct {
	Hash  common.Hash
	Index uint32
}

var kinds = []*kind{
	canonical("root hash at height", rawdb.ChainTypeRoot),
	canonical("minor hash at height", rawdb.ChainTypeMinor),
	hashRec("head header", rawdb.WriteHeadHeaderHash, rawdb.ReadHeadHeaderHash, nil),
	hashRec("head block", rawdb.WriteHeadBlockHash, rawdb.ReadHeadBlockHash, nil),
	hashRec("head fast block", rawdb.WriteHeadFastBlockHash, rawdb.ReadHeadFastBlockHash, nil),
	hashRec("committing root block", rawdb.WriteRootBlockCommittingHash, rawdb.ReadRbCommittingHash, rawdb.DeleteRbCommittingHash),
	{name: "trie progress", keyed: one,
		write: func(rt *rapid.T, w *world, k string) (any, bool) {
			v := gen.U64(rt)
			if v == 0 {
				v = 1
			}
			rawdb.WriteFastTrieProgress(w.db, v)
			return v, true
		},
		read: func(w *world, k string) any {
			if v := rawdb.ReadFastTrieProgress(w.db); v != 0 {
				return v
			}
			return nil
		}},
	{name: "database version", keyed: one,
		write: func(rt *rapid.T, w *world, k string) (any, bool) {
			v := pick(rt, "version", uint32(1), 3, math.MaxUint32)
			rawdb.WriteDatabaseVersion(w.db, v)
			return v, true
		},
		read: func(w *world, k string) any {
			if v := rawdb.ReadDatabaseVersion(w.db); v != 0 {
				return v
			}
			return nil
		}},
	{name: "latest minor headers", keyed: byHash,
		write: func(rt *rapid.T, w *world, k string) (any, bool) {
			v := []*types.MinorBlockHeader{}
			for n := pick(rt, "n", 0, 1, 3); n > 0; n-- {
				v = append(v, val(rt, types.MinorBlockHeader{}).Interface().(*types.MinorBlockHeader))
			}
			rawdb.WriteLatestMinorBlockHeaders(w.db, h(k), v)
			return v, true
		},
		read: func(w *world, k string) any { return nilIf(rawdb.ReadLatestMinorBlockHeaders(w.db, h(k))) },
		del:  func(w *world, k string) { rawdb.DeleteLatestMinorBlockHeaders(w.db, h(k)) }},
	{name: "receipts", keyed: byHash,
		write: func(rt *rapid.T, w *world, k string) (any, bool) {
			v := types.Receipts{}
			for n := pick(rt, "n", 0, 1, 2); n > 0; n-- {
				r := val(rt, types.Receipt{}).Interface().(*types.Receipt)
				if pick(rt, "post", 0, 0, 1) == 1 {
					r.PostState, r.Status = gen.BytesN(rt, 32), 0
				} else {
					r.PostState, r.Status = []byte{}, uint64(pick(rt, "st", 0, 1))
				}
				for _, l := range r.Logs {
					l.Removed = false
				}
				v = append(v, r)
			}
			rawdb.WriteReceipts(w.db, h(k), v)
			return v, true
		},
		read: func(w *world, k string) any {
			v := rawdb.ReadReceipts(w.db, h(k))
			if rawdb.HasReceipts(w.db, h(k)) != (v != nil) {
				return "receipts claimed present or absent wrongly"
			}
			return nilIf(v)
		},
		del: func(w *world, k string) { rawdb.DeleteReceipts(w.db, h(k)) }},
	{name: "total transactions", keyed: byHash,
		write: func(rt *rapid.T, w *world, k string) (any, bool) {
			v := rapid.Uint32().Draw(rt, "n")
			rawdb.WriteTotalTx(w.db, h(k), v)
			return &v, true
		},
		read: func(w *world, k string) any { return nilIf(rawdb.ReadTotalTx(w.db, h(k))) }},
	{name: "genesis", keyed: byHash,
		write: func(rt *rapid.T, w *world, k string) (any, bool) {
			v := val(rt, types.MinorBlock{}).Interface().(*types.MinorBlock)
			rawdb.WriteGenesisBlock(w.db, h(k), v)
			return v, true
		},
		read: func(w *world, k string) any { return nilIf(rawdb.ReadGenesis(w.db, h(k))) }},
	listRec("confirmed deposits", rawdb.WriteConfirmedCrossShardTxList, rawdb.ReadConfirmedCrossShardTxList),
	listRec("deposits", rawdb.WriteCrossShardTxList, rawdb.ReadCrossShardTxList),
	{name: "last confirmed minor", keyed: byHash,
		write: func(rt *rapid.T, w *world, k string) (any, bool) {
			v := h(w.hash(rt))
			rawdb.WriteLastConfirmedMinorBlockHeaderAtRootBlock(w.db, h(k), v)
			return zero(v), true
		},
		read: func(w *world, k string) any {
			return zero(rawdb.ReadLastConfirmedMinorBlockHeaderAtRootBlock(w.db, h(k)))
		}},
	{name: "minor count", keyed: func(rt *rapid.T, w *world) string {
		return fmt.Sprintf("%d %d", pick(rt, "shard", uint32(1), 0x10001, 0x1000100), pick(rt, "h", uint32(0), 1, 0x10001, 1<<31))
	},
		write: func(rt *rapid.T, w *world, k string) (any, bool) {
			var a, b uint32
			fmt.Sscanf(k, "%d %d", &a, &b)
			v := gen.Bytes(rt, 1, 20)
			rawdb.WriteMinorBlockCnt(w.db, a, b, v)
			return v, true
		},
		read: func(w *world, k string) any {
			var a, b uint32
			fmt.Sscanf(k, "%d %d", &a, &b)
			if v := rawdb.GetMinorBlockCnt(w.db, a, b); len(v) > 0 {
				return v
			}
			return nil
		}},
	{name: "minor coinbase", keyed: byHash,
		write: func(rt *rapid.T, w *world, k string) (any, bool) {
			v := types.NewTokenBalancesWithMap(gen.BalanceMap(rt, 4))
			rawdb.WriteMinorBlockCoinbase(w.db, h(k), v)
			return v, true
		},
		read: func(w *world, k string) any {
			v := rawdb.GetMinorBlockCoinbaseToken(w.db, h(k))
			if rawdb.ContainMinorBlockByHash(w.db, h(k)) != (v != nil) {
				return "coinbase claimed present or absent wrongly"
			}
			return nilIf(v)
		}},
	{name: "confirming root block", keyed: func(rt *rapid.T, w *world) string {
		return w.hash(rt) + string(pick(rt, "branch", []byte{0, 0, 0, 1}, []byte{0, 1, 0, 1}))
	},
		write: func(rt *rapid.T, w *world, k string) (any, bool) {
			v := h(w.hash(rt))
			rawdb.PutRootBlockConfirmingMinorBlock(w.db, []byte(k), v)
			return zero(v), true
		},
		read: func(w *world, k string) any { return zero(rawdb.GetRootBlockConfirmingMinorBlock(w.db, []byte(k))) },
		del:  func(w *world, k string) { rawdb.DeleteRootBlockConfirmingMinorBlock(w.db, []byte(k)) }},
	{name: "deposit hashes", keyed: byHash,
		write: func(rt *rapid.T, w *world, k string) (any, bool) {
			v := val(rt, rawdb.HashList{}).Interface().(*rawdb.HashList)
			rawdb.PutXShardDepositHashList(w.db, h(k), v)
			return v, true
		},
		read: func(w *world, k string) any { return nilIf(rawdb.GetXShardDepositHashList(w.db, h(k))) }},
	{name: "commit mark", keyed: byHash,
		write: func(rt *rapid.T, w *world, k string) (any, bool) {
			rawdb.WriteCommitMinorBlock(w.db, h(k))
			return true, true
		},
		read: func(w *world, k string) any {
			if rawdb.HasCommitMinorBlock(w.db, h(k)) {
				return true
			}
			return nil
		},
		del: func(w *world, k string) { rawdb.DeleteMinorBlockCommitStatus(w.db, h(k)) }},
	{name: "preimage", keyed: byHash,
		write: func(rt *rapid.T, w *world, k string) (any, bool) {
			v := gen.Bytes(rt, 1, 40)
			rawdb.WritePreimages(w.db, map[common.Hash][]byte{h(k): v})
			return v, true
		},
		read: func(w *world, k string) any {
			if v := rawdb.ReadPreimage(w.db, h(k)); len(v) > 0 {
				return v
			}
			return nil
		}},
	{name: "bloom bits", keyed: func(rt *rapid.T, w *world) string {
		return fmt.Sprintf("%d %d %x", pick(rt, "bit", 0, 1, 2047), pick(rt, "section", 0, 1, 256), w.hash(rt))
	},
		write: func(rt *rapid.T, w *world, k string) (any, bool) {
			var a uint
			var b uint64
			var x []byte
			fmt.Sscanf(k, "%d %d %x", &a, &b, &x)
			v := gen.Bytes(rt, 1, 40)
			rawdb.WriteBloomBits(w.db, a, b, common.BytesToHash(x), v)
			return v, true
		},
		read: func(w *world, k string) any {
			var a uint
			var b uint64
			var x []byte
			fmt.Sscanf(k, "%d %d %x", &a, &b, &x)
			v, err := rawdb.ReadBloomBits(w.db, a, b, common.BytesToHash(x))
			if err != nil {
				return nil
			}
			return v
		}},
	{name: "chain config", keyed: byHash,
		write: func(rt *rapid.T, w *world, k string) (any, bool) {
			q := chainenv.MakeConfig(chainenv.Opt{ChainSize: pick(rt, "chains", uint32(1), 2), ShardSize: 1}).Quarkchain
			q.NetworkID = rapid.Uint32().Draw(rt, "net")
			rawdb.WriteChainConfig(w.db, h(k), q)
			return asJSON(q), true
		},
		read: func(w *world, k string) any {
			q := rawdb.ReadChainConfig(w.db, h(k))
			if q == nil {
				return nil
			}
			return asJSON(q)
		}},
}

func asJSON(q *config.QuarkChainConfig) string {
	b, err := json.Marshal(q)
	if err != nil {
		panic(err)
	}
	var m map[string]any
	if err := json.Unmarshal(b, &m); err != nil {
		panic(err)
	}
	delete(m, "_") // the key, in another spelling
	// chains come in any order
	l := m["CHAINS"].([]any)
	sort.Slice(l, func(i, j int) bool {
		return l[i].(map[string]any)["CHAIN_ID"].(float64) < l[j].(map[string]any)["CHAIN_ID"].(float64)
	})
	b, _ = json.Marshal(m)
	return string(b)
}

// TestRecords writes, overwrites and deletes chain records of every kind and
// reads every record of every kind back each time.
func TestRecords(t *testing.T) {
	vlib.Check(t, 250, 8000, "ten kinds of record present at once under shared hashes, some deleted", func(rt *rapid.T, c *vlib.C) {
		w := &world{s: open(rt, pick(rt, "store", "memory", "memory", "level")), rec: map[string]map[string]any{}}
		defer func() { w.s.close() }()
		w.db = w.s.db
		for i := 0; i < 2; i++ {
			w.pool = append(w.pool, gen.Hash(rt))
		}
		// hashes that look like other kinds' prefixes
		for _, p := range []string{"mh", "n\x00\x00\x00\x00\x00\x00\x00\x01", "enesis", "mB", "ecure-key-"} {
			w.pool = append(w.pool, common.BytesToHash(append([]byte(p), gen.BytesN(rt, 32)...)[:32]))
		}
		var mins []*types.MinorBlock
		var roots []*types.RootBlock
		for i := 0; i < 2; i++ {
			m := val(rt, types.MinorBlock{}).Interface().(*types.MinorBlock)
			r := val(rt, types.RootBlock{}).Interface().(*types.RootBlock)
			mins, roots = append(mins, m), append(roots, r)
			w.pool = append(w.pool, m.Hash(), r.Hash())
		}
		uni := map[string]map[string]bool{}
		set := func(kind, key string, v any) {
			if w.rec[kind] == nil {
				w.rec[kind] = map[string]any{}
			}
			if v == nil {
				delete(w.rec[kind], key)
			} else {
				w.rec[kind][key] = v
			}
		}
		get := func(kind, key string) any { return w.rec[kind][key] }
		str := func(x common.Hash) string { return string(x[:]) }
		deleted := 0
		what := ""
		most := 0
		for n := rapid.SampledFrom([]int{8, 25, 45, 60}).Draw(rt, "ops"); n > 0; n-- {
			switch pick(rt, "op", "write", "write", "write", "write", "delete", "block", "block", "unblock", "lookup", "unlookup", "reopen") {
			case "write":
				k := kinds[rapid.IntRange(0, len(kinds)-1).Draw(rt, "kind")]
				key := k.keyed(rt, w)
				v, _ := k.write(rt, w, key)
				if uni[k.name] == nil {
					uni[k.name] = map[string]bool{}
				}
				uni[k.name][key] = true
				set(k.name, key, v)
				what += "w:" + k.name + " "
			case "delete":
				k := kinds[rapid.IntRange(0, len(kinds)-1).Draw(rt, "kind")]
				if k.del == nil {
					continue
				}
				key := k.keyed(rt, w)
				k.del(w, key)
				if get(k.name, key) != nil {
					deleted++
				}
				set(k.name, key, nil)
				what += "d:" + k.name + " "
			case "block":
				i := rapid.IntRange(0, 1).Draw(rt, "which")
				switch pick(rt, "what", "mheader", "mblock", "rheader", "rblock") {
				case "mheader":
					rawdb.WriteMinorBlockHeader(w.db, mins[i].Header())
					set("minor header", str(mins[i].Hash()), mins[i].Header())
				case "mblock":
					rawdb.WriteMinorBlock(w.db, mins[i])
					set("minor block", str(mins[i].Hash()), mins[i])
				case "rheader":
					rawdb.WriteRootBlockHeader(w.db, roots[i].Header())
					set("root header", str(roots[i].Hash()), roots[i].Header())
				case "rblock":
					rawdb.WriteRootBlock(w.db, roots[i])
					set("root block", str(roots[i].Hash()), roots[i])
				}
			case "unblock":
				i := rapid.IntRange(0, 1).Draw(rt, "which")
				mh, rh := mins[i].Hash(), roots[i].Hash()
				switch pick(rt, "what", "mheader", "mblock", "rheader", "rblock") {
				case "mheader":
					rawdb.DeleteMinorBlockHeader(w.db, mh)
					set("minor header", str(mh), nil)
				case "mblock": // with its receipts and commit mark
					rawdb.DeleteMinorBlock(w.db, mh)
					set("minor block", str(mh), nil)
					set("receipts", str(mh), nil)
					set("commit mark", str(mh), nil)
				case "rheader":
					rawdb.DeleteRootBlockHeader(w.db, rh)
					set("root header", str(rh), nil)
				case "rblock":
					rawdb.DeleteRootBlock(w.db, rh)
					set("root block", str(rh), nil)
					set("latest minor headers", str(rh), nil)
				}
				deleted++
			case "lookup":
				i := rapid.IntRange(0, 1).Draw(rt, "which")
				var hl *rawdb.HashList
				if pick(rt, "hl", true, false) {
					hl = &rawdb.HashList{HList: []common.Hash{h(w.hash(rt)), h(w.hash(rt))}}
				}
				var b types.IBlock = mins[i]
				if pick(rt, "root", true, false) {
					b = roots[i]
				}
				rawdb.WriteBlockContentLookupEntriesWithCrossShardHashList(w.db, b, hl)
				p := uint32(0)
				for _, x := range b.Content() {
					set("lookup", str(x.Hash()), lookup{b.Hash(), p})
					p++
				}
				if hl != nil {
					for _, x := range hl.HList {
						set("lookup", str(x), lookup{b.Hash(), p})
						p++
					}
				}
				what += "lookup "
			case "unlookup":
				k := w.hash(rt)
				rawdb.DeleteBlockContentLookupEntry(w.db, h(k))
				set("lookup", k, nil)
			case "reopen":
				if w.s.kind == "level" {
					w.s.reopen(rt, false, false)
					w.db = w.s.db
				}
			}
			// everything, every time
			present := 0
			for _, k := range kinds {
				keys := uni[k.name]
				for key := range keys {
					if d := same(get(k.name, key), k.read(w, key)); d != "" {
						rt.Fatalf("%s of %x: %s", k.name, key, d)
					}
				}
				if len(w.rec[k.name]) > 0 {
					present++
				}
			}
			for _, x := range w.pool {
				key := str(x)
				for _, k := range kinds {
					if reflect.ValueOf(k.keyed).Pointer() == reflect.ValueOf(byHash).Pointer() {
						if d := same(get(k.name, key), k.read(w, key)); d != "" {
							rt.Fatalf("%s of %x: %s", k.name, key, d)
						}
					}
				}
				var want any
				if v, ok := w.rec["lookup"][key]; ok {
					want = v
				}
				bh, ix := rawdb.ReadBlockContentLookupEntry(w.db, x)
				if want == nil && (bh != common.Hash{} || ix != 0) || want != nil && want.(lookup) != (lookup{bh, ix}) {
					rt.Fatalf("lookup of %x: %x %d, written %v", x, bh, ix, want)
				}
			}
			for i := range mins {
				mh, rh := mins[i].Hash(), roots[i].Hash()
				if d := same(get("minor header", str(mh)), nilIf(rawdb.ReadMinorBlockHeader(w.db, mh))); d != "" {
					rt.Fatalf("minor header: %s", d)
				}
				if d := same(get("minor block", str(mh)), nilIf(rawdb.ReadMinorBlock(w.db, mh))); d != "" {
					rt.Fatalf("minor block: %s", d)
				}
				if d := same(get("root header", str(rh)), nilIf(rawdb.ReadRootBlockHeader(w.db, rh))); d != "" {
					rt.Fatalf("root header: %s", d)
				}
				if d := same(get("root block", str(rh)), nilIf(rawdb.ReadRootBlock(w.db, rh))); d != "" {
					rt.Fatalf("root block: %s", d)
				}
				num := func(x common.Hash, there any, n uint64) {
					got := rawdb.ReadHeaderNumber(w.db, x)
					if (got == nil) != (there == nil) || got != nil && *got != n || rawdb.HasHeader(w.db, x) != (there != nil) {
						rt.Fatalf("height of %x reads %v, header present: %v", x, got, there != nil)
					}
				}
				num(mh, get("minor header", str(mh)), mins[i].NumberU64())
				num(rh, get("root header", str(rh)), roots[i].NumberU64())
				if rawdb.HasBlock(w.db, mh) != (get("minor block", str(mh)) != nil) || rawdb.HasBlock(w.db, rh) != (get("root block", str(rh)) != nil) {
					rt.Fatalf("a block is claimed present or absent wrongly")
				}
				// through the lookup to the content
				for j, tx := range mins[i].Transactions() {
					l, ok := get("lookup", str(tx.Hash())).(lookup)
					if ok && l.Hash == mh && l.Index == uint32(j) && get("minor block", str(mh)) != nil {
						got, bh, ix := rawdb.ReadTransaction(w.db, tx.Hash())
						if got == nil || got.Hash() != tx.Hash() || bh != mh || int(ix) != j {
							rt.Fatalf("transaction %d of %x is not found through its lookup entry: %v %x %d", j, mh, got, bh, ix)
						}
					}
				}
				for j, x := range roots[i].MinorBlockHeaders() {
					l, ok := get("lookup", str(x.Hash())).(lookup)
					if ok && l.Hash == rh && l.Index == uint32(j) && get("root block", str(rh)) != nil {
						got, bh, ix := rawdb.ReadMinorHeaderFromRootBlock(w.db, x.Hash())
						if got == nil || got.Hash() != x.Hash() || bh != rh || int(ix) != j {
							rt.Fatalf("minor header %d of root block %x is not found through its lookup entry", j, rh)
						}
					}
				}
			}
			if present > most {
				most = present
			}
		}
		c.Label("kinds at once: %d", most/4*4)
		if most >= 10 && deleted > 0 {
			c.NonTrivial("%s", what)
			c.Sample("%s store, up to %d kinds of record at once, %d deletions: %.300s", w.s.kind, most, deleted, what)
		}
	})
}

// TestAncestor compares the common ancestor with a walk over a generated tree.
func TestAncestor(t *testing.T) {
	vlib.Check(t, 400, 8000, "two different branches of different length", func(rt *rapid.T, c *vlib.C) {
		db := ethdb.NewMemDatabase()
		n := rapid.IntRange(1, 25).Draw(rt, "blocks")
		par := []int{-1}
		ms := []*types.MinorBlockHeader{{Number: 0, Difficulty: common.Big1}}
		rs := []*types.RootBlockHeader{{Number: 0, Difficulty: common.Big1}}
		num := []uint64{0}
		for i := 1; i < n; i++ {
			p := i - 1
			if pick(rt, "branch", 0, 0, 1) == 1 {
				p = rapid.IntRange(0, i-1).Draw(rt, "parent")
			}
			par, num = append(par, p), append(num, num[p]+1)
			ms = append(ms, &types.MinorBlockHeader{Number: num[i], ParentHash: ms[p].Hash(), Time: uint64(i), Difficulty: common.Big1})
			rs = append(rs, &types.RootBlockHeader{Number: uint32(num[i]), ParentHash: rs[p].Hash(), Time: uint64(i), Difficulty: common.Big1})
		}
		for i := range ms {
			rawdb.WriteMinorBlockHeader(db, ms[i])
			rawdb.WriteRootBlockHeader(db, rs[i])
		}
		a, b := rapid.IntRange(0, n-1).Draw(rt, "a"), rapid.IntRange(0, n-1).Draw(rt, "b")
		x, y := a, b
		for x != y {
			if x > y { // parents come first
				x = par[x]
			} else {
				y = par[y]
			}
		}
		if got := rawdb.FindCommonMinorAncestor(db, ms[a], ms[b]); got == nil || got.Hash() != ms[x].Hash() {
			rt.Fatalf("common ancestor of %d and %d: %v, expected %d (parents %v)", a, b, got, x, par)
		}
		if got := rawdb.FindCommonRootAncestor(db, rs[a], rs[b]); got == nil || got.Hash() != rs[x].Hash() {
			rt.Fatalf("common ancestor of root blocks %d and %d: %v, expected %d (parents %v)", a, b, got, x, par)
		}
		if x != a && x != b && num[a] != num[b] {
			c.NonTrivial("%v %d %d", par, a, b)
			c.Sample("parents %v: %d and %d meet in %d", par, a, b, x)
		}
	})
}
