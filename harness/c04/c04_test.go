package c04

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"testing"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/config"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/zzverif/vlib"
	"pgregory.net/rapid"
)

func keyGen(chains uint32) *rapid.Generator[uint32] {
	return rapid.OneOf(
		rapid.Uint32(),
		rapid.Custom(func(t *rapid.T) uint32 {
			return rapid.Uint32Range(0, chains+1).Draw(t, "chain")<<16 | uint32(rapid.Uint16().Draw(t, "low"))
		}),
		rapid.Custom(func(t *rapid.T) uint32 {
			return rapid.Uint32Range(0, chains).Draw(t, "chain")<<16 | rapid.Uint32Range(0, 70).Draw(t, "low")
		}),
	)
}

// mkConfig builds a configuration with an own shard size per chain through its
// public JSON form.
func mkConfig(t *rapid.T, sizes []uint32) *config.QuarkChainConfig {
	q := config.NewQuarkChainConfig()
	q.Update(uint32(len(sizes)), 1, 10, 10)
	for i, s := range sizes {
		q.Chains[uint32(i)].ShardSize = s
	}
	b, err := json.Marshal(q)
	if err != nil {
		t.Fatalf("marshal config: %v", err)
	}
	q2 := new(config.QuarkChainConfig)
	if err := json.Unmarshal(b, q2); err != nil {
		t.Fatalf("unmarshal config: %v", err)
	}
	return q2
}

func TestPartition(t *testing.T) {
	vlib.Check(t, 250, 20000, "configurations of 1-6 chains with 1-64 shards each and 60 keys each; non-trivial: some chain has several shards and keys of known and unknown chains occur", func(rt *rapid.T, c *vlib.C) {
		n := rapid.IntRange(1, 6).Draw(rt, "chains")
		sizes := make([]uint32, n)
		total, multi := 0, false
		for i := range sizes {
			sizes[i] = 1 << rapid.IntRange(0, 6).Draw(rt, "log2size")
			total += int(sizes[i])
			multi = multi || sizes[i] > 1
		}
		q := mkConfig(rt, sizes)
		ids := q.GetGenesisShardIds()
		sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
		want := []uint32{}
		for ch, s := range sizes {
			for sh := uint32(0); sh < s; sh++ {
				want = append(want, uint32(ch)<<16|s|sh)
			}
		}
		if fmt.Sprint(ids) != fmt.Sprint(want) {
			rt.Fatalf("shards of %v are %x, want %x", sizes, ids, want)
		}
		keys := rapid.SliceOfN(keyGen(uint32(n)), 60, 60).Draw(rt, "keys")
		known, unknown := 0, 0
		for ki, k := range keys {
			chain := k >> 16
			fid, err := q.GetFullShardIdByFullShardKey(k)
			if chain >= uint32(n) {
				unknown++
				if err == nil {
					rt.Fatalf("key %#x of unknown chain %d got shard %#x", k, chain, fid)
				}
				if q.IsSameFullShard(k, keys[0]) || q.IsSameFullShard(keys[0], k) {
					rt.Fatalf("key %#x of an unknown chain shares a shard", k)
				}
				continue
			}
			known++
			if err != nil {
				rt.Fatalf("key %#x refused: %v", k, err)
			}
			size := sizes[chain]
			if ref := chain<<16 | size | (k & 0xffff % size); ref != fid {
				rt.Fatalf("key %#x in shard %#x, want %#x (size %d)", k, fid, ref, size)
			}
			// exactly one branch serves it
			serving := []uint32{}
			for _, id := range ids {
				br := account.NewBranch(id)
				if br.IsInBranch(k) {
					serving = append(serving, id)
				}
			}
			if len(serving) != 1 || serving[0] != fid {
				rt.Fatalf("key %#x is served by %x, configuration says %#x", k, serving, fid)
			}
			addr := account.NewAddress(account.Recipient{1}, k)
			if a, err := addr.GetFullShardID(size); err != nil || a != fid {
				rt.Fatalf("address with key %#x says shard %#x %v, want %#x", k, a, err, fid)
			}
			if addr.GetChainID() != chain {
				rt.Fatalf("address chain %d of key %#x", addr.GetChainID(), k)
			}
			br := account.NewBranch(fid)
			if br.GetChainID() != chain || br.GetShardSize() != size || br.GetShardID() != k&(size-1) || br.GetFullShardID() != fid {
				rt.Fatalf("branch %#x decomposes to chain %d size %d shard %d", fid, br.GetChainID(), br.GetShardSize(), br.GetShardID())
			}
			nb, err := account.CreatBranch(chain, size, k&(size-1))
			if err != nil || nb != br {
				rt.Fatalf("branch of %d/%d/%d: %v %v", chain, size, k&(size-1), nb, err)
			}
			// a transaction from k to k2 and its shards
			k2 := keys[(ki+1)%len(keys)]
			if k2>>16 < uint32(n) {
				tx := types.NewEvmTransaction(0, account.Recipient{2}, new(big.Int), 0, new(big.Int), k, k2, 3, 0, nil, 0, 0)
				if tx.FromChainID() != chain || tx.ToChainID() != k2>>16 {
					rt.Fatalf("transaction chains %d %d", tx.FromChainID(), tx.ToChainID())
				}
				if err := tx.SetFromShardSize(size); err != nil {
					rt.Fatalf("from shard size: %v", err)
				}
				if err := tx.SetToShardSize(sizes[k2>>16]); err != nil {
					rt.Fatalf("to shard size: %v", err)
				}
				fid2, _ := q.GetFullShardIdByFullShardKey(k2)
				if tx.FromFullShardId() != fid || tx.ToFullShardId() != fid2 || tx.IsCrossShard() != (fid != fid2) {
					rt.Fatalf("transaction %#x->%#x: shards %#x %#x cross=%v, want %#x %#x", k, k2, tx.FromFullShardId(), tx.ToFullShardId(), tx.IsCrossShard(), fid, fid2)
				}
				if q.IsSameFullShard(k, k2) != (fid == fid2) {
					rt.Fatalf("IsSameFullShard(%#x,%#x)", k, k2)
				}
				// moving an address into another branch
				br2 := account.NewBranch(fid2)
				moved := addr.AddressInBranch(br2)
				if moved.Recipient != addr.Recipient || !br2.IsInBranch(moved.FullShardKey) {
					rt.Fatalf("address moved to %#x has key %#x", fid2, moved.FullShardKey)
				}
			}
		}
		if multi && known > 0 && unknown > 0 {
			c.NonTrivial("%v %v", sizes, keys)
			c.Sample("shard sizes %v, keys %x...", sizes, keys[:6])
		}
		c.Label("chains %d", n)
	})
}

func TestBadShardSizeRefused(t *testing.T) {
	vlib.Check(t, 3000, 100000, "shard sizes that are not powers of two; all non-trivial", func(rt *rapid.T, c *vlib.C) {
		s := rapid.Uint32Range(3, 0xffff).Draw(rt, "size")
		if s&(s-1) == 0 {
			s++
		}
		if s&(s-1) == 0 {
			rt.Skip()
		}
		a := account.NewAddress(account.Recipient{}, rapid.Uint32().Draw(rt, "key"))
		if _, err := a.GetFullShardID(s); err == nil {
			rt.Fatalf("shard size %d accepted by the address", s)
		}
		if _, err := account.CreatBranch(0, s, 0); err == nil {
			rt.Fatalf("shard size %d accepted by the branch", s)
		}
		c.NonTrivial("%d", s)
		c.Sample("size %d", s)
	})
}

func TestAddressEncodings(t *testing.T) {
	vlib.Check(t, 8000, 500000, "random addresses, their byte/hex/JSON forms and mutated texts; non-trivial: non-zero address", func(rt *rapid.T, c *vlib.C) {
		var r account.Recipient
		copy(r[:], rapid.SliceOfN(rapid.Byte(), 20, 20).Draw(rt, "recipient"))
		k := rapid.Uint32().Draw(rt, "key")
		a := account.NewAddress(r, k)
		want := append(append([]byte{}, r[:]...), byte(k>>24), byte(k>>16), byte(k>>8), byte(k))
		if fmt.Sprintf("%x", a.ToBytes()) != hex.EncodeToString(want) {
			rt.Fatalf("bytes of %x/%x are %x", r, k, a.ToBytes())
		}
		b, err := account.CreatAddressFromBytes(a.ToBytes())
		if err != nil || b != a {
			rt.Fatalf("byte round trip: %v %v", b, err)
		}
		js, err := json.Marshal(a)
		if err != nil {
			rt.Fatalf("json: %v", err)
		}
		var d account.Address
		if err := json.Unmarshal(js, &d); err != nil || d != a {
			rt.Fatalf("json round trip of %s: %v %v", js, d, err)
		}
		var u account.UnprefixedAddress
		tx, err := account.UnprefixedAddress(a).MarshalText()
		if err != nil || u.UnmarshalText(tx) != nil || u.Address() != a {
			rt.Fatalf("text round trip of %s: %v", tx, u.Address())
		}
		if a.IsEmpty() != (r == account.Recipient{}) {
			rt.Fatalf("IsEmpty of %x", r)
		}
		// malformed forms
		n := rapid.IntRange(0, 60).Draw(rt, "n")
		if n != 24 {
			if _, err := account.CreatAddressFromBytes(make([]byte, n)); err == nil {
				rt.Fatalf("%d bytes accepted as an address", n)
			}
		}
		s := string(js)
		switch rapid.IntRange(0, 4).Draw(rt, "mutation") {
		case 0:
			s = s[:rapid.IntRange(0, len(s)-1).Draw(rt, "cut")]
			if s == `"0x` {
				s = `"`
			}
		case 1:
			p := rapid.IntRange(3, len(s)-2).Draw(rt, "pos")
			s = s[:p] + string(rapid.SampledFrom([]rune("gGxX -_.")).Draw(rt, "ch")) + s[p+1:]
		case 2:
			s = strings.Replace(s, "0x", "", 1)
		case 3:
			p := rapid.IntRange(3, len(s)-1).Draw(rt, "pos")
			s = s[:p] + rapid.StringMatching("[0-9a-f]{1,4}").Draw(rt, "ins") + s[p:]
		case 4:
			s = strings.Trim(s, `"`)
		}
		var e account.Address
		if err := e.UnmarshalJSON([]byte(s)); err == nil {
			rt.Fatalf("malformed address %s accepted as %v", s, e)
		}
		if r != (account.Recipient{}) {
			c.NonTrivial("%x %x %s", r, k, s)
			c.Sample("%s; refused %s", js, s)
		}
	})
}

func TestIdentity(t *testing.T) {
	vlib.Check(t, 300, 20000, "random private keys; all non-trivial", func(rt *rapid.T, c *vlib.C) {
		kb := rapid.SliceOfN(rapid.Byte(), 32, 32).Draw(rt, "key")
		kb[0] &= 0x7f
		kb[31] |= 1
		id, err := account.CreatIdentityFromKey(account.BytesToIdentityKey(kb))
		if err != nil {
			rt.Fatalf("%v", err)
		}
		acc, err := account.NewAccountWithKey(account.BytesToIdentityKey(kb))
		if err != nil {
			rt.Fatalf("%v", err)
		}
		sk := id.GetKey()
		if hex.EncodeToString(sk.Bytes()) != hex.EncodeToString(kb) || acc.Identity.GetRecipient() != id.GetRecipient() {
			rt.Fatalf("identity of %x lost its key", kb)
		}
		dk, err := id.GetDefaultFullShardKey()
		r := id.GetRecipient()
		if err != nil || dk != uint32(r[0])<<8|uint32(r[10]) {
			rt.Fatalf("default shard key of %x is %x", r, dk)
		}
		c.NonTrivial("%x", kb)
		c.Sample("key %x recipient %x", kb, r)
	})
}

func TestNeighbor(t *testing.T) {
	isPow2 := func(x uint32) bool { return x != 0 && x&(x-1) == 0 }
	vlib.Check(t, 8000, 500000, "pairs of branches and cluster sizes; non-trivial: cluster larger than the all-to-all limit", func(rt *rapid.T, c *vlib.C) {
		size := uint32(1) << rapid.IntRange(0, 8).Draw(rt, "size")
		mk := func(l string) account.Branch {
			return account.NewBranch(rapid.Uint32Range(0, 40).Draw(rt, l+"chain")<<16 | size | rapid.Uint32Range(0, size-1).Draw(rt, l+"shard"))
		}
		a, b := mk("a"), mk("b")
		if rapid.Bool().Draw(rt, "samechain") {
			b = account.NewBranch(a.GetChainID()<<16 | size | b.GetShardID())
		} else if rapid.Bool().Draw(rt, "sameshard") {
			b = account.NewBranch(b.GetChainID()<<16 | size | a.GetShardID())
		}
		n := rapid.OneOf(rapid.Uint32Range(1, 64), rapid.Uint32Range(1, 5000)).Draw(rt, "clusterShards")
		got := account.IsNeighbor(a, b, n)
		if got != account.IsNeighbor(b, a, n) {
			rt.Fatalf("neighbour relation not symmetric: %#x %#x %d", a.Value, b.Value, n)
		}
		if n <= 32 && !got {
			rt.Fatalf("with %d shards all must be neighbours", n)
		}
		if n > 32 && a != b {
			diff := func(x, y uint32) uint32 {
				if x > y {
					return x - y
				}
				return y - x
			}
			dc, ds := diff(a.GetChainID(), b.GetChainID()), diff(a.GetShardID(), b.GetShardID())
			want := dc == 0 && isPow2(ds) || ds == 0 && isPow2(dc)
			if got != want {
				rt.Fatalf("neighbour(%#x,%#x,%d)=%v", a.Value, b.Value, n, got)
			}
			c.NonTrivial("%x %x %d", a.Value, b.Value, n)
			c.Sample("%#x %#x in %d shards: %v", a.Value, b.Value, n, got)
		}
		c.Label("neighbours=%v", got)
	})
}
