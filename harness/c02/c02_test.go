package c02

import (
	"bytes"
	"fmt"
	"math/big"
	"reflect"
	"sync"
	"testing"

	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/serialize"
	"github.com/QuarkChain/goquarkchain/zzverif/gen"
	"github.com/QuarkChain/goquarkchain/zzverif/vlib"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	"pgregory.net/rapid"
)

func bytesOf(rt *rapid.T, v interface{}) []byte {
	b, err := serialize.SerializeToBytes(v)
	if err != nil {
		rt.Fatalf("encode: %v", err)
	}
	return b
}

// clone is a deep copy made through the wire encoding (its fidelity is C01).
func clone(rt *rapid.T, v reflect.Value) reflect.Value {
	w := reflect.New(v.Type())
	if err := serialize.DeserializeFromBytes(bytesOf(rt, v.Addr().Interface()), w.Interface()); err != nil {
		rt.Fatalf("clone: %v", err)
	}
	return w.Elem()
}

// mutate changes the value of one field into a different one.
func mutate(rt *rapid.T, f reflect.Value) string {
	switch p := f.Addr().Interface().(type) {
	case **types.TokenBalances:
		m := (*p).GetBalanceMap()
		kind := rapid.IntRange(0, 3).Draw(rt, "balmut")
		for k, v := range m {
			switch kind {
			case 0: // amount + 1
				m[k] = new(big.Int).Add(v, big.NewInt(1))
			case 1: // drop
				delete(m, k)
			case 2: // other token, same amount
				nk := k ^ (uint64(1) << uint(rapid.IntRange(0, 63).Draw(rt, "bit")))
				if _, ok := m[nk]; ok {
					continue
				}
				delete(m, k)
				m[nk] = v
			default:
				continue
			}
			*p = types.NewTokenBalancesWithMap(m)
			return "balances"
		}
		for k := uint64(0); ; k++ {
			if _, ok := m[k]; !ok {
				m[k] = big.NewInt(rapid.Int64Range(1, 1000).Draw(rt, "amount"))
				break
			}
		}
		*p = types.NewTokenBalancesWithMap(m)
		return "balances"
	case **big.Int:
		*p = bump(rt, *p, 255)
		return "big"
	case **serialize.Uint256:
		(*p) = &serialize.Uint256{Value: bump(rt, (*p).Value, 32)}
		return "uint256"
	}
	switch f.Kind() {
	case reflect.Uint32, reflect.Uint64:
		f.SetUint(f.Uint() ^ uint64(1)<<uint(rapid.IntRange(0, f.Type().Bits()-1).Draw(rt, "bit")))
	case reflect.Array:
		i := rapid.IntRange(0, f.Len()-1).Draw(rt, "i")
		f.Index(i).SetUint(f.Index(i).Uint() ^ uint64(1)<<uint(rapid.IntRange(0, 7).Draw(rt, "bit")))
	case reflect.Slice: // bytes
		b := append([]byte{}, f.Bytes()...)
		switch k := rapid.IntRange(0, 2).Draw(rt, "slmut"); {
		case k == 0 && len(b) > 0:
			b[rapid.IntRange(0, len(b)-1).Draw(rt, "i")] ^= 1 << uint(rapid.IntRange(0, 7).Draw(rt, "bit"))
		case k == 1 && len(b) > 0:
			b = b[:len(b)-1]
		default:
			b = append(b, rapid.SampledFrom([]byte{0, 1, 255}).Draw(rt, "b"))
		}
		f.SetBytes(b)
	case reflect.Ptr:
		return mutate(rt, f.Elem())
	case reflect.Struct:
		i := rapid.IntRange(0, f.NumField()-1).Draw(rt, "sub")
		return f.Type().Field(i).Name + "/" + mutate(rt, f.Field(i))
	default:
		rt.Fatalf("cannot mutate %v", f.Type())
	}
	return f.Kind().String()
}

func bump(rt *rapid.T, v *big.Int, max int) *big.Int {
	if v == nil {
		v = new(big.Int)
	}
	r := new(big.Int)
	switch rapid.IntRange(0, 2).Draw(rt, "bump") {
	case 0:
		if v.Sign() > 0 {
			return r.Sub(v, big.NewInt(1))
		}
	case 1: // multiply by 256: the same bytes, shifted
		if v.Sign() > 0 && len(v.Bytes()) < max {
			return r.Lsh(v, 8)
		}
	}
	r.Add(v, big.NewInt(1))
	if len(r.Bytes()) > max {
		r.SetInt64(0)
	}
	return r
}

type hashed interface{ Hash() common.Hash }
type sealed interface {
	Hash() common.Hash
	SealHash() common.Hash
}

func TestFieldBinding(t *testing.T) {
	seals := map[reflect.Type]map[string]bool{
		reflect.TypeOf(types.MinorBlockHeader{}): {"Nonce": true, "MixDigest": true},
		reflect.TypeOf(types.RootBlockHeader{}):  {"Nonce": true, "MixDigest": true, "Signature": true},
	}
	kinds := []reflect.Type{reflect.TypeOf(types.MinorBlockHeader{}), reflect.TypeOf(types.RootBlockHeader{}), reflect.TypeOf(types.MinorBlockMeta{})}
	vlib.Check(t, 6000, 200000, "one field of the header or metadata was changed", func(rt *rapid.T, c *vlib.C) {
		typ := rapid.SampledFrom(kinds).Draw(rt, "type")
		a := gen.Value(rt, typ, &gen.Options{})
		b := clone(rt, a)
		ha, hb := a.Addr().Interface().(hashed).Hash(), b.Addr().Interface().(hashed).Hash()
		if ha != hb {
			rt.Fatalf("%v: equal values hash to %x and %x", typ, ha, hb)
		}
		if w := crypto.Keccak256Hash(bytesOf(rt, a.Addr().Interface())); w != ha {
			rt.Fatalf("%v: hash %x is not that of the encoding, %x", typ, ha, w)
		}
		i := rapid.IntRange(0, typ.NumField()-1).Draw(rt, "field")
		name := typ.Field(i).Name
		how := mutate(rt, b.Field(i))
		if bytes.Equal(bytesOf(rt, a.Addr().Interface()), bytesOf(rt, b.Addr().Interface())) {
			rt.Fatalf("%v.%s (%s): changed, but the encoding is the same", typ, name, how)
		}
		if hb := b.Addr().Interface().(hashed).Hash(); hb == ha {
			rt.Fatalf("%v.%s (%s) is not covered by the hash", typ, name, how)
		}
		if sa, ok := a.Addr().Interface().(sealed); ok {
			sb := b.Addr().Interface().(sealed)
			same := sa.SealHash() == sb.SealHash()
			if same != seals[typ][name] {
				rt.Fatalf("%v.%s changed: sealing hash same=%v", typ, name, same)
			}
			if sa.SealHash() == sa.Hash() {
				rt.Fatalf("%v: sealing hash equals block hash", typ)
			}
		}
		c.NonTrivial("%v %s %x", typ, name, ha)
		c.Label("%v.%s", typ.Name(), name)
		c.Sample("%v.%s changed (%s) in header %x", typ.Name(), name, how, ha[:6])
	})
}

// Hashing is a pure function under concurrent use.
func TestConcurrentHash(t *testing.T) {
	vlib.Check(t, 25, 1000, "several goroutines hash different headers at once", func(rt *rapid.T, c *vlib.C) {
		var hs []hashed
		var want []common.Hash
		for i := 0; i < 8; i++ {
			typ := reflect.TypeOf(types.MinorBlockHeader{})
			if i%2 == 1 {
				typ = reflect.TypeOf(types.RootBlockHeader{})
			}
			h := gen.Value(rt, typ, &gen.Options{}).Addr().Interface().(hashed)
			hs = append(hs, h)
			want = append(want, crypto.Keccak256Hash(bytesOf(rt, h)))
		}
		var wg sync.WaitGroup
		errs := make(chan string, 100)
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for k := 0; k < 40; k++ {
					i := (g + k) % 8
					if h := hs[i].Hash(); h != want[i] {
						select {
						case errs <- fmt.Sprintf("hash %x, want %x", h, want[i]):
						default:
						}
					}
				}
			}(g)
		}
		wg.Wait()
		select {
		case s := <-errs:
			rt.Fatalf("concurrent hashing: %s", s)
		default:
		}
		c.NonTrivial("%x", want[0])
	})
}

// refMerkle is the documented commitment: a binary tree over the items' hashes,
// each level padded with the hash of the empty subtree, bound to the count.
func refMerkle(items [][]byte) common.Hash {
	depth := 0
	for 1<<uint(depth) < len(items) {
		depth++
	}
	var node func(d, i int) common.Hash
	empty := make([]common.Hash, depth+2)
	for d := 1; d <= depth; d++ {
		empty[d] = crypto.Keccak256Hash(empty[d-1][:], empty[d-1][:])
	}
	node = func(d, i int) common.Hash {
		if i<<uint(d) >= len(items) {
			return empty[d]
		}
		if d == 0 {
			return crypto.Keccak256Hash(items[i])
		}
		l, r := node(d-1, 2*i), node(d-1, 2*i+1)
		return crypto.Keccak256Hash(l[:], r[:])
	}
	root := node(depth, 0)
	n := make([]byte, 8)
	for i := 0; i < 8; i++ {
		n[i] = byte(uint64(len(items)) >> uint(56-8*i))
	}
	return crypto.Keccak256Hash(root[:], n)
}

func TestListCommitment(t *testing.T) {
	vlib.Check(t, 700, 40000, "the list has at least two items", func(rt *rapid.T, c *vlib.C) {
		n := rapid.OneOf(rapid.IntRange(0, 9), rapid.IntRange(0, 40)).Draw(rt, "n")
		txs := rapid.Bool().Draw(rt, "txs")
		// few distinct items, so that lists with repetitions are common
		var pool []interface{}
		for i := 0; i < rapid.IntRange(2, 6).Draw(rt, "pool"); i++ {
			if txs {
				pool = append(pool, gen.Tx(rt))
			} else {
				pool = append(pool, gen.Value(rt, reflect.TypeOf(types.MinorBlockHeader{}), &gen.Options{}).Addr().Interface())
			}
		}
		list := make([]int, n)
		for i := range list {
			list[i] = rapid.IntRange(0, len(pool)-1).Draw(rt, "item")
		}
		root := func(l []int) common.Hash {
			if txs {
				x := types.Transactions{}
				for _, i := range l {
					x = append(x, pool[i].(*types.Transaction))
				}
				return types.CalculateMerkleRoot(x)
			}
			x := types.MinorBlockHeaders{}
			for _, i := range l {
				x = append(x, pool[i].(*types.MinorBlockHeader))
			}
			return types.CalculateMerkleRoot(x)
		}
		enc := func(l []int) (r [][]byte) {
			for _, i := range l {
				r = append(r, bytesOf(rt, pool[i]))
			}
			return
		}
		h := root(list)
		if n > 0 {
			if w := refMerkle(enc(list)); w != h {
				rt.Fatalf("root of %d items is %x, reference %x", n, h, w)
			}
		}
		// a different list
		other := append([]int{}, list...)
		how := rapid.SampledFrom([]string{"replace", "swap", "dup", "drop", "append", "doubletail", "resize"}).Draw(rt, "how")
		pos := 0
		if n > 0 {
			pos = rapid.IntRange(0, n-1).Draw(rt, "pos")
		}
		switch {
		case how == "replace" && n > 0:
			other[pos] = rapid.IntRange(0, len(pool)-1).Draw(rt, "new")
		case how == "swap" && n > 1:
			q := rapid.IntRange(0, n-1).Draw(rt, "q")
			other[pos], other[q] = other[q], other[pos]
		case how == "dup" && n > 0:
			other = append(other[:pos+1], other[pos:]...)
		case how == "drop" && n > 0:
			other = append(other[:pos], other[pos+1:]...)
		case how == "doubletail" && n > 0: // the classic ambiguity of padding by repetition
			k := rapid.IntRange(1, n).Draw(rt, "k")
			other = append(other, other[n-k:]...)
		default:
			other = append(other, rapid.IntRange(0, len(pool)-1).Draw(rt, "new"))
		}
		same := len(other) == len(list)
		if same {
			a, b := enc(list), enc(other)
			for i := range a {
				if !bytes.Equal(a[i], b[i]) {
					same = false
				}
			}
		}
		if !same && root(other) == h {
			rt.Fatalf("%s: lists %v and %v have the same root", how, list, other)
		}
		if same && root(other) != h {
			rt.Fatalf("same list, different roots")
		}
		c.Label("%s", how)
		if n >= 2 {
			c.NonTrivial("%x %s %v", h, how, other)
			c.Sample("list of %d, %s at %d", n, how, pos)
		}
	})
}

// Blocks carry the commitment of their body and a hash that follows their header.
func TestBlockCommitments(t *testing.T) {
	vlib.Check(t, 400, 15000, "the block has a body", func(rt *rapid.T, c *vlib.C) {
		mh := gen.Value(rt, reflect.TypeOf(types.MinorBlockHeader{}), &gen.Options{}).Addr().Interface().(*types.MinorBlockHeader)
		mm := gen.Value(rt, reflect.TypeOf(types.MinorBlockMeta{}), &gen.Options{}).Addr().Interface().(*types.MinorBlockMeta)
		nonce, mix := gen.U64(rt), gen.Hash(rt)
		n := rapid.IntRange(0, 4).Draw(rt, "n")
		if rapid.Bool().Draw(rt, "minor") {
			var txs []*types.Transaction
			var rs types.Receipts
			var enc [][]byte
			for i := 0; i < n; i++ {
				txs = append(txs, gen.Tx(rt))
				enc = append(enc, bytesOf(rt, txs[i]))
				r := gen.Value(rt, reflect.TypeOf(types.Receipt{}), &gen.Options{}).Addr().Interface().(*types.Receipt)
				rs = append(rs, r)
			}
			b := types.NewMinorBlockWithHeader(mh, mm).WithBody(txs, nil)
			before := b.Hash()
			root, gas, xgas := gen.Hash(rt), gen.Big(rt, 32), gen.Big(rt, 32)
			cur := &types.XShardTxCursorInfo{RootBlockHeight: gen.U64(rt), MinorBlockIndex: gen.U64(rt), XShardDepositIndex: gen.U64(rt)}
			bal := types.NewTokenBalancesWithMap(gen.BalanceMap(rt, 3))
			b.Finalize(rs, root, gas, xgas, bal, cur)
			m := b.Meta()
			if n > 0 && b.TxHash() != refMerkle(enc) {
				rt.Fatalf("finalized block's transaction commitment is wrong")
			}
			if b.Root() != root || b.GasUsed().Cmp(gas) != 0 || b.CrossShardGasUsed().Cmp(xgas) != 0 || *m.XShardTxCursorInfo != *cur {
				rt.Fatalf("finalized block does not carry what it was finalized with")
			}
			if b.MetaHash() != m.Hash() || b.MetaHash() != crypto.Keccak256Hash(bytesOf(rt, m)) {
				rt.Fatalf("finalized block's metadata commitment is wrong")
			}
			if b.Hash() != b.Header().Hash() || b.Hash() == before && b.Header().Hash() != before {
				rt.Fatalf("finalized block has hash %x, its header %x", b.Hash(), b.Header().Hash())
			}
			old := b.Hash()
			s := b.WithMingResult(nonce, mix, nil).(*types.MinorBlock)
			if s.Hash() != s.Header().Hash() || s.Nonce() != nonce || s.MixDigest() != mix {
				rt.Fatalf("sealed block's hash or seal is wrong")
			}
			if s.Header().SealHash() != b.Header().SealHash() {
				rt.Fatalf("sealing changed the sealing hash")
			}
			if b.Hash() != old || b.Header().Hash() != old {
				rt.Fatalf("sealing a copy changed the block")
			}
			if len(s.Transactions()) != n {
				rt.Fatalf("sealing lost the body")
			}
			// the accessor copies are independent of the block
			h := b.Header()
			mutate(rt, reflect.ValueOf(h).Elem().Field(rapid.IntRange(0, reflect.TypeOf(*h).NumField()-1).Draw(rt, "f")))
			if b.Header().Hash() != old {
				rt.Fatalf("changing a copy of the header changed the block")
			}
			if n > 0 {
				c.NonTrivial("%x", old)
				c.Label("minor")
			}
			return
		}
		rh := gen.Value(rt, reflect.TypeOf(types.RootBlockHeader{}), &gen.Options{}).Addr().Interface().(*types.RootBlockHeader)
		var hs types.MinorBlockHeaders
		var enc [][]byte
		for i := 0; i < n; i++ {
			hs = append(hs, gen.Value(rt, reflect.TypeOf(types.MinorBlockHeader{}), &gen.Options{}).Addr().Interface().(*types.MinorBlockHeader))
			enc = append(enc, bytesOf(rt, hs[i]))
		}
		b := types.NewRootBlockWithHeader(rh).WithBody(hs, nil)
		before := b.Hash()
		bal := types.NewTokenBalancesWithMap(gen.BalanceMap(rt, 3))
		b.Finalize(bal, nil, gen.Hash(rt))
		if n > 0 && b.MinorHeaderHash() != refMerkle(enc) {
			rt.Fatalf("finalized root block's header commitment is wrong")
		}
		if b.Hash() != b.Header().Hash() {
			rt.Fatalf("finalized root block: hash %x, header %x, before %x", b.Hash(), b.Header().Hash(), before)
		}
		old := b.Hash()
		var sig [65]byte
		copy(sig[:], gen.BytesN(rt, 65))
		s := b.WithMingResult(nonce, mix, &sig).(*types.RootBlock)
		if s.Hash() != s.Header().Hash() || s.Nonce() != nonce || s.MixDigest() != mix || s.Signature() != sig {
			rt.Fatalf("sealed root block's hash or seal is wrong")
		}
		if s.Header().SealHash() != b.Header().SealHash() || b.Hash() != old || b.Header().Hash() != old {
			rt.Fatalf("sealing changed the sealing hash or the original")
		}
		h := b.Header()
		mutate(rt, reflect.ValueOf(h).Elem().Field(rapid.IntRange(0, reflect.TypeOf(*h).NumField()-1).Draw(rt, "f")))
		if b.Header().Hash() != old {
			rt.Fatalf("changing a copy of the root header changed the block")
		}
		if n > 0 {
			c.NonTrivial("%x", old)
			c.Label("root")
			c.Sample("root block with %d headers, sealed with nonce %d", n, nonce)
		}
	})
}
