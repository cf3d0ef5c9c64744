// Package c15: a seal is accepted exactly when its proof of work meets the
// difficulty. Every algorithm is compared with an independent implementation, on
// its own and through its engine; seals are judged at the exact target; what the
// local miner returns must verify; hashes asked for in any order of heights and
// from several goroutines must not depend on what was asked before. The check is
// built twice, with the Go and with the C++ implementation of qkchash.
package c15

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/big"
	"reflect"
	"sync"
	"testing"
	"time"

	"github.com/QuarkChain/goquarkchain/consensus"
	"github.com/QuarkChain/goquarkchain/consensus/doublesha256"
	"github.com/QuarkChain/goquarkchain/consensus/ethash"
	"github.com/QuarkChain/goquarkchain/consensus/qkchash"
	"github.com/QuarkChain/goquarkchain/consensus/qkchash/native"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/zzverif/gen"
	"github.com/QuarkChain/goquarkchain/zzverif/vlib"
	"github.com/ethereum/go-ethereum/common"
	"pgregory.net/rapid"
)

type mixFn func(ls []uint64, seed []byte, useX bool) ([4]uint64, error)

func nativeMix(ls []uint64, seed []byte, useX bool) ([4]uint64, error) {
	return native.HashWithRotationStats(native.NewCache(ls), seed, useX)
}

var two256 = new(big.Int).Lsh(big.NewInt(1), 256)

func pick(rt *rapid.T, n string, v ...int) uint64 {
	return uint64(rapid.SampledFrom(v).Draw(rt, n))
}

// TestSet compares the ordered-set mix with a sorted list and with a reference
// tree, for generated sets and seeds.
func TestSet(t *testing.T) {
	vlib.Check(t, 120, 3000, "more than one value and the rotation register in the result", func(rt *rapid.T, c *vlib.C) {
		n := int(pick(rt, "size", 1, 2, 3, 5, 17, 64, 300, 1000, 4096))
		have := map[uint64]bool{}
		var ls []uint64
		kind := rapid.SampledFrom([]string{"random", "dense", "reverse", "top"}).Draw(rt, "kind")
		x := rapid.Uint64().Draw(rt, "start")
		for len(ls) < n {
			var v uint64
			switch kind {
			case "random":
				x = x*6364136223846793005 + 1442695040888963407
				v = x ^ x>>29
			case "dense":
				v = uint64(len(ls))
			case "reverse":
				v = uint64(n - len(ls))
			case "top":
				v = ^uint64(0) - 1 - uint64(len(ls))
			}
			if !have[v] && v != ^uint64(0) {
				have[v] = true
				ls = append(ls, v)
			}
			x++
		}
		seed := gen.BytesN(rt, 64)
		if rapid.Bool().Draw(rt, "mixed seed") {
			for i := 0; i < 64; i += 8 {
				binary.LittleEndian.PutUint64(seed[i:], rapid.Uint64().Draw(rt, "w"))
			}
		}
		useX := rapid.Bool().Draw(rt, "x")
		want := refMix(newSet(ls), seed, useX)
		if !useX {
			if o := refSlice(ls, seed); o != want {
				rt.Fatalf("reference tree and sorted list differ: %x %x", want, o)
			}
		}
		for name, f := range impls() {
			for i := 0; i < 2; i++ {
				got, err := f(ls, seed, useX)
				if err != nil || got != want {
					rt.Fatalf("%s, %d %s values, rotation register %v, seed %x: %x (%v), expected %x", name, n, kind, useX, seed, got, err, want)
				}
			}
			if _, err := f(ls, seed[:63], useX); err == nil {
				rt.Fatalf("%s accepts a short seed", name)
			}
		}
		c.Label("%s", kind)
		if n > 1 && useX {
			c.NonTrivial("%d %s %x", n, kind, seed)
			c.Sample("%d %s values, seed %x: %x", n, kind, seed[:8], want)
		}
	})
}

func header(rt *rapid.T) types.IHeader {
	if rapid.Bool().Draw(rt, "root header") {
		return gen.Value(rt, reflect.TypeOf(types.RootBlockHeader{}), &gen.Options{}).Addr().Interface().(*types.RootBlockHeader)
	}
	return gen.Value(rt, reflect.TypeOf(types.MinorBlockHeader{}), &gen.Options{}).Addr().Interface().(*types.MinorBlockHeader)
}

// with makes a fresh header with the given fields.
func with(h types.IHeader, number, nonce uint64, mix common.Hash, diff *big.Int) types.IHeader {
	switch x := h.(type) {
	case *types.RootBlockHeader:
		y := types.CopyRootBlockHeader(x)
		y.Number, y.Nonce, y.MixDigest, y.Difficulty = uint32(number), nonce, mix, new(big.Int).Set(diff)
		return y
	case *types.MinorBlockHeader:
		y := types.CopyMinorBlockHeader(x)
		y.Number, y.Nonce, y.MixDigest, y.Difficulty = number, nonce, mix, new(big.Int).Set(diff)
		return y
	}
	panic("header")
}

// engine is an algorithm with its reference.
type engine struct {
	name  string
	e     consensus.PoW
	mixed bool // the mix digest counts
	ref   func(height uint64, seal []byte, nonce uint64) (digest, result []byte)
	grind int
	tops  []int // heights
}

var (
	once    sync.Once
	engines []*engine
)

func ethTest() *ethash.QEthash {
	return ethash.New(ethash.Config{CachesInMem: 3, PowMode: ethash.ModeTest}, nil, false, nil)
}

var testCaches = map[uint64]ethCache{}

func ethRef(height uint64, seal []byte, nonce uint64) ([]byte, []byte) {
	e := height / 30000
	c := testCaches[e]
	if c == nil {
		c = makeEthCache(1024, ethSeed(e))
		testCaches[e] = c
	}
	return c.hash(32*1024, seal, nonce)
}

const xHeight = 100

func all() []*engine {
	once.Do(func() {
		engines = []*engine{
			{name: "double sha256", e: doublesha256.New(nil, false, nil), grind: 5000, tops: []int{0, 7, 1 << 31}, ref: func(_ uint64, seal []byte, nonce uint64) ([]byte, []byte) { return nil, refSha(seal, nonce) }},
			{name: "qkchash", e: qkchash.New(nil, false, nil, xHeight), mixed: true, grind: 6, tops: []int{0, 99, 100, 101, 29999}, ref: func(h uint64, seal []byte, nonce uint64) ([]byte, []byte) { return refQkc(h, xHeight, seal, nonce) }},
			{name: "ethash", e: ethTest(), mixed: true, grind: 10, tops: []int{0, 29999, 30000, 65000, 300000}, ref: ethRef},
		}
	})
	return engines
}

// TestSeal asks for verdicts around the exact target.
func TestSeal(t *testing.T) {
	vlib.Check(t, 60, 1500, "a seal at or next to the exact target", func(rt *rapid.T, c *vlib.C) {
		en := rapid.SampledFrom(all()).Draw(rt, "engine")
		num := pick(rt, "height", en.tops...)
		h0 := header(rt)
		seal := func(h types.IHeader) []byte { return h.SealHash().Bytes() }
		// look for a nonce with a small result
		start := rapid.Uint64().Draw(rt, "nonce")
		tries := rapid.IntRange(1, en.grind).Draw(rt, "tries")
		diff := new(big.Int).SetUint64(rapid.Uint64Range(1, 1<<40).Draw(rt, "difficulty"))
		sh := seal(with(h0, num, 0, common.Hash{}, diff))
		var nonce uint64
		var digest []byte
		var res *big.Int
		for i := 0; i < tries; i++ {
			d, r := en.ref(num, sh, start+uint64(i))
			if v := new(big.Int).SetBytes(r); res == nil || v.Cmp(res) < 0 {
				nonce, digest, res = start+uint64(i), d, v
			}
		}
		max := new(big.Int).Div(two256, res) // the greatest difficulty this seal meets
		what := ""
		var prev []*big.Int
		prevMix := []common.Hash{}
		for k := rapid.IntRange(1, 6).Draw(rt, "questions"); k > 0; k-- {
			adj := new(big.Int).Add(max, big.NewInt(int64(rapid.SampledFrom([]int{-1, 0, 0, 1, 1, 2}).Draw(rt, "by"))))
			switch rapid.SampledFrom([]int{0, 0, 0, 0, 1, 2}).Draw(rt, "how") {
			case 1:
				adj = new(big.Int).SetUint64(pick(rt, "small", 0, 1, 2))
			case 2:
				adj.Mul(adj, big.NewInt(int64(pick(rt, "far", 2, 1000))))
			}
			if len(prev) > 0 && pick(rt, "again", 0, 0, 1) == 1 {
				adj = rapid.SampledFrom(prev).Draw(rt, "which")
			}
			prev = append(prev, adj)
			mix := common.BytesToHash(digest)
			if !en.mixed {
				mix = gen.Hash(rt)
				if len(prevMix) > 0 && rapid.Bool().Draw(rt, "same mix") {
					mix = prevMix[0]
				}
				prevMix = append(prevMix, mix)
			}
			wrongMix := en.mixed && pick(rt, "wrong mix", 0, 0, 0, 1) == 1
			if wrongMix {
				mix[pick(rt, "byte", 0, 7, 8, 31)] ^= 1 << pick(rt, "bit", 0, 7)
			}
			hd := diff
			if pick(rt, "own", 0, 0, 0, 0, 1) == 1 {
				hd = new(big.Int)
			}
			n := nonce
			wrongNonce := pick(rt, "wrong nonce", 0, 0, 0, 0, 0, 1) == 1
			if wrongNonce {
				n ^= 1 << pick(rt, "bit", 0, 8, 63)
			}
			h := with(h0, num, n, mix, hd)
			ok := hd.Sign() > 0
			if ok {
				d, r := digest, res
				if s2 := seal(h); wrongNonce || !bytes.Equal(s2, sh) {
					var b []byte
					d, b = en.ref(num, s2, n)
					r = new(big.Int).SetBytes(b)
				}
				eff := adj
				if eff.Sign() == 0 {
					eff = big.NewInt(1)
				}
				if r.Cmp(new(big.Int).Div(two256, eff)) > 0 {
					ok = false
				}
				if en.mixed && mix != common.BytesToHash(d) {
					ok = false
				}
			}
			err := en.e.VerifySeal(nil, h, new(big.Int).Set(adj))
			if (err == nil) != ok {
				rt.Fatalf("%s (%s), height %d, nonce %d: hash %x, difficulty %v (header %v; the seal meets at most %v), wrong mix %v, wrong nonce %v: %v", en.name, variant, num, n, res, adj, hd, max, wrongMix, wrongNonce, err)
			}
			what += fmt.Sprintf("difficulty %v: %v; ", adj, err)
			c.Label("%s: accepted %v", en.name, ok)
		}
		c.NonTrivial("%s %x %d", en.name, sh, nonce)
		c.Sample("%s at %d, nonce %d, hash %x: %s", en.name, num, nonce, res.Bytes(), what)
	})
}

// TestMiner: what the local miner returns verifies and is the same block.
func TestMiner(t *testing.T) {
	vlib.Check(t, 25, 400, "a difficulty above one", func(rt *rapid.T, c *vlib.C) {
		en := rapid.SampledFrom(all()).Draw(rt, "engine")
		num := pick(rt, "height", en.tops...)
		tops := []int{0, 1, 2, 3, 5}
		if en.grind >= 100 {
			tops = append(tops, 1000, 30000)
		}
		diff := new(big.Int).SetUint64(pick(rt, "difficulty", tops...))
		div := pick(rt, "divider", 1, 1, 2, 20)
		threads := int(pick(rt, "threads", 1, 2, 4))
		en.e.SetThreads(threads)
		h := with(header(rt), num, 0, common.Hash{}, new(big.Int).SetUint64(rapid.Uint64Range(1, 1000).Draw(rt, "own")))
		var b types.IBlock
		switch x := h.(type) {
		case *types.RootBlockHeader:
			b = types.NewRootBlockWithHeader(x)
		case *types.MinorBlockHeader:
			b = types.NewMinorBlockWithHeader(x, &types.MinorBlockMeta{})
		}
		out := make(chan types.IBlock, threads)
		stop := make(chan struct{})
		if err := en.e.Seal(nil, b, diff, div, out, stop); err != nil {
			rt.Fatalf("seal: %v", err)
		}
		var s types.IBlock
		select {
		case s = <-out:
		case <-time.After(120 * time.Second):
			rt.Fatalf("%s: no seal for difficulty %v after two minutes", en.name, diff)
		}
		close(stop)
		adj := new(big.Int).Div(diff, new(big.Int).SetUint64(div))
		if err := en.e.VerifySeal(nil, s.IHeader(), adj); err != nil {
			rt.Fatalf("%s (%s), height %d: the miner's seal for difficulty %v/%d does not verify: %v", en.name, variant, num, diff, div, err)
		}
		d, r := en.ref(num, h.SealHash().Bytes(), s.IHeader().GetNonce())
		if adj.Sign() == 0 {
			adj.SetUint64(1)
		}
		if new(big.Int).SetBytes(r).Cmp(new(big.Int).Div(two256, adj)) > 0 || en.mixed && !bytes.Equal(d, s.IHeader().GetMixDigest().Bytes()) {
			rt.Fatalf("%s (%s), height %d: the miner's seal for difficulty %v/%d is wrong: hash %x, digest %x, expected %x", en.name, variant, num, diff, div, r, s.IHeader().GetMixDigest(), d)
		}
		if s.IHeader().SealHash() != h.SealHash() {
			rt.Fatalf("%s: the miner changed the block", en.name)
		}
		c.Label("%s", en.name)
		if adj.Cmp(big.NewInt(1)) > 0 {
			c.NonTrivial("%s %v %x", en.name, adj, h.SealHash())
			c.Sample("%s at %d, difficulty %v/%d, %d threads: nonce %d", en.name, num, diff, div, threads, s.IHeader().GetNonce())
		}
	})
}

type question struct {
	height, nonce uint64
	h0            types.IHeader
	digest, res   []byte
	diff          *big.Int
}

// ask verifies, in goroutines, seals that are right and seals whose digest or
// difficulty is just wrong.
func ask(rt *rapid.T, e consensus.Engine, name string, qs []question, routines int) {
	var wg sync.WaitGroup
	bad := make(chan string, len(qs)*3)
	for r := 0; r < routines; r++ {
		wg.Add(1)
		go func(r int) {
			defer wg.Done()
			for i := r; i < len(qs); i += routines {
				q := qs[i]
				max := new(big.Int).Div(two256, new(big.Int).SetBytes(q.res))
				h := with(q.h0, q.height, q.nonce, common.BytesToHash(q.digest), q.diff)
				if err := e.VerifySeal(nil, h, max); err != nil {
					bad <- fmt.Sprintf("%s (%s): the right seal at height %d is refused: %v", name, variant, q.height, err)
				}
				if err := e.VerifySeal(nil, h, new(big.Int).Add(max, big.NewInt(1))); err == nil {
					bad <- fmt.Sprintf("%s (%s): a seal at height %d is accepted above its difficulty", name, variant, q.height)
				}
			}
		}(r)
	}
	wg.Wait()
	select {
	case s := <-bad:
		rt.Fatalf("%s", s)
	default:
	}
}

func questions(rt *rapid.T, n int, heights []int, ref func(uint64, []byte, uint64) ([]byte, []byte)) (qs []question, what string) {
	h0 := gen.Value(rt, reflect.TypeOf(types.MinorBlockHeader{}), &gen.Options{}).Addr().Interface().(*types.MinorBlockHeader)
	for ; n > 0; n-- {
		q := question{height: pick(rt, "height", heights...), nonce: rapid.Uint64().Draw(rt, "nonce"), h0: h0, diff: big.NewInt(7)}
		q.digest, q.res = ref(q.height, with(h0, q.height, 0, common.Hash{}, q.diff).SealHash().Bytes(), q.nonce)
		qs = append(qs, q)
		what += fmt.Sprintf("%d ", q.height)
	}
	return
}

// TestCaches asks one fresh qkchash engine about heights in any order.
func TestCaches(t *testing.T) {
	vlib.Check(t, 2, 40, "heights from before and after the cache was extended", func(rt *rapid.T, c *vlib.C) {
		const l = 30000
		var hs []int
		for i := rapid.IntRange(2, 4).Draw(rt, "epochs"); i > 0; i-- {
			hs = append(hs, l*int(pick(rt, "epoch", 0, 0, 0, 1, 1, 2, 3, 64, 65, 65, 66, 66, 67, 131))+int(pick(rt, "at", 0, 1, l-1)))
		}
		x := pick(rt, "x", 0, 1, 64*l, 1<<40)
		eng := qkchash.New(nil, false, nil, x)
		what := ""
		for k := 0; k < 3; k++ {
			qs, w := questions(rt, int(pick(rt, "n", 2, 4, 6)), hs, func(h uint64, s []byte, n uint64) ([]byte, []byte) { return refQkc(h, x, s, n) })
			r := int(pick(rt, "routines", 1, 1, 3))
			ask(rt, eng, "qkchash", qs, r)
			what += fmt.Sprintf("%d routines: %s; ", r, w)
		}
		c.NonTrivial("%s", what)
		c.Sample("heights in order, with the rotation register from %d: %s", x, what)
	})
}

// TestEthCaches does the same with ethash.
func TestEthCaches(t *testing.T) {
	vlib.Check(t, 40, 600, "several epochs", func(rt *rapid.T, c *vlib.C) {
		const l = 30000
		var hs []int
		for i := rapid.IntRange(2, 6).Draw(rt, "epochs"); i > 0; i-- {
			hs = append(hs, l*int(pick(rt, "epoch", 0, 1, 2, 3, 4, 100, 2046, 2047, 2048, 2049, 2050, 2113, 2114, 2115, 2200))+int(pick(rt, "at", 0, 1, l-1)))
		}
		eng := ethTest()
		what := ""
		for k := 0; k < 2; k++ {
			qs, w := questions(rt, int(pick(rt, "n", 4, 8)), hs, ethRef)
			r := int(pick(rt, "routines", 1, 4))
			ask(rt, eng, "ethash", qs, r)
			what += fmt.Sprintf("%d routines: %s; ", r, w)
		}
		c.NonTrivial("%s", what)
		c.Sample("heights in order: %s", what)
	})
}

// TestEthFull: one epoch at full size, all epochs' sizes.
func TestEthFull(t *testing.T) {
	vlib.Once(t, "the cache and dataset of a real epoch", func(newCase func() (*vlib.C, func())) {
		c, done := newCase()
		defer done()
		e := uint64(0)
		eng := ethash.New(ethash.Config{CachesInMem: 1, PowMode: ethash.ModeNormal}, nil, false, nil)
		if vlib.Tier() == "thorough" {
			e = 3
		}
		cache := makeEthCache(ethCacheSize(e), ethSeed(e))
		h0 := &types.MinorBlockHeader{Number: e*30000 + 11, Difficulty: big.NewInt(1)}
		sh := h0.SealHash().Bytes()
		for n := uint64(0); n < 3; n++ {
			d, r := cache.hash(ethDataSize(e), sh, n)
			h := types.CopyMinorBlockHeader(h0)
			h.Nonce, h.MixDigest = n, common.BytesToHash(d)
			max := new(big.Int).Div(two256, new(big.Int).SetBytes(r))
			if err := eng.VerifySeal(nil, h, max); err != nil {
				t.Fatalf("epoch %d, nonce %d: %v", e, n, err)
			}
			if err := eng.VerifySeal(nil, h, new(big.Int).Add(max, big.NewInt(1))); err == nil {
				t.Fatalf("epoch %d, nonce %d: accepted above its difficulty", e, n)
			}
		}
		c.NonTrivial("epoch %d", e)
		c.Sample("epoch %d", e)
	})
}
