// Package c13 decides: the root chain follows the greatest total difficulty,
// its indexes describe exactly that chain, and it admits exactly the root
// blocks that follow the rules.
package c13

import (
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"testing"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/config"
	"github.com/QuarkChain/goquarkchain/consensus"
	"github.com/QuarkChain/goquarkchain/consensus/doublesha256"
	"github.com/QuarkChain/goquarkchain/core"
	"github.com/QuarkChain/goquarkchain/core/rawdb"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/internal/encoder"
	"github.com/QuarkChain/goquarkchain/serialize"
	"github.com/QuarkChain/goquarkchain/zzverif/chainenv"
	"github.com/QuarkChain/goquarkchain/zzverif/hist"
	"github.com/QuarkChain/goquarkchain/zzverif/vlib"
	"github.com/ethereum/go-ethereum/common"
	"pgregory.net/rapid"
)

type mh struct {
	h      *types.MinorBlockHeader
	hash   common.Hash
	shard  uint32
	parent *mh
	ref    *rb
	known  bool
}

type rb struct {
	name   string
	b      *types.RootBlock
	h      common.Hash
	num    uint32
	diff   *big.Int
	td     *big.Int
	time   uint64
	parent *rb
	list   []*mh
	last   map[uint32]*mh
}

func (a *rb) on(b *rb) bool {
	for ; a != nil && a.num > b.num; a = a.parent {
	}
	return a == b
}

const (
	cutoff, factor, minimum = 4, 2, 2
	coinbase                = 1000003
	epoch                   = 3
)

type world struct {
	e      *chainenv.Env
	bc     *core.RootBlockChain
	ids    []uint32
	start  map[uint32]uint32
	minors []*mh
	roots  []*rb // accepted
	head   *rb
	count  bool
	stale  uint64
	max    int
	extra  uint32
	serial int
}

// difficulty by the published formula (ETH Homestead without the bomb).
func difficulty(parent *rb, t uint64) *big.Int {
	k := int64(1) - int64((t-parent.time)/cutoff)
	if k < -99 {
		k = -99
	}
	d := parent.diff.Int64()
	d += d / factor * k
	if d < minimum {
		d = minimum
	}
	return big.NewInt(d)
}

func (w *world) reward(list []*mh, num uint32) map[uint64]*big.Int {
	out := map[uint64]*big.Int{}
	for _, m := range list {
		for k, v := range m.h.CoinbaseAmount.GetBalanceMap() {
			if out[k] == nil {
				out[k] = new(big.Int)
			}
			out[k].Add(out[k], v)
		}
	}
	rate := w.e.Cfg.Quarkchain.RewardCalculateRate
	for k, v := range out {
		out[k] = new(big.Int).Div(new(big.Int).Mul(v, rate.Num()), rate.Denom())
	}
	dec := w.e.Cfg.Quarkchain.BlockRewardDecayFactor
	n, d := big.NewInt(1), big.NewInt(1)
	for i := uint32(0); i < num/epoch; i++ {
		n = new(big.Int).Mul(n, dec.Num())
		d = new(big.Int).Mul(d, dec.Denom())
	}
	r := new(big.Int).Div(new(big.Int).Mul(big.NewInt(coinbase), n), d)
	if out[chainenv.QKC] == nil {
		out[chainenv.QKC] = new(big.Int)
	}
	out[chainenv.QKC].Add(out[chainenv.QKC], r)
	return out
}

func pow(h *types.RootBlockHeader, nonce uint64) *big.Int {
	s := h.SealHash()
	buf := append(append([]byte{}, s[:]...), make([]byte, 8)...)
	binary.BigEndian.PutUint64(buf[32:], nonce)
	a := sha256.Sum256(buf)
	b := sha256.Sum256(a[:])
	return new(big.Int).SetBytes(b[:])
}

func seal(h *types.RootBlockHeader, good bool) bool {
	if h.Difficulty.Sign() <= 0 {
		return true
	}
	target := new(big.Int).Div(new(big.Int).Lsh(big.NewInt(1), 256), h.Difficulty)
	for n := h.Nonce; n < h.Nonce+100000; n++ {
		if ok := pow(h, n).Cmp(target) <= 0; ok == good {
			h.Nonce = n
			return true
		}
	}
	return false
}

// newMinor makes a minor block header.
func (w *world) newMinor(rt *rapid.T, shard uint32, parent *mh, ref *rb, t uint64, known bool) *mh {
	w.serial++
	h := &types.MinorBlockHeader{Branch: account.Branch{Value: shard}, PrevRootBlockHash: ref.h, Time: t,
		Coinbase: account.NewAddress(chainenv.Addrs[rapid.IntRange(0, 2).Draw(rt, "miner")], chainenv.Key(shard, 0)), GasLimit: &serialize.Uint256{Value: big.NewInt(12000000)},
		Difficulty: big.NewInt(10), Nonce: uint64(w.serial), Extra: []byte{}}
	if parent != nil {
		h.Number, h.ParentHash = parent.h.Number+1, parent.hash
	}
	am := map[uint64]*big.Int{chainenv.QKC: big.NewInt(int64(rapid.IntRange(0, 1000).Draw(rt, "amount")))}
	if rapid.IntRange(0, 3).Draw(rt, "other") == 0 {
		am[hist.TokA] = big.NewInt(int64(rapid.IntRange(1, 9).Draw(rt, "amountA")))
	}
	h.CoinbaseAmount = types.NewTokenBalancesWithMap(am)
	m := &mh{h: h, hash: h.Hash(), shard: shard, parent: parent, ref: ref, known: known}
	w.minors = append(w.minors, m)
	if known {
		w.bc.AddValidatedMinorBlockHeader(m.hash, h.CoinbaseAmount)
	}
	return m
}

func (w *world) anc(rt *rapid.T, r *rb) *rb {
	for r.parent != nil && rapid.IntRange(0, 2).Draw(rt, "older") == 0 {
		r = r.parent
	}
	return r
}

// plan is a root block before sealing.
type plan struct {
	h        *types.RootBlockHeader
	list     []*mh
	tracking []byte
	parent   *rb
	merkle   *common.Hash
	amounts  map[uint64]*big.Int
	badSeal  bool
	why      string
}

func (w *world) valid(rt *rapid.T, parent *rb) *plan {
	t := parent.time + uint64(rapid.SampledFrom([]int{1, 1, 2, 3, 4, 5, 8, 13, 60, 500}).Draw(rt, "dt"))
	d := difficulty(parent, t)
	w.serial++
	p := &plan{parent: parent, h: &types.RootBlockHeader{Number: parent.num + 1, ParentHash: parent.h, Time: t, Difficulty: d, ToTalDifficulty: new(big.Int).Add(parent.td, d),
		Coinbase: account.NewAddress(chainenv.Addrs[4], chainenv.Key(w.ids[0], 0)), Extra: []byte{byte(w.serial), byte(w.serial >> 8)}, Root: types.EmptyTrieHash}}
	if rapid.IntRange(0, 5).Draw(rt, "sized") == 0 {
		p.h.Extra = append(p.h.Extra, make([]byte, int(w.extra)-2)...)
		p.tracking = make([]byte, w.extra)
	}
	for _, s := range w.ids {
		if w.start[s] >= parent.num+1 || rapid.IntRange(0, 2).Draw(rt, "shard") == 0 {
			continue
		}
		last := parent.last[s]
		n := rapid.IntRange(0, w.max).Draw(rt, "n")
		for i := 0; i < n; i++ {
			var pick *mh
			if rapid.Bool().Draw(rt, "reuse") {
				for _, m := range w.minors {
					if m.known && m.shard == s && m.parent == last && m.h.Time <= t && parent.on(m.ref) {
						pick = m
					}
				}
			}
			if pick == nil {
				pick = w.newMinor(rt, s, last, w.anc(rt, parent), t-uint64(rapid.IntRange(0, 1).Draw(rt, "mt")), true)
			}
			p.list = append(p.list, pick)
			last = pick
		}
	}
	return p
}

func (w *world) make(p *plan) *types.RootBlock {
	var hs types.MinorBlockHeaders
	for _, m := range p.list {
		hs = append(hs, m.h)
	}
	am := p.amounts
	if am == nil {
		am = w.reward(p.list, p.h.Number)
	}
	h := *p.h
	h.CoinbaseAmount = types.NewTokenBalancesWithMap(am)
	h.MinorHeaderHash = types.CalculateMerkleRoot(hs)
	if p.merkle != nil {
		h.MinorHeaderHash = *p.merkle
	}
	if !seal(&h, !p.badSeal) {
		return nil
	}
	return types.NewRootBlock(&h, hs, p.tracking).WithSeal(&h)
}

// spoil breaks exactly one rule.
func (w *world) spoil(rt *rapid.T, p *plan) bool {
	par := p.parent
	i := -1
	if len(p.list) > 0 {
		i = rapid.IntRange(0, len(p.list)-1).Draw(rt, "at")
	}
	need := func(c bool) bool { return c }
	with := func(j int, m *mh) {
		p.list = append(append(append([]*mh{}, p.list[:j]...), m), p.list[j+1:]...)
	}
	without := func(j int) { p.list = append(append([]*mh{}, p.list[:j]...), p.list[j+1:]...) }
	// the last header of its shard can be replaced freely
	lastOf := func(j int) bool { return j+1 == len(p.list) || p.list[j+1].shard != p.list[j].shard }
	switch k := rapid.IntRange(0, 27).Draw(rt, "rule"); k {
	case 0:
		p.why = "height+1"
		p.h.Number++
	case 1:
		p.why = "height same as parent"
		p.h.Number--
	case 2:
		p.why = "time of parent"
		p.h.Time = par.time
		if len(p.list) > 0 {
			return false
		}
	case 3:
		p.why = "difficulty+1"
		p.h.Difficulty = new(big.Int).Add(p.h.Difficulty, big.NewInt(1))
		p.h.ToTalDifficulty = new(big.Int).Add(par.td, p.h.Difficulty)
	case 4:
		p.why = "difficulty-1"
		p.h.Difficulty = new(big.Int).Sub(p.h.Difficulty, big.NewInt(1))
		p.h.ToTalDifficulty = new(big.Int).Add(par.td, p.h.Difficulty)
	case 5:
		p.why = "total difficulty+1"
		p.h.ToTalDifficulty = new(big.Int).Add(p.h.ToTalDifficulty, big.NewInt(int64(rapid.SampledFrom([]int{1, -1, 1000}).Draw(rt, "by"))))
	case 6:
		p.why = "reward"
		p.amounts = w.reward(p.list, p.h.Number)
		x := p.amounts[chainenv.QKC]
		p.amounts[chainenv.QKC] = new(big.Int).Add(x, big.NewInt(int64(rapid.SampledFrom([]int{1, -1}).Draw(rt, "by"))))
	case 7:
		p.why = "reward in another token"
		p.amounts = w.reward(p.list, p.h.Number)
		if v := p.amounts[hist.TokA]; v != nil && v.Sign() > 0 {
			delete(p.amounts, hist.TokA)
		} else {
			p.amounts[hist.TokA] = big.NewInt(1)
		}
	case 8:
		p.why = "merkle root"
		h := common.Hash{1}
		p.merkle = &h
	case 9:
		p.why = "state root"
		p.h.Root = common.Hash{7}
	case 10:
		p.why = "version"
		p.h.Version = 1
	case 11:
		p.why = "extra data too long"
		p.h.Extra = make([]byte, w.extra+1)
	case 12:
		p.why = "tracking data too long"
		p.tracking = make([]byte, w.extra+1)
	case 13:
		p.why = "seal"
		p.badSeal = true
	case 14:
		p.why = "unknown parent"
		p.h.ParentHash = common.Hash{9}
	case 15:
		if !need(i >= 0 && lastOf(i)) {
			return false
		}
		p.why = "minor block not known"
		o := p.list[i]
		with(i, w.newMinor(rt, o.shard, o.parent, o.ref, o.h.Time, false))
	case 16:
		if !need(i >= 0 && i+1 < len(p.list) && p.list[i].shard == p.list[i+1].shard) {
			return false
		}
		p.why = "gap in a shard"
		without(i)
	case 17:
		if i < 0 || !lastOf(i) || p.list[i].parent == nil {
			return false
		}
		p.why = "minor block repeated"
		p.list = append(append(append([]*mh{}, p.list[:i+1]...), p.list[i]), p.list[i+1:]...)
		if w.tooMany(p.list) {
			return false
		}
	case 18:
		if i < 0 || !lastOf(i) {
			return false
		}
		p.why = "minor block above its parent in height but not in hash"
		o := p.list[i]
		sib := w.newMinor(rt, o.shard, o.parent, o.ref, o.h.Time, true)
		sib.h.ParentHash = common.Hash{3}
		if o.parent == nil {
			sib.h.ParentHash, sib.h.Number = common.Hash{}, 1
		}
		sib.hash = sib.h.Hash()
		w.bc.AddValidatedMinorBlockHeader(sib.hash, sib.h.CoinbaseAmount)
		sib.known = false
		with(i, sib)
	case 19:
		if i < 0 || !lastOf(i) {
			return false
		}
		var others []*rb
		for _, r := range w.roots {
			if !par.on(r) {
				others = append(others, r)
			}
		}
		if len(others) == 0 {
			return false
		}
		p.why = "minor block refers to a root block off the chain"
		o := p.list[i]
		with(i, w.newMinor(rt, o.shard, o.parent, rapid.SampledFrom(others).Draw(rt, "off"), o.h.Time, true))
	case 20:
		if i < 0 || !lastOf(i) {
			return false
		}
		p.why = "minor block refers to an unknown root block"
		o := p.list[i]
		with(i, w.newMinor(rt, o.shard, o.parent, &rb{h: common.Hash{8}}, o.h.Time, true))
	case 21:
		if i < 0 || !lastOf(i) {
			return false
		}
		p.why = "minor block younger than the root block"
		o := p.list[i]
		with(i, w.newMinor(rt, o.shard, o.parent, o.ref, p.h.Time+1, true))
	case 22:
		if i < 0 || !lastOf(i) {
			return false
		}
		p.why = "too many minor blocks of one shard"
		var ins []*mh
		last := p.list[i]
		n := 0
		for _, m := range p.list {
			if m.shard == last.shard {
				n++
			}
		}
		for ; n <= w.max; n++ {
			last = w.newMinor(rt, last.shard, last, last.ref, last.h.Time, true)
			ins = append(ins, last)
		}
		p.list = append(append(append([]*mh{}, p.list[:i+1]...), ins...), p.list[i+1:]...)
	case 23:
		p.why = "shard not yet started"
		s := uint32(0)
		for _, x := range w.ids {
			if w.start[x] >= par.num+1 {
				s = x
			}
		}
		if s == 0 {
			return false
		}
		p.list = append(p.list, w.newMinor(rt, s, nil, par, p.h.Time, true))
		sort.SliceStable(p.list, func(a, b int) bool { return p.list[a].shard < p.list[b].shard })
	case 24:
		if i < 0 || i+1 >= len(p.list) || p.list[i].shard == p.list[i+1].shard {
			return false
		}
		p.why = "shards out of order"
		p.list = append(append([]*mh{}, p.list[i+1:]...), p.list[:i+1]...)
	case 25:
		var prev *mh
		for _, s := range w.ids {
			if par.last[s] != nil {
				prev = par.last[s]
			}
		}
		if prev == nil {
			return false
		}
		for _, m := range p.list {
			if m.shard == prev.shard {
				return false
			}
		}
		p.why = "minor block confirmed again"
		p.list = append(p.list, prev)
		sort.SliceStable(p.list, func(a, b int) bool { return p.list[a].shard < p.list[b].shard })
	case 26:
		p.why = "skips an unconfirmed minor block"
		s := rapid.SampledFrom(w.ids).Draw(rt, "skip")
		if w.start[s] >= par.num+1 {
			return false
		}
		for _, m := range p.list {
			if m.shard == s {
				return false
			}
		}
		a := w.newMinor(rt, s, par.last[s], par, p.h.Time, true)
		p.list = append(p.list, w.newMinor(rt, s, a, par, p.h.Time, true))
		sort.SliceStable(p.list, func(a, b int) bool { return p.list[a].shard < p.list[b].shard })
	case 27:
		if par.num+1 == 1 {
			return false
		}
		p.why = "time before parent"
		p.h.Time = par.time - 1
		if len(p.list) > 0 {
			return false
		}
	}
	return true
}

func (w *world) tooMany(l []*mh) bool {
	n := map[uint32]int{}
	for _, m := range l {
		n[m.shard]++
		if n[m.shard] > w.max {
			return true
		}
	}
	return false
}

func (w *world) check() error {
	bc := w.bc
	if cur := bc.CurrentBlock(); cur.Hash() != w.head.h {
		return fmt.Errorf("head is %x (height %d, total difficulty %v), the rule says %s", cur.Hash(), cur.Number(), cur.TotalDifficulty(), w.head.name)
	}
	if bc.CurrentHeader().Hash() != w.head.h {
		return fmt.Errorf("CurrentHeader differs from the head %s", w.head.name)
	}
	where := map[*mh]*rb{}
	pos := map[*mh]int{}
	top := uint32(0)
	for _, r := range w.roots {
		if r.num > top {
			top = r.num
		}
	}
	for r := w.head; r != nil; r = r.parent {
		for i, m := range r.list {
			where[m], pos[m] = r, i
		}
		b := bc.GetBlockByNumber(uint64(r.num))
		if b == nil || b.Hash() != r.h {
			return fmt.Errorf("the block at height %d is not %s", r.num, r.name)
		}
		if h := bc.GetHeaderByNumber(uint64(r.num)); h == nil || h.Hash() != r.h {
			return fmt.Errorf("the header at height %d is not %s", r.num, r.name)
		}
	}
	for n := w.head.num + 1; n <= top+1; n++ {
		if bc.GetBlockByNumber(uint64(n)) != nil {
			return fmt.Errorf("there is a block at height %d above the head %s", n, w.head.name)
		}
	}
	db := w.e.DBs[0]
	for _, m := range w.minors {
		_, rh, idx := rawdb.ReadMinorHeaderFromRootBlock(db, m.hash)
		r := where[m]
		if r == nil && rh != (common.Hash{}) {
			return fmt.Errorf("minor block %x is not confirmed on the chain but is found in root block %x", m.hash, rh)
		}
		if r != nil && (rh != r.h || int(idx) != pos[m]) {
			return fmt.Errorf("minor block %x is header %d of %s, but found as %d of %x", m.hash, pos[m], r.name, idx, rh)
		}
		if w.count {
			g := bc.GetRootBlockConfirmingMinorBlock(encoder.IDEncoder(m.hash.Bytes(), m.shard))
			if r == nil && g != (common.Hash{}) {
				return fmt.Errorf("minor block %x is said to be confirmed by %x, which is not on the chain", m.hash, g)
			}
			if r != nil && g != r.h {
				return fmt.Errorf("minor block %x is said to be confirmed by %x, expected %s", m.hash, g, r.name)
			}
		}
		if bc.IsMinorBlockValidated(m.hash) != m.known && !strings.HasPrefix(fmt.Sprintf("%x", m.h.ParentHash), "03") && m.h.Number != 1 {
			return fmt.Errorf("minor block %x known: %v", m.hash, !m.known)
		}
	}
	for _, r := range w.roots {
		if g, ok := bc.GetBlock(r.h).(*types.RootBlock); !ok || g.Hash() != r.h || len(g.MinorBlockHeaders()) != len(r.list) {
			return fmt.Errorf("accepted block %s cannot be read back", r.name)
		}
		got := bc.GetLatestMinorBlockHeaders(r.h)
		if len(got) != len(r.last) {
			return fmt.Errorf("%s: %d shards confirmed, expected %d", r.name, len(got), len(r.last))
		}
		for s, m := range r.last {
			if got[s] == nil || got[s].Hash() != m.hash {
				return fmt.Errorf("%s: last confirmed header of shard %x is wrong", r.name, s)
			}
			if h := bc.GetLastConfirmedMinorBlockHeader(r.h, s); h == nil || h.Hash() != m.hash {
				return fmt.Errorf("%s: GetLastConfirmedMinorBlockHeader of shard %x is wrong", r.name, s)
			}
		}
	}
	if w.count {
		for r := w.head; r != nil; r = r.parent {
			want := map[uint32]map[common.Address]uint32{}
			for x := r; x != nil; x = x.parent {
				for _, m := range x.list {
					if want[m.shard] == nil {
						want[m.shard] = map[common.Address]uint32{}
					}
					want[m.shard][m.h.Coinbase.Recipient]++
				}
			}
			got, err := bc.GetBlockCount(r.num)
			if err != nil {
				return err
			}
			for _, s := range w.ids {
				for _, a := range chainenv.Addrs[:3] {
					// the count is over the shards started before this height
					if w.start[s] < r.num && got[s][a] != want[s][a] {
						return fmt.Errorf("at %s miner %x has %d blocks in shard %x, counted %d", r.name, a[:3], want[s][a], s, got[s][a])
					}
				}
			}
		}
	}
	return nil
}

func TestRootChain(t *testing.T) {
	rule := "the head moved to a block that does not extend it, or a block that breaks a rule was refused"
	vlib.Check(t, 500, 20000, rule, func(rt *rapid.T, c *vlib.C) {
		w := &world{start: map[uint32]uint32{}}
		w.count = rapid.Bool().Draw(rt, "count")
		w.stale = uint64(rapid.SampledFrom([]int{3, 22500, 22500}).Draw(rt, "stale"))
		w.extra = 64
		opt := chainenv.Opt{ChainSize: 2, ShardSize: 2, Only: []uint32{}, Mutate: func(cc *config.ClusterConfig) {
			q := cc.Quarkchain
			q.SkipRootDifficultyCheck = false
			q.BlockExtraDataSizeLimit = 64
			q.Root.MaxStaleRootBlockHeightDiff = w.stale
			q.Root.CoinbaseAmount = big.NewInt(coinbase)
			q.Root.EpochInterval = epoch
			q.Root.Genesis.Difficulty = 4
			q.Root.Genesis.Timestamp = 1000
			q.Root.PoSWConfig.Enabled = false
			q.RewardCalculateRate = big.NewRat(3, 7)
			q.BlockRewardDecayFactor = big.NewRat(4, 5)
			for _, id := range q.GetGenesisShardIds() {
				sc := q.GetShardConfigByFullShardID(id)
				sc.ExtraShardBlocksInRootBlock = 2
				sc.ConsensusConfig.TargetBlockTime = 10
				if id>>16 == 1 && id&1 == 0 {
					sc.Genesis.RootHeight = 0
				}
				if id == 0x10003 {
					sc.Genesis.RootHeight = 2
				}
			}
		}, Engine: func(uint32, *config.ClusterConfig) consensus.Engine {
			return doublesha256.New(&consensus.EthDifficultyCalculator{AdjustmentCutoff: cutoff, AdjustmentFactor: factor, MinimumDifficulty: big.NewInt(minimum)}, false, []byte{})
		}}
		e := chainenv.New(opt)
		defer e.Stop()
		w.e, w.bc = e, e.Root
		w.bc.SetEnableCountMinorBlocks(w.count)
		q := e.Cfg.Quarkchain
		w.ids = q.GetGenesisShardIds()
		sort.Slice(w.ids, func(i, j int) bool { return w.ids[i] < w.ids[j] })
		for _, id := range w.ids {
			w.start[id] = q.GetGenesisRootHeight(id)
			w.max = int(q.GetShardConfigByFullShardID(id).MaxBlocksPerShardInOneRootBlock())
		}
		g := e.Root.Genesis()
		g0 := &rb{name: "r0", b: g, h: g.Hash(), diff: g.Difficulty(), td: g.TotalDifficulty(), time: g.Time(), last: map[uint32]*mh{}}
		w.roots, w.head = []*rb{g0}, g0

		var held []*rb // valid but not yet delivered
		deliver := func(r *rb) {
			dist := int64(w.head.num) - int64(r.num)
			if dist < 0 {
				dist = -dist
			}
			ok := uint64(dist) <= w.stale
			have := false
			for _, x := range w.roots {
				have = have || x == r.parent
			}
			for _, m := range r.list {
				in := false
				for _, x := range w.roots {
					in = in || x == m.ref
				}
				have = have && in
			}
			ok = ok && have
			// a fresh copy, as from a peer
			data, err := serialize.SerializeToBytes(r.b)
			if err != nil {
				rt.Fatal(err)
			}
			cp := new(types.RootBlock)
			if err := serialize.DeserializeFromBytes(data, cp); err != nil {
				rt.Fatal(err)
			}
			_, err = w.bc.InsertChain([]types.IBlock{cp})
			if ok != (err == nil) {
				rt.Fatalf("inserting valid block %s (should be taken: %v, head %s): %v", r.name, ok, w.head.name, err)
			}
			if ok {
				w.roots = append(w.roots, r)
				if cmp := r.td.Cmp(w.head.td); cmp > 0 || (cmp == 0 && r.num < w.head.num) {
					if !r.on(w.head) {
						c.Label("reorg")
						if r.num < w.head.num {
							c.Label("reorg-to-shorter")
						}
						if r.num == w.head.num {
							c.Label("reorg-to-equal-height")
						}
						c.NonTrivial("%s replaces %s", r.name, w.head.name)
					}
					w.head = r
				}
				for k, h := range held {
					if h == r {
						held = append(append([]*rb{}, held[:k]...), held[k+1:]...)
						break
					}
				}
			} else {
				c.Label("undeliverable")
				if w.bc.HasBlock(r.h) {
					rt.Fatalf("undeliverable block %s is stored", r.name)
				}
			}
			if err := w.check(); err != nil {
				rt.Fatalf("after %s: %v", r.name, err)
			}
		}
		steps := rapid.IntRange(8, 22).Draw(rt, "steps")
		bold := rapid.SampledFrom([]int{1, 2, 5}).Draw(rt, "bold")
		for step := 0; step < steps; step++ {
			all := append(append([]*rb{}, w.roots...), held...)
			parent := all[len(all)-1]
			switch rapid.IntRange(0, 1+bold).Draw(rt, "par") {
			case 0:
				parent = w.head
			case 1:
			default:
				parent = rapid.SampledFrom(all).Draw(rt, "parent")
			}
			switch op := rapid.SampledFrom([]int{0, 0, 0, 0, 1, 2, 2, 3, 3, 4}).Draw(rt, "op"); op {
			case 0, 1:
				p := w.valid(rt, parent)
				b := w.make(p)
				if b == nil {
					rt.Skip("no seal found")
				}
				r := &rb{name: fmt.Sprintf("r%d(%s,%d,td%v)", len(all), strings.SplitN(parent.name, "(", 2)[0], b.Number(), b.TotalDifficulty()), b: b, h: b.Hash(), num: b.Number(), diff: b.Difficulty(), td: b.TotalDifficulty(), time: b.Time(), parent: parent, list: p.list, last: map[uint32]*mh{}}
				for k, v := range parent.last {
					r.last[k] = v
				}
				for _, m := range p.list {
					r.last[m.shard] = m
				}
				if op == 1 {
					held = append(held, r)
				} else {
					held = append(held, r)
					deliver(r)
				}
			case 2:
				known := false
				for _, x := range w.roots {
					known = known || x == parent
				}
				if !known {
					continue
				}
				p := w.valid(rt, parent)
				if !w.spoil(rt, p) {
					continue
				}
				b := w.make(p)
				if b == nil {
					continue
				}
				if w.bc.HasBlock(b.Hash()) {
					continue
				}
				if _, err := w.bc.InsertChain([]types.IBlock{b}); err == nil {
					rt.Fatalf("a block breaking the rule %q was accepted", p.why)
				}
				c.Label("%s", p.why)
				if w.bc.HasBlock(b.Hash()) {
					rt.Fatalf("a refused block (%s) is stored", p.why)
				}
				if err := w.check(); err != nil {
					rt.Fatalf("after a block with %s: %v", p.why, err)
				}
				c.NonTrivial("refused %s on %s", p.why, parent.name)
			case 3:
				if len(held) > 0 {
					deliver(rapid.SampledFrom(held).Draw(rt, "held"))
				}
			case 4: // known again
				r := rapid.SampledFrom(w.roots).Draw(rt, "again")
				if r != g0 {
					w.bc.InsertChain([]types.IBlock{r.b})
					if err := w.check(); err != nil {
						rt.Fatalf("after repeating %s: %v", r.name, err)
					}
				}
			}
		}
	})
}
