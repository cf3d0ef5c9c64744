package c15

import (
	"crypto/sha256"
	"encoding/binary"
	"math/big"
	"sort"

	"github.com/ethereum/go-ethereum/crypto"
)

// ---- double SHA-256 ----

func refSha(seal []byte, nonce uint64) []byte {
	d := make([]byte, 40)
	copy(d, seal)
	binary.BigEndian.PutUint64(d[32:], nonce)
	a := sha256.Sum256(d)
	b := sha256.Sum256(a[:])
	return b[:]
}

// ---- qkchash ----

// set is a 2-3 left-leaning red-black tree with counts, in arrays (node 0 is
// nil), that folds its rotations into a 256-bit register.
type set struct {
	v    []uint64
	l, r []int32
	n    []int32
	red  []bool
	free []int32
	root int32
	reg  [4]uint64
}

func newSet(ls []uint64) *set {
	s := &set{}
	s.alloc(0)
	s.red[0] = false
	s.n[0] = 0
	for _, v := range ls {
		s.add(v)
	}
	return s
}

func (s *set) clone() *set {
	c := *s
	c.v = append([]uint64(nil), s.v...)
	c.l, c.r, c.n = append([]int32(nil), s.l...), append([]int32(nil), s.r...), append([]int32(nil), s.n...)
	c.red = append([]bool(nil), s.red...)
	c.free = append([]int32(nil), s.free...)
	return &c
}

func (s *set) alloc(v uint64) int32 {
	if k := len(s.free); k > 0 {
		x := s.free[k-1]
		s.free = s.free[:k-1]
		s.v[x], s.l[x], s.r[x], s.n[x], s.red[x] = v, 0, 0, 1, true
		return x
	}
	s.v, s.l, s.r, s.n, s.red = append(s.v, v), append(s.l, 0), append(s.r, 0), append(s.n, 1), append(s.red, true)
	return int32(len(s.v) - 1)
}

func (s *set) count(x int32) { s.n[x] = s.n[s.l[x]] + s.n[s.r[x]] + 1 }

// rotated: the register turns left by one bit; a right rotation flips the lowest.
func (s *set) rotated(right bool) {
	top := s.reg[3] >> 63
	for i := 3; i > 0; i-- {
		s.reg[i] = s.reg[i]<<1 | s.reg[i-1]>>63
	}
	s.reg[0] = s.reg[0]<<1 | top
	if right {
		s.reg[0] ^= 1
	}
}

func (s *set) left(h int32) int32 {
	x := s.r[h]
	s.r[h], s.l[x] = s.l[x], h
	s.red[x], s.red[h] = s.red[h], true
	s.count(h)
	s.count(x)
	s.rotated(false)
	return x
}

func (s *set) right(h int32) int32 {
	x := s.l[h]
	s.l[h], s.r[x] = s.r[x], h
	s.red[x], s.red[h] = s.red[h], true
	s.count(h)
	s.count(x)
	s.rotated(true)
	return x
}

func (s *set) flip(h int32) {
	for _, x := range []int32{h, s.l[h], s.r[h]} {
		s.red[x] = !s.red[x]
	}
}

func (s *set) add(v uint64) {
	s.root = s.ins(s.root, v)
	s.red[s.root] = false
}

func (s *set) ins(h int32, v uint64) int32 {
	if h == 0 {
		return s.alloc(v)
	}
	if v < s.v[h] {
		x := s.ins(s.l[h], v)
		s.l[h] = x
	} else if v > s.v[h] {
		x := s.ins(s.r[h], v)
		s.r[h] = x
	}
	if s.red[s.r[h]] && !s.red[s.l[h]] {
		h = s.left(h)
	}
	return s.up(h)
}

func (s *set) up(h int32) int32 {
	if s.red[s.l[h]] && s.red[s.l[s.l[h]]] {
		h = s.right(h)
	}
	if s.red[s.l[h]] && s.red[s.r[h]] {
		s.flip(h)
	}
	s.count(h)
	return h
}

func (s *set) fix(h int32) int32 {
	if s.red[s.r[h]] {
		h = s.left(h)
	}
	return s.up(h)
}

func (s *set) redLeft(h int32) int32 {
	s.flip(h)
	if s.red[s.l[s.r[h]]] {
		s.r[h] = s.right(s.r[h])
		h = s.left(h)
		s.flip(h)
	}
	return h
}

func (s *set) redRight(h int32) int32 {
	s.flip(h)
	if s.red[s.l[s.l[h]]] {
		h = s.right(h)
		s.flip(h)
	}
	return h
}

// take removes and returns the k-th smallest value.
func (s *set) take(k int32) uint64 {
	var v uint64
	s.root, v = s.del(s.root, k)
	if s.root != 0 {
		s.red[s.root] = false
	}
	return v
}

func (s *set) del(h, k int32) (int32, uint64) {
	var v uint64
	if k < s.n[s.l[h]] {
		if !s.red[s.l[h]] && !s.red[s.l[s.l[h]]] {
			h = s.redLeft(h)
		}
		s.l[h], v = s.del(s.l[h], k)
		return s.fix(h), v
	}
	if s.red[s.l[h]] {
		h = s.right(h)
	}
	if k == s.n[s.l[h]] && s.r[h] == 0 {
		s.free = append(s.free, h)
		return 0, s.v[h]
	}
	if s.r[h] != 0 && !s.red[s.r[h]] && !s.red[s.l[s.r[h]]] {
		h = s.redRight(h)
	}
	if at := s.n[s.l[h]]; k == at {
		v = s.v[h]
		s.r[h], s.v[h] = s.delMin(s.r[h])
	} else {
		s.r[h], v = s.del(s.r[h], k-at-1)
	}
	return s.fix(h), v
}

func (s *set) delMin(h int32) (int32, uint64) {
	if s.l[h] == 0 {
		s.free = append(s.free, h)
		return 0, s.v[h]
	}
	if !s.red[s.l[h]] && !s.red[s.l[s.l[h]]] {
		h = s.redLeft(h)
	}
	var v uint64
	s.l[h], v = s.delMin(s.l[h])
	return s.fix(h), v
}

func fnv64(a, b uint64) uint64 { return a*0x100000001b3 ^ b }

// refMix is the ordered-set mix over s (which it destroys).
func refMix(s *set, seed []byte, useX bool) [4]uint64 {
	var w [8]uint64
	for i := range w {
		w[i] = binary.LittleEndian.Uint64(seed[8*i:])
	}
	var mix, data [16]uint64
	for i := range mix {
		mix[i] = w[i%8]
	}
	for i := 0; i < 64; i++ {
		p := fnv64(uint64(i)^w[0], mix[i%16])
		for j := range data {
			data[j] = s.take(int32(p % uint64(s.n[s.root])))
			p = fnv64(p, data[j])
			s.add(p)
			p = fnv64(p, data[j])
		}
		for j := range mix {
			mix[j] = fnv64(mix[j], data[j])
		}
	}
	var out [4]uint64
	for i := range out {
		out[i] = fnv64(fnv64(fnv64(mix[4*i], mix[4*i+1]), mix[4*i+2]), mix[4*i+3])
		if useX {
			out[i] ^= s.reg[i]
		}
	}
	return out
}

// refSlice is the mix over a plain sorted list, without the rotation register.
func refSlice(ls []uint64, seed []byte) [4]uint64 {
	s := append([]uint64(nil), ls...)
	sort.Slice(s, func(i, j int) bool { return s[i] < s[j] })
	var mix [16]uint64
	for i := range mix {
		mix[i] = binary.LittleEndian.Uint64(seed[8*(i%8):])
	}
	head := mix[0]
	for i := 0; i < 64; i++ {
		var data [16]uint64
		p := fnv64(uint64(i)^head, mix[i%16])
		for j := range data {
			k := int(p % uint64(len(s)))
			data[j] = s[k]
			s = append(s[:k], s[k+1:]...)
			p = fnv64(p, data[j])
			if at := sort.Search(len(s), func(i int) bool { return s[i] >= p }); at == len(s) || s[at] != p {
				s = append(s, 0)
				copy(s[at+1:], s[at:])
				s[at] = p
			}
			p = fnv64(p, data[j])
		}
		for j := range mix {
			mix[j] = fnv64(mix[j], data[j])
		}
	}
	var out [4]uint64
	for i := range out {
		out[i] = fnv64(fnv64(fnv64(mix[4*i], mix[4*i+1]), mix[4*i+2]), mix[4*i+3])
	}
	return out
}

type epochSet struct {
	ls  []uint64
	set *set
}

var sets = map[uint64]*epochSet{}

// epochOf gives the set of an epoch: distinct 64-bit words of the Keccak-512
// stream under the epoch's seed, Keccak-256 iterated from zero.
func epochOf(e uint64) *epochSet {
	if s := sets[e]; s != nil {
		return s
	}
	seed := make([]byte, 32)
	for i := uint64(0); i < e; i++ {
		seed = crypto.Keccak256(seed)
	}
	seen := map[uint64]bool{}
	var ls []uint64
	for i := uint32(0); i < 65536/8; i++ {
		d := append(append([]byte(nil), seed...), 0, 0, 0, 0)
		binary.BigEndian.PutUint32(d[32:], i)
		h := crypto.Keccak512(d)
		for j := 0; j < 64; j += 8 {
			v := binary.LittleEndian.Uint64(h[j:])
			if !seen[v] {
				seen[v] = true
				ls = append(ls, v)
			}
		}
	}
	sort.Slice(ls, func(i, j int) bool { return ls[i] < ls[j] })
	s := &epochSet{ls, newSet(ls)}
	if len(sets) > 48 {
		sets = map[uint64]*epochSet{}
	}
	sets[e] = s
	return s
}

func pack(w [4]uint64) []byte {
	d := make([]byte, 32)
	for i, v := range w {
		binary.LittleEndian.PutUint64(d[8*i:], v)
	}
	return d
}

func refQkc(height, xHeight uint64, seal []byte, nonce uint64) (digest, result []byte) {
	d := make([]byte, 40)
	copy(d, seal)
	binary.LittleEndian.PutUint64(d[32:], nonce)
	seed := crypto.Keccak512(d)
	digest = pack(refMix(epochOf(height/30000).set.clone(), seed, height >= xHeight))
	return digest, crypto.Keccak256(seed, digest)
}

// ---- ethash ----

func fnv32(a, b uint32) uint32 { return a*0x01000193 ^ b }

type ethCache [][16]uint32

func words(b []byte) (w [16]uint32) {
	for i := range w {
		w[i] = binary.LittleEndian.Uint32(b[4*i:])
	}
	return
}

func bytesOf(w [16]uint32) []byte {
	b := make([]byte, 64)
	for i, v := range w {
		binary.LittleEndian.PutUint32(b[4*i:], v)
	}
	return b
}

func prime(n uint64) bool { return new(big.Int).SetUint64(n).ProbablyPrime(20) }

func ethCacheSize(e uint64) uint64 {
	sz := uint64(1<<24) + (1<<17)*e - 64
	for !prime(sz / 64) {
		sz -= 128
	}
	return sz
}

func ethDataSize(e uint64) uint64 {
	sz := uint64(1<<30) + (1<<23)*e - 128
	for !prime(sz / 128) {
		sz -= 256
	}
	return sz
}

func ethSeed(e uint64) []byte {
	s := make([]byte, 32)
	for i := uint64(0); i < e; i++ {
		s = crypto.Keccak256(s)
	}
	return s
}

func makeEthCache(size uint64, seed []byte) ethCache {
	n := int(size / 64)
	rows := make([][]byte, n)
	rows[0] = crypto.Keccak512(seed)
	for i := 1; i < n; i++ {
		rows[i] = crypto.Keccak512(rows[i-1])
	}
	for r := 0; r < 3; r++ {
		for i := range rows {
			v := int(binary.LittleEndian.Uint32(rows[i]) % uint32(n))
			x := make([]byte, 64)
			for k := range x {
				x[k] = rows[(i+n-1)%n][k] ^ rows[v][k]
			}
			rows[i] = crypto.Keccak512(x)
		}
	}
	c := make(ethCache, n)
	for i := range c {
		c[i] = words(rows[i])
	}
	return c
}

func (c ethCache) item(i uint32) [16]uint32 {
	n := uint32(len(c))
	mix := c[i%n]
	mix[0] ^= i
	mix = words(crypto.Keccak512(bytesOf(mix)))
	for j := uint32(0); j < 256; j++ {
		row := c[fnv32(i^j, mix[j%16])%n]
		for k := range mix {
			mix[k] = fnv32(mix[k], row[k])
		}
	}
	return words(crypto.Keccak512(bytesOf(mix)))
}

func (c ethCache) hash(size uint64, seal []byte, nonce uint64) (digest, result []byte) {
	d := make([]byte, 40)
	copy(d, seal)
	binary.LittleEndian.PutUint64(d[32:], nonce)
	seed := crypto.Keccak512(d)
	s := words(seed)
	var mix [32]uint32
	for i := range mix {
		mix[i] = s[i%16]
	}
	pages := uint32(size / 128)
	for i := uint32(0); i < 64; i++ {
		p := fnv32(i^s[0], mix[i%32]) % pages
		a, b := c.item(2*p), c.item(2*p+1)
		for k := 0; k < 16; k++ {
			mix[k], mix[16+k] = fnv32(mix[k], a[k]), fnv32(mix[16+k], b[k])
		}
	}
	digest = make([]byte, 32)
	for i := 0; i < 8; i++ {
		binary.LittleEndian.PutUint32(digest[4*i:], fnv32(fnv32(fnv32(mix[4*i], mix[4*i+1]), mix[4*i+2]), mix[4*i+3]))
	}
	return digest, crypto.Keccak256(seed, digest)
}
