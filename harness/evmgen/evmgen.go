// Package evmgen generates contract code: structured programs (arithmetic,
// memory, storage, environment, calls, creations, logs, jumps and loops) whose
// operands come from boundary values, ended so that results become visible,
// and also plain byte noise.
package evmgen

import (
	"encoding/binary"
	"math/big"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	"pgregory.net/rapid"
)

// World is what the programs may refer to.
type World struct {
	Contracts []common.Address // accounts whose code is generated
	Others    []common.Address // accounts without code, missing accounts
	Coinbase  common.Address
	NoLoop    bool // no backward jumps, no calls (bounded programs for very large gas)
}

var bounds []*big.Int

func init() {
	p := func(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }
	for _, n := range []uint{7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 160, 248, 255, 256} {
		for d := int64(-1); d <= 1; d++ {
			v := new(big.Int).Add(p(n), big.NewInt(d))
			if v.BitLen() <= 256 {
				bounds = append(bounds, v)
			}
		}
	}
	for i := int64(0); i < 40; i++ {
		bounds = append(bounds, big.NewInt(i))
	}
	for i := int64(1); i < 10; i++ {
		bounds = append(bounds, new(big.Int).Sub(p(256), big.NewInt(i)))
	}
}

// Val draws a 256-bit word, boundary values first.
func Val(rt *rapid.T, n string) *big.Int {
	switch rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(rt, n+"K") {
	case 0:
		return rapid.SampledFrom(bounds).Draw(rt, n)
	case 1:
		return new(big.Int).SetBytes(rapid.SliceOfN(rapid.Byte(), 1, 32).Draw(rt, n))
	}
	return big.NewInt(int64(rapid.SampledFrom([]int{0, 1, 2, 3, 5, 31, 32, 33, 64, 100, 255, 256, 257, 1023, 1 << 20}).Draw(rt, n)))
}

// Asm assembles code; labels are patched in Bytes.
type Asm struct {
	b     []byte
	blobs [][]byte
	fix   []fix
}

type fix struct{ at, blob int }

// Op appends raw bytes.
func (a *Asm) Op(b ...byte) *Asm { a.b = append(a.b, b...); return a }

// Push appends the shortest push of v.
func (a *Asm) Push(v *big.Int) *Asm {
	x := v.Bytes()
	if len(x) == 0 {
		x = []byte{0}
	}
	if len(x) > 32 {
		x = x[len(x)-32:]
	}
	return a.Op(byte(0x5f + len(x))).Op(x...)
}

// P pushes a small number.
func (a *Asm) P(v uint64) *Asm { return a.Push(new(big.Int).SetUint64(v)) }

// Addr pushes an address.
func (a *Asm) Addr(x common.Address) *Asm { return a.Op(0x73).Op(x[:]...) }

// P2 pushes two bytes to be filled in later and returns where they are.
func (a *Asm) P2() int { a.Op(0x61, 0, 0); return len(a.b) - 2 }

// Set fills in two bytes.
func (a *Asm) Set(at, v int) { binary.BigEndian.PutUint16(a.b[at:], uint16(v)) }

// Len is the current position.
func (a *Asm) Len() int { return len(a.b) }

// Blob pushes the offset of a data blob appended after the code.
func (a *Asm) Blob(d []byte) *Asm {
	at := a.P2()
	a.fix = append(a.fix, fix{at, len(a.blobs)})
	a.blobs = append(a.blobs, d)
	return a
}

// Bytes finishes the code.
func (a *Asm) Bytes() []byte {
	if len(a.blobs) > 0 {
		a.Op(0)
	}
	pos := make([]int, len(a.blobs))
	for i, d := range a.blobs {
		pos[i] = len(a.b)
		a.b = append(a.b, d...)
	}
	for _, f := range a.fix {
		a.Set(f.at, pos[f.blob])
	}
	return a.b
}

type op struct {
	code    byte
	pop, in int
}

// pops and pushes
var arith = []op{
	{0x01, 2, 1}, {0x02, 2, 1}, {0x03, 2, 1}, {0x04, 2, 1}, {0x05, 2, 1}, {0x06, 2, 1}, {0x07, 2, 1}, {0x08, 3, 1}, {0x09, 3, 1}, {0x0a, 2, 1}, {0x0b, 2, 1},
	{0x10, 2, 1}, {0x11, 2, 1}, {0x12, 2, 1}, {0x13, 2, 1}, {0x14, 2, 1}, {0x15, 1, 1}, {0x16, 2, 1}, {0x17, 2, 1}, {0x18, 2, 1}, {0x19, 1, 1}, {0x1a, 2, 1}, {0x1b, 2, 1}, {0x1c, 2, 1}, {0x1d, 2, 1},
}

// Arith lists the arithmetic opcodes with their number of operands.
func Arith() (codes []byte, args []int) {
	for _, o := range arith {
		codes, args = append(codes, o.code), append(args, o.pop)
	}
	return
}

var env0 = []byte{0x30, 0x32, 0x33, 0x34, 0x36, 0x38, 0x3a, 0x3d, 0x41, 0x42, 0x43, 0x44, 0x45, 0x58, 0x59, 0x5a}

type g struct {
	rt  *rapid.T
	w   *World
	a   *Asm
	h   int // stack height
	lvl int
}

func (x *g) pick(n string, w ...int) int {
	var l []int
	for i, k := range w {
		for j := 0; j < k; j++ {
			l = append(l, i)
		}
	}
	return rapid.SampledFrom(l).Draw(x.rt, n)
}

// off draws a memory offset or size; rarely enormous.
func (x *g) off(n string) *big.Int {
	switch x.pick(n+"k", 30, 6, 1) {
	case 0:
		return big.NewInt(int64(rapid.SampledFrom([]int{0, 1, 4, 31, 32, 33, 64, 96, 128}).Draw(x.rt, n)))
	case 1:
		return big.NewInt(int64(rapid.SampledFrom([]int{160, 255, 1023, 1024, 4096, 20000}).Draw(x.rt, n)))
	}
	return Val(x.rt, n)
}

func (x *g) addr(n string) common.Address {
	switch x.pick(n+"k", 8, 2, 1, 4) {
	case 0:
		if len(x.w.Contracts) > 0 {
			return rapid.SampledFrom(x.w.Contracts).Draw(x.rt, n)
		}
	case 2:
		return x.w.Coinbase
	case 3:
		return common.BytesToAddress([]byte{byte(x.pick(n+"p", 0, 1, 1, 1, 2, 1, 1, 1, 1))})
	}
	return rapid.SampledFrom(x.w.Others).Draw(x.rt, n)
}

func (x *g) push(v *big.Int) { x.a.Push(v); x.h++ }

func (x *g) slot() *big.Int {
	return big.NewInt(int64(rapid.SampledFrom([]int{0, 0, 1, 1, 2, 3}).Draw(x.rt, "slot")))
}

func (x *g) stmt(depth int) {
	a := x.a
	loop, call, create := 2, 8, 4
	if x.w.NoLoop {
		loop, call, create = 0, 0, 0
	}
	if depth > 2 {
		loop = 0
	}
	if x.lvl > 1 {
		create = 0
	}
	switch x.pick("stmt", 4, 12, 6, 8, 5, 3, 3, 4, loop, call, create, 3, 3, 2, 2, 1, 3) {
	case 0:
		x.push(Val(x.rt, "v"))
	case 1: // arithmetic
		o := rapid.SampledFrom(arith).Draw(x.rt, "op")
		fresh := o.pop
		if x.h >= o.pop && rapid.Bool().Draw(x.rt, "reuse") {
			fresh = rapid.SampledFrom([]int{0, 1}).Draw(x.rt, "fresh")
		}
		for i := 0; i < fresh; i++ {
			x.push(Val(x.rt, "v"))
		}
		a.Op(o.code)
		x.h += o.in - o.pop
	case 2: // memory
		switch x.pick("mem", 3, 2, 2) {
		case 0:
			x.push(x.off("o"))
			a.Op(0x51)
		case 1:
			if x.h == 0 {
				x.push(Val(x.rt, "v"))
			}
			x.push(x.off("o"))
			a.Op(0x52)
			x.h -= 2
		case 2:
			x.push(Val(x.rt, "v"))
			x.push(x.off("o"))
			a.Op(0x53)
			x.h -= 2
		}
	case 3: // storage
		if rapid.Bool().Draw(x.rt, "load") {
			x.push(x.slot())
			a.Op(0x54)
		} else {
			if x.h == 0 || rapid.Bool().Draw(x.rt, "fv") {
				x.push(big.NewInt(int64(x.pick("sv", 3, 2, 1))))
			}
			x.push(x.slot())
			a.Op(0x55)
			x.h -= 2
		}
	case 4:
		a.Op(rapid.SampledFrom(env0).Draw(x.rt, "env"))
		x.h++
	case 5: // about an account
		a.Addr(x.addr("of"))
		a.Op(rapid.SampledFrom([]byte{0x31, 0x3b, 0x3f}).Draw(x.rt, "acct"))
		x.h++
	case 6: // copies
		x.push(x.off("n"))
		x.push(x.off("s"))
		x.push(x.off("d"))
		k := rapid.SampledFrom([]byte{0x37, 0x39, 0x3e, 0x3c}).Draw(x.rt, "copy")
		if k == 0x3c {
			a.Addr(x.addr("of"))
		}
		a.Op(k)
		x.h -= 3
	case 7: // dup, swap, pop
		if x.h == 0 {
			x.push(Val(x.rt, "v"))
		}
		n := x.pick("n", 3, 3, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1)
		switch x.pick("ds", 3, 3, 2) {
		case 0:
			if n >= x.h {
				n = x.h - 1
			}
			a.Op(0x80 + byte(n))
			x.h++
		case 1:
			if n+1 >= x.h {
				return
			}
			a.Op(0x90 + byte(n))
		case 2:
			a.Op(0x50)
			x.h--
		}
	case 8: // bounded or gas-bounded loop
		n := uint64(rapid.SampledFrom([]int{1, 2, 3, 5, 40}).Draw(x.rt, "times"))
		a.P(n)
		x.h++
		top := a.Len()
		a.Op(0x5b)
		h := x.h
		for i := rapid.IntRange(0, 2).Draw(x.rt, "body"); i > 0; i-- {
			x.stmt(depth + 1)
		}
		for x.h > h {
			a.Op(0x50)
			x.h--
		}
		if x.h < h { // the body consumed the counter: no loop
			return
		}
		a.P(1).Op(0x90, 0x03, 0x80) // counter--
		p := a.P2()
		a.Set(p, top)
		a.Op(0x57)
	case 9:
		x.call()
	case 10:
		x.create()
	case 11: // log
		n := x.pick("topics", 1, 1, 1, 1, 1)
		for i := 0; i < n; i++ {
			a.Push(Val(x.rt, "topic"))
		}
		a.Push(x.off("n")).Push(x.off("o")).Op(0xa0 + byte(n))
	case 12: // forward jump over something
		a.Push(big.NewInt(int64(x.pick("cond", 1, 1))))
		p := a.P2()
		a.Op(0x57)
		h := x.h
		for i := rapid.IntRange(0, 2).Draw(x.rt, "skipped"); i > 0; i-- {
			x.stmt(depth + 1)
		}
		for x.h > h {
			a.Op(0x50)
			x.h--
		}
		a.Set(p, a.Len())
		a.Op(0x5b)
	case 13: // keccak
		x.push(x.off("n"))
		x.push(x.off("o"))
		a.Op(0x20)
		x.h--
	case 14:
		x.push(Val(x.rt, "v"))
		a.Op(rapid.SampledFrom([]byte{0x35, 0x40}).Draw(x.rt, "idx")) // CALLDATALOAD, BLOCKHASH
	case 15: // anything
		a.Op(rapid.Byte().Draw(x.rt, "raw"))
	case 16: // end early
		a.P(uint64(1 - x.pick("cond", 5, 1)))
		p := a.P2()
		a.Op(0x57)
		x.end()
		a.Set(p, a.Len())
		a.Op(0x5b)
	}
}

func (x *g) end() {
	a := x.a
	switch x.pick("end", 4, 3, 1, 3, 1, 1) {
	case 0:
		a.Push(x.off("n")).Push(x.off("o")).Op(0xf3)
	case 1:
		a.Push(x.off("n")).Push(x.off("o")).Op(0xfd)
	case 2:
		a.Op(0xfe)
	case 3:
		a.Addr(x.addr("heir")).Op(0xff)
	case 4:
		a.Op(0)
	case 5:
		a.Push(Val(x.rt, "jump")).Op(0x56)
	}
}

func (x *g) gas() {
	a := x.a
	switch x.pick("gasK", 5, 3, 2, 1) {
	case 0:
		a.Op(0x5a)
	case 1:
		a.P(uint64(rapid.SampledFrom([]int{0, 1, 100, 700, 2300, 5000, 21000, 50000}).Draw(x.rt, "gas")))
	case 2:
		a.P(60000)
	case 3:
		a.Push(Val(x.rt, "gas"))
	}
}

// precompile input of a plausible form
func (x *g) preInput(i int) []byte {
	rt := x.rt
	var d []byte
	word := func(v *big.Int) { d = append(d, common.LeftPadBytes(v.Bytes(), 32)...) }
	switch i {
	case 1:
		h := crypto.Keccak256([]byte{byte(x.pick("msg", 1, 1, 1))})
		sig, _ := crypto.Sign(h, preKey)
		d = append(d, h...)
		v := int64(sig[64]) + 27
		switch x.pick("v", 6, 1, 1, 1) {
		case 1:
			v = 55 - v
		case 2:
			v = int64(sig[64])
		case 3:
			v = 29
		}
		word(big.NewInt(v))
		if x.pick("rs", 5, 1) == 1 {
			word(Val(rt, "r"))
			word(Val(rt, "s"))
		} else {
			d = append(d, sig[:64]...)
		}
		if x.pick("vhigh", 8, 1) == 1 {
			d[33] = 1
		}
	case 5:
		bl, el, ml := uint64(x.pick("bl", 1, 2, 2, 0, 0, 0, 0, 0, 1)), uint64(x.pick("el", 1, 2, 2, 0, 0, 0, 0, 0, 1)), uint64(x.pick("ml", 1, 2, 2, 0, 0, 0, 0, 0, 1))
		if x.pick("big", 5, 1) == 1 {
			bl, el, ml = uint64(x.pick("bl", 1, 1)*40), uint64(x.pick("el", 1, 1)*40), uint64(x.pick("ml", 1, 1)*40)
		}
		word(new(big.Int).SetUint64(bl))
		word(new(big.Int).SetUint64(el))
		word(new(big.Int).SetUint64(ml))
		if x.pick("hugelen", 8, 1) == 1 {
			d = d[:len(d)-32]
			word(Val(rt, "len"))
		}
		d = append(d, rapid.SliceOfN(rapid.Byte(), 0, int(bl+el+ml)+2).Draw(rt, "bem")...)
	case 6, 7, 8:
		n := 2
		if i == 8 {
			n = x.pick("pairs", 1, 3, 2) * 3
		}
		for k := 0; k < n; k++ {
			if i == 8 && k%3 != 0 {
				continue
			}
			switch x.pick("pt", 5, 2, 1) {
			case 0:
				word(big.NewInt(1))
				word(big.NewInt(2))
			case 1:
				word(new(big.Int))
				word(new(big.Int))
			case 2:
				word(Val(rt, "x"))
				word(Val(rt, "y"))
			}
			if i == 8 {
				g2 := common.Hex2Bytes(g2gen)
				switch x.pick("g2", 5, 1, 1) {
				case 1:
					g2 = make([]byte, 128)
				case 2:
					g2[127] ^= 1
				}
				d = append(d, g2...)
			}
			if i == 7 {
				word(Val(rt, "k"))
				break
			}
		}
	default:
		d = rapid.SliceOfN(rapid.Byte(), 0, 100).Draw(rt, "in")
	}
	switch x.pick("cut", 6, 1, 1) {
	case 1:
		d = d[:rapid.IntRange(0, len(d)).Draw(rt, "cutAt")]
	case 2:
		d = append(d, 1, 2, 3)
	}
	return d
}

// PreInput draws the input of precompile i.
func PreInput(rt *rapid.T, i int) []byte {
	x := &g{rt: rt, w: &World{}, a: &Asm{}}
	return x.preInput(i)
}

const g2gen = "198e9393920d483a7260bfb731fb5d25f1aa493335a9e71297e485b7aef312c2" +
	"1800deef121f1e76426a00665e5c4479674322d4f75edadd46debd5cd992f6ed" +
	"090689d0585ff075ec9e99ad690c3395bc4b313370b38ef355acdadcd122975b" +
	"12c85ea5db8c6deb4aab71808dcb408fe3d1e7690c43d37b4ce6cc0166fa7daa"

var preKey, _ = crypto.ToECDSA(common.LeftPadBytes([]byte{7}, 32))

func (x *g) call() {
	a := x.a
	k := rapid.SampledFrom([]byte{0xf1, 0xf1, 0xf1, 0xf2, 0xf4, 0xf4, 0xfa}).Draw(x.rt, "callKind")
	to := x.addr("to")
	inOff, inLen := x.off("io"), x.off("in")
	if p := to.Big(); p.BitLen() <= 8 && p.Sign() > 0 {
		d := x.preInput(int(p.Int64()))
		a.P(uint64(len(d))).Blob(d).P(0).Op(0x39) // CODECOPY
		inOff, inLen = new(big.Int), big.NewInt(int64(len(d)))
	}
	a.Push(x.off("out")).Push(x.off("oo")).Push(inLen).Push(inOff)
	if k == 0xf1 || k == 0xf2 {
		switch x.pick("val", 6, 3, 1, 1) {
		case 0:
			a.P(0)
		case 1:
			a.P(uint64(x.pick("wei", 0, 3, 1, 1)))
		case 2:
			a.Op(0x30) // ADDRESS: an absurd value
		case 3:
			a.Addr(x.addr("bal")).Op(0x31)
		}
	}
	a.Addr(to)
	x.gas()
	a.Op(k)
	x.h++
	if x.pick("rds", 2, 1) == 1 { // copy the answer and hash it
		a.Op(0x3d).P(0).P(0).Op(0x3e, 0x3d).P(0).Op(0x20)
		x.h++
	}
}

func (x *g) create() {
	a := x.a
	in := Init(x.rt, x.w, x.lvl+1)
	a.P(uint64(len(in))).Blob(in).P(0).Op(0x39)
	k := rapid.SampledFrom([]byte{0xf0, 0xf0, 0xf5}).Draw(x.rt, "createKind")
	if k == 0xf5 {
		a.P(uint64(x.pick("salt", 3, 1)))
	}
	a.P(uint64(len(in))).P(0).P(uint64(x.pick("endow", 4, 1, 1))).Op(k)
	x.h++
	if x.pick("use", 1, 2) == 1 { // call what was created
		a.P(0).P(0).P(0).P(0).P(uint64(x.pick("wei", 2, 1))).Op(0x85).P(40000).Op(0xf1)
		x.h++
	}
}

// Init draws creation code.
func Init(rt *rapid.T, w *World, lvl int) []byte {
	x := &g{rt: rt, w: w, a: &Asm{}, lvl: lvl}
	switch x.pick("init", 6, 1, 1, 1, 1) {
	case 0: // returns runtime code
		for i := rapid.IntRange(0, 2).Draw(rt, "ctor"); i > 0; i-- {
			x.stmt(3)
		}
		code := Code(rt, w, lvl+1)
		x.a.P(uint64(len(code))).Blob(code).P(0).Op(0x39).P(uint64(len(code))).P(0).Op(0xf3)
	case 1:
		return nil
	case 2:
		x.end()
	case 3: // returns a lot, or nothing
		x.a.Push(big.NewInt(int64(rapid.SampledFrom([]int{0, 1, 200, 24575, 24576, 24577}).Draw(rt, "size")))).P(0).Op(0xf3)
	case 4:
		return rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(rt, "noise")
	}
	return x.a.Bytes()
}

// Code draws the code of one contract.
func Code(rt *rapid.T, w *World, lvl int) []byte {
	x := &g{rt: rt, w: w, a: &Asm{}, lvl: lvl}
	if x.pick("noise", 30, 1) == 1 {
		return rapid.SliceOfN(rapid.Byte(), 0, 100).Draw(rt, "bytes")
	}
	n := rapid.IntRange(1, 14).Draw(rt, "stmts")
	if lvl > 0 {
		n = rapid.IntRange(0, 4).Draw(rt, "stmts")
	}
	for i := 0; i < n; i++ {
		x.stmt(0)
	}
	if x.pick("tail", 3, 1) == 1 {
		x.end()
		return x.a.Bytes()
	}
	// show the stack
	k := x.h
	if k > 6 {
		k = 6
	}
	for i := 0; i < k; i++ {
		x.a.P(uint64(i * 32)).Op(0x52)
	}
	x.a.P(uint64(k * 32)).P(0).Op(0xf3)
	return x.a.Bytes()
}

// Recursor is code that runs a few statements, calls itself and returns what
// it got with its own results (for call depth).
func Recursor(rt *rapid.T, w *World) []byte {
	w2 := *w
	w2.NoLoop = true
	x := &g{rt: rt, w: &w2, a: &Asm{}, lvl: 2}
	for i := rapid.IntRange(0, 3).Draw(rt, "stmts"); i > 0; i-- {
		x.stmt(3)
	}
	k := rapid.SampledFrom([]byte{0xf1, 0xf2, 0xf4, 0xfa}).Draw(rt, "kind")
	x.a.P(32).P(0).P(0).P(0)
	if k == 0xf1 || k == 0xf2 {
		x.a.P(uint64(x.pick("wei", 1, 1)))
	}
	x.a.Op(0x30, 0x5a, k)
	// result = answer*2 + success
	x.a.P(0).Op(0x51).P(2).Op(0x02, 0x01).P(0).Op(0x52).P(32).P(0).Op(0xf3)
	return x.a.Bytes()
}
