package c01

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/big"
	"reflect"
	"runtime"
	"syscall"
	"testing"

	"github.com/QuarkChain/goquarkchain/account"
	qrpc "github.com/QuarkChain/goquarkchain/cluster/rpc"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/p2p"
	"github.com/QuarkChain/goquarkchain/serialize"
	"github.com/QuarkChain/goquarkchain/zzverif/gen"
	"github.com/QuarkChain/goquarkchain/zzverif/vlib"
	"github.com/ethereum/go-ethereum/rlp"
	"pgregory.net/rapid"
)

// A decoder that allocates what a hostile length asks for must not take the
// sandbox down: it runs out of its own address space instead.
func init() {
	lim := syscall.Rlimit{Cur: 12 << 30, Max: 12 << 30}
	syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
}

// wire types by their exported names; peer messages come from the operation table.
var wire []reflect.Type

func init() {
	seen := map[reflect.Type]bool{}
	add := func(v interface{}) {
		t := reflect.TypeOf(v)
		if !seen[t] {
			seen[t] = true
			wire = append(wire, t)
		}
	}
	for _, v := range []interface{}{
		types.MinorBlock{}, types.RootBlock{}, types.MinorBlockHeader{}, types.RootBlockHeader{}, types.MinorBlockMeta{},
		types.Transaction{}, types.Receipt{}, types.Log{}, types.CrossShardTransactionDeposit{},
		types.CrossShardTransactionDepositList{}, types.CrossShardTransactionDepositV0{}, types.TokenBalances{}, types.XShardTxCursorInfo{},
		account.Address{}, account.Branch{},
	} {
		add(v)
	}
	for op := p2p.P2PCommandOp(0); op < p2p.MaxOPNum; op++ {
		if v, ok := p2p.OPSerializerMap[op]; ok {
			add(v)
		}
	}
	for _, v := range []interface{}{
		qrpc.Ping{}, qrpc.Pong{}, qrpc.SlaveInfo{}, qrpc.ShardStatus{}, qrpc.ConnectToSlavesRequest{}, qrpc.ConnectToSlavesResponse{},
		qrpc.MasterInfo{}, qrpc.MineRequest{}, qrpc.GenTxRequest{}, qrpc.GetMinorBlockRequest{},
		qrpc.GetMinorBlockHeaderListWithSkipRequest{}, qrpc.GetMinorBlockResponse{}, qrpc.GetMinorBlockListRequest{},
		qrpc.GetMinorBlockListResponse{}, qrpc.BroadcastMinorBlock{}, qrpc.BroadcastTransactions{}, qrpc.MinorHeadRequest{},
		qrpc.GetMinorBlockHeaderListResponse{}, qrpc.BroadcastNewTip{}, qrpc.GetTransactionRequest{}, qrpc.GetTransactionResponse{},
		qrpc.ExecuteTransactionRequest{}, qrpc.ExecuteTransactionResponse{}, qrpc.GetTransactionReceiptRequest{},
		qrpc.GetTransactionReceiptResponse{}, qrpc.GetTransactionListByAddressRequest{}, qrpc.GetTxDetailResponse{},
		qrpc.GetAllTxRequest{}, qrpc.AddRootBlockRequest{}, qrpc.AddRootBlockResponse{}, qrpc.GetEcoInfoListResponse{},
		qrpc.GetNextBlockToMineRequest{}, qrpc.GetNextBlockToMineResponse{}, qrpc.AddMinorBlockRequest{},
		qrpc.GetUnconfirmedHeadersResponse{}, qrpc.GetAccountDataRequest{}, qrpc.GetAccountDataResponse{}, qrpc.AddTransactionRequest{},
		qrpc.AddMinorBlockHeaderRequest{}, qrpc.AddMinorBlockHeaderResponse{}, qrpc.AddMinorBlockHeaderListRequest{},
		qrpc.CrossShardTransactionList{}, qrpc.AddXshardTxListRequest{}, qrpc.BatchAddXshardTxListRequest{},
		qrpc.AddBlockListForSyncRequest{}, qrpc.AddBlockListForSyncResponse{}, qrpc.HandleNewTipRequest{}, qrpc.GetLogResponse{},
		qrpc.EstimateGasRequest{}, qrpc.EstimateGasResponse{}, qrpc.GetStorageRequest{}, qrpc.GetStorageResponse{}, qrpc.GetCodeRequest{},
		qrpc.GetCodeResponse{}, qrpc.GasPriceRequest{}, qrpc.GasPriceResponse{}, qrpc.GetWorkRequest{}, qrpc.GetWorkResponse{},
		qrpc.SubmitWorkRequest{}, qrpc.SubmitWorkResponse{}, qrpc.PeerInfoForDisPlay{}, qrpc.GetRootChainStakesRequest{},
		qrpc.GetRootChainStakesResponse{}, qrpc.P2PRedirectRequest{},
	} {
		add(v)
	}
}

func typeGen(t *rapid.T) reflect.Type {
	return wire[rapid.IntRange(0, len(wire)-1).Draw(t, "type")]
}

func encode(rt *rapid.T, v reflect.Value) (b []byte, err error) {
	defer func() {
		if r := recover(); r != nil {
			rt.Fatalf("encoding %v panicked: %v", v.Type(), r)
		}
	}()
	return serialize.SerializeToBytes(v.Addr().Interface())
}

func decode(rt *rapid.T, typ reflect.Type, b []byte) (v reflect.Value, used int, err error) {
	defer func() {
		if r := recover(); r != nil {
			rt.Fatalf("decoding %x as %v panicked: %v", clip(b), typ, r)
		}
	}()
	p := reflect.New(typ)
	in := append([]byte{}, b...)
	bb := serialize.NewByteBuffer(in)
	err = serialize.Deserialize(bb, p.Interface())
	if !bytes.Equal(in, b) {
		rt.Fatalf("decoding %v changed its input", typ)
	}
	return p.Elem(), bb.GetOffset(), err
}

func clip(b []byte) []byte {
	if len(b) > 400 {
		return b[:400]
	}
	return b
}

func blockSize(v reflect.Value) (float64, bool) {
	switch p := v.Addr().Interface().(type) {
	case *types.MinorBlock:
		return float64(p.Size()), true
	case *types.RootBlock:
		return float64(p.Size()), true
	}
	return 0, false
}

// Lengths that lie first: if this finds a decoder that trusts them, the other
// tests would meet it with larger lengths.
func TestHostileLengths(t *testing.T) {
	vlib.Check(t, 1500, 20000, "the overwritten offset is inside the encoding", func(rt *rapid.T, c *vlib.C) {
		typ := typeGen(rt)
		v := gen.Value(rt, typ, &gen.Options{MaxList: 2})
		b, err := encode(rt, v)
		if err != nil {
			rt.Fatalf("%v does not encode: %v", typ, err)
		}
		if len(b) < 4 {
			return
		}
		off := rapid.IntRange(0, len(b)-4).Draw(rt, "off")
		if rapid.IntRange(0, 3).Draw(rt, "where") == 0 {
			off = 0
		}
		in := append([]byte{}, b...)
		binary.BigEndian.PutUint32(in[off:], rapid.SampledFrom([]uint32{0x00ffffff, 0x01ffffff, 0x02000000, 0x00100000, 0x00400000, 0x01100000}).Draw(rt, "len"))
		if rapid.Bool().Draw(rt, "cut") {
			in = in[:off+4+rapid.IntRange(0, len(in)-off-4).Draw(rt, "cutat")]
		}
		var m0, m1 runtime.MemStats
		runtime.ReadMemStats(&m0)
		_, _, _ = decode(rt, typ, in)
		runtime.ReadMemStats(&m1)
		if d := m1.TotalAlloc - m0.TotalAlloc; d > uint64(len(in))*1000+(1<<20) {
			rt.Fatalf("decoding %d bytes as %v allocated %d bytes", len(in), typ, d)
		}
		c.NonTrivial("%v %x", typ, clip(in))
		c.Label("%v", typ)
		c.Sample("%v: length 0x%x planted at %d of %d bytes", typ, in[off:off+4], off, len(in))
	})
}

func TestRoundTrip(t *testing.T) {
	if t.Failed() {
		return
	}
	vlib.Check(t, 2500, 40000, "the value has a non-zero field (its encoding is not all zero bytes)", func(rt *rapid.T, c *vlib.C) {
		typ := typeGen(rt)
		v := gen.Value(rt, typ, &gen.Options{MaxList: 4, LongList: true, NilPtr: true})
		b, err := encode(rt, v)
		if err != nil {
			rt.Fatalf("%v does not encode: %v", typ, err)
		}
		tail := gen.Bytes(rt, 0, 8)
		w, used, err := decode(rt, typ, append(append([]byte{}, b...), tail...))
		if err != nil {
			rt.Fatalf("own encoding of %v is refused: %v", typ, err)
		}
		if used != len(b) {
			rt.Fatalf("decoding %v used %d of %d bytes", typ, used, len(b))
		}
		if s := gen.Equal(v, w); s != "" {
			rt.Fatalf("%v changed in the round trip: %s", typ, s)
		}
		if s1, ok := blockSize(v); ok {
			s2, _ := blockSize(w)
			if s1 != float64(len(b)) || s2 != float64(len(b)) {
				rt.Fatalf("%v of %d bytes says its size is %v / %v", typ, len(b), s1, s2)
			}
		}
		b2, err := encode(rt, w)
		if err != nil || !bytes.Equal(b, b2) {
			rt.Fatalf("%v: encoding again gives other bytes (%v)", typ, err)
		}
		// every strict prefix is refused
		for i := 0; i < 6 && len(b) > 0; i++ {
			cut := rapid.IntRange(0, len(b)-1).Draw(rt, "cut")
			if i == 0 {
				cut = len(b) - 1
			}
			if _, _, err := decode(rt, typ, b[:cut]); err == nil {
				rt.Fatalf("%v: %d of %d bytes decode without error", typ, cut, len(b))
			}
		}
		if len(bytes.Trim(b, "\x00")) > 0 {
			c.NonTrivial("%v %x", typ, clip(b))
		}
		c.Label("%v", typ)
		if len(b) > 65536 {
			c.Label("over 64 KiB")
		}
		c.Sample("%v of %d bytes: %x", typ, len(b), clip(b)[:min(len(b), 100)])
	})
}

func TestHostileBytes(t *testing.T) {
	vlib.Check(t, 5000, 80000, "the decoder accepted the mutated bytes", func(rt *rapid.T, c *vlib.C) {
		typ := typeGen(rt)
		var in []byte
		if rapid.IntRange(0, 4).Draw(rt, "src") == 0 {
			in = gen.Bytes(rt, 0, 300)
		} else {
			v := gen.Value(rt, typ, &gen.Options{MaxList: 3})
			b, err := encode(rt, v)
			if err != nil {
				rt.Fatalf("%v does not encode: %v", typ, err)
			}
			in = append([]byte{}, b...)
			for i := rapid.IntRange(1, 4).Draw(rt, "muts"); i > 0 && len(in) > 0; i-- {
				p := rapid.IntRange(0, len(in)-1).Draw(rt, "pos")
				switch rapid.IntRange(0, 5).Draw(rt, "mut") {
				case 0:
					in[p] ^= 1 << uint(rapid.IntRange(0, 7).Draw(rt, "bit"))
				case 1:
					in[p] = rapid.Byte().Draw(rt, "byte")
				case 2:
					in = append(in[:p], in[p+1:]...)
				case 3:
					in = append(in[:p], append([]byte{rapid.Byte().Draw(rt, "byte")}, in[p:]...)...)
				case 4:
					q := rapid.IntRange(p, len(in)).Draw(rt, "to")
					in = append(in[:q], append(append([]byte{}, in[p:q]...), in[q:]...)...)
				case 5:
					in[p]++
				}
			}
		}
		v, used, err := decode(rt, typ, in)
		c.Label("%v", typ)
		if err != nil {
			c.Label("refused")
			return
		}
		if used > len(in) {
			rt.Fatalf("%v: used %d of %d bytes", typ, used, len(in))
		}
		c.Label("accepted")
		b, err := encode(rt, v)
		if err != nil {
			rt.Fatalf("%v decoded from %x does not encode: %v", typ, clip(in), err)
		}
		w, used, err := decode(rt, typ, b)
		if err != nil || used != len(b) {
			rt.Fatalf("%v decoded from %x: its encoding is refused or not used up: %v %d/%d", typ, clip(in), err, used, len(b))
		}
		if s := gen.Equal(v, w); s != "" {
			rt.Fatalf("%v decoded from %x changes in a round trip: %s", typ, clip(in), s)
		}
		b2, err := encode(rt, w)
		if err != nil || !bytes.Equal(b, b2) {
			rt.Fatalf("%v: encoding again gives other bytes", typ)
		}
		c.NonTrivial("%v %x", typ, clip(in))
		c.Sample("%v from %d mutated bytes", typ, len(in))
	})
}

// Values that do not fit the wire format must be refused by the encoder, never
// written so that they read back as something else.
func TestTooWide(t *testing.T) {
	type one struct {
		A *big.Int
		B []byte
		C []byte   `bytesizeofslicelen:"2"`
		D []uint16 
		E uint32
	}
	vlib.Check(t, 250, 10000, "a field exceeds what its length prefix can say", func(rt *rapid.T, c *vlib.C) {
		n := func(limit int) int {
			return rapid.SampledFrom([]int{0, 1, 32, limit - 1, limit, limit + 1, limit + 2, 2 * limit}).Draw(rt, "n")
		}
		v := one{E: rapid.Uint32().Draw(rt, "e"), A: new(big.Int)}
		wide := false
		switch rapid.IntRange(0, 4).Draw(rt, "field") {
		case 0:
			b := gen.BytesN(rt, n(255))
			if len(b) > 0 {
				b[0] |= 1
			}
			v.A.SetBytes(b)
			wide = len(v.A.Bytes()) > 255
		case 1:
			v.B = gen.BytesN(rt, n(255))
			wide = len(v.B) > 255
		case 2:
			v.C = gen.BytesN(rt, n(65535))
			wide = len(v.C) > 65535
		case 3:
			v.D = make([]uint16, n(255))
			wide = len(v.D) > 255
		case 4:
			v.A.SetInt64(rapid.Int64Range(-3, 0).Draw(rt, "neg"))
			wide = v.A.Sign() < 0
		}
		val := reflect.ValueOf(&v).Elem()
		b, err := encode(rt, val)
		if wide && err == nil {
			w, used, derr := decode(rt, val.Type(), b)
			rt.Fatalf("a value that does not fit is encoded (A %d bytes, B %d, C %d, D %d); reads back as %+v using %d of %d bytes, err %v",
				len(v.A.Bytes()), len(v.B), len(v.C), len(v.D), fmt.Sprint(w.Interface())[:min(60, len(fmt.Sprint(w.Interface())))], used, len(b), derr)
		}
		if !wide {
			if err != nil {
				rt.Fatalf("a value that fits is refused: %v", err)
			}
			w, used, err := decode(rt, val.Type(), b)
			if err != nil || used != len(b) {
				rt.Fatalf("a value that fits does not read back: %v", err)
			}
			if s := gen.Equal(val, w); s != "" {
				rt.Fatalf("changed: %s", s)
			}
		} else {
			c.NonTrivial("%d %d %d %d", len(v.A.Bytes()), len(v.B), len(v.C), len(v.D))
			c.Label("refused as too wide")
			c.Sample("A %d bytes, B %d, C %d, D %d", len(v.A.Bytes()), len(v.B), len(v.C), len(v.D))
		}
	})
}

// Receipts and transactions are also stored and hashed in RLP form.
func TestRLP(t *testing.T) {
	vlib.Check(t, 250, 20000, "receipt has a log or a post state, or transaction has data", func(rt *rapid.T, c *vlib.C) {
		if rapid.Bool().Draw(rt, "tx") {
			x := gen.EvmTx(rt)
			b, err := rlp.EncodeToBytes(x)
			if err != nil {
				rt.Fatalf("rlp: %v", err)
			}
			var y types.EvmTransaction
			if err := rlp.DecodeBytes(b, &y); err != nil {
				rt.Fatalf("rlp decode: %v", err)
			}
			if s := gen.TxDiff(x, &y); s != "" {
				rt.Fatalf("transaction changed in RLP: %s", s)
			}
			if x.Hash() != y.Hash() {
				rt.Fatalf("hash changed")
			}
			if x.Size() != y.Size() || float64(x.Size()) != float64(len(b)) {
				rt.Fatalf("sizes %v %v, encoded %d", x.Size(), y.Size(), len(b))
			}
			if len(x.Data()) > 0 {
				c.NonTrivial("%x", b)
			}
			c.Label("tx")
			return
		}
		r := gen.Value(rt, reflect.TypeOf(types.Receipt{}), &gen.Options{MaxList: 3}).Addr().Interface().(*types.Receipt)
		b, err := rlp.EncodeToBytes((*types.ReceiptForStorage)(r))
		if err != nil {
			rt.Fatalf("rlp: %v", err)
		}
		var s types.ReceiptForStorage
		if err := rlp.DecodeBytes(b, &s); err != nil {
			rt.Fatalf("rlp decode: %v", err)
		}
		if d := gen.Equal(reflect.ValueOf(r), reflect.ValueOf((*types.Receipt)(&s))); d != "" {
			rt.Fatalf("stored receipt changed: %s", d)
		}
		b, err = rlp.EncodeToBytes(r)
		if err != nil {
			rt.Fatalf("rlp: %v", err)
		}
		var q types.Receipt
		if err := rlp.DecodeBytes(b, &q); err != nil {
			rt.Fatalf("rlp decode of consensus form: %v", err)
		}
		b2, _ := rlp.EncodeToBytes(&q)
		if !bytes.Equal(b, b2) || q.CumulativeGasUsed != r.CumulativeGasUsed || q.Bloom != r.Bloom || len(q.Logs) != len(r.Logs) ||
			q.ContractAddress != r.ContractAddress || q.ContractFullShardKey != r.ContractFullShardKey {
			rt.Fatalf("consensus form of receipt changed")
		}
		if len(r.Logs) > 0 || len(r.PostState) > 0 {
			c.NonTrivial("%x", clip(b))
			c.Sample("receipt with %d logs, %d RLP bytes", len(r.Logs), len(b))
		}
		c.Label("receipt")
	})
}

// The two versions of stored deposit lists read as the same deposits.
func TestDepositListVersions(t *testing.T) {
	vlib.Check(t, 100, 8000, "the list is not empty", func(rt *rapid.T, c *vlib.C) {
		type v0 struct {
			L []*types.CrossShardTransactionDepositV0 `bytesizeofslicelen:"4"`
		}
		old := gen.Value(rt, reflect.TypeOf(v0{}), &gen.Options{MaxList: 4}).Addr().Interface().(*v0)
		b, err := serialize.SerializeToBytes(old)
		if err != nil {
			rt.Fatal(err)
		}
		var l types.CrossShardTransactionDepositList
		if err := serialize.DeserializeFromBytes(b, &l); err != nil {
			rt.Fatalf("version 0 list refused: %v", err)
		}
		if len(l.TXList) != len(old.L) {
			rt.Fatalf("version 0 list of %d reads as %d", len(old.L), len(l.TXList))
		}
		for i, d := range l.TXList {
			if d.RefundRate != 100 {
				rt.Fatalf("version 0 deposit refund rate %d", d.RefundRate)
			}
			if s := gen.Equal(reflect.ValueOf(&d.CrossShardTransactionDepositV0), reflect.ValueOf(old.L[i])); s != "" {
				rt.Fatalf("version 0 deposit %d: %s", i, s)
			}
		}
		if len(old.L) > 0 {
			c.NonTrivial("%x", clip(b))
			c.Sample("%d deposits in version 0", len(old.L))
		}
	})
}
