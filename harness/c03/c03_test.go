package c03

import (
	"crypto/ecdsa"
	"fmt"
	"math/big"
	"testing"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/serialize"
	"github.com/QuarkChain/goquarkchain/zzverif/gen"
	"github.com/QuarkChain/goquarkchain/zzverif/vlib"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/rlp"
	"pgregory.net/rapid"
)

var curveN, _ = new(big.Int).SetString("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16)

// fields of a transaction in a form the oracle can compute on.
type fields struct {
	Nonce, Gas        uint64
	Price, Value      *big.Int
	To                *common.Address
	Data              []byte
	Network           uint32
	From, ToKey       uint32
	GasToken, XferTok uint64
	Version           uint32
	V, R, S           *big.Int
}

func (f fields) tx() *types.EvmTransaction {
	var t *types.EvmTransaction
	if f.To == nil {
		t = types.NewEvmContractCreation(f.Nonce, f.Value, f.Gas, f.Price, f.From, f.ToKey, f.Network, f.Version, f.Data, f.GasToken, f.XferTok)
	} else {
		t = types.NewEvmTransaction(f.Nonce, *f.To, f.Value, f.Gas, f.Price, f.From, f.ToKey, f.Network, f.Version, f.Data, f.GasToken, f.XferTok)
	}
	if f.V != nil {
		t.SetVRS(f.V, f.R, f.S)
	}
	return t
}

// fixed4 is a 4-byte string whatever its value.
func fixed4(x uint32) []byte { return []byte{byte(x >> 24), byte(x >> 16), byte(x >> 8), byte(x)} }

func toBytes(a *common.Address) []byte {
	if a == nil {
		return nil
	}
	return a[:]
}

// refHash is what the signer of each version signs, computed from the format
// description: version 0 is the RLP list of all fields, version 1 the typed-data
// hash, version 2 Ethereum's EIP155 list.
func refHash(f fields) common.Hash {
	switch f.Version {
	case 0:
		b, err := rlp.EncodeToBytes([]interface{}{f.Nonce, f.Price, f.Gas, toBytes(f.To), f.Value, f.Data, f.Network,
			fixed4(f.From), fixed4(f.ToKey), f.GasToken, f.XferTok})
		if err != nil {
			panic(err)
		}
		return crypto.Keccak256Hash(b)
	case 1:
		schema := "uint256 nonceuint256 gasPriceuint256 gasLimituint160 touint256 valuebytes datauint256 networkIduint32 fromFullShardKeyuint32 toFullShardKeyuint64 gasTokenIduint64 transferTokenIdstring qkcDomain"
		var p []byte
		put := func(x *big.Int, n int) { p = append(p, common.LeftPadBytes(x.Bytes(), n)...) }
		u := func(x uint64) *big.Int { return new(big.Int).SetUint64(x) }
		put(u(f.Nonce), 32)
		put(f.Price, 32)
		put(u(f.Gas), 32)
		put(new(big.Int).SetBytes(toBytes(f.To)), 20)
		put(f.Value, 32)
		p = append(p, f.Data...)
		put(u(uint64(f.Network)), 32)
		put(u(uint64(f.From)), 4)
		put(u(uint64(f.ToKey)), 4)
		put(u(f.GasToken), 8)
		put(u(f.XferTok), 8)
		p = append(p, "bottom-quark"...)
		return crypto.Keccak256Hash(crypto.Keccak256([]byte(schema)), crypto.Keccak256(p))
	default:
		b, err := rlp.EncodeToBytes([]interface{}{f.Nonce, f.Price, f.Gas, toBytes(f.To), f.Value, f.Data, f.Network, uint(0), uint(0)})
		if err != nil {
			panic(err)
		}
		return crypto.Keccak256Hash(b)
	}
}

func sign(f fields, key *ecdsa.PrivateKey) fields {
	h := refHash(f)
	sig, err := crypto.Sign(h[:], key)
	if err != nil {
		panic(err)
	}
	f.R = new(big.Int).SetBytes(sig[:32])
	f.S = new(big.Int).SetBytes(sig[32:64])
	f.V = vOf(f, sig[64])
	return f
}

func vOf(f fields, rec byte) *big.Int {
	if f.Version == 2 {
		v := new(big.Int).SetUint64(uint64(f.Network))
		v.Mul(v, big.NewInt(2))
		return v.Add(v, big.NewInt(35+int64(rec)))
	}
	return big.NewInt(27 + int64(rec))
}

func drawKey(rt *rapid.T) *ecdsa.PrivateKey {
	d := new(big.Int).SetBytes(gen.BytesN(rt, 32))
	d.Mod(d, new(big.Int).Sub(curveN, big.NewInt(1)))
	d.Add(d, big.NewInt(1))
	k, err := crypto.ToECDSA(common.LeftPadBytes(d.Bytes(), 32))
	if err != nil {
		rt.Fatalf("key: %v", err)
	}
	return k
}

func draw(rt *rapid.T) fields {
	f := fields{
		Nonce: gen.U64(rt), Gas: gen.U64(rt), Price: gen.Big(rt, 32), Value: gen.Big(rt, 32),
		Network: uint32(gen.U64(rt)), From: uint32(gen.U64(rt)), ToKey: uint32(gen.U64(rt)),
		GasToken: gen.U64(rt), XferTok: gen.U64(rt), Version: uint32(rapid.IntRange(0, 2).Draw(rt, "version")),
	}
	if rapid.IntRange(0, 3).Draw(rt, "create") > 0 {
		a := gen.Addr(rt)
		f.To = &a
	}
	f.Data = gen.Bytes(rt, 0, rapid.SampledFrom([]int{0, 1, 4, 100, 1000}).Draw(rt, "maxdata"))
	return f
}

func recoverAs(rt *rapid.T, f fields, network uint32) (a account.Recipient, err error) {
	defer func() {
		if r := recover(); r != nil {
			rt.Fatalf("recovering the sender panicked: %v (%+v)", r, f)
		}
	}()
	return types.Sender(types.MakeSigner(network), f.tx())
}

func TestSenderIsSigner(t *testing.T) {
	vlib.Check(t, 2000, 30000, "every signed transaction", func(rt *rapid.T, c *vlib.C) {
		key := drawKey(rt)
		want := crypto.PubkeyToAddress(key.PublicKey)
		f := sign(draw(rt), key)
		got, err := recoverAs(rt, f, f.Network)
		if err != nil || got != want {
			rt.Fatalf("version %d: recovered %x, signer is %x (%v)", f.Version, got, want, err)
		}
		// the wire form acts for the same key
		b, err := serialize.SerializeToBytes(&types.Transaction{TxType: types.EvmTx, EvmTx: f.tx()})
		if err != nil {
			rt.Fatal(err)
		}
		var tx types.Transaction
		if err := serialize.DeserializeFromBytes(b, &tx); err != nil {
			rt.Fatal(err)
		}
		for i := 0; i < 2; i++ { // second time from the cache
			got, err = tx.Sender(types.MakeSigner(f.Network))
			if err != nil || got != want {
				rt.Fatalf("version %d after transport: recovered %x, signer is %x (%v)", f.Version, got, want, err)
			}
		}
		// a cached sender is not used for another network
		if f.Version != 2 {
			if a, err := tx.Sender(types.MakeSigner(f.Network + 1)); err == nil {
				rt.Fatalf("transaction of network %d acts as %x on network %d", f.Network, a, f.Network+1)
			}
		}
		m, err := tx.EvmTx.AsMessage(types.MakeSigner(f.Network), tx.Hash(), f.Price, f.GasToken, 100)
		if err != nil || m.From() != want || m.Nonce() != f.Nonce || m.Gas() != f.Gas || m.Value().Cmp(f.Value) != 0 {
			rt.Fatalf("message of the transaction is not the transaction")
		}
		// the node's own signing function (version 0)
		if f.Version == 0 {
			u := f
			u.V, u.R, u.S = nil, nil, nil
			s, err := types.SignTx(u.tx(), types.MakeSigner(f.Network), key)
			if err != nil {
				rt.Fatal(err)
			}
			if a, err := types.Sender(types.MakeSigner(f.Network), s); err != nil || a != want {
				rt.Fatalf("SignTx: recovered %x want %x (%v)", a, want, err)
			}
			if d := gen.TxDiff(f.tx(), s); d != "" && d != "signature" {
				rt.Fatalf("SignTx changed %s", d)
			}
		}
		c.NonTrivial("%x", refHash(f))
		c.Label("version %d", f.Version)
		c.Sample("version %d nonce %d data %d bytes network %d", f.Version, f.Nonce, len(f.Data), f.Network)
	})
}

// tamper changes one field; signed tells whether its version signs that field.
func tamper(rt *rapid.T, f fields) (fields, string, bool) {
	g := f
	bit := func(n int) uint { return uint(rapid.IntRange(0, n-1).Draw(rt, "bit")) }
	name := rapid.SampledFrom([]string{"nonce", "price", "gas", "to", "value", "data", "network", "fromKey", "toKey", "gasToken", "transferToken", "version"}).Draw(rt, "field")
	signed := true
	switch name {
	case "nonce":
		g.Nonce ^= 1 << bit(64)
	case "gas":
		g.Gas ^= 1 << bit(64)
	case "price":
		g.Price = new(big.Int).SetBit(f.Price, int(bit(256)), 0)
		if g.Price.Cmp(f.Price) == 0 {
			g.Price = new(big.Int).Add(f.Price, big.NewInt(1))
		}
	case "value":
		g.Value = new(big.Int).SetBit(f.Value, int(bit(256)), 0)
		if g.Value.Cmp(f.Value) == 0 {
			g.Value = new(big.Int).Add(f.Value, big.NewInt(1))
		}
	case "to":
		if f.To == nil {
			a := gen.Addr(rt)
			g.To = &a
		} else if rapid.Bool().Draw(rt, "nil") {
			g.To = nil
		} else {
			a := *f.To
			a[rapid.IntRange(0, 19).Draw(rt, "i")] ^= 1 << bit(8)
			g.To = &a
		}
	case "data":
		switch k := rapid.IntRange(0, 2).Draw(rt, "k"); {
		case k == 0 && len(f.Data) > 0:
			g.Data = append([]byte{}, f.Data...)
			g.Data[rapid.IntRange(0, len(f.Data)-1).Draw(rt, "i")] ^= 1 << bit(8)
		case k == 1 && len(f.Data) > 0:
			g.Data = f.Data[:len(f.Data)-1]
		default:
			g.Data = append(append([]byte{}, f.Data...), 0)
		}
	case "network":
		g.Network ^= 1 << bit(32)
	case "fromKey":
		g.From ^= 1 << bit(32)
		signed = f.Version != 2
	case "toKey":
		g.ToKey ^= 1 << bit(32)
		signed = f.Version != 2
	case "gasToken":
		g.GasToken ^= 1 << bit(64)
		signed = f.Version != 2
	case "transferToken":
		g.XferTok ^= 1 << bit(64)
		signed = f.Version != 2
	case "version":
		g.Version = (f.Version + uint32(rapid.IntRange(1, 5).Draw(rt, "dv"))) % 6
		if g.Version == f.Version {
			g.Version = 7
		}
	}
	return g, name, signed
}

func TestTampering(t *testing.T) {
	vlib.Check(t, 4000, 60000, "a field covered by the signature was changed", func(rt *rapid.T, c *vlib.C) {
		key := drawKey(rt)
		want := crypto.PubkeyToAddress(key.PublicKey)
		f := sign(draw(rt), key)
		g, name, signed := tamper(rt, f)
		if !signed {
			// version 2 does not sign these; the chain pins them instead (TestEthereumTransactionsArePinned)
			return
		}
		if f.Version == 1 && name == "to" && (f.To == nil || *f.To == common.Address{}) && (g.To == nil || *g.To == common.Address{}) {
			// known finding: typed data cannot tell contract creation from a call to address zero
			c.Label("known: typed data, creation against address zero")
			return
		}
		for _, nw := range []uint32{f.Network, g.Network} {
			a, err := recoverAs(rt, g, nw)
			if err == nil && a == want {
				rt.Fatalf("version %d: after changing %s the signer %x is still recovered\n%+v\n%+v", f.Version, name, want, f, g)
			}
		}
		x, y := &types.Transaction{TxType: types.EvmTx, EvmTx: f.tx()}, &types.Transaction{TxType: types.EvmTx, EvmTx: g.tx()}
		if x.Hash() == y.Hash() || f.tx().Hash() == g.tx().Hash() {
			rt.Fatalf("after changing %s the transaction hash is the same", name)
		}
		c.NonTrivial("%d %s %x", f.Version, name, refHash(f))
		c.Label("v%d %s", f.Version, name)
		c.Sample("version %d, %s changed", f.Version, name)
	})
}

func TestMalleability(t *testing.T) {
	half := new(big.Int).Rsh(curveN, 1)
	vlib.Check(t, 4000, 60000, "the signature values were changed", func(rt *rapid.T, c *vlib.C) {
		key := drawKey(rt)
		want := crypto.PubkeyToAddress(key.PublicKey)
		f := sign(draw(rt), key)
		g := f
		rec := byte(0)
		if f.V.Cmp(vOf(f, 1)) == 0 {
			rec = 1
		}
		how := rapid.SampledFrom([]string{"flip s", "flip s keep v", "s+n", "r+n", "r 0", "s 0", "s n", "r n", "v", "v+256", "v mirrored", "high s"}).Draw(rt, "how")
		switch how {
		case "flip s":
			g.S = new(big.Int).Sub(curveN, f.S)
			g.V = vOf(f, 1-rec)
		case "flip s keep v":
			g.S = new(big.Int).Sub(curveN, f.S)
		case "s+n":
			g.S = new(big.Int).Add(curveN, f.S)
		case "r+n":
			g.R = new(big.Int).Add(curveN, f.R)
		case "r 0":
			g.R = new(big.Int)
		case "s 0":
			g.S = new(big.Int)
		case "s n":
			g.S = curveN
		case "r n":
			g.R = curveN
		case "high s":
			g.S = new(big.Int).Add(half, big.NewInt(rapid.Int64Range(1, 5).Draw(rt, "d")))
		case "v":
			d := rapid.Int64Range(-70, 300).Draw(rt, "dv")
			g.V = new(big.Int).Add(f.V, big.NewInt(d))
			if g.V.Sign() < 0 {
				g.V = new(big.Int)
			}
		case "v+256":
			g.V = new(big.Int).Add(f.V, new(big.Int).Lsh(big.NewInt(1), uint(rapid.IntRange(5, 70).Draw(rt, "e"))))
		case "v mirrored": // the value whose distance to the base has the opposite sign
			base := new(big.Int)
			if f.Version == 2 {
				base.SetUint64(uint64(f.Network)*2 + 8)
			}
			g.V = new(big.Int).Sub(base, new(big.Int).Sub(f.V, base))
			if g.V.Sign() < 0 {
				g.V.SetInt64(0)
			}
		}
		if g.V.Cmp(f.V) == 0 && g.R.Cmp(f.R) == 0 && g.S.Cmp(f.S) == 0 {
			return
		}
		a, err := recoverAs(rt, g, f.Network)
		if err == nil && a == want {
			rt.Fatalf("version %d: a second signature (%s) v=%v r=%x s=%x acts for %x (original v=%v)", f.Version, how, g.V, g.R, g.S, want, f.V)
		}
		okV := g.V.Cmp(vOf(f, 0)) == 0 || g.V.Cmp(vOf(f, 1)) == 0
		if err == nil && (!okV || g.R.Sign() <= 0 || g.R.Cmp(curveN) >= 0 || g.S.Sign() <= 0 || g.S.Cmp(half) > 0) {
			rt.Fatalf("version %d: out-of-range signature (%s) v=%v r=%x s=%x is accepted for %x", f.Version, how, g.V, g.R, g.S, a)
		}
		c.NonTrivial("%s %d %x", how, f.Version, f.R)
		c.Label("v%d %s", f.Version, how)
		c.Sample("version %d, %s", f.Version, how)
	})
}

var _ = fmt.Sprint
