// Package gen generates values of the wire types: by reflection, with special
// cases for the types that keep their contents private.
package gen

import (
	"bytes"
	"fmt"
	"math/big"
	"reflect"
	"strconv"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/serialize"
	"github.com/ethereum/go-ethereum/common"
	"pgregory.net/rapid"
)

var (
	tBig      = reflect.TypeOf(big.Int{})
	tU128     = reflect.TypeOf(serialize.Uint128{})
	tU256     = reflect.TypeOf(serialize.Uint256{})
	tTx       = reflect.TypeOf(types.Transaction{})
	tTB       = reflect.TypeOf(types.TokenBalances{})
	tMB       = reflect.TypeOf(types.MinorBlock{})
	tRB       = reflect.TypeOf(types.RootBlock{})
	tReceipt  = reflect.TypeOf(types.Receipt{})
	tDeposits = reflect.TypeOf(types.CrossShardTransactionDepositList{})
)

// Big draws a non-negative integer of up to n bytes, with boundary shapes.
func Big(t *rapid.T, n int) *big.Int {
	switch rapid.IntRange(0, 5).Draw(t, "bigkind") {
	case 0:
		return new(big.Int)
	case 1:
		return big.NewInt(rapid.Int64Range(0, 300).Draw(t, "big"))
	case 2: // power of two, +-1
		e := rapid.IntRange(0, n*8-1).Draw(t, "exp")
		b := new(big.Int).Lsh(big.NewInt(1), uint(e))
		switch rapid.IntRange(0, 2).Draw(t, "pm") {
		case 0:
			b.Sub(b, big.NewInt(1))
		case 1:
			if e < n*8-1 {
				b.Add(b, big.NewInt(1))
			}
		}
		return b
	case 3: // all ones of any length
		l := rapid.IntRange(1, n).Draw(t, "len")
		return new(big.Int).SetBytes(bytes.Repeat([]byte{0xff}, l))
	}
	return new(big.Int).SetBytes(Bytes(t, 0, n))
}

// Bytes draws a byte string cheaply: a short drawn pattern, stretched.
func Bytes(t *rapid.T, min, max int) []byte {
	n := rapid.IntRange(min, max).Draw(t, "n")
	return BytesN(t, n)
}

// BytesN draws n bytes from one random word.
func BytesN(t *rapid.T, n int) []byte {
	x := rapid.Uint64().Draw(t, "word")
	b := make([]byte, n)
	if x == 0 {
		return b
	}
	for i := range b {
		// xorshift
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		b[i] = byte(x >> 24)
	}
	return b
}

func Hash(t *rapid.T) (h common.Hash) { copy(h[:], BytesN(t, 32)); return }
func Addr(t *rapid.T) (h common.Address) {
	copy(h[:], BytesN(t, 20))
	return
}

func U64(t *rapid.T) uint64 {
	switch rapid.IntRange(0, 3).Draw(t, "u64kind") {
	case 0:
		return rapid.Uint64Range(0, 3).Draw(t, "u64")
	case 1:
		return ^uint64(0) - rapid.Uint64Range(0, 1).Draw(t, "u64")
	case 2:
		return uint64(1) << uint(rapid.IntRange(0, 63).Draw(t, "bit"))
	}
	return rapid.Uint64().Draw(t, "u64")
}

// Balances draws a token map without zero amounts.
func BalanceMap(t *rapid.T, max int) map[uint64]*big.Int {
	m := map[uint64]*big.Int{}
	for i := rapid.IntRange(0, max).Draw(t, "tokens"); i > 0; i-- {
		v := Big(t, 32)
		if v.Sign() == 0 {
			v.SetInt64(1)
		}
		m[U64(t)] = v
	}
	return m
}

// EvmTx draws a transaction with arbitrary (not necessarily valid) signature values.
func EvmTx(t *rapid.T) *types.EvmTransaction {
	data := Bytes(t, 0, rapid.SampledFrom([]int{0, 4, 60, 300}).Draw(t, "maxdata"))
	var tx *types.EvmTransaction
	if rapid.Bool().Draw(t, "create") {
		tx = types.NewEvmContractCreation(U64(t), Big(t, 32), U64(t), Big(t, 32), uint32(U64(t)), uint32(U64(t)), uint32(U64(t)), uint32(U64(t)), data, U64(t), U64(t))
	} else {
		tx = types.NewEvmTransaction(U64(t), Addr(t), Big(t, 32), U64(t), Big(t, 32), uint32(U64(t)), uint32(U64(t)), uint32(U64(t)), uint32(U64(t)), data, U64(t), U64(t))
	}
	if rapid.Bool().Draw(t, "sig") {
		tx.SetVRS(Big(t, 8), Big(t, 32), Big(t, 32))
	}
	return tx
}

func Tx(t *rapid.T) *types.Transaction {
	return &types.Transaction{TxType: types.EvmTx, EvmTx: EvmTx(t)}
}

// Options bound what is drawn.
type Options struct {
	MaxList  int  // elements of lists of compound values
	LongList bool // now and then a list longer than a one-byte length can say
	NilPtr   bool // draw nil for pointers that are not optional on the wire
	budget   int
}

// Value draws a value of type typ (addressable).
func Value(t *rapid.T, typ reflect.Type, o *Options) reflect.Value {
	if o.budget == 0 {
		o.budget = 4000
	}
	v := reflect.New(typ).Elem()
	fill(t, v, "", o)
	return v
}

func lenBytes(tag reflect.StructTag) int {
	if s := tag.Get("bytesizeofslicelen"); s != "" {
		n, _ := strconv.Atoi(s)
		return n
	}
	return 1
}

func fill(t *rapid.T, v reflect.Value, tag reflect.StructTag, o *Options) {
	o.budget--
	switch v.Type() {
	case tBig:
		n := 32
		if rapid.IntRange(0, 9).Draw(t, "wide") == 0 {
			n = 255
		}
		v.Addr().Interface().(*big.Int).Set(Big(t, n))
		return
	case tU128:
		v.Addr().Interface().(*serialize.Uint128).Value = Big(t, 16)
		return
	case tU256:
		v.Addr().Interface().(*serialize.Uint256).Value = Big(t, 32)
		return
	case tTx:
		p := v.Addr().Interface().(*types.Transaction)
		p.TxType = types.EvmTx
		p.EvmTx = EvmTx(t)
		return
	case tTB:
		p := v.Addr().Interface().(*types.TokenBalances)
		*p = *types.NewTokenBalancesWithMap(BalanceMap(t, 5))
		return
	case tMB:
		h := Value(t, reflect.TypeOf(types.MinorBlockHeader{}), o).Addr().Interface().(*types.MinorBlockHeader)
		m := Value(t, reflect.TypeOf(types.MinorBlockMeta{}), o).Addr().Interface().(*types.MinorBlockMeta)
		var txs []*types.Transaction
		for i := listLen(t, o, 4, 30); i > 0; i-- {
			txs = append(txs, Tx(t))
		}
		v.Set(reflect.ValueOf(types.NewMinorBlockWithHeader(h, m).WithBody(txs, Bytes(t, 0, 20))).Elem())
		return
	case tRB:
		h := Value(t, reflect.TypeOf(types.RootBlockHeader{}), o).Addr().Interface().(*types.RootBlockHeader)
		var hs types.MinorBlockHeaders
		for i := listLen(t, o, 4, 30); i > 0; i-- {
			hs = append(hs, Value(t, reflect.TypeOf(types.MinorBlockHeader{}), o).Addr().Interface().(*types.MinorBlockHeader))
		}
		tracking := Bytes(t, 0, 20)
		v.Set(reflect.ValueOf(types.NewRootBlock(h, nil, tracking).WithBody(hs, tracking)).Elem())
		return
	case tReceipt:
		r := v.Addr().Interface().(*types.Receipt)
		if rapid.IntRange(0, 3).Draw(t, "post") == 0 {
			r.PostState = BytesN(t, 32)
		} else {
			r.Status = rapid.Uint64Range(0, 1).Draw(t, "status")
		}
		r.CumulativeGasUsed = U64(t)
		r.GasUsed = U64(t)
		copy(r.Bloom[:], BytesN(t, len(r.Bloom)))
		r.TxHash = Hash(t)
		r.ContractAddress = Addr(t)
		r.ContractFullShardKey = uint32(U64(t))
		for i := listLen(t, o, 4, 30); i > 0; i-- {
			r.Logs = append(r.Logs, Value(t, reflect.TypeOf(types.Log{}), o).Addr().Interface().(*types.Log))
		}
		return
	case tDeposits:
		d := v.Addr().Interface().(*types.CrossShardTransactionDepositList)
		d.TXList = []*types.CrossShardTransactionDeposit{}
		for i := listLen(t, o, 4, 30); i > 0; i-- {
			d.TXList = append(d.TXList, Value(t, reflect.TypeOf(types.CrossShardTransactionDeposit{}), o).Addr().Interface().(*types.CrossShardTransactionDeposit))
		}
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if tag.Get("ser") == "nil" {
			if rapid.Bool().Draw(t, "nil") {
				return
			}
		} else if o.NilPtr && nilable(v.Type().Elem()) && rapid.IntRange(0, 9).Draw(t, "nilptr") == 0 {
			return
		}
		v.Set(reflect.New(v.Type().Elem()))
		fill(t, v.Elem(), tag, o)
	case reflect.Bool:
		v.SetBool(rapid.Bool().Draw(t, "b"))
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint:
		v.SetUint(U64(t) & (^uint64(0) >> uint(64-v.Type().Bits())))
	case reflect.String:
		v.SetString(string(Bytes(t, 0, 40)))
	case reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			reflect.Copy(v, reflect.ValueOf(BytesN(t, v.Len())))
			return
		}
		for i := 0; i < v.Len(); i++ {
			fill(t, v.Index(i), "", o)
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			max := 40
			switch rapid.IntRange(0, 9).Draw(t, "long") {
			case 0:
				max = 255
			case 1:
				if lenBytes(tag) > 1 {
					max = 700
				}
			case 2:
				if lenBytes(tag) > 2 && o.LongList {
					max = 70000
				}
			}
			b := Bytes(t, 0, max)
			if len(b) == 0 && rapid.Bool().Draw(t, "nilslice") {
				return
			}
			v.SetBytes(b)
			return
		}
		n := listLen(t, o, lenBytes(tag), elemCost(v.Type().Elem()))
		if n == 0 && rapid.Bool().Draw(t, "nilslice") {
			return
		}
		s := reflect.MakeSlice(v.Type(), n, n)
		for i := 0; i < n; i++ {
			fill(t, s.Index(i), "", &Options{MaxList: 2, budget: 1000000})
		}
		v.Set(s)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.PkgPath != "" || f.Tag.Get("ser") == "-" {
				continue
			}
			fill(t, v.Field(i), f.Tag, o)
		}
	default:
		panic(fmt.Sprintf("gen: cannot fill %v", v.Type()))
	}
}

func nilable(t reflect.Type) bool {
	switch t {
	case tMB, tRB, tTx, tTB, tReceipt:
		return false
	}
	return t == tBig || t == tU128 || t == tU256
}

func elemCost(t reflect.Type) int {
	if t.Kind() == reflect.Ptr || t.Kind() == reflect.Struct {
		return 30
	}
	return 1
}

func listLen(t *rapid.T, o *Options, lb int, cost int) int {
	max := o.MaxList
	if max == 0 {
		max = 4
	}
	if o.LongList && lb > 1 && rapid.IntRange(0, 15).Draw(t, "longlist") == 0 {
		if cost == 1 {
			return rapid.IntRange(250, 600).Draw(t, "listlen")
		}
		return rapid.IntRange(250, 280).Draw(t, "listlen")
	}
	return rapid.IntRange(0, max).Draw(t, "listlen")
}

// Equal compares two values of a wire type by what is on the wire: a nil
// pointer that is not optional equals the zero value, an absent list the empty
// one, amounts of zero are absent.
func Equal(a, b reflect.Value) string { return eq(a, b, "", "") }

func eq(a, b reflect.Value, tag reflect.StructTag, path string) string {
	if a.Type() != b.Type() {
		return path + ": types differ"
	}
	switch a.Type() {
	case tBig:
		x, y := a.Addr().Interface().(*big.Int), b.Addr().Interface().(*big.Int)
		if x.Cmp(y) != 0 {
			return fmt.Sprintf("%s: %v != %v", path, x, y)
		}
		return ""
	case tU128:
		return eqBig(a.Addr().Interface().(*serialize.Uint128).Value, b.Addr().Interface().(*serialize.Uint128).Value, path)
	case tU256:
		return eqBig(a.Addr().Interface().(*serialize.Uint256).Value, b.Addr().Interface().(*serialize.Uint256).Value, path)
	case tTx:
		x, y := a.Addr().Interface().(*types.Transaction), b.Addr().Interface().(*types.Transaction)
		if x.TxType != y.TxType {
			return path + ": tx type differs"
		}
		if s := TxDiff(x.EvmTx, y.EvmTx); s != "" {
			return path + ": " + s
		}
		return ""
	case tTB:
		x, y := a.Addr().Interface().(*types.TokenBalances).GetBalanceMap(), b.Addr().Interface().(*types.TokenBalances).GetBalanceMap()
		return eqMap(x, y, path)
	case tMB:
		x, y := a.Addr().Interface().(*types.MinorBlock), b.Addr().Interface().(*types.MinorBlock)
		if s := eq(reflect.ValueOf(x.Header()), reflect.ValueOf(y.Header()), "", path+".header"); s != "" {
			return s
		}
		if s := eq(reflect.ValueOf(x.Meta()), reflect.ValueOf(y.Meta()), "", path+".meta"); s != "" {
			return s
		}
		if s := eq(reflect.ValueOf([]*types.Transaction(x.Transactions())), reflect.ValueOf([]*types.Transaction(y.Transactions())), "", path+".txs"); s != "" {
			return s
		}
		if !bytes.Equal(x.TrackingData(), y.TrackingData()) {
			return path + ".tracking differs"
		}
		if x.Header().Hash() != y.Header().Hash() {
			return path + ": hash differs"
		}
		return ""
	case tRB:
		x, y := a.Addr().Interface().(*types.RootBlock), b.Addr().Interface().(*types.RootBlock)
		if s := eq(reflect.ValueOf(x.Header()), reflect.ValueOf(y.Header()), "", path+".header"); s != "" {
			return s
		}
		if s := eq(reflect.ValueOf([]*types.MinorBlockHeader(x.MinorBlockHeaders())), reflect.ValueOf([]*types.MinorBlockHeader(y.MinorBlockHeaders())), "", path+".headers"); s != "" {
			return s
		}
		if !bytes.Equal(x.TrackingData(), y.TrackingData()) {
			return path + ".tracking differs"
		}
		if x.Header().Hash() != y.Header().Hash() {
			return path + ": hash differs"
		}
		return ""
	}
	switch a.Kind() {
	case reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() && b.IsNil() {
				return ""
			}
			if tag.Get("ser") == "nil" {
				return path + ": one is nil"
			}
			z := reflect.New(a.Type().Elem())
			if a.IsNil() {
				a = z
			} else {
				b = z
			}
		}
		return eq(a.Elem(), b.Elem(), "", path)
	case reflect.Slice:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: length %d != %d", path, a.Len(), b.Len())
		}
		if a.Type().Elem().Kind() == reflect.Uint8 {
			if !bytes.Equal(a.Bytes(), b.Bytes()) {
				return path + ": bytes differ"
			}
			return ""
		}
		for i := 0; i < a.Len(); i++ {
			if s := eq(a.Index(i), b.Index(i), "", fmt.Sprintf("%s[%d]", path, i)); s != "" {
				return s
			}
		}
		return ""
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			f := a.Type().Field(i)
			if f.PkgPath != "" || f.Tag.Get("ser") == "-" {
				continue
			}
			if s := eq(a.Field(i), b.Field(i), f.Tag, path+"."+f.Name); s != "" {
				return s
			}
		}
		return ""
	default:
		if !reflect.DeepEqual(a.Interface(), b.Interface()) {
			return fmt.Sprintf("%s: %v != %v", path, a.Interface(), b.Interface())
		}
		return ""
	}
}

func eqBig(x, y *big.Int, path string) string {
	if x == nil {
		x = new(big.Int)
	}
	if y == nil {
		y = new(big.Int)
	}
	if x.Cmp(y) != 0 {
		return fmt.Sprintf("%s: %v != %v", path, x, y)
	}
	return ""
}

func eqMap(x, y map[uint64]*big.Int, path string) string {
	for _, p := range [][2]map[uint64]*big.Int{{x, y}, {y, x}} {
		for k, v := range p[0] {
			w := p[1][k]
			if w == nil {
				w = new(big.Int)
			}
			if v.Cmp(w) != 0 {
				return fmt.Sprintf("%s: token %d: %v != %v", path, k, v, w)
			}
		}
	}
	return ""
}

// TxDiff compares two transactions field by field through their accessors.
func TxDiff(x, y *types.EvmTransaction) string {
	cmp := func(a, b *big.Int) bool { return a != nil && b != nil && a.Cmp(b) == 0 }
	to := func(t *types.EvmTransaction) account.Recipient {
		if t.To() == nil {
			return account.Recipient{}
		}
		return *t.To()
	}
	xv, xr, xs := x.RawSignatureValues()
	yv, yr, ys := y.RawSignatureValues()
	switch {
	case x.Nonce() != y.Nonce():
		return "nonce"
	case !cmp(x.GasPrice(), y.GasPrice()):
		return "price"
	case x.Gas() != y.Gas():
		return "gas"
	case (x.To() == nil) != (y.To() == nil) || to(x) != to(y):
		return "to"
	case !cmp(x.Value(), y.Value()):
		return "value"
	case !bytes.Equal(x.Data(), y.Data()):
		return "data"
	case x.NetworkId() != y.NetworkId():
		return "network"
	case x.FromFullShardKey() != y.FromFullShardKey():
		return "from key"
	case x.ToFullShardKey() != y.ToFullShardKey():
		return "to key"
	case x.GasTokenID() != y.GasTokenID():
		return "gas token"
	case x.TransferTokenID() != y.TransferTokenID():
		return "transfer token"
	case x.Version() != y.Version():
		return "version"
	case !cmp(xv, yv) || !cmp(xr, yr) || !cmp(xs, ys):
		return "signature"
	}
	return ""
}
