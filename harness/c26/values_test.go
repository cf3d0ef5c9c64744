// Package c26: the public JSON interface. Values: every JSON type of the
// interface against an independent reading of its spelling. Server: generated
// requests, batches and garbage against an expected-answer model, over a stream
// and over HTTP. API: the real service over a whole node, its answers compared
// with the generated history, hostile arguments included.
package c26

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"regexp"
	"strings"
	"testing"

	"github.com/QuarkChain/goquarkchain/account"
	qhex "github.com/QuarkChain/goquarkchain/common/hexutil"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/rpc"
	"github.com/QuarkChain/goquarkchain/zzverif/vlib"
	"github.com/ethereum/go-ethereum/common"
	"pgregory.net/rapid"
)

func pick[T any](rt *rapid.T, n string, v ...T) T { return rapid.SampledFrom(v).Draw(rt, n) }

var (
	reHex = regexp.MustCompile(`^0[xX]([0-9a-fA-F]{2})*$`)
	reNum = regexp.MustCompile(`^0[xX][0-9a-fA-F]+$`)
	// the three words are the only other spellings of a block
	words = map[string]int64{"earliest": 0, "latest": -1, "pending": -2}
)

func bytesOf(s string) ([]byte, bool) {
	if !reHex.MatchString(s) {
		return nil, false
	}
	b, _ := hex.DecodeString(s[2:])
	return b, true
}

func numOf(s string, max *big.Int) (*big.Int, bool) {
	if !reNum.MatchString(s) {
		return nil, false
	}
	v, _ := new(big.Int).SetString(s[2:], 16)
	return v, v.Cmp(max) <= 0
}

var (
	max64  = new(big.Int).SetUint64(^uint64(0))
	max63  = big.NewInt(1<<63 - 1)
	max256 = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1))
)

func hexDigits(rt *rapid.T, n int, mixed bool) string {
	set := "0123456789abcdef"
	if mixed {
		set += "ABCDEF"
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = set[rapid.IntRange(0, len(set)-1).Draw(rt, "d")]
	}
	return string(b)
}

// spelling of a value, possibly damaged.
func spelling(rt *rapid.T, lens ...int) string {
	n := pick(rt, "len", lens...)
	s := "0x" + hexDigits(rt, n, rapid.Bool().Draw(rt, "mixed"))
	if n > 0 && rapid.IntRange(0, 5).Draw(rt, "top") == 0 {
		s = "0x" + strings.Repeat(pick(rt, "fill", "f", "0", "8", "7"), n)
	}
	for k := pick(rt, "damages", 0, 0, 0, 1, 1, 2); k > 0; k-- {
		switch rapid.IntRange(0, 7).Draw(rt, "damage") {
		case 0:
			s = strings.TrimPrefix(s, "0x")
		case 1: // one character more
			p := rapid.IntRange(0, len(s)).Draw(rt, "at")
			s = s[:p] + pick(rt, "c", "0", "g", "x", " ", "-", "+", "_", ".", "é", "\t", "z", "`", "@", "G", "/", ":") + s[p:]
		case 2: // one less
			if len(s) > 0 {
				p := rapid.IntRange(0, len(s)-1).Draw(rt, "at")
				s = s[:p] + s[p+1:]
			}
		case 3:
			if len(s) > 0 {
				p := rapid.IntRange(0, len(s)-1).Draw(rt, "at")
				s = s[:p] + pick(rt, "c", "g", "x", "X", " ", "-", "_", "f", "`", "@", "/", ":", "G", "h") + s[p+1:]
			}
		case 4:
			s = strings.Replace(s, "0x", "0X", 1)
		case 5:
			s = pick(rt, "whole", "", "0x", "x", "0", "latest", "pending", "earliest", "Latest", "null", "-0x1", "0x-1", "1", "0b1", "0x1p3", "0x_1", "1e3", "0x0x1", " latest", "late", "safe", "finalized")
		case 6:
			s = "0x0" + strings.TrimPrefix(s, "0x")
		case 7:
			s = s + pick(rt, "tail", "0", "00", " ", "\n")
		}
	}
	return s
}

// document is the JSON the spelling comes in: a string, or something which is not.
func document(rt *rapid.T, s string) (doc []byte, isString bool) {
	switch pick(rt, "doc", 0, 0, 0, 0, 0, 0, 1, 2) {
	case 1:
		return []byte(pick(rt, "other", "1", "0", "-1", "1.5", "1e3", "true", "{}", "[]", `["0x1"]`, `{"a":"0x1"}`, "null")), false
	case 2:
		if json.Valid([]byte(s)) {
			return []byte(strings.TrimSpace(s)), false
		}
	}
	d, _ := json.Marshal(s)
	return d, true
}

// inner is the text between the quotes of a JSON string as it is written: the
// types of the interface read it without undoing escapes, so an escaped
// spelling is refused like any other odd one.
func inner(doc []byte) string { return string(doc[1 : len(doc)-1]) }

func TestValues(t *testing.T) {
	vlib.Check(t, 40000, 1000000, "the spelling was damaged, at a limit of its type, or is a value that was encoded and read back", func(rt *rapid.T, c *vlib.C) {
		kind := pick(rt, "kind", "bytes", "big", "uint64", "uint", "number", "numberOrHash", "hash", "address", "recipient", "unprefixed", "filter", "round", "balances", "strings")
		c.Label("kind %s", kind)
		fail := func(doc []byte, why string, a ...interface{}) {
			rt.Fatalf("%s: %q: %s", kind, doc, fmt.Sprintf(why, a...))
		}
		judge := func(doc []byte, err error, ok bool) bool {
			if ok && err != nil {
				fail(doc, "refused: %v", err)
			}
			if !ok && err == nil {
				fail(doc, "accepted")
			}
			if ok {
				c.Label("accepted")
			} else {
				c.Label("refused")
			}
			c.NonTrivial("%s %s", kind, doc)
			return ok
		}
		switch kind {
		case "bytes":
			doc, str := document(rt, spelling(rt, 0, 2, 4, 8, 40, 64, 200))
			var v qhex.Bytes
			err := json.Unmarshal(doc, &v)
			if string(doc) == "null" {
				if err != nil || len(v) != 0 {
					fail(doc, "no value is not the empty value")
				}
				return
			}
			var want []byte
			ok := false
			if str {
				if want, ok = bytesOf(inner(doc)); inner(doc) == "" {
					ok = true
				}
			}
			if judge(doc, err, ok) && !bytes.Equal(v, want) {
				fail(doc, "read as %x", []byte(v))
			}
		case "big":
			doc, str := document(rt, spelling(rt, 1, 2, 15, 16, 17, 32, 33, 63, 64, 65, 80))
			var v qhex.Big
			err := json.Unmarshal(doc, &v)
			want, ok := new(big.Int), false
			if str {
				if inner(doc) == "" {
					ok = true
				} else if want, ok = numOf(inner(doc), max256); ok && len(inner(doc)) > 66 {
					return // more digits than the limit, all of them zeros: either
				}
			}
			if judge(doc, err, ok) && v.ToInt().Cmp(want) != 0 {
				fail(doc, "read as %v", v.ToInt())
			}
		case "uint64", "uint":
			doc, str := document(rt, spelling(rt, 1, 2, 8, 15, 16, 17, 32))
			var got uint64
			var err error
			if kind == "uint" {
				var v qhex.Uint
				err = json.Unmarshal(doc, &v)
				got = uint64(v)
			} else {
				var v qhex.Uint64
				err = json.Unmarshal(doc, &v)
				got = uint64(v)
			}
			want, ok := new(big.Int), false
			if str {
				if inner(doc) == "" {
					ok = true
				} else if want, ok = numOf(inner(doc), max64); ok && len(inner(doc)) > 18 {
					return
				}
			}
			if judge(doc, err, ok) && got != want.Uint64() {
				fail(doc, "read as %d", got)
			}
		case "strings": // the plain functions
			s := spelling(rt, 0, 1, 2, 15, 16, 17, 40, 64, 65)
			switch rapid.IntRange(0, 2).Draw(rt, "fn") {
			case 0:
				v, err := qhex.Decode(s)
				want, ok := bytesOf(s)
				if judge([]byte(s), err, ok) && !bytes.Equal(v, want) {
					fail([]byte(s), "read as %x", v)
				}
			case 1:
				v, err := qhex.DecodeUint64(s)
				want, ok := numOf(s, max64)
				if judge([]byte(s), err, ok) && v != want.Uint64() {
					fail([]byte(s), "read as %d", v)
				}
			case 2:
				v, err := qhex.DecodeBig(s)
				want, ok := numOf(s, max256)
				if ok && len(s) > 66 {
					return
				}
				if judge([]byte(s), err, ok) && v.Cmp(want) != 0 {
					fail([]byte(s), "read as %v", v)
				}
			}
		case "number", "numberOrHash":
			doc, str := document(rt, spelling(rt, 1, 2, 15, 16, 17, 63, 64, 64, 65))
			var want int64
			var hash []byte
			ok := false
			if str {
				s := inner(doc)
				if w, is := words[s]; is {
					want, ok = w, true
				} else if len(s) == 66 && kind == "numberOrHash" {
					hash, ok = bytesOf(s)
				} else if v, is := numOf(s, max63); is {
					if s[1] == 'X' || len(s) > 3 && s[2] == '0' {
						return // leading zeros: either
					}
					want, ok = v.Int64(), true
				}
			}
			if kind == "number" {
				if string(doc) == "null" {
					return
				}
				var v rpc.BlockNumber
				err := json.Unmarshal(doc, &v)
				if judge(doc, err, ok) && v.Int64() != want {
					fail(doc, "read as %d", v)
				}
				return
			}
			if !str {
				h := hexDigits(rt, 64, false)
				d, valid := []byte(`{"blockNumber":"0x5"}`), true
				switch rapid.IntRange(0, 5).Draw(rt, "object") {
				case 0:
					d = []byte(`{"blockHash":"0x` + h + `"}`)
				case 1:
					d, valid = []byte(`{"blockHash":"0x`+h+`","blockNumber":"0x5"}`), false
				case 2:
					d, valid = []byte(`{"blockHash":"0x`+h[1:]+`"}`), false
				case 3:
					d, valid = []byte(`{"blockNumber":"`+pick(rt, "bad", "5", "0x", "", "new", "0x8000000000000000", "0xg")+`"}`), false
				case 4:
					d, valid = []byte(pick(rt, "odd", "7", "true", "[]", `["0x5"]`, "1.5")), false
				}
				var v rpc.BlockNumberOrHash
				err := json.Unmarshal(d, &v)
				if judge(d, err, valid) {
					n, isN := v.Number()
					x, isH := v.Hash()
					if isN == isH || isN && n != 5 || isH && x != common.HexToHash(h) {
						fail(d, "read as %v %v %v %v", n, isN, x, isH)
					}
				}
				return
			}
			var v rpc.BlockNumberOrHash
			err := json.Unmarshal(doc, &v)
			if judge(doc, err, ok) {
				n, isN := v.Number()
				x, isH := v.Hash()
				if isN == isH || isN != (hash == nil) || isN && n.Int64() != want || isH && !bytes.Equal(x[:], hash) {
					fail(doc, "read as %v %v %v %v", n, isN, x, isH)
				}
			}
		case "hash", "recipient":
			n := 32
			if kind == "recipient" {
				n = 20
			}
			doc, str := document(rt, spelling(rt, 2*n, 2*n, 2*n, 2*n-2, 2*n+2, 2*n-1, 2*n+1, 48))
			if string(doc) == "null" {
				return
			}
			var err error
			var got []byte
			if n == 20 {
				var v account.Recipient
				err = json.Unmarshal(doc, &v)
				got = v[:]
			} else {
				var v common.Hash
				err = json.Unmarshal(doc, &v)
				got = v[:]
			}
			var want []byte
			ok := false
			if str {
				want, ok = bytesOf(inner(doc))
				ok = ok && len(want) == n
			}
			if judge(doc, err, ok) && !bytes.Equal(got, want) {
				fail(doc, "read as %x", got)
			}
		case "address", "unprefixed":
			doc, str := document(rt, spelling(rt, 48, 48, 48, 48, 40, 46, 47, 49, 50, 0))
			if string(doc) == "null" {
				return
			}
			var want []byte
			ok := false
			var got account.Address
			var err error
			if kind == "address" {
				if str {
					want, ok = bytesOf(inner(doc))
					ok = ok && (len(want) == 24 || len(want) == 0)
				}
				err = json.Unmarshal(doc, &got)
			} else {
				if str {
					var s string
					json.Unmarshal(doc, &s)
					if !strings.HasPrefix(s, "0x") && !strings.HasPrefix(s, "0X") {
						s = "0x" + s
					}
					want, ok = bytesOf(s)
					ok = ok && len(want) == 24
				}
				var v account.UnprefixedAddress
				err = json.Unmarshal(doc, &v)
				got = v.Address()
			}
			if judge(doc, err, ok) && len(want) == 24 && !bytes.Equal(got.ToBytes(), want) {
				fail(doc, "read as %x", got.ToBytes())
			}
		case "filter":
			filter(rt, c, judge, fail)
		case "round":
			round(rt, c)
		case "balances":
			m := map[uint64]*big.Int{}
			for k := rapid.IntRange(0, 5).Draw(rt, "tokens"); k > 0; k-- {
				m[rapid.Uint64().Draw(rt, "token")] = new(big.Int).SetBytes(rapid.SliceOfN(rapid.Byte(), 0, 32).Draw(rt, "balance"))
			}
			tb := types.NewTokenBalancesWithMap(m)
			d, err := json.Marshal(tb)
			if err != nil {
				rt.Fatalf("balances %v: %v", m, err)
			}
			back := types.NewEmptyTokenBalances()
			if err := json.Unmarshal(d, back); err != nil {
				rt.Fatalf("balances %s not read back: %v", d, err)
			}
			got := back.GetBalanceMap()
			if len(got) != len(tb.GetBalanceMap()) {
				rt.Fatalf("balances %s read as %v", d, got)
			}
			for k, v := range tb.GetBalanceMap() {
				if got[k] == nil || got[k].Cmp(v) != 0 {
					rt.Fatalf("balances %s read as %v", d, got)
				}
			}
			c.NonTrivial("%s", d)
		}
	})
}

func round(rt *rapid.T, c *vlib.C) {
	b := rapid.SliceOfN(rapid.Byte(), 0, 70).Draw(rt, "bytes")
	n := rapid.Uint64().Draw(rt, "n") >> uint(pick(rt, "shift", 0, 1, 8, 31, 32, 60, 64))
	i := new(big.Int).SetBytes(rapid.SliceOfN(rapid.Byte(), 0, 32).Draw(rt, "big"))
	var addr account.Address
	copy(addr.Recipient[:], rapid.SliceOfN(rapid.Byte(), 20, 20).Draw(rt, "recipient"))
	addr.FullShardKey = rapid.Uint32().Draw(rt, "key")
	type all struct {
		B qhex.Bytes
		I *qhex.Big
		U qhex.Uint
		V qhex.Uint64
		A account.Address
		P account.UnprefixedAddress
		H common.Hash
		R account.Recipient
		M map[account.UnprefixedAddress]int
	}
	in := all{b, (*qhex.Big)(i), qhex.Uint(n), qhex.Uint64(n), addr, account.UnprefixedAddress(addr), common.BytesToHash(b), addr.Recipient, map[account.UnprefixedAddress]int{account.UnprefixedAddress(addr): 1}}
	d, err := json.Marshal(in)
	if err != nil {
		rt.Fatalf("%+v: %v", in, err)
	}
	var raw map[string]interface{}
	json.Unmarshal(d, &raw)
	if raw["B"] != fmt.Sprintf("0x%x", b) || raw["I"] != fmt.Sprintf("0x%x", i) || raw["U"] != fmt.Sprintf("0x%x", n) || raw["V"] != fmt.Sprintf("0x%x", n) ||
		raw["A"] != fmt.Sprintf("0x%x%08x", addr.Recipient[:], addr.FullShardKey) || !strings.EqualFold(raw["R"].(string), fmt.Sprintf("0x%x", addr.Recipient[:])) {
		rt.Fatalf("spelled as %s", d)
	}
	var out all
	if err := json.Unmarshal(d, &out); err != nil {
		rt.Fatalf("%s not read back: %v", d, err)
	}
	if !bytes.Equal(out.B, b) || out.I.ToInt().Cmp(i) != 0 || uint64(out.U) != n || uint64(out.V) != n || out.A != addr || out.P.Address() != addr || out.H != in.H || out.R != in.R || len(out.M) != 1 || out.M[in.P] != 1 {
		rt.Fatalf("%s read back as %+v", d, out)
	}
	if qhex.Encode(b) != fmt.Sprintf("0x%x", b) || qhex.EncodeUint64(n) != fmt.Sprintf("0x%x", n) || qhex.EncodeBig(i) != fmt.Sprintf("0x%x", i) {
		rt.Fatalf("encoded as %s %s %s", qhex.Encode(b), qhex.EncodeUint64(n), qhex.EncodeBig(i))
	}
	c.NonTrivial("%s", d)
}

// filter: an object of generated members, each valid or not.
func filter(rt *rapid.T, c *vlib.C, judge func([]byte, error, bool) bool, fail func([]byte, string, ...interface{})) {
	o := map[string]interface{}{}
	ok := true
	hashOK := func(s string) bool { b, is := bytesOf(s); return is && len(b) == 32 }
	var addrs []string
	var topics [][]string
	hash := ""
	var from, to *int64
	if rapid.Bool().Draw(rt, "addresses") {
		one := func() string {
			s := spelling(rt, 40, 40, 40, 48, 48, 38, 42, 46, 50, 47)
			b, is := bytesOf(s)
			ok = ok && is && (len(b) == 20 || len(b) == 24)
			return s
		}
		switch rapid.IntRange(0, 3).Draw(rt, "form") {
		case 0:
			addrs = []string{one()}
			o["address"] = addrs[0]
		case 1, 2:
			l := []interface{}{}
			for k := rapid.IntRange(0, 3).Draw(rt, "n"); k > 0; k-- {
				addrs = append(addrs, one())
				l = append(l, addrs[len(addrs)-1])
			}
			if rapid.IntRange(0, 7).Draw(rt, "odd") == 0 {
				l = append(l, pick[interface{}](rt, "x", 5, nil, true, []int{}))
				ok = false
			}
			o["address"] = l
		case 3:
			o["address"] = pick[interface{}](rt, "x", 5, true, map[string]int{})
			ok = false
		}
	}
	if rapid.Bool().Draw(rt, "topics") {
		l := []interface{}{}
		one := func() string {
			s := spelling(rt, 64, 64, 64, 64, 64, 62, 66, 63)
			if rapid.IntRange(0, 3).Draw(rt, "whole") > 0 {
				s = "0x" + hexDigits(rt, 64, false)
			}
			return s
		}
		for k := rapid.IntRange(0, 5).Draw(rt, "n"); k > 0; k-- {
			switch rapid.IntRange(0, 8).Draw(rt, "topic") {
			case 0, 1:
				l = append(l, nil)
				topics = append(topics, nil)
			case 2, 3, 4:
				s := one()
				ok = ok && hashOK(s)
				l = append(l, s)
				topics = append(topics, []string{s})
			case 5, 6, 7:
				alt := []interface{}{}
				var want []string
				any := false
				for j := rapid.IntRange(0, 3).Draw(rt, "alternatives"); j > 0; j-- {
					s := one()
					if !any { // what follows a wildcard is not read
						ok = ok && hashOK(s)
						want = append(want, s)
					} else {
						s = "0x" + hexDigits(rt, 64, false)
					}
					alt = append(alt, s)
					if rapid.IntRange(0, 5).Draw(rt, "wild") == 0 {
						alt = append(alt, nil)
						any = true
					}
				}
				if any {
					want = nil
				}
				l = append(l, alt)
				topics = append(topics, want)
			case 8:
				if rapid.IntRange(0, 2).Draw(rt, "bad") == 0 {
					l = append(l, pick[interface{}](rt, "x", 5, true, map[string]int{}, []int{1}))
					topics = append(topics, nil)
					ok = false
				}
			}
		}
		o["topics"] = l
	}
	num := func() (string, *int64) {
		s := spelling(rt, 1, 2, 8, 15, 16)
		if w, is := words[s]; is {
			return s, &w
		}
		v, is := numOf(s, max63)
		if len(s) > 3 && s[2] == '0' {
			s, v, is = "0x7", big.NewInt(7), true
		}
		ok = ok && is
		if !is {
			return s, nil
		}
		w := v.Int64()
		return s, &w
	}
	if rapid.IntRange(0, 2).Draw(rt, "hash") == 0 {
		hash = spelling(rt, 64, 64, 64, 64, 62)
		ok = ok && hashOK(hash)
		o["blockHash"] = hash
	}
	if rapid.IntRange(0, 2).Draw(rt, "from") == 0 {
		o["fromBlock"], from = num()
	}
	if rapid.IntRange(0, 2).Draw(rt, "to") == 0 {
		o["toBlock"], to = num()
	}
	if hash != "" && (o["fromBlock"] != nil || o["toBlock"] != nil) {
		ok = false
	}
	doc, _ := json.Marshal(o)
	if strings.Contains(string(doc), "0X") || strings.Contains(string(doc), `""`) {
		return // either
	}
	var v rpc.FilterQuery
	err := json.Unmarshal(doc, &v)
	if !judge(doc, err, ok) {
		return
	}
	if hash != "" != (v.BlockHash != nil) || hash != "" && *v.BlockHash != common.HexToHash(hash) {
		fail(doc, "block hash read as %v", v.BlockHash)
	}
	for i, p := range []*int64{from, to} {
		got := v.FromBlock
		if i == 1 {
			got = v.ToBlock
		}
		if (p == nil) != (got == nil) || p != nil && got.Cmp(big.NewInt(*p)) != 0 {
			fail(doc, "range read as %v..%v", v.FromBlock, v.ToBlock)
		}
	}
	if len(v.Addresses) != len(addrs) {
		fail(doc, "addresses read as %v", v.Addresses)
	}
	for i, a := range addrs {
		b, _ := bytesOf(a)
		if !bytes.Equal(v.Addresses[i][:], b[:20]) {
			fail(doc, "addresses read as %v", v.Addresses)
		}
	}
	if len(v.Topics) != len(topics) {
		fail(doc, "topics read as %v", v.Topics)
	}
	for i, want := range topics {
		if len(want) != len(v.Topics[i]) {
			fail(doc, "topics read as %v", v.Topics)
		}
		for j, s := range want {
			if v.Topics[i][j] != common.HexToHash(s) {
				fail(doc, "topics read as %v", v.Topics)
			}
		}
	}
}
