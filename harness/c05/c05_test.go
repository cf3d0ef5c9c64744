package c05

import (
	"math/big"
	"strings"
	"testing"

	"github.com/QuarkChain/goquarkchain/common"
	"github.com/QuarkChain/goquarkchain/zzverif/vlib"
	"pgregory.net/rapid"
)

const alphabet = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"

// refEncode: rank of the name in the order "shorter first, then alphabetical".
func refEncode(s string) *big.Int {
	// number of names shorter than s: 36 + 36^2 + ... + 36^(len-1)
	r := new(big.Int)
	p := big.NewInt(1)
	for i := 1; i < len(s); i++ {
		p.Mul(p, big.NewInt(36))
		r.Add(r, p)
	}
	v := new(big.Int)
	for i := 0; i < len(s); i++ {
		v.Mul(v, big.NewInt(36))
		v.Add(v, big.NewInt(int64(strings.IndexByte(alphabet, s[i]))))
	}
	return r.Add(r, v)
}

func encode(s string) (id uint64, refused bool) {
	defer func() {
		if recover() != nil {
			refused = true
		}
	}()
	return common.TokenIDEncode(s), false
}

func nameGen() *rapid.Generator[string] {
	return rapid.OneOf(
		rapid.StringMatching("[0-9A-Z]{1,12}"),
		rapid.StringMatching("[0Z9A]{1,12}"),
		rapid.Map(rapid.IntRange(1, 12), func(n int) string { return strings.Repeat("Z", n) }),
		rapid.Map(rapid.IntRange(1, 12), func(n int) string { return strings.Repeat("0", n) }),
	)
}

func idGen() *rapid.Generator[uint64] {
	maxID := common.TOKENIDMAX
	return rapid.Custom(func(t *rapid.T) uint64 {
		switch rapid.IntRange(0, 4).Draw(t, "kind") {
		case 0:
			return rapid.Uint64Range(0, maxID).Draw(t, "id")
		case 1: // around the first id of each length
			n := rapid.IntRange(1, 12).Draw(t, "len")
			b := refEncode(strings.Repeat("0", n)).Uint64()
			d := rapid.Uint64Range(0, 40).Draw(t, "d")
			if rapid.Bool().Draw(t, "neg") && b >= d {
				return b - d
			}
			return b + d
		case 2: // multiples of powers of the base
			p := uint64(1)
			for i := rapid.IntRange(0, 11).Draw(t, "pow"); i > 0; i-- {
				p *= 36
			}
			v := p * rapid.Uint64Range(0, 36).Draw(t, "mul")
			if v > maxID {
				v = maxID
			}
			return v
		case 3:
			return maxID - rapid.Uint64Range(0, 100).Draw(t, "d")
		}
		return rapid.Uint64Range(0, 2000).Draw(t, "small")
	})
}

func TestNameRoundTrip(t *testing.T) {
	if common.TOKENIDMAX != refEncode("ZZZZZZZZZZZZ").Uint64() {
		t.Fatalf("maximal token id %d is not the id of the last 12-letter name", common.TOKENIDMAX)
	}
	vlib.Check(t, 20000, 2000000, "valid names (12 or fewer of 0-9A-Z, biased to extremes); non-trivial: two or more characters", func(rt *rapid.T, c *vlib.C) {
		a, b := nameGen().Draw(rt, "a"), nameGen().Draw(rt, "b")
		ia, ra := encode(a)
		ib, rb := encode(b)
		if ra || rb {
			rt.Fatalf("valid name refused: %q %q", a, b)
		}
		if want := refEncode(a); !want.IsUint64() || want.Uint64() != ia {
			rt.Fatalf("name %q has id %d, want %v", a, ia, want)
		}
		back, err := common.TokenIdDecode(ia)
		if err != nil || back != a {
			rt.Fatalf("name %q -> %d -> %q, %v", a, ia, back, err)
		}
		if (a == b) != (ia == ib) {
			rt.Fatalf("names %q %q have ids %d %d", a, b, ia, ib)
		}
		less := len(a) < len(b) || len(a) == len(b) && a < b
		if less != (ia < ib) {
			rt.Fatalf("order of %q and %q not that of ids %d and %d", a, b, ia, ib)
		}
		c.Label("len %02d", len(a))
		if len(a) > 1 {
			c.NonTrivial("%s/%s", a, b)
			c.Sample("%q=%d %q=%d", a, ia, b, ib)
		}
	})
}

func TestIdRoundTrip(t *testing.T) {
	vlib.Check(t, 20000, 2000000, "ids up to the maximum, biased to length and carry boundaries; non-trivial: two or more characters", func(rt *rapid.T, c *vlib.C) {
		id := idGen().Draw(rt, "id")
		name, err := common.TokenIdDecode(id)
		if err != nil {
			rt.Fatalf("id %d refused: %v", id, err)
		}
		if len(name) < 1 || len(name) > 12 || strings.Trim(name, alphabet) != "" {
			rt.Fatalf("id %d decodes to invalid name %q", id, name)
		}
		if want := refEncode(name).Uint64(); want != id {
			rt.Fatalf("id %d decodes to %q whose id is %d", id, name, want)
		}
		back, refused := encode(name)
		if refused || back != id {
			rt.Fatalf("id %d -> %q -> %d", id, name, back)
		}
		c.Label("len %02d", len(name))
		if len(name) > 1 {
			c.NonTrivial("%d", id)
			c.Sample("%d=%q", id, name)
		}
	})
}

func TestInvalidRefused(t *testing.T) {
	vlib.Check(t, 10000, 500000, "ids above the maximum, names too long, empty or with foreign characters; all non-trivial", func(rt *rapid.T, c *vlib.C) {
		switch rapid.IntRange(0, 2).Draw(rt, "kind") {
		case 0:
			id := rapid.OneOf(rapid.Uint64Range(common.TOKENIDMAX+1, ^uint64(0)), rapid.Uint64Range(common.TOKENIDMAX+1, common.TOKENIDMAX+50)).Draw(rt, "id")
			if n, err := common.TokenIdDecode(id); err == nil {
				rt.Fatalf("id %d above the maximum decodes to %q", id, n)
			}
			c.NonTrivial("id %d", id)
			c.Sample("id %d", id)
			c.Label("id too big")
		case 1:
			s := rapid.StringMatching("[0-9A-Z]{13,40}").Draw(rt, "s")
			if id, refused := encode(s); !refused {
				rt.Fatalf("too long name %q encodes to %d", s, id)
			}
			c.NonTrivial("long %s", s)
			c.Label("name too long")
		case 2:
			b := []byte(nameGen().Draw(rt, "s"))
			bad := rapid.Custom(func(t *rapid.T) byte {
				v := rapid.OneOf(rapid.Byte(), rapid.SampledFrom([]byte("/:@[az`{ "))).Draw(t, "b")
				if strings.IndexByte(alphabet, v) >= 0 {
					return '_'
				}
				return v
			}).Draw(rt, "bad")
			b[rapid.IntRange(0, len(b)-1).Draw(rt, "pos")] = bad
			if id, refused := encode(string(b)); !refused {
				rt.Fatalf("invalid name %q encodes to %d", b, id)
			}
			c.NonTrivial("char %q", b)
			c.Sample("name %q", b)
			c.Label("foreign character")
		}
	})
}
