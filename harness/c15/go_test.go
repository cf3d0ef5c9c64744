//go:build !nt

package c15

import "github.com/QuarkChain/goquarkchain/consensus/qkchash"

const variant = "go"

func impls() map[string]mixFn {
	return map[string]mixFn{"go": qkchash.HashWithRotationStats, "c++": nativeMix}
}
