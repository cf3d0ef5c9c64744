//go:build nt

package c15

const variant = "c++"

func impls() map[string]mixFn { return map[string]mixFn{"c++": nativeMix} }
