// Package hist generates histories of transactions and blocks on top of chainenv.
package hist

import (
	"fmt"
	"math/big"
	"time"

	qcom "github.com/QuarkChain/goquarkchain/common"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/zzverif/chainenv"
	"github.com/ethereum/go-ethereum/common"
	"pgregory.net/rapid"
)

// Tokens other than QKC that senders own.
var (
	TokA = qcom.TokenIDEncode("ABC")
	TokB = qcom.TokenIDEncode("ZZZZ")
)

// Contracts at genesis.
var (
	LogAddr     [5]common.Address // LOGk with topics = first k words, data = rest of the call data
	StoreAddr   = common.HexToAddress("0xc0de000000000000000000000000000000000010")
	RevertAddr  = common.HexToAddress("0xc0de000000000000000000000000000000000011") // reverts if word 0 != 0, else logs and stores
	SuicideAddr = common.HexToAddress("0xc0de000000000000000000000000000000000012") // selfdestruct to word 0
	BurnGasAddr = common.HexToAddress("0xc0de000000000000000000000000000000000013") // INVALID
	MntAddr     = common.HexToAddress("0xc0de000000000000000000000000000000000014") // asks which token it received
	ProxyAddr   = common.HexToAddress("0xc0de000000000000000000000000000000000015") // calls word 0 with value word 1 and the rest as data, ignoring the result
	TwoLogsAddr = common.HexToAddress("0xc0de000000000000000000000000000000000016") // LOG1(word0), LOG1(word1)
)

// Code of the contracts.
var Code = map[common.Address][]byte{}

func init() {
	for k := 0; k < 5; k++ {
		LogAddr[k] = common.HexToAddress(fmt.Sprintf("0xc0de00000000000000000000000000000000000%d", k))
		// CALLDATACOPY(0, 0, CALLDATASIZE)
		c := []byte{0x36, 0x60, 0, 0x60, 0, 0x37}
		for i := k - 1; i >= 0; i-- {
			c = append(c, 0x60, byte(32*i), 0x35) // CALLDATALOAD
		}
		// data: memory [32k, 32k+32)
		c = append(c, 0x60, 32, 0x60, byte(32*k), byte(0xa0+k), 0)
		Code[LogAddr[k]] = c
	}
	Code[StoreAddr] = []byte{0x60, 32, 0x35, 0x60, 0, 0x35, 0x55, 0}
	// if word0 { revert(0,0) } ; SSTORE(1, word1); LOG1(word1)
	Code[RevertAddr] = []byte{0x60, 0, 0x35, 0x60, 20, 0x57, // JUMPI 20
		0x60, 32, 0x35, 0x60, 1, 0x55, 0x60, 32, 0x35, 0x60, 0, 0x60, 0, // PC 6..18
		0xa1,                   // 19: LOG1 falls to 20
		0x5b,                   // 20 JUMPDEST
		0x60, 0, 0x35, 0x60, 27, 0x57, // 21..26
		0x5b, // 27
		0x60, 0, 0x35, 0x15, 0x60, 39, 0x57, // 28..34: if word0==0 jump 39
		0x60, 0, 0x80, 0xfd, // 35..38 revert(0,0)
		0x5b, 0x00} // 39
	Code[SuicideAddr] = []byte{0x60, 0, 0x35, 0xff}
	Code[BurnGasAddr] = []byte{0xfe}
	// STATICCALL? current MNT id precompile is asked with CALL(gas, 0x...514b430001, 0, 0,0, 0,32); SSTORE(2, mem0)
	mnt := []byte{0x60, 32, 0x60, 0, 0x60, 0, 0x60, 0, 0x60, 0, 0x64, 0x51, 0x4b, 0x43, 0x00, 0x01, 0x5a, 0xf1, 0x60, 0, 0x51, 0x60, 2, 0x55, 0}
	Code[MntAddr] = mnt
	// CALLDATACOPY(0, 64, size-64) ; CALL(gas, word0, word1, 0, size-64, 0, 0)
	Code[ProxyAddr] = []byte{0x60, 64, 0x36, 0x03, 0x60, 64, 0x60, 0, 0x37, // size: CALLDATASIZE-64
		0x60, 0, 0x60, 0, 0x60, 64, 0x36, 0x03, 0x60, 0, 0x60, 32, 0x35, 0x60, 0, 0x35, 0x61, 0x27, 0x10, 0x5a, 0x03, 0xf1, 0x50, 0}
	Code[TwoLogsAddr] = []byte{0x60, 0, 0x35, 0x60, 0, 0x60, 0, 0xa1, 0x60, 32, 0x35, 0x60, 0, 0x60, 0, 0xa1, 0}
}

// Senders is the number of funded keys.
const Senders = 5

// Opt is a cluster with funded senders and the contracts above.
func Opt(chains, shards uint32) chainenv.Opt {
	al := map[common.Address]map[string]*big.Int{}
	for i := 0; i < Senders; i++ {
		al[chainenv.Addrs[i]] = map[string]*big.Int{"QKC": chainenv.Fund()}
		if i < 3 {
			al[chainenv.Addrs[i]]["ABC"] = big.NewInt(1000000)
			al[chainenv.Addrs[i]]["ZZZZ"] = big.NewInt(1000000)
		}
	}
	for a := range Code {
		al[a] = map[string]*big.Int{"QKC": big.NewInt(100)}
	}
	return chainenv.Opt{ChainSize: chains, ShardSize: shards, Alloc: al, Code: Code}
}

// Word is a 32 byte big-endian number.
func Word(x uint64) []byte { return common.BigToHash(new(big.Int).SetUint64(x)).Bytes() }

// AddrWord is an address as call data.
func AddrWord(a common.Address) []byte { return common.BytesToHash(a[:]).Bytes() }

// Gen makes transactions for one environment.
type Gen struct {
	E     *chainenv.Env
	Nonce map[[2]uint32]uint64 // (shard, sender) -> next nonce
	// NoCross forbids cross-shard transactions; Plain only plain transfers.
	NoCross, Plain bool
	MaxGas         uint64
	Prices         []int64
}

// NewGen starts with the nonces of the heads.
func NewGen(e *chainenv.Env) *Gen {
	g := &Gen{E: e, Nonce: map[[2]uint32]uint64{}, MaxGas: 200000, Prices: []int64{0, 1, 1000, 1000000}}
	g.Sync()
	return g
}

// Sync re-reads all nonces from the heads.
func (g *Gen) Sync() {
	for _, id := range g.E.IDs {
		st := g.E.State(id)
		for i := 0; i < Senders; i++ {
			g.Nonce[[2]uint32{id, uint32(i)}] = st.GetNonce(chainenv.Addrs[i])
		}
	}
}

var topicVals = []uint64{0, 1, 2, 7}

// Topic draws a topic value out of a few.
func Topic(rt *rapid.T) uint64 { return rapid.SampledFrom(topicVals).Draw(rt, "topic") }

// Call draws a contract call (to, data).
func Call(rt *rapid.T) (common.Address, []byte, string) {
	switch k := rapid.SampledFrom([]string{"log", "log", "store", "revert", "suicide", "invalid", "mnt", "proxy", "twologs"}).Draw(rt, "call"); k {
	case "log":
		n := rapid.IntRange(0, 4).Draw(rt, "ntopics")
		var d []byte
		for i := 0; i < n+1; i++ {
			d = append(d, Word(Topic(rt))...)
		}
		return LogAddr[n], d, k
	case "store":
		return StoreAddr, append(Word(rapid.Uint64Range(0, 3).Draw(rt, "slot")), Word(rapid.Uint64Range(0, 2).Draw(rt, "val"))...), k
	case "revert":
		return RevertAddr, append(Word(rapid.Uint64Range(0, 1).Draw(rt, "fail")), Word(Topic(rt))...), k
	case "suicide":
		return SuicideAddr, AddrWord(chainenv.Addrs[rapid.IntRange(0, 7).Draw(rt, "heir")]), k
	case "invalid":
		return BurnGasAddr, nil, k
	case "mnt":
		return MntAddr, nil, k
	case "twologs":
		return TwoLogsAddr, append(Word(Topic(rt)), Word(Topic(rt))...), k
	default:
		to, d, _ := Call(rt)
		return ProxyAddr, append(append(AddrWord(to), Word(rapid.Uint64Range(0, 2).Draw(rt, "pv"))...), d...), "proxy"
	}
}

// Tx draws a transaction of shard id, with its kind for statistics.
func (g *Gen) Tx(rt *rapid.T, id uint32) (*types.Transaction, string) {
	from := rapid.IntRange(0, Senders-1).Draw(rt, "from")
	nk := [2]uint32{id, uint32(from)}
	o := chainenv.TxOpt{From: from, Nonce: g.Nonce[nk], FromKey: chainenv.Key(id, rapid.Uint32Range(0, 3).Draw(rt, "salt")<<4)}
	o.Price = big.NewInt(rapid.SampledFrom(g.Prices).Draw(rt, "price"))
	o.Value = big.NewInt(rapid.Int64Range(0, 1000).Draw(rt, "value"))
	o.Gas = 21000
	kinds := []string{"transfer", "call", "call", "cross", "crosscall", "create", "token"}
	if g.Plain {
		kinds = []string{"transfer", "token"}
	}
	kind := rapid.SampledFrom(kinds).Draw(rt, "kind")
	if g.NoCross || len(g.E.Cfg.Quarkchain.GetGenesisShardIds()) == 1 {
		if kind == "cross" || kind == "crosscall" {
			kind = "transfer"
		}
	}
	to := chainenv.Addrs[rapid.IntRange(0, 7).Draw(rt, "to")]
	o.To = &to
	o.ToKey = o.FromKey
	other := func() uint32 {
		var ids []uint32
		for _, x := range g.E.Cfg.Quarkchain.GetGenesisShardIds() {
			if x != id {
				ids = append(ids, x)
			}
		}
		return chainenv.Key(rapid.SampledFrom(ids).Draw(rt, "dest"), rapid.Uint32Range(0, 3).Draw(rt, "dsalt")<<4)
	}
	if kind != "call" && kind != "create" && from < 3 && rapid.IntRange(0, 2).Draw(rt, "tok") == 0 {
		o.Token = rapid.SampledFrom([]uint64{TokA, TokB}).Draw(rt, "token")
	}
	switch kind {
	case "transfer":
	case "token":
		if from < 3 {
			o.Token = rapid.SampledFrom([]uint64{TokA, TokB}).Draw(rt, "token2")
		}
	case "call":
		a, d, k := Call(rt)
		o.To, o.Data = &a, d
		kind += "-" + k
		o.Gas = rapid.SampledFrom([]uint64{30000, 60000, g.MaxGas}).Draw(rt, "gas")
		if from < 3 && rapid.IntRange(0, 3).Draw(rt, "ctok") == 0 {
			o.Token = TokA
		}
	case "cross":
		o.ToKey = other()
		o.Gas = rapid.SampledFrom([]uint64{30000, 40000}).Draw(rt, "xg")
	case "crosscall":
		o.ToKey = other()
		a, d, _ := Call(rt)
		o.To, o.Data = &a, d
		o.Gas = rapid.SampledFrom([]uint64{35000, 60000, g.MaxGas / 2}).Draw(rt, "xg2")
	case "create":
		o.To = nil
		// init code: store and return a tiny runtime (or revert)
		o.Data = rapid.SampledFrom([][]byte{
			{0x60, 1, 0x60, 0, 0x55, 0x60, 1, 0x60, 0, 0xf3},
			{0x60, 0, 0x60, 0, 0xfd},
			{},
			{0x60, 0, 0xff},
		}).Draw(rt, "init")
		o.Gas = g.MaxGas
		if len(g.E.Cfg.Quarkchain.GetGenesisShardIds()) > 1 && !g.NoCross && rapid.IntRange(0, 3).Draw(rt, "xcreate") == 0 {
			o.ToKey = other()
			o.Gas = g.MaxGas / 2
			kind = "crosscreate"
		}
	}
	if o.Gas > g.MaxGas {
		o.Gas = g.MaxGas
	}
	return chainenv.Tx(o), kind
}

// Used records that the transaction's nonce was taken.
func (g *Gen) Used(id uint32, tx *types.Transaction) {
	s, err := types.Sender(types.MakeSigner(tx.EvmTx.NetworkId()), tx.EvmTx)
	if err != nil {
		panic(err)
	}
	for i := 0; i < Senders; i++ {
		if chainenv.Addrs[i] == s {
			g.Nonce[[2]uint32{id, uint32(i)}] = tx.EvmTx.Nonce() + 1
		}
	}
}

// Offer draws n transactions and hands them to the shard's pool.
func (g *Gen) Offer(rt *rapid.T, id uint32, n int, label func(string)) []*types.Transaction {
	var out []*types.Transaction
	for i := 0; i < n; i++ {
		tx, k := g.Tx(rt, id)
		if err := g.E.Shard[id].AddTx(tx); err != nil {
			if label != nil {
				label("pool-refused")
			}
			continue
		}
		if label != nil {
			label("tx-" + k)
		}
		g.Used(id, tx)
		out = append(out, tx)
	}
	return out
}

// Settle waits until the pool of the shard has forgotten the transactions of b,
// so that what the next block contains does not depend on timing.
func Settle(e *chainenv.Env, id uint32, b *types.MinorBlock) {
	in := map[common.Hash]bool{}
	for _, tx := range b.Transactions() {
		in[tx.Hash()] = true
	}
	if len(in) == 0 {
		return
	}
	for i := 0; i < 5000; i++ {
		left := false
		for h := range in {
			if e.InPool(id, h) {
				left = true
				break
			}
		}
		if !left {
			return
		}
		time.Sleep(200 * time.Microsecond)
	}
}
