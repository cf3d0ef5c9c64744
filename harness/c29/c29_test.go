// Package c29: a cluster configuration means the same after saving and loading.
// Configurations are generated as plain values, written as JSON by this file's
// own writer, loaded, compared with the generated values field by field, saved
// and loaded again; genesis blocks and genesis states are derived from every
// copy and compared with the generated ones. Broken variants must be refused.
package c29

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/big"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"testing"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/config"
	qcommon "github.com/QuarkChain/goquarkchain/common"
	"github.com/QuarkChain/goquarkchain/core"
	"github.com/QuarkChain/goquarkchain/core/state"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/zzverif/vlib"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/ethdb"
	"pgregory.net/rapid"
)

type obj = map[string]interface{}

func pick[T any](rt *rapid.T, n string, v ...T) T { return rapid.SampledFrom(v).Draw(rt, n) }

func hexN(rt *rapid.T, n int, label string) string {
	b := make([]byte, n)
	copy(b, rapid.SliceOfN(rapid.Byte(), n, n).Draw(rt, label))
	return hex.EncodeToString(b)
}

// spec is a configuration as its author means it.
type spec struct {
	json   obj
	want   *config.ClusterConfig // exported values; shards are derived from Chains
	chains []obj
	legacy bool
}

func u64(rt *rapid.T, n string) uint64 {
	switch rapid.IntRange(0, 4).Draw(rt, n+"?") {
	case 0:
		return rapid.Uint64().Draw(rt, n)
	case 1:
		return pick[uint64](rt, n, 0, 1, 1<<53+1, 1<<63, 1<<64-1)
	}
	return uint64(rapid.IntRange(0, 1000000).Draw(rt, n))
}

func u32(rt *rapid.T, n string) uint32 { return uint32(u64(rt, n)) }

func amount(rt *rapid.T, n string) *big.Int {
	b := rapid.SliceOfN(rapid.Byte(), 0, 14).Draw(rt, n)
	return new(big.Int).SetBytes(b)
}

func powJSON(rt *rapid.T) (obj, *config.POWConfig) {
	p := &config.POWConfig{TargetBlockTime: uint32(rapid.IntRange(1, 100).Draw(rt, "blocktime")), RemoteMine: rapid.Bool().Draw(rt, "remote")}
	return obj{"TARGET_BLOCK_TIME": p.TargetBlockTime, "REMOTE_MINE": p.RemoteMine}, p
}

func poswJSON(rt *rapid.T) (obj, *config.POSWConfig) {
	p := &config.POSWConfig{
		Enabled: rapid.Bool().Draw(rt, "posw"), EnableTimestamp: u64(rt, "poswts"), DiffDivider: u64(rt, "div"),
		WindowSize: u64(rt, "win"), TotalStakePerBlock: amount(rt, "stake"), BoostTimestamp: u64(rt, "boost"),
		BoostMultiplierPerStep: u64(rt, "mul"), BoostSteps: u64(rt, "steps"), BoostStepInterval: u64(rt, "itv"),
	}
	return obj{"ENABLED": p.Enabled, "ENABLE_TIMESTAMP": p.EnableTimestamp, "DIFF_DIVIDER": p.DiffDivider,
		"WINDOW_SIZE": p.WindowSize, "TOTAL_STAKE_PER_BLOCK": p.TotalStakePerBlock, "BOOST_TIMESTAMP": p.BoostTimestamp,
		"BOOST_MULTIPLIER_PER_STEP": p.BoostMultiplierPerStep, "BOOST_STEPS": p.BoostSteps, "BOOST_STEP_INTERVAL": p.BoostStepInterval}, p
}

func addrHex(rt *rapid.T, n string, key uint32) (string, account.Address) {
	r := make([]byte, 20)
	r[0] = byte(rapid.IntRange(0, 5).Draw(rt, n))
	r[19] = byte(rapid.IntRange(1, 250).Draw(rt, n+"b"))
	a := account.NewAddress(common.BytesToAddress(r), key)
	s := hex.EncodeToString(r) + fmt.Sprintf("%08x", key)
	if rapid.Bool().Draw(rt, "0x") {
		s = "0x" + s
	}
	return s, a
}

var tokens = []string{"QKC", "QETC", "A", "ZZZZZZZZZZZZ", "0"}

func genesisJSON(rt *rapid.T, chain, size uint32, c *vlib.C) (obj, *config.ShardGenesis) {
	g := &config.ShardGenesis{
		RootHeight: u32(rt, "rh"), Version: u32(rt, "ver"), Height: u64(rt, "h"),
		HashPrevMinorBlock: hexN(rt, 32, "prev"), HashMerkleRoot: hexN(rt, 32, "merkle"),
		ExtraData: rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(rt, "extra"), Timestamp: u64(rt, "ts"), Difficulty: u64(rt, "diff"),
		GasLimit: u64(rt, "gas"), Nonce: u32(rt, "nonce"), Alloc: map[account.Address]config.Allocation{},
	}
	alloc := obj{}
	for i := rapid.IntRange(0, 4).Draw(rt, "allocs"); i > 0; i-- {
		key := chain<<16 | uint32(rapid.IntRange(0, 40).Draw(rt, "key"))
		if rapid.IntRange(0, 7).Draw(rt, "same key") > 0 {
			key = chain << 16
		}
		s, a := addrHex(rt, "alloc", key)
		if _, ok := g.Alloc[a]; ok {
			continue
		}
		al := config.Allocation{Balances: map[string]*big.Int{}}
		bal := obj{}
		for j := rapid.IntRange(0, 3).Draw(rt, "tokens"); j > 0; j-- {
			tok := pick(rt, "token", tokens...)
			al.Balances[tok] = amount(rt, "bal")
			bal[tok] = al.Balances[tok]
		}
		if rapid.IntRange(0, 3).Draw(rt, "v1") == 0 { // the old form
			c.Label("alloc: balances only")
			alloc[s] = bal
			g.Alloc[a] = al
			continue
		}
		e := obj{"balances": bal}
		if rapid.Bool().Draw(rt, "code?") {
			c.Label("alloc: code")
			al.Code = rapid.SliceOfN(rapid.Byte(), 1, 20).Draw(rt, "code")
			e["code"] = pick(rt, "0x", "", "0x") + hex.EncodeToString(al.Code)
		}
		if rapid.Bool().Draw(rt, "storage?") {
			c.Label("alloc: storage")
			st := obj{}
			al.Storage = map[common.Hash]common.Hash{}
			for j := rapid.IntRange(1, 3).Draw(rt, "slots"); j > 0; j-- {
				k := rapid.SliceOfN(rapid.Byte(), 1, 32).Draw(rt, "slot")
				if _, ok := al.Storage[common.BytesToHash(k)]; ok {
					continue
				}
				v := rapid.SliceOfN(rapid.Byte(), 1, 32).Draw(rt, "word")
				al.Storage[common.BytesToHash(k)] = common.BytesToHash(v)
				st["0x"+hex.EncodeToString(k)] = pick(rt, "0x", "", "0x") + hex.EncodeToString(v)
			}
			e["storage"] = st
		}
		alloc[s] = e
		g.Alloc[a] = al
	}
	return obj{"ROOT_HEIGHT": g.RootHeight, "VERSION": g.Version, "HEIGHT": g.Height, "HASH_PREV_MINOR_BLOCK": g.HashPrevMinorBlock,
		"HASH_MERKLE_ROOT": g.HashMerkleRoot, "EXTRA_DATA": hex.EncodeToString(g.ExtraData), "TIMESTAMP": g.Timestamp, "DIFFICULTY": g.Difficulty,
		"GAS_LIMIT": g.GasLimit, "NONCE": g.Nonce, "ALLOC": alloc}, g
}

func thousandths(n int) json.RawMessage {
	return json.RawMessage(fmt.Sprintf("%d.%03d", n/1000, n%1000))
}

func generate(rt *rapid.T, c *vlib.C) *spec {
	s := &spec{legacy: rapid.IntRange(0, 2).Draw(rt, "legacy") == 0}
	n := rapid.IntRange(1, 5).Draw(rt, "chains")
	q := &config.QuarkChainConfig{ChainSize: uint32(n), Chains: map[uint32]*config.ChainConfig{}}
	var ids []uint32
	for i := 0; i < n; i++ {
		cc := &config.ChainConfig{ChainID: uint32(i), ShardSize: pick[uint32](rt, "shards", 1, 1, 2, 2, 4, 8), ConsensusType: pick(rt, "engine", "NONE", "POW_ETHASH", "POW_QKCHASH", "POW_SIMULATE", "POW_DOUBLESHA256")}
		if s.legacy {
			cc.ShardSize = 1
		}
		j := obj{"CHAIN_ID": cc.ChainID, "SHARD_SIZE": cc.ShardSize, "CONSENSUS_TYPE": cc.ConsensusType}
		if cc.ConsensusType != "NONE" {
			j["CONSENSUS_CONFIG"], cc.ConsensusConfig = powJSON(rt)
		} else {
			j["CONSENSUS_CONFIG"] = nil
		}
		j["GENESIS"], cc.Genesis = genesisJSON(rt, cc.ChainID, cc.ShardSize, c)
		j["COINBASE_ADDRESS"], cc.CoinbaseAddress = addrHex(rt, "coinbase", u32(rt, "cbkey"))
		cc.CoinbaseAmount, cc.EpochInterval = amount(rt, "reward"), u64(rt, "epoch")
		cc.DifficultyAdjustmentCutoffTime, cc.DifficultyAdjustmentFactor, cc.ExtraShardBlocksInRootBlock = u32(rt, "cut"), u32(rt, "fac"), u32(rt, "extra")
		j["COINBASE_AMOUNT"], j["EPOCH_INTERVAL"] = cc.CoinbaseAmount, cc.EpochInterval
		j["DIFFICULTY_ADJUSTMENT_CUTOFF_TIME"], j["DIFFICULTY_ADJUSTMENT_FACTOR"], j["EXTRA_SHARD_BLOCKS_IN_ROOT_BLOCK"] = cc.DifficultyAdjustmentCutoffTime, cc.DifficultyAdjustmentFactor, cc.ExtraShardBlocksInRootBlock
		j["POSW_CONFIG"], cc.PoswConfig = poswJSON(rt)
		q.Chains[cc.ChainID] = cc
		s.chains = append(s.chains, j)
		for k := uint32(0); k < cc.ShardSize; k++ {
			ids = append(ids, cc.ChainID<<16|cc.ShardSize|k)
		}
	}
	if n > 1 && rapid.Bool().Draw(rt, "reverse") {
		for i, k := 0, n-1; i < k; i, k = i+1, k-1 {
			s.chains[i], s.chains[k] = s.chains[k], s.chains[i]
		}
	}

	r := &config.RootConfig{MaxStaleRootBlockHeightDiff: u64(rt, "stale"), ConsensusType: "POW_SIMULATE", CoinbaseAmount: amount(rt, "reward"), EpochInterval: u64(rt, "epoch"),
		DifficultyAdjustmentCutoffTime: u32(rt, "cut"), DifficultyAdjustmentFactor: u32(rt, "fac"),
		Genesis: &config.RootGenesis{Version: u32(rt, "ver"), Height: u32(rt, "h"), HashPrevBlock: hexN(rt, 32, "prev"), HashMerkleRoot: hexN(rt, 32, "merkle"),
			Timestamp: u64(rt, "ts"), Difficulty: u64(rt, "diff"), Nonce: u32(rt, "nonce")}}
	g := r.Genesis
	jr := obj{"MAX_STALE_ROOT_BLOCK_HEIGHT_DIFF": r.MaxStaleRootBlockHeightDiff, "CONSENSUS_TYPE": r.ConsensusType, "COINBASE_AMOUNT": r.CoinbaseAmount,
		"EPOCH_INTERVAL": r.EpochInterval, "DIFFICULTY_ADJUSTMENT_CUTOFF_TIME": r.DifficultyAdjustmentCutoffTime, "DIFFICULTY_ADJUSTMENT_FACTOR": r.DifficultyAdjustmentFactor,
		"GENESIS": obj{"VERSION": g.Version, "HEIGHT": g.Height, "HASH_PREV_BLOCK": g.HashPrevBlock, "HASH_MERKLE_ROOT": g.HashMerkleRoot, "TIMESTAMP": g.Timestamp, "DIFFICULTY": g.Difficulty, "NONCE": g.Nonce}}
	jr["CONSENSUS_CONFIG"], r.ConsensusConfig = powJSON(rt)
	jr["POSW_CONFIG"], r.PoSWConfig = poswJSON(rt)
	jr["COINBASE_ADDRESS"], r.CoinbaseAddress = addrHex(rt, "rootcb", u32(rt, "cbkey"))
	q.Root = r

	tax, decay := rapid.IntRange(0, 999).Draw(rt, "tax"), rapid.IntRange(0, 1000).Draw(rt, "decay")
	q.RewardTaxRate, q.BlockRewardDecayFactor = big.NewRat(int64(tax), 1000), big.NewRat(int64(decay), 1000)
	q.LocalFeeRate = big.NewRat(int64(1000-tax), 1000)
	q.RewardCalculateRate = big.NewRat(int64(tax), int64(1000-tax))
	q.MaxNeighbors, q.NetworkID, q.TransactionQueueSizeLimitPerShard, q.BlockExtraDataSizeLimit = u32(rt, "nb"), u32(rt, "net"), u64(rt, "queue"), u32(rt, "xl")
	q.P2PProtocolVersion, q.P2PCommandSizeLimit = u32(rt, "pv"), u32(rt, "pl")
	q.SkipRootDifficultyCheck, q.SkipRootCoinbaseCheck, q.SkipMinorDifficultyCheck, q.DisablePowCheck = rapid.Bool().Draw(rt, "s1"), rapid.Bool().Draw(rt, "s2"), rapid.Bool().Draw(rt, "s3"), rapid.Bool().Draw(rt, "s4")
	q.GenesisToken = pick(rt, "token", "QKC", "TQKC", "ABC")
	q.EnableEvmTimeStamp, q.EnableQkcHashXHeight, q.EnableNonReservedNativeTokenTimestamp = u64(rt, "t1"), u64(rt, "t2"), u64(rt, "t3")
	q.EnableGeneralNativeTokenTimestamp, q.EnablePoswStakingDecayTimestamp, q.EnableEIP155SignerTimestamp = u64(rt, "t4"), u64(rt, "t5"), u64(rt, "t6")
	q.BaseEthChainID = u32(rt, "eth")
	q.XShardGasDDOSFixRootHeight = u64(rt, "ddos")
	q.MinTXPoolGasPrice, q.MinMiningGasPrice = amount(rt, "p1"), amount(rt, "p2")
	code := hexN(rt, 32, "posw code")
	q.RootChainPoSWContractBytecodeHash = common.HexToHash(code)
	guard := ""
	switch rapid.IntRange(0, 2).Draw(rt, "guardian") {
	case 1:
		guard = hexN(rt, 64, "guardian key")
		q.GuardianPublicKey = common.FromHex("04" + guard)
	case 2:
		guard = "04" + hexN(rt, 64, "guardian key")
		q.GuardianPublicKey = common.FromHex(guard)
	}
	signer := ""
	if rapid.Bool().Draw(rt, "signer") {
		signer = hexN(rt, 32, "signer key")
		q.RootSignerPrivateKey = common.FromHex(signer)
	}
	if q.XShardGasDDOSFixRootHeight == 0 {
		q.XShardGasDDOSFixRootHeight = 90000
	}
	jq := obj{"CHAIN_SIZE": q.ChainSize, "MAX_NEIGHBORS": q.MaxNeighbors, "NETWORK_ID": q.NetworkID, "TRANSACTION_QUEUE_SIZE_LIMIT_PER_SHARD": q.TransactionQueueSizeLimitPerShard,
		"BLOCK_EXTRA_DATA_SIZE_LIMIT": q.BlockExtraDataSizeLimit, "GUARDIAN_PUBLIC_KEY": guard, "ROOT_SIGNER_PRIVATE_KEY": signer, "P2P_PROTOCOL_VERSION": q.P2PProtocolVersion,
		"P2P_COMMAND_SIZE_LIMIT": q.P2PCommandSizeLimit, "SKIP_ROOT_DIFFICULTY_CHECK": q.SkipRootDifficultyCheck, "SKIP_ROOT_COINBASE_CHECK": q.SkipRootCoinbaseCheck,
		"SKIP_MINOR_DIFFICULTY_CHECK": q.SkipMinorDifficultyCheck, "GENESIS_TOKEN": q.GenesisToken, "ROOT": jr, "CHAINS": s.chains,
		"REWARD_TAX_RATE": thousandths(tax), "BLOCK_REWARD_DECAY_FACTOR": thousandths(decay), "ROOT_CHAIN_POSW_CONTRACT_BYTECODE_HASH": code,
		"ENABLE_EVM_TIMESTAMP": q.EnableEvmTimeStamp, "ENABLE_QKCHASHX_HEIGHT": q.EnableQkcHashXHeight, "ENABLE_NON_RESERVED_NATIVE_TOKEN_TIMESTAMP": q.EnableNonReservedNativeTokenTimestamp,
		"ENABLE_GENERAL_NATIVE_TOKEN_TIMESTAMP": q.EnableGeneralNativeTokenTimestamp, "ENABLE_POSW_STAKING_DECAY_TIMESTAMP": q.EnablePoswStakingDecayTimestamp,
		"ENABLE_EIP155_SIGNER_TIMESTAMP": q.EnableEIP155SignerTimestamp, "BASE_ETH_CHAIN_ID": q.BaseEthChainID, "DISABLE_POW_CHECK": q.DisablePowCheck,
		"XSHARD_GAS_DDOS_FIX_ROOT_HEIGHT": q.XShardGasDDOSFixRootHeight, "MIN_TX_POOL_GAS_PRICE": q.MinTXPoolGasPrice, "MIN_MINING_GAS_PRICE": q.MinMiningGasPrice}

	k := &config.ClusterConfig{P2PPort: uint16(u64(rt, "po")), JSONRPCPort: uint16(u64(rt, "po")), JSONRPCHOST: pick(rt, "host", "0.0.0.0", "10.1.2.3"), PrivateJSONRPCPort: uint16(u64(rt, "po")),
		PrivateJSONRPCHOST: pick(rt, "host", "localhost", "10.1.2.3"), EnableTransactionHistory: rapid.Bool().Draw(rt, "hist"), DbPathRoot: pick(rt, "db", "./db", "/x y/\"z\""),
		LogLevel: "info", StartSimulatedMining: rapid.Bool().Draw(rt, "sim"), Clean: rapid.Bool().Draw(rt, "clean"), Quarkchain: q,
		Master: &config.MasterConfig{MasterToSlaveConnectRetryDelay: pick[float32](rt, "delay", 1, 0.5, 0.1)}, Monitoring: config.NewMonitoringConfig(), SimpleNetwork: config.NewSimpleNetwork(),
		P2P:               &config.P2PConfig{BootNodes: pick(rt, "boot", "", "enode://aa@1.2.3.4:5,enode://bb@1.2.3.5:6"), PrivKey: hexN(rt, 32, "p2pkey"), MaxPeers: u64(rt, "peers"), UPnP: rapid.Bool().Draw(rt, "upnp"), AllowDialInRatio: pick[float32](rt, "ratio", 1, 0.7), PreferredNodes: "p"},
		CheckDBRBlockFrom: -1, CheckDBRBlockBatch: 10, NoPruning: rapid.Bool().Draw(rt, "np")}
	s.want = k
	slaves := slaveJSON(rt, s, ids, c)
	s.json = obj{"P2P_PORT": k.P2PPort, "JSON_RPC_PORT": k.JSONRPCPort, "JSON_RPC_HOST": k.JSONRPCHOST, "PRIVATE_JSON_RPC_PORT": k.PrivateJSONRPCPort, "PRIVATE_JSON_RPC_HOST": k.PrivateJSONRPCHOST,
		"ENABLE_TRANSACTION_HISTORY": k.EnableTransactionHistory, "DB_PATH_ROOT": k.DbPathRoot, "LOG_LEVEL": k.LogLevel, "START_SIMULATED_MINING": k.StartSimulatedMining, "CLEAN": k.Clean,
		"GENESIS_DIR": "", "QUARKCHAIN": jq, "MASTER": obj{"MASTER_TO_SLAVE_CONNECT_RETRY_DELAY": k.Master.MasterToSlaveConnectRetryDelay}, "SLAVE_LIST": slaves,
		"P2P":       obj{"BOOT_NODES": k.P2P.BootNodes, "PRIV_KEY": k.P2P.PrivKey, "MAX_PEERS": k.P2P.MaxPeers, "UPNP": k.P2P.UPnP, "ALLOW_DIAL_IN_RATIO": k.P2P.AllowDialInRatio, "PREFERRED_NODES": k.P2P.PreferredNodes},
		"NoPruning": k.NoPruning}
	return s
}

// slaveJSON distributes the shards over slaves, by id or by the older chain masks.
func slaveJSON(rt *rapid.T, s *spec, ids []uint32, c *vlib.C) []obj {
	n := rapid.IntRange(1, 4).Draw(rt, "slaves")
	var out []obj
	for i := 0; i < n; i++ {
		w := &config.SlaveConfig{IP: pick(rt, "ip", "127.0.0.1", "10.0.0.9"), Port: uint16(38000 + i), ID: fmt.Sprintf("S%d", i)}
		j := obj{"HOST": w.IP, "PORT": w.Port, "ID": w.ID}
		if s.legacy {
			k := rapid.IntRange(1, 3).Draw(rt, "masks")
			if k > 1 {
				c.Label("slave with several masks")
			}
			for ; k > 0; k-- {
				w.ChainMaskListForBackward = append(w.ChainMaskListForBackward, pick[uint32](rt, "mask", 1, 2, 3, 4, 5, 6, 7, 8, 11))
			}
			j["CHAIN_MASK_LIST"] = w.ChainMaskListForBackward
			// a mask names the chains whose id ends with the bits after its leading one
			for id := uint32(0); id < s.want.Quarkchain.ChainSize; id++ {
				for _, m := range w.ChainMaskListForBackward {
					lead := uint32(1)
					for lead*2 <= m {
						lead *= 2
					}
					if id%lead == m-lead {
						w.FullShardList = append(w.FullShardList, id<<16|1)
						break
					}
				}
			}
		} else {
			var list []string
			for x, id := range ids {
				if x%n == i {
					w.FullShardList = append(w.FullShardList, id)
					list = append(list, fmt.Sprintf("0x%x", id))
				}
			}
			if list == nil {
				list = []string{}
			}
			j["FULL_SHARD_ID_LIST"] = list
		}
		given := rapid.Bool().Draw(rt, "ws ports")
		for x, id := range w.FullShardList {
			if given {
				w.WSPortList = append(w.WSPortList, uint16(40000+100*i+x))
			} else {
				w.WSPortList = append(w.WSPortList, config.DefaultWSPort+uint16(id>>16))
			}
		}
		if given {
			j["WEBSOCKET_JSON_RPC_PORT_LIST"] = w.WSPortList
		} else {
			c.Label("slave without websocket ports")
		}
		s.want.SlaveList = append(s.want.SlaveList, w)
		out = append(out, j)
	}
	return out
}

// load is what a node does with its configuration file.
func load(text []byte) (cfg *config.ClusterConfig, err error) {
	defer func() {
		if r := recover(); r != nil {
			cfg, err = nil, fmt.Errorf("refused by panic: %v", r)
		}
	}()
	cfg = config.NewClusterConfig()
	if err := json.Unmarshal(text, cfg); err != nil {
		return nil, err
	}
	if err := cfg.BackWardChainMaskList(); err != nil {
		return nil, err
	}
	return cfg, nil
}

// diff compares the exported parts of two values; nil and empty are the same.
func diff(path string, a, b reflect.Value, skip map[string]bool) string {
	if skip[path] {
		return ""
	}
	if a.Kind() == reflect.Ptr || a.Kind() == reflect.Interface {
		if a.IsNil() || b.IsNil() {
			if a.IsNil() && b.IsNil() {
				return ""
			}
			return fmt.Sprintf("%s: %v / %v", path, a, b)
		}
		switch x := a.Interface().(type) {
		case *big.Int:
			if x.Cmp(b.Interface().(*big.Int)) != 0 {
				return fmt.Sprintf("%s: %v / %v", path, a, b)
			}
			return ""
		case *big.Rat:
			if x.Cmp(b.Interface().(*big.Rat)) != 0 {
				return fmt.Sprintf("%s: %v / %v", path, a, b)
			}
			return ""
		}
		return diff(path, a.Elem(), b.Elem(), skip)
	}
	switch a.Kind() {
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			f := a.Type().Field(i)
			if f.PkgPath != "" && !f.Anonymous {
				continue
			}
			if d := diff(path+"."+f.Name, a.Field(i), b.Field(i), skip); d != "" {
				return d
			}
		}
		return ""
	case reflect.Map:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: %d / %d entries", path, a.Len(), b.Len())
		}
		for _, k := range a.MapKeys() {
			if !b.MapIndex(k).IsValid() {
				return fmt.Sprintf("%s: key %v missing", path, k)
			}
			if d := diff(fmt.Sprintf("%s[%v]", path, k), a.MapIndex(k), b.MapIndex(k), skip); d != "" {
				return d
			}
		}
		return ""
	case reflect.Slice:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: %v / %v", path, a, b)
		}
		for i := 0; i < a.Len(); i++ {
			if d := diff(fmt.Sprintf("%s[%d]", path, i), a.Index(i), b.Index(i), skip); d != "" {
				return d
			}
		}
		return ""
	}
	if !reflect.DeepEqual(a.Interface(), b.Interface()) {
		return fmt.Sprintf("%s: %v / %v", path, a, b)
	}
	return ""
}

var skip = map[string]bool{".GenesisDir": true, ".Quarkchain.GRPCHost": true, ".Quarkchain.GRPCPort": true, ".Quarkchain.Root.GRPCHost": true, ".Quarkchain.Root.GRPCPort": true}

func sortedIDs(q *config.QuarkChainConfig) []uint32 {
	ids := q.GetGenesisShardIds()
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	return ids
}

// checkMeaning compares a loaded configuration with the intended one.
func checkMeaning(rt *rapid.T, what string, s *spec, got *config.ClusterConfig, legacy bool) {
	want := s.want
	ws, gs := *want, *got
	if legacy { // masks are gone after the assignment has been saved as ids
		ws.SlaveList, gs.SlaveList = nil, nil
		for _, x := range want.SlaveList {
			y := *x
			y.ChainMaskListForBackward = nil
			ws.SlaveList = append(ws.SlaveList, &y)
		}
		for _, x := range got.SlaveList {
			y := *x
			y.ChainMaskListForBackward = nil
			gs.SlaveList = append(gs.SlaveList, &y)
		}
	}
	if d := diff("", reflect.ValueOf(ws), reflect.ValueOf(gs), skip); d != "" {
		rt.Fatalf("%s: configured / loaded differ at %s", what, d)
	}
	q := got.Quarkchain
	var ids []uint32
	for id := uint32(0); id < want.Quarkchain.ChainSize; id++ {
		cc := want.Quarkchain.Chains[id]
		for k := uint32(0); k < cc.ShardSize; k++ {
			fid := id<<16 | cc.ShardSize | k
			ids = append(ids, fid)
			sc := q.GetShardConfigByFullShardID(fid)
			if sc == nil || sc.ShardID != k || sc.GetFullShardId() != fid {
				rt.Fatalf("%s: shard %x has no or the wrong configuration", what, fid)
			}
			if d := diff("", reflect.ValueOf(cc), reflect.ValueOf(sc.ChainConfig), nil); d != "" {
				rt.Fatalf("%s: shard %x differs from its chain at %s", what, fid, d)
			}
			if d := diff("", reflect.ValueOf(want.Quarkchain.Root), reflect.ValueOf(sc.GetRootConfig()), map[string]bool{".GRPCHost": true, ".GRPCPort": true}); d != "" {
				rt.Fatalf("%s: shard %x sees another root configuration: %s", what, fid, d)
			}
			if got := q.GetGenesisRootHeight(fid); got != cc.Genesis.RootHeight {
				rt.Fatalf("%s: shard %x starts at root height %d, configured %d", what, fid, got, cc.Genesis.RootHeight)
			}
			if lim, err := q.GasLimit(fid); err != nil || lim.Uint64() != cc.Genesis.GasLimit {
				rt.Fatalf("%s: gas limit of %x: %v %v", what, fid, lim, err)
			}
			for _, low := range []uint32{k, k + cc.ShardSize, 0xffff - (cc.ShardSize - 1) + k} {
				if x, err := q.GetFullShardIdByFullShardKey(id<<16 | low); err != nil || x != fid {
					rt.Fatalf("%s: key %x is in shard %x (%v), not %x", what, id<<16|low, x, err, fid)
				}
			}
		}
		if n, err := q.GetShardSizeByChainId(id); err != nil || n != cc.ShardSize {
			rt.Fatalf("%s: chain %d has %d shards (%v), configured %d", what, id, n, err, cc.ShardSize)
		}
	}
	if x := sortedIDs(q); !reflect.DeepEqual(x, ids) {
		rt.Fatalf("%s: shards %x, configured %x", what, x, ids)
	}
	if q.GetDefaultChainTokenID() != qcommon.TokenIDEncode(want.Quarkchain.GenesisToken) {
		rt.Fatalf("%s: default token", what)
	}
	limit := uint32(0)
	for _, cc := range want.Quarkchain.Chains {
		if h := cc.Genesis.RootHeight; h > limit {
			limit = h
		}
	}
	for _, h := range []uint32{0, 1, limit} {
		var exp []uint32
		for _, id := range ids {
			if want.Quarkchain.Chains[id>>16].Genesis.RootHeight < h {
				exp = append(exp, id)
			}
		}
		init := q.GetInitializedShardIdsBeforeRootHeight(h)
		sort.Slice(init, func(i, j int) bool { return init[i] < init[j] })
		if !reflect.DeepEqual(init, exp) {
			rt.Fatalf("%s: shards before root height %d: %x, configured %x", what, h, init, exp)
		}
	}
}

type genesis struct {
	root  *types.RootBlock
	minor map[uint32]*types.MinorBlock
}

func derive(rt *rapid.T, what string, q *config.QuarkChainConfig, root *types.RootBlock, dbs map[uint32]ethdb.Database) *genesis {
	g := &genesis{minor: map[uint32]*types.MinorBlock{}}
	gen := core.NewGenesis(q)
	g.root = gen.CreateRootBlock()
	if root == nil {
		root = g.root
	}
	for _, id := range q.GetGenesisShardIds() {
		db := ethdb.NewMemDatabase()
		b, err := gen.CreateMinorBlock(root, id, db)
		if err != nil {
			rt.Fatalf("%s: genesis of shard %x: %v", what, id, err)
		}
		g.minor[id] = b
		if dbs != nil {
			dbs[id] = db
		}
	}
	return g
}

func same(rt *rapid.T, what string, a, b *genesis) {
	if a.root.Hash() != b.root.Hash() {
		rt.Fatalf("%s: another genesis root block: %x / %x", what, a.root.Hash(), b.root.Hash())
	}
	for id, x := range a.minor {
		if x.Hash() != b.minor[id].Hash() {
			rt.Fatalf("%s: another genesis block of shard %x: %x (state %x) / %x (state %x)", what, id, x.Hash(), x.Root(), b.minor[id].Hash(), b.minor[id].Root())
		}
	}
}

// checkGenesis recomputes what the genesis blocks must contain.
func checkGenesis(rt *rapid.T, s *spec, g *genesis, dbs map[uint32]ethdb.Database) {
	q := s.want.Quarkchain
	rg := q.Root.Genesis
	h := g.root.Header()
	if h.Version != rg.Version || h.Number != rg.Height || h.ParentHash != common.HexToHash(rg.HashPrevBlock) || h.Time != rg.Timestamp ||
		h.Difficulty.Uint64() != rg.Difficulty || h.ToTalDifficulty.Uint64() != rg.Difficulty || h.Nonce != uint64(rg.Nonce) {
		rt.Fatalf("genesis root header %+v, configured %+v", h, rg)
	}
	for id, b := range g.minor {
		cc := q.Chains[id>>16]
		mg := cc.Genesis
		h := b.Header()
		if h.Version != mg.Version || h.Number != mg.Height || h.ParentHash != common.HexToHash(mg.HashPrevMinorBlock) || h.Time != mg.Timestamp || h.Difficulty.Uint64() != mg.Difficulty ||
			h.GasLimit.Value.Uint64() != mg.GasLimit || string(h.Extra) != string(mg.ExtraData) || h.Branch.Value != id || h.PrevRootBlockHash != g.root.Hash() {
			rt.Fatalf("genesis header of %x: %+v, configured %+v", id, h, mg)
		}
		reward := new(big.Rat).Mul(new(big.Rat).SetInt(cc.CoinbaseAmount), q.LocalFeeRate)
		if x := h.CoinbaseAmount.GetTokenBalance(qcommon.TokenIDEncode(q.GenesisToken)); x.Cmp(new(big.Int).Quo(reward.Num(), reward.Denom())) != 0 {
			rt.Fatalf("genesis of %x claims %v, configured %v times %v", id, x, cc.CoinbaseAmount, q.LocalFeeRate)
		}
		st, err := state.New(b.Root(), state.NewDatabase(dbs[id]))
		if err != nil {
			rt.Fatalf("genesis state of %x: %v", id, err)
		}
		bal := map[common.Address]map[string]*big.Int{}
		store := map[common.Address]map[common.Hash]common.Hash{}
		codes := map[common.Address]map[string]bool{}
		multi := map[common.Address]int{}
		for a, al := range mg.Alloc {
			if bal[a.Recipient] == nil {
				bal[a.Recipient], store[a.Recipient], codes[a.Recipient] = map[string]*big.Int{}, map[common.Hash]common.Hash{}, map[string]bool{}
			}
			multi[a.Recipient]++
			for t, v := range al.Balances {
				if bal[a.Recipient][t] == nil {
					bal[a.Recipient][t] = new(big.Int)
				}
				bal[a.Recipient][t].Add(bal[a.Recipient][t], v)
			}
			if len(al.Code) > 0 {
				codes[a.Recipient][string(al.Code)] = true
			}
			for k, v := range al.Storage {
				store[a.Recipient][k] = v
			}
		}
		for r, m := range bal {
			for t, v := range m {
				if x := st.GetBalance(r, qcommon.TokenIDEncode(t)); x.Cmp(v) != 0 {
					rt.Fatalf("genesis of %x: %x holds %v %s, configured %v", id, r, x, t, v)
				}
			}
			nonce := uint64(0)
			if len(codes[r]) > 0 {
				nonce = 1
				if !codes[r][string(st.GetCode(r))] {
					rt.Fatalf("genesis of %x: code of %x is %x", id, r, st.GetCode(r))
				}
			} else if len(st.GetCode(r)) != 0 {
				rt.Fatalf("genesis of %x: %x has code", id, r)
			}
			empty := nonce == 0
			for _, v := range m {
				empty = empty && v.Sign() == 0
			}
			if st.GetNonce(r) != nonce {
				rt.Fatalf("genesis of %x: nonce of %x is %d", id, r, st.GetNonce(r))
			}
			if multi[r] == 1 && !empty {
				for k, v := range store[r] {
					if x := st.GetState(r, k); x != v {
						rt.Fatalf("genesis of %x: slot %x of %x is %x, configured %x", id, k, r, x, v)
					}
				}
			}
		}
	}
}

func marshal(rt *rapid.T, v interface{}) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		rt.Fatalf("saving the configuration: %v", err)
	}
	return b
}

func TestRoundTrip(t *testing.T) {
	vlib.Check(t, 350, 8000, "the configuration has several chains or shards, a genesis allocation and a fractional tax rate", func(rt *rapid.T, c *vlib.C) {
		s := generate(rt, c)
		a, err := load(marshal(rt, s.json))
		if err != nil {
			rt.Fatalf("a valid configuration is refused: %v", err)
		}
		checkMeaning(rt, "loaded", s, a, false)
		dbs := map[uint32]ethdb.Database{}
		ga := derive(rt, "loaded", a.Quarkchain, nil, dbs)
		checkGenesis(rt, s, ga, dbs)
		for i := 0; i < 3; i++ {
			same(rt, "derived again", ga, derive(rt, "again", a.Quarkchain, nil, nil))
		}
		cur := a
		for i := 0; i < rapid.IntRange(1, 3).Draw(rt, "rounds"); i++ {
			next, err := load(marshal(rt, cur))
			if err != nil {
				rt.Fatalf("a saved configuration is refused: %v", err)
			}
			checkMeaning(rt, "saved and loaded", s, next, s.legacy)
			same(rt, "saved and loaded", ga, derive(rt, "saved and loaded", next.Quarkchain, nil, nil))
			cur = next
		}
		allocs := 0
		for _, cc := range s.want.Quarkchain.Chains {
			allocs += len(cc.Genesis.Alloc)
		}
		if s.legacy {
			c.Label("legacy masks")
			// the same assignment by ids describes the same shards
			m := marshal(rt, s.json)
			var j obj
			if err := json.Unmarshal(m, &j); err != nil {
				rt.Fatal(err)
			}
			for i, w := range s.want.SlaveList {
				list := []string{}
				for _, id := range w.FullShardList {
					list = append(list, fmt.Sprintf("0x%x", id))
				}
				sl := j["SLAVE_LIST"].([]interface{})[i].(obj)
				delete(sl, "CHAIN_MASK_LIST")
				sl["FULL_SHARD_ID_LIST"] = list
			}
			j["QUARKCHAIN"] = json.RawMessage(marshal(rt, s.json["QUARKCHAIN"]))
			j["P2P"] = s.json["P2P"]
			b, err := load(marshal(rt, j))
			if err != nil {
				rt.Fatalf("the assignment by ids is refused: %v", err)
			}
			for i := range b.SlaveList {
				if d := diff("", reflect.ValueOf(b.SlaveList[i].FullShardList), reflect.ValueOf(a.SlaveList[i].FullShardList), nil); d != "" {
					rt.Fatalf("slave %d: by ids / by masks: %s", i, d)
				}
			}
		}
		c.Label("%d chains", len(s.chains))
		if len(a.Quarkchain.GetGenesisShardIds()) > 1 && allocs > 0 && s.want.Quarkchain.RewardTaxRate.Sign() > 0 {
			c.NonTrivial("%d shards", len(a.Quarkchain.GetGenesisShardIds()))
		}
		c.Sample("chains %d shards %d slaves %d legacy %v tax %v decay %v allocations %d", len(s.chains), len(a.Quarkchain.GetGenesisShardIds()), len(s.want.SlaveList), s.legacy,
			s.want.Quarkchain.RewardTaxRate, s.want.Quarkchain.BlockRewardDecayFactor, allocs)
	})
}

// TestRefusal: configurations that contradict themselves must not be accepted.
func TestRefusal(t *testing.T) {
	vlib.Check(t, 250, 5000, "every broken configuration", func(rt *rapid.T, c *vlib.C) {
		s := generate(rt, c)
		if _, err := load(marshal(rt, s.json)); err != nil {
			rt.Fatalf("a valid configuration is refused: %v", err)
		}
		jq := s.json["QUARKCHAIN"].(obj)
		slaves := s.json["SLAVE_LIST"].([]obj)
		n := len(s.chains)
		at := rapid.IntRange(0, n-1).Draw(rt, "at")
		clone := func(j obj) obj {
			out := obj{}
			for k, v := range j {
				out[k] = v
			}
			return out
		}
		how := pick(rt, "how", "chain missing", "chain beyond the size", "chain twice", "shard size", "chain size", "both lists", "no list", "guardian key", "mask over several shards", "empty mask", "alloc address")
		switch how {
		case "chain missing":
			jq["CHAINS"] = append(append([]obj{}, s.chains[:at]...), s.chains[at+1:]...)
		case "chain beyond the size":
			x := clone(s.chains[at])
			x["CHAIN_ID"] = n + rapid.IntRange(0, 3).Draw(rt, "beyond")
			jq["CHAINS"] = append(append([]obj{}, s.chains...), x)
		case "chain twice":
			x := clone(s.chains[at])
			x["EPOCH_INTERVAL"] = 77
			if rapid.Bool().Draw(rt, "other size") {
				x["SHARD_SIZE"] = 16
			}
			jq["CHAINS"] = append(append([]obj{}, s.chains...), x)
		case "shard size":
			s.chains[at]["SHARD_SIZE"] = pick(rt, "size", 0, 3, 5, 6, 7, 12)
		case "chain size":
			jq["CHAIN_SIZE"] = pick(rt, "size", n+1, n+5, n-1)
		case "both lists":
			slaves[0]["FULL_SHARD_ID_LIST"] = []string{"0x1"}
			slaves[0]["CHAIN_MASK_LIST"] = []int{1}
		case "no list":
			delete(slaves[0], "FULL_SHARD_ID_LIST")
			delete(slaves[0], "CHAIN_MASK_LIST")
		case "guardian key":
			jq["GUARDIAN_PUBLIC_KEY"] = hexN(rt, pick(rt, "len", 1, 32, 33, 63, 66), "key")
		case "mask over several shards":
			s.chains[at]["SHARD_SIZE"] = 2
			for _, x := range slaves {
				delete(x, "FULL_SHARD_ID_LIST")
				x["CHAIN_MASK_LIST"] = []int{1}
			}
		case "empty mask":
			for _, x := range s.chains {
				x["SHARD_SIZE"] = 1
			}
			for _, x := range slaves {
				delete(x, "FULL_SHARD_ID_LIST")
				x["CHAIN_MASK_LIST"] = []int{1}
			}
			slaves[len(slaves)-1]["CHAIN_MASK_LIST"] = []int{1, 0}
		case "alloc address":
			s.chains[at]["GENESIS"].(obj)["ALLOC"].(obj)["0x"+hexN(rt, pick(rt, "len", 20, 23, 25), "addr")] = obj{"QKC": 1}
		}
		if cfg, err := load(marshal(rt, s.json)); err == nil {
			rt.Fatalf("%s: accepted (chain size %d, chains %d, shards %x)", how, cfg.Quarkchain.ChainSize, len(cfg.Quarkchain.Chains), sortedIDs(cfg.Quarkchain))
		} else {
			c.Label("%s", how)
			c.NonTrivial("%s", how)
			c.Sample("%s: %v", how, err)
		}
	})
}

// TestGenesisFiles: accounts listed in the genesis directory are funded in the
// shards their addresses belong to, and nowhere else.
func TestGenesisFiles(t *testing.T) {
	vlib.Check(t, 60, 1200, "files list accounts of several shards", func(rt *rapid.T, c *vlib.C) {
		s := generate(rt, c)
		for _, j := range s.chains {
			j["GENESIS"].(obj)["ALLOC"] = obj{}
		}
		dir, err := ioutil.TempDir("", "c29")
		if err != nil {
			rt.Fatal(err)
		}
		defer os.RemoveAll(dir)
		if err := os.Mkdir(filepath.Join(dir, "alloc"), 0755); err != nil {
			rt.Fatal(err)
		}
		s.json["GENESIS_DIR"] = dir
		type acct struct {
			Address string `json:"address"`
			Key     string `json:"key"`
		}
		want := map[uint32]map[account.Address]bool{}
		q := s.want.Quarkchain
		var ids []uint32
		for id, cc := range q.Chains {
			for k := uint32(0); k < cc.ShardSize; k++ {
				ids = append(ids, id<<16|cc.ShardSize|k)
				want[id<<16|cc.ShardSize|k] = map[account.Address]bool{}
			}
		}
		total := 0
		for id := uint32(0); id < q.ChainSize; id++ {
			if rapid.IntRange(0, 4).Draw(rt, "absent") == 0 {
				continue
			}
			list := []acct{}
			for i := rapid.IntRange(0, 4).Draw(rt, "accounts"); i > 0; i-- {
				on := uint32(rapid.IntRange(0, int(q.ChainSize)-1).Draw(rt, "on"))
				key := on<<16 | uint32(rapid.IntRange(0, 9).Draw(rt, "key"))
				h, a := addrHex(rt, "acct", key)
				list = append(list, acct{h, "00"})
				size := q.Chains[on].ShardSize
				want[on<<16|size|key%size][a] = true
				total++
			}
			if err := ioutil.WriteFile(filepath.Join(dir, "alloc", fmt.Sprintf("%d.json", id)), marshal(rt, list), 0644); err != nil {
				rt.Fatal(err)
			}
		}
		if rapid.Bool().Draw(rt, "loadtest") {
			list := []acct{}
			for i := rapid.IntRange(0, 3).Draw(rt, "accounts"); i > 0; i-- {
				h, a := addrHex(rt, "acct", u32(rt, "any"))
				list = append(list, acct{h, "00"})
				for _, id := range ids {
					want[id][account.NewAddress(a.Recipient, id)] = true
				}
				total++
			}
			if err := ioutil.WriteFile(filepath.Join(dir, "loadtest.json"), marshal(rt, list), 0644); err != nil {
				rt.Fatal(err)
			}
		}
		first, err := load(marshal(rt, s.json))
		if err != nil {
			rt.Fatalf("a valid configuration is refused: %v", err)
		}
		saved := marshal(rt, first)
		var prev *genesis
		for i, text := range [][]byte{marshal(rt, s.json), saved} {
			cfg, err := load(text)
			if err != nil {
				rt.Fatal(err)
			}
			if err := config.UpdateGenesisAlloc(cfg); err != nil {
				rt.Fatalf("genesis accounts: %v", err)
			}
			for id, w := range want {
				got := cfg.Quarkchain.GetShardConfigByFullShardID(id).Genesis.Alloc
				if len(got) != len(w) {
					rt.Fatalf("shard %x funds %d accounts, listed %d", id, len(got), len(w))
				}
				for a := range w {
					al, ok := got[a]
					if !ok || al.Balances[q.GenesisToken] == nil || al.Balances[q.GenesisToken].Sign() <= 0 || len(al.Balances) != 5 {
						rt.Fatalf("shard %x: account %x: %v", id, a.ToBytes(), al)
					}
				}
			}
			g := derive(rt, "files", cfg.Quarkchain, nil, nil)
			if i > 0 {
				same(rt, "files", prev, g)
			}
			prev = g
		}
		if total > 0 && len(ids) > 1 {
			c.NonTrivial("%d accounts", total)
			c.Sample("%d accounts over %d shards", total, len(ids))
		}
	})
}
