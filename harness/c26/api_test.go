package c26

import (
	"context"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"reflect"
	"sort"
	"strings"
	"testing"
	"time"

	qcom "github.com/QuarkChain/goquarkchain/common"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/internal/qkcapi"
	"github.com/QuarkChain/goquarkchain/rpc"
	"github.com/QuarkChain/goquarkchain/serialize"
	"github.com/QuarkChain/goquarkchain/zzverif/chainenv"
	"github.com/QuarkChain/goquarkchain/zzverif/hist"
	"github.com/QuarkChain/goquarkchain/zzverif/stack"
	"github.com/QuarkChain/goquarkchain/zzverif/vlib"
	"github.com/QuarkChain/goquarkchain/zzverif/world"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/rlp"
	"pgregory.net/rapid"
)

// The encodings of answers, written down again.
func qn(n uint64) string       { return fmt.Sprintf("0x%x", n) }
func qb(n *big.Int) string    { return "0x" + n.Text(16) }
func d(b []byte) string       { return "0x" + hex.EncodeToString(b) }
func key4(n uint32) []byte    { b := make([]byte, 4); binary.BigEndian.PutUint32(b, n); return b }
func id(h common.Hash, k uint32) string { return d(append(append([]byte{}, h[:]...), key4(k)...)) }

type J = map[string]interface{}

// tokens is a list of balances, whose order is open.
type tokens map[uint64]*big.Int

func (t tokens) same(v interface{}) bool {
	l, ok := v.([]interface{})
	if !ok {
		return false
	}
	got := map[uint64]*big.Int{}
	for _, e := range l {
		m, ok := e.(J)
		if !ok {
			return false
		}
		ids, ok1 := m["tokenId"].(string)
		bal, ok2 := m["balance"].(string)
		k, ok3 := numOf(ids, max64)
		b, ok4 := numOf(bal, max256)
		if !ok1 || !ok2 || !ok3 || !ok4 || got[k.Uint64()] != nil {
			return false
		}
		if name, err := qcom.TokenIdDecode(k.Uint64()); err != nil || m["tokenStr"] != name {
			return false
		}
		got[k.Uint64()] = b
	}
	return chainenv.EqBal(t, got) && chainenv.EqBal(got, t)
}

// differs tells where an answer departs from what is wanted. Wanted maps may
// leave fields open.
func differs(at string, want, got interface{}) string {
	switch w := want.(type) {
	case tokens:
		if !w.same(got) {
			return fmt.Sprintf("%s is %v, not %v", at, got, w)
		}
		return ""
	case J:
		g, ok := got.(J)
		if !ok {
			return fmt.Sprintf("%s is %v, not an object", at, got)
		}
		var ks []string
		for k := range w {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			if _, ok := g[k]; !ok {
				return fmt.Sprintf("%s.%s is missing", at, k)
			}
			if s := differs(at+"."+k, w[k], g[k]); s != "" {
				return s
			}
		}
		return ""
	case []interface{}:
		g, ok := got.([]interface{})
		if !ok || len(g) != len(w) {
			return fmt.Sprintf("%s is %v, not a list of %d", at, got, len(w))
		}
		for i := range w {
			if s := differs(fmt.Sprintf("%s[%d]", at, i), w[i], g[i]); s != "" {
				return s
			}
		}
		return ""
	}
	if !reflect.DeepEqual(want, got) {
		return fmt.Sprintf("%s is %v, not %v", at, got, want)
	}
	return ""
}

type api struct {
	rt  *rapid.T
	c   *vlib.C
	w   *world.World
	n   *stack.Node
	cli *rpc.Client
}

func (x *api) chain(s uint32) []*world.Minor {
	return world.Chain(x.w.Minors[x.n.Chain(s).CurrentBlock().Hash()])
}

func (x *api) roots() (l []*world.Root) {
	for r := x.w.RootH[x.n.M.CurrentBlock().Hash()]; r != nil; r = r.Parent {
		l = append([]*world.Root{r}, l...)
	}
	return
}

func (x *api) call(method string, args ...interface{}) (interface{}, error) {
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	var raw json.RawMessage
	err := x.cli.CallContext(ctx, &raw, method, args...)
	if ctx.Err() != nil {
		x.rt.Fatalf("%s %v: no answer", method, args)
	}
	if err != nil {
		if strings.Contains(err.Error(), "internal error") {
			x.rt.Fatalf("%s %v: %v", method, showArgs(args), err)
		}
		return nil, err
	}
	var v interface{}
	if err := json.Unmarshal(raw, &v); err != nil && len(raw) > 0 {
		x.rt.Fatalf("%s %v: bad answer %q", method, args, raw)
	}
	return v, nil
}

func showArgs(args []interface{}) string { b, _ := json.Marshal(args); return string(b) }

// is demands an answer.
func (x *api) is(want interface{}, method string, args ...interface{}) {
	got, err := x.call(method, args...)
	if err != nil {
		x.rt.Fatalf("%s %s: %v", method, showArgs(args), err)
	}
	if s := differs("answer", want, got); s != "" {
		x.rt.Fatalf("%s %s: %s", method, showArgs(args), s)
	}
	x.c.Label("%s", method)
}

// fails demands an error.
func (x *api) fails(method string, args ...interface{}) {
	if got, err := x.call(method, args...); err == nil {
		x.rt.Fatalf("%s %s: answered %v where there is nothing to answer", method, showArgs(args), got)
	}
	x.c.Label("%s refused", method)
}

func size(v interface{}) uint64 {
	b, err := serialize.SerializeToBytes(v)
	if err != nil {
		panic(err)
	}
	return uint64(len(b))
}

func minorHeader(m *world.Minor) J {
	h := m.B.Header()
	return J{"id": id(m.H, m.ID), "height": qn(m.Num), "number": qn(m.Num), "hash": d(m.H[:]), "fullShardId": qn(uint64(m.ID)),
		"chainId": qn(uint64(m.ID >> 16)), "shardId": qn(uint64(shardOf(m.ID))), "hashPrevMinorBlock": d(h.ParentHash[:]),
		"idPrevMinorBlock": id(h.ParentHash, m.ID), "hashPrevRootBlock": d(h.PrevRootBlockHash[:]), "difficulty": qb(h.Difficulty),
		"miner": d(append(append([]byte{}, h.Coinbase.Recipient[:]...), key4(h.Coinbase.FullShardKey)...)),
		"coinbase": tokens(h.CoinbaseAmount.GetBalanceMap()), "timestamp": qn(h.Time), "extraData": d(h.Extra), "gasLimit": qb(h.GasLimit.Value),
		"nonce": fmt.Sprintf("0x%016x", h.Nonce)}
}

// shardOf takes the size off a full shard id.
func shardOf(s uint32) uint32 {
	b := s & 0xffff
	for k := uint32(1) << 15; ; k >>= 1 {
		if b&k != 0 {
			return b - k
		}
	}
}

func (x *api) minor(m *world.Minor, txs bool) J {
	j := minorHeader(m)
	meta := m.B.Meta()
	for k, v := range (J{"size": qn(size(m.B)), "hashMerkleRoot": d(meta.TxHash[:]), "transactionsRoot": d(meta.TxHash[:]),
		"hashEvmStateRoot": d(meta.Root[:]), "stateRoot": d(meta.Root[:]), "receiptsRoot": d(meta.ReceiptHash[:]), "gasUsed": qb(meta.GasUsed.Value),
		"parentHash": d(m.B.Header().ParentHash[:])}) {
		j[k] = v
	}
	l := []interface{}{}
	for i, tx := range m.B.Transactions() {
		if txs {
			l = append(l, x.tx(m, i))
		} else {
			l = append(l, id(tx.Hash(), m.ID))
		}
	}
	j["transactions"] = l
	return j
}

func txFields(tx *types.Transaction) J {
	e := tx.EvmTx
	from, err := types.Sender(types.MakeSigner(e.NetworkId()), e)
	if err != nil {
		panic(err)
	}
	to := "0x"
	if e.To() != nil {
		to = d(e.To()[:])
	}
	v, r, s := e.RawSignatureValues()
	tt, _ := qcom.TokenIdDecode(e.TransferTokenID())
	gt, _ := qcom.TokenIdDecode(e.GasTokenID())
	h := tx.Hash()
	return J{"id": id(h, e.FromFullShardKey()), "hash": d(h[:]), "nonce": qn(e.Nonce()), "from": d(from[:]), "to": to,
		"fromFullShardKey": d(key4(e.FromFullShardKey())), "toFullShardKey": d(key4(e.ToFullShardKey())), "value": qb(e.Value()), "gasPrice": qb(e.GasPrice()),
		"gas": qn(e.Gas()), "data": d(e.Data()), "networkId": qn(uint64(e.NetworkId())), "transferTokenId": qn(e.TransferTokenID()), "gasTokenId": qn(e.GasTokenID()),
		"transferTokenStr": tt, "gasTokenStr": gt, "v": qb(v), "r": qb(r), "s": qb(s)}
}

func (x *api) tx(m *world.Minor, i int) J {
	j := txFields(m.B.Transactions()[i])
	for k, v := range (J{"timestamp": qn(m.B.Time()), "fullShardId": qn(uint64(m.ID)), "chainId": qn(uint64(m.ID >> 16)), "shardId": qn(uint64(shardOf(m.ID))),
		"blockId": id(m.H, m.ID), "blockHeight": qn(m.Num), "transactionIndex": qn(uint64(i))}) {
		j[k] = v
	}
	return j
}

func logJSON(m *world.Minor, l *types.Log) J {
	t := []interface{}{}
	for _, h := range l.Topics {
		t = append(t, d(h[:]))
	}
	return J{"address": d(l.Recipient[:]), "recipient": d(l.Recipient[:]), "data": d(l.Data), "topics": t, "removed": false,
		"blockNumber": qn(m.Num), "blockHeight": qn(m.Num), "blockHash": d(m.H[:]), "transactionHash": d(l.TxHash[:]),
		"transactionIndex": qn(uint64(l.TxIndex)), "logIndex": qn(uint64(l.Index))}
}

func (x *api) receipt(m *world.Minor, i int) J {
	r := m.Rec[i]
	prev := uint64(0)
	if i > 0 {
		prev = m.Rec[i-1].CumulativeGasUsed
	} else if n := len(m.B.Transactions()); n < len(m.Rec) {
		// the deposits come after the transactions but were done before
		prev = m.Rec[len(m.Rec)-1].CumulativeGasUsed
	}
	tx := m.B.Transactions()[i]
	h := tx.Hash()
	logs := []interface{}{}
	for _, l := range r.Logs {
		logs = append(logs, logJSON(m, l))
	}
	j := J{"transactionId": id(h, tx.EvmTx.FromFullShardKey()), "transactionHash": d(h[:]), "transactionIndex": qn(uint64(i)),
		"blockId": id(m.H, m.ID), "blockHash": d(m.H[:]), "blockHeight": qn(m.Num), "blockNumber": qn(m.Num), "cumulativeGasUsed": qn(r.CumulativeGasUsed),
		"gasUsed": qn(r.CumulativeGasUsed - prev), "status": qn(r.Status), "timestamp": qn(m.B.Time()), "logs": logs, "contractAddress": nil}
	if r.ContractAddress != (common.Address{}) {
		j["contractAddress"] = d(append(append([]byte{}, r.ContractAddress[:]...), key4(r.ContractFullShardKey)...))
	}
	return j
}

func (x *api) root(r *world.Root) J {
	h := r.B.Header()
	s := h.SealHash()
	l := []interface{}{}
	for _, m := range r.Listed {
		l = append(l, minorHeader(m))
	}
	return J{"id": d(r.H[:]), "hash": d(r.H[:]), "height": qn(uint64(r.Num)), "sealHash": d(s[:]), "hashPrevBlock": d(h.ParentHash[:]), "idPrevBlock": d(h.ParentHash[:]),
		"hashMerkleRoot": d(h.MinorHeaderHash[:]), "miner": d(append(append([]byte{}, h.Coinbase.Recipient[:]...), key4(h.Coinbase.FullShardKey)...)),
		"coinbase": tokens(h.CoinbaseAmount.GetBalanceMap()), "difficulty": qb(h.Difficulty), "timestamp": qn(h.Time), "size": qn(size(r.B)),
		"signature": d(h.Signature[:]), "nonce": qn(h.Nonce), "minorBlockHeaders": l}
}

var shape = struct{ chains, shards uint32 }{1, 2}

func init() {
	// the interface keeps the configuration it sees first, so one shape for a process
	switch os.Getenv("VERIF_SHARD") {
	case "1", "5":
		shape = struct{ chains, shards uint32 }{2, 2}
	case "2", "6":
		shape = struct{ chains, shards uint32 }{2, 1}
	case "3", "7":
		shape = struct{ chains, shards uint32 }{3, 1}
	}
}

func TestAPI(t *testing.T) {
	vlib.Check(t, 25, 900, "blocks with transactions, receipts with logs and accounts of several heights were asked for", func(rt *rapid.T, c *vlib.C) {
		w := world.New(rt, c, world.Opt{Chains: shape.chains, Shards: shape.shards, Mutate: stack.Mutate})
		defer w.Stop()
		for k := pick(rt, "steps", 8, 16, 24); k > 0; k-- {
			w.Step()
		}
		n, err := stack.New(w.S.Cfg, pick(rt, "slaves", 1, 2))
		if err != nil {
			rt.Fatalf("start: %v", err)
		}
		defer n.Stop()
		srv := rpc.NewServer()
		defer srv.Stop()
		for _, a := range qkcapi.GetAPIs(n.M) {
			if err := srv.RegisterName(a.Namespace, a.Service); err != nil {
				rt.Fatalf("register: %v", err)
			}
		}
		x := &api{rt: rt, c: c, w: w, n: n, cli: rpc.DialInProc(srv)}
		defer x.cli.Close()
		asked := 0
		for i, e := range w.Events {
			if err := n.Add(e); err != nil {
				rt.Fatalf("a valid block is refused: %v", err)
			}
			if i == len(w.Events)/2 {
				asked += x.ask(10)
			}
		}
		asked += x.ask(40)
		x.send()
		x.hostile(60)
		x.ask(10)
		if rapid.IntRange(0, 7).Draw(rt, "stats") == 0 {
			x.stats()
		}
		if asked > 6 {
			c.NonTrivial("asked")
		}
	})
}

func (x *api) ask(k int) (rich int) {
	rt, w, n := x.rt, x.w, x.n
	roots := x.roots()
	tip := roots[len(roots)-1]
	some := func(l []*world.Minor) *world.Minor { return l[rapid.IntRange(0, len(l)-1).Draw(rt, "block")] }
	for ; k > 0; k-- {
		s := pick(rt, "shard", n.IDs...)
		ch := x.chain(s)
		head := ch[len(ch)-1]
		key := chainenv.Key(s, uint32(rapid.IntRange(0, 3).Draw(rt, "salt"))<<4)
		m := some(ch)
		for try := 0; try < 3 && len(m.B.Transactions()) == 0; try++ {
			m = some(ch)
		}
		who := pick(rt, "who", 0, 1, 2, 3, 4, 7)
		addr := chainenv.Addrs[who]
		if rapid.IntRange(0, 2).Draw(rt, "contract") == 0 {
			addr = pick(rt, "which", hist.StoreAddr, hist.RevertAddr, hist.MntAddr, hist.SuicideAddr, hist.LogAddr[1])
		}
		long := d(append(append([]byte{}, addr[:]...), key4(key)...))
		// the block whose state is looked at
		at, when := m, interface{}(qn(m.Num))
		switch pick(rt, "when", 0, 0, 1, 2) {
		case 1:
			at, when = head, "latest"
		case 2:
			at, when = ch[0], "earliest"
		}
		switch pick(rt, "ask", "network", "rootheight", "rootid", "minorheight", "minorheight", "minorid", "minorid", "tx", "tx", "tx", "receipt", "receipt", "receipt", "count", "balances", "data", "shards",
			"storage", "code", "logs", "logs", "confirming", "confirmations", "missing", "future", "version", "stats") {
		case "network":
			sizes := []interface{}{}
			for i := uint32(0); i < shape.chains; i++ {
				sizes = append(sizes, qn(uint64(shape.shards)))
			}
			x.is(J{"networkId": qn(chainenv.NetworkID), "chainSize": qn(uint64(shape.chains)), "shardSizes": sizes, "mining": false}, "qkc_networkInfo")
		case "version":
			x.is(qn(chainenv.NetworkID), "qkc_netVersion")
			var l []interface{}
			got, err := x.call("qkc_getFullShardIds")
			l, _ = got.([]interface{})
			seen := map[interface{}]bool{}
			for _, v := range l {
				seen[v] = true
			}
			ok := err == nil && len(l) == len(w.All) && len(seen) == len(l)
			for _, v := range w.All {
				ok = ok && seen[qn(uint64(v))]
			}
			if !ok {
				rt.Fatalf("qkc_getFullShardIds: %v %v", got, err)
			}
		case "stats":
			for _, m := range []string{"qkc_getPeers", "qkc_getKadRoutingTable"} {
				x.call(m)
			}
			// blocks of every miner on the canonical chains
			if got, err := x.call("qkc_getBlockCount"); err != nil {
				rt.Fatalf("qkc_getBlockCount: %v", err)
			} else if g, _ := got.(J); g["rootHeight"] != float64(tip.Num) {
				rt.Fatalf("qkc_getBlockCount: %v", got)
			}
		case "rootheight":
			if rapid.IntRange(0, 3).Draw(rt, "tip") == 0 {
				x.is(x.root(tip), "qkc_getRootBlockByHeight", nil)
				break
			}
			r := pick(rt, "root", roots...)
			x.is(x.root(r), "qkc_getRootBlockByHeight", qn(uint64(r.Num)), pick[interface{}](rt, "extra", nil, true, false))
		case "rootid":
			r := pick(rt, "root", roots...)
			x.is(x.root(r), "qkc_getRootBlockById", d(r.H[:]), pick[interface{}](rt, "extra", nil, true, false))
		case "minorheight":
			txs := rapid.Bool().Draw(rt, "txs")
			if rapid.IntRange(0, 3).Draw(rt, "tip") == 0 {
				x.is(x.minor(head, txs), "qkc_getMinorBlockByHeight", qn(uint64(key)), nil, txs)
				break
			}
			x.is(x.minor(m, txs), "qkc_getMinorBlockByHeight", qn(uint64(key)), qn(m.Num), txs, pick[interface{}](rt, "extra", nil, true, false))
			if len(m.B.Transactions()) > 0 {
				rich++
			}
		case "minorid":
			txs := rapid.Bool().Draw(rt, "txs")
			x.is(x.minor(m, txs), "qkc_getMinorBlockById", id(m.H, key), txs)
			if len(m.B.Transactions()) > 0 {
				rich++
			}
		case "tx", "receipt", "confirmations":
			if len(m.B.Transactions()) == 0 {
				break
			}
			i := rapid.IntRange(0, len(m.B.Transactions())-1).Draw(rt, "tx")
			txid := id(m.B.Transactions()[i].Hash(), key)
			rich++
			x.is(x.tx(m, i), "qkc_getTransactionById", txid)
			x.is(x.receipt(m, i), "qkc_getTransactionReceipt", txid)
			// how many root blocks since the one which lists it
			want := uint64(0)
			for _, r := range roots {
				for _, l := range r.Listed {
					if l == m {
						want = uint64(tip.Num) - uint64(r.Num) + 1
					}
				}
			}
			x.is(qn(want), "qkc_getTransactionConfirmedByNumberRootBlocks", txid)
			if want > 0 {
				x.c.Label("confirmed transaction")
			}
			if len(m.Rec[i].Logs) > 0 {
				x.c.Label("receipt with logs")
			}
		case "confirming":
			var want interface{}
			for _, r := range roots {
				for _, l := range r.Listed {
					if l == m {
						want = d(r.H[:])
					}
				}
			}
			if want == nil && m != head {
				// a root block of another branch may list it too
				break
			}
			x.is(want, "qkc_getRootHashConfirmingMinorBlockById", id(m.H, s))
		case "count", "balances", "data", "shards", "storage", "code":
			st, err := w.S.Shard[s].StateAt(at.B.Meta().Root)
			if err != nil {
				rt.Fatalf("state of block %d: %v", at.Num, err)
			}
			x.is(qn(st.GetNonce(addr)), "qkc_getTransactionCount", long, when)
			bals := tokens(st.GetBalances(addr).GetBalanceMap())
			x.is(J{"branch": qn(uint64(s)), "fullShardId": qn(uint64(s)), "shardId": qn(uint64(shardOf(s))), "chainId": qn(uint64(s >> 16)), "balances": bals}, "qkc_getBalances", long, when)
			code := st.GetCode(addr)
			x.is(d(code), "qkc_getCode", long, when)
			slot := common.BigToHash(big.NewInt(int64(rapid.IntRange(0, 3).Draw(rt, "slot"))))
			v := st.GetState(addr, slot)
			x.is(d(v[:]), "qkc_getStorageAt", long, d(slot[:]), when)
			if v != (common.Hash{}) {
				x.c.Label("stored value")
			}
			acct := J{"fullShardId": qn(uint64(s)), "shardId": qn(uint64(shardOf(s))), "chainId": qn(uint64(s >> 16)), "balances": bals, "transactionCount": qn(st.GetNonce(addr)), "isContract": len(code) > 0}
			x.is(J{"primary": acct}, "qkc_getAccountData", long, when)
			if at != head && at.Num > 0 {
				rich++
			}
			// all shards at once
			got, err := x.call("qkc_getAccountData", long, nil, true)
			if err != nil {
				rt.Fatalf("qkc_getAccountData of all shards: %v", err)
			}
			g, _ := got.(J)
			l, _ := g["shards"].([]interface{})
			if len(l) != len(n.IDs) {
				rt.Fatalf("qkc_getAccountData: %d shards, not %d", len(l), len(n.IDs))
			}
			for _, o := range n.IDs {
				oc := x.chain(o)
				st, err := w.S.Shard[o].StateAt(oc[len(oc)-1].B.Meta().Root)
				if err != nil {
					rt.Fatalf("state: %v", err)
				}
				want := J{"fullShardId": qn(uint64(o)), "shardId": qn(uint64(shardOf(o))), "chainId": qn(uint64(o >> 16)), "balances": tokens(st.GetBalances(addr).GetBalanceMap()),
					"transactionCount": qn(st.GetNonce(addr)), "isContract": len(st.GetCode(addr)) > 0}
				found := false
				for _, e := range l {
					if j, _ := e.(J); j["fullShardId"] == want["fullShardId"] {
						found = true
						if s := differs("shard", want, e); s != "" {
							rt.Fatalf("qkc_getAccountData of all shards: %s", s)
						}
					}
				}
				if !found {
					rt.Fatalf("qkc_getAccountData: shard %x is missing", o)
				}
				if o == s {
					if s := differs("primary", want, g["primary"]); s != "" {
						rt.Fatalf("qkc_getAccountData of all shards: %s", s)
					}
				}
			}
			x.fails("qkc_getAccountData", long, qn(0), true)
		case "logs":
			lo, hi := uint64(rapid.IntRange(0, int(head.Num)).Draw(rt, "lo")), uint64(rapid.IntRange(0, int(head.Num)).Draw(rt, "hi"))
			f := J{"fromBlock": qn(lo), "toBlock": qn(hi)}
			switch pick(rt, "range", 0, 1, 2, 3) {
			case 1:
				f["toBlock"], hi = "latest", head.Num
			case 2:
				delete(f, "toBlock")
				hi = head.Num
			case 3:
				f["fromBlock"], f["toBlock"], lo, hi = qn(0), "latest", 0, head.Num
			}
			if lo > hi {
				break
			}
			var only *common.Address
			if rapid.Bool().Draw(rt, "byaddress") {
				a := pick(rt, "emitter", hist.LogAddr[0], hist.LogAddr[1], hist.LogAddr[2], hist.TwoLogsAddr)
				only = &a
				f["address"] = d(a[:])
			}
			var topic *common.Hash
			if rapid.IntRange(0, 2).Draw(rt, "bytopic") == 0 {
				t := common.BigToHash(new(big.Int).SetUint64(hist.Topic(rt)))
				topic = &t
				f["topics"] = []interface{}{d(t[:])}
			}
			want := []interface{}{}
			for _, b := range ch[lo : hi+1] {
				for _, r := range b.Rec {
					for _, l := range r.Logs {
						if only != nil && l.Recipient != *only || topic != nil && (len(l.Topics) == 0 || l.Topics[0] != *topic) {
							continue
						}
						want = append(want, logJSON(b, l))
					}
				}
			}
			x.is(want, "qkc_getLogs", f, qn(uint64(key)))
			if len(want) > 0 {
				rich++
				x.c.Label("logs found")
			}
		case "missing":
			h := common.Hash{byte(rapid.IntRange(0, 255).Draw(rt, "h")), 7}
			x.fails("qkc_getRootBlockById", d(h[:]))
			x.fails("qkc_getMinorBlockById", id(h, key))
			for _, m := range []string{"qkc_getTransactionById", "qkc_getTransactionReceipt", "qkc_getRootHashConfirmingMinorBlockById"} {
				if got, err := x.call(m, id(h, key)); err == nil && got != nil {
					rt.Fatalf("%s of an unknown hash: %v", m, got)
				}
			}
			x.fails("qkc_getTransactionConfirmedByNumberRootBlocks", id(h, key))
		case "future":
			by := pick(rt, "by", uint64(1), 2, 1<<32, 1<<62)
			x.fails("qkc_getRootBlockByHeight", qn(uint64(tip.Num)+by))
			x.fails("qkc_getMinorBlockByHeight", qn(uint64(key)), qn(head.Num+by))
			for _, m := range []string{"qkc_getTransactionCount", "qkc_getBalances", "qkc_getCode", "qkc_getAccountData"} {
				x.fails(m, long, qn(head.Num+by))
			}
			x.fails("qkc_getStorageAt", long, d(make([]byte, 32)), qn(head.Num+by))
		}
	}
	return
}

// stats asks for statistics, which takes a second, from several sides at once.
func (x *api) stats() {
	done := make(chan string, 3)
	for i := 0; i < 3; i++ {
		go func() {
			var got J
			ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
			defer cancel()
			if err := x.cli.CallContext(ctx, &got, "qkc_getStats"); err != nil {
				done <- err.Error()
				return
			}
			tip := x.roots()
			done <- differs("answer", J{"rootHeight": float64(tip[len(tip)-1].Num), "chainSize": float64(shape.chains), "syncing": false, "mining": false}, got)
		}()
	}
	for i := 0; i < 3; i++ {
		if s := <-done; s != "" {
			x.rt.Fatalf("qkc_getStats: %s", s)
		}
	}
	x.c.Label("statistics")
}

// send sends new transactions and looks for them.
func (x *api) send() {
	rt, n := x.rt, x.n
	s := pick(rt, "shard", n.IDs...)
	st, err := n.Chain(s).State()
	if err != nil {
		rt.Fatalf("state: %v", err)
	}
	from := rapid.IntRange(0, hist.Senders-1).Draw(rt, "from")
	key := chainenv.Key(s, 16)
	to := chainenv.Addrs[6]
	good := rapid.IntRange(0, 2).Draw(rt, "good") > 0
	o := chainenv.TxOpt{From: from, To: &to, Nonce: st.GetNonce(chainenv.Addrs[from]), Value: big.NewInt(int64(rapid.IntRange(0, 1000).Draw(rt, "value"))), Gas: 21000, FromKey: key, ToKey: key,
		Price: big.NewInt(int64(pick(rt, "price", 1, 1000000007, 2000000011)))}
	if !good {
		switch pick(rt, "wrong", 0, 1, 2, 3) {
		case 0:
			o.Gas = 20999
		case 1:
			o.Value = new(big.Int).Lsh(big.NewInt(1), 120)
		case 2:
			if o.Nonce == 0 {
				o.Network = 4
			} else {
				o.Nonce--
			}
		case 3:
			o.Network = 4
		}
	}
	tx := chainenv.Tx(o)
	raw, err := rlp.EncodeToBytes(tx.EvmTx)
	if err != nil {
		rt.Fatalf("encode: %v", err)
	}
	want := id(tx.Hash(), key)
	var got interface{}
	if rapid.Bool().Draw(rt, "fields") {
		v, r, ss := tx.EvmTx.RawSignatureValues()
		got, err = x.call("qkc_sendTransaction", J{"to": d(to[:]), "gas": qn(o.Gas), "gasPrice": qb(o.Price), "value": qb(o.Value), "nonce": qn(o.Nonce), "fromFullShardKey": qn(uint64(key)),
			"networkId": qn(uint64(tx.EvmTx.NetworkId())), "v": qb(v), "r": qb(r), "s": qb(ss)})
	} else {
		got, err = x.call("qkc_sendRawTransaction", d(raw))
	}
	if good {
		if err != nil {
			// another one of this nonce, reinjected, may be in the pool
			if strings.Contains(err.Error(), "underpriced") || strings.Contains(err.Error(), "known transaction") {
				x.c.Label("send: %v", err)
				return
			}
			rt.Fatalf("a good transaction is refused: %v", err)
		}
		if got != want {
			rt.Fatalf("sent transaction's id is %v, not %v", got, want)
		}
		x.c.Label("sent")
		x.is(txFields(tx), "qkc_getTransactionById", want)
		if got, err := x.call("qkc_getTransactionReceipt", want); err == nil && got != nil {
			rt.Fatalf("a pending transaction has a receipt: %v", got)
		}
		return
	}
	if err == nil {
		rt.Fatalf("a bad transaction is accepted (gas %d value %v nonce %d network %d)", o.Gas, o.Value, o.Nonce, tx.EvmTx.NetworkId())
	}
	x.c.Label("bad transaction refused")
	if got, err := x.call("qkc_getTransactionById", want); err == nil && got != nil {
		rt.Fatalf("a refused transaction is found: %v", got)
	}
}

// hostile sends calls with arguments nobody should send. Anything but a crash is an answer.
func (x *api) hostile(k int) {
	rt := x.rt
	t := reflect.TypeOf(qkcapi.NewPublicBlockChainAPI(nil))
	var names []string
	for i := 0; i < t.NumMethod(); i++ {
		m := t.Method(i).Name
		names = append(names, "qkc_"+strings.ToLower(m[:1])+m[1:])
	}
	names = append(names, "qkc_createTransactions", "qkc_getBlockCount", "qkc_setTargetBlockTime", "qkc_getKadRoutingTableSize", "qkc_getKadRoutingTable", "net_version")
	num := func() string {
		return pick(rt, "num", "0x0", "0x1", "0x2", "0x7f", "0x10001", "0x20000", "0xffffffff", "0x100000000", "0x7fffffffffffffff", "0x8000000000000000", "0xffffffffffffffff",
			"0x10000000000000000", "0xffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff", "latest", "earliest", "pending", qn(uint64(x.n.IDs[0])), "0x9999")
	}
	data := func() string {
		switch pick(rt, "data", 0, 1, 2, 3, 4) {
		case 0:
			return "0x"
		case 1:
			b := make([]byte, pick(rt, "len", 1, 20, 24, 32, 36, 65, 100))
			for i := range b {
				b[i] = byte(rapid.IntRange(0, 255).Draw(rt, "b"))
			}
			return d(b)
		case 2: // a known block or transaction
			s := pick(rt, "shard", x.n.IDs...)
			ch := x.chain(s)
			m := ch[rapid.IntRange(0, len(ch)-1).Draw(rt, "m")]
			h := m.H
			if l := m.B.Transactions(); len(l) > 0 && rapid.Bool().Draw(rt, "tx") {
				h = l[0].Hash()
			}
			return id(h, pick(rt, "key", s, 0, 0xffffffff, 0x70000, x.n.IDs[0]))
		case 3: // a transaction, maybe damaged
			to := chainenv.Addrs[1]
			o := chainenv.TxOpt{From: 0, To: &to, Nonce: uint64(rapid.IntRange(0, 90).Draw(rt, "nonce")), Gas: pick(rt, "gas", uint64(0), 21000, 1<<40, 1<<63), FromKey: pick(rt, "fk", x.n.IDs[0], 0, 0x70000, 0xffffffff),
				ToKey: pick(rt, "tk", x.n.IDs[0], 0, 0x70000, 0xffffffff), Token: pick(rt, "tok", uint64(0), 1, 1<<63), GasToken: pick(rt, "gtok", uint64(0), 1, 1<<63), Version: pick(rt, "ver", uint32(0), 1, 2, 3), Network: pick(rt, "net", uint32(3), 1)}
			tx := chainenv.Tx(o)
			raw, _ := rlp.EncodeToBytes(tx.EvmTx)
			if rapid.Bool().Draw(rt, "damage") {
				raw[rapid.IntRange(0, len(raw)-1).Draw(rt, "at")] ^= byte(rapid.IntRange(1, 255).Draw(rt, "x"))
			}
			return d(raw)
		}
		a := pick(rt, "addr", chainenv.Addrs[0], hist.StoreAddr, common.Address{}, common.Address{1})
		return d(append(append([]byte{}, a[:]...), key4(pick(rt, "key", x.n.IDs[0], 0, 0xffffffff, 0x70000))...))
	}
	var any func(depth int) interface{}
	any = func(depth int) interface{} {
		switch pick(rt, "arg", 0, 0, 0, 1, 1, 1, 2, 3, 4, 5, 6) {
		case 0:
			return num()
		case 1:
			return data()
		case 2:
			return nil
		case 3:
			return rapid.Bool().Draw(rt, "bool")
		case 4:
			return rapid.IntRange(-1, 1<<40).Draw(rt, "int")
		case 5:
			if depth > 1 {
				return []interface{}{}
			}
			return []interface{}{any(depth + 1), any(depth + 1)}
		}
		j := J{}
		for _, f := range []string{"from", "to", "gas", "gasPrice", "value", "data", "gas_token_id", "transfer_token_id", "nonce", "fromFullShardKey", "toFullShardKey", "v", "r", "s", "networkId", "fromBlock", "toBlock", "address", "topics", "blockhash", "numTxPerShard", "xShardPercent"} {
			if rapid.IntRange(0, 2).Draw(rt, "has") == 0 {
				continue
			}
			switch f {
			case "from", "to":
				a := pick(rt, "addr", chainenv.Addrs[0], hist.StoreAddr, common.Address{}, common.Address{1})
				j[f] = d(append(append([]byte{}, a[:]...), key4(pick(rt, "key", x.n.IDs[0], x.n.IDs[len(x.n.IDs)-1], 0, 0xffffffff, 0x70000))...))
			case "data":
				j[f] = data()
			case "topics":
				if depth < 2 {
					j[f] = any(depth + 1)
				}
			case "address":
				j[f] = d(chainenv.Addrs[0][:])
			case "numTxPerShard", "xShardPercent":
				j[f] = rapid.IntRange(0, 2).Draw(rt, "n")
			default:
				j[f] = num()
			}
		}
		return j
	}
	for ; k > 0; k-- {
		m := pick(rt, "method", names...)
		args := []interface{}{}
		switch m {
		case "qkc_call", "qkc_estimateGas", "qkc_sendTransaction":
			for {
				if j, ok := any(0).(J); ok {
					args = append(args, j)
					break
				}
			}
			if rapid.Bool().Draw(rt, "with") {
				args = append(args, num())
			}
		case "qkc_getLogs":
			args = append(args, J{"fromBlock": num(), "toBlock": num(), "topics": any(1)}, num())
		default:
			for i := rapid.IntRange(0, 4).Draw(rt, "args"); i > 0; i-- {
				args = append(args, any(0))
			}
		}
		if _, err := x.call(m, args...); err == nil {
			x.c.Label("hostile %s answered", m)
		} else if !strings.Contains(err.Error(), "invalid argument") && !strings.Contains(err.Error(), "too many arguments") && !strings.Contains(err.Error(), "missing value") {
			x.c.Label("hostile %s refused", m)
		}
	}
}
