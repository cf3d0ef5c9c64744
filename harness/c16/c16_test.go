// Package c16 decides: the transaction pool offers only executable transactions
// and loses none. Pools are driven by generated submissions, blocks and
// reorganisations; a model of what the pool has to contain is compared with all
// the pool says about itself after every step.
package c16

import (
	"fmt"
	"math/big"
	"sort"
	"testing"
	"time"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/config"
	"github.com/QuarkChain/goquarkchain/core"
	"github.com/QuarkChain/goquarkchain/core/state"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/core/vm"
	"github.com/QuarkChain/goquarkchain/zzverif/chainenv"
	"github.com/QuarkChain/goquarkchain/zzverif/hist"
	"github.com/QuarkChain/goquarkchain/zzverif/vlib"
	"github.com/ethereum/go-ethereum/common"
	"pgregory.net/rapid"
)

const (
	users  = 4
	marker = 4 // a key that creates a contract in every block, which tells whether a pool has followed it
)

var cb0 = common.HexToAddress("c01bba5e")

func pick(rt *rapid.T, n string, v ...int) int { return rapid.SampledFrom(v).Draw(rt, n) }

func opt(funds []int64, toks []int64, mut func(*config.ClusterConfig)) chainenv.Opt {
	al := map[common.Address]map[string]*big.Int{
		chainenv.Addrs[marker]: {"QKC": chainenv.Fund()},
	}
	for i := 0; i < users; i++ {
		al[chainenv.Addrs[i]] = map[string]*big.Int{"QKC": big.NewInt(funds[i])}
		if toks[i] > 0 {
			al[chainenv.Addrs[i]]["ABC"] = big.NewInt(toks[i])
		}
	}
	return chainenv.Opt{ChainSize: 2, ShardSize: 1, Alloc: al, Mutate: mut, Only: nil}
}

// pays tells whether the balances cover the transaction on its own.
func pays(st *state.StateDB, who common.Address, tx *types.EvmTransaction) bool {
	fee := new(big.Int).Mul(tx.GasPrice(), new(big.Int).SetUint64(tx.Gas()))
	need := map[uint64]*big.Int{tx.GasTokenID(): fee}
	if tx.TransferTokenID() == tx.GasTokenID() {
		need[tx.GasTokenID()] = new(big.Int).Add(fee, tx.Value())
	} else {
		need[tx.TransferTokenID()] = tx.Value()
	}
	for tok, n := range need {
		if st.GetBalance(who, tok).Cmp(n) < 0 {
			return false
		}
	}
	return true
}

// model is what the pool has to contain: per user, by nonce.
type model []map[uint64]*types.Transaction

func newModel() model {
	m := make(model, users+1)
	for i := range m {
		m[i] = map[uint64]*types.Transaction{}
	}
	return m
}

func (m model) count() int {
	n := 0
	for _, l := range m {
		n += len(l)
	}
	return n
}

func (m model) has(h common.Hash) bool {
	for _, l := range m {
		for _, tx := range l {
			if tx.Hash() == h {
				return true
			}
		}
	}
	return false
}

func (m model) String() string {
	s := ""
	for i, l := range m {
		var ns []int
		for n := range l {
			ns = append(ns, int(n))
		}
		sort.Ints(ns)
		s += fmt.Sprintf("%d:%v ", i, ns)
	}
	return s
}

func nonces(l types.Transactions) []uint64 {
	var o []uint64
	for _, tx := range l {
		o = append(o, tx.EvmTx.Nonce())
	}
	return o
}

// consistent checks what holds for every pool, whatever its limits.
func consistent(p *core.TxPool, st *state.StateDB, branch account.Branch, gasLimit uint64) error {
	pend, queue := p.Content()
	again, err := p.Pending()
	if err != nil {
		return err
	}
	if len(again) != len(pend) {
		return fmt.Errorf("Pending lists %d accounts, Content %d", len(again), len(pend))
	}
	seen := map[common.Hash]bool{}
	slot := map[string]bool{}
	np, nq := 0, 0
	each := func(who common.Address, l types.Transactions, what string) error {
		if len(l) == 0 {
			return fmt.Errorf("%x has an empty %s list", who, what)
		}
		for i, tx := range l {
			h := tx.Hash()
			if seen[h] {
				return fmt.Errorf("transaction %x is in the pool twice", h)
			}
			seen[h] = true
			k := fmt.Sprintf("%x/%d", who, tx.EvmTx.Nonce())
			if slot[k] {
				return fmt.Errorf("two transactions for %s", k)
			}
			slot[k] = true
			from, err := types.Sender(types.MakeSigner(chainenv.NetworkID), chainenv.CopyTx(tx).EvmTx)
			if err != nil || from != who {
				return fmt.Errorf("transaction of %x (%v) listed for %x", from, err, who)
			}
			if tx.EvmTx.FromFullShardId() != branch.Value {
				return fmt.Errorf("transaction from shard %x in the pool of %x", tx.EvmTx.FromFullShardId(), branch.Value)
			}
			if tx.EvmTx.Gas() > gasLimit {
				return fmt.Errorf("gas limit %d above the block's", tx.EvmTx.Gas())
			}
			if !pays(st, who, tx.EvmTx) {
				return fmt.Errorf("%s nonce %d of %x cannot be paid", what, tx.EvmTx.Nonce(), who)
			}
			if i > 0 && l[i-1].EvmTx.Nonce() >= tx.EvmTx.Nonce() {
				return fmt.Errorf("%s list of %x not in order: %v", what, who, nonces(l))
			}
			if g := p.Get(h); g == nil || g.Hash() != h {
				return fmt.Errorf("%s transaction %x is not found by hash", what, h)
			}
			if s := p.Status([]common.Hash{h}); s[0] != map[string]core.TxStatus{"executable": core.TxStatusPending, "queued": core.TxStatusQueued}[what] {
				return fmt.Errorf("%s transaction has status %v", what, s)
			}
		}
		return nil
	}
	for who, l := range pend {
		if err := each(who, l, "executable"); err != nil {
			return err
		}
		want := st.GetNonce(who)
		for i, tx := range l {
			if tx.EvmTx.Nonce() != want+uint64(i) {
				return fmt.Errorf("executable nonces of %x are %v, the account is at %d", who, nonces(l), want)
			}
			if again[who][i].Hash() != tx.Hash() {
				return fmt.Errorf("Pending and Content differ for %x", who)
			}
		}
		np += len(l)
	}
	for who, l := range queue {
		if err := each(who, l, "queued"); err != nil {
			return err
		}
		if first := st.GetNonce(who) + uint64(len(pend[who])); l[0].EvmTx.Nonce() <= first {
			return fmt.Errorf("nonce %d of %x is queued and not executable, the next is %d", l[0].EvmTx.Nonce(), who, first)
		}
		nq += len(l)
	}
	for i := 0; i <= users; i++ {
		who := chainenv.Addrs[i]
		if n := p.Nonce(who); n != st.GetNonce(who)+uint64(len(pend[who])) {
			return fmt.Errorf("next nonce of user %d is given as %d, the account is at %d with %d executable", i, n, st.GetNonce(who), len(pend[who]))
		}
	}
	if a, b := p.Stats(); a != np || b != nq {
		return fmt.Errorf("Stats says %d and %d, content is %d and %d", a, b, np, nq)
	}
	if p.PendingCount() != np+nq {
		return fmt.Errorf("PendingCount says %d, content is %d", p.PendingCount(), np+nq)
	}
	all := p.GetAllTxInPool()
	if len(all) != np+nq {
		return fmt.Errorf("%d transactions listed, content is %d", len(all), np+nq)
	}
	for _, tx := range all {
		if !seen[tx.Hash()] {
			return fmt.Errorf("%x is listed and neither executable nor queued", tx.Hash())
		}
	}
	return nil
}

// same compares an unlimited pool with the model.
func same(p *core.TxPool, m model, st *state.StateDB) error {
	pend, queue := p.Content()
	for i := range m {
		who := chainenv.Addrs[i]
		next := st.GetNonce(who)
		var want []uint64
		for m[i][next] != nil {
			want = append(want, next)
			next++
		}
		have := pend[who]
		if len(have) != len(want) {
			return fmt.Errorf("user %d: executable %v queued %v, want executable %v of %v", i, nonces(have), nonces(queue[who]), want, m)
		}
		for k, n := range want {
			if have[k].Hash() != m[i][n].Hash() {
				return fmt.Errorf("user %d: another transaction at nonce %d", i, n)
			}
		}
		rest := 0
		for n, tx := range m[i] {
			if n >= st.GetNonce(who) && n < next {
				continue
			}
			rest++
			found := false
			for _, q := range queue[who] {
				found = found || q.Hash() == tx.Hash()
			}
			if !found {
				return fmt.Errorf("user %d: transaction with nonce %d is lost (executable %v queued %v)", i, n, nonces(have), nonces(queue[who]))
			}
		}
		if rest != len(queue[who]) {
			return fmt.Errorf("user %d: queued %v, want %d of %v", i, nonces(queue[who]), rest, m)
		}
		delete(pend, who)
		delete(queue, who)
	}
	for who := range pend {
		return fmt.Errorf("transactions of a stranger %x", who)
	}
	for who := range queue {
		return fmt.Errorf("queued transactions of a stranger %x", who)
	}
	return nil
}

// submission is one generated transaction and why it has to be refused, if so.
type submission struct {
	tx   *types.Transaction
	user int
	bad  string
}

type genState struct {
	id       uint32
	gasLimit uint64
	minPrice int64
	tokens   bool // use of the other token
}

func (g *genState) draw(rt *rapid.T, st *state.StateDB, m model) submission {
	u := rapid.IntRange(0, users-1).Draw(rt, "user")
	who := chainenv.Addrs[u]
	base := st.GetNonce(who)
	s := submission{user: u}
	to := chainenv.Addrs[rapid.IntRange(0, users).Draw(rt, "to")]
	next := base
	for m[u][next] != nil {
		next++
	}
	o := chainenv.TxOpt{From: u, To: &to, FromKey: chainenv.Key(g.id, uint32(pick(rt, "salt", 0, 0, 1))), Gas: 21000}
	switch pick(rt, "nonce", 0, 0, 0, 0, 0, 1, 1, 2, 2, 2, 3, 4) {
	case 0:
		o.Nonce = next
	case 1:
		o.Nonce = next + uint64(pick(rt, "gap", 1, 1, 2, 3))
	case 2: // a taken one, if any
		var l []int
		for n := range m[u] {
			l = append(l, int(n))
		}
		sort.Ints(l)
		o.Nonce = next
		if len(l) > 0 {
			o.Nonce = uint64(rapid.SampledFrom(l).Draw(rt, "taken"))
		}
	case 3:
		o.Nonce = base + uint64(pick(rt, "far", 62, 63, 64, 65, 1000))
	default:
		if base > 0 {
			o.Nonce = base - 1 // too old
		}
	}
	o.ToKey = o.FromKey
	o.Price = big.NewInt(rapid.SampledFrom([]int64{0, 1, 1, 2, 3, 9, 10, 11, 12, 100, 109, 110, 111}).Draw(rt, "price"))
	o.Value = big.NewInt(rapid.SampledFrom([]int64{0, 0, 1, 1000, 100000, 500000, 900000, 2000000}).Draw(rt, "value"))
	if pick(rt, "gas", 0, 0, 0, 1) == 1 {
		o.Gas = uint64(rapid.SampledFrom([]int64{20999, 21001, 50000, int64(g.gasLimit), int64(g.gasLimit) + 1}).Draw(rt, "gaslimit"))
	}
	if g.tokens && pick(rt, "token", 0, 0, 1) == 1 {
		o.Token = hist.TokA
		o.Value = big.NewInt(rapid.SampledFrom([]int64{1, 10, 100, 101}).Draw(rt, "amount"))
	}
	kind := pick(rt, "kind", 0, 0, 0, 0, 0, 0, 0, 0, 1, 2, 3, 4, 5, 6)
	switch kind {
	case 1:
		o.Network = 4
		s.bad = "network"
	case 2: // of another shard
		o.FromKey = 1<<16 | o.FromKey
		o.ToKey = o.FromKey
		s.bad = "shard"
	case 3: // chain that does not exist
		o.FromKey = 7 << 16
		s.bad = "chain"
	case 5:
		o.Data = make([]byte, 40000)
		o.Gas = 1000000
		s.bad = "size"
	}
	tx := chainenv.Tx(o)
	if kind == 4 {
		_, r, ss := tx.EvmTx.RawSignatureValues()
		sig := make([]byte, 65)
		copy(sig[32-len(r.Bytes()):], r.Bytes())
		switch pick(rt, "sig", 0, 1, 2) {
		case 0:
			sig = make([]byte, 65)
		case 1: // the other root: malleable
			order, _ := new(big.Int).SetString("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16)
			ss = new(big.Int).Sub(order, ss)
			copy(sig[64-len(ss.Bytes()):], ss.Bytes())
		case 2:
			copy(sig[64-len(ss.Bytes()):], ss.Bytes())
			sig[64] = 7
		}
		n, err := tx.EvmTx.WithSignature(types.MakeSigner(chainenv.NetworkID), sig)
		if err != nil {
			panic(err)
		}
		tx = &types.Transaction{TxType: types.EvmTx, EvmTx: n}
		s.bad = "signature"
	}
	s.tx = tx
	if s.bad == "" {
		switch {
		case o.Nonce < base:
			s.bad = "nonce"
		case o.Gas < 21000:
			s.bad = "gas"
		case o.Gas > g.gasLimit:
			s.bad = "gas limit"
		case o.Price.Int64() < g.minPrice:
			s.bad = "price"
		case !pays(st, who, tx.EvmTx):
			s.bad = "funds"
		case o.Token != 0 && st.GetBalance(who, o.Token).Sign() == 0:
			s.bad = "token"
		}
	}
	return s
}

// submit hands a batch to the pool and checks every single answer against the
// model, which it brings up to date.
func submit(rt *rapid.T, c *vlib.C, p *core.TxPool, m model, batch []submission, local bool) (accepted, replaced int) {
	txs := make([]*types.Transaction, len(batch))
	for i, s := range batch {
		txs[i] = chainenv.CopyTx(s.tx)
	}
	var errs []error
	if local {
		errs = p.AddLocals(txs)
	} else {
		errs = p.AddRemotesSync(txs)
	}
	if len(errs) != len(batch) {
		rt.Fatalf("%d answers for %d transactions", len(errs), len(batch))
	}
	for i, s := range batch {
		want := s.bad
		old := m[s.user][s.tx.EvmTx.Nonce()]
		if want == "" && old != nil {
			a, b := old.EvmTx.GasPrice(), s.tx.EvmTx.GasPrice()
			bump := new(big.Int).Div(new(big.Int).Mul(a, big.NewInt(110)), big.NewInt(100))
			switch {
			case old.Hash() == s.tx.Hash():
				want = "known"
			case b.Cmp(a) <= 0 || b.Cmp(bump) < 0:
				want = "underpriced replacement"
			default:
				replaced++
				c.Label("replaced")
			}
		}
		if (want == "") != (errs[i] == nil) {
			rt.Fatalf("transaction %d of %d (user %d nonce %d price %v): answer %v, want %q", i, len(batch), s.user, s.tx.EvmTx.Nonce(), s.tx.EvmTx.GasPrice(), errs[i], want)
		}
		if want == "" {
			m[s.user][s.tx.EvmTx.Nonce()] = s.tx
			accepted++
		} else {
			c.Label("refused: %s", want)
		}
	}
	return
}

// TestSubmissions drives a pool on one head.
func TestSubmissions(t *testing.T) {
	rule := "a batch of several with answers of both kinds, and a replacement"
	vlib.Check(t, 120, 2500, rule, func(rt *rapid.T, c *vlib.C) {
		var funds, toks []int64
		for i := 0; i < users; i++ {
			funds = append(funds, rapid.SampledFrom([]int64{0, 21000, 1000000, 3000000, 1e12}).Draw(rt, "funds"))
			toks = append(toks, rapid.SampledFrom([]int64{0, 10, 100}).Draw(rt, "tokens"))
		}
		minPrice := int64(pick(rt, "min", 0, 0, 0, 2))
		e := chainenv.New(opt(funds, toks, func(cc *config.ClusterConfig) { cc.Quarkchain.MinTXPoolGasPrice = big.NewInt(minPrice) }))
		defer e.Stop()
		id := e.IDs[0]
		chain := e.Shard[id]
		p := core.NewTxPool(core.DefaultTxPoolConfig, chain)
		defer p.Stop()
		st := e.State(id)
		g := &genState{id: id, gasLimit: chain.GasLimit(), minPrice: minPrice, tokens: true}
		m := newModel()
		var sent []submission
		mixed, repl := false, 0
		what := ""
		for step := rapid.IntRange(2, 8).Draw(rt, "steps"); step > 0; step-- {
			var batch []submission
			tmp := newModel()
			for i := range m {
				for n, tx := range m[i] {
					tmp[i][n] = tx
				}
			}
			for n := pick(rt, "batch", 1, 1, 3, 4, 8); n > 0; n-- {
				if len(sent) > 0 && pick(rt, "again", 0, 0, 0, 0, 0, 0, 1) == 1 {
					s := rapid.SampledFrom(sent).Draw(rt, "which")
					if s.bad == "" && !m.has(s.tx.Hash()) { // replaced meanwhile
						continue
					}
					batch = append(batch, s)
					continue
				}
				s := g.draw(rt, st, tmp)
				batch = append(batch, s)
				if s.bad == "" && tmp[s.user][s.tx.EvmTx.Nonce()] == nil {
					tmp[s.user][s.tx.EvmTx.Nonce()] = s.tx
				}
				if pick(rt, "twice", 0, 0, 0, 0, 0, 0, 0, 0, 1) == 1 {
					batch = append(batch, s) // the same again in one batch
				}
			}
			local := pick(rt, "local", 0, 1) == 1
			acc, rep := submit(rt, c, p, m, batch, local)
			sent = append(sent, batch...)
			mixed = mixed || (acc > 0 && acc < len(batch))
			repl += rep
			what += fmt.Sprintf("%d/%d ", acc, len(batch))
			if err := consistent(p, st, chain.GetBranch(), g.gasLimit); err != nil {
				rt.Fatalf("%v", err)
			}
			if err := same(p, m, st); err != nil {
				rt.Fatalf("%v", err)
			}
			for _, s := range batch {
				if in := p.Get(s.tx.Hash()) != nil; in != m.has(s.tx.Hash()) {
					rt.Fatalf("in the pool: %v, in the model: %v", in, !in)
				}
			}
		}
		if mixed && repl > 0 {
			c.NonTrivial("%s %v", what, m)
			c.Sample("batches (accepted/sent) %s; nonces held %v", what, m)
		}
	})
}

// TestLimits drives a small pool with transactions of strangers.
func TestLimits(t *testing.T) {
	rule := "the pool was at one of its limits"
	vlib.Check(t, 100, 2000, rule, func(rt *rapid.T, c *vlib.C) {
		queueLimit := pick(rt, "shard limit", 3, 8, 10000, 10000, 10000)
		funds := []int64{1e15, 1e15, 1e15, 1e15}
		e := chainenv.New(opt(funds, []int64{0, 0, 0, 0}, func(cc *config.ClusterConfig) {
			cc.Quarkchain.TransactionQueueSizeLimitPerShard = uint64(queueLimit)
		}))
		defer e.Stop()
		id := e.IDs[0]
		chain := e.Shard[id]
		cfg := core.DefaultTxPoolConfig
		cfg.AccountSlots = uint64(pick(rt, "account slots", 1, 2, 4))
		cfg.GlobalSlots = uint64(pick(rt, "slots", 2, 4, 8, 100))
		cfg.AccountQueue = uint64(pick(rt, "account queue", 1, 2, 4))
		cfg.GlobalQueue = uint64(pick(rt, "queue", 1, 3, 6, 100))
		local, beyond := map[int]bool{}, map[int]bool{}
		for i := 0; i < users; i++ {
			if pick(rt, "is local", 0, 0, 0, 1) == 1 {
				local[i] = true
				cfg.Locals = append(cfg.Locals, chainenv.Addrs[i])
			}
		}
		p := core.NewTxPool(cfg, chain)
		defer p.Stop()
		st := e.State(id)
		g := &genState{id: id, gasLimit: chain.GasLimit()}
		m := newModel() // what is in the pool
		known := map[common.Hash]submission{}
		hit := false
		what := ""
		for step := rapid.IntRange(4, 20).Draw(rt, "steps"); step > 0; step-- {
			var txs []*types.Transaction
			var batch []submission
			for n := pick(rt, "batch", 1, 1, 2, 6); n > 0; n-- {
				s := g.draw(rt, st, m)
				batch = append(batch, s)
				txs = append(txs, chainenv.CopyTx(s.tx))
				known[s.tx.Hash()] = s
				if pick(rt, "run", 0, 1) == 1 && s.bad == "" { // a run of nonces
					for k := 1; k < 5 && len(batch) < 12; k++ {
						to := chainenv.Addrs[0]
						x := submission{user: s.user, tx: chainenv.Tx(chainenv.TxOpt{From: s.user, To: &to, Nonce: s.tx.EvmTx.Nonce() + uint64(k), Gas: 21000, Price: s.tx.EvmTx.GasPrice(), FromKey: chainenv.Key(id, 0), ToKey: chainenv.Key(id, 0)})}
						batch = append(batch, x)
						txs = append(txs, chainenv.CopyTx(x.tx))
						known[x.tx.Hash()] = x
					}
				}
			}
			full := p.PendingCount() >= int(cfg.GlobalSlots+cfg.GlobalQueue)
			var cheapest *big.Int
			for _, tx := range p.GetAllTxInPool() {
				if cheapest == nil || tx.EvmTx.GasPrice().Cmp(cheapest) < 0 {
					cheapest = tx.EvmTx.GasPrice()
				}
			}
			before := map[common.Hash]bool{}
			for _, tx := range p.GetAllTxInPool() {
				before[tx.Hash()] = true
			}
			size := p.PendingCount()
			was, _ := p.Content()
			errs := p.AddRemotesSync(txs)
			what += fmt.Sprint(len(txs))
			if err := consistent(p, st, chain.GetBranch(), g.gasLimit); err != nil {
				rt.Fatalf("%v", err)
			}
			if len(errs) != len(batch) {
				rt.Fatalf("%d answers for %d transactions", len(errs), len(batch))
			}
			acc := map[common.Hash]bool{}
			for i, s := range batch {
				h := s.tx.Hash()
				if errs[i] == nil {
					acc[h] = true
				}
				if errs[i] == nil && s.bad != "" {
					rt.Fatalf("accepted in spite of its %s", s.bad)
				}
				if errs[i] == nil {
					what += "+"
				} else {
					what += "-"
				}
				if len(batch) == 1 && errs[i] == core.ErrUnderpriced {
					hit = true
					if !full {
						rt.Fatalf("underpriced in a pool with room (%d transactions)", size)
					}
					if local[s.user] || s.tx.EvmTx.GasPrice().Cmp(cheapest) > 0 {
						rt.Fatalf("underpriced at %v (local %v), the cheapest in the pool pays %v", s.tx.EvmTx.GasPrice(), local[s.user], cheapest)
					}
					c.Label("underpriced")
				}
				if len(batch) == 1 && s.bad == "" && errs[i] != nil && !full && size <= queueLimit {
					if old := m[s.user][s.tx.EvmTx.Nonce()]; old == nil {
						rt.Fatalf("refused with room in the pool: %v", errs[i])
					}
				}
				if len(batch) == 1 && s.bad == "" && errs[i] == nil && size > queueLimit {
					rt.Fatalf("accepted above the limit of the shard: %d", size)
				}
			}
			// what is in the pool now was there or was accepted now
			m = newModel()
			held := map[common.Hash]bool{}
			for _, tx := range p.GetAllTxInPool() {
				h := tx.Hash()
				held[h] = true
				s, ok := known[h]
				if !ok || s.bad != "" || (!before[h] && !acc[h]) {
					rt.Fatalf("transaction in the pool was not accepted (known %v, %s)", ok, s.bad)
				}
				m[s.user][tx.EvmTx.Nonce()] = s.tx
			}
			pend, queue := p.Content()
			np, nq := p.Stats()
			if np > int(cfg.GlobalSlots) {
				for i := 0; i < users; i++ {
					if l := len(pend[chainenv.Addrs[i]]); !local[i] && l > int(cfg.AccountSlots) {
						rt.Fatalf("%d executable transactions with %d slots and account with %d > %d", np, cfg.GlobalSlots, l, cfg.AccountSlots)
					}
				}
			}
			locq := 0
			for i := 0; i < users; i++ {
				l := len(queue[chainenv.Addrs[i]])
				// transactions that had been executable are kept beyond the account's
				// limit when one before them makes room for a better-paying stranger
				for _, tx := range queue[chainenv.Addrs[i]] {
					for _, o := range was[chainenv.Addrs[i]] {
						beyond[i] = beyond[i] || o.Hash() == tx.Hash()
					}
				}
				if l <= int(cfg.AccountQueue) {
					beyond[i] = false
				}
				if local[i] {
					locq += l
				} else if l > int(cfg.AccountQueue) && !beyond[i] {
					rt.Fatalf("account with %d queued transactions, the limit is %d", l, cfg.AccountQueue)
				}
			}
			if nq > int(cfg.GlobalQueue) && nq != locq {
				rt.Fatalf("%d queued transactions (%d local), the limit is %d", nq, locq, cfg.GlobalQueue)
			}
			if np+nq > queueLimit+1 {
				rt.Fatalf("%d transactions, the limit of the shard is %d", np+nq, queueLimit)
			}
			// locals are never given up
			for h := range before {
				if s := known[h]; local[s.user] && !held[h] && m[s.user][s.tx.EvmTx.Nonce()] == nil {
					rt.Fatalf("a local transaction was dropped")
				}
			}
			for i, s := range batch {
				if errs[i] == nil && !held[s.tx.Hash()] {
					if local[s.user] && m[s.user][s.tx.EvmTx.Nonce()] == nil {
						rt.Fatalf("a local transaction was accepted and dropped")
					}
					c.Label("accepted and dropped for a limit")
					hit = true
				}
			}
			for h := range before {
				if s := known[h]; !held[h] && m[s.user][s.tx.EvmTx.Nonce()] == nil {
					hit = true
					c.Label("dropped for a limit")
				}
			}
		}
		if hit {
			c.NonTrivial("%v %s", cfg, what)
			c.Sample("slots %d/%d queue %d/%d locals %d, batches (+ accepted - refused): %s", cfg.AccountSlots, cfg.GlobalSlots, cfg.AccountQueue, cfg.GlobalQueue, len(local), what)
		}
	})
}

type blk struct {
	b      *types.MinorBlock
	parent *blk
	txs    []*types.Transaction
	ref    *types.RootBlock
	num    uint64
	mark   common.Address
}

func (a *blk) on(b *blk) bool {
	for ; a != nil && a.num > b.num; a = a.parent {
	}
	return a == b
}

// TestHeads drives a pool through blocks, reorganisations and root blocks.
func TestHeads(t *testing.T) {
	rule := "a reorganisation that brought transactions back and a block that made one unpayable"
	vlib.Check(t, 70, 1500, rule, func(rt *rapid.T, c *vlib.C) {
		var funds, toks []int64
		for i := 0; i < users; i++ {
			funds = append(funds, rapid.SampledFrom([]int64{21000, 1000000, 3000000, 3000000, 1e12}).Draw(rt, "funds"))
			toks = append(toks, rapid.SampledFrom([]int64{0, 50, 150}).Draw(rt, "tokens"))
		}
		o := opt(funds, toks, nil)
		P, S := chainenv.New(o), chainenv.New(o)
		defer P.Stop()
		defer S.Stop()
		id := P.IDs[0]
		sc, pc := S.Shard[id], P.Shard[id]
		p := core.NewTxPool(core.DefaultTxPoolConfig, sc)
		defer p.Stop()
		limit := sc.GasLimit()
		xs := new(big.Int).SetUint64(limit / 2)
		g := &genState{id: id, gasLimit: limit, tokens: true}
		r0 := P.Root.Genesis()
		gen := &blk{b: P.Gen[id], ref: r0}
		blocks := []*blk{gen}
		byHash := map[common.Hash]*blk{gen.b.Hash(): gen}
		heldS := map[*blk]bool{gen: true}
		roots := []*types.RootBlock{r0}
		conf := map[common.Hash]*blk{}
		rootParent := map[common.Hash]*types.RootBlock{}
		m := newModel()
		mine := map[common.Hash]submission{} // everything generated, by hash
		returned, unpayable := false, false
		trace := ""
		stateOf := func(b *blk) *state.StateDB {
			st, err := pc.StateAt(b.b.Root())
			if err != nil {
				rt.Fatalf("state: %v", err)
			}
			return st
		}
		cur := func() *blk { return byHash[sc.CurrentBlock().Hash()] }
		// follow waits for the pool to follow the head and moves the model there.
		follow := func(old *blk) {
			now := cur()
			st := stateOf(now)
			if now != old {
				deadline := time.Now().Add(30 * time.Second)
				followed := func() bool {
					for _, b := range blocks[1:] {
						if (p.Nonce(b.mark) == 1) != now.on(b) {
							return false
						}
					}
					return true
				}
				for !followed() {
					if time.Now().After(deadline) {
						rt.Fatalf("%s: the pool does not follow the head", trace)
					}
					time.Sleep(200 * time.Microsecond)
				}
				// transactions of abandoned blocks, oldest first
				anc := old
				var lost []*types.Transaction
				for !now.on(anc) {
					lost = append(append([]*types.Transaction{}, anc.txs...), lost...)
					anc = anc.parent
				}
				kept := map[common.Hash]bool{}
				for b := now; b != anc; b = b.parent {
					for _, tx := range b.txs {
						kept[tx.Hash()] = true
					}
				}
				for i := range m {
					for n, tx := range m[i] {
						if n < st.GetNonce(chainenv.Addrs[i]) {
							delete(m[i], n)
						} else if !pays(st, chainenv.Addrs[i], tx.EvmTx) {
							delete(m[i], n)
							unpayable = true
							c.Label("became unpayable")
						}
					}
				}
				for _, tx := range lost {
					s, ok := mine[tx.Hash()]
					if !ok || kept[tx.Hash()] {
						continue
					}
					if tx.EvmTx.Nonce() < st.GetNonce(chainenv.Addrs[s.user]) || !pays(st, chainenv.Addrs[s.user], tx.EvmTx) {
						continue
					}
					m[s.user][tx.EvmTx.Nonce()] = tx
					returned = true
					c.Label("returned from an abandoned block")
				}
			}
			if err := consistent(p, st, sc.GetBranch(), limit); err != nil {
				rt.Fatalf("%s: %v", trace, err)
			}
			if err := same(p, m, st); err != nil {
				rt.Fatalf("%s: %v", trace, err)
			}
		}
		deliver := func(b *blk) {
			var path []*blk
			for x := b; !heldS[x]; x = x.parent {
				path = append([]*blk{x}, path...)
			}
			for _, x := range path {
				old := cur()
				if _, err := sc.InsertChain([]types.IBlock{x.b}, false); err != nil {
					rt.Fatalf("%s: block refused: %v", trace, err)
				}
				heldS[x] = true
				follow(old)
			}
		}
		for step := rapid.IntRange(5, 16).Draw(rt, "steps"); step > 0; step-- {
			switch pick(rt, "op", 0, 0, 0, 1, 1, 1, 1, 1, 2, 2, 3) {
			case 0: // submissions
				st := stateOf(cur())
				tmp := newModel()
				for i := range m {
					for n, tx := range m[i] {
						tmp[i][n] = tx
					}
				}
				var batch []submission
				for n := pick(rt, "batch", 2, 4, 8); n > 0; n-- {
					s := g.draw(rt, st, tmp)
					if s.bad == "" {
						tmp[s.user][s.tx.EvmTx.Nonce()] = s.tx
						mine[s.tx.Hash()] = s
					}
					batch = append(batch, s)
				}
				acc, _ := submit(rt, c, p, m, batch, pick(rt, "local", 0, 1) == 1)
				trace += fmt.Sprintf("+%d ", acc)
				follow(cur())
			case 1, 2: // a block, on the head or elsewhere
				par := cur()
				if pick(rt, "where", 0, 0, 1) == 1 {
					par = rapid.SampledFrom(blocks).Draw(rt, "parent")
				} else if rapid.Bool().Draw(rt, "last") {
					par = blocks[len(blocks)-1]
				}
				var refs []*types.RootBlock
				for _, r := range roots {
					onref := false
					for x := r; x != nil; x = rootParent[x.Hash()] {
						onref = onref || x.Hash() == par.ref.Hash()
					}
					if onref && (conf[r.Hash()] == nil || par.on(conf[r.Hash()])) {
						refs = append(refs, r)
					}
				}
				ref := refs[len(refs)-1]
				st := stateOf(par)
				cb := account.NewAddress(cb0, chainenv.Key(id, 0))
				bt, rh := par.b.Time()+1, ref.Hash()
				if ref.Time() >= bt {
					bt = ref.Time() + 1
				}
				block := par.b.CreateBlockToAppend(&bt, nil, &cb, nil, new(big.Int).SetUint64(limit), xs, []byte{byte(len(blocks))}, nil, &rh)
				x := &blk{parent: par, ref: ref, num: par.num + 1}
				bal := map[key]*big.Int{}
				get := func(u int, tok uint64) *big.Int {
					k := key{u, tok}
					if bal[k] == nil {
						bal[k] = new(big.Int).Set(st.GetBalance(chainenv.Addrs[u], tok))
					}
					return bal[k]
				}
				for u := 0; u < users; u++ {
					n := st.GetNonce(chainenv.Addrs[u])
					for k := pick(rt, "txs", 0, 0, 1, 2, 3); k > 0; k-- {
						tx := m[u][n]
						if tx == nil || pick(rt, "other", 0, 0, 1) == 1 {
							to := chainenv.Addrs[rapid.IntRange(0, users-1).Draw(rt, "to")]
							op := chainenv.TxOpt{From: u, To: &to, Nonce: n, Gas: 21000, Price: big.NewInt(int64(pick(rt, "price", 0, 1, 10))), Value: big.NewInt(int64(pick(rt, "value", 0, 7, 100000, 900000, 2000000))), FromKey: chainenv.Key(id, 0), ToKey: chainenv.Key(id, 0)}
							if toks[u] > 0 && rapid.Bool().Draw(rt, "token") {
								op.Token, op.Value = hist.TokA, big.NewInt(int64(pick(rt, "amount", 1, 40, 60)))
							}
							tx = chainenv.Tx(op)
						}
						fee := new(big.Int).Mul(tx.EvmTx.GasPrice(), new(big.Int).SetUint64(tx.EvmTx.Gas()))
						need := new(big.Int).Set(fee)
						if tx.EvmTx.TransferTokenID() == chainenv.QKC {
							need.Add(need, tx.EvmTx.Value())
						} else if get(u, hist.TokA).Cmp(tx.EvmTx.Value()) < 0 {
							break
						}
						if get(u, chainenv.QKC).Cmp(need) < 0 {
							break
						}
						get(u, chainenv.QKC).Sub(get(u, chainenv.QKC), need)
						if tx.EvmTx.TransferTokenID() != chainenv.QKC {
							get(u, hist.TokA).Sub(get(u, hist.TokA), tx.EvmTx.Value())
						}
						if tx.EvmTx.Gas() > 60000 {
							break
						}
						mine[tx.Hash()] = submission{tx: tx, user: u}
						x.txs = append(x.txs, tx)
						block.AddTx(chainenv.CopyTx(tx))
						n++
					}
				}
				mn, mk := st.GetNonce(chainenv.Addrs[marker]), chainenv.Key(id, uint32(len(blocks)))
				mt := chainenv.Tx(chainenv.TxOpt{From: marker, Nonce: mn, Gas: 53000, FromKey: chainenv.Key(id, 0), ToKey: mk})
				x.mark = vm.CreateAddress(chainenv.Addrs[marker], &mk, mn)
				x.txs = append(x.txs, mt)
				mine[mt.Hash()] = submission{tx: mt, user: marker}
				block.AddTx(chainenv.CopyTx(mt))
				fin, _, err := pc.FinalizeAndAddBlock(block)
				if err != nil {
					rt.Fatalf("%s: producer: %v", trace, err)
				}
				x.b = fin
				blocks = append(blocks, x)
				byHash[fin.Hash()] = x
				trace += fmt.Sprintf("b%d(%d)%dtx ", len(blocks)-1, x.num, len(x.txs))
				if pick(rt, "now", 0, 1, 1) == 1 {
					deliver(x)
				}
			case 3: // a root block, perhaps on another branch
				par := roots[len(roots)-1]
				if pick(rt, "fork", 0, 1) == 1 {
					par = rapid.SampledFrom(roots).Draw(rt, "root parent")
				}
				tip := conf[par.Hash()]
				var list []*blk
				for n := pick(rt, "confirm", 0, 1, 1, 2, 3); n > 0 || (tip == nil && len(list) == 0); n-- {
					var kids []*blk
					for _, b := range blocks {
						if b.parent == tip {
							okref := false
							for y := par; y != nil; y = rootParent[y.Hash()] {
								okref = okref || y.Hash() == b.ref.Hash()
							}
							if okref {
								kids = append(kids, b)
							}
						}
					}
					if len(kids) == 0 {
						break
					}
					tip = rapid.SampledFrom(kids).Draw(rt, "kid")
					list = append(list, tip)
				}
				cb := account.NewAddress(cb0, chainenv.Key(id, 0))
				tm := par.Time() + 1
				rb := par.Header().CreateBlockToAppend(&tm, big.NewInt(int64(pick(rt, "diff", 1, 2, 5))), &cb, nil, []byte{byte(len(roots))})
				if par == r0 { // the other shard's first block
					rb.AddMinorBlockHeader(P.Gen[P.IDs[1]].Header())
				}
				for _, b := range list {
					rb.AddMinorBlockHeader(b.b.Header())
				}
				rb.Finalize(types.NewTokenBalancesWithMap(map[uint64]*big.Int{chainenv.QKC: big.NewInt(1000)}), &cb, common.Hash{})
				if _, err := pc.AddRootBlock(rb); err != nil {
					rt.Fatalf("%s: producer: root block: %v", trace, err)
				}
				for _, b := range list {
					deliver(b)
				}
				roots = append(roots, rb)
				conf[rb.Hash()] = tip
				rootParent[rb.Hash()] = par
				old := cur()
				trace += fmt.Sprintf("R%d(%d) ", rb.NumberU64(), len(list))
				if _, err := sc.AddRootBlock(rb); err != nil {
					rt.Fatalf("%s: root block: %v", trace, err)
				}
				if cur() != old && !cur().on(old) {
					c.Label("head moved by a root block")
				}
				follow(old)
			}
		}
		if returned && unpayable {
			c.NonTrivial("%s", trace)
			c.Sample("%s; left in the pool: %v", trace, m)
		}
	})
}

type key struct {
	u   int
	tok uint64
}
