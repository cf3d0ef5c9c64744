package chainenv

import (
	"fmt"
	"math/big"

	"github.com/QuarkChain/goquarkchain/core/state"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/trie"
)

// EmptyCode and EmptyStore are the code hash and storage root of plain accounts.
var (
	EmptyCode  = common.HexToHash("c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470")
	EmptyStore = common.HexToHash("56e81f171bcc55a6ff8345e692c0f86e5b48e01b996cadc001622fb5e363b421")
)

// Acct is everything an account holds.
type Acct struct {
	Bal   map[uint64]*big.Int
	Nonce uint64
	Code  common.Hash
	Store common.Hash
}

func (v Acct) String() string {
	return fmt.Sprintf("{%v n%d c%x s%x}", v.Bal, v.Nonce, v.Code[:4], v.Store[:4])
}

// View is a whole state.
type View map[common.Address]Acct

// Dump reads the whole state as it would be committed now.
func Dump(st *state.StateDB) View {
	cp := st.Copy()
	root, err := cp.Commit(true)
	if err != nil {
		panic(fmt.Sprintf("commit of a copy: %v", err))
	}
	v, err := DumpRoot(st.Database(), root)
	if err != nil {
		panic(err)
	}
	return v
}

// DumpRoot reads the whole state under a root.
func DumpRoot(db state.Database, root common.Hash) (View, error) {
	tr, err := db.OpenTrie(root)
	if err != nil {
		return nil, err
	}
	s2, err := state.New(root, db)
	if err != nil {
		return nil, err
	}
	out := View{}
	it := trie.NewIterator(tr.NodeIterator(nil))
	for it.Next() {
		k := tr.GetKey(it.Key)
		if k == nil {
			return nil, fmt.Errorf("no preimage for account key %x", it.Key)
		}
		a := common.BytesToAddress(k)
		v := Acct{Bal: map[uint64]*big.Int{}, Nonce: s2.GetNonce(a), Code: s2.GetCodeHash(a)}
		for k, b := range s2.GetBalances(a).GetBalanceMap() {
			if b.Sign() != 0 {
				v.Bal[k] = b
			}
		}
		if t := s2.StorageTrie(a); t != nil {
			v.Store = t.Hash()
		}
		out[a] = v
	}
	if it.Err != nil {
		return nil, it.Err
	}
	return out, nil
}

// Get reads a balance.
func (d View) Get(a common.Address, tok uint64) *big.Int {
	if b := d[a].Bal[tok]; b != nil {
		return b
	}
	return new(big.Int)
}

// Supply sums every token.
func (d View) Supply() map[uint64]*big.Int {
	s := map[uint64]*big.Int{}
	for _, v := range d {
		for k, b := range v.Bal {
			if s[k] == nil {
				s[k] = new(big.Int)
			}
			s[k].Add(s[k], b)
		}
	}
	return s
}

// EqBal compares balances, treating absent and zero alike.
func EqBal(a, b map[uint64]*big.Int) bool {
	for k, v := range a {
		w := b[k]
		if w == nil {
			w = new(big.Int)
		}
		if v.Cmp(w) != 0 {
			return false
		}
	}
	for k, v := range b {
		if a[k] == nil && v.Sign() != 0 {
			return false
		}
	}
	return true
}

// Diff describes the first difference between expected d and got ("" if none).
func (d View) Diff(got View) string {
	for k, v := range d {
		w, ok := got[k]
		if !ok {
			return fmt.Sprintf("%x %v is missing", k, v)
		}
		if v.Nonce != w.Nonce || v.Code != w.Code || v.Store != w.Store || !EqBal(v.Bal, w.Bal) {
			return fmt.Sprintf("%x is %v, expected %v", k, w, v)
		}
	}
	for k, w := range got {
		if _, ok := d[k]; !ok {
			return fmt.Sprintf("%x %v should not be there", k, w)
		}
	}
	return ""
}

// Clone copies deeply.
func (d View) Clone() View {
	o := View{}
	for a, v := range d {
		w := v
		w.Bal = map[uint64]*big.Int{}
		for k, b := range v.Bal {
			w.Bal[k] = new(big.Int).Set(b)
		}
		o[a] = w
	}
	return o
}

// Add changes one balance in the view.
func (d View) Add(a common.Address, tok uint64, x *big.Int) {
	v, ok := d[a]
	if !ok {
		if x.Sign() == 0 {
			return
		}
		v = Acct{Code: EmptyCode, Store: EmptyStore}
	}
	if v.Bal == nil {
		v.Bal = map[uint64]*big.Int{}
	}
	if v.Bal[tok] == nil {
		v.Bal[tok] = new(big.Int)
	}
	v.Bal[tok] = new(big.Int).Add(v.Bal[tok], x)
	if v.Bal[tok].Sign() == 0 {
		delete(v.Bal, tok)
	}
	d[a] = v
	if len(v.Bal) == 0 && v.Nonce == 0 && v.Code == EmptyCode {
		delete(d, a)
	}
}
