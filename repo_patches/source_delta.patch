From bff0afc0dd3b8f18814412f6219f7118e7e32c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:36 +0000
Subject: [PATCH 01/98] fix: refuse to serialize integers wider than their
 length prefix

serializeBigInt wrote the length of a big.Int modulo 256, so that a value of
256 bytes or more was encoded as something else.
---
 serialize/serializer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/serialize/serializer.go b/serialize/serializer.go
index 76299c7..042aea4 100644
--- a/serialize/serializer.go
+++ b/serialize/serializer.go
@@ -111,6 +111,10 @@ func serializeBigInt(i *big.Int, w *[]byte) error {
 	} else if cmp > 0 {
 		bytes = i.Bytes()
 	}
+	// the length prefix is a single byte
+	if len(bytes) > 255 {
+		return fmt.Errorf("ser: cannot serialize *big.Int of %d bytes", len(bytes))
+	}
 
 	*w = append(*w, uint8(len(bytes)))
 	*w = append(*w, bytes...)
-- 
2.43.0


From a77a7b98c679e76404fdfdaf3c2236dae2f59673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:40 +0000
Subject: [PATCH 02/98] fix: refuse EIP155 signatures whose V is below its base

For version 2 transactions V minus the chain id base could be negative, and
its absolute value was then taken as the recovery id, so that a second V
recovered the same sender.
---
 core/types/transaction_signing.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/types/transaction_signing.go b/core/types/transaction_signing.go
index db7266d..870ce12 100644
--- a/core/types/transaction_signing.go
+++ b/core/types/transaction_signing.go
@@ -140,7 +140,7 @@ func (s EIP155Signer) Hash(tx *EvmTransaction) common.Hash {
 }
 
 func recoverPlain(sighash common.Hash, R, S, Vb *big.Int, homestead bool) (account.Recipient, error) {
-	if Vb.BitLen() > 8 {
+	if Vb.Sign() < 0 || Vb.BitLen() > 8 {
 		return account.Recipient{}, ErrInvalidSig
 	}
 	// QuarkChain use NetworkId to store the chain Id instead of added to V,
-- 
2.43.0


From dbfa9ad123625ee9831f33a9a9658d7e829ea799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:21 +0000
Subject: [PATCH 03/98] fix: keep the token tries of committed accounts when a
 state is written to disk

---
 core/state/statedb.go | 3 +++
 core/types/token.go   | 9 +++++++++
 2 files changed, 12 insertions(+)

diff --git a/core/state/statedb.go b/core/state/statedb.go
index 9215734..f3e16c4 100644
--- a/core/state/statedb.go
+++ b/core/state/statedb.go
@@ -727,6 +727,9 @@ func (s *StateDB) Commit(deleteEmptyObjects bool) (root common.Hash, err error)
 		if account.Root != emptyState {
 			s.db.TrieDB().Reference(account.Root, parent)
 		}
+		if root := account.TokenBalances.TrieRoot(); root != (common.Hash{}) {
+			s.db.TrieDB().Reference(root, parent)
+		}
 		code := common.BytesToHash(account.CodeHash)
 		if code != emptyCode {
 			s.db.TrieDB().Reference(code, parent)
diff --git a/core/types/token.go b/core/types/token.go
index 7d98ce9..9cdfdd0 100644
--- a/core/types/token.go
+++ b/core/types/token.go
@@ -205,6 +205,15 @@ func (t *TokenBalances) nonZeroEntriesInBalancesCache() int {
 	return sum
 }
 
+// TrieRoot returns the root of the token trie, or the empty hash if the balances
+// are not kept in a trie.
+func (t *TokenBalances) TrieRoot() common.Hash {
+	if t.tokenTrie == nil {
+		return common.Hash{}
+	}
+	return t.tokenTrie.Hash()
+}
+
 func (t *TokenBalances) IsBlank() bool {
 	return t.tokenTrie == nil && t.nonZeroEntriesInBalancesCache() == 0
 }
-- 
2.43.0


From e1e93c316063607b1ad363de1d8e12f44f6ceb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:05 +0000
Subject: [PATCH 04/98] fix: keep the token trie of an account when balance
 changes are reverted or the account is recreated

---
 core/state/journal.go      |  5 +++--
 core/state/state_object.go |  2 +-
 core/state/statedb.go      |  4 ++--
 core/types/token.go        | 10 ++++++++++
 4 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/core/state/journal.go b/core/state/journal.go
index ba3461a..c9ea3ae 100644
--- a/core/state/journal.go
+++ b/core/state/journal.go
@@ -19,6 +19,7 @@ package state
 import (
 	"math/big"
 
+	"github.com/QuarkChain/goquarkchain/core/types"
 	"github.com/ethereum/go-ethereum/common"
 )
 
@@ -95,7 +96,7 @@ type (
 	suicideChange struct {
 		account     *common.Address
 		prev        bool // whether account had already suicided
-		prevbalance map[uint64]*big.Int
+		prevbalance *types.TokenBalances
 	}
 
 	// Changes to individual accounts.
@@ -154,7 +155,7 @@ func (ch suicideChange) revert(s *StateDB) {
 	obj := s.getStateObject(*ch.account)
 	if obj != nil {
 		obj.suicided = ch.prev
-		obj.setBalances(ch.prevbalance)
+		obj.data.TokenBalances = ch.prevbalance
 	}
 }
 
diff --git a/core/state/state_object.go b/core/state/state_object.go
index c58f99c..60f7333 100644
--- a/core/state/state_object.go
+++ b/core/state/state_object.go
@@ -339,7 +339,7 @@ func (self *stateObject) setTokenBalance(amount *big.Int, tokenID uint64) {
 }
 
 func (self *stateObject) setBalances(balances map[uint64]*big.Int) {
-	self.data.TokenBalances = types.NewTokenBalancesWithMap(balances)
+	self.data.TokenBalances = self.data.TokenBalances.WithBalances(balances)
 }
 
 // Return the gas back to the origin. Used by the Virtual machine or Closures
diff --git a/core/state/statedb.go b/core/state/statedb.go
index f3e16c4..61c9294 100644
--- a/core/state/statedb.go
+++ b/core/state/statedb.go
@@ -403,7 +403,7 @@ func (s *StateDB) Suicide(addr common.Address) bool {
 	s.journal.append(suicideChange{
 		account:     &addr,
 		prev:        stateObject.suicided,
-		prevbalance: stateObject.data.TokenBalances.GetBalanceMap(),
+		prevbalance: stateObject.data.TokenBalances,
 	})
 	stateObject.markSuicided()
 	stateObject.data.TokenBalances, _ = types.NewTokenBalances([]byte{}, s.db.TrieDB())
@@ -532,7 +532,7 @@ func (s *StateDB) createObject(addr common.Address) (newobj, prev *stateObject)
 func (s *StateDB) CreateAccount(addr common.Address) {
 	new, prev := s.createObject(addr)
 	if prev != nil {
-		new.setBalances(prev.data.TokenBalances.GetBalanceMap())
+		new.data.TokenBalances = prev.data.TokenBalances.CopyWithDB()
 	}
 }
 
diff --git a/core/types/token.go b/core/types/token.go
index 9cdfdd0..7f33bc2 100644
--- a/core/types/token.go
+++ b/core/types/token.go
@@ -225,6 +225,16 @@ func (t *TokenBalances) CopyWithDB() *TokenBalances {
 	return data
 }
 
+// WithBalances returns the same balances, backed by the same token trie, with
+// the cached entries replaced.
+func (t *TokenBalances) WithBalances(balances map[uint64]*big.Int) *TokenBalances {
+	return &TokenBalances{
+		db:        t.db,
+		tokenTrie: t.tokenTrie,
+		balances:  balances,
+	}
+}
+
 func (t *TokenBalances) Copy() *TokenBalances {
 	balancesCopy := make(map[uint64]*big.Int)
 	for k, v := range t.balances {
-- 
2.43.0


From 32c91815b2320ed14e3826344f46a91bb17f8f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:05 +0000
Subject: [PATCH 05/98] fix: give copies of an account their own token trie

---
 core/types/token.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/types/token.go b/core/types/token.go
index 7f33bc2..ee5da4c 100644
--- a/core/types/token.go
+++ b/core/types/token.go
@@ -221,7 +221,9 @@ func (t *TokenBalances) IsBlank() bool {
 func (t *TokenBalances) CopyWithDB() *TokenBalances {
 	data := t.Copy()
 	data.db = t.db
-	data.tokenTrie = t.tokenTrie
+	if t.tokenTrie != nil {
+		data.tokenTrie = t.tokenTrie.Copy()
+	}
 	return data
 }
 
-- 
2.43.0


From b3d96eed7b1c510882dad2ec00bf2fb0894e4615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:42 +0000
Subject: [PATCH 06/98] fix: report all token balances of an account whose
 balances are kept in a trie

---
 core/state/statedb.go |  2 +-
 core/types/token.go   | 21 +++++++++++++++++++++
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/core/state/statedb.go b/core/state/statedb.go
index 61c9294..4c2e3f4 100644
--- a/core/state/statedb.go
+++ b/core/state/statedb.go
@@ -237,7 +237,7 @@ func (s *StateDB) GetBalance(addr common.Address, tokenID uint64) *big.Int {
 func (s *StateDB) GetBalances(addr common.Address) *types.TokenBalances {
 	stateObject := s.GetOrNewStateObject(addr)
 	if stateObject != nil {
-		return stateObject.data.TokenBalances.Copy()
+		return stateObject.data.TokenBalances.CopyAll()
 	}
 	return types.NewEmptyTokenBalances()
 }
diff --git a/core/types/token.go b/core/types/token.go
index ee5da4c..3a0616f 100644
--- a/core/types/token.go
+++ b/core/types/token.go
@@ -247,6 +247,27 @@ func (t *TokenBalances) Copy() *TokenBalances {
 	}
 }
 
+// CopyAll is like Copy, but includes the balances that are only in the token trie.
+func (t *TokenBalances) CopyAll() *TokenBalances {
+	data := t.Copy()
+	if t.tokenTrie == nil {
+		return data
+	}
+	it := trie.NewIterator(t.tokenTrie.NodeIterator(nil))
+	for it.Next() {
+		tokenID := new(big.Int).SetBytes(t.tokenTrie.GetKey(it.Key)).Uint64()
+		if _, ok := data.balances[tokenID]; ok {
+			continue
+		}
+		balance := new(big.Int)
+		if err := rlp.DecodeBytes(it.Value, balance); err != nil {
+			panic(err)
+		}
+		data.balances[tokenID] = balance
+	}
+	return data
+}
+
 func (t *TokenBalances) notUsingTrie() bool {
 	return t.tokenTrie == nil && t.nonZeroEntriesInBalancesCache() <= TokenTrieThreshold
 }
-- 
2.43.0


From 1f42a92510f6ab8236edceeaff532e19ef00dd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:30 +0000
Subject: [PATCH 07/98] fix: leave no trace of a transaction that cannot be
 applied

ApplyTransaction kept the gas token conversion (and whatever the general native
token contract did) when the transaction was then refused, so a block builder
that skips the transaction went on with a changed state.
---
 core/state_processor.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/state_processor.go b/core/state_processor.go
index 15d4cb7..bac208c 100755
--- a/core/state_processor.go
+++ b/core/state_processor.go
@@ -196,9 +196,12 @@ func ApplyTransaction(config *params.ChainConfig, bc ChainContext, gp *GasPool,
 
 	var err error
 
+	// a transaction that cannot be applied must not leave anything behind
+	snapshot := statedb.Snapshot()
 	if tx.EvmTx.GasTokenID() != statedbGensisToken {
 		refundRate, convertedGenesisTokenGasPrice, err = PayNativeTokenAsGas(statedb, config, tx.EvmTx.GasTokenID(), tx.EvmTx.Gas(), tx.EvmTx.GasPrice())
 		if convertedGenesisTokenGasPrice == nil || convertedGenesisTokenGasPrice.Cmp(common.Big0) <= 0 {
+			statedb.RevertToSnapshot(snapshot)
 			return nil, nil, 0, fmt.Errorf("convertedGenesisTokenGasPeice %v shoud >0", convertedGenesisTokenGasPrice)
 		}
 		gasPrice = convertedGenesisTokenGasPrice
@@ -208,6 +211,7 @@ func ApplyTransaction(config *params.ChainConfig, bc ChainContext, gp *GasPool,
 		txGasLimit := new(big.Int).SetUint64(tx.EvmTx.Gas())
 		txGasBal := new(big.Int).Mul(txGasLimit, convertedGenesisTokenGasPrice)
 		if contractBal.Cmp(txGasBal) < 0 {
+			statedb.RevertToSnapshot(snapshot)
 			return nil, nil, 0, fmt.Errorf("contract balance:%v < tx gas balance:%v", contractBal, txGasBal)
 		}
 
@@ -217,6 +221,7 @@ func ApplyTransaction(config *params.ChainConfig, bc ChainContext, gp *GasPool,
 	statedb.SetFullShardKey(tx.EvmTx.ToFullShardKey())
 	msg, err := tx.EvmTx.AsMessage(types.MakeSigner(tx.EvmTx.NetworkId()), tx.Hash(), gasPrice, tx.EvmTx.GasTokenID(), refundRate)
 	if err != nil {
+		statedb.RevertToSnapshot(snapshot)
 		return nil, nil, 0, err
 	}
 	context := NewEVMContext(msg, header, bc, tx.EvmTx.GasPrice())
@@ -224,6 +229,7 @@ func ApplyTransaction(config *params.ChainConfig, bc ChainContext, gp *GasPool,
 
 	ret, gas, failed, err := ApplyMessage(vmenv, msg, gp)
 	if err != nil {
+		statedb.RevertToSnapshot(snapshot)
 		return nil, nil, 0, err
 	}
 
-- 
2.43.0


From fb021d22ba60d19847ca25dd926a7e40bb9b7b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:58 +0000
Subject: [PATCH 08/98] fix: report the gas a cross-shard transaction used, not
 the block's running total

The receipt's gasUsed of an outgoing cross-shard transaction was the cumulative
gas of the block so far.
---
 core/state_transition.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/state_transition.go b/core/state_transition.go
index d8a7aa2..ab55338 100644
--- a/core/state_transition.go
+++ b/core/state_transition.go
@@ -414,8 +414,9 @@ func (st *StateTransition) AddCrossShardTxDeposit(intrinsicGas uint64) (ret []by
 		//reserve part of the gas for the target shard miner for fee
 		localGasUsed -= qkcParam.GtxxShardCost.Uint64()
 	}
+	gasUsedBefore := new(big.Int).Set(state.GetGasUsed())
 	st.chargeFee(localGasUsed)
-	return nil, state.GetGasUsed().Uint64(), failed, nil
+	return nil, new(big.Int).Sub(state.GetGasUsed(), gasUsedBefore).Uint64(), failed, nil
 }
 
 func (st *StateTransition) chargeFee(gasUsed uint64) {
-- 
2.43.0


From f1baa9bf042dc6665d600b53639f7c603e3070b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:34 +0000
Subject: [PATCH 09/98] fix: check native token ids and system contract indexes
 at full width

A token id of 2^64 or more was cut to 64 bits by the mint and balance
precompiles, and an index of 2^63 or more made the deploy precompile panic,
so any transaction could stop the node.
---
 core/vm/contracts.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/core/vm/contracts.go b/core/vm/contracts.go
index cb8d8b7..452171f 100644
--- a/core/vm/contracts.go
+++ b/core/vm/contracts.go
@@ -638,15 +638,15 @@ func (r *deploySystemContract) RequiredGas(input []byte) uint64 {
 
 func (r *deploySystemContract) Run(input []byte, evm *EVM, contract *Contract) ([]byte, error) {
 	data := getData(input, 0, 32)
-	index := new(big.Int).SetBytes(data).Uint64()
-	contractIndex := 1
-	if index > 0 {
-		contractIndex = int(index)
-	}
-	if int(contractIndex) >= len(SystemContracts) {
+	index := new(big.Int).SetBytes(data)
+	if index.Cmp(big.NewInt(int64(len(SystemContracts)))) >= 0 {
 		contract.Gas = 0
 		return nil, ErrInvalidSystemContractIndex
 	}
+	contractIndex := 1
+	if index.Sign() > 0 {
+		contractIndex = int(index.Int64())
+	}
 
 	if SystemContractScopeMap[contractIndex] != ContractScopeGlobal {
 		if SystemContractScopeMap[contractIndex] != ContractScopeLocalChain0 {
@@ -705,7 +705,7 @@ func (m *mintMNT) Run(input []byte, evm *EVM, contract *Contract) ([]byte, error
 	}
 
 	// Token ID should be within range
-	if mnt.Uint64() > qCommon.TOKENIDMAX {
+	if mnt.Cmp(new(big.Int).SetUint64(qCommon.TOKENIDMAX)) > 0 {
 		return nil, fmt.Errorf("tokenid %v > TOKENIDMAX %v", mnt, qCommon.TOKENIDMAX)
 	}
 
@@ -755,7 +755,7 @@ func (m *balanceMNT) Run(input []byte, evm *EVM, contract *Contract) ([]byte, er
 	mntBytes := getData(input, 32, 32)
 	mnt := new(big.Int).SetBytes(mntBytes)
 	// Token ID should be within range
-	if mnt.Uint64() > qCommon.TOKENIDMAX {
+	if mnt.Cmp(new(big.Int).SetUint64(qCommon.TOKENIDMAX)) > 0 {
 		return nil, fmt.Errorf("tokenid %v > TOKENIDMAX %v", mnt, qCommon.TOKENIDMAX)
 	}
 
-- 
2.43.0


From ed6ae906ed3cfaf7c589c216d9c7103dd48ffc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:21 +0000
Subject: [PATCH 10/98] fix: refuse state-changing precompiles anywhere below a
 static call

Only a direct static call of transferMnt was refused; a contract called
statically could move, mint or deploy through an ordinary call of the
precompile.
---
 core/vm/contracts.go | 8 ++++++++
 core/vm/evm.go       | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/core/vm/contracts.go b/core/vm/contracts.go
index 452171f..520177f 100644
--- a/core/vm/contracts.go
+++ b/core/vm/contracts.go
@@ -637,6 +637,10 @@ func (r *deploySystemContract) RequiredGas(input []byte) uint64 {
 }
 
 func (r *deploySystemContract) Run(input []byte, evm *EVM, contract *Contract) ([]byte, error) {
+	if contract.IsStaticCall {
+		contract.Gas = 0
+		return nil, errWriteProtection
+	}
 	data := getData(input, 0, 32)
 	index := new(big.Int).SetBytes(data)
 	if index.Cmp(big.NewInt(int64(len(SystemContracts)))) >= 0 {
@@ -693,6 +697,10 @@ func (m *mintMNT) RequiredGas(input []byte) uint64 {
 
 //# 3 inputs: (minter, token ID, amount)
 func (m *mintMNT) Run(input []byte, evm *EVM, contract *Contract) ([]byte, error) {
+	if contract.IsStaticCall {
+		contract.Gas = 0
+		return nil, errWriteProtection
+	}
 	minterBytes := getData(input, 0, 32)
 	minter := common.BytesToAddress(minterBytes)
 	mntBytes := getData(input, 32, 32)
diff --git a/core/vm/evm.go b/core/vm/evm.go
index 0368d70..fa4fba3 100644
--- a/core/vm/evm.go
+++ b/core/vm/evm.go
@@ -50,6 +50,10 @@ func run(evm *EVM, contract *Contract, input []byte, readOnly bool) ([]byte, err
 		precompiles := PrecompiledContractsByzantium
 
 		if p := precompiles[*contract.CodeAddr]; p != nil && evm.StateDB.GetTimeStamp() > p.GetEnableTime() {
+			// a static call further up forbids state changes here as well
+			if in, ok := evm.interpreter.(*EVMInterpreter); ok && in.readOnly {
+				contract.SetIsStaticCall(true)
+			}
 			return RunPrecompiledContract(p, input, contract, evm)
 		}
 	}
-- 
2.43.0


From ca3b6e8d5e62897fb09a79f4b268a55127c34430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:57 +0000
Subject: [PATCH 11/98] fix: let only the token contract itself mint, not code
 it called

Under DELEGATECALL the caller address is that of the outer call, so any
contract called by the token contract could mint by delegating to the mint
precompile.
---
 core/vm/contracts.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/vm/contracts.go b/core/vm/contracts.go
index 520177f..dd72623 100644
--- a/core/vm/contracts.go
+++ b/core/vm/contracts.go
@@ -733,7 +733,7 @@ func (m *mintMNT) Run(input []byte, evm *EVM, contract *Contract) ([]byte, error
 	}
 	allowedSender := SystemContracts[NON_RESERVED_NATIVE_TOKEN].Address()
 	//  # Only system contract has access to minting new token
-	if !bytes.Equal(allowedSender.Bytes(), contract.CallerAddress.Bytes()) {
+	if !bytes.Equal(allowedSender.Bytes(), contract.caller.Address().Bytes()) {
 		contract.Gas = 0
 		return nil, core.ErrInvalidSender
 	}
-- 
2.43.0


From fd9b5834bcec415847ae0d111e7cee27ae4f4fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:45 +0000
Subject: [PATCH 12/98] fix: apply the cross-shard gas reserve to the
 transactions of a received block

---
 core/state_processor.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/core/state_processor.go b/core/state_processor.go
index bac208c..73acbc4 100755
--- a/core/state_processor.go
+++ b/core/state_processor.go
@@ -63,7 +63,6 @@ func NewStateProcessor(config *params.ChainConfig, bc *MinorBlockChain, engine c
 func (p *StateProcessor) Process(block *types.MinorBlock, statedb *state.StateDB, cfg vm.Config) (types.Receipts, []*types.Log, uint64, error) {
 	statedb.SetQuarkChainConfig(p.bc.clusterConfig.Quarkchain)
 	statedb.SetBlockCoinbase(block.Coinbase().Recipient)
-	statedb.SetGasLimit(block.GasLimit())
 	var (
 		receipts types.Receipts
 		usedGas  = new(uint64)
-- 
2.43.0


From 3d3302de0e7e354d4bf67034f7c094a3ca6225f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:45 +0000
Subject: [PATCH 13/98] fix: treat a zero coinbase amount and an absent one
 alike in encoding and validation

---
 core/minorblock_validator.go | 19 ++++++++++++-------
 core/types/token.go          |  6 +++++-
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/core/minorblock_validator.go b/core/minorblock_validator.go
index b91d3d3..5b63a87 100644
--- a/core/minorblock_validator.go
+++ b/core/minorblock_validator.go
@@ -252,19 +252,24 @@ func compareXshardTxCursor(a, b *types.XShardTxCursorInfo) bool {
 }
 
 func compareCoinbaseAmountMap(a, b map[uint64]*big.Int) bool {
-	if len(a) != len(b) {
-		return false
+	// a token with a zero amount is the same as a token that is not there
+	nonZero := 0
+	for _, v := range b {
+		if v.Sign() != 0 {
+			nonZero++
+		}
 	}
 	for k, v := range a {
-		data, ok := b[k]
-		if !ok {
-			return false
+		if v.Sign() == 0 {
+			continue
 		}
-		if data.Cmp(v) != 0 {
+		data, ok := b[k]
+		if !ok || data.Cmp(v) != 0 {
 			return false
 		}
+		nonZero--
 	}
-	return true
+	return nonZero == 0
 }
 
 // ValidateState validates the various changes that happen after a state
diff --git a/core/types/token.go b/core/types/token.go
index 3a0616f..8c8060d 100644
--- a/core/types/token.go
+++ b/core/types/token.go
@@ -356,7 +356,11 @@ func (t *TokenBalances) DecodeRLP(s *rlp.Stream) error {
 func (t *TokenBalances) Serialize(w *[]byte) error {
 	keys := make([]uint64, 0, t.Len())
 	num := uint32(0)
-	for k := range t.balances {
+	for k, v := range t.balances {
+		// Deserialize does not keep zero balances, so that they must not be encoded (and hashed) either
+		if v.Sign() == 0 {
+			continue
+		}
 		keys = append(keys, k)
 		num++
 	}
-- 
2.43.0


From 5c614c2761401eee27d7e260f7814f206b5beeb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:34 +0000
Subject: [PATCH 14/98] fix: a shorter canonical chain leaves no canonical
 hashes above its head

Adding a heavier root block can move a shard's head to a lower block.
The heights above it kept their old canonical hashes, so lookups by
height returned abandoned blocks, and a later root block confirming an
abandoned block was taken for already canonical, leaving the head off
the confirmed chain.
---
 core/minorblockchain.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/minorblockchain.go b/core/minorblockchain.go
index 8e1e66f..38759da 100644
--- a/core/minorblockchain.go
+++ b/core/minorblockchain.go
@@ -1431,6 +1431,10 @@ func (m *MinorBlockChain) reorg(oldBlock, newBlock types.IBlock) error {
 		if err := m.removeTxIndexFromBlock(batch, oldChain[i].(*types.MinorBlock)); err != nil {
 			return err
 		}
+		// the new chain may be shorter: heights above its head have no canonical block
+		if number := oldChain[i].NumberU64(); number > newBlockNumber {
+			rawdb.DeleteCanonicalHash(batch, rawdb.ChainTypeMinor, number)
+		}
 	}
 
 	batch.Write()
-- 
2.43.0


From 72a7fc088c670f4fcab607eed2de8899e4d8cb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:46 +0000
Subject: [PATCH 15/98] fix: store a block's receipts before announcing its
 logs on a reorganisation

reorg reads the receipts of every block of the new chain to announce
their logs. The new head's receipts were still in an unwritten batch, so
an empty result was cached and served for that block from then on.
---
 core/minorblockchain.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/minorblockchain.go b/core/minorblockchain.go
index 38759da..3209820 100644
--- a/core/minorblockchain.go
+++ b/core/minorblockchain.go
@@ -959,9 +959,10 @@ func (m *MinorBlockChain) WriteBlockWithState(block *types.MinorBlock, receipts
 		}
 	}
 
+	// the receipts must be there before reorg, which reads (and caches) them to announce logs
+	rawdb.WriteReceipts(m.db, block.Hash(), receipts)
 	// Write other block data using a batch.
 	batch := m.db.NewBatch()
-	rawdb.WriteReceipts(batch, block.Hash(), receipts)
 
 	if updateTip {
 		// Reorganise the chain if the parent is not the head block
-- 
2.43.0


From 6098257f3bc9df9fdd8b8e301e5550e62701ab7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:51 +0000
Subject: [PATCH 16/98] fix: a higher block is not an ancestor of a lower one,
 instead of ending the process

A root chain with more total difficulty can be the shorter one, and a
minor block can name a root block that confirms blocks above its own
parent. Both made isSameChain call log.Crit, which exits the node.
---
 core/common.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/core/common.go b/core/common.go
index 00cf3c4..0c5ab65 100644
--- a/core/common.go
+++ b/core/common.go
@@ -1,8 +1,6 @@
 package core
 
 import (
-	"runtime/debug"
-
 	"github.com/QuarkChain/goquarkchain/core/types"
 	"github.com/ethereum/go-ethereum/common"
 	"github.com/ethereum/go-ethereum/log"
@@ -14,8 +12,8 @@ var (
 
 func isSameChain(getParentHash func(common.Hash) common.Hash, longerChainHeader, shorterChainHeader types.IBlock) bool {
 	if longerChainHeader.NumberU64() < shorterChainHeader.NumberU64() {
-		debug.PrintStack()
-		log.Crit("wrong parameter order", "long.Number", longerChainHeader.NumberU64(), "long.Hash", longerChainHeader.Hash().String(), "short.Number", shorterChainHeader.NumberU64(), "short.hash", shorterChainHeader.Hash().String())
+		// not an ancestor: the heavier chain may be the shorter one
+		return false
 	}
 	if shorterChainHeader.NumberU64() == longerChainHeader.NumberU64() {
 		return shorterChainHeader.Hash() == longerChainHeader.Hash()
-- 
2.43.0


From 28d48c5c9af7911d1df2eef2a3641bb06445c84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:04 +0000
Subject: [PATCH 17/98] fix: a root chain reorganisation drops the lookup
 entries of every abandoned block

Only the blocks above the new head's height were considered, so minor
blocks confirmed by an abandoned block at or below it stayed in the index.
---
 core/rootblockchain.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/rootblockchain.go b/core/rootblockchain.go
index 0492f8c..3bbca1c 100644
--- a/core/rootblockchain.go
+++ b/core/rootblockchain.go
@@ -832,6 +832,7 @@ func (bc *RootBlockChain) reorg(oldBlock, newBlock types.IBlock) error {
 
 		oldChain = append(oldChain, oldBlock)
 		newChain = append(newChain, newBlock)
+		deletedHeaders = append(deletedHeaders, oldBlock.(*types.RootBlock).MinorBlockHeaders()...)
 
 		oldBlock, newBlock = bc.GetBlock(oldBlock.ParentHash()), bc.GetBlock(newBlock.ParentHash())
 		if oldBlock == nil {
-- 
2.43.0


From 21a12696b86b04a39aeaa864599757750abe27e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:44 +0000
Subject: [PATCH 18/98] fix: clear the canonical hashes above a lower head
 where the head is moved

The reorganisation itself only rewrites the index it is asked to; its two
callers now drop what the longer abandoned chain left above the new head.
---
 core/minorblockchain.go       | 13 +++++++++----
 core/minorblockchain_addon.go |  6 +++++-
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/core/minorblockchain.go b/core/minorblockchain.go
index 3209820..6202657 100644
--- a/core/minorblockchain.go
+++ b/core/minorblockchain.go
@@ -970,6 +970,7 @@ func (m *MinorBlockChain) WriteBlockWithState(block *types.MinorBlock, receipts
 			if err := m.reorg(currentBlock, block); err != nil {
 				return NonStatTy, err
 			}
+			m.deleteCanonicalHashesAbove(block.NumberU64())
 		}
 		// Write the positional metadata for transaction/receipt lookups and preimages
 		if err := m.putTxIndexFromBlock(batch, block); err != nil {
@@ -995,6 +996,14 @@ func (m *MinorBlockChain) WriteBlockWithState(block *types.MinorBlock, receipts
 	return status, nil
 }
 
+// deleteCanonicalHashesAbove forgets the canonical hashes a longer abandoned
+// chain left above the given height.
+func (m *MinorBlockChain) deleteCanonicalHashesAbove(height uint64) {
+	for n := height + 1; rawdb.ReadCanonicalHash(m.db, rawdb.ChainTypeMinor, n) != (common.Hash{}); n++ {
+		rawdb.DeleteCanonicalHash(m.db, rawdb.ChainTypeMinor, n)
+	}
+}
+
 // addFutureBlock checks if the block is within the max allowed window to get
 // accepted for future processing, and returns an error if the block is too far
 // ahead and was not added.
@@ -1432,10 +1441,6 @@ func (m *MinorBlockChain) reorg(oldBlock, newBlock types.IBlock) error {
 		if err := m.removeTxIndexFromBlock(batch, oldChain[i].(*types.MinorBlock)); err != nil {
 			return err
 		}
-		// the new chain may be shorter: heights above its head have no canonical block
-		if number := oldChain[i].NumberU64(); number > newBlockNumber {
-			rawdb.DeleteCanonicalHash(batch, rawdb.ChainTypeMinor, number)
-		}
 	}
 
 	batch.Write()
diff --git a/core/minorblockchain_addon.go b/core/minorblockchain_addon.go
index 3dbad5d..55958b2 100644
--- a/core/minorblockchain_addon.go
+++ b/core/minorblockchain_addon.go
@@ -1366,7 +1366,11 @@ func (m *MinorBlockChain) reWriteBlockIndexTo(oldBlock *types.MinorBlock, newBlo
 	if oldBlock == nil {
 		oldBlock = m.CurrentBlock()
 	}
-	return m.reorg(oldBlock, newBlock)
+	if err := m.reorg(oldBlock, newBlock); err != nil {
+		return err
+	}
+	m.deleteCanonicalHashesAbove(newBlock.NumberU64())
+	return nil
 }
 
 func (m *MinorBlockChain) GetBranch() account.Branch {
-- 
2.43.0


From 455af3266ac2eb25033a10b8d7390d832633f90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:50 +0000
Subject: [PATCH 19/98] fix: a root chain reorganisation drops which root block
 confirmed an abandoned minor block

---
 core/rawdb/accessors_chain.go | 7 +++++++
 core/rootblockchain.go        | 3 +++
 2 files changed, 10 insertions(+)

diff --git a/core/rawdb/accessors_chain.go b/core/rawdb/accessors_chain.go
index adc33ad..e789661 100644
--- a/core/rawdb/accessors_chain.go
+++ b/core/rawdb/accessors_chain.go
@@ -618,6 +618,13 @@ func GetRootBlockConfirmingMinorBlock(db DatabaseReader, mBlockID []byte) common
 	}
 	return common.BytesToHash(data)
 }
+
+func DeleteRootBlockConfirmingMinorBlock(db DatabaseDeleter, mBlockID []byte) {
+	if err := db.Delete(makeRootBlockConfirmingMinorBlock(mBlockID)); err != nil {
+		log.Crit("failed to delete rootBlock confirming minor block", "err", err)
+	}
+}
+
 func PutXShardDepositHashList(db DatabaseWriter, h common.Hash, hList *HashList) {
 	bytes, err := serialize.SerializeToBytes(hList)
 	if err != nil {
diff --git a/core/rootblockchain.go b/core/rootblockchain.go
index 3bbca1c..d5dd0ae 100644
--- a/core/rootblockchain.go
+++ b/core/rootblockchain.go
@@ -869,6 +869,9 @@ func (bc *RootBlockChain) reorg(oldBlock, newBlock types.IBlock) error {
 	batch := bc.db.NewBatch()
 	for _, item := range diff {
 		rawdb.DeleteBlockContentLookupEntry(batch, item.Hash())
+		if bc.countMinorBlocks {
+			rawdb.DeleteRootBlockConfirmingMinorBlock(batch, encoder.IDEncoder(item.Hash().Bytes(), item.Branch.GetFullShardID()))
+		}
 	}
 	batch.Write()
 
-- 
2.43.0


From 7014fb1c39803b3519ff6008310a4637193e8a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:58 +0000
Subject: [PATCH 20/98] fix: the miner counts of a root height do not keep
 those of an abandoned block

---
 core/rootblockchain.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/rootblockchain.go b/core/rootblockchain.go
index d5dd0ae..d18fb1e 100644
--- a/core/rootblockchain.go
+++ b/core/rootblockchain.go
@@ -1349,6 +1349,12 @@ func (bc *RootBlockChain) PutRootBlockIndex(block *types.RootBlock) error {
 		blockID := encoder.IDEncoder(header.Hash().Bytes(), fullShardID)
 		bc.PutRootBlockConfirmingMinorBlock(blockID, block.Hash())
 	}
+	for _, fullShardID := range bc.chainConfig.GetInitializedShardIdsBeforeRootHeight(block.Number()) {
+		// a shard without any count may have had one in an abandoned block of this height
+		if _, ok := shardRecipientCnt[fullShardID]; !ok {
+			shardRecipientCnt[fullShardID] = nil
+		}
+	}
 	for fullShardID, infoList := range shardRecipientCnt {
 		dataToDb := new(account.CoinbaseStatses)
 		for addr, count := range infoList {
-- 
2.43.0


From 9a23c13b3f5b72e66a449802bececcbc70f5b396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:31 +0000
Subject: [PATCH 21/98] fix: a shorter canonical root chain leaves no canonical
 hashes above its head

---
 core/rootblockchain.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/rootblockchain.go b/core/rootblockchain.go
index d18fb1e..0ea8ee7 100644
--- a/core/rootblockchain.go
+++ b/core/rootblockchain.go
@@ -478,6 +478,10 @@ func (bc *RootBlockChain) WriteBlockWithState(block *types.RootBlock) (status Wr
 			if err := bc.reorg(currentBlock, block); err != nil {
 				return NonStatTy, err
 			}
+			// the new chain may be shorter: heights above its head have no canonical block
+			for n := block.NumberU64() + 1; n <= currentBlock.NumberU64(); n++ {
+				rawdb.DeleteCanonicalHash(batch, rawdb.ChainTypeRoot, n)
+			}
 		}
 		// Write the positional metadata for transaction/receipt lookups and preimages
 		rawdb.WriteBlockContentLookupEntriesWithCrossShardHashList(batch, block, nil)
-- 
2.43.0


From bc6b035d51e6d0b7d3b4ebcaa3116411d1cacbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:11 +0000
Subject: [PATCH 22/98] fix: a shard that starts late does not crash on
 neighbors' blocks older than itself

---
 core/minorblockchain_addon.go | 8 ++++++--
 core/xshard_tx_cursor.go      | 3 ++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/core/minorblockchain_addon.go b/core/minorblockchain_addon.go
index 55958b2..1947e2d 100644
--- a/core/minorblockchain_addon.go
+++ b/core/minorblockchain_addon.go
@@ -1019,8 +1019,12 @@ func (m *MinorBlockChain) AddRootBlock(rBlock *types.RootBlock) (bool, error) {
 		prevRootBlock := m.GetRootBlockByHash(mHeader.PrevRootBlockHash)
 
 		// prev_root_header can be None when the shard is not created at root height 0
-		t := prevRootBlock.Number()
-		if prevRootBlock == nil || prevRootBlock.Number() == uint32(m.clusterConfig.Quarkchain.GetGenesisRootHeight(m.branch.Value)) || !m.isNeighbor(mHeader.Branch, &t) {
+		isSource := false
+		if prevRootBlock != nil && prevRootBlock.Number() != uint32(m.clusterConfig.Quarkchain.GetGenesisRootHeight(m.branch.Value)) {
+			t := prevRootBlock.Number()
+			isSource = m.isNeighbor(mHeader.Branch, &t)
+		}
+		if !isSource {
 			if data := m.ReadCrossShardTxList(h); data != nil {
 				errXshardListAlreadyHave := errors.New("already have")
 				log.Error(m.logInfo, "addrootBlock err-1", errXshardListAlreadyHave)
diff --git a/core/xshard_tx_cursor.go b/core/xshard_tx_cursor.go
index 875bd69..b60845a 100644
--- a/core/xshard_tx_cursor.go
+++ b/core/xshard_tx_cursor.go
@@ -132,7 +132,8 @@ func (x *XShardTxCursor) getNextTx() (*types.CrossShardTransactionDeposit, error
 		}
 		// Check if the neighbor has the permission to send tx to local shard
 		prevRootHeader := x.bc.GetRootBlockByHash(mBlockHeader.PrevRootBlockHash)
-		if prevRootHeader.Number() <= x.bc.GetGenesisRootHeight() {
+		// (nil if the neighbor's block is older than the genesis of local shard)
+		if prevRootHeader == nil || prevRootHeader.Number() <= x.bc.GetGenesisRootHeight() {
 			if x.xShardDepositIndex != 0 {
 				return nil, errors.New("should 0")
 			}
-- 
2.43.0


From eb475d5ab1380aacb637d877870b91bc5ac00928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:05 +0000
Subject: [PATCH 23/98] fix: value sent to a contract after the transaction in
 which it self-destructed is not destroyed with it at the end of the block

---
 core/state/statedb.go   | 11 +++++++++++
 core/state_processor.go |  2 ++
 2 files changed, 13 insertions(+)

diff --git a/core/state/statedb.go b/core/state/statedb.go
index 4c2e3f4..e375212 100644
--- a/core/state/statedb.go
+++ b/core/state/statedb.go
@@ -411,6 +411,17 @@ func (s *StateDB) Suicide(addr common.Address) bool {
 	return true
 }
 
+// ClearSuicides replaces every account that self-destructed by an empty one. It
+// ends a transaction: what happens to the address later in the block, like a
+// transfer to it, happens to a new account.
+func (s *StateDB) ClearSuicides() {
+	for addr := range s.journal.dirties {
+		if obj := s.stateObjects[addr]; obj != nil && obj.suicided {
+			s.createObject(addr)
+		}
+	}
+}
+
 //
 // Setting, updating & deleting state object methods.
 //
diff --git a/core/state_processor.go b/core/state_processor.go
index 73acbc4..3806d3f 100755
--- a/core/state_processor.go
+++ b/core/state_processor.go
@@ -231,6 +231,7 @@ func ApplyTransaction(config *params.ChainConfig, bc ChainContext, gp *GasPool,
 		statedb.RevertToSnapshot(snapshot)
 		return nil, nil, 0, err
 	}
+	statedb.ClearSuicides()
 
 	var root []byte
 	*usedGas += gas
@@ -308,6 +309,7 @@ func ApplyCrossShardDeposit(config *params.ChainConfig, bc ChainContext, header
 	if err != nil {
 		return nil, err
 	}
+	evmState.ClearSuicides()
 	*usedGas += gas
 	if evmState.GetTimeStamp() >= quarkChainConfig.EnableEvmTimeStamp {
 		var root []byte
-- 
2.43.0


From 466420b52aeba7d291854be9c4d89b748328a494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:13 +0000
Subject: [PATCH 24/98] fix: posw: stakes per block of zero, more blocks than a
 uint64 counts, windows of one block

---
 consensus/posw/posw.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/consensus/posw/posw.go b/consensus/posw/posw.go
index 161847f..77ede3c 100644
--- a/consensus/posw/posw.go
+++ b/consensus/posw/posw.go
@@ -38,6 +38,18 @@ func NewPoSW(headReader headReader, config *config.POSWConfig) *PoSW {
 	}
 }
 
+// mineableBlocks is the number of blocks within the window that the stakes cover.
+func (p *PoSW) mineableBlocks(stakes, stakePerBlock *big.Int) uint64 {
+	if stakePerBlock.Sign() == 0 { // decayed completely: no stake is needed
+		return p.config.WindowSize
+	}
+	blocks := new(big.Int).Div(stakes, stakePerBlock)
+	if !blocks.IsUint64() || blocks.Uint64() > p.config.WindowSize {
+		return p.config.WindowSize
+	}
+	return blocks.Uint64()
+}
+
 /*PoSWDiffAdjust PoSW diff calc,already locked by insertChain*/
 func (p *PoSW) PoSWDiffAdjust(header types.IHeader, stakes *big.Int, stakePerBlock big.Int) (*big.Int, error) {
 	diff := header.GetDifficulty()
@@ -46,13 +58,10 @@ func (p *PoSW) PoSWDiffAdjust(header types.IHeader, stakes *big.Int, stakePerBlo
 	}
 	// Evaluate stakes before the to-be-added block
 
-	blockThreshold := new(big.Int).Div(stakes, &stakePerBlock).Uint64()
+	blockThreshold := p.mineableBlocks(stakes, &stakePerBlock)
 	if blockThreshold == uint64(0) {
 		return diff, nil
 	}
-	if blockThreshold > p.config.WindowSize {
-		blockThreshold = p.config.WindowSize
-	}
 	// The func is inclusive, so need to fetch block counts until prev block
 	// Also only fetch prev window_size - 1 block counts because the
 	// new window should count the current block
@@ -126,6 +135,9 @@ func (p *PoSW) getCoinbaseAddressUntilBlock(headerHash common.Hash) ([]account.R
 		return nil, fmt.Errorf("curr block not found: hash %x", headerHash)
 	}
 	length := int(p.config.WindowSize) - 1
+	if length <= 0 { // the window holds the current block only
+		return nil, nil
+	}
 	addrs := make([]account.Recipient, 0, length+10)
 	height := block.NumberU64()
 	prevHash := block.ParentHash()
@@ -164,10 +176,7 @@ func (p *PoSW) GetPoSWInfo(header types.IHeader, stakes *big.Int, address accoun
 	if !p.IsPoSWEnabled(header.GetTime(), header.NumberU64()) || stakes == nil {
 		return header.GetDifficulty(), 0, blockCnt, nil
 	}
-	blockThreshold := new(big.Int).Div(stakes, &stakePreBlock).Uint64()
-	if blockThreshold > p.config.WindowSize {
-		blockThreshold = p.config.WindowSize
-	}
+	blockThreshold := p.mineableBlocks(stakes, &stakePreBlock)
 	diff := header.GetDifficulty()
 	if blockCnt < blockThreshold {
 		diff = new(big.Int).Div(diff, big.NewInt(int64(p.config.GetDiffDivider(header.GetTime()))))
-- 
2.43.0


From c75b8270873b0a256f415d613f97a1ced81f9095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:37 +0000
Subject: [PATCH 25/98] fix: ethash: guard the growing list of seeds

---
 consensus/ethash/algorithm.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/consensus/ethash/algorithm.go b/consensus/ethash/algorithm.go
index 6ea7ef9..7fbda08 100644
--- a/consensus/ethash/algorithm.go
+++ b/consensus/ethash/algorithm.go
@@ -103,6 +103,8 @@ func makeHasher(h hash.Hash) hasher {
 // dataset.
 func seedHash(epoch uint64) []byte {
 	initonce.Do(initSeedCache)
+	seedMu.Lock()
+	defer seedMu.Unlock()
 	index := int(epoch) - len(seedCache) + 1
 	if index > 64 {
 		fillInSeedCache(len(seedCache), index)
@@ -1154,3 +1156,6 @@ var cacheSizes = [maxEpoch]uint64{
 var seedCache = make([][]byte, 0, maxEpoch)
 
 var initonce sync.Once
+
+// seedMu guards seedCache, which grows while caches are generated concurrently.
+var seedMu sync.Mutex
-- 
2.43.0


From 1a2da967ccbe448d4c58c76096ee614d9ec2f291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:37 +0000
Subject: [PATCH 26/98] fix: native qkchash: a shrunk cache is filled in again
 before use, and stays alive while hashing

---
 consensus/qkchash/algorithm_native.go | 3 +++
 consensus/qkchash/native/wrapper.go   | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/consensus/qkchash/algorithm_native.go b/consensus/qkchash/algorithm_native.go
index ca98340..ad03360 100644
--- a/consensus/qkchash/algorithm_native.go
+++ b/consensus/qkchash/algorithm_native.go
@@ -17,6 +17,9 @@ type qkcCache struct {
 }
 
 func newCache(seed []byte, ls []uint64) *qkcCache {
+	if ls == nil {
+		return &qkcCache{nil, seed}
+	}
 	return &qkcCache{native.NewCache(ls), seed}
 }
 
diff --git a/consensus/qkchash/native/wrapper.go b/consensus/qkchash/native/wrapper.go
index b198cef..24aea5b 100644
--- a/consensus/qkchash/native/wrapper.go
+++ b/consensus/qkchash/native/wrapper.go
@@ -34,6 +34,7 @@ func Hash(cache Cache, seed [8]uint64) (ret [4]uint64, err error) {
 	}
 
 	Qkc_hash(*cache.ptr, seed[:], ret[:])
+	runtime.KeepAlive(cache) // the finalizer frees what the call above uses
 	return ret, nil
 }
 
@@ -44,6 +45,7 @@ func HashX(cache Cache, seed [8]uint64) (ret [4]uint64, err error) {
 	}
 
 	Qkc_hash_with_rotation_stats(*cache.ptr, seed[:], ret[:])
+	runtime.KeepAlive(cache)
 	return ret, nil
 }
 
-- 
2.43.0


From ea84dd5f8f6223bc8ea7c3b1902c86cbaef11684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:36 +0000
Subject: [PATCH 27/98] fix: give back the block gas taken by a transaction
 that could not be applied

---
 core/state_processor.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/state_processor.go b/core/state_processor.go
index 3806d3f..7bc58da 100755
--- a/core/state_processor.go
+++ b/core/state_processor.go
@@ -196,7 +196,7 @@ func ApplyTransaction(config *params.ChainConfig, bc ChainContext, gp *GasPool,
 	var err error
 
 	// a transaction that cannot be applied must not leave anything behind
-	snapshot := statedb.Snapshot()
+	snapshot, gasLeft := statedb.Snapshot(), *gp
 	if tx.EvmTx.GasTokenID() != statedbGensisToken {
 		refundRate, convertedGenesisTokenGasPrice, err = PayNativeTokenAsGas(statedb, config, tx.EvmTx.GasTokenID(), tx.EvmTx.Gas(), tx.EvmTx.GasPrice())
 		if convertedGenesisTokenGasPrice == nil || convertedGenesisTokenGasPrice.Cmp(common.Big0) <= 0 {
@@ -229,6 +229,7 @@ func ApplyTransaction(config *params.ChainConfig, bc ChainContext, gp *GasPool,
 	ret, gas, failed, err := ApplyMessage(vmenv, msg, gp)
 	if err != nil {
 		statedb.RevertToSnapshot(snapshot)
+		*gp = gasLeft
 		return nil, nil, 0, err
 	}
 	statedb.ClearSuicides()
-- 
2.43.0


From cb1b2e575378bb99e114b61bfeca8818e42b66bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:36 +0000
Subject: [PATCH 28/98] fix: validate transactions against the block's state
 before building a block from them

---
 core/minorblockchain_addon.go | 6 ++++++
 core/state_processor.go       | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/core/minorblockchain_addon.go b/core/minorblockchain_addon.go
index 1947e2d..ec4da2c 100644
--- a/core/minorblockchain_addon.go
+++ b/core/minorblockchain_addon.go
@@ -825,6 +825,7 @@ func (m *MinorBlockChain) addTransactionToBlock(block *types.MinorBlock, evmStat
 	txsInBlock := make([]*types.Transaction, 0)
 
 	stateT := evmState
+	xShardGasLimit := block.GetXShardGasLimit().Uint64()
 	txIndex := 0
 	for stateT.GetGasUsed().Cmp(stateT.GetGasLimit()) < 0 {
 		tx := txs.Peek()
@@ -839,6 +840,11 @@ func (m *MinorBlockChain) addTransactionToBlock(block *types.MinorBlock, evmStat
 			}
 
 		}
+		// the block has to pass the checks its validators will run on it
+		if _, err := m.validateTx(tx, stateT, nil, nil, &xShardGasLimit); err != nil && err != ErrNonceTooLow {
+			txs.Pop()
+			continue
+		}
 		stateT.Prepare(tx.Hash(), block.Hash(), txIndex)
 		_, receipt, _, err := ApplyTransaction(m.ChainConfig(), m, gp, stateT, block.IHeader().(*types.MinorBlockHeader), tx, usedGas, *m.GetVMConfig())
 		switch err {
diff --git a/core/state_processor.go b/core/state_processor.go
index 7bc58da..d3632a6 100755
--- a/core/state_processor.go
+++ b/core/state_processor.go
@@ -162,10 +162,10 @@ func ValidateTransaction(state vm.StateDB, chainConfig *params.ChainConfig, tx *
 	if tx.EvmTx.GasPrice().Cmp(common.Big0) != 0 && tx.EvmTx.GasTokenID() != defaultChainToken {
 		snapshot := state.Snapshot()
 		_, gengisTokenGasPrice, err := PayNativeTokenAsGas(state, chainConfig, tx.EvmTx.GasTokenID(), tx.EvmTx.Gas(), tx.EvmTx.GasPrice())
+		state.RevertToSnapshot(snapshot)
 		if err != nil {
 			return err
 		}
-		state.RevertToSnapshot(snapshot)
 
 		if gengisTokenGasPrice.Cmp(common.Big0) == 0 {
 			return fmt.Errorf("{%v}: non-default gas token {%v} not ready for being used to pay gas", tx.Hash().String(), tx.EvmTx.GasTokenID())
-- 
2.43.0


From bccba530b5313a505bd4dc08b7169bec015c78f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:33 +0000
Subject: [PATCH 29/98] fix: guard the cached reward schedules, which building,
 validating and queries use at the same time

---
 core/minorblockchain.go       |  1 +
 core/minorblockchain_addon.go | 25 ++++++++++---------------
 core/rootblockchain.go        |  2 ++
 3 files changed, 13 insertions(+), 15 deletions(-)

diff --git a/core/minorblockchain.go b/core/minorblockchain.go
index 6202657..ea8f155 100644
--- a/core/minorblockchain.go
+++ b/core/minorblockchain.go
@@ -121,6 +121,7 @@ type MinorBlockChain struct {
 	rootBlockCache        *lru.Cache
 	lastConfirmCache      *lru.Cache
 	coinbaseAmountCache   map[uint64]CoinbaseAmountAboutHeight
+	coinbaseAmountMu      sync.Mutex // protects coinbaseAmountCache
 
 	quit    chan struct{} // blockchain quit channel
 	running int32         // running must be called atomically
diff --git a/core/minorblockchain_addon.go b/core/minorblockchain_addon.go
index ec4da2c..7f4e421 100644
--- a/core/minorblockchain_addon.go
+++ b/core/minorblockchain_addon.go
@@ -71,28 +71,23 @@ func powerBigInt(data *big.Int, p uint64) *big.Int {
 }
 
 func (m *MinorBlockChain) getCoinbaseAmount(height uint64) *types.TokenBalances {
-	epoch := height / m.shardConfig.EpochInterval
-	cache, ok := m.coinbaseAmountCache[epoch]
-	if ok {
-		return cache.CoinbaseAmount.Copy()
-	}
-	m.calcCoinbaseAmountByHeight(epoch)
-	cache, _ = m.coinbaseAmountCache[epoch]
-	return cache.CoinbaseAmount.Copy()
+	return m.coinbaseAmountAboutEpoch(height / m.shardConfig.EpochInterval).CoinbaseAmount.Copy()
 }
 
 func (m *MinorBlockChain) DecayByHeightAndTime(height uint64, time uint64) big.Int {
 	if m.clusterConfig.Quarkchain.EnablePoswStakingDecayTimestamp == 0 || time < m.clusterConfig.Quarkchain.EnablePoswStakingDecayTimestamp {
 		return *m.shardConfig.PoswConfig.TotalStakePerBlock
 	}
-	epoch := height / m.shardConfig.EpochInterval
-	cache, ok := m.coinbaseAmountCache[epoch]
-	if ok {
-		return cache.StakePreBlock
+	return m.coinbaseAmountAboutEpoch(height / m.shardConfig.EpochInterval).StakePreBlock
+}
+
+func (m *MinorBlockChain) coinbaseAmountAboutEpoch(epoch uint64) CoinbaseAmountAboutHeight {
+	m.coinbaseAmountMu.Lock()
+	defer m.coinbaseAmountMu.Unlock()
+	if _, ok := m.coinbaseAmountCache[epoch]; !ok {
+		m.calcCoinbaseAmountByHeight(epoch)
 	}
-	m.calcCoinbaseAmountByHeight(epoch)
-	cache, _ = m.coinbaseAmountCache[epoch]
-	return cache.StakePreBlock
+	return m.coinbaseAmountCache[epoch]
 }
 
 func (m *MinorBlockChain) calcCoinbaseAmountByHeight(epoch uint64) {
diff --git a/core/rootblockchain.go b/core/rootblockchain.go
index 0ea8ee7..6bbf070 100644
--- a/core/rootblockchain.go
+++ b/core/rootblockchain.go
@@ -1269,7 +1269,9 @@ func (bc *RootBlockChain) CalculateRootBlockCoinBase(rootBlock *types.RootBlock)
 
 func (bc *RootBlockChain) getCoinbaseAmount(height uint64) *big.Int {
 	epoch := height / bc.Config().Root.EpochInterval
+	bc.mu.RLock()
 	coinbaseAmount, ok := bc.coinbaseAmountCache[epoch]
+	bc.mu.RUnlock()
 	if !ok {
 		numerator := powerBigInt(bc.Config().BlockRewardDecayFactor.Num(), epoch)
 		denominator := powerBigInt(new(big.Rat).Set(bc.Config().BlockRewardDecayFactor).Denom(), epoch)
-- 
2.43.0


From 9b9831a94c9d1edf21f83f5220e7940775b8174b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:55 +0000
Subject: [PATCH 30/98] fix: store the database version, and read none from a
 database without

---
 core/rawdb/accessors_metadata.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/rawdb/accessors_metadata.go b/core/rawdb/accessors_metadata.go
index c7707de..aa8bc7e 100644
--- a/core/rawdb/accessors_metadata.go
+++ b/core/rawdb/accessors_metadata.go
@@ -14,6 +14,9 @@ import (
 // ReadDatabaseVersion retrieves the version number of the database.
 func ReadDatabaseVersion(db DatabaseReader) uint32 {
 	enc, _ := db.Get(databaseVerisionKey)
+	if len(enc) != 4 {
+		return 0
+	}
 	return binary.BigEndian.Uint32(enc)
 }
 
@@ -21,6 +24,9 @@ func ReadDatabaseVersion(db DatabaseReader) uint32 {
 func WriteDatabaseVersion(db DatabaseWriter, version uint32) {
 	bytes := make([]byte, 4, 4)
 	binary.BigEndian.PutUint32(bytes, version)
+	if err := db.Put(databaseVerisionKey, bytes); err != nil {
+		log.Crit("Failed to store the database version", "err", err)
+	}
 }
 
 // ReadChainConfig retrieves the consensus settings based on the given genesis hash.
-- 
2.43.0


From 2e3dcb29e4a315e4f82ba9c93dd8ed68866645c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:24 +0000
Subject: [PATCH 31/98] fix: round configured rates instead of truncating them

A rate such as 0.57 was read as 0.569, and saving and loading the
configuration moved it further.
---
 cluster/config/cluster_config.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cluster/config/cluster_config.go b/cluster/config/cluster_config.go
index 3d911b4..b433d0e 100755
--- a/cluster/config/cluster_config.go
+++ b/cluster/config/cluster_config.go
@@ -235,11 +235,11 @@ func (q *QuarkChainConfig) UnmarshalJSON(input []byte) error {
 	var denom int64 = 1000
 	q.GRPCHost, _ = common.GetIPV4Addr()
 	q.GRPCPort = DefaultGrpcPort
-	q.RewardTaxRate = big.NewRat(int64(jConfig.RewardTaxRate*float64(denom)), denom)
+	q.RewardTaxRate = big.NewRat(int64(math.Round(jConfig.RewardTaxRate*float64(denom))), denom)
 	one := big.NewRat(1, 1)
 	q.LocalFeeRate = one.Sub(one, q.RewardTaxRate)
 	q.RewardCalculateRate = new(big.Rat).Quo(q.RewardTaxRate, q.LocalFeeRate)
-	q.BlockRewardDecayFactor = big.NewRat(int64(jConfig.BlockRewardDecayFactor*float64(denom)), denom)
+	q.BlockRewardDecayFactor = big.NewRat(int64(math.Round(jConfig.BlockRewardDecayFactor*float64(denom))), denom)
 	q.RootChainPoSWContractBytecodeHash = ethcom.HexToHash(jConfig.RootChainPoSWContractBytecodeHash)
 
 	q.GuardianPublicKey = ethcom.FromHex(jConfig.GuardianPublicKey)
-- 
2.43.0


From 2e0167e860ba65206cc34a5925e91e61b838fbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:24 +0000
Subject: [PATCH 32/98] fix: refuse configurations whose chains do not match
 the chain size

A missing chain 0, chains beyond CHAIN_SIZE and chains listed twice were
accepted.
---
 cluster/config/cluster_config.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cluster/config/cluster_config.go b/cluster/config/cluster_config.go
index b433d0e..246aa58 100755
--- a/cluster/config/cluster_config.go
+++ b/cluster/config/cluster_config.go
@@ -221,6 +221,9 @@ func (q *QuarkChainConfig) UnmarshalJSON(input []byte) error {
 	q.Chains = make(map[uint32]*ChainConfig)
 	q.shards = make(map[uint32]*ShardConfig)
 	for _, chainCfg := range jConfig.Chains {
+		if _, ok := q.Chains[chainCfg.ChainID]; ok {
+			return fmt.Errorf("chain %d is configured twice", chainCfg.ChainID)
+		}
 		q.Chains[chainCfg.ChainID] = chainCfg
 		for shardID := uint32(0); shardID < chainCfg.ShardSize; shardID++ {
 			var cfg = new(ChainConfig)
@@ -367,9 +370,12 @@ func (q *QuarkChainConfig) initAndValidate() {
 			}
 		}
 	}
+	if len(chainIDMap) != int(q.ChainSize) {
+		panic(fmt.Sprintf("chain size is not right, target=%d, actual=%d", q.ChainSize, len(chainIDMap)))
+	}
 	for i := uint32(0); i < q.ChainSize; i++ {
-		if i != chainIDMap[i] {
-			panic(fmt.Sprintf("chain id is not right, target=%d, actual=%d", i, chainIDMap[i]))
+		if _, ok := chainIDMap[i]; !ok {
+			panic(fmt.Sprintf("chain id is not right, chain %d is missing", i))
 		}
 	}
 }
-- 
2.43.0


From 415ecde7fa50a4f5e51bc1f9021e3da57b91b973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:24 +0000
Subject: [PATCH 33/98] fix: assign the chains of every legacy chain mask, not
 only of the last one

---
 cluster/config/cluster_config.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/cluster/config/cluster_config.go b/cluster/config/cluster_config.go
index 246aa58..8246476 100755
--- a/cluster/config/cluster_config.go
+++ b/cluster/config/cluster_config.go
@@ -120,11 +120,17 @@ func (c *ClusterConfig) BackWardChainMaskList() error {
 	}
 	for _, v := range c.SlaveList {
 		for _, m := range v.ChainMaskListForBackward {
-			bitMask := uint32(1<<(common.IntLeftMostBit(m)-1) - 1)
-			v.FullShardList = make([]uint32, 0)
-			for _, chainConfig := range c.Quarkchain.Chains {
+			if m == 0 {
+				return errors.New("CHAIN_MASK_LIST: masks must be positive")
+			}
+		}
+		v.FullShardList = make([]uint32, 0)
+		for _, chainConfig := range c.Quarkchain.Chains {
+			for _, m := range v.ChainMaskListForBackward {
+				bitMask := uint32(1<<(common.IntLeftMostBit(m)-1) - 1)
 				if chainConfig.ChainID&bitMask == m&bitMask {
 					v.FullShardList = append(v.FullShardList, chainConfig.ChainID<<16+1)
+					break
 				}
 			}
 		}
-- 
2.43.0


From bcb5368fc3fee3ac52866171a1f381534102f59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:40 +0000
Subject: [PATCH 34/98] fix: default the websocket ports of a slave after its
 shards are known

The defaults were computed from the still empty shard list, so a slave
without configured ports had none and could not start its websockets.
---
 cluster/config/cluster_config.go |  1 +
 cluster/config/slave_config.go   | 18 ++++++++++++------
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/cluster/config/cluster_config.go b/cluster/config/cluster_config.go
index 8246476..f6bb6bb 100755
--- a/cluster/config/cluster_config.go
+++ b/cluster/config/cluster_config.go
@@ -135,6 +135,7 @@ func (c *ClusterConfig) BackWardChainMaskList() error {
 			}
 		}
 		sort.Sort(fullShardList(v.FullShardList))
+		v.setDefaultWSPorts()
 	}
 	return nil
 }
diff --git a/cluster/config/slave_config.go b/cluster/config/slave_config.go
index e00feae..89d9f68 100755
--- a/cluster/config/slave_config.go
+++ b/cluster/config/slave_config.go
@@ -40,12 +40,6 @@ func (s *SlaveConfig) UnmarshalJSON(input []byte) error {
 		return err
 	}
 	*s = SlaveConfig(jsonConfig.SlaveConfigAlias)
-	if len(s.WSPortList) == 0 {
-		s.WSPortList = make([]uint16, len(s.FullShardList))
-		for i, shard := range s.FullShardList {
-			s.WSPortList[i] = DefaultWSPort + uint16(shard>>16)
-		}
-	}
 
 	if jsonConfig.ChainMaskListJson != nil && jsonConfig.FullShardListJson != nil {
 		return errors.New("Can only have either FULL_SHARD_ID_LIST or CHAIN_MASK_LIST")
@@ -54,6 +48,7 @@ func (s *SlaveConfig) UnmarshalJSON(input []byte) error {
 		for k, v := range *jsonConfig.FullShardListJson {
 			s.FullShardList[k] = uint32(v)
 		}
+		s.setDefaultWSPorts()
 	} else if jsonConfig.ChainMaskListJson != nil {
 		//handle it after call SlaveConfig.UnmarshalJSON
 		// can not get ClusterConfig.QuarkChain.Chains config
@@ -68,6 +63,17 @@ func (s *SlaveConfig) UnmarshalJSON(input []byte) error {
 	return nil
 }
 
+// setDefaultWSPorts fills in the websocket ports, once the shards are known, if none are configured.
+func (s *SlaveConfig) setDefaultWSPorts() {
+	if len(s.WSPortList) != 0 {
+		return
+	}
+	s.WSPortList = make([]uint16, len(s.FullShardList))
+	for i, shard := range s.FullShardList {
+		s.WSPortList[i] = DefaultWSPort + uint16(shard>>16)
+	}
+}
+
 func NewDefaultSlaveConfig() *SlaveConfig {
 	slaveConfig := SlaveConfig{
 		IP:   DefaultHost,
-- 
2.43.0


From 4b2d23f2fbc9a3e12672974925d823e0df5cc253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:40 +0000
Subject: [PATCH 35/98] fix: create the genesis accounts in a fixed order

With an address allocated under several full shard keys the genesis state,
and so the genesis block, depended on the iteration order of a map.
---
 core/genesis.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/core/genesis.go b/core/genesis.go
index 355c6de..7e809d0 100644
--- a/core/genesis.go
+++ b/core/genesis.go
@@ -2,8 +2,10 @@
 package core
 
 import (
+	"bytes"
 	"fmt"
 	"math/big"
+	"sort"
 
 	"github.com/QuarkChain/goquarkchain/account"
 	"github.com/QuarkChain/goquarkchain/cluster/config"
@@ -66,7 +68,15 @@ func (g *Genesis) CreateMinorBlock(rootBlock *types.RootBlock, fullShardId uint3
 	statedb, _ := state.New(common.Hash{}, state.NewDatabase(db))
 	branch := account.Branch{Value: fullShardId}
 
-	for addr, allocation := range genesis.Alloc {
+	// in a fixed order: an account listed under several full shard keys is created under the first
+	addrs := make([]account.Address, 0, len(genesis.Alloc))
+	for addr := range genesis.Alloc {
+		addrs = append(addrs, addr)
+	}
+	sort.Slice(addrs, func(i, j int) bool { return bytes.Compare(addrs[i].ToBytes(), addrs[j].ToBytes()) < 0 })
+
+	for _, addr := range addrs {
+		allocation := genesis.Alloc[addr]
 		recipient := new(common.Address)
 		recipient.SetBytes(addr.Recipient.Bytes())
 		statedb.SetFullShardKey(addr.FullShardKey)
-- 
2.43.0


From 6cfa46c59b32ba02e35e0e4a2b007b29ee5709b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:28 +0000
Subject: [PATCH 36/98] fix: refuse damaged key files instead of panicking

Missing or mistyped parameters and an IV of the wrong length crashed Load,
and a JSON error was ignored.
---
 account/account.go | 23 +++++++++++++++++++----
 account/common.go  | 17 ++++++++++++-----
 2 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/account/account.go b/account/account.go
index 741fb82..fd34813 100644
--- a/account/account.go
+++ b/account/account.go
@@ -93,7 +93,9 @@ func Load(path string, password string) (Account, error) {
 	}
 
 	var keystoreJSONData EncryptedKeyJSON
-	err = json.Unmarshal(jsonData, &keystoreJSONData)
+	if err = json.Unmarshal(jsonData, &keystoreJSONData); err != nil {
+		return Account{}, err
+	}
 	key, err := DecodeKeyStoreJSON(keystoreJSONData, password)
 	if err != nil {
 		return Account{}, err
@@ -116,13 +118,26 @@ func Load(path string, password string) (Account, error) {
 // DecodeKeyStoreJSON decode key with password ,return plainText to create account
 func DecodeKeyStoreJSON(keystoreJSONData EncryptedKeyJSON, password string) ([]byte, error) {
 	kdfParams := keystoreJSONData.Crypto.KDFParams
-	c := ensureInt(kdfParams[kdfParamsC])
-	salt, err := hex.DecodeString(kdfParams[kdfParamsSalt].(string))
+	c, err := ensureInt(kdfParams[kdfParamsC])
+	if err != nil {
+		return []byte{}, err
+	}
+	saltHex, ok := kdfParams[kdfParamsSalt].(string)
+	if !ok {
+		return []byte{}, errors.New("salt is missing")
+	}
+	salt, err := hex.DecodeString(saltHex)
 	if err != nil {
 		return []byte{}, err
 	}
 
-	dkLen := ensureInt(kdfParams[kdfParamsPrfDkLen])
+	dkLen, err := ensureInt(kdfParams[kdfParamsPrfDkLen])
+	if err != nil {
+		return []byte{}, err
+	}
+	if dkLen < 32 {
+		return []byte{}, errors.New("derivedkey<32")
+	}
 	derivedKey := pbkdf2.Key([]byte(password), salt, c, dkLen, sha256.New)
 	if len(derivedKey) < 32 { // derived key must be at least 32 bytes long
 		return []byte{}, errors.New("derivedkey<32")
diff --git a/account/common.go b/account/common.go
index 5845c29..0a80efa 100755
--- a/account/common.go
+++ b/account/common.go
@@ -5,6 +5,7 @@ import (
 	"crypto/cipher"
 	"crypto/ecdsa"
 	"encoding/binary"
+	"fmt"
 	"io/ioutil"
 	"os"
 	"path/filepath"
@@ -46,12 +47,15 @@ func writeKeyFile(file string, content []byte) error {
 	return os.Rename(name, file)
 }
 
-func ensureInt(x interface{}) int {
-	res, ok := x.(int)
-	if !ok {
-		res = int(x.(float64))
+// ensureInt reads an integer that is an int when built here and a float64 when read from JSON.
+func ensureInt(x interface{}) (int, error) {
+	switch v := x.(type) {
+	case int:
+		return v, nil
+	case float64:
+		return int(v), nil
 	}
-	return res
+	return 0, fmt.Errorf("not a number: %v", x)
 }
 
 func aesCTRXOR(key, inText, iv []byte) ([]byte, error) {
@@ -59,6 +63,9 @@ func aesCTRXOR(key, inText, iv []byte) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(iv) != aesBlock.BlockSize() {
+		return nil, fmt.Errorf("iv has %d bytes, expected %d", len(iv), aesBlock.BlockSize())
+	}
 	stream := cipher.NewCTR(aesBlock, iv)
 	outText := make([]byte, len(inText))
 	stream.XORKeyStream(outText, inText)
-- 
2.43.0


From 06c013f39328059f3cdbf48446297f0d8fdc8d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:28 +0000
Subject: [PATCH 37/98] fix: check that a loaded key belongs to the address in
 its file

The MAC does not cover the IV, so a damaged IV gave another key without an
error.
---
 account/account.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/account/account.go b/account/account.go
index fd34813..8779656 100644
--- a/account/account.go
+++ b/account/account.go
@@ -9,7 +9,8 @@ import (
 	"errors"
 	"io"
 	"io/ioutil"
-	
+	"strings"
+
 	"github.com/ethereum/go-ethereum/crypto"
 	"github.com/pborman/uuid"
 	"golang.org/x/crypto/pbkdf2"
@@ -109,6 +110,16 @@ func Load(path string, password string) (Account, error) {
 	if err != nil {
 		return Account{}, err
 	}
+	if keystoreJSONData.Address != "" {
+		// the MAC does not cover the IV: a changed one is only noticed by the address
+		recipient, err := hex.DecodeString(strings.TrimPrefix(keystoreJSONData.Address, "0x"))
+		if err != nil {
+			return Account{}, err
+		}
+		if len(recipient) < RecipientLength || !bytes.Equal(recipient[:RecipientLength], account.QKCAddress.Recipient.Bytes()) {
+			return Account{}, errors.New("the key does not belong to the address")
+		}
+	}
 	if keystoreJSONData.ID != "" {
 		account.ID = uuid.Parse(keystoreJSONData.ID)
 	}
-- 
2.43.0


From ba45382c5b6b79fbc9e2b9dbef92b0b76a7405a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:17 +0000
Subject: [PATCH 38/98] fix: drop pooled transactions their sender cannot pay
 for

The filter compared gas plus value with the balance of the transfer token
only, ignored the gas token, and kept everything as soon as any one token
of the account covered the dearest transaction of that token.
---
 core/tx_list.go | 56 +++++++++++++------------------------------------
 core/tx_pool.go |  9 ++++++--
 2 files changed, 21 insertions(+), 44 deletions(-)

diff --git a/core/tx_list.go b/core/tx_list.go
index 442965f..ebb2f92 100644
--- a/core/tx_list.go
+++ b/core/tx_list.go
@@ -122,6 +122,16 @@ func (m *txSortedMap) Filter(filter func(*types.Transaction) bool) types.Transac
 	return removed
 }
 
+// affordable returns whether the balance covers the gas and the value of the
+// transaction, each in its own token.
+func affordable(tx *types.EvmTransaction, balance func(token uint64) *big.Int) bool {
+	if tx.GasTokenID() == tx.TransferTokenID() {
+		return balance(tx.GasTokenID()).Cmp(tx.Cost()) >= 0
+	}
+	gasCost := new(big.Int).Mul(tx.GasPrice(), new(big.Int).SetUint64(tx.Gas()))
+	return balance(tx.GasTokenID()).Cmp(gasCost) >= 0 && balance(tx.TransferTokenID()).Cmp(tx.Value()) >= 0
+}
+
 // Cap places a hard limit on the number of items, returning all transactions
 // exceeding that limit.
 func (m *txSortedMap) Cap(threshold int) types.Transactions {
@@ -222,18 +232,14 @@ func (m *txSortedMap) Flatten() types.Transactions {
 type txList struct {
 	strict bool         // Whether nonces are strictly continuous or not
 	txs    *txSortedMap // Heap indexed sorted hash map of the transactions
-
-	costcap map[uint64]*big.Int // Price of the highest costing transaction (reset only if exceeds balance)
-	gascap  uint64              // Gas limit of the highest spending transaction (reset only if exceeds block limit)
 }
 
 // newTxList create a new transaction list for maintaining nonce-indexable fast,
 // gapped, sortable transaction lists.
 func newTxList(strict bool) *txList {
 	return &txList{
-		strict:  strict,
-		txs:     newTxSortedMap(),
-		costcap: make(map[uint64]*big.Int),
+		strict: strict,
+		txs:    newTxSortedMap(),
 	}
 }
 
@@ -245,9 +251,6 @@ func (l *txList) Overlaps(tx *types.Transaction) bool {
 
 // Add tries to insert a new transaction into the list, returning whether the
 // transaction was accepted, and if yes, any previous transaction it replaced.
-//
-// If the new transaction is accepted into the list, the lists' cost and gas
-// thresholds are also potentially updated.
 func (l *txList) Add(tx *types.Transaction, priceBump uint64) (bool, *types.Transaction) {
 	// If there's an older better transaction, abort
 	old := l.txs.Get(tx.EvmTx.Nonce())
@@ -263,22 +266,9 @@ func (l *txList) Add(tx *types.Transaction, priceBump uint64) (bool, *types.Tran
 	// Otherwise overwrite the old transaction with the current one
 	l.txs.Put(tx)
 
-	if cost := tx.EvmTx.Cost(); l.cmpCostCapValue(tx.EvmTx.TransferTokenID(), cost) < 0 {
-		l.costcap[tx.EvmTx.TransferTokenID()] = cost
-	}
-	if gas := tx.EvmTx.Gas(); l.gascap < gas {
-		l.gascap = gas
-	}
 	return true, old
 }
 
-func (l *txList) cmpCostCapValue(token uint64, balance *big.Int) int {
-	if l.costcap[token] == nil {
-		l.costcap[token] = new(big.Int)
-	}
-	return l.costcap[token].Cmp(balance)
-}
-
 // Forward removes all transactions from the list with a nonce lower than the
 // provided threshold. Every removed transaction is returned for any post-removal
 // maintenance.
@@ -290,28 +280,10 @@ func (l *txList) Forward(threshold uint64) types.Transactions {
 // than the provided thresholds. Every removed transaction is returned for any
 // post-removal maintenance. Strict-mode invalidated transactions are also
 // returned.
-//
-// This method uses the cached costcap and gascap to quickly decide if there's even
-// a point in calculating all the costs or if the balance covers all. If the threshold
-// is lower than the costgas cap, the caps will be reset to a new high after removing
-// the newly invalidated transactions.
-func (l *txList) Filter(costLimit map[uint64]*big.Int, gasLimit uint64) (types.Transactions, types.Transactions) {
-	// If all transactions are below the threshold, short circuit
-	for token, bal := range costLimit {
-		if l.cmpCostCapValue(token, bal) <= 0 && l.gascap <= gasLimit {
-			return nil, nil
-		}
-	}
-
-	l.costcap = costLimit // Lower the caps to the thresholds
-	l.gascap = gasLimit
-
+func (l *txList) Filter(balance func(token uint64) *big.Int, gasLimit uint64) (types.Transactions, types.Transactions) {
 	// Filter out all the transactions above the account's funds
 	removed := l.txs.Filter(func(tx *types.Transaction) bool {
-		if costLimit[tx.EvmTx.TransferTokenID()] == nil {
-			costLimit[tx.EvmTx.TransferTokenID()] = new(big.Int)
-		}
-		return tx.EvmTx.Cost().Cmp(costLimit[tx.EvmTx.TransferTokenID()]) > 0 || tx.EvmTx.Gas() > gasLimit
+		return tx.EvmTx.Gas() > gasLimit || !affordable(tx.EvmTx, balance)
 	})
 
 	// If the list was strict, filter anything above the lowest nonce
diff --git a/core/tx_pool.go b/core/tx_pool.go
index 3d51844..24c5abe 100644
--- a/core/tx_pool.go
+++ b/core/tx_pool.go
@@ -1034,6 +1034,11 @@ func (pool *TxPool) reset(oldBlock, newBlock *types.MinorBlock) {
 	}
 }
 
+// balanceOf returns a function telling the account's balance of a token.
+func (pool *TxPool) balanceOf(addr common.Address) func(token uint64) *big.Int {
+	return func(token uint64) *big.Int { return pool.currentState.GetBalance(addr, token) }
+}
+
 // promoteExecutables moves transactions that have become processable from the
 // future queue to the set of pending transactions. During this process, all
 // invalidated transactions (low nonce, low balance) are deleted.
@@ -1055,7 +1060,7 @@ func (pool *TxPool) promoteExecutables(accounts []common.Address) []*types.Trans
 			log.Trace("Removed old queued transaction", "hash", hash)
 		}
 		// Drop all transactions that are too costly (low balance or out of gas)
-		drops, _ := list.Filter(pool.currentState.GetBalances(addr).GetBalanceMap(), pool.currentMaxGas)
+		drops, _ := list.Filter(pool.balanceOf(addr), pool.currentMaxGas)
 		for _, tx := range drops {
 			hash := tx.Hash()
 			pool.all.Remove(hash)
@@ -1232,7 +1237,7 @@ func (pool *TxPool) demoteUnexecutables() {
 			log.Trace("Removed old pending transaction", "hash", hash)
 		}
 		// Drop all transactions that are too costly (low balance or out of gas), and queue any invalids back for later
-		drops, invalids := list.Filter(pool.currentState.GetBalances(addr).GetBalanceMap(), pool.currentMaxGas)
+		drops, invalids := list.Filter(pool.balanceOf(addr), pool.currentMaxGas)
 		for _, tx := range drops {
 			hash := tx.Hash()
 			log.Trace("Removed unpayable pending transaction", "hash", hash)
-- 
2.43.0


From dacdef2947647daf332faf15ae01d929fbc246c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:19 +0000
Subject: [PATCH 39/98] fix: report the pool's answer for the transaction it
 belongs to

In a batch with an accepted transaction the error of a later one
overwrote the accepted one's slot.
---
 core/tx_pool.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/tx_pool.go b/core/tx_pool.go
index 24c5abe..bf5f1f2 100644
--- a/core/tx_pool.go
+++ b/core/tx_pool.go
@@ -665,6 +665,7 @@ func (pool *TxPool) addTxs(txs []*types.Transaction, local, sync bool) []error {
 			nilSlot++
 		}
 		errs[nilSlot] = err
+		nilSlot++
 	}
 	// Reorg the pool internals if needed and return
 	done := pool.requestPromoteExecutables(dirtyAddrs)
-- 
2.43.0


From 010c8e0b37333061f41052760acfe4ff6c43f984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:11 +0000
Subject: [PATCH 40/98] fix: let the transaction pool follow a head moved by a
 root block

When a root block took the shard back to an earlier block, the pool kept
offering transactions for the abandoned head, and those of the abandoned
blocks were missing, until the next minor block arrived.
---
 core/minorblockchain_addon.go | 2 ++
 core/tx_pool.go               | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/core/minorblockchain_addon.go b/core/minorblockchain_addon.go
index 7f4e421..4c565f2 100644
--- a/core/minorblockchain_addon.go
+++ b/core/minorblockchain_addon.go
@@ -1147,6 +1147,8 @@ func (m *MinorBlockChain) AddRootBlock(rBlock *types.RootBlock) (bool, error) {
 		if err != nil {
 			return false, err
 		}
+		// let the transaction pool follow the new head
+		m.PostChainEvents([]interface{}{MinorChainHeadEvent{newBlock}}, nil)
 	}
 	return true, nil
 }
diff --git a/core/tx_pool.go b/core/tx_pool.go
index bf5f1f2..1e7ed5e 100644
--- a/core/tx_pool.go
+++ b/core/tx_pool.go
@@ -999,6 +999,9 @@ func (pool *TxPool) reset(oldBlock, newBlock *types.MinorBlock) {
 			}
 			for rem.Hash() != add.Hash() {
 				discarded = append(discarded, rem.Transactions()...)
+				if rem.NumberU64() == 0 {
+					break // the shard was moved to another genesis block
+				}
 				if rem = pool.chain.GetMinorBlock(rem.ParentHash()); rem == nil {
 					log.Error("Unrooted old chain seen by tx pool", "block", oldHead.Number, "hash", oldHead.Hash())
 					return
-- 
2.43.0


From 52b5def8cf7b9c7eb60e6d7d9cd50327fd0fc12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:38 +0000
Subject: [PATCH 41/98] fix: keep the executable transactions of an account
 free of gaps

After a reorganisation a transaction of an abandoned block may be refused
while those before and after it are executable again; only a gap in front
was noticed.
---
 core/tx_pool.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/core/tx_pool.go b/core/tx_pool.go
index 1e7ed5e..7494448 100644
--- a/core/tx_pool.go
+++ b/core/tx_pool.go
@@ -1255,12 +1255,17 @@ func (pool *TxPool) demoteUnexecutables() {
 			pool.enqueueTx(hash, tx)
 		}
 
-		// If there's a gap in front, alert (should never happen) and postpone all transactions
-		if list.Len() > 0 && list.txs.Get(nonce) == nil {
-			gapped := list.Cap(0)
+		// If there's a gap, in front or where a transaction of an abandoned block could
+		// not be taken back, postpone all transactions behind it
+		ready := 0
+		for list.txs.Get(nonce+uint64(ready)) != nil {
+			ready++
+		}
+		if list.Len() > ready {
+			gapped := list.Cap(ready)
 			for _, tx := range gapped {
 				hash := tx.Hash()
-				log.Error("Demoting invalidated transaction", "hash", hash)
+				log.Debug("Demoting invalidated transaction", "hash", hash)
 				pool.enqueueTx(hash, tx)
 			}
 		}
-- 
2.43.0


From 3e4f9118ba15593432a696cca54c0544faedfc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:58 +0000
Subject: [PATCH 42/98] fix: page through the transaction history from the
 newest entry down

---
 core/minorblockchain_addon.go | 15 +++++++++++----
 qkcdb/rocksdb.go              | 12 ++++++++++++
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/core/minorblockchain_addon.go b/core/minorblockchain_addon.go
index 4c565f2..469dbcc 100644
--- a/core/minorblockchain_addon.go
+++ b/core/minorblockchain_addon.go
@@ -1551,7 +1551,7 @@ func (m *MinorBlockChain) getTransactionDetails(start, end []byte, limit uint32,
 
 	skipXShard := func(xShardTx *types.CrossShardTransactionDeposit) bool {
 		if xShardTx.IsFromRootChain {
-			return skipCoinbaseRewards || xShardTx.Value.Value.Uint64() == 0
+			return skipCoinbaseRewards || xShardTx.Value.Value.Sign() == 0
 		}
 		return transferTokenID != nil && xShardTx.TransferTokenID != *transferTokenID
 	}
@@ -1570,9 +1570,16 @@ func (m *MinorBlockChain) getTransactionDetails(start, end []byte, limit uint32,
 		index      uint32
 		txHashes   = make(map[common.Hash]struct{})
 	)
-	it.Seek(end)
+	defer it.Release()
+	// the cursor is an upper bound: visit the keys from start down to end
+	it.Seek(start)
+	if !it.Valid() {
+		it.Last()
+	} else if bytes.Compare(it.Key(), start) > 0 {
+		it.Prev()
+	}
 	for it.Valid() {
-		if bytes.Compare(it.Key(), start) > 0 {
+		if bytes.Compare(it.Key(), end) < 0 {
 			break
 		}
 		if getTxType == GetTxFromAddress {
@@ -1662,7 +1669,7 @@ func (m *MinorBlockChain) getTransactionDetails(start, end []byte, limit uint32,
 		if limit == 0 {
 			break
 		}
-		it.Next()
+		it.Prev()
 	}
 	return txList, next, nil
 }
diff --git a/qkcdb/rocksdb.go b/qkcdb/rocksdb.go
index 37d48f1..6963872 100644
--- a/qkcdb/rocksdb.go
+++ b/qkcdb/rocksdb.go
@@ -179,3 +179,15 @@ func (q *QKCIterator) Valid() bool {
 func (q *QKCIterator) Seek(b []byte) {
 	q.it.Seek(b)
 }
+
+func (q *QKCIterator) Prev() {
+	q.it.Prev()
+}
+
+func (q *QKCIterator) Last() {
+	q.it.SeekToLast()
+}
+
+func (q *QKCIterator) Release() {
+	q.it.Close()
+}
-- 
2.43.0


From 07a526b9a1819de61994d8906f6d81f2a6627b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:58 +0000
Subject: [PATCH 43/98] fix: show a failed cross-shard deposit as failed in the
 history

---
 core/minorblockchain_addon.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/core/minorblockchain_addon.go b/core/minorblockchain_addon.go
index 469dbcc..6dda48b 100644
--- a/core/minorblockchain_addon.go
+++ b/core/minorblockchain_addon.go
@@ -1607,6 +1607,12 @@ func (m *MinorBlockChain) getTransactionDetails(start, end []byte, limit uint32,
 			if !ok && !skipXShard(tx) {
 				limit--
 				txHashes[tx.TxHash] = struct{}{}
+				// the receipts of the deposits follow those of the transactions
+				success := true
+				receipts := rawdb.ReadReceipts(m.db, mBlock.Hash())
+				if i := len(mBlock.Transactions()) + int(index); i < len(receipts) {
+					success = receipts[i].Status == types.ReceiptStatusSuccessful
+				}
 				txList = append(txList, &rpc.TransactionDetail{
 					TxHash:          tx.TxHash,
 					FromAddress:     tx.From,
@@ -1614,7 +1620,7 @@ func (m *MinorBlockChain) getTransactionDetails(start, end []byte, limit uint32,
 					Value:           serialize.Uint256{Value: tx.Value.Value},
 					BlockHeight:     height,
 					Timestamp:       mBlock.Time(),
-					Success:         true,
+					Success:         success,
 					GasTokenID:      tx.GasTokenID,
 					TransferTokenID: tx.TransferTokenID,
 					IsFromRootChain: tx.IsFromRootChain,
-- 
2.43.0


From 0c9312dfc66d1039171f5cf6bb799268713445b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:18 +0000
Subject: [PATCH 44/98] fix: answer a log query for a block hash with the logs
 of that block

---
 core/minorblockchain_addon.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core/minorblockchain_addon.go b/core/minorblockchain_addon.go
index 6dda48b..cc293aa 100644
--- a/core/minorblockchain_addon.go
+++ b/core/minorblockchain_addon.go
@@ -1717,6 +1717,13 @@ func (m *MinorBlockChain) GetAllTx(start []byte, limit uint32) ([]*rpc.Transacti
 }
 
 func (m *MinorBlockChain) GetLogsByFilterQuery(args *qrpc.FilterQuery) ([]*types.Log, error) {
+	if args.BlockHash != nil && *args.BlockHash != (common.Hash{}) {
+		block := m.GetMinorBlock(*args.BlockHash)
+		if block == nil {
+			return nil, errors.New("no such block")
+		}
+		return newFilter(m, args.Addresses, args.Topics).blockLogs(block.Header())
+	}
 	filter := NewRangeFilter(m, args.FromBlock.Uint64(), args.ToBlock.Uint64(), args.Addresses, args.Topics)
 	return filter.Logs()
 }
-- 
2.43.0


From f80dbef7209b7ea3996492ee0b986610316e5d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:18 +0000
Subject: [PATCH 45/98] fix: report the error of a log query instead of an
 empty list

---
 internal/qkcapi/api.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/qkcapi/api.go b/internal/qkcapi/api.go
index cc8bc5a..6cc5165 100755
--- a/internal/qkcapi/api.go
+++ b/internal/qkcapi/api.go
@@ -114,6 +114,9 @@ func (c *CommonAPI) GetLogs(args *rpc.FilterQuery, fullShardKey *hexutil.Uint) (
 	args.FullShardId = fullShardID
 
 	logs, err := c.b.GetLogs(args)
+	if err != nil {
+		return nil, err
+	}
 	return encoder.LogListEncoder(logs, false), nil
 }
 
-- 
2.43.0


From 0573a92e192bb60da0bfd741a7b6390b0dc5c9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:18 +0000
Subject: [PATCH 46/98] fix: take pending for the newest block in log queries

---
 internal/qkcapi/api.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/qkcapi/api.go b/internal/qkcapi/api.go
index 6cc5165..f3f331f 100755
--- a/internal/qkcapi/api.go
+++ b/internal/qkcapi/api.go
@@ -103,11 +103,11 @@ func (c *CommonAPI) GetLogs(args *rpc.FilterQuery, fullShardKey *hexutil.Uint) (
 	if err != nil {
 		return nil, err
 	}
-	if args.FromBlock == nil || args.FromBlock.Int64() == rpc.LatestBlockNumber.Int64() {
+	if args.FromBlock == nil || args.FromBlock.Sign() < 0 { // latest or pending
 		args.FromBlock = new(big.Int).SetUint64(lastBlockHeight)
 	}
 
-	if args.ToBlock == nil || args.ToBlock.Int64() == rpc.LatestBlockNumber.Int64() {
+	if args.ToBlock == nil || args.ToBlock.Sign() < 0 { // latest or pending
 		args.ToBlock = new(big.Int).SetUint64(lastBlockHeight)
 	}
 
-- 
2.43.0


From 5642bc6e35ed5c0418dd1e3ad6635ba7454efe23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:18 +0000
Subject: [PATCH 47/98] fix: number the logs of cross-shard deposits after the
 block's transactions

---
 core/minorblockchain_addon.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/minorblockchain_addon.go b/core/minorblockchain_addon.go
index cc293aa..69d05fb 100644
--- a/core/minorblockchain_addon.go
+++ b/core/minorblockchain_addon.go
@@ -1829,7 +1829,7 @@ func (m *MinorBlockChain) RunCrossShardTxWithCursor(evmState *state.StateDB,
 	txList := make([]*types.CrossShardTransactionDeposit, 0)
 	evmState.SetQuarkChainConfig(m.clusterConfig.Quarkchain)
 	gasUsed := new(uint64)
-	txIndex := 0
+	txIndex := len(mBlock.Transactions()) // deposits come after the transactions
 	for true {
 		xShardDepositTx, err := cursor.getNextTx()
 		if err != nil {
-- 
2.43.0


From f0d49d8fb69eefca9bfd5817e1d58f29e563bb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:46 +0000
Subject: [PATCH 48/98] fix: forget canonical hashes ahead of the head when a
 chain is loaded

---
 core/minorblockchain.go | 8 +++++++-
 core/rootblockchain.go  | 7 ++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/core/minorblockchain.go b/core/minorblockchain.go
index ea8f155..780e622 100644
--- a/core/minorblockchain.go
+++ b/core/minorblockchain.go
@@ -300,6 +300,8 @@ func (m *MinorBlockChain) loadLastState() error {
 	}
 	// Everything seems to be fine, set as the head block
 	m.currentBlock.Store(currentBlock)
+	// a stop between the writes of an insertion leaves canonical hashes ahead of the head
+	m.deleteCanonicalHashesAbove(currentBlock.NumberU64())
 
 	return nil
 }
@@ -1000,8 +1002,12 @@ func (m *MinorBlockChain) WriteBlockWithState(block *types.MinorBlock, receipts
 // deleteCanonicalHashesAbove forgets the canonical hashes a longer abandoned
 // chain left above the given height.
 func (m *MinorBlockChain) deleteCanonicalHashesAbove(height uint64) {
+	batch := m.db.NewBatch() // all or none, so that a stop leaves no gap
 	for n := height + 1; rawdb.ReadCanonicalHash(m.db, rawdb.ChainTypeMinor, n) != (common.Hash{}); n++ {
-		rawdb.DeleteCanonicalHash(m.db, rawdb.ChainTypeMinor, n)
+		rawdb.DeleteCanonicalHash(batch, rawdb.ChainTypeMinor, n)
+	}
+	if err := batch.Write(); err != nil {
+		log.Crit("Failed to delete canonical hashes", "err", err)
 	}
 }
 
diff --git a/core/rootblockchain.go b/core/rootblockchain.go
index 6bbf070..447736c 100644
--- a/core/rootblockchain.go
+++ b/core/rootblockchain.go
@@ -186,7 +186,12 @@ func (bc *RootBlockChain) loadLastState() error {
 	}
 	// Everything seems to be fine, set as the head block
 	bc.currentBlock.Store(currentBlock)
-	return nil
+	// a stop between the writes of an insertion leaves canonical hashes ahead of the head
+	batch := bc.db.NewBatch() // all or none, so that a stop leaves no gap
+	for n := currentBlock.NumberU64() + 1; rawdb.ReadCanonicalHash(bc.db, rawdb.ChainTypeRoot, n) != (common.Hash{}); n++ {
+		rawdb.DeleteCanonicalHash(batch, rawdb.ChainTypeRoot, n)
+	}
+	return batch.Write()
 }
 
 // SetHead rewinds the local chain to a new head. In the case of Headers, everything
-- 
2.43.0


From ce050d601a2b1d930f53f930fe17c07a1daeadc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:46 +0000
Subject: [PATCH 49/98] fix: do not find a transaction in a block which left
 the chain

---
 core/minorblockchain_addon.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/minorblockchain_addon.go b/core/minorblockchain_addon.go
index 69d05fb..6af254a 100644
--- a/core/minorblockchain_addon.go
+++ b/core/minorblockchain_addon.go
@@ -1156,6 +1156,12 @@ func (m *MinorBlockChain) AddRootBlock(rBlock *types.RootBlock) (bool, error) {
 // GetTransactionByHash get tx by hash
 func (m *MinorBlockChain) GetTransactionByHash(hash common.Hash) (*types.MinorBlock, uint32) {
 	_, mHash, txIndex := rawdb.ReadTransaction(m.db, hash)
+	if mHash != qkcCommon.EmptyHash {
+		// the index may still name a block which left the chain when the node stopped
+		if b := m.GetMinorBlock(mHash); b == nil || rawdb.ReadCanonicalHash(m.db, rawdb.ChainTypeMinor, b.NumberU64()) != mHash {
+			mHash = qkcCommon.EmptyHash
+		}
+	}
 	if mHash == qkcCommon.EmptyHash { //TODO need? for test???
 		tx := m.txPool.all.Get(hash)
 		if tx == nil {
-- 
2.43.0


From 5516ff31f0dbabd38256d2e0aef041f5d16b4730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:25 +0000
Subject: [PATCH 50/98] fix: announce a block which was stored but not
 committed before a stop

---
 cluster/shard/api_backend.go  | 10 ++++++----
 cluster/slave/api_backend.go  |  2 +-
 core/minorblockchain.go       |  6 +++---
 core/minorblockchain_addon.go |  8 ++++++++
 core/rawdb/accessors_chain.go | 18 +++++++++++++++---
 5 files changed, 33 insertions(+), 11 deletions(-)

diff --git a/cluster/shard/api_backend.go b/cluster/shard/api_backend.go
index 88bf148..aeaa087 100755
--- a/cluster/shard/api_backend.go
+++ b/cluster/shard/api_backend.go
@@ -296,7 +296,7 @@ func (s *ShardBackend) NewMinorBlock(peerId string, block *types.MinorBlock) (er
 	if s.mBPool.getBlockInPool(mHash) {
 		return
 	}
-	if s.MinorBlockChain.HasBlock(block.Hash()) {
+	if s.MinorBlockChain.IsMinorBlockCommittedByHash(block.Hash()) {
 		log.Debug("add minor block, Known minor block", "branch", block.Branch(), "height", block.Number())
 		return
 	}
@@ -325,7 +325,7 @@ func (s *ShardBackend) NewMinorBlock(peerId string, block *types.MinorBlock) (er
 		return nil
 	}
 
-	if err := s.MinorBlockChain.Validator().ValidateBlock(block, false); err != nil {
+	if err := s.MinorBlockChain.Validator().ValidateBlock(block, s.MinorBlockChain.HasBlock(mHash)); err != nil {
 		log.Warn(s.logInfo+" ValidateBlock", "err", err)
 		return nil // next time to handle
 	}
@@ -356,7 +356,8 @@ func (s *ShardBackend) AddMinorBlock(block *types.MinorBlock) error {
 	//TODO support BLOCK_COMMITTING
 	currHead := s.MinorBlockChain.CurrentBlock().Header()
 	log.Debug(s.logInfo, "currHead", currHead.Number)
-	_, xshardLst, err := s.MinorBlockChain.InsertChainForDeposits([]types.IBlock{block}, false)
+	// a block stored before a stop or a failed broadcast is not written again
+	_, xshardLst, err := s.MinorBlockChain.InsertChainForDeposits([]types.IBlock{block}, s.MinorBlockChain.HasBlock(block.Hash()))
 	if err != nil {
 		log.Error(s.logInfo+" Failed to add minor block", "err", err, "len", len(xshardLst))
 		return err
@@ -443,7 +444,8 @@ func (s *ShardBackend) AddBlockListForSync(blockLst []*types.MinorBlock) error {
 			continue
 		}
 		//TODO:support BLOCK_COMMITTING
-		_, xshardLst, err := s.MinorBlockChain.InsertChainForDeposits([]types.IBlock{block}, false)
+		// a block stored before a stop or a failed broadcast is not written again
+		_, xshardLst, err := s.MinorBlockChain.InsertChainForDeposits([]types.IBlock{block}, s.MinorBlockChain.HasBlock(blockHash))
 		if err != nil {
 			log.Error(s.logInfo+" Failed to add minor block", "err", err)
 			return err
diff --git a/cluster/slave/api_backend.go b/cluster/slave/api_backend.go
index 6836787..b414f20 100755
--- a/cluster/slave/api_backend.go
+++ b/cluster/slave/api_backend.go
@@ -98,7 +98,7 @@ func (s *SlaveBackend) AddBlockListForSync(mHashList []common.Hash, peerId strin
 
 	hashList := make([]common.Hash, 0, len(mHashList))
 	for _, hash := range mHashList {
-		if !shard.MinorBlockChain.HasBlock(hash) {
+		if !shard.MinorBlockChain.IsMinorBlockCommittedByHash(hash) {
 			hashList = append(hashList, hash)
 		}
 	}
diff --git a/core/minorblockchain.go b/core/minorblockchain.go
index 780e622..dd5af34 100644
--- a/core/minorblockchain.go
+++ b/core/minorblockchain.go
@@ -541,7 +541,7 @@ func (m *MinorBlockChain) Genesis() *types.MinorBlock {
 
 // HasBlock checks if a block is fully present in the database or not.
 func (m *MinorBlockChain) HasBlock(hash common.Hash) bool {
-	return m.IsMinorBlockCommittedByHash(hash)
+	return rawdb.HasStoredMinorBlock(m.db, hash)
 }
 
 // HasState checks if state trie is fully present in the database or not.
@@ -994,7 +994,7 @@ func (m *MinorBlockChain) WriteBlockWithState(block *types.MinorBlock, receipts
 	if status == CanonStatTy {
 		m.insert(block)
 	}
-	m.CommitMinorBlockByHash(block.Hash())
+	m.storedMinorBlock(block.Hash())
 	m.futureBlocks.Remove(block.Hash())
 	return status, nil
 }
@@ -1276,7 +1276,7 @@ func (m *MinorBlockChain) insertSidechain(it *insertIterator, isCheckDB bool) (i
 			if err := m.WriteBlockWithoutState(block); err != nil {
 				return it.index, nil, nil, nil, err
 			}
-			m.CommitMinorBlockByHash(block.Hash())
+			m.storedMinorBlock(block.Hash())
 			log.Debug("Inserted sidechain block", "number", block.NumberU64(), "hash", block.Hash(),
 				"diff", block.IHeader().GetDifficulty(), "elapsed", common.PrettyDuration(time.Since(start)),
 				"txs", len(block.(*types.MinorBlock).GetTransactions()), "gas", block.(*types.MinorBlock).GetMetaData().GasUsed,
diff --git a/core/minorblockchain_addon.go b/core/minorblockchain_addon.go
index 6af254a..98b83b2 100644
--- a/core/minorblockchain_addon.go
+++ b/core/minorblockchain_addon.go
@@ -1907,6 +1907,14 @@ func (m *MinorBlockChain) IsMinorBlockCommittedByHash(h common.Hash) bool {
 	return rawdb.HasCommitMinorBlock(m.db, h)
 }
 
+// storedMinorBlock marks a block as stored. It is committed once the neighbours
+// and the master know it.
+func (m *MinorBlockChain) storedMinorBlock(h common.Hash) {
+	if !m.HasBlock(h) {
+		rawdb.WriteStoredMinorBlock(m.db, h)
+	}
+}
+
 func (m *MinorBlockChain) CommitMinorBlockByHash(h common.Hash) {
 	rawdb.WriteCommitMinorBlock(m.db, h)
 }
diff --git a/core/rawdb/accessors_chain.go b/core/rawdb/accessors_chain.go
index e789661..1d9e67e 100644
--- a/core/rawdb/accessors_chain.go
+++ b/core/rawdb/accessors_chain.go
@@ -652,10 +652,22 @@ func WriteCommitMinorBlock(db DatabaseWriter, h common.Hash) {
 }
 
 func HasCommitMinorBlock(db DatabaseReader, h common.Hash) bool {
-	if has, err := db.Has(makeCommitMinorBlock(h)); !has || err != nil {
-		return false
+	data, err := db.Get(makeCommitMinorBlock(h))
+	return err == nil && len(data) == 1 && data[0] == 1
+}
+
+// WriteStoredMinorBlock marks a block as stored, which the neighbours and the
+// master may not know yet.
+func WriteStoredMinorBlock(db DatabaseWriter, h common.Hash) {
+	if err := db.Put(makeCommitMinorBlock(h), []byte{0}); err != nil {
+		log.Crit("failed to write stored minor block", "err", err)
 	}
-	return true
+}
+
+// HasStoredMinorBlock tells whether a block is stored, be it committed or not.
+func HasStoredMinorBlock(db DatabaseReader, h common.Hash) bool {
+	has, err := db.Has(makeCommitMinorBlock(h))
+	return has && err == nil
 }
 
 func DeleteMinorBlockCommitStatus(db DatabaseDeleter, h common.Hash) {
-- 
2.43.0


From 006d748abcc2be66086723a00e65e00092a6e528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:08 +0000
Subject: [PATCH 51/98] fix: finish a root block a stop left half added

---
 cluster/master/backend.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/cluster/master/backend.go b/cluster/master/backend.go
index 77d2bf9..cdffd27 100755
--- a/cluster/master/backend.go
+++ b/cluster/master/backend.go
@@ -353,6 +353,13 @@ func (s *QKCMasterBackend) getSlaveInfoListFromClusterConfig() []*rpc.SlaveInfo
 }
 
 func (s *QKCMasterBackend) initShards() error {
+	// a stop may have come between storing the last root block and its arrival at the shards
+	committing := rawdb.ReadRootBlock(s.chainDb, s.rootBlockChain.GetCommittingBlockHash())
+	if committing != nil {
+		if _, err := s.rootBlockChain.WriteBlockWithState(committing); err != nil {
+			return err
+		}
+	}
 	var g errgroup.Group
 	ip, port := s.clusterConfig.Quarkchain.GRPCHost, s.clusterConfig.Quarkchain.GRPCPort
 	for _, client := range s.GetSlaveConns() {
@@ -362,7 +369,16 @@ func (s *QKCMasterBackend) initShards() error {
 			return err
 		})
 	}
-	return g.Wait()
+	if err := g.Wait(); err != nil {
+		return err
+	}
+	if committing != nil {
+		if err := s.broadcastRootBlockToSlaves(committing); err != nil {
+			return err
+		}
+	}
+	s.rootBlockChain.ClearCommittingHash()
+	return nil
 }
 
 func (s *QKCMasterBackend) updateShardStatsLoop() {
-- 
2.43.0


From 3a95006c4cb7a97bf1a240edcb8f34c3b8b591ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:40 +0000
Subject: [PATCH 52/98] fix: write the canonical hash of a genesis block last

---
 core/genesis.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/genesis.go b/core/genesis.go
index 7e809d0..e43ac6b 100644
--- a/core/genesis.go
+++ b/core/genesis.go
@@ -250,7 +250,6 @@ func (g *Genesis) CommitRootBlock(db ethdb.Database) (*types.RootBlock, error) {
 		return nil, fmt.Errorf("can't commit genesis block with number > 0")
 	}
 	rawdb.WriteRootBlock(db, block)
-	rawdb.WriteCanonicalHash(db, rawdb.ChainTypeRoot, block.Hash(), block.NumberU64())
 	rawdb.WriteHeadBlockHash(db, block.Hash())
 	rawdb.WriteHeadHeaderHash(db, block.Hash())
 
@@ -259,6 +258,8 @@ func (g *Genesis) CommitRootBlock(db ethdb.Database) (*types.RootBlock, error) {
 		qkcConfig = config.NewQuarkChainConfig()
 	}
 	rawdb.WriteChainConfig(db, block.Hash(), qkcConfig)
+	// last: it tells that the genesis block was written completely
+	rawdb.WriteCanonicalHash(db, rawdb.ChainTypeRoot, block.Hash(), block.NumberU64())
 	return block, nil
 }
 
@@ -277,7 +278,6 @@ func (g *Genesis) CommitMinorBlock(db ethdb.Database, rootBlock *types.RootBlock
 	}
 	rawdb.WriteMinorBlock(db, block)
 	rawdb.WriteReceipts(db, block.Hash(), nil)
-	rawdb.WriteCanonicalHash(db, rawdb.ChainTypeMinor, block.Hash(), block.Number())
 	rawdb.WriteHeadBlockHash(db, block.Hash())
 	rawdb.WriteHeadHeaderHash(db, block.Hash())
 
@@ -287,6 +287,8 @@ func (g *Genesis) CommitMinorBlock(db ethdb.Database, rootBlock *types.RootBlock
 	}
 	rawdb.WriteCommitMinorBlock(db, block.Hash())
 	rawdb.WriteChainConfig(db, block.Hash(), qkcConfig)
+	// last: it tells that the genesis block was written completely
+	rawdb.WriteCanonicalHash(db, rawdb.ChainTypeMinor, block.Hash(), block.Number())
 	return block, nil
 }
 
-- 
2.43.0


From 4d3af5e71059b9760b640274240ff2b47deb8f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:08 +0000
Subject: [PATCH 53/98] fix: run an abandoned block again when a root block
 confirms it after a stop

---
 core/minorblockchain_addon.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/minorblockchain_addon.go b/core/minorblockchain_addon.go
index 98b83b2..523cbd8 100644
--- a/core/minorblockchain_addon.go
+++ b/core/minorblockchain_addon.go
@@ -1140,6 +1140,12 @@ func (m *MinorBlockChain) AddRootBlock(rBlock *types.RootBlock) (bool, error) {
 		newBlock := m.GetMinorBlock(headerTipHash)
 		log.Warn(m.logInfo+" reWrite", "orig_number", origBlock.Number(), "orig_hash", origBlock.Hash().TerminalString(), "new_number", newBlock.Number(), "new_hash", newBlock.Hash().TerminalString())
 		var err error
+		if !m.HasState(newBlock.Root()) {
+			// the state of an abandoned block does not outlive a stop
+			if err = m.reRunBlockWithState(newBlock); err != nil {
+				return false, err
+			}
+		}
 		if err = m.reWriteBlockIndexTo(origBlock, newBlock); err != nil {
 			return false, err
 		}
-- 
2.43.0


From 5fa87cb30b927b2c840977cda856164f01e1d399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:55 +0000
Subject: [PATCH 54/98] fix: run the ancestors of a stored fork again before
 adding to it

---
 cluster/shard/api_backend.go  | 6 ++++++
 core/minorblockchain_addon.go | 9 +++++++++
 2 files changed, 15 insertions(+)

diff --git a/cluster/shard/api_backend.go b/cluster/shard/api_backend.go
index aeaa087..6e358fd 100755
--- a/cluster/shard/api_backend.go
+++ b/cluster/shard/api_backend.go
@@ -356,6 +356,9 @@ func (s *ShardBackend) AddMinorBlock(block *types.MinorBlock) error {
 	//TODO support BLOCK_COMMITTING
 	currHead := s.MinorBlockChain.CurrentBlock().Header()
 	log.Debug(s.logInfo, "currHead", currHead.Number)
+	if err := s.MinorBlockChain.EnsureParentState(block); err != nil {
+		return err
+	}
 	// a block stored before a stop or a failed broadcast is not written again
 	_, xshardLst, err := s.MinorBlockChain.InsertChainForDeposits([]types.IBlock{block}, s.MinorBlockChain.HasBlock(block.Hash()))
 	if err != nil {
@@ -444,6 +447,9 @@ func (s *ShardBackend) AddBlockListForSync(blockLst []*types.MinorBlock) error {
 			continue
 		}
 		//TODO:support BLOCK_COMMITTING
+		if err := s.MinorBlockChain.EnsureParentState(block); err != nil {
+			return err
+		}
 		// a block stored before a stop or a failed broadcast is not written again
 		_, xshardLst, err := s.MinorBlockChain.InsertChainForDeposits([]types.IBlock{block}, s.MinorBlockChain.HasBlock(blockHash))
 		if err != nil {
diff --git a/core/minorblockchain_addon.go b/core/minorblockchain_addon.go
index 523cbd8..6dd5149 100644
--- a/core/minorblockchain_addon.go
+++ b/core/minorblockchain_addon.go
@@ -546,6 +546,15 @@ func (m *MinorBlockChain) reRunBlockWithState(block *types.MinorBlock) error {
 	return err
 }
 
+// EnsureParentState runs the ancestors of a block again whose state is not there any more.
+func (m *MinorBlockChain) EnsureParentState(block *types.MinorBlock) error {
+	parent := m.GetMinorBlock(block.ParentHash())
+	if parent == nil || m.HasState(parent.Root()) {
+		return nil
+	}
+	return m.reRunBlockWithState(parent)
+}
+
 // getEvmStateForNewBlock get evmState for new block.should have locked
 func (m *MinorBlockChain) getEvmStateForNewBlock(minorBlock *types.MinorBlock, ephemeral bool) (*state.StateDB, error) {
 	prevHash := minorBlock.ParentHash()
-- 
2.43.0


From 3884387f415fff2f19b7a77e3152c1fcbca63d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:45 +0000
Subject: [PATCH 55/98] fix: withdraw abandoned confirmations before the root
 head moves

---
 core/rootblockchain.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/core/rootblockchain.go b/core/rootblockchain.go
index 447736c..b36ea10 100644
--- a/core/rootblockchain.go
+++ b/core/rootblockchain.go
@@ -862,19 +862,15 @@ func (bc *RootBlockChain) reorg(oldBlock, newBlock types.IBlock) error {
 	} else {
 		log.Error("Impossible reorg, please file an issue", "oldnum", oldBlock.NumberU64(), "oldhash", oldBlock.Hash(), "newnum", newBlock.NumberU64(), "newhash", newBlock.Hash())
 	}
-	// Insert the new chain, taking care of the proper incremental order
 	var addedHeaders types.MinorBlockHeaders
 	for i := len(newChain) - 1; i >= 0; i-- {
-		// insert the block in the canonical way, re-writing history
-		bc.insert(newChain[i].(*types.RootBlock))
-		// write lookup entries for hash based transaction/receipt searches
-		rawdb.WriteBlockContentLookupEntriesWithCrossShardHashList(bc.db, newChain[i].(*types.RootBlock), nil)
 		addedHeaders = append(addedHeaders, newChain[i].(*types.RootBlock).MinorBlockHeaders()...)
 	}
 	// calculate the difference between deleted and added transactions
 	diff := types.MinorHeaderDifference(deletedHeaders, addedHeaders)
 	// When transactions get deleted from the database that means the
-	// receipts that were created in the fork must also be deleted
+	// receipts that were created in the fork must also be deleted. This comes
+	// before the head moves: a stop in between leaves none of them behind.
 	batch := bc.db.NewBatch()
 	for _, item := range diff {
 		rawdb.DeleteBlockContentLookupEntry(batch, item.Hash())
@@ -884,6 +880,14 @@ func (bc *RootBlockChain) reorg(oldBlock, newBlock types.IBlock) error {
 	}
 	batch.Write()
 
+	// Insert the new chain, taking care of the proper incremental order
+	for i := len(newChain) - 1; i >= 0; i-- {
+		// insert the block in the canonical way, re-writing history
+		bc.insert(newChain[i].(*types.RootBlock))
+		// write lookup entries for hash based transaction/receipt searches
+		rawdb.WriteBlockContentLookupEntriesWithCrossShardHashList(bc.db, newChain[i].(*types.RootBlock), nil)
+	}
+
 	if len(oldChain) > 0 {
 		go func() {
 			for _, block := range oldChain {
-- 
2.43.0


From 5d2583006d90c514ceb789abdc38311cebc3113e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:13 +0000
Subject: [PATCH 56/98] fix: move the head of a shard and its transaction index
 together

---
 core/minorblockchain.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/core/minorblockchain.go b/core/minorblockchain.go
index dd5af34..b92a2d6 100644
--- a/core/minorblockchain.go
+++ b/core/minorblockchain.go
@@ -1450,17 +1450,23 @@ func (m *MinorBlockChain) reorg(oldBlock, newBlock types.IBlock) error {
 		}
 	}
 
-	batch.Write()
-
-	// Insert the new chain, taking care of the proper incremental order
+	// Insert the new chain, taking care of the proper incremental order. The head
+	// moves together with its indexes: a stop leaves either chain complete.
 	for i := len(newChain) - 1; i >= 0; i-- {
 		// insert the block in the canonical way, re-writing history
-		m.insert(newChain[i].(*types.MinorBlock))
+		rawdb.WriteCanonicalHash(batch, rawdb.ChainTypeMinor, newChain[i].Hash(), newChain[i].NumberU64())
+		rawdb.WriteHeadBlockHash(batch, newChain[i].Hash())
 		// write lookup entries for hash based transaction/receipt searches
-		if err := m.putTxIndexFromBlock(m.db, newChain[i]); err != nil {
+		if err := m.putTxIndexFromBlock(batch, newChain[i]); err != nil {
 			return err
 		}
 	}
+	if err := batch.Write(); err != nil {
+		return err
+	}
+	if len(newChain) > 0 {
+		m.currentBlock.Store(newChain[0].(*types.MinorBlock))
+	}
 
 	if len(deletedLogs) > 0 {
 		var logs [][]*types.Log
-- 
2.43.0


From d79c62e8476cc27de680fab80bfded7fc19af65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:37 +0000
Subject: [PATCH 57/98] fix: do not move the head of a shard ahead of its
 canonical hashes

---
 core/minorblockchain.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/minorblockchain.go b/core/minorblockchain.go
index b92a2d6..2143775 100644
--- a/core/minorblockchain.go
+++ b/core/minorblockchain.go
@@ -1436,8 +1436,10 @@ func (m *MinorBlockChain) reorg(oldBlock, newBlock types.IBlock) error {
 		// we support reorg block from same chain,because we should delete and add tx index
 		log.Warn(m.logInfo+" reorg", "same chain curr", m.CurrentBlock().NumberU64(), "curr.Hash", m.CurrentBlock().Hash().TerminalString(),
 			"newBlock", newBlockNumber, "newBlock's hash", newBlockHash, "newBlock", m.GetMinorBlock(newBlockHash) == nil)
-		if err := m.setHead(newBlockNumber); err != nil {
-			return err
+		if len(newChain) == 0 {
+			if err := m.setHead(newBlockNumber); err != nil {
+				return err
+			}
 		}
 	}
 
-- 
2.43.0


From ffab781f1386b24704a9c491ae9156cb8e5b1933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:16 +0000
Subject: [PATCH 58/98] fix: remote mining: a block offered again becomes the
 current work again

---
 consensus/remote.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/consensus/remote.go b/consensus/remote.go
index 6e484e3..1913cea 100644
--- a/consensus/remote.go
+++ b/consensus/remote.go
@@ -55,10 +55,6 @@ func (c *CommonEngine) remote() {
 
 	makeWork := func(block types.IBlock, adjustedDiff *big.Int, optionalDivider uint64) {
 		hash := block.IHeader().SealHash()
-		if works.Contains(hash) {
-			return
-		}
-
 		diff := block.IHeader().GetDifficulty()
 		if adjustedDiff != nil {
 			diff = adjustedDiff
-- 
2.43.0


From 666ff59594219480c5b4b554a4e2d0621e669ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:16 +0000
Subject: [PATCH 59/98] fix: remote mining: read the table of works under its
 lock

---
 consensus/remote.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/consensus/remote.go b/consensus/remote.go
index 1913cea..5c8f932 100644
--- a/consensus/remote.go
+++ b/consensus/remote.go
@@ -184,6 +184,9 @@ func (c *currentWorks) len() int {
 }
 
 func (c *currentWorks) getWorkByAddr(addr account.Address) (*MiningWork, error) {
+	c.mu.RLock()
+	defer c.mu.RUnlock()
+
 	work := c.works[addr]
 	if work == nil {
 		return nil, ErrNoMiningWork
-- 
2.43.0


From 25dd917a46519543e92daca345496c8ebc339c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:22 +0000
Subject: [PATCH 60/98] fix: remote mining: closing the engine neither hangs
 nor leaves callers hanging

---
 consensus/consensus.go | 20 ++++++++------------
 consensus/remote.go    |  4 ++--
 2 files changed, 10 insertions(+), 14 deletions(-)

diff --git a/consensus/consensus.go b/consensus/consensus.go
index 3c01cf5..e8fd5c4 100644
--- a/consensus/consensus.go
+++ b/consensus/consensus.go
@@ -108,7 +108,7 @@ type CommonEngine struct {
 	lock    sync.Mutex
 
 	closeOnce         sync.Once
-	exitCh            chan chan error
+	exitCh            chan struct{}
 	currentWorks      *currentWorks
 	sealVerifiedCache *lru.Cache
 }
@@ -438,24 +438,20 @@ func (c *CommonEngine) SetThreads(threads int) {
 }
 
 func (c *CommonEngine) SetWork(block types.IBlock, diff *big.Int, optionalDivider uint64, results chan<- types.IBlock) {
-	c.workCh <- &sealTask{block, diff, optionalDivider, results}
+	select {
+	case c.workCh <- &sealTask{block, diff, optionalDivider, results}:
+	case <-c.exitCh:
+	}
 }
 
 func (c *CommonEngine) Close() error {
-	var err error
 	if !c.isRemote {
-		return err
+		return nil
 	}
 	c.closeOnce.Do(func() {
-		if c.exitCh == nil {
-			return
-		}
-		errc := make(chan error)
-		c.exitCh <- errc
-		err = <-errc
 		close(c.exitCh)
 	})
-	return err
+	return nil
 }
 
 // NewCommonEngine returns the common engine mixin.
@@ -472,7 +468,7 @@ func NewCommonEngine(spec MiningSpec, diffCalc DifficultyCalculator, remote bool
 		c.workCh = make(chan *sealTask)
 		c.fetchWorkCh = make(chan *sealWork)
 		c.submitWorkCh = make(chan *mineResult)
-		c.exitCh = make(chan chan error)
+		c.exitCh = make(chan struct{})
 		c.currentWorks = newCurrentWorks()
 		go c.remote()
 	}
diff --git a/consensus/remote.go b/consensus/remote.go
index 5c8f932..d95901e 100644
--- a/consensus/remote.go
+++ b/consensus/remote.go
@@ -145,9 +145,9 @@ func (c *CommonEngine) remote() {
 				result.errc <- errInvalidSealResult
 			}
 
-		case errc := <-c.exitCh:
-			errc <- nil
+		case <-c.exitCh:
 			log.Trace(fmt.Sprintf("Qkchash remote %s from remote", c.Name()))
+			return
 		}
 	}
 }
-- 
2.43.0


From dbced943ff1f201f0561eef10a53cd0eb86415f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:23 +0000
Subject: [PATCH 61/98] fix: miner: asking for a new block never blocks, so
 mining cannot stall for good

---
 cluster/miner/miner.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/cluster/miner/miner.go b/cluster/miner/miner.go
index 2d556a5..d06733f 100644
--- a/cluster/miner/miner.go
+++ b/cluster/miner/miner.go
@@ -78,6 +78,14 @@ func (m *Miner) interrupt() {
 	}
 }
 
+// start asks for a new block to mine; one pending request is enough.
+func (m *Miner) start() {
+	select {
+	case m.startCh <- struct{}{}:
+	default:
+	}
+}
+
 func (m *Miner) allowMining() bool {
 	if !m.IsMining() ||
 		time.Now().Sub(m.ctx.GetTimestamp()).Seconds() > deadtime {
@@ -90,7 +98,7 @@ func (m *Miner) commit(addr *account.Address) {
 	// don't allow to mine
 	if m.api.IsSyncing() {
 		time.Sleep(500 * time.Millisecond)
-		m.startCh <- struct{}{}
+		m.start()
 		return
 	}
 	if !m.allowMining() {
@@ -102,14 +110,14 @@ func (m *Miner) commit(addr *account.Address) {
 		log.Error(m.logInfo, "create block to mine err", err)
 		// retry to create block to mine
 		time.Sleep(2 * time.Second)
-		m.startCh <- struct{}{}
+		m.start()
 		return
 	}
 	tip := m.getTip()
 	if block.NumberU64() <= tip {
 		log.Error(m.logInfo, "block's height small than tipHeight after commit blockNumber ,no need to seal", block.NumberU64(), "tip", m.getTip())
 		time.Sleep(2 * time.Second)
-		m.startCh <- struct{}{}
+		m.start()
 		return
 	}
 	m.workCh <- workAdjusted{block, diff, optionalDivider}
@@ -183,7 +191,7 @@ func (m *Miner) SetMining(mining bool) {
 	defer m.mu.Unlock()
 	m.isMining = mining
 	if mining {
-		m.startCh <- struct{}{}
+		m.start()
 	} else {
 		m.interrupt()
 	}
@@ -230,7 +238,7 @@ func (m *Miner) HandleNewTip() {
 	log.Debug(m.logInfo, "handle new tip: height", m.getTip())
 	m.engine.RefreshWork(m.api.GetTip())
 	if m.api.IsSyncing() == false {
-		m.startCh <- struct{}{}
+		m.start()
 	}
 }
 
-- 
2.43.0


From 1eb2ddde43994464a81ac75a9c794a9f89f05ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:42 +0000
Subject: [PATCH 62/98] fix: miner: hand out work only once the engine knows it

---
 cluster/miner/miner.go | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/cluster/miner/miner.go b/cluster/miner/miner.go
index d06733f..5d42628 100644
--- a/cluster/miner/miner.go
+++ b/cluster/miner/miner.go
@@ -208,15 +208,14 @@ func (m *Miner) GetWork(coinbaseAddr *account.Address) (*consensus.MiningWork, e
 		if err == consensus.ErrNoMiningWork {
 			block, diff, optionalDivider, err := m.api.CreateBlockToMine(&addrForGetWork)
 			if err == nil {
-				work := workAdjusted{block, diff, optionalDivider}
-				go func() {
-					if err := m.engine.Seal(nil, work.block, work.adjustedDifficulty, work.optionalDivider,
-						m.resultCh, m.stopCh); err != nil {
-						log.Error(m.logInfo, "Seal block to mine err", err)
-						coinbase := work.block.Coinbase()
-						m.commit(&coinbase)
-					}
-				}()
+				// the work must be known to the engine before its solution can arrive
+				m.mu.RLock()
+				stopCh := m.stopCh
+				m.mu.RUnlock()
+				if err := m.engine.Seal(nil, block, diff, optionalDivider, m.resultCh, stopCh); err != nil {
+					log.Error(m.logInfo, "Seal block to mine err", err)
+					return nil, err
+				}
 				return &consensus.MiningWork{HeaderHash: block.IHeader().SealHash(), Number: block.NumberU64(),
 					OptionalDivider: optionalDivider, Difficulty: diff}, nil
 			}
-- 
2.43.0


From 14c5a613ac3afa58429fb9bd2d9bd0159f28a491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:26 +0000
Subject: [PATCH 63/98] fix: miner: turning mining off does not deadlock

---
 cluster/miner/miner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cluster/miner/miner.go b/cluster/miner/miner.go
index 5d42628..9f0655b 100644
--- a/cluster/miner/miner.go
+++ b/cluster/miner/miner.go
@@ -188,8 +188,8 @@ func (m *Miner) Stop() {
 // TODO when p2p is syncing block how to stop miner.
 func (m *Miner) SetMining(mining bool) {
 	m.mu.Lock()
-	defer m.mu.Unlock()
 	m.isMining = mining
+	m.mu.Unlock()
 	if mining {
 		m.start()
 	} else {
-- 
2.43.0


From ed6bcc3efdfd675fd5d2acb2ec4a077c1bcd157c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:29 +0000
Subject: [PATCH 64/98] fix: p2p: the name of an unknown operation does not
 crash

---
 p2p/p2p_commands.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p2p/p2p_commands.go b/p2p/p2p_commands.go
index 786742a..66309c5 100644
--- a/p2p/p2p_commands.go
+++ b/p2p/p2p_commands.go
@@ -68,7 +68,7 @@ var OPSerializerMap = map[P2PCommandOp]interface{}{
 
 func (p P2PCommandOp) String() string {
 	if _, ok := OPSerializerMap[p]; !ok {
-		strconv.Itoa(int(p))
+		return strconv.Itoa(int(p))
 	}
 	return reflect.TypeOf(OPSerializerMap[p]).Name()
 }
-- 
2.43.0


From f52b28079b7403ac9cba6a5b8a6bac87b15ca91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:29 +0000
Subject: [PATCH 65/98] fix: master: a root block sent by a peer does not crash
 the master

---
 cluster/master/handle.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cluster/master/handle.go b/cluster/master/handle.go
index 5b92e4a..0ae45e1 100644
--- a/cluster/master/handle.go
+++ b/cluster/master/handle.go
@@ -358,7 +358,7 @@ func (pm *ProtocolManager) handleMsg(peer *Peer) error {
 		}
 
 	case qkcMsg.Op == p2p.NewRootBlockMsg:
-		panic("not implemented")
+		return errors.New("NewRootBlock msg is not supported")
 
 	case qkcMsg.Op == p2p.GetMinorBlockHeaderListWithSkipRequestMsg:
 		go func() {
-- 
2.43.0


From f94cd317882f61d8d51d40403a2a43193d9c8cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:29 +0000
Subject: [PATCH 66/98] fix: master: an answer of another kind from a peer is
 an error, not a crash

---
 cluster/master/peer.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cluster/master/peer.go b/cluster/master/peer.go
index f6fa80a..33149e6 100644
--- a/cluster/master/peer.go
+++ b/cluster/master/peer.go
@@ -306,7 +306,7 @@ func (p *Peer) GetRootBlockHeaderList(req *p2p.GetRootBlockHeaderListWithSkipReq
 	select {
 	case obj := <-rpcchan:
 		if ret, ok := obj.(*p2p.GetRootBlockHeaderListResponse); !ok {
-			panic("invalid return result in GetRootBlockHeaderList")
+			return nil, errors.New("invalid return result in GetRootBlockHeaderList")
 		} else {
 			return ret, nil
 		}
@@ -343,7 +343,7 @@ func (p *Peer) GetMinorBlockHeaderListWithSkip(req *rpc.P2PRedirectRequest) (res
 	select {
 	case obj := <-rpcchan:
 		if ret, ok := obj.([]byte); !ok {
-			panic("invalid return result in GetMinorBlockHeaderList")
+			return nil, errors.New("invalid return result in GetMinorBlockHeaderList")
 		} else {
 			return ret, nil
 		}
@@ -365,7 +365,7 @@ func (p *Peer) GetMinorBlockHeaderList(req *rpc.P2PRedirectRequest) (res []byte,
 	select {
 	case obj := <-rpcchan:
 		if ret, ok := obj.([]byte); !ok {
-			panic("invalid return result in GetMinorBlockHeaderList")
+			return nil, errors.New("invalid return result in GetMinorBlockHeaderList")
 		} else {
 			return ret, nil
 		}
@@ -398,7 +398,7 @@ func (p *Peer) GetRootBlockList(hashes []common.Hash) ([]*types.RootBlock, error
 	select {
 	case obj := <-rpcchan:
 		if ret, ok := obj.([]*types.RootBlock); !ok {
-			panic("invalid return result in GetRootBlockList")
+			return nil, errors.New("invalid return result in GetRootBlockList")
 		} else {
 			return ret, nil
 		}
@@ -433,7 +433,7 @@ func (p *Peer) GetMinorBlockList(req *rpc.P2PRedirectRequest) ([]byte, error) {
 	select {
 	case obj := <-rpcchan:
 		if ret, ok := obj.([]byte); !ok {
-			panic("invalid return result in GetMinorBlockList")
+			return nil, errors.New("invalid return result in GetMinorBlockList")
 		} else {
 			return ret, nil
 		}
-- 
2.43.0


From f711d32a308d22132f03d27312fb7ff865f0cc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:29 +0000
Subject: [PATCH 67/98] fix: master: a repeated response does not block the
 peer handler for ever

---
 cluster/master/handle.go | 36 ++++++------------------------------
 cluster/master/peer.go   | 14 ++++++++++++++
 2 files changed, 20 insertions(+), 30 deletions(-)

diff --git a/cluster/master/handle.go b/cluster/master/handle.go
index 0ae45e1..f57ff0d 100644
--- a/cluster/master/handle.go
+++ b/cluster/master/handle.go
@@ -266,11 +266,7 @@ func (pm *ProtocolManager) handleMsg(peer *Peer) error {
 		if err := serialize.DeserializeFromBytes(qkcMsg.Data, &blockHeaderResp); err != nil {
 			return err
 		}
-		if c := peer.getChan(qkcMsg.RpcID); c != nil {
-			c <- &blockHeaderResp
-		} else {
-			log.Warn(fmt.Sprintf("chan for rpc %d is missing", qkcMsg.RpcID))
-		}
+		peer.deliver(qkcMsg.RpcID, &blockHeaderResp)
 
 	case qkcMsg.Op == p2p.GetRootBlockListRequestMsg:
 		var rootBlockReq p2p.GetRootBlockListRequest
@@ -290,11 +286,7 @@ func (pm *ProtocolManager) handleMsg(peer *Peer) error {
 		if err := serialize.DeserializeFromBytes(qkcMsg.Data, &blockResp); err != nil {
 			return err
 		}
-		if c := peer.getChan(qkcMsg.RpcID); c != nil {
-			c <- blockResp.RootBlockList
-		} else {
-			log.Warn(fmt.Sprintf("chan for rpc %d is missing", qkcMsg.RpcID))
-		}
+		peer.deliver(qkcMsg.RpcID, blockResp.RootBlockList)
 
 	case qkcMsg.Op == p2p.GetRootBlockHeaderListWithSkipRequestMsg:
 		var rBHeadersSkip p2p.GetRootBlockHeaderListWithSkipRequest
@@ -312,11 +304,7 @@ func (pm *ProtocolManager) handleMsg(peer *Peer) error {
 		if err := serialize.DeserializeFromBytes(qkcMsg.Data, &minorBlockResp); err != nil {
 			return err
 		}
-		if c := peer.getChan(qkcMsg.RpcID); c != nil {
-			c <- &minorBlockResp
-		} else {
-			log.Warn(fmt.Sprintf("chan for rpc %d is missing", qkcMsg.RpcID))
-		}
+		peer.deliver(qkcMsg.RpcID, &minorBlockResp)
 
 	case qkcMsg.Op == p2p.GetMinorBlockHeaderListRequestMsg:
 		go func() {
@@ -332,11 +320,7 @@ func (pm *ProtocolManager) handleMsg(peer *Peer) error {
 		}()
 
 	case qkcMsg.Op == p2p.GetMinorBlockHeaderListResponseMsg:
-		if c := peer.getChan(qkcMsg.RpcID); c != nil {
-			c <- qkcMsg.Data
-		} else {
-			log.Warn(fmt.Sprintf("chan for rpc %d is missing", qkcMsg.RpcID))
-		}
+		peer.deliver(qkcMsg.RpcID, qkcMsg.Data)
 
 	case qkcMsg.Op == p2p.GetMinorBlockListRequestMsg:
 		go func() {
@@ -351,11 +335,7 @@ func (pm *ProtocolManager) handleMsg(peer *Peer) error {
 		}()
 
 	case qkcMsg.Op == p2p.GetMinorBlockListResponseMsg:
-		if c := peer.getChan(qkcMsg.RpcID); c != nil {
-			c <- qkcMsg.Data
-		} else {
-			log.Warn(fmt.Sprintf("chan for rpc %d is missing", qkcMsg.RpcID))
-		}
+		peer.deliver(qkcMsg.RpcID, qkcMsg.Data)
 
 	case qkcMsg.Op == p2p.NewRootBlockMsg:
 		return errors.New("NewRootBlock msg is not supported")
@@ -373,11 +353,7 @@ func (pm *ProtocolManager) handleMsg(peer *Peer) error {
 		}()
 
 	case qkcMsg.Op == p2p.GetMinorBlockHeaderListWithSkipResponseMsg:
-		if c := peer.getChan(qkcMsg.RpcID); c != nil {
-			c <- qkcMsg.Data
-		} else {
-			log.Warn(fmt.Sprintf("chan for rpc %d is missing", qkcMsg.RpcID))
-		}
+		peer.deliver(qkcMsg.RpcID, qkcMsg.Data)
 
 	default:
 		return fmt.Errorf("unknown msg code %d", qkcMsg.Op)
diff --git a/cluster/master/peer.go b/cluster/master/peer.go
index 33149e6..5ffebbd 100644
--- a/cluster/master/peer.go
+++ b/cluster/master/peer.go
@@ -259,6 +259,20 @@ func (p *Peer) getChan(rpcId uint64) chan interface{} {
 	return p.chans[rpcId]
 }
 
+// deliver hands a response to the request waiting for it. Only the first response to a request counts.
+func (p *Peer) deliver(rpcId uint64, response interface{}) {
+	c := p.getChan(rpcId)
+	if c == nil {
+		p.Log().Warn("chan for rpc is missing", "rpcId", rpcId)
+		return
+	}
+	select {
+	case c <- response:
+	default:
+		p.Log().Warn("repeated response", "rpcId", rpcId)
+	}
+}
+
 func (p *Peer) addChan(rpcId uint64, rpcchan chan interface{}) {
 	p.chanLock.Lock()
 	defer p.chanLock.Unlock()
-- 
2.43.0


From 67d9bff562541e52e6f4c84d41694e738e37e7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:46 +0000
Subject: [PATCH 68/98] fix: p2p: an unknown disconnect reason from a peer does
 not crash

---
 p2p/peer_error.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p2p/peer_error.go b/p2p/peer_error.go
index ab61bfe..83f8a1b 100644
--- a/p2p/peer_error.go
+++ b/p2p/peer_error.go
@@ -89,7 +89,7 @@ var discReasonToString = [...]string{
 }
 
 func (d DiscReason) String() string {
-	if len(discReasonToString) < int(d) {
+	if d >= DiscReason(len(discReasonToString)) || discReasonToString[d] == "" {
 		return fmt.Sprintf("unknown disconnect reason %d", d)
 	}
 	return discReasonToString[d]
-- 
2.43.0


From ee17be4c7fb02d1ac341ca70dd6ca6c66ebfe2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:46 +0000
Subject: [PATCH 69/98] fix: master: the error of a peer's request is passed on
 without a data race

---
 cluster/master/handle.go | 27 +++++++++++++++------------
 cluster/master/peer.go   | 14 ++++++++++++++
 2 files changed, 29 insertions(+), 12 deletions(-)

diff --git a/cluster/master/handle.go b/cluster/master/handle.go
index f57ff0d..cf12d40 100644
--- a/cluster/master/handle.go
+++ b/cluster/master/handle.go
@@ -188,8 +188,8 @@ func (pm *ProtocolManager) handle(peer *Peer) error {
 	// we can add pm.syncTransactions(p) later
 
 	for {
-		if peer.handleMsgErr != nil {
-			return peer.handleMsgErr
+		if err := peer.getHandleMsgErr(); err != nil {
+			return err
 		}
 		if err := pm.handleMsg(peer); err != nil {
 			peer.Log().Error("message handling failed", "err", err)
@@ -205,6 +205,9 @@ func (pm *ProtocolManager) handleMsg(peer *Peer) error {
 		return err
 	}
 	payload, err := ioutil.ReadAll(msg.Payload)
+	if err != nil {
+		return err
+	}
 	qkcMsg, err := p2p.DecodeQKCMsg(payload)
 	if err != nil {
 		return err
@@ -232,18 +235,18 @@ func (pm *ProtocolManager) handleMsg(peer *Peer) error {
 
 	case qkcMsg.Op == p2p.NewTransactionListMsg:
 		go func() {
-			err = pm.HandleNewTransactionListRequest(peer.id, qkcMsg.RpcID, qkcMsg.MetaData.Branch, qkcMsg.Data)
+			err := pm.HandleNewTransactionListRequest(peer.id, qkcMsg.RpcID, qkcMsg.MetaData.Branch, qkcMsg.Data)
 			if err != nil {
-				peer.handleMsgErr = err
+				peer.setHandleMsgErr(err)
 			}
 		}()
 
 	case qkcMsg.Op == p2p.NewBlockMinorMsg:
 		go func() {
-			err = pm.HandleNewMinorBlock(peer.id, qkcMsg.MetaData.Branch, qkcMsg.Data)
+			err := pm.HandleNewMinorBlock(peer.id, qkcMsg.MetaData.Branch, qkcMsg.Data)
 			if err != nil {
 				if !strings.Contains(err.Error(), core.ErrKnownBlock.Error()) {
-					peer.handleMsgErr = err
+					peer.setHandleMsgErr(err)
 				}
 			}
 		}()
@@ -310,12 +313,12 @@ func (pm *ProtocolManager) handleMsg(peer *Peer) error {
 		go func() {
 			resp, err := pm.HandleGetMinorBlockHeaderListRequest(qkcMsg.MetaData.Branch, qkcMsg.Data)
 			if err != nil {
-				peer.handleMsgErr = err
+				peer.setHandleMsgErr(err)
 			}
 
 			err = peer.SendResponseWithData(p2p.GetMinorBlockHeaderListResponseMsg, p2p.Metadata{Branch: qkcMsg.MetaData.Branch}, qkcMsg.RpcID, resp)
 			if err != nil {
-				peer.handleMsgErr = err
+				peer.setHandleMsgErr(err)
 			}
 		}()
 
@@ -326,11 +329,11 @@ func (pm *ProtocolManager) handleMsg(peer *Peer) error {
 		go func() {
 			resp, err := pm.HandleGetMinorBlockListRequest(peer.id, qkcMsg.MetaData.Branch, qkcMsg.Data)
 			if err != nil {
-				peer.handleMsgErr = err
+				peer.setHandleMsgErr(err)
 			}
 			err = peer.SendResponseWithData(p2p.GetMinorBlockListResponseMsg, p2p.Metadata{Branch: qkcMsg.MetaData.Branch}, qkcMsg.RpcID, resp)
 			if err != nil {
-				peer.handleMsgErr = err
+				peer.setHandleMsgErr(err)
 			}
 		}()
 
@@ -344,11 +347,11 @@ func (pm *ProtocolManager) handleMsg(peer *Peer) error {
 		go func() {
 			resp, err := pm.HandleGetMinorBlockHeaderListWithSkipRequest(peer.id, qkcMsg.MetaData.Branch, qkcMsg.Data)
 			if err != nil {
-				peer.handleMsgErr = err
+				peer.setHandleMsgErr(err)
 			}
 			err = peer.SendResponseWithData(p2p.GetMinorBlockHeaderListWithSkipResponseMsg, p2p.Metadata{Branch: qkcMsg.MetaData.Branch}, qkcMsg.RpcID, resp)
 			if err != nil {
-				peer.handleMsgErr = err
+				peer.setHandleMsgErr(err)
 			}
 		}()
 
diff --git a/cluster/master/peer.go b/cluster/master/peer.go
index 5ffebbd..9bc1459 100644
--- a/cluster/master/peer.go
+++ b/cluster/master/peer.go
@@ -188,6 +188,20 @@ func (p *Peer) SetMinorHead(branch uint32, minorTip *p2p.Tip) {
 	p.head.minorTips[branch] = minorTip
 }
 
+func (p *Peer) getHandleMsgErr() error {
+	p.lock.RLock()
+	defer p.lock.RUnlock()
+
+	return p.handleMsgErr
+}
+
+func (p *Peer) setHandleMsgErr(err error) {
+	p.lock.Lock()
+	defer p.lock.Unlock()
+
+	p.handleMsgErr = err
+}
+
 func (p *Peer) PeerID() string {
 	return p.id
 }
-- 
2.43.0


From 74b106ecf321e11146c6adca6071f35176507b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:25 +0000
Subject: [PATCH 70/98] fix: master: a request to a peer that is gone ends at
 once

---
 cluster/master/peer.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/cluster/master/peer.go b/cluster/master/peer.go
index 9bc1459..6ec509c 100644
--- a/cluster/master/peer.go
+++ b/cluster/master/peer.go
@@ -331,6 +331,7 @@ func (p *Peer) GetRootBlockHeaderList(req *p2p.GetRootBlockHeaderListWithSkipReq
 		return nil, err
 	}
 	timeout := time.NewTimer(requestTimeout)
+	defer timeout.Stop()
 	select {
 	case obj := <-rpcchan:
 		if ret, ok := obj.(*p2p.GetRootBlockHeaderListResponse); !ok {
@@ -338,6 +339,8 @@ func (p *Peer) GetRootBlockHeaderList(req *p2p.GetRootBlockHeaderListWithSkipReq
 		} else {
 			return ret, nil
 		}
+	case <-p.term:
+		return nil, errClosed
 	case <-timeout.C:
 		return nil, fmt.Errorf("peer %v return GetRootBlockHeaderList disc Read Time out for rpcid %d", p.id, rpcId)
 	}
@@ -368,6 +371,7 @@ func (p *Peer) GetMinorBlockHeaderListWithSkip(req *rpc.P2PRedirectRequest) (res
 		return nil, err
 	}
 	timeout := time.NewTimer(requestTimeout)
+	defer timeout.Stop()
 	select {
 	case obj := <-rpcchan:
 		if ret, ok := obj.([]byte); !ok {
@@ -375,6 +379,8 @@ func (p *Peer) GetMinorBlockHeaderListWithSkip(req *rpc.P2PRedirectRequest) (res
 		} else {
 			return ret, nil
 		}
+	case <-p.term:
+		return nil, errClosed
 	case <-timeout.C:
 		return nil, fmt.Errorf("peer %v return GetMinorBlockHeaderList disc Read Time out for rpcid %d", p.id, rpcId)
 	}
@@ -390,6 +396,7 @@ func (p *Peer) GetMinorBlockHeaderList(req *rpc.P2PRedirectRequest) (res []byte,
 	}
 
 	timeout := time.NewTimer(requestTimeout)
+	defer timeout.Stop()
 	select {
 	case obj := <-rpcchan:
 		if ret, ok := obj.([]byte); !ok {
@@ -397,6 +404,8 @@ func (p *Peer) GetMinorBlockHeaderList(req *rpc.P2PRedirectRequest) (res []byte,
 		} else {
 			return ret, nil
 		}
+	case <-p.term:
+		return nil, errClosed
 	case <-timeout.C:
 		return nil, fmt.Errorf("peer %v return GetMinorBlockHeaderList disc Read Time out for rpcid %d", p.id, rpcId)
 	}
@@ -423,6 +432,7 @@ func (p *Peer) GetRootBlockList(hashes []common.Hash) ([]*types.RootBlock, error
 	}
 
 	timeout := time.NewTimer(requestTimeout)
+	defer timeout.Stop()
 	select {
 	case obj := <-rpcchan:
 		if ret, ok := obj.([]*types.RootBlock); !ok {
@@ -430,6 +440,8 @@ func (p *Peer) GetRootBlockList(hashes []common.Hash) ([]*types.RootBlock, error
 		} else {
 			return ret, nil
 		}
+	case <-p.term:
+		return nil, errClosed
 	case <-timeout.C:
 		return nil, fmt.Errorf("peer %v return GetRootBlockList disc Read Time out for rpcid %d", p.id, rpcId)
 	}
@@ -458,6 +470,7 @@ func (p *Peer) GetMinorBlockList(req *rpc.P2PRedirectRequest) ([]byte, error) {
 	}
 
 	timeout := time.NewTimer(requestTimeout)
+	defer timeout.Stop()
 	select {
 	case obj := <-rpcchan:
 		if ret, ok := obj.([]byte); !ok {
@@ -465,6 +478,8 @@ func (p *Peer) GetMinorBlockList(req *rpc.P2PRedirectRequest) ([]byte, error) {
 		} else {
 			return ret, nil
 		}
+	case <-p.term:
+		return nil, errClosed
 	case <-timeout.C:
 		return nil, fmt.Errorf("peer %v return GetMinorBlockList disc Read Time out for rpcid %d", p.id, rpcId)
 	}
-- 
2.43.0


From 5191e3a44b52d5cdc304530ec64824676bf5710b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:25 +0000
Subject: [PATCH 71/98] fix: sync: a peer without a common ancestor ends the
 task instead of crashing it or looping

---
 cluster/sync/minor_task.go | 10 +++++++++-
 cluster/sync/root_task.go  |  8 ++++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/cluster/sync/minor_task.go b/cluster/sync/minor_task.go
index 368148c..57edba1 100644
--- a/cluster/sync/minor_task.go
+++ b/cluster/sync/minor_task.go
@@ -55,6 +55,11 @@ func NewMinorChainTask(
 				return nil, err
 			}
 
+			if ancestor == nil {
+				mTask.stats.AncestorNotFoundCount += 1
+				return nil, errors.New("ancestor not found")
+			}
+
 			if !bc.HasBlock(ancestor.Hash()) {
 				return nil, errors.New("Bad ancestor ")
 			}
@@ -205,12 +210,15 @@ func (m *minorChainTask) findAncestor(bc blockchain) (*types.MinorBlockHeader, e
 				return nil, errors.New("Bad peer returning minor block height out of range ")
 			}
 
-			if preHeader != nil && mh.Number > preHeader.Number {
+			if preHeader != nil && mh.Number >= preHeader.Number {
 				return nil, errors.New("Bad peer returning minor block height must be ordered ")
 			}
 			preHeader = mh
 
 			if !bc.HasBlock(mh.Hash()) {
+				if mh.Number == 0 {
+					return nil, errors.New("Bad peer returning a different genesis ")
+				}
 				end = mh.Number - 1
 				continue
 			}
diff --git a/cluster/sync/root_task.go b/cluster/sync/root_task.go
index 877c7b8..2bcf2a0 100644
--- a/cluster/sync/root_task.go
+++ b/cluster/sync/root_task.go
@@ -65,6 +65,11 @@ func NewRootChainTask(
 				return nil, err
 			}
 
+			if ancestor == nil {
+				rTask.stats.AncestorNotFoundCount += 1
+				return nil, errors.New("ancestor not found")
+			}
+
 			if !bc.HasBlock(ancestor.Hash()) {
 				return nil, errors.New("Bad ancestor ")
 			}
@@ -214,6 +219,9 @@ func (r *rootChainTask) findAncestor(bc blockchain) (*types.RootBlockHeader, err
 			preHeader = rh
 
 			if !bc.HasBlock(rh.Hash()) {
+				if rh.Number == 0 {
+					return nil, errors.New("Bad peer returning a different genesis ")
+				}
 				end = rh.Number - 1
 				continue
 			}
-- 
2.43.0


From 7e0446c64dc9a1cb129be1ec3d001f2dd54c3811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:25 +0000
Subject: [PATCH 72/98] fix: sync: a peer's root tip is compared with the
 announced total difficulty

---
 cluster/sync/root_task.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cluster/sync/root_task.go b/cluster/sync/root_task.go
index 2bcf2a0..91d4129 100644
--- a/cluster/sync/root_task.go
+++ b/cluster/sync/root_task.go
@@ -159,7 +159,7 @@ func (r *rootChainTask) downloadBlockHeaderListAndCheck(start uint32, skip,
 	r.stats.HeadersDownloaded += uint64(len(resp.BlockHeaderList))
 
 	// check total difficulty
-	if resp.RootTip.ToTalDifficulty.Cmp(r.header.GetDifficulty()) <= 0 {
+	if resp.RootTip.ToTalDifficulty.Cmp(r.header.GetTotalDifficulty()) < 0 {
 		return nil, errors.New("Bad peer sending root block tip with lower TD ")
 	}
 
-- 
2.43.0


From 64a5a52acb2c5cf87eff21873b05a72367fd716d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:25 +0000
Subject: [PATCH 73/98] fix: sync: only the blocks that were asked for are
 accepted

---
 cluster/slave/api_backend.go | 5 +++++
 cluster/sync/task.go         | 7 +++++++
 2 files changed, 12 insertions(+)

diff --git a/cluster/slave/api_backend.go b/cluster/slave/api_backend.go
index b414f20..5204311 100755
--- a/cluster/slave/api_backend.go
+++ b/cluster/slave/api_backend.go
@@ -123,6 +123,11 @@ func (s *SlaveBackend) AddBlockListForSync(mHashList []common.Hash, peerId strin
 		if len(bList) != hLen {
 			return nil, errors.New("Failed to add minor blocks for syncing root block: length of downloaded block list is incorrect")
 		}
+		for i, block := range bList {
+			if block.Hash() != tHashList[i] {
+				return nil, errors.New("Failed to add minor blocks for syncing root block: downloaded block is not the requested one")
+			}
+		}
 		if err := shard.AddBlockListForSync(bList); err != nil {
 			return nil, err
 		}
diff --git a/cluster/sync/task.go b/cluster/sync/task.go
index e066ead..cce81fe 100644
--- a/cluster/sync/task.go
+++ b/cluster/sync/task.go
@@ -85,6 +85,7 @@ func (t *task) Run(bc blockchain) error {
 
 		for len(hashlist) > 0 {
 			var blocks []types.IBlock
+			requested := hashlist
 			if len(hashlist) > t.batchSize {
 				blocks, err = t.getBlocks(hashlist[:t.batchSize])
 				if err != nil {
@@ -111,6 +112,12 @@ func (t *task) Run(bc blockchain) error {
 				return err
 			}
 
+			for i, blk := range blocks {
+				if blk.Hash() != requested[i] {
+					return fmt.Errorf("unmatched block hash, expect: %s, actual: %s", requested[i].String(), blk.Hash().String())
+				}
+			}
+
 			counter := 0
 			for _, blk := range blocks {
 				if t.syncBlock != nil {
-- 
2.43.0


From aa35d75b155f4e38f2db6024823ca432820a9a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:25 +0000
Subject: [PATCH 74/98] fix: sync: a closed synchronizer does not block those
 that add a task

---
 cluster/sync/sync.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/cluster/sync/sync.go b/cluster/sync/sync.go
index ce1d0e3..5879634 100644
--- a/cluster/sync/sync.go
+++ b/cluster/sync/sync.go
@@ -1,6 +1,7 @@
 package sync
 
 import (
+	"errors"
 	"math/big"
 	"sync"
 	
@@ -41,6 +42,7 @@ type synchronizer struct {
 	taskRecvCh   chan Task
 	taskAssignCh chan Task
 	abortCh      chan struct{}
+	closeOnce    sync.Once
 
 	syncFeed event.Feed
 
@@ -67,13 +69,17 @@ func (s *synchronizer) SubscribeSyncEvent(ch chan<- *SyncingResult) event.Subscr
 // AddTask sends a root block from peers to the main loop for processing.
 func (s *synchronizer) AddTask(task Task) error {
 	task.SetSendFunc(s.syncFeed.Send)
-	s.taskRecvCh <- task
-	return nil
+	select {
+	case s.taskRecvCh <- task:
+		return nil
+	case <-s.abortCh:
+		return errors.New("synchronizer is closed")
+	}
 }
 
 // Close will stop all on-going channels in the synchronizer.
 func (s *synchronizer) Close() error {
-	s.abortCh <- struct{}{}
+	s.closeOnce.Do(func() { close(s.abortCh) })
 	return nil
 }
 
-- 
2.43.0


From cfe62aeab55016eda09dc6760ba854cbfae8255d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:34 +0000
Subject: [PATCH 75/98] fix: cluster: blocks of more than 4 MB can be passed
 between the master and the slaves

---
 cluster/rpc/grpc_client.go | 5 ++++-
 cluster/rpc/grpc_server.go | 6 +++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/cluster/rpc/grpc_client.go b/cluster/rpc/grpc_client.go
index ba7f18c..b72374c 100755
--- a/cluster/rpc/grpc_client.go
+++ b/cluster/rpc/grpc_client.go
@@ -211,7 +211,10 @@ func (c *rpcClient) grpcOp(hostport string, req *Request) (*Response, error) {
 }
 
 func (c *rpcClient) addConn(hostport string) (*opNode, error) {
-	opts := []grpc.DialOption{grpc.WithInsecure()}
+	opts := []grpc.DialOption{
+		grpc.WithInsecure(),
+		grpc.WithDefaultCallOptions(grpc.MaxCallRecvMsgSize(maxMessageSize), grpc.MaxCallSendMsgSize(maxMessageSize)),
+	}
 	conn, err := grpc.Dial(hostport, opts...)
 	if err != nil {
 		return nil, err
diff --git a/cluster/rpc/grpc_server.go b/cluster/rpc/grpc_server.go
index 003cf13..0913641 100644
--- a/cluster/rpc/grpc_server.go
+++ b/cluster/rpc/grpc_server.go
@@ -10,8 +10,12 @@ import (
 	"strings"
 )
 
+// maxMessageSize leaves room for whatever a p2p command can carry, as blocks from peers travel between
+// the master and the slaves.
+const maxMessageSize = (128 + 1) * 1024 * 1024
+
 func StartGRPCServer(hostport string, apis []rpc.API) (net.Listener, *grpc.Server, error) {
-	handler := grpc.NewServer()
+	handler := grpc.NewServer(grpc.MaxRecvMsgSize(maxMessageSize), grpc.MaxSendMsgSize(maxMessageSize))
 	for _, api := range apis {
 		if qcom.IsNil(api.Service) {
 			panic(fmt.Sprintf("%s service is nil", api.Namespace))
-- 
2.43.0


From f55d8317acbb5400e0b547ff51d456e359964087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:45 +0000
Subject: [PATCH 76/98] fix: p2p: keepalive messages do not end the connection

---
 p2p/qkchandle.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/p2p/qkchandle.go b/p2p/qkchandle.go
index 171d0e5..ba3cb9a 100644
--- a/p2p/qkchandle.go
+++ b/p2p/qkchandle.go
@@ -71,6 +71,11 @@ func (q *qkcRlp) ReadMsg() (Msg, error) {
 }
 
 func (q *qkcRlp) WriteMsg(msg Msg) error {
+	// the frames carry no message code: the other side would take a message of the
+	// base protocol (ping, pong) for a broken command and end the connection.
+	if msg.Code < baseProtocolLength {
+		return msg.Discard()
+	}
 	q.wmu.Lock()
 	defer q.wmu.Unlock()
 	q.fd.SetWriteDeadline(time.Now().Add(frameWriteTimeout))
-- 
2.43.0


From cedf2dec5c980fa3d252809a29e570d8eff90fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:54 +0000
Subject: [PATCH 77/98] fix: master: a delayed announcement does not make the
 peer end the connection

---
 cluster/master/peer.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/cluster/master/peer.go b/cluster/master/peer.go
index 6ec509c..22edfd7 100644
--- a/cluster/master/peer.go
+++ b/cluster/master/peer.go
@@ -71,6 +71,7 @@ type Peer struct {
 	forkDrop *time.Timer // Timed connection dropper if forks aren't validated in time
 
 	head *peerHead
+	told *big.Int // total difficulty of the last root tip this peer was told
 
 	lock             sync.RWMutex
 	chanLock         sync.RWMutex
@@ -229,6 +230,14 @@ func (p *Peer) AsyncSendTransactions(txs *rpc.P2PRedirectRequest) {
 
 // SendNewTip announces the head of each shard or root.
 func (p *Peer) SendNewTip(branch uint32, tip *p2p.Tip) error {
+	if branch == 0 {
+		// heads are announced with a delay: the peer may have been told a later one
+		// already when it connected, and ends the connection if it seems to decrease
+		if p.told != nil && tip.RootBlockHeader.ToTalDifficulty.Cmp(p.told) <= 0 {
+			return nil
+		}
+		p.told = tip.RootBlockHeader.ToTalDifficulty
+	}
 	msg, err := p2p.MakeMsg(p2p.NewTipMsg, 0, p2p.Metadata{Branch: branch}, tip) //NewTipMsg should rpc=0
 	if err != nil {
 		return err
@@ -508,6 +517,9 @@ func (p *Peer) Handshake(protoVersion, networkId uint32, peerId common.Hash, pee
 	// Send out own handshake in a new thread
 	errc := make(chan error, 2)
 
+	if rootBlockHeader != nil {
+		p.told = rootBlockHeader.ToTalDifficulty
+	}
 	hello, err := p2p.MakeMsg(p2p.Hello, 0, p2p.Metadata{}, p2p.HelloCmd{
 		Version:              protoVersion,
 		NetWorkID:            networkId,
-- 
2.43.0


From 713a3becea39228576fe0cd68d1c51644292a011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:12 +0000
Subject: [PATCH 78/98] fix: p2p: header requests with a skip do not wrap
 around

---
 cluster/master/handle.go     | 18 +++++++++++-------
 cluster/slave/api_backend.go | 10 +++++++---
 p2p/p2p_commands.go          | 11 +++++++++--
 3 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/cluster/master/handle.go b/cluster/master/handle.go
index cf12d40..fa7e093 100644
--- a/cluster/master/handle.go
+++ b/cluster/master/handle.go
@@ -517,7 +517,8 @@ func (pm *ProtocolManager) HandleGetRootBlockHeaderListWithSkipRequest(peerId st
 	}
 
 	var (
-		height     uint32
+		height     uint64
+		step       = uint64(request.Skip) + 1
 		hash       common.Hash
 		rBHeader   *types.RootBlockHeader
 		headerlist = make([]*types.RootBlockHeader, 0, request.Limit)
@@ -525,7 +526,7 @@ func (pm *ProtocolManager) HandleGetRootBlockHeaderListWithSkipRequest(peerId st
 
 	rTip := pm.rootBlockChain.CurrentHeader().(*types.RootBlockHeader)
 	if request.Type == 1 {
-		height = *request.GetHeight()
+		height = uint64(*request.GetHeight())
 	} else {
 		hash = request.GetHash()
 		iHeader := pm.rootBlockChain.GetHeader(hash)
@@ -539,19 +540,22 @@ func (pm *ProtocolManager) HandleGetRootBlockHeaderListWithSkipRequest(peerId st
 		if qkcom.IsNil(iHeader) || rBHeader.Hash() != iHeader.Hash() {
 			return &p2p.GetRootBlockHeaderListResponse{RootTip: rTip}, nil
 		}
-		height = rBHeader.Number
+		height = rBHeader.NumberU64()
 	}
 
-	for len(headerlist) < int(request.Limit) && height >= 0 && height <= rTip.Number {
-		iHeader := pm.rootBlockChain.GetHeaderByNumber(uint64(height))
+	for len(headerlist) < int(request.Limit) && height <= rTip.NumberU64() {
+		iHeader := pm.rootBlockChain.GetHeaderByNumber(height)
 		if qkcom.IsNil(iHeader) {
 			break
 		}
 		headerlist = append(headerlist, iHeader.(*types.RootBlockHeader))
 		if request.Direction == qkcom.DirectionToGenesis {
-			height -= request.Skip + 1
+			if height < step {
+				break
+			}
+			height -= step
 		} else {
-			height += request.Skip + 1
+			height += step
 		}
 	}
 
diff --git a/cluster/slave/api_backend.go b/cluster/slave/api_backend.go
index 5204311..f63ca44 100755
--- a/cluster/slave/api_backend.go
+++ b/cluster/slave/api_backend.go
@@ -427,6 +427,7 @@ func (s *SlaveBackend) getMinorBlockHeadersWithSkip(gReq *p2p.GetMinorBlockHeade
 
 	var (
 		height uint64
+		step   = uint64(gReq.Skip) + 1
 		mTip   = shrd.MinorBlockChain.CurrentBlock()
 	)
 	if gReq.Type == qcom.SkipHash {
@@ -444,16 +445,19 @@ func (s *SlaveBackend) getMinorBlockHeadersWithSkip(gReq *p2p.GetMinorBlockHeade
 	}
 
 	headerlist := make([]*types.MinorBlockHeader, 0, gReq.Limit)
-	for len(headerlist) < cap(headerlist) && height >= 0 && height <= mTip.NumberU64() {
+	for len(headerlist) < cap(headerlist) && height <= mTip.NumberU64() {
 		iHeader := shrd.MinorBlockChain.GetHeaderByNumber(height)
 		if qcom.IsNil(iHeader) {
 			break
 		}
 		headerlist = append(headerlist, iHeader.(*types.MinorBlockHeader))
 		if gReq.Direction == qcom.DirectionToGenesis {
-			height -= uint64(gReq.Skip) + 1
+			if height < step {
+				break
+			}
+			height -= step
 		} else {
-			height += uint64(gReq.Skip) + 1
+			height += step
 		}
 	}
 
diff --git a/p2p/p2p_commands.go b/p2p/p2p_commands.go
index 66309c5..adb7bcc 100644
--- a/p2p/p2p_commands.go
+++ b/p2p/p2p_commands.go
@@ -2,6 +2,7 @@ package p2p
 
 import (
 	"bytes"
+	"math"
 	"math/big"
 	"reflect"
 	"strconv"
@@ -201,7 +202,10 @@ func (r *GetRootBlockHeaderListWithSkipRequest) SetHeight(height uint32) {
 func (r *GetRootBlockHeaderListWithSkipRequest) GetHeight() *uint32 {
 	var height *uint32
 	if r.Type == qkcom.SkipHeight {
-		h := uint32(new(big.Int).SetBytes(r.Data[:]).Uint64())
+		h := uint32(math.MaxUint32)
+		if v := new(big.Int).SetBytes(r.Data[:]); v.IsUint64() && v.Uint64() < math.MaxUint32 {
+			h = uint32(v.Uint64())
+		}
 		height = &h
 	}
 	return height
@@ -230,7 +234,10 @@ func (r *GetMinorBlockHeaderListWithSkipRequest) SetHeight(height uint64) {
 
 func (r *GetMinorBlockHeaderListWithSkipRequest) GetHeight() *uint64 {
 	if r.Type == qkcom.SkipHeight {
-		h := new(big.Int).SetBytes(r.Data[:]).Uint64()
+		h := uint64(math.MaxUint64)
+		if v := new(big.Int).SetBytes(r.Data[:]); v.IsUint64() {
+			h = v.Uint64()
+		}
 		return &h
 	}
 	return nil
-- 
2.43.0


From b06dae08b1a81367f1590ee27cfdd8e13b684436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:18 +0000
Subject: [PATCH 79/98] fix: core: the hash at a height is not the head's

---
 core/minorblockchain.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/minorblockchain.go b/core/minorblockchain.go
index 2143775..28319c4 100644
--- a/core/minorblockchain.go
+++ b/core/minorblockchain.go
@@ -602,6 +602,7 @@ func (m *MinorBlockChain) GetHashByHeight(height *uint64) (common.Hash, error) {
 		if bytes.Equal(common.Hash{}.Bytes(), hash.Bytes()) {
 			return hash, fmt.Errorf("shard %v do no have this  height  %v", m.branch.Value, *height)
 		}
+		return hash, nil
 	}
 	return m.CurrentBlock().Hash(), nil
 }
-- 
2.43.0


From 7f44be7ec07009a29577b97555ed901e9f7d0566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:43 +0000
Subject: [PATCH 80/98] fix: slave: a stop does not crash a broadcast under way

---
 cluster/slave/conn_manager.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cluster/slave/conn_manager.go b/cluster/slave/conn_manager.go
index 5230295..06c1f76 100755
--- a/cluster/slave/conn_manager.go
+++ b/cluster/slave/conn_manager.go
@@ -227,7 +227,6 @@ func (s *ConnManager) Stop() {
 	defer s.mu.Unlock()
 	if s.masterClient != nil {
 		s.masterClient.client.Close()
-		s.masterClient = nil
 	}
 	for _, slv := range s.slavesConn {
 		if slv.client != nil {
-- 
2.43.0


From f749d4346b270972639728c777323266b3b3be9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:43 +0000
Subject: [PATCH 81/98] fix: slave: transactions that were all refused are not
 broadcast

---
 cluster/slave/api_backend.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cluster/slave/api_backend.go b/cluster/slave/api_backend.go
index f63ca44..c83184e 100755
--- a/cluster/slave/api_backend.go
+++ b/cluster/slave/api_backend.go
@@ -177,6 +177,9 @@ func (s *SlaveBackend) AddTxList(peerID string, branch uint32, txs []*types.Tran
 			trans = append(trans, txs[idx])
 		}
 	}
+	if len(trans) == 0 {
+		return nil
+	}
 	go func() {
 		if err := s.connManager.BroadcastTransactions(peerID, branch, trans); err != nil {
 			log.Error(s.logInfo, "failed to boadcasttransactions in AddTxList func", "err", err)
-- 
2.43.0


From 847ac6aa638d104eb2e4692f72bc7660f4e28301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:07 +0000
Subject: [PATCH 82/98] fix: rpc: a method that panics is answered with an
 error

---
 rpc/server.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/rpc/server.go b/rpc/server.go
index 153a053..e8c71a9 100644
--- a/rpc/server.go
+++ b/rpc/server.go
@@ -21,6 +21,7 @@ import (
 	"fmt"
 	"reflect"
 	"runtime"
+	"runtime/debug"
 	"strings"
 	"sync"
 	"sync/atomic"
@@ -253,7 +254,15 @@ func (s *Server) createSubscription(ctx context.Context, c ServerCodec, req *ser
 }
 
 // handle executes a request and returns the response from the callback.
-func (s *Server) handle(ctx context.Context, codec ServerCodec, req *serverRequest) (interface{}, func()) {
+func (s *Server) handle(ctx context.Context, codec ServerCodec, req *serverRequest) (response interface{}, callback func()) {
+	// a failing method must not take the server down nor leave the call unanswered
+	defer func() {
+		if r := recover(); r != nil {
+			log.Error("rpc method crashed", "err", r, "stack", string(debug.Stack()))
+			response, callback = codec.CreateErrorResponse(&req.id, &callbackError{"internal error"}), nil
+		}
+	}()
+
 	if req.err != nil {
 		return codec.CreateErrorResponse(&req.id, req.err), nil
 	}
-- 
2.43.0


From d09de2ac257b6676a709473494921fd449999b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:07 +0000
Subject: [PATCH 83/98] fix: rpc: a call of an unknown method is answered with
 its id

---
 rpc/json.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpc/json.go b/rpc/json.go
index f48a5c8..36d2c21 100644
--- a/rpc/json.go
+++ b/rpc/json.go
@@ -234,7 +234,7 @@ func parseRequest(incomingMsg json.RawMessage) ([]rpcRequest, bool, Error) {
 	if len(elems) == 2 {
 		res[0].service, res[0].method = elems[0], elems[1]
 	} else if len(elems) != 1 {
-		return nil, false, &methodNotFoundError{in.Method, ""}
+		res[0].err = &methodNotFoundError{in.Method, ""}
 	}
 
 	if len(in.Payload) == 0 {
-- 
2.43.0


From ab9b53f4fe5e7295e66e64c6aaf44dfbc535847a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:07 +0000
Subject: [PATCH 84/98] fix: rpc: an optional argument can be left out at any
 position

---
 rpc/json.go | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/rpc/json.go b/rpc/json.go
index 36d2c21..188b6ab 100644
--- a/rpc/json.go
+++ b/rpc/json.go
@@ -38,7 +38,8 @@ const (
 )
 
 var (
-	nullBytesForCheck = []byte{'"', 'n', 'u', 'l', 'l', '"'}
+	emptyBytesForCheck = []byte{'"', '"'}
+	nullBytesForCheck  = []byte{'"', 'n', 'u', 'l', 'l', '"'}
 )
 
 type jsonRequest struct {
@@ -332,26 +333,17 @@ func parsePositionalArguments(rawArgs json.RawMessage, types []reflect.Type) ([]
 			return nil, &invalidParamsError{fmt.Sprintf("too many arguments, want at most %d", len(types))}
 		}
 		argval := reflect.New(types[i])
-		flag := false
-		if types[i].Kind() == reflect.Ptr {
-			buf := make([]byte, 2)
-			dec.Buffered().Read(buf)
-			if bytes.Equal(buf[:2], []byte{'"', '"'}) {
-				flag = true
-			}
-
-			buf = make([]byte, 6)
-			dec.Buffered().Read(buf)
-			if bytes.Equal(buf, nullBytesForCheck) {
-				flag = true
-			}
+		var raw json.RawMessage
+		if err := dec.Decode(&raw); err != nil {
+			return nil, &invalidParamsError{fmt.Sprintf("invalid argument %d: %v", i, err)}
 		}
-
-		err := dec.Decode(argval.Interface())
-		if flag {
+		// an empty string stands for a missing optional argument
+		if types[i].Kind() == reflect.Ptr && (bytes.Equal(raw, emptyBytesForCheck) || bytes.Equal(raw, nullBytesForCheck)) {
 			args = append(args, reflect.Zero(types[i]))
 			continue
-		} else if err != nil {
+		}
+
+		if err := json.Unmarshal(raw, argval.Interface()); err != nil {
 			return nil, &invalidParamsError{fmt.Sprintf("invalid argument %d: %v", i, err)}
 		}
 
-- 
2.43.0


From 67c78626f8bb69b459d4bb271733f7037dbdf527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:07 +0000
Subject: [PATCH 85/98] fix: rpc: a malformed address in a filter is an error

---
 rpc/types.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rpc/types.go b/rpc/types.go
index f5c3384..a64aece 100644
--- a/rpc/types.go
+++ b/rpc/types.go
@@ -362,7 +362,10 @@ func decodeAddress(s string) (common.Address, error) {
 	if err == nil && len(b) != common.AddressLength+4 && len(b) != common.AddressLength {
 		err = fmt.Errorf("hex has invalid length %d after decoding; expected %d for address", len(b), common.AddressLength)
 	}
-	return common.BytesToAddress(b[:common.AddressLength]), err
+	if err != nil {
+		return common.Address{}, err
+	}
+	return common.BytesToAddress(b[:common.AddressLength]), nil
 }
 
 func decodeTopic(s string) (common.Hash, error) {
-- 
2.43.0


From ed36ec1c3a57b1d440caf6f031cd3865af436ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:07 +0000
Subject: [PATCH 86/98] fix: qkcapi: calls without a destination do not crash

---
 internal/qkcapi/api.go        | 3 +++
 internal/qkcapi/input_args.go | 6 +++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/qkcapi/api.go b/internal/qkcapi/api.go
index f3f331f..63affc0 100755
--- a/internal/qkcapi/api.go
+++ b/internal/qkcapi/api.go
@@ -30,6 +30,9 @@ func (c *CommonAPI) callOrEstimateGas(args *CallArgs, height *uint64, isCall boo
 		return nil, err
 	}
 	if isCall {
+		if args.To == nil {
+			return nil, errors.New("missing to")
+		}
 		isSameChain := clusterCfg.Quarkchain.IsSameFullShard(args.From.FullShardKey, args.To.FullShardKey)
 		if !isSameChain {
 			return nil, fmt.Errorf("Call cross-shard tx not supported yet\n")
diff --git a/internal/qkcapi/input_args.go b/internal/qkcapi/input_args.go
index 8df08bf..dc83de4 100644
--- a/internal/qkcapi/input_args.go
+++ b/internal/qkcapi/input_args.go
@@ -57,7 +57,11 @@ type GetAccountDataArgs struct {
 
 func (c *CallArgs) setDefaults() {
 	if c.From == nil {
-		temp := account.CreatEmptyAddress(c.To.FullShardKey)
+		var fullShardKey uint32
+		if c.To != nil {
+			fullShardKey = c.To.FullShardKey
+		}
+		temp := account.CreatEmptyAddress(fullShardKey)
 		c.From = &temp
 	}
 }
-- 
2.43.0


From fa8888f0cb43950d78c7e1c58c173c445e90bf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:07 +0000
Subject: [PATCH 87/98] fix: qkcapi: receipts tell the gas used and the created
 contract

---
 internal/encoder/encoder.go |  4 ++--
 internal/qkcapi/api.go      | 12 +-----------
 2 files changed, 3 insertions(+), 13 deletions(-)

diff --git a/internal/encoder/encoder.go b/internal/encoder/encoder.go
index 90d1a6a..61347fb 100644
--- a/internal/encoder/encoder.go
+++ b/internal/encoder/encoder.go
@@ -439,12 +439,12 @@ func ReceiptEncoder(block *types.MinorBlock, i int, receipt *types.Receipt) (map
 		"blockHeight":       hexutil.Uint64(header.Number),
 		"blockNumber":       hexutil.Uint64(header.Number),
 		"cumulativeGasUsed": hexutil.Uint64(receipt.CumulativeGasUsed),
-		"gasUsed":           hexutil.Uint64(receipt.GasUsed - receipt.GetPrevGasUsed()),
+		"gasUsed":           hexutil.Uint64(receipt.GasUsed),
 		"status":            hexutil.Uint64(receipt.Status),
 		"logs":              LogListEncoder(receipt.Logs, false),
 		"timestamp":         hexutil.Uint64(block.Time()),
 	}
-	if receipt.ContractAddress != (ethCommon.Address{}) {
+	if receipt.ContractAddress == (ethCommon.Address{}) {
 		field["contractAddress"] = nil
 	} else {
 		addr := account.Address{
diff --git a/internal/qkcapi/api.go b/internal/qkcapi/api.go
index 63affc0..df67200 100755
--- a/internal/qkcapi/api.go
+++ b/internal/qkcapi/api.go
@@ -84,17 +84,7 @@ func (c *CommonAPI) GetTransactionReceipt(txID hexutil.Bytes) (map[string]interf
 	if minorBlock == nil {
 		return nil, nil
 	}
-	ret, err := encoder.ReceiptEncoder(minorBlock, int(index), receipt)
-	if receipt.ContractAddress != (common.Address{}) {
-		ret["contractAddress"] = nil
-	} else {
-		ret["contractAddress"] = account.Address{
-			Recipient:    receipt.ContractAddress,
-			FullShardKey: minorBlock.Branch().Value,
-		}.ToHex()
-	}
-
-	return ret, err
+	return encoder.ReceiptEncoder(minorBlock, int(index), receipt)
 }
 
 func (c *CommonAPI) GetLogs(args *rpc.FilterQuery, fullShardKey *hexutil.Uint) ([]map[string]interface{}, error) {
-- 
2.43.0


From 854d80f9e16d58915e018c4f3847d73e110c7732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:07 +0000
Subject: [PATCH 88/98] fix: qkcapi: the next page of transactions continues
 the previous one

---
 internal/qkcapi/api.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/internal/qkcapi/api.go b/internal/qkcapi/api.go
index df67200..31562a8 100755
--- a/internal/qkcapi/api.go
+++ b/internal/qkcapi/api.go
@@ -491,15 +491,11 @@ func txDetailEncode(tx *qrpc.TransactionDetail) (map[string]interface{}, error)
 
 func (p *PublicBlockChainAPI) GetAllTransaction(fullShardKey hexutil.Uint, start *hexutil.Bytes, limit *hexutil.Uint) (map[string]interface{}, error) {
 	var (
-		err        error
 		startValue = make([]byte, 0)
 		limitValue = uint32(10)
 	)
 	if start != nil {
-		startValue, err = start.MarshalText()
-		if err != nil {
-			return nil, err
-		}
+		startValue = *start
 	}
 
 	if limit != nil {
-- 
2.43.0


From 852a6f099a01d2eed248ed0c2d51d74b571d063c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:07 +0000
Subject: [PATCH 89/98] fix: qkcapi: creating transactions does not change the
 default gas price

---
 internal/qkcapi/input_args.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/qkcapi/input_args.go b/internal/qkcapi/input_args.go
index dc83de4..836c19c 100644
--- a/internal/qkcapi/input_args.go
+++ b/internal/qkcapi/input_args.go
@@ -114,7 +114,7 @@ func (c *CreateTxArgs) setDefaults(config *config.QuarkChainConfig) error {
 		c.Gas = (*hexutil.Big)(params.DefaultStartGas)
 	}
 	if c.GasPrice == nil {
-		c.GasPrice = (*hexutil.Big)(params.DefaultGasPrice.Div(params.DefaultGasPrice, new(big.Int).SetUint64(10)))
+		c.GasPrice = (*hexutil.Big)(new(big.Int).Div(params.DefaultGasPrice, new(big.Int).SetUint64(10)))
 	}
 	if c.Value == nil {
 		t := hexutil.Big{}
-- 
2.43.0


From 9f1108322b935184654ef45e5f2af6334b57df62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:07 +0000
Subject: [PATCH 90/98] fix: qkcapi: a default for the number of transactions
 of an address

---
 internal/qkcapi/api.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/qkcapi/api.go b/internal/qkcapi/api.go
index 31562a8..491f7e1 100755
--- a/internal/qkcapi/api.go
+++ b/internal/qkcapi/api.go
@@ -430,7 +430,7 @@ func (p *PublicBlockChainAPI) GetCode(address account.Address, blockNr *rpc.Bloc
 }
 
 func (p *PublicBlockChainAPI) GetTransactionsByAddress(address account.Address, start *hexutil.Bytes, limit *hexutil.Uint, transferTokenID *hexutil.Uint64) (map[string]interface{}, error) {
-	limitValue := uint32(0)
+	limitValue := uint32(10)
 	if limit != nil {
 		limitValue = uint32(*limit)
 	}
-- 
2.43.0


From e491654db1c1db660f4594ee35c8f52178597ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:07 +0000
Subject: [PATCH 91/98] fix: qkcapi: a full shard key out of range is refused

---
 internal/qkcapi/common.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/qkcapi/common.go b/internal/qkcapi/common.go
index 458c83e..1f92f1e 100644
--- a/internal/qkcapi/common.go
+++ b/internal/qkcapi/common.go
@@ -2,6 +2,7 @@ package qkcapi
 
 import (
 	"errors"
+	"math"
 	"math/big"
 	"sync"
 	
@@ -23,6 +24,9 @@ var (
 
 func getFullShardId(fullShardKey *hexutil.Uint) (fullShardId uint32, err error) {
 	if fullShardKey != nil {
+		if uint64(*fullShardKey) > math.MaxUint32 {
+			return 0, errors.New("full shard key is out of range")
+		}
 		return clusterCfg.Quarkchain.GetFullShardIdByFullShardKey(uint32(*fullShardKey))
 	}
 	return 1, nil
-- 
2.43.0


From 36a7a6929ccc34d8775e556f83d53de4dc6448f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:27 +0000
Subject: [PATCH 92/98] fix: account: an address with a missing digit is
 refused

---
 account/address.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/account/address.go b/account/address.go
index 94fd03d..34899fe 100755
--- a/account/address.go
+++ b/account/address.go
@@ -3,6 +3,7 @@ package account
 import (
 	"bytes"
 	"encoding/binary"
+	"encoding/hex"
 	"errors"
 	"fmt"
 	"reflect"
@@ -176,7 +177,15 @@ func (Self UnprefixedAddress) MarshalText() (out []byte, err error) {
 }
 
 func (Self *UnprefixedAddress) UnmarshalText(dataWithout0x []byte) error {
-	addr, err := CreatAddressFromBytes(ethCommon.FromHex(string(dataWithout0x)))
+	input := string(dataWithout0x)
+	if common.Has0xPrefix(input) {
+		input = input[2:]
+	}
+	bs, err := hex.DecodeString(input)
+	if err != nil {
+		return err
+	}
+	addr, err := CreatAddressFromBytes(bs)
 	Self.Recipient = addr.Recipient
 	Self.FullShardKey = addr.FullShardKey
 	return err
-- 
2.43.0


From 7e9263cbbd819031eeb231c9914f3dad3ea3b47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:27 +0000
Subject: [PATCH 93/98] fix: core/types: token balances of any size survive
 JSON

---
 core/types/token.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/core/types/token.go b/core/types/token.go
index 8c8060d..ea960cb 100644
--- a/core/types/token.go
+++ b/core/types/token.go
@@ -38,7 +38,7 @@ type TokenBalancesAlias TokenBalances
 func (t *TokenBalances) MarshalJSON() ([]byte, error) {
 	balances := ""
 	for key, val := range t.balances {
-		bal := fmt.Sprintf("%d:%d", key, val.Uint64())
+		bal := fmt.Sprintf("%d:%d", key, val)
 		if balances == "" {
 			balances = bal
 		} else {
@@ -62,17 +62,20 @@ func (t *TokenBalances) UnmarshalJSON(input []byte) error {
 	}
 	*t = TokenBalances(jsoncfg.TokenBalancesAlias)
 	t.balances = make(map[uint64]*big.Int)
+	if jsoncfg.Balances == "" {
+		return nil
+	}
 	balList := strings.Split(jsoncfg.Balances, ",")
 	for _, val := range balList {
 		var (
-			key     int
-			balance int
+			key     uint64
+			balance = new(big.Int)
 		)
-		_, err := fmt.Fscanf(strings.NewReader(val), "%d:%d", &key, &balance)
+		_, err := fmt.Sscanf(val, "%d:%d", &key, balance)
 		if err != nil {
 			return err
 		}
-		t.balances[uint64(key)] = big.NewInt(int64(balance))
+		t.balances[key] = balance
 	}
 	return nil
 }
-- 
2.43.0


From f98b170e681c0c25beb893c90b41029567f5abb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:46 +0000
Subject: [PATCH 94/98] fix: rpc: notifications come after the subscription's
 id and name its namespace

---
 rpc/subscription.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/rpc/subscription.go b/rpc/subscription.go
index 1d021b6..9f0fd7b 100644
--- a/rpc/subscription.go
+++ b/rpc/subscription.go
@@ -82,7 +82,7 @@ func NotifierFromContext(ctx context.Context) (*Notifier, bool) {
 func (n *Notifier) CreateSubscription() *Subscription {
 	s := &Subscription{ID: NewID(), err: make(chan error)}
 	n.subMu.Lock()
-	n.active[s.ID] = s
+	n.inactive[s.ID] = s
 	n.subMu.Unlock()
 	return s
 }
@@ -95,7 +95,7 @@ func (n *Notifier) Notify(id ID, data interface{}) error {
 
 	if sub, active := n.active[id]; active {
 		n.send(sub, data)
-	} else {
+	} else if _, inactive := n.inactive[id]; inactive {
 		n.buffer[id] = append(n.buffer[id], data)
 	}
 	return nil
@@ -125,6 +125,13 @@ func (n *Notifier) unsubscribe(id ID) error {
 		delete(n.active, id)
 		return nil
 	}
+	// the client knows the ID shortly before the subscription is activated
+	if s, found := n.inactive[id]; found {
+		close(s.err)
+		delete(n.inactive, id)
+		delete(n.buffer, id)
+		return nil
+	}
 	return ErrSubscriptionNotFound
 }
 
-- 
2.43.0


From cc0ee7f0d7f9628e5b6cf97448f2f87e90e9b009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:18 +0000
Subject: [PATCH 95/98] fix: cluster/master: statistics neither block new
 blocks for a second nor reorder the history concurrently

---
 cluster/master/backend.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/cluster/master/backend.go b/cluster/master/backend.go
index cdffd27..b72fd90 100755
--- a/cluster/master/backend.go
+++ b/cluster/master/backend.go
@@ -678,7 +678,7 @@ func (s *QKCMasterBackend) UpdateTxCountHistory(txCount, xShardTxCount uint32, c
 		})
 	}
 
-	for s.txCountHistory.Size() > 0 && s.txCountHistory.Right().(TxForQueue).Time < uint64(time.Now().Unix()-3600*12) {
+	for s.txCountHistory.Size() > 0 && s.txCountHistory.Left().(TxForQueue).Time < uint64(time.Now().Unix()-3600*12) {
 		s.txCountHistory.PopLeft()
 	}
 
@@ -690,8 +690,14 @@ func (s *QKCMasterBackend) GetBlockCount() (map[uint32]map[account.Recipient]uin
 }
 
 func (s *QKCMasterBackend) GetStats() (map[string]interface{}, error) {
-	s.lock.RLock()
-	defer s.lock.RUnlock()
+	// measured first, as it takes a second
+	cc, err := cpu.Percent(time.Second, true)
+	if err != nil {
+		return nil, err
+	}
+	// going through the history rotates it
+	s.lock.Lock()
+	defer s.lock.Unlock()
 	branchToShardStats := s.branchToShardStats
 	shards := make([]map[string]interface{}, 0)
 
@@ -762,10 +768,6 @@ func (s *QKCMasterBackend) GetStats() (map[string]interface{}, error) {
 		}
 		peerForDisplay = append(peerForDisplay, temp)
 	}
-	cc, err := cpu.Percent(time.Second, true)
-	if err != nil {
-		return nil, err
-	}
 	return map[string]interface{}{
 		"networkId":            s.clusterConfig.Quarkchain.NetworkID,
 		"chainSize":            s.clusterConfig.Quarkchain.ChainSize,
-- 
2.43.0


From 81e7ad39842054e20a352767e4e510293809a10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:18 +0000
Subject: [PATCH 96/98] fix: cluster/shard: tell the master a head moved by a
 root block

---
 cluster/shard/api_backend.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/cluster/shard/api_backend.go b/cluster/shard/api_backend.go
index 6e358fd..861f972 100755
--- a/cluster/shard/api_backend.go
+++ b/cluster/shard/api_backend.go
@@ -198,7 +198,12 @@ func (s *ShardBackend) AddRootBlock(rBlock *types.RootBlock) (switched bool, err
 	defer s.wg.Done()
 	switched = false
 	if rBlock.Number() > s.genesisRootHeight {
+		head := s.MinorBlockChain.CurrentBlock().Hash()
 		switched, err = s.MinorBlockChain.AddRootBlock(rBlock)
+		if err == nil && s.MinorBlockChain.CurrentBlock().Hash() != head {
+			// the master must not go on with the height of the abandoned head
+			s.reportHead()
+		}
 	}
 	if rBlock.Number() == s.genesisRootHeight {
 		err = s.initGenesisState(rBlock)
@@ -206,6 +211,22 @@ func (s *ShardBackend) AddRootBlock(rBlock *types.RootBlock) (switched bool, err
 	return
 }
 
+// reportHead tells the master the status of the shard after its head was moved by a root block.
+func (s *ShardBackend) reportHead() {
+	block := s.MinorBlockChain.CurrentBlock()
+	status, err := s.MinorBlockChain.GetShardStats()
+	if err == nil {
+		err = s.conn.SendMinorBlockHeaderToMaster(&rpc.AddMinorBlockHeaderRequest{
+			MinorBlockHeader:  block.Header(),
+			ShardStats:        status,
+			CoinbaseAmountMap: block.CoinbaseAmount(),
+		})
+	}
+	if err != nil {
+		log.Error(s.logInfo+" Failed to report the new head", "height", block.NumberU64(), "err", err)
+	}
+}
+
 // ######################## minor block Methods ########################
 func (s *ShardBackend) GetHeaderByNumber(height qrpc.BlockNumber) (*types.MinorBlockHeader, error) {
 	var iHeader types.IHeader
-- 
2.43.0


From c8da137d66dbce6117c7bb61d0fe1fd6ab075815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:38 +0000
Subject: [PATCH 97/98] fix: core: a call at a height sees that height's block,
 not the head's

---
 core/minorblockchain_addon.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/minorblockchain_addon.go b/core/minorblockchain_addon.go
index 6dd5149..de36915 100644
--- a/core/minorblockchain_addon.go
+++ b/core/minorblockchain_addon.go
@@ -722,7 +722,7 @@ func (m *MinorBlockChain) ExecuteTx(tx *types.Transaction, fromAddress *account.
 	}
 	gp := new(GasPool).AddGas(mBlock.GasLimit().Uint64())
 	gasUsed := new(uint64)
-	ret, receipt, _, err := ApplyTransaction(m.ChainConfig(), m, gp, state, m.CurrentHeader(), evmTx, gasUsed, *m.GetVMConfig())
+	ret, receipt, _, err := ApplyTransaction(m.ChainConfig(), m, gp, state, mBlock.IHeader(), evmTx, gasUsed, *m.GetVMConfig())
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 98d738634e6adadee81d52adcb330c9c05282c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:59 +0000
Subject: [PATCH 98/98] fix: core: gas estimates end for any gas limit, survive
 unappliable transactions and fund cross-shard trials throughout

---
 core/minorblockchain_addon.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/core/minorblockchain_addon.go b/core/minorblockchain_addon.go
index de36915..31fab21 100644
--- a/core/minorblockchain_addon.go
+++ b/core/minorblockchain_addon.go
@@ -1284,15 +1284,18 @@ func (m *MinorBlockChain) EstimateGas(tx *types.Transaction, fromAddress *accoun
 		hi = evmTxStartGas
 	}
 	cap := hi
+	// validateTx moves the sender to this shard, so look before the first run
+	isXShardDeposit := tx.EvmTx.IsCrossShard() && tx.EvmTx.ToFullShardId() == m.branch.Value
 
 	runTx := func(gas uint32) error {
 		evmState := currentState.Copy()
-		if tx.EvmTx.IsCrossShard() && tx.EvmTx.ToFullShardId() == m.branch.Value {
-			evmState.SetBalance(fromAddress.Recipient, tx.EvmTx.Value(), tx.EvmTx.TransferTokenID())
+		if isXShardDeposit {
+			// the value and the fee come from the source shard
+			evmState.AddBalance(fromAddress.Recipient, tx.EvmTx.Value(), tx.EvmTx.TransferTokenID())
 
-			gasFee := big.NewInt(int64(tx.EvmTx.Gas()))
+			gasFee := new(big.Int).SetUint64(uint64(gas))
 			gasFee.Mul(gasFee, tx.EvmTx.GasPrice())
-			evmState.SetBalance(fromAddress.Recipient, gasFee, tx.EvmTx.GasTokenID())
+			evmState.AddBalance(fromAddress.Recipient, gasFee, tx.EvmTx.GasTokenID())
 		}
 
 		evmState.SetGasUsed(new(big.Int).SetUint64(0))
@@ -1304,17 +1307,18 @@ func (m *MinorBlockChain) EstimateGas(tx *types.Transaction, fromAddress *accoun
 
 		gp := new(GasPool).AddGas(evmState.GetGasLimit().Uint64())
 		gasUsed := new(uint64)
-		receipt := new(types.Receipt)
-		_, receipt, _, err = ApplyTransaction(m.ChainConfig(), m, gp, evmState, m.CurrentHeader(), evmTx, gasUsed, m.vmConfig)
-
+		_, receipt, _, err := ApplyTransaction(m.ChainConfig(), m, gp, evmState, m.CurrentHeader(), evmTx, gasUsed, m.vmConfig)
+		if err != nil {
+			return err
+		}
 		if receipt.Status == types.ReceiptStatusFailed {
 			return errors.New("failed")
 		}
-		return err
+		return nil
 	}
 
 	for lo+1 < hi {
-		mid := (lo + hi) / 2
+		mid := lo + (hi-lo)/2
 		if runTx(mid) == nil {
 			hi = mid
 		} else {
-- 
2.43.0

