package gethvm

import (
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
)

// NewAddress is the one rule in which the two chains differ on purpose: the
// address of a created contract.
var NewAddress = func(from common.Address, nonce uint64) common.Address {
	return crypto.CreateAddress(from, nonce)
}
