package c14

import "crypto/sha256"

func dsha(d []byte) []byte {
	a := sha256.Sum256(d)
	b := sha256.Sum256(a[:])
	return b[:]
}
