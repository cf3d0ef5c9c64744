// Package c27: a key file gives back the key to the right password only. Key
// files are written by the code and by an independent implementation of the
// format (with a cheap key derivation, so that thousands can be tried), opened
// with right and wrong passwords, and damaged field by field and byte by byte.
package c27

import (
	"crypto/aes"
	"crypto/cipher"
	"crypto/hmac"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/big"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/zzverif/vlib"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	"pgregory.net/rapid"
)

type obj = map[string]interface{}

func pick[T any](rt *rapid.T, n string, v ...T) T { return rapid.SampledFrom(v).Draw(rt, n) }

// derive is PBKDF2-HMAC-SHA256 for one block of output.
func derive(password string, salt []byte, c int) []byte {
	m := hmac.New(sha256.New, []byte(password))
	m.Write(salt)
	binary.Write(m, binary.BigEndian, uint32(1))
	u := m.Sum(nil)
	out := append([]byte{}, u...)
	for i := 1; i < c; i++ {
		m.Reset()
		m.Write(u)
		u = m.Sum(nil)
		for k := range out {
			out[k] ^= u[k]
		}
	}
	return out
}

func ctr(key, iv, in []byte) []byte {
	b, _ := aes.NewCipher(key)
	out := make([]byte, len(in))
	cipher.NewCTR(b, iv).XORKeyStream(out, in)
	return out
}

// address of a key, from the definition.
func address(key []byte) (common.Address, string) {
	k, err := crypto.ToECDSA(key)
	if err != nil {
		panic(err)
	}
	r := crypto.PubkeyToAddress(k.PublicKey)
	return r, fmt.Sprintf("0x%x0000%02x%02x", r[:], r[0], r[10])
}

func drawKey(rt *rapid.T) []byte {
	n := crypto.S256().Params().N
	switch rapid.IntRange(0, 3).Draw(rt, "key kind") {
	case 0: // few significant bytes
		v := new(big.Int).SetBytes(rapid.SliceOfN(rapid.Byte(), 1, 8).Draw(rt, "key"))
		return common.LeftPadBytes(v.Add(v, big.NewInt(1)).Bytes(), 32)
	case 1: // close to the order
		v := new(big.Int).SetBytes(rapid.SliceOfN(rapid.Byte(), 0, 3).Draw(rt, "key"))
		return common.LeftPadBytes(v.Sub(n, v.Add(v, big.NewInt(1))).Bytes(), 32)
	}
	v := new(big.Int).SetBytes(rapid.SliceOfN(rapid.Byte(), 32, 32).Draw(rt, "key"))
	v.Mod(v, new(big.Int).Sub(n, big.NewInt(1)))
	return common.LeftPadBytes(v.Add(v, big.NewInt(1)).Bytes(), 32)
}

func drawPassword(rt *rapid.T, n string) string {
	switch rapid.IntRange(0, 4).Draw(rt, n+" kind") {
	case 0:
		return pick(rt, n, "", " ", "password", "Password", "pass word", "пароль", strings.Repeat("x", 64), strings.Repeat("x", 65), strings.Repeat("long", 40))
	case 1:
		return string(rapid.SliceOfN(rapid.Byte(), 0, 80).Draw(rt, n))
	}
	return rapid.StringN(0, 20, -1).Draw(rt, n)
}

// normal is the password as HMAC sees it: zero padding and over-long passwords
// are folded by the standard itself.
func normal(p string) string {
	if len(p) > 64 {
		h := sha256.Sum256([]byte(p))
		p = string(h[:])
	}
	return strings.TrimRight(p, "\x00")
}

type file struct {
	key      []byte
	password string
	c        int
	salt, iv []byte
	addr     bool
	json     obj
}

func drawFile(rt *rapid.T) *file {
	f := &file{key: drawKey(rt), password: drawPassword(rt, "password"), c: rapid.IntRange(1, 60).Draw(rt, "c"),
		salt: rapid.SliceOfN(rapid.Byte(), 0, 32).Draw(rt, "salt"), iv: rapid.SliceOfN(rapid.Byte(), 16, 16).Draw(rt, "iv"), addr: rapid.Bool().Draw(rt, "address")}
	d := derive(f.password, f.salt, f.c)
	text := ctr(d[:16], f.iv, f.key)
	f.json = obj{
		"crypto": obj{"cipher": "aes-128-ctr", "ciphertext": hex.EncodeToString(text), "cipherparams": obj{"iv": hex.EncodeToString(f.iv)},
			"kdf": "pbkdf2", "kdfparams": obj{"prf": "hmac-sha256", "dklen": 32, "c": f.c, "salt": hex.EncodeToString(f.salt)},
			"mac": hex.EncodeToString(crypto.Keccak256(d[16:32], text)), "version": 1},
		"id": "29e623a5-5175-4bde-a912-3988f86a312c", "version": 3}
	if f.addr {
		_, a := address(f.key)
		f.json["address"] = pick(rt, "form", a, a[2:], strings.ToUpper(a[2:]))
	}
	return f
}

func (f *file) text() []byte {
	b, err := json.Marshal(f.json)
	if err != nil {
		panic(err)
	}
	return b
}

var dir = func() string {
	d, err := ioutil.TempDir("", "c27")
	if err != nil {
		panic(err)
	}
	return d
}()

func TestMain(m *testing.M) {
	rc := m.Run()
	os.RemoveAll(dir)
	os.Exit(rc)
}

func load(rt *rapid.T, what string, text []byte, password string) (acc account.Account, err error) {
	path := filepath.Join(dir, "key.json")
	if err := ioutil.WriteFile(path, text, 0600); err != nil {
		rt.Fatal(err)
	}
	defer func() {
		if r := recover(); r != nil {
			rt.Fatalf("%s: opening the file panics: %v\n%s", what, r, text)
		}
	}()
	return account.Load(path, password)
}

// mustOpen: the account carries exactly the key, its recipient and its default address.
func mustOpen(rt *rapid.T, what string, text []byte, password string, key []byte) account.Account {
	acc, err := load(rt, what, text, password)
	if err != nil {
		rt.Fatalf("%s: refused: %v\n%s", what, err, text)
	}
	is(rt, what, acc, key)
	return acc
}

func is(rt *rapid.T, what string, acc account.Account, key []byte) {
	r, a := address(key)
	k := acc.Identity.GetKey()
	if hex.EncodeToString(key) != acc.PrivateKey() || string(k[:]) != string(key) {
		rt.Fatalf("%s: key %s, stored %x", what, acc.PrivateKey(), key)
	}
	if acc.Identity.GetRecipient() != r || acc.QKCAddress.Recipient != r || acc.Address() != a {
		rt.Fatalf("%s: address %s recipient %x, of the key %s", what, acc.Address(), acc.Identity.GetRecipient(), a)
	}
}

// neverOther: the key itself or an error.
func neverOther(rt *rapid.T, c *vlib.C, what string, text []byte, f *file) {
	acc, err := load(rt, what, text, f.password)
	if err != nil {
		c.Label("refused")
		return
	}
	c.Label("same key")
	is(rt, what, acc, f.key)
}

// fields lists every field of the file as a way to replace it.
func fields(prefix string, o obj, out map[string]func(v interface{}, del bool)) {
	for k, v := range o {
		k, o := k, o
		out[prefix+k] = func(v interface{}, del bool) {
			if del {
				delete(o, k)
			} else {
				o[k] = v
			}
		}
		if sub, ok := v.(obj); ok {
			fields(prefix+k+".", sub, out)
		}
	}
}

func get(o obj, path string) interface{} {
	parts := strings.Split(path, ".")
	for _, p := range parts[:len(parts)-1] {
		o = o[p].(obj)
	}
	return o[parts[len(parts)-1]]
}

func TestKeyFiles(t *testing.T) {
	vlib.Check(t, 500, 20000, "the file was opened, then tried with a wrong password and damaged", func(rt *rapid.T, c *vlib.C) {
		f := drawFile(rt)
		acc := mustOpen(rt, "opened", f.text(), f.password, f.key)
		if acc.UUID().String() != f.json["id"] {
			rt.Fatalf("id %v", acc.UUID())
		}
		for i := 0; i < 3; i++ {
			p := drawPassword(rt, "other")
			if rapid.Bool().Draw(rt, "near") && len(f.password) > 0 {
				b := []byte(f.password)
				switch rapid.IntRange(0, 3).Draw(rt, "how") {
				case 0:
					b[rapid.IntRange(0, len(b)-1).Draw(rt, "at")] ^= byte(1 << rapid.IntRange(0, 7).Draw(rt, "bit"))
				case 1:
					b = b[:len(b)-1]
				case 2:
					b = append(b, byte(rapid.IntRange(1, 255).Draw(rt, "more")))
				case 3:
					b = []byte(strings.ToUpper(string(b)))
				}
				p = string(b)
			}
			if normal(p) == normal(f.password) {
				continue
			}
			if acc, err := load(rt, "wrong password", f.text(), p); err == nil {
				rt.Fatalf("password %q opens a file written with %q: key %s, stored %x", p, f.password, acc.PrivateKey(), f.key)
			}
		}
		// damage one field
		set := map[string]func(interface{}, bool){}
		fields("", f.json, set)
		names := []string{"crypto", "crypto.cipher", "crypto.ciphertext", "crypto.cipherparams", "crypto.cipherparams.iv", "crypto.kdf", "crypto.kdfparams", "crypto.kdfparams.prf",
			"crypto.kdfparams.dklen", "crypto.kdfparams.c", "crypto.kdfparams.salt", "crypto.mac", "crypto.version", "id", "version"}
		if f.addr {
			names = append(names, "address")
		}
		name := pick(rt, "field", names...)
		// Known finding: the format does not authenticate the IV, only the address does.
		ivUnprotected := !f.addr
		old := get(f.json, name)
		intact := f.text()
		if s, ok := old.(string); ok && len(s) > 0 && rapid.IntRange(0, 2).Draw(rt, "how") > 0 {
			b := []byte(s)
			at := rapid.IntRange(0, len(b)-1).Draw(rt, "at")
			switch rapid.IntRange(0, 3).Draw(rt, "edit") {
			case 0:
				b[at] = pick[byte](rt, "with", []byte("0123456789abcdefABCDEFxz")...)
			case 1:
				b = append(b[:at:at], b[at+1:]...)
			case 2:
				b = append(b[:at:at], b[min(len(b), at+2):]...)
			case 3:
				b = append(b, pick[byte](rt, "more", '0', 'a', 'f'), pick[byte](rt, "more", '0', 'a', 'f'))
			}
			set[name](string(b), false)
		} else if rapid.IntRange(0, 2).Draw(rt, "drop") == 0 {
			set[name](nil, true)
		} else {
			set[name](pick[interface{}](rt, "value", nil, "", "00", "zz", 0, 1, 16, 31, 32, 33, 48, -1, -32, 2.5, true, []int{}, obj{}, "0x"+hex.EncodeToString(make([]byte, 24))), false)
		}
		damaged := f.text()
		if name == "crypto.cipherparams.iv" && ivUnprotected && string(damaged) != string(intact) {
			if s, ok := get(f.json, name).(string); ok {
				if iv, err := hex.DecodeString(s); err == nil && len(iv) == 16 {
					c.Label("known: iv of a file without address")
					return
				}
			}
		}
		c.Label("damaged %s", name)
		neverOther(rt, c, "damaged "+name, damaged, f)

		// damage bytes of the original text
		for i := 0; i < 4; i++ {
			b := append([]byte{}, intact...)
			at := rapid.IntRange(0, len(b)-1).Draw(rt, "at")
			switch rapid.IntRange(0, 3).Draw(rt, "edit") {
			case 0:
				b[at] ^= byte(1 << rapid.IntRange(0, 7).Draw(rt, "bit"))
			case 1:
				b[at] = pick[byte](rt, "with", []byte("0123456789abcdf\"{},:")...)
			case 2:
				b = b[:at]
			case 3:
				b = append(b[:at:at], b[at+1:]...)
			}
			if ivUnprotected {
				k := strings.Index(string(intact), `"iv":"`)
				if at >= k-2 && at < k+6+34 {
					continue
				}
			}
			neverOther(rt, c, fmt.Sprintf("byte %d of %s damaged", at, intact), b, f)
		}
		c.NonTrivial("%s", name)
		c.Sample("c %d, %d bytes of salt, password %q, address %v, damaged %s", f.c, len(f.salt), f.password, f.addr, name)
	})
}

// TestWritten: what the code itself writes can be read by it and by the
// independent reader, and by no other password.
func TestWritten(t *testing.T) {
	vlib.Check(t, 6, 60, "every written file", func(rt *rapid.T, c *vlib.C) {
		key, password := drawKey(rt), drawPassword(rt, "password")
		acc, err := account.NewAccountWithKey(account.BytesToIdentityKey(key))
		if err != nil {
			rt.Fatal(err)
		}
		is(rt, "created", acc, key)
		with := rapid.Bool().Draw(rt, "address")
		sub := filepath.Join(dir, "out") + "/"
		text, err := acc.Dump(password, with, true, sub)
		if err != nil {
			rt.Fatal(err)
		}
		path := sub + acc.UUID().String() + ".json"
		onDisk, err := ioutil.ReadFile(path)
		if err != nil || string(onDisk) != string(text) {
			rt.Fatalf("file on disk: %s (%v), written %s", onDisk, err, text)
		}
		got, err := account.Load(path, password)
		if err != nil {
			rt.Fatalf("its own file is refused: %v\n%s", err, text)
		}
		is(rt, "loaded", got, key)
		if got.UUID().String() != acc.UUID().String() {
			rt.Fatalf("id %v, stored %v", got.UUID(), acc.UUID())
		}
		// independent reader
		var j struct {
			Address string
			Crypto  struct {
				Ciphertext, Mac string
				Cipherparams    struct{ Iv string }
				Kdfparams       struct {
					C, Dklen int
					Salt     string
				}
			}
		}
		if err := json.Unmarshal(text, &j); err != nil {
			rt.Fatal(err)
		}
		if j.Crypto.Kdfparams.C < 100000 {
			rt.Fatalf("key derivation weakened to %d rounds", j.Crypto.Kdfparams.C)
		}
		d := derive(password, common.FromHex(j.Crypto.Kdfparams.Salt), j.Crypto.Kdfparams.C)
		ct := common.FromHex(j.Crypto.Ciphertext)
		if hex.EncodeToString(crypto.Keccak256(d[16:32], ct)) != j.Crypto.Mac {
			rt.Fatalf("the file is not in the documented format: %s", text)
		}
		if k := ctr(d[:16], common.FromHex(j.Crypto.Cipherparams.Iv), ct); string(k) != string(key) {
			rt.Fatalf("the file holds %x, the account %x", k, key)
		}
		_, a := address(key)
		if with && strings.TrimPrefix(j.Address, "0x") != a[2:] || !with && j.Address != "" {
			rt.Fatalf("address %q in the file of %s", j.Address, a)
		}
		other := drawPassword(rt, "other")
		if normal(other) != normal(password) {
			if x, err := account.Load(path, other); err == nil {
				rt.Fatalf("password %q opens a file written with %q: %s", other, password, x.PrivateKey())
			}
		}
		// two files of one key share no salt or iv
		again, err := acc.Dump(password, with, false, "")
		if err != nil {
			rt.Fatal(err)
		}
		if strings.Contains(string(again), j.Crypto.Kdfparams.Salt) || strings.Contains(string(again), j.Crypto.Cipherparams.Iv) {
			rt.Fatalf("salt or iv reused:\n%s\n%s", text, again)
		}
		c.NonTrivial("written")
		c.Sample("key %x password %q address %v", key, password, with)
	})
}
