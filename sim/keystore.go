package sim

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"strings"

	ethcrypto "github.com/ethereum/go-ethereum/crypto"
	"golang.org/x/crypto/scrypt"
)

// A reader and writer of key stores of its own, from the published format.

type ksParams struct {
	N, R, P, DK int
	Salt, IV    []byte
}

func ctr(key, iv, in []byte) []byte {
	b, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	out := make([]byte, len(in))
	cipher.NewCTR(b, iv).XORKeyStream(out, in)
	return out
}

// ksWrite makes a key store. coin is "icx", "evm" or "".
func ksWrite(secret, pw []byte, coin string, p ksParams, id string) []byte {
	dk, err := scrypt.Key(pw, p.Salt, p.N, p.R, p.P, p.DK)
	if err != nil {
		panic(err)
	}
	ct := ctr(dk[:16], p.IV, secret)
	m := map[string]interface{}{
		"version": 3, "id": id, "address": ksAddress(secret, coin),
		"crypto": map[string]interface{}{
			"cipher": "aes-128-ctr", "cipherparams": map[string]string{"iv": hex.EncodeToString(p.IV)},
			"ciphertext": hex.EncodeToString(ct), "kdf": "scrypt",
			"kdfparams": map[string]interface{}{"dklen": p.DK, "n": p.N, "r": p.R, "p": p.P, "salt": hex.EncodeToString(p.Salt)},
			"mac":       hex.EncodeToString(keccak(append(append([]byte{}, dk[16:32]...), ct...))),
		},
	}
	if coin != "" {
		m["coinType"] = coin
	}
	b, _ := json.Marshal(m)
	return b
}

func ksAddress(secret []byte, coin string) string {
	k, err := ethcrypto.ToECDSA(secret)
	if err != nil {
		return "invalid"
	}
	if coin == "icx" {
		return icxAddress(ethcrypto.FromECDSAPub(&k.PublicKey))
	}
	return strings.ToLower(ethcrypto.PubkeyToAddress(k.PublicKey).Hex())[2:]
}

// ksRead opens a key store.
func ksRead(b, pw []byte) (secret []byte, address, coin string, p ksParams, err error) {
	var m struct {
		Version  int    `json:"version"`
		ID       string `json:"id"`
		Address  string `json:"address"`
		CoinType string `json:"coinType"`
		Crypto   struct {
			Cipher       string `json:"cipher"`
			CipherParams struct {
				IV string `json:"iv"`
			} `json:"cipherparams"`
			CipherText string `json:"ciphertext"`
			KDF        string `json:"kdf"`
			KDFParams  struct {
				DKLen, N, R, P int
				Salt           string
			} `json:"kdfparams"`
			MAC string `json:"mac"`
		} `json:"crypto"`
	}
	if err = json.Unmarshal(b, &m); err != nil {
		return
	}
	if m.Version != 3 || m.Crypto.Cipher != "aes-128-ctr" || m.Crypto.KDF != "scrypt" {
		err = fmt.Errorf("version %d cipher %q kdf %q", m.Version, m.Crypto.Cipher, m.Crypto.KDF)
		return
	}
	k := m.Crypto.KDFParams
	p = ksParams{N: k.N, R: k.R, P: k.P, DK: k.DKLen}
	var ct, mac []byte
	for _, x := range []struct {
		to *[]byte
		s  string
	}{{&p.Salt, k.Salt}, {&p.IV, m.Crypto.CipherParams.IV}, {&ct, m.Crypto.CipherText}, {&mac, m.Crypto.MAC}} {
		if *x.to, err = hex.DecodeString(strings.TrimPrefix(x.s, "0x")); err != nil {
			return
		}
	}
	if p.R < 1 || p.P < 1 || p.DK < 32 || len(p.IV) != 16 {
		err = fmt.Errorf("parameters out of range")
		return
	}
	dk, err := scrypt.Key(pw, p.Salt, p.N, p.R, p.P, p.DK)
	if err != nil {
		return
	}
	if !bytes.Equal(mac, keccak(append(append([]byte{}, dk[16:32]...), ct...))) {
		err = fmt.Errorf("the password does not open it")
		return
	}
	return ctr(dk[:16], p.IV, ct), m.Address, m.CoinType, p, nil
}
