package cmdp

import (
	"crypto/aes"
	"crypto/cipher"
	"crypto/ecdsa"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	"golang.org/x/crypto/pbkdf2"
	"golang.org/x/crypto/scrypt"
	"pgregory.net/rapid"
)

// key is a private key in a key file of the web3 secret storage format, with a cheap
// derivation function.
type key struct {
	name, id string
	pass     string
	addr     common.Address
	priv     *ecdsa.PrivateKey
	file     []byte
	noAddr   bool
}

func (k *key) listed() string {
	if k.name != "" {
		return k.name
	}
	return k.id
}

func genPriv(t *rapid.T) *ecdsa.PrivateKey {
	for {
		b := make([]byte, 32)
		for i := range b {
			b[i] = rapid.Byte().Draw(t, "k")
		}
		if p, err := crypto.ToECDSA(b); err == nil {
			return p
		}
	}
}

func genKey(t *rapid.T) *key {
	k := &key{priv: genPriv(t)}
	k.addr = crypto.PubkeyToAddress(k.priv.PublicKey)
	k.pass = rapid.SampledFrom([]string{"secret", "", "x", "pass phrase", "pässwörd"}).Draw(t, "pass")
	k.name = rapid.SampledFrom([]string{"main", "main2", "alice", "bob", "a", "old-main"}).Draw(t, "name")
	k.build(t)
	return k
}

func (k *key) build(t *rapid.T) {
	salt, iv := make([]byte, 32), make([]byte, 16)
	for i := range iv {
		iv[i], salt[i] = rapid.Byte().Draw(t, "iv"), byte(i)
	}
	var derived []byte
	var err error
	kdf, params := "scrypt", map[string]interface{}{"n": 2, "r": 8, "p": 1, "dklen": 32, "salt": hex.EncodeToString(salt)}
	if rapid.Bool().Draw(t, "pbkdf2") {
		kdf, params = "pbkdf2", map[string]interface{}{"c": 3, "prf": "hmac-sha256", "dklen": 32, "salt": hex.EncodeToString(salt)}
		derived = pbkdf2.Key([]byte(k.pass), salt, 3, 32, sha256.New)
	} else {
		derived, err = scrypt.Key([]byte(k.pass), salt, 2, 8, 1, 32)
		check(err)
	}
	text := crypto.FromECDSA(k.priv)
	bl, err := aes.NewCipher(derived[:16])
	check(err)
	cipher.NewCTR(bl, iv).XORKeyStream(text, text)
	cr := map[string]interface{}{"cipher": "aes-128-ctr", "cipherparams": map[string]string{"iv": hex.EncodeToString(iv)},
		"ciphertext": hex.EncodeToString(text), "kdf": kdf, "kdfparams": params,
		"mac": hex.EncodeToString(crypto.Keccak256(derived[16:32], text))}
	var id [16]byte
	for i := range id {
		id[i] = rapid.Byte().Draw(t, "id")
	}
	k.id = fmt.Sprintf("%x-%x-%x-%x-%x", id[:4], id[4:6], id[6:8], id[8:10], id[10:])
	m := map[string]interface{}{"version": 3, "id": k.id, "crypto": cr}
	if k.name != "" {
		m["name"] = k.name
	}
	if !k.noAddr {
		m["address"] = hex.EncodeToString(k.addr[:])
	}
	k.file, err = json.Marshal(m)
	check(err)
}

// openKey reads a key file of the web3 secret storage format.
func openKey(file []byte, pass string) (addr common.Address, err error) {
	var kf struct {
		Version int
		Crypto  struct {
			Cipher, Ciphertext, KDF, MAC string
			CipherParams                 struct{ IV string }
			KDFParams                    struct {
				N, R, P, C, Dklen int
				Salt, PRF         string
			}
		}
	}
	if err = json.Unmarshal(file, &kf); err != nil {
		return
	}
	cr, pa := kf.Crypto, kf.Crypto.KDFParams
	salt, err := hex.DecodeString(pa.Salt)
	if err != nil {
		return
	}
	var derived []byte
	switch {
	case kf.Version != 3 || cr.Cipher != "aes-128-ctr":
		return addr, fmt.Errorf("version %d, cipher %q", kf.Version, cr.Cipher)
	case cr.KDF == "scrypt":
		derived, err = scrypt.Key([]byte(pass), salt, pa.N, pa.R, pa.P, pa.Dklen)
	case cr.KDF == "pbkdf2" && pa.PRF == "hmac-sha256":
		derived = pbkdf2.Key([]byte(pass), salt, pa.C, pa.Dklen, sha256.New)
	default:
		err = fmt.Errorf("derivation %q %q", cr.KDF, pa.PRF)
	}
	if err != nil {
		return
	}
	iv, err := hex.DecodeString(cr.CipherParams.IV)
	if err != nil || len(iv) != 16 || len(derived) < 32 {
		return addr, fmt.Errorf("iv %q, %d derived bytes", cr.CipherParams.IV, len(derived))
	}
	text, err := hex.DecodeString(cr.Ciphertext)
	if err != nil {
		return
	}
	if m := hex.EncodeToString(crypto.Keccak256(derived[16:32], text)); m != cr.MAC {
		return addr, fmt.Errorf("mac %s, not %s", cr.MAC, m)
	}
	bl, err := aes.NewCipher(derived[:16])
	check(err)
	cipher.NewCTR(bl, iv).XORKeyStream(text, text)
	priv, err := crypto.ToECDSA(text)
	if err != nil {
		return
	}
	return crypto.PubkeyToAddress(priv.PublicKey), nil
}
