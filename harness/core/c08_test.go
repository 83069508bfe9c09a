package core

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"hash"
	"strings"
	"testing"

	"github.com/ethereum/go-ethereum/crypto"
	"github.com/philhofer/seth"
	"golang.org/x/crypto/pbkdf2"
	"golang.org/x/crypto/scrypt"
	"pgregory.net/rapid"

	"verif/harness/gen"
	"verif/harness/vk"
)

type kfile struct {
	kdf, prf string
	n, r, p  int
	iters    int
	dklen    int
	salt     []byte
	iv       []byte
	pass     []byte
	key      *seth.PrivateKey
	addr     string
	upper    bool

	ctext, mac []byte
}

var prfs = map[string]func() hash.Hash{
	"hmac-sha1": sha1.New, "hmac-sha224": sha256.New224, "hmac-sha256": sha256.New,
	"hmac-sha384": sha512.New384, "hmac-sha512": sha512.New,
}

// derive is the Web3 Secret Storage key derivation.
func (k *kfile) derive(pass []byte) []byte {
	if k.kdf == "pbkdf2" {
		return pbkdf2.Key(pass, k.salt, k.iters, k.dklen, prfs[k.prf])
	}
	d, err := scrypt.Key(pass, k.salt, k.n, k.r, k.p, k.dklen)
	if err != nil {
		panic("HARNESS-ERROR: " + err.Error())
	}
	return d
}

func (k *kfile) seal(plain []byte) {
	d := k.derive(k.pass)
	blk, err := aes.NewCipher(d[:16])
	if err != nil {
		panic("HARNESS-ERROR: " + err.Error())
	}
	k.ctext = make([]byte, len(plain))
	cipher.NewCTR(blk, k.iv).XORKeyStream(k.ctext, plain)
	k.mac = crypto.Keccak256(d[16:32], k.ctext)
}

func (k *kfile) hex(b []byte) string {
	s := hex.EncodeToString(b)
	if k.upper {
		s = strings.ToUpper(s)
	}
	return s
}

func (k *kfile) json() map[string]interface{} {
	kp := map[string]interface{}{"dklen": k.dklen, "salt": k.hex(k.salt)}
	if k.kdf == "pbkdf2" {
		kp["c"], kp["prf"] = k.iters, k.prf
	} else {
		kp["n"], kp["r"], kp["p"] = k.n, k.r, k.p
	}
	m := map[string]interface{}{
		"version": 3,
		"id":      "3198bc9c-6672-5ab3-d995-4942343ae5b6",
		"crypto": map[string]interface{}{
			"cipher":       "aes-128-ctr",
			"cipherparams": map[string]interface{}{"iv": k.hex(k.iv)},
			"ciphertext":   k.hex(k.ctext),
			"kdf":          k.kdf,
			"kdfparams":    kp,
			"mac":          k.hex(k.mac),
		},
	}
	if k.addr != "" {
		m["address"] = k.addr
	}
	return m
}

func genKfile(t *rapid.T) *kfile {
	k := &kfile{
		kdf:   rapid.SampledFrom([]string{"pbkdf2", "scrypt"}).Draw(t, "kdf"),
		prf:   rapid.SampledFrom(vk.SortedKeys(map[string]int{"hmac-sha1": 0, "hmac-sha224": 0, "hmac-sha256": 0, "hmac-sha384": 0, "hmac-sha512": 0})).Draw(t, "prf"),
		n:     1 << uint(rapid.IntRange(1, 9).Draw(t, "n")),
		r:     rapid.IntRange(1, 9).Draw(t, "r"),
		p:     rapid.IntRange(1, 8).Draw(t, "p"),
		iters: rapid.IntRange(1, 60).Draw(t, "c"),
		dklen: rapid.SampledFrom([]int{32, 32, 32, 33, 48, 64, 100}).Draw(t, "dklen"),
		salt:  gen.Bytes(0, 40).Draw(t, "salt"),
		iv:    gen.Bytes(16, 16).Draw(t, "iv"),
		pass:  gen.Bytes(0, 70).Draw(t, "pass"),
		key:   genKey(t),
		upper: rapid.Bool().Draw(t, "upper"),
	}
	if rapid.Bool().Draw(t, "withaddr") {
		a := k.key.Address()
		k.addr = k.hex(a[:])
	}
	k.seal(k.key[:])
	return k
}

func open(js []byte, pass []byte) (key *seth.PrivateKey, err error, trap string) {
	trap = vk.Trap(func() {
		var f seth.Keyfile
		if err = json.Unmarshal(js, &f); err != nil {
			return
		}
		key, err = f.Private(pass)
	})
	return
}

func TestC08(t *testing.T) {
	p := vk.Start(t, "C08", "key files written by an independent implementation of the Web3 Secret Storage definition (both KDFs, every PRF, cheap parameters) then damaged one field at a time, and key files written by ToKeyfile; non-trivial: a distinct key file",
		"golang.org/x/crypto's scrypt and pbkdf2 are used by both sides: they are not under test")

	p.Check("foreign", 1500, 40000, func(c *vk.C) {
		k := genKfile(c.T)
		m := k.json()
		if cr := m["crypto"].(map[string]interface{}); rapid.IntRange(0, 3).Draw(c.T, "names") == 0 {
			// some programs write the names in capitals
			cr["cipher"], cr["kdf"] = "AES-128-CTR", strings.ToUpper(k.kdf)
			if kp := cr["kdfparams"].(map[string]interface{}); k.kdf == "pbkdf2" {
				kp["prf"] = strings.ToUpper(k.prf)
			}
		}
		js, _ := json.Marshal(m)
		pass := append([]byte{}, k.pass...)
		got, err, trap := open(js, pass)
		if trap != "" || err != nil || *got != *k.key {
			c.Fatalf("%s with passphrase %x opens to %v, %v %s; it holds %s", js, k.pass, got, err, trap, k.key)
		}
		if !bytes.Equal(pass, k.pass) {
			c.Fatalf("opening changed the passphrase")
		}
		// opening again, and after a JSON round trip by the package itself
		var f seth.Keyfile
		json.Unmarshal(js, &f)
		js2, err := json.Marshal(&f)
		if err != nil {
			c.Fatalf("marshal: %v", err)
		}
		for i := 0; i < 2; i++ {
			if got, err := f.Private(k.pass); err != nil || *got != *k.key {
				c.Fatalf("%s opened a second time: %v %v", js, got, err)
			}
		}
		if got, err, trap := open(js2, k.pass); trap != "" || err != nil || *got != *k.key {
			c.Fatalf("%s re-encoded as %s opens to %v, %v %s", js, js2, got, err, trap)
		}
		// any other passphrase is refused
		bad := append([]byte{}, k.pass...)
		switch rapid.IntRange(0, 2).Draw(c.T, "wrong") {
		case 0:
			bad = append(bad, rapid.ByteRange(1, 255).Draw(c.T, "extra"))
		case 1:
			bad = gen.Bytes(0, 70).Draw(c.T, "other")
		case 2:
			if len(bad) > 0 {
				i := rapid.IntRange(0, len(bad)-1).Draw(c.T, "at")
				bad[i] ^= 1 << uint(rapid.IntRange(0, 7).Draw(c.T, "bit"))
			} else {
				bad = []byte("x")
			}
		}
		// HMAC pads the passphrase with zeros (and hashes long ones):
		// only passphrases that derive another key are wrong ones
		if !bytes.Equal(k.derive(bad), k.derive(k.pass)) {
			if got, err, trap := open(js, bad); trap != "" || err == nil {
				c.Fatalf("%s with passphrase %x instead of %x: %v %v %s", js, bad, k.pass, got, err, trap)
			}
		}
		c.NonTrivial(js)
		c.Class(k.kdf, fmt.Sprintf("dklen-%d", k.dklen))
		c.Sample("%s pass %x", js, k.pass)
	})

	p.Check("tampered", 2500, 60000, func(c *vk.C) {
		k := genKfile(c.T)
		m := k.json()
		cr := m["crypto"].(map[string]interface{})
		kp := cr["kdfparams"].(map[string]interface{})
		flip := func(b []byte) string {
			b = append([]byte{}, b...)
			b[rapid.IntRange(0, len(b)-1).Draw(c.T, "at")] ^= 1 << uint(rapid.IntRange(0, 7).Draw(c.T, "bit"))
			return hex.EncodeToString(b)
		}
		// resealed changes carry the right MAC: only the length is wrong
		what := rapid.SampledFrom([]string{"ciphertext", "mac", "address", "short", "long", "iv", "dklen", "kdf", "cipher", "prf", "c", "nrp", "nothex", "drop", "type", "salt"}).Draw(c.T, "what")
		switch what {
		case "ciphertext":
			cr["ciphertext"] = flip(k.ctext)
		case "mac":
			switch rapid.IntRange(0, 2).Draw(c.T, "how") {
			case 0:
				cr["mac"] = flip(k.mac)
			case 1:
				cr["mac"] = hex.EncodeToString(k.mac[:rapid.IntRange(0, 31).Draw(c.T, "cut")])
			case 2:
				cr["mac"] = hex.EncodeToString(append(k.mac, 0))
			}
		case "address":
			a := k.key.Address()
			m["address"] = flip(a[:])
			switch rapid.IntRange(0, 3).Draw(c.T, "how") {
			case 0:
				m["address"] = k.hex(a[:]) + rapid.SampledFrom([]string{"zz", "0", "00", " ", "x", "é"}).Draw(c.T, "tail")
			case 1, 2:
				n := rapid.IntRange(1, 19).Draw(c.T, "alen")
				m["address"] = hex.EncodeToString(a[:n])
				if rapid.Bool().Draw(c.T, "tail") {
					m["address"] = hex.EncodeToString(a[n:])
				}
			}
		case "short":
			k.seal(k.key[:rapid.IntRange(0, 31).Draw(c.T, "len")])
			m = k.json()
		case "long":
			k.seal(append(k.key[:], gen.Bytes(1, 40).Draw(c.T, "tail")...))
			m = k.json()
		case "iv":
			n := rapid.SampledFrom([]int{0, 1, 8, 12, 15, 17, 32}).Draw(c.T, "ivlen")
			cr["cipherparams"] = map[string]interface{}{"iv": hex.EncodeToString(make([]byte, n))}
		case "dklen":
			kp["dklen"] = rapid.SampledFrom([]int64{0, -1, 1, 8, 15, 16, 17, 24, 31, -32, 1 << 40, 1<<62 - 1, -1 << 62}).Draw(c.T, "dk")
		case "kdf":
			cr["kdf"] = rapid.SampledFrom([]string{"", "argon2", "none", "scrypt2"}).Draw(c.T, "k")
		case "cipher":
			cr["cipher"] = rapid.SampledFrom([]string{"", "aes-256-ctr", "aes-128-cbc", "none"}).Draw(c.T, "k")
		case "prf":
			if k.kdf == "pbkdf2" {
				kp["prf"] = rapid.SampledFrom([]string{"", "hmac-md5", "sha256", "hmac"}).Draw(c.T, "k")
			} else {
				kp["n"] = k.n + 1
			}
		case "c":
			if k.kdf == "pbkdf2" {
				if rapid.Bool().Draw(c.T, "once") {
					// as many iterations as an unguarded derivation makes of none
					k.iters = 1
					k.seal(k.key[:])
					m = k.json()
					cr = m["crypto"].(map[string]interface{})
					kp = cr["kdfparams"].(map[string]interface{})
				}
				kp["c"] = rapid.SampledFrom([]int{0, -1, k.iters + 1}).Draw(c.T, "k")
			} else {
				kp["n"] = rapid.SampledFrom([]int{0, -1, 1, 3, k.n * 2}).Draw(c.T, "k")
			}
		case "nrp":
			if k.kdf == "scrypt" {
				kp[rapid.SampledFrom([]string{"r", "p"}).Draw(c.T, "field")] = rapid.SampledFrom([]int64{0, -1, 11, 1 << 40, -1 << 40, -1 << 63}).Draw(c.T, "k")
				if rapid.IntRange(0, 3).Draw(c.T, "both") == 0 {
					kp["r"], kp["p"] = 0, 0
				}
			} else {
				kp["salt"] = "00" + k.hex(k.salt) + "01"
			}
		case "nothex":
			bad := rapid.SampledFrom([]string{"zz", "0", "0x00", "é", " "}).Draw(c.T, "text")
			switch rapid.IntRange(0, 3).Draw(c.T, "where") {
			case 0:
				cr["ciphertext"] = bad
			case 1:
				cr["mac"] = bad
			case 2:
				kp["salt"] = bad
			case 3:
				cr["cipherparams"] = map[string]interface{}{"iv": bad}
			}
		case "drop":
			f := rapid.SampledFrom([]string{"cipher", "cipherparams", "ciphertext", "kdf", "kdfparams", "mac"}).Draw(c.T, "field")
			delete(cr, f)
			what += "-" + f
		case "type":
			f := rapid.SampledFrom([]string{"cipher", "cipherparams", "ciphertext", "kdf", "kdfparams", "mac"}).Draw(c.T, "field")
			cr[f] = rapid.SampledFrom([]interface{}{nil, 1, []int{1}, map[string]int{}, true, "null"}).Draw(c.T, "val")
		case "salt":
			kp["salt"] = k.hex(append(append([]byte{}, k.salt...), 1))
		}
		js, _ := json.Marshal(m)
		got, err, trap := open(js, k.pass)
		if trap != "" {
			c.Fatalf("%s: %s: %s", what, js, trap)
		}
		if err == nil {
			c.Fatalf("%s: %s opens to %s without an error", what, js, got)
		}
		c.Class(what)
		c.NonTrivial(js)
		c.Sample("%s: %s -> %v", what, js, err)
	})

	p.Check("arbitrary", 1500, 40000, func(c *vk.C) {
		// any JSON of about the right shape, scrypt's cost kept small
		val := rapid.SampledFrom([]string{`""`, `null`, `"00"`, `"zz"`, `1`, `-1`, `{}`, `[]`, `"aes-128-ctr"`, `"scrypt"`, `"pbkdf2"`, `"hmac-sha256"`,
			`{"iv":"00"}`, `{"iv":"00000000000000000000000000000000"}`, `{"c":1,"dklen":32,"prf":"hmac-sha256","salt":"00"}`, `{"dklen":32,"n":2,"r":1,"p":1,"salt":""}`, `{"dklen":32,"n":2}`, `{"dklen":16,"n":2,"r":1,"p":1,"salt":""}`})
		var sb strings.Builder
		sb.WriteString(`{"version":` + val.Draw(c.T, "version") + `,"crypto":{`)
		for i, f := range []string{"cipher", "cipherparams", "ciphertext", "kdf", "kdfparams", "mac"} {
			if i > 0 {
				sb.WriteString(",")
			}
			fmt.Fprintf(&sb, "%q:%s", f, val.Draw(c.T, f))
		}
		sb.WriteString(`},"address":` + val.Draw(c.T, "address") + `}`)
		if got, err, trap := open([]byte(sb.String()), gen.Bytes(0, 8).Draw(c.T, "pass")); trap != "" || err == nil {
			c.Fatalf("%s: %v %v %s", sb.String(), got, err, trap)
		}
		c.NonTrivial(sb.String())
	})

	// ToKeyfile's scrypt parameters cost most of a second a time
	p.Check("written", 2, 40, func(c *vk.C) {
		key := genKey(c.T)
		pass := gen.Bytes(0, 40).Draw(c.T, "pass")
		name := rapid.String().Draw(c.T, "name")
		kf := key.ToKeyfile(name, pass)
		js, err := json.Marshal(kf)
		if err != nil {
			c.Fatalf("marshal: %v", err)
		}
		if strings.Contains(string(js), hex.EncodeToString(key[:])) {
			c.Fatalf("the key file holds the key in the clear: %s", js)
		}
		if got, err, trap := open(js, pass); trap != "" || err != nil || *got != *key {
			c.Fatalf("%s (key %s) opens to %v %v %s", js, key, got, err, trap)
		}
		// read by the independent implementation
		var m struct {
			Version int
			Name    string
			Crypto  struct {
				Cipher, Ciphertext, KDF, MAC string
				CipherParams                 struct{ IV string }
				KDFParams                    struct {
					Dklen, N, R, P int
					Salt           string
				}
			}
		}
		if err := json.Unmarshal(js, &m); err != nil {
			c.Fatalf("%s: %v", js, err)
		}
		unhex := func(s string) []byte {
			b, err := hex.DecodeString(s)
			if err != nil {
				c.Fatalf("%s: %v", js, err)
			}
			return b
		}
		if m.Version != 3 || m.Crypto.Cipher != "aes-128-ctr" || m.Crypto.KDF != "scrypt" {
			c.Fatalf("unexpected key file %s", js)
		}
		var back seth.Keyfile
		if json.Unmarshal(js, &back); back.Name != strings.ToValidUTF8(name, "\ufffd") {
			c.Fatalf("name %q reads back as %q", name, back.Name)
		}
		k := &kfile{kdf: "scrypt", n: m.Crypto.KDFParams.N, r: m.Crypto.KDFParams.R, p: m.Crypto.KDFParams.P, dklen: m.Crypto.KDFParams.Dklen,
			salt: unhex(m.Crypto.KDFParams.Salt), iv: unhex(m.Crypto.CipherParams.IV), pass: pass}
		k.seal(key[:])
		if !bytes.Equal(k.ctext, unhex(m.Crypto.Ciphertext)) || !bytes.Equal(k.mac, unhex(m.Crypto.MAC)) {
			c.Fatalf("%s is not the key file of key %s", js, key)
		}
		if got, err, trap := open(js, append(pass, 'x')); trap != "" || err == nil {
			c.Fatalf("%s opens with the wrong passphrase: %v %s", js, got, trap)
		}
		// two files of one key share neither salt nor IV
		kf2 := key.ToKeyfile(name, pass)
		if kf2.Crypto.Ciphertext == kf.Crypto.Ciphertext || string(kf2.Crypto.CipherParams) == string(kf.Crypto.CipherParams) || string(kf2.Crypto.KDFParams) == string(kf.Crypto.KDFParams) || kf.ID == kf2.ID {
			c.Fatalf("two key files repeat their randomness: %s", js)
		}
		c.NonTrivial(js)
		c.Sample("%s", js)
	})
}
