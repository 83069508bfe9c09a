package core

import (
	"bytes"
	"crypto/ecdsa"
	"math/big"
	"testing"

	"github.com/ethereum/go-ethereum/crypto"
	"github.com/philhofer/seth"
	"pgregory.net/rapid"

	"verif/harness/gen"
	"verif/harness/vk"
)

func TestC06(t *testing.T) {
	p := vk.Start(t, "C06", "valid private keys (extremes included) and arbitrary 32-byte hashes; signatures checked by go-ethereum's libsecp256k1; then one bit of the signature, hash or key is changed; non-trivial: a distinct (key, hash) pair",
		"go-ethereum v1.9.2 crypto (libsecp256k1) is the reference")

	p.Check("sign", 2500, 80000, func(c *vk.C) {
		key := genKey(c.T)
		h := gen.Hash().Draw(c.T, "hash")
		k0, h0 := *key, h
		sig := key.Sign(&h)
		if *key != k0 || h != h0 {
			c.Fatalf("Sign changed its inputs")
		}
		gk, err := crypto.ToECDSA(key[:])
		if err != nil {
			panic("HARNESS-ERROR: " + err.Error())
		}
		pub := crypto.FromECDSAPub(&gk.PublicKey)
		if !bytes.Equal(key.PublicKey()[:], pub[1:]) {
			c.Fatalf("public key of %s is %x, want %x", key, key.PublicKey()[:], pub[1:])
		}
		if a := crypto.PubkeyToAddress(gk.PublicKey); seth.Address(a) != *key.Address() || seth.Address(a) != *key.PublicKey().Address() {
			c.Fatalf("address of %s is %s, want %x", key, key.Address(), a)
		}
		if !crypto.VerifySignature(pub, h[:], sig[:64]) {
			c.Fatalf("signature %s of %s by %s does not verify (or has a high s)", sig, &h, key)
		}
		if sig[64] > 1 || !sig.Valid() {
			c.Fatalf("signature %s: v %d valid %v", sig, sig[64], sig.Valid())
		}
		rec, err := crypto.Ecrecover(h[:], sig[:])
		if err != nil || !bytes.Equal(rec, pub) {
			c.Fatalf("others recover %x (%v) from %s, want %x", rec, err, sig, pub)
		}
		mine, err := sig.Recover(&h)
		if err != nil || !bytes.Equal(mine[:], pub[1:]) {
			c.Fatalf("Recover gives %x (%v) from %s, want %x", mine, err, sig, pub)
		}
		// signing again gives the same signature, directly and through a Signer
		again, err := key.Signer()(&h)
		if err != nil || *again != *sig {
			c.Fatalf("signed twice: %s and %s (%v)", sig, again, err)
		}
		c.NonTrivial(key[:], h[:])
		c.Sample("key %s hash %s sig %s", key, &h, sig)
	})

	p.Check("tamper", 2000, 50000, func(c *vk.C) {
		key := genKey(c.T)
		h := gen.Hash().Draw(c.T, "hash")
		sig := *key.Sign(&h)
		h2 := h
		what := rapid.IntRange(0, 1).Draw(c.T, "what")
		bit := rapid.IntRange(0, 255).Draw(c.T, "bit")
		if what == 0 {
			h2[bit/8] ^= 1 << uint(bit%8)
			c.Class("hash")
		} else {
			bit = rapid.IntRange(0, 519).Draw(c.T, "sigbit")
			sig[bit/8] ^= 1 << uint(bit%8)
			c.Class("sig")
		}
		pub, err := sig.Recover(&h2)
		if err == nil && *pub == *key.PublicKey() {
			// for hashes that are equal modulo the group order both are signed
			a, b := new(big.Int).SetBytes(h[:]), new(big.Int).SetBytes(h2[:])
			if a.Mod(a, curveN).Cmp(b.Mod(b, curveN)) == 0 && what == 0 {
				return
			}
			c.Fatalf("a changed message or signature still recovers the signer: %s", &sig)
		}
		c.NonTrivial(sig[:], h2[:])
	})

	// the secret nonce must not repeat: two signatures sharing r for different
	// messages give the key away
	p.Check("nonce-unique", 1500, 40000, func(c *vk.C) {
		key := genKey(c.T)
		h := gen.Hash().Draw(c.T, "hash")
		h2 := h
		key2 := *key
		if rapid.Bool().Draw(c.T, "otherkey") {
			k := genKey(c.T)
			key2 = *k
		} else {
			bit := rapid.IntRange(0, 255).Draw(c.T, "bit")
			h2[bit/8] ^= 1 << uint(bit%8)
		}
		if key2 == *key && h2 == h {
			return
		}
		s1, s2 := key.Sign(&h), key2.Sign(&h2)
		if bytes.Equal(s1[:32], s2[:32]) {
			c.Fatalf("the same nonce signs two messages: %s %s", s1, s2)
		}
		c.NonTrivial(key[:], key2[:], h[:], h2[:])
	})

	p.Check("ecdsa", 400, 8000, func(c *vk.C) {
		key := genKey(c.T)
		h := gen.Hash().Draw(c.T, "hash")
		ek := key.ToECDSA()
		if ek.D.Cmp(new(big.Int).SetBytes(key[:])) != 0 {
			c.Fatalf("ToECDSA(%s).D = %x", key, ek.D)
		}
		pk := key.PublicKey()
		if pk2 := seth.NewPublicKey(ek.X, ek.Y); *pk2 != *pk {
			c.Fatalf("ToECDSA(%s) has public key %s, want %s", key, pk2, pk)
		}
		epk := pk.ToECDSA()
		if epk.X.Cmp(ek.X) != 0 || epk.Y.Cmp(ek.Y) != 0 {
			c.Fatalf("%s.ToECDSA() = %x %x", pk, epk.X, epk.Y)
		}
		r, s, _ := key.Sign(&h).Parts()
		if !ecdsa.Verify(epk, h[:], &r, &s) {
			c.Fatalf("crypto/ecdsa rejects the signature of %s by %s", &h, key)
		}
		h[5] ^= 4
		if ecdsa.Verify(epk, h[:], &r, &s) {
			c.Fatalf("crypto/ecdsa accepts the signature for another hash")
		}
		c.NonTrivial(key[:], h[:])
	})

	p.Check("generate", 60, 1000, func(c *vk.C) {
		_ = rapid.Bool().Draw(c.T, "dummy")
		k := seth.GenPrivateKey()
		d := new(big.Int).SetBytes(k[:])
		if d.Sign() == 0 || d.Cmp(curveN) >= 0 {
			c.Fatalf("generated key %x is out of range", d)
		}
		if k2 := seth.GenPrivateKey(); *k2 == *k {
			c.Fatalf("generated the same key twice")
		}
		c.NonTrivial(k[:])
	})
}

func TestC07(t *testing.T) {
	p := vk.Start(t, "C07", "(r, s, v, hash) tuples: signatures of a key, arbitrary r and s, r that is no x-coordinate, out-of-range and high components, and tuples whose recovered point is the point at infinity; go-ethereum's Ecrecover decides which are acceptable; non-trivial: a tuple that is not a plain signature of a key",
		"go-ethereum v1.9.2 crypto (libsecp256k1) is the reference")

	p.Check("recover", 5000, 150000, func(c *vk.C) {
		var sig seth.Signature
		h := gen.Hash().Draw(c.T, "hash")
		kind := rapid.SampledFrom([]string{"random", "edge", "infinity", "signed", "high-s", "field-edge"}).Draw(c.T, "kind")
		put := func(off int, x *big.Int) {
			b := x.Bytes()
			for i := off; i < off+32; i++ {
				sig[i] = 0
			}
			copy(sig[off+32-len(b):off+32], b)
		}
		v := byte(rapid.IntRange(0, 1).Draw(c.T, "v"))
		switch kind {
		case "random":
			put(0, gen.Big(256).Draw(c.T, "r"))
			put(32, gen.Big(255).Draw(c.T, "s"))
		case "edge":
			edges := []*big.Int{new(big.Int), bigOne, new(big.Int).Sub(curveN, bigOne), curveN, new(big.Int).Add(curveN, bigOne), halfN, new(big.Int).Add(halfN, bigOne), new(big.Int).Sub(curveP, bigOne), new(big.Int).Sub(new(big.Int).Lsh(bigOne, 256), bigOne), big.NewInt(2), big.NewInt(5)}
			put(0, rapid.SampledFrom(edges).Draw(c.T, "r"))
			put(32, rapid.SampledFrom(edges).Draw(c.T, "s"))
		case "field-edge":
			put(0, new(big.Int).Sub(curveN, gen.Big(40).Draw(c.T, "r")))
			put(32, gen.Big(250).Draw(c.T, "s"))
		case "signed", "high-s":
			sig = *genKey(c.T).Sign(&h)
			if kind == "high-s" {
				put(32, new(big.Int).Sub(curveN, new(big.Int).SetBytes(sig[32:64])))
				sig[64] ^= 1
			}
			v = sig[64]
		case "infinity":
			// s*R == e*G when e = s*k mod N and R = k*G
			k := new(big.Int).SetBytes(genKey(c.T)[:])
			x, y := crypto.S256().ScalarBaseMult(k.Bytes())
			if x.Cmp(curveN) >= 0 {
				return
			}
			s := new(big.Int).Add(gen.Big(250).Draw(c.T, "s"), bigOne)
			e := new(big.Int).Mul(s, k)
			e.Mod(e, curveN)
			h = seth.Hash{}
			copy(h[32-len(e.Bytes()):], e.Bytes())
			put(0, x)
			put(32, s)
			v = byte(y.Bit(0))
		}
		if rapid.IntRange(0, 7).Draw(c.T, "odd v") == 0 {
			v = byte(rapid.SampledFrom([]int{2, 3, 4, 26, 27, 28, 29, 128, 254, 255}).Draw(c.T, "v"))
			kind += " odd v"
		}
		sig[64] = v
		r, s := new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:64])
		ref, rerr := crypto.Ecrecover(h[:], sig[:])
		wantValid := v <= 1 && r.Sign() > 0 && s.Sign() > 0 && r.Cmp(curveN) < 0 && s.Cmp(halfN) <= 0
		if sig.Valid() != wantValid {
			c.Fatalf("Valid(%s) = %v, want %v", &sig, sig.Valid(), wantValid)
		}
		if wantValid != crypto.ValidateSignatureValues(v, r, s, true) {
			panic("HARNESS-ERROR: the rule and its reference differ")
		}
		var pub *seth.PublicKey
		var err error
		if m := vk.Trap(func() { pub, err = sig.Recover(&h) }); m != "" {
			c.Fatalf("Recover(%s, %s): %s", &sig, &h, m)
		}
		if !wantValid {
			if err == nil {
				c.Fatalf("Recover accepts %s with components out of range", &sig)
			}
			c.Class("rejected-range")
		} else if rerr != nil {
			if err == nil {
				c.Fatalf("Recover(%s, %s) = %s but no key made that signature (%v)", &sig, &h, pub, rerr)
			}
			c.Class("rejected-nokey")
		} else {
			if err != nil || !bytes.Equal(pub[:], ref[1:]) {
				c.Fatalf("Recover(%s, %s) = %v, %v; want %x", &sig, &h, pub, err, ref[1:])
			}
			c.Class("accepted")
		}
		c.Class(kind)
		if kind != "signed" {
			c.NonTrivial(sig[:], h[:])
			c.Sample("%s: %s over %s", kind, &sig, &h)
		}
	})

	p.Check("curve-point", 3000, 60000, func(c *vk.C) {
		k := new(big.Int).SetBytes(genKey(c.T)[:])
		x, y := crypto.S256().ScalarBaseMult(k.Bytes())
		x0 := new(big.Int).Set(x)
		for v := 0; v < 4; v++ {
			got := gen.Big(300).Draw(c.T, "stale")
			seth.CurvePoint(x, got, v)
			want := new(big.Int).Set(y)
			if y.Bit(0) != uint(v)&1 {
				want.Sub(curveP, y)
			}
			if got.Cmp(want) != 0 || x.Cmp(x0) != 0 {
				c.Fatalf("CurvePoint(%x, %d) = %x, want %x", x0, v, got, want)
			}
		}
		c.NonTrivial(k.Bytes())
	})

	p.Check("public-key", 4000, 60000, func(c *vk.C) {
		b := gen.Bytes(64, 64).Draw(c.T, "b")
		var k seth.PublicKey
		copy(k[:], b)
		want := crypto.Keccak256(b)
		if !bytes.Equal(k.Address()[:], want[12:]) {
			c.Fatalf("address of %s is %s", &k, k.Address())
		}
		x, y := new(big.Int).SetBytes(b[:32]), new(big.Int).SetBytes(b[32:])
		if *seth.NewPublicKey(x, y) != k {
			c.Fatalf("NewPublicKey(%x,%x) = %s", x, y, seth.NewPublicKey(x, y))
		}
		d := new(big.Int).SetBytes(b[:32])
		if pk := seth.NewPrivateKey(d); !bytes.Equal(pk[:], b[:32]) {
			c.Fatalf("NewPrivateKey(%x) = %s", d, pk)
		}
		c.NonTrivial(b)
	})
}
