package core

import (
	"bytes"
	"encoding/json"
	"errors"
	"math/big"
	"testing"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/rlp"
	"github.com/philhofer/seth"
	"pgregory.net/rapid"

	"verif/harness/gen"
	"verif/harness/vk"
)

var (
	curveN    = crypto.S256().Params().N
	curveP    = crypto.S256().Params().P
	halfN     = new(big.Int).Rsh(curveN, 1)
	bigOne    = big.NewInt(1)
	mainchain = types.NewEIP155Signer(big.NewInt(1))
)

// inputLen leans on the lengths where RLP changes its form.
func inputLen(t *rapid.T) int {
	switch rapid.IntRange(0, 7).Draw(t, "inlen-kind") {
	case 0:
		return rapid.SampledFrom([]int{0, 1, 54, 55, 56, 57, 255, 256, 257}).Draw(t, "edge")
	case 1:
		return rapid.SampledFrom([]int{65535, 65536, 65200, 65450}).Draw(t, "big")
	case 2:
		return rapid.IntRange(0, 260).Draw(t, "mid") // walks the list length over its own edges
	case 3:
		return 1
	}
	return rapid.IntRange(0, 100).Draw(t, "inlen")
}

func genTx(t *rapid.T) *seth.Transaction {
	tx := &seth.Transaction{
		Nonce: seth.Uint64(gen.Uint64().Draw(t, "nonce")),
		Gas:   seth.Uint64(gen.Uint64().Draw(t, "gas")),
		To:    gen.Opt(gen.Address()).Draw(t, "to"),
	}
	tx.GasPrice = gen.Int(256).Draw(t, "gasprice")
	tx.Value = gen.Int(256).Draw(t, "value")
	n := inputLen(t)
	if n > 1000 {
		f := gen.Byte().Draw(t, "fill")
		tx.Input = bytes.Repeat([]byte{f}, n)
		tx.Input[n-1] ^= 1
	} else {
		tx.Input = gen.Bytes(n, n).Draw(t, "input")
	}
	return tx
}

func gethTx(tx *seth.Transaction) *types.Transaction {
	if tx.To == nil {
		return types.NewContractCreation(uint64(tx.Nonce), tx.Value.Big(), uint64(tx.Gas), tx.GasPrice.Big(), tx.Input)
	}
	return types.NewTransaction(uint64(tx.Nonce), common.Address(*tx.To), tx.Value.Big(), uint64(tx.Gas), tx.GasPrice.Big(), tx.Input)
}

// genKey draws a valid private key, extremes included.
func genKey(t *rapid.T) *seth.PrivateKey {
	d := gen.Big(256).Draw(t, "d")
	switch rapid.IntRange(0, 9).Draw(t, "keykind") {
	case 0:
		d = big.NewInt(int64(rapid.IntRange(1, 5).Draw(t, "small")))
	case 1:
		d = new(big.Int).Sub(curveN, big.NewInt(int64(rapid.IntRange(1, 5).Draw(t, "small"))))
	}
	d.Mod(d, new(big.Int).Sub(curveN, bigOne))
	d.Add(d, bigOne)
	return seth.NewPrivateKey(d)
}

func txString(tx *seth.Transaction) string {
	b, _ := json.Marshal(tx)
	return string(b)
}

func TestC05(t *testing.T) {
	p := vk.Start(t, "C05", "transactions with every size of nonce, gas, price, value and input (lengths dense around the points where RLP changes form), with and without a recipient, signed with valid keys; compared with go-ethereum's own transaction, RLP and EIP-155 code; non-trivial: a distinct transaction with non-empty input or value above 2^64",
		"go-ethereum v1.9.2 core/types and rlp are the reference")

	p.Check("sign-hash", 12000, 300000, func(c *vk.C) {
		tx := genTx(c.T)
		want := mainchain.Hash(gethTx(tx))
		before := txString(tx)
		if got := tx.HashToSign(); common.Hash(*got) != want {
			c.Fatalf("HashToSign %s, want %x: %s", got.String(), want, txString(tx))
		}
		if txString(tx) != before {
			c.Fatalf("HashToSign changed the transaction")
		}
		if tx.To == nil {
			c.Class("create")
		}
		if len(tx.Input) > 55 {
			c.Class("long-input")
		}
		if len(tx.Input) > 0 || tx.Value.Big().BitLen() > 64 {
			c.NonTrivial(want[:])
			c.Sample("%s hashes to %x", txString(tx), want)
		}
	})

	p.Check("unsigned-rlp", 6000, 100000, func(c *vk.C) {
		tx := genTx(c.T)
		var got []rlp.RawValue
		enc := tx.Encode(nil)
		if err := rlp.DecodeBytes(enc, &got); err != nil || len(got) != 6 {
			c.Fatalf("unsigned encoding %x of %s is no list of six: %v", enc, txString(tx), err)
		}
		to := []byte{}
		if tx.To != nil {
			to = tx.To[:]
		}
		want, err := rlp.EncodeToBytes([]interface{}{uint64(tx.Nonce), tx.GasPrice.Big(), uint64(tx.Gas), to, tx.Value.Big(), []byte(tx.Input)})
		if err != nil {
			panic("HARNESS-ERROR: " + err.Error())
		}
		if !bytes.Equal(enc, want) {
			c.Fatalf("unsigned encoding %x, want %x", enc, want)
		}
		if len(tx.Input) > 0 {
			c.NonTrivial(enc)
		}
	})

	p.Check("signed-rlp", 4000, 100000, func(c *vk.C) {
		tx := genTx(c.T)
		key := genKey(c.T)
		raw, err := seth.SignTransaction(tx, key.Signer())
		if err != nil {
			c.Fatalf("SignTransaction: %v", err)
		}
		var g types.Transaction
		if err := rlp.DecodeBytes(raw, &g); err != nil {
			c.Fatalf("go-ethereum cannot read %x: %v", raw, err)
		}
		same := uint64(tx.Nonce) == g.Nonce() && uint64(tx.Gas) == g.Gas() &&
			tx.GasPrice.Big().Cmp(g.GasPrice()) == 0 && tx.Value.Big().Cmp(g.Value()) == 0 &&
			bytes.Equal(tx.Input, g.Data()) && (tx.To == nil) == (g.To() == nil) &&
			(tx.To == nil || common.Address(*tx.To) == *g.To())
		if !same {
			c.Fatalf("the network reads another transaction from %x: %s", raw, txString(tx))
		}
		from, err := types.Sender(mainchain, &g)
		if err != nil || seth.Address(from) != *key.Address() {
			c.Fatalf("the network takes the sender to be %x (%v), the key's address is %s", from, err, key.Address())
		}
		again, err := rlp.EncodeToBytes(&g)
		if err != nil || !bytes.Equal(again, raw) {
			c.Fatalf("not the canonical encoding: %x, want %x", raw, again)
		}
		c.NonTrivial(raw)
		c.Sample("%s signed as %x", txString(tx), raw)
	})

	// any signature, such as one from a hardware token, with components of any size
	p.Check("any-signature", 6000, 150000, func(c *vk.C) {
		tx := genTx(c.T)
		r, s := gen.Big(256).Draw(c.T, "r"), gen.Big(256).Draw(c.T, "s")
		for _, x := range []*big.Int{r, s} {
			x.Mod(x, new(big.Int).Sub(curveN, bigOne))
			x.Add(x, bigOne)
		}
		v := rapid.IntRange(0, 1).Draw(c.T, "v")
		r0, s0 := new(big.Int).Set(r), new(big.Int).Set(s)
		sig := seth.NewSignature(r, s, v)
		if r.Cmp(r0) != 0 || s.Cmp(s0) != 0 {
			c.Fatalf("NewSignature changed its arguments")
		}
		ws, wv := s0, v
		if s0.Cmp(halfN) > 0 {
			ws, wv = new(big.Int).Sub(curveN, s0), 1-v
			c.Class("high-s")
		}
		gr, gs, gv := sig.Parts()
		if gr.Cmp(r0) != 0 || gs.Cmp(ws) != 0 || gv != wv || !sig.Valid() {
			c.Fatalf("NewSignature(%d,%d,%d) has parts %d %d %d, valid %v", r0, s0, v, &gr, &gs, gv, sig.Valid())
		}
		raw, err := seth.SignTransaction(tx, func(h *seth.Hash) (*seth.Signature, error) { return sig, nil })
		if err != nil {
			c.Fatalf("SignTransaction: %v", err)
		}
		refuse := errors.New("refused")
		if b, err := seth.SignTransaction(tx, func(h *seth.Hash) (*seth.Signature, error) { return sig, refuse }); err == nil || len(b) > 0 {
			c.Fatalf("a signer that fails with a signature: %x, %v", b, err)
		}
		if b, err := seth.SignTransaction(tx, func(h *seth.Hash) (*seth.Signature, error) { return nil, refuse }); err == nil || len(b) > 0 {
			c.Fatalf("a signer that fails: %x, %v", b, err)
		}
		gsig := make([]byte, 65)
		copy(gsig[32-len(r0.Bytes()):], r0.Bytes())
		copy(gsig[64-len(ws.Bytes()):], ws.Bytes())
		gsig[64] = byte(wv)
		g, err := gethTx(tx).WithSignature(mainchain, gsig)
		if err != nil {
			panic("HARNESS-ERROR: " + err.Error())
		}
		want, err := rlp.EncodeToBytes(g)
		if err != nil {
			panic("HARNESS-ERROR: " + err.Error())
		}
		if !bytes.Equal(raw, want) {
			c.Fatalf("signed with %s: %x, want %x", sig, raw, want)
		}
		if !bytes.Equal(tx.Encode(sig), want) {
			c.Fatalf("Encode differs from SignTransaction: %x, want %x", tx.Encode(sig), want)
		}
		if len(r0.Bytes()) < 32 || len(ws.Bytes()) < 32 {
			c.Class("short-component")
		}
		c.NonTrivial(raw)
		c.Sample("r=%d s=%d v=%d gives %x", r0, s0, v, raw)
	})

	p.Check("callopts", 4000, 60000, func(c *vk.C) {
		o := &seth.CallOpts{
			From: gen.Opt(gen.Address()).Draw(c.T, "from"), To: gen.Opt(gen.Address()).Draw(c.T, "to"),
			Value: gen.Opt(gen.Int(256)).Draw(c.T, "value"), Data: gen.Bytes(0, 80).Draw(c.T, "data"),
		}
		g, gp := gen.Int(64).Draw(c.T, "gas"), gen.Int(256).Draw(c.T, "gp")
		o.Gas, o.GasPrice = &g, &gp
		if rapid.Bool().Draw(c.T, "hasnonce") {
			n := seth.Uint64(gen.Uint64().Draw(c.T, "nonce"))
			o.Nonce = &n
		}
		tx := o.Transaction()
		want := &seth.Transaction{From: o.From, To: o.To, Gas: seth.Uint64(g.Uint64()), GasPrice: gp.Copy(), Input: o.Data}
		if o.Value != nil {
			want.Value = o.Value.Copy()
		}
		if o.Nonce != nil {
			want.Nonce = *o.Nonce
		}
		if txString(tx) != txString(want) {
			c.Fatalf("Transaction() = %s, want %s", txString(tx), txString(want))
		}
		c.NonTrivial(txString(tx))
	})
}
