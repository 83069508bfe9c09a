package core

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"reflect"
	"testing"
	"time"

	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/philhofer/seth"
	"pgregory.net/rapid"

	"verif/harness/gen"
	"verif/harness/vk"
)

// same compares two values, taking nil and empty slices and integers of equal
// value for the same.
func same(a, b reflect.Value) bool {
	if a.Type() != b.Type() {
		return false
	}
	if a.Type() == reflect.TypeOf(seth.Int{}) {
		x, y := a.Interface().(seth.Int), b.Interface().(seth.Int)
		return x.Big().Cmp(y.Big()) == 0
	}
	switch a.Kind() {
	case reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return same(a.Elem(), b.Elem())
	case reflect.Slice:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !same(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if a.Type().Field(i).PkgPath != "" {
				continue
			}
			if !same(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}

func sameVal(a, b interface{}) bool { return same(reflect.ValueOf(a), reflect.ValueOf(b)) }

func hx(b []byte) string { return "0x" + hex.EncodeToString(b) }

// node JSON, written independently of the package's own encoders
type node struct {
	t *rapid.T
}

func (n node) addr() (interface{}, seth.Address) {
	a := gen.Address().Draw(n.t, "addr")
	return hx(a[:]), a
}
func (n node) hash() (interface{}, seth.Hash) {
	a := gen.Hash().Draw(n.t, "hash")
	return hx(a[:]), a
}
func (n node) u64() (interface{}, seth.Uint64) {
	u := gen.Uint64().Draw(n.t, "u64")
	if rapid.IntRange(0, 7).Draw(n.t, "padded") == 0 {
		return fmt.Sprintf("0x%016x", u), seth.Uint64(u) // as nodes write the block nonce
	}
	return hexutil.EncodeUint64(u), seth.Uint64(u)
}
func (n node) big() (interface{}, seth.Int) {
	b := gen.Big(256).Draw(n.t, "int")
	return hexutil.EncodeBig(b), seth.Int(*b)
}
func (n node) data(max int) (interface{}, seth.Data) {
	b := gen.Bytes(0, max).Draw(n.t, "data")
	return hx(b), b
}
func (n node) absent() int { return rapid.IntRange(0, 3).Draw(n.t, "absent") }

// opt puts a field that may be present, null or missing; it reports presence.
func opt(n node, m map[string]interface{}, k string, v interface{}) bool {
	switch n.absent() {
	case 0:
		m[k] = nil
		return false
	case 1:
		return false
	}
	m[k] = v
	return true
}

func (n node) tx() (map[string]interface{}, seth.Transaction) {
	m := map[string]interface{}{}
	var x seth.Transaction
	m["hash"], x.Hash = n.hash()
	m["nonce"], x.Nonce = n.u64()
	j, h := n.hash()
	if opt(n, m, "blockHash", j) {
		x.Block = h
	}
	j, u := n.u64()
	if opt(n, m, "blockNumber", j) {
		x.BlockNumber = u
	}
	j, a := n.addr()
	if opt(n, m, "to", j) {
		x.To = &a
	}
	j, f := n.addr()
	if opt(n, m, "from", j) {
		x.From = &f
	}
	j, ti := n.u64()
	if opt(n, m, "transactionIndex", j) {
		x.TxIndex = &ti
	}
	m["value"], x.Value = n.big()
	m["gasPrice"], x.GasPrice = n.big()
	m["gas"], x.Gas = n.u64()
	m["input"], x.Input = n.data(70)
	m["v"], m["r"], m["unknownField"] = "0x1b", "0x5", []int{1, 2}
	return m, x
}

func (n node) log() (map[string]interface{}, seth.Log) {
	m := map[string]interface{}{}
	var x seth.Log
	if x.Removed = rapid.Bool().Draw(n.t, "removed"); x.Removed || rapid.Bool().Draw(n.t, "saysremoved") {
		m["removed"] = x.Removed
	}
	j, u := n.u64()
	if opt(n, m, "logIndex", j) {
		x.LogIndex = &u
	}
	j, u2 := n.u64()
	if opt(n, m, "transactionIndex", j) {
		x.TxIndex = &u2
	}
	j, h := n.hash()
	if opt(n, m, "transactionHash", j) {
		x.TxHash = &h
	}
	j, h2 := n.hash()
	if opt(n, m, "blockHash", j) {
		x.BlockHash = &h2
	}
	j, u3 := n.u64()
	if opt(n, m, "blockNumber", j) {
		x.BlockNumber = &u3
	}
	m["address"], x.Address = n.addr()
	m["data"], x.Data = n.data(100)
	tops := []interface{}{}
	for i := rapid.IntRange(0, 4).Draw(n.t, "ntopics"); i > 0; i-- {
		j, h := n.hash()
		tops = append(tops, j)
		x.Topics = append(x.Topics, append(seth.Data{}, h[:]...))
	}
	m["topics"] = tops
	return m, x
}

func (n node) receipt() (map[string]interface{}, seth.Receipt) {
	m := map[string]interface{}{}
	var x seth.Receipt
	m["transactionHash"], x.Hash = n.hash()
	m["transactionIndex"], x.Index = n.u64()
	m["blockHash"], x.BlockHash = n.hash()
	m["blockNumber"], x.BlockNumber = n.u64()
	m["gasUsed"], x.GasUsed = n.u64()
	m["cumulativeGasUsed"], x.Cumulative = n.u64()
	j, a := n.addr()
	if opt(n, m, "contractAddress", j) {
		x.Address = &a
	}
	if rapid.Bool().Draw(n.t, "plainstatus") {
		x.Status = seth.Uint64(rapid.IntRange(0, 1).Draw(n.t, "status"))
		m["status"] = hexutil.EncodeUint64(uint64(x.Status))
	} else {
		m["status"], x.Status = n.u64()
	}
	logs := []interface{}{}
	for i := rapid.IntRange(0, 3).Draw(n.t, "nlogs"); i > 0; i-- {
		lj, l := n.log()
		logs = append(logs, lj)
		x.Logs = append(x.Logs, l)
	}
	m["logs"] = logs
	m["logsBloom"], m["from"] = "0x00", nil
	return m, x
}

// block draws a block holding ready transactions or, if hashes, their hashes.
func (n node) block(hashes bool) (map[string]interface{}, seth.Block, []seth.Transaction, []seth.Hash) {
	m := map[string]interface{}{}
	var x seth.Block
	j, u := n.u64()
	if opt(n, m, "number", j) {
		x.Number = &u
	}
	j, h := n.hash()
	if opt(n, m, "hash", j) {
		x.Hash = &h
	}
	m["parentHash"], x.Parent = n.hash()
	m["nonce"], x.Nonce = n.u64()
	m["sha3Uncles"], x.UncleHash = n.hash()
	j, d := n.data(256)
	if opt(n, m, "logsBloom", j) {
		x.Bloom = d
	}
	m["transactionsRoot"], x.TxRoot = n.hash()
	m["stateRoot"], x.StateRoot = n.hash()
	m["receiptsRoot"], x.ReceiptsRoot = n.hash()
	m["miner"], x.Miner = n.addr()
	m["gasLimit"], x.GasLimit = n.u64()
	m["gasUsed"], x.GasUsed = n.u64()
	j, b := n.big()
	if opt(n, m, "difficulty", j) {
		x.Difficulty = &b
	}
	j, b2 := n.big()
	if opt(n, m, "totalDifficulty", j) {
		x.TotalDifficulty = &b2
	}
	m["timestamp"], x.Timestamp = n.u64()
	m["extraData"], x.Extra = n.data(40)
	un := []interface{}{}
	for i := rapid.IntRange(0, 2).Draw(n.t, "nuncles"); i > 0; i-- {
		j, h := n.hash()
		un = append(un, j)
		x.Uncles = append(x.Uncles, h)
	}
	m["uncles"] = un
	txs := []interface{}{}
	var want []seth.Transaction
	var hs []seth.Hash
	for i := rapid.IntRange(0, 4).Draw(n.t, "ntxs"); i > 0; i-- {
		if hashes {
			j, h := n.hash()
			txs = append(txs, j)
			hs = append(hs, h)
		} else {
			j, t := n.tx()
			txs = append(txs, j)
			want = append(want, t)
		}
	}
	m["transactions"] = txs
	return m, x, want, hs
}

func mustJSON(v interface{}) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic("HARNESS-ERROR: " + err.Error())
	}
	return b
}

func TestC03(t *testing.T) {
	p := vk.Start(t, "C03", "blocks, transactions, receipts and logs as JSON written independently of the package (optional fields present, null or missing, unknown fields added), decoded, compared field by field, encoded and decoded again; non-trivial: a distinct document with at least one optional field absent or one nested object")

	p.Check("block", 2500, 60000, func(c *vk.C) {
		n := node{c.T}
		m, want, txs, _ := n.block(false)
		js := mustJSON(m)
		var b seth.Block
		if err := json.Unmarshal(js, &b); err != nil {
			c.Fatalf("%s: %v", js, err)
		}
		raws := b.Transactions
		cmp := b
		cmp.Transactions = nil
		if !sameVal(cmp, want) {
			c.Fatalf("%s decoded as %+v", js, mustJSON(&cmp))
		}
		if len(raws) != len(txs) {
			c.Fatalf("%d transactions in %s, got %d", len(txs), js, len(raws))
		}
		got, err := b.ParseTransactions()
		if err != nil || len(got) != len(txs) {
			c.Fatalf("ParseTransactions of %s: %d, %v", js, len(got), err)
		}
		for i := range txs {
			if !sameVal(got[i], txs[i]) {
				c.Fatalf("transaction %d of %s parsed as %s", i, js, mustJSON(&got[i]))
			}
		}
		var again seth.Block
		js2, err := json.Marshal(&b)
		if err != nil {
			c.Fatalf("encode: %v", err)
		}
		if err := json.Unmarshal(js2, &again); err != nil {
			c.Fatalf("own JSON %s: %v", js2, err)
		}
		gotAgain, err := again.ParseTransactions()
		if err != nil || len(gotAgain) != len(txs) {
			c.Fatalf("own JSON %s: %v", js2, err)
		}
		for i := range txs {
			if !sameVal(gotAgain[i], txs[i]) {
				c.Fatalf("transaction %d changed over own JSON %s", i, js2)
			}
		}
		again.Transactions = nil
		if !sameVal(again, want) {
			c.Fatalf("own JSON %s decodes differently", js2)
		}
		if bt := b.Time(); !bt.Equal(time.Unix(int64(want.Timestamp), 0)) {
			c.Fatalf("Time of timestamp %d is %v", want.Timestamp, bt)
		}
		c.Class(fmt.Sprintf("txs=%d", len(txs)))
		c.NonTrivial(js)
		c.Sample("%s", js)
	})

	// a block of thousands of transactions, and a receipt of thousands of logs
	p.Check("large", 10, 200, func(c *vk.C) {
		n := node{c.T}
		m, want, _, _ := n.block(false)
		var kinds []interface{}
		var wants []seth.Transaction
		for i := rapid.IntRange(2, 4).Draw(c.T, "kinds"); i > 0; i-- {
			j, t := n.tx()
			kinds, wants = append(kinds, j), append(wants, t)
		}
		count := rapid.SampledFrom([]int{255, 256, 300, 1000, 1024, 1025, 2048, 3000, 4097}).Draw(c.T, "count")
		order := rapid.SliceOfN(rapid.IntRange(0, len(kinds)-1), 7, 19).Draw(c.T, "order")
		at := func(i int) int { return order[(i+i/257)%len(order)] }
		txs := make([]interface{}, count)
		for i := range txs {
			txs[i] = kinds[at(i)]
		}
		m["transactions"] = txs
		extra := longLen(c.T, "extra")
		want.Extra = blob(extra, int64(count))
		m["extraData"] = hx(want.Extra)
		var b seth.Block
		if err := json.Unmarshal(mustJSON(m), &b); err != nil {
			c.Fatalf("a block of %d transactions: %v", count, err)
		}
		for round := 0; round < 2; round++ {
			got, err := b.ParseTransactions()
			if err != nil || len(got) != count {
				c.Fatalf("%d transactions are parsed as %d, %v", count, len(got), err)
			}
			for i := range got {
				if !sameVal(got[i], wants[at(i)]) {
					c.Fatalf("transaction %d of %d (%s) parsed as %s", i, count, mustJSON(txs[i]), mustJSON(&got[i]))
				}
			}
			cmp := b
			cmp.Transactions = nil
			if !sameVal(cmp, want) {
				c.Fatalf("a block of %d transactions and %d bytes of extra data decoded as %d bytes", count, extra, len(b.Extra))
			}
			js := mustJSON(&b)
			b = seth.Block{}
			if err := json.Unmarshal(js, &b); err != nil {
				c.Fatalf("own JSON of a block of %d transactions: %v", count, err)
			}
		}
		mr, wr := n.receipt()
		mr["logs"], wr.Logs = nil, nil
		var mls []interface{}
		for i := 0; i < 3; i++ {
			ml, wl := n.log()
			if i == 2 {
				d := longLen(c.T, "data")
				wl.Data = blob(d, int64(d))
				ml["data"] = hx(wl.Data)
			}
			mls = append(mls, ml)
			wr.Logs = append(wr.Logs, wl)
		}
		for i := 3; i < count; i++ {
			mls = append(mls, mls[at(i)%2])
			wr.Logs = append(wr.Logs, wr.Logs[at(i)%2])
		}
		mr["logs"] = mls
		var r seth.Receipt
		js := mustJSON(mr)
		for round := 0; round < 2; round++ {
			if err := json.Unmarshal(js, &r); err != nil || !sameVal(r, wr) {
				c.Fatalf("a receipt of %d logs is decoded as another, of %d (%v)", count, len(r.Logs), err)
			}
			js = mustJSON(&r)
			r = seth.Receipt{}
		}
		c.NonTrivial(count, order, extra)
		c.Class("large")
		c.Sample("%d transactions and logs", count)
	})

	p.Check("block-of-hashes", 800, 10000, func(c *vk.C) {
		n := node{c.T}
		m, want, _, hs := n.block(true)
		js := mustJSON(m)
		var b seth.Block
		if err := json.Unmarshal(js, &b); err != nil {
			c.Fatalf("%s: %v", js, err)
		}
		if len(b.Transactions) != len(hs) {
			c.Fatalf("%d hashes in %s, got %d", len(hs), js, len(b.Transactions))
		}
		for i := range hs {
			var h seth.Hash
			if err := json.Unmarshal(b.Transactions[i], &h); err != nil || h != hs[i] {
				c.Fatalf("hash %d of %s is %s, %v", i, js, &h, err)
			}
		}
		if len(hs) > 0 {
			if _, err := b.ParseTransactions(); err == nil {
				c.Fatalf("hashes were parsed as transactions: %s", js)
			}
		}
		b.Transactions = nil
		if !sameVal(b, want) {
			c.Fatalf("%s decoded as %+v", js, b)
		}
		c.NonTrivial(js)
	})

	p.Check("transaction", 5000, 100000, func(c *vk.C) {
		m, want := node{c.T}.tx()
		js := mustJSON(m)
		var x, y seth.Transaction
		if err := json.Unmarshal(js, &x); err != nil || !sameVal(x, want) {
			c.Fatalf("%s decoded as %s (%v)", js, mustJSON(&x), err)
		}
		if err := json.Unmarshal(mustJSON(&x), &y); err != nil || !sameVal(y, want) {
			c.Fatalf("own JSON %s: %v", mustJSON(&x), err)
		}
		c.NonTrivial(js)
		c.Sample("%s", js)
	})

	p.Check("receipt", 4000, 80000, func(c *vk.C) {
		m, want := node{c.T}.receipt()
		js := mustJSON(m)
		var x, y seth.Receipt
		if err := json.Unmarshal(js, &x); err != nil || !sameVal(x, want) {
			c.Fatalf("%s decoded as %s (%v)", js, mustJSON(&x), err)
		}
		if x.Threw() != (want.Status == 0) {
			c.Fatalf("Threw of status %d is %v", want.Status, x.Threw())
		}
		if err := json.Unmarshal(mustJSON(&x), &y); err != nil || !sameVal(y, want) {
			c.Fatalf("own JSON %s: %v", mustJSON(&x), err)
		}
		c.Class(fmt.Sprintf("threw=%v", x.Threw()))
		c.NonTrivial(js)
		c.Sample("%s", js)
	})

	p.Check("transfer", 8000, 150000, func(c *vk.C) {
		_, r := node{c.T}.receipt()
		r.BlockNumber &= 1<<62 - 1
		r.Index &= 1<<31 - 1
		l := seth.Log{Address: gen.Address().Draw(c.T, "token")}
		sig := crypto.Keccak256([]byte("Transfer(address,address,uint256)"))
		from, to := gen.Address().Draw(c.T, "from"), gen.Address().Draw(c.T, "to")
		word := func(a seth.Address) seth.Data { return append(make(seth.Data, 12), a[:]...) }
		l.Topics = []seth.Data{append(seth.Data{}, sig...), word(from), word(to)}
		amount := gen.Big(256).Draw(c.T, "amount")
		l.Data = seth.Data(append(make([]byte, 32-len(amount.Bytes())), amount.Bytes()...))
		ok := true
		kind := rapid.SampledFrom([]string{"transfer", "transfer", "approval", "sigbit", "few", "many", "none", "shorttopic", "longtopic"}).Draw(c.T, "kind")
		switch kind {
		case "transfer":
		default:
			ok = false
		case "approval":
			ok = false
			l.Topics[0] = crypto.Keccak256([]byte("Approval(address,address,uint256)"))
		case "sigbit":
			ok = false
			i := rapid.IntRange(0, 255).Draw(c.T, "bit")
			l.Topics[0][i/8] ^= 1 << uint(i%8)
		case "few":
			ok = false
			l.Topics = l.Topics[:rapid.IntRange(1, 2).Draw(c.T, "n")]
		case "many":
			ok = false
			l.Topics = append(l.Topics, word(to))
		case "none":
			ok = false
			l.Topics = nil
		case "shorttopic":
			ok = false
			i := rapid.IntRange(0, 2).Draw(c.T, "i")
			l.Topics[i] = l.Topics[i][:rapid.IntRange(0, 31).Draw(c.T, "n")]
		case "longtopic":
			ok = false
			i := rapid.IntRange(0, 2).Draw(c.T, "i")
			l.Topics[i] = append(l.Topics[i], 0)
		}
		var tt seth.TokenTransfer
		var got bool
		if m := vk.Trap(func() { tt, got = r.ParseTransfer(&l) }); m != "" {
			c.Fatalf("%s: %s", mustJSON(&l), m)
		}
		if got != ok {
			c.Fatalf("%s is a transfer: %v, want %v", mustJSON(&l), got, ok)
		}
		if ok {
			if tt.Block != int64(r.BlockNumber) || tt.TxHeight != int(r.Index) || tt.Token != l.Address || tt.From != from || tt.To != to || tt.Amount.Big().Cmp(amount) != 0 {
				c.Fatalf("%s parsed as %+v", mustJSON(&l), tt)
			}
		}
		c.Class(kind)
		c.NonTrivial(mustJSON(&l))
		c.Sample("%s -> %v", mustJSON(&l), ok)
	})

	p.Check("selectors", 3000, 50000, func(c *vk.C) {
		s := rapid.String().Draw(c.T, "s")
		want := crypto.Keccak256([]byte(s))
		a, b := seth.HashString(s), seth.HashBytes([]byte(s))
		if !bytes.Equal(a[:], want) || !bytes.Equal(b[:], want) {
			c.Fatalf("hash of %q is %s and %s, want %x", s, &a, &b, want)
		}
		c.NonTrivial(s)
	})
	_ = big.NewInt
}
