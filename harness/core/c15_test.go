package core

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"math/big"
	"os"
	"reflect"
	"strings"
	"sync"
	"testing"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/rlp"
	"github.com/philhofer/seth"
	"pgregory.net/rapid"

	"verif/harness/gen"
	"verif/harness/vk"
)

func TestMain(m *testing.M) {
	log.SetOutput(io.Discard)
	os.Exit(m.Run())
}

// rcall is one request as it goes over the wire.
type rcall struct {
	method string
	params []interface{}
	raw    string
}

// fakeNode is a transport that answers each request by a function, in JSON.
type fakeNode struct {
	mu     sync.Mutex
	calls  []rcall
	answer func(rcall) (reply string, err error) // reply is `"result":...` or `"error":...`
	bad    string                                // a malformed request
}

func (n *fakeNode) Execute(req *seth.RPCRequest, res *seth.RPCResponse) error {
	n.mu.Lock()
	defer n.mu.Unlock()
	b, err := json.Marshal(req)
	if err != nil {
		n.bad = err.Error()
		return err
	}
	var m map[string]interface{}
	json.Unmarshal(b, &m)
	c := rcall{raw: string(b)}
	c.method, _ = m["method"].(string)
	c.params, _ = m["params"].([]interface{})
	if m["jsonrpc"] != "2.0" || c.method == "" || m["id"] == nil {
		n.bad = string(b)
	}
	n.calls = append(n.calls, c)
	reply, err := n.answer(c)
	if err != nil {
		return err
	}
	return json.Unmarshal([]byte(fmt.Sprintf(`{"jsonrpc":"2.0","id":%d,%s}`, req.ID, reply)), res)
}

// canon is a JSON value in a comparable form.
func canon(v interface{}) string {
	b := mustJSON(v)
	var x interface{}
	json.Unmarshal(b, &x)
	return string(mustJSON(x))
}

func blockSpec(t *rapid.T) (int64, []string) {
	n := rapid.OneOf(rapid.SampledFrom([]int64{-2, -1, 0, 1, 9, 10, 16, 1<<63 - 1}), rapid.Int64Range(0, 1<<62)).Draw(t, "block")
	switch n {
	case -2:
		return n, []string{`"pending"`}
	case -1:
		return n, []string{`"latest"`}
	case 0:
		return n, []string{`"earliest"`, `"0x0"`}
	}
	return n, []string{fmt.Sprintf(`"0x%x"`, n)}
}

// genOpts draws call options and their JSON form.
func genOpts(t *rapid.T) (*seth.CallOpts, map[string]interface{}) {
	o := &seth.CallOpts{
		From: gen.Opt(gen.Address()).Draw(t, "from"), To: gen.Opt(gen.Address()).Draw(t, "to"),
		Gas: gen.Opt(gen.Int(64)).Draw(t, "gas"), GasPrice: gen.Opt(gen.Int(100)).Draw(t, "price"),
		Value: gen.Opt(gen.Int(256)).Draw(t, "value"), Data: gen.Bytes(0, 70).Draw(t, "data"),
	}
	m := map[string]interface{}{"data": hx(o.Data)}
	if o.From != nil {
		m["from"] = hx(o.From[:])
	}
	if o.To != nil {
		m["to"] = hx(o.To[:])
	}
	for k, v := range map[string]*seth.Int{"gas": o.Gas, "gasPrice": o.GasPrice, "value": o.Value} {
		if v != nil {
			m[k] = fmt.Sprintf("0x%x", v.Big())
		}
	}
	if n := gen.Opt(gen.Uint64()).Draw(t, "nonce"); n != nil {
		u := seth.Uint64(*n)
		o.Nonce = &u
		m["nonce"] = fmt.Sprintf("0x%x", *n)
	}
	return o, m
}

// sameOpts compares call options on the wire with those wanted; no data is
// the same as empty data.
func sameOpts(got interface{}, want map[string]interface{}) bool {
	g, ok := got.(map[string]interface{})
	if !ok {
		return false
	}
	c := map[string]interface{}{}
	for k, v := range g {
		c[k] = v
	}
	if c["data"] == nil {
		c["data"] = "0x"
	}
	return canon(c) == canon(want)
}

// mcase is one client method to call.
type mcase struct {
	name   string
	method string
	params []interface{} // wanted; []string lists alternatives, a map is call options
	result string        // the node's reply
	do     func(*seth.Client) (interface{}, error)
	want   interface{}
	bad    []string // replies of the wrong type
}

func genMethod(t *rapid.T) mcase {
	n := node{t}
	addr := gen.Address().Draw(t, "a")
	hash := gen.Hash().Draw(t, "h")
	num, spec := blockSpec(t)
	i63 := int64(gen.Uint64().Draw(t, "i63") >> 1)
	q63 := fmt.Sprintf(`"0x%x"`, i63)
	notQ := []string{`{}`, `[]`, `true`, `"zz"`, `"0xzz"`, `"0x1ffffffffffffffff "`}
	notObj := []string{`"x"`, `[]`, `12`, `true`}
	notHex := []string{`{}`, `[1]`, `true`, `12`, `"12"`, `"0xz1"`}
	latest := []string{`"latest"`}
	switch rapid.IntRange(0, 25).Draw(t, "method") {
	case 0:
		s := rapid.SampledFrom([]string{"63", "0x41", ""}).Draw(t, "version")
		return mcase{"ProtocolVersion", "eth_protocolVersion", nil, string(mustJSON(s)), func(c *seth.Client) (interface{}, error) { return c.ProtocolVersion() }, s, []string{`{}`, `[]`, `12`}}
	case 1:
		if rapid.Bool().Draw(t, "synced") {
			return mcase{"Syncing", "eth_syncing", nil, "false", func(c *seth.Client) (interface{}, error) { return c.Syncing() }, (*seth.SyncStatus)(nil), nil}
		}
		st := seth.SyncStatus{Starting: seth.Uint64(gen.Uint64().Draw(t, "s")), Current: seth.Uint64(gen.Uint64().Draw(t, "c")), Highest: seth.Uint64(gen.Uint64().Draw(t, "x"))}
		return mcase{"Syncing", "eth_syncing", nil, fmt.Sprintf(`{"startingBlock":"0x%x","currentBlock":"0x%x","highestBlock":"0x%x"}`, uint64(st.Starting), uint64(st.Current), uint64(st.Highest)),
			func(c *seth.Client) (interface{}, error) { return c.Syncing() }, &st, []string{`true`, `"x"`, `[]`, `{"currentBlock":{}}`}}
	case 2:
		return mcase{"Coinbase", "eth_coinbase", nil, string(mustJSON(hx(addr[:]))), func(c *seth.Client) (interface{}, error) { return c.Coinbase() }, &addr, append(notHex, `"0x12"`)}
	case 3:
		b := rapid.Bool().Draw(t, "b")
		return mcase{"Mining", "eth_mining", nil, fmt.Sprint(b), func(c *seth.Client) (interface{}, error) { return c.Mining() }, b, []string{`"x"`, `{}`, `1`}}
	case 4:
		return mcase{"Hashrate", "eth_hashrate", nil, q63, func(c *seth.Client) (interface{}, error) { return c.Hashrate() }, i63, append(notQ, `"-0x1"`, `"0x10000000000000000"`)}
	case 5:
		return mcase{"GasPrice", "eth_gasPrice", nil, q63, func(c *seth.Client) (interface{}, error) { return c.GasPrice() }, i63, append(notQ, `"0x10000000000000000"`)}
	case 6:
		var as []seth.Address
		var js []string
		for i := rapid.IntRange(0, 3).Draw(t, "n"); i > 0; i-- {
			a := gen.Address().Draw(t, "acct")
			as, js = append(as, a), append(js, hx(a[:]))
		}
		if js == nil {
			js = []string{}
		}
		return mcase{"Accounts", "eth_accounts", nil, string(mustJSON(js)), func(c *seth.Client) (interface{}, error) { return c.Accounts() }, as, []string{`{}`, `"x"`, `["0x1"]`, `[1]`}}
	case 7:
		return mcase{"BlockNumber", "eth_blockNumber", nil, q63, func(c *seth.Client) (interface{}, error) { return c.BlockNumber() }, i63, notQ}
	case 8:
		m, _, txs, _ := n.block(false)
		if txs == nil {
			txs = []seth.Transaction{}
		}
		return mcase{"Pending", "eth_getBlockByNumber", []interface{}{[]string{`"pending"`}, true}, string(mustJSON(m)), func(c *seth.Client) (interface{}, error) { return c.Pending() }, txs, append(notObj, `{"transactions":[{}, 1]}`)}
	case 9:
		return mcase{"GetNonceAt", "eth_getTransactionCount", []interface{}{hx(addr[:]), spec}, q63, func(c *seth.Client) (interface{}, error) { return c.GetNonceAt(&addr, num) }, i63, notQ}
	case 10:
		return mcase{"GetNonce", "eth_getTransactionCount", []interface{}{hx(addr[:]), latest}, q63, func(c *seth.Client) (interface{}, error) { return c.GetNonce(&addr) }, i63, notQ}
	case 11:
		x := gen.Int(256).Draw(t, "bal")
		return mcase{"GetBalanceAt", "eth_getBalance", []interface{}{hx(addr[:]), spec}, fmt.Sprintf(`"0x%x"`, x.Big()), func(c *seth.Client) (interface{}, error) { return c.GetBalanceAt(&addr, num) }, x, notQ}
	case 12:
		x := gen.Int(256).Draw(t, "bal")
		return mcase{"GetBalance", "eth_getBalance", []interface{}{hx(addr[:]), latest}, fmt.Sprintf(`"0x%x"`, x.Big()), func(c *seth.Client) (interface{}, error) { return c.GetBalance(&addr) }, x, notQ}
	case 13:
		hashes := rapid.Bool().Draw(t, "hashes")
		m, b, _, _ := n.block(hashes)
		_ = b
		js := string(mustJSON(m))
		want := new(seth.Block)
		if err := json.Unmarshal([]byte(js), want); err != nil {
			panic("HARNESS-ERROR: " + err.Error())
		}
		return mcase{"GetBlock", "eth_getBlockByNumber", []interface{}{spec, !hashes}, js, func(c *seth.Client) (interface{}, error) { return c.GetBlock(num, !hashes) }, want, notObj}
	case 14:
		m, _, _, _ := n.block(false)
		js := string(mustJSON(m))
		want := new(seth.Block)
		json.Unmarshal([]byte(js), want)
		txs := rapid.Bool().Draw(t, "txs")
		return mcase{"Latest", "eth_getBlockByNumber", []interface{}{latest, txs}, js, func(c *seth.Client) (interface{}, error) { return c.Latest(txs) }, want, notObj}
	case 15:
		m, tx := n.tx()
		return mcase{"GetTransaction", "eth_getTransactionByHash", []interface{}{hx(hash[:])}, string(mustJSON(m)), func(c *seth.Client) (interface{}, error) { return c.GetTransaction(&hash) }, &tx, notObj}
	case 16, 17:
		d := gen.Bytes(0, 200).Draw(t, "code")
		if rapid.Bool().Draw(t, "latest") {
			return mcase{"GetCode", "eth_getCode", []interface{}{hx(addr[:]), latest}, string(mustJSON(hx(d))), func(c *seth.Client) (interface{}, error) { return c.GetCode(&addr) }, d, notHex}
		}
		return mcase{"GetCodeAt", "eth_getCode", []interface{}{hx(addr[:]), spec}, string(mustJSON(hx(d))), func(c *seth.Client) (interface{}, error) { return c.GetCodeAt(&addr, num) }, d, notHex}
	case 18:
		m, r := n.receipt()
		return mcase{"GetReceipt", "eth_getTransactionReceipt", []interface{}{hx(hash[:])}, string(mustJSON(m)), func(c *seth.Client) (interface{}, error) { return c.GetReceipt(&hash) }, &r, notObj}
	case 19:
		o, m := genOpts(t)
		return mcase{"Call", "eth_sendTransaction", []interface{}{m}, string(mustJSON(hx(hash[:]))), func(c *seth.Client) (interface{}, error) { return c.Call(o) }, hash, append(notHex, `"0x12"`)}
	case 20:
		raw := gen.Bytes(0, 200).Draw(t, "raw")
		return mcase{"RawCall", "eth_sendRawTransaction", []interface{}{hx(raw)}, string(mustJSON(hx(hash[:]))), func(c *seth.Client) (interface{}, error) { return c.RawCall(raw) }, hash, append(notHex, `"0x12"`)}
	case 21:
		o, m := genOpts(t)
		x := gen.Int(64).Draw(t, "gas")
		return mcase{"EstimateGas", "eth_estimateGas", []interface{}{m, []string{`"pending"`}}, fmt.Sprintf(`"0x%x"`, x.Big()), func(c *seth.Client) (interface{}, error) { return c.EstimateGas(o) }, x, notQ}
	case 22, 23:
		o, m := genOpts(t)
		d := gen.Bytes(0, 200).Draw(t, "ret")
		do := func(c *seth.Client) (interface{}, error) {
			var out seth.Data
			err := c.ConstCallAt(o, &out, num)
			return out, err
		}
		name := "ConstCallAt"
		if rapid.Bool().Draw(t, "const") {
			name = "ConstCall"
			pending := rapid.Bool().Draw(t, "pending")
			spec = latest
			if pending {
				spec = []string{`"pending"`}
			}
			do = func(c *seth.Client) (interface{}, error) {
				var out seth.Data
				err := c.ConstCall(o, &out, pending)
				return out, err
			}
		}
		if rapid.IntRange(0, 2).Draw(t, "by a sender") == 0 {
			name = "Sender.ConstCall"
			to, arg, x, price := gen.Address().Draw(t, "contract"), gen.Address().Draw(t, "arg"), gen.Int(256).Draw(t, "x"), gen.Int(100).Draw(t, "s price")
			data := append(crypto.Keccak256([]byte("f(address,uint256)"))[:4:4], make([]byte, 12)...)
			data = append(append(data, arg[:]...), common.LeftPadBytes(x.Big().Bytes(), 32)...)
			m = map[string]interface{}{"from": hx(addr[:]), "to": hx(to[:]), "gasPrice": fmt.Sprintf("0x%x", price.Big()), "data": hx(data)}
			spec = []string{`"pending"`}
			do = func(c *seth.Client) (interface{}, error) {
				s := seth.NewSender(c, &addr)
				s.GasPrice = price
				var out seth.Data
				err := s.ConstCall(&to, "f(address,uint256)", &out, &arg, &x)
				return out, err
			}
		}
		return mcase{name, "eth_call", []interface{}{m, spec}, string(mustJSON(hx(d))), do, seth.Data(d), notHex}
	case 24:
		val := gen.Hash().Draw(t, "val")
		return mcase{"StorageAt", "eth_getStorageAt", []interface{}{hx(addr[:]), hx(hash[:]), spec}, string(mustJSON(hx(val[:]))), func(c *seth.Client) (interface{}, error) { return c.StorageAt(&addr, &hash, num) }, val, append(notHex, `"0x12"`)}
	default:
		pw := rapid.String().Draw(t, "password")
		ok := rapid.Bool().Draw(t, "ok")
		var js string
		json.Unmarshal(mustJSON(pw), &js)
		return mcase{"UnlockAccount", "personal_unlockAccount", []interface{}{hx(addr[:]), js, []string{`"0x0"`}}, fmt.Sprint(ok), func(c *seth.Client) (interface{}, error) {
			err := c.UnlockAccount(&addr, pw)
			if err == seth.PasswordDenied {
				return false, nil
			}
			return true, err
		}, ok, []string{`{}`, `"x"`}}
	}
}

func TestC15(t *testing.T) {
	p := vk.Start(t, "C15", "every client method, and the read-only calls of senders, with drawn arguments and block numbers, against a node that answers a drawn value, null, an error, a value of the wrong type, or fails; the request on the wire and the returned value are compared with the JSON-RPC call written independently; non-trivial: a distinct (method, arguments, reply)",
		"64-bit results that the method returns as int64 are drawn below 2^63")

	p.Check("methods", 12000, 400000, func(c *vk.C) {
		m := genMethod(c.T)
		kind := rapid.SampledFrom([]string{"value", "value", "value", "null", "error", "wrong", "transport"}).Draw(c.T, "reply")
		if kind == "wrong" && len(m.bad) == 0 {
			kind = "value"
		}
		boom := errors.New("transport down")
		code, msg := rapid.SampledFrom([]int{-32000, -32601, 1, -1, 3}).Draw(c.T, "code"), rapid.SampledFrom([]string{"execution reverted", "", "ü"}).Draw(c.T, "msg")
		reply := `"result":` + m.result
		switch kind {
		case "null":
			reply = `"result":null`
		case "error":
			reply = fmt.Sprintf(`"error":{"code":%d,"message":%s}`, code, mustJSON(msg))
		case "wrong":
			reply = `"result":` + rapid.SampledFrom(m.bad).Draw(c.T, "wrong")
		}
		n := &fakeNode{answer: func(rcall) (string, error) {
			if kind == "transport" {
				return "", boom
			}
			return reply, nil
		}}
		var got interface{}
		var err error
		if trap := vk.Trap(func() { got, err = m.do(seth.NewClientTransport(n)) }); trap != "" {
			c.Fatalf("%s with reply %s: %s", m.name, reply, trap)
		}
		if n.bad != "" || len(n.calls) != 1 {
			c.Fatalf("%s: %d requests, %s", m.name, len(n.calls), n.bad)
		}
		call := n.calls[0]
		if call.method != m.method || len(call.params) != len(m.params) {
			c.Fatalf("%s sends %s, want %s%v", m.name, call.raw, m.method, m.params)
		}
		for i, w := range m.params {
			ok := false
			switch w := w.(type) {
			case []string:
				for _, a := range w {
					ok = ok || canon(call.params[i]) == a
				}
			case map[string]interface{}:
				ok = sameOpts(call.params[i], w)
			default:
				ok = canon(call.params[i]) == canon(w)
			}
			if !ok {
				c.Fatalf("%s sends %s, want %s%v", m.name, call.raw, m.method, m.params)
			}
		}
		switch kind {
		case "value":
			if err != nil || !same(reflect.ValueOf(&got).Elem().Elem(), reflect.ValueOf(&m.want).Elem().Elem()) {
				c.Fatalf("%s given %s returns %v, %v; want %v", m.name, m.result, show(got), err, show(m.want))
			}
		case "null":
			if err != seth.ErrNotFound {
				c.Fatalf("%s given null returns %v, %v", m.name, show(got), err)
			}
		case "error":
			var e *seth.RPCError
			if !errors.As(err, &e) || e.Code != code || e.Message != msg {
				c.Fatalf("%s given %s returns %v, %v", m.name, reply, show(got), err)
			}
		case "wrong":
			if err == nil {
				c.Fatalf("%s given %s returns %v without an error", m.name, reply, show(got))
			}
		case "transport":
			if !errors.Is(err, boom) {
				c.Fatalf("%s returns %v when the transport fails", m.name, err)
			}
		}
		c.Class(m.name, "reply-"+kind)
		c.NonTrivial(call.raw, reply)
		c.Sample("%s -> %s %v", call.raw, reply, err)
	})
}

// wireTx is what the raw transaction says on the network.
func wireTx(raw []byte) (*types.Transaction, common.Address, error) {
	tx := new(types.Transaction)
	if err := rlp.DecodeBytes(raw, tx); err != nil {
		return nil, common.Address{}, err
	}
	from, err := types.Sender(types.NewEIP155Signer(big.NewInt(1)), tx)
	return tx, from, err
}

func TestC18(t *testing.T) {
	p := vk.Start(t, "C18", "Send, Call (with any options preset), Create and Cancel through a Sender with or without a signer, at drawn gas ratios and prices, against a node that estimates, counts and may fail at any step, and signers that fail or sign with another key; what is submitted is decoded with go-ethereum; non-trivial: a distinct submitted transaction, or a failure with nothing submitted",
		"go-ethereum v1.9.2 core/types decodes and recovers raw transactions")

	p.Check("submit", 5000, 150000, func(c *vk.C) {
		key := genKey(c.T)
		addr := *key.Address()
		est := int64(rapid.IntRange(0, 1<<40).Draw(c.T, "estimate"))
		nonce := gen.Uint64().Draw(c.T, "nonce") >> 1
		signer := rapid.SampledFrom([]string{"none", "good", "good", "good", "wrong", "fails", "garbage"}).Draw(c.T, "signer")
		op := rapid.SampledFrom([]string{"send", "call", "create", "cancel"}).Draw(c.T, "op")
		failAt := ""
		if rapid.IntRange(0, 2).Draw(c.T, "failing") == 0 {
			failAt = rapid.SampledFrom([]string{"eth_estimateGas", "eth_getTransactionCount", "eth_getTransactionByHash", "eth_sendTransaction", "eth_sendRawTransaction", "eth_getTransactionReceipt"}).Draw(c.T, "failat")
		}
		failNull := rapid.Bool().Draw(c.T, "failnull")
		txhash := gen.Hash().Draw(c.T, "txhash")
		created := gen.Opt(gen.Address()).Draw(c.T, "created")
		// the transaction to cancel
		old := seth.Transaction{Nonce: seth.Uint64(gen.Uint64().Draw(c.T, "oldnonce")), GasPrice: gen.Int(80).Draw(c.T, "oldprice"), Hash: gen.Hash().Draw(c.T, "oldhash"), Gas: 21000}
		mined := rapid.IntRange(0, 4).Draw(c.T, "mined") == 0
		idx := seth.Uint64(3)
		var submitted []rcall
		var estimated []interface{}
		var countOf []interface{}
		n := &fakeNode{}
		n.answer = func(r rcall) (string, error) {
			if r.method == "eth_sendTransaction" || r.method == "eth_sendRawTransaction" {
				submitted = append(submitted, r)
			}
			if r.method == failAt {
				if failNull {
					return `"result":null`, nil
				}
				return `"error":{"code":-5,"message":"no"}`, nil
			}
			switch r.method {
			case "eth_estimateGas":
				estimated = r.params
				return fmt.Sprintf(`"result":"0x%x"`, est), nil
			case "eth_getTransactionCount":
				countOf = r.params
				return fmt.Sprintf(`"result":"0x%x"`, nonce), nil
			case "eth_sendTransaction", "eth_sendRawTransaction":
				return `"result":` + string(mustJSON(hx(txhash[:]))), nil
			case "eth_getTransactionByHash":
				if len(submitted) > 0 { // Create waits for its transaction
					if canon(r.params) != canon([]string{hx(txhash[:])}) {
						return "", fmt.Errorf("asked for %v", r.params)
					}
					tx := seth.Transaction{Hash: txhash, TxIndex: &idx}
					return `"result":` + string(mustJSON(&tx)), nil
				}
				o := old
				if mined {
					o.TxIndex = &idx
				}
				return `"result":` + string(mustJSON(&o)), nil
			case "eth_getTransactionReceipt":
				rc := seth.Receipt{Hash: txhash, Address: created, Status: 1}
				return `"result":` + string(mustJSON(&rc)), nil
			}
			return "", errors.New("unexpected call " + r.raw)
		}
		from := addr
		s := seth.NewSender(seth.NewClientTransport(n), &from)
		if rapid.Bool().Draw(c.T, "ratio") {
			s.GasRatio.Num, s.GasRatio.Denom = rapid.IntRange(1, 9).Draw(c.T, "num"), rapid.IntRange(1, 9).Draw(c.T, "denom")
			k := rapid.SampledFrom([]int{1, 1, 1000, 1e9, 1e12, 1e17}).Draw(c.T, "scale") // the same ratio in finer units
			s.GasRatio.Num, s.GasRatio.Denom = k*s.GasRatio.Num, k*s.GasRatio.Denom
		}
		if rapid.Bool().Draw(c.T, "price") {
			s.GasPrice = gen.Int(80).Draw(c.T, "gasprice")
		}
		other := genKey(c.T)
		badSigner := false
		switch signer {
		case "good":
			s.Signer = key.Signer()
		case "wrong":
			s.Signer = other.Signer()
			badSigner = *other != *key
		case "fails":
			s.Signer = func(h *seth.Hash) (*seth.Signature, error) {
				if failNull { // the error counts, whatever comes with it
					return key.Sign(h), errors.New("no key")
				}
				return nil, errors.New("no key")
			}
			badSigner = true
		case "garbage":
			var g seth.Signature
			copy(g[:], gen.Bytes(65, 65).Draw(c.T, "sig"))
			s.Signer = func(*seth.Hash) (*seth.Signature, error) { return &g, nil }
			badSigner = true
		}
		// what is expected on the wire
		want := struct {
			to              *seth.Address
			value, price    *big.Int
			data            []byte
			nonce           uint64
			nonceSet, estim bool
			gas             *big.Int
		}{value: new(big.Int), price: s.GasPrice.Big(), nonce: nonce, estim: true}
		sentFrom := addr
		want.gas = new(big.Int).Mul(big.NewInt(est), big.NewInt(int64(s.GasRatio.Num)))
		want.gas.Div(want.gas, big.NewInt(int64(s.GasRatio.Denom)))
		price0 := s.GasPrice.Big().String()

		var got interface{}
		var err error
		trap := vk.Trap(func() {
			switch op {
			case "send":
				to := gen.Address().Draw(c.T, "to")
				x := gen.Int(256).Draw(c.T, "arg")
				want.to = &to
				want.data = seth.ABIEncode("transfer(address,uint256)", &addr, &x)
				got, err = s.Send(&to, "transfer(address,uint256)", &addr, &x)
			case "call":
				o := &seth.CallOpts{To: gen.Opt(gen.Address()).Draw(c.T, "to"), Value: gen.Opt(gen.Int(90)).Draw(c.T, "value"), Data: gen.Bytes(0, 60).Draw(c.T, "data")}
				switch rapid.IntRange(0, 4).Draw(c.T, "presetfrom") {
				case 0, 1:
					f := addr
					o.From = &f
				case 2: // another account's: the signer's key must not be used for it
					f := gen.Address().Draw(c.T, "otherfrom")
					if rapid.Bool().Draw(c.T, "near") {
						f = addr
						f[rapid.IntRange(0, 19).Draw(c.T, "byte")] ^= 1 << uint(rapid.IntRange(0, 7).Draw(c.T, "bit"))
					} else if rapid.Bool().Draw(c.T, "others") {
						f = *other.Address()
					}
					o.From = &f
					if signer == "good" {
						badSigner = f != addr
					} else if signer == "wrong" {
						badSigner = *other.Address() != f
					}
					sentFrom = f
				}
				if g := gen.Opt(gen.Int(40)).Draw(c.T, "gas"); g != nil {
					o.Gas, want.gas, want.estim = g, g.Big(), false
				}
				if g := gen.Opt(gen.Int(80)).Draw(c.T, "presetprice"); g != nil {
					o.GasPrice, want.price = g, g.Big()
				}
				if g := gen.Opt(gen.Uint64()).Draw(c.T, "presetnonce"); g != nil {
					u := seth.Uint64(*g)
					o.Nonce, want.nonce, want.nonceSet = &u, *g, true
				}
				want.to, want.data = o.To, o.Data
				if o.Value != nil {
					want.value = o.Value.Big()
				}
				got, err = s.Call(o)
			case "create":
				want.data = gen.Bytes(1, 80).Draw(c.T, "code")
				v := gen.Opt(gen.Int(90)).Draw(c.T, "value")
				if v != nil {
					want.value = v.Big()
				}
				got, err = s.Create(want.data, v)
			case "cancel":
				want.to, want.nonce, want.nonceSet = &addr, uint64(old.Nonce), true
				h := old.Hash
				got, err = s.Cancel(&h)
			}
		})
		desc := fmt.Sprintf("%s, signer %s, failing %s", op, signer, failAt)
		if trap != "" {
			c.Fatalf("%s: %s", desc, trap)
		}
		if n.bad != "" || from != addr || s.GasPrice.Big().String() != price0 {
			c.Fatalf("%s: bad request %s, or the sender changed", desc, n.bad)
		}
		// may it be submitted at all?
		raw := s.Signer != nil
		must := !badSigner || !raw
		switch failAt {
		case "eth_estimateGas":
			must = must && !want.estim
		case "eth_getTransactionCount":
			must = must && (!raw || want.nonceSet)
		case "eth_getTransactionByHash":
			must = must && op != "cancel"
		}
		if op == "cancel" && mined {
			must = false
			if failAt == "" && err != seth.ErrCannotCancel {
				c.Fatalf("%s: cancelling a mined transaction gives %v", desc, err)
			}
		}
		if !must {
			if len(submitted) > 0 || err == nil {
				c.Fatalf("%s: returns %v, %v and submits %v", desc, got, err, submitted)
			}
			c.Class(op, "nothing-submitted")
			c.NonTrivial(desc, fmt.Sprint(n.calls))
			return
		}
		if len(submitted) != 1 {
			c.Fatalf("%s: %d submissions (%v)", desc, len(submitted), err)
		}
		sub := submitted[0]
		if want.estim {
			w := map[string]interface{}{"from": hx(sentFrom[:]), "data": hx(want.data)}
			g, _ := estimated[0].(map[string]interface{})
			if want.to != nil {
				w["to"] = hx(want.to[:])
			}
			if want.value.Sign() != 0 {
				w["value"] = fmt.Sprintf("0x%x", want.value)
			}
			for k, v := range w {
				if d := g[k]; d != v && !(k == "data" && d == nil && v == "0x") {
					c.Fatalf("%s: gas is estimated for %v, want %s %v", desc, estimated, k, v)
				}
			}
			if (w["to"] == nil && g["to"] != nil) || (w["value"] == nil && g["value"] != nil && g["value"] != "0x0") {
				c.Fatalf("%s: gas is estimated for %v, want %v", desc, estimated, w)
			}
		}
		if raw {
			if sub.method != "eth_sendRawTransaction" {
				c.Fatalf("%s: submitted by %s", desc, sub.raw)
			}
			var d seth.Data
			json.Unmarshal(mustJSON(sub.params[0]), &d)
			tx, sender, e := wireTx(d)
			if e != nil || sender != common.Address(sentFrom) {
				c.Fatalf("%s: raw transaction %x from %x, want %s: %v", desc, []byte(d), sender, &addr, e)
			}
			toOK := (tx.To() == nil) == (want.to == nil) && (want.to == nil || *tx.To() == common.Address(*want.to))
			gp := tx.GasPrice()
			priceOK := gp.Cmp(want.price) == 0
			if op == "cancel" {
				priceOK = gp.Cmp(old.GasPrice.Big()) > 0
			}
			if !toOK || !priceOK || tx.Value().Cmp(want.value) != 0 || !bytes.Equal(tx.Data(), want.data) || tx.Nonce() != want.nonce || new(big.Int).SetUint64(tx.Gas()).Cmp(want.gas) != 0 {
				c.Fatalf("%s: submitted %s, want %+v", desc, mustJSON(tx), want)
			}
			if !want.nonceSet && canon(countOf) != canon([]string{hx(sentFrom[:]), "pending"}) {
				c.Fatalf("%s: the nonce is looked up with %v", desc, countOf)
			}
		} else {
			if sub.method != "eth_sendTransaction" {
				c.Fatalf("%s: submitted by %s", desc, sub.raw)
			}
			var o seth.CallOpts
			if e := json.Unmarshal(mustJSON(sub.params[0]), &o); e != nil {
				c.Fatalf("%s: submitted %s", desc, sub.raw)
			}
			val := new(big.Int)
			if o.Value != nil {
				val = o.Value.Big()
			}
			toOK := (o.To == nil) == (want.to == nil) && (want.to == nil || *o.To == *want.to)
			if o.From == nil || *o.From != sentFrom || !toOK || o.GasPrice == nil || o.Gas == nil || val.Cmp(want.value) != 0 || !bytes.Equal(o.Data, want.data) || o.Gas.Big().Cmp(want.gas) != 0 {
				c.Fatalf("%s: submitted %s, want %+v", desc, sub.raw, want)
			}
			if op == "cancel" && o.GasPrice.Big().Cmp(old.GasPrice.Big()) <= 0 || op != "cancel" && o.GasPrice.Big().Cmp(want.price) != 0 {
				c.Fatalf("%s: submitted at price %s, want %s", desc, o.GasPrice, want.price)
			}
			if want.nonceSet && (o.Nonce == nil || uint64(*o.Nonce) != want.nonce) {
				c.Fatalf("%s: submitted %s, want nonce %d", desc, sub.raw, want.nonce)
			}
		}
		// the outcome
		failsLater := failAt == sub.method || (op == "create" && (failAt == "eth_getTransactionReceipt" || failAt == "eth_getTransactionByHash" || created == nil))
		if failsLater {
			if err == nil {
				c.Fatalf("%s: returns %v without an error", desc, got)
			}
		} else if op == "create" {
			if err != nil || got.(seth.Address) != *created {
				c.Fatalf("%s: returns %v, %v; want %s", desc, got, err, created)
			}
		} else if err != nil || got.(seth.Hash) != txhash {
			c.Fatalf("%s: returns %v, %v; want %s", desc, got, err, &txhash)
		}
		c.Class(op, sub.method)
		c.NonTrivial(desc, sub.raw)
		c.Sample("%s: %s", desc, sub.raw)
	})

	p.Check("no address", 300, 5000, func(c *vk.C) {
		key := genKey(c.T)
		nonce := gen.Opt(gen.Uint64()).Draw(c.T, "nonce")
		o := &seth.CallOpts{To: gen.Opt(gen.Address()).Draw(c.T, "to"), Data: gen.Bytes(0, 60).Draw(c.T, "data"), Gas: seth.NewInt(int64(rapid.IntRange(0, 1<<30).Draw(c.T, "gas")))}
		if nonce != nil {
			u := seth.Uint64(*nonce)
			o.Nonce = &u
		}
		h := gen.Hash().Draw(c.T, "hash")
		n := &fakeNode{}
		n.answer = func(r rcall) (string, error) {
			if r.method == "eth_sendRawTransaction" && nonce != nil {
				return `"result":` + string(mustJSON(hx(h[:]))), nil
			}
			return `"result":"0x1"`, nil
		}
		s := seth.NewSender(seth.NewClientTransport(n), nil)
		s.Signer = key.Signer()
		var got seth.Hash
		var err error
		if trap := vk.Trap(func() { got, err = s.Call(o) }); trap != "" {
			c.Fatalf("a call by a sender without an address: %s", trap)
		}
		c.NonTrivial(fmt.Sprint(n.calls), o.To)
		if nonce == nil {
			for _, r := range n.calls {
				if strings.HasPrefix(r.method, "eth_send") {
					c.Fatalf("submitted without a nonce: %s", r.raw)
				}
			}
			if err == nil {
				c.Fatalf("a call without a nonce, or an account to take it of, gives %s", got.String())
			}
			c.Class("no nonce")
			return
		}
		if err != nil || got != h || len(n.calls) != 1 || n.calls[0].method != "eth_sendRawTransaction" {
			c.Fatalf("a call with nonce %d gives %s, %v, and asks for %v", *nonce, got.String(), err, n.calls)
		}
		var d seth.Data
		json.Unmarshal(mustJSON(n.calls[0].params[0]), &d)
		tx, sender, e := wireTx(d)
		if e != nil || sender != common.Address(*key.Address()) || tx.Nonce() != *nonce || !bytes.Equal(tx.Data(), o.Data) || new(big.Int).SetUint64(tx.Gas()).Cmp(o.Gas.Big()) != 0 ||
			(tx.To() == nil) != (o.To == nil) || o.To != nil && *tx.To() != common.Address(*o.To) {
			c.Fatalf("submitted %s by %x (%v), want nonce %d, %v", mustJSON(tx), sender, e, *nonce, o)
		}
	})
}
