package tevmp

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"log"
	"math/big"
	"net/http/httptest"
	"strings"
	"sync"
	"sync/atomic"
	"testing"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/vm"
	"github.com/philhofer/seth"
	"github.com/philhofer/seth/tevm"
	"pgregory.net/rapid"

	"verif/harness/gen"
	"verif/harness/vk"
)

// signature of the parameters of each method: A address, H hash, B block, T
// call, U filter id, F filter, b boolean
var methods = map[string]string{
	"eth_protocolVersion": "", "eth_syncing": "", "eth_gasPrice": "", "eth_blockNumber": "",
	"eth_call": "TB", "eth_sendTransaction": "T", "eth_estimateGas": "TB",
	"eth_getTransactionReceipt": "H", "eth_getTransactionByHash": "H",
	"eth_getBalance": "AB", "eth_getTransactionCount": "AB", "eth_getCode": "AB", "eth_getStorageAt": "AHB",
	"eth_getBlockByHash": "Hb", "eth_getBlockByNumber": "Bb",
	"eth_newFilter": "F", "eth_getFilterChanges": "U", "eth_getFilterLogs": "U", "eth_uninstallFilter": "U",
}

var methodNames = func() (out []string) {
	for m := range methods {
		out = append(out, m)
	}
	for i := range out {
		for j := i + 1; j < len(out); j++ {
			if out[j] < out[i] {
				out[i], out[j] = out[j], out[i]
			}
		}
	}
	return
}()

func (tw *twin) goodParam(k byte) interface{} {
	t := tw.c.T
	switch k {
	case 'A':
		a := rapid.SampledFrom(tw.w.addrs).Draw(t, "addr")
		return hexB(a[:])
	case 'H':
		h := gen.Hash().Draw(t, "hash")
		if n := len(tw.sealed); n > 0 && rapid.Bool().Draw(t, "known") {
			b := tw.sealed[rapid.IntRange(0, n-1).Draw(t, "block")]
			h = b.hash
			if len(b.txs) > 0 && rapid.Bool().Draw(t, "tx") {
				h = b.txs[0].hash
			}
		}
		return hexB(h[:])
	case 'B':
		return rapid.SampledFrom([]interface{}{"latest", "pending", "earliest", "0x64", "0x65", "0x66", "0x0", "0x7fffffffffffffff", hexU(tw.pend.number)}).Draw(t, "block")
	case 'T':
		return tw.genTx().rpc()
	case 'U':
		return rapid.SampledFrom([]interface{}{"0x1", "0x2", "0x3", "0x0", "0x7fffffffffffffff"}).Draw(t, "id")
	case 'F':
		_, tp := drawTopics(t, tw)
		f := map[string]interface{}{}
		if rapid.Bool().Draw(t, "topics") {
			f["topics"] = tp
		}
		if rapid.Bool().Draw(t, "from") {
			f["fromBlock"] = tw.goodParam('B')
		}
		if rapid.Bool().Draw(t, "to") {
			f["toBlock"] = tw.goodParam('B')
		}
		return f
	default:
		return rapid.Bool().Draw(t, "bool")
	}
}

// badParam draws a value that no parameter of kind k can have.
func (tw *twin) badParam(k byte) interface{} {
	t := tw.c.T
	if rapid.IntRange(0, 7).Draw(t, "null") == 0 {
		return nil
	}
	common := []interface{}{[]interface{}{}, []interface{}{1, 2}}
	if k != 'T' && k != 'F' {
		common = append(common, map[string]interface{}{}, map[string]interface{}{"from": "0x1"})
	}
	if k != 'b' {
		common = append(common, true, false)
	}
	str := []interface{}{"0xzz", "latest!", "0x" + strings.Repeat("f", 66), "0x-1"}
	if k != 'U' { // a number for a filter, though none has it
		str = append(str, "-0x1")
	}
	switch k {
	case 'A':
		common = append(common, append(str, "0x", "0x00", "", 5, "latest", "0x"+strings.Repeat("0", 38), "0x"+strings.Repeat("0", 41), "0x"+strings.Repeat("0", 42), strings.Repeat("z", 40))...)
	case 'H':
		common = append(common, append(str, "0x", "0x00", "", 5, "latest", "0x"+strings.Repeat("0", 66), "0x"+strings.Repeat("0", 65), "0x"+strings.Repeat("0", 62))...)
	case 'B':
		common = append(common, append(str, "0x8000000000000000", "0xffffffffffffffff", "0x10000000000000000", "0x1"+strings.Repeat("0", 64))...)
	case 'U':
		common = append(common, append(str, "0x8000000000000000", "0x10000000000000000", "pending")...)
	case 'b':
		common = append(common, "true", 1, "0x1")
	case 'T':
		m := tw.genTx().rpc()
		f := rapid.SampledFrom([]string{"from", "gas", "gasPrice", "value", "gasPrice", "value", "data", "to"}).Draw(t, "field")
		bad := []interface{}{"zz", "0xzz", true, []interface{}{}, map[string]interface{}{}}
		if f == "data" {
			bad = append(bad, "0xgg")
		} else {
			// a quantity that no transaction can have
			odd := []interface{}{"0x1" + strings.Repeat("0", 64), "0x1" + strings.Repeat("0", 65), "-0x1", "-1", -1, "-0xffffffffffffffffffff"}
			bad = append(append(bad, odd...), odd...)
		}
		m[f] = rapid.SampledFrom(bad).Draw(t, "value")
		if rapid.Bool().Draw(t, "args") {
			return m
		}
		return rapid.SampledFrom(append(common, "", 5, "0x1")).Draw(t, "bad")
	case 'F':
		m := map[string]interface{}{}
		f := rapid.SampledFrom([]string{"fromBlock", "toBlock", "address", "topics"}).Draw(t, "field")
		m[f] = rapid.SampledFrom([]interface{}{"zz", "0xzz", true, map[string]interface{}{}, "0x1" + strings.Repeat("0", 65), []interface{}{"0x"}, []interface{}{5}, "-0x1"}).Draw(t, "value")
		return rapid.SampledFrom(append(common, m, m, m, "", 5, "0x1")).Draw(t, "bad")
	}
	return rapid.SampledFrom(common).Draw(t, "bad")
}

// junk draws any JSON value.
func junk(t *rapid.T, depth int) interface{} {
	switch k := rapid.IntRange(0, 9).Draw(t, "junk"); {
	case k == 0:
		return nil
	case k == 1:
		return rapid.Bool().Draw(t, "b")
	case k == 2:
		return rapid.Int64().Draw(t, "n")
	case k == 3:
		return hexB(gen.Bytes(0, 40).Draw(t, "hex"))
	case k == 4:
		return hexBig(gen.Big(300).Draw(t, "big"))
	case k == 5:
		return rapid.StringN(0, 8, -1).Draw(t, "s")
	case k == 6 && depth > 0:
		var l []interface{}
		for i := rapid.IntRange(0, 3).Draw(t, "len"); i > 0; i-- {
			l = append(l, junk(t, depth-1))
		}
		return l
	case k == 7 && depth > 0:
		m := map[string]interface{}{}
		for i := rapid.IntRange(0, 4).Draw(t, "len"); i > 0; i-- {
			m[rapid.SampledFrom([]string{"from", "to", "gas", "gasPrice", "value", "data", "fromBlock", "toBlock", "address", "topics", "id", "method", "params", ""}).Draw(t, "key")] = junk(t, depth-1)
		}
		return m
	case k == 8:
		return rapid.SampledFrom([]string{"latest", "pending", "earliest", "0x", "0x0", "0x64", "0x65"}).Draw(t, "word")
	}
	return 1.5
}

// reply is what every request must be answered with.
type reply struct {
	ID      *json.RawMessage
	Version *string `json:"jsonrpc"`
	Result  json.RawMessage
	Error   *seth.RPCError
}

// TestC34: requests of every kind to the server.
func TestC34(t *testing.T) {
	log.SetOutput(ioutil.Discard)
	p := vk.Start(t, "C34", "a case is non-trivial if it made at least 3 good and 3 bad requests (requests), sent a body that is not a request (bodies), or ran at least 10 increments with 3 clients at once (concurrent)",
		"what is not a JSON request with a number for its id is refused with an HTTP error")

	p.Check("requests", 2000, 15000, func(c *vk.C) {
		tw := newTwin(c, rapid.IntRange(1, 2).Draw(c.T, "contracts"), 1)
		for i := rapid.IntRange(0, 4).Draw(c.T, "before"); i > 0; i-- {
			if !tw.do(tw.drawOp(opMine, opSeal, opRPCSend)) {
				return
			}
		}
		if rapid.IntRange(0, 5).Draw(c.T, "debug") == 0 {
			tw.chain.Debugf = func(f string, args ...interface{}) { _ = fmt.Sprintf(f, args...) }
		}
		good, bad, lost := 0, 0, false
		n := rapid.IntRange(1, 14).Draw(c.T, "requests")
		for i := 0; i < n; i++ {
			m := rapid.SampledFrom(methodNames).Draw(c.T, "method")
			sig := methods[m]
			var params []interface{}
			for j := range sig {
				params = append(params, tw.goodParam(sig[j]))
			}
			how := rapid.IntRange(0, 9).Draw(c.T, "how")
			mustFail := false
			switch {
			case how < 4: // good
			case how == 4: // no such method
				m = rapid.SampledFrom([]string{"", "eth_", "eth_mining", "eth_Call", "eth_call ", "web3_sha3", "eth_sendRawTransaction", "net_version", "\x00", strings.Repeat("eth_call", 1000)}).Draw(c.T, "unknown")
				mustFail = true
			case how == 5: // one too many
				params = append(params, junk(c.T, 1))
				mustFail = true
			case how == 6 && len(params) > 0:
				params = params[:rapid.IntRange(0, len(params)-1).Draw(c.T, "fewer")]
				mustFail = true
			case how == 7 && len(params) > 0:
				j := rapid.IntRange(0, len(params)-1).Draw(c.T, "which")
				params[j] = tw.badParam(sig[j])
				mustFail = true
			case how == 8 && len(params) > 0: // anything
				params[rapid.IntRange(0, len(params)-1).Draw(c.T, "which")] = junk(c.T, 2)
			default:
				params = nil
				for j := rapid.IntRange(0, 3).Draw(c.T, "n"); j > 0; j-- {
					params = append(params, junk(c.T, 2))
				}
			}
			if mustFail {
				bad++
			} else if how < 4 {
				good++
			}
			id := rapid.IntRange(-5, 1<<40).Draw(c.T, "id")
			raw := rawParams(params...)
			sends := m == "eth_sendTransaction" && !mustFail
			tw.trace = append(tw.trace, fmt.Sprintf("%s%s", m, raw))
			var result json.RawMessage
			var rerr *seth.RPCError
			if rapid.Bool().Draw(c.T, "http") {
				body, _ := json.Marshal(&seth.RPCRequest{Version: "2.0", Method: m, Params: raw, ID: id})
				w := httptest.NewRecorder()
				if msg := vk.Trap(func() { tw.chain.ServeHTTP(w, httptest.NewRequest("POST", "/", bytes.NewReader(body))) }); msg != "" {
					tw.fatalf("the server panics: %s", msg)
				}
				if w.Code != 200 {
					tw.fatalf("HTTP status %d", w.Code)
				}
				var r reply
				if err := json.Unmarshal(w.Body.Bytes(), &r); err != nil {
					tw.fatalf("bad reply %q: %v", w.Body, err)
				}
				if r.ID == nil || string(*r.ID) != fmt.Sprint(id) {
					tw.fatalf("the reply to request %d is %s", id, w.Body)
				}
				if r.Version == nil || *r.Version != "2.0" {
					tw.fatalf("the reply has the wrong version: %s", w.Body)
				}
				if (r.Error == nil) == (r.Result == nil) {
					tw.fatalf("the reply should have either a result or an error: %s", w.Body)
				}
				result, rerr = r.Result, r.Error
			} else {
				req := &seth.RPCRequest{Version: "2.0", Method: m, Params: raw, ID: id}
				var res seth.RPCResponse
				var err error
				if msg := vk.Trap(func() { err = tw.chain.Execute(req, &res) }); msg != "" {
					tw.fatalf("the server panics: %s", msg)
				}
				if err != nil {
					tw.fatalf("Execute: %v", err)
				}
				if res.ID != id || res.Version != "2.0" {
					tw.fatalf("the reply to request %d has id %d and version %q", id, res.ID, res.Version)
				}
				result = res.Result
				if res.Error.Code != 0 {
					rerr = &res.Error
				}
				if rerr == nil && !json.Valid(result) {
					tw.fatalf("bad result %q", result)
				}
				if rerr != nil && result != nil {
					tw.fatalf("both a result %s and an error %v", result, rerr)
				}
			}
			if rerr != nil && (rerr.Code == 0 || rerr.Message == "") {
				tw.fatalf("an error without code or message: %v", rerr)
			}
			if mustFail && rerr == nil {
				tw.fatalf("the request succeeds: %s", result)
			}
			if how < 4 && (m == "eth_protocolVersion" || m == "eth_syncing" || m == "eth_gasPrice" || m == "eth_blockNumber") && (rerr != nil || string(result) == "null") {
				tw.fatalf("%s has no answer: %s %v", m, result, rerr)
			}
			if sends {
				lost = true // the model does not follow
				continue
			}
			if !lost {
				tw.check()
			}
		}
		if !lost {
			tw.checkRecords()
			tw.checkViews()
		} else {
			// it still works
			a := tw.eoas[0]
			before := tw.chain.BalanceOf(sethAddr(a))
			tw.chain.AddBalance(sethAddr(a), big.NewInt(5))
			if got := tw.chain.BalanceOf(sethAddr(a)); new(big.Int).Sub(got, before).Int64() != 5 {
				tw.fatalf("balance is %v after adding 5 to %v", got, before)
			}
			n := uint64(*tw.chain.State.Pending.Number)
			for k := uint64(100); k < n; k++ {
				if b, err := tw.chain.Client().GetBlock(int64(k), true); err != nil || uint64(*b.Number) != k {
					tw.fatalf("block %d of %d is lost: %v", k, n, err)
				}
			}
		}
		if good >= 3 && bad >= 3 {
			c.NonTrivial(strings.Join(tw.trace, ";"))
		}
		c.Sample("%s", strings.Join(tw.trace, "; "))
	})

	// bodies that need not be requests
	p.Check("bodies", 2500, 60000, func(c *vk.C) {
		chain := tevm.NewChain()
		a := chain.NewAccount(3)
		var body []byte
		request := false
		switch rapid.IntRange(0, 4).Draw(c.T, "body") {
		case 0:
			body = gen.Bytes(0, 100).Draw(c.T, "bytes")
		case 1:
			body, _ = json.Marshal(junk(c.T, 3))
		case 2, 3:
			m := map[string]interface{}{"jsonrpc": "2.0", "id": 7, "method": rapid.SampledFrom(methodNames).Draw(c.T, "method")}
			switch rapid.IntRange(0, 3).Draw(c.T, "params") {
			case 0:
			case 1:
				m["params"] = nil
			default:
				var l []interface{}
				for i := rapid.IntRange(0, 3).Draw(c.T, "n"); i > 0; i-- {
					l = append(l, junk(c.T, 2))
				}
				m["params"] = l
			}
			request = true
			for i := rapid.IntRange(0, 1).Draw(c.T, "spoil"); i > 0; i-- {
				request = false
				m[rapid.SampledFrom([]string{"jsonrpc", "id", "method", "params", "extra"}).Draw(c.T, "key")] = junk(c.T, 3)
			}
			body, _ = json.Marshal(m)
		case 4: // cut short or with something flipped
			body, _ = json.Marshal(map[string]interface{}{"jsonrpc": "2.0", "id": 7, "method": "eth_getBalance", "params": []interface{}{a, "latest"}})
			if rapid.Bool().Draw(c.T, "cut") {
				body = body[:rapid.IntRange(0, len(body)-1).Draw(c.T, "at")]
			} else {
				body[rapid.IntRange(0, len(body)-1).Draw(c.T, "at")] = gen.Byte().Draw(c.T, "with")
			}
		}
		w := httptest.NewRecorder()
		if msg := vk.Trap(func() { chain.ServeHTTP(w, httptest.NewRequest("POST", "/", bytes.NewReader(body))) }); msg != "" {
			c.Fatalf("%q: the server panics: %s", body, msg)
		}
		if w.Code == 200 {
			var r reply
			if err := json.Unmarshal(w.Body.Bytes(), &r); err != nil {
				c.Fatalf("%q: bad reply %q: %v", body, w.Body, err)
			}
			if (r.Error == nil) == (r.Result == nil) {
				c.Fatalf("%q: the reply should have either a result or an error: %s", body, w.Body)
			}
			c.Class("answered")
		} else {
			if request {
				c.Fatalf("%q: refused with status %d", body, w.Code)
			}
			c.Class("refused")
			c.NonTrivial(string(body))
		}
		if got := chain.BalanceOf(&a); new(big.Int).Div(got, big.NewInt(1e18)).Int64() != 3 {
			c.Fatalf("%q: the balance has become %v", body, got)
		}
		c.Sample("%q", body)
	})

	p.Check("concurrent", 80, 1500, func(c *vk.C) { concurrent(c) })
}

// counterCode counts calls that have input in slot 0, logs the new count, and
// returns the count.
func counterCode() []byte {
	a := new(asm)
	a.op(vm.CALLDATASIZE, vm.ISZERO)
	a.b = append(a.b, byte(vm.PUSH1), 0)
	at := len(a.b) - 1
	a.op(vm.JUMPI)
	a.pushn(0).op(vm.SLOAD).pushn(1).op(vm.ADD, vm.DUP1).pushn(0).op(vm.SSTORE)
	a.pushn(0).op(vm.MSTORE).pushn(32).pushn(0).op(vm.LOG0)
	a.b[at] = byte(len(a.b))
	a.op(vm.JUMPDEST)
	a.pushn(0).op(vm.SLOAD).pushn(0).op(vm.MSTORE).pushn(32).pushn(0).op(vm.RETURN)
	return a.bytes()
}

// concurrent has clients increment and read one counter, and move ether.
func concurrent(c *vk.C) {
	chain := tevm.NewChain()
	addr := common.Address{0: 0xcc}
	db := chain.State.StateDB()
	db.CreateAccount(addr)
	db.SetNonce(addr, 1)
	db.SetCode(addr, counterCode())
	db.AddBalance(addr, big.NewInt(0))
	nclients := rapid.IntRange(2, 6).Draw(c.T, "clients")
	each := rapid.IntRange(2, 12).Draw(c.T, "each")
	var eoas []seth.Address
	for i := 0; i < nclients; i++ {
		eoas = append(eoas, chain.NewAccount(10))
	}
	supply := new(big.Int).Mul(big.NewInt(int64(10*nclients)), big.NewInt(1e18))
	type step struct{ what, arg int }
	plans := make([][]step, nclients)
	incs := 0
	for i := range plans {
		for j := 0; j < each; j++ {
			s := step{rapid.IntRange(0, 13).Draw(c.T, "what"), rapid.IntRange(0, nclients-1).Draw(c.T, "arg")}
			if s.what < 4 {
				incs++
			}
			plans[i] = append(plans[i], s)
		}
	}
	var fid seth.Int
	if err := rpc(chain, "eth_newFilter", &fid, map[string]interface{}{}); err != nil {
		c.Fatalf("eth_newFilter: %v", err)
	}
	var started, done int64 // increments
	var mu sync.Mutex
	var failure string
	counts := map[uint64]string{}
	hashes := map[seth.Hash]bool{}
	polled := map[uint64]int{}
	fail := func(f string, args ...interface{}) {
		mu.Lock()
		if failure == "" {
			failure = fmt.Sprintf(f, args...)
		}
		mu.Unlock()
	}
	input := "0x01"
	poll := func() {
		var logs []seth.Log
		if err := rpc(chain, "eth_getFilterChanges", &logs, &fid); err != nil {
			fail("eth_getFilterChanges: %v", err)
		}
		mu.Lock()
		for _, l := range logs {
			polled[new(big.Int).SetBytes(l.Data).Uint64()]++
		}
		mu.Unlock()
	}
	sends := map[seth.Address]int{}
	var wg sync.WaitGroup
	for i := range plans {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					fail("panic: %v", e)
				}
			}()
			cl := chain.Client()
			if i%2 == 1 {
				cl = seth.NewClientTransport(httpTransport{chain})
			}
			me := eoas[i]
			last := uint64(0)
			for _, s := range plans[i] {
				switch {
				case s.what < 4:
					atomic.AddInt64(&started, 1)
					var h seth.Hash
					err := cl.Do("eth_sendTransaction", rawParams(map[string]interface{}{"from": me, "to": hexB(addr[:]), "gas": "0x30d40", "data": input}), &h)
					if err != nil {
						fail("increment: %v", err)
						return
					}
					atomic.AddInt64(&done, 1)
					rx, err := cl.GetReceipt(&h)
					if err != nil || len(rx.Logs) != 1 {
						fail("receipt of an increment: %v, %v", rx, err)
						return
					}
					n := new(big.Int).SetBytes(rx.Logs[0].Data).Uint64()
					mu.Lock()
					if hashes[h] {
						mu.Unlock()
						fail("hash %x is given to two transactions", h[:])
						return
					}
					hashes[h] = true
					if counts[n] != "" {
						mu.Unlock()
						fail("two increments counted %d", n)
						return
					}
					counts[n] = fmt.Sprint(i)
					sends[me]++
					mu.Unlock()
					if n <= last {
						fail("client %d counted %d after it saw %d", i, n, last)
						return
					}
					last = n
				case s.what < 7:
					lo := atomic.LoadInt64(&done)
					var ret seth.Data
					err := cl.Do("eth_call", rawParams(map[string]interface{}{"from": me, "to": hexB(addr[:])}, rapidBlock(s.arg)), &ret)
					hi := atomic.LoadInt64(&started)
					n := new(big.Int).SetBytes(ret).Int64()
					if err != nil || n < lo || n > hi {
						fail("read %d (%v) with %d increments done before and %d started after", n, err, lo, hi)
						return
					}
					if uint64(n) < last {
						fail("client %d read %d after it saw %d", i, n, last)
						return
					}
					last = uint64(n)
				case s.what == 7: // value moves
					to := eoas[s.arg]
					var h seth.Hash
					if err := cl.Do("eth_sendTransaction", rawParams(map[string]interface{}{"from": me, "to": to, "gas": "0x30d40", "value": "0x1"}), &h); err != nil {
						fail("transfer: %v", err)
						return
					}
					mu.Lock()
					sends[me]++
					mu.Unlock()
				case s.what == 8:
					poll()
				case s.what == 9:
					cc := chain.Copy()
					total := new(big.Int)
					for j := range eoas {
						total.Add(total, cc.BalanceOf(&eoas[j]))
					}
					if total.Cmp(supply) != 0 {
						fail("in a copy there is %v ether, of %v", total, supply)
						return
					}
					cc.Seal()
					cc.AddBalance(&me, big.NewInt(1))
				case s.what == 10:
					v := chain.AtBlock(-2)
					if v == chain {
						continue // nothing is sealed
					}
					n1 := int64(*v.State.Pending.Number)
					total := new(big.Int)
					for j := range eoas {
						total.Add(total, v.BalanceOf(&eoas[j]))
					}
					if total.Cmp(supply) != 0 {
						fail("at block %d there is %v ether, of %v", n1, total, supply)
						return
					}
				case s.what == 11:
					if _, err := json.Marshal(chain); err != nil {
						fail("save: %v", err)
						return
					}
				case s.what == 12:
					chain.Logs()
					var g seth.Uint64
					if err := cl.Do("eth_estimateGas", rawParams(map[string]interface{}{"from": me, "to": hexB(addr[:]), "data": input}, "pending"), &g); err != nil {
						fail("estimate: %v", err)
						return
					}
				case s.what == 13:
					if b, err := cl.Latest(true); err != nil {
						fail("Latest: %v, %v", b, err)
						return
					}
				}
			}
		}()
	}
	wg.Wait()
	if failure != "" {
		c.Fatalf("%d clients: %s", nclients, failure)
	}
	poll()
	for n := uint64(1); n <= uint64(incs); n++ {
		if counts[n] == "" {
			c.Fatalf("%d increments, and none counted %d", incs, n)
		}
		if polled[n] != 1 {
			c.Fatalf("the log of increment %d was polled %d times", n, polled[n])
		}
	}
	total := new(big.Int)
	for i := range eoas {
		total.Add(total, chain.BalanceOf(&eoas[i]))
		if n := chain.State.StateDB().GetNonce(common.Address(eoas[i])); n != uint64(sends[eoas[i]]) {
			c.Fatalf("client %d sent %d transactions, its nonce is %d", i, sends[eoas[i]], n)
		}
	}
	if total.Cmp(supply) != 0 {
		c.Fatalf("there is %v ether, of %v", total, supply)
	}
	first, last := int64(100), int64(*chain.State.Pending.Number)
	ntx := 0
	var parent *seth.Hash
	for n := first; n < last; n++ {
		b, err := chain.Client().GetBlock(n, false)
		if err != nil {
			c.Fatalf("block %d of %d..%d: %v", n, first, last, err)
		}
		if parent != nil && b.Parent != *parent {
			c.Fatalf("the parent of block %d is not block %d", n, n-1)
		}
		parent = b.Hash
		ntx += len(b.Transactions)
	}
	all := 0
	for _, k := range sends {
		all += k
	}
	if ntx != all {
		c.Fatalf("the blocks have %d transactions, %d were sent", ntx, all)
	}
	if incs >= 10 && nclients >= 3 {
		c.NonTrivial(fmt.Sprint(plans))
	}
	c.Sample("%d clients, %d increments, %d blocks", nclients, incs, last-first)
}

func rapidBlock(n int) string {
	if n%2 == 0 {
		return "pending"
	}
	return "latest"
}
