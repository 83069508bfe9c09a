package tevmp

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"net/http"
	"net/http/httptest"
	"sort"
	"strings"
	"testing"

	"github.com/ethereum/go-ethereum/common"
	"github.com/philhofer/seth"
	"pgregory.net/rapid"

	"verif/harness/gen"
	"verif/harness/vk"
)

// httpTransport goes through the chain's HTTP handler, without a socket.
type httpTransport struct{ h http.Handler }

func (h httpTransport) Execute(req *seth.RPCRequest, res *seth.RPCResponse) error {
	body, err := json.Marshal(req)
	if err != nil {
		return err
	}
	w := httptest.NewRecorder()
	h.h.ServeHTTP(w, httptest.NewRequest("POST", "/", bytes.NewReader(body)))
	if w.Code != 200 {
		return fmt.Errorf("http status %d", w.Code)
	}
	return json.NewDecoder(w.Body).Decode(res)
}

// checkClient compares what the client says of the state at a block.
func (tw *twin) checkClient(cl *seth.Client, block int64, what string, ref *refState) {
	t := tw.c.T
	var addrs []common.Address
	for a := range ref.touched {
		addrs = append(addrs, a)
	}
	sort.Slice(addrs, func(i, j int) bool { return bytes.Compare(addrs[i][:], addrs[j][:]) < 0 })
	addrs = append(addrs, common.Address(gen.Address().Draw(t, "any")))
	for i, a := range addrs {
		x := ref.acct[a]
		if x == nil {
			x = &refAcct{bal: new(big.Int)}
		}
		sa := sethAddr(a)
		bal, err := cl.GetBalanceAt(sa, block)
		if err != nil || bal.Big().Cmp(x.bal) != 0 {
			tw.fatalf("at %s, balance of %x is reported as %v (%v), want %v", what, a[:], bal.Big(), err, x.bal)
		}
		nonce, err := cl.GetNonceAt(sa, block)
		if err != nil || uint64(nonce) != x.nonce {
			tw.fatalf("at %s, nonce of %x is reported as %v (%v), want %v", what, a[:], nonce, err, x.nonce)
		}
		code, err := cl.GetCodeAt(sa, block)
		if err != nil || !bytes.Equal(code, x.code) {
			tw.fatalf("at %s, code of %x is reported as %x (%v), want %x", what, a[:], code, err, x.code)
		}
		slots := ref.slots(a)
		if i%4 == 0 {
			slots = append(slots, trackedSlots[i%len(trackedSlots)], common.Hash(gen.Hash().Draw(t, "slot")))
		}
		for _, k := range slots {
			sk := seth.Hash(k)
			v, err := cl.StorageAt(sa, &sk, block)
			if err != nil || common.Hash(v) != x.store[k] {
				tw.fatalf("at %s, slot %x of %x is reported as %x (%v), want %x", what, k[:], a[:], v[:], err, x.store[k])
			}
		}
	}
}

// TestC31: histories, and what the RPC server says about them.
func TestC31(t *testing.T) {
	p := vk.Start(t, "C31", "a case is non-trivial if the server was asked about at least 2 blocks between which the state differs, with contracts and transactions",
		"BLOCKHASH of blocks from before the simulated chain is unspecified",
		"eth_blockNumber counts the pending block; before the first seal the latest block is the pending one",
		"a transaction that fails is reported as an error, and stays in the pending block")

	p.Check("long", 2, 20, longServed)
	p.Check("queries", 700, 15000, func(c *vk.C) {
		tw := newTwin(c, rapid.IntRange(1, 3).Draw(c.T, "contracts"), 1)
		cl := tw.chain.Client()
		if rapid.Bool().Draw(c.T, "http") {
			cl = seth.NewClientTransport(httpTransport{tw.chain})
			c.Class("through the HTTP handler")
		}
		nops := rapid.IntRange(1, 10).Draw(c.T, "nops")
		for i := 0; i < nops; i++ {
			if rapid.IntRange(0, 3).Draw(c.T, "sender") == 0 {
				if !tw.sender(cl) {
					return
				}
				continue
			}
			if !tw.do(tw.drawOp(opMine, opSeal, opSeal, opRPCSend, opRPCSend, opCall, opCreate, opSend)) {
				c.Class("blockhash from before the chain")
				return
			}
		}
		tw.check()
		tw.checkRecords()
		tw.checkViews()

		tw.checkClient(cl, seth.Pending, "pending", tw.ref)
		tw.checkClient(cl, int64(tw.pend.number), "the pending number", tw.ref)
		latest := tw.ref
		lb := tw.pend
		if k := len(tw.sealed); k > 0 {
			lb = tw.sealed[k-1]
			latest = lb.state
		}
		tw.checkClient(cl, seth.Latest, "latest", latest)
		for _, b := range tw.sealed {
			tw.checkClient(cl, int64(b.number), fmt.Sprintf("block %d", b.number), b.state)
		}
		// blocks by specifier
		full := rapid.Bool().Draw(c.T, "full")
		b, err := cl.Latest(full)
		if err != nil {
			tw.fatalf("Latest: %v", err)
		}
		tw.checkBlock("Latest", b, lb, full)
		b, err = cl.GetBlock(seth.Pending, full)
		if err != nil {
			tw.fatalf("GetBlock(pending): %v", err)
		}
		tw.checkBlock("GetBlock(pending)", b, tw.pend, full)
		if n, err := cl.BlockNumber(); err != nil || uint64(n) != tw.pend.number {
			tw.fatalf("block number is %d (%v), want %d", n, err, tw.pend.number)
		}
		// missing objects
		h := seth.Hash(gen.Hash().Draw(c.T, "h"))
		if tx, err := cl.GetTransaction(&h); err != seth.ErrNotFound {
			tw.fatalf("GetTransaction(%x) of no transaction: %v, %v", h[:], tx, err)
		}
		if rx, err := cl.GetReceipt(&h); err != seth.ErrNotFound {
			tw.fatalf("GetReceipt(%x) of no transaction: %v, %v", h[:], rx, err)
		}
		for _, m := range tw.pend.txs {
			if rx, err := cl.GetReceipt(&m.hash); err != seth.ErrNotFound {
				tw.fatalf("there is a receipt of a pending transaction: %v, %v", rx, err)
			}
		}
		for _, n := range []int64{0, 7, int64(tw.pend.number) + 1, int64(tw.pend.number) + 1<<40} {
			if b, err := cl.GetBlock(n, full); err != seth.ErrNotFound {
				tw.fatalf("GetBlock(%d) of no block: %v, %v", n, b, err)
			}
			if v, err := cl.GetBalanceAt(sethAddr(tw.eoas[0]), n); err == nil {
				tw.fatalf("GetBalanceAt(%d) of no block: %v", n, v)
			}
			if v, err := cl.GetCodeAt(sethAddr(tw.cons[0]), n); err == nil {
				tw.fatalf("GetCodeAt(%d) of no block: %x", n, v)
			}
			if v, err := cl.GetNonceAt(sethAddr(tw.cons[0]), n); err == nil {
				tw.fatalf("GetNonceAt(%d) of no block: %x", n, v)
			}
		}
		var nb *seth.Block
		if err := cl.Do("eth_getBlockByHash", rawParams(h, full), &nb); err == nil && nb != nil {
			tw.fatalf("eth_getBlockByHash(%x) of no block: %v", h[:], nb)
		}
		tw.check() // looking changes nothing
		tw.checkRecords()

		changed := 0
		for i := 1; i < len(tw.sealed); i++ {
			if strings.Join(tw.sealed[i].state.describe(), ";") != strings.Join(tw.sealed[i-1].state.describe(), ";") {
				changed++
			}
		}
		if changed > 0 {
			c.NonTrivial(strings.Join(tw.trace, ";"))
		}
		c.Sample("%s", strings.Join(tw.trace, "; "))
	})
}

// sender sends a transaction the way users of the library do.
func (tw *twin) sender(cl *seth.Client) bool {
	t := tw.c.T
	from := rapid.SampledFrom(tw.eoas).Draw(t, "from")
	s := seth.NewSender(cl, sethAddr(from))
	price := s.GasPrice.Big()
	tx := &refTx{from: from, bump: true, value: new(big.Int), price: price}
	value := gen.Big(60).Draw(t, "wei")
	var code []byte
	kind := rapid.SampledFrom([]string{"Send", "Call", "Create"}).Draw(t, "how")
	opts := seth.CallOpts{}
	arg := seth.Int(*gen.Big(256).Draw(t, "arg"))
	if kind == "Create" {
		code = tw.w.initcode(t, 1)
		tx.data, tx.value = code, value
	} else {
		to := rapid.SampledFrom(tw.w.addrs).Draw(t, "to")
		tx.to = &to
		tx.data = seth.ABIEncode("poke(uint256)", &arg)
		opts.To = sethAddr(to)
		opts.Data = tx.data
		if kind == "Call" {
			v := seth.Int(*new(big.Int).Set(value))
			opts.Value = &v
			tx.value = value
		}
	}
	tw.trace = append(tw.trace, fmt.Sprintf("Sender.%s %s", kind, tx))
	// what the library sees when it estimates
	tx.gas = tw.pend.limit
	env := tw.block()
	try := tw.ref.fork().run(env, tx)
	if env.unspecified {
		return false
	}
	before := len(tw.chain.State.Pending.Transactions)
	var h seth.Hash
	var addr seth.Address
	var err error
	switch kind {
	case "Send":
		h, err = s.Send(sethAddr(*tx.to), "poke(uint256)", &arg)
	case "Call":
		h, err = s.Call(&opts)
	case "Create":
		v := seth.Int(*new(big.Int).Set(value))
		addr, err = s.Create(code, &v)
	}
	if try.err != nil {
		if err == nil {
			tw.fatalf("Sender.%s succeeded, want %v", kind, try.err)
		}
		if n := len(tw.chain.State.Pending.Transactions); n != before {
			tw.fatalf("Sender.%s failed in its estimate, and sent something", kind)
		}
		return true
	}
	if err != nil {
		// the margin can exceed the block's gas limit
		if n := len(tw.chain.State.Pending.Transactions); n == before && strings.Contains(err.Error(), "gas limit") {
			return true
		}
		// a program may fail with more gas than the estimate
		pt := tw.chain.State.Pending.Transactions
		if len(pt) != before+1 || json.Unmarshal(pt[before], &h) != nil {
			tw.fatalf("Sender.%s: %v", kind, err)
		}
		got, gerr := cl.GetTransaction(&h)
		if gerr != nil {
			tw.fatalf("Sender.%s: %v, and then %v", kind, err, gerr)
		}
		tx.gas = uint64(got.Gas)
		l0, nonce := len(tw.ref.logs), tw.ref.GetNonce(from)
		res := tw.ref.run(env, tx)
		if env.unspecified {
			return false
		}
		if res.err == nil {
			tw.fatalf("Sender.%s with %d gas: %v", kind, tx.gas, err)
		}
		tw.record(tx, h, nonce, l0, res)
		return true
	}
	// find out how much gas it offered
	sealed, serr := cl.Latest(false)
	if serr != nil || len(sealed.Transactions) == 0 {
		tw.fatalf("Sender.%s sealed no block with a transaction: %v", kind, serr)
	}
	if kind == "Create" {
		if json.Unmarshal(sealed.Transactions[len(sealed.Transactions)-1], &h) != nil {
			tw.fatalf("Sender.Create: bad transaction in the block")
		}
	}
	got, gerr := cl.GetTransaction(&h)
	if gerr != nil {
		tw.fatalf("Sender.%s returned %x, which is no transaction: %v", kind, h[:], gerr)
	}
	tx.gas = uint64(got.Gas)
	l0, nonce := len(tw.ref.logs), tw.ref.GetNonce(from)
	res := tw.ref.run(env, tx)
	if env.unspecified {
		return false
	}
	if res.err != nil {
		tw.fatalf("Sender.%s succeeded with %d gas, want %v", kind, tx.gas, res.err)
	}
	if kind == "Create" && common.Address(addr) != res.addr {
		tw.fatalf("Sender.Create says %x, want %x", addr[:], res.addr[:])
	}
	tw.record(tx, h, nonce, l0, res)
	tw.sealModel()
	return true
}
