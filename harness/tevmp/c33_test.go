package tevmp

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"strings"
	"testing"

	"github.com/ethereum/go-ethereum/common"
	"github.com/philhofer/seth"
	"github.com/philhofer/seth/tevm"
	"pgregory.net/rapid"

	"verif/harness/gen"
	"verif/harness/vk"
)

// remote is the node that a chain is forked from. It serves the state of one
// block, and notes requests for anything else.
type remote struct {
	state *refState
	block uint64
	reads int
	bad   string // first request that there should not be
	fail  int    // fail this many requests from now, if above zero
	fired int    // how often it failed
	how   int
}

func (r *remote) Execute(req *seth.RPCRequest, res *seth.RPCResponse) error {
	r.reads++
	if r.fail > 0 {
		if r.fail--; r.fail == 0 {
			r.fired++
			switch r.how {
			case 0:
				return errors.New("connection lost")
			case 1:
				res.Error.Code, res.Error.Message = -32000, "missing trie node"
				return nil
			default:
				res.Result = json.RawMessage(`"zzz"`)
				return nil
			}
		}
	}
	set := func(v interface{}) error {
		b, err := json.Marshal(v)
		if err != nil {
			panic("HARNESS-ERROR: " + err.Error())
		}
		res.Result = b
		return nil
	}
	note := func(f string, args ...interface{}) error {
		if r.bad == "" {
			r.bad = fmt.Sprintf(f, args...) + fmt.Sprintf(" in %s%s", req.Method, req.Params)
		}
		return set(nil)
	}
	var a seth.Address
	if len(req.Params) < 2 || json.Unmarshal(req.Params[0], &a) != nil {
		return note("unexpected request")
	}
	if got := string(req.Params[len(req.Params)-1]); got != `"`+hexU(r.block)+`"` {
		return note("read at block %s, not %s,", got, hexU(r.block))
	}
	x := r.state.acct[common.Address(a)]
	if x == nil {
		x = &refAcct{bal: new(big.Int)}
	}
	switch req.Method {
	case "eth_getBalance":
		return set(hexBig(x.bal))
	case "eth_getTransactionCount":
		return set(hexU(x.nonce))
	case "eth_getCode":
		return set(hexB(x.code))
	case "eth_getStorageAt":
		var k seth.Hash
		if json.Unmarshal(req.Params[1], &k) != nil {
			return note("bad slot")
		}
		v := x.store[common.Hash(k)]
		return set(hexB(v[:]))
	}
	return note("unexpected request")
}

// TestC33: histories on a chain that is forked from a node with accounts,
// contracts and storage; the reference simply starts with the node's state.
func TestC33(t *testing.T) {
	p := vk.Start(t, "C33", "a case is non-trivial if programs with storage at the node ran, and reverted, self-destructed or created something",
		"BLOCKHASH of blocks from before the fork is unspecified",
		"when the node fails, direct calls of the API are left unspecified (they panic); requests to the server fail without any effect")

	p.Check("overlay", 2000, 40000, func(c *vk.C) {
		tw := &twin{c: c, ref: newRef()}
		tw.env.hashes = map[uint64]common.Hash{}
		for i := 0; i < 3; i++ {
			a := common.Address{0: 0xee, 19: byte(i + 1)}
			tw.eoas = append(tw.eoas, a)
			if i < 2 {
				tw.ref.AddBalance(a, gen.Big(80).Draw(c.T, "bal"))
				tw.ref.SetNonce(a, gen.Uint64().Draw(c.T, "nonce")/2)
			} else {
				tw.ref.touched[a] = true
			}
		}
		for i := rapid.IntRange(1, 3).Draw(c.T, "contracts"); i > 0; i-- {
			tw.cons = append(tw.cons, common.Address{0: 0xcc, 19: byte(i)})
		}
		tw.w.addrs = append(append([]common.Address{}, tw.cons...), tw.eoas...)
		tw.w.addrs = append(tw.w.addrs, common.Address{0: 0xdd})
		for _, a := range tw.cons {
			var code []byte
			var child common.Address
			if rapid.IntRange(0, 3).Draw(c.T, "phoenix") == 0 {
				code, child = tw.w.phoenix(c.T, a)
				tw.w.addrs = append(tw.w.addrs, child)
			} else {
				code = tw.w.program(c.T, 1)
			}
			tw.ref.SetCode(a, code)
			if rapid.IntRange(0, 3).Draw(c.T, "no nonce") > 0 { // as those of the genesis block may
				tw.ref.SetNonce(a, 1)
			}
			if rapid.Bool().Draw(c.T, "funded") {
				tw.ref.AddBalance(a, gen.Big(60).Draw(c.T, "bal"))
			}
			stored := rapid.IntRange(0, 3).Draw(c.T, "stored") > 0
			for _, k := range trackedSlots {
				if stored && rapid.Bool().Draw(c.T, "slot") {
					tw.ref.SetState(a, k, common.Hash(gen.Hash().Draw(c.T, "v")))
				}
			}
			tw.trace = append(tw.trace, fmt.Sprintf("%x: %x", a[:], code))
		}
		tw.ref.finalise()
		*tw.ref.stats = refStats{}
		r := &remote{state: tw.ref.fork(), block: uint64(rapid.IntRange(1000, 1<<40).Draw(c.T, "fork block"))}
		initial := strings.Join(tw.ref.describe(), "\n")
		tw.chain = tevm.NewFork(seth.NewClientTransport(r), int64(r.block))
		if rapid.IntRange(0, 9).Draw(c.T, "trace") == 0 {
			tw.chain.State.Trace = func(string, ...interface{}) {}
		}
		tw.readPending()
		if tw.pend.number != r.block+1 {
			tw.fatalf("the fork of block %d starts with block %d", r.block, tw.pend.number)
		}
		if rapid.Bool().Draw(c.T, "look first") {
			tw.check()
		}
		nops := rapid.IntRange(1, 7).Draw(c.T, "nops")
		for i := 0; i < nops; i++ {
			switch rapid.IntRange(0, 9).Draw(c.T, "what") {
			case 0: // the node fails during a request
				r.fail, r.fired, r.how = rapid.IntRange(1, 12).Draw(c.T, "fail"), 0, rapid.IntRange(0, 2).Draw(c.T, "how")
				m := rapid.SampledFrom([]string{"eth_sendTransaction", "eth_call", "eth_estimateGas", "eth_getBalance", "eth_getTransactionCount", "eth_getCode", "eth_getStorageAt"}).Draw(c.T, "method")
				tx := tw.genTx()
				if tx.gas > tw.pend.limit {
					tx.gas = tw.pend.limit
				}
				tw.trace = append(tw.trace, fmt.Sprintf("fail at read %d (%d): %s %s", r.fail, r.how, m, tx))
				var args []interface{}
				switch m {
				case "eth_sendTransaction":
					args = []interface{}{tx.rpc()}
				case "eth_call", "eth_estimateGas":
					args = []interface{}{tx.rpc(), "pending"}
				case "eth_getStorageAt":
					args = []interface{}{tw.cons[0], hexB(trackedSlots[0][:]), "pending"}
				default:
					args = []interface{}{hexB(tw.cons[0][:]), "pending"}
				}
				if m == "eth_sendTransaction" {
					// if the failure comes too late, this is an ordinary transaction
					l0, nonce := len(tw.ref.logs), tw.ref.GetNonce(tx.from)
					n := len(tw.pend.txs)
					env := tw.block()
					after := tw.ref.fork()
					want := after.run(env, tx)
					if env.unspecified {
						return
					}
					var h seth.Hash
					err := rpc(tw.chain, m, &h, args...)
					if r.fired > 0 {
						c.Class("the node failed during " + m)
						if err == nil {
							tw.fatalf("%s succeeds although the node failed", m)
						}
					} else {
						if (err != nil) != (want.err != nil) {
							tw.fatalf("%s: %v, want %v", m, err, want.err)
						}
						after.touched = tw.ref.touched
						tw.ref = after
						if err != nil {
							p := tw.chain.State.Pending
							if len(p.Transactions) != n+1 || json.Unmarshal(p.Transactions[n], &h) != nil {
								tw.fatalf("the pending block has %d transactions, want %d", len(p.Transactions), n+1)
							}
							tw.record(tx, h, nonce, l0, want)
						} else {
							tw.record(tx, h, nonce, l0, want)
							tw.sealModel()
						}
					}
				} else {
					var out interface{}
					err := rpc(tw.chain, m, &out, args...)
					if r.fired > 0 {
						c.Class("the node failed during " + m)
						if err == nil {
							tw.fatalf("%s gives %v although the node failed", m, out)
						}
					}
				}
				r.fail = 0
				tw.check()
			case 1:
				tw.trace = append(tw.trace, "copy")
				tw.chain = tw.chain.Copy()
			default:
				if !tw.do(tw.drawOp(opMine, opMine, opMine, opMine, opCall, opCall, opSeal, opCreate, opSend, opCreateAt, opAddBalance, opSubBalance, opRPCSend)) {
					c.Class("blockhash from before the fork")
					return
				}
			}
			if rapid.IntRange(0, 2).Draw(c.T, "look") == 0 { // reading fills caches
				tw.check()
			}
			if r.bad != "" {
				tw.fatalf("%s", r.bad)
			}
		}
		tw.check()
		tw.checkViews()
		tw.checkRecords()
		if r.bad != "" {
			tw.fatalf("%s", r.bad)
		}
		// another fork of the same node is not affected by the first one
		if strings.Join(r.state.describe(), "\n") != initial {
			panic("HARNESS-ERROR: the node's state has changed")
		}
		s := tw.ref.stats
		if s.suicides > 0 {
			c.Class("self-destructed")
		}
		if s.reborn > 0 {
			c.Class("created where one was destroyed")
		}
		if s.calls >= 3 && s.reverts+s.suicides+s.creates > 0 {
			c.NonTrivial(strings.Join(tw.trace, ";"))
		}
		c.Sample("%d reads; %s", r.reads, strings.Join(tw.trace, "; "))
	})
}
