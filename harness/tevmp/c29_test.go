package tevmp

import (
	"fmt"
	"math/big"
	"strings"
	"testing"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/vm"
	"github.com/philhofer/seth"
	"pgregory.net/rapid"

	"verif/harness/gen"
	"verif/harness/vk"
)

// TestC29: constant calls and estimates at the pending and at sealed blocks.
func TestC29(t *testing.T) {
	p := vk.Start(t, "C29", "a case is non-trivial if a constant call or estimate ran code that changes state or calls other contracts",
		"BLOCKHASH of blocks from before the simulated chain is unspecified",
		"programs whose success depends on the amount of gas in a way that is not monotonic are still required to succeed with the estimate")

	p.Check("asked again", 1500, 30000, asked)

	p.Check("calls", 1200, 25000, func(c *vk.C) {
		tw := newTwin(c, rapid.IntRange(1, 3).Draw(c.T, "contracts"), 1)
		for i := rapid.IntRange(0, 5).Draw(c.T, "before"); i > 0; i-- {
			if !tw.do(tw.drawOp(opMine, opMine, opSeal, opSeal, opCall, opCreate)) {
				return
			}
		}
		busy := false
		n := rapid.IntRange(1, 4).Draw(c.T, "calls")
		for i := 0; i < n; i++ {
			// at is the model of the block the call is made at, and never run on
			at := tw
			bn, spec := int64(-1), interface{}("pending")
			if k := len(tw.sealed); k > 0 {
				switch rapid.IntRange(0, 3).Draw(c.T, "at") {
				case 0:
					j := rapid.IntRange(0, k-1).Draw(c.T, "block")
					bn = int64(tw.sealed[j].number)
					spec = hexU(uint64(bn))
					at = tw.view(nil, j)
				case 1:
					bn, spec = -2, "latest"
					at = tw.view(nil, k-1)
				}
			}
			at.readEnv()
			tx := tw.genTx()
			tx.price = gen.Big(60).Draw(c.T, "gas price")
			asked := tx.gas
			switch rapid.IntRange(0, 2).Draw(c.T, "call gas") {
			case 0:
				asked = 0
			case 1:
				asked = uint64(rapid.IntRange(0, 7000000).Draw(c.T, "gas"))
			}
			tx.gas = asked
			if asked == 0 || asked > at.pend.limit {
				tx.gas = at.pend.limit
			}
			ran := at.ref.fork()
			want := ran.run(&at.env, tx)
			if at.env.unspecified {
				c.Class("blockhash from before the chain")
				return
			}
			what := rapid.SampledFrom([]string{"eth_call", "eth_estimateGas", "StaticCall", "EstimateGas", "ConstCall", "Client.EstimateGas"}).Draw(c.T, "api")
			args := tx.rpc()
			args["gas"] = hexU(asked)
			if asked == 0 {
				delete(args, "gas")
			}
			tw.trace = append(tw.trace, fmt.Sprintf("%s %s gas=%d at %v", what, tx, asked, spec))
			s0 := *ran.stats
			switch what {
			case "eth_call":
				var ret seth.Data
				err := rpc(tw.chain, "eth_call", &ret, args, spec)
				tw.sameCall(what, ret, err, want)
			case "eth_estimateGas":
				var g seth.Uint64
				err := rpc(tw.chain, "eth_estimateGas", &g, args, spec)
				tw.checkEstimate(what, at, bn, tx, uint64(g), err, want)
			default: // those of the API
				if tx.to == nil {
					to := rapid.SampledFrom(tw.w.addrs).Draw(c.T, "to")
					tx.to = &to
				}
				arg := seth.Int(*gen.Big(256).Draw(c.T, "arg"))
				// the API's constant calls are at the pending block, without value or price
				call := &refTx{from: tx.from, to: tx.to, data: seth.ABIEncode("poke(uint256)", &arg), value: new(big.Int), price: new(big.Int), gas: directGas, bump: true}
				opts := seth.CallOpts{From: sethAddr(tx.from), To: sethAddr(*tx.to)}
				opts.EncodeCall("poke(uint256)", &arg)
				tw.readEnv()
				want := tw.ref.fork().run(&tw.env, call)
				if tw.env.unspecified {
					return
				}
				switch what {
				case "StaticCall":
					ret, err := tw.chain.StaticCall(sethAddr(tx.from), sethAddr(*tx.to), "poke(uint256)", &arg)
					tw.outcome(what, ret, err, want)
				case "EstimateGas":
					g, err := tw.chain.EstimateGas(sethAddr(tx.from), sethAddr(*tx.to), "poke(uint256)", &arg)
					tw.checkEstimate(what, tw, -1, call, g, err, want)
				case "ConstCall":
					// pending, or latest
					var ret seth.Data
					pend := rapid.Bool().Draw(c.T, "pending")
					at := tw
					if k := len(tw.sealed); k > 0 && !pend {
						at = tw.view(nil, k-1)
						at.readEnv()
						want = at.ref.fork().run(&at.env, call)
						if at.env.unspecified {
							return
						}
					}
					err := tw.chain.Client().ConstCall(&opts, &ret, pend)
					tw.sameCall(what, ret, err, want)
				case "Client.EstimateGas":
					g, err := tw.chain.Client().EstimateGas(&opts)
					if err == nil && !g.Big().IsUint64() {
						tw.fatalf("estimate is %v", g)
					}
					tw.checkEstimate(what, tw, -1, call, g.Big().Uint64(), err, want)
				}
			}
			if s0.calls > 2 || s0.creates > 0 || s0.logs > 0 || s0.suicides > 0 {
				busy = true
			}
			tw.check()
			tw.checkTotal()
			if rapid.IntRange(0, 2).Draw(c.T, "go on") == 0 {
				if !tw.do(tw.drawOp(opMine, opSeal, opCall)) {
					return
				}
				tw.check()
			}
		}
		tw.checkViews()
		tw.checkRecords()
		if busy {
			c.NonTrivial(strings.Join(tw.trace, ";"))
		}
		c.Sample("%s", strings.Join(tw.trace, "; "))
	})
}

// probeCode stores its second argument under its first if there are two, and
// else returns all that it can see of the call and the block.
func probeCode() []byte {
	a := new(asm)
	a.op(vm.CALLDATASIZE).pushn(64).op(vm.EQ)
	a.b = append(a.b, byte(vm.PUSH2), 0, 0)
	at := len(a.b) - 2
	a.op(vm.JUMPI)
	for i, o := range []vm.OpCode{vm.CALLER, vm.ORIGIN, vm.CALLVALUE, vm.GASPRICE, vm.NUMBER, vm.TIMESTAMP, vm.COINBASE, vm.DIFFICULTY, vm.GASLIMIT, vm.CHAINID, vm.SELFBALANCE} {
		a.op(o).pushn(32 * i).op(vm.MSTORE)
	}
	a.pushn(0).op(vm.CALLDATALOAD, vm.SLOAD).pushn(32 * 11).op(vm.MSTORE)
	a.pushn(32 * 12).pushn(0).op(vm.RETURN)
	a.b[at], a.b[at+1] = byte(len(a.b)>>8), byte(len(a.b))
	a.op(vm.JUMPDEST).pushn(32).op(vm.CALLDATALOAD).pushn(0).op(vm.CALLDATALOAD, vm.SSTORE, vm.STOP)
	return a.b
}

// asked is C29's second check: the answer to a call is a matter of the call
// and of the block, and not of what was asked before.
func asked(c *vk.C) {
	tw := newTwin(c, 1, 1)
	probe, other := common.Address{0: 0xb0}, common.Address{0: 0xb1}
	for _, d := range []vm.StateDB{tw.chain.State.StateDB(), tw.ref} {
		for i, a := range []common.Address{probe, other} {
			d.CreateAccount(a)
			d.SetNonce(a, 1)
			d.SetCode(a, probeCode())
			d.AddBalance(a, big.NewInt(int64(i+1)))
		}
	}
	tw.ref.finalise()
	t := c.T
	word := func() []byte {
		return common.BigToHash(big.NewInt(int64(rapid.IntRange(0, 2).Draw(t, "word")))).Bytes()
	}
	store := func() bool {
		to := rapid.SampledFrom([]common.Address{probe, probe, other}).Draw(t, "at")
		return tw.do(op{kind: opMine, tx: &refTx{from: rapid.SampledFrom(tw.eoas).Draw(t, "writer"), to: &to, data: append(word(), word()...), value: new(big.Int), price: new(big.Int), gas: 200000, bump: true}})
	}
	to := probe
	tx := &refTx{from: tw.eoas[0], to: &to, data: word(), value: new(big.Int), price: new(big.Int), gas: 300000, bump: true}
	block := -1
	n := rapid.IntRange(2, 14).Draw(t, "steps")
	asks, changed := 0, 0
	for i := 0; i < n; i++ {
		switch rapid.IntRange(0, 4).Draw(t, "step") {
		case 0:
			if !store() {
				return
			}
		case 1:
			if !tw.do(tw.drawOp(opSeal)) {
				return
			}
		}
		// the call of before, with something else about it
		next := *tx
		what := rapid.SampledFrom([]string{"nothing", "from", "to", "value", "price", "data", "gas", "block", "block"}).Draw(t, "changed")
		switch what {
		case "from":
			next.from = rapid.SampledFrom(append([]common.Address{probe, {0: 0x77}}, tw.eoas...)).Draw(t, "from")
		case "to":
			a := rapid.SampledFrom([]common.Address{probe, other, {0: 0x78}}).Draw(t, "to")
			next.to = &a
		case "value":
			next.value = big.NewInt(int64(rapid.IntRange(0, 3).Draw(t, "value")))
		case "price":
			next.price = gen.Big(80).Draw(t, "price")
		case "data":
			next.data = word()
			if rapid.IntRange(0, 3).Draw(t, "more") == 0 {
				next.data = append(next.data, word()...)
			}
		case "gas":
			next.gas = uint64(rapid.SampledFrom([]int{3000, 25000, 100000, 300000, 7000000}).Draw(t, "gas"))
		case "block":
			block = rapid.IntRange(-2, len(tw.sealed)-1).Draw(t, "block")
		}
		tx = &next
		at, spec := tw, interface{}("pending")
		switch {
		case len(tw.sealed) == 0 || block == -1:
		case block == -2:
			at, spec = tw.view(nil, len(tw.sealed)-1), "latest"
		default:
			at, spec = tw.view(nil, block), hexU(tw.sealed[block].number)
		}
		at.readEnv()
		want := at.ref.fork().run(&at.env, tx)
		tw.trace = append(tw.trace, fmt.Sprintf("eth_call %s price=%v at %v", tx, tx.price, spec))
		var ret seth.Data
		err := rpc(tw.chain, "eth_call", &ret, tx.rpc(), spec)
		tw.sameCall("eth_call, with another "+what, ret, err, want)
		asks++
		if what != "nothing" {
			changed++
		}
	}
	tw.check()
	c.Class(fmt.Sprintf("asked %d times", asks))
	if changed > 0 {
		c.NonTrivial(strings.Join(tw.trace, ";"))
	}
	c.Sample("%s", strings.Join(tw.trace, "; "))
}

// readEnv prepares the model's block for a run. The model may be of a view
// that there is no chain for.
func (tw *twin) readEnv() {
	p := tw.pend
	tw.env.number, tw.env.time, tw.env.limit, tw.env.miner, tw.env.difficulty = p.number, p.time, p.limit, p.miner, p.difficulty
	tw.env.unspecified = false
	*tw.ref.stats = refStats{}
}

func (tw *twin) sameCall(what string, ret []byte, err error, want refResult) {
	if (err != nil) != (want.err != nil) {
		tw.fatalf("%s: error is %v, want %v", what, err, want.err)
	}
	if err == nil && string(ret) != string(want.ret) {
		tw.fatalf("%s: returned %x, want %x", what, ret, want.ret)
	}
}

// checkEstimate: an estimate is given if and only if the transaction succeeds
// with all the gas there is, and suffices.
func (tw *twin) checkEstimate(what string, at *twin, bn int64, tx *refTx, g uint64, err error, want refResult) {
	if (err != nil) != (want.err != nil) {
		tw.fatalf("%s: error is %v, the transaction's is %v", what, err, want.err)
	}
	if err != nil {
		return
	}
	if g > tx.gas {
		tw.fatalf("%s: estimate %d is more than the %d allowed", what, g, tx.gas)
	}
	again := *tx
	again.gas = g
	at.readEnv()
	r := at.ref.fork().run(&at.env, &again)
	if r.err != nil {
		tw.fatalf("%s: with the estimated %d gas the transaction fails: %v", what, g, r.err)
	}
	cc := tw.chain.AtBlock(bn)
	if cc == nil {
		tw.fatalf("no view of block %d", bn)
	}
	if cc == tw.chain {
		cc = tw.chain.Copy()
	}
	if _, _, err := cc.Mine(again.seth()); err != nil {
		tw.fatalf("%s: sent with the estimated %d gas the transaction fails: %v", what, g, err)
	}
}
