package tevmp

import (
	"fmt"
	"math/big"
	"strings"
	"testing"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/vm"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/philhofer/seth"
	"github.com/philhofer/seth/tevm"
	"pgregory.net/rapid"

	"verif/harness/gen"
	"verif/harness/vk"
)

const directGas = 6000000 // what Call, Create and Send offer

// twin is a simulated chain and the reference state it should have.
type twin struct {
	c     *vk.C
	chain *tevm.Chain
	ref   *refState
	env   refEnv
	w     world
	eoas  []common.Address
	cons  []common.Address
	trace []string

	sealed []*mblock
	pend   *mblock

	quiet bool // fatalf panics with a failure, since this is not the test's goroutine
}

type failure string

// newTwin sets up accounts and contracts.
func newTwin(c *vk.C, ncontracts, depth int) *twin {
	tw := &twin{c: c, chain: tevm.NewChain(), ref: newRef()}
	tw.env.hashes = map[uint64]common.Hash{}
	if rapid.IntRange(0, 9).Draw(c.T, "trace") == 0 {
		tw.chain.State.Trace = func(string, ...interface{}) {}
	}
	pend := tw.chain.State.Pending
	pend.Miner = gen.Address().Draw(c.T, "miner")
	pend.Timestamp = seth.Uint64(rapid.IntRange(1, 1<<31).Draw(c.T, "time"))
	pend.Difficulty = seth.NewInt(int64(rapid.IntRange(0, 1<<40).Draw(c.T, "difficulty")))
	for i := 0; i < 3; i++ {
		a := common.Address{0: 0xee, 19: byte(i + 1)}
		tw.eoas = append(tw.eoas, a)
		if i < 2 {
			v := gen.Big(80).Draw(c.T, "bal")
			sa := seth.Address(a)
			tw.chain.AddBalance(&sa, v)
			tw.ref.AddBalance(a, v)
		}
		tw.ref.touched[a] = true
	}
	for i := 0; i < ncontracts; i++ {
		tw.cons = append(tw.cons, common.Address{0: 0xcc, 19: byte(i + 1)})
	}
	tw.w.addrs = append(append([]common.Address{}, tw.cons...), tw.eoas...)
	tw.w.addrs = append(tw.w.addrs, common.Address{0: 0xdd}, crypto.CreateAddress(tw.eoas[0], 0), crypto.CreateAddress(tw.eoas[0], 1), crypto.CreateAddress(tw.cons[0], 1))
	var ashes map[common.Address][]byte
	if rapid.IntRange(0, 4).Draw(c.T, "ashes") == 0 {
		var main common.Address
		main, ashes = tw.w.ashes(c.T)
		tw.cons = append(tw.cons, main, main, main, main) // called more often
		for i := 1; i < len(ashes); i++ {
			a := main
			a[19] = byte(i)
			tw.cons = append(tw.cons, a)
		}
	}
	db := tw.chain.State.StateDB()
	for i, a := range tw.cons {
		if i > 0 && tw.cons[i-1] == a {
			continue
		}
		var code []byte
		if code = ashes[a]; code != nil {
		} else if rapid.IntRange(0, 3).Draw(c.T, "phoenix") == 0 {
			var child common.Address
			code, child = tw.w.phoenix(c.T, a)
			tw.w.addrs = append(tw.w.addrs, child)
		} else {
			code = tw.w.program(c.T, depth)
		}
		for _, d := range []vm.StateDB{db, tw.ref} {
			d.CreateAccount(a)
			d.SetNonce(a, 1)
			d.SetCode(a, code)
		}
		if rapid.Bool().Draw(c.T, "funded") {
			v := gen.Big(60).Draw(c.T, "cbal")
			db.AddBalance(a, v)
			tw.ref.AddBalance(a, v)
		}
		tw.trace = append(tw.trace, fmt.Sprintf("%x: %x", a[:], code))
	}
	tw.ref.finalise()
	*tw.ref.stats = refStats{}
	tw.readPending()
	return tw
}

// block brings the reference's block up to date.
func (tw *twin) block() *refEnv {
	p := tw.chain.State.Pending
	tw.env.number, tw.env.time, tw.env.limit = uint64(*p.Number), uint64(p.Timestamp), uint64(p.GasLimit)
	tw.env.miner = common.Address(p.Miner)
	tw.env.difficulty = (*big.Int)(p.Difficulty)
	tw.env.unspecified = false
	return &tw.env
}

func (tw *twin) fatalf(f string, args ...interface{}) {
	if tw.quiet {
		panic(failure(fmt.Sprintf(f, args...)))
	}
	tw.c.Fatalf("%s\n%s", fmt.Sprintf(f, args...), strings.Join(tw.trace, "\n"))
}

var trackedSlots = func() (out []common.Hash) {
	for _, i := range []byte{0, 1, 2, 3, 16, 17, 18, 19, 20, 21, 22, 23, 31} {
		out = append(out, common.Hash{31: i})
	}
	return
}()

// check compares the whole state.
func (tw *twin) check() {
	if d := tw.ref.compare(tw.chain.State.StateDB(), trackedSlots); d != "" {
		tw.fatalf("state: %s", d)
	}
	if got := tw.chain.State.StateDB().GetRefund(); got != tw.ref.refund {
		tw.fatalf("state: refund is %d, want %d", got, tw.ref.refund)
	}
	if d := logsEqual(tw.chain.State.Logs, tw.ref.logs); d != "" {
		tw.fatalf("logs: %s", d)
	}
}

func (tw *twin) outcome(what string, ret []byte, err error, want refResult) {
	if fmt.Sprint(err) != fmt.Sprint(want.err) {
		tw.fatalf("%s: error is %v, want %v", what, err, want.err)
	}
	if string(ret) != string(want.ret) {
		tw.fatalf("%s: returned %x, want %x", what, ret, want.ret)
	}
}

func sethAddr(a common.Address) *seth.Address { s := seth.Address(a); return &s }

// genTx draws a transaction to mine.
func (tw *twin) genTx() *refTx {
	c := tw.c
	tx := &refTx{from: rapid.SampledFrom(tw.eoas).Draw(c.T, "from"), bump: true}
	if rapid.IntRange(0, 11).Draw(c.T, "contract sender") == 0 {
		tx.from = rapid.SampledFrom(tw.cons).Draw(c.T, "from")
	}
	if rapid.IntRange(0, 3).Draw(c.T, "create") != 0 {
		a := rapid.SampledFrom(tw.w.addrs).Draw(c.T, "to")
		if rapid.IntRange(0, 2).Draw(c.T, "contract") != 0 {
			a = rapid.SampledFrom(tw.cons).Draw(c.T, "to")
		}
		tx.to = &a
		tx.data = gen.Bytes(0, 68).Draw(c.T, "data")
	} else {
		tx.data = tw.w.initcode(c.T, 1)
	}
	switch rapid.IntRange(0, 4).Draw(c.T, "value") {
	case 0, 1:
		tx.value = new(big.Int)
	case 2:
		tx.value = big.NewInt(int64(rapid.IntRange(1, 1000).Draw(c.T, "wei")))
	case 3:
		tx.value = tw.ref.GetBalance(tx.from)
	case 4:
		tx.value = gen.Big(256).Draw(c.T, "wei")
	}
	tx.price = gen.Big(70).Draw(c.T, "price")
	switch rapid.IntRange(0, 5).Draw(c.T, "gas") {
	case 0:
		tx.gas = uint64(rapid.IntRange(0, 3000).Draw(c.T, "gas"))
	case 1:
		tx.gas = uint64(rapid.IntRange(0, 100000).Draw(c.T, "gas"))
	default:
		tx.gas = uint64(rapid.IntRange(100000, 1500000).Draw(c.T, "gas"))
	}
	return tx
}

func (tx *refTx) seth() *seth.Transaction {
	out := &seth.Transaction{
		From:     sethAddr(tx.from),
		Value:    seth.Int(*new(big.Int).Set(tx.value)),
		GasPrice: seth.Int(*new(big.Int).Set(tx.price)),
		Gas:      seth.Uint64(tx.gas),
		Input:    seth.Data(append([]byte{}, tx.data...)),
	}
	if tx.to != nil {
		out.To = sethAddr(*tx.to)
	}
	return out
}

func (tx *refTx) String() string {
	to := "create"
	if tx.to != nil {
		to = fmt.Sprintf("%x", tx.to[:])
	}
	return fmt.Sprintf("%x -> %s value=%v price=%v gas=%d data=%x", tx.from[:], to, tx.value, tx.price, tx.gas, tx.data)
}

// TestC26: sequences of transactions through every way the chain offers to
// run one, against the same virtual machine on the reference state.
func TestC26(t *testing.T) {
	p := vk.Start(t, "C26", "a case is non-trivial if its transactions made at least 5 calls or creations, and reverted, self-destructed or created something",
		"the virtual machine itself (go-ethereum's) is shared by both sides: what is checked is the state, the rules and the context it is given",
		"BLOCKHASH of blocks from before the simulated chain is unspecified")

	p.Check("ancestors", 2, 20, longAncestors)
	p.Check("destroyed", 6, 100, longDestroyed)
	p.Check("programs", 3000, 60000, func(c *vk.C) {
		tw := newTwin(c, rapid.IntRange(1, 4).Draw(c.T, "contracts"), 2)
		ntx := rapid.IntRange(1, 6).Draw(c.T, "txs")
		for i := 0; i < ntx; i++ {
			if !tw.do(tw.drawOp(opMine, opMine, opMine, opMine, opMine, opSeal, opCall, opCreate, opSend, opCreateAt)) {
				c.Class("blockhash from before the chain")
				return
			}
			tw.check()
		}
		s := tw.ref.stats
		if s.suicides > 0 {
			c.Class("self-destructed")
		}
		if s.reverts > 0 {
			c.Class("reverted")
		}
		if s.reborn > 0 {
			c.Class("created where one was destroyed")
		}
		if s.creates > 0 {
			c.Class("created")
		}
		if s.logs > 0 {
			c.Class("logged")
		}
		if s.calls >= 5 && s.reverts+s.suicides+s.creates > 0 {
			c.NonTrivial(strings.Join(tw.trace, ";"))
		}
		c.Sample("%s", strings.Join(tw.trace, "; "))
	})
}

// createAt is what Chain.CreateAt is documented to do, on the reference.
func (s *refState) createAt(env *refEnv, at, from common.Address, code []byte) error {
	snap := s.Snapshot()
	s.CreateAccount(at)
	s.SetNonce(at, 1)
	ctx := vm.Context{
		CanTransfer: func(db vm.StateDB, a common.Address, v *big.Int) bool { return db.GetBalance(a).Cmp(v) >= 0 },
		Transfer: func(db vm.StateDB, from, to common.Address, v *big.Int) {
			db.SubBalance(from, v)
			db.AddBalance(to, v)
		},
		GetHash: func(n uint64) common.Hash {
			h, ok := env.hashes[n]
			if !ok {
				env.unspecified = true
			}
			return h
		},
		Origin: from, Coinbase: env.miner, GasLimit: env.limit,
		BlockNumber: new(big.Int).SetUint64(env.number), Time: new(big.Int).SetUint64(env.time),
		Difficulty: new(big.Int).Set(env.difficulty), GasPrice: new(big.Int),
	}
	e := vm.NewEVM(ctx, s, &refParams, vm.Config{})
	con := vm.NewContract(vm.AccountRef(from), vm.AccountRef(at), new(big.Int), directGas)
	con.SetCallCode(&at, crypto.Keccak256Hash(code), code)
	ret, err := e.Interpreter().Run(con, nil, false)
	if err != nil {
		s.RevertToSnapshot(snap)
	} else {
		s.SetCode(at, ret)
	}
	s.finalise()
	return err
}
