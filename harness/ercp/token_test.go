// Package ercp checks the ERC-20 compliance tests against tokens that comply
// and tokens that do not.
package ercp

import (
	"fmt"
	"math/big"

	"github.com/ethereum/go-ethereum/core/vm"
	"github.com/philhofer/seth"
)

// asm is EVM code with labels.
type asm struct {
	b      []byte
	labels map[string]int
	refs   map[int]string
}

func (a *asm) op(ops ...vm.OpCode) *asm {
	for _, o := range ops {
		a.b = append(a.b, byte(o))
	}
	return a
}

func (a *asm) push(v *big.Int) *asm {
	b := v.Bytes()
	if len(b) == 0 {
		b = []byte{0}
	}
	a.b = append(append(a.b, byte(vm.PUSH1)+byte(len(b)-1)), b...)
	return a
}

func (a *asm) n(n int64) *asm { return a.push(big.NewInt(n)) }

func (a *asm) to(label string) *asm {
	a.b = append(a.b, byte(vm.PUSH2), 0, 0)
	a.refs[len(a.b)-2] = label
	return a
}

func (a *asm) at(label string) *asm {
	a.labels[label] = len(a.b)
	return a.op(vm.JUMPDEST)
}

func (a *asm) bytes() []byte {
	for i, l := range a.refs {
		pos, ok := a.labels[l]
		if !ok {
			panic("HARNESS-ERROR no label " + l)
		}
		a.b[i], a.b[i+1] = byte(pos>>8), byte(pos)
	}
	return a.b
}

// initcode deploys code.
func initcode(code []byte) []byte {
	a := &asm{refs: map[int]string{}, labels: map[string]int{}}
	a.b = append(a.b, byte(vm.PUSH2), byte(len(code)>>8), byte(len(code)))
	a.op(vm.DUP1).n(12).n(0).op(vm.CODECOPY).n(0).op(vm.RETURN)
	if len(a.b) != 12 {
		panic(fmt.Sprint("HARNESS-ERROR prologue of ", len(a.b)))
	}
	return append(a.b, code...)
}

// loggerCode emits a log with three topics and a word, all from its input.
func loggerCode() []byte {
	a := &asm{refs: map[int]string{}, labels: map[string]int{}}
	a.n(96).op(vm.CALLDATALOAD).n(0).op(vm.MSTORE)
	a.n(64).op(vm.CALLDATALOAD).n(32).op(vm.CALLDATALOAD).n(0).op(vm.CALLDATALOAD).n(32).n(0).op(vm.LOG3, vm.STOP)
	return a.bytes()
}

// token writes an ERC-20 token whose failing calls end as failure says, and
// which departs from the standard in the given way.
type token struct {
	*asm
	failure  string // revert, invalid, false
	trueWord *big.Int
	slot     int64 // its state begins at this storage slot
	minter   bool  // only the creator may mint
	burn     bool
	defect   string
	logger   seth.Address
	bodies   []func()
}

func (k *token) has(d string) bool { return k.defect == d }

type expr func()

func (k *token) arg(i int64) expr { return func() { k.n(4 + 32*i).op(vm.CALLDATALOAD) } }
func (k *token) caller() expr     { return func() { k.op(vm.CALLER) } }
func (k *token) zero() expr       { return func() { k.n(0) } }

// bal is the storage slot of someone's balance.
func (k *token) bal(who expr) expr {
	return func() {
		who()
		k.n(0).op(vm.MSTORE).n(k.slot).n(32).op(vm.MSTORE).n(64).n(0).op(vm.SHA3)
	}
}

func (k *token) allow(owner, spender expr) expr {
	return func() {
		owner()
		k.n(0).op(vm.MSTORE).n(k.slot + 1).n(32).op(vm.MSTORE).n(64).n(0).op(vm.SHA3)
		k.n(32).op(vm.MSTORE)
		spender()
		k.n(0).op(vm.MSTORE).n(64).n(0).op(vm.SHA3)
	}
}

func (k *token) supply() expr { return func() { k.n(k.slot + 2) } }

func (k *token) add(slot, amt expr) {
	amt()
	slot()
	k.op(vm.SLOAD, vm.ADD)
	slot()
	k.op(vm.SSTORE)
}

func (k *token) sub(slot, amt expr) {
	amt()
	slot()
	k.op(vm.SLOAD, vm.SUB)
	slot()
	k.op(vm.SSTORE)
}

func (k *token) minus(e expr, n int64) expr {
	return func() { k.n(n); e(); k.op(vm.SUB) }
}

func (k *token) plus(e expr, n *big.Int) expr {
	return func() { k.push(n); e(); k.op(vm.ADD) }
}

// atLeast ends the call unless slot holds amt or more.
func (k *token) atLeast(slot, amt expr) {
	amt()
	slot()
	k.op(vm.SLOAD, vm.LT).to("fail").op(vm.JUMPI)
}

var (
	transferTopic = new(big.Int).SetBytes(hash("Transfer(address,address,uint256)"))
	approvalTopic = new(big.Int).SetBytes(hash("Approval(address,address,uint256)"))
)

func hash(s string) []byte { h := seth.HashString(s); return h[:] }

// event emits topic(from, to, amt); name is the function it belongs to.
func (k *token) event(name string, topic *big.Int, from, to, amt expr) {
	times := 1
	switch k.defect {
	case name + " emits nothing":
		return
	case name + " emits twice":
		times = 2
	case name + " emits the other event":
		topic = new(big.Int).Xor(topic, new(big.Int).Xor(transferTopic, approvalTopic))
	case name + " emits an unknown event":
		topic = big.NewInt(77)
	case name + " emits its addresses swapped":
		from, to = to, from
	case name + " emits another source":
		from = k.minus(from, 1)
	case name + " emits another target":
		to = k.plus(to, big.NewInt(1))
	}
	word := func(off int64, e expr) { e(); k.n(off).op(vm.MSTORE) }
	for ; times > 0; times-- {
		switch {
		case k.has(name + " emits from elsewhere"):
			word(0, func() { k.push(topic) })
			word(32, from)
			word(64, to)
			word(96, amt)
			k.n(0).n(0).n(128).n(0).n(0).push(new(big.Int).SetBytes(k.logger[:])).op(vm.GAS, vm.CALL, vm.POP)
		case k.has(name + " indexes nothing"):
			word(0, from)
			word(32, to)
			word(64, amt)
			k.push(topic).n(96).n(0).op(vm.LOG1)
		case k.has(name + " indexes one"):
			word(0, to)
			word(32, amt)
			from()
			k.push(topic).n(64).n(0).op(vm.LOG2)
		case k.has(name + " indexes all"):
			amt()
			to()
			from()
			k.push(topic).n(0).n(0).op(vm.LOG4)
		case k.has(name + " indexes the amount too"):
			word(0, amt)
			amt()
			to()
			from()
			k.push(topic).n(32).n(0).op(vm.LOG4)
		case k.has(name + " is anonymous"):
			word(0, from)
			word(32, to)
			word(64, amt)
			k.n(96).n(0).op(vm.LOG0)
		default:
			word(0, amt)
			to()
			from()
			k.push(topic).n(32).n(0).op(vm.LOG3)
		}
	}
}

func (k *token) yes(name string) {
	switch k.defect {
	case name + " returns false":
		k.n(0)
	case name + " returns nothing":
		k.op(vm.STOP)
		return
	default:
		k.push(k.trueWord)
	}
	k.n(0).op(vm.MSTORE).n(32).n(0).op(vm.RETURN)
}

func (k *token) fn(sig string, body func(name string)) {
	name := sig[:indexOf(sig, '(')]
	k.op(vm.DUP1).push(new(big.Int).SetBytes(hash(sig)[:4])).op(vm.EQ).to(sig).op(vm.JUMPI)
	k.bodies = append(k.bodies, func() {
		k.at(sig)
		if k.has(name + " fails") {
			k.to("fail").op(vm.JUMP)
			return
		}
		body(name)
	})
}

func indexOf(s string, c byte) int {
	for i := range s {
		if s[i] == c {
			return i
		}
	}
	return len(s)
}

// debit and credit move amt, unless the defect says otherwise.
func (k *token) debit(name string, who, amt expr) {
	switch k.defect {
	case name + " debits nothing":
	case name + " debits one more":
		k.sub(k.bal(who), k.plus(amt, big.NewInt(1)))
	case name + " debits one less":
		k.sub(k.bal(who), k.minus(amt, 1))
	default:
		k.sub(k.bal(who), amt)
	}
}

func (k *token) credit(name string, who, amt expr) {
	switch k.defect {
	case name + " credits nothing":
	case name + " credits one more":
		k.add(k.bal(who), k.plus(amt, big.NewInt(1)))
	case name + " credits one less":
		k.add(k.bal(who), k.minus(amt, 1))
	case name + " credits 2^64 more":
		k.add(k.bal(who), k.plus(amt, new(big.Int).Lsh(big.NewInt(1), 64)))
	default:
		k.add(k.bal(who), amt)
	}
}

func (k *token) code(owner seth.Address) []byte {
	k.asm = &asm{refs: map[int]string{}, labels: map[string]int{}}
	k.bodies = nil
	// the selector is calldata[0] / 2^224
	k.push(new(big.Int).Lsh(big.NewInt(1), 224)).n(0).op(vm.CALLDATALOAD, vm.DIV)

	to, amt := k.arg(0), k.arg(1)
	k.fn("transfer(address,uint256)", func(name string) {
		k.atLeast(k.bal(k.caller()), amt)
		k.debit(name, k.caller(), amt)
		k.credit(name, to, amt)
		k.event(name, transferTopic, k.caller(), to, amt)
		k.yes(name)
	})
	k.fn("approve(address,uint256)", func(name string) {
		amt()
		k.allow(k.caller(), to)()
		k.op(vm.SSTORE)
		k.event(name, approvalTopic, k.caller(), to, amt)
		k.yes(name)
	})
	k.fn("transferFrom(address,address,uint256)", func(name string) {
		from, to, amt := k.arg(0), k.arg(1), k.arg(2)
		allow := k.allow(from, k.caller())
		if k.has("transferFrom emits when it fails") {
			amt()
			allow()
			k.op(vm.SLOAD, vm.LT, vm.ISZERO).to("enough").op(vm.JUMPI)
			k.event(name, transferTopic, from, to, amt)
			k.n(0).n(0).op(vm.MSTORE).n(32).n(0).op(vm.RETURN).at("enough")
		}
		if !k.has("transferFrom ignores the allowance") {
			k.atLeast(allow, amt)
			k.sub(allow, amt)
		}
		k.atLeast(k.bal(from), amt)
		k.debit(name, from, amt)
		k.credit(name, to, amt)
		k.event(name, transferTopic, from, to, amt)
		k.yes(name)
	})
	word := func(slot expr) {
		slot()
		k.op(vm.SLOAD).n(0).op(vm.MSTORE).n(32).n(0).op(vm.RETURN)
	}
	k.fn("balanceOf(address)", func(string) { word(k.bal(k.arg(0))) })
	k.fn("allowance(address,address)", func(string) { word(k.allow(k.arg(0), k.arg(1))) })
	k.fn("totalSupply()", func(string) { word(k.supply()) })
	k.fn("mint(address,uint256)", func(name string) {
		if k.minter {
			k.push(new(big.Int).SetBytes(owner[:])).op(vm.CALLER, vm.EQ, vm.ISZERO).to("fail").op(vm.JUMPI)
		}
		k.credit(name, to, amt)
		k.add(k.supply(), amt)
		k.event(name, transferTopic, k.zero(), to, amt)
		k.op(vm.STOP)
	})
	if k.burn {
		k.fn("burn(uint256)", func(name string) {
			amt := k.arg(0)
			k.atLeast(k.bal(k.caller()), amt)
			k.debit(name, k.caller(), amt)
			switch k.defect {
			case "burn keeps the supply":
			case "burn raises the supply":
				k.add(k.supply(), amt)
			case "burn lowers the supply by 2^64 more":
				k.sub(k.supply(), k.plus(amt, new(big.Int).Lsh(big.NewInt(1), 64)))
			case "burn lowers the supply by one less":
				k.sub(k.supply(), k.minus(amt, 1))
			default:
				k.sub(k.supply(), amt)
			}
			k.event(name, transferTopic, k.caller(), k.zero(), amt)
			k.op(vm.STOP)
		})
	}
	k.to("fail").op(vm.JUMP)
	for _, f := range k.bodies {
		f()
	}
	k.at("fail")
	switch k.failure {
	case "false":
		k.n(0).n(0).op(vm.MSTORE).n(32).n(0).op(vm.RETURN)
	case "invalid":
		k.b = append(k.b, 0xfe)
	default:
		k.n(0).n(0).op(vm.REVERT)
	}
	return k.bytes()
}

// defects are the departures the compliance test has a statement about.
func defects(burn bool) (out []string) {
	fns := []string{"transfer", "approve", "transferFrom", "mint"}
	if burn {
		fns = append(fns, "burn")
	}
	for _, f := range fns {
		for _, d := range []string{"emits nothing", "emits twice", "emits the other event", "emits an unknown event", "emits its addresses swapped", "emits another source", "emits another target", "emits from elsewhere",
			"indexes nothing", "indexes one", "indexes all", "indexes the amount too", "is anonymous", "fails"} {
			out = append(out, f+" "+d)
		}
	}
	for _, f := range fns[:3] {
		out = append(out, f+" returns false", f+" returns nothing")
	}
	out = append(out, "transfer debits nothing", "transfer debits one less", "transfer credits nothing", "transfer credits one less", "transferFrom debits nothing", "transferFrom debits one less",
		"mint credits nothing", "mint credits one less", "mint credits 2^64 more", "transfer credits 2^64 more",
		"transferFrom ignores the allowance", "transferFrom emits when it fails", "balanceOf fails",
		"transfer debits one more", "transfer credits one more", "transferFrom debits one more", "mint credits one more")
	if burn {
		out = append(out, "transferFrom credits nothing", "transferFrom credits one less", "burn debits nothing", "burn debits one less", "burn keeps the supply", "burn lowers the supply by one less", "totalSupply fails", "transferFrom credits one more", "burn debits one more", "burn raises the supply", "burn lowers the supply by 2^64 more")
	}
	return
}
