package tevmp

import (
	"math/big"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/vm"
	"github.com/ethereum/go-ethereum/crypto"
	"pgregory.net/rapid"

	"verif/harness/gen"
)

// asm assembles EVM code.
type asm struct {
	b    []byte
	data []chunk // what follows the code
	mem  int     // next free memory word for results
}

// chunk is a piece of data placed after the code; at holds the positions of
// the two-byte operands that refer to it.
type chunk struct {
	bytes []byte
	at    []int
}

func (a *asm) op(ops ...vm.OpCode) *asm {
	for _, o := range ops {
		a.b = append(a.b, byte(o))
	}
	return a
}

func (a *asm) push(v *big.Int) *asm {
	b := v.Bytes()
	if len(b) == 0 {
		b = []byte{0}
	}
	if len(b) > 32 {
		b = b[len(b)-32:]
	}
	a.b = append(a.b, byte(vm.PUSH1)+byte(len(b)-1))
	a.b = append(a.b, b...)
	return a
}

func (a *asm) pushn(n int) *asm { return a.push(big.NewInt(int64(n))) }

func (a *asm) pusha(addr common.Address) *asm { return a.push(new(big.Int).SetBytes(addr[:])) }

// ref pushes the offset of data chunk i.
func (a *asm) ref(i int) *asm {
	a.b = append(a.b, byte(vm.PUSH2))
	a.data[i].at = append(a.data[i].at, len(a.b))
	a.b = append(a.b, 0, 0)
	return a
}

// record stores the top of the stack as a result: in memory, which the end of
// the program returns, or in storage.
func (a *asm) record(t *rapid.T) *asm {
	if rapid.IntRange(0, 2).Draw(t, "keep") == 0 {
		return a.pushn(16 + rapid.IntRange(0, 7).Draw(t, "kslot")).op(vm.SSTORE)
	}
	a.pushn(32 * a.mem).op(vm.MSTORE)
	if a.mem < 30 {
		a.mem++
	}
	return a
}

func (a *asm) bytes() []byte {
	out := append([]byte{}, a.b...)
	for _, d := range a.data {
		off := len(out)
		for _, at := range d.at {
			out[at], out[at+1] = byte(off>>8), byte(off)
		}
		out = append(out, d.bytes...)
	}
	return out
}

// world is what programs may refer to.
type world struct {
	addrs  []common.Address // contracts, accounts and others
	blocks []uint64
}

var envOps = []vm.OpCode{vm.ADDRESS, vm.ORIGIN, vm.CALLER, vm.CALLVALUE, vm.GASPRICE, vm.COINBASE, vm.TIMESTAMP,
	vm.NUMBER, vm.DIFFICULTY, vm.GASLIMIT, vm.CALLDATASIZE, vm.CODESIZE, vm.RETURNDATASIZE, vm.MSIZE, vm.PC, vm.GAS}

func (w *world) pushAddr(t *rapid.T, a *asm) {
	n := rapid.IntRange(0, len(w.addrs)+3).Draw(t, "addr")
	switch {
	case n < len(w.addrs):
		a.pusha(w.addrs[n])
	case n == len(w.addrs):
		a.op(vm.ADDRESS)
	case n == len(w.addrs)+1:
		a.op(vm.CALLER)
	case n == len(w.addrs)+2:
		a.pushn(rapid.IntRange(0, 9).Draw(t, "precompile"))
	default: // whatever the last creation left
		a.pushn(31).op(vm.SLOAD)
	}
}

func pushValue(t *rapid.T, a *asm) {
	switch rapid.IntRange(0, 9).Draw(t, "value") {
	case 0, 1, 2, 3, 4:
		a.pushn(0)
	case 5, 6:
		a.pushn(rapid.IntRange(1, 9).Draw(t, "wei"))
	case 7:
		a.op(vm.CALLVALUE)
	case 8:
		a.op(vm.ADDRESS, vm.BALANCE)
	case 9:
		a.push(gen.Big(100).Draw(t, "wei"))
	}
}

// program draws code. depth bounds how deep creations nest in its text.
func (w *world) program(t *rapid.T, depth int) []byte {
	a := new(asm)
	n := rapid.IntRange(1, 7).Draw(t, "stmts")
	for i := 0; i < n; i++ {
		w.stmt(t, a, depth)
	}
	w.end(t, a)
	return a.bytes()
}

func (w *world) end(t *rapid.T, a *asm) {
	switch rapid.IntRange(0, 11).Draw(t, "end") {
	case 0:
		a.pushn(32*a.mem + rapid.IntRange(0, 3).Draw(t, "odd")).pushn(0).op(vm.REVERT)
	case 1:
		a.op(vm.OpCode(0xfe))
	case 2:
		a.op(vm.STOP)
	case 3:
		w.pushAddr(t, a)
		a.op(vm.SELFDESTRUCT)
	case 4:
		a.b = append(a.b, gen.Bytes(0, 8).Draw(t, "raw")...)
	default:
		a.pushn(32*a.mem + rapid.IntRange(0, 3).Draw(t, "odd")).pushn(0).op(vm.RETURN)
	}
}

// initcode draws creation code that installs a program.
func (w *world) initcode(t *rapid.T, depth int) []byte {
	if rapid.IntRange(0, 14).Draw(t, "odd init") == 0 {
		return gen.Bytes(0, 12).Draw(t, "init")
	}
	body := w.program(t, depth)
	if rapid.IntRange(0, 9).Draw(t, "nobody") == 0 {
		body = nil
	}
	a := new(asm)
	if rapid.IntRange(0, 1).Draw(t, "ctor") == 0 {
		for i := rapid.IntRange(1, 2).Draw(t, "ctor stmts"); i > 0; i-- {
			w.stmt(t, a, depth)
		}
	}
	a.data = append(a.data, chunk{bytes: body})
	i := len(a.data) - 1
	a.pushn(len(body)).ref(i).pushn(0).op(vm.CODECOPY)
	a.pushn(len(body)).pushn(0).op(vm.RETURN)
	return a.bytes()
}

func (w *world) stmt(t *rapid.T, a *asm, depth int) {
	k := rapid.IntRange(0, 19).Draw(t, "stmt")
	switch k {
	case 0, 1:
		switch rapid.IntRange(0, 2).Draw(t, "val") {
		case 0:
			a.pushn(0)
		case 1:
			a.push(gen.Big(256).Draw(t, "v"))
		case 2:
			a.op(vm.CALLER)
		}
		a.pushn(rapid.IntRange(0, 3).Draw(t, "slot")).op(vm.SSTORE)
	case 2:
		a.pushn(rapid.IntRange(0, 3).Draw(t, "slot")).op(vm.SLOAD)
		a.record(t)
	case 3: // a counter
		s := rapid.IntRange(0, 3).Draw(t, "slot")
		a.pushn(1).pushn(s).op(vm.SLOAD, vm.ADD).pushn(s).op(vm.SSTORE)
	case 4, 5:
		a.op(rapid.SampledFrom(envOps).Draw(t, "env"))
		a.record(t)
	case 6:
		w.pushAddr(t, a)
		a.op(rapid.SampledFrom([]vm.OpCode{vm.BALANCE, vm.EXTCODESIZE, vm.EXTCODEHASH}).Draw(t, "ext"))
		a.record(t)
	case 7:
		a.pushn(rapid.IntRange(1, 70).Draw(t, "len")).pushn(rapid.IntRange(0, 40).Draw(t, "off")).pushn(32 * a.mem)
		w.pushAddr(t, a)
		a.op(vm.EXTCODECOPY)
		if a.mem < 28 {
			a.mem += 3
		}
	case 8:
		if len(w.blocks) == 0 {
			return
		}
		a.push(new(big.Int).SetUint64(rapid.SampledFrom(w.blocks).Draw(t, "block"))).op(vm.BLOCKHASH)
		a.record(t)
	case 9, 10:
		nt := rapid.IntRange(0, 4).Draw(t, "topics")
		for i := 0; i < nt; i++ {
			a.pushn(rapid.IntRange(0, 5).Draw(t, "topic"))
		}
		a.pushn(rapid.IntRange(0, 40).Draw(t, "len")).pushn(rapid.IntRange(0, 40).Draw(t, "off")).op(vm.LOG0 + vm.OpCode(nt))
	case 11, 12, 13, 14:
		kind := rapid.SampledFrom([]vm.OpCode{vm.CALL, vm.CALL, vm.CALL, vm.CALLCODE, vm.DELEGATECALL, vm.STATICCALL}).Draw(t, "call")
		// out size, out offset, in size, in offset
		a.pushn(rapid.IntRange(0, 33).Draw(t, "out")).pushn(32 * a.mem)
		a.pushn(rapid.IntRange(0, 36).Draw(t, "in")).pushn(0)
		if kind == vm.CALL || kind == vm.CALLCODE {
			pushValue(t, a)
		}
		w.pushAddr(t, a)
		switch rapid.IntRange(0, 3).Draw(t, "gas") {
		case 0:
			a.pushn(rapid.IntRange(0, 60000).Draw(t, "callgas"))
		case 1:
			a.op(vm.GAS)
		case 2: // half of it
			a.pushn(2).op(vm.GAS, vm.DIV)
		case 3:
			a.push(new(big.Int).SetUint64(1 << 40))
		}
		a.op(kind)
		a.record(t)
		if rapid.Bool().Draw(t, "rdcopy") {
			a.op(vm.RETURNDATASIZE).pushn(0).pushn(32 * a.mem).op(vm.RETURNDATACOPY)
		}
	case 15, 16:
		if depth <= 0 {
			a.pushn(7).pushn(2).op(vm.SSTORE)
			return
		}
		init := w.initcode(t, depth-1)
		a.data = append(a.data, chunk{bytes: init})
		i := len(a.data) - 1
		a.pushn(len(init)).ref(i).pushn(32 * a.mem).op(vm.CODECOPY)
		two := rapid.Bool().Draw(t, "create2")
		if two {
			a.pushn(rapid.IntRange(0, 1).Draw(t, "salt"))
		}
		a.pushn(len(init)).pushn(32 * a.mem)
		pushValue(t, a)
		if two {
			a.op(vm.CREATE2)
		} else {
			a.op(vm.CREATE)
		}
		a.op(vm.DUP1).pushn(31).op(vm.SSTORE)
		a.record(t)
	case 17: // do something only for some callers or callees
		switch rapid.IntRange(0, 2).Draw(t, "cond") {
		case 0:
			a.pushn(0).op(vm.CALLDATALOAD).pushn(1).op(vm.AND)
		case 1:
			a.pushn(rapid.IntRange(0, 3).Draw(t, "slot")).op(vm.SLOAD)
		case 2:
			a.op(vm.CALLVALUE)
		}
		a.b = append(a.b, byte(vm.PUSH2), 0, 0)
		at := len(a.b) - 2
		a.op(vm.JUMPI)
		m := a.mem
		if rapid.Bool().Draw(t, "leave") {
			w.end(t, a)
		} else {
			w.stmt(t, a, depth-1)
		}
		if a.mem < m {
			a.mem = m
		}
		a.b[at], a.b[at+1] = byte(len(a.b)>>8), byte(len(a.b))
		a.op(vm.JUMPDEST)
	case 18:
		a.pushn(rapid.IntRange(0, 64).Draw(t, "at")).op(vm.CALLDATALOAD)
		a.record(t)
	case 19:
		a.push(gen.Big(256).Draw(t, "x")).push(gen.Big(256).Draw(t, "y"))
		a.op(rapid.SampledFrom([]vm.OpCode{vm.ADD, vm.MUL, vm.SUB, vm.DIV, vm.SDIV, vm.MOD, vm.EXP, vm.LT, vm.SGT, vm.EQ, vm.AND, vm.XOR, vm.BYTE, vm.SHL, vm.SHR, vm.SAR, vm.SIGNEXTEND}).Draw(t, "arith"))
		a.record(t)
	}
}

// ashes draws a group of contracts: some that destroy themselves, some that
// call others and revert, and one that calls several of these in one
// transaction, so that some of its suicides are undone and others are not.
func (w *world) ashes(t *rapid.T) (common.Address, map[common.Address][]byte) {
	at := func(i int) common.Address { return common.Address{0: 0xaa, 19: byte(i)} }
	out := map[common.Address][]byte{}
	call := func(a *asm, to common.Address) {
		a.pushn(0).pushn(0).pushn(0).pushn(0)
		pushValue(t, a)
		a.pusha(to).op(vm.GAS, vm.CALL)
		a.record(t)
	}
	for i := 1; i <= 3; i++ {
		a := new(asm)
		if rapid.Bool().Draw(t, "count") {
			a.pushn(1).pushn(0).op(vm.SLOAD, vm.ADD).pushn(0).op(vm.SSTORE)
		}
		w.pushAddr(t, a)
		a.op(vm.SELFDESTRUCT)
		out[at(i)] = a.bytes()
	}
	for i := 4; i <= 6; i++ {
		a := new(asm)
		for n := rapid.IntRange(1, 3).Draw(t, "calls"); n > 0; n-- {
			call(a, at(rapid.IntRange(1, i-1).Draw(t, "callee")))
		}
		switch rapid.IntRange(0, 5).Draw(t, "end") {
		case 0, 1, 2:
			a.pushn(0).pushn(0).op(vm.REVERT)
		case 3:
			a.op(vm.OpCode(0xfe))
		default:
			a.pushn(32 * a.mem).pushn(0).op(vm.RETURN)
		}
		out[at(i)] = a.bytes()
	}
	a := new(asm)
	for n := rapid.IntRange(2, 6).Draw(t, "calls"); n > 0; n-- {
		if rapid.IntRange(0, 3).Draw(t, "other") == 0 {
			w.stmt(t, a, 0)
		} else {
			call(a, at(rapid.IntRange(1, 6).Draw(t, "callee")))
		}
	}
	w.end(t, a)
	out[at(7)] = a.bytes()
	for i := 1; i <= 7; i++ {
		w.addrs = append(w.addrs, at(i))
	}
	return at(7), out
}

// phoenix draws a contract (for the given address) that creates a child with
// CREATE2, always at one address, and calls it with its own input. The child
// counts, and destroys itself for some inputs.
func (w *world) phoenix(t *rapid.T, self common.Address) ([]byte, common.Address) {
	child := new(asm)
	for i := rapid.IntRange(0, 2).Draw(t, "before"); i > 0; i-- {
		w.stmt(t, child, 0)
	}
	child.pushn(1).pushn(0).op(vm.SLOAD, vm.ADD).pushn(0).op(vm.SSTORE)
	child.pushn(0).op(vm.CALLDATALOAD).pushn(1).op(vm.AND, vm.ISZERO)
	child.b = append(child.b, byte(vm.PUSH2), 0, 0)
	at := len(child.b) - 2
	child.op(vm.JUMPI)
	w.pushAddr(t, child)
	child.op(vm.SELFDESTRUCT)
	child.b[at], child.b[at+1] = byte(len(child.b)>>8), byte(len(child.b))
	child.op(vm.JUMPDEST)
	w.end(t, child)
	body := child.bytes()

	init := new(asm)
	if rapid.Bool().Draw(t, "ctor") {
		init.pushn(rapid.IntRange(0, 9).Draw(t, "v")).pushn(rapid.IntRange(1, 3).Draw(t, "k")).op(vm.SSTORE)
	}
	init.data = append(init.data, chunk{bytes: body})
	init.pushn(len(body)).ref(0).pushn(0).op(vm.CODECOPY)
	init.pushn(len(body)).pushn(0).op(vm.RETURN)
	code := init.bytes()
	addr := crypto.CreateAddress2(self, common.Hash{}, crypto.Keccak256(code))

	a := new(asm)
	a.data = append(a.data, chunk{bytes: code})
	a.pushn(len(code)).ref(0).pushn(64).op(vm.CODECOPY)
	a.pushn(0).pushn(len(code)).pushn(64)
	pushValue(t, a)
	a.op(vm.CREATE2)
	a.record(t)
	if rapid.IntRange(0, 3).Draw(t, "call") != 0 {
		a.pushn(64).pushn(0).pushn(0).op(vm.CALLDATACOPY)
		a.pushn(32).pushn(128).pushn(64).pushn(0)
		pushValue(t, a)
		a.pusha(addr).op(vm.GAS, vm.CALL)
		a.record(t)
	}
	for i := rapid.IntRange(0, 1).Draw(t, "after"); i > 0; i-- {
		w.stmt(t, a, 0)
	}
	w.end(t, a)
	return a.bytes(), addr
}
