package tevmp

import (
	"encoding/json"
	"fmt"
	"math/big"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/philhofer/seth"
	"github.com/philhofer/seth/tevm"
	"pgregory.net/rapid"

	"verif/harness/gen"
)

// mtx is what the model knows of a mined transaction.
type mtx struct {
	tx      *refTx
	hash    seth.Hash
	nonce   uint64
	used    uint64
	cum     uint64
	ok      bool
	created common.Address
	logs    []*types.Log // with their index in the block
}

// mblock is a block of the model. state is nil while the block is pending.
type mblock struct {
	number, time, limit, used uint64
	difficulty                *big.Int
	miner                     common.Address
	hash, parent              seth.Hash
	txs                       []*mtx
	state                     *refState
}

func (b *mblock) fork() *mblock {
	n := *b
	n.txs = append([]*mtx{}, b.txs...)
	return &n
}

// readPending takes the parameters of the pending block from the chain.
func (tw *twin) readPending() {
	p := tw.chain.State.Pending
	tw.pend = &mblock{number: uint64(*p.Number), time: uint64(p.Timestamp), limit: uint64(p.GasLimit),
		difficulty: p.Difficulty.Big(), miner: common.Address(p.Miner), hash: *p.Hash, parent: p.Parent}
}

// fork makes a model of a chain that is in the same state now.
func (tw *twin) fork(chain *tevm.Chain) *twin {
	n := &twin{c: tw.c, chain: chain, ref: tw.ref.fork(), w: tw.w, eoas: tw.eoas, cons: tw.cons, pend: tw.pend.fork()}
	n.env.hashes = map[uint64]common.Hash{}
	for k, v := range tw.env.hashes {
		n.env.hashes[k] = v
	}
	n.sealed = append([]*mblock{}, tw.sealed...)
	n.trace = append([]string{}, tw.trace...)
	return n
}

// view makes a model of the view of sealed block i.
func (tw *twin) view(chain *tevm.Chain, i int) *twin {
	n := tw.fork(chain)
	n.pend = tw.sealed[i].fork()
	n.pend.state = nil
	n.ref = tw.sealed[i].state.fork()
	n.sealed = n.sealed[:i]
	for k := range n.env.hashes {
		if k >= n.pend.number {
			delete(n.env.hashes, k)
		}
	}
	return n
}

// record notes a mined transaction.
func (tw *twin) record(tx *refTx, h seth.Hash, nonce uint64, l0 int, res refResult) *mtx {
	m := &mtx{tx: tx, hash: h, nonce: nonce, used: tx.gas - res.left, ok: res.err == nil, created: res.addr}
	tw.pend.used += m.used
	m.cum = tw.pend.used
	index := uint(0)
	for i, l := range tw.ref.logs {
		if l.BlockNumber != tw.pend.number {
			continue
		}
		if i >= l0 {
			l.Index = index
			l.TxIndex = uint(len(tw.pend.txs))
			l.TxHash = common.Hash(h)
			l.BlockHash = common.Hash(tw.pend.hash)
			m.logs = append(m.logs, l)
		}
		index++
	}
	tw.pend.txs = append(tw.pend.txs, m)
	return m
}

// sealModel is what sealing a block does to the model, on a chain that has
// just sealed it.
func (tw *twin) sealModel() {
	b := tw.pend
	b.state = tw.ref.fork()
	tw.sealed = append(tw.sealed, b)
	tw.env.hashes[b.number] = common.Hash(b.hash)
	known := false
	for _, n := range tw.w.blocks {
		known = known || n == b.number
	}
	if !known {
		tw.w.blocks = append(tw.w.blocks, b.number)
	}
	tw.readPending()
	p := tw.pend
	if p.number != b.number+1 {
		tw.fatalf("the block after %d is %d", b.number, p.number)
	}
	if p.parent != b.hash {
		tw.fatalf("the parent of block %d is %x, and block %d is %x", p.number, p.parent, b.number, b.hash)
	}
	for _, o := range tw.sealed {
		if p.hash == o.hash {
			tw.fatalf("blocks %d and %d have the same hash", p.number, o.number)
		}
	}
	if p.limit != b.limit || p.miner != b.miner || p.difficulty.Cmp(b.difficulty) != 0 {
		tw.fatalf("block %d has limit %d, miner %x, difficulty %v; block %d had %d, %x, %v", p.number, p.limit, p.miner, p.difficulty, b.number, b.limit, b.miner, b.difficulty)
	}
	if g := tw.chain.State.Pending.GasUsed; g != 0 {
		tw.fatalf("block %d starts with %d gas used", p.number, g)
	}
}

type opKind int

const (
	opMine opKind = iota
	opSeal
	opCall
	opCreate
	opSend
	opCreateAt
	opAddBalance
	opSubBalance
	opRPCSend
	nKinds
)

// op is something to do to a chain.
type op struct {
	kind     opKind
	tx       *refTx
	from, at common.Address
	v        *big.Int
	code     []byte
	time     uint64
}

// drawOp draws an operation of one of the given kinds for the state tw is in.
func (tw *twin) drawOp(kinds ...opKind) op {
	t := tw.c.T
	o := op{kind: rapid.SampledFrom(kinds).Draw(t, "kind")}
	o.from = rapid.SampledFrom(tw.eoas).Draw(t, "from")
	switch o.kind {
	case opMine, opRPCSend:
		o.tx = tw.genTx()
	case opSeal:
		o.time = uint64(rapid.IntRange(1, 1<<31).Draw(t, "time"))
	case opCall:
		o.at = rapid.SampledFrom(tw.w.addrs).Draw(t, "to")
		o.v = gen.Big(256).Draw(t, "arg")
	case opCreate:
		o.code = tw.w.initcode(t, 1)
	case opSend:
		o.at = rapid.SampledFrom(tw.w.addrs).Draw(t, "to")
		switch rapid.IntRange(0, 2).Draw(t, "value") {
		case 0:
			o.v = tw.ref.GetBalance(o.from)
		case 1:
			o.v = gen.Big(90).Draw(t, "wei")
		default:
			o.v = new(big.Int)
		}
	case opCreateAt:
		o.at = common.Address{0: 0xbb, 1: byte(len(tw.w.addrs)), 2: gen.Byte().Draw(t, "at")}
		o.code = tw.w.initcode(t, 1)
		if rapid.IntRange(0, 2).Draw(t, "anywhere") > 0 {
			break
		}
		// over an account, or a contract, though not one with storage (what
		// becomes of that is unspecified), or that could see its own code
		at := rapid.SampledFrom(tw.w.addrs).Draw(t, "over")
		if x := tw.ref.acct[at]; x != nil {
			for _, v := range x.store {
				if v != (common.Hash{}) {
					return o
				}
			}
		}
		o.at = at
		if len(tw.ref.GetCode(at)) > 0 || rapid.IntRange(0, 3).Draw(t, "no code") == 0 {
			o.code = rapid.SampledFrom([][]byte{nil, {0}, {0x60, 0, 0x60, 0, 0xf3}}).Draw(t, "none")
		}
	case opAddBalance:
		o.v = gen.Big(80).Draw(t, "wei")
	case opSubBalance:
		o.v = gen.Big(80).Draw(t, "wei")
		o.v.Mod(o.v, new(big.Int).Add(tw.ref.GetBalance(o.from), big.NewInt(1)))
	}
	return o
}

func (o op) String() string {
	switch o.kind {
	case opMine:
		return "Mine " + o.tx.String()
	case opRPCSend:
		return "eth_sendTransaction " + o.tx.String()
	case opSeal:
		return fmt.Sprintf("Seal, time %d", o.time)
	case opCall:
		return fmt.Sprintf("Call %x -> %x poke(%v)", o.from[:], o.at[:], o.v)
	case opCreate:
		return fmt.Sprintf("Create %x code=%x", o.from[:], o.code)
	case opSend:
		return fmt.Sprintf("Send %x -> %x value=%v", o.from[:], o.at[:], o.v)
	case opCreateAt:
		return fmt.Sprintf("CreateAt %x by %x code=%x", o.at[:], o.from[:], o.code)
	case opAddBalance:
		return fmt.Sprintf("AddBalance %x %v", o.from[:], o.v)
	case opSubBalance:
		return fmt.Sprintf("SubBalance %x %v", o.from[:], o.v)
	}
	return "?"
}

// do runs an operation on the chain and on the model, and compares what it
// gives. It returns false if the history has become unspecified.
func (tw *twin) do(o op) bool {
	tw.trace = append(tw.trace, o.String())
	zero := new(big.Int)
	env := tw.block()
	switch o.kind {
	case opMine, opRPCSend:
		tx := *o.tx
		l0, nonce := len(tw.ref.logs), tw.ref.GetNonce(tx.from)
		if o.kind == opRPCSend && tx.gas > tw.pend.limit {
			tx.gas = tw.pend.limit
		}
		want := tw.ref.run(env, &tx)
		if env.unspecified {
			return false
		}
		if o.kind == opMine {
			used := tw.chain.State.Pending.GasUsed
			ret, h, err := tw.chain.Mine(tx.seth())
			tw.outcome("Mine", ret, err, want)
			if got := uint64(tw.chain.State.Pending.GasUsed - used); got != tx.gas-want.left {
				tw.fatalf("gas used is %d, want %d", got, tx.gas-want.left)
			}
			tw.record(&tx, h, nonce, l0, want)
			break
		}
		n := len(tw.pend.txs)
		var h seth.Hash
		err := rpc(tw.chain, "eth_sendTransaction", &h, tx.rpc())
		if (err != nil) != (want.err != nil) {
			tw.fatalf("eth_sendTransaction: error is %v, want %v", err, want.err)
		}
		if err != nil {
			// it stays in the pending block, as a failed transaction
			p := tw.chain.State.Pending
			if len(p.Transactions) != n+1 || json.Unmarshal(p.Transactions[n], &h) != nil {
				tw.fatalf("the pending block has %d transactions after a failed one, want %d", len(p.Transactions), n+1)
			}
			tw.record(&tx, h, nonce, l0, want)
			break
		}
		tw.record(&tx, h, nonce, l0, want)
		tw.sealModel()
		tw.chain.State.Pending.Timestamp = seth.Uint64(tw.sealed[len(tw.sealed)-1].time + 1)
		tw.pend.time = tw.sealed[len(tw.sealed)-1].time + 1
	case opSeal:
		tw.chain.Seal()
		tw.sealModel()
		tw.chain.State.Pending.Timestamp = seth.Uint64(o.time)
		tw.pend.time = o.time
	case opCall:
		arg := seth.Int(*new(big.Int).Set(o.v))
		want := tw.ref.run(env, &refTx{from: o.from, to: &o.at, data: seth.ABIEncode("poke(uint256)", &arg), value: zero, price: zero, gas: directGas})
		if env.unspecified {
			return false
		}
		ret, err := tw.chain.Call(sethAddr(o.from), sethAddr(o.at), "poke(uint256)", &arg)
		tw.outcome("Call", ret, err, want)
	case opCreate:
		want := tw.ref.run(env, &refTx{from: o.from, data: o.code, value: zero, price: zero, gas: directGas})
		if env.unspecified {
			return false
		}
		addr, err := tw.chain.Create(sethAddr(o.from), o.code)
		tw.outcome("Create", nil, err, refResult{err: want.err})
		if err == nil && common.Address(addr) != want.addr {
			tw.fatalf("created %x, want %x", addr[:], want.addr[:])
		}
	case opSend:
		want := tw.ref.run(env, &refTx{from: o.from, to: &o.at, value: o.v, price: zero, gas: directGas})
		if env.unspecified {
			return false
		}
		err := tw.chain.Send(sethAddr(o.from), sethAddr(o.at), new(big.Int).Set(o.v))
		tw.outcome("Send", nil, err, refResult{err: want.err})
	case opCreateAt:
		werr := tw.ref.createAt(env, o.at, o.from, o.code)
		if env.unspecified {
			return false
		}
		err := tw.chain.CreateAt(sethAddr(o.at), sethAddr(o.from), o.code)
		tw.outcome("CreateAt", nil, err, refResult{err: werr})
		tw.w.addrs = append(tw.w.addrs[:len(tw.w.addrs):len(tw.w.addrs)], o.at)
	case opAddBalance:
		tw.chain.AddBalance(sethAddr(o.from), new(big.Int).Set(o.v))
		tw.ref.AddBalance(o.from, o.v)
		tw.ref.finalise()
	case opSubBalance:
		tw.chain.SubBalance(sethAddr(o.from), new(big.Int).Set(o.v))
		tw.ref.SubBalance(o.from, o.v)
		tw.ref.finalise()
	}
	return true
}

// rpc makes a request of the chain's server and decodes the answer.
func rpc(chain *tevm.Chain, method string, out interface{}, params ...interface{}) error {
	return chain.Client().Do(method, rawParams(params...), out)
}

func rawParams(params ...interface{}) (raw []json.RawMessage) {
	for _, p := range params {
		b, err := json.Marshal(p)
		if err != nil {
			panic("HARNESS-ERROR: " + err.Error())
		}
		raw = append(raw, b)
	}
	return
}

func hexBig(v *big.Int) string { return "0x" + v.Text(16) }
func hexU(v uint64) string     { return fmt.Sprintf("0x%x", v) }
func hexB(b []byte) string     { return fmt.Sprintf("0x%x", b) }

// rpc is the transaction as a parameter of eth_sendTransaction and eth_call.
func (tx *refTx) rpc() map[string]interface{} {
	m := map[string]interface{}{"from": hexB(tx.from[:]), "gas": hexU(tx.gas), "gasPrice": hexBig(tx.price), "value": hexBig(tx.value), "data": hexB(tx.data)}
	if tx.to != nil {
		m["to"] = hexB(tx.to[:])
	}
	return m
}

// checkBlock compares a block, as stored or as served, with the model.
func (tw *twin) checkBlock(what string, b *seth.Block, want *mblock, full bool) {
	if b == nil {
		tw.fatalf("%s: no block %d", what, want.number)
	}
	if b.Number == nil || b.Hash == nil || uint64(*b.Number) != want.number || *b.Hash != want.hash {
		tw.fatalf("%s: block %v with hash %v, want %d with hash %x", what, b.Number, b.Hash, want.number, want.hash[:])
	}
	if b.Parent != want.parent {
		tw.fatalf("%s: parent of block %d is %x, want %x", what, want.number, b.Parent[:], want.parent[:])
	}
	if uint64(b.Timestamp) != want.time || uint64(b.GasLimit) != want.limit || uint64(b.GasUsed) != want.used ||
		common.Address(b.Miner) != want.miner || b.Difficulty == nil || b.Difficulty.Big().Cmp(want.difficulty) != 0 {
		tw.fatalf("%s: block %d has time %d limit %d used %d miner %x difficulty %v, want %d %d %d %x %v", what, want.number,
			b.Timestamp, b.GasLimit, b.GasUsed, b.Miner[:], b.Difficulty, want.time, want.limit, want.used, want.miner[:], want.difficulty)
	}
	if len(b.Transactions) != len(want.txs) {
		tw.fatalf("%s: block %d lists %d transactions, want %d", what, want.number, len(b.Transactions), len(want.txs))
	}
	for i, raw := range b.Transactions {
		if full {
			var tx seth.Transaction
			if err := json.Unmarshal(raw, &tx); err != nil {
				tw.fatalf("%s: transaction %d of block %d: %v in %s", what, i, want.number, err, raw)
			}
			tw.checkTx(fmt.Sprintf("%s: block %d", what, want.number), &tx, want, i)
			continue
		}
		var h seth.Hash
		if err := json.Unmarshal(raw, &h); err != nil || h != want.txs[i].hash {
			tw.fatalf("%s: transaction %d of block %d is %s, want %x", what, i, want.number, raw, want.txs[i].hash[:])
		}
	}
}

func (tw *twin) checkTx(what string, tx *seth.Transaction, b *mblock, i int) {
	m := b.txs[i]
	if tx == nil {
		tw.fatalf("%s: no transaction %x", what, m.hash[:])
	}
	bad := func(field string, got, want interface{}) {
		if fmt.Sprint(got) != fmt.Sprint(want) {
			tw.fatalf("%s: transaction %d of block %d has %s %v, want %v", what, i, b.number, field, got, want)
		}
	}
	bad("hash", tx.Hash, m.hash)
	bad("nonce", uint64(tx.Nonce), m.nonce)
	bad("block", tx.Block, b.hash)
	bad("block number", uint64(tx.BlockNumber), b.number)
	if tx.TxIndex == nil || tx.From == nil {
		tw.fatalf("%s: transaction %d of block %d lacks its index or sender", what, i, b.number)
	}
	bad("index", uint64(*tx.TxIndex), uint64(i))
	bad("sender", hexB(tx.From[:]), hexB(m.tx.from[:]))
	if (tx.To == nil) != (m.tx.to == nil) {
		tw.fatalf("%s: transaction %d of block %d has the receiver %v, want %v", what, i, b.number, tx.To, m.tx.to)
	}
	if tx.To != nil {
		bad("receiver", hexB(tx.To[:]), hexB(m.tx.to[:]))
	}
	bad("value", tx.Value.Big(), m.tx.value)
	bad("gas price", tx.GasPrice.Big(), m.tx.price)
	bad("gas", uint64(tx.Gas), m.tx.gas)
	bad("input", hexB(tx.Input), hexB(m.tx.data))
}

func (tw *twin) checkReceipt(rx *seth.Receipt, b *mblock, i int) {
	m := b.txs[i]
	if rx == nil {
		tw.fatalf("no receipt for transaction %d of block %d", i, b.number)
	}
	bad := func(field string, got, want interface{}) {
		if fmt.Sprint(got) != fmt.Sprint(want) {
			tw.fatalf("the receipt of transaction %d of block %d has %s %v, want %v", i, b.number, field, got, want)
		}
	}
	bad("hash", rx.Hash, m.hash)
	bad("index", uint64(rx.Index), uint64(i))
	bad("block hash", rx.BlockHash, b.hash)
	bad("block number", uint64(rx.BlockNumber), b.number)
	bad("gas used", uint64(rx.GasUsed), m.used)
	bad("cumulative gas", uint64(rx.Cumulative), m.cum)
	bad("threw", rx.Threw(), !m.ok)
	if m.tx.to == nil && m.ok {
		if rx.Address == nil || common.Address(*rx.Address) != m.created {
			tw.fatalf("the receipt of transaction %d of block %d names the contract %v, want %x", i, b.number, rx.Address, m.created[:])
		}
	}
	if m.tx.to != nil && rx.Address != nil {
		tw.fatalf("the receipt of transaction %d of block %d, a call, names a contract", i, b.number)
	}
	if len(rx.Logs) != len(m.logs) {
		tw.fatalf("the receipt of transaction %d of block %d has %d logs, want %d", i, b.number, len(rx.Logs), len(m.logs))
	}
	for j := range rx.Logs {
		if d := diffLog(&rx.Logs[j], m.logs[j]); d != "" {
			tw.fatalf("log %d of the receipt of transaction %d of block %d: %s", j, i, b.number, d)
		}
	}
}

// diffLog compares a log as served with the model's.
func diffLog(l *seth.Log, want *types.Log) string {
	var tp []string
	for _, t := range l.Topics {
		tp = append(tp, hexB(t))
	}
	var wt []string
	for _, t := range want.Topics {
		wt = append(wt, hexB(t[:]))
	}
	if l.BlockNumber == nil || l.LogIndex == nil || l.TxIndex == nil || l.TxHash == nil || l.BlockHash == nil {
		return "a field is missing"
	}
	got := fmt.Sprintf("%x %v %x block=%d/%x tx=%d/%x index=%d removed=%v", l.Address[:], tp, []byte(l.Data), *l.BlockNumber, l.BlockHash[:], *l.TxIndex, l.TxHash[:], *l.LogIndex, l.Removed)
	exp := fmt.Sprintf("%x %v %x block=%d/%x tx=%d/%x index=%d removed=%v", want.Address[:], wt, want.Data, want.BlockNumber, want.BlockHash[:], want.TxIndex, want.TxHash[:], want.Index, false)
	if got != exp {
		return got + ", want " + exp
	}
	return ""
}

// checkRecords compares all blocks, transactions and receipts.
func (tw *twin) checkRecords() {
	tw.checkBlock("pending", tw.chain.State.Pending, tw.pend, false)
	cl := tw.chain.Client()
	seen := map[seth.Hash]string{}
	for k, b := range append(append([]*mblock{}, tw.sealed...), tw.pend) {
		for _, full := range []bool{false, true} {
			var blk, byhash *seth.Block
			blk, err := cl.GetBlock(int64(b.number), full)
			if err != nil {
				tw.fatalf("GetBlock(%d, %v): %v", b.number, full, err)
			}
			tw.checkBlock("GetBlock", blk, b, full)
			if err := rpc(tw.chain, "eth_getBlockByHash", &byhash, b.hash, full); err != nil {
				tw.fatalf("eth_getBlockByHash(%x, %v): %v", b.hash[:], full, err)
			}
			tw.checkBlock("eth_getBlockByHash", byhash, b, full)
		}
		for i, m := range b.txs {
			where := fmt.Sprintf("%d of block %d", i, b.number)
			if o := seen[m.hash]; o != "" {
				tw.fatalf("transactions %s and %s have the same hash", o, where)
			}
			seen[m.hash] = where
			tx, err := cl.GetTransaction(&m.hash)
			if err != nil {
				tw.fatalf("GetTransaction of %s: %v", where, err)
			}
			tw.checkTx("GetTransaction", tx, b, i)
			if k < len(tw.sealed) {
				rx, err := cl.GetReceipt(&m.hash)
				if err != nil {
					tw.fatalf("GetReceipt of %s: %v", where, err)
				}
				tw.checkReceipt(rx, b, i)
			}
		}
	}
}

// checkTotal compares the sum of all balances.
func (tw *twin) checkTotal() {
	sum := new(big.Int)
	tw.chain.State.Accounts.Iterate(func(k, v []byte) bool {
		var acct tevm.Account
		copy(acct[:], v)
		bal := acct.Balance()
		sum.Add(sum, bal.Big())
		return true
	})
	if want := tw.ref.total(); sum.Cmp(want) != 0 {
		tw.fatalf("all balances together are %v, want %v", sum, want)
	}
}

// checkViews compares the views of all sealed blocks, and that there are no
// others.
func (tw *twin) checkViews() {
	for i, b := range tw.sealed {
		cc := tw.chain.AtBlock(int64(b.number))
		if cc == nil {
			tw.fatalf("no view of block %d", b.number)
		}
		v := tw.view(cc, i)
		v.trace = append(v.trace, fmt.Sprintf("view of %d", b.number))
		v.checkView()
	}
	if cc := tw.chain.AtBlock(-1); cc != tw.chain {
		tw.check()
	}
	for _, n := range []int64{0, 99, int64(tw.pend.number) + 1} {
		sealed := false
		for _, b := range tw.sealed {
			sealed = sealed || n == int64(b.number)
		}
		if !sealed && tw.chain.AtBlock(n) != nil {
			tw.fatalf("there is a view of block %d, which was never sealed", n)
		}
	}
	if n := len(tw.sealed); n > 0 && tw.sealed[n-1].number == tw.pend.number-1 {
		v := tw.view(tw.chain.AtBlock(-2), n-1)
		v.trace = append(v.trace, "view of the latest block")
		v.checkView()
	}
}

// checkView is check, and that the view has the block and its transactions
// but none of later ones.
func (tw *twin) checkView() {
	tw.check()
	tw.checkBlock("view", tw.chain.State.Pending, tw.pend, false)
	cl := tw.chain.Client()
	for i, m := range tw.pend.txs {
		tx, err := cl.GetTransaction(&m.hash)
		if err != nil {
			tw.fatalf("GetTransaction: %v", err)
		}
		tw.checkTx("GetTransaction", tx, tw.pend, i)
		rx, err := cl.GetReceipt(&m.hash)
		if err != nil {
			tw.fatalf("GetReceipt: %v", err)
		}
		tw.checkReceipt(rx, tw.pend, i)
	}
}
