package tevmp

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/vm"
	"github.com/philhofer/seth"
	"github.com/philhofer/seth/tevm"
	"pgregory.net/rapid"

	"verif/harness/vk"
)

// Long histories: hundreds of blocks and thousands of transactions, with
// everything about each block written down, so that whatever counts, indexes
// or caches by block, transaction or snapshot has room to run over.

// recorder is a contract that stores, and logs, the word it is called with.
var recorder = new(asm).pushn(32).op(vm.CALLDATALOAD).pushn(0).op(vm.CALLDATALOAD, vm.SSTORE).
	pushn(32).op(vm.CALLDATALOAD).pushn(0).op(vm.MSTORE).
	pushn(0).op(vm.CALLDATALOAD).pushn(32).pushn(0).op(vm.LOG1, vm.STOP).b

// ancestor is a contract that returns the hash of the block it is asked for.
var ancestor = new(asm).pushn(0).op(vm.CALLDATALOAD, vm.BLOCKHASH).pushn(0).op(vm.MSTORE).pushn(32).pushn(0).op(vm.RETURN).b

const longSlots = 5

type longTx struct {
	hash     seth.Hash
	block    uint64
	index    int
	from, to seth.Address
	nonce    uint64
	ok       bool
	slot     int // of the recorder, or -1
	val      common.Hash
}

type longLog struct {
	block uint64
	tx    int // index in txs
	index int // in the block
	slot  int
	val   common.Hash
}

type longBlock struct {
	num    uint64
	hash   seth.Hash
	parent seth.Hash
	bal    []*big.Int
	nonce  []uint64
	store  [longSlots]common.Hash
	txs    int // of all, up to this block
	logs   int
}

type long struct {
	c      *vk.C
	chain  *tevm.Chain
	addrs  []seth.Address
	rec    seth.Address
	cur    longBlock // the pending block
	inlogs int       // logs in the pending block
	blocks []longBlock
	txs    []longTx
	logs   []longLog
	rnd    uint64
	cum    map[int]uint64 // gas used in its block up to a transaction
	onSeal func()
}

func (l *long) next(n int) int {
	l.rnd = l.rnd*6364136223846793005 + 1442695040888963407
	return int(l.rnd>>33) % n
}

func newLong(c *vk.C) *long {
	l := &long{c: c, cum: map[int]uint64{}, chain: tevm.NewChain(), rec: seth.Address{0: 0xcc, 19: 9}}
	l.rnd = uint64(rapid.Uint32().Draw(c.T, "seed"))
	for i := 0; i < 5; i++ {
		a := l.chain.NewAccount(10 + i)
		l.addrs = append(l.addrs, a)
		l.cur.bal = append(l.cur.bal, new(big.Int).Mul(big.NewInt(int64(10+i)), big.NewInt(1e18)))
		l.cur.nonce = append(l.cur.nonce, 0)
	}
	db := l.chain.State.StateDB()
	db.CreateAccount(common.Address(l.rec))
	db.SetCode(common.Address(l.rec), recorder)
	l.cur.num = uint64(*l.chain.State.Pending.Number)
	l.cur.hash = *l.chain.State.Pending.Hash
	l.cur.parent = l.chain.State.Pending.Parent
	return l
}

// tx mines a transaction, of one kind or another.
func (l *long) tx() {
	f, t := l.next(len(l.addrs)), l.next(len(l.addrs))
	index := len(l.txs)
	if n := len(l.blocks); n > 0 {
		index -= l.blocks[n-1].txs
	}
	r := longTx{block: l.cur.num, index: index, from: l.addrs[f], to: l.addrs[t], nonce: l.cur.nonce[f], slot: -1, ok: true}
	tx := &seth.Transaction{From: &r.from, To: &r.to, Gas: 200000}
	if l.next(3) == 0 {
		r.to = l.rec
		r.slot = l.next(longSlots)
		if l.next(6) > 0 {
			r.val = common.BigToHash(big.NewInt(int64(l.next(1 << 30))))
		}
		tx.Input = append(common.LeftPadBytes([]byte{byte(r.slot)}, 32), r.val[:]...)
	} else {
		v := new(big.Int).Mul(big.NewInt(int64(l.next(1<<30))), big.NewInt(1e9))
		if l.next(9) == 0 {
			v.Lsh(v, 40)
		}
		tx.Value = seth.Int(*new(big.Int).Set(v))
		if r.ok = l.cur.bal[f].Cmp(v) >= 0; r.ok {
			l.cur.bal[f] = new(big.Int).Sub(l.cur.bal[f], v)
			l.cur.bal[t] = new(big.Int).Add(l.cur.bal[t], v)
		}
	}
	_, h, err := l.chain.Mine(tx)
	if (err == nil) != r.ok {
		l.c.Fatalf("transaction %d of block %d: %v", index, l.cur.num, err)
	}
	r.hash = h
	l.cur.nonce[f]++
	if r.slot >= 0 {
		l.cur.store[r.slot] = r.val
		l.logs = append(l.logs, longLog{l.cur.num, len(l.txs), l.inlogs, r.slot, r.val})
		l.inlogs++
	}
	l.txs = append(l.txs, r)
}

func (l *long) seal() {
	b := l.cur
	b.bal = append([]*big.Int{}, b.bal...)
	b.nonce = append([]uint64{}, b.nonce...)
	b.txs, b.logs = len(l.txs), len(l.logs)
	l.blocks = append(l.blocks, b)
	l.chain.Seal()
	l.inlogs = 0
	p := l.chain.State.Pending
	if uint64(*p.Number) != b.num+1 || p.Parent != b.hash {
		l.c.Fatalf("block %d is followed by block %d, whose parent is %x, not %x", b.num, *p.Number, p.Parent[:], b.hash[:])
	}
	l.cur.num, l.cur.hash, l.cur.parent = b.num+1, *p.Hash, p.Parent
	if l.onSeal != nil {
		l.onSeal()
	}
}

// run makes a history: mostly short blocks, and some long ones.
func (l *long) run(blocks, longest int) {
	full := l.next(blocks)
	for i := 0; i < blocks; i++ {
		n := l.next(4)
		if i == full {
			n = longest
		}
		for ; n > 0; n-- {
			l.tx()
		}
		l.seal()
	}
	l.tx()
}

// state compares what a node says about the state at a block.
func (l *long) state(cl *seth.Client, what string, num int64, b *longBlock) {
	for i := range l.addrs {
		bal, err := cl.GetBalanceAt(&l.addrs[i], num)
		if err != nil || bal.Big().Cmp(b.bal[i]) != 0 {
			l.c.Fatalf("%s, of %d blocks and %d transactions: at block %d, account %d has a balance of %v (%v), want %v", what, len(l.blocks), len(l.txs), num, i, bal.Big(), err, b.bal[i])
		}
		n, err := cl.GetNonceAt(&l.addrs[i], num)
		if err != nil || uint64(n) != b.nonce[i] {
			l.c.Fatalf("%s, of %d blocks and %d transactions: at block %d, account %d has the nonce %d (%v), want %d", what, len(l.blocks), len(l.txs), num, i, n, err, b.nonce[i])
		}
	}
	for i, want := range b.store {
		k := seth.Hash{31: byte(i)}
		v, err := cl.StorageAt(&l.rec, &k, num)
		if err != nil || common.Hash(v) != want {
			l.c.Fatalf("%s, of %d blocks and %d transactions: at block %d, slot %d is %x (%v), want %x", what, len(l.blocks), len(l.txs), num, i, v[:], err, want[:])
		}
	}
	if code, err := cl.GetCodeAt(&l.rec, num); err != nil || !bytes.Equal(code, recorder) {
		l.c.Fatalf("%s, of %d blocks and %d transactions: at block %d, the code is %x (%v)", what, len(l.blocks), len(l.txs), num, code, err)
	}
}

func (l *long) sameLog(what string, got *seth.Log, w *longLog) {
	t := &l.txs[w.tx]
	bad := ""
	switch {
	case got.Address != l.rec:
		bad = "address"
	case got.BlockNumber == nil || uint64(*got.BlockNumber) != w.block:
		bad = "block number"
	case got.TxHash == nil || *got.TxHash != t.hash:
		bad = "transaction hash"
	case got.TxIndex == nil || int(*got.TxIndex) != t.index:
		bad = "transaction index"
	case got.LogIndex == nil || int(*got.LogIndex) != w.index:
		bad = "index"
	case len(got.Topics) != 1 || !bytes.Equal(got.Topics[0], common.LeftPadBytes([]byte{byte(w.slot)}, 32)):
		bad = "topics"
	case !bytes.Equal(got.Data, w.val[:]):
		bad = "data"
	}
	if bad != "" {
		l.c.Fatalf("%s: the %s of log %d of block %d, of transaction %d, is wrong: %+v", what, bad, w.index, w.block, t.index, *got)
	}
}

// record compares what a node says about a transaction.
func (l *long) record(cl *seth.Client, i int) {
	r := &l.txs[i]
	sealed := r.block < l.cur.num
	tx, err := cl.GetTransaction(&r.hash)
	if err != nil {
		l.c.Fatalf("transaction %d of block %d: %v", r.index, r.block, err)
	}
	if tx.Hash != r.hash || uint64(tx.BlockNumber) != r.block || tx.TxIndex == nil || int(*tx.TxIndex) != r.index || uint64(tx.Nonce) != r.nonce || *tx.From != r.from || *tx.To != r.to {
		l.c.Fatalf("transaction %d of block %d, with nonce %d, is reported as %+v", r.index, r.block, r.nonce, tx)
	}
	rx, err := cl.GetReceipt(&r.hash)
	if !sealed {
		if err != seth.ErrNotFound {
			l.c.Fatalf("there is a receipt of a pending transaction: %v, %v", rx, err)
		}
		return
	}
	if err != nil {
		l.c.Fatalf("the receipt of transaction %d of block %d: %v", r.index, r.block, err)
	}
	if rx.Hash != r.hash || uint64(rx.BlockNumber) != r.block || int(rx.Index) != r.index || rx.Threw() == r.ok || rx.BlockHash != tx.Block {
		l.c.Fatalf("the receipt of transaction %d of block %d, ok=%v, is %+v", r.index, r.block, r.ok, rx)
	}
	want := 0
	if r.slot >= 0 {
		want = 1
	}
	if prev, known := l.cum[i-1]; known || r.index == 0 {
		if r.index == 0 {
			prev = 0
		}
		l.cum[i] = prev + uint64(rx.GasUsed)
		if uint64(rx.Cumulative) != l.cum[i] {
			l.c.Fatalf("transaction %d of block %d used %d of gas, after %d, and %d in all", r.index, r.block, rx.GasUsed, prev, rx.Cumulative)
		}
	}
	if len(rx.Logs) != want {
		l.c.Fatalf("the receipt of transaction %d of block %d has %d logs, want %d", r.index, r.block, len(rx.Logs), want)
	}
}

// block compares what a node says about a sealed block.
func (l *long) block(cl *seth.Client, i int) {
	b := &l.blocks[i]
	got, err := cl.GetBlock(int64(b.num), false)
	if err != nil {
		l.c.Fatalf("block %d: %v", b.num, err)
	}
	if uint64(*got.Number) != b.num || *got.Hash != b.hash || got.Parent != b.parent {
		l.c.Fatalf("block %d is reported as %+v", b.num, got)
	}
	first := 0
	if i > 0 {
		first = l.blocks[i-1].txs
	}
	if len(got.Transactions) != b.txs-first {
		l.c.Fatalf("block %d has %d transactions, want %d", b.num, len(got.Transactions), b.txs-first)
	}
	for k, raw := range got.Transactions {
		var h seth.Hash
		if json.Unmarshal(raw, &h) != nil || h != l.txs[first+k].hash {
			l.c.Fatalf("transaction %d of block %d is %s, want %x", k, b.num, raw, l.txs[first+k].hash[:])
		}
	}
}

// unique checks that no two transactions, and no two blocks, share a hash.
func (l *long) unique() {
	seen := map[seth.Hash]int{}
	for i := range l.txs {
		if j, ok := seen[l.txs[i].hash]; ok {
			a, b := &l.txs[j], &l.txs[i]
			l.c.Fatalf("transaction %d of block %d and transaction %d of block %d have the same hash", a.index, a.block, b.index, b.block)
		}
		seen[l.txs[i].hash] = i
	}
	blocks := map[seth.Hash]uint64{}
	for i := range l.blocks {
		if n, ok := blocks[l.blocks[i].hash]; ok {
			l.c.Fatalf("blocks %d and %d have the same hash", n, l.blocks[i].num)
		}
		blocks[l.blocks[i].hash] = l.blocks[i].num
	}
}

func (l *long) done() {
	l.c.NonTrivial(l.rnd, len(l.blocks), len(l.txs))
	l.c.Sample("%d transactions in %d blocks, %d logs", len(l.txs), len(l.blocks), len(l.logs))
}

func longSize(c *vk.C) (int, int) {
	return rapid.IntRange(300, 700).Draw(c.T, "blocks"), rapid.IntRange(260, 600).Draw(c.T, "longest")
}

// longViews: the views of old blocks, and copies (C27).
func longViews(c *vk.C) {
	l := newLong(c)
	l.run(longSize(c))
	for i := range l.blocks {
		if i > 20 && i < len(l.blocks)-20 && l.next(4) > 0 {
			continue
		}
		b := &l.blocks[i]
		v := l.chain.AtBlock(int64(b.num))
		if v == nil {
			c.Fatalf("there is no view of block %d, of %d to %d", b.num, l.blocks[0].num, l.cur.num)
		}
		// what is done on the view stays there
		v.AddBalance(&l.addrs[0], big.NewInt(1))
		v.SubBalance(&l.addrs[0], big.NewInt(1))
		l.state(v.Client(), "the view", seth.Pending, b)
		v.AddBalance(&l.addrs[0], big.NewInt(1))
	}
	l.state(l.chain.Client(), "the chain", seth.Pending, &l.cur)
	cp := l.chain.Copy()
	old := *l
	cur := l.cur
	cur.bal = append([]*big.Int{}, cur.bal...)
	cur.nonce = append([]uint64{}, cur.nonce...)
	l.run(10, 20)
	l.chain = cp
	l.state(cp.Client(), "the copy", seth.Pending, &cur)
	for i := 0; i < len(old.blocks); i += 7 {
		l.state(cp.Client(), "the copy", int64(old.blocks[i].num), &old.blocks[i])
	}
	l.done()
}

// longRecords: transactions, receipts and blocks (C28).
func longRecords(c *vk.C) {
	l := newLong(c)
	l.run(longSize(c))
	l.unique()
	cl := l.chain.Client()
	for i := range l.txs {
		l.record(cl, i)
	}
	for i := range l.blocks {
		l.block(cl, i)
	}
	l.done()
}

// longBlockOfMany: more transactions in one block than fit 16 bits (C28).
func longBlockOfMany(c *vk.C) {
	l := newLong(c)
	n := 1<<16 + rapid.IntRange(1, 500).Draw(c.T, "more")
	for i := 1 + l.next(3); i > 0; i-- {
		for k := l.next(20); k > 0; k-- {
			l.tx()
		}
		l.seal()
	}
	for i := 0; i < n; i++ {
		l.tx()
	}
	l.unique()
	l.seal()
	l.seal()
	cl := l.chain.Client()
	for i := range l.txs {
		l.record(cl, i)
	}
	for i := range l.blocks {
		l.block(cl, i)
		l.state(cl, "the chain", int64(l.blocks[i].num), &l.blocks[i])
	}
	l.state(cl, "the chain", seth.Latest, &l.blocks[len(l.blocks)-1])
	l.done()
}

// longSaved: a long chain, saved and loaded (C30).
func longSaved(c *vk.C) {
	l := newLong(c)
	l.run(rapid.IntRange(260, 350).Draw(c.T, "blocks"), rapid.IntRange(260, 300).Draw(c.T, "longest"))
	js, err := json.Marshal(l.chain)
	if err != nil {
		c.Fatalf("saving: %v", err)
	}
	l.chain = tevm.NewChain()
	if err := json.Unmarshal(js, l.chain); err != nil {
		c.Fatalf("loading: %v", err)
	}
	l.run(5, 20)
	l.unique()
	cl := l.chain.Client()
	for i := range l.txs {
		l.record(cl, i)
	}
	for i := range l.blocks {
		l.block(cl, i)
		if i%5 == 0 {
			l.state(cl, "the loaded chain", int64(l.blocks[i].num), &l.blocks[i])
		}
	}
	l.state(cl, "the loaded chain", seth.Pending, &l.cur)
	l.done()
}

// longServed: what the server says of old blocks (C31).
func longServed(c *vk.C) {
	l := newLong(c)
	l.run(longSize(c))
	cl := seth.NewClientTransport(httpTransport{l.chain})
	for i := range l.blocks {
		b := &l.blocks[i]
		if i > 10 && i < len(l.blocks)-10 && l.next(6) > 0 {
			continue
		}
		l.state(cl, "the server", int64(b.num), b)
		l.block(cl, i)
	}
	l.state(cl, "the server", seth.Latest, &l.blocks[len(l.blocks)-1])
	l.state(cl, "the server", seth.Pending, &l.cur)
	for i := 0; i < len(l.txs); i += 1 + l.next(10) {
		l.record(cl, i)
	}
	n, err := cl.BlockNumber()
	if err != nil || uint64(n) != l.cur.num {
		c.Fatalf("the block number is %d (%v), want %d", n, err, l.cur.num)
	}
	l.done()
}

// longAncestors: BLOCKHASH of each of the 256 blocks before (C26).
func longAncestors(c *vk.C) {
	l := newLong(c)
	a := seth.Address{0: 0xcc, 19: 8}
	db := l.chain.State.StateDB()
	db.CreateAccount(common.Address(a))
	db.SetCode(common.Address(a), ancestor)
	l.run(rapid.IntRange(200, 600).Draw(c.T, "blocks"), 5)
	ask := func(n uint64) common.Hash {
		word := common.BigToHash(new(big.Int).SetUint64(n))
		ret, _, err := l.chain.Mine(&seth.Transaction{From: &l.addrs[0], To: &a, Gas: 100000, Input: word[:]})
		if err != nil || len(ret) != 32 {
			c.Fatalf("asking for the hash of block %d at block %d: %x, %v", n, l.cur.num, ret, err)
		}
		return common.BytesToHash(ret)
	}
	for i := range l.blocks {
		b := &l.blocks[i]
		want := common.Hash(b.hash)
		if b.num+256 < l.cur.num {
			want = common.Hash{}
		}
		if got := ask(b.num); got != want {
			c.Fatalf("at block %d, BLOCKHASH of %d is %x, want %x", l.cur.num, b.num, got[:], want[:])
		}
	}
	for _, n := range []uint64{l.cur.num, l.cur.num + 1, l.cur.num + 1<<40, 1 << 63} {
		if got := ask(n); got != (common.Hash{}) {
			c.Fatalf("at block %d, BLOCKHASH of %d is %x", l.cur.num, n, got[:])
		}
	}
	l.done()
}

// longDestroyed: a contract that is destroyed and made again, many times (C26).
func longDestroyed(c *vk.C) {
	chain := tevm.NewChain()
	from := chain.NewAccount(1)
	at := seth.Address{0: 0xcc, 19: byte(rapid.IntRange(0, 255).Draw(c.T, "at"))}
	// without data it destroys itself; otherwise it returns what is stored
	// in the slot, the first word, before storing the second
	code := new(asm).op(vm.CALLDATASIZE)
	code.b = append(code.b, byte(vm.PUSH1), 0, byte(vm.JUMPI), byte(vm.CALLER), byte(vm.SELFDESTRUCT))
	code.b[2] = byte(len(code.b))
	code.op(vm.JUMPDEST).pushn(0).op(vm.CALLDATALOAD, vm.SLOAD).pushn(0).op(vm.MSTORE)
	code.pushn(32).op(vm.CALLDATALOAD).pushn(0).op(vm.CALLDATALOAD, vm.SSTORE).pushn(32).pushn(0).op(vm.RETURN)
	init := new(asm).pushn(len(code.b)).pushn(12).pushn(0).op(vm.CODECOPY).pushn(len(code.b)).pushn(0).op(vm.RETURN)
	for len(init.b) < 12 {
		init.op(vm.STOP)
	}
	init.b = append(init.b, code.b...)
	times := rapid.IntRange(2, 600).Draw(c.T, "times")
	slots := rapid.IntRange(1, 4).Draw(c.T, "slots")
	seed := rapid.Uint32().Draw(c.T, "seed")
	next := func(n int) int {
		seed = seed*1664525 + 1013904223
		return int(seed>>8) % n
	}
	for i := 0; i < times; i++ {
		if err := chain.CreateAt(&at, &from, init.b); err != nil {
			c.Fatalf("making it for the %dth time: %v", i+1, err)
		}
		store := map[int]common.Hash{}
		for k := 1 + next(3); k > 0; k-- {
			slot, val := next(slots), common.BigToHash(big.NewInt(int64(1+next(1000))))
			in := append(common.LeftPadBytes([]byte{byte(slot)}, 32), val[:]...)
			ret, _, err := chain.Mine(&seth.Transaction{From: &from, To: &at, Gas: 200000, Input: in})
			if err != nil {
				c.Fatalf("using it, made for the %dth time: %v", i+1, err)
			}
			if want := store[slot]; !bytes.Equal(ret, want[:]) {
				c.Fatalf("made for the %dth time, it has %x in slot %d, want %x", i+1, ret, slot, want[:])
			}
			store[slot] = val
		}
		if next(9) == 0 {
			chain.Seal()
		}
		if _, _, err := chain.Mine(&seth.Transaction{From: &from, To: &at, Gas: 200000}); err != nil {
			c.Fatalf("destroying it for the %dth time: %v", i+1, err)
		}
		if code, err := chain.Client().GetCodeAt(&at, seth.Pending); err != nil || len(code) != 0 {
			c.Fatalf("destroyed for the %dth time, it has the code %x (%v)", i+1, code, err)
		}
	}
	c.NonTrivial(times, slots, seed)
	c.Sample("destroyed %d times", times)
}

// longLogs: queries and filters over many logs (C32).
func longLogs(c *vk.C) {
	l := newLong(c)
	rpc := func(method string, out interface{}, params ...interface{}) {
		if err := rpc(l.chain, method, out, params...); err != nil {
			c.Fatalf("%s%v: %v", method, params, err)
		}
	}
	type watch struct {
		id   seth.Int
		slot int // or any
		from uint64
		pos  int // in logs
		skip int
	}
	var ws []*watch
	poll := func(w *watch) {
		var got []seth.Log
		rpc("eth_getFilterChanges", &got, &w.id)
		k := 0
		for ; w.pos < len(l.logs); w.pos++ {
			x := &l.logs[w.pos]
			if x.block >= l.cur.num {
				break
			}
			if x.block < w.from || (w.slot >= 0 && x.slot != w.slot) {
				continue
			}
			if k >= len(got) {
				c.Fatalf("filter %v for slot %d, polled at block %d, misses log %d of block %d", w.id.Big(), w.slot, l.cur.num, x.index, x.block)
			}
			l.sameLog(fmt.Sprintf("filter %v for slot %d, polled at block %d", w.id.Big(), w.slot, l.cur.num), &got[k], x)
			k++
		}
		if k != len(got) {
			c.Fatalf("filter %v for slot %d, polled at block %d, reports %d logs too many", w.id.Big(), w.slot, l.cur.num, len(got)-k)
		}
	}
	query := func(from, to uint64, slot int) map[string]interface{} {
		q := map[string]interface{}{"fromBlock": hexU(from)}
		if to > 0 {
			q["toBlock"] = hexU(to)
		}
		if slot >= 0 {
			q["topics"] = []interface{}{hexB(common.LeftPadBytes([]byte{byte(slot)}, 32))}
		}
		return q
	}
	filters := rapid.IntRange(20, 300).Draw(c.T, "filters")
	l.onSeal = func() {
		if len(ws) < filters && l.next(2) == 0 {
			// what was sealed before is not a change
			w := &watch{slot: l.next(longSlots+1) - 1, from: l.cur.num - uint64(l.next(3)), pos: len(l.logs)}
			rpc("eth_newFilter", &w.id, query(w.from, 0, w.slot))
			for _, x := range ws {
				if x.id.Big().Cmp(w.id.Big()) == 0 {
					c.Fatalf("filter %d has the number of another, %v", len(ws), w.id.Big())
				}
			}
			ws = append(ws, w)
		}
		for _, w := range ws {
			if w.skip--; w.skip <= 0 {
				poll(w)
				w.skip = l.next(200)
			}
		}
	}
	l.run(longSize(c))
	for _, w := range ws {
		poll(w)
	}
	first := l.blocks[0].num
	for i := 0; i < 40; i++ {
		from := first + uint64(l.next(len(l.blocks)))
		to := from + uint64(l.next(len(l.blocks)))
		if i == 0 || to >= l.cur.num {
			from, to = from-uint64(l.next(int(from-first)+1)), l.cur.num-1
			if i == 0 {
				from = first
			}
		}
		slot := l.next(longSlots+1) - 1
		var got []seth.Log
		var id seth.Int
		rpc("eth_newFilter", &id, query(from, to, slot))
		rpc("eth_getFilterLogs", &got, &id)
		var ok bool
		rpc("eth_uninstallFilter", &ok, &id)
		k := 0
		for j := range l.logs {
			x := &l.logs[j]
			if x.block < from || x.block > to || (slot >= 0 && x.slot != slot) {
				continue
			}
			if k >= len(got) {
				c.Fatalf("a query of blocks %d to %d, slot %d, at block %d, misses log %d of block %d", from, to, slot, l.cur.num, x.index, x.block)
			}
			l.sameLog(fmt.Sprintf("a query of blocks %d to %d, slot %d, at block %d", from, to, slot, l.cur.num), &got[k], x)
			k++
		}
		if k != len(got) {
			c.Fatalf("a query of blocks %d to %d, slot %d, at block %d, gives %d logs, want %d", from, to, slot, l.cur.num, len(got), k)
		}
	}
	l.done()
}
