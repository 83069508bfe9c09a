package tevmp

import (
	"fmt"
	"math/big"
	"sort"
	"strings"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/core/vm"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/params"
)

// refState is the reference: Ethereum state as plain maps that are copied
// whole for every snapshot. It follows the rules of go-ethereum 1.9.2's
// core/state (which itself cannot be built here: its database modules are not
// in the module cache).
type refState struct {
	acct   map[common.Address]*refAcct
	refund uint64
	logs   []*types.Log
	snaps  []*refState
	// touched collects every address that was ever looked at
	touched map[common.Address]bool
	stats   *refStats
	gone    map[common.Address]bool // destroyed accounts
}

// refStats says what the programs got to do.
type refStats struct{ calls, reverts, suicides, creates, logs, reborn int }

type refAcct struct {
	bal      *big.Int
	nonce    uint64
	code     []byte
	store    map[common.Hash]common.Hash
	suicided bool
}

func newRef() *refState {
	return &refState{acct: map[common.Address]*refAcct{}, touched: map[common.Address]bool{}, stats: new(refStats), gone: map[common.Address]bool{}}
}

func (a *refAcct) copy() *refAcct {
	n := &refAcct{bal: new(big.Int).Set(a.bal), nonce: a.nonce, code: a.code, suicided: a.suicided, store: map[common.Hash]common.Hash{}}
	for k, v := range a.store {
		n.store[k] = v
	}
	return n
}

func (a *refAcct) empty() bool { return a.bal.Sign() == 0 && a.nonce == 0 && len(a.code) == 0 }

// clone copies everything but the snapshots.
func (s *refState) clone() *refState {
	n := &refState{acct: map[common.Address]*refAcct{}, refund: s.refund, touched: s.touched, stats: s.stats, gone: s.gone}
	for a, v := range s.acct {
		n.acct[a] = v.copy()
	}
	for _, l := range s.logs {
		ll := *l
		n.logs = append(n.logs, &ll)
	}
	return n
}

// fork is clone for a state that lives on.
func (s *refState) fork() *refState {
	n := s.clone()
	n.touched = map[common.Address]bool{}
	for a := range s.touched {
		n.touched[a] = true
	}
	return n
}

func (s *refState) get(a common.Address) *refAcct { s.touched[a] = true; return s.acct[a] }

func (s *refState) need(a common.Address) *refAcct {
	s.touched[a] = true
	v := s.acct[a]
	if v == nil {
		v = &refAcct{bal: new(big.Int), store: map[common.Hash]common.Hash{}}
		s.acct[a] = v
	}
	return v
}

func (s *refState) CreateAccount(a common.Address) {
	s.stats.creates++
	if s.gone[a] {
		s.stats.reborn++
	}
	old := s.get(a)
	delete(s.acct, a)
	n := s.need(a)
	if old != nil {
		n.bal.Set(old.bal)
	}
}
func (s *refState) SubBalance(a common.Address, v *big.Int) {
	x := s.need(a)
	x.bal = new(big.Int).Sub(x.bal, v)
}
func (s *refState) AddBalance(a common.Address, v *big.Int) {
	x := s.need(a)
	x.bal = new(big.Int).Add(x.bal, v)
}
func (s *refState) GetBalance(a common.Address) *big.Int {
	if x := s.get(a); x != nil {
		return new(big.Int).Set(x.bal)
	}
	return new(big.Int)
}
func (s *refState) GetNonce(a common.Address) uint64 {
	if x := s.get(a); x != nil {
		return x.nonce
	}
	return 0
}
func (s *refState) SetNonce(a common.Address, n uint64) { s.need(a).nonce = n }
func (s *refState) GetCodeHash(a common.Address) common.Hash {
	x := s.get(a)
	if x == nil {
		return common.Hash{}
	}
	return crypto.Keccak256Hash(x.code)
}
func (s *refState) GetCode(a common.Address) []byte {
	if x := s.get(a); x != nil {
		return x.code
	}
	return nil
}
func (s *refState) SetCode(a common.Address, code []byte) {
	s.need(a).code = append([]byte{}, code...)
}
func (s *refState) GetCodeSize(a common.Address) int { return len(s.GetCode(a)) }
func (s *refState) AddRefund(v uint64)               { s.refund += v }
func (s *refState) SubRefund(v uint64) {
	if v > s.refund {
		panic("HARNESS-ERROR: refund below zero")
	}
	s.refund -= v
}
func (s *refState) GetRefund() uint64 { return s.refund }
func (s *refState) GetCommittedState(common.Address, common.Hash) common.Hash {
	panic("HARNESS-ERROR: GetCommittedState")
}
func (s *refState) GetState(a common.Address, k common.Hash) common.Hash {
	if x := s.get(a); x != nil {
		return x.store[k]
	}
	return common.Hash{}
}
func (s *refState) SetState(a common.Address, k, v common.Hash) {
	x := s.need(a)
	if v == (common.Hash{}) {
		delete(x.store, k)
	} else {
		x.store[k] = v
	}
}
func (s *refState) Suicide(a common.Address) bool {
	x := s.get(a)
	if x == nil {
		return false
	}
	s.stats.suicides++
	x.suicided = true
	x.bal = new(big.Int)
	return true
}
func (s *refState) HasSuicided(a common.Address) bool {
	x := s.get(a)
	return x != nil && x.suicided
}
func (s *refState) Exist(a common.Address) bool { return s.get(a) != nil }
func (s *refState) Empty(a common.Address) bool {
	x := s.get(a)
	return x == nil || x.empty()
}
func (s *refState) RevertToSnapshot(n int) {
	s.stats.reverts++
	old := s.snaps[n]
	s.snaps = s.snaps[:n]
	s.acct, s.refund, s.logs = old.acct, old.refund, old.logs
}
func (s *refState) Snapshot() int {
	s.stats.calls++
	s.snaps = append(s.snaps, s.clone())
	return len(s.snaps) - 1
}
func (s *refState) AddLog(l *types.Log) {
	s.stats.logs++
	ll := *l
	s.logs = append(s.logs, &ll)
}
func (s *refState) AddPreimage(common.Hash, []byte) {}
func (s *refState) ForEachStorage(common.Address, func(a, b common.Hash) bool) error {
	panic("HARNESS-ERROR: ForEachStorage")
}

// finalise ends a transaction: what committed suicide and what is empty goes.
func (s *refState) finalise() {
	for a, x := range s.acct {
		if x.suicided {
			s.gone[a] = true
		}
		if x.suicided || x.empty() {
			delete(s.acct, a)
		}
	}
	s.refund = 0
	s.snaps = nil
}

func (s *refState) total() *big.Int {
	t := new(big.Int)
	for _, x := range s.acct {
		t.Add(t, x.bal)
	}
	return t
}

// refEnv is the block a reference transaction runs in.
type refEnv struct {
	number, time, limit uint64
	difficulty          *big.Int
	miner               common.Address
	hashes              map[uint64]common.Hash // of the sealed blocks
	unspecified         bool                   // BLOCKHASH of a block from before the chain was asked for
}

var refParams = params.ChainConfig{
	ChainID:             big.NewInt(5),
	HomesteadBlock:      new(big.Int),
	EIP150Block:         new(big.Int),
	EIP155Block:         new(big.Int),
	EIP158Block:         new(big.Int),
	ByzantiumBlock:      new(big.Int),
	ConstantinopleBlock: new(big.Int),
	PetersburgBlock:     new(big.Int),
	IstanbulBlock:       new(big.Int),
}

type refTx struct {
	from  common.Address
	to    *common.Address
	data  []byte
	value *big.Int
	price *big.Int
	gas   uint64
	// bump: a mined transaction takes a nonce of its sender
	bump bool
}

type refResult struct {
	ret  []byte
	addr common.Address
	left uint64
	err  error
}

// run executes a transaction on the reference state.
func (s *refState) run(env *refEnv, tx *refTx) refResult {
	ctx := vm.Context{
		CanTransfer: func(db vm.StateDB, a common.Address, v *big.Int) bool { return db.GetBalance(a).Cmp(v) >= 0 },
		Transfer: func(db vm.StateDB, from, to common.Address, v *big.Int) {
			db.SubBalance(from, v)
			db.AddBalance(to, v)
		},
		GetHash: func(n uint64) common.Hash {
			h, ok := env.hashes[n]
			if !ok {
				env.unspecified = true
			}
			return h
		},
		Origin:      tx.from,
		Coinbase:    env.miner,
		GasLimit:    env.limit,
		BlockNumber: new(big.Int).SetUint64(env.number),
		Time:        new(big.Int).SetUint64(env.time),
		Difficulty:  new(big.Int).Set(env.difficulty),
		GasPrice:    new(big.Int).Set(tx.price),
	}
	e := vm.NewEVM(ctx, s, &refParams, vm.Config{})
	nonce := s.GetNonce(tx.from)
	var r refResult
	if tx.to == nil {
		r.ret, r.addr, r.left, r.err = e.Create(vm.AccountRef(tx.from), tx.data, tx.gas, new(big.Int).Set(tx.value))
	} else {
		if tx.bump {
			s.SetNonce(tx.from, nonce+1)
		}
		r.ret, r.left, r.err = e.Call(vm.AccountRef(tx.from), *tx.to, tx.data, tx.gas, new(big.Int).Set(tx.value))
	}
	if tx.bump && s.GetNonce(tx.from) == nonce {
		s.SetNonce(tx.from, nonce+1)
	}
	s.finalise()
	return r
}

// describe lists every account the reference has.
func (s *refState) describe() []string {
	var out []string
	for a, x := range s.acct {
		if x.empty() {
			continue
		}
		out = append(out, describeAcct(a, x.bal, x.nonce, x.code, x.store))
	}
	sort.Strings(out)
	return out
}

func describeAcct(a common.Address, bal *big.Int, nonce uint64, code []byte, store map[common.Hash]common.Hash) string {
	var st []string
	for k, v := range store {
		st = append(st, fmt.Sprintf("%x=%x", trim(k[:]), trim(v[:])))
	}
	sort.Strings(st)
	return fmt.Sprintf("%x bal=%v nonce=%d code=%x store={%s}", a[:], bal, nonce, code, strings.Join(st, " "))
}

func trim(b []byte) []byte {
	for len(b) > 1 && b[0] == 0 {
		b = b[1:]
	}
	return b
}

func describeLog(l *types.Log) string {
	var tp []string
	for _, t := range l.Topics {
		tp = append(tp, fmt.Sprintf("%x", trim(t[:])))
	}
	return fmt.Sprintf("%x block=%d [%s] %x", l.Address[:], l.BlockNumber, strings.Join(tp, " "), l.Data)
}

// slots lists the storage slots the reference knows of an address.
func (s *refState) slots(a common.Address) []common.Hash {
	var out []common.Hash
	if x := s.acct[a]; x != nil {
		for k := range x.store {
			out = append(out, k)
		}
	}
	return out
}

// compare reads back, through db, everything the reference knows. Addresses
// the reference says are empty must read as empty. It returns the first
// difference.
func (s *refState) compare(db vm.StateDB, extraSlots []common.Hash) string {
	var addrs []common.Address
	for a := range s.touched {
		addrs = append(addrs, a)
	}
	sort.Slice(addrs, func(i, j int) bool { return string(addrs[i][:]) < string(addrs[j][:]) })
	for _, a := range addrs {
		x := s.acct[a]
		if x == nil {
			x = &refAcct{bal: new(big.Int)}
		}
		if got := db.GetBalance(a); got.Cmp(x.bal) != 0 {
			return fmt.Sprintf("balance of %x is %v, want %v", a, got, x.bal)
		}
		if got := db.GetNonce(a); got != x.nonce {
			return fmt.Sprintf("nonce of %x is %d, want %d", a, got, x.nonce)
		}
		if got := db.GetCode(a); string(got) != string(x.code) {
			return fmt.Sprintf("code of %x is %x, want %x", a, got, x.code)
		}
		if got := db.GetCodeSize(a); got != len(x.code) {
			return fmt.Sprintf("code size of %x is %d, want %d", a, got, len(x.code))
		}
		if got, want := db.GetCodeHash(a), crypto.Keccak256Hash(x.code); got != want && !(x.empty() && got == (common.Hash{})) {
			return fmt.Sprintf("code hash of %x is %x, want %x", a, got, want)
		}
		if got := db.Empty(a); got != x.empty() {
			return fmt.Sprintf("%x is reported empty: %v, want %v", a, got, x.empty())
		}
		if !x.empty() && !db.Exist(a) {
			return fmt.Sprintf("%x does not exist", a)
		}
		if got := db.HasSuicided(a); got != x.suicided {
			return fmt.Sprintf("%x is reported suicided: %v, want %v", a, got, x.suicided)
		}
		for _, k := range append(s.slots(a), extraSlots...) {
			if got := db.GetState(a, k); got != x.store[k] {
				return fmt.Sprintf("slot %x of %x is %x, want %x", k, a, got, x.store[k])
			}
		}
	}
	return ""
}
