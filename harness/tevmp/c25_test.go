package tevmp

import (
	"fmt"
	"math/big"
	"strings"
	"testing"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/philhofer/seth/tevm"
	"pgregory.net/rapid"

	"verif/harness/gen"
	"verif/harness/vk"
)

var two256 = new(big.Int).Lsh(big.NewInt(1), 256)

func logsEqual(got, want []*types.Log) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%d logs, want %d", len(got), len(want))
	}
	for i := range got {
		if g, w := describeLog(got[i]), describeLog(want[i]); g != w {
			return fmt.Sprintf("log %d is %s, want %s", i, g, w)
		}
	}
	return ""
}

// TestC25: sequences of state operations, as the virtual machine makes them,
// against plain maps that are copied whole for every snapshot.
func TestC25(t *testing.T) {
	p := vk.Start(t, "C25", "a case is non-trivial if a snapshot with at least 3 changes after it is reverted to while an older one is still held (ops), or an account was set more than twice (account)",
		"CreateAccount is called only where the virtual machine calls it: on addresses without nonce, code and storage",
		"balances stay within 256 bits, and SubBalance and SubRefund take no more than there is")

	p.Check("ops", 2500, 60000, func(c *vk.C) {
		var st *tevm.State
		if rapid.Bool().Draw(c.T, "chain") {
			st = &tevm.NewChain().State
		} else {
			st = new(tevm.State)
		}
		db := st.StateDB()
		ref := newRef()
		var addrs []common.Address
		for i := 0; i < 4; i++ {
			a := common.Address{19: byte(i + 1)}
			if i == 3 {
				a = common.Address(gen.Address().Draw(c.T, "addr"))
			}
			addrs = append(addrs, a)
			ref.touched[a] = true
		}
		var slots []common.Hash
		for i := 0; i < 3; i++ {
			slots = append(slots, common.Hash{31: byte(i)})
		}
		slots = append(slots, common.Hash(gen.Hash().Draw(c.T, "slot")))

		type snap struct{ got, want, after int }
		var held []snap
		dead := map[int]bool{} // snapshot numbers that are no more
		var trace []string
		deepest := false
		nops := rapid.IntRange(1, 100).Draw(c.T, "nops")
		for i := 0; i < nops; i++ {
			a := addrs[rapid.IntRange(0, 3).Draw(c.T, "a")]
			op := rapid.IntRange(0, 16).Draw(c.T, "op")
			change := true
			switch op {
			case 0:
				x := ref.acct[a]
				if x != nil && (x.nonce != 0 || len(x.code) != 0 || len(x.store) != 0 || x.suicided) {
					continue
				}
				db.CreateAccount(a)
				ref.CreateAccount(a)
				trace = append(trace, fmt.Sprintf("create %x", trim(a[:])))
			case 1, 2:
				room := new(big.Int).Sub(two256, ref.total())
				v := gen.Big(256).Draw(c.T, "v")
				v.Mod(v, room)
				arg := new(big.Int).Set(v)
				db.AddBalance(a, arg)
				arg.SetInt64(77) // the argument is the caller's
				ref.AddBalance(a, v)
				trace = append(trace, fmt.Sprintf("add %x %v", trim(a[:]), v))
			case 3:
				v := gen.Big(256).Draw(c.T, "v")
				v.Mod(v, new(big.Int).Add(ref.GetBalance(a), big.NewInt(1)))
				arg := new(big.Int).Set(v)
				db.SubBalance(a, arg)
				arg.SetInt64(77)
				ref.SubBalance(a, v)
				trace = append(trace, fmt.Sprintf("sub %x %v", trim(a[:]), v))
			case 4:
				n := gen.Uint64().Draw(c.T, "nonce")
				db.SetNonce(a, n)
				ref.SetNonce(a, n)
				trace = append(trace, fmt.Sprintf("nonce %x %d", trim(a[:]), n))
			case 5:
				code := gen.Bytes(0, 40).Draw(c.T, "code")
				db.SetCode(a, code)
				ref.SetCode(a, code)
				trace = append(trace, fmt.Sprintf("code %x %x", trim(a[:]), code))
			case 6, 7, 8:
				if ref.acct[a] == nil {
					continue
				}
				k := slots[rapid.IntRange(0, 3).Draw(c.T, "k")]
				var v common.Hash
				if rapid.IntRange(0, 2).Draw(c.T, "zero") != 0 {
					v = common.Hash(gen.Hash().Draw(c.T, "v"))
				}
				db.SetState(a, k, v)
				ref.SetState(a, k, v)
				trace = append(trace, fmt.Sprintf("store %x %x=%x", trim(a[:]), trim(k[:]), trim(v[:])))
			case 9:
				v := uint64(rapid.IntRange(0, 100000).Draw(c.T, "v"))
				db.AddRefund(v)
				ref.AddRefund(v)
				trace = append(trace, fmt.Sprintf("refund+%d", v))
			case 10:
				v := uint64(rapid.IntRange(0, 100000).Draw(c.T, "v"))
				v %= ref.refund + 1
				db.SubRefund(v)
				ref.SubRefund(v)
				trace = append(trace, fmt.Sprintf("refund-%d", v))
			case 11:
				got, want := db.Suicide(a), ref.Suicide(a)
				trace = append(trace, fmt.Sprintf("suicide %x", trim(a[:])))
				if got != want {
					c.Fatalf("%s: Suicide says %v, want %v", strings.Join(trace, "; "), got, want)
				}
			case 12:
				l := types.Log{Address: a, BlockNumber: 100, Data: gen.Bytes(0, 5).Draw(c.T, "data")}
				for j := rapid.IntRange(0, 2).Draw(c.T, "topics"); j > 0; j-- {
					l.Topics = append(l.Topics, common.Hash(gen.Hash().Draw(c.T, "topic")))
				}
				mine := l
				db.AddLog(&mine)
				ref.AddLog(&l)
				trace = append(trace, "log")
			case 13, 14:
				change = false
				s := snap{got: db.Snapshot(), want: ref.Snapshot()}
				for _, h := range held {
					if h.got == s.got {
						c.Fatalf("%s: snapshot number %d is given out while it is in use", strings.Join(trace, "; "), s.got)
					}
				}
				delete(dead, s.got)
				held = append(held, s)
				trace = append(trace, fmt.Sprintf("snap=%d", s.got))
			case 15:
				change = false
				if len(held) == 0 {
					continue
				}
				j := rapid.IntRange(0, len(held)-1).Draw(c.T, "to")
				s := held[j]
				for _, h := range held[j:] {
					dead[h.got] = true
				}
				held = held[:j]
				db.RevertToSnapshot(s.got)
				ref.RevertToSnapshot(s.want)
				trace = append(trace, fmt.Sprintf("revert=%d", s.got))
				if s.after >= 3 && len(held) > 0 {
					deepest = true
				}
			case 16: // a snapshot that a revert has made invalid
				change = false
				for n := range dead {
					if msg := vk.Trap(func() { db.RevertToSnapshot(n) }); msg == "" {
						c.Fatalf("%s: reverted to snapshot %d, which is no more", strings.Join(trace, "; "), n)
					}
				}
			}
			if change {
				for j := range held {
					held[j].after++
				}
			}
			if d := ref.compare(db, slots); d != "" {
				c.Fatalf("%s: %s", strings.Join(trace, "; "), d)
			}
			if got := db.GetRefund(); got != ref.refund {
				c.Fatalf("%s: refund is %d, want %d", strings.Join(trace, "; "), got, ref.refund)
			}
			if d := logsEqual(st.Logs, ref.logs); d != "" {
				c.Fatalf("%s: %s", strings.Join(trace, "; "), d)
			}
		}
		// unwind everything that is held, innermost first
		for j := len(held) - 1; j >= 0; j-- {
			db.RevertToSnapshot(held[j].got)
			ref.RevertToSnapshot(held[j].want)
			trace = append(trace, fmt.Sprintf("unwind=%d", held[j].got))
			if d := ref.compare(db, slots); d != "" {
				c.Fatalf("%s: %s", strings.Join(trace, "; "), d)
			}
			if d := logsEqual(st.Logs, ref.logs); d != "" {
				c.Fatalf("%s: %s", strings.Join(trace, "; "), d)
			}
		}
		if deepest {
			c.NonTrivial(strings.Join(trace, ";"))
		}
		c.Sample("%s", strings.Join(trace, "; "))
	})

	p.Check("account", 2000, 40000, func(c *vk.C) {
		var a tevm.Account
		bal, nonce, dead := new(big.Int), uint64(0), false
		var trace []string
		for i := rapid.IntRange(1, 12).Draw(c.T, "sets"); i > 0; i-- {
			switch rapid.IntRange(0, 2).Draw(c.T, "set") {
			case 0:
				bal = gen.Big(256).Draw(c.T, "balance")
				a.SetBalance(new(big.Int).Set(bal))
				trace = append(trace, fmt.Sprintf("balance=%v", bal))
			case 1:
				nonce = gen.Uint64().Draw(c.T, "nonce")
				a.SetNonce(nonce)
				trace = append(trace, fmt.Sprintf("nonce=%d", nonce))
			case 2:
				dead = rapid.Bool().Draw(c.T, "dead")
				a.SetSuicided(dead)
				trace = append(trace, fmt.Sprintf("suicided=%v", dead))
			}
			b := a.Balance()
			if b.Big().Cmp(bal) != 0 || a.Nonce() != nonce || a.Suicided() != dead {
				c.Fatalf("%s: the account has balance %s, nonce %d, suicided %v", strings.Join(trace, "; "), &b, a.Nonce(), a.Suicided())
			}
		}
		if len(trace) > 2 {
			c.NonTrivial(strings.Join(trace, ";"))
		}
	})
}
