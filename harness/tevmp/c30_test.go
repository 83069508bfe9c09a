package tevmp

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strings"
	"testing"

	"github.com/philhofer/seth/tevm"
	"pgregory.net/rapid"

	"verif/harness/vk"
)

// TestC30: a history, a save and a load (or two), and the same operations on
// both chains.
func TestC30(t *testing.T) {
	p := vk.Start(t, "C30", "a case is non-trivial if the saved chain had at least one sealed block and a transaction, and both chains were used after the load",
		"BLOCKHASH of blocks from before the simulated chain is unspecified",
		"filters and the Trace and Debugf hooks are not part of what is saved")

	p.Check("long", 1, 8, longSaved)
	p.Check("json", 900, 20000, func(c *vk.C) {
		tw := newTwin(c, rapid.IntRange(1, 3).Draw(c.T, "contracts"), 1)
		kinds := []opKind{opMine, opMine, opMine, opSeal, opSeal, opCall, opCreate, opSend, opCreateAt, opAddBalance, opRPCSend}
		nbefore := rapid.IntRange(0, 9).Draw(c.T, "before")
		snapAt, snap, snapSealed := rapid.IntRange(0, 2*nbefore).Draw(c.T, "snapshot at"), -1, 0
		mined := func() (n int) {
			for _, b := range append(append([]*mblock{}, tw.sealed...), tw.pend) {
				n += len(b.txs)
			}
			return
		}
		var snapRef *refState
		var snapMined int
		for i := 0; i < nbefore; i++ {
			if i == snapAt {
				snap, snapRef, snapMined, snapSealed = tw.chain.State.StateDB().Snapshot(), tw.ref.fork(), mined(), len(tw.sealed)
				tw.trace = append(tw.trace, "snapshot")
			}
			if !tw.do(tw.drawOp(kinds...)) {
				c.Class("blockhash from before the chain")
				return
			}
		}
		tw.check()
		rich := len(tw.sealed) > 0 && mined() > 0
		chains := []*twin{tw}
		for i := rapid.IntRange(1, 2).Draw(c.T, "times"); i > 0; i-- {
			from := chains[len(chains)-1]
			buf, err := json.Marshal(from.chain)
			if err != nil {
				tw.fatalf("save: %v", err)
			}
			again, err := json.Marshal(from.chain)
			if err != nil || !bytes.Equal(buf, again) {
				tw.fatalf("saved twice, the chain is not the same (%v)", err)
			}
			dst := new(tevm.Chain)
			if rapid.IntRange(0, 2).Draw(c.T, "used") == 0 { // over one that was in use
				dst = tevm.NewChain()
				dst.NewAccount(1)
				dst.Seal()
			}
			if err := json.Unmarshal(buf, dst); err != nil {
				tw.fatalf("load: %v", err)
			}
			for j := range buf { // the buffer is the caller's
				buf[j] = 'x'
			}
			tw.trace = append(tw.trace, "save and load")
			from.check()
			n := from.fork(dst)
			chains = append(chains, n)
			n.trace = append(n.trace, fmt.Sprintf("(loaded chain %d)", len(chains)-1))
			n.check()
			n.checkTotal()
			n.checkViews()
			n.checkRecords()
		}
		first := mined()
		for i := rapid.IntRange(0, 6).Draw(c.T, "after"); i > 0; i-- {
			if snap >= 0 && snapMined == mined() && rapid.IntRange(0, 3).Draw(c.T, "roll back") == 0 {
				for _, n := range chains {
					n.chain.State.StateDB().RevertToSnapshot(snap)
					touched := n.ref.touched
					n.ref = snapRef.fork()
					n.ref.touched = touched
					for _, b := range n.sealed[snapSealed:] {
						delete(n.env.hashes, b.number)
					}
					n.sealed = n.sealed[:snapSealed:snapSealed]
					n.trace = append(n.trace, "roll back")
				}
				c.Class("rolled back after the load")
				snap = -1
			}
			o := tw.drawOp(kinds...)
			for _, n := range chains {
				if !n.do(o) {
					return
				}
				n.check()
			}
		}
		for _, n := range chains {
			n.checkTotal()
			n.checkViews()
			n.checkRecords()
		}
		if rich {
			c.NonTrivial(strings.Join(tw.trace, ";"))
			if mined() > first {
				c.Class("mined after the load")
			}
		}
		c.Sample("%s", strings.Join(tw.trace, "; "))
	})
}
