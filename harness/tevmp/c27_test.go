package tevmp

import (
	"fmt"
	"strings"
	"testing"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/vm"
	"pgregory.net/rapid"

	"verif/harness/vk"
)

var logger = common.Address{0: 0x10, 19: 0x99}

// TestC27: histories over several chains: the first one, copies, views of
// sealed blocks, and copies and views of those, each with its own model.
func TestC27(t *testing.T) {
	p := vk.Start(t, "C27", "a case is non-trivial if a view or copy was used after at least 2 changes to what it came from, with a block sealed",
		"BLOCKHASH of blocks from before the simulated chain is unspecified",
		"rolling the state back undoes no transaction of the pending block, and forgets blocks that were sealed since the snapshot")

	p.Check("long", 2, 20, longViews)
	p.Check("history", 1900, 25000, func(c *vk.C) {
		type rollback struct {
			snap, mined, sealed int
			model               *refState
		}
		type node struct {
			*twin
			name    string
			changes int // since it has been made
			kids    int
			mined   int
			rb      []rollback
			log     *[]string
		}
		first := newTwin(c, rapid.IntRange(1, 3).Draw(c.T, "contracts"), 1)
		nodes := []*node{{twin: first, name: "chain"}}
		var trace []string
		trace = append(trace, first.trace...)
		used := false
		check := func(n *node) {
			n.check()
			n.checkTotal()
		}
		nops := rapid.IntRange(3, 24).Draw(c.T, "nops")
		// some histories are mostly of blocks without transactions, which
		// rolling back can undo, and mostly of the first chain
		rolls := rapid.IntRange(0, 2).Draw(c.T, "rolls") == 0
		plan := []int{0, 0, 0, 0, 0, 0, 0, 0, 8, 8, 10, 10, 12, 12, 14, 14}
		kinds := []opKind{opMine, opMine, opSeal, opSeal, opSeal, opCall, opCall, opCreate, opSend, opCreateAt, opAddBalance, opSubBalance, opRPCSend}
		if rolls {
			plan = []int{0, 0, 0, 0, 0, 8, 10, 12, 12, 12, 14, 14}
			kinds = []opKind{opSeal, opSeal, opSeal, opCall, opCall, opSend, opAddBalance}
			// a contract that logs its argument
			code := new(asm).pushn(4).op(vm.CALLDATALOAD, vm.DUP1).pushn(0).op(vm.MSTORE).pushn(32).pushn(0).op(vm.LOG1).bytes()
			first.chain.State.StateDB().SetCode(logger, code)
			first.ref.SetCode(logger, code)
			first.ref.finalise()
		}
		for i := 0; i < nops; i++ {
			n := nodes[rapid.IntRange(0, len(nodes)-1).Draw(c.T, "node")]
			if rolls && rapid.Bool().Draw(c.T, "first") {
				n = nodes[0]
			}
			n.trace = trace
			switch k := rapid.SampledFrom(plan).Draw(c.T, "what"); {
			case k <= 7:
				o := n.drawOp(kinds...)
				if rolls && o.kind == opCall && rapid.IntRange(0, 3).Draw(c.T, "log") > 0 {
					o.at = logger
				}
				trace = append(trace, fmt.Sprintf("%s: %s", n.name, o))
				n.trace = trace[:len(trace)-1]
				if !n.do(o) {
					c.Class("blockhash from before the chain")
					return
				}
				if o.kind == opMine || o.kind == opRPCSend {
					n.mined++
				}
				n.changes++
				if n != nodes[0] && len(first.sealed) > 0 && nodes[0].changes > 2 {
					used = true
				}
			case k <= 9: // copy
				if len(nodes) >= 6 {
					continue
				}
				cc := n.chain.Copy()
				m := &node{twin: n.twin.fork(cc), name: fmt.Sprintf("%s.c%d", n.name, n.kids)}
				n.kids++
				trace = append(trace, fmt.Sprintf("%s = copy of %s", m.name, n.name))
				m.trace = trace
				nodes = append(nodes, m)
				m.checkRecords()
			case k <= 11: // view
				if len(n.sealed) == 0 || len(nodes) >= 6 {
					continue
				}
				j := rapid.IntRange(0, len(n.sealed)-1).Draw(c.T, "block")
				cc := n.chain.AtBlock(int64(n.sealed[j].number))
				if cc == nil {
					n.fatalf("%s has no view of block %d", n.name, n.sealed[j].number)
				}
				m := &node{twin: n.twin.view(cc, j), name: fmt.Sprintf("%s.v%d", n.name, n.sealed[j].number)}
				trace = append(trace, fmt.Sprintf("%s = view of %s", m.name, n.name))
				m.trace = trace
				nodes = append(nodes, m)
			case k <= 13:
				s := n.chain.State.StateDB().Snapshot()
				n.rb = append(n.rb, rollback{s, n.mined, len(n.sealed), n.ref.fork()})
				trace = append(trace, fmt.Sprintf("%s: snapshot %d", n.name, s))
			case k <= 15:
				if len(n.rb) == 0 {
					continue
				}
				j := rapid.IntRange(0, len(n.rb)-1).Draw(c.T, "to")
				r := n.rb[j]
				if r.mined != n.mined {
					continue
				}
				trace = append(trace, fmt.Sprintf("%s: roll back to %d", n.name, r.snap))
				n.trace = trace
				n.chain.State.StateDB().RevertToSnapshot(r.snap)
				touched := n.ref.touched
				n.ref = r.model.fork()
				n.ref.touched = touched
				for _, b := range n.sealed[r.sealed:] {
					delete(n.env.hashes, b.number)
				}
				if r.sealed != len(n.sealed) {
					c.Class("rolled back past a seal")
				}
				n.sealed = n.sealed[:r.sealed:r.sealed]
				n.rb = n.rb[:j]
				n.changes++
			}
			n.trace = trace
			// everything else must be as it was
			for _, m := range nodes {
				m.trace = trace
				check(m)
			}
			v := nodes[rapid.IntRange(0, len(nodes)-1).Draw(c.T, "look")]
			v.checkViews()
		}
		for _, m := range nodes {
			check(m)
			m.checkViews()
			m.checkRecords()
		}
		if used {
			c.NonTrivial(strings.Join(trace, ";"))
		}
		c.Class(fmt.Sprintf("%d chains", len(nodes)))
		c.Sample("%s", strings.Join(trace, "; "))
	})
}
