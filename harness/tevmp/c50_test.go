package tevmp

import (
	"fmt"
	"strings"
	"sync"
	"testing"

	"github.com/ethereum/go-ethereum/common"
	"pgregory.net/rapid"

	"verif/harness/vk"
)

// own makes everything of a model its own, besides what is never written.
func (tw *twin) own() {
	own := func(s *refState) *refState {
		n := s.fork()
		n.stats = new(refStats)
		n.gone = map[common.Address]bool{}
		for a := range s.gone {
			n.gone[a] = true
		}
		return n
	}
	tw.ref = own(tw.ref)
	tw.pend = tw.pend.fork()
	for i, b := range tw.sealed {
		tw.sealed[i] = b.fork()
		tw.sealed[i].state = own(b.state)
	}
	tw.w.addrs = append([]common.Address{}, tw.w.addrs...)
	tw.w.blocks = append([]uint64{}, tw.w.blocks...)
	tw.trace = append([]string{}, tw.trace...)
}

// TestC50: a chain, copies of it, and views of its sealed blocks, each used by
// a goroutine of its own at the same time, and each with its own model. Built
// with the race detector.
func TestC50(t *testing.T) {
	p := vk.Start(t, "C50", "a case is non-trivial if at least 3 chains ran at least 3 operations each at once, after a block had been sealed",
		"BLOCKHASH of blocks from before the simulated chain is unspecified",
		"each chain is used by one goroutine (C34 has many on one)")

	p.Check("together", 700, 12000, func(c *vk.C) {
		first := newTwin(c, rapid.IntRange(1, 3).Draw(c.T, "contracts"), 1)
		kinds := []opKind{opMine, opMine, opMine, opSeal, opSeal, opCall, opCreate, opSend, opAddBalance, opRPCSend}
		for i := rapid.IntRange(1, 8).Draw(c.T, "before"); i > 0; i-- {
			if !first.do(first.drawOp(kinds...)) {
				c.Class("blockhash from before the chain")
				return
			}
		}
		nodes := []*twin{first}
		names := []string{"chain"}
		for i := rapid.IntRange(1, 4).Draw(c.T, "more"); i > 0; i-- {
			k := rapid.IntRange(0, len(nodes)-1).Draw(c.T, "of")
			n := nodes[k]
			if len(n.sealed) > 0 && rapid.Bool().Draw(c.T, "view") {
				j := rapid.IntRange(0, len(n.sealed)-1).Draw(c.T, "block")
				cc := n.chain.AtBlock(int64(n.sealed[j].number))
				if cc == nil {
					n.fatalf("no view of block %d", n.sealed[j].number)
				}
				nodes = append(nodes, n.view(cc, j))
				names = append(names, fmt.Sprintf("%s.v%d", names[k], n.sealed[j].number))
			} else {
				nodes = append(nodes, n.fork(n.chain.Copy()))
				names = append(names, names[k]+".c")
			}
			// what they have in common is not just what they began with
			if rapid.IntRange(0, 2).Draw(c.T, "between") == 0 {
				if !n.do(n.drawOp(kinds...)) {
					c.Class("blockhash from before the chain")
					return
				}
			}
		}
		type step struct {
			op   op
			what int
		}
		plans := make([][]step, len(nodes))
		trace := append([]string{}, first.trace...)
		long := 0
		for i, n := range nodes {
			for j := rapid.IntRange(1, 6).Draw(c.T, "nops"); j > 0; j-- {
				s := step{n.drawOp(kinds...), rapid.IntRange(0, 5).Draw(c.T, "what")}
				plans[i] = append(plans[i], s)
				trace = append(trace, fmt.Sprintf("%s: %s (%d)", names[i], s.op, s.what))
			}
			if len(plans[i]) >= 3 {
				long++
			}
			n.own()
		}
		sealed := len(first.sealed) > 0
		failures := make([]string, len(nodes))
		unspecified := make([]bool, len(nodes))
		start := make(chan bool)
		var wg sync.WaitGroup
		for i := range nodes {
			i, n := i, nodes[i]
			n.quiet = true
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if e := recover(); e != nil {
						failures[i] = fmt.Sprint(e)
					}
				}()
				<-start
				for _, s := range plans[i] {
					switch s.what {
					case 0: // read everything
						n.check()
						n.checkRecords()
					case 1: // a copy, used and dropped
						m := n.fork(n.chain.Copy())
						m.own()
						m.quiet = true
						m.check()
						if !m.do(s.op) {
							break
						}
						m.check()
					case 2: // a view
						if k := len(n.sealed); k > 0 {
							b := n.sealed[k-1]
							cc := n.chain.AtBlock(int64(b.number))
							if cc == nil {
								n.fatalf("no view of block %d", b.number)
							}
							m := n.view(cc, k-1)
							m.own()
							m.quiet = true
							m.check()
						}
					}
					if !n.do(s.op) {
						unspecified[i] = true
						return
					}
				}
				n.check()
				n.checkRecords()
			}()
		}
		close(start)
		wg.Wait()
		for i, n := range nodes {
			n.quiet = false
			n.trace = trace
			if failures[i] != "" {
				n.fatalf("%s: %s", names[i], failures[i])
			}
		}
		for i, n := range nodes {
			if unspecified[i] {
				c.Class("blockhash from before the chain")
				continue
			}
			n.check()
			n.checkRecords()
			n.checkViews()
		}
		if long >= 3 && sealed {
			c.NonTrivial(strings.Join(trace, ";"))
		}
		c.Class(fmt.Sprintf("%d chains", len(nodes)))
		c.Sample("%s", strings.Join(trace, "; "))
	})
}
