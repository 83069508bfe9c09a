package tevmp

import (
	"fmt"
	"math/big"
	"strings"
	"testing"
	"time"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/core/vm"
	"github.com/philhofer/seth"
	"github.com/philhofer/seth/tevm"
	"pgregory.net/rapid"

	"verif/harness/vk"
)

// newLogger is a twin whose contracts mostly log, with few different topics.
func newLogger(c *vk.C) *twin {
	tw := &twin{c: c, chain: tevm.NewChain(), ref: newRef()}
	tw.env.hashes = map[uint64]common.Hash{}
	a := common.Address{0: 0xee}
	tw.eoas = []common.Address{a}
	sa := seth.Address(a)
	tw.chain.AddBalance(&sa, big.NewInt(1000))
	tw.ref.AddBalance(a, big.NewInt(1000))
	db := tw.chain.State.StateDB()
	n := rapid.IntRange(1, 3).Draw(c.T, "contracts")
	for i := 0; i < n; i++ {
		tw.cons = append(tw.cons, common.Address{0: 0xcc, 19: byte(i + 1)})
	}
	tw.w.addrs = tw.cons
	for _, a := range tw.cons {
		code := new(asm)
		for j := rapid.IntRange(0, 4).Draw(c.T, "logs"); j > 0; j-- {
			nt := rapid.IntRange(0, 4).Draw(c.T, "topics")
			for k := 0; k < nt; k++ {
				if rapid.IntRange(0, 4).Draw(c.T, "from data") == 0 {
					code.pushn(4).op(vm.CALLDATALOAD)
				} else {
					code.pushn(rapid.IntRange(0, 2).Draw(c.T, "topic"))
				}
			}
			code.pushn(rapid.IntRange(0, 40).Draw(c.T, "len")).pushn(0).op(vm.LOG0 + vm.OpCode(nt))
		}
		switch rapid.IntRange(0, 5).Draw(c.T, "end") {
		case 0: // fail for odd arguments, with all logs undone
			code.pushn(4).op(vm.CALLDATALOAD).pushn(1).op(vm.AND, vm.ISZERO)
			code.b = append(code.b, byte(vm.PUSH2), 0, 0)
			at := len(code.b) - 2
			code.op(vm.JUMPI).pushn(0).pushn(0).op(vm.REVERT)
			code.b[at], code.b[at+1] = byte(len(code.b)>>8), byte(len(code.b))
			code.op(vm.JUMPDEST)
		case 1: // call another one
			code.pushn(0).pushn(0).pushn(36).pushn(0).pushn(0).pusha(rapid.SampledFrom(tw.cons).Draw(c.T, "callee"))
			code.pushn(60000).op(vm.CALL)
		}
		code.op(vm.STOP)
		for _, d := range []vm.StateDB{db, tw.ref} {
			d.CreateAccount(a)
			d.SetNonce(a, 1)
			d.SetCode(a, code.bytes())
		}
		tw.trace = append(tw.trace, fmt.Sprintf("%x: %x", a[:], code.bytes()))
	}
	tw.ref.finalise()
	tw.readPending()
	return tw
}

// poke mines a call to one of the contracts.
func (tw *twin) poke() bool {
	t := tw.c.T
	arg := seth.Int(*big.NewInt(int64(rapid.IntRange(0, 3).Draw(t, "arg"))))
	to := rapid.SampledFrom(tw.cons).Draw(t, "to")
	return tw.do(op{kind: rapid.SampledFrom([]opKind{opMine, opMine, opMine, opRPCSend}).Draw(t, "kind"),
		tx: &refTx{from: tw.eoas[0], to: &to, data: seth.ABIEncode("poke(uint256)", &arg), value: new(big.Int), price: new(big.Int), gas: 200000, bump: true}})
}

type topicFilter struct {
	addr     *common.Address
	topics   []*common.Hash
	from, to int64 // to: -1 is pending, -2 latest
	pos      int   // logs of the chain that have been looked at
	id       seth.Int
	gone     bool
}

func (f *topicFilter) matches(l *types.Log) bool {
	if int64(l.BlockNumber) < f.from || (f.to >= 0 && int64(l.BlockNumber) > f.to) {
		return false
	}
	if f.addr != nil && l.Address != *f.addr {
		return false
	}
	if len(l.Topics) < len(f.topics) {
		return false
	}
	for i, t := range f.topics {
		if t != nil && *t != l.Topics[i] {
			return false
		}
	}
	return true
}

// visible counts the logs the filter can see now.
func (f *topicFilter) visible(tw *twin) int {
	if f.to == -1 {
		return len(tw.ref.logs)
	}
	n := 0
	for _, l := range tw.ref.logs {
		if l.BlockNumber < tw.pend.number {
			n++
		}
	}
	return n
}

func (f *topicFilter) want(tw *twin, start int) (out []*types.Log) {
	for i := start; i < f.visible(tw); i++ {
		if f.matches(tw.ref.logs[i]) {
			out = append(out, tw.ref.logs[i])
		}
	}
	return
}

func (f *topicFilter) String() string {
	var tp []string
	for _, t := range f.topics {
		if t == nil {
			tp = append(tp, "*")
		} else {
			tp = append(tp, fmt.Sprintf("%x", trim(t[:])))
		}
	}
	a := "*"
	if f.addr != nil {
		a = fmt.Sprintf("%x", f.addr[:])
	}
	return fmt.Sprintf("filter %v: blocks %d..%d of %s topics %v", f.id.Big(), f.from, f.to, a, tp)
}

func drawTopics(t *rapid.T, tw *twin) (addr *common.Address, topics []*common.Hash) {
	if rapid.IntRange(0, 2).Draw(t, "by address") == 0 {
		a := common.Address{0: 0xaa}
		if rapid.IntRange(0, 4).Draw(t, "known") != 0 {
			a = rapid.SampledFrom(tw.cons).Draw(t, "addr")
		}
		addr = &a
	}
	for i := rapid.IntRange(0, 4).Draw(t, "topics"); i > 0; i-- {
		if rapid.IntRange(0, 1).Draw(t, "any") == 0 {
			topics = append(topics, nil)
			continue
		}
		h := common.Hash{31: byte(rapid.IntRange(0, 3).Draw(t, "topic"))}
		topics = append(topics, &h)
	}
	return
}

func (tw *twin) sameLogs(what string, got []seth.Log, want []*types.Log) {
	if len(got) != len(want) {
		tw.fatalf("%s: %d logs, want %d", what, len(got), len(want))
	}
	for i := range got {
		if d := diffLog(&got[i], want[i]); d != "" {
			tw.fatalf("%s: log %d: %s", what, i, d)
		}
	}
}

// TestC32: filters against a scan of all logs.
func TestC32(t *testing.T) {
	p := vk.Start(t, "C32", "a case is non-trivial if some filter that selects by topic or address reported logs, and left out others, in at least 2 polls",
		"a filter from the latest (or the pending) block starts at what is that block when it is made; an open end at the latest block shows sealed blocks only",
		"eth_getFilterLogs counts as a poll: what it reported is not reported as a change again",
		"a filter with more topics than a log has does not match it (as in go-ethereum)")

	p.Check("long", 2, 20, longLogs)
	p.Check("filters", 1500, 30000, func(c *vk.C) {
		tw := newLogger(c)
		cl := tw.chain.Client()
		var filters []*topicFilter
		polls, left := 0, 0
		poll := func(f *topicFilter, chain *tevm.Chain, commit bool) {
			var got []seth.Log
			tw.trace = append(tw.trace, fmt.Sprintf("poll %v", f.id.Big()))
			if err := rpc(chain, "eth_getFilterChanges", &got, &f.id); err != nil {
				tw.fatalf("eth_getFilterChanges: %v", err)
			}
			want := f.want(tw, f.pos)
			tw.sameLogs(f.String(), got, want)
			if len(want) > 0 && (f.addr != nil || len(f.topics) > 0) {
				polls++
				left += f.visible(tw) - f.pos - len(want)
			}
			if commit {
				f.pos = f.visible(tw)
			}
		}
		nops := rapid.IntRange(8, 45).Draw(c.T, "nops")
		for i := 0; i < nops; i++ {
			k := rapid.IntRange(0, 20).Draw(c.T, "op")
			var f *topicFilter
			if len(filters) > 0 {
				f = filters[rapid.IntRange(0, len(filters)-1).Draw(c.T, "filter")]
			} else if k >= 13 {
				continue
			}
			switch {
			case k < 7:
				if !tw.poke() {
					return
				}
			case k < 9:
				tw.do(op{kind: opSeal, time: 5})
			case k < 13: // a new filter
				f := new(topicFilter)
				f.addr, f.topics = drawTopics(c.T, tw)
				now := int64(tw.pend.number)
				req := map[string]interface{}{}
				f.from, f.to = now-1, -2
				switch rapid.IntRange(0, 5).Draw(c.T, "from") {
				case 0: // not given: latest
					if rapid.Bool().Draw(c.T, "null") {
						req["fromBlock"] = nil
					}
				case 1:
					req["fromBlock"] = "latest"
				case 2:
					req["fromBlock"], f.from = "pending", now
				case 3:
					req["fromBlock"], f.from = "earliest", 0
				default:
					f.from = now - int64(rapid.IntRange(-2, 4).Draw(c.T, "ago"))
					req["fromBlock"] = hexU(uint64(f.from))
				}
				explicit := req["fromBlock"] != "latest" && req["fromBlock"] != "pending" && req["fromBlock"] != nil
				switch rapid.IntRange(0, 4).Draw(c.T, "to") {
				case 0:
				case 1:
					req["toBlock"] = "latest"
				case 2:
					req["toBlock"], f.to = "pending", -1
				default:
					f.to = now + int64(rapid.IntRange(-3, 4).Draw(c.T, "until"))
					req["toBlock"] = hexU(uint64(f.to))
				}
				if f.addr != nil {
					req["address"] = hexB(f.addr[:])
				}
				if len(f.topics) > 0 || rapid.Bool().Draw(c.T, "empty topics") {
					tp := []interface{}{}
					for _, h := range f.topics {
						if h == nil {
							tp = append(tp, nil)
						} else {
							tp = append(tp, hexB(h[:]))
						}
					}
					req["topics"] = tp
				}
				err := rpc(tw.chain, "eth_newFilter", &f.id, req)
				tw.trace = append(tw.trace, fmt.Sprintf("new %v", f))
				if err != nil {
					if explicit && f.to >= 0 && f.from > f.to {
						continue // an empty range may be refused
					}
					tw.fatalf("eth_newFilter: %v", err)
				}
				for _, o := range filters {
					if o.id.Big().Cmp(f.id.Big()) == 0 {
						tw.fatalf("filter id %v is given out twice", f.id.Big())
					}
				}
				sealedOnly := *f
				sealedOnly.to = -2
				f.pos = sealedOnly.visible(tw)
				filters = append(filters, f)
			case f.gone:
				var got []seth.Log
				m := rapid.SampledFrom([]string{"eth_getFilterChanges", "eth_getFilterLogs"}).Draw(c.T, "method")
				if err := cl.Do(m, rawParams(&f.id), &got); err == nil {
					tw.fatalf("%s of a removed filter gives %d logs", m, len(got))
				}
			case k < 17:
				poll(f, tw.chain, true)
			case k == 17:
				var got []seth.Log
				tw.trace = append(tw.trace, fmt.Sprintf("all of %v", f.id.Big()))
				if err := rpc(tw.chain, "eth_getFilterLogs", &got, &f.id); err != nil {
					tw.fatalf("eth_getFilterLogs: %v", err)
				}
				tw.sameLogs("all of "+f.String(), got, f.want(tw, 0))
				f.pos = f.visible(tw)
			case k == 18:
				var ok bool
				tw.trace = append(tw.trace, fmt.Sprintf("remove %v", f.id.Big()))
				if err := rpc(tw.chain, "eth_uninstallFilter", &ok, &f.id); err != nil || !ok {
					tw.fatalf("eth_uninstallFilter: %v, %v", ok, err)
				}
				f.gone = true
			case k >= 19: // a copy has filters of its own
				cc, goOn := tw.chain.Copy(), rapid.Bool().Draw(c.T, "go on")
				for _, f := range filters {
					if !f.gone {
						poll(f, cc, goOn)
					}
				}
				if goOn {
					tw.trace = append(tw.trace, "go on with a copy")
					tw.chain, cl = cc, cc.Client()
				}
			}
		}
		if rapid.Bool().Draw(c.T, "finally") {
			tw.do(op{kind: opSeal, time: 5})
		}
		for _, f := range filters {
			if !f.gone {
				poll(f, tw.chain, true)
				poll(f, tw.chain, true)
			}
		}
		if polls >= 2 && left > 0 {
			c.NonTrivial(strings.Join(tw.trace, ";"))
		}
		c.Sample("%s", strings.Join(tw.trace, "; "))
	})

	// the library's filters; they poll once per second
	p.Check("client", 2, 25, func(c *vk.C) {
		tw := newLogger(c)
		cl := tw.chain.Client()
		type watch struct {
			topicFilter
			f   *seth.Filter
			got []seth.Log
		}
		var ws []*watch
		begin := func() {
			w := new(watch)
			w.addr, w.topics = drawTopics(c.T, tw)
			var sa *seth.Address
			if w.addr != nil {
				sa = sethAddr(*w.addr)
			}
			var tp []*seth.Hash
			for _, h := range w.topics {
				tp = append(tp, (*seth.Hash)(h))
			}
			start, end := int64(-1), int64(-1)
			w.from, w.to = int64(tw.pend.number)-1, -2
			if rapid.IntRange(0, 2).Draw(c.T, "end") == 0 {
				w.to = w.from + int64(rapid.IntRange(0, 4).Draw(c.T, "to"))
				end = w.to
			}
			f, err := cl.FilterTopics(tp, sa, start, end)
			if err != nil {
				tw.fatalf("FilterTopics: %v", err)
			}
			w.f = f
			tw.trace = append(tw.trace, w.String())
			ws = append(ws, w)
		}
		for i := 0; i < 8; i++ {
			for j := rapid.IntRange(0, 4).Draw(c.T, "txs"); j > 0; j-- {
				if !tw.poke() {
					return
				}
			}
			tw.do(op{kind: opSeal, time: 5})
			begin()
			if i%4 == 3 {
				time.Sleep(600 * time.Millisecond)
			}
		}
		// a range in the past is reported once
		for i := 0; i < 4; i++ {
			w := new(watch)
			w.addr, w.topics = drawTopics(c.T, tw)
			var sa *seth.Address
			if w.addr != nil {
				sa = sethAddr(*w.addr)
			}
			var tp []*seth.Hash
			for _, h := range w.topics {
				tp = append(tp, (*seth.Hash)(h))
			}
			w.from = int64(rapid.IntRange(0, int(tw.pend.number)).Draw(c.T, "from"))
			w.to = w.from + int64(rapid.IntRange(0, 200).Draw(c.T, "to"))
			f, err := cl.FilterTopics(tp, sa, w.from, w.to)
			if err != nil {
				tw.fatalf("FilterTopics: %v", err)
			}
			want := w.want(tw, 0)
			var got []seth.Log
			if !vk.Within(60*time.Second, func() {
				for l := range f.Out() {
					got = append(got, *l)
				}
			}) {
				tw.fatalf("%s: not done after a minute", &w.topicFilter)
			}
			if err := f.Err(); err != nil {
				tw.fatalf("%s: %v", &w.topicFilter, err)
			}
			tw.sameLogs(w.String(), got, want)
		}
		some := 0
		for _, w := range ws {
			want := w.want(tw, 0)
			timeout := time.After(vk.Patience(60 * time.Second))
			for len(w.got) < len(want) {
				select {
				case l, ok := <-w.f.Out():
					if !ok {
						tw.fatalf("%s: closed after %d of %d logs: %v", w, len(w.got), len(want), w.f.Err())
					}
					w.got = append(w.got, *l)
				case <-timeout:
					vk.Hung()
					tw.fatalf("%s: only %d of %d logs after a minute", w, len(w.got), len(want))
				}
			}
			if len(want) > 0 {
				some++
			}
		}
		time.Sleep(1300 * time.Millisecond)
		for _, w := range ws {
			w.f.Close()
			if !vk.Within(60*time.Second, func() {
				for l := range w.f.Out() {
					w.got = append(w.got, *l)
				}
			}) {
				tw.fatalf("%s: not closed after a minute", w)
			}
			tw.sameLogs(w.String(), w.got, w.want(tw, 0))
		}
		if some >= 3 {
			c.NonTrivial(strings.Join(tw.trace, ";"))
		}
	})
}
