package core

import (
	"encoding/json"
	"errors"
	"fmt"
	"runtime"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/philhofer/seth"
	"pgregory.net/rapid"

	"verif/harness/gen"
	"verif/harness/vk"
)

const patience = 60 * time.Second

// batch runs f(0..n-1) at once and fails on the first complaint, or if one
// does not end.
func batch(c *vk.C, n int, f func(i int) error) {
	errs := make(chan error, n)
	for i := 0; i < n; i++ {
		go func(i int) {
			var err error
			if m := vk.Trap(func() { err = f(i) }); m != "" {
				err = errors.New(m)
			}
			errs <- err
		}(i)
	}
	limit := time.After(vk.Patience(2 * patience))
	var bad error
	for i := 0; i < n; i++ {
		select {
		case err := <-errs:
			if err != nil && bad == nil {
				bad = err
			}
		case <-limit:
			vk.Hung()
			c.Fatalf("%d of %d do not end (%v)", n-i, n, bad)
		}
	}
	if bad != nil {
		c.Fatalf("%v", bad)
	}
}

// filterPlan is what happens to one filter.
type filterPlan struct {
	id         string // as JSON
	topics     []*seth.Hash
	addr       *seth.Address
	start, end int64
	transfers  bool
	from, to   *seth.Address
	polls      [][]seth.Log // the first is getFilterLogs' answer
	failAt     int          // the poll that fails, or -1
	newFails   bool
	badID      string // what the node says instead of an id
	closeAfter int    // logs read before closing, or -1 to read everything planned
	closers    int
}

func (p *filterPlan) String() string {
	var n []int
	for _, l := range p.polls {
		n = append(n, len(l))
	}
	return fmt.Sprintf("filter %s blocks %d-%d polls %v failing %d closed after %d by %d", p.id, p.start, p.end, n, p.failAt, p.closeAfter, p.closers)
}

func genPlan(t *rapid.T, live bool, i int) *filterPlan {
	p := &filterPlan{failAt: -1, closeAfter: -1, closers: rapid.IntRange(1, 3).Draw(t, "closers")}
	bits := rapid.SampledFrom([]int{4, 32, 63, 64, 128}).Draw(t, "idbits")
	p.id = fmt.Sprintf(`"0x%x"`, gen.Big(bits).Draw(t, "id"))
	p.start, p.end = int64(gen.Uint64().Draw(t, "start")>>1), int64(gen.Uint64().Draw(t, "end")>>1)
	if live {
		p.start = -1
	}
	if rapid.Bool().Draw(t, "openend") {
		p.end = -1
	}
	p.addr = gen.Opt(gen.Address()).Draw(t, "addr")
	p.transfers = rapid.Bool().Draw(t, "transfers")
	if p.transfers {
		p.from, p.to = gen.Opt(gen.Address()).Draw(t, "from"), gen.Opt(gen.Address()).Draw(t, "to")
	} else {
		for j := rapid.IntRange(0, 4).Draw(t, "topics"); j > 0; j-- {
			p.topics = append(p.topics, gen.Opt(gen.Hash()).Draw(t, "topic"))
		}
	}
	polls := 1
	if live {
		polls = rapid.IntRange(1, 4).Draw(t, "polls")
	}
	total := 0
	for j := 0; j < polls; j++ {
		var logs []seth.Log
		n := rapid.SampledFrom([]int{0, 1, 2, 3, 19, 20, 21, 22, 45, 300, 2500}).Draw(t, "logs")
		look := rapid.IntRange(0, 255).Draw(t, "look")
		for k := 0; k < n; k++ {
			idx := seth.Uint64(total)
			look &= 1<<16 - 1
			logs = append(logs, seth.Log{LogIndex: &idx, Address: seth.Address{byte(i), byte(k)}, Data: seth.Data{byte(total)}, Topics: []seth.Data{make([]byte, 32)}})
			// a log of a block that was reorganised away, or of the pending one
			l := &logs[k]
			l.Removed = look&1 != 0
			if look&2 != 0 {
				l.LogIndex = nil
			}
			if look&4 != 0 {
				n, h := seth.Uint64(total)<<uint(look%60), seth.Hash{byte(look), byte(k)}
				l.TxIndex, l.BlockNumber, l.TxHash, l.BlockHash = &idx, &n, &h, &h
			}
			if look&8 != 0 {
				l.Topics = nil
			}
			if look&16 != 0 { // the same log again
				*l = logs[0]
			}
			look = look*5 + 3
			total++
		}
		p.polls = append(p.polls, logs)
	}
	switch rapid.IntRange(0, 5).Draw(t, "end") {
	case 0:
		p.newFails = rapid.IntRange(0, 3).Draw(t, "newfails") == 0
		if rapid.IntRange(0, 5).Draw(t, "bad id") == 0 {
			p.badID = rapid.SampledFrom([]string{`"zz"`, `{}`, `[]`, `true`, `"0xg"`, `["0x1"]`, `"latest"`, `null`}).Draw(t, "bad id")
		}
	case 1, 2:
		p.failAt = rapid.IntRange(0, polls-1).Draw(t, "failat")
	case 3, 4:
		p.closeAfter = rapid.IntRange(0, total).Draw(t, "closeafter")
	}
	return p
}

// run drives one filter against a node that follows the plan.
func (p *filterPlan) run() error {
	n := &fakeNode{}
	poll, removed := 0, 0
	var created []interface{}
	var complaint string
	n.answer = func(r rcall) (string, error) {
		if r.method != "eth_newFilter" && (len(r.params) != 1 || string(mustJSON(r.params[0])) != p.id) {
			complaint = fmt.Sprintf("%s sent for filter %s", r.raw, p.id)
		}
		switch r.method {
		case "eth_newFilter":
			created = r.params
			if p.badID != "" {
				return `"result":` + p.badID, nil
			}
			if p.newFails {
				return `"error":{"code":-7,"message":"no"}`, nil
			}
			return `"result":` + p.id, nil
		case "eth_uninstallFilter":
			removed++
			if removed > 1 {
				return `"result":false`, nil
			}
			return `"result":true`, nil
		case "eth_getFilterLogs", "eth_getFilterChanges":
			if removed > 0 {
				return `"error":{"code":-32000,"message":"filter not found"}`, nil
			}
			if (poll == 0) != (r.method == "eth_getFilterLogs") {
				complaint = fmt.Sprintf("poll %d is %s", poll, r.method)
			}
			at := poll
			poll++
			if at == p.failAt {
				return `"error":{"code":-9,"message":"broken"}`, nil
			}
			if at >= len(p.polls) {
				return `"result":[]`, nil
			}
			if p.polls[at] == nil {
				return `"result":[]`, nil
			}
			return `"result":` + string(mustJSON(p.polls[at])), nil
		}
		return "", errors.New("unexpected " + r.raw)
	}
	client := seth.NewClientTransport(n)
	var f *seth.Filter
	var err error
	if p.transfers {
		f, err = client.TokenTransfers(p.from, p.to, p.addr, p.start, p.end)
	} else {
		f, err = client.FilterTopics(p.topics, p.addr, p.start, p.end)
	}
	if p.badID != "" {
		if err == nil {
			return fmt.Errorf("%v: the node's id is %s, but no error is returned", p, p.badID)
		}
		return nil
	}
	if p.newFails {
		var e *seth.RPCError
		if !errors.As(err, &e) || e.Code != -7 {
			return fmt.Errorf("%v: creation failed but returned %v", p, err)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("%v: %v", p, err)
	}
	// the request
	want := map[string]interface{}{"fromBlock": "latest", "toBlock": "latest"}
	if p.start >= 0 {
		want["fromBlock"] = fmt.Sprintf("0x%x", p.start)
	}
	if p.end >= 0 {
		want["toBlock"] = fmt.Sprintf("0x%x", p.end)
	}
	if p.addr != nil {
		want["address"] = hx(p.addr[:])
	}
	var topics []interface{}
	for _, h := range p.topics {
		if h == nil {
			topics = append(topics, nil)
		} else {
			topics = append(topics, hx(h[:]))
		}
	}
	if p.transfers {
		topics = []interface{}{"0xddf252ad1be2c89b69c2b068fc378daa952ba7f163c4a11628f55a4df523b3ef", nil, nil}
		for i, a := range []*seth.Address{p.from, p.to} {
			if a != nil {
				topics[i+1] = "0x000000000000000000000000" + hx(a[:])[2:]
			}
		}
	}
	if len(topics) > 0 {
		want["topics"] = topics
	}
	if len(created) != 1 || canon(created[0]) != canon(want) {
		return fmt.Errorf("%v: created with %s, want %s", p, mustJSON(created), canon(want))
	}
	// what must arrive
	var expect []seth.Log
	for i, l := range p.polls {
		if i == p.failAt {
			break
		}
		expect = append(expect, l...)
	}
	var got []*seth.Log
	wait := time.NewTimer(vk.Patience(patience))
	defer wait.Stop()
	live := p.start < 0
	closed := false
	stop := len(expect)
	if p.closeAfter >= 0 && p.closeAfter < stop {
		stop = p.closeAfter
	}
	ended := live && p.failAt < 0 || p.closeAfter >= 0 // the test closes it
	late := 0
	for {
		if ended && !closed && len(got) >= stop {
			closed = true
			var wg sync.WaitGroup
			for i := 0; i < p.closers; i++ {
				wg.Add(1)
				go func() { defer wg.Done(); f.Close() }()
			}
			wg.Wait()
			wait.Reset(vk.Patience(patience))
		}
		select {
		case l, ok := <-f.Out():
			if !ok {
				goto end
			}
			got = append(got, l)
			if closed {
				late++
			}
		case <-wait.C:
			vk.Hung()
			return fmt.Errorf("%v: nothing happens after %d of %d logs (closed: %v)", p, len(got), len(expect), closed)
		}
	}
end:
	if len(got) > len(expect) {
		return fmt.Errorf("%v: %d logs delivered, the node reported %d", p, len(got), len(expect))
	}
	for i := range got {
		if !sameVal(got[i], &expect[i]) {
			return fmt.Errorf("%v: log %d is %s, want %s", p, i, mustJSON(got[i]), mustJSON(&expect[i]))
		}
	}
	if !closed && len(got) != len(expect) {
		return fmt.Errorf("%v: ended after %d of %d logs, error %v", p, len(got), len(expect), f.Err())
	}
	if late > 150 {
		return fmt.Errorf("%v: %d logs delivered after closing", p, late)
	}
	n.mu.Lock()
	defer n.mu.Unlock()
	if complaint != "" || n.bad != "" {
		return fmt.Errorf("%v: %s %s", p, complaint, n.bad)
	}
	if closed && removed != 1 {
		return fmt.Errorf("%v: closed, but removed %d times from the node", p, removed)
	}
	failed := p.failAt >= 0 && p.failAt < poll
	var e *seth.RPCError
	if err := f.Err(); failed && !closed && (!errors.As(err, &e) || e.Code != -9) {
		return fmt.Errorf("%v: ended with %v instead of the node's error", p, err)
	} else if !failed && err != nil {
		return fmt.Errorf("%v: ended with error %v", p, err)
	}
	return nil
}

func TestC16(t *testing.T) {
	p := vk.Start(t, "C16", "batches of filters, each with drawn topics, addresses, block range and id (up to 128 bits, or none at all), against a node that reports drawn logs over up to 4 polls, may fail at any of them, and a consumer that closes at a drawn point, from several goroutines at once; non-trivial: a distinct plan (built with the race detector)",
		"polls are a second apart, so live filters run in batches")

	one := func(c *vk.C, n int, live bool) {
		var plans []*filterPlan
		for i := 0; i < n; i++ {
			plans = append(plans, genPlan(c.T, live, i))
		}
		batch(c, n, func(i int) error { return plans[i].run() })
		for _, q := range plans {
			c.NonTrivial(q.String())
			c.Sample("%v", q)
		}
	}
	p.Check("history", 400, 10000, func(c *vk.C) { one(c, 3, false) })
	p.Check("large", 1, 5, func(c *vk.C) {
		q := genPlan(c.T, false, 0)
		q.badID, q.newFails, q.failAt, q.closeAfter = "", false, -1, -1
		var logs []seth.Log
		for i := 66000 + rapid.IntRange(0, 3000).Draw(c.T, "logs"); i > 0; i-- {
			idx := seth.Uint64(i)
			logs = append(logs, seth.Log{LogIndex: &idx, Data: seth.Data{byte(i)}, Topics: []seth.Data{}})
		}
		q.polls[0] = logs
		if err := q.run(); err != nil {
			c.Fatalf("%d logs: %.500v", len(logs), err)
		}
		c.NonTrivial(len(logs), q.start, q.end)
		c.Sample("%d logs", len(logs))
	})
	p.Check("live", 4, 60, func(c *vk.C) { one(c, 80, true) })

	p.Check("abandoned", 2, 20, func(c *vk.C) {
		// filters nobody reads from any more must end when they are closed
		base := runtime.NumGoroutine()
		n := 40
		var fs []*seth.Filter
		for i := 0; i < n; i++ {
			q := genPlan(c.T, true, i)
			logs := make([]seth.Log, 60)
			nd := &fakeNode{answer: func(r rcall) (string, error) {
				switch r.method {
				case "eth_newFilter":
					return `"result":` + q.id, nil
				case "eth_uninstallFilter":
					return `"result":true`, nil
				}
				return `"result":` + string(mustJSON(logs)), nil
			}}
			f, err := seth.NewClientTransport(nd).FilterTopics(q.topics, q.addr, q.start, q.end)
			if err != nil {
				c.Fatalf("%v", err)
			}
			fs = append(fs, f)
			c.NonTrivial(q.String())
		}
		time.Sleep(time.Duration(rapid.IntRange(0, 30).Draw(c.T, "ms")) * time.Millisecond)
		for _, f := range fs {
			f.Close()
		}
		awaitGoroutines(c, base+n/4)
	})
}

// awaitGoroutines waits for at most n goroutines to be left.
func awaitGoroutines(c *vk.C, n int) {
	for start := time.Now(); runtime.NumGoroutine() > n; time.Sleep(5 * time.Millisecond) {
		if time.Since(start) > vk.Patience(patience) {
			vk.Hung()
			buf := make([]byte, 1<<14)
			buf = buf[:runtime.Stack(buf, true)]
			c.Fatalf("%d goroutines are left (want at most %d):\n%s", runtime.NumGoroutine(), n, buf)
		}
	}
}

// blockPlan is what one iterator sees.
type blockPlan struct {
	from  int64
	txs   bool
	read  int              // blocks the consumer reads
	holes map[int64]string // what a block's first requests give: n(ull), e(rror), t(ransport)
}

func (p *blockPlan) run() error {
	n := &fakeNode{}
	left := map[int64]string{}
	for k, v := range p.holes {
		left[k] = v
	}
	var complaint string
	n.answer = func(r rcall) (string, error) {
		var num seth.Uint64
		if r.method != "eth_getBlockByNumber" || len(r.params) != 2 || r.params[1] != p.txs {
			complaint = r.raw
			return `"result":null`, nil
		}
		if r.params[0] != "earliest" {
			if err := json.Unmarshal(mustJSON(r.params[0]), &num); err != nil {
				complaint = r.raw
				return `"result":null`, nil
			}
		}
		if h := left[int64(num)]; h != "" {
			left[int64(num)] = h[1:]
			switch h[0] {
			case 'n':
				return `"result":null`, nil
			case 'e':
				return `"error":{"code":-1,"message":"busy"}`, nil
			}
			return "", errors.New("transport down")
		}
		b := seth.Block{Number: &num, Extra: seth.Data(fmt.Sprint("block ", uint64(num)))}
		return `"result":` + string(mustJSON(&b)), nil
	}
	it := seth.NewClientTransport(n).IterateBlocks(p.from, p.txs)
	wait := time.NewTimer(vk.Patience(patience))
	defer wait.Stop()
	next := p.from
	check := func(b *seth.Block) error {
		if b == nil || b.Number == nil || int64(*b.Number) != next || string(b.Extra) != fmt.Sprint("block ", next) {
			return fmt.Errorf("%+v: block %s delivered, want number %d", p, mustJSON(b), next)
		}
		next++
		return nil
	}
	for i := 0; i < p.read; i++ {
		select {
		case b, ok := <-it.Next():
			if !ok {
				return fmt.Errorf("%+v: closed before it was stopped, at block %d", p, next)
			}
			if err := check(b); err != nil {
				return err
			}
		case <-wait.C:
			vk.Hung()
			return fmt.Errorf("%+v: block %d does not come", p, next)
		}
	}
	it.Stop()
	wait.Reset(vk.Patience(patience))
	for late := 0; ; late++ {
		select {
		case b, ok := <-it.Next():
			if !ok {
				n.mu.Lock()
				defer n.mu.Unlock()
				if complaint != "" {
					return fmt.Errorf("%+v: request %s", p, complaint)
				}
				return nil
			}
			if err := check(b); err != nil {
				return err
			}
			if late > 500 {
				return fmt.Errorf("%+v: goes on after it was stopped", p)
			}
		case <-wait.C:
			vk.Hung()
			return fmt.Errorf("%+v: stopped at block %d but not closed", p, next)
		}
	}
}

func TestC17(t *testing.T) {
	p := vk.Start(t, "C17", "batches of iterators from drawn block numbers over chains in which drawn blocks are first missing, erroring or unreachable, read for up to 150 blocks and stopped; non-trivial: a distinct plan (built with the race detector)",
		"retries are a second apart, so iterators run in batches")

	genBlocks := func(t *rapid.T, holes int) *blockPlan {
		q := &blockPlan{from: rapid.OneOf(rapid.SampledFrom([]int64{0, 1, 15, 16, 1 << 32}), rapid.Int64Range(0, 1<<50)).Draw(t, "from"),
			txs: rapid.Bool().Draw(t, "txs"), read: rapid.SampledFrom([]int{0, 1, 2, 5, 63, 64, 65, 66, 150}).Draw(t, "read"), holes: map[int64]string{}}
		for i := rapid.IntRange(0, holes).Draw(t, "holes"); i > 0; i-- {
			at := q.from + int64(rapid.IntRange(0, q.read+2).Draw(t, "at"))
			q.holes[at] += rapid.SampledFrom([]string{"n", "e", "t"}).Draw(t, "hole")
		}
		return q
	}
	one := func(c *vk.C, n, holes int) {
		var plans []*blockPlan
		for i := 0; i < n; i++ {
			plans = append(plans, genBlocks(c.T, holes))
		}
		batch(c, n, func(i int) error { return plans[i].run() })
		for _, q := range plans {
			c.NonTrivial(fmt.Sprintf("%+v", q))
			c.Sample("%+v", *q)
		}
	}
	p.Check("smooth", 60, 3000, func(c *vk.C) { one(c, 4, 0) })
	p.Check("rough", 4, 60, func(c *vk.C) { one(c, 80, 3) })

	p.Check("abandoned", 2, 20, func(c *vk.C) {
		base := runtime.NumGoroutine()
		n := 40
		var its []*seth.BlockIterator
		nd := &fakeNode{answer: func(r rcall) (string, error) {
			num := seth.Uint64(1)
			return `"result":` + string(mustJSON(&seth.Block{Number: &num})), nil
		}}
		for i := 0; i < n; i++ {
			q := genBlocks(c.T, 0)
			its = append(its, seth.NewClientTransport(nd).IterateBlocks(q.from, q.txs))
			c.NonTrivial(fmt.Sprint(q.from, i))
		}
		time.Sleep(time.Duration(rapid.IntRange(0, 60).Draw(c.T, "ms")) * time.Millisecond)
		for _, it := range its {
			it.Stop()
		}
		awaitGoroutines(c, base+n/4)
	})
}

// waitPlan is one transaction's life, or a sender's.
type waitPlan struct {
	drain bool
	// for Wait: the node's successive answers, p(ending), m(ined), n(ull), e(rror)
	answers string
	// for Drain: how many lookups each of the sender's transactions stays
	// pending, and how many of others' are around
	mine   []int
	others int
	blockE int // the pending-block lookup that fails, or -1
	lookE  int // for Drain: the transaction lookup that fails, or -1
	addr   seth.Address
	index  uint64 // where in its block a mined transaction is
}

func (p *waitPlan) run() error {
	n := &fakeNode{}
	idx := seth.Uint64(p.index)
	var complaint string
	sawNone := false // the last pending block had nothing of the sender's
	lookups, blocks := 0, 0
	left := append([]int{}, p.mine...)
	hashOf := func(i int) seth.Hash { return seth.Hash{0xaa, byte(i)} }
	n.answer = func(r rcall) (string, error) {
		switch r.method {
		case "eth_getTransactionByHash":
			var h seth.Hash
			json.Unmarshal(mustJSON(r.params[0]), &h)
			if p.drain {
				i := int(h[1])
				if h[0] != 0xaa || i >= len(left) {
					complaint = "waits for a transaction that is not the sender's: " + r.raw
					return `"result":null`, nil
				}
				lookups++
				if lookups-1 == p.lookE {
					return `"error":{"code":-5,"message":"no"}`, nil
				}
				tx := seth.Transaction{Hash: h}
				if left[i]--; left[i] < 0 {
					tx.TxIndex = &idx
				}
				return `"result":` + string(mustJSON(&tx)), nil
			}
			if h != (seth.Hash{1, 2, 3}) {
				complaint = r.raw
			}
			a := p.answers[len(p.answers)-1]
			if lookups < len(p.answers) {
				a = p.answers[lookups]
			}
			lookups++
			tx := seth.Transaction{Hash: h}
			switch a {
			case 'n':
				return `"result":null`, nil
			case 'e':
				return `"error":{"code":-3,"message":"no"}`, nil
			case 'm':
				tx.TxIndex = &idx
			}
			return `"result":` + string(mustJSON(&tx)), nil
		case "eth_getBlockByNumber":
			if len(r.params) != 2 || r.params[0] != "pending" || r.params[1] != true {
				complaint = r.raw
			}
			if blocks == p.blockE {
				blocks++
				return `"error":{"code":-4,"message":"no"}`, nil
			}
			blocks++
			sawNone = true
			var txs []json.RawMessage
			for i := 0; i < p.others; i++ {
				o := p.addr
				o[i%20] ^= 1 << uint(i%8)
				txs = append(txs, mustJSON(&seth.Transaction{Hash: seth.Hash{0xbb, byte(i), byte(i >> 8)}, From: &o}))
			}
			for i, l := range left {
				if l >= 0 {
					a := p.addr
					txs = append(txs, mustJSON(&seth.Transaction{Hash: hashOf(i), From: &a}))
					sawNone = false
				}
			}
			b := seth.Block{Transactions: txs}
			return `"result":` + string(mustJSON(&b)), nil
		}
		return "", errors.New("unexpected " + r.raw)
	}
	a := p.addr
	s := seth.NewSender(seth.NewClientTransport(n), &a)
	if !p.drain {
		h := seth.Hash{1, 2, 3}
		err := s.Wait(&h)
		if complaint != "" {
			return fmt.Errorf("%+v: %s", p, complaint)
		}
		k := strings.IndexAny(p.answers, "mne")
		var e *seth.RPCError
		switch p.answers[k] {
		case 'm':
			if err != nil {
				return fmt.Errorf("%+v: mined, but Wait returns %v", p, err)
			}
		case 'n':
			if err != seth.ErrNotFound {
				return fmt.Errorf("%+v: not found, but Wait returns %v", p, err)
			}
		case 'e':
			if !errors.As(err, &e) || e.Code != -3 {
				return fmt.Errorf("%+v: Wait returns %v", p, err)
			}
		}
		if lookups != k+1 {
			return fmt.Errorf("%+v: Wait returns after %d lookups instead of %d", p, lookups, k+1)
		}
		return nil
	}
	var prompted []seth.Hash
	err := s.Drain(func(t *seth.Transaction) { prompted = append(prompted, t.Hash) })
	if complaint != "" {
		return fmt.Errorf("%+v: %s", p, complaint)
	}
	if p.blockE >= 0 && blocks > p.blockE {
		var e *seth.RPCError
		if !errors.As(err, &e) || e.Code != -4 {
			return fmt.Errorf("%+v: Drain returns %v", p, err)
		}
		return nil
	}
	if p.lookE >= 0 && lookups > p.lookE {
		var e *seth.RPCError
		if !errors.As(err, &e) || e.Code != -5 || lookups != p.lookE+1 {
			return fmt.Errorf("%+v: lookup %d of %d fails, but Drain returns %v", p, p.lookE, lookups, err)
		}
		return nil
	}
	if err != nil || !sawNone {
		return fmt.Errorf("%+v: Drain returns %v with the sender's transactions still pending: %v", p, err, left)
	}
	if len(p.mine) == 0 && (lookups > 0 || len(prompted) > 0) {
		return fmt.Errorf("%+v: nothing is pending, but Drain makes %d lookups", p, lookups)
	}
	for _, h := range prompted {
		if h[0] != 0xaa {
			return fmt.Errorf("%+v: Drain waits for %s, which is not the sender's", p, &h)
		}
	}
	return nil
}

func TestC19(t *testing.T) {
	p := vk.Start(t, "C19", "batches of senders waiting for a transaction whose lookups give drawn answers, or draining a drawn set of pending transactions that are mined after drawn numbers of lookups, among other senders' transactions; non-trivial: a distinct plan that polls more than once or fails",
		"polls are two seconds apart, so senders run in batches")

	genWait := func(t *rapid.T, polls int) *waitPlan {
		q := &waitPlan{drain: rapid.Bool().Draw(t, "drain"), addr: gen.Address().Draw(t, "addr"), blockE: -1, lookE: -1}
		q.answers = strings.Repeat("p", rapid.IntRange(0, polls).Draw(t, "pending")) + rapid.SampledFrom([]string{"m", "m", "n", "e"}).Draw(t, "end")
		for i := rapid.IntRange(0, 3).Draw(t, "mine"); i > 0; i-- {
			q.mine = append(q.mine, rapid.IntRange(0, polls).Draw(t, "stays"))
		}
		q.others = rapid.IntRange(0, 4).Draw(t, "others")
		if rapid.IntRange(0, 60).Draw(t, "full") == 0 {
			q.others = rapid.SampledFrom([]int{100, 256, 300, 1023, 1024, 1100, 2100}).Draw(t, "many")
		}
		if rapid.IntRange(0, 4).Draw(t, "failing") == 0 {
			q.blockE = rapid.IntRange(0, 2).Draw(t, "blockerror")
		}
		if rapid.IntRange(0, 4).Draw(t, "failing lookup") == 0 {
			q.lookE = rapid.IntRange(0, 2).Draw(t, "lookuperror")
		}
		q.index = rapid.SampledFrom([]uint64{0, 0, 1, 2, 3, 127, 1 << 40, 1<<64 - 1}).Draw(t, "index")
		return q
	}
	one := func(c *vk.C, n, polls int) {
		var plans []*waitPlan
		for i := 0; i < n; i++ {
			plans = append(plans, genWait(c.T, polls))
		}
		batch(c, n, func(i int) error { return plans[i].run() })
		for _, q := range plans {
			c.NonTrivial(fmt.Sprintf("%+v", q))
			c.Sample("%+v", *q)
		}
	}
	p.Check("prompt", 400, 10000, func(c *vk.C) { one(c, 3, 0) })
	p.Check("polling", 3, 40, func(c *vk.C) { one(c, 150, 2) })
}
