package tevmp

import (
	"encoding/json"
	"fmt"
	"math/big"
	"strings"
	"testing"

	"github.com/ethereum/go-ethereum/common"
	"github.com/philhofer/seth"
	"github.com/philhofer/seth/tevm"
	"pgregory.net/rapid"

	"verif/harness/gen"
	"verif/harness/vk"
)

// TestC28: what blocks, transactions and receipts say about a history.
func TestC28(t *testing.T) {
	p := vk.Start(t, "C28", "a case is non-trivial if it sealed at least 2 blocks with transactions, one of which had 2 or more of them, and some transaction failed, created a contract or logged",
		"BLOCKHASH of blocks from before the simulated chain is unspecified",
		"the address in the receipt of a failed creation is unspecified")

	p.Check("long", 2, 20, longRecords)
	p.Check("block of many", 1, 3, longBlockOfMany)
	p.Check("records", 1200, 25000, func(c *vk.C) {
		tw := newTwin(c, rapid.IntRange(1, 3).Draw(c.T, "contracts"), 1)
		nops := rapid.IntRange(2, 16).Draw(c.T, "nops")
		for i := 0; i < nops; i++ {
			o := tw.drawOp(opMine, opMine, opMine, opMine, opMine, opSeal, opSeal, opRPCSend, opCall, opCreate, opSend)
			if !tw.do(o) {
				c.Class("blockhash from before the chain")
				return
			}
			tw.check()
			tw.checkTotal()
			if o.kind == opSeal {
				tw.checkRecords()
			}
		}
		tw.checkRecords()
		if logs := tw.chain.Logs(); len(logs) != len(tw.ref.logs) {
			tw.fatalf("the chain lists %d logs, want %d", len(logs), len(tw.ref.logs))
		}
		var some, many, failed, created, logged int
		for _, b := range tw.sealed {
			if len(b.txs) > 0 {
				some++
			}
			if len(b.txs) > 1 {
				many++
			}
			for _, m := range b.txs {
				if !m.ok {
					failed++
				} else if m.tx.to == nil {
					created++
				}
				logged += len(m.logs)
			}
		}
		if some >= 2 && many >= 1 && failed+created+logged > 0 {
			c.NonTrivial(strings.Join(tw.trace, ";"))
		}
		if logged > 0 {
			c.Class("logs in receipts")
		}
		if failed > 0 {
			c.Class("failed transactions")
		}
		c.Sample("%s", strings.Join(tw.trace, "; "))
	})

	// long runs of simple transfers: many blocks, many transactions in one
	p.Check("transfers", 60, 1500, func(c *vk.C) {
		chain := tevm.NewChain()
		var addrs []seth.Address
		bal := map[seth.Address]*big.Int{}
		nonce := map[seth.Address]uint64{}
		for i := 0; i < 4; i++ {
			e := rapid.IntRange(0, 1000).Draw(c.T, "ether")
			a := chain.NewAccount(e)
			addrs = append(addrs, a)
			bal[a] = new(big.Int).Mul(big.NewInt(int64(e)), big.NewInt(1e18))
		}
		type rec struct {
			hash     seth.Hash
			block    uint64
			index    int
			from, to seth.Address
			ok       bool
			nonce    uint64
		}
		var recs []rec
		first := uint64(*chain.State.Pending.Number)
		cur := first
		inblock := 0
		counts := map[uint64]int{}
		n := rapid.IntRange(1, 300).Draw(c.T, "n")
		odds := rapid.IntRange(1, 100).Draw(c.T, "odds")
		for i := 0; i < n; i++ {
			if rapid.IntRange(0, odds).Draw(c.T, "seal") == 0 {
				chain.Seal()
				counts[cur] = inblock
				cur++
				inblock = 0
				continue
			}
			from, to := rapid.SampledFrom(addrs).Draw(c.T, "from"), rapid.SampledFrom(addrs).Draw(c.T, "to")
			v := gen.Big(70).Draw(c.T, "v")
			ok := bal[from].Cmp(v) >= 0
			_, h, err := chain.Mine(&seth.Transaction{From: &from, To: &to, Value: seth.Int(*new(big.Int).Set(v)), Gas: 21000})
			if (err == nil) != ok {
				c.Fatalf("transfer of %v from a balance of %v: %v", v, bal[from], err)
			}
			recs = append(recs, rec{h, cur, inblock, from, to, ok, nonce[from]})
			nonce[from]++
			inblock++
			if ok {
				bal[from] = new(big.Int).Sub(bal[from], v)
				bal[to] = new(big.Int).Add(bal[to], v)
			}
		}
		counts[cur] = inblock
		chain.Seal()
		cl := chain.Client()
		for a, want := range bal {
			a := a
			if got := chain.BalanceOf(&a); got.Cmp(want) != 0 {
				c.Fatalf("balance is %v, want %v", got, want)
			}
			if got := chain.State.StateDB().GetNonce(common.Address(a)); got != nonce[a] {
				c.Fatalf("nonce is %d after %d transactions", got, nonce[a])
			}
		}
		seen := map[seth.Hash]bool{}
		for _, r := range recs {
			if seen[r.hash] {
				c.Fatalf("two transactions have the hash %x", r.hash[:])
			}
			seen[r.hash] = true
			tx, err := cl.GetTransaction(&r.hash)
			if err != nil {
				c.Fatalf("GetTransaction: %v", err)
			}
			rx, err := cl.GetReceipt(&r.hash)
			if err != nil {
				c.Fatalf("GetReceipt: %v", err)
			}
			if uint64(tx.BlockNumber) != r.block || uint64(rx.BlockNumber) != r.block || tx.TxIndex == nil || int(*tx.TxIndex) != r.index || int(rx.Index) != r.index {
				c.Fatalf("transaction %d of block %d is reported in block %d at %v, its receipt in block %d at %d", r.index, r.block, tx.BlockNumber, tx.TxIndex, rx.BlockNumber, rx.Index)
			}
			if uint64(tx.Nonce) != r.nonce || *tx.From != r.from || *tx.To != r.to || rx.Threw() == r.ok {
				c.Fatalf("transaction %d of block %d is misreported: %v %v", r.index, r.block, tx, rx)
			}
			if tx.Block != rx.BlockHash {
				c.Fatalf("the block of a transaction and of its receipt differ")
			}
		}
		var parent seth.Hash
		for b := first; b <= cur; b++ {
			blk, err := cl.GetBlock(int64(b), false)
			if err != nil {
				c.Fatalf("GetBlock(%d): %v", b, err)
			}
			if len(blk.Transactions) != counts[b] {
				c.Fatalf("block %d has %d transactions, want %d", b, len(blk.Transactions), counts[b])
			}
			if b > first && blk.Parent != parent {
				c.Fatalf("the parent of block %d is not block %d", b, b-1)
			}
			parent = *blk.Hash
			for i, raw := range blk.Transactions {
				var h seth.Hash
				if json.Unmarshal(raw, &h) != nil || !seen[h] {
					c.Fatalf("transaction %d of block %d is %s, which is none", i, b, raw)
				}
				delete(seen, h)
			}
		}
		if len(seen) != 0 {
			c.Fatalf("%d transactions are in no block", len(seen))
		}
		if n >= 20 && cur > first+1 {
			c.NonTrivial(n, odds, len(recs), cur)
		}
		c.Sample("%d transactions in %d blocks", len(recs), cur-first+1)
		c.Class(fmt.Sprintf("%d blocks", (cur-first)/20*20))
	})
}
