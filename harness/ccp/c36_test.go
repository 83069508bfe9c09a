package ccp

import (
	"math/big"
	"testing"

	"github.com/philhofer/seth/cc"
	"pgregory.net/rapid"

	"verif/harness/vk"
)

func TestC36(t *testing.T) {
	p := vk.Start(t, "C36", "at least two operations combine amounts and a nonzero result appears",
		"the zero Amount{} (no currency) takes the currency of what is added to it, as in the code's comments")

	p.Check("histories", 15000, 400000, func(c *vk.C) {
		// a few amounts, the same currency more often than not, some with no currency
		base := []cur{drawCur(c.T, "cur0"), drawCur(c.T, "cur1")}
		type entry struct {
			name string // "": uninitialised
			raw  *big.Int
		}
		var real []*cc.Amount
		var model []entry
		add := func(a *cc.Amount, e entry) {
			real = append(real, a)
			model = append(model, e)
		}
		for n := rapid.IntRange(2, 4).Draw(c.T, "amounts"); n > 0; n-- {
			i := rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(c.T, "which")
			if i == 2 {
				add(new(cc.Amount), entry{"", new(big.Int)})
				continue
			}
			raw := drawRaw(c.T, base[i].digits, "raw")
			a := &cc.Amount{Currency: base[i].c}
			a.Amount.Set(raw)
			add(a, entry{string(base[i].c), raw})
		}
		combined, refused := 0, 0
		var log []string
		verify := func() {
			for i, a := range real {
				if string(a.Currency) != model[i].name || a.Amount.Cmp(model[i].raw) != 0 {
					c.Fatalf("after %v: amount %d is %s %q, want %s %q", log, i, a.Amount.String(), string(a.Currency), model[i].raw, model[i].name)
				}
			}
		}
		for n := rapid.IntRange(1, 14).Draw(c.T, "ops"); n > 0; n-- {
			i := rapid.IntRange(0, len(real)-1).Draw(c.T, "i")
			j := rapid.IntRange(0, len(real)-1).Draw(c.T, "j")
			a, x, ma, mx := real[i], real[j], &model[i], model[j]
			op := rapid.SampledFrom([]string{"Add", "Add", "Sub", "Sub", "Neg", "Cmp", "Copy", "Set", "Sign"}).Draw(c.T, "op")
			log = append(log, op+"("+string(rune('0'+i))+","+string(rune('0'+j))+")")
			fresh := ma.name == "" && ma.raw.Sign() == 0
			mismatch := ma.name != mx.name
			ret := a
			switch op {
			case "Add", "Sub":
				msg := vk.Trap(func() {
					if op == "Add" {
						ret = a.Add(x)
					} else {
						ret = a.Sub(x)
					}
				})
				if !fresh && mismatch {
					refused++
					if msg == "" {
						c.Fatalf("after %v: %s of %q and %q is not refused", log, op, ma.name, mx.name)
					}
					break
				}
				if msg != "" {
					c.Fatalf("after %v: %s of %q and %q panics: %s", log, op, ma.name, mx.name, msg)
				}
				if op == "Add" {
					*ma = entry{mx.name, new(big.Int).Add(ma.raw, mx.raw)}
				} else {
					*ma = entry{mx.name, new(big.Int).Sub(ma.raw, mx.raw)}
				}
				combined++
			case "Neg":
				ret = a.Neg()
				*ma = entry{ma.name, new(big.Int).Neg(ma.raw)}
			case "Cmp":
				var got int
				msg := vk.Trap(func() { got = a.Cmp(x) })
				if mismatch != (msg != "") {
					c.Fatalf("after %v: comparing %q with %q: panic %q", log, ma.name, mx.name, msg)
				}
				if msg == "" && got != ma.raw.Cmp(mx.raw) {
					c.Fatalf("after %v: comparing %s with %s gives %d", log, ma.raw, mx.raw, got)
				}
			case "Sign":
				if got := a.Sign(); got != ma.raw.Sign() {
					c.Fatalf("after %v: sign of %s is %d", log, ma.raw, got)
				}
			case "Set":
				ret = a.Set(x)
				*ma = mx
			case "Copy":
				if len(real) > 8 {
					break
				}
				n := x.Copy()
				if n == x {
					c.Fatalf("Copy returns its receiver")
				}
				add(n, mx)
			}
			if ret != a {
				c.Fatalf("after %v: %s does not return its receiver", log, op)
			}
			verify()
		}
		if combined >= 2 {
			for _, m := range model {
				if m.raw.Sign() != 0 {
					c.NonTrivial(log, m.raw)
					break
				}
			}
		}
		if refused > 0 {
			c.Class("mismatch-refused")
		}
		c.Sample("%v", log)
	})

	// sums do not depend on order, grouping or signs taken apart
	p.Check("large", 1500, 20000, largeArith)

	p.Check("sums", 6000, 160000, func(c *vk.C) {
		k := drawCur(c.T, "cur")
		n := rapid.IntRange(1, 12).Draw(c.T, "n")
		var parts []*cc.Amount
		total := new(big.Int)
		for i := 0; i < n; i++ {
			raw := drawRaw(c.T, k.digits, "raw")
			a, err := k.c.ParseAmount(decimal(raw, k.digits))
			if err != nil {
				c.Fatalf("%v", err)
			}
			parts = append(parts, a)
			total.Add(total, raw)
		}
		var sum, diff cc.Amount
		for _, i := range rapid.Permutation(seq(n)).Draw(c.T, "order") {
			sum.Add(parts[i])
			diff.Sub(parts[i])
		}
		if total.Sign() != 0 && n > 1 {
			c.NonTrivial(total)
		}
		c.Sample("%d parts sum to %s", n, total)
		want := decimal(total, k.digits) + " " + string(k.c)
		if sum.String() != want {
			c.Fatalf("the sum prints %q, want %q", sum.String(), want)
		}
		if diff.Neg().String() != want {
			c.Fatalf("the negated difference prints %q, want %q", diff.String(), want)
		}
		if sum.Cmp(&diff) != 0 {
			c.Fatalf("%s and %s compare different", &sum, &diff)
		}
	})
}

func seq(n int) []int {
	s := make([]int, n)
	for i := range s {
		s[i] = i
	}
	return s
}
