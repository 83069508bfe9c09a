package ccp

import (
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"

	"github.com/philhofer/seth/cc"
	"pgregory.net/rapid"

	"verif/harness/vk"
)

// The checks here repeat the central comparisons of C35, C36 and C37 with
// numbers of up to some 2,500 digits.

// wide is a number of up to bits bits that follows from a seed.
func wide(t *rapid.T, label string, bits int) *big.Int {
	n := rapid.IntRange(250, bits).Draw(t, label+" bits")
	r := rand.New(rand.NewSource(int64(rapid.IntRange(0, 1<<30).Draw(t, label+" seed"))))
	x := new(big.Int).Rand(r, new(big.Int).Lsh(big.NewInt(1), uint(n)))
	if rapid.IntRange(0, 3).Draw(t, label+" round") == 0 {
		x.Sub(x, new(big.Int).Mod(x, pow10(n/4)))
	}
	if rapid.Bool().Draw(t, label+" neg") {
		x.Neg(x)
	}
	return x
}

func largeText(c *vk.C) {
	k := drawCur(c.T, "cur")
	raw := wide(c.T, "raw", 8500)
	a := &cc.Amount{Currency: k.c}
	a.Amount.Set(raw)
	num := decimal(raw, k.digits)
	want := num + " " + string(k.c)
	c.NonTrivial(want)
	c.Class("large")
	c.Sample("%d bits of %s", raw.BitLen(), k.c)
	text, err := a.MarshalText()
	if a.String() != want || fmt.Sprint(a) != want || err != nil || string(text) != want {
		c.Fatalf("%s units of %d digits are printed %q (%q, %v)", raw, k.digits, a.String(), text, err)
	}
	got, err := cc.ParseAmount(want)
	if err != nil {
		c.Fatalf("ParseAmount(%q): %v", want, err)
	}
	wantAmount(c, "ParseAmount", got, k, raw)
	got, err = k.c.ParseAmount(num)
	if err != nil {
		c.Fatalf("%s.ParseAmount(%q): %v", k.c, num, err)
	}
	wantAmount(c, "Currency.ParseAmount", got, k, raw)
	r := receiver(c)
	if n, err := fmt.Sscan(want, r); err != nil || n != 1 {
		c.Fatalf("Sscan(%q): %d, %v", want, n, err)
	}
	wantAmount(c, "Sscan", r, k, raw)
	js, err := json.Marshal(a)
	r = receiver(c)
	if err != nil || json.Unmarshal(js, r) != nil {
		c.Fatalf("JSON %s of %s: %v", js, want, err)
	}
	wantAmount(c, "JSON", r, k, raw)
	if k.digits > 0 {
		if got, err := k.c.ParseAmount(num + "0"); err == nil {
			c.Fatalf("%s.ParseAmount(%q) reads too many decimals as %s", k.c, num+"0", got)
		}
	}
}

func largeArith(c *vk.C) {
	k := drawCur(c.T, "cur")
	x, y := wide(c.T, "x", 8500), wide(c.T, "y", 8500)
	if rapid.Bool().Draw(c.T, "near") {
		y = new(big.Int).Add(x, big.NewInt(int64(rapid.IntRange(-2, 2).Draw(c.T, "by"))))
	}
	a, b := &cc.Amount{Currency: k.c}, &cc.Amount{Currency: k.c}
	a.Amount.Set(x)
	b.Amount.Set(y)
	c.NonTrivial(x, y)
	c.Class("large")
	c.Sample("%d and %d bits of %s", x.BitLen(), y.BitLen(), k.c)
	if got := a.Cmp(b); got != x.Cmp(y) {
		c.Fatalf("Cmp of %s and %s is %d", a, b, got)
	}
	cp := a.Copy()
	wantAmount(c, "Copy", cp, k, x)
	if a.Sign() != x.Sign() {
		c.Fatalf("Sign of %s is %d", a, a.Sign())
	}
	cp.Add(b)
	wantAmount(c, "Add", cp, k, new(big.Int).Add(x, y))
	cp = a.Copy()
	cp.Sub(b)
	wantAmount(c, "Sub", cp, k, new(big.Int).Sub(x, y))
	cp = a.Copy()
	cp.Neg()
	wantAmount(c, "Neg", cp, k, new(big.Int).Neg(x))
	wantAmount(c, "operand", a, k, x)
	wantAmount(c, "operand", b, k, y)
}

func largeConvert(c *vk.C) {
	from, to := drawCur(c.T, "from"), drawCur(c.T, "to")
	raw, rr := wide(c.T, "raw", 8500), wide(c.T, "rate", 5000)
	rate := (*cc.Rate)(new(big.Int).Set(rr))
	a := &cc.Amount{Currency: from.c}
	a.Amount.Set(raw)
	c.NonTrivial(raw, rr, from.digits, to.digits)
	c.Class("large")
	c.Sample("%d bits of %s at %d bits to %s", raw.BitLen(), from.c, rr.BitLen(), to.c)
	wantAmount(c, fmt.Sprintf("%s at %s", a, rate), cc.Convert(a, to.c, rate), to, converted(raw, rr, from.digits, to.digits))
	wantAmount(c, "operand after Convert", a, from, raw)
	rateIs(c, "operand after Convert", rate, rr)
	text := decimal(rr, rateDigits)
	if rate.String() != text {
		c.Fatalf("a rate of %s units prints %q", rr, rate.String())
	}
	back, err := cc.ParseRate(text)
	if err != nil {
		c.Fatalf("ParseRate(%q): %v", text, err)
	}
	rateIs(c, "ParseRate", back, rr)
	js, err := json.Marshal(rate)
	back = new(cc.Rate)
	if err != nil || json.Unmarshal(js, back) != nil {
		c.Fatalf("JSON %s of %s: %v", js, text, err)
	}
	rateIs(c, "JSON", back, rr)
}
