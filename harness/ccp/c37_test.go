package ccp

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"strings"
	"sync"
	"testing"

	"github.com/philhofer/seth/cc"
	"pgregory.net/rapid"

	"verif/harness/gen"
	"verif/harness/vk"
)

const rateDigits = 8

func drawRate(t *rapid.T, label string) (*cc.Rate, *big.Int) {
	raw := drawRaw(t, rateDigits, label)
	return (*cc.Rate)(new(big.Int).Set(raw)), raw
}

func rateIs(c *vk.C, what string, r *cc.Rate, raw *big.Int) {
	if r == nil || (*big.Int)(r).Cmp(raw) != 0 {
		c.Fatalf("%s: the rate is %v, want %s", what, (*big.Int)(r), raw)
	}
}

// converted is floor(raw × rate × 10^(to-from)).
func converted(raw, rate *big.Int, from, to int) *big.Int {
	n := new(big.Int).Mul(raw, rate)
	if e := to - from - rateDigits; e >= 0 {
		return n.Mul(n, pow10(e))
	} else {
		q, m := new(big.Int).QuoRem(n, pow10(-e), new(big.Int))
		if m.Sign() < 0 {
			q.Sub(q, big.NewInt(1))
		}
		return q
	}
}

func TestC37(t *testing.T) {
	p := vk.Start(t, "C37", "the amount, the rate and the result are not zero",
		"a conversion rounds down, an inverse rounds toward zero, the inverse of zero is zero",
		"a Rate or Pair must be addressable to be encoded as JSON")

	p.Check("convert", 24000, 800000, func(c *vk.C) {
		from, to := drawCur(c.T, "from"), drawCur(c.T, "to")
		raw := drawRaw(c.T, from.digits, "raw")
		rate, rr := drawRate(c.T, "rate")
		a := &cc.Amount{Currency: from.c}
		a.Amount.Set(raw)
		want := converted(raw, rr, from.digits, to.digits)
		if want.Sign() != 0 {
			c.NonTrivial(raw, rr, from.digits, to.digits)
		}
		c.Class(fmt.Sprintf("widen-%v", to.digits >= from.digits+rateDigits))
		c.Sample("%s at %s = %s %s", a, rate, want, to.c)
		got := cc.Convert(a, to.c, rate)
		wantAmount(c, fmt.Sprintf("%s to %s (%d digits) at %s", a, to.c, to.digits, rate), got, to, want)
		wantAmount(c, "operand after Convert", a, from, raw)
		rateIs(c, "operand after Convert", rate, rr)
		// not sharing memory with the operand
		got.Neg()
		got.Amount.Add(&got.Amount, big.NewInt(1))
		wantAmount(c, "operand after changing the result", a, from, raw)

		// by pair, forwards and backwards
		if from.c == to.c {
			return
		}
		pair := &cc.Pair{From: from.c, To: to.c, Rate: *(*cc.Rate)(new(big.Int).Set(rr))}
		wantAmount(c, "Pair.Convert "+pair.String(), pair.Convert(a), to, want)
		b := &cc.Amount{Currency: to.c}
		b.Amount.Set(raw)
		inv := new(big.Int)
		if rr.Sign() != 0 {
			inv.Quo(pow10(2*rateDigits), rr)
		}
		wantAmount(c, "Pair.Convert backwards "+pair.String(), pair.Convert(b), from, converted(raw, inv, to.digits, from.digits))
		rateIs(c, "pair rate after Convert", &pair.Rate, rr)
		pi := pair.Inverse()
		if pi.From != to.c || pi.To != from.c {
			c.Fatalf("inverse of %s is %s", pair, pi)
		}
		rateIs(c, "Pair.Inverse", &pi.Rate, inv)
		wantAmount(c, "inverse pair", pi.Convert(b), from, converted(raw, inv, to.digits, from.digits))
		other := drawCur(c.T, "other")
		if other.c != from.c && other.c != to.c {
			o := &cc.Amount{Currency: other.c}
			o.Amount.Set(raw)
			if vk.Trap(func() { pair.Convert(o) }) == "" {
				c.Fatalf("%s converted through %s", o, pair)
			}
		}
	})

	p.Check("monotonic", 9000, 240000, func(c *vk.C) {
		from, to := drawCur(c.T, "from"), drawCur(c.T, "to")
		x, y := drawRaw(c.T, from.digits, "x"), drawRaw(c.T, from.digits, "y")
		if rapid.Bool().Draw(c.T, "near") {
			y = new(big.Int).Add(x, big.NewInt(int64(rapid.IntRange(0, 5).Draw(c.T, "by"))))
		}
		if x.Cmp(y) > 0 {
			x, y = y, x
		}
		rate, rr := drawRate(c.T, "rate")
		if rr.Sign() < 0 {
			rr.Neg(rr)
			rate = (*cc.Rate)(rr)
		}
		a, b := &cc.Amount{Currency: from.c}, &cc.Amount{Currency: from.c}
		a.Amount.Set(x)
		b.Amount.Set(y)
		if x.Cmp(y) != 0 && rr.Sign() != 0 {
			c.NonTrivial(x, y, rr)
		}
		ca, cb := cc.Convert(a, to.c, rate), cc.Convert(b, to.c, rate)
		c.Sample("%s, %s at %s", a, b, rate)
		if ca.Cmp(cb) > 0 {
			c.Fatalf("%s < %s, but at %s they are %s > %s", a, b, rate, ca, cb)
		}
	})

	p.Check("rate-text", 24000, 600000, func(c *vk.C) {
		rate, rr := drawRate(c.T, "rate")
		want := decimal(rr, rateDigits)
		if rr.Sign() != 0 {
			c.NonTrivial(want)
		}
		if rate.String() != want || fmt.Sprint(rate) != want {
			c.Fatalf("rate of %s units prints %q, want %q", rr, rate.String(), want)
		}
		if rate.Sign() != rr.Sign() {
			c.Fatalf("sign of %s is %d", want, rate.Sign())
		}
		got, err := cc.ParseRate(want)
		if err != nil {
			c.Fatalf("ParseRate(%q): %v", want, err)
		}
		rateIs(c, want, got, rr)
		used, _ := drawRate(c.T, "old")
		if _, err := fmt.Sscan(want, used); err != nil {
			c.Fatalf("scanning %q: %v", want, err)
		}
		rateIs(c, "scan "+want, used, rr)
		js, err := json.Marshal(struct{ R *cc.Rate }{rate})
		if err != nil {
			c.Fatalf("marshalling %s: %v", want, err)
		}
		for _, in := range []string{string(js), `{"R":"` + want + `"}`} {
			old, _ := drawRate(c.T, "oldjs")
			d := struct{ R *cc.Rate }{old}
			if err := json.Unmarshal([]byte(in), &d); err != nil {
				c.Fatalf("%s does not read: %v", in, err)
			}
			rateIs(c, in, d.R, rr)
		}
		// the JSON is a number of that value
		var num struct{ R json.Number }
		if err := json.Unmarshal(js, &num); err != nil {
			c.Fatalf("%s is not a number: %v", js, err)
		}
		if r, ok := new(big.Rat).SetString(num.R.String()); !ok || r.Cmp(new(big.Rat).SetFrac(rr, pow10(rateDigits))) != 0 {
			c.Fatalf("rate %s marshals to %s", want, js)
		}
		rateIs(c, "after printing", rate, rr)

		// text in general
		s := drawDecimal(c.T, rateDigits)
		if rapid.IntRange(0, 2).Draw(c.T, "damage") == 0 {
			s = damage(c.T, s)
		}
		v, ok := readDecimal(s, rateDigits)
		c.Class(fmt.Sprintf("valid-%v", ok))
		c.Sample("%q %v", s, ok)
		if msg := vk.Trap(func() { got, err = cc.ParseRate(s) }); msg != "" {
			c.Fatalf("ParseRate(%q) panics: %s", s, msg)
		}
		if (err == nil) != ok {
			c.Fatalf("ParseRate(%q): error %v, want valid=%v", s, err, ok)
		}
		if ok {
			rateIs(c, s, got, v)
		}
		var jr cc.Rate
		if msg := vk.Trap(func() { err = jr.UnmarshalJSON([]byte(s)) }); msg != "" {
			c.Fatalf("UnmarshalJSON(%q) panics: %s", s, msg)
		}
		if (err == nil) != ok {
			c.Fatalf("UnmarshalJSON(%q): error %v, want valid=%v", s, err, ok)
		}
		if ok {
			rateIs(c, s, &jr, v)
		}
	})

	p.Check("large", 1500, 20000, largeConvert)

	p.Check("printed-at-once", 1500, 20000, func(c *vk.C) {
		from, to := drawCur(c.T, "from"), drawCur(c.T, "to")
		raw := drawRaw(c.T, rateDigits, "rate")
		if rapid.Bool().Draw(c.T, "negative") {
			raw = new(big.Int).Neg(new(big.Int).Abs(raw))
		}
		pair := &cc.Pair{From: from.c, To: to.c, Rate: *(*cc.Rate)(new(big.Int).Set(raw))}
		want := decimal(raw, rateDigits)
		if raw.Sign() != 0 {
			c.NonTrivial(want)
		}
		c.Sample("%s by 4 goroutines", want)
		bad := make(chan string, 4)
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 80; i++ {
					got := pair.Rate.String()
					if i%2 == 0 {
						got = strings.SplitN(pair.String(), " ", 2)[0]
					}
					if got != want {
						bad <- got
						return
					}
				}
			}()
		}
		wg.Wait()
		select {
		case got := <-bad:
			c.Fatalf("printed by several goroutines at once, the rate %s is %q", want, got)
		default:
		}
	})

	p.Check("inverse", 15000, 400000, func(c *vk.C) {
		rate, rr := drawRate(c.T, "rate")
		inv := rate.Inverse()
		if rr.Sign() == 0 {
			rateIs(c, "inverse of zero", inv, rr)
			return
		}
		want := new(big.Int).Quo(pow10(2*rateDigits), rr)
		if want.Sign() != 0 {
			c.NonTrivial(rr)
		}
		c.Sample("1/%s = %s", rate, inv)
		rateIs(c, "inverse of "+rate.String(), inv, want)
		rateIs(c, "operand after Inverse", rate, rr)
	})

	p.Check("float", 18000, 480000, func(c *vk.C) {
		var f float64
		switch rapid.IntRange(0, 3).Draw(c.T, "kind") {
		case 0:
			f = rapid.Float64().Draw(c.T, "f")
		case 1:
			f = rapid.Float64Range(-1e6, 1e6).Draw(c.T, "f")
		case 2: // halfway between rates
			f = (float64(rapid.IntRange(-1000000, 1000000).Draw(c.T, "n")) + 0.5) / 1e8
		default:
			f = float64(rapid.IntRange(-1000000000, 1000000000).Draw(c.T, "n")) / 1e8
		}
		if math.IsInf(f, 0) || math.IsNaN(f) {
			return
		}
		exact := new(big.Rat).SetFloat64(f)
		exact.Mul(exact, new(big.Rat).SetInt(pow10(rateDigits)))
		r := cc.NewRate(f)
		d := new(big.Rat).Sub(new(big.Rat).SetInt((*big.Int)(r)), exact)
		if d.Abs(d).Cmp(big.NewRat(1, 2)) > 0 {
			c.Fatalf("NewRate(%v) is %s, %s units away", f, r, d.FloatString(5))
		}
		if r.Sign() != 0 {
			c.NonTrivial(f)
		}
		c.Sample("%v -> %s", f, r)

		rate, rr := drawRate(c.T, "rate")
		g := rate.Float()
		want, _ := new(big.Rat).SetFrac(rr, pow10(rateDigits)).Float64()
		if g != want && math.Abs(g-want) > math.Abs(want)*1e-15 {
			c.Fatalf("rate %s is %v as a float, want %v", rate, g, want)
		}
		rateIs(c, "operand after Float", rate, rr)
		if rr.BitLen() < 50 {
			rateIs(c, "NewRate(Float)", cc.NewRate(g), rr)
		}
	})

	p.Check("pair-text", 12000, 320000, func(c *vk.C) {
		from, to := drawCur(c.T, "from"), drawCur(c.T, "to")
		rate, rr := drawRate(c.T, "rate")
		pair := &cc.Pair{From: from.c, To: to.c, Rate: *(*cc.Rate)(new(big.Int).Set(rr))}
		want := decimal(rr, rateDigits) + " " + string(to.c) + "/" + string(from.c)
		if pair.String() != want {
			c.Fatalf("pair prints %q, want %q", pair.String(), want)
		}
		if rr.Sign() != 0 && from.c != to.c {
			c.NonTrivial(want)
		}
		c.Sample("%s", want)
		same := func(what string, g *cc.Pair) {
			if g.From != from.c || g.To != to.c {
				c.Fatalf("%s: %q reads as %s", what, want, g)
			}
			rateIs(c, what+" "+want, &g.Rate, rr)
		}
		g, err := cc.ParsePair(want)
		if err != nil {
			c.Fatalf("ParsePair(%q): %v", want, err)
		}
		same("ParsePair", g)
		old := &cc.Pair{From: drawCur(c.T, "of").c, To: drawCur(c.T, "ot").c, Rate: *cc.NewRate(float64(gen.Byte().Draw(c.T, "or")))}
		js, err := json.Marshal(pair)
		if err != nil {
			c.Fatalf("marshalling %q: %v", want, err)
		}
		if err := json.Unmarshal(js, old); err != nil {
			c.Fatalf("%s does not read: %v", js, err)
		}
		same("JSON", old)

		// damaged: the three fields decide
		bad := damage(c.T, want)
		var pe error
		if msg := vk.Trap(func() { g, pe = cc.ParsePair(bad) }); msg != "" {
			c.Fatalf("ParsePair(%q) panics: %s", bad, msg)
		}
		if pe == nil {
			// whatever it read must be what is written
			gs := g.String()
			v, ok := readDecimal(cutSpace(bad), rateDigits)
			if !ok || decimal(v, rateDigits)+bad[len(cutSpace(bad)):] != gs && !(v.Sign() == 0) {
				c.Fatalf("ParsePair(%q) reads as %q", bad, gs)
			}
		}
		_ = rate
	})
}

func cutSpace(s string) string {
	for i := 0; i < len(s); i++ {
		if s[i] == ' ' {
			return s[:i]
		}
	}
	return s
}
