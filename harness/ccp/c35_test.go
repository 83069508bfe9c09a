package ccp

import (
	"encoding/json"
	"fmt"
	"math/big"
	"strings"
	"testing"

	"github.com/philhofer/seth"
	"github.com/philhofer/seth/cc"
	"pgregory.net/rapid"

	"verif/harness/vk"
)

// receiver is an amount that may have been used before.
func receiver(c *vk.C) *cc.Amount {
	a := new(cc.Amount)
	if rapid.Bool().Draw(c.T, "used") {
		k := drawCur(c.T, "oldcur")
		a.Currency = k.c
		a.Amount.Set(drawRaw(c.T, k.digits, "old"))
		c.Class("used-receiver")
	}
	return a
}

func wantAmount(c *vk.C, what string, a *cc.Amount, k cur, raw *big.Int) {
	if a == nil {
		c.Fatalf("%s: nil amount", what)
	}
	if a.Currency != k.c || a.Amount.Cmp(raw) != 0 {
		c.Fatalf("%s: got %s units of %q, want %s units of %q", what, a.Amount.String(), string(a.Currency), raw, string(k.c))
	}
}

func TestC35(t *testing.T) {
	p := vk.Start(t, "C35", "the amount is not zero, or the text is rejected for a reason other than being empty",
		"amounts followed by a newline and more text, and a receiver after a failed read, are unspecified",
		"currency names have no whitespace")

	p.Check("print-and-read-back", 18000, 480000, func(c *vk.C) {
		k := drawCur(c.T, "cur")
		raw := drawRaw(c.T, k.digits, "raw")
		a := &cc.Amount{Currency: k.c}
		a.Amount.Set(raw)
		want := decimal(raw, k.digits) + " " + string(k.c)
		if raw.Sign() != 0 {
			c.NonTrivial(want)
		}
		c.Class(fmt.Sprintf("digits-%d", k.digits/10*10), fmt.Sprintf("sign%+d", raw.Sign()))
		c.Sample("%s", want)
		for what, got := range map[string]string{
			"String":      a.String(),
			"%s":          fmt.Sprintf("%s", a),
			"%v":          fmt.Sprintf("%v", a),
			"%v value":    fmt.Sprintf("%v", *a),
			"Copy.String": a.Copy().String(),
		} {
			if got != want {
				c.Fatalf("%s prints %s units of %d digits as %q, want %q", what, raw, k.digits, got, want)
			}
		}
		text, err := a.MarshalText()
		if err != nil || string(text) != want {
			c.Fatalf("MarshalText gives %q, %v; want %q", text, err, want)
		}
		wantAmount(c, "after printing", a, k, raw)

		got, err := cc.ParseAmount(want)
		if err != nil {
			c.Fatalf("ParseAmount(%q): %v", want, err)
		}
		wantAmount(c, fmt.Sprintf("ParseAmount(%q)", want), got, k, raw)
		got, err = k.c.ParseAmount(decimal(raw, k.digits))
		if err != nil {
			c.Fatalf("%s.ParseAmount(%q): %v", k.c, decimal(raw, k.digits), err)
		}
		wantAmount(c, fmt.Sprintf("%s.ParseAmount(%q)", k.c, decimal(raw, k.digits)), got, k, raw)

		r := receiver(c)
		switch way := rapid.SampledFrom([]string{"UnmarshalText", "Sscan", "Sscanf", "Sscan two"}).Draw(c.T, "way"); way {
		case "UnmarshalText":
			if err := r.UnmarshalText([]byte(want)); err != nil {
				c.Fatalf("%s(%q): %v", way, want, err)
			}
			wantAmount(c, way, r, k, raw)
		case "Sscan":
			if n, err := fmt.Sscan(want, r); err != nil || n != 1 {
				c.Fatalf("%s(%q): %d, %v", way, want, n, err)
			}
			wantAmount(c, way, r, k, raw)
		case "Sscanf":
			if n, err := fmt.Sscanf("<"+want+" >", "<%v >", r); err != nil || n != 1 {
				c.Fatalf("%s(%q): %d, %v", way, want, n, err)
			}
			wantAmount(c, way, r, k, raw)
		default:
			var r2 cc.Amount
			if n, err := fmt.Sscan(want+"  "+want, r, &r2); err != nil || n != 2 {
				c.Fatalf("%s(%q): %d, %v", way, want, n, err)
			}
			wantAmount(c, way, r, k, raw)
			wantAmount(c, way, &r2, k, raw)
		}

		// JSON: by pointer, by value, inside values, and as a map key is text
		type doc struct {
			P *cc.Amount
			V cc.Amount
			S []cc.Amount
			M map[string]cc.Amount
		}
		in := doc{a, *a, []cc.Amount{*a, *a}, map[string]cc.Amount{"k": *a}}
		var js []byte
		if rapid.Bool().Draw(c.T, "byvalue") {
			js, err = json.Marshal(in)
		} else {
			js, err = json.Marshal(&in)
		}
		if err != nil {
			c.Fatalf("marshalling %s: %v", want, err)
		}
		var out doc
		out.V = *receiver(c)
		if err := json.Unmarshal(js, &out); err != nil {
			c.Fatalf("JSON %s does not read back: %v", js, err)
		}
		for _, g := range []*cc.Amount{out.P, &out.V, &out.S[0], &out.S[1], ptr(out.M["k"])} {
			wantAmount(c, "JSON "+string(js), g, k, raw)
		}
	})

	p.Check("text-means-what-it-says", 24000, 800000, func(c *vk.C) {
		k := drawCur(c.T, "cur")
		s := drawDecimal(c.T, k.digits)
		if rapid.IntRange(0, 2).Draw(c.T, "damage") == 0 {
			s = damage(c.T, s)
		}
		want, ok := readDecimal(s, k.digits)
		if s != "" {
			c.NonTrivial(s, k.digits)
		}
		c.Class(fmt.Sprintf("valid-%v", ok))
		c.Sample("%q at %d digits: %v", s, k.digits, ok)
		check := func(what string, a *cc.Amount, err error) {
			if (err == nil) != ok {
				c.Fatalf("%s reads %q at %d digits: error %v, want valid=%v", what, s, k.digits, err, ok)
			}
			if ok {
				wantAmount(c, what+" reads "+s, a, k, want)
			}
		}
		var a *cc.Amount
		var err error
		if msg := vk.Trap(func() { a, err = k.c.ParseAmount(s) }); msg != "" {
			c.Fatalf("%s.ParseAmount(%q) panics: %s", k.c, s, msg)
		}
		check("Currency.ParseAmount", a, err)

		// with the currency behind it
		full := s + rapid.SampledFrom([]string{" ", "  ", "\t"}).Draw(c.T, "space") + string(k.c)
		if strings.ContainsAny(s, "\x00") {
			return
		}
		r := receiver(c)
		if msg := vk.Trap(func() { err = r.UnmarshalText([]byte(full)) }); msg != "" {
			c.Fatalf("UnmarshalText(%q) panics: %s", full, msg)
		}
		check("UnmarshalText", r, err)
		if msg := vk.Trap(func() { a, err = cc.ParseAmount(full) }); msg != "" {
			c.Fatalf("ParseAmount(%q) panics: %s", full, msg)
		}
		check("ParseAmount", a, err)
	})

	p.Check("large", 1500, 20000, largeText)

	p.Check("wrong-currency-text", 12000, 240000, func(c *vk.C) {
		k := drawCur(c.T, "cur")
		raw := drawRaw(c.T, k.digits, "raw")
		text := decimal(raw, k.digits)
		var s string
		switch rapid.IntRange(0, 4).Draw(c.T, "kind") {
		case 0:
			s = text
		case 1:
			s = text + " "
		case 2:
			s = text + " nosuch" + string(k.c)
		case 3:
			s = string(k.c) + " " + text
			if k.c == "1ST" {
				return
			}
		default:
			s = text + " " + string(k.c) + " " + rapid.SampledFrom([]string{"x", "1", string(k.c), text}).Draw(c.T, "more")
		}
		c.NonTrivial(s)
		c.Sample("%q", s)
		var a *cc.Amount
		var err error
		if msg := vk.Trap(func() { a, err = cc.ParseAmount(s) }); msg != "" {
			c.Fatalf("ParseAmount(%q) panics: %s", s, msg)
		}
		if err == nil {
			c.Fatalf("ParseAmount(%q) reads as %s", s, a)
		}
		if err := new(cc.Amount).UnmarshalText([]byte(s)); err == nil {
			c.Fatalf("UnmarshalText(%q) reads", s)
		}
	})

	p.Check("currencies", 6000, 80000, func(c *vk.C) {
		k := drawCur(c.T, "cur")
		c.NonTrivial(string(k.c))
		if !k.c.Exists() || k.c.Nil() || k.c.Name() != string(k.c) || k.c.String() != string(k.c) || k.c.Digits() != k.digits {
			c.Fatalf("currency %q: exists %v, nil %v, name %q, digits %d (want %d)", string(k.c), k.c.Exists(), k.c.Nil(), k.c.Name(), k.c.Digits(), k.digits)
		}
		if got, ok := cc.CurrencyByName(string(k.c)); !ok || got != k.c {
			c.Fatalf("CurrencyByName(%q) = %q, %v", string(k.c), string(got), ok)
		}
		if k.c.Token() != (k.token != "") || (k.c.Addr() != nil) != (k.token != "") {
			c.Fatalf("currency %q: token %v, address %v; want %q", string(k.c), k.c.Token(), k.c.Addr(), k.token)
		}
		if k.token != "" {
			if strings.ToLower(k.c.Addr().String()) != k.token {
				c.Fatalf("currency %q has address %s, want %s", string(k.c), k.c.Addr(), k.token)
			}
			var addr seth.Address
			if err := addr.FromString(k.token); err != nil {
				panic("HARNESS-ERROR: " + err.Error())
			}
			if got, ok := cc.TokenByAddress(&addr); !ok || got != k.c {
				c.Fatalf("TokenByAddress(%s) = %q, %v; want %q", k.token, string(got), ok, string(k.c))
			}
			addr[rapid.IntRange(0, 19).Draw(c.T, "at")] ^= 1 << uint(rapid.IntRange(0, 7).Draw(c.T, "bit"))
			if got, ok := cc.TokenByAddress(&addr); ok {
				c.Fatalf("TokenByAddress(%s) = %q, which is not its address", addr.String(), string(got))
			}
		}
		var zero seth.Address
		if got, ok := cc.TokenByAddress(&zero); ok {
			c.Fatalf("the zero address is token %q", string(got))
		}
		// text form
		b, err := k.c.MarshalText()
		if err != nil || string(b) != string(k.c) {
			c.Fatalf("currency %q marshals to %q, %v", string(k.c), b, err)
		}
		got := drawCur(c.T, "old").c
		if err := got.UnmarshalText(b); err != nil || got != k.c {
			c.Fatalf("currency %q reads back as %q, %v", b, string(got), err)
		}
		// a name that is not registered
		bad := damage(c.T, string(k.c))
		known := false
		for _, o := range currencies {
			known = known || string(o.c) == bad
		}
		if known || len(bad) < 2 {
			return
		}
		if _, ok := cc.CurrencyByName(bad); ok {
			// one of the package's that the check does not list
			return
		}
		old := got
		if err := got.UnmarshalText([]byte(bad)); err == nil || got != old {
			c.Fatalf("unknown currency %q reads as %q, %v", bad, string(got), err)
		}
		if cc.Currency(bad).Exists() {
			c.Fatalf("unknown currency %q exists", bad)
		}
		if vk.Trap(func() { cc.Currency(bad).Digits() }) == "" {
			c.Fatalf("unknown currency %q has digits", bad)
		}
		// registering: the same again is the same, anything else is refused
		if got := vk.Trap(func() {
			if k.token == "" {
				cc.NewCurrency(string(k.c), k.digits)
			} else {
				cc.NewToken(string(k.c), k.digits, k.token)
			}
		}); got != "" {
			c.Fatalf("registering %q again panics: %s", string(k.c), got)
		}
		if vk.Trap(func() { cc.NewCurrency(string(k.c), k.digits+1) }) == "" {
			c.Fatalf("%q was registered with two precisions", string(k.c))
		}
		if k.c.Digits() != k.digits {
			c.Fatalf("a refused registration changed %q to %d digits", string(k.c), k.c.Digits())
		}
	})
}

func ptr[T any](v T) *T { return &v }
