package ccp

import (
	"encoding/hex"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"testing"

	"github.com/philhofer/seth"
	"github.com/philhofer/seth/cc"
	"pgregory.net/rapid"

	"verif/harness/vk"
)

// registry is what the currencies registered so far should be. It is one for
// the whole run, like the library's; every case registers names and addresses
// of its own, so that it does not depend on the cases before it.
type registry struct {
	byName map[string]cur
	byAddr map[string]string
}

func (r *registry) add(k cur) bool {
	if o, ok := r.byName[string(k.c)]; ok {
		return o.digits == k.digits && o.token == k.token
	}
	if k.c == "" {
		return false
	}
	if k.token != "" {
		if _, ok := r.byAddr[k.token]; ok {
			return false
		}
		r.byAddr[k.token] = string(k.c)
	}
	r.byName[string(k.c)] = k
	return true
}

// look compares what the library says of one name.
func (r *registry) look(c *vk.C, name string) {
	want, known := r.byName[name]
	k := cc.Currency(name)
	got, ok := cc.CurrencyByName(name)
	if ok != known || ok && got != k || !ok && !got.Nil() {
		c.Fatalf("CurrencyByName(%q) = %q, %v; registered: %v", name, string(got), ok, known)
	}
	if k.Exists() != known {
		c.Fatalf("%q exists: %v; registered: %v", name, k.Exists(), known)
	}
	var text cc.Currency = "old"
	err := text.UnmarshalText([]byte(name))
	if (err == nil) != known || err == nil && text != k || err != nil && text != "old" {
		c.Fatalf("the text %q reads as %q, %v; registered: %v", name, string(text), err, known)
	}
	if !known {
		for what, f := range map[string]func(){
			"digits":         func() { k.Digits() },
			"name":           func() { k.Name() },
			"address":        func() { k.Addr() },
			"token":          func() { k.Token() },
			"reads amounts":  func() { k.ParseAmount("1") },
			"prints amounts": func() { _ = (&cc.Amount{Currency: k}).String() },
		} {
			if name == "" && what == "prints amounts" {
				continue // the zero amount has no currency
			}
			if vk.Trap(f) == "" {
				c.Fatalf("the unregistered %q: %s, without a panic", name, what)
			}
		}
		return
	}
	if k.Name() != name || k.Digits() != want.digits || k.Token() != (want.token != "") || (k.Addr() != nil) != (want.token != "") {
		c.Fatalf("%q is %q with %d digits, token: %v, address %v; registered: %+v", name, k.Name(), k.Digits(), k.Token(), k.Addr(), want)
	}
	if want.token != "" {
		if a := k.Addr(); "0x"+hex.EncodeToString(a[:]) != want.token {
			c.Fatalf("%q has address %s; registered: %+v", name, a, want)
		}
	}
	raw := big.NewInt(1234567)
	a := &cc.Amount{Currency: k, Amount: *new(big.Int).Set(raw)}
	if s := a.String(); s != decimal(raw, want.digits)+" "+name {
		c.Fatalf("1234567 units of %+v print as %q", want, s)
	}
}

// lookAddr compares what the library says of one address.
func (r *registry) lookAddr(c *vk.C, token string) {
	want, known := r.byAddr[token]
	var a seth.Address
	b, err := hex.DecodeString(token[2:])
	if err != nil || copy(a[:], b) != 20 {
		panic("HARNESS-ERROR " + token)
	}
	got, ok := cc.TokenByAddress(&a)
	if ok != known || string(got) != want {
		c.Fatalf("TokenByAddress(%s) = %q, %v; registered: %q, %v", token, string(got), ok, want, known)
	}
}

func mixCase(t *rapid.T, s string) string {
	b := []byte(s)
	for i := 2; i < len(b); i++ {
		if b[i] >= 'a' && b[i] <= 'f' && rapid.Bool().Draw(t, "upper") {
			b[i] -= 'a' - 'A'
		}
	}
	return string(b)
}

func TestC51(t *testing.T) {
	p := vk.Start(t, "C51", "histories of registrations of currencies and tokens, with names and addresses that repeat, collide with each other and with the package's own, and malformed ones; after each, what is known of every name and address of the history and of some of the package's own is compared with a model; non-trivial: a distinct history with a registration that is refused and a token",
		"registration is not for concurrent use; the names and contracts of the package's own currencies are a copy of the published ones")

	reg := &registry{byName: map[string]cur{}, byAddr: map[string]string{}}
	for _, k := range currencies {
		reg.byName[string(k.c)] = k
		if k.token != "" {
			reg.byAddr[k.token] = string(k.c)
		}
	}
	serial := 0
	p.Check("registrations", 2000, 60000, func(c *vk.C) {
		serial++
		nonce := serial
		names := []string{}
		for i, n := 0, rapid.IntRange(1, 5).Draw(c.T, "names"); i < n; i++ {
			form := rapid.SampledFrom([]string{"N%dx%d", "n%dX%d", "%d €%d", "é-%d.%d", "N%dx%d ", "\x00%d/%d"}).Draw(c.T, "name")
			names = append(names, fmt.Sprintf(form, nonce, i))
		}
		addrs := []string{}
		for i, n := 0, rapid.IntRange(1, 4).Draw(c.T, "addresses"); i < n; i++ {
			var a [20]byte
			a[0], a[1], a[2], a[3] = 0xfa, byte(nonce>>16), byte(nonce>>8), byte(nonce)
			// differ in one byte only
			a[4+rapid.IntRange(0, 15).Draw(c.T, "at")] = 1 + byte(i)
			addrs = append(addrs, "0x"+hex.EncodeToString(a[:]))
		}
		var trace []string
		refused, tokens := 0, 0
		seenN, seenA := map[string]bool{"": true}, map[string]bool{}
		for _, n := range names {
			seenN[n] = true
		}
		for _, a := range addrs {
			seenA[a] = true
		}
		for j := rapid.IntRange(1, 8).Draw(c.T, "registrations"); j > 0; j-- {
			k := cur{digits: rapid.SampledFrom([]int{0, 2, 8, 8, 9, 18, 18, 40}).Draw(c.T, "digits")}
			other := drawCur(c.T, "own")
			switch rapid.IntRange(0, 9).Draw(c.T, "whose name") {
			case 0:
				k.c = other.c
				if rapid.Bool().Draw(c.T, "same digits") {
					k.digits = other.digits
				}
			case 1:
				k.c = cc.Currency(rapid.SampledFrom([]string{"", "eth", "Usd"}).Draw(c.T, "bad name"))
				if k.c != "" {
					k.c = other.c
				}
			default:
				k.c = cc.Currency(rapid.SampledFrom(names).Draw(c.T, "which"))
				if o, ok := reg.byName[string(k.c)]; ok && rapid.Bool().Draw(c.T, "again") {
					k = o
				}
			}
			malformed := false
			how := rapid.IntRange(0, 9).Draw(c.T, "kind")
			text := ""
			switch {
			case how < 3 && k.token == "": // a currency
			case how == 9:
				malformed = true
				text = rapid.SampledFrom([]string{"", "0x", addrs[0][:40], addrs[0] + "0", "0x" + strings.Repeat("g", 40), "0x0"}).Draw(c.T, "malformed")
			default:
				if k.token == "" {
					switch rapid.IntRange(0, 7).Draw(c.T, "whose address") {
					case 0:
						k.token = other.token
					case 1:
						k.token = "" // the zero address is no token's
					default:
						k.token = rapid.SampledFrom(addrs).Draw(c.T, "address")
					}
				}
				text = k.token
				if text == "" {
					text = "0x" + strings.Repeat("0", 40)
				}
				text = mixCase(c.T, text)
			}
			what := fmt.Sprintf("NewCurrency(%q, %d)", string(k.c), k.digits)
			if text != "" || malformed {
				what = fmt.Sprintf("NewToken(%q, %d, %q)", string(k.c), k.digits, text)
			}
			trace = append(trace, what)
			want := !malformed && reg.add(k)
			var got cc.Currency
			msg := vk.Trap(func() {
				if text != "" || malformed {
					got = cc.NewToken(string(k.c), k.digits, text)
				} else {
					got = cc.NewCurrency(string(k.c), k.digits)
				}
			})
			if want && msg != "" {
				c.Fatalf("%s\n%s", strings.Join(trace, "\n"), msg)
			}
			if !want && msg == "" {
				c.Fatalf("%s\nis not refused", strings.Join(trace, "\n"))
			}
			if want && got != k.c {
				c.Fatalf("%s\ngives %q", strings.Join(trace, "\n"), string(got))
			}
			if !want {
				refused++
			}
			if want && k.token != "" {
				tokens++
			}
			seenN[string(k.c)] = true
			seenN[string(other.c)] = true
			for _, n := range keys(seenN) {
				reg.look(c, n)
			}
			if k.token != "" {
				seenA[k.token] = true
			}
			for _, a := range keys(seenA) {
				reg.lookAddr(c, a)
			}
			reg.lookAddr(c, "0x"+strings.Repeat("0", 40))
		}
		c.Sample("%s", strings.Join(trace, "; "))
		if refused > 0 && tokens > 0 {
			c.NonTrivial(strings.Join(trace, ";"))
		}
	})
}

func keys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
