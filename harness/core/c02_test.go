package core

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"strings"
	"testing"

	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/philhofer/seth"
	"github.com/tinylib/msgp/msgp"
	"pgregory.net/rapid"

	"verif/harness/gen"
	"verif/harness/vk"
)

var two64 = new(big.Int).Lsh(big.NewInt(1), 64)

func TestC02(t *testing.T) {
	p := vk.Start(t, "C02", "non-negative integers of every bit length up to 300 (Int) or 64 (Uint64), through text, JSON, scanning and the binary codec, into receivers holding another value; texts that are no integer, and integers too large for the type; non-trivial: the value is above 2^8 or the text is rejected")

	p.Check("int-text", 12000, 300000, func(c *vk.C) {
		n := gen.Big(300).Draw(c.T, "n")
		i := seth.Int(*new(big.Int).Set(n))
		want := hexutil.EncodeBig(n)
		txt, err := i.MarshalText()
		if err != nil || string(txt) != want {
			c.Fatalf("MarshalText(%d) = %q, %v; want %q", n, txt, err, want)
		}
		if s := i.String(); s != want {
			c.Fatalf("String(%d) = %q, want %q", n, s, want)
		}
		js, err := json.Marshal(&i)
		if err != nil || string(js) != `"`+want+`"` {
			c.Fatalf("JSON of %d = %s, %v", n, js, err)
		}
		old := gen.Int(300).Draw(c.T, "old")
		dst := old.Copy()
		in := want
		zeros := ""
		if rapid.Bool().Draw(c.T, "pad") {
			zeros = strings.Repeat("0", rapid.IntRange(0, 70).Draw(c.T, "zeros"))
			in = "0x" + zeros + want[2:]
		}
		if rapid.Bool().Draw(c.T, "upper") {
			in = "0x" + strings.ToUpper(in[2:])
		}
		if rapid.IntRange(0, 3).Draw(c.T, "decimal") == 0 {
			in = n.String()
		}
		var via string
		switch rapid.IntRange(0, 5).Draw(c.T, "via") {
		case 0:
			via, err = "UnmarshalText", dst.UnmarshalText([]byte(in))
		case 1:
			via, err = "FromString", dst.FromString(in)
		case 2:
			via, err = "json", json.Unmarshal([]byte(`"`+in+`"`), &dst)
		case 3:
			var x *seth.Int
			if x, err = seth.ParseInt(in); err == nil {
				dst = *x
			}
			via = "ParseInt"
		case 4:
			in = n.String()
			via, err = "json-number", json.Unmarshal([]byte(in), &dst)
		case 5:
			if strings.HasPrefix(in, "0x") {
				_, err = fmt.Sscanf(in, rapid.SampledFrom([]string{"%x", "%v"}).Draw(c.T, "verb"), &dst)
			} else {
				_, err = fmt.Sscanf(in, "%d", &dst)
			}
			via = "scan"
		}
		if err != nil || dst.Big().Cmp(n) != 0 {
			c.Fatalf("%s(%s) over %s = %s, %v", via, in, old.Big(), dst.Big(), err)
		}
		if i.Big().Cmp(n) != 0 {
			c.Fatalf("reading the text changed the source")
		}
		c.Class(via)
		if n.BitLen() > 8 {
			c.NonTrivial(via, in)
			c.Sample("%s %s", via, in)
		}
	})

	p.Check("large", 200, 3000, largeInt)

	p.Check("uint64-text", 12000, 300000, func(c *vk.C) {
		n := gen.Big(80).Draw(c.T, "n")
		fits := n.Cmp(two64) < 0
		want := hexutil.EncodeBig(n)
		if fits {
			txt, err := seth.Uint64(n.Uint64()).MarshalText()
			if err != nil || string(txt) != want {
				c.Fatalf("MarshalText(%d) = %q, %v; want %q", n, txt, err, want)
			}
			js, err := json.Marshal(seth.Uint64(n.Uint64()))
			if err != nil || string(js) != `"`+want+`"` {
				c.Fatalf("JSON of %d = %s, %v", n, js, err)
			}
		}
		in := want
		if rapid.IntRange(0, 2).Draw(c.T, "decimal") == 0 {
			in = n.String()
		}
		neg := rapid.IntRange(0, 9).Draw(c.T, "neg") == 0 && n.Sign() > 0
		if neg {
			in = "-" + n.String()
		}
		old := seth.Uint64(gen.Uint64().Draw(c.T, "old"))
		dst := old
		var err error
		via := rapid.SampledFrom([]string{"UnmarshalText", "json", "json-number"}).Draw(c.T, "via")
		switch {
		case via == "UnmarshalText":
			err = dst.UnmarshalText([]byte(in))
		case via == "json" || strings.HasPrefix(in, "0x"):
			err = json.Unmarshal([]byte(`"`+in+`"`), &dst)
		default:
			err = json.Unmarshal([]byte(in), &dst)
		}
		ok := fits && !neg
		if ok && (err != nil || uint64(dst) != n.Uint64()) {
			c.Fatalf("%s(%s) over %d = %d, %v", via, in, old, dst, err)
		}
		if !ok && err == nil {
			c.Fatalf("%s(%s) = %d, should not fit", via, in, dst)
		}
		if !ok {
			c.Class("overflow")
		}
		if n.BitLen() > 8 {
			c.NonTrivial(via, in)
			c.Sample("%s %s fits=%v", via, in, ok)
		}
	})

	p.Check("not-a-number", 6000, 150000, func(c *vk.C) {
		s := hexutil.EncodeBig(gen.Big(100).Draw(c.T, "n"))
		if rapid.Bool().Draw(c.T, "dec") {
			s = gen.Big(100).Draw(c.T, "n").String()
		}
		bad := rapid.SampledFrom([]string{"g", "z", " ", "\t", ".", "~", "!", "\x00", "%", "/", ":", "@", "G", "é", "`", "#"}).Draw(c.T, "bad")
		i := rapid.IntRange(0, len(s)).Draw(c.T, "at")
		s = s[:i] + bad + s[i:]
		if rapid.IntRange(0, 20).Draw(c.T, "empty") == 0 {
			s = ""
		}
		var n seth.Int
		var u seth.Uint64
		if m := vk.Trap(func() {
			if err := n.UnmarshalText([]byte(s)); err == nil {
				c.Errorf("Int accepts %q as %d", s, n.Big())
			}
			if err := u.UnmarshalText([]byte(s)); err == nil {
				c.Errorf("Uint64 accepts %q as %d", s, u)
			}
			js, _ := json.Marshal(s)
			if err := json.Unmarshal(js, &n); err == nil {
				c.Errorf("Int JSON accepts %s as %d", js, n.Big())
			}
			if err := json.Unmarshal(js, &u); err == nil {
				c.Errorf("Uint64 JSON accepts %s as %d", js, u)
			}
			if _, err := seth.ParseInt(s); err == nil {
				c.Errorf("ParseInt accepts %q", s)
			}
			// what is no JSON text, given to the methods directly
			d := gen.Big(70).Draw(c.T, "quoted").String()
			d = rapid.SampledFrom([]string{`"` + d, d + `"`, `"`, `""`, `"` + d + `""`, `""` + d + `"`, `'` + d + `'`}).Draw(c.T, "quotes")
			if err := n.UnmarshalJSON([]byte(d)); err == nil {
				c.Errorf("Int.UnmarshalJSON accepts %s as %d", d, n.Big())
			}
			if err := u.UnmarshalJSON([]byte(d)); err == nil {
				c.Errorf("Uint64.UnmarshalJSON accepts %s as %d", d, u)
			}
		}); m != "" {
			c.Fatalf("%q: %s", s, m)
		}
		c.NonTrivial(s)
		c.Sample("%q", s)
	})

	p.Check("null", 300, 3000, func(c *vk.C) {
		n := gen.Int(256).Draw(c.T, "n")
		u := seth.Uint64(gen.Uint64().Draw(c.T, "u"))
		v := struct {
			N seth.Int
			U seth.Uint64
			P *seth.Int
			Q *seth.Uint64
		}{n.Copy(), u, new(seth.Int), new(seth.Uint64)}
		if err := json.Unmarshal([]byte(`{"N":null,"U":null,"P":null,"Q":null}`), &v); err != nil {
			c.Fatalf("null: %v", err)
		}
		if v.N.Cmp(&n) != 0 || v.U != u || v.P != nil || v.Q != nil {
			c.Fatalf("null changed %v %v to %+v", n.Big(), u, v)
		}
		c.NonTrivial(u, n.String())
	})

	p.Check("int-binary", 8000, 200000, func(c *vk.C) {
		ns := rapid.SliceOfN(gen.Big(600), 1, 4).Draw(c.T, "ns")
		var flat []byte
		var buf bytes.Buffer
		w := msgp.NewWriter(&buf)
		for _, n := range ns {
			i := seth.Int(*new(big.Int).Set(n))
			before := len(flat)
			var err error
			if flat, err = i.MarshalMsg(flat); err != nil {
				c.Fatalf("MarshalMsg(%d): %v", n, err)
			}
			if len(flat)-before > i.Msgsize() {
				c.Fatalf("Msgsize(%d) = %d, needs %d", n, i.Msgsize(), len(flat)-before)
			}
			if err := i.EncodeMsg(w); err != nil {
				c.Fatalf("EncodeMsg(%d): %v", n, err)
			}
		}
		w.Flush()
		if !bytes.Equal(flat, buf.Bytes()) {
			c.Fatalf("the two encoders disagree: %x %x", flat, buf.Bytes())
		}
		rd := msgp.NewReader(bytes.NewReader(flat))
		rest := flat
		dst, dst2 := gen.Int(300).Draw(c.T, "old"), gen.Int(300).Draw(c.T, "old2")
		for _, n := range ns {
			var err error
			if rest, err = dst.UnmarshalMsg(rest); err != nil || dst.Big().Cmp(n) != 0 {
				c.Fatalf("UnmarshalMsg: %d, %v; want %d", dst.Big(), err, n)
			}
			if err = dst2.DecodeMsg(rd); err != nil || dst2.Big().Cmp(n) != 0 {
				c.Fatalf("DecodeMsg: %d, %v; want %d", dst2.Big(), err, n)
			}
		}
		if len(rest) != 0 {
			c.Fatalf("%d bytes left over", len(rest))
		}
		cut := flat[:rapid.IntRange(0, len(flat)-1).Draw(c.T, "cut")]
		good := 0
		for r := cut; ; good++ {
			var err error
			if r, err = dst.UnmarshalMsg(r); err != nil {
				break
			}
		}
		if good >= len(ns) {
			c.Fatalf("%d integers read from a truncated encoding of %d", good, len(ns))
		}
		c.NonTrivial(flat)
		c.Sample("%x", flat)
	})

	p.Check("arith", 4000, 50000, func(c *vk.C) {
		a, b := gen.Big(300).Draw(c.T, "a"), gen.Big(300).Draw(c.T, "b")
		ia, ib := seth.Int(*new(big.Int).Set(a)), seth.Int(*new(big.Int).Set(b))
		if ia.Cmp(&ib) != a.Cmp(b) || ia.IsZero() != (a.Sign() == 0) {
			c.Fatalf("Cmp(%d,%d) = %d", a, b, ia.Cmp(&ib))
		}
		cp := ia.Copy()
		ia.Big().Add(ia.Big(), big.NewInt(1))
		ia.Big().SetBit(ia.Big(), 3, ia.Big().Bit(3)^1)
		if cp.Big().Cmp(a) != 0 {
			c.Fatalf("a copy of %d changed with the original", a)
		}
		u := gen.Uint64().Draw(c.T, "u")
		ib.SetUint64(u)
		if ib.Uint64() != u || ib.Big().Cmp(new(big.Int).SetUint64(u)) != 0 {
			c.Fatalf("SetUint64(%d) = %d", u, ib.Big())
		}
		s := int64(u)
		ib.SetInt64(s)
		if ib.Int64() != s || ib.Big().Cmp(big.NewInt(s)) != 0 || seth.NewInt(s).Cmp(&ib) != 0 {
			c.Fatalf("SetInt64(%d) = %d", s, ib.Big())
		}
		c.NonTrivial(a.String(), b.String(), u)
	})
}
