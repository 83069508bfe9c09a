package core

import (
	"encoding"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"strings"
	"testing"
	"unicode/utf8"

	"github.com/philhofer/seth"
	"pgregory.net/rapid"

	"verif/harness/gen"
	"verif/harness/vk"
)

// a byte-valued type of the public API, seen through its text codec
type hexKind struct {
	name  string
	size  int // 0: any
	fresh func() hexVal
}

type hexVal interface {
	encoding.TextUnmarshaler
	encoding.TextMarshaler
	fmt.Stringer
}

func hexBytes(v hexVal) []byte {
	switch v := v.(type) {
	case *seth.Address:
		return v[:]
	case *seth.Hash:
		return v[:]
	case *seth.Signature:
		return v[:]
	case *seth.PrivateKey:
		return v[:]
	case *seth.PublicKey:
		return v[:]
	case *seth.Data:
		return *v
	case *seth.Bytes:
		return *v
	}
	panic("HARNESS-ERROR: type")
}

func hexSet(v hexVal, b []byte) {
	switch v := v.(type) {
	case *seth.Data:
		*v = append(seth.Data{}, b...)
	case *seth.Bytes:
		*v = append(seth.Bytes{}, b...)
	default:
		copy(hexBytes(v), b)
	}
}

var hexKinds = []hexKind{
	{"Address", 20, func() hexVal { return new(seth.Address) }},
	{"Hash", 32, func() hexVal { return new(seth.Hash) }},
	{"Signature", 65, func() hexVal { return new(seth.Signature) }},
	{"PrivateKey", 32, func() hexVal { return new(seth.PrivateKey) }},
	{"PublicKey", 64, func() hexVal { return new(seth.PublicKey) }},
	{"Data", 0, func() hexVal { return new(seth.Data) }},
	{"Bytes", 0, func() hexVal { return new(seth.Bytes) }},
}

// parse feeds s to v through one of the ways into its codec.
func hexParseVia(v hexVal, way int, s string) (error, string) {
	switch way {
	case 1:
		if f, ok := v.(interface{ FromString(string) error }); ok {
			return f.FromString(s), "FromString"
		}
	case 2:
		if !utf8.ValidString(s) { // not in JSON
			break
		}
		b, err := json.Marshal(s)
		if err != nil {
			panic("HARNESS-ERROR: json")
		}
		return json.Unmarshal(b, v), "json"
	case 3:
		if _, ok := v.(fmt.Scanner); ok && s != "" && !strings.ContainsAny(s, " \t\r\n\v\f") && !strings.ContainsFunc(s, func(r rune) bool { return r > 126 || r < 33 }) {
			verb := "%a"
			if _, ok := v.(*seth.Hash); ok {
				verb = "%h"
			}
			_, err := fmt.Sscanf(s, verb, v)
			return err, "scan"
		}
	}
	return v.UnmarshalText([]byte(s)), "UnmarshalText"
}

func isHexDigits(s string) bool {
	return strings.Trim(s, "0123456789abcdefABCDEF") == ""
}

func TestC01(t *testing.T) {
	p := vk.Start(t, "C01", "values of each byte type (7 types) through each way into and out of its text codec, with receivers that already hold other contents, and texts that are not valid; non-trivial: the receiver was not zero before, or the text is malformed")

	p.Check("roundtrip", 12000, 400000, func(c *vk.C) {
		k := rapid.SampledFrom(hexKinds).Draw(c.T, "kind")
		n := k.size
		if n == 0 {
			n = rapid.IntRange(0, 200).Draw(c.T, "n")
		}
		b := gen.Bytes(n, n).Draw(c.T, "value")
		src := k.fresh()
		hexSet(src, b)
		want := "0x" + hex.EncodeToString(b)
		txt, err := src.MarshalText()
		if err != nil || string(txt) != want {
			c.Fatalf("%s.MarshalText(%x) = %q, %v", k.name, b, txt, err)
		}
		if s := src.String(); s != want {
			c.Fatalf("%s.String(%x) = %q", k.name, b, s)
		}
		js, err := json.Marshal(src)
		if err != nil || string(js) != `"`+want+`"` {
			c.Fatalf("%s JSON of %x = %s, %v", k.name, b, js, err)
		}
		// and back, in any letter case, with or without the leading zero nibble,
		// into a receiver with other contents
		in := want
		if rapid.Bool().Draw(c.T, "mixedcase") {
			up := rapid.SliceOfN(rapid.Bool(), len(in), len(in)).Draw(c.T, "upper")
			bs := []byte(in)
			for i := 2; i < len(bs); i++ {
				if up[i] && bs[i] >= 'a' {
					bs[i] -= 32
				}
			}
			in = string(bs)
			c.Class("mixedcase")
		}
		if len(in) > 2 && in[2] == '0' && rapid.Bool().Draw(c.T, "odd") {
			in = "0x" + in[3:]
			c.Class("odd")
		}
		dst := k.fresh()
		old := gen.Bytes(n, n).Draw(c.T, "old")
		hexSet(dst, old)
		way := rapid.IntRange(0, 3).Draw(c.T, "way")
		err, via := hexParseVia(dst, way, in)
		c.Class(k.name, via)
		if err != nil {
			c.Fatalf("%s: %s(%q): %v", k.name, via, in, err)
		}
		if got := hexBytes(dst); string(got) != string(b) {
			c.Fatalf("%s: %s(%q) into a receiver holding %x gives %x", k.name, via, in, old, got)
		}
		if strings.Trim(string(old), "\x00") != "" {
			c.NonTrivial(k.name, via, in, old)
		}
		c.Sample("%s via %s: %s over %x", k.name, via, in, old)
	})

	p.Check("large", 60, 1000, largeHex)

	p.Check("malformed", 8000, 200000, func(c *vk.C) {
		k := rapid.SampledFrom(hexKinds).Draw(c.T, "kind")
		size := k.size
		if size == 0 {
			size = rapid.IntRange(0, 60).Draw(c.T, "n")
		}
		s := "0x" + hex.EncodeToString(gen.Bytes(size, size).Draw(c.T, "value"))
		switch rapid.IntRange(0, 4).Draw(c.T, "damage") {
		case 0: // no prefix, or a wrong one
			s = rapid.SampledFrom([]string{"", "0X", "x", "0", "1x", "00", " 0x", "#"}).Draw(c.T, "prefix") + s[2:]
		case 1: // one wrong character
			if len(s) == 2 {
				s = "0xg"
				break
			}
			i := rapid.IntRange(2, len(s)-1).Draw(c.T, "at")
			bad := rapid.SampledFrom([]byte("gGzZ@`/:_-+. x\"\\\x00\x7f")).Draw(c.T, "bad")
			switch rapid.IntRange(0, 5).Draw(c.T, "kind of bad") {
			case 0, 1: // any character, more often one that is a bit away from a digit
				bad = s[i] ^ 1<<uint(rapid.IntRange(0, 7).Draw(c.T, "bit"))
			case 2:
				bad = rapid.Byte().Draw(c.T, "byte")
			case 3: // a character whose encoding ends in such a byte
				s = s[:i] + string(rune(0x100*rapid.IntRange(1, 0xff).Draw(c.T, "high"))|rune(s[i])) + s[i+1:]
				bad = 0
			}
			if bad != 0 {
				s = s[:i] + string([]byte{bad}) + s[i+1:]
			}
		case 2: // truncated
			s = s[:rapid.IntRange(0, len(s)).Draw(c.T, "cut")]
		case 3: // too long
			s += rapid.StringMatching("[0-9a-f]{1,70}").Draw(c.T, "more")
		case 4:
			s = rapid.String().Draw(c.T, "any")
		}
		valid := strings.HasPrefix(s, "0x") && isHexDigits(s[2:])
		if k.size != 0 {
			valid = valid && (len(s)-2+1)/2 == k.size
		}
		dst := k.fresh()
		var err error
		var via string
		way := rapid.IntRange(0, 3).Draw(c.T, "way")
		if m := vk.Trap(func() { err, via = hexParseVia(dst, way, s) }); m != "" {
			c.Fatalf("%s: parsing %q: %s", k.name, s, m)
		}
		if valid != (err == nil) {
			c.Fatalf("%s: %s(%q): error %v, want valid=%v", k.name, via, s, err, valid)
		}
		if !valid {
			c.NonTrivial(k.name, via, s)
			c.Class(k.name, via)
			c.Sample("%s via %s rejects %q", k.name, via, s)
		}
	})

	p.Check("parsers", 3000, 50000, func(c *vk.C) {
		b := gen.Bytes(65, 65).Draw(c.T, "b")
		h := func(n int) string { return "0x" + hex.EncodeToString(b[:n]) }
		a, err := seth.ParseAddress(h(20))
		if err != nil || string(a[:]) != string(b[:20]) {
			c.Fatalf("ParseAddress(%s) = %x, %v", h(20), a, err)
		}
		hs, err := seth.ParseHash(h(32))
		if err != nil || string(hs[:]) != string(b[:32]) {
			c.Fatalf("ParseHash(%s) = %x, %v", h(32), hs, err)
		}
		k, err := seth.ParsePrivateKey(h(32))
		if err != nil || string(k[:]) != string(b[:32]) {
			c.Fatalf("ParsePrivateKey(%s) = %x, %v", h(32), k, err)
		}
		pk, err := seth.ParsePublicKey(h(64))
		if err != nil || string(pk[:]) != string(b[:64]) {
			c.Fatalf("ParsePublicKey(%s) = %x, %v", h(64), pk, err)
		}
		sg, err := seth.ParseSignature(h(65))
		if err != nil || string(sg[:]) != string(b[:65]) {
			c.Fatalf("ParseSignature(%s) = %x, %v", h(65), sg, err)
		}
		zero := true
		for _, x := range b[:20] {
			zero = zero && x == 0
		}
		if a.Zero() != zero {
			c.Fatalf("Zero(%x) = %v", a[:], a.Zero())
		}
		c.NonTrivial(b)
		c.Sample("%s", h(65))
	})

	// many values read one after another into the same variable, as a client
	// decoding a stream of replies does
	p.Check("reuse", 2000, 40000, func(c *vk.C) {
		var doc struct {
			A seth.Address
			H seth.Hash
			D seth.Data
			S []seth.Hash
		}
		n := rapid.IntRange(2, 5).Draw(c.T, "n")
		for i := 0; i < n; i++ {
			a, h := gen.Address().Draw(c.T, "a"), gen.Hash().Draw(c.T, "h")
			d := gen.Bytes(0, 40).Draw(c.T, "d")
			s := rapid.SliceOfN(gen.Hash(), 0, 3).Draw(c.T, "s")
			in := map[string]interface{}{"A": "0x" + hex.EncodeToString(a[:]), "H": "0x" + hex.EncodeToString(h[:]), "D": "0x" + hex.EncodeToString(d)}
			ss := []string{}
			for _, x := range s {
				ss = append(ss, "0x"+hex.EncodeToString(x[:]))
			}
			in["S"] = ss
			js, _ := json.Marshal(in)
			if err := json.Unmarshal(js, &doc); err != nil {
				c.Fatalf("step %d: %s: %v", i, js, err)
			}
			if doc.A != a || doc.H != h || string(doc.D) != string(d) || len(doc.S) != len(s) {
				c.Fatalf("step %d: %s read as %x %x %x", i, js, doc.A, doc.H, doc.D)
			}
			for j := range s {
				if doc.S[j] != s[j] {
					c.Fatalf("step %d: S[%d] of %s read as %x", i, j, js, doc.S[j])
				}
			}
			if i > 0 {
				c.Class("step-after-first")
			}
			if i == n-1 {
				c.NonTrivial(string(js))
				c.Sample("last of %d documents: %s", n, js)
			}
		}
	})
}
