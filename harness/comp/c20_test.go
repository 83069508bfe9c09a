package comp

import (
	"bytes"
	"fmt"
	"math"
	"strconv"
	"strings"
	"testing"

	"github.com/philhofer/seth"
	"pgregory.net/rapid"

	"verif/harness/gen"
	"verif/harness/vk"
)

// The trailer, written from the Solidity documentation: a CBOR map with the
// one entry {"bzzr0": 32 bytes}, and its length as two bytes.
func trailer(hash []byte) []byte {
	out := []byte{0xa1, 0x65}
	out = append(out, "bzzr0"...)
	out = append(out, 0x58, 0x20)
	out = append(out, hash...)
	return append(out, 0x00, 0x29)
}

// split is the reference: the body and hash of code that ends in a trailer.
func split(code []byte) (body, hash []byte) {
	n := len(code) - 43
	if n < 0 {
		return code, nil
	}
	h := code[n+9 : n+41]
	if !bytes.Equal(code[n:], trailer(h)) {
		return code, nil
	}
	return code[:n], h
}

func TestC20(t *testing.T) {
	p := vk.Start(t, "C20", "a case is non-trivial when the code holds a trailer, whole, damaged or misplaced")
	p.Check("trailers", 40000, 1500000, func(c *vk.C) {
		hash := gen.Bytes(32, 32).Draw(c.T, "hash")
		body := gen.Bytes(0, 80).Draw(c.T, "body")
		tr := trailer(hash)
		kind := rapid.SampledFrom([]string{"whole", "damaged", "cut front", "cut back", "misplaced", "twice", "overlapping", "none", "hash holds markers"}).Draw(c.T, "kind")
		var code []byte
		switch kind {
		case "whole":
			code = append(append(code, body...), tr...)
		case "damaged":
			i := rapid.IntRange(0, len(tr)-1).Draw(c.T, "at")
			d := append([]byte(nil), tr...)
			d[i] ^= byte(rapid.IntRange(1, 255).Draw(c.T, "flip"))
			code = append(append(code, body...), d...)
		case "cut front":
			code = append(code, tr[rapid.IntRange(1, len(tr)).Draw(c.T, "cut"):]...)
		case "cut back":
			code = append(append(code, body...), tr[:rapid.IntRange(0, len(tr)-1).Draw(c.T, "cut")]...)
		case "misplaced":
			code = append(append(append(code, body...), tr...), gen.Bytes(1, 60).Draw(c.T, "after")...)
		case "twice":
			code = append(append(append(code, body...), trailer(gen.Bytes(32, 32).Draw(c.T, "hash2"))...), tr...)
		case "overlapping":
			k := rapid.IntRange(1, 42).Draw(c.T, "k")
			code = append(append(append(code, body...), tr[:k]...), tr...)
		case "none":
			code = body
		case "hash holds markers":
			h := append([]byte(nil), hash...)
			copy(h[rapid.IntRange(0, 23).Draw(c.T, "at"):], tr[:9])
			code = append(append(code, body...), trailer(h)...)
		}
		c.Class(kind)
		if kind != "none" {
			c.NonTrivial(code)
			c.Sample("%s: %x", kind, code)
		}
		// the code in the middle of something longer, to see what is read
		// and written beside it
		front := rapid.IntRange(0, 3).Draw(c.T, "front")
		buf := append(append(bytes.Repeat([]byte{0xa1}, front), code...), tr...)
		orig := append([]byte(nil), buf...)
		in := buf[front : front+len(code)]
		if rapid.Bool().Draw(c.T, "exact capacity") {
			in = in[:len(code):len(code)]
		}
		wantBody, wantHash := split(code)
		got := seth.MetadataHash(in)
		if !bytes.Equal(got, wantHash) || (got == nil) != (wantHash == nil) {
			c.Fatalf("MetadataHash(%x) = %x, want %x", code, got, wantHash)
		}
		stripped := seth.StripBytecode(in)
		if !bytes.Equal(stripped, wantBody) {
			c.Fatalf("StripBytecode(%x) = %x, want %x", code, stripped, wantBody)
		}
		again := seth.StripBytecode(stripped)
		wantAgain, _ := split(wantBody)
		if !bytes.Equal(again, wantAgain) {
			c.Fatalf("StripBytecode twice on %x = %x, want %x", code, again, wantAgain)
		}
		if !bytes.Equal(buf, orig) {
			c.Fatalf("the input was modified: %x, was %x", buf, orig)
		}
	})
}

// srcpos is one entry of a source map.
type srcpos struct {
	s, l, f int
	j       string
}

// compress writes a source map as the Solidity documentation describes: an
// empty field repeats the previous entry's, and missing fields are empty.
func compress(t *rapid.T, m []srcpos) string {
	var entries []string
	style := rapid.IntRange(0, 2).Draw(t, "style")
	for i, e := range m {
		fields := []string{strconv.Itoa(e.s), strconv.Itoa(e.l), strconv.Itoa(e.f), e.j}
		if i > 0 {
			p := m[i-1]
			prev := []string{strconv.Itoa(p.s), strconv.Itoa(p.l), strconv.Itoa(p.f), p.j}
			for k := range fields {
				if fields[k] == prev[k] && (style == 0 || style == 1 && rapid.Bool().Draw(t, "omit")) {
					fields[k] = ""
				}
			}
		}
		n := 4
		for n > 1 && fields[n-1] == "" && (style == 0 || rapid.Bool().Draw(t, "drop colon")) {
			n--
		}
		entries = append(entries, strings.Join(fields[:n], ":"))
	}
	return strings.Join(entries, ";")
}

// counting is a long text no part of which comes twice.
var counting = func() string {
	var b strings.Builder
	for i := 0; b.Len() < 150000; i++ {
		fmt.Fprintf(&b, "%d.", i)
	}
	return b.String()
}()

func TestC21(t *testing.T) {
	p := vk.Start(t, "C21", "a case is non-trivial when the code has a push instruction and the map at least two different entries")
	positions := func(c *vk.C, long bool) {
		nsrc := rapid.IntRange(0, 3).Draw(c.T, "sources")
		if long {
			nsrc = rapid.SampledFrom([]int{1, 3, 12, 130}).Draw(c.T, "many sources")
		}
		var shift []int // what the sources start with is not aimed at
		b := &seth.CompiledBundle{}
		for i := 0; i < nsrc; i++ {
			n := rapid.IntRange(0, 60).Draw(c.T, "source length")
			var sb bytes.Buffer
			for k := 0; k < n; k++ {
				sb.WriteByte(byte('a' + (i*7+k*3)%26))
			}
			if long {
				// so that offsets have many digits
				head := counting[i : i+rapid.SampledFrom([]int{0, 0, 100, 100, 1000, 1000, 10000, 140000}).Draw(c.T, "head")]
				shift = append(shift, len(head))
				sb = *bytes.NewBufferString(head + sb.String())
			} else {
				shift = append(shift, 0)
			}
			b.Sources = append(b.Sources, sb.String())
			b.Filenames = append(b.Filenames, fmt.Sprintf("f%d.sol", i))
		}
		// code: instr[pc] is the number of the instruction pc is in
		var code []byte
		var instr []int
		nops := rapid.IntRange(0, 40).Draw(c.T, "instructions")
		pushes := 0
		for i := 0; i < nops; i++ {
			op := byte(rapid.IntRange(0, 255).Draw(c.T, "op"))
			if rapid.Bool().Draw(c.T, "push") {
				op = byte(rapid.IntRange(0x5f, 0x80).Draw(c.T, "push op"))
			}
			width := 0
			if op >= 0x60 && op <= 0x7f {
				width = int(op) - 0x5f
				pushes++
			}
			if i == nops-1 && width > 0 && rapid.Bool().Draw(c.T, "cut") {
				width = rapid.IntRange(0, width-1).Draw(c.T, "kept")
			}
			code = append(code, op)
			instr = append(instr, i)
			for k := 0; k < width; k++ {
				d := byte(rapid.IntRange(0x58, 0x88).Draw(c.T, "data"))
				code = append(code, d)
				instr = append(instr, i)
			}
		}
		nmap := nops + rapid.SampledFrom([]int{0, 0, 0, -1, -5, 1, 7}).Draw(c.T, "map length")
		if nmap < 0 {
			nmap = 0
		}
		var m []srcpos
		distinct := false
		for i := 0; i < nmap; i++ {
			var e srcpos
			if i > 0 && rapid.Bool().Draw(c.T, "like previous") {
				e = m[i-1]
			} else {
				e.f = rapid.IntRange(-1, nsrc).Draw(c.T, "f")
				min, max := 0, 5
				if e.f >= 0 && e.f < nsrc {
					min, max = shift[e.f], len(b.Sources[e.f])
				}
				e.s = rapid.IntRange(min, max).Draw(c.T, "s")
				e.l = rapid.IntRange(0, max-e.s).Draw(c.T, "l")
				switch rapid.IntRange(0, 19).Draw(c.T, "bad") {
				case 0:
					e.l = max - e.s + rapid.IntRange(1, 3).Draw(c.T, "over")
				case 1:
					e.s, e.l = -1, -1
				case 2:
					e.s = math.MaxInt64 - 1
				case 3:
					e.l = math.MaxInt64 - 1
				}
				e.j = rapid.SampledFrom([]string{"-", "i", "o"}).Draw(c.T, "j")
			}
			distinct = distinct || i > 0 && e != m[i-1]
			m = append(m, e)
		}
		if long && len(code) > 0 && len(m) > 0 {
			// the same again and again, and then told apart by a few entries
			most := 24 << 10
			if rapid.IntRange(0, 5).Draw(c.T, "huge") == 0 {
				most = 200 << 10
			}
			n := rapid.IntRange(1, most/len(code)+1).Draw(c.T, "repetitions")
			code = bytes.Repeat(code, n)
			instr = instr[:0]
			for k, pc := 0, 0; pc < len(code); k++ {
				width := 1
				if op := code[pc]; op >= 0x60 && op <= 0x7f {
					width += int(op) - 0x5f
				}
				for ; width > 0 && pc < len(code); width-- {
					instr = append(instr, k)
					pc++
				}
			}
			unit := m
			m = nil
			for i := 0; i < n; i++ {
				m = append(m, unit...)
			}
			for i := rapid.IntRange(0, 6).Draw(c.T, "entries"); i > 0; i-- {
				f := rapid.IntRange(0, nsrc-1).Draw(c.T, "f")
				by := rapid.SampledFrom([]int{2, 1000}).Draw(c.T, "by")
				m[rapid.IntRange(0, len(m)-1).Draw(c.T, "at")] = srcpos{s: shift[f] / by, l: rapid.IntRange(0, len(b.Sources[f])-shift[f]/by).Draw(c.T, "l"), f: f, j: "-"}
			}
		}
		con := &seth.CompiledContract{Name: "C", Code: code, Sourcemap: compress(c.T, m)}
		if pushes > 0 && distinct {
			c.NonTrivial(code, con.Sourcemap)
			c.Sample("code %x map %q", code, con.Sourcemap)
		}
		want := func(pc int) string {
			if pc < 0 || pc >= len(code) || instr[pc] >= len(m) {
				return ""
			}
			e := m[instr[pc]]
			if e.f < 0 || e.f >= nsrc {
				return ""
			}
			src := b.Sources[e.f]
			if e.s < 0 || e.l < 0 || e.s > len(src) || e.l > len(src)-e.s {
				return ""
			}
			return src[e.s : e.s+e.l]
		}
		// the stored form of the bundle must give the same answers
		b.Contracts = []seth.CompiledContract{*con}
		if rapid.Bool().Draw(c.T, "stored") {
			raw, err := b.MarshalMsg(nil)
			if err != nil {
				c.Fatalf("MarshalMsg: %s", err)
			}
			b = new(seth.CompiledBundle)
			if _, err := b.UnmarshalMsg(raw); err != nil {
				c.Fatalf("UnmarshalMsg: %s", err)
			}
		}
		con = b.Contract("C")
		if con == nil {
			c.Fatalf("the bundle lost its contract")
		}
		pcs := []int{-1, -2, math.MinInt64, math.MaxInt64, len(code) + 33}
		for pc := 0; pc <= len(code)+1; pc++ {
			pcs = append(pcs, pc)
		}
		if rapid.Bool().Draw(c.T, "backwards") {
			for i, j := 0, len(pcs)-1; i < j; i, j = i+1, j-1 {
				pcs[i], pcs[j] = pcs[j], pcs[i]
			}
		}
		for _, pc := range pcs {
			var got string
			if msg := vk.Trap(func() { got = b.SourceOf(con, pc) }); msg != "" {
				c.Fatalf("SourceOf(pc %d) of code %x, map %q: %s", pc, code, con.Sourcemap, msg)
			}
			if w := want(pc); got != w && long {
				c.Fatalf("SourceOf(pc %d) of %d bytes of code, %d entries = %q, want %q", pc, len(code), len(m), got, w)
			} else if got != w {
				c.Fatalf("SourceOf(pc %d) of code %x, map %q, sources %q = %q, want %q", pc, code, con.Sourcemap, b.Sources, got, w)
			}
		}
	}
	p.Check("positions", 8000, 300000, func(c *vk.C) { positions(c, false) })
	p.Check("long", 300, 8000, func(c *vk.C) { positions(c, true) })
}
