package cmdp

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"os"
	"regexp"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"verif/harness/gen"
	"verif/harness/vk"
)

// how compilers take the selector from the call data, written as mnemonics
// so that the bytes are not a copy of the tool's
var preambles = []string{
	"PUSH 0 CALLDATALOAD PUSH29 SWAP1 DIV PUSH4 AND",
	"PUSH4 PUSH 0 CALLDATALOAD PUSH29 SWAP1 DIV AND",
	"PUSH4 PUSH29 PUSH 0 CALLDATALOAD DIV AND",
	"PUSH 0 CALLDATALOAD PUSH29 SWAP1 DIV",
	"PUSH4 PUSH e0 PUSH 2 EXP PUSH 0 CALLDATALOAD DIV AND",
	"PUSH e0 PUSH 2 EXP PUSH 0 CALLDATALOAD DIV",
}

func assemble(s string) []byte {
	var b []byte
	f := strings.Fields(s)
	for i := 0; i < len(f); i++ {
		switch f[i] {
		case "PUSH":
			i++
			x, err := hex.DecodeString(fmt.Sprintf("%02s", f[i]))
			check(err)
			b = append(append(b, 0x60), x...)
		case "PUSH4": // the mask
			b = append(b, 0x63, 0xff, 0xff, 0xff, 0xff)
		case "PUSH29": // 1 << 224
			b = append(append(b, 0x7c, 1), make([]byte, 28)...)
		case "CALLDATALOAD":
			b = append(b, 0x35)
		case "SWAP1":
			b = append(b, 0x90)
		case "DIV":
			b = append(b, 0x04)
		case "AND":
			b = append(b, 0x16)
		case "EXP":
			b = append(b, 0x0a)
		default:
			panic("HARNESS-ERROR " + f[i])
		}
	}
	return b
}

type entry struct {
	sel [4]byte
	pc  uint32
}

func (e entry) String() string { return fmt.Sprintf("%x pc:%d", e.sel, e.pc) }

func short(b []byte) []byte {
	for len(b) > 1 && b[0] == 0 {
		b = b[1:]
	}
	return append([]byte{byte(0x60 + len(b) - 1)}, b...)
}

// of ERC-20 and its optional parts, and of common ways to own, fund and stop contracts
var wellKnown = []string{"transfer(address,uint256)", "balanceOf(address)", "totalSupply()", "name()", "symbol()", "decimals()", "approve(address,uint256)", "allowance(address,address)", "transferFrom(address,address,uint256)",
	"collect()", "collect(address)", "acceptOwnership()", "approveAndCall(address,uint256,bytes)", "burn(address,uint256)", "changeOwner(address)", "deposit()", "finalize()", "finalized()", "halt()", "locked()", "makeWallet()", "mint(address,uint256)", "owner()", "pause()", "setPrice(uint256)", "start()", "sweep(address,uint256)", "tokenFallback(address,uint256,bytes)", "version()"}

var named = func() map[[4]byte]string {
	m := map[[4]byte]string{}
	for _, s := range wellKnown {
		var b [4]byte
		copy(b[:], selector(s))
		m[b] = s
	}
	return m
}()

// genTable draws a dispatcher's table and its bytes.
func genTable(t *rapid.T, max int) (es []entry, code []byte) {
	seen := map[[4]byte]bool{}
	wide := rapid.IntRange(0, 3).Draw(t, "destination width")
	entries := rapid.IntRange(0, max).Draw(t, "entries")
	all := max > 10 && oneIn(t, 8, "all the known functions")
	if all {
		entries = len(wellKnown)
	}
	if max > 10 && !all && oneIn(t, 12, "very many") {
		entries = rapid.IntRange(100, 300).Draw(t, "how many")
	}
	for i := entries; i > 0; i-- {
		var e entry
		switch k := rapid.IntRange(0, 3).Draw(t, "selector"); {
		case all:
			copy(e.sel[:], selector(wellKnown[i-1]))
		case k == 0:
			copy(e.sel[:], selector(rapid.SampledFrom(wellKnown).Draw(t, "known")))
		case k == 1:
			copy(e.sel[rapid.IntRange(1, 3).Draw(t, "zeros"):], gen.Bytes(4, 4).Draw(t, "sel"))
		default:
			copy(e.sel[:], gen.Bytes(4, 4).Draw(t, "sel"))
		}
		if seen[e.sel] {
			continue
		}
		seen[e.sel] = true
		var dest []byte
		switch wide {
		case 0: // PUSH2, as the compiler has it
			e.pc = uint32(rapid.IntRange(0, 0xffff).Draw(t, "pc"))
			dest = []byte{0x61, byte(e.pc >> 8), byte(e.pc)}
		case 1:
			e.pc = uint32(rapid.IntRange(0, 0xff).Draw(t, "pc"))
			dest = []byte{0x60, byte(e.pc)}
		case 2:
			e.pc = uint32(rapid.IntRange(0, 0xffffff).Draw(t, "pc"))
			dest = []byte{0x62, byte(e.pc >> 16), byte(e.pc >> 8), byte(e.pc)}
		default:
			e.pc = rapid.Uint32().Draw(t, "pc")
			dest = short([]byte{byte(e.pc >> 24), byte(e.pc >> 16), byte(e.pc >> 8), byte(e.pc)})
		}
		sel := short(e.sel[:])
		if oneIn(t, 3, "full width") {
			sel = append([]byte{0x63}, e.sel[:]...)
		}
		if rapid.Bool().Draw(t, "order") {
			code = append(append(code, 0x80), sel...)
		} else {
			code = append(append(code, sel...), 0x81)
		}
		code = append(append(append(code, 0x14), dest...), 0x57)
		es = append(es, e)
	}
	return
}

func hasPreamble(code []byte) bool {
	for _, p := range preambles {
		if bytes.Contains(code, assemble(p)) {
			return true
		}
	}
	return false
}

var line = regexp.MustCompile(`^([0-9a-f]{8}) pc: *([0-9]+)(?: ([^ ]+))?$`)

// parse reads what the command lists.
func parse(out string) (es []entry, bad string) {
	for _, l := range strings.Split(strings.TrimSuffix(out, "\n"), "\n") {
		if l == "" {
			continue
		}
		m := line.FindStringSubmatch(l)
		if m == nil {
			return nil, "a line is " + l
		}
		var e entry
		b, _ := hex.DecodeString(m[1])
		copy(e.sel[:], b)
		var pc uint64
		fmt.Sscan(m[2], &pc)
		e.pc = uint32(pc)
		if pc > 0xffffffff {
			return nil, "a line is " + l
		}
		if m[3] != "" && !bytes.Equal(selector(m[3]), e.sel[:]) {
			return nil, "a name is wrong: " + l
		}
		if m[3] == "" && named[e.sel] != "" {
			return nil, "no name: " + l
		}
		es = append(es, e)
	}
	return es, ""
}

func TestC43(t *testing.T) {
	p := vk.Start(t, "C43", "code of a prologue, one of the six preambles compilers of the tool's time write, a table of 0 to 12 entries, some of up to 300 (both instruction orders, selectors with leading zeros, destinations of 1 to 4 bytes), a fallback, bodies and perhaps an embedded contract, from standard input or a node; the same code cut short; and arbitrary bytes; non-trivial: a distinct code whose listing was compared",
		"a table is linear: compilers that split it with comparisons came later")

	show := func(c *vk.C, code []byte) result {
		dir := scratch()
		defer os.RemoveAll(dir)
		if rapid.Bool().Draw(c.T, "from node") {
			a := gen.Address().Draw(c.T, "addr")
			n := newNode(dir, rapid.Bool().Draw(c.T, "ipc"), func(r request) (interface{}, string) {
				if r.Method != "eth_getCode" || string(r.Params[0]) != fmt.Sprintf("%q", hx(a[:])) {
					return nil, "bad request " + r.String()
				}
				return hx(code), ""
			})
			defer n.close()
			return tool{dir: dir, env: map[string]string{"SETH_URL": n.url}}.run("jumptab", hx(a[:]))
		}
		in := hex.EncodeToString(code)
		if rapid.Bool().Draw(c.T, "newline") && in != "" {
			in += "\n"
		}
		return tool{dir: dir, stdin: []byte(in)}.run("jumptab", "-")
	}
	filler := func(t *rapid.T, label string, max int) []byte {
		for {
			b := gen.Bytes(0, max).Draw(t, label)
			if !hasPreamble(b) {
				return b
			}
		}
	}

	p.Check("dispatcher", 250, 10000, func(c *vk.C) {
		es, table := genTable(c.T, 12)
		which := rapid.IntRange(0, len(preambles)-1).Draw(c.T, "preamble")
		code := append([]byte{0x60, 0x60, 0x60, 0x40, 0x52}, filler(c.T, "prologue", 30)...)
		code = append(append(code, assemble(preambles[which])...), table...)
		code = append(code, rapid.SampledFrom([][]byte{{0x5b, 0x60, 0, 0x80, 0xfd}, {0x00}, {0x5b, 0x00}, {0xfe}, {0x61, 1, 2, 0x56}, {0x60, 2, 0x56}, {0x5b}}).Draw(c.T, "fallback")...)
		code = append(code, filler(c.T, "bodies", 40)...)
		if oneIn(c.T, 4, "embedded") {
			_, inner := genTable(c.T, 4)
			code = append(append(code, assemble(rapid.SampledFrom(preambles).Draw(c.T, "inner"))...), inner...)
			c.Class("embedded contract")
		}
		r := show(c, code)
		got, bad := parse(r.out)
		if r.code != 0 || bad != "" || fmt.Sprint(got) != fmt.Sprint(es) {
			c.Fatalf("the table of %x is\n%v\nbut the tool says (%s) %v\n%v", code, es, bad, r, got)
		}
		if len(es) > 0 {
			c.NonTrivial(code)
		}
		c.Class(preambles[which], fmt.Sprintf("%d entries", len(es)))
		c.Sample("%x: %v", code, es)
	})

	p.Check("cut", 150, 6000, func(c *vk.C) {
		es, table := genTable(c.T, 4)
		code := assemble(rapid.SampledFrom(preambles).Draw(c.T, "preamble"))
		full := len(code)
		code = append(code, table...)
		n := rapid.IntRange(0, len(code)).Draw(c.T, "kept")
		code = code[:n]
		r := show(c, code)
		got, bad := parse(r.out)
		if r.crashed() || r.code != 0 && !r.failed() || bad != "" || len(got) > len(es) || fmt.Sprint(got) != fmt.Sprint(es[:len(got)]) {
			c.Fatalf("code %x: %v\n%s", code, r, bad)
		}
		if n < full && !hasPreamble(code) && (!r.failed() || r.out != "") {
			c.Fatalf("code %x without a table: %v", code, r)
		}
		c.NonTrivial(code)
	})

	p.Check("arbitrary", 250, 10000, func(c *vk.C) {
		var code []byte
		for i := rapid.IntRange(0, 8).Draw(c.T, "pieces"); i > 0; i-- {
			switch rapid.IntRange(0, 5).Draw(c.T, "piece") {
			case 5: // a table that ends in something much like an entry
				_, tb := genTable(c.T, 2)
				code = append(append(code, assemble(rapid.SampledFrom(preambles).Draw(c.T, "preamble"))...), tb...)
				sel := gen.Bytes(1, 32).Draw(c.T, "wide selector")
				dest := gen.Bytes(1, 32).Draw(c.T, "wide destination")
				if rapid.Bool().Draw(c.T, "selector fits") {
					sel = sel[:(len(sel)-1)%4+1]
				}
				if oneIn(c.T, 3, "destination fits") {
					dest = dest[:(len(dest)-1)%4+1]
				}
				push := append([]byte{byte(0x60 + len(sel) - 1)}, sel...)
				if rapid.Bool().Draw(c.T, "order") {
					code = append(append(code, 0x80), push...)
				} else {
					code = append(append(code, push...), 0x81)
				}
				code = append(append(append(code, 0x14, byte(0x60+len(dest)-1)), dest...), 0x57)
			case 0:
				code = append(code, gen.Bytes(0, 20).Draw(c.T, "bytes")...)
			case 1:
				code = append(code, assemble(rapid.SampledFrom(preambles).Draw(c.T, "preamble"))...)
			case 2:
				p := assemble(rapid.SampledFrom(preambles).Draw(c.T, "preamble"))
				code = append(code, p[:rapid.IntRange(0, len(p)-1).Draw(c.T, "part")]...)
			case 3:
				_, tb := genTable(c.T, 2)
				if len(tb) > 0 {
					tb[rapid.IntRange(0, len(tb)-1).Draw(c.T, "at")] = rapid.Byte().Draw(c.T, "byte")
				}
				code = append(code, tb...)
			default:
				code = append(code, rapid.SliceOfN(rapid.SampledFrom([]byte{0x60, 0x61, 0x63, 0x80, 0x81, 0x14, 0x57, 0x00, 0x5b, 0x7f, 0x64}), 0, 12).Draw(c.T, "ops")...)
			}
		}
		r := show(c, code)
		got, bad := parse(r.out)
		if r.crashed() || r.code != 0 && !r.failed() || bad != "" {
			c.Fatalf("code %x: %v\n%s", code, r, bad)
		}
		if !hasPreamble(code) && (!r.failed() || r.out != "") {
			c.Fatalf("code %x without a table: %v", code, r)
		}
		// what is listed is in the code
		for _, e := range got {
			if !bytes.Contains(code, short(e.sel[:])[1:]) {
				c.Fatalf("code %x has no %x: %v", code, e.sel, r)
			}
		}
		c.NonTrivial(code)
		c.Class(fmt.Sprintf("exit %d", r.code))
	})

	p.Check("bad input", 90, 3000, func(c *vk.C) {
		dir := scratch()
		defer os.RemoveAll(dir)
		_, table := genTable(c.T, 3)
		good := hex.EncodeToString(append(assemble(rapid.SampledFrom(preambles).Draw(c.T, "preamble")), table...))
		in := rapid.SampledFrom([]string{"", "0x6000", "6", "60 00", "zz", "600", "\n\n", "6000\n\n", "é", good + "\n\n", good + "zz", good + "6", " " + good, "0x" + good, good + "\r\n"}).Draw(c.T, "in")
		n := newNode(dir, true, func(r request) (interface{}, string) { return "0x" + good, "" })
		defer n.close()
		args := []string{"jumptab", "-"}
		tl := tool{dir: dir, stdin: []byte(in), env: map[string]string{"SETH_URL": n.url}}
		switch rapid.IntRange(0, 5).Draw(c.T, "args") {
		case 0, 1:
			a := gen.Address().Draw(c.T, "addr")
			args = rapid.SampledFrom([][]string{{"jumptab"}, {"jumptab", "-", "-"}, {"jumptab", "0x12"}, {"jumptab", "x"}, {"jumptab", hx(a[:])[:40]},
				{"jumptab", hx(a[:]) + "0"}, {"jumptab", hx(a[1:])}, {"jumptab", hx(a[:]) + "00"}, {"jumptab", "0xg" + hx(a[:])[3:]}, {"jumptab", ""}}).Draw(c.T, "args")
		case 2: // which cannot be read
			tl.from, in = ".", "a directory"
		}
		r := tl.run(args...)
		if !r.failed() || r.out != "" {
			c.Fatalf("eth %q of %q: %v", args, in, r)
		}
		c.NonTrivial(in, args)
	})
}
