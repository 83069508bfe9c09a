package cmdp

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"reflect"
	"strings"
	"testing"

	"github.com/ethereum/go-ethereum/accounts/abi"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/rlp"
	"pgregory.net/rapid"

	"verif/harness/gen"
	"verif/harness/vk"
)

var scalar = rapid.Custom(func(t *rapid.T) string {
	switch rapid.IntRange(0, 5).Draw(t, "type") {
	case 0:
		return "address"
	case 1:
		return "bool"
	case 2:
		return fmt.Sprintf("uint%d", rapid.SampledFrom([]int{8, 16, 32, 64, 128, 256}).Draw(t, "bits"))
	case 3:
		return fmt.Sprintf("int%d", rapid.SampledFrom([]int{8, 16, 32, 64, 128, 256}).Draw(t, "bits"))
	case 4:
		return fmt.Sprintf("bytes%d", rapid.SampledFrom([]int{32, 1, 4, 20, 31, 8, 16}).Draw(t, "n"))
	}
	return "uint256"
})

// genCallType draws a type the tool takes on its command line.
func genCallType(t *rapid.T) string {
	switch rapid.IntRange(0, 4).Draw(t, "kind") {
	case 0:
		return rapid.SampledFrom([]string{"string", "bytes"}).Draw(t, "dynamic")
	case 1:
		s := scalar.Draw(t, "element")
		if !strings.HasPrefix(s, "bytes") {
			return s + "[]"
		}
	}
	return scalar.Draw(t, "scalar")
}

// limits of an integer type
func limits(typ string) (lo, hi *big.Int) {
	var bits uint
	fmt.Sscanf(strings.TrimPrefix(strings.TrimPrefix(typ, "u"), "int"), "%d", &bits)
	one := big.NewInt(1)
	if typ[0] == 'u' {
		return new(big.Int), new(big.Int).Sub(new(big.Int).Lsh(one, bits), one)
	}
	hi = new(big.Int).Sub(new(big.Int).Lsh(one, bits-1), one)
	return new(big.Int).Not(hi), hi
}

func goInt(typ string, x *big.Int) interface{} {
	ty, err := abi.NewType(typ, nil)
	check(err)
	if ty.Type.Kind() == reflect.Ptr {
		return x
	}
	v := reflect.New(ty.Type).Elem()
	if typ[0] == 'u' {
		v.SetUint(x.Uint64())
	} else {
		v.SetInt(x.Int64())
	}
	return v.Interface()
}

// genCallValue draws a value of a type: as text and for the reference.
func genCallValue(t *rapid.T, typ string) (text string, ref interface{}) {
	switch {
	case strings.HasSuffix(typ, "[]"):
		ty, err := abi.NewType(typ, nil)
		check(err)
		list := reflect.MakeSlice(ty.Type, 0, 4)
		var parts []string
		for i := rapid.IntRange(0, 4).Draw(t, "len"); i > 0; i-- {
			s, r := genCallValue(t, strings.TrimSuffix(typ, "[]"))
			parts = append(parts, s)
			list = reflect.Append(list, reflect.ValueOf(r))
		}
		return "[" + strings.Join(parts, ",") + "]", list.Interface()
	case typ == "bool":
		b := rapid.Bool().Draw(t, "bool")
		return fmt.Sprint(b), b
	case typ == "address":
		a := gen.Address().Draw(t, "addr")
		text := hex.EncodeToString(a[:])
		if oneIn(t, 3, "upper") {
			text = strings.ToUpper(text)
		}
		return "0x" + text, common.Address(a)
	case typ == "string":
		s := rapid.OneOf(
			rapid.SampledFrom([]string{"", "hello", "deadbeef", "0x00", "0", "abc", "[1,2]", "ünïcode", "a b\nc", "-x", "0xzz"}),
			rapid.StringMatching(`[ -~é]{0,70}`)).Draw(t, "string")
		return s, s
	case typ == "bytes", strings.HasPrefix(typ, "bytes"):
		var n int
		fmt.Sscanf(typ, "bytes%d", &n)
		if typ == "bytes" {
			n = rapid.IntRange(0, 70).Draw(t, "n")
		}
		b := gen.Bytes(n, n).Draw(t, "bytes")
		text := hex.EncodeToString(b)
		if oneIn(t, 4, "upper") {
			text = strings.ToUpper(text)
		}
		if rapid.Bool().Draw(t, "0x") {
			text = "0x" + text
		}
		if typ == "bytes" {
			return text, b
		}
		a := reflect.New(reflect.ArrayOf(n, reflect.TypeOf(byte(0)))).Elem()
		reflect.Copy(a, reflect.ValueOf(b))
		return text, a.Interface()
	}
	lo, hi := limits(typ)
	x := new(big.Int)
	switch rapid.IntRange(0, 6).Draw(t, "where") {
	case 0:
		x.Set(hi)
	case 1:
		x.Set(lo)
	case 2:
		x.Sub(hi, big.NewInt(int64(rapid.IntRange(0, 3).Draw(t, "below"))))
	case 3:
		x.Add(lo, big.NewInt(int64(rapid.IntRange(0, 3).Draw(t, "above"))))
	default:
		x = gen.Big(hi.BitLen()).Draw(t, "x")
		if lo.Sign() < 0 && rapid.Bool().Draw(t, "negative") {
			x = new(big.Int).Not(x)
		}
	}
	text = x.String()
	if rapid.IntRange(0, 2).Draw(t, "hex") == 0 {
		text = "0x" + new(big.Int).Abs(x).Text(16)
		if x.Sign() < 0 {
			text = "-" + text
		}
	}
	return text, goInt(typ, x)
}

// spoil draws a text that is no value of the type.
func spoil(t *rapid.T, typ, good string) string {
	switch {
	case strings.HasSuffix(typ, "[]"):
		el := strings.TrimSuffix(typ, "[]")
		v, _ := genCallValue(t, el)
		bad := spoil(t, el, v)
		if bad == "" {
			bad = "x" // [] is the empty array
		}
		return rapid.SampledFrom([]string{"", v, "[" + v, v + "]", "[" + v + ",]", "[," + v + "]", "[[" + v + "]]", "[" + bad + "]", "[" + v + "," + bad + "]", "(" + v + ")", "[", "]", "[" + v + " " + v + "]"}).Draw(t, "bad array")
	case typ == "bool":
		return rapid.SampledFrom([]string{"", "1", "0", "True", "truee", "yes", "0x1", "2"}).Draw(t, "bad bool")
	case typ == "address":
		return rapid.SampledFrom([]string{"", "0x", good + "0", good + "00", good[:len(good)-2], "0x" + strings.Repeat("g", 40), "12345", strings.Replace(good, "0x", "0y", 1)}).Draw(t, "bad address")
	case typ == "bytes":
		return rapid.SampledFrom([]string{"0x0", "abc", "0xzz", "hello", "0x12 34", "0x0x12"}).Draw(t, "bad bytes")
	case strings.HasPrefix(typ, "bytes"):
		return rapid.SampledFrom([]string{"", "0x", good + "00", good + "0", good[:len(good)-1], good[:len(good)-2] + "g0", good + good, "zz"}).Draw(t, "bad bytesN")
	}
	lo, hi := limits(typ)
	switch rapid.IntRange(0, 4).Draw(t, "bad int") {
	case 0:
		return new(big.Int).Add(hi, big.NewInt(int64(rapid.IntRange(1, 3).Draw(t, "over")))).String()
	case 1:
		return new(big.Int).Sub(lo, big.NewInt(int64(rapid.IntRange(1, 3).Draw(t, "under")))).String()
	case 2:
		return "0x1" + strings.Repeat("0", rapid.IntRange(64, 80).Draw(t, "zeros"))
	case 3:
		return "-" + new(big.Int).Lsh(big.NewInt(1), uint(rapid.IntRange(256, 300).Draw(t, "bits"))).String()
	}
	return rapid.SampledFrom([]string{"", "x", "1.5", "1e3", "0x", "0xg", "12abc", "--1", "true", " 1", "1 ", "one", "-"}).Draw(t, "nonsense")
}

// dispatcher writes code with a Solidity function dispatcher.
func dispatcher(sels [][]byte) []byte {
	var b bytes.Buffer
	b.Write([]byte{0x60, 0x60, 0x60, 0x40, 0x52, 0x60, 0x04, 0x36, 0x10, 0x61, 0x00, 0x40, 0x57})
	pre, _ := hex.DecodeString("63ffffffff7c01000000000000000000000000000000000000000000000000000000006000350416")
	b.Write(pre)
	for i, s := range sels {
		b.WriteByte(0x80)
		for len(s) > 1 && s[0] == 0 {
			s = s[1:]
		}
		b.WriteByte(byte(0x60 + len(s) - 1))
		b.Write(s)
		b.Write([]byte{0x14, 0x61, 0x01, byte(i * 3), 0x57})
	}
	b.Write([]byte{0x5b, 0x60, 0x00, 0x80, 0xfd})
	for range sels {
		b.Write([]byte{0x5b, 0x00, 0x00})
	}
	return b.Bytes()
}

func TestC42(t *testing.T) {
	p := vk.Start(t, "C42", "a signature of 0 to 5 arguments of the types the tool knows, with the arguments as text, given to eth call (with a key and a signer's passphrase on a terminal) and eth read; then calls spoilt one way; non-trivial: a distinct call with at least one argument, or of the fallback function",
		"go-ethereum v1.9.2 packs the arguments and decodes the transactions; the node is a stand-in over HTTP or a socket; numbers without leading zeros, signs or underscores that Go's syntax gives a meaning")

	type cse struct {
		dir   string
		sig   string
		args  []string
		types []string
		data  []byte
	}
	genCase := func(t *rapid.T, min int) *cse {
		k := &cse{}
		var refs []interface{}
		for i := rapid.IntRange(min, 5).Draw(t, "args"); i > 0; i-- {
			typ := genCallType(t)
			s, r := genCallValue(t, typ)
			k.types, k.args, refs = append(k.types, typ), append(k.args, s), append(refs, r)
		}
		k.sig = rapid.StringMatching(`[a-zA-Z_][a-zA-Z0-9_]{0,10}`).Draw(t, "fn") + "(" + strings.Join(k.types, ",") + ")"
		k.data = append(selector(k.sig), pack(k.types, refs)...)
		return k
	}

	p.Check("call", 150, 6000, func(c *vk.C) {
		dir := scratch()
		defer os.RemoveAll(dir)
		k := genCase(c.T, 0)
		fallback := oneIn(c.T, 8, "fallback")
		if fallback {
			k = &cse{sig: "()", data: selector("()")}
		}
		key := genKey(c.T)
		write(dir, "keys/key.json", key.file)
		to := gen.Address().Draw(c.T, "to")
		nonce, gas := gen.Uint64().Draw(c.T, "nonce"), uint64(rapid.IntRange(21000, 8000000).Draw(c.T, "gas"))
		hash := gen.Hash().Draw(c.T, "hash")
		gwei := 4
		force := rapid.Bool().Draw(c.T, "-f")
		var flags []string
		if rapid.Bool().Draw(c.T, "-g") {
			gwei = rapid.IntRange(0, 1000000).Draw(c.T, "gwei")
			flags = append(flags, fmt.Sprintf("-g=%d", gwei))
		}
		setNonce := rapid.Bool().Draw(c.T, "-n")
		if setNonce {
			nonce &= 1<<62 - 1
			if oneIn(c.T, 4, "small nonce") {
				nonce &= 1
			}
			flags = append(flags, "-n", fmt.Sprint(nonce))
		}
		if force {
			flags = append(flags, "-f")
		}
		count := nonce
		if setNonce {
			count = nonce + uint64(rapid.IntRange(1, 9).Draw(c.T, "count"))
		}
		code := gen.Bytes(0, 60).Draw(c.T, "code")
		sels := [][]byte{selector("x()"), selector("y(uint256)")}
		at := rapid.IntRange(0, 2).Draw(c.T, "at")
		sels = append(sels[:at:at], append([][]byte{selector(k.sig)}, sels[at:]...)...)
		n := newNode(dir, rapid.Bool().Draw(c.T, "ipc"), func(r request) (interface{}, string) {
			switch r.Method {
			case "eth_getCode":
				if fallback {
					return hx(code), ""
				}
				return hx(dispatcher(sels)), ""
			case "eth_getTransactionCount":
				return fmt.Sprintf("0x%x", count), ""
			case "eth_estimateGas":
				return fmt.Sprintf("0x%x", gas), ""
			case "eth_sendRawTransaction":
				return hx(hash[:]), ""
			}
			return nil, "no method " + r.Method
		})
		defer n.close()
		tl := tool{dir: dir, env: map[string]string{"SETH_URL": n.url, "KEY_PATH": "keys", "ETHER_ADDR": key.name}, tty: []string{key.pass + "\n"}}
		args := append(append(append([]string{"call"}, flags...), hx(to[:]), k.sig), k.args...)
		r := tl.run(args...)
		if r.code != 0 || strings.TrimSpace(r.out) != hx(hash[:]) {
			c.Fatalf("eth %q: %v; want %x", args, r, hash)
		}
		sent := n.asked("eth_sendRawTransaction")
		if len(sent) != 1 || len(n.asked("eth_sendTransaction")) > 0 {
			c.Fatalf("eth %q asks for %v", args, n.reqs)
		}
		var raw string
		check(json.Unmarshal(sent[0].Params[0], &raw))
		var tx types.Transaction
		if err := rlp.DecodeBytes(common.FromHex(raw), &tx); err != nil {
			c.Fatalf("eth %q sends %s: %v", args, raw, err)
		}
		// the fallback function runs for any data that is no other function's
		if !bytes.Equal(tx.Data(), k.data) && !(fallback && len(tx.Data()) == 0) {
			c.Fatalf("eth %q sends the data\n%x\nwant\n%x", args, tx.Data(), k.data)
		}
		price := new(big.Int).Mul(big.NewInt(int64(gwei)), big.NewInt(1e9))
		if tx.To() == nil || *tx.To() != common.Address(to) || tx.Nonce() != nonce || tx.GasPrice().Cmp(price) != 0 || tx.Value().Sign() != 0 || tx.Gas() < gas {
			c.Fatalf("eth %q sends to %v, nonce %d (want %d), gas price %v (want %v), value %v, gas %d (estimate %d)", args, tx.To(), tx.Nonce(), nonce, tx.GasPrice(), price, tx.Value(), tx.Gas(), gas)
		}
		var signer types.Signer = types.HomesteadSigner{}
		if tx.Protected() {
			signer = types.NewEIP155Signer(tx.ChainId())
		}
		if from, err := types.Sender(signer, &tx); err != nil || from != key.addr {
			c.Fatalf("eth %q is signed by %v (%v), want %v", args, from, err, key.addr)
		}
		if !setNonce {
			var who string
			q := n.asked("eth_getTransactionCount")
			if len(q) != 1 || json.Unmarshal(q[0].Params[0], &who) != nil || common.HexToAddress(who) != key.addr {
				c.Fatalf("eth %q asks for the nonce with %v", args, q)
			}
		}
		for _, q := range n.asked("eth_getCode") {
			if force || string(q.Params[0]) != fmt.Sprintf("%q", hx(to[:])) {
				c.Fatalf("eth %q asks for %v", args, q)
			}
		}
		if len(k.args) > 0 {
			c.NonTrivial(k.data)
		}
		if fallback {
			c.NonTrivial(to, args)
			c.Class("fallback")
		}
		c.Class(k.types...)
		c.Sample("eth %q", args)
	})

	p.Check("read", 250, 10000, func(c *vk.C) {
		dir := scratch()
		defer os.RemoveAll(dir)
		k := genCase(c.T, 0)
		fallback := oneIn(c.T, 8, "fallback")
		if fallback {
			k = &cse{sig: "()", data: selector("()")}
		}
		code := gen.Bytes(0, 60).Draw(c.T, "code")
		to := gen.Address().Draw(c.T, "to")
		word := gen.Hash().Draw(c.T, "result")
		n := newNode(dir, rapid.Bool().Draw(c.T, "ipc"), func(r request) (interface{}, string) {
			switch r.Method {
			case "eth_getCode":
				if fallback {
					return hx(code), ""
				}
				return hx(dispatcher([][]byte{selector("x()"), selector(k.sig)})), ""
			case "eth_call":
				return hx(word[:]), ""
			}
			return nil, "no method " + r.Method
		})
		defer n.close()
		args := []string{"read"}
		if rapid.Bool().Draw(c.T, "-f") {
			args = append(args, "-f")
		}
		args = append(append(append(args, hx(to[:]), k.sig), k.args...), "uint256")
		r := tool{dir: dir, env: map[string]string{"SETH_URL": n.url}}.run(args...)
		if r.code != 0 || strings.TrimSpace(r.out) != new(big.Int).SetBytes(word[:]).String() {
			c.Fatalf("eth %q: %v; want %x", args, r, word)
		}
		q := n.asked("eth_call")
		var opts struct{ To, Data string }
		if len(q) != 1 || json.Unmarshal(q[0].Params[0], &opts) != nil {
			c.Fatalf("eth %q asks for %v", args, n.reqs)
		}
		if opts.To != hx(to[:]) || opts.Data != hx(k.data) && !(fallback && (opts.Data == "" || opts.Data == "0x")) {
			c.Fatalf("eth %q calls %s with\n%s\nwant\n%x", args, opts.To, opts.Data, k.data)
		}
		if len(k.args) > 0 {
			c.NonTrivial(k.data)
		}
		if fallback {
			c.NonTrivial(to, args)
			c.Class("fallback")
		}
		c.Class(k.types...)
	})

	p.Check("refused", 400, 12000, func(c *vk.C) {
		dir := scratch()
		defer os.RemoveAll(dir)
		k := genCase(c.T, 1)
		key := genKey(c.T)
		write(dir, "keys/key.json", key.file)
		to := gen.Address().Draw(c.T, "to")
		dest := hx(to[:])
		code := dispatcher([][]byte{selector("x()"), selector(k.sig)})
		force := rapid.Bool().Draw(c.T, "-f")
		cmd := rapid.SampledFrom([]string{"call", "read"}).Draw(c.T, "command")
		rets := []string{}
		if cmd == "read" {
			rets = []string{"uint256"}
		}
		how := rapid.SampledFrom([]string{"value", "value", "value", "value", "few", "many", "type", "signature", "absent", "address", "result"}).Draw(c.T, "how")
		at := rapid.IntRange(0, len(k.args)-1).Draw(c.T, "at")
		sig := k.sig
		switch how {
		case "value":
			if k.types[at] == "string" {
				k.types[at] = "uint8"
				k.args[at] = "7"
			}
			k.args[at] = spoil(c.T, k.types[at], k.args[at])
			sig = sig[:strings.IndexByte(sig, '(')] + "(" + strings.Join(k.types, ",") + ")"
		case "few":
			k.args = k.args[:at]
			rets = nil
		case "many":
			if cmd == "read" {
				cmd, rets = "call", nil
			}
			v, _ := genCallValue(c.T, genCallType(c.T))
			k.args = append(k.args, v)
			if oneIn(c.T, 4, "none wanted") {
				sig = "f()"
			}
		case "type":
			k.types[at] = rapid.SampledFrom([]string{"uint7", "uint", "bytes33", "bytes33", "bytes034", "bytes32x", "bytes0", "bytes01", "bytes256", "foo", "tuple", "uint256[2]", "uint256[][]", "string[]", "bytes[]", "fixed", "", "Address", "uint0", "int-8", "function", "address payable"}).Draw(c.T, "bad type")
			if k.types[at] == "" && len(k.types) == 1 {
				k.types[at] = ","
			}
			sig = sig[:strings.IndexByte(sig, '(')] + "(" + strings.Join(k.types, ",") + ")"
			// with a value that would do if the type were taken
			switch {
			case strings.Contains(k.types[at], "int"):
				k.args[at] = rapid.SampledFrom([]string{k.args[at], "1", "0"}).Draw(c.T, "value")
			case strings.HasPrefix(k.types[at], "bytes") && !strings.Contains(k.types[at], "["):
				var n int
				fmt.Sscanf(k.types[at], "bytes%d", &n)
				k.args[at] = "0x" + strings.Repeat("11", n)
			case strings.HasPrefix(k.types[at], "Address"), strings.HasPrefix(k.types[at], "address"):
				k.args[at] = hx(to[:])
			}
			if strings.HasSuffix(k.types[at], "[]") {
				k.args[at] = rapid.SampledFrom([]string{"[[1]]", "[abc,def]", "[ab]", "1"}).Draw(c.T, "value")
			}
		case "signature":
			sig = rapid.SampledFrom([]string{
				strings.TrimSuffix(sig, ")"), strings.Replace(sig, "(", "", 1), sig + ")", sig + "x", "(" + sig, strings.Replace(sig, "(", ")", 1),
				"", "f", ")(", "(", ")", strings.Replace(sig, "(", "((", 1), "(" + k.types[0] + ")", sig + "()", sig + " ",
			}).Draw(c.T, "sig")
		case "absent":
			force = false
			near := append([]byte{}, selector(sig)...)
			near[rapid.IntRange(0, 3).Draw(c.T, "byte")] ^= 1 << uint(rapid.IntRange(0, 7).Draw(c.T, "bit"))
			code = dispatcher([][]byte{selector("x()"), near, selector("y(uint256)")})
			if oneIn(c.T, 4, "no table") {
				code = gen.Bytes(0, 60).Draw(c.T, "code")
			}
		case "address":
			dest = rapid.SampledFrom([]string{"0x", "x", dest[:40], dest + "0", dest + "00", "0x" + strings.Repeat("z", 40), ""}).Draw(c.T, "dest")
		case "result":
			cmd, rets = "read", []string{rapid.SampledFrom([]string{"uint257", "foo", "tuple", "bytes33", "", "bytes0", "uint256[2]"}).Draw(c.T, "ret")}
		}
		if how != "absent" && how != "signature" {
			code = dispatcher([][]byte{selector("x()"), selector(sig)})
		}
		n := newNode(dir, false, func(r request) (interface{}, string) {
			switch r.Method {
			case "eth_getCode":
				return hx(code), ""
			case "eth_getTransactionCount", "eth_estimateGas":
				return "0x5208", ""
			case "eth_sendRawTransaction", "eth_sendTransaction", "eth_call":
				return hx(make([]byte, 32)), ""
			}
			return nil, "no method " + r.Method
		})
		defer n.close()
		args := []string{cmd}
		if force {
			args = append(args, "-f")
		}
		args = append(append(append(args, dest, sig), k.args...), rets...)
		if how == "few" && oneIn(c.T, 3, "no signature") {
			args = args[:len(args)-len(k.args)-rapid.IntRange(1, 2).Draw(c.T, "missing")]
		}
		tl := tool{dir: dir, env: map[string]string{"SETH_URL": n.url, "KEY_PATH": "keys", "ETHER_ADDR": key.name}, tty: []string{key.pass + "\n"}}
		r := tl.run(args...)
		if s := len(n.asked("eth_sendRawTransaction")) + len(n.asked("eth_sendTransaction")) + len(n.asked("eth_call")); s > 0 || !r.failed() || r.out != "" && !strings.HasPrefix(r.out, "usage") {
			c.Fatalf("%s: eth %q: %v, after %v", how, args, r, n.reqs)
		}
		c.NonTrivial(args)
		c.Class(how)
		c.Sample("%s: eth %q: %s", how, args, clip(r.err))
	})
	_ = crypto.Keccak256
}
