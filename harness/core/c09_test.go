package core

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"reflect"
	"runtime"
	"strings"
	"testing"

	"github.com/ethereum/go-ethereum/accounts/abi"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/philhofer/seth"
	"pgregory.net/rapid"

	"verif/harness/gen"
	"verif/harness/vk"
)

// pack is the reference ABI encoder; sol are canonical types.
func pack(sol []string, vals []interface{}) []byte {
	var args abi.Arguments
	for _, s := range sol {
		ty, err := abi.NewType(s, nil)
		if err != nil {
			panic("HARNESS-ERROR: " + err.Error())
		}
		args = append(args, abi.Argument{Type: ty})
	}
	b, err := args.Pack(vals...)
	if err != nil {
		panic(fmt.Sprintf("HARNESS-ERROR: %v: %v", sol, err))
	}
	return b
}

func signed(t *rapid.T, bits int, label string) *big.Int {
	x := gen.Big(bits-1).Draw(t, label)
	if rapid.Bool().Draw(t, label+"-neg") {
		x = new(big.Int).Not(x) // -x-1: down to -2^(bits-1)
	}
	return x
}

// gonum is the value go-ethereum wants for an integer type.
func gonum(x *big.Int, bits int, sign bool) interface{} {
	switch {
	case bits == 8 && sign:
		return int8(x.Int64())
	case bits == 16 && sign:
		return int16(x.Int64())
	case bits == 32 && sign:
		return int32(x.Int64())
	case bits == 64 && sign:
		return x.Int64()
	case bits == 8:
		return uint8(x.Uint64())
	case bits == 16:
		return uint16(x.Uint64())
	case bits == 32:
		return uint32(x.Uint64())
	case bits == 64:
		return x.Uint64()
	}
	return new(big.Int).Set(x)
}

func fixed(b []byte) interface{} {
	v := reflect.New(reflect.ArrayOf(len(b), reflect.TypeOf(byte(0)))).Elem()
	reflect.Copy(v, reflect.ValueOf(b))
	return v.Interface()
}

// genArg draws one argument: its type as written in the signature, the
// canonical type, the value for seth and the value for go-ethereum.
func genArg(t *rapid.T) (sig, sol string, arg seth.EtherType, ref interface{}) {
	intArg := func(x *big.Int) *seth.Int { v := seth.Int(*new(big.Int).Set(x)); return &v }
	switch rapid.IntRange(0, 9).Draw(t, "argtype") {
	case 0:
		a := gen.Address().Draw(t, "addr")
		return "address", "address", &a, common.Address(a)
	case 1:
		x := gen.Big(256).Draw(t, "uint")
		return rapid.SampledFrom([]string{"uint256", "uint"}).Draw(t, "name"), "uint256", intArg(x), x
	case 2:
		x := signed(t, 256, "int")
		return rapid.SampledFrom([]string{"int256", "int"}).Draw(t, "name"), "int256", intArg(x), x
	case 3:
		bits := 8 * rapid.IntRange(1, 31).Draw(t, "width")
		if rapid.Bool().Draw(t, "signed") {
			x := signed(t, bits, "intN")
			s := fmt.Sprintf("int%d", bits)
			return s, s, intArg(x), gonum(x, bits, true)
		}
		x := gen.Big(bits).Draw(t, "uintN")
		s := fmt.Sprintf("uint%d", bits)
		return s, s, intArg(x), gonum(x, bits, false)
	case 4:
		n := rapid.IntRange(1, 32).Draw(t, "n")
		if rapid.Bool().Draw(t, "full") {
			n = 32
		}
		b := gen.Bytes(n, n).Draw(t, "bytesN")
		d := seth.Data(b)
		s := fmt.Sprintf("bytes%d", n)
		return s, s, &d, fixed(b)
	case 5:
		b := gen.Bytes(0, 100).Draw(t, "bytes")
		d := seth.Bytes(b)
		if rapid.Bool().Draw(t, "string") {
			return "string", "string", &d, string(b)
		}
		return "bytes", "bytes", &d, b
	case 6:
		n := rapid.IntRange(0, 5).Draw(t, "len")
		v := seth.IntSlice{}
		ref := []*big.Int{}
		sg := rapid.Bool().Draw(t, "signed")
		for i := 0; i < n; i++ {
			x := gen.Big(256).Draw(t, "elem")
			if sg {
				x = signed(t, 256, "elem")
			}
			v, ref = append(v, *intArg(x)), append(ref, x)
		}
		if sg {
			return "int256[]", "int256[]", &v, ref
		}
		return "uint256[]", "uint256[]", &v, ref
	case 7:
		v, ref := seth.AddrSlice{}, []common.Address{}
		for i := rapid.IntRange(0, 5).Draw(t, "len"); i > 0; i-- {
			a := gen.Address().Draw(t, "elem")
			v, ref = append(v, a), append(ref, common.Address(a))
		}
		return "address[]", "address[]", &v, ref
	case 8:
		v, ref := seth.DataSlice{}, [][32]byte{}
		for i := rapid.IntRange(0, 5).Draw(t, "len"); i > 0; i-- {
			h := gen.Hash().Draw(t, "elem")
			v, ref = append(v, append([]byte{}, h[:]...)), append(ref, h)
		}
		return "bytes32[]", "bytes32[]", &v, ref
	default:
		b := rapid.Bool().Draw(t, "bool")
		x := int64(0)
		if b {
			x = 1
		}
		return "bool", "bool", seth.NewInt(x), b
	}
}

func TestC09(t *testing.T) {
	p := vk.Start(t, "C09", "signatures of 0 to 7 arguments of every supported type with values, encoded by go-ethereum's ABI packer too; then calls made invalid one way; non-trivial: a distinct call with at least one argument",
		"go-ethereum v1.9.2 accounts/abi is the reference encoder")

	name := rapid.StringMatching(`[a-zA-Z_$][a-zA-Z0-9_]{0,12}`)
	fname := rapid.Custom(func(t *rapid.T) string { return strings.Replace(name.Draw(t, "name"), "$", "f", 1) })

	type call struct {
		sigs []string
		args []seth.EtherType
		ref  []interface{}
		sol  []string
	}
	genCall := func(t *rapid.T, min int) (k call) {
		for i := rapid.IntRange(min, 7).Draw(t, "args"); i > 0; i-- {
			s, sol, a, r := genArg(t)
			k.sigs, k.sol, k.args, k.ref = append(k.sigs, s), append(k.sol, sol), append(k.args, a), append(k.ref, r)
		}
		return
	}

	p.Check("canonical", 8000, 250000, func(c *vk.C) {
		k := genCall(c.T, 0)
		fn := fname.Draw(c.T, "fn") + "(" + strings.Join(k.sigs, ",") + ")"
		want := append(crypto.Keccak256([]byte(fn))[:4:4], pack(k.sol, k.ref)...)
		before := fmt.Sprintf("%v", show(k.args))
		var got []byte
		if m := vk.Trap(func() { got = seth.ABIEncode(fn, k.args...) }); m != "" {
			c.Fatalf("%s %s: %s", fn, before, m)
		}
		if !bytes.Equal(got, want) {
			c.Fatalf("%s %s encodes to\n%x\nwant\n%x", fn, before, got, want)
		}
		if after := show(k.args); after != before {
			c.Fatalf("%s: arguments changed from %s to %s", fn, before, after)
		}
		to := gen.Address().Draw(c.T, "to")
		opts := seth.CallOpts{To: &to, Data: gen.Bytes(0, 50).Draw(c.T, "old"), Value: seth.NewInt(7)}
		opts.EncodeCall(fn, k.args...)
		if !bytes.Equal(opts.Data, want) || opts.To != &to || opts.Value.Int64() != 7 || opts.From != nil || opts.Gas != nil || opts.Nonce != nil {
			c.Fatalf("EncodeCall of %s sets %+v", fn, opts)
		}
		if len(k.args) > 0 {
			c.NonTrivial(fn, got)
		}
		c.Class(k.sol...)
		c.Sample("%s %s -> %x", fn, before, got)
	})

	p.Check("large", 40, 600, largeEncode)

	p.Check("refused", 6000, 200000, func(c *vk.C) {
		k := genCall(c.T, 1)
		fn := fname.Draw(c.T, "fn")
		at := rapid.IntRange(0, len(k.args)-1).Draw(c.T, "at")
		what := rapid.SampledFrom([]string{"fewer", "more", "overflow", "underflow", "negative", "toolong", "type", "malformed", "bigelem", "untyped"}).Draw(c.T, "what")
		sig := ""
		one := big.NewInt(1)
		switch what {
		case "fewer":
			k.args = append(append([]seth.EtherType{}, k.args[:at]...), k.args[at+1:]...)
		case "more":
			_, _, a, _ := genArg(c.T)
			k.args = append(k.args, a)
			if rapid.IntRange(0, 3).Draw(c.T, "empty") == 0 {
				k.sigs, k.args = nil, k.args[:1]
			}
		case "overflow":
			x := new(big.Int).Add(new(big.Int).Lsh(one, uint(rapid.IntRange(256, 600).Draw(c.T, "bits"))), gen.Big(256).Draw(c.T, "low"))
			v := seth.Int(*x)
			k.args[at] = &v
			k.sigs[at] = rapid.SampledFrom([]string{"uint256", "int256", "uint", "bytes32", "uint8"}).Draw(c.T, "as")
		case "underflow":
			x := new(big.Int).Lsh(one, 255)
			x.Add(x, gen.Big(300).Draw(c.T, "low"))
			x.Not(x)
			v := seth.Int(*x)
			k.args[at] = &v
			k.sigs[at] = rapid.SampledFrom([]string{"int256", "int", "uint256"}).Draw(c.T, "as")
		case "negative":
			x := new(big.Int).Not(gen.Big(255).Draw(c.T, "x"))
			v := seth.Int(*x)
			k.args[at] = &v
			k.sigs[at] = rapid.SampledFrom([]string{"uint", "uint256"}).Draw(c.T, "as")
		case "bigelem":
			x := new(big.Int).Lsh(one, uint(rapid.IntRange(256, 600).Draw(c.T, "bits")))
			k.args[at] = &seth.IntSlice{*seth.NewInt(1), seth.Int(*x)}
			k.sigs[at] = "uint256[]"
			if rapid.Bool().Draw(c.T, "data") {
				k.args[at] = &seth.DataSlice{make([]byte, rapid.IntRange(33, 70).Draw(c.T, "n"))}
				k.sigs[at] = "bytes32[]"
			}
		case "toolong":
			d := seth.Data(gen.Bytes(33, 80).Draw(c.T, "d"))
			k.args[at] = &d
			k.sigs[at] = "bytes32"
		case "type":
			// the basic types the documentation says are checked
			k.sigs[at] = rapid.SampledFrom([]string{"address", "uint256", "uint", "int", "int256", "bytes32", "uint256[]", "address[]", "foo[]"}).Draw(c.T, "as")
			var wrong []seth.EtherType
			d, a := seth.Data("xyz"), seth.Address{1}
			bs := seth.Bytes("abc")
			switch k.sigs[at] {
			case "address":
				wrong = []seth.EtherType{&d, seth.NewInt(3), &bs, &seth.IntSlice{}, &seth.AddrSlice{}}
			case "bytes32":
				wrong = []seth.EtherType{&a, &bs, &seth.IntSlice{}, &seth.DataSlice{}}
			case "uint256", "uint", "int", "int256":
				wrong = []seth.EtherType{&d, &a, &bs, &seth.IntSlice{}}
			default:
				wrong = []seth.EtherType{&d, &a, seth.NewInt(0)}
			}
			k.args[at] = rapid.SampledFrom(wrong).Draw(c.T, "wrong")
		case "untyped": // an argument without a type
			k.args[at] = rapid.SampledFrom([]seth.EtherType{k.args[at], seth.NewInt(1), seth.NewInt(0)}).Draw(c.T, "arg")
			k.sigs[at] = ""
			if len(k.sigs) == 1 {
				k.sigs, k.args = []string{"", ""}, []seth.EtherType{k.args[0], k.args[0]}
			}
		case "malformed":
			l := strings.Join(k.sigs, ",")
			bad := rapid.SampledFrom([]string{" ", "\t", "\n", "-", "+", "/", "~", "!", "@", "#", "%", "^", "&", "*", "=", "|", ";", ":", "\"", "<", ">", "\\", "?"}).Draw(c.T, "char")
			sig = rapid.SampledFrom([]string{
				fn + l + ")", fn + "(" + l, fn + "(" + l + ")" + bad, fn + "(" + l + ")x", fn, "", fn + ")" + l + "(",
				fn + bad + "(" + l + ")", fn + "(" + bad + l + ")", fn + "(" + l + bad + ")", fn + "(" + l + "))",
				fn + "(" + l + ")()", fn + "(" + strings.Replace(l, ",", ", ", 1) + " )",
			}).Draw(c.T, "sig")
		}
		if what != "malformed" {
			sig = fn + "(" + strings.Join(k.sigs, ",") + ")"
		}
		var got []byte
		m := vk.Trap(func() { got = seth.ABIEncode(sig, k.args...) })
		if m == "" {
			c.Fatalf("%s: %q with %s is accepted as %x", what, sig, show(k.args), got)
		}
		if strings.Contains(m, "runtime error") {
			c.Fatalf("%s: %q with %s: refused by accident: %s", what, sig, show(k.args), m)
		}
		c.NonTrivial(sig, show(k.args))
		c.Class(what)
		c.Sample("%s: %s", sig, m)
	})
}

// show prints argument values for comparison.
func show(args interface{}) string {
	b, err := json.Marshal(args)
	if err != nil {
		return fmt.Sprint(args)
	}
	return string(b)
}

// genOut draws one result: canonical type, reference value, a fresh variable,
// a used variable, and the value expected in it.
func genOut(t *rapid.T) (sol string, ref interface{}, fresh, used, want interface{}) {
	setInt := func(x *big.Int) *seth.Int { v := seth.Int(*new(big.Int).Set(x)); return &v }
	junk := gen.Bytes(0, 60)
	ints := []struct {
		bits int
		sign bool
		mk   func() interface{}
	}{
		{8, false, func() interface{} { return new(uint8) }},
		{16, false, func() interface{} { return new(uint16) }},
		{32, false, func() interface{} { return new(uint32) }},
		{64, false, func() interface{} { return new(uint64) }},
		{64, false, func() interface{} { return new(uint) }},
		{8, true, func() interface{} { return new(int8) }},
		{16, true, func() interface{} { return new(int16) }},
		{32, true, func() interface{} { return new(int32) }},
		{64, true, func() interface{} { return new(int64) }},
		{64, true, func() interface{} { return new(int) }},
	}
	switch rapid.IntRange(0, 10).Draw(t, "outtype") {
	case 0, 1:
		k := rapid.SampledFrom(ints).Draw(t, "inttype")
		// the Solidity type may be narrower than the Go one
		bits := 8 * rapid.IntRange(1, k.bits/8).Draw(t, "bytes")
		var x *big.Int
		sol = fmt.Sprintf("uint%d", bits)
		if k.sign {
			sol = fmt.Sprintf("int%d", bits)
			x = signed(t, bits, "x")
		} else {
			x = gen.Big(bits).Draw(t, "x")
		}
		set := func(p interface{}, x *big.Int) interface{} {
			v := reflect.ValueOf(p).Elem()
			if k.sign {
				v.SetInt(x.Int64())
			} else {
				v.SetUint(x.Uint64())
			}
			return p
		}
		return sol, gonum(x, bits, k.sign), k.mk(), set(k.mk(), big.NewInt(int64(rapid.IntRange(0, 127).Draw(t, "old")))), set(k.mk(), x)
	case 2:
		x := gen.Big(256).Draw(t, "x")
		return "uint256", x, new(seth.Int), setInt(gen.Big(256).Draw(t, "old")), setInt(x)
	case 3:
		bits := 8 * rapid.IntRange(1, 32).Draw(t, "bytes")
		x := gen.Big(bits).Draw(t, "x")
		return fmt.Sprintf("uint%d", bits), gonum(x, bits, false), new(big.Int), gen.Big(256).Draw(t, "old"), x
	case 4:
		b := rapid.Bool().Draw(t, "b")
		u := rapid.Bool().Draw(t, "old")
		return "bool", b, new(bool), &u, &b
	case 5:
		a, u := gen.Address().Draw(t, "a"), gen.Address().Draw(t, "old")
		return "address", common.Address(a), new(seth.Address), &u, &a
	case 6:
		h := gen.Hash().Draw(t, "h")
		n := rapid.IntRange(1, 32).Draw(t, "n")
		if rapid.Bool().Draw(t, "full") {
			n = 32
		}
		w := make([]byte, 32)
		copy(w, h[:n])
		d, u := seth.Data(w), seth.Data(junk.Draw(t, "old"))
		return fmt.Sprintf("bytes%d", n), fixed(h[:n]), new(seth.Data), &u, &d
	case 7:
		b := gen.Bytes(0, 100).Draw(t, "b")
		s, u := string(b), string(junk.Draw(t, "old"))
		return "string", s, new(string), &u, &s
	case 8:
		b := gen.Bytes(0, 100).Draw(t, "b")
		if rapid.Bool().Draw(t, "slice") {
			u := junk.Draw(t, "old")
			return "bytes", b, new([]byte), &u, &b
		}
		d, u := seth.Bytes(b), seth.Bytes(junk.Draw(t, "old"))
		return "bytes", b, new(seth.Bytes), &u, &d
	case 9:
		v, u, ref := seth.IntSlice{}, seth.IntSlice{}, []*big.Int{}
		for i := rapid.IntRange(0, 5).Draw(t, "len"); i > 0; i-- {
			x := gen.Big(256).Draw(t, "elem")
			v, ref = append(v, *setInt(x)), append(ref, x)
		}
		for i := rapid.IntRange(0, 5).Draw(t, "oldlen"); i > 0; i-- {
			u = append(u, *setInt(gen.Big(256).Draw(t, "oldelem")))
		}
		return "uint256[]", ref, new(seth.IntSlice), &u, &v
	default:
		if rapid.Bool().Draw(t, "addrs") {
			v, u, ref := seth.AddrSlice{}, seth.AddrSlice{}, []common.Address{}
			for i := rapid.IntRange(0, 5).Draw(t, "len"); i > 0; i-- {
				a := gen.Address().Draw(t, "elem")
				v, ref = append(v, a), append(ref, common.Address(a))
			}
			for i := rapid.IntRange(0, 5).Draw(t, "oldlen"); i > 0; i-- {
				u = append(u, gen.Address().Draw(t, "oldelem"))
			}
			return "address[]", ref, new(seth.AddrSlice), &u, &v
		}
		v, u, ref := seth.DataSlice{}, seth.DataSlice{}, [][32]byte{}
		for i := rapid.IntRange(0, 5).Draw(t, "len"); i > 0; i-- {
			h := gen.Hash().Draw(t, "elem")
			v, ref = append(v, append([]byte{}, h[:]...)), append(ref, h)
		}
		for i := rapid.IntRange(0, 5).Draw(t, "oldlen"); i > 0; i-- {
			u = append(u, junk.Draw(t, "oldelem"))
		}
		return "bytes32[]", ref, new(seth.DataSlice), &u, &v
	}
}

// flipped is a value of the same shape as v with other contents, where the
// contents are bytes.
func flipped(v interface{}) interface{} {
	switch v := v.(type) {
	case string:
		return string(flipped([]byte(v)).([]byte))
	case []byte:
		o := make([]byte, len(v))
		for i := range v {
			o[i] = ^v[i]
		}
		return o
	case common.Address:
		copy(v[:], flipped(v[:]).([]byte))
		return v
	case []*big.Int:
		var o []*big.Int
		for _, x := range v {
			o = append(o, new(big.Int).Xor(x, big.NewInt(0xa5)))
		}
		return o
	case []common.Address:
		o := append([]common.Address{}, v...)
		for i := range o {
			o[i] = flipped(o[i]).(common.Address)
		}
		return o
	case [][32]byte:
		o := append([][32]byte{}, v...)
		for i := range o {
			copy(o[i][:], flipped(v[i][:]).([]byte))
		}
		return o
	}
	if rv := reflect.ValueOf(v); rv.Kind() == reflect.Array { // bytesN
		o := reflect.New(rv.Type()).Elem()
		for i := 0; i < rv.Len(); i++ {
			o.Index(i).SetUint(uint64(^byte(rv.Index(i).Uint())))
		}
		return o.Interface()
	}
	return v
}

func TestC10(t *testing.T) {
	p := vk.Start(t, "C10", "lists of 1 to 7 results of every supported type and value, encoded by go-ethereum's ABI packer and decoded into fresh and used variables, raw and as the hex text of a reply; non-trivial: a distinct encoding of at least one non-zero byte",
		"go-ethereum v1.9.2 accounts/abi is the reference encoder")

	p.Check("large", 40, 600, largeDecode)

	p.Check("values", 10000, 300000, func(c *vk.C) {
		var sol []string
		var ref, fresh, used, want []interface{}
		for i := rapid.IntRange(1, 7).Draw(c.T, "results"); i > 0; i-- {
			s, r, f, u, w := genOut(c.T)
			sol, ref, fresh, used, want = append(sol, s), append(ref, r), append(fresh, f), append(used, u), append(want, w)
		}
		data := pack(sol, ref)
		orig := append([]byte{}, data...)
		for _, mode := range []string{"fresh", "used", "text"} {
			out := fresh
			if mode != "fresh" {
				out = used
			}
			var err error
			if m := vk.Trap(func() {
				if mode == "text" {
					js, _ := json.Marshal(seth.Data(data))
					err = json.Unmarshal(js, seth.NewABIDecoder(out...))
				} else {
					err = seth.DecodeABI(data, out...)
				}
			}); m != "" || err != nil {
				c.Fatalf("%s: %v %x: %v %s", mode, sol, data, err, m)
			}
			for i := range out {
				if !sameVal(out[i], want[i]) {
					c.Fatalf("%s: result %d of %v in %x decodes to %v, want %v", mode, i, sol, data, show(out[i]), show(want[i]))
				}
			}
			if !bytes.Equal(data, orig) {
				c.Fatalf("decoding %v changed its input", sol)
			}
		}
		// the values are the caller's: neither what happens to the data
		// later nor the next decoding changes them
		out := make([]interface{}, len(fresh))
		for i := range out {
			out[i] = reflect.New(reflect.TypeOf(fresh[i]).Elem()).Interface()
		}
		if err := seth.DecodeABI(data, out...); err != nil {
			c.Fatalf("%v %x: %v", sol, data, err)
		}
		for i := range data {
			data[i] ^= 0xff
		}
		for i := range out {
			if !sameVal(out[i], want[i]) {
				c.Fatalf("result %d of %v in %x changes with the data to %v", i, sol, orig, show(out[i]))
			}
		}
		kept := make([]interface{}, len(out))
		next := make([]interface{}, len(out))
		for i := range out {
			kept[i] = out[i]
			switch reflect.TypeOf(out[i]).Elem().Kind() {
			case reflect.Slice, reflect.String: // may be kept by assigning it
				k := reflect.New(reflect.TypeOf(out[i]).Elem())
				k.Elem().Set(reflect.ValueOf(out[i]).Elem())
				kept[i] = k.Interface()
			}
			next[i] = flipped(ref[i])
		}
		data = pack(sol, next)
		if m := vk.Trap(func() {
			if err := seth.DecodeABI(data, out...); err != nil {
				panic(err)
			}
		}); m != "" {
			c.Fatalf("%v %x: %s", sol, data, m)
		}
		for i := range kept {
			if kept[i] != out[i] && !sameVal(kept[i], want[i]) {
				c.Fatalf("result %d of %v in %x turns into %v when %x is decoded into the same variables", i, sol, orig, show(kept[i]), data)
			}
		}
		data = orig
		c.Class(sol...)
		if len(bytes.Trim(data, "\x00")) > 0 {
			c.NonTrivial(data, strings.Join(sol, ","))
		}
		c.Sample("%v %x", sol, data)
	})
}

var outTypes = []func() interface{}{
	func() interface{} { return new(seth.Data) }, func() interface{} { return new(seth.Address) }, func() interface{} { return new(seth.Int) },
	func() interface{} { return new(big.Int) }, func() interface{} { return new(string) }, func() interface{} { return new([]byte) },
	func() interface{} { return new(seth.Bytes) }, func() interface{} { return new(seth.IntSlice) }, func() interface{} { return new(seth.AddrSlice) },
	func() interface{} { return new(seth.DataSlice) }, func() interface{} { return new(bool) }, func() interface{} { return new(uint8) },
	func() interface{} { return new(int64) }, func() interface{} { return new(uint) },
}

func TestC11(t *testing.T) {
	p := vk.Start(t, "C11", "result lists decoded from words that mix plausible and extreme offsets and lengths (near the end, negative as 64 bits, 2^63, 2^64+small, 2^256-1), cut at any byte, with foreign bytes behind the data; non-trivial: a distinct input whose list has a dynamic type")

	p.Check("hostile", 12000, 400000, func(c *vk.C) {
		n := rapid.IntRange(1, 6).Draw(c.T, "results")
		var mk []func() interface{}
		dyn := false
		for i := 0; i < n; i++ {
			f := rapid.SampledFrom(outTypes).Draw(c.T, "type")
			switch f().(type) {
			case *string, *[]byte, *seth.Bytes, *seth.IntSlice, *seth.AddrSlice, *seth.DataSlice:
				dyn = true
			}
			mk = append(mk, f)
		}
		words := rapid.IntRange(0, 12).Draw(c.T, "words")
		var data []byte
		for i := 0; i < words; i++ {
			x := new(big.Int)
			switch rapid.IntRange(0, 5).Draw(c.T, "word") {
			case 0, 1: // a plausible offset
				x.SetInt64(int64(32 * rapid.IntRange(0, words+1).Draw(c.T, "off")))
			case 2: // a plausible length, or an offset that is not aligned
				x.SetInt64(int64(rapid.IntRange(0, 32*words+40).Draw(c.T, "n")))
			case 3:
				x.Lsh(big.NewInt(1), uint(rapid.SampledFrom([]int{20, 24, 26, 31, 32, 58, 59, 63, 64, 128, 255}).Draw(c.T, "bit")))
				x.Add(x, big.NewInt(int64(rapid.IntRange(-40, 200).Draw(c.T, "d"))))
			case 4:
				x.SetUint64(-uint64(rapid.IntRange(1, 200).Draw(c.T, "neg")))
			case 5:
				x = gen.Big(256).Draw(c.T, "any")
			}
			w := make([]byte, 32)
			x.FillBytes(w)
			data = append(data, w...)
		}
		if rapid.Bool().Draw(c.T, "cut") && len(data) > 0 {
			data = data[:rapid.IntRange(0, len(data)-1).Draw(c.T, "cutat")]
		}
		run := func(data []byte) ([]interface{}, error, uint64) {
			var out []interface{}
			for _, f := range mk {
				out = append(out, f())
			}
			var err error
			var m0, m1 runtime.MemStats
			runtime.ReadMemStats(&m0)
			m := vk.Trap(func() { err = seth.DecodeABI(data, out...) })
			runtime.ReadMemStats(&m1)
			if m != "" {
				c.Fatalf("%T from %x: %s", out, data, m)
			}
			return out, err, m1.TotalAlloc - m0.TotalAlloc
		}
		exact := append(make([]byte, 0, len(data)), data...)[:len(data):len(data)]
		out, err, alloc := run(exact)
		// each result may copy the data; slices of 32-byte words have headers
		if lim := uint64(n+1)*uint64(4*len(data)+2048) + 1<<16; alloc > lim {
			c.Fatalf("%d bytes of data made the decoder allocate %d: %x", len(data), alloc, data)
		}
		if !bytes.Equal(exact, data) {
			c.Fatalf("decoding changed its input")
		}
		// what lies behind the data in memory must not matter
		behind := append(append(make([]byte, 0, len(data)+2048), data...), bytes.Repeat([]byte{0xee}, 2048)...)[:len(data)]
		out2, err2, _ := run(behind)
		if (err == nil) != (err2 == nil) {
			c.Fatalf("%x: %v, but %v with other bytes behind the data", data, err, err2)
		}
		if err == nil {
			for i := range out {
				if !sameVal(out[i], out2[i]) {
					c.Fatalf("%x: result %d depends on what is behind the data", data, i)
				}
			}
		}
		// the decoder of replies is the same decoder
		txt := "0x" + hex.EncodeToString(data)
		for _, way := range []string{"text", "JSON"} {
			var out3 []interface{}
			for _, f := range mk {
				out3 = append(out3, f())
			}
			var err3 error
			if m := vk.Trap(func() {
				if way == "JSON" {
					err3 = json.Unmarshal([]byte(`"`+txt+`"`), seth.NewABIDecoder(out3...))
				} else {
					err3 = seth.NewABIDecoder(out3...).UnmarshalText([]byte(txt))
				}
			}); m != "" {
				c.Fatalf("%T from reply %s: %s", out3, txt, m)
			}
			if (err == nil) != (err3 == nil) {
				c.Fatalf("%T from %s: %v, but %v from a reply as %s", out, txt, err, err3, way)
			}
			if err == nil {
				for i := range out {
					if !sameVal(out[i], out3[i]) {
						c.Fatalf("%s: result %d (%T) is another one from a reply as %s", txt, i, out[i], way)
					}
				}
			}
		}
		// what the list needs must be there
		if n*32 > len(data) && err == nil {
			c.Fatalf("%d results accepted from %d bytes: %x", n, len(data), data)
		}
		if err == nil {
			for i, o := range out {
				unit := 0
				switch o.(type) {
				case *string, *[]byte, *seth.Bytes:
					unit = 1
				case *seth.IntSlice, *seth.AddrSlice, *seth.DataSlice:
					unit = 32
				default:
					continue
				}
				off := new(big.Int).SetBytes(data[32*i : 32*i+32])
				end := new(big.Int).Add(off, big.NewInt(32))
				if end.Cmp(big.NewInt(int64(len(data)))) > 0 {
					c.Fatalf("result %d (%T) of %x accepted with its offset past the end", i, o, data)
				}
				at := int(off.Int64())
				l := new(big.Int).SetBytes(data[at : at+32])
				if new(big.Int).Add(end, new(big.Int).Mul(l, big.NewInt(int64(unit)))).Cmp(big.NewInt(int64(len(data)))) > 0 {
					c.Fatalf("result %d (%T) of %x accepted with its length past the end", i, o, data)
				}
			}
			c.Class("accepted")
		} else {
			c.Class("rejected")
		}
		if dyn {
			c.NonTrivial(data, fmt.Sprintf("%T", out))
		}
		c.Sample("%T %x -> %v", out, data, err)
	})

	p.Check("truncated", 5000, 150000, func(c *vk.C) {
		var sol []string
		var ref, fresh []interface{}
		for i := rapid.IntRange(1, 5).Draw(c.T, "results"); i > 0; i-- {
			s, r, f, _, _ := genOut(c.T)
			sol, ref, fresh = append(sol, s), append(ref, r), append(fresh, f)
		}
		data := pack(sol, ref)
		// drop the last value byte and all that follows it (padding may be
		// missing in some encoders' output, a value byte may not)
		last := len(data)
		if s := sol[len(sol)-1]; s == "string" || s == "bytes" {
			off := int(new(big.Int).SetBytes(data[32*(len(sol)-1) : 32*len(sol)]).Int64())
			last = off + 32 + int(new(big.Int).SetBytes(data[off:off+32]).Int64())
		}
		static := true
		for _, s := range sol[:len(sol)-1] {
			if s == "string" || s == "bytes" || strings.HasSuffix(s, "[]") {
				static = false
			}
		}
		if s := sol[len(sol)-1]; !(static || s == "string" || s == "bytes" || strings.HasSuffix(s, "[]")) {
			last = 32 * len(sol)
		}
		cut := rapid.IntRange(0, last-1).Draw(c.T, "cut")
		var err error
		if m := vk.Trap(func() { err = seth.DecodeABI(data[:cut:cut], fresh...) }); m != "" || err == nil {
			c.Fatalf("%v: %d of the %d bytes %x accepted (%s)", sol, cut, len(data), data, m)
		}
		js, _ := json.Marshal(seth.Data(data[:cut]))
		if m := vk.Trap(func() { err = json.Unmarshal(js, seth.NewABIDecoder(fresh...)) }); m != "" || err == nil {
			c.Fatalf("%v: reply %s accepted (%s)", sol, js, m)
		}
		c.NonTrivial(data[:cut], strings.Join(sol, ","))
	})
}
