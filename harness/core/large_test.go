package core

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"reflect"
	"strings"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/philhofer/seth"
	"pgregory.net/rapid"

	"verif/harness/vk"
)

// What is true of short values is true of long ones: the checks here repeat the
// central comparisons of C01, C02, C09 and C10 with values of up to some 70,000
// elements, and texts and byte strings of a few hundred thousand bytes.

// blob is n bytes that follow from the seed.
func blob(n int, seed int64) []byte {
	b := make([]byte, n)
	rand.New(rand.NewSource(seed)).Read(b)
	return b
}

// longLen draws a length that needs more than one byte, or more than two.
func longLen(t *rapid.T, label string) int {
	at := rapid.SampledFrom([]int{1 << 8, 1 << 12, 1 << 15, 1 << 16, 1 << 16, 1 << 17, 3 << 16}).Draw(t, label)
	return at + rapid.IntRange(-3, 300).Draw(t, label+"-off")
}

func largeHex(c *vk.C) {
	n := longLen(c.T, "n")
	seed := int64(rapid.IntRange(0, 1<<30).Draw(c.T, "seed"))
	b := blob(n, seed)
	for _, k := range hexKinds {
		if k.size != 0 {
			continue
		}
		src := k.fresh()
		hexSet(src, b)
		want := "0x" + hex.EncodeToString(b)
		txt, err := src.MarshalText()
		if err != nil || string(txt) != want || src.String() != want {
			c.Fatalf("%s.MarshalText of %d bytes (seed %d) is another text (%d characters, %v)", k.name, n, seed, len(txt), err)
		}
		in := want
		if rapid.Bool().Draw(c.T, "upper") {
			in = "0x" + strings.ToUpper(in[2:])
		}
		if in[2] == '0' {
			in = "0x" + in[3:]
		}
		dst := k.fresh()
		hexSet(dst, blob(n/2, seed+1))
		err, via := hexParseVia(dst, rapid.IntRange(0, 3).Draw(c.T, "way"), in)
		if err != nil || !bytes.Equal(hexBytes(dst), b) {
			c.Fatalf("%s: %s of %d bytes' text (seed %d) gives %d other bytes, %v", k.name, via, n, seed, len(hexBytes(dst)), err)
		}
	}
	c.NonTrivial(n, seed)
	c.Sample("%d bytes, seed %d", n, seed)
}

func largeInt(c *vk.C) {
	n := rapid.IntRange(33, 9000).Draw(c.T, "bytes")
	seed := int64(rapid.IntRange(0, 1<<30).Draw(c.T, "seed"))
	x := new(big.Int).SetBytes(blob(n, seed))
	v := seth.Int(*new(big.Int).Set(x))
	want := "0x" + x.Text(16)
	txt, err := v.MarshalText()
	if err != nil || string(txt) != want || v.String() != want {
		c.Fatalf("an integer of %d bytes (seed %d) is written as another", n, seed)
	}
	for _, s := range []string{want, "0x0000" + want[2:], x.String()} {
		got := *seth.NewInt(77)
		if err := got.UnmarshalText([]byte(s)); err != nil || (*big.Int)(&got).Cmp(x) != 0 {
			c.Fatalf("an integer of %d bytes (seed %d) read from %s is another, %v", n, seed, short(s), err)
		}
		js, _ := json.Marshal(s)
		if s == x.String() {
			js = []byte(s)
		}
		got = *seth.NewInt(77)
		if err := json.Unmarshal(js, &got); err != nil || (*big.Int)(&got).Cmp(x) != 0 {
			c.Fatalf("an integer of %d bytes (seed %d) read from JSON %s is another, %v", n, seed, short(s), err)
		}
	}
	bin, err := v.MarshalMsg(nil)
	if err != nil || len(bin) > v.Msgsize() {
		c.Fatalf("an integer of %d bytes takes %d bytes of the %d advertised, %v", n, len(bin), v.Msgsize(), err)
	}
	got := *seth.NewInt(77)
	if rest, err := got.UnmarshalMsg(bin); err != nil || len(rest) != 0 || (*big.Int)(&got).Cmp(x) != 0 {
		c.Fatalf("an integer of %d bytes (seed %d) read from binary is another, %v", n, seed, err)
	}
	c.NonTrivial(n, seed)
	c.Sample("%d bytes, seed %d", n, seed)
}

func short(s string) string {
	if len(s) > 60 {
		return s[:40] + "..." + fmt.Sprint(len(s))
	}
	return s
}

// largeVal is a value with many elements or bytes: its type, the value as seth
// has it (a pointer), and as go-ethereum does.
func largeVal(t *rapid.T) (sol string, val, ref interface{}) {
	n := longLen(t, "n")
	seed := int64(rapid.IntRange(0, 1<<30).Draw(t, "seed"))
	switch rapid.IntRange(0, 4).Draw(t, "type") {
	case 0:
		b := blob(n, seed)
		d := seth.Bytes(b)
		return "bytes", &d, b
	case 1:
		b := blob(n, seed)
		d := seth.Bytes(b)
		return "string", &d, string(b)
	case 2:
		if n > 70000 {
			n -= 1 << 16
		}
		v, ref := make(seth.IntSlice, n), make([]*big.Int, n)
		b := blob(32*n, seed)
		for i := range v {
			ref[i] = new(big.Int).SetBytes(b[i*32 : i*32+1+i%32])
			(*big.Int)(&v[i]).Set(ref[i])
		}
		return "uint256[]", &v, ref
	case 3:
		if n > 70000 {
			n -= 1 << 16
		}
		v, ref := make(seth.AddrSlice, n), make([]common.Address, n)
		b := blob(20*n, seed)
		for i := range v {
			copy(v[i][:], b[i*20:])
			ref[i] = common.Address(v[i])
		}
		return "address[]", &v, ref
	default:
		if n > 70000 {
			n -= 1 << 16
		}
		v, ref := make(seth.DataSlice, n), make([][32]byte, n)
		b := blob(32*n, seed)
		for i := range v {
			copy(ref[i][:], b[i*32:])
			v[i] = append([]byte{}, ref[i][:]...)
		}
		return "bytes32[]", &v, ref
	}
}

// smallVal is a value of one word.
func smallVal(t *rapid.T) (sol string, val, ref interface{}) {
	x := big.NewInt(int64(rapid.IntRange(0, 1<<40).Draw(t, "x")))
	v := seth.Int(*new(big.Int).Set(x))
	return "uint256", &v, x
}

func largeVals(t *rapid.T) (sol []string, vals, refs []interface{}) {
	if rapid.IntRange(0, 3).Draw(t, "many") == 0 {
		// many small ones, with a few dynamic ones among them
		n := rapid.IntRange(30, 700).Draw(t, "count")
		for i := 0; i < n; i++ {
			if i%97 == 13 || i == n-1 {
				b := blob(i%80, int64(i))
				d := seth.Bytes(b)
				sol, vals, refs = append(sol, "bytes"), append(vals, &d), append(refs, b)
				continue
			}
			x := big.NewInt(int64(i) * 7919)
			v := seth.Int(*new(big.Int).Set(x))
			sol, vals, refs = append(sol, "uint256"), append(vals, &v), append(refs, x)
		}
		return
	}
	add := func(s string, v, r interface{}) {
		sol, vals, refs = append(sol, s), append(vals, v), append(refs, r)
	}
	for i := rapid.IntRange(1, 3).Draw(t, "values"); i > 0; i-- {
		if rapid.Bool().Draw(t, "word") {
			add(smallVal(t))
		}
		add(largeVal(t))
	}
	return
}

func largeEncode(c *vk.C) {
	sol, vals, refs := largeVals(c.T)
	fn := "f(" + strings.Join(sol, ",") + ")"
	want := append(crypto.Keccak256([]byte(fn))[:4:4], pack(sol, refs)...)
	var args []seth.EtherType
	for _, v := range vals {
		args = append(args, v.(seth.EtherType))
	}
	var got []byte
	if m := vk.Trap(func() { got = seth.ABIEncode(fn, args...) }); m != "" {
		c.Fatalf("%s: %s", short(fn), m)
	}
	if !bytes.Equal(got, want) {
		c.Fatalf("%s encodes to %d bytes, want %d; the first difference is at %d", short(fn), len(got), len(want), firstDiff(got, want))
	}
	c.NonTrivial(fn, len(want), crypto.Keccak256(want))
	c.Sample("%s: %d bytes", short(fn), len(want))
}

func firstDiff(a, b []byte) int {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return i
		}
	}
	return len(a)
}

func largeDecode(c *vk.C) {
	sol, vals, refs := largeVals(c.T)
	data := pack(sol, refs)
	var fresh, want []interface{}
	for i, v := range vals {
		if sol[i] == "string" {
			s := string(*v.(*seth.Bytes))
			v = &s
		}
		want = append(want, v)
		fresh = append(fresh, reflect.New(reflect.TypeOf(v).Elem()).Interface())
	}
	for _, mode := range []string{"fresh", "text into used"} {
		var err error
		if m := vk.Trap(func() {
			if mode == "fresh" {
				err = seth.DecodeABI(data, fresh...)
			} else {
				js, _ := json.Marshal(seth.Data(data))
				err = json.Unmarshal(js, seth.NewABIDecoder(fresh...))
			}
		}); m != "" || err != nil {
			c.Fatalf("%s, %s: %d bytes: %v %s", short(fmt.Sprint(sol)), mode, len(data), err, m)
		}
		for i := range fresh {
			if !sameVal(fresh[i], want[i]) {
				c.Fatalf("%s, %s: %d bytes: value %d (%s) is another: %s instead of %s", short(fmt.Sprint(sol)), mode, len(data), i, sol[i], short(show(fresh[i])), short(show(want[i])))
			}
		}
	}
	c.NonTrivial(strings.Join(sol, ","), len(data), crypto.Keccak256(data))
	c.Sample("%s: %d bytes", short(fmt.Sprint(sol)), len(data))
}
