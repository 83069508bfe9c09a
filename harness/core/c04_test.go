package core

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"testing"

	"github.com/philhofer/seth"
	"github.com/tinylib/msgp/msgp"
	"pgregory.net/rapid"

	"verif/harness/gen"
	"verif/harness/vk"
)

type stored interface {
	msgp.Marshaler
	msgp.Unmarshaler
	msgp.Encodable
	msgp.Decodable
	msgp.Sizer
}

var storedTypes = []func() stored{
	func() stored { return new(seth.Address) },
	func() stored { return new(seth.Hash) },
	func() stored { return new(seth.Data) },
	func() stored { return new(seth.Int) },
	func() stored { return new(seth.Block) },
	func() stored { return new(seth.Transaction) },
	func() stored { return new(seth.Receipt) },
	func() stored { return new(seth.Log) },
	func() stored { return new(seth.TokenTransfer) },
	func() stored { return new(seth.RPCError) },
	func() stored { return new(seth.ABIDescriptor) },
	func() stored { return new(seth.ABIParam) },
	func() stored { return new(seth.CompiledContract) },
	func() stored { return new(seth.CompiledBundle) },
	func() stored { return new(seth.Source) },
}

// fill sets every exported field of v, recursively.
func fill(t *rapid.T, v reflect.Value, depth int) {
	switch v.Type() {
	case reflect.TypeOf(seth.Int{}):
		v.Set(reflect.ValueOf(gen.Int(300).Draw(t, "int")))
		return
	case reflect.TypeOf(json.RawMessage{}):
		v.Set(reflect.ValueOf(json.RawMessage(rapid.SampledFrom([]string{"", "null", "{}", `"0x12"`, `{"a":[1,2,{"b":null}]}`}).Draw(t, "raw"))))
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if rapid.IntRange(0, 2).Draw(t, "nil") == 0 {
			v.Set(reflect.Zero(v.Type()))
			return
		}
		v.Set(reflect.New(v.Type().Elem()))
		fill(t, v.Elem(), depth)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				fill(t, v.Field(i), depth+1)
			}
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			max := 40
			if rapid.IntRange(0, 15).Draw(t, "long") == 0 {
				max = 700 // past the 8-bit length form
			}
			v.SetBytes(gen.Bytes(0, max).Draw(t, "bytes"))
			return
		}
		n := rapid.IntRange(0, 3).Draw(t, "n")
		if depth > 5 {
			n = 0
		}
		v.Set(reflect.MakeSlice(v.Type(), n, n))
		for i := 0; i < n; i++ {
			fill(t, v.Index(i), depth+1)
		}
	case reflect.Array:
		reflect.Copy(v, reflect.ValueOf(gen.Bytes(v.Len(), v.Len()).Draw(t, "arr")))
	case reflect.Uint64, reflect.Uint, reflect.Uint32, reflect.Uint8:
		v.SetUint(gen.Uint64().Draw(t, "u") & (1<<uint(v.Type().Bits()-1)<<1 - 1))
	case reflect.Int64, reflect.Int, reflect.Int32:
		v.SetInt(int64(gen.Uint64().Draw(t, "i")))
	case reflect.Bool:
		v.SetBool(rapid.Bool().Draw(t, "b"))
	case reflect.String:
		if rapid.IntRange(0, 15).Draw(t, "longstr") == 0 {
			v.SetString(string(bytes.Repeat([]byte("x"), rapid.SampledFrom([]int{31, 32, 255, 256, 300}).Draw(t, "sl"))))
			return
		}
		v.SetString(rapid.String().Draw(t, "s"))
	default:
		panic(fmt.Sprintf("HARNESS-ERROR: kind %s", v.Type()))
	}
}

// endsInArray tells how many bytes of a fixed-size array v's encoding ends
// with.
func endsInArray(v stored) int {
	switch v.(type) {
	case *seth.Address:
		return 20
	case *seth.Hash:
		return 32
	}
	return 0
}

func TestC04(t *testing.T) {
	p := vk.Start(t, "C04", "values of the 15 stored types with every exported field drawn, encoded by both encoders and decoded by both decoders into fresh and used receivers, then truncated and corrupted; non-trivial: a distinct encoding longer than the type's zero value's")

	zero := map[reflect.Type]int{}
	for _, f := range storedTypes {
		v := f()
		b, err := v.MarshalMsg(nil)
		if err != nil {
			t.Fatalf("zero value of %T: %v", v, err)
		}
		zero[reflect.TypeOf(v)] = len(b)
	}
	encode := func(c *vk.C) (func() stored, stored, []byte) {
		f := rapid.SampledFrom(storedTypes).Draw(c.T, "type")
		v := f()
		fill(c.T, reflect.ValueOf(v).Elem(), 0)
		b, err := v.MarshalMsg(nil)
		if err != nil {
			c.Fatalf("%T: MarshalMsg: %v", v, err)
		}
		c.Class(fmt.Sprintf("%T", v)[6:])
		if len(b) > zero[reflect.TypeOf(v)] {
			c.NonTrivial(b)
			c.Sample("%T %x", v, b)
		}
		return f, v, b
	}

	p.Check("roundtrip", 6000, 150000, func(c *vk.C) {
		f, v, b := encode(c)
		if len(b) > v.Msgsize() {
			c.Fatalf("%T: Msgsize %d, encoding has %d bytes", v, v.Msgsize(), len(b))
		}
		var buf bytes.Buffer
		if err := msgp.Encode(&buf, v); err != nil {
			c.Fatalf("%T: EncodeMsg: %v", v, err)
		}
		if !bytes.Equal(buf.Bytes(), b) {
			c.Fatalf("%T: the two encoders disagree:\n%x\n%x", v, b, buf.Bytes())
		}
		tail := gen.Bytes(0, 5).Draw(c.T, "tail")
		x, y := f(), f()
		if rapid.Bool().Draw(c.T, "used") {
			fill(c.T, reflect.ValueOf(x).Elem(), 0)
			fill(c.T, reflect.ValueOf(y).Elem(), 0)
			c.Class("used-receiver")
		}
		rest, err := x.UnmarshalMsg(append(append([]byte{}, b...), tail...))
		if err != nil || !bytes.Equal(rest, tail) {
			c.Fatalf("%T: UnmarshalMsg leaves %x (%v), want %x", v, rest, err, tail)
		}
		if !sameVal(x, v) {
			c.Fatalf("%T: %x decodes to %+v, want %+v", v, b, x, v)
		}
		if err := msgp.Decode(bytes.NewReader(b), y); err != nil || !sameVal(y, v) {
			c.Fatalf("%T: DecodeMsg of %x: %+v, %v; want %+v", v, b, y, err, v)
		}
		// appending to a buffer keeps what is there
		pre := gen.Bytes(0, 9).Draw(c.T, "prefix")
		b2, err := v.MarshalMsg(append([]byte{}, pre...))
		if err != nil || !bytes.Equal(b2, append(append([]byte{}, pre...), b...)) {
			c.Fatalf("%T: MarshalMsg after %x gives %x", v, pre, b2)
		}
	})

	p.Check("truncated", 6000, 150000, func(c *vk.C) {
		f, v, b := encode(c)
		cut := rapid.IntRange(0, len(b)-1).Draw(c.T, "cut")
		if m := vk.Trap(func() {
			// msgp.ReadExactBytes (the library, v1.1.0) does not check that the
			// bytes it promises are there, so the in-memory decoder cannot
			// reject a fixed-size array cut short at the very end
			_, err := f().UnmarshalMsg(append([]byte{}, b[:cut]...))
			if err == nil && len(b)-cut > endsInArray(v) {
				c.Errorf("%T: UnmarshalMsg accepts %d of %d bytes of %x", v, cut, len(b), b)
			}
			if err := msgp.Decode(bytes.NewReader(b[:cut]), f()); err == nil {
				c.Errorf("%T: DecodeMsg accepts %d of %d bytes of %x", v, cut, len(b), b)
			}
		}); m != "" {
			c.Fatalf("%T: %d of %d bytes of %x: %s", v, cut, len(b), b, m)
		}
	})

	p.Check("corrupted", 6000, 150000, func(c *vk.C) {
		f, v, b := encode(c)
		for i := rapid.IntRange(1, 3).Draw(c.T, "n"); i > 0; i-- {
			at := rapid.IntRange(0, len(b)-1).Draw(c.T, "at")
			nb := gen.Byte().Draw(c.T, "to")
			// array and map headers claiming millions of entries make the
			// decoder allocate them: not what is looked for here
			if nb == 0xdc || nb == 0xdd || nb == 0xde || nb == 0xdf || nb == 0xc6 || nb == 0xdb {
				nb = 0xc0
			}
			b[at] = nb
		}
		if m := vk.Trap(func() {
			x := f()
			if _, err := x.UnmarshalMsg(append([]byte{}, b...)); err == nil {
				// what was accepted is a value like any other
				b2, err := x.MarshalMsg(nil)
				if err != nil {
					c.Errorf("%T decoded from %x does not encode: %v", v, b, err)
				}
				y := f()
				if _, err := y.UnmarshalMsg(b2); err != nil || !sameVal(x, y) {
					c.Errorf("%T decoded from %x does not round-trip: %+v %+v %v", v, b, x, y, err)
				}
				c.Class("accepted")
			}
			msgp.Decode(bytes.NewReader(b), f())
		}); m != "" {
			c.Fatalf("%T: %x: %s", v, b, m)
		}
	})
}
