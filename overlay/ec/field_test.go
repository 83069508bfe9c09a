package ec

import (
	"fmt"
	"math/big"
	"testing"

	"pgregory.net/rapid"

	"verif/harness/vk"
)

var (
	vP, _ = new(big.Int).SetString("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", 16)
	vN, _ = new(big.Int).SetString("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16)
)

// vVal is the integer the ten words stand for.
func vVal(f *fieldVal) *big.Int {
	x := new(big.Int)
	for i := 9; i >= 0; i-- {
		x.Lsh(x, 26)
		x.Add(x, new(big.Int).SetUint64(uint64(f.n[i])))
	}
	return x
}

func vMod(x *big.Int) *big.Int { return new(big.Int).Mod(x, vP) }

// vDrawInt draws an integer below 2^256, often near the prime or a power of two.
func vDrawInt(t *rapid.T, label string) *big.Int {
	one := big.NewInt(1)
	var x *big.Int
	switch rapid.IntRange(0, 5).Draw(t, label+"kind") {
	case 0:
		x = new(big.Int).Set(vP)
		x.Add(x, big.NewInt(int64(rapid.IntRange(-70, 70).Draw(t, label+"off"))))
	case 1:
		x = new(big.Int).Lsh(one, uint(rapid.IntRange(0, 256).Draw(t, label+"bit")))
		x.Add(x, big.NewInt(int64(rapid.IntRange(-3, 3).Draw(t, label+"off"))))
	case 2:
		x = big.NewInt(int64(rapid.IntRange(0, 2000).Draw(t, label+"small")))
	case 3: // limbs of ones and zeros
		x = new(big.Int)
		for i := 0; i < 10; i++ {
			x.Lsh(x, 26)
			x.Add(x, new(big.Int).SetUint64(uint64(vLimb(t, label+"limb", 26))))
		}
	case 4: // around half the prime and small fractions of it
		x = new(big.Int).Div(vP, big.NewInt(int64(rapid.IntRange(2, 9).Draw(t, label+"div"))))
		x.Add(x, big.NewInt(int64(rapid.IntRange(-3, 3).Draw(t, label+"off"))))
	default:
		x = new(big.Int).SetBytes(rapid.SliceOfN(rapid.Byte(), 32, 32).Draw(t, label+"bytes"))
	}
	if x.Sign() < 0 {
		x.SetInt64(0)
	}
	if x.BitLen() > 256 {
		x.Sub(new(big.Int).Lsh(one, 256), one)
	}
	return x
}

func vLimb(t *rapid.T, label string, bits uint) uint32 {
	m := uint32(1)<<bits - 1
	switch rapid.IntRange(0, 7).Draw(t, label) {
	case 0, 1:
		return m
	case 2, 3:
		return 0
	case 4:
		return m - uint32(rapid.IntRange(0, 1100).Draw(t, label+"o"))
	case 5:
		return uint32(rapid.IntRange(0, 1100).Draw(t, label+"o"))
	}
	return rapid.Uint32().Draw(t, label+"r") & m
}

func vBytes32(x *big.Int) *[32]byte {
	var b [32]byte
	x.FillBytes(b[:])
	return &b
}

// reg is a field value with the magnitude the documented rules give it and
// the integer it stands for modulo the prime.
type vReg struct {
	f   fieldVal
	mag uint32
	v   *big.Int
}

// vDrawReg draws a field value: from bytes, or from words up to a magnitude,
// every word at most mag times its full value.
func vDrawReg(t *rapid.T, label string) *vReg {
	r := &vReg{mag: 1}
	if rapid.Bool().Draw(t, label+"raw") {
		r.mag = uint32(rapid.SampledFrom([]int{1, 1, 2, 3, 4, 6, 8, 10, 18, 32, 63}).Draw(t, label+"mag"))
		for i := range r.f.n {
			bits := uint(26)
			if i == 9 {
				bits = 22
			}
			full := r.mag * (1<<bits - 1)
			switch rapid.IntRange(0, 3).Draw(t, label+"w") {
			case 0:
				r.f.n[i] = full
			case 1:
				r.f.n[i] = vLimb(t, label+"l", bits)
			case 2:
				r.f.n[i] = uint32(rapid.Uint64Range(0, uint64(full)).Draw(t, label+"u"))
			default: // multiples of the prime's own words
				w := map[int]uint32{0: 0x3fffc2f, 1: 0x3ffffbf, 9: 0x3fffff}[i]
				if w == 0 {
					w = 0x3ffffff
				}
				r.f.n[i] = r.mag * w
			}
		}
	} else {
		r.f.SetBytes(vBytes32(vDrawInt(t, label)))
	}
	r.v = vMod(vVal(&r.f))
	return r
}

func TestC40(t *testing.T) {
	p := vk.Start(t, "C40", "at least two operations after the operands are drawn, or an operand near the prime or unreduced",
		"operands are within the magnitudes the code documents: at most 8 for products and inverses, no word beyond 32 bits for sums and small multiples",
		"the words' layout and the operations' names are those the package's own tests use")

	is := func(c *vk.C, what string, f *fieldVal, want *big.Int) {
		if got := vMod(vVal(f)); got.Cmp(want) != 0 {
			c.Fatalf("%s: the words %x stand for %x, want %x", what, f.n, got, want)
		}
	}
	normal := func(c *vk.C, what string, f fieldVal, want *big.Int) {
		before := f.n
		f.Normalize()
		if got := vVal(&f); got.Cmp(want) != 0 {
			c.Fatalf("%s: normalising %x gives %x, want %x", what, before, got, want)
		}
		for i, w := range f.n {
			if w >= 1<<26 || i == 9 && w >= 1<<22 {
				c.Fatalf("%s: normalising %x gives %x, which is not normalised", what, before, f.n)
			}
		}
		again := f
		if *again.Normalize() != f {
			c.Fatalf("%s: normalising %x twice gives %x", what, f.n, again.n)
		}
		// every reading of it
		b := vBytes32(want)
		if *f.Bytes() != *b {
			c.Fatalf("%s: %x as bytes is %x, want %x", what, f.n, *f.Bytes(), *b)
		}
		var put [32]byte
		for i := range put {
			put[i] = 0xee
		}
		f.PutBytes(&put)
		if put != *b {
			c.Fatalf("%s: %x put as bytes is %x, want %x", what, f.n, put, *b)
		}
		if f.IsZero() != (want.Sign() == 0) || f.IsOdd() != (want.Bit(0) == 1) {
			c.Fatalf("%s: %x is zero %v, odd %v", what, want, f.IsZero(), f.IsOdd())
		}
		if s := f.String(); s != fmt.Sprintf("%064x", want) {
			c.Fatalf("%s: %x prints %q", what, want, s)
		}
		var back fieldVal
		back.SetBytes(b)
		if !back.Equals(&f) || !f.Equals(&back) {
			c.Fatalf("%s: %x does not equal itself read from bytes: %x, %x", what, want, f.n, back.n)
		}
	}

	p.Check("load", 45000, 1200000, func(c *vk.C) {
		x := vDrawInt(c.T, "x")
		b := vBytes32(x)
		v := vMod(x)
		if x.Sign() != 0 {
			c.NonTrivial(x)
		}
		c.Class(fmt.Sprintf("beyond-prime-%v", x.Cmp(vP) >= 0))
		c.Sample("%x", x)
		var f, g, h fieldVal
		for i := range f.n { // values in use
			f.n[i], g.n[i], h.n[i] = 0xffffffff, 0xffffffff, 0xffffffff
		}
		is(c, "SetBytes", f.SetBytes(b), v)
		cut := 0
		for cut < 32 && b[cut] == 0 && rapid.Bool().Draw(c.T, "cut") {
			cut++
		}
		is(c, "SetByteSlice", g.SetByteSlice(b[cut:]), v)
		hex := fmt.Sprintf("%x", b[cut:])
		if len(hex) > 0 && hex[0] == '0' && rapid.Bool().Draw(c.T, "odd") {
			hex = hex[1:]
		}
		is(c, "SetHex "+hex, h.SetHex(hex), v)
		normal(c, "SetBytes", f, v)
		normal(c, "SetByteSlice", g, v)
		normal(c, "SetHex", h, v)
		y := vDrawInt(c.T, "y")
		var e fieldVal
		e.SetBytes(vBytes32(y)).Normalize()
		f.Normalize()
		if f.Equals(&e) != (v.Cmp(vMod(y)) == 0) {
			c.Fatalf("%x equals %x: %v", x, y, f.Equals(&e))
		}
		// words that differ in one bit are different values
		d := f
		i := rapid.IntRange(0, 9).Draw(c.T, "word")
		d.n[i] ^= 1 << uint(rapid.IntRange(0, map[bool]int{true: 21, false: 25}[i == 9]).Draw(c.T, "bit"))
		if f.Equals(&d) || d.Equals(&f) {
			c.Fatalf("%x equals %x", f.n, d.n)
		}
		if f.IsZero() && d.IsZero() {
			c.Fatalf("%x is zero", d.n)
		}
		ui := uint(rapid.Uint32().Draw(c.T, "ui"))
		is(c, "SetInt", f.SetInt(ui), new(big.Int).SetUint64(uint64(ui)))
		normal(c, "SetInt", f, new(big.Int).SetUint64(uint64(ui)))
		f.Zero()
		if !f.IsZero() {
			c.Fatalf("Zero gives %x", f.n)
		}
	})

	// one operation on operands at the limits of what is allowed
	p.Check("single-operations", 75000, 3000000, func(c *vk.C) {
		a, b := vDrawReg(c.T, "a"), vDrawReg(c.T, "b")
		if rapid.IntRange(0, 3).Draw(c.T, "same") == 0 {
			*b = *a
		}
		if a.mag > 1 || b.mag > 1 {
			c.NonTrivial(a.f.n, b.f.n)
		}
		c.Class(fmt.Sprintf("mag-%d", a.mag))
		c.Sample("%x %x", a.f.n, b.f.n)
		a0, b0 := a.f, b.f
		normal(c, "drawn", a.f, a.v)
		kept := func(what string) {
			if a.f != a0 || b.f != b0 {
				c.Fatalf("%s changed an operand: %x -> %x, %x -> %x", what, a0.n, a.f.n, b0.n, b.f.n)
			}
		}
		var r fieldVal
		for i := range r.n {
			r.n[i] = 0xdeadbeef
		}
		if a.mag+b.mag <= 63 {
			sum := vMod(new(big.Int).Add(a.v, b.v))
			is(c, "Add2", r.Add2(&a.f, &b.f), sum)
			kept("Add2")
			normal(c, "Add2", r, sum)
			x := a.f
			is(c, "Add", x.Add(&b.f), sum)
			normal(c, "Add", x, sum)
			x = a.f
			is(c, "Add to itself in place", x.Add2(&x, &b.f), sum)
			if a.mag*2 <= 63 {
				x = a.f
				is(c, "Add(self)", x.Add(&x), vMod(new(big.Int).Lsh(a.v, 1)))
			}
		}
		if a.mag <= 62 {
			neg := vMod(new(big.Int).Neg(a.v))
			m := a.mag + uint32(rapid.IntRange(0, int(62-a.mag)).Draw(c.T, "slack"))
			is(c, "NegateVal", r.NegateVal(&a.f, m), neg)
			kept("NegateVal")
			normal(c, "NegateVal", r, neg)
			x := a.f
			is(c, "Negate", x.Negate(a.mag), neg)
			ui := uint(rapid.IntRange(0, 1<<26-1).Draw(c.T, "ui"))
			x = a.f
			sum := vMod(new(big.Int).Add(a.v, big.NewInt(int64(ui))))
			is(c, "AddInt", x.AddInt(ui), sum)
			normal(c, "AddInt", x, sum)
		}
		k := uint(rapid.IntRange(0, int(63/a.mag)).Draw(c.T, "k"))
		x := a.f
		prod := vMod(new(big.Int).Mul(a.v, big.NewInt(int64(k))))
		is(c, fmt.Sprintf("MulInt(%d)", k), x.MulInt(k), prod)
		normal(c, "MulInt", x, prod)
		if a.mag <= 8 {
			sq := vMod(new(big.Int).Mul(a.v, a.v))
			is(c, "SquareVal", r.SquareVal(&a.f), sq)
			kept("SquareVal")
			normal(c, "SquareVal", r, sq)
			x = a.f
			is(c, "Square", x.Square(), sq)
			x = a.f
			is(c, "Mul(self)", x.Mul(&x), sq)
		}
		if a.mag <= 8 && b.mag <= 8 {
			prod := vMod(new(big.Int).Mul(a.v, b.v))
			is(c, "Mul2", r.Mul2(&a.f, &b.f), prod)
			kept("Mul2")
			normal(c, "Mul2", r, prod)
			x = a.f
			is(c, "Mul", x.Mul(&b.f), prod)
			x = b.f
			is(c, "Mul2 in place", x.Mul2(&a.f, &x), prod)
			kept("Mul2 in place")
		}
	})

	p.Check("inverse", 7500, 160000, func(c *vk.C) {
		a := vDrawReg(c.T, "a")
		if a.mag > 8 {
			a.f.Normalize()
			a.mag = 1
		}
		want := new(big.Int)
		if a.v.Sign() != 0 {
			want.ModInverse(a.v, vP)
			c.NonTrivial(a.f.n)
		}
		c.Sample("1/%x", a.v)
		x := a.f
		is(c, "Inverse", x.Inverse(), want)
		normal(c, "Inverse", x, want)
	})

	// programs: many operations with the magnitudes the rules allow
	p.Check("programs", 12000, 400000, func(c *vk.C) {
		n := rapid.IntRange(2, 4).Draw(c.T, "regs")
		var regs []*vReg
		for i := 0; i < n; i++ {
			regs = append(regs, vDrawReg(c.T, "r"))
		}
		var log []string
		ops := rapid.IntRange(2, 30).Draw(c.T, "ops")
		for ; ops > 0; ops-- {
			i, j, k := rapid.IntRange(0, n-1).Draw(c.T, "i"), rapid.IntRange(0, n-1).Draw(c.T, "j"), rapid.IntRange(0, n-1).Draw(c.T, "k")
			d, a, b := regs[i], regs[j], regs[k]
			var v *big.Int
			var mag uint32
			op := rapid.SampledFrom([]string{"mul", "mul", "square", "add", "neg", "mulint", "addint", "norm", "inv", "set"}).Draw(c.T, "op")
			switch {
			case op == "mul" && a.mag <= 8 && b.mag <= 8:
				v, mag = vMod(new(big.Int).Mul(a.v, b.v)), 1
				d.f.Mul2(&a.f, &b.f)
			case op == "square" && a.mag <= 8:
				v, mag = vMod(new(big.Int).Mul(a.v, a.v)), 1
				d.f.SquareVal(&a.f)
			case op == "add" && a.mag+b.mag <= 32:
				v, mag = vMod(new(big.Int).Add(a.v, b.v)), a.mag+b.mag
				d.f.Add2(&a.f, &b.f)
			case op == "neg" && a.mag <= 31:
				v, mag = vMod(new(big.Int).Neg(a.v)), a.mag+1
				d.f.NegateVal(&a.f, a.mag)
			case op == "mulint" && d.mag <= 16:
				m := uint32(rapid.IntRange(1, int(32/d.mag)).Draw(c.T, "m"))
				v, mag = vMod(new(big.Int).Mul(d.v, big.NewInt(int64(m)))), d.mag*m
				d.f.MulInt(uint(m))
			case op == "addint" && d.mag <= 31:
				v, mag = vMod(new(big.Int).Add(d.v, big.NewInt(7))), d.mag+1
				d.f.AddInt(7)
			case op == "inv" && d.mag <= 8 && rapid.IntRange(0, 5).Draw(c.T, "doinv") == 0:
				mag, v = 1, new(big.Int)
				if d.v.Sign() != 0 {
					v.ModInverse(d.v, vP)
				}
				d.f.Inverse()
			case op == "set":
				v, mag = a.v, a.mag
				d.f.Set(&a.f)
			default:
				op = "norm"
				v, mag = d.v, 1
				d.f.Normalize()
			}
			log = append(log, fmt.Sprintf("%d=%s(%d,%d)", i, op, j, k))
			d.v, d.mag = v, mag
			for i, r := range regs {
				is(c, fmt.Sprintf("value %d after %v", i, log), &r.f, r.v)
			}
		}
		c.NonTrivial(log, regs[0].v)
		c.Sample("%v", log)
		for i, r := range regs {
			normal(c, fmt.Sprintf("value %d after %v", i, log), r.f, r.v)
		}
	})
}
