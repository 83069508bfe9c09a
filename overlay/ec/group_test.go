package ec

import (
	"bytes"
	"fmt"
	"math/big"
	"testing"

	"pgregory.net/rapid"

	"verif/harness/vk"
)

// vPt is a point of secp256k1 in the reference; x == nil is infinity.
type vPt struct{ x, y *big.Int }

func (p vPt) inf() bool { return p.x == nil }

func (p vPt) String() string {
	if p.inf() {
		return "infinity"
	}
	return fmt.Sprintf("(%x, %x)", p.x, p.y)
}

func (p vPt) eq(q vPt) bool {
	if p.inf() || q.inf() {
		return p.inf() == q.inf()
	}
	return p.x.Cmp(q.x) == 0 && p.y.Cmp(q.y) == 0
}

func (p vPt) neg() vPt {
	if p.inf() {
		return p
	}
	return vPt{p.x, vMod(new(big.Int).Neg(p.y))}
}

// vAdd is the chord and tangent rule.
func vAdd(p, q vPt) vPt {
	if p.inf() {
		return q
	}
	if q.inf() {
		return p
	}
	var l *big.Int
	if p.x.Cmp(q.x) == 0 {
		if p.y.Cmp(q.y) != 0 || p.y.Sign() == 0 {
			return vPt{}
		}
		l = new(big.Int).Mul(p.x, p.x)
		l.Mul(l, big.NewInt(3))
		l.Mul(l, new(big.Int).ModInverse(new(big.Int).Lsh(p.y, 1), vP))
	} else {
		l = new(big.Int).Sub(q.y, p.y)
		l.Mul(l, new(big.Int).ModInverse(vMod(new(big.Int).Sub(q.x, p.x)), vP))
	}
	l = vMod(l)
	x := new(big.Int).Mul(l, l)
	x.Sub(x, p.x)
	x.Sub(x, q.x)
	x = vMod(x)
	y := new(big.Int).Sub(p.x, x)
	y.Mul(y, l)
	y.Sub(y, p.y)
	return vPt{x, vMod(y)}
}

// vMul adds and doubles from the top bit.
func vMul(p vPt, k *big.Int) vPt {
	var r vPt
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = vAdd(r, r)
		if k.Bit(i) == 1 {
			r = vAdd(r, p)
		}
	}
	return r
}

func vHex(s string) *big.Int {
	x, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic("HARNESS-ERROR: " + s)
	}
	return x
}

var (
	vG = vPt{vHex("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"),
		vHex("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8")}
	// a cube root of one modulo p and the matching one modulo n: (βx, y) = λ(x, y)
	vBeta   = vHex("7ae96a2b657c07106e64479eac3434e99cf0497512f58995c1396c28719501ee")
	vLambda = vHex("5363ad4cc05c30e0a5261c028812645a122e22ea20816678df02967c1b23bd72")
)

func vOnCurve(x, y *big.Int) bool {
	if x.Sign() < 0 || y.Sign() < 0 || x.Cmp(vP) >= 0 || y.Cmp(vP) >= 0 {
		return false
	}
	r := new(big.Int).Exp(x, big.NewInt(3), vP)
	r.Add(r, big.NewInt(7))
	return vMod(r).Cmp(vMod(new(big.Int).Mul(y, y))) == 0
}

// vLift finds the point with the first x at or after x0.
func vLift(x0 *big.Int) vPt {
	x := vMod(x0)
	for {
		r := new(big.Int).Exp(x, big.NewInt(3), vP)
		r = vMod(r.Add(r, big.NewInt(7)))
		if y := new(big.Int).ModSqrt(r, vP); y != nil {
			return vPt{x, y}
		}
		x = vMod(x.Add(x, big.NewInt(1)))
	}
}

var vPool []vPt

func init() {
	p := vPt{}
	for i := 0; i < 260; i++ {
		p = vAdd(p, vG)
		vPool = append(vPool, p)
	}
}

// vPoint draws a point: a multiple of G, a lifted x, their negatives and
// their images under the endomorphism, or infinity.
func vPoint(t *rapid.T, label string) vPt {
	var p vPt
	switch rapid.IntRange(0, 9).Draw(t, label+"kind") {
	case 0:
		return p
	case 1, 2, 3:
		p = vPool[rapid.IntRange(0, len(vPool)-1).Draw(t, label+"small")]
	default:
		p = vLift(vDrawInt(t, label+"x"))
	}
	if rapid.Bool().Draw(t, label+"neg") {
		p = p.neg()
	}
	if rapid.IntRange(0, 3).Draw(t, label+"endo") == 0 {
		p = vPt{vMod(new(big.Int).Mul(p.x, vBeta)), p.y}
	}
	return p
}

// vOther draws a point with a special relation to p, or an unrelated one.
func vOther(t *rapid.T, p vPt) (vPt, string) {
	k := rapid.SampledFrom([]string{"any", "any", "any", "same", "opposite", "endo", "endo2", "double", "minus-double", "infinity", "small-multiple"}).Draw(t, "relation")
	if p.inf() && k != "same" && k != "infinity" {
		k = "any"
	}
	switch k {
	case "same":
		return p, k
	case "opposite":
		return p.neg(), k
	case "endo": // same y, another x
		return vPt{vMod(new(big.Int).Mul(p.x, vBeta)), p.y}, k
	case "endo2":
		return vPt{vMod(new(big.Int).Mul(p.x, new(big.Int).Mul(vBeta, vBeta))), p.neg().y}, k
	case "double":
		return vAdd(p, p), k
	case "minus-double":
		return vAdd(p, p).neg(), k
	case "infinity":
		return vPt{}, k
	case "small-multiple":
		return vMul(p, big.NewInt(int64(rapid.IntRange(3, 9).Draw(t, "m")))), k
	}
	return vPoint(t, "q"), k
}

// vBig are the coordinates as the package takes them: (0, 0) for infinity.
func vBig(p vPt) (*big.Int, *big.Int) {
	if p.inf() {
		return new(big.Int), new(big.Int)
	}
	return new(big.Int).Set(p.x), new(big.Int).Set(p.y)
}

func vFrom(x, y *big.Int) vPt {
	if x.Sign() == 0 && y.Sign() == 0 {
		return vPt{}
	}
	return vPt{x, y}
}

// vJac draws Jacobian coordinates of p.
func vJac(t *rapid.T, p vPt, z *big.Int) (fx, fy, fz fieldVal) {
	if p.inf() {
		// either spelling of infinity
		switch rapid.IntRange(0, 2).Draw(t, "inf") {
		case 0:
			fx.SetInt(0)
			fy.SetInt(0)
			fz.SetInt(1)
		case 1:
			fx.SetBytes(vBytes32(vG.x))
			fy.SetBytes(vBytes32(vG.y))
		}
		return
	}
	z2 := vMod(new(big.Int).Mul(z, z))
	fx.SetBytes(vBytes32(vMod(new(big.Int).Mul(p.x, z2))))
	fy.SetBytes(vBytes32(vMod(new(big.Int).Mul(p.y, new(big.Int).Mul(z2, z)))))
	fz.SetBytes(vBytes32(z))
	return
}

func vFromJac(x, y, z fieldVal) vPt {
	zz := vMod(vVal(&z))
	xx, yy := vMod(vVal(&x)), vMod(vVal(&y))
	if zz.Sign() == 0 || xx.Sign() == 0 && yy.Sign() == 0 {
		return vPt{}
	}
	i := new(big.Int).ModInverse(zz, vP)
	i2 := new(big.Int).Mul(i, i)
	return vPt{vMod(xx.Mul(xx, i2)), vMod(yy.Mul(yy, i2.Mul(i2, i)))}
}

func vDrawZ(t *rapid.T, label string) *big.Int {
	if rapid.IntRange(0, 2).Draw(t, label+"one") == 0 {
		return big.NewInt(1)
	}
	z := vMod(vDrawInt(t, label))
	if z.Sign() == 0 {
		z.SetInt64(2)
	}
	return z
}

// vScalar draws a scalar in big-endian bytes, of any length.
func vScalar(t *rapid.T, maxLen int) []byte {
	k := new(big.Int)
	switch rapid.IntRange(0, 7).Draw(t, "scalar") {
	case 0: // near multiples of the order
		k.Mul(vN, big.NewInt(int64(rapid.IntRange(0, 4).Draw(t, "mult"))))
		k.Add(k, big.NewInt(int64(rapid.IntRange(-6, 6).Draw(t, "off"))))
	case 1: // combinations of the endomorphism's eigenvalue
		k.Mul(vLambda, big.NewInt(int64(rapid.IntRange(-4, 4).Draw(t, "mult"))))
		k.Add(k, big.NewInt(int64(rapid.IntRange(-6, 6).Draw(t, "off"))))
		if rapid.Bool().Draw(t, "mod") {
			k.Mod(k, vN)
		}
	case 2:
		k.SetInt64(int64(rapid.IntRange(0, 600).Draw(t, "small")))
	case 3: // one byte set, for each table window
		k.Lsh(big.NewInt(int64(rapid.IntRange(1, 255).Draw(t, "byte"))), uint(8*rapid.IntRange(0, 31).Draw(t, "window")))
	case 4: // around powers of two
		k.Lsh(big.NewInt(1), uint(rapid.IntRange(0, 300).Draw(t, "bit")))
		k.Add(k, big.NewInt(int64(rapid.IntRange(-2, 2).Draw(t, "off"))))
	case 5: // fractions of the order
		k.Div(vN, big.NewInt(int64(rapid.IntRange(2, 17).Draw(t, "div"))))
		k.Add(k, big.NewInt(int64(rapid.IntRange(-2, 2).Draw(t, "off"))))
	case 6:
		return rapid.SliceOfN(rapid.Byte(), 0, maxLen).Draw(t, "bytes")
	default:
		k.SetBytes(rapid.SliceOfN(rapid.Byte(), 32, 32).Draw(t, "bytes"))
	}
	k.Abs(k)
	b := k.Bytes()
	if rapid.IntRange(0, 3).Draw(t, "pad") == 0 {
		b = append(make([]byte, rapid.IntRange(1, 12).Draw(t, "zeros")), b...)
	}
	return b
}

func TestC39(t *testing.T) {
	p := vk.Start(t, "C39", "no operand is infinity and the scalar is not below two",
		"the point at infinity is (0, 0), as in crypto/elliptic; points off the curve and coordinates outside the field are unspecified, except for the on-curve test",
		"the package's own tests fix the Jacobian functions' names")
	S := S256()

	check := func(c *vk.C, what string, x, y *big.Int, want vPt) {
		if x == nil || y == nil {
			c.Fatalf("%s: nil coordinates", what)
		}
		if got := vFrom(x, y); !got.eq(want) {
			c.Fatalf("%s is %v, want %v", what, got, want)
		}
	}

	p.Enumerate("parameters-and-table", func(t *testing.T, e *vk.E) {
		pr := S.Params()
		for name, ok := range map[string]bool{
			"P": pr.P.Cmp(vP) == 0, "N": pr.N.Cmp(vN) == 0, "B": pr.B.Cmp(big.NewInt(7)) == 0,
			"Gx": pr.Gx.Cmp(vG.x) == 0, "Gy": pr.Gy.Cmp(vG.y) == 0, "BitSize": pr.BitSize == 256,
			"QPlus1Div4": new(big.Int).Sub(new(big.Int).Lsh(S.QPlus1Div4(), 2), big.NewInt(1)).Cmp(vP) == 0,
			"H":          S.H == 1,
		} {
			e.Eval()
			if !ok {
				t.Fatalf("the curve's %s is wrong", name)
			}
		}
		if !vMul(vG, vN).inf() || !vOnCurve(vG.x, vG.y) {
			panic("HARNESS-ERROR: the reference is wrong")
		}
		// every entry of the table of byte multiples: i·256^(31-w)·G
		base := vG
		for w := 31; w >= 0; w-- {
			acc := vPt{}
			for i := 1; i < 256; i++ {
				acc = vAdd(acc, base)
				e.Eval()
				e.NonTrivial(fmt.Sprint(w, i))
				k := make([]byte, 32)
				k[w] = byte(i)
				x, y := S.ScalarBaseMult(k)
				if !vFrom(x, y).eq(acc) {
					t.Fatalf("%x·G is %v, want %v", k, vFrom(x, y), acc)
				}
			}
			base = vAdd(acc, base)
		}
	})

	p.Check("add-double", 6000, 300000, func(c *vk.C) {
		a := vPoint(c.T, "p")
		b, rel := vOther(c.T, a)
		if !a.inf() && !b.inf() {
			c.NonTrivial(a.x, b.x, rel)
		}
		c.Class(rel)
		c.Sample("%v + %v (%s)", a, b, rel)
		ax, ay := vBig(a)
		bx, by := vBig(b)
		if rel == "same" && rapid.Bool().Draw(c.T, "aliased") {
			bx, by = ax, ay
		}
		x, y := S.Add(ax, ay, bx, by)
		check(c, fmt.Sprintf("%v + %v", a, b), x, y, vAdd(a, b))
		x, y = S.Add(bx, by, ax, ay)
		check(c, fmt.Sprintf("%v + %v", b, a), x, y, vAdd(a, b))
		x, y = S.Double(ax, ay)
		check(c, fmt.Sprintf("2·%v", a), x, y, vAdd(a, a))
		if !vFrom(ax, ay).eq(a) || !vFrom(bx, by).eq(b) {
			c.Fatalf("adding changed an operand: %v %v -> %v %v", a, b, vFrom(ax, ay), vFrom(bx, by))
		}
	})

	p.Check("jacobian", 12000, 600000, func(c *vk.C) {
		a := vPoint(c.T, "p")
		b, rel := vOther(c.T, a)
		z1 := vDrawZ(c.T, "z1")
		z2 := z1
		if rapid.IntRange(0, 2).Draw(c.T, "samez") != 0 {
			z2 = vDrawZ(c.T, "z2")
		}
		x1, y1, zz1 := vJac(c.T, a, z1)
		x2, y2, zz2 := vJac(c.T, b, z2)
		if !a.inf() && !b.inf() {
			c.NonTrivial(a.x, b.x, z1, z2)
		}
		kind := "other-z"
		switch {
		case z1.Cmp(big.NewInt(1)) == 0 && z2.Cmp(z1) == 0:
			kind = "both-z-one"
		case z1.Cmp(z2) == 0:
			kind = "same-z"
		case z2.Cmp(big.NewInt(1)) == 0:
			kind = "second-z-one"
		}
		c.Class(rel, kind)
		c.Sample("%v + %v (%s, %s)", a, b, rel, kind)
		var x3, y3, z3 fieldVal
		X1, Y1, Z1, X2, Y2, Z2 := x1, y1, zz1, x2, y2, zz2
		S.addJacobian(&x1, &y1, &zz1, &x2, &y2, &zz2, &x3, &y3, &z3)
		if got := vFromJac(x3, y3, z3); !got.eq(vAdd(a, b)) {
			c.Fatalf("%v (z=%x) + %v (z=%x) is %v, want %v", a, z1, b, z2, got, vAdd(a, b))
		}
		// the operands may be normalised, not changed
		if !vFromJac(x1, y1, zz1).eq(a) || !vFromJac(x2, y2, zz2).eq(b) {
			c.Fatalf("adding changed an operand: %v (z=%x) + %v (z=%x)", a, z1, b, z2)
		}
		// the result in place of the first operand, as scalar multiplication does
		x1, y1, zz1, x2, y2, zz2 = X1, Y1, Z1, X2, Y2, Z2
		S.addJacobian(&x1, &y1, &zz1, &x2, &y2, &zz2, &x1, &y1, &zz1)
		if got := vFromJac(x1, y1, zz1); !got.eq(vAdd(a, b)) {
			c.Fatalf("%v (z=%x) += %v (z=%x) is %v, want %v", a, z1, b, z2, got, vAdd(a, b))
		}
		// what came out is good to go on with
		S.addJacobian(&x1, &y1, &zz1, &x2, &y2, &zz2, &x1, &y1, &zz1)
		sum := vAdd(vAdd(a, b), b)
		if got := vFromJac(x1, y1, zz1); !got.eq(sum) {
			c.Fatalf("%v (z=%x) += %v (z=%x) twice is %v, want %v", a, z1, b, z2, got, sum)
		}
		S.doubleJacobian(&x1, &y1, &zz1, &x1, &y1, &zz1)
		if got := vFromJac(x1, y1, zz1); !got.eq(vAdd(sum, sum)) {
			c.Fatalf("doubling %v gives %v, want %v", sum, got, vAdd(sum, sum))
		}
		x1, y1, zz1 = X1, Y1, Z1
		S.doubleJacobian(&x1, &y1, &zz1, &x3, &y3, &z3)
		if got := vFromJac(x3, y3, z3); !got.eq(vAdd(a, a)) {
			c.Fatalf("2·%v (z=%x) is %v, want %v", a, z1, got, vAdd(a, a))
		}
	})

	p.Check("scalar-mult", 1500, 60000, func(c *vk.C) {
		a := vPoint(c.T, "p")
		k := vScalar(c.T, 80)
		kk := new(big.Int).SetBytes(k)
		if !a.inf() && kk.BitLen() > 1 {
			c.NonTrivial(a.x, k)
		}
		c.Class(fmt.Sprintf("beyond-order-%v", kk.Cmp(vN) >= 0), fmt.Sprintf("longer-than-32-%v", len(k) > 32))
		c.Sample("%x·%v", k, a)
		want := vMul(a, new(big.Int).Mod(kk, vN))
		ax, ay := vBig(a)
		k0 := append([]byte{}, k...)
		x, y := S.ScalarMult(ax, ay, k)
		check(c, fmt.Sprintf("%x·%v", k, a), x, y, want)
		if !vFrom(ax, ay).eq(a) || !bytes.Equal(k, k0) {
			c.Fatalf("multiplying changed an operand: %v by %x", a, k0)
		}
		if !want.inf() && !S.IsOnCurve(x, y) {
			c.Fatalf("%x·%v is said to be off the curve", k, a)
		}
	})

	p.Check("base-mult", 2500, 120000, func(c *vk.C) {
		k := vScalar(c.T, 80)
		kk := new(big.Int).SetBytes(k)
		if kk.BitLen() > 1 {
			c.NonTrivial(k)
		}
		c.Class(fmt.Sprintf("beyond-order-%v", kk.Cmp(vN) >= 0), fmt.Sprintf("longer-than-32-%v", len(k) > 32))
		c.Sample("%x·G", k)
		want := vMul(vG, new(big.Int).Mod(kk, vN))
		k0 := append([]byte{}, k...)
		x, y := S.ScalarBaseMult(k)
		check(c, fmt.Sprintf("%x·G", k), x, y, want)
		if !bytes.Equal(k, k0) {
			c.Fatalf("multiplying changed the scalar %x", k0)
		}
		x, y = S.ScalarMult(vG.x, vG.y, k)
		check(c, fmt.Sprintf("%x·G by ScalarMult", k), x, y, want)
		if S.Gx.Cmp(vG.x) != 0 || S.Gy.Cmp(vG.y) != 0 {
			c.Fatalf("multiplying changed the base point")
		}
	})

	p.Check("on-curve", 6000, 300000, func(c *vk.C) {
		var x, y *big.Int
		kind := rapid.SampledFrom([]string{"on", "near", "any", "outside", "swapped"}).Draw(c.T, "kind")
		a := vPoint(c.T, "p")
		x, y = vBig(a)
		switch kind {
		case "near":
			x.Add(x, big.NewInt(int64(rapid.IntRange(-1, 1).Draw(c.T, "dx"))))
			y.Add(y, big.NewInt(int64(rapid.IntRange(-1, 1).Draw(c.T, "dy"))))
		case "any":
			x, y = vMod(vDrawInt(c.T, "x")), vMod(vDrawInt(c.T, "y"))
		case "outside":
			switch rapid.IntRange(0, 3).Draw(c.T, "how") {
			case 0:
				x.Add(x, vP)
			case 1:
				y.Add(y, vP)
			case 2:
				x.Neg(x)
			case 3:
				y.Neg(y)
			}
		case "swapped":
			x, y = y, x
		}
		c.Class(kind)
		if !a.inf() || kind != "on" {
			c.NonTrivial(x, y)
		}
		want := vOnCurve(x, y)
		c.Sample("(%x, %x) %v", x, y, want)
		x0, y0 := new(big.Int).Set(x), new(big.Int).Set(y)
		var got bool
		if msg := vk.Trap(func() { got = S.IsOnCurve(x, y) }); msg != "" {
			c.Fatalf("IsOnCurve(%x, %x) panics: %s", x, y, msg)
		}
		if got != want {
			c.Fatalf("IsOnCurve(%x, %x) = %v, want %v", x, y, got, want)
		}
		if x.Cmp(x0) != 0 || y.Cmp(y0) != 0 {
			c.Fatalf("IsOnCurve changed its operands")
		}
	})

	// the non-adjacent form and the split scalar stand for the scalar
	p.Check("representations", 6000, 300000, func(c *vk.C) {
		k := vScalar(c.T, 40)
		kk := new(big.Int).SetBytes(k)
		if kk.BitLen() > 1 {
			c.NonTrivial(k)
		}
		c.Sample("%x", k)
		pos, neg := NAF(k)
		got := new(big.Int).Sub(new(big.Int).SetBytes(pos), new(big.Int).SetBytes(neg))
		if got.Cmp(kk) != 0 {
			c.Fatalf("NAF(%x) = %x, %x stands for %x", k, pos, neg, got)
		}
		both := new(big.Int).Or(new(big.Int).SetBytes(pos), new(big.Int).SetBytes(neg))
		if len(pos) != len(neg) || new(big.Int).And(new(big.Int).SetBytes(pos), new(big.Int).SetBytes(neg)).Sign() != 0 ||
			new(big.Int).And(both, new(big.Int).Rsh(both, 1)).Sign() != 0 {
			c.Fatalf("NAF(%x) = %x, %x has adjacent digits", k, pos, neg)
		}
		if kk.BitLen() > 256 {
			return
		}
		k1, k2, s1, s2 := S.splitK(kk.Bytes())
		a, b := new(big.Int).SetBytes(k1), new(big.Int).SetBytes(k2)
		a.Mul(a, big.NewInt(int64(s1)))
		b.Mul(b, big.NewInt(int64(s2)))
		sum := new(big.Int).Mul(b, vLambda)
		sum.Add(sum, a)
		if sum.Sub(sum, kk).Mod(sum, vN).Sign() != 0 {
			c.Fatalf("%x is split into %x + %x·λ, which is not the same", k, a, b)
		}
	})

	// group laws on longer expressions
	p.Check("laws", 500, 20000, func(c *vk.C) {
		a, b := vPoint(c.T, "p"), vPoint(c.T, "q")
		k, l := vScalar(c.T, 34), vScalar(c.T, 34)
		if !a.inf() && !b.inf() {
			c.NonTrivial(a.x, b.x, k, l)
		}
		ax, ay := vBig(a)
		bx, by := vBig(b)
		mul := func(x, y *big.Int, k []byte) (*big.Int, *big.Int) { return S.ScalarMult(x, y, k) }
		// k(a+b) = ka + kb
		sx, sy := S.Add(ax, ay, bx, by)
		x1, y1 := mul(sx, sy, k)
		kax, kay := mul(ax, ay, k)
		kbx, kby := mul(bx, by, k)
		x2, y2 := S.Add(kax, kay, kbx, kby)
		if x1.Cmp(x2) != 0 || y1.Cmp(y2) != 0 {
			c.Fatalf("%x·(%v + %v) is not the sum of the products", k, a, b)
		}
		// (k+l)a = ka + la
		kl := new(big.Int).Add(new(big.Int).SetBytes(k), new(big.Int).SetBytes(l))
		x1, y1 = mul(ax, ay, kl.Bytes())
		lax, lay := mul(ax, ay, l)
		x2, y2 = S.Add(kax, kay, lax, lay)
		if x1.Cmp(x2) != 0 || y1.Cmp(y2) != 0 {
			c.Fatalf("(%x + %x)·%v is not the sum of the products", k, l, a)
		}
		if (x1.Sign() != 0 || y1.Sign() != 0) && !S.IsOnCurve(x1, y1) {
			c.Fatalf("(%x + %x)·%v is off the curve", k, l, a)
		}
	})
}
