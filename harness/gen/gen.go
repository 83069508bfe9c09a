// Package gen holds the generators the checks share.
package gen

import (
	"math/big"

	"github.com/philhofer/seth"
	"pgregory.net/rapid"
)

// Byte leans towards the values that codecs get wrong.
func Byte() *rapid.Generator[byte] {
	return rapid.OneOf(
		rapid.Byte(),
		rapid.SampledFrom([]byte{0, 0, 1, 0x0f, 0x10, 0x7f, 0x80, 0x81, 0xf0, 0xff}),
	)
}

// Bytes draws a slice whose length is in [min,max].
func Bytes(min, max int) *rapid.Generator[[]byte] {
	return rapid.Custom(func(t *rapid.T) []byte {
		n := rapid.IntRange(min, max).Draw(t, "len")
		// runs of zeros at either end are where truncation shows
		b := rapid.SliceOfN(Byte(), n, n).Draw(t, "bytes")
		switch rapid.IntRange(0, 5).Draw(t, "shape") {
		case 0:
			z := rapid.IntRange(0, n).Draw(t, "zeros")
			for i := 0; i < z; i++ {
				b[i] = 0
			}
		case 1:
			z := rapid.IntRange(0, n).Draw(t, "zeros")
			for i := n - z; i < n; i++ {
				b[i] = 0
			}
		}
		return b
	})
}

// Big draws a non-negative integer of at most bits bits, of every size.
func Big(bits int) *rapid.Generator[*big.Int] {
	return rapid.Custom(func(t *rapid.T) *big.Int {
		n := rapid.IntRange(0, bits).Draw(t, "bits")
		one := big.NewInt(1)
		kind := rapid.IntRange(0, 4).Draw(t, "kind")
		if kind == 4 { // full width
			n = bits
		}
		switch kind {
		case 0: // around a power of two
			x := new(big.Int).Lsh(one, uint(n))
			x.Add(x, big.NewInt(int64(rapid.IntRange(-2, 2).Draw(t, "delta"))))
			if x.Sign() < 0 {
				x.SetInt64(0)
			}
			if x.BitLen() > bits {
				x.Sub(new(big.Int).Lsh(one, uint(bits)), one)
			}
			return x
		case 1:
			return big.NewInt(int64(rapid.IntRange(0, 300).Draw(t, "small")) & (1<<uint(min(bits, 30)) - 1))
		default:
			b := rapid.SliceOfN(Byte(), (n+7)/8, (n+7)/8).Draw(t, "raw")
			x := new(big.Int).SetBytes(b)
			mask := new(big.Int).Sub(new(big.Int).Lsh(one, uint(n)), one)
			return x.And(x, mask)
		}
	})
}

// Int is Big as a seth.Int.
func Int(bits int) *rapid.Generator[seth.Int] {
	return rapid.Map(Big(bits), func(b *big.Int) seth.Int { return seth.Int(*b) })
}

// Uint64 draws all sizes of 64-bit values.
func Uint64() *rapid.Generator[uint64] {
	return rapid.Map(Big(64), func(b *big.Int) uint64 { return b.Uint64() })
}

// Address draws an address.
func Address() *rapid.Generator[seth.Address] {
	return rapid.Map(Bytes(20, 20), func(b []byte) (a seth.Address) { copy(a[:], b); return })
}

// Hash draws a hash.
func Hash() *rapid.Generator[seth.Hash] {
	return rapid.Map(Bytes(32, 32), func(b []byte) (a seth.Hash) { copy(a[:], b); return })
}

// Opt draws nil one time in three.
func Opt[T any](g *rapid.Generator[T]) *rapid.Generator[*T] {
	return rapid.Custom(func(t *rapid.T) *T {
		if rapid.IntRange(0, 2).Draw(t, "nil") == 0 {
			return nil
		}
		v := g.Draw(t, "val")
		return &v
	})
}
