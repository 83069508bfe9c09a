package kecp

// A textbook Keccak: the five step mappings over a 5×5 array, with the round
// constants and rotation offsets computed from their definitions.

import "encoding/binary"

var refRC [24]uint64
var refRot [5][5]uint

func init() {
	// rho offsets: walk (x,y) -> (y, 2x+3y), offset (t+1)(t+2)/2
	x, y := 1, 0
	for t := 0; t < 24; t++ {
		refRot[x][y] = uint((t + 1) * (t + 2) / 2 % 64)
		x, y = y, (2*x+3*y)%5
	}
	// iota constants: an 8-bit LFSR, bit 2^j-1 of round i is rc(j+7i)
	lfsr := byte(1)
	for i := range refRC {
		for j := uint(0); j <= 6; j++ {
			if lfsr&1 != 0 {
				refRC[i] |= 1 << (1<<j - 1)
			}
			hi := lfsr & 0x80
			lfsr <<= 1
			if hi != 0 {
				lfsr ^= 0x71
			}
		}
	}
}

func rotl(v uint64, n uint) uint64 { return v<<n | v>>(64-n) }

func refPermute(a *[5][5]uint64) {
	for _, rc := range refRC {
		var c [5]uint64
		for x := range c {
			c[x] = a[x][0] ^ a[x][1] ^ a[x][2] ^ a[x][3] ^ a[x][4]
		}
		for x := range a {
			d := c[(x+4)%5] ^ rotl(c[(x+1)%5], 1)
			for y := range a[x] {
				a[x][y] ^= d
			}
		}
		var b [5][5]uint64
		for x := range a {
			for y := range a[x] {
				b[y][(2*x+3*y)%5] = rotl(a[x][y], refRot[x][y])
			}
		}
		for x := range a {
			for y := range a[x] {
				a[x][y] = b[x][y] ^ ^b[(x+1)%5][y]&b[(x+2)%5][y]
			}
		}
		a[0][0] ^= rc
	}
}

// refKeccak squeezes n bytes out of msg with capacity 2*size.
func refKeccak(msg []byte, size, n int) []byte { return refSponge(msg, 1, size, n) }

// refSponge ends the message with the bits pad; SHA-3's are 110.
func refSponge(msg []byte, pad byte, size, n int) []byte {
	rate := 200 - 2*size
	p := append(append([]byte{}, msg...), pad)
	for len(p)%rate != 0 {
		p = append(p, 0)
	}
	p[len(p)-1] |= 0x80
	var a [5][5]uint64
	for ; len(p) > 0; p = p[rate:] {
		for i := 0; i < rate/8; i++ {
			a[i%5][i/5] ^= binary.LittleEndian.Uint64(p[8*i:])
		}
		refPermute(&a)
	}
	var out []byte
	for {
		for i := 0; i < rate/8; i++ {
			var w [8]byte
			binary.LittleEndian.PutUint64(w[:], a[i%5][i/5])
			out = append(out, w[:]...)
		}
		if len(out) >= n {
			return out[:n]
		}
		refPermute(&a)
	}
}
