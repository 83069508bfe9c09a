package kecp

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"hash"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"strings"
	"sync"
	"testing"

	"github.com/philhofer/seth/keccak"
	"golang.org/x/crypto/sha3"
	"pgregory.net/rapid"

	"verif/harness/gen"
	"verif/harness/vk"
)

type kind struct {
	size int
	mk   func() hash.Hash
	sum  func([]byte) []byte
}

var kinds = []kind{
	{28, keccak.New224, func(b []byte) []byte { s := keccak.Sum224(b); return s[:] }},
	{32, keccak.New256, func(b []byte) []byte { s := keccak.Sum256(b); return s[:] }},
	{48, keccak.New384, func(b []byte) []byte { s := keccak.Sum384(b); return s[:] }},
	{64, keccak.New512, func(b []byte) []byte { s := keccak.Sum512(b); return s[:] }},
}

func (k kind) rate() int { return 200 - 2*k.size }

func drawKind(t *rapid.T) kind {
	return kinds[rapid.SampledFrom([]int{1, 1, 1, 0, 2, 3}).Draw(t, "kind")]
}

// drawMsg draws a message whose length is anywhere, or at a block boundary.
func drawMsg(t *rapid.T, rate, max int) []byte {
	var n int
	switch rapid.IntRange(0, 2).Draw(t, "lenkind") {
	case 0:
		n = rapid.IntRange(0, 4).Draw(t, "blocks")*rate + rapid.IntRange(-9, 9).Draw(t, "off")
	case 1:
		n = rapid.IntRange(0, max).Draw(t, "len")
	default:
		n = rapid.IntRange(0, rate+1).Draw(t, "len")
	}
	if n < 0 {
		n = 0
	}
	if n > max {
		n = max
	}
	switch rapid.IntRange(0, 3).Draw(t, "fill") {
	case 0:
		return bytes.Repeat([]byte{gen.Byte().Draw(t, "byte")}, n)
	default:
		// a window over pseudorandom bytes: drawing them one by one is slow
		seed := rapid.Uint64().Draw(t, "seed")
		b := make([]byte, n)
		for i := range b {
			seed = seed*6364136223846793005 + 1442695040888963407
			b[i] = byte(seed >> 56)
		}
		return b
	}
}

// at lays b out at an address with the given remainder.
func at(b []byte, off int) []byte {
	m := make([]byte, off+len(b)+16)
	copy(m[off:], b)
	return m[off : off+len(b) : off+len(b)]
}

func TestC38(t *testing.T) {
	p := vk.Start(t, "C38", "the message is not empty (one-shot), or at least two writes and a digest in between (sequences)",
		"writing after Read is refused by a panic, as the code documents; a digest after Read is unspecified",
		"the portable implementation is compiled in by the build tag appengine and checked the same way")

	p.Enumerate("lengths", func(t *testing.T, e *vk.E) {
		// every length over four blocks of the widest rate
		for _, k := range kinds {
			for n := 0; n <= 4*144+8; n++ {
				msg := make([]byte, n)
				for i := range msg {
					msg[i] = byte(i*7 + n)
				}
				e.Eval()
				if n > 0 {
					e.NonTrivial(fmt.Sprint(k.size, n))
				}
				want := refKeccak(msg, k.size, k.size)
				if got := k.sum(msg); !bytes.Equal(got, want) {
					t.Fatalf("Keccak-%d of %d bytes %x is %x, want %x", k.size*8, n, msg, got, want)
				}
				for _, m := range []int{1, 7, 8, k.rate() - 1, k.rate(), k.rate() + 1} {
					h := k.mk()
					for i := 0; i < n; i += m {
						h.Write(msg[i:min(i+m, n)])
					}
					if got := h.Sum(nil); !bytes.Equal(got, want) {
						t.Fatalf("Keccak-%d of %d bytes written %d at a time is %x, want %x", k.size*8, n, m, got, want)
					}
				}
			}
		}
		for in, want := range map[string]string{
			"":    "c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470",
			"abc": "4e03657aea45a94fc7d47ba826c8d667c0d1e6e33a64a036ec44f58fa12d6c45",
		} {
			if got := keccak.Sum256([]byte(in)); hex.EncodeToString(got[:]) != want {
				t.Fatalf("Keccak-256 of %q is %x, want %s", in, got, want)
			}
		}
	})

	p.Check("one-shot", 15000, 450000, func(c *vk.C) {
		k := drawKind(c.T)
		msg := drawMsg(c.T, k.rate(), 2000)
		if len(msg) > 0 {
			c.NonTrivial(k.size, msg)
		}
		c.Sample("Keccak-%d of %d bytes", k.size*8, len(msg))
		want := refKeccak(msg, k.size, k.size)
		// the oracle agrees with another one
		var std hash.Hash
		switch k.size {
		case 32:
			std = sha3.NewLegacyKeccak256()
		case 64:
			std = sha3.NewLegacyKeccak512()
		}
		if std != nil {
			std.Write(msg)
			if got := std.Sum(nil); !bytes.Equal(got, want) {
				panic(fmt.Sprintf("HARNESS-ERROR: references disagree on %x", msg))
			}
		}
		m := at(msg, rapid.IntRange(0, 8).Draw(c.T, "align"))
		if got := k.sum(m); !bytes.Equal(got, want) {
			c.Fatalf("Keccak-%d of %d bytes %x is %x, want %x", k.size*8, len(msg), msg, got, want)
		}
		if !bytes.Equal(m, msg) {
			c.Fatalf("hashing changed the message")
		}
	})

	p.Check("large", 30, 600, func(c *vk.C) {
		k := drawKind(c.T)
		n := rapid.SampledFrom([]int{1 << 14, 1 << 16, 1 << 17, 1 << 20}).Draw(c.T, "about") + rapid.IntRange(-200, 5000).Draw(c.T, "more")
		seed := rapid.Int64().Draw(c.T, "seed")
		msg := make([]byte, n)
		rand.New(rand.NewSource(seed)).Read(msg)
		want := refKeccak(msg, k.size, k.size)
		if got := k.sum(msg); !bytes.Equal(got, want) {
			c.Fatalf("Keccak-%d of %d bytes (seed %d) is %x, want %x", k.size*8, n, seed, got, want)
		}
		h := k.mk()
		var parts []int
		for rest := msg; len(rest) > 0; {
			m := rapid.SampledFrom([]int{1, k.rate() - 1, k.rate(), 4096, 1 << 16, 1<<16 + 1, 1 << 20, 1 << 22}).Draw(c.T, "part")
			if len(parts) > 40 {
				m = len(rest)
			}
			m = min(m, len(rest))
			if w, err := h.Write(rest[:m]); w != m || err != nil {
				c.Fatalf("writing %d bytes says %d, %v", m, w, err)
			}
			parts, rest = append(parts, m), rest[m:]
		}
		if got := h.Sum(nil); !bytes.Equal(got, want) {
			c.Fatalf("Keccak-%d of %d bytes (seed %d) written as %v is %x, want %x", k.size*8, n, seed, parts, got, want)
		}
		c.NonTrivial(k.size, n, seed)
		c.Sample("Keccak-%d of %d bytes written as %v", k.size*8, n, parts)
	})

	p.Check("sequences", 15000, 360000, func(c *vk.C) {
		type one struct {
			k   kind
			h   hash.Hash
			msg []byte
		}
		var hs []*one
		for n := rapid.IntRange(1, 4).Draw(c.T, "hashers"); n > 0; n-- {
			k := drawKind(c.T)
			hs = append(hs, &one{k, k.mk(), nil})
		}
		var log []string
		writes, mid := 0, 0
		check := func(i int, what string) {
			h := hs[i]
			want := refKeccak(h.msg, h.k.size, h.k.size)
			pre := gen.Bytes(0, 5).Draw(c.T, "prefix")
			buf := make([]byte, len(pre), len(pre)+rapid.SampledFrom([]int{0, 3, 64, 300}).Draw(c.T, "spare"))
			copy(buf, pre)
			got := h.h.Sum(buf)
			if !bytes.Equal(got, append(append([]byte{}, pre...), want...)) {
				c.Fatalf("%s after %v: Keccak-%d of %x appended to %x gives %x, want %x", what, log, h.k.size*8, h.msg, pre, got, want)
			}
			if !bytes.Equal(buf, pre) {
				c.Fatalf("Sum changed its prefix")
			}
		}
		for n := rapid.IntRange(1, 16).Draw(c.T, "ops"); n > 0; n-- {
			i := rapid.IntRange(0, len(hs)-1).Draw(c.T, "hasher")
			h := hs[i]
			switch op := rapid.SampledFrom([]string{"write", "write", "write", "sum", "reset", "size"}).Draw(c.T, "op"); op {
			case "write":
				b := drawMsg(c.T, h.k.rate(), 700)
				m := at(b, rapid.IntRange(0, 8).Draw(c.T, "align"))
				log = append(log, fmt.Sprintf("%d.write(%d)", i, len(b)))
				if n, err := h.h.Write(m); n != len(b) || err != nil {
					c.Fatalf("Write of %d bytes returns %d, %v", len(b), n, err)
				}
				if !bytes.Equal(m, b) {
					c.Fatalf("Write changed its argument")
				}
				for j := range m { // the caller may reuse it
					m[j] = 0xa5
				}
				h.msg = append(h.msg, b...)
				writes++
			case "sum":
				log = append(log, fmt.Sprintf("%d.sum", i))
				check(i, "digest")
				mid++
			case "reset":
				log = append(log, fmt.Sprintf("%d.reset", i))
				h.h.Reset()
				h.msg = nil
			case "size":
				if h.h.Size() != h.k.size || h.h.BlockSize() != h.k.rate() {
					c.Fatalf("Keccak-%d has size %d, block size %d", h.k.size*8, h.h.Size(), h.h.BlockSize())
				}
			}
		}
		if writes >= 2 && mid >= 1 {
			c.NonTrivial(log)
		}
		c.Class(fmt.Sprintf("hashers-%d", len(hs)))
		c.Sample("%v", log)
		for i := range hs {
			check(i, "last digest")
		}
		// reading the output as a stream
		i := rapid.IntRange(0, len(hs)-1).Draw(c.T, "reader")
		h := hs[i]
		r, ok := h.h.(io.Reader)
		if !ok {
			return
		}
		total := rapid.IntRange(0, 500).Draw(c.T, "stream")
		want := refKeccak(h.msg, h.k.size, total+1)[:total]
		var got []byte
		for len(got) < total {
			b := make([]byte, rapid.IntRange(1, total-len(got)).Draw(c.T, "chunk"))
			n, err := r.Read(b)
			if n != len(b) || err != nil {
				c.Fatalf("Read of %d bytes returns %d, %v", len(b), n, err)
			}
			got = append(got, b...)
		}
		if !bytes.Equal(got, want) {
			c.Fatalf("after %v: %d bytes of output of Keccak-%d of %x are %x, want %x", log, total, h.k.size*8, h.msg, got, want)
		}
		if rapid.Bool().Draw(c.T, "again") {
			h.h.Reset()
			h.msg = drawMsg(c.T, h.k.rate(), 400)
			h.h.Write(h.msg)
			log = append(log, fmt.Sprintf("%d.read(%d) %d.reset %d.write(%d)", i, total, i, i, len(h.msg)))
			for j := range hs {
				if j == i || hs[j] != h {
					check(j, "digest after reading and resetting")
				}
			}
		}
	})

	p.Check("bystanders", 20, 300, func(c *vk.C) {
		// programs that import the package have other uses for hashes:
		// what is registered as SHA-3, if anything is, is SHA-3
		var msgs [][]byte
		var in bytes.Buffer
		for i := rapid.IntRange(1, 60).Draw(c.T, "messages"); i > 0; i-- {
			m := drawMsg(c.T, drawKind(c.T).rate(), 1500)
			msgs = append(msgs, m)
			fmt.Fprintf(&in, "%x\n", m)
		}
		cmd := exec.Command(os.Getenv("VK_BIN_ONLY"))
		cmd.Stdin = &in
		b, err := cmd.CombinedOutput()
		lines := strings.Split(strings.TrimRight(string(b), "\n"), "\n")
		if err != nil || len(lines) != len(msgs) {
			c.Fatalf("the program prints %d lines for %d messages: %v: %.300s", len(lines), len(msgs), err, b)
		}
		for i, m := range msgs {
			f := strings.Fields(lines[i])
			if len(f) != 5 || f[0] != hex.EncodeToString(refKeccak(m, 32, 32)) {
				c.Fatalf("Keccak-256 and others of %x: %q", m, lines[i])
			}
			for j, size := range []int{28, 32, 48, 64} {
				if want := hex.EncodeToString(refSponge(m, 6, size, size)); f[j+1] != "-" && f[j+1] != want {
					c.Fatalf("in a program with the package, crypto.SHA3_%d of %x is %s, want %s", 8*size, m, f[j+1], want)
				}
			}
			if len(m) > 0 {
				c.NonTrivial(m)
			}
		}
		c.Sample("%d messages: %.200s", len(msgs), lines[0])
	})

	p.Check("concurrent", 300, 6000, func(c *vk.C) {
		n := rapid.IntRange(2, 6).Draw(c.T, "goroutines")
		msgs, ks := make([][]byte, n), make([]kind, n)
		for i := range msgs {
			ks[i] = drawKind(c.T)
			msgs[i] = drawMsg(c.T, ks[i].rate(), 1500)
		}
		c.NonTrivial(msgs)
		errs := make([]string, n)
		var wg sync.WaitGroup
		for i := range msgs {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				want := refKeccak(msgs[i], ks[i].size, ks[i].size)
				h := ks[i].mk()
				for round := 0; round < 20; round++ {
					for j := 0; j < len(msgs[i]); j += 61 {
						h.Write(msgs[i][j:min(j+61, len(msgs[i]))])
					}
					if got := h.Sum(nil); !bytes.Equal(got, want) {
						errs[i] = fmt.Sprintf("Keccak-%d of %x is %x, want %x, with others hashing", ks[i].size*8, msgs[i], got, want)
					}
					h.Reset()
				}
			}(i)
		}
		wg.Wait()
		for _, e := range errs {
			if e != "" {
				c.Fatalf("%s", e)
			}
		}
	})
}
