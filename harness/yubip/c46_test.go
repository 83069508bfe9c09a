//go:build yubihsm

package yubip

import (
	"bytes"
	"crypto/ecdsa"
	"encoding/asn1"
	"encoding/hex"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/ethereum/go-ethereum/common/math"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/philhofer/seth"
	"github.com/philhofer/seth/yubihsm"
	"pgregory.net/rapid"

	"verif/harness/gen"
	"verif/harness/vk"
)

func check(err error) {
	if err != nil {
		panic("HARNESS-ERROR " + err.Error())
	}
}

var (
	order = crypto.S256().Params().N
	half  = new(big.Int).Rsh(order, 1)
)

// The numbers the SDK's header gives these.
const (
	tAuth, tAsym, tHMAC       = 2, 3, 5
	aP256, aK256, aEd         = 12, 15, 46
	bitECDSA, bitGen, bitEdDS = 7, 4, 8
)

// object is something on the device; key is set for secp256k1 keys.
type object struct {
	id, typ, domains, algo int
	bits                   []int
	label                  string
	key                    *ecdsa.PrivateKey
	pub                    []byte
}

func (o *object) caps() []byte {
	b := make([]byte, 8)
	for _, n := range o.bits {
		b[7-n/8] |= 1 << uint(n%8)
	}
	return b
}

// signs: the driver is to offer this object.
func (o *object) signs() bool {
	if o.typ != tAsym || o.algo != aK256 {
		return false
	}
	for _, n := range o.bits {
		if n == bitECDSA {
			return true
		}
	}
	return false
}

type sigEntry struct {
	id   int
	hash []byte
	der  []byte
}

type device struct {
	url, pass string
	refuse    string
	objs      []*object
	sigs      []sigEntry
	spares    []*object
}

func (d *device) write(dir string) string {
	var b bytes.Buffer
	fmt.Fprintf(&b, "url %s\npass %x\nrefuse %s\n", d.url, d.pass, d.refuse)
	for _, o := range d.objs {
		fmt.Fprintf(&b, "obj %d %d %d %x %d %s %s\n", o.id, o.typ, o.domains, o.caps(), o.algo, hexor(o.label), hexor(string(o.pub)))
	}
	for _, s := range d.spares {
		fmt.Fprintf(&b, "spare %d %x\n", s.id, s.pub)
	}
	for _, s := range d.sigs {
		fmt.Fprintf(&b, "sig %d %x %s\n", s.id, s.hash, hexor(string(s.der)))
	}
	p := filepath.Join(dir, "device")
	check(os.WriteFile(p, b.Bytes(), 0666))
	return p
}

// an empty field is written as a lone dash, which is no hex
func hexor(s string) string {
	if s == "" {
		return "-"
	}
	return hex.EncodeToString([]byte(s))
}

func genPriv(t *rapid.T) *ecdsa.PrivateKey {
	for {
		if p, err := crypto.ToECDSA(gen.Bytes(32, 32).Draw(t, "key")); err == nil {
			return p
		}
	}
}

func genObject(t *rapid.T, id int) *object {
	o := &object{id: id, typ: rapid.SampledFrom([]int{tAsym, tAsym, tAsym, tAsym, tAuth, tHMAC}).Draw(t, "type"),
		domains: rapid.IntRange(1, 1<<16-1).Draw(t, "domains"), algo: rapid.SampledFrom([]int{aK256, aK256, aK256, aP256, aEd}).Draw(t, "algo"),
		label: rapid.StringMatching(`[a-z ]{0,39}[a-z]|`).Draw(t, "label")}
	for _, n := range []int{bitECDSA, bitECDSA, bitGen, bitEdDS, 16, 28, 0} {
		if rapid.Bool().Draw(t, "cap") {
			o.bits = append(o.bits, n)
		}
	}
	o.pub = gen.Bytes(64, 64).Draw(t, "other public key")
	if o.algo == aK256 {
		o.key = genPriv(t)
		o.pub = crypto.FromECDSAPub(&o.key.PublicKey)[1:]
	}
	return o
}

func genDevice(t *rapid.T, min int) *device {
	d := &device{pass: rapid.SampledFrom([]string{"password", "p", "pass word", "päss"}).Draw(t, "pass"),
		url:    rapid.SampledFrom([]string{seth.ConnectorURL, "http://10.0.0.1:1", "https://hsm.example/x"}).Draw(t, "url"),
		refuse: rapid.SampledFrom([]string{"create", "auth"}).Draw(t, "refuse")}
	ids := map[int]bool{}
	for i, n := 0, rapid.IntRange(min, 6).Draw(t, "objects"); i < n; i++ {
		id := rapid.OneOf(rapid.IntRange(1, 12), rapid.IntRange(1, 0xffff)).Draw(t, "id")
		if ids[id] {
			continue
		}
		ids[id] = true
		if len(d.objs) == 0 && !oneIn(t, 6, "as it comes") {
			o := genObject(t, id)
			for !o.signs() {
				o = genObject(t, id)
			}
			d.objs = append(d.objs, o)
			continue
		}
		d.objs = append(d.objs, genObject(t, id))
	}
	return d
}

func (d *device) keys() (out []*object) {
	for _, o := range d.objs {
		if o.signs() {
			out = append(out, o)
		}
	}
	return
}

func mul(a, b *big.Int) *big.Int { x := new(big.Int).Mul(a, b); return x.Mod(x, order) }

// sign makes the device's signature of hash: kind "good", "high" (s in the
// upper half) or "opposite" (hash is chosen so that the other recovery bit
// gives the point at infinity).
func sign(t *rapid.T, key *ecdsa.PrivateKey, hash []byte, kind string) (h []byte, r, s *big.Int) {
	for {
		k := genPriv(t)
		r = new(big.Int).Mod(k.PublicKey.X, order)
		if kind == "opposite" {
			z := mul(r, key.D)
			z = mul(z, new(big.Int).ModInverse(big.NewInt(-2), order))
			hash = math.PaddedBigBytes(z, 32)
		}
		z := new(big.Int).SetBytes(hash)
		s = mul(new(big.Int).Add(z, mul(r, key.D)), new(big.Int).ModInverse(k.D, order))
		if r.Sign() == 0 || s.Sign() == 0 {
			continue
		}
		if (s.Cmp(half) > 0) != (kind == "high") && kind != "opposite" {
			s = new(big.Int).Sub(order, s)
		}
		return hash, r, s
	}
}

func der(r, s *big.Int) []byte {
	b, err := asn1.Marshal(struct{ R, S *big.Int }{r, s})
	check(err)
	return b
}

// genSig adds what the device answers for one hash; ok: it is a signature.
func genSig(t *rapid.T, d *device, o *object) (hash []byte, ok bool, kind string) {
	hash = gen.Bytes(32, 32).Draw(t, "hash")
	kind = rapid.SampledFrom([]string{"good", "good", "high", "high", "opposite", "stranger", "trailing", "garbage", "empty", "zero", "large", "negative", "wide", "none", "changed"}).Draw(t, "signature")
	h, r, s := sign(t, o.key, hash, kind)
	hash = h
	for _, e := range d.sigs {
		if e.id == o.id && bytes.Equal(e.hash, hash) {
			return genSig(t, d, o)
		}
	}
	var b []byte
	switch kind {
	case "good", "high", "opposite":
		b, ok = der(r, s), true
	case "stranger":
		_, r, s = sign(t, genPriv(t), hash, "good")
		b = der(r, s)
	case "trailing":
		b = append(der(r, s), gen.Bytes(1, 4).Draw(t, "more")...)
	case "garbage":
		b = gen.Bytes(1, 72).Draw(t, "der")
	case "empty":
	case "zero":
		z := big.NewInt(0)
		b = rapid.SampledFrom([][]byte{der(z, s), der(r, z), der(z, z)}).Draw(t, "der")
	case "large":
		b = rapid.SampledFrom([][]byte{der(order, s), der(r, order), der(new(big.Int).Add(r, order), s), der(r, new(big.Int).Add(s, order))}).Draw(t, "der")
	case "negative":
		b = rapid.SampledFrom([][]byte{der(new(big.Int).Neg(r), s), der(r, new(big.Int).Neg(s))}).Draw(t, "der")
	case "wide":
		w := new(big.Int).Lsh(big.NewInt(1), uint(rapid.IntRange(256, 600).Draw(t, "bits")))
		b = rapid.SampledFrom([][]byte{der(w, s), der(r, w), der(w, w), der(new(big.Int).Add(w, r), s)}).Draw(t, "der")
	case "changed":
		s = new(big.Int).Xor(s, new(big.Int).Lsh(big.NewInt(1), uint(rapid.IntRange(0, 250).Draw(t, "bit"))))
		b = der(r, s)
	case "none":
		return hash, false, kind
	}
	d.sigs = append(d.sigs, sigEntry{o.id, hash, b})
	return hash, ok, kind
}

func scratch() string {
	d, err := os.MkdirTemp(os.Getenv("VK_SCRATCH"), "hsm")
	check(err)
	return d
}

// find is FindHSM with the device's URL among the hints where it needs one.
func find(t *rapid.T, d *device) seth.HSM {
	var hints []string
	if rapid.Bool().Draw(t, "other hint") {
		hints = append(hints, "slot=1")
	}
	if d.url != seth.ConnectorURL || rapid.Bool().Draw(t, "say so") {
		hints = append(hints, d.url)
	}
	return seth.FindHSM("yubihsm", hints...)
}

// right tells whether sig is key's canonical signature of hash.
func right(sig *seth.Signature, hash []byte, o *object) string {
	b := append([]byte{}, sig[:]...)
	if b[64] > 1 {
		return fmt.Sprintf("recovery byte %d", b[64])
	}
	if new(big.Int).SetBytes(b[32:64]).Cmp(half) > 0 {
		return "s is in the upper half"
	}
	pub, err := crypto.Ecrecover(hash, b)
	if err != nil {
		return err.Error()
	}
	if !bytes.Equal(pub[1:], o.pub) {
		return "it recovers to another key"
	}
	return ""
}

func TestC46(t *testing.T) {
	p := vk.Start(t, "C46", "devices of up to six objects (secp256k1 keys that may sign, ones that may not, other objects) behind a stand-in for the SDK's library; histories of unlocking with right and wrong passwords, listing and signing, in which library calls fail at drawn points and the device may answer with what is no signature by the key; non-trivial: a distinct signature made",
		"the device library is a stand-in written from the SDK's header: it is the driver that is checked, not the SDK or a device",
		"go-ethereum v1.9.2 crypto recovers")
	dir := scratch()
	defer os.RemoveAll(dir)

	p.Check("histories", 2500, 60000, func(c *vk.C) {
		d := genDevice(c.T, 0)
		type plan struct {
			o    *object
			hash []byte
			ok   bool
			kind string
		}
		var plans []plan
		ks := d.keys()
		if len(ks) > 0 {
			for i := rapid.IntRange(1, 5).Draw(c.T, "messages"); i > 0; i-- {
				q := plan{o: rapid.SampledFrom(ks).Draw(c.T, "signer")}
				q.hash, q.ok, q.kind = genSig(c.T, d, q.o)
				plans = append(plans, q)
			}
		}
		check(os.Setenv("VK_YUBI_DEVICE", d.write(dir)))
		Disarm()
		trace := []string{}
		step := func(f string, a ...interface{}) { trace = append(trace, fmt.Sprintf(f, a...)) }
		fail := func(f string, a ...interface{}) {
			c.Fatalf("%s\nafter %s\non a device at %s with %d keys of %d objects", fmt.Sprintf(f, a...), strings.Join(trace, "; "), d.url, len(ks), len(d.objs))
		}
		if seth.FindHSM("nohsm", d.url) != nil {
			fail("an unknown driver was found")
		}
		if !oneIn(c.T, 8, "at its place") {
			if h := seth.FindHSM("yubihsm", "http://nowhere"); h != nil {
				fail("a device was found at another URL")
			}
		}
		h := find(c.T, d)
		if h == nil {
			fail("the device was not found")
		}
		unlocked := false
		type held struct {
			fn   seth.Signer
			o    *object
			live bool
		}
		var signers []*held
		listed := func(pks []seth.HSMKey) {
			if len(pks) != len(ks) {
				fail("%d keys listed", len(pks))
			}
			for i, k := range ks {
				if pks[i].ID != fmt.Sprintf("yubihsm:%d", k.id) || !bytes.Equal(pks[i].Public[:], k.pub) {
					fail("key %d is listed as %s %x, not yubihsm:%d %x", i, pks[i].ID, pks[i].Public[:], k.id, k.pub)
				}
			}
		}
		loaded := false // the keys have been listed once
		var first []string
		if !oneIn(c.T, 4, "from scratch") {
			first = []string{"unlock", "keys", "signer", "sign"}
		}
		for i := len(first) + rapid.IntRange(2, 12).Draw(c.T, "steps"); i > 0; i-- {
			op := ""
			if len(first) > 0 {
				op, first = first[0], first[1:]
			} else {
				op = rapid.SampledFrom([]string{"unlock", "unlock", "wrong", "keys", "keys", "signer", "signer", "sign", "sign", "sign", "sign", "fault"}).Draw(c.T, "step")
			}
			fault := ""
			if op == "fault" {
				op = rapid.SampledFrom([]string{"unlock", "keys", "keys", "sign"}).Draw(c.T, "failing step")
				fault = rapid.SampledFrom(map[string][]string{"unlock": {"create_session", "authenticate"}, "keys": {"list_objects", "get_pubkey", "get_pubkey"}, "sign": {"sign_ecdsa"}}[op]).Draw(c.T, "call")
				Arm(fault, rapid.IntRange(1, 3).Draw(c.T, "nth"), -rapid.IntRange(1, 10).Draw(c.T, "code"))
			}
			failed := func() bool { return fault != "" && Disarm() }
			switch op {
			case "unlock":
				step("unlock")
				err := h.Unlock([]byte(d.pass))
				if failed() {
					step("(%s failed)", fault)
					if err == nil {
						fail("unlocking reported no error")
					}
					unlocked = false
				} else if err != nil {
					fail("unlocking: %v", err)
				} else {
					unlocked = true
				}
				for _, s := range signers {
					s.live = false
				}
			case "wrong":
				pw := rapid.SampledFrom([]string{"", d.pass + "x", d.pass[:len(d.pass)-1], "other", strings.ToUpper(d.pass) + "1"}).Draw(c.T, "password")
				step("unlock with %q", pw)
				if err := h.Unlock([]byte(pw)); err == nil {
					fail("the wrong password was accepted")
				}
				// whether the old session survives is not specified
				if h.Unlock([]byte(d.pass)) != nil {
					fail("the right password was refused after the wrong one")
				}
				unlocked = true
				for _, s := range signers {
					s.live = false
				}
			case "keys":
				step("list")
				pks, err := h.Pubkeys()
				if failed() {
					step("(%s failed)", fault)
					if err == nil {
						fail("a list of %d keys was given", len(pks))
					}
				} else if !unlocked {
					if err == nil {
						fail("a locked device listed %d keys", len(pks))
					}
				} else if err != nil {
					fail("listing: %v", err)
				} else {
					loaded = true
					listed(pks)
				}
			case "signer":
				if !unlocked || !loaded || len(ks) == 0 {
					continue
				}
				if oneIn(c.T, 4, "unknown") {
					id := rapid.SampledFrom([]string{"", "yubihsm:", "yubihsm:0", "yubihsm:70000", fmt.Sprint(ks[0].id), fmt.Sprintf("yubihsm:%d0", ks[0].id) + "0000"}).Draw(c.T, "id")
					step("signer of %q", id)
					if _, err := h.Signer(&seth.HSMKey{ID: id}); err == nil {
						fail("there is a signer for %q", id)
					}
					continue
				}
				o := rapid.SampledFrom(ks).Draw(c.T, "key")
				step("signer of %d", o.id)
				var fn seth.Signer
				var err error
				if rapid.Bool().Draw(c.T, "from the list") {
					pks, e := h.Pubkeys()
					if e != nil {
						fail("listing: %v", e)
					}
					for i := range pks {
						if bytes.Equal(pks[i].Public[:], o.pub) {
							fn, err = h.Signer(&pks[i])
						}
					}
				} else {
					fn, err = h.Signer(&seth.HSMKey{ID: fmt.Sprintf("yubihsm:%d", o.id)})
				}
				if err != nil || fn == nil {
					fail("no signer for key %d: %v", o.id, err)
				}
				signers = append(signers, &held{fn, o, true})
			case "sign":
				if len(signers) == 0 || len(plans) == 0 {
					continue
				}
				s := rapid.SampledFrom(signers).Draw(c.T, "with")
				q := rapid.SampledFrom(plans).Draw(c.T, "message")
				var sum seth.Hash
				copy(sum[:], q.hash)
				before := sum
				step("key %d signs %x (%s)", s.o.id, q.hash[:4], q.kind)
				var sig *seth.Signature
				var err error
				if m := vk.Trap(func() { sig, err = s.fn(&sum) }); m != "" {
					fail("%s", m)
				}
				if sum != before {
					fail("signing changed the hash")
				}
				switch {
				case failed():
					step("(%s failed)", fault)
					if err == nil {
						fail("a failing device signed")
					}
				case err == nil:
					// of whatever the device said, only a signature by the key may come out
					if w := right(sig, q.hash, s.o); w != "" {
						fail("key %d's signature of %x is %x: %s", s.o.id, q.hash, sig[:], w)
					}
					c.NonTrivial(sig[:])
					c.Class(q.kind)
					c.Sample("%s", strings.Join(trace, "; "))
				case s.live && q.ok && q.o == s.o:
					fail("the device's signature was refused: %v", err)
				default:
					c.Class("refused " + q.kind)
				}
			}
			Disarm()
		}
	})

	p.Check("dropped", 12, 300, func(c *vk.C) {
		// the driver's own objects become garbage while the device signs
		d := &device{url: seth.ConnectorURL, pass: "password", refuse: "auth"}
		o := &object{id: 3, typ: tAsym, domains: 1, algo: aK256, bits: []int{bitECDSA}, key: genPriv(c.T)}
		o.pub = crypto.FromECDSAPub(&o.key.PublicKey)[1:]
		d.objs = []*object{o}
		h, r, s := sign(c.T, o.key, gen.Bytes(32, 32).Draw(c.T, "hash"), "good")
		d.sigs = []sigEntry{{3, h, der(r, s)}}
		check(os.Setenv("VK_YUBI_DEVICE", d.write(dir)))
		Slow(rapid.IntRange(10, 30).Draw(c.T, "ms"))
		defer Slow(0)
		stop, done := make(chan bool), make(chan bool)
		go func() {
			defer close(done)
			for {
				select {
				case <-stop:
					return
				case <-time.After(time.Millisecond):
					runtime.GC()
				}
			}
		}()
		var sum seth.Hash
		copy(sum[:], h)
		sig, err := signer(c)(&sum)
		close(stop)
		<-done
		if err != nil {
			c.Fatalf("signing: %v", err)
		}
		if w := right(sig, h, o); w != "" {
			c.Fatalf("signature %x: %s", sig[:], w)
		}
		c.NonTrivial(sig[:])
	})

	p.Check("library", 1500, 40000, func(c *vk.C) { library(c, dir) })
	p.Check("eth", 120, 4000, eth)
}

func signer(c *vk.C) seth.Signer {
	y := seth.FindHSM("yubihsm")
	if y == nil {
		c.Fatalf("no device")
	}
	if err := y.Unlock([]byte("password")); err != nil {
		c.Fatalf("unlock: %v", err)
	}
	ks, err := y.Pubkeys()
	if err != nil || len(ks) != 1 {
		c.Fatalf("%d keys: %v", len(ks), err)
	}
	fn, err := y.Signer(&ks[0])
	if err != nil {
		c.Fatalf("signer: %v", err)
	}
	return fn
}

func oneIn(t *rapid.T, n int, label string) bool { return rapid.IntRange(0, n-1).Draw(t, label) == 0 }

var capNames = map[int]string{0: "asymmetric_sign_decrypt_all", 4: "asymmetric_gen", 7: "asymmetric_sign_ecdsa", 8: "asymmetric_sign_eddsa", 16: "export_under_wrap", 28: "reset"}

// library checks the wrapper itself.
func library(c *vk.C, dir string) {
	d := genDevice(c.T, 0)
	spare := &object{id: 0xfff0, typ: tAsym, algo: aK256, key: genPriv(c.T)}
	spare.pub = crypto.FromECDSAPub(&spare.key.PublicKey)[1:]
	d.spares = []*object{spare}
	d.refuse = "create"
	keyed := rapid.Bool().Draw(c.T, "by keys")
	if keyed {
		d.pass = string(gen.Bytes(32, 32).Draw(c.T, "keys"))
	}
	check(os.Setenv("VK_YUBI_DEVICE", d.write(dir)))
	Disarm()
	conn, err := yubihsm.Connect(d.url)
	if err != nil {
		c.Fatalf("connecting: %v", err)
	}
	if _, err := yubihsm.Connect(d.url + "x"); err != yubihsm.ErrConnectorNotFound {
		c.Fatalf("connecting elsewhere: %v", err)
	}
	// the device is the one last connected to, so connect again
	if conn, err = yubihsm.Connect(d.url); err != nil {
		c.Fatalf("connecting: %v", err)
	}
	var ctx yubihsm.Context
	var s *yubihsm.Session
	if keyed {
		s, err = conn.NewSession(1, []byte(d.pass[:16]), []byte(d.pass[16:]), rapid.Bool().Draw(c.T, "recreate"), &ctx)
	} else {
		s, err = conn.NewDerivedSession(1, []byte(d.pass), rapid.Bool().Draw(c.T, "recreate"), &ctx)
	}
	if err != nil {
		c.Fatalf("session: %v", err)
	}
	if _, err := s.ListObjects(nil); err != yubihsm.ErrInvalidSession {
		c.Fatalf("listing before authenticating: %v", err)
	}
	if err := s.Authenticate(&ctx); err != nil {
		c.Fatalf("authenticating: %v", err)
	}
	if _, err := conn.NewDerivedSession(2, []byte("x"), false, &ctx); err != yubihsm.ErrObjectNotFound {
		c.Fatalf("session with a missing key: %v", err)
	}
	if rapid.Bool().Draw(c.T, "generate") {
		o := &object{id: spare.id, typ: tAsym, algo: aK256, key: spare.key, pub: spare.pub, bits: []int{bitECDSA, bitGen}[:rapid.IntRange(0, 2).Draw(c.T, "caps")],
			label: rapid.StringMatching(`[a-z ]{0,39}[a-z]|`).Draw(c.T, "new label")}
		var doms []int
		for n := 1; n <= 16; n++ {
			if rapid.Bool().Draw(c.T, "domain") {
				doms, o.domains = append(doms, n), o.domains|1<<uint(n-1)
			}
		}
		if got := yubihsm.Domains(doms...); got != o.domains {
			c.Fatalf("Domains(%v) is %#x", doms, got)
		}
		var names []string
		for _, n := range o.bits {
			names = append(names, capNames[n])
		}
		caps, err := yubihsm.CapabilitiesByName(names...)
		if err != nil {
			c.Fatalf("capabilities %v: %v", names, err)
		}
		id, err := s.GenerateECKey(o.label, o.domains, caps, yubihsm.AlgoECK256)
		if err != nil || id != o.id {
			c.Fatalf("generating: %d, %v", id, err)
		}
		d.objs = append(d.objs, o)
	}
	if _, err := s.GenerateECKey("p", 1, new(yubihsm.Capabilities), yubihsm.AlgoECP256); err == nil {
		c.Fatalf("a P-256 key was generated")
	}
	// listing
	f := &yubihsm.Filter{}
	pick := &object{}
	if len(d.objs) > 0 {
		pick = rapid.SampledFrom(d.objs).Draw(c.T, "like")
	}
	some := func(l string) bool { return oneIn(c.T, 3, l) }
	if some("by id") {
		f.ID = pick.id
	}
	if some("by type") {
		f.Type = yubihsm.ObjectType(pick.typ)
	}
	if some("by domains") {
		f.Domains = pick.domains & -pick.domains
	}
	if some("by algorithm") {
		f.Algorithm = yubihsm.Algorithm(pick.algo)
	}
	if some("by label") {
		f.Label = pick.label
	}
	var need []int
	if some("by capability") && len(pick.bits) > 0 {
		need = []int{rapid.SampledFrom(pick.bits).Draw(c.T, "capability")}
		if err := f.Capabilities.Parse(capNames[need[0]]); err != nil {
			c.Fatalf("capability %s: %v", capNames[need[0]], err)
		}
	}
	var want []string
	for _, o := range d.objs {
		ok := (f.ID == 0 || o.id == f.ID) && (f.Type == 0 || o.typ == int(f.Type)) && (f.Domains == 0 || o.domains&f.Domains != 0) &&
			(f.Algorithm == 0 || o.algo == int(f.Algorithm)) && (f.Label == "" || o.label == f.Label)
		for _, n := range need {
			has := false
			for _, b := range o.bits {
				has = has || b == n
			}
			ok = ok && has
		}
		if ok {
			want = append(want, fmt.Sprintf("%d/%d", o.typ, o.id))
		}
	}
	arg := f
	if *f == (yubihsm.Filter{}) && rapid.Bool().Draw(c.T, "no filter") {
		arg = nil
	}
	objs, err := s.ListObjects(arg)
	if err != nil {
		c.Fatalf("listing %+v: %v", f, err)
	}
	var got []string
	for _, o := range objs {
		got = append(got, fmt.Sprintf("%d/%d", o.Type, o.ID))
	}
	if strings.Join(got, " ") != strings.Join(want, " ") {
		c.Fatalf("listing %+v gives %v, not %v", f, got, want)
	}
	for _, o := range d.objs {
		i, err := s.GetObject(o.id, yubihsm.ObjectType(o.typ))
		if err != nil {
			c.Fatalf("object %d: %v", o.id, err)
		}
		var names []string
		seen := map[int]bool{}
		sort.Ints(o.bits)
		for _, n := range o.bits {
			if !seen[n] {
				names = append(names, capNames[n])
			}
			seen[n] = true
		}
		if i.ID != o.id || int(i.Type) != o.typ || i.Domains != o.domains || int(i.Algorithm) != o.algo || i.Label != o.label || i.Length != 0x1234 ||
			i.Sequence != 3 || i.Origin != yubihsm.OriginImported || i.Capabilities.String() != strings.Join(names, ",") {
			c.Fatalf("object %+v is %+v with capabilities %v", o, i, i.Capabilities)
		}
		pub, err := s.GetPublicKey(o.id)
		if o.typ == tAsym && o.algo == aK256 {
			if err != nil || !bytes.Equal(pub, o.pub) {
				c.Fatalf("public key of %d: %x %v", o.id, pub, err)
			}
		} else if err == nil {
			c.Fatalf("object %d has the public key %x", o.id, pub)
		}
	}
	if _, err := s.GetObject(0xfffe, yubihsm.TypeAsymmetric); err != yubihsm.ErrObjectNotFound {
		c.Fatalf("a missing object: %v", err)
	}
	if caps, err := yubihsm.CapabilitiesByName("asymmetric_gen", "no_such"); err == nil {
		c.Fatalf("unknown capability: %v", caps)
	}
	di, err := conn.DeviceInfo()
	if err != nil || di.Major != 2 || di.Minor != 1 || di.Patch != 3 || di.Serial != 0x89abcdef || di.LogTotal != 62 || di.LogUsed != 17 || len(di.Algorithms) != 4 || di.Algorithms[3] != yubihsm.AlgoECK256 {
		c.Fatalf("device info %+v %v", di, err)
	}
	msg := yubihsm.Message{Command: yubihsm.CmdEcho, Data: gen.Bytes(1, 60).Draw(c.T, "echo")}
	res := yubihsm.Message{Data: make([]byte, rapid.SampledFrom([]int{100, 60, 1, 0}).Draw(c.T, "len"), 100)}
	if m := vk.Trap(func() { err = conn.Send(&msg, &res) }); m != "" {
		c.Fatalf("Send: %s", m)
	}
	if err != nil || res.Command != yubihsm.CmdEcho|0x80 || !bytes.Equal(res.Data, msg.Data) {
		c.Fatalf("Send(%x): %v %v %x", msg.Data, err, res.Command, res.Data)
	}
	if yubihsm.AlgorithmByName("eck256") != yubihsm.AlgoECK256 || yubihsm.AlgoECP256.String() != "ecp256" || yubihsm.TypeByName("asymmetric") != yubihsm.TypeAsymmetric ||
		yubihsm.TypeHMACKey.String() != "hmackey" || yubihsm.CapabilityByName("reset") != 28 || yubihsm.Capability(7).String() != "asymmetric_sign_ecdsa" || yubihsm.OptionByName("command_audit") != yubihsm.OptionCommandAudit ||
		yubihsm.AlgorithmByName("none") != 0 {
		c.Fatalf("names")
	}
	if err := s.Destroy(); err != nil {
		c.Fatalf("destroying: %v", err)
	}
	s.Destroy()
	if _, err := s.ListObjects(nil); err == nil {
		c.Fatalf("a destroyed session lists objects")
	}
	c.NonTrivial(strings.Join(want, " "), f.Label, d.pass)
}

// eth runs the command line tool with the driver compiled in.
func eth(c *vk.C) {
	dir := scratch()
	defer os.RemoveAll(dir)
	bin := os.Getenv("VK_BIN_ETH")
	if bin == "" {
		panic("HARNESS-ERROR no eth")
	}
	d := genDevice(c.T, 1)
	for len(d.keys()) == 0 {
		d = genDevice(c.T, 1)
	}
	ks := d.keys()
	o := rapid.SampledFrom(ks).Draw(c.T, "key")
	hash, ok, kind := genSig(c.T, d, o)
	env := []string{"HOME=" + dir, "PATH=" + os.Getenv("PATH"), "KEY_PATH=keys", "VK_YUBI_DEVICE=" + d.write(dir)}
	check(os.Mkdir(filepath.Join(dir, "keys"), 0777))
	if d.url != seth.ConnectorURL {
		env = append(env, "YUBIHSM_HINT=slot=0,"+d.url)
	}
	pass := d.pass
	wrong := oneIn(c.T, 5, "wrong password")
	if wrong {
		pass += "x"
	}
	env = append(env, "YUBIHSM_PASS="+pass)
	run := func(stdin []byte, args ...string) (string, string, int) {
		cmd := exec.Command(bin, args...)
		cmd.Dir, cmd.Env, cmd.Stdin = dir, env, bytes.NewReader(stdin)
		var o, e bytes.Buffer
		cmd.Stdout, cmd.Stderr = &o, &e
		err := cmd.Run()
		if _, is := err.(*exec.ExitError); err != nil && !is {
			check(err)
		}
		return o.String(), e.String(), cmd.ProcessState.ExitCode()
	}
	addr := func(o *object) string {
		a := crypto.PubkeyToAddress(o.key.PublicKey)
		return "0x" + hex.EncodeToString(a[:])
	}
	out, errs, code := run(nil, "keys")
	if wrong {
		if code == 0 || out != "" || strings.TrimSpace(errs) == "" || strings.Contains(errs, "runtime error") {
			c.Fatalf("keys with the wrong password: exit %d %q %q", code, out, errs)
		}
	} else {
		var have, want []string
		for _, l := range strings.Split(strings.TrimSpace(out), "\n") {
			have = append(have, strings.Join(strings.Fields(l), " "))
		}
		for _, k := range ks {
			want = append(want, fmt.Sprintf("%s yubihsm:%d", addr(k), k.id))
		}
		for i, l := range have {
			// either order of the columns
			if f := strings.Fields(l); len(f) == 2 && strings.HasPrefix(f[0], "yubihsm:") {
				have[i] = f[1] + " " + f[0]
			}
		}
		if code != 0 || strings.Join(have, "\n") != strings.Join(want, "\n") {
			c.Fatalf("keys: exit %d, %q, not %q (%s)", code, have, want, errs)
		}
	}
	spec := rapid.SampledFrom([]string{addr(o), fmt.Sprintf("yubihsm:%d", o.id), fmt.Sprintf("^yubihsm:%d$", o.id)}).Draw(c.T, "spec")
	matches := 0
	for _, k := range ks {
		if re := regexp.MustCompile(spec); re.MatchString(addr(k)) || re.MatchString(fmt.Sprintf("yubihsm:%d", k.id)) {
			matches++
		}
	}
	env = append(env, "ETHER_ADDR="+spec)
	out, errs, code = run(hash, "sign", "-h", "-x", "-")
	if wrong || matches != 1 || !ok {
		if code == 0 || out != "" || strings.TrimSpace(errs) == "" || strings.Contains(errs, "runtime error") {
			if b, e := hex.DecodeString(strings.TrimSpace(out)); e == nil && len(b) == 65 && code == 0 && !wrong && matches == 1 {
				var s seth.Signature
				copy(s[:], b)
				if right(&s, hash, o) == "" {
					return // the device's odd answer was a signature all the same
				}
			}
			c.Fatalf("eth sign with %s (wrong password %v, %d matches, the device answers %q): exit %d %q %q", spec, wrong, matches, kind, code, out, errs)
		}
		c.Class("refused")
		return
	}
	b, err := hex.DecodeString(strings.TrimSpace(out))
	if code != 0 || err != nil || len(b) != 65 {
		c.Fatalf("eth sign with %s: exit %d %q %q", spec, code, out, errs)
	}
	var s seth.Signature
	copy(s[:], b)
	if w := right(&s, hash, o); w != "" {
		c.Fatalf("eth sign with %s gives %x: %s", spec, b, w)
	}
	c.NonTrivial(b)
	c.Class(kind)
	c.Sample("%s: %x", spec, b)
}
