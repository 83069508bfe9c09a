package cmdp

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"testing"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/math"
	"github.com/ethereum/go-ethereum/crypto"
	"pgregory.net/rapid"

	"verif/harness/gen"
	"verif/harness/vk"
)

// ring is a set of key files in directories, in the order they are listed.
type ring struct {
	keys []*key
	path string // KEY_PATH
}

func genRing(t *rapid.T, dir string, min int) *ring {
	g := &ring{}
	dirs := []string{"keys", "more", "old keys", "4"}[:rapid.SampledFrom([]int{1, 1, 1, 2, 2, 2, 3, 4}).Draw(t, "dirs")]
	noAddr := oneIn(t, 6, "no addresses")
	names := []string{"main", "main2", "alice", "bob", "a", "old-main", "mai.n", "x", ""}
	for _, d := range dirs {
		check(os.MkdirAll(filepath.Join(dir, d), 0777))
		most := 4
		if oneIn(t, 15, "many") {
			most = 120
		}
		for i, n := 0, rapid.IntRange(0, most).Draw(t, "keys"); i < n || d == dirs[len(dirs)-1] && len(g.keys) < min; i++ {
			k := &key{priv: genPriv(t), pass: rapid.SampledFrom([]string{"secret", "secret2", "", "pass phrase"}).Draw(t, "pass")}
			if len(g.keys) > 0 && oneIn(t, 8, "copy of a key") {
				k.priv = g.keys[rapid.IntRange(0, len(g.keys)-1).Draw(t, "of")].priv
			}
			k.addr = crypto.PubkeyToAddress(k.priv.PublicKey)
			k.name = rapid.SampledFrom(names).Draw(t, "name")
			k.noAddr = noAddr || oneIn(t, 6, "no address")
			k.build(t)
			// the files of a directory are listed in the order of their names
			write(dir, fmt.Sprintf("%s/%04d-%s.json", d, i*2, hex.EncodeToString(k.addr[:3])), k.file)
			g.keys = append(g.keys, k)
		}
		for i := rapid.IntRange(0, 2).Draw(t, "junk"); i > 0; i-- {
			junk := rapid.SampledFrom([]string{"", "hello", "{", "{}", "[]", `{"id":"main","version":3}`, `{"version":3,"crypto":{"cipher":"aes-128-ctr","kdf":"scrypt","mac":"00"}}`, "\x00\xff", `{"id":5}`, " {}"}).Draw(t, "text")
			if oneIn(t, 3, "nearly a key") {
				var m map[string]interface{}
				check(json.Unmarshal(genKey(t).file, &m))
				cr := m["crypto"].(map[string]interface{})
				switch f := rapid.SampledFrom([]string{"version", "id", "name", "mac", "ciphertext", "kdf"}).Draw(t, "field"); f {
				case "version":
					m[f] = "3"
				case "id", "name":
					m[f] = 5
				default:
					cr[f] = 7
				}
				b, err := json.Marshal(m)
				check(err)
				junk = string(b)
			}
			write(dir, fmt.Sprintf("%s/%04d-junk", d, i*2+1), []byte(junk))
		}
		if oneIn(t, 4, "subdirectory") {
			k := genKey(t)
			write(dir, d+"/00-sub/key.json", k.file)
		}
	}
	g.path = strings.Join(dirs, ":")
	return g
}

func (k *key) shown() string {
	a := k.addr
	if k.noAddr {
		a = common.Address{}
	}
	return hx(a[:])
}

// matching is the reference: the keys a specifier selects.
func (g *ring) matching(spec string) (out []*key) {
	re := regexp.MustCompile(spec)
	for _, k := range g.keys {
		if re.MatchString(k.shown()) || re.MatchString(k.listed()) {
			out = append(out, k)
		}
	}
	return
}

func genSpec(t *rapid.T, g *ring) string {
	k := rapid.SampledFrom(g.keys).Draw(t, "asked")
	addr := hex.EncodeToString(k.addr[:])
	switch rapid.IntRange(0, 9).Draw(t, "by") {
	case 0, 1, 2:
		return "0x" + addr
	case 3:
		return "^" + regexp.QuoteMeta(k.listed()) + "$"
	case 4:
		return k.listed()
	case 5:
		return k.id
	case 6:
		return "^0x" + addr[:8]
	case 7:
		return addr[30:] + "$"
	case 8:
		return rapid.SampledFrom([]string{"main", "a", "alice|bob", "nobody", "0x1234567890", "^m.*n$"}).Draw(t, "spec")
	}
	return strings.ToUpper(addr)
}

// genMessage draws the contents of a file, which may end in newlines.
func genMessage(t *rapid.T, max int) []byte {
	msg := gen.Bytes(0, max).Draw(t, "message")
	if oneIn(t, 12, "long") {
		// of many reads
		msg = make([]byte, rapid.IntRange(30000, 300000).Draw(t, "length"))
		rand.New(rand.NewSource(int64(len(msg)))).Read(msg)
	}
	if oneIn(t, 3, "blanks") {
		blank := rapid.SampledFrom([]string{"\n", "\n\n", "\r\n", " ", "\x00", "\t"}).Draw(t, "blank")
		if oneIn(t, 3, "in front") {
			return append([]byte(blank), msg...)
		}
		return append(msg, blank...)
	}
	return msg
}

func TestC44(t *testing.T) {
	p := vk.Start(t, "C44", "mostly up to sixteen key files, sometimes over a hundred, in one to four directories among files that are no key files, keys asked for by address, name, identifier or pattern (one, none or several matching), messages signed in every output form with the right or a wrong passphrase typed on a terminal; signatures made by go-ethereum recovered; keys generated, listed and used; non-trivial: a distinct message signed, signature recovered or key generated",
		"go-ethereum v1.9.2 crypto recovers and signs; key files are written by the check, with a cheap key derivation; an empty address shows as zero")

	// signed runs eth sign and returns the signature when there must be one.
	p.Check("sign", 200, 8000, func(c *vk.C) {
		dir := scratch()
		defer os.RemoveAll(dir)
		g := genRing(c.T, dir, 1)
		spec := genSpec(c.T, g)
		m := g.matching(spec)
		typed := "no passphrase"
		right := false
		if len(m) > 1 {
			// a key that matched would open
			typed = rapid.SampledFrom(m).Draw(c.T, "of").pass
		}
		if len(m) == 1 {
			typed = m[0].pass
			right = !oneIn(c.T, 6, "wrong")
			if !right {
				typed += rapid.SampledFrom([]string{"x", " ", "secret"}).Draw(c.T, "more")
			}
		}
		msg := genMessage(c.T, 200)
		hash := crypto.Keccak256(msg)
		var flags []string
		prefix := ""
		hashed := false
		switch rapid.IntRange(0, 3).Draw(c.T, "input") {
		case 0:
			hashed = true
			flags = append(flags, "-h")
			msg = gen.Bytes(32, 32).Draw(c.T, "hash")
			hash = msg
		case 1:
			prefix = rapid.SampledFrom([]string{"\x19Ethereum Signed Message:\n5", "p", "é "}).Draw(c.T, "prefix")
			flags = append(flags, "-prefix", prefix)
			hash = crypto.Keccak256([]byte(prefix), msg)
		}
		form := rapid.SampledFrom([]string{"", "-x", "-j"}).Draw(c.T, "form")
		if form != "" {
			flags = append(flags, form)
		}
		tl := tool{dir: dir, env: map[string]string{"KEY_PATH": g.path, "ETHER_ADDR": spec}, tty: []string{typed + "\n"}}
		file := "message"
		if rapid.Bool().Draw(c.T, "-") && !hashed {
			// lines typed before the passphrase
			msg = []byte(rapid.StringMatching(`([a-z é]{0,20}\n){0,5}`).Draw(c.T, "text"))
			hash = crypto.Keccak256([]byte(prefix), msg)
			file = "-"
			tl.tty = []string{string(msg), "\x04", typed + "\n"}
		} else {
			write(dir, file, msg)
		}
		args := append(append([]string{"sign"}, flags...), file)
		r := tl.run(args...)
		if len(m) != 1 || !right {
			if !r.failed() || r.out != "" {
				c.Fatalf("ETHER_ADDR=%s matches %d keys, right passphrase %v; eth %q: %v", spec, len(m), right, args, r)
			}
			c.Class(fmt.Sprintf("refused: %d keys match", len(m)))
			return
		}
		var sig []byte
		switch form {
		case "":
			sig = []byte(r.out)
		case "-x":
			sig, _ = hex.DecodeString(strings.TrimSuffix(r.out, "\n"))
		case "-j":
			var j struct{ R, S, V string }
			if json.Unmarshal([]byte(r.out), &j) == nil {
				sig = append(append(math.PaddedBigBytes(math.MustParseBig256(j.R), 32), math.PaddedBigBytes(math.MustParseBig256(j.S), 32)...), byte(math.MustParseBig256(j.V).Uint64()))
			}
		}
		if r.code != 0 || len(sig) != 65 {
			c.Fatalf("ETHER_ADDR=%s eth %q: %v", spec, args, r)
		}
		if sig[64] >= 27 {
			sig[64] -= 27
		}
		pub, err := crypto.SigToPub(hash, sig)
		if err != nil || crypto.PubkeyToAddress(*pub) != m[0].addr {
			who := "nobody"
			if err == nil {
				a := crypto.PubkeyToAddress(*pub)
				who = a.Hex()
			}
			var all []string
			for _, k := range g.keys {
				all = append(all, k.listed()+" "+k.addr.Hex())
			}
			c.Fatalf("ETHER_ADDR=%s eth %q of %q signs for %s, not %s (%v), with the keys %q", spec, args, msg, who, m[0].addr.Hex(), err, all)
		}
		c.NonTrivial(hash, m[0].addr)
		c.Class(fmt.Sprintf("one of %d keys", len(g.keys)), "form "+form, "file "+file)
		c.Sample("ETHER_ADDR=%s eth %q -> %x", spec, args, sig)
	})

	p.Check("sign refused", 140, 3000, func(c *vk.C) {
		dir := scratch()
		defer os.RemoveAll(dir)
		k := genKey(c.T)
		write(dir, "keys/k.json", k.file)
		write(dir, "message", gen.Bytes(33, 60).Draw(c.T, "message"))
		env := map[string]string{"KEY_PATH": "keys", "ETHER_ADDR": k.addr.Hex()[:2] + strings.ToLower(k.addr.Hex()[2:])}
		tl := tool{dir: dir, env: env, tty: []string{k.pass + "\n"}}
		args := []string{"sign", "message"}
		how := rapid.SampledFrom([]string{"no spec", "bad pattern", "no directory", "no terminal", "no file", "two files", "no argument", "hash length", "hash and prefix", "two forms",
			"full disk", "full disk", "full disk", "unreadable input", "directory", "unreadable signed"}).Draw(c.T, "how")
		switch how {
		case "no spec":
			delete(env, "ETHER_ADDR")
		case "bad pattern":
			env["ETHER_ADDR"] = "(" + k.name
		case "no directory":
			env["KEY_PATH"] = rapid.SampledFrom([]string{"nowhere", "keys:nowhere", "nowhere:keys"}).Draw(c.T, "path")
		case "no terminal":
			tl.tty, tl.stdin = nil, []byte(k.pass+"\n")
		case "no file":
			args = []string{"sign", "other"}
		case "two files":
			args = []string{"sign", "message", "message"}
		case "no argument":
			args = []string{"sign"}
		case "hash length":
			args = []string{"sign", "-h", "message"}
		case "hash and prefix":
			args = []string{"sign", "-h", "-prefix", "x", "message"}
			write(dir, "message", make([]byte, 32))
		case "two forms":
			args = []string{"sign", "-x", "-j", "message"}
		case "full disk":
			tl.to = "/dev/full"
			if form := rapid.SampledFrom([]string{"", "-x", "-j"}).Draw(c.T, "form"); form != "" {
				args = []string{"sign", form, "message"}
			}
			how += strings.Join(args[1:len(args)-1], "")
		case "unreadable input":
			sig, err := crypto.Sign(crypto.Keccak256(nil), k.priv)
			check(err)
			args = []string{"recover", hx(sig)}
			tl.tty, tl.from = nil, "."
		case "directory":
			args = []string{"sign", "keys"}
		case "unreadable signed":
			args = []string{"sign", "-"}
			tl.tty, tl.from = nil, "."
		}
		r := tl.run(args...)
		if !r.failed() || r.out != "" {
			c.Fatalf("%s: eth %q: %v", how, args, r)
		}
		c.NonTrivial(how, k.addr, args)
		c.Class(how)
	})

	p.Check("list", 120, 4000, func(c *vk.C) {
		dir := scratch()
		defer os.RemoveAll(dir)
		g := genRing(c.T, dir, 0)
		r := tool{dir: dir, env: map[string]string{"KEY_PATH": g.path}}.run("keys")
		var want []string
		for _, k := range g.keys {
			want = append(want, k.listed()+" "+k.shown())
		}
		var got []string
		for _, l := range strings.Split(r.out, "\n") {
			if l = strings.TrimSpace(l); l != "" {
				got = append(got, l)
			}
		}
		sort.Strings(got)
		sort.Strings(want)
		if r.code != 0 || strings.Join(got, "\n") != strings.Join(want, "\n") {
			c.Fatalf("eth keys: %v\nwant %q", r, want)
		}
		if len(want) > 0 {
			c.NonTrivial(want)
		}
		c.Class(fmt.Sprintf("%d keys", len(want)))
	})

	p.Check("recover", 200, 8000, func(c *vk.C) {
		dir := scratch()
		defer os.RemoveAll(dir)
		priv := genPriv(c.T)
		msg := genMessage(c.T, 100)
		hash := crypto.Keccak256(msg)
		byHash := rapid.Bool().Draw(c.T, "by hash")
		if byHash {
			hash = gen.Bytes(32, 32).Draw(c.T, "hash")
		}
		sig, err := crypto.Sign(hash, priv)
		check(err)
		args := []string{"recover"}
		pub := rapid.Bool().Draw(c.T, "-pub")
		if pub {
			args = append(args, "-pub")
		}
		bad := rapid.SampledFrom([]string{"", "", "", "", "short", "long", "hex", "hash", "zero r", "zero s", "r", "v", "arguments"}).Draw(c.T, "bad")
		text, htext := hx(sig), hx(hash)
		n := crypto.S256().Params().N
		switch bad {
		case "short":
			text = text[:len(text)-2]
		case "long":
			text += "00"
		case "hex":
			text = rapid.SampledFrom([]string{text[2:], text[:131] + "g", "", "0x"}).Draw(c.T, "text")
		case "hash":
			byHash = true
			htext = rapid.SampledFrom([]string{htext[2:], htext + "00", htext[:64], "", "0x", "zz"}).Draw(c.T, "text")
		case "zero r":
			text = hx(append(make([]byte, 32), sig[32:]...))
		case "zero s":
			text = hx(append(append(append([]byte{}, sig[:32]...), make([]byte, 32)...), sig[64]))
		case "r": // not below the order
			text = hx(append(math.PaddedBigBytes(new(big.Int).Add(n, big.NewInt(int64(rapid.IntRange(0, 5).Draw(c.T, "r")))), 32), sig[32:]...))
		case "v":
			text = hx(append(append([]byte{}, sig[:64]...), byte(rapid.SampledFrom([]int{2, 3, 4, 5, 26, 27, 28, 29, 255}).Draw(c.T, "v"))))
		}
		args = append(args, text)
		if byHash {
			args = append(args, htext)
		}
		if bad == "arguments" {
			args = []string{"recover"}
			if rapid.Bool().Draw(c.T, "three") {
				args = []string{"recover", text, htext, htext}
			}
		}
		r := tool{dir: dir, stdin: msg}.run(args...)
		if bad != "" {
			if !r.failed() || r.out != "" {
				c.Fatalf("%s: eth %q: %v", bad, args, r)
			}
			c.Class("refused: " + bad)
			return
		}
		a := crypto.PubkeyToAddress(priv.PublicKey)
		want := hx(a[:])
		if pub {
			want = hx(crypto.FromECDSAPub(&priv.PublicKey)[1:])
		}
		if r.code != 0 || strings.TrimSpace(r.out) != want {
			c.Fatalf("eth %q of %q: %v; want %s", args, msg, r, want)
		}
		c.NonTrivial(sig, pub, byHash)
	})

	p.Check("keygen refused", 3, 30, func(c *vk.C) {
		dir := scratch()
		defer os.RemoveAll(dir)
		tl := tool{dir: dir, tty: []string{"secret\n"}}
		args := []string{"keygen", "fresh"}
		how := rapid.SampledFrom([]string{"full disk", "full disk -o", "no terminal", "no directory", "two names"}).Draw(c.T, "how")
		switch how {
		case "full disk":
			tl.to = "/dev/full"
		case "full disk -o":
			args = []string{"keygen", "-o", "/dev/full", "fresh"}
		case "no terminal":
			tl.tty, tl.stdin = nil, []byte("secret\n")
		case "no directory":
			args = []string{"keygen", "-o", "keys/new.json", "fresh"}
		case "two names":
			args = append(args, "other")
		}
		r := tl.run(args...)
		if !r.failed() || r.out != "" {
			c.Fatalf("%s: eth %q: %v", how, args, r)
		}
		c.NonTrivial(how)
		c.Class(how)
	})

	p.Check("keygen", 4, 60, func(c *vk.C) {
		dir := scratch()
		defer os.RemoveAll(dir)
		pass := rapid.SampledFrom([]string{"secret", "", "pass phrase", "pässwörd"}).Draw(c.T, "pass")
		name := rapid.SampledFrom([]string{"", "fresh", "main"}).Draw(c.T, "name")
		args := []string{"keygen"}
		toFile, old := true, false
		switch rapid.IntRange(0, 3).Draw(c.T, "-o") {
		case 0:
			toFile = false
		case 1, 2:
			old = true
		}
		if toFile {
			args = append(args, "-o", "keys/new.json")
		}
		if name != "" {
			args = append(args, name)
		}
		check(os.Mkdir(filepath.Join(dir, "keys"), 0777))
		if old {
			write(dir, "keys/new.json", genKey(c.T).file)
			if rapid.Bool().Draw(c.T, "longer") {
				write(dir, "keys/new.json", bytes.Repeat([]byte("not a key file\n"), 200))
			}
		}
		r := tool{dir: dir, tty: []string{pass + "\n"}}.run(args...)
		if r.code != 0 || toFile && r.out != "" {
			c.Fatalf("eth %q: %v", args, r)
		}
		file := []byte(r.out)
		if toFile {
			var err error
			if file, err = os.ReadFile(filepath.Join(dir, "keys/new.json")); err != nil {
				c.Fatalf("eth %q: %v: %v", args, r, err)
			}
		} else {
			write(dir, "keys/new.json", file)
		}
		var kf struct{ Address, Name, ID string }
		if err := json.Unmarshal(file, &kf); err != nil || kf.Name != name || kf.ID == "" {
			c.Fatalf("eth %q made %s: %v", args, file, err)
		}
		addr, err := openKey(file, pass)
		if err != nil || kf.Address != "" && kf.Address != hex.EncodeToString(addr[:]) {
			c.Fatalf("eth %q made %s, which is no key file of %q (%v)", args, file, pass, err)
		}
		shown := kf.ID
		if name != "" {
			shown = name
		}
		env := map[string]string{"KEY_PATH": "keys", "ETHER_ADDR": "^" + shown + "$"}
		a := common.HexToAddress(kf.Address)
		l := tool{dir: dir, env: env}.run("keys")
		if strings.TrimSpace(l.out) != shown+" "+hx(a[:]) {
			c.Fatalf("eth %q made %s; eth keys: %v", args, file, l)
		}
		msg := gen.Bytes(0, 50).Draw(c.T, "message")
		write(dir, "message", msg)
		s := tool{dir: dir, env: env, tty: []string{pass + "\n"}}.run("sign", "message")
		if s.code != 0 || len(s.out) != 65 {
			c.Fatalf("eth %q made %s; eth sign: %v", args, file, s)
		}
		pub, err := crypto.SigToPub(crypto.Keccak256(msg), []byte(s.out))
		if err != nil || crypto.PubkeyToAddress(*pub) != addr {
			c.Fatalf("eth %q made %s; eth sign: %v: not its signature", args, file, s)
		}
		s = tool{dir: dir, env: env, tty: []string{pass + "x\n"}}.run("sign", "message")
		if !s.failed() || s.out != "" {
			c.Fatalf("eth %q made %s; eth sign with another passphrase: %v", args, file, s)
		}
		c.NonTrivial(file)
	})
}
