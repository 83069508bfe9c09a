package bindp

import (
	"bytes"
	_ "embed"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"testing"

	"github.com/ethereum/go-ethereum/accounts/abi"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	"pgregory.net/rapid"

	"verif/harness/gen"
	"verif/harness/vk"
)

//go:embed driver.txt
var driver string

// value is an argument as the driver reads it.
type value struct {
	Kind string
	Val  []string
}

type call struct {
	Contract, Prefix string
	Exact            bool
	Args             []value
	Reply, Hash      string
	Fail             bool

	fn   *function
	data []byte
	want []string // acceptable forms per result, separated by "|"
}

type outcome struct {
	Name, Skip string
	Reqs       []struct {
		Method string
		Params []json.RawMessage
	}
	Rets      []string
	Err, Died string
}

type function struct {
	name    string
	in, out []string
	mut     string
	flag    bool // the constant flag of older compilers
}

func (f *function) sig() string { return f.name + "(" + strings.Join(f.in, ",") + ")" }

// readonly also tells what the binding generator is documented to call.
func (f *function) readonly() bool { return f.mut == "view" || f.mut == "pure" }

func (f *function) json() map[string]interface{} {
	params := func(ts []string) []map[string]string {
		out := []map[string]string{}
		for i, t := range ts {
			out = append(out, map[string]string{"name": []string{"", "x", "self", "type"}[i%4], "type": t})
		}
		return out
	}
	m := map[string]interface{}{"type": "function", "name": f.name, "inputs": params(f.in), "outputs": params(f.out), "stateMutability": f.mut}
	if f.flag {
		m["constant"] = f.readonly()
		m["payable"] = f.mut == "payable"
	}
	return m
}

type contract struct {
	name string
	pkg  string
	fns  []*function
	code []byte
}

// genType draws a supported type.
func genType(t *rapid.T) string {
	width := func() int {
		if rapid.Bool().Draw(t, "usual") {
			return rapid.SampledFrom([]int{8, 16, 32, 64, 128, 256}).Draw(t, "width")
		}
		return 8 * rapid.IntRange(1, 32).Draw(t, "width")
	}
	switch rapid.IntRange(0, 10).Draw(t, "type") {
	case 0:
		return "bool"
	case 1, 2:
		return fmt.Sprintf("uint%d", width())
	case 3:
		return fmt.Sprintf("int%d", width())
	case 4:
		return "address"
	case 5:
		return "bytes32"
	case 6:
		return fmt.Sprintf("bytes%d", rapid.IntRange(1, 32).Draw(t, "n"))
	case 7:
		return "string"
	case 8:
		return "bytes"
	case 9:
		return rapid.SampledFrom([]string{"uint256[]", "address[]", "bytes32[]"}).Draw(t, "slice")
	}
	return rapid.SampledFrom([]string{"uint256[]", "address[]", "bytes32[]", "int256[]", "uint8[]", "int64[]", "uint128[]", "int24[]", "bytes4[]", "bytes31[]"}).Draw(t, "slice")
}

func suffix(t, prefix string) int {
	n := 0
	fmt.Sscanf(strings.TrimPrefix(t, prefix), "%d", &n)
	return n
}

// genValue draws a value of a type: for the driver, for the reference encoder
// and as the driver may show it when it comes back.
func genValue(t *rapid.T, typ string) (v value, ref interface{}, shown string) {
	switch {
	case strings.HasSuffix(typ, "[]"):
		el := strings.TrimSuffix(typ, "[]")
		ty, err := abi.NewType(typ, nil)
		if err != nil {
			panic("HARNESS-ERROR " + err.Error())
		}
		list := reflect.MakeSlice(ty.Type, 0, 4)
		var forms, signed []string
		v = value{Kind: map[byte]string{'u': "ints", 'i': "ints", 'a': "addresses", 'b': "words"}[typ[0]], Val: []string{}}
		for i := rapid.IntRange(0, 4).Draw(t, "len"); i > 0; i-- {
			e, r, s := genValue(t, el)
			v.Val = append(v.Val, e.Val...)
			list = reflect.Append(list, reflect.ValueOf(r))
			shapes := strings.Split(s, "|")
			first, last := shapes[0], shapes[len(shapes)-1]
			if strings.HasPrefix(s, "int -") {
				// the library's integers hold 256-bit words
				x, _ := new(big.Int).SetString(s[len("int "):], 10)
				first = "int " + x.Add(x, new(big.Int).Lsh(big.NewInt(1), 256)).String()
			}
			forms, signed = append(forms, first), append(signed, last)
		}
		return v, list.Interface(), "list[" + strings.Join(forms, " ") + "]|list[" + strings.Join(signed, " ") + "]"
	case typ == "bool":
		b := rapid.Bool().Draw(t, "bool")
		n := "0"
		if b {
			n = "1"
		}
		return value{"int", []string{n}}, b, fmt.Sprintf("bool %v|int %s", b, n)
	case strings.HasPrefix(typ, "uint"), strings.HasPrefix(typ, "int"):
		signed := typ[0] == 'i'
		bits := suffix(strings.TrimPrefix(typ, "u"), "int")
		x := gen.Big(bits).Draw(t, "x")
		if signed {
			x = gen.Big(bits-1).Draw(t, "x")
			if rapid.Bool().Draw(t, "neg") {
				x = new(big.Int).Not(x)
			}
		}
		mod := new(big.Int).And(x, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1)))
		shown = "int " + x.String()
		native := bits == 8 || bits == 16 || bits == 32 || bits == 64
		if x.Sign() < 0 && !native {
			// the library's integers hold 256-bit words
			shown = "int " + mod.String() + "|" + shown
		}
		if native {
			r := reflect.New(map[string]reflect.Type{
				"int8": reflect.TypeOf(int8(0)), "int16": reflect.TypeOf(int16(0)), "int32": reflect.TypeOf(int32(0)), "int64": reflect.TypeOf(int64(0)),
				"uint8": reflect.TypeOf(uint8(0)), "uint16": reflect.TypeOf(uint16(0)), "uint32": reflect.TypeOf(uint32(0)), "uint64": reflect.TypeOf(uint64(0)),
			}[typ]).Elem()
			if signed {
				r.SetInt(x.Int64())
			} else {
				r.SetUint(x.Uint64())
			}
			return value{"int", []string{x.String()}}, r.Interface(), shown
		}
		return value{"int", []string{x.String()}}, x, shown
	case typ == "address":
		a := gen.Address().Draw(t, "a")
		h := hex.EncodeToString(a[:])
		return value{"address", []string{h}}, common.Address(a), "address " + h
	case typ == "string", typ == "bytes":
		b := gen.Bytes(0, 80).Draw(t, "b")
		h := hex.EncodeToString(b)
		if typ == "string" {
			return value{"blob", []string{h}}, string(b), "string " + h
		}
		return value{"blob", []string{h}}, b, "blob " + h
	case strings.HasPrefix(typ, "bytes"):
		n := suffix(typ, "bytes")
		b := gen.Bytes(n, n).Draw(t, "b")
		a := reflect.New(reflect.ArrayOf(n, reflect.TypeOf(byte(0)))).Elem()
		reflect.Copy(a, reflect.ValueOf(b))
		h := hex.EncodeToString(b)
		return value{"bytes", []string{h}}, a.Interface(), "bytes " + h + strings.Repeat("00", 32-n) + "|bytes " + h
	}
	panic("HARNESS-ERROR no value for " + typ)
}

func pack(types []string, vals []interface{}) []byte {
	var args abi.Arguments
	for _, s := range types {
		ty, err := abi.NewType(s, nil)
		if err != nil {
			panic("HARNESS-ERROR: " + err.Error())
		}
		args = append(args, abi.Argument{Type: ty})
	}
	b, err := args.Pack(vals...)
	if err != nil {
		panic(fmt.Sprintf("HARNESS-ERROR: %v: %v", types, err))
	}
	return b
}

func genFunction(t *rapid.T) *function {
	f := &function{}
	if rapid.IntRange(0, 2).Draw(t, "common") == 0 {
		f.name = rapid.SampledFrom([]string{"get", "Get", "get0", "transfer", "transferFrom", "_get", "get1", "addr", "string", "new", "seth", "err", "z", "type"}).Draw(t, "name")
	} else {
		f.name = rapid.StringMatching(`[a-zA-Z][a-zA-Z0-9_]{0,9}`).Draw(t, "name")
	}
	for i := rapid.IntRange(0, 4).Draw(t, "inputs"); i > 0; i-- {
		f.in = append(f.in, genType(t))
	}
	for i := rapid.IntRange(0, 3).Draw(t, "outputs"); i > 0; i-- {
		f.out = append(f.out, genType(t))
	}
	f.mut = rapid.SampledFrom([]string{"view", "nonpayable", "pure", "view", "payable"}).Draw(t, "mutability")
	f.flag = rapid.IntRange(0, 3).Draw(t, "flag") > 0
	return f
}

// everyType lists the supported types.
func everyType() (plain, rest []string) {
	plain = []string{"bool", "address", "string", "bytes", "address[]"}
	for n := 8; n <= 256; n += 8 {
		for _, s := range []string{fmt.Sprint("int", n), fmt.Sprint("uint", n)} {
			if n <= 64 && n&(n-1) == 0 || n == 256 {
				plain = append(plain, s)
			} else {
				rest = append(rest, s)
			}
			rest = append(rest, s+"[]")
		}
		s := fmt.Sprint("bytes", n/8)
		rest = append(rest, s, s+"[]")
	}
	return
}

// genEvery draws read-only functions that together take and return all of
// the plain types and some of the others.
func genEvery(t *rapid.T) (fns []*function) {
	plain, rest := everyType()
	for _, typ := range append(plain, rapid.Permutation(rest).Draw(t, "types")[:40]...) {
		f := &function{name: "Z" + strings.Replace(typ, "[]", "s", 1), in: []string{typ}, out: []string{typ}, mut: "view"}
		if rapid.IntRange(0, 3).Draw(t, "pair") == 0 {
			f.in = append(f.in, genType(t))
			f.out = append(f.out, genType(t))
		}
		fns = append(fns, f)
	}
	// overloads, and functions called as an overload's method might be
	name := rapid.SampledFrom([]string{"zfam", "Zfam", "zfam1"}).Draw(t, "family")
	var fam []*function
	for i, typ := range rapid.Permutation(plain).Draw(t, "overloads")[:rapid.IntRange(2, 4).Draw(t, "members")] {
		fam = append(fam, &function{name: name, in: []string{typ}, out: []string{"uint256"}, mut: "view"})
		if i < 2 && rapid.IntRange(0, 3).Draw(t, "numbered") > 0 {
			fam = append(fam, &function{name: fmt.Sprint(name, i), in: []string{"address"}, out: []string{"int256"}, mut: "view"})
		}
	}
	return append(fns, rapid.Permutation(fam).Draw(t, "family order")...)
}

// build runs the generator, compiles what it made and returns what the
// driver printed about the calls.
type scratch struct{ dir string }

func (s scratch) write(name, text string) {
	p := filepath.Join(s.dir, name)
	if err := os.MkdirAll(filepath.Dir(p), 0777); err != nil {
		panic("HARNESS-ERROR " + err.Error())
	}
	if err := os.WriteFile(p, []byte(text), 0666); err != nil {
		panic("HARNESS-ERROR " + err.Error())
	}
}

func (s scratch) run(dir string, env []string, stdin []byte, name string, args ...string) (stdout, stderr string, err error) {
	c := exec.Command(name, args...)
	c.Dir = filepath.Join(s.dir, dir)
	// compilations are cached there
	tmp := filepath.Join(s.dir, "tmp")
	if err := os.MkdirAll(tmp, 0777); err != nil {
		panic("HARNESS-ERROR " + err.Error())
	}
	c.Env = append(append(os.Environ(), env...), "TMPDIR="+tmp)
	var o, e bytes.Buffer
	c.Stdin, c.Stdout, c.Stderr = bytes.NewReader(stdin), &o, &e
	err = c.Run()
	return o.String(), e.String(), err
}

func newScratch() scratch {
	d, err := os.MkdirTemp(os.Getenv("VK_SCRATCH"), "bind")
	if err != nil {
		panic("HARNESS-ERROR " + err.Error())
	}
	return scratch{d}
}

func bin(name string) string {
	b := os.Getenv("VK_BIN_" + name)
	if b == "" {
		panic("HARNESS-ERROR no " + name)
	}
	return b
}

func mustRead(name string) string {
	b, err := os.ReadFile(name)
	if err != nil {
		panic("HARNESS-ERROR " + err.Error())
	}
	return string(b)
}

func TestC41(t *testing.T) {
	p := vk.Start(t, "C41", "one to three packages of one or two contracts, each with up to eight functions (one with some 60 more: each plain type, and some of the others, taken and returned) over the supported types (overloads and names differing in case included), bound by the real generator behind a stand-in for the compiler, built, and every method called with values against a recording node; non-trivial: a distinct function with an argument or a result whose call was checked",
		"the stand-in for solc reports the drawn ABI; go-ethereum v1.9.2 accounts/abi is the reference encoder; function names start with a letter, or an underscore (then they only have to compile)")
	bindgen, solc := bin("BINDGEN"), bin("SOLC")
	path := "PATH=" + filepath.Dir(solc) + string(os.PathListSeparator) + os.Getenv("PATH")
	mod := strings.Replace(mustRead(filepath.Join(vk.Root(), "harness", "go.mod")), "module verif/harness", "module bound", 1)
	sum := mustRead(filepath.Join(vk.Root(), "harness", "go.sum"))

	p.Check("bindings", 14, 400, func(c *vk.C) {
		s := newScratch()
		defer os.RemoveAll(s.dir)
		s.write("go.mod", mod)
		s.write("go.sum", sum)
		env := []string{path, "FAKESOLC_LOG=" + filepath.Join(s.dir, "log"), "FAKESOLC_MODE=", "GOFLAGS=-mod=mod", "GOPACKAGE="}
		var calls []*call
		var contracts, codes strings.Builder
		var imports string
		wantCode := map[string]string{}
		var abis []string
		for i, n := 0, rapid.IntRange(1, 3).Draw(c.T, "packages"); i < n; i++ {
			pkg := fmt.Sprintf("p%d", i)
			imports += fmt.Sprintf("\t%q\n", "bound/"+pkg)
			var all []*contract
			files := map[string]string{"a.sol": "// a\n"}
			names := rapid.Permutation([]string{"Token", "A", "token", "TokenFactory", "B2"}).Draw(c.T, "names")
			for k, m := 0, rapid.IntRange(1, 3).Draw(c.T, "contracts"); k < m; k++ {
				ct := &contract{name: names[k], pkg: pkg, code: gen.Bytes(0, 40).Draw(c.T, "code")}
				var entries []map[string]interface{}
				seen := map[string]bool{}
				if i == 0 && k == 0 {
					ct.fns = genEvery(c.T)
					for _, f := range ct.fns {
						entries = append(entries, f.json())
					}
				}
				for j := rapid.IntRange(1, 8).Draw(c.T, "functions"); j > 0; j-- {
					f := genFunction(c.T)
					if len(ct.fns) > 0 && rapid.IntRange(0, 3).Draw(c.T, "overload") == 0 {
						f.name = rapid.SampledFrom(ct.fns).Draw(c.T, "like").name
					}
					if !seen[f.sig()] {
						seen[f.sig()] = true
						ct.fns = append(ct.fns, f)
						entries = append(entries, f.json())
					}
				}
				for _, other := range []string{"event", "constructor", "fallback", "receive"} {
					if rapid.IntRange(0, 3).Draw(c.T, other) == 0 {
						e := map[string]interface{}{"type": other, "stateMutability": "payable", "inputs": []map[string]interface{}{{"name": "x", "type": "uint256", "indexed": true}}}
						if other == "event" {
							e["name"] = rapid.SampledFrom([]string{"Get", "Sent"}).Draw(c.T, "event name")
						}
						at := rapid.IntRange(0, len(entries)).Draw(c.T, "at")
						entries = append(entries[:at:at], append([]map[string]interface{}{e}, entries[at:]...)...)
					}
				}
				b, err := json.Marshal(map[string]interface{}{"name": ct.name, "code": hex.EncodeToString(ct.code), "abi": entries})
				if err != nil {
					panic("HARNESS-ERROR " + err.Error())
				}
				file := rapid.SampledFrom([]string{"a.sol", "b.sol"}).Draw(c.T, "file")
				files[file] += "@solc" + string(b) + "@\n"
				abis = append(abis, string(b))
				all = append(all, ct)
			}
			// bind some of them, in some order
			bound := rapid.Permutation(all).Draw(c.T, "order")
			bound = bound[:rapid.IntRange(1, len(bound)).Draw(c.T, "bound")]
			if i == 0 && bound[0] != all[0] && rapid.IntRange(0, 3).Draw(c.T, "first too") > 0 {
				// all[0] has the functions of every type
				for k := range bound {
					if bound[k] == all[0] {
						bound = append(bound[:k:k], bound[k+1:]...)
						break
					}
				}
				bound = append([]*contract{all[0]}, bound...)
			}
			var sel, list []string
			for _, ct := range bound {
				sel = append(sel, ct.name)
			}
			for f, text := range files {
				s.write(filepath.Join(pkg, f), text)
				list = append(list, f)
			}
			sort.Strings(list)
			args := []string{"-c", strings.Join(sel, ",")}
			if rapid.Bool().Draw(c.T, "by flag") {
				args = append(args, "-p", pkg)
			}
			withCode := rapid.Bool().Draw(c.T, "-b")
			if withCode {
				args = append(args, "-b")
			}
			toFile := rapid.Bool().Draw(c.T, "-o")
			if toFile {
				args = append(args, "-o", "generated.go")
			}
			args = append(args, list...)
			stdout, stderr, err := s.run(pkg, append(env, "GOPACKAGE="+pkg), nil, bindgen, args...)
			if err != nil {
				c.Fatalf("bindgen %q of %s: %v\n%s", args, strings.Join(abis, "\n"), err, stderr)
			}
			if !toFile {
				s.write(filepath.Join(pkg, "generated.go"), stdout)
			} else if stdout != "" {
				c.Fatalf("bindgen %q prints %q", args, stdout)
			}
			src := mustRead(filepath.Join(s.dir, pkg, "generated.go"))
			f, err := parser.ParseFile(token.NewFileSet(), "generated.go", src, 0)
			if err != nil {
				c.Fatalf("bindgen %q of %s made a file that does not parse: %v\n%s", args, strings.Join(abis, "\n"), err, src)
			}
			var types []string
			vars := map[string]bool{}
			for _, d := range f.Decls {
				if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
					for _, sp := range g.Specs {
						for _, n := range sp.(*ast.ValueSpec).Names {
							vars[n.Name] = true
						}
					}
				}
				if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.TYPE {
					for _, sp := range g.Specs {
						types = append(types, sp.(*ast.TypeSpec).Name.Name)
					}
				}
			}
			want := append([]string{}, sel...)
			sort.Strings(want)
			sort.Strings(types)
			if !reflect.DeepEqual(want, types) {
				c.Fatalf("bindgen %q declares %v", args, types)
			}
			for _, ct := range bound {
				key := pkg + "." + ct.name
				fmt.Fprintf(&contracts, "\t%q: func(a *seth.Address, s *seth.Sender) interface{} { return %s.New%s(a, s) },\n", key, pkg, ct.name)
				if withCode && !vars[ct.name+"Code"] {
					c.Fatalf("bindgen %q declares no variable %sCode:\n%s", args, ct.name, src)
				}
				if !withCode && vars[ct.name+"Code"] {
					c.Fatalf("bindgen %q declares a variable %sCode:\n%s", args, ct.name, src)
				}
				if withCode && ct.name != "token" {
					fmt.Fprintf(&codes, "\t%q: %s.%sCode,\n", key, pkg, ct.name)
					wantCode[key] = hex.EncodeToString(ct.code)
				}
				title := map[string]int{}
				for _, fn := range ct.fns {
					title[strings.Title(fn.name)]++
				}
				for _, fn := range ct.fns {
					if fn.name[0] == '_' || fn.readonly() && len(fn.out) == 0 {
						continue
					}
					k := &call{Contract: key, Prefix: strings.Title(fn.name), fn: fn, Args: []value{}}
					k.Exact = title[k.Prefix] == 1
					var ref []interface{}
					for _, typ := range fn.in {
						v, r, _ := genValue(c.T, typ)
						k.Args, ref = append(k.Args, v), append(ref, r)
					}
					k.data = append(crypto.Keccak256([]byte(fn.sig()))[:4:4], pack(fn.in, ref)...)
					ref = nil
					for _, typ := range fn.out {
						_, r, sh := genValue(c.T, typ)
						ref, k.want = append(ref, r), append(k.want, sh)
					}
					k.Reply = "0x" + hex.EncodeToString(pack(fn.out, ref))
					h := gen.Hash().Draw(c.T, "hash")
					k.Hash = "0x" + hex.EncodeToString(h[:])
					k.Fail = rapid.IntRange(0, 9).Draw(c.T, "fail") == 0
					calls = append(calls, k)
				}
			}
		}
		s.write("main.go", strings.Replace(driver, "import (", "import (\n"+imports, 1)+
			"\nvar contracts = map[string]func(a *seth.Address, s *seth.Sender) interface{}{\n"+contracts.String()+"}\n"+
			"\nvar code = map[string][]byte{\n"+codes.String()+"}\n")
		prog := filepath.Join(s.dir, "driver")
		if _, stderr, err := s.run("", env, nil, "go", "build", "-o", prog, "."); err != nil {
			if !strings.Contains(stderr, "generated.go") {
				panic("HARNESS-ERROR " + stderr)
			}
			c.Fatalf("the bindings of\n%s\ndo not compile:\n%s", strings.Join(abis, "\n"), stderr)
		}
		to, from := gen.Address().Draw(c.T, "to"), gen.Address().Draw(c.T, "from")
		in, err := json.Marshal(calls)
		if err != nil {
			panic("HARNESS-ERROR " + err.Error())
		}
		stdout, stderr, err := s.run("", env, in, prog, hex.EncodeToString(to[:]), hex.EncodeToString(from[:]))
		if err != nil {
			c.Fatalf("the bindings of\n%s\ndie: %v\n%s", strings.Join(abis, "\n"), err, stderr)
		}
		var res struct {
			Calls [][]outcome
			Code  map[string]string
		}
		if err := json.Unmarshal([]byte(stdout), &res); err != nil || len(res.Calls) != len(calls) {
			panic("HARNESS-ERROR " + stdout)
		}
		if !reflect.DeepEqual(res.Code, wantCode) {
			c.Fatalf("the code is %v, want %v", res.Code, wantCode)
		}
		for i, k := range calls {
			why := ""
			for _, o := range res.Calls[i] {
				w := verify(k, &o, hex.EncodeToString(to[:]), hex.EncodeToString(from[:]))
				if w == "" {
					why = ""
					break
				}
				if why == "" || o.Skip == "" {
					why = fmt.Sprintf("%s %s", o.Name, w)
				}
			}
			if len(res.Calls[i]) == 0 {
				why = "there is no such method"
			}
			if why != "" {
				b, _ := json.Marshal(k.fn.json())
				c.Fatalf("%s %s with %v: %s", k.Contract, b, k.Args, why)
			}
			if len(k.fn.in)+len(k.fn.out) > 0 {
				c.NonTrivial(k.fn.sig(), k.fn.out, k.fn.mut, k.data)
			}
			c.Class(k.fn.in...)
			for _, o := range k.fn.out {
				c.Class("result " + o)
			}
			c.Class(k.fn.mut)
			if !k.Exact {
				c.Class("overloaded")
			}
		}
		if len(calls) > 0 {
			c.Sample("%s %s returns %v: %x", calls[0].fn.mut, calls[0].fn.sig(), calls[0].fn.out, calls[0].data)
		}
	})

	p.Check("refused", 30, 300, func(c *vk.C) {
		s := newScratch()
		defer os.RemoveAll(s.dir)
		f := genFunction(c.T)
		b, _ := json.Marshal(map[string]interface{}{"name": "Token", "code": "00", "abi": []interface{}{f.json()}})
		s.write("a.sol", "@solc"+string(b)+"@\n")
		env := []string{path, "FAKESOLC_LOG=" + filepath.Join(s.dir, "log"), "FAKESOLC_MODE=", "GOPACKAGE="}
		args := []string{"-c", "Token", "-p", "p"}
		file := "a.sol"
		how := rapid.SampledFrom([]string{"no such contract", "no such file", "one file of two", "the compiler fails", "source in error", "no room"}).Draw(c.T, "how")
		switch how {
		case "no such contract":
			args[1] = rapid.SampledFrom([]string{"", "token", "Tok", "TokenX", "Token,B", "Token,", "B,Token"}).Draw(c.T, "name")
		case "no such file":
			file = "b.sol"
		case "one file of two":
			args = append(args, rapid.SampledFrom([]string{"b.sol", ".", "a.sol/"}).Draw(c.T, "first"))
		case "the compiler fails":
			env[2] = "FAKESOLC_MODE=" + rapid.SampledFrom([]string{"exit", "garbage", "empty"}).Draw(c.T, "mode")
		case "source in error":
			s.write("a.sol", "@solc"+string(b)+"@\n@solc{\"type\":\"TypeError\",\"msg\":\"bad\"}@")
		}
		old := rapid.Bool().Draw(c.T, "old")
		if old {
			s.write("out.go", "old")
		}
		out := "out.go"
		if how == "no room" {
			out = rapid.SampledFrom([]string{"/dev/full", "no/such/out.go", "."}).Draw(c.T, "out")
		}
		args = append(args[:4:4], append([]string{"-o", out}, append(args[4:], file)...)...)
		stdout, stderr, err := s.run("", env, nil, bindgen, args...)
		ee, ok := err.(*exec.ExitError)
		if err == nil || !ok || strings.Contains(stderr, "panic:") || ee.ExitCode() == 2 || strings.TrimSpace(stderr) == "" {
			c.Fatalf("%s: bindgen %q ends with %v, %q and %q", how, args, err, stdout, stderr)
		}
		if now, err := os.ReadFile(filepath.Join(s.dir, "out.go")); old && string(now) != "old" || !old && err == nil {
			c.Fatalf("%s: bindgen %q wrote %q", how, args, now)
		}
		c.NonTrivial(how, args, f.sig(), old)
		c.Class(how)
	})
}

// verify says how a call differs from what the function describes.
func verify(k *call, o *outcome, to, from string) string {
	if o.Skip != "" {
		return "cannot be called: " + o.Skip
	}
	if o.Died != "" {
		return "panics: " + o.Died
	}
	want := "eth_sendTransaction"
	if k.fn.readonly() {
		want = "eth_call"
	}
	sent := false
	var asked []string
	for _, r := range o.Reqs {
		asked = append(asked, r.Method)
		if r.Method == "eth_estimateGas" && want != "eth_call" {
			continue
		}
		if r.Method != want {
			return "asks the node for " + r.Method
		}
		if sent {
			return "asks twice"
		}
		sent = true
		var opts struct{ From, To, Data, Value string }
		if len(r.Params) == 0 || json.Unmarshal(r.Params[0], &opts) != nil {
			return fmt.Sprintf("asks for %s", r.Params)
		}
		if opts.To != "0x"+to || opts.From != "0x"+from || opts.Value != "" || opts.Data != "0x"+hex.EncodeToString(k.data) {
			return fmt.Sprintf("sends %+v, want from %s to %s data %x", opts, from, to, k.data)
		}
	}
	if k.Fail {
		if o.Err == "" {
			return "gives no error"
		}
		return ""
	}
	if o.Err != "" {
		return "gives the error " + o.Err
	}
	if !sent {
		return fmt.Sprintf("asks for %v", asked)
	}
	if want == "eth_sendTransaction" {
		if len(o.Rets) != 1 || o.Rets[0] != "hash "+k.Hash[2:] {
			return fmt.Sprintf("returns %v for %s", o.Rets, k.Hash)
		}
		return ""
	}
	if len(o.Rets) != len(k.want) {
		return fmt.Sprintf("returns %v, want %v", o.Rets, k.want)
	}
	for i, w := range k.want {
		ok := false
		for _, form := range strings.Split(w, "|") {
			ok = ok || o.Rets[i] == form
		}
		if !ok {
			return fmt.Sprintf("result %d is %s, want %s", i, o.Rets[i], w)
		}
	}
	return ""
}
