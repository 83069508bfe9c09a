package comp

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"
	"testing"

	"github.com/ethereum/go-ethereum/accounts/abi"
	"github.com/philhofer/seth"
	"pgregory.net/rapid"

	"verif/harness/vk"
)

// typ is a type of a parameter: an elementary type, or a tuple of components,
// and the array suffix.
type typ struct {
	base   string
	comps  []param
	suffix string
}

type param struct {
	name    string
	t       typ
	indexed bool
}

type desc struct {
	kind, name, mut         string
	inputs, outputs         []param
	payable, constant, anon bool
}

var bases = []string{"uint256", "uint8", "int256", "int8", "address", "bool", "bytes", "string", "bytes32", "bytes4", "uint64"}

func genTyp(t *rapid.T, depth int) typ {
	var y typ
	if depth > 0 && oneIn(t, 4, "tuple") {
		y.base = "tuple"
		y.comps = genParams(t, depth-1, false)
	} else {
		y.base = rapid.SampledFrom(bases).Draw(t, "base")
	}
	y.suffix = rapid.SampledFrom([]string{"", "", "", "[]", "[3]", "[][2]", "[2][]"}).Draw(t, "suffix")
	return y
}

func genParams(t *rapid.T, depth int, event bool) []param {
	var out []param
	for i, n := 0, rapid.IntRange(0, 3).Draw(t, "params"); i < n; i++ {
		p := param{name: rapid.SampledFrom([]string{"", "a", "to", "_x", "tuple"}).Draw(t, "pname"), t: genTyp(t, depth)}
		if event {
			p.indexed = rapid.Bool().Draw(t, "indexed")
		}
		out = append(out, p)
	}
	return out
}

// canonical is the type's canonical name.
func (y typ) canonical() string {
	if y.base == "tuple" {
		return list(y.comps) + y.suffix
	}
	return y.base + y.suffix
}

func list(ps []param) string {
	var s []string
	for _, p := range ps {
		s = append(s, p.t.canonical())
	}
	return "(" + strings.Join(s, ",") + ")"
}

func (d desc) signature() string { return d.name + list(d.inputs) }

func jsonParams(ps []param, event bool) []map[string]interface{} {
	out := []map[string]interface{}{}
	for _, p := range ps {
		m := map[string]interface{}{"name": p.name, "type": p.t.base + p.t.suffix}
		if p.t.base == "tuple" {
			m["components"] = jsonParams(p.t.comps, false)
		}
		if event {
			m["indexed"] = p.indexed
		}
		out = append(out, m)
	}
	return out
}

// json writes the description as the compiler does.
func (d desc) json() map[string]interface{} {
	m := map[string]interface{}{"type": d.kind}
	if d.kind != "fallback" {
		m["inputs"] = jsonParams(d.inputs, d.kind == "event")
	}
	switch d.kind {
	case "event":
		m["name"], m["anonymous"] = d.name, d.anon
		return m
	case "function":
		m["name"] = d.name
		m["outputs"] = jsonParams(d.outputs, false)
		m["constant"] = d.constant
	}
	m["payable"], m["stateMutability"] = d.payable, d.mut
	return m
}

func genDesc(t *rapid.T) desc {
	d := desc{kind: rapid.SampledFrom([]string{"function", "function", "function", "event", "event", "constructor", "fallback"}).Draw(t, "kind")}
	switch d.kind {
	case "function", "event":
		d.name = rapid.SampledFrom([]string{"f", "transfer", "Transfer", "g2", "_x", "f1"}).Draw(t, "name")
	}
	if d.kind != "fallback" {
		d.inputs = genParams(t, 2, d.kind == "event")
	}
	if d.kind == "function" {
		d.outputs = genParams(t, 1, false)
	}
	if d.kind == "event" {
		d.anon = rapid.Bool().Draw(t, "anonymous")
		return d
	}
	d.mut = rapid.SampledFrom([]string{"pure", "view", "nonpayable", "payable"}).Draw(t, "mutability")
	d.payable = d.mut == "payable"
	d.constant = d.kind == "function" && (d.mut == "pure" || d.mut == "view")
	return d
}

func wantParams(ps []param) []seth.ABIParam {
	var out []seth.ABIParam
	for _, p := range ps {
		out = append(out, seth.ABIParam{Name: p.name, Type: p.t.base + p.t.suffix, Indexed: p.indexed, Components: wantParams(p.t.comps)})
	}
	return out
}

func (d desc) want() seth.ABIDescriptor {
	return seth.ABIDescriptor{Type: d.kind, Name: d.name, Inputs: wantParams(d.inputs), Outputs: wantParams(d.outputs),
		Payable: d.payable, Mutability: d.mut, Constant: d.constant, Anonymous: d.anon}
}

// covers reports whether everything in a is in b.
func covers(b, a interface{}) bool {
	switch a := a.(type) {
	case map[string]interface{}:
		bm, ok := b.(map[string]interface{})
		if !ok {
			return false
		}
		for k, v := range a {
			if l, ok := v.([]interface{}); ok && len(l) == 0 && bm[k] == nil {
				continue
			}
			if !covers(bm[k], v) {
				return false
			}
		}
		return true
	case []interface{}:
		bl, ok := b.([]interface{})
		if !ok || len(bl) != len(a) {
			return false
		}
		for i := range a {
			if !covers(bl[i], a[i]) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(a, b)
}

func TestC23(t *testing.T) {
	p := vk.Start(t, "C23", "a case is non-trivial when the description has two or more entries, one of them with inputs")
	p.Check("descriptions", 4000, 150000, func(c *vk.C) {
		var ds []desc
		var docs []map[string]interface{}
		inputs := false
		for i, n := 0, rapid.IntRange(0, 6).Draw(c.T, "entries"); i < n; i++ {
			d := genDesc(c.T)
			if i > 0 && oneIn(c.T, 4, "overload") && (d.kind == "function" || d.kind == "event") {
				d.name = ds[i-1].name
			}
			ds = append(ds, d)
			docs = append(docs, d.json())
			inputs = inputs || len(d.inputs) > 0
		}
		raw, err := json.Marshal(docs)
		if err != nil {
			panic("HARNESS-ERROR " + err.Error())
		}
		if len(ds) > 1 && inputs {
			c.NonTrivial(raw)
			c.Sample("%s", raw)
		}
		b := &seth.CompiledBundle{}
		cname := rapid.SampledFrom([]string{"C", "D", "other", "OTHER", "Oth", "Others", "e", ""}).Draw(c.T, "contract")
		// names that differ in case, or of which one begins the other, are different
		b.Contracts = []seth.CompiledContract{{Name: "Other", ABI: []seth.ABIDescriptor{{Type: "function", Name: "f"}}}, {Name: cname}, {Name: "E"}}
		if err := json.Unmarshal(raw, &b.Contracts[1].ABI); err != nil {
			c.Fatalf("reading %s: %s", raw, err)
		}
		con := b.Contract(cname)
		if con != &b.Contracts[1] {
			c.Fatalf("Contract(%q) is %p", cname, con)
		}
		for _, name := range []string{"F", "c", "d", "oTHER", "O", "Other "} {
			if x := b.Contract(name); x != nil {
				c.Fatalf("Contract(%q) among Other, %q and E = %+v", name, cname, x)
			}
		}
		if len(con.ABI) != len(ds) {
			c.Fatalf("%d entries read from %s", len(con.ABI), raw)
		}
		first := map[string]int{}
		for i, d := range ds {
			w := d.want()
			if !sameVal(con.ABI[i], w) {
				c.Fatalf("read %+v, want %+v", con.ABI[i], w)
			}
			sig := con.ABI[i].Signature()
			if sig != d.signature() {
				c.Fatalf("the signature of %+v is %q, want %q", con.ABI[i], sig, d.signature())
			}
			if _, ok := first[sig]; !ok {
				first[sig] = i
			}
			// the reference implementation agrees on the selector
			if d.kind == "function" && !hasEmptyTuple(d.inputs) {
				ref := d
				ref.inputs, ref.outputs = rename(d.inputs), nil
				one, _ := json.Marshal([]interface{}{ref.json()})
				if ref, err := abi.JSON(strings.NewReader(string(one))); err == nil {
					for _, m := range ref.Methods {
						if m.Sig() != sig {
							c.Fatalf("go-ethereum's signature is %q, ours %q", m.Sig(), sig)
						}
						c.Class("compared with go-ethereum")
					}
				}
			}
			out, err := json.Marshal(&con.ABI[i])
			if err != nil {
				c.Fatalf("writing %+v: %s", con.ABI[i], err)
			}
			var back seth.ABIDescriptor
			if err := json.Unmarshal(out, &back); err != nil || !sameVal(back, w) {
				c.Fatalf("%+v written as %s and read back as %+v (%v)", w, out, back, err)
			}
			var ga, gb interface{}
			in, _ := json.Marshal(docs[i])
			json.Unmarshal(in, &ga)
			json.Unmarshal(out, &gb)
			if !covers(gb, ga) {
				c.Fatalf("%s was written back as %s", in, out)
			}
		}
		probes := []string{"", "f", "f(", "f()", "transfer()", "(address)", "()", "f(uint256,)", "f(tuple)", "nothing(uint256)"}
		for _, d := range ds {
			s := d.signature()
			probes = append(probes, s, s+" ", strings.ToUpper(s), strings.Replace(s, ",", ", ", 1), d.name, s[:len(s)-1], strings.Replace(s, "uint256", "uint", 1))
		}
		for _, s := range probes {
			got := con.Find(s)
			i, ok := first[s]
			if !ok && got != nil {
				c.Fatalf("Find(%q) = %+v in %s", s, got, raw)
			}
			if ok && got != &con.ABI[i] {
				c.Fatalf("Find(%q) = %+v, want entry %d of %s", s, got, i, raw)
			}
		}
	})
}

func hasEmptyTuple(ps []param) bool {
	for _, p := range ps {
		if p.t.base == "tuple" && (len(p.t.comps) == 0 || hasEmptyTuple(p.t.comps)) {
			return true
		}
	}
	return false
}

// rename gives parameters names that are distinct, as go-ethereum needs.
func rename(ps []param) []param {
	var out []param
	for i, p := range ps {
		p.name = fmt.Sprintf("p%d", i)
		p.t.comps = rename(p.t.comps)
		out = append(out, p)
	}
	return out
}
