package ercp

import (
	"fmt"
	"math/big"
	"os"
	"strings"
	"testing"

	"github.com/philhofer/seth"
	"github.com/philhofer/seth/tevm"
	"github.com/philhofer/seth/tevm/erc20"
	"pgregory.net/rapid"

	"verif/harness/vk"
)

// passes runs f as a test of its own and tells how it ended.
func passes(f func(t *testing.T)) (ok bool, panicked interface{}) {
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		panic("HARNESS-ERROR " + err.Error())
	}
	defer null.Close()
	out, errs := os.Stdout, os.Stderr
	os.Stdout, os.Stderr = null, null
	defer func() { os.Stdout, os.Stderr = out, errs }()
	ok = testing.RunTests(func(_, _ string) (bool, error) { return true, nil }, []testing.InternalTest{{Name: "TestToken", F: func(t *testing.T) {
		defer func() {
			if panicked = recover(); panicked != nil {
				t.Fail()
			}
		}()
		f(t)
	}}})
	return
}

func genToken(t *rapid.T) *token {
	return &token{failure: rapid.SampledFrom([]string{"revert", "invalid", "false"}).Draw(t, "failure"),
		trueWord: rapid.SampledFrom([]*big.Int{big.NewInt(1), big.NewInt(1), big.NewInt(256), new(big.Int).Lsh(big.NewInt(1), 255)}).Draw(t, "true"),
		slot:     int64(rapid.IntRange(0, 300).Draw(t, "slot")), minter: rapid.Bool().Draw(t, "minter"), burn: rapid.Bool().Draw(t, "burn")}
}

func (k *token) String() string {
	d := k.defect
	if d == "" {
		d = "none"
	}
	return fmt.Sprintf("a token that fails by %s, says yes with %x, burns: %v, defect: %s", k.failure, k.trueWord, k.burn, d)
}

// deploy makes a chain with a past and the token on it.
func deploy(c *vk.C, k *token) (*tevm.Chain, seth.Address, seth.Address) {
	chain := tevm.NewChain()
	owner := chain.NewAccount(rapid.IntRange(1, 5).Draw(c.T, "ether"))
	must := func(err error) {
		if err != nil {
			c.Fatalf("setting up: %v", err)
		}
	}
	logger, err := chain.Create(&owner, initcode(loggerCode()))
	must(err)
	past := func() {
		for i := rapid.IntRange(0, 3).Draw(c.T, "past"); i > 0; i-- {
			switch rapid.IntRange(0, 2).Draw(c.T, "event") {
			case 0:
				chain.Seal()
			case 1:
				h, z := seth.HashString("Transfer(address,address,uint256)"), seth.Hash{}
				data := append(append(append(h[:], z[:]...), z[:]...), z[:]...)
				_, _, err := chain.Mine(&seth.Transaction{From: &owner, To: &logger, Input: data, Gas: 1000000})
				must(err)
			default:
				chain.NewAccount(1)
			}
		}
	}
	past()
	k.logger = logger
	addr, err := chain.Create(&owner, initcode(k.code(owner)))
	must(err)
	past()
	return chain, owner, addr
}

func TestC48(t *testing.T) {
	p := vk.Start(t, "C48", "ERC-20 tokens, written in EVM code, of several styles of failing, answering and storing, on chains with a past, that comply or depart from the standard in one of some 110 ways; ABI descriptions that are the standard's or depart from them in one place; histories of the token helpers against a model; non-trivial: a distinct style and defect, description or history",
		"go-ethereum v1.9.2's EVM interpreter executes both sides")

	p.Check("compliance", 1200, 30000, func(c *vk.C) {
		k := genToken(c.T)
		if rapid.IntRange(0, 3).Draw(c.T, "comply") > 0 {
			k.defect = rapid.SampledFrom(defects(k.burn)).Draw(c.T, "defect")
		}
		chain, owner, addr := deploy(c, k)
		seals := rapid.IntRange(0, 2).Draw(c.T, "seal")
		claim := k.burn && (strings.Contains(k.defect, "burn") || strings.Contains(k.defect, "Supply") || strings.HasPrefix(k.defect, "transferFrom credits") || rapid.Bool().Draw(c.T, "claim"))
		ok, p := passes(func(t *testing.T) {
			erc20.TestCompliance(&erc20.Token{T: t, C: chain, Addr: &addr, Owner: &owner, HasBurn: claim,
				Mint: func(tok *erc20.Token, to *seth.Address, amt *seth.Int) error {
					if seals == 1 {
						tok.C.Seal()
					}
					_, err := tok.C.Call(tok.Owner, tok.Addr, "mint(address,uint256)", to, amt)
					if seals == 2 {
						tok.C.Seal()
					}
					return err
				}})
		})
		if p != nil {
			c.Fatalf("%v crashes the test: %v", k, p)
		}
		if ok != (k.defect == "") {
			c.Fatalf("%v: the test passes: %v", k, ok)
		}
		if ok {
			c.Class("complies")
		} else {
			c.Class("departs")
		}
		c.NonTrivial(k.String())
		c.Sample("%v", k)
	})

	p.Check("description", 4000, 80000, func(c *vk.C) {
		addr, num := seth.ABIParam{Name: "a", Type: "address"}, seth.ABIParam{Name: "n", Type: "uint256"}
		iaddr := seth.ABIParam{Name: "a", Type: "address", Indexed: true}
		fn := func(name string, constant bool, in ...seth.ABIParam) seth.ABIDescriptor {
			return seth.ABIDescriptor{Type: "function", Name: name, Inputs: in, Constant: constant, Mutability: map[bool]string{true: "view", false: "nonpayable"}[constant]}
		}
		abi := []seth.ABIDescriptor{
			fn("totalSupply", true), fn("balanceOf", true, addr), fn("allowance", true, addr, addr),
			fn("transfer", false, addr, num), fn("approve", false, addr, num), fn("transferFrom", false, addr, addr, num),
			{Type: "event", Name: "Transfer", Inputs: []seth.ABIParam{iaddr, iaddr, num}}, {Type: "event", Name: "Approval", Inputs: []seth.ABIParam{iaddr, iaddr, num}},
		}
		defect := "none"
		i := rapid.IntRange(0, len(abi)-1).Draw(c.T, "which")
		d := &abi[i]
		switch rapid.IntRange(0, 7).Draw(c.T, "defect") {
		case 0:
			defect = "no " + d.Name
			if rapid.Bool().Draw(c.T, "rename") {
				d.Name += "x"
			} else {
				abi = append(abi[:i], abi[i+1:]...)
			}
		case 1:
			defect = d.Name + " is another kind"
			d.Type = map[string]string{"function": "event", "event": "function"}[d.Type]
		case 2:
			if d.Type == "function" {
				defect = fmt.Sprintf("%s constant: %v", d.Name, !d.Constant)
				d.Constant = !d.Constant
			}
		case 3:
			if d.Type == "event" {
				j := rapid.IntRange(0, 1).Draw(c.T, "input")
				defect = fmt.Sprintf("%s does not index %d", d.Name, j)
				d.Inputs = append([]seth.ABIParam{}, d.Inputs...)
				d.Inputs[j].Indexed = false
			}
		case 4:
			if len(d.Inputs) > 0 {
				defect = d.Name + " takes something else"
				d.Inputs = append([]seth.ABIParam{}, d.Inputs...)
				switch rapid.IntRange(0, 2).Draw(c.T, "input") {
				case 0:
					d.Inputs[0].Type = "bytes32"
				case 1:
					d.Inputs = d.Inputs[:len(d.Inputs)-1]
				default:
					d.Inputs = append(d.Inputs, num)
				}
			}
		}
		for i := rapid.IntRange(0, 3).Draw(c.T, "more"); i > 0; i-- {
			abi = append(abi, rapid.SampledFrom([]seth.ABIDescriptor{fn("name", true), fn("mint", false, addr, num), {Type: "constructor", Inputs: []seth.ABIParam{num}}, {Type: "fallback", Payable: true},
				{Type: "event", Name: "Burn", Inputs: []seth.ABIParam{iaddr, num}}, fn("transfer", false, addr, num, num), fn("approve", true)}).Draw(c.T, "extra"))
		}
		order := rapid.Permutation(abi).Draw(c.T, "order")
		ok, p := passes(func(t *testing.T) { erc20.TestABICompliance(t, &seth.CompiledContract{Name: "T", ABI: order}) })
		if p != nil || ok != (defect == "none") {
			c.Fatalf("defect %s, %d descriptions: passes %v, panics %v", defect, len(order), ok, p)
		}
		c.Class(map[bool]string{true: "complies", false: "departs"}[ok])
		c.NonTrivial(defect, fmt.Sprint(len(order)))
	})

	p.Check("helpers", 250, 6000, func(c *vk.C) {
		k := genToken(c.T)
		chain, owner, addr := deploy(c, k)
		var trace []string
		accts := []seth.Address{owner}
		for i := 0; i < 3; i++ {
			accts = append(accts, chain.NewAccount(1))
		}
		bal := map[seth.Address]*big.Int{}
		allowed := map[[2]seth.Address]*big.Int{}
		supply := new(big.Int)
		get := func(a seth.Address) *big.Int {
			if bal[a] == nil {
				bal[a] = new(big.Int)
			}
			return bal[a]
		}
		type step struct {
			op      string
			a, b, o seth.Address
			amt     *big.Int
		}
		var steps []step
		who := rapid.SampledFrom(accts)
		for i := rapid.IntRange(3, 20).Draw(c.T, "steps"); i > 0; i-- {
			amt := big.NewInt(int64(rapid.IntRange(0, 300).Draw(c.T, "amount")))
			if rapid.IntRange(0, 3).Draw(c.T, "wide") == 0 {
				amt.Lsh(amt, 100)
			}
			steps = append(steps, step{rapid.SampledFrom([]string{"mint", "mint", "transfer", "transfer", "approve", "from", "from"}).Draw(c.T, "op"), who.Draw(c.T, "a"), who.Draw(c.T, "b"), who.Draw(c.T, "o"), amt})
		}
		wrong := ""
		ok, p := passes(func(t *testing.T) {
			tok := &erc20.Token{T: t, C: chain, Addr: &addr, Owner: &owner}
			said := func(ok bool, err error, want bool) {
				if ok && err != nil || ok != want || (want && err != nil) || (!want && k.failure == "false") != (err == nil && !want) {
					wrong = fmt.Sprintf("%v, %v; want %v", ok, err, want)
				}
			}
			for _, s := range steps {
				trace = append(trace, fmt.Sprintf("%s %s %s %s %v", s.op, s.a.String()[:6], s.b.String()[:6], s.o.String()[:6], s.amt))
				amt := seth.Int(*s.amt)
				switch s.op {
				case "mint":
					if _, err := chain.Call(&owner, &addr, "mint(address,uint256)", &s.a, &amt); err != nil {
						wrong = "mint: " + err.Error()
					}
					get(s.a).Add(get(s.a), s.amt)
					supply.Add(supply, s.amt)
				case "transfer":
					can := get(s.a).Cmp(s.amt) >= 0
					ok, err := tok.Transfer(&s.a, &s.b, &amt)
					said(ok, err, can)
					if can {
						get(s.a).Sub(get(s.a), s.amt)
						get(s.b).Add(get(s.b), s.amt)
					}
				case "approve":
					ok, err := tok.Approve(&s.a, &s.b, &amt)
					said(ok, err, true)
					allowed[[2]seth.Address{s.a, s.b}] = s.amt
				case "from":
					al := allowed[[2]seth.Address{s.o, s.a}]
					if al == nil {
						al = new(big.Int)
					}
					can := al.Cmp(s.amt) >= 0
					if k.failure == "false" && can && get(s.o).Cmp(s.amt) < 0 {
						// the token lowers the allowance before it says no
						trace = trace[:len(trace)-1]
						continue
					}
					can = can && get(s.o).Cmp(s.amt) >= 0
					ok, err := tok.TransferFrom(&s.a, &s.o, &s.b, &amt)
					said(ok, err, can)
					if can {
						allowed[[2]seth.Address{s.o, s.a}] = new(big.Int).Sub(al, s.amt)
						get(s.o).Sub(get(s.o), s.amt)
						get(s.b).Add(get(s.b), s.amt)
					}
				}
				for _, a := range accts {
					if got := tok.BalanceOf(&a).Big(); got.Cmp(get(a)) != 0 {
						wrong = fmt.Sprintf("%s has %v, not %v", a.String(), got, get(a))
					}
				}
				if got := tok.TotalSupply().Big(); got.Cmp(supply) != 0 {
					wrong = fmt.Sprintf("supply %v, not %v", got, supply)
				}
				if wrong != "" {
					return
				}
			}
		})
		if !ok || p != nil || wrong != "" {
			c.Fatalf("%v\nafter %s: %s (passes %v, panics %v)", k, strings.Join(trace, "; "), wrong, ok, p)
		}
		c.NonTrivial(k.String(), strings.Join(trace, ";"))
		c.Sample("%s", strings.Join(trace, "; "))
	})
}
