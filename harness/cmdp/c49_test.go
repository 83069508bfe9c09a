package cmdp

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"net"
	"os"
	"os/exec"
	"regexp"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/philhofer/seth"
	"pgregory.net/rapid"

	"verif/harness/gen"
	"verif/harness/vk"
)

// lines collects what a process writes.
type lines struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *lines) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.Write(p)
}

func (l *lines) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.String()
}

// server is a running tevmd.
type server struct {
	url  string
	acct seth.Address
	out  *lines
	stop func()
	code int
}

var defaultAccount = regexp.MustCompile(`0x[0-9a-f]{40}\b`)

// tevmd starts the program and waits until it serves, or ends: then url is empty.
func tevmd(dir string, args ...string) *server {
	bin := os.Getenv("VK_BIN_TEVMD")
	if bin == "" {
		panic("HARNESS-ERROR no tevmd")
	}
	for try := 0; ; try++ {
		// an address nobody else uses: a port of 127.0.0.1 may be taken by
		// the time the program binds it, or be connected to itself
		pid := os.Getpid()
		l, err := net.Listen("tcp", fmt.Sprintf("127.%d.%d.%d:0", 1+pid>>16&63, pid>>8&255, pid&255))
		if err != nil {
			l, err = net.Listen("tcp", "127.0.0.1:0")
		}
		check(err)
		addr := l.Addr().String()
		l.Close()
		s := &server{out: &lines{}}
		cmd := exec.Command(bin, append([]string{"-a", addr}, args...)...)
		cmd.Dir, cmd.Env = dir, []string{"HOME=" + dir, "PATH=" + os.Getenv("PATH")}
		cmd.Stdout, cmd.Stderr = s.out, s.out
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		check(cmd.Start())
		ended := make(chan bool)
		go func() {
			err := cmd.Wait()
			if _, ok := err.(*exec.ExitError); err != nil && !ok {
				s.code = -2
			} else {
				s.code = cmd.ProcessState.ExitCode()
			}
			close(ended)
		}()
		s.stop = func() { cmd.Process.Kill(); <-ended }
		for deadline := time.Now().Add(60 * time.Second); ; {
			select {
			case <-ended:
			case <-time.After(2 * time.Millisecond):
				cn, err := net.DialTimeout("tcp", addr, time.Second)
				if err != nil {
					if time.Now().After(deadline) {
						s.stop()
						return s
					}
					continue
				}
				cn.Close()
				select {
				case <-ended: // something else has the port
				default:
					s.url = "http://" + addr
				}
			}
			break
		}
		if s.url == "" && strings.Contains(s.out.String(), "address already in use") && try < 20 {
			continue
		}
		if s.url != "" {
			for i := 0; i < 500 && !defaultAccount.MatchString(s.out.String()); i++ {
				time.Sleep(10 * time.Millisecond)
			}
			if a := defaultAccount.FindString(s.out.String()); a != "" {
				p, err := seth.ParseAddress(a)
				check(err)
				s.acct = *p
			}
		}
		return s
	}
}

type netAcct struct {
	addr  seth.Address
	bal   *big.Int
	nonce uint64
	code  []byte
	slot0 []byte
}

func TestC49(t *testing.T) {
	p := vk.Start(t, "C49", "runs of tevmd with a chain of its own, or a fork of a stand-in node (over HTTP or a socket, at the latest block or a given one), followed by queries and transfers over HTTP whose answers are predicted from the node's accounts; runs with wrong arguments and failing nodes; non-trivial: a distinct run")

	ether, _ := new(big.Int).SetString("1000000000000000000", 10)

	p.Check("serves", 60, 1500, func(c *vk.C) {
		dir := scratch()
		defer os.RemoveAll(dir)
		fork := !oneIn(c.T, 4, "own chain")
		latest := uint64(rapid.IntRange(0, 1<<40).Draw(c.T, "latest"))
		at := latest
		var accts []netAcct
		// the code of a contract answers what is in slot 0
		reader := []byte{0x60, 0, 0x54, 0x60, 0, 0x52, 0x60, 32, 0x60, 0, 0xf3}
		for i := 0; fork && i < 4; i++ {
			a := netAcct{addr: seth.Address{0: 0xaa, 7: gen.Byte().Draw(c.T, "addr"), 19: byte(i + 1)}, bal: gen.Big(90).Draw(c.T, "bal"), nonce: gen.Uint64().Draw(c.T, "nonce") / 2, slot0: gen.Bytes(32, 32).Draw(c.T, "slot")}
			if i >= 2 {
				a.code = append(append([]byte{}, reader...), gen.Bytes(0, 8).Draw(c.T, "tail")...)
			}
			accts = append(accts, a)
		}
		var args []string
		desc := "own chain"
		bad := ""
		var n *node
		if fork {
			answer := func(r request) (interface{}, string) {
				if r.Method == "eth_getBlockByNumber" {
					if len(r.Params) != 2 || string(r.Params[0]) != `"latest"` {
						bad = r.String()
					}
					h := seth.HashString("b")
					return map[string]interface{}{"number": fmt.Sprintf("0x%x", latest), "hash": h.String(), "transactions": []string{}, "timestamp": "0x5", "gasLimit": "0x5b8d80", "gasUsed": "0x0", "difficulty": "0x1", "extraData": "0x"}, ""
				}
				if len(r.Params) == 0 || string(r.Params[len(r.Params)-1]) != fmt.Sprintf(`"0x%x"`, at) && (at != 0 || string(r.Params[len(r.Params)-1]) != `"earliest"`) {
					bad = fmt.Sprintf("%s, not at 0x%x", r, at)
				}
				var who string
				if len(r.Params) > 0 {
					json.Unmarshal(r.Params[0], &who)
				}
				a := netAcct{bal: new(big.Int), slot0: make([]byte, 32)}
				for _, x := range accts {
					if x.addr.String() == strings.ToLower(who) {
						a = x
					}
				}
				switch r.Method {
				case "eth_getBalance":
					return quantity(a.bal), ""
				case "eth_getTransactionCount":
					return fmt.Sprintf("0x%x", a.nonce), ""
				case "eth_getCode":
					return hx(a.code), ""
				case "eth_getStorageAt":
					var k string
					json.Unmarshal(r.Params[1], &k)
					if v, ok := new(big.Int).SetString(strings.TrimPrefix(k, "0x"), 16); !ok || v.Sign() != 0 {
						return hx(make([]byte, 32)), ""
					}
					return hx(a.slot0), ""
				}
				bad = r.String()
				return nil, "unexpected"
			}
			ipc := rapid.Bool().Draw(c.T, "ipc")
			n = newNode(dir, ipc, answer)
			defer n.close()
			args = append(args, "-e", n.url)
			if oneIn(c.T, 3, "verbose") {
				args = append(args, "-v")
			}
			args = append(args, "fork")
			desc = fmt.Sprintf("fork at the latest block %d, ipc %v", latest, ipc)
			if rapid.Bool().Draw(c.T, "at a block") {
				at = uint64(rapid.IntRange(0, 1<<40).Draw(c.T, "block"))
				args = append(args, strings.Repeat("0", rapid.SampledFrom([]int{0, 0, 1, 3}).Draw(c.T, "leading zeros"))+fmt.Sprint(at))
				desc = fmt.Sprintf("fork at block %d, ipc %v", at, ipc)
			}
		} else if oneIn(c.T, 3, "verbose") {
			args = append(args, "-v")
		}
		fail := func(f string, a ...interface{}) {
			c.Fatalf("tevmd %s (%s): %s", strings.Join(args, " "), desc, fmt.Sprintf(f, a...))
		}
		s := tevmd(dir, args...)
		if s.url == "" {
			fail("does not serve: exit %d, %s", s.code, clip(s.out.String()))
		}
		defer s.stop()
		if s.acct.Zero() {
			fail("names no default account: %s", clip(s.out.String()))
		}
		cl := seth.NewHTTPClient(s.url)
		mine, err := cl.GetBalance(&s.acct)
		if err != nil || mine.Big().Cmp(ether) < 0 {
			fail("the default account has %v, %v", mine.Big(), err)
		}
		bal := map[seth.Address]*big.Int{s.acct: new(big.Int).Set(mine.Big())}
		nonce := map[seth.Address]uint64{}
		for _, a := range accts {
			bal[a.addr], nonce[a.addr] = new(big.Int).Set(a.bal), a.nonce
		}
		all := []seth.Address{s.acct, {0: 0xdd}}
		bal[all[1]] = new(big.Int)
		for _, a := range accts {
			all = append(all, a.addr)
		}
		look := func() {
			for _, a := range all {
				if got, err := cl.GetBalance(&a); err != nil || got.Big().Cmp(bal[a]) != 0 {
					fail("%s has %v, %v, not %v", a.String(), got.Big(), err, bal[a])
				}
				if got, err := cl.GetNonce(&a); err != nil || uint64(got) != nonce[a] {
					fail("the nonce of %s is %v, %v, not %v", a.String(), got, err, nonce[a])
				}
			}
			for _, a := range accts {
				a := a
				if code, err := cl.GetCode(&a.addr); err != nil || !bytes.Equal(code, a.code) {
					fail("the code of %s is %x, %v, not %x", a.addr.String(), code, err, a.code)
				}
				if v, err := cl.StorageAt(&a.addr, new(seth.Hash), seth.Latest); err != nil || !bytes.Equal(v[:], a.slot0) {
					fail("slot 0 of %s is %x, %v, not %x", a.addr.String(), v[:], err, a.slot0)
				}
				if a.code != nil {
					var out seth.Data
					if err := cl.ConstCall(&seth.CallOpts{From: &s.acct, To: &a.addr}, &out, rapid.Bool().Draw(c.T, "pending")); err != nil || !bytes.Equal(out, a.slot0) {
						fail("calling %s gives %x, %v, not %x", a.addr.String(), []byte(out), err, a.slot0)
					}
				}
			}
			if bad != "" {
				fail("the node was asked %s", bad)
			}
		}
		first, err := cl.GetBlock(seth.Pending, false)
		if err != nil || first.Number == nil {
			fail("no pending block: %v", err)
		}
		if fork && uint64(*first.Number) != at+1 {
			fail("the pending block is %d", uint64(*first.Number))
		}
		if rapid.Bool().Draw(c.T, "look") {
			look()
		}
		for i := rapid.IntRange(0, 4).Draw(c.T, "transfers"); i > 0; i-- {
			from := rapid.SampledFrom(all).Draw(c.T, "from")
			to := rapid.SampledFrom(all).Draw(c.T, "to")
			amt := gen.Big(64).Draw(c.T, "amount")
			if oneIn(c.T, 2, "what there is") && bal[from].Sign() > 0 {
				amt = new(big.Int).Rsh(bal[from], uint(rapid.IntRange(0, 3).Draw(c.T, "share")))
			}
			one := seth.Int(*big.NewInt(1))
			gas := seth.NewInt(30000)
			fee := big.NewInt(21000)
			isCode := false
			for _, a := range accts {
				isCode = isCode || (a.addr == from || a.addr == to) && a.code != nil
			}
			if isCode || bal[from].Cmp(new(big.Int).Add(amt, big.NewInt(30000))) < 0 {
				continue
			}
			v := seth.Int(*amt)
			h, err := cl.Call(&seth.CallOpts{From: &from, To: &to, Value: &v, Gas: gas, GasPrice: &one})
			if err != nil {
				fail("sending %v from %s to %s: %v", amt, from.String(), to.String(), err)
			}
			bal[from].Sub(bal[from], amt)
			bal[to].Add(bal[to], amt)
			nonce[from]++
			rx, err := cl.GetReceipt(&h)
			if err != nil || rx.Threw() || rx.Hash != h {
				fail("the receipt of a transfer is %+v, %v", rx, err)
			}
			// what the fee is, and who gets it, is the chain's business
			after, err := cl.GetBalance(&from)
			if err != nil {
				fail("balance: %v", err)
			}
			paid := new(big.Int).Sub(bal[from], after.Big())
			if paid.Sign() != 0 && paid.Cmp(fee) != 0 {
				fail("a transfer of %v with a fee of at most %v took %v more", amt, fee, paid)
			}
			bal[from] = new(big.Int).Set(after.Big())
		}
		look()
		c.Class(strings.Fields(desc)[0])
		c.NonTrivial(desc, fmt.Sprint(accts))
		c.Sample("tevmd %s", strings.Join(args, " "))
	})

	p.Check("refuses", 40, 800, func(c *vk.C) {
		dir := scratch()
		defer os.RemoveAll(dir)
		mode := rapid.SampledFrom([]string{"down", "error", "null", "garbage", "not found", "number", "many"}).Draw(c.T, "mode")
		n := newNode(dir, rapid.Bool().Draw(c.T, "ipc"), func(r request) (interface{}, string) {
			switch mode {
			case "error":
				return nil, "busy"
			case "null":
				return nil, ""
			}
			return "garbage", ""
		})
		defer n.close()
		args := []string{"-e", n.url, "fork"}
		switch mode {
		case "down":
			if n.status = 503; !strings.HasPrefix(n.url, "http") {
				n.close()
			}
		case "not found":
			args[1] = dir + "/" + rapid.StringMatching(`[a-g]{1,8}`).Draw(c.T, "name")
		case "number":
			args = append(args, rapid.SampledFrom([]string{"x", "", "12x", "1.5", "0x", "0x10", "1_0", "0b11", "latest", "99999999999999999999", "1 2"}).Draw(c.T, "number"))
		case "many":
			args = append(args, "1", "2")
		}
		s := tevmd(dir, args...)
		if s.url != "" {
			s.stop()
			c.Fatalf("tevmd %s serves (%s): %s", strings.Join(args, " "), mode, clip(s.out.String()))
		}
		if out := s.out.String(); s.code <= 0 || strings.TrimSpace(out) == "" || strings.Contains(out, "runtime error") {
			c.Fatalf("tevmd %s (%s): exit %d, %s", strings.Join(args, " "), mode, s.code, clip(out))
		}
		c.Class(mode)
		c.NonTrivial(strings.Join(args[2:], " "), mode)
	})
}
