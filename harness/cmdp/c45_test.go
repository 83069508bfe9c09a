package cmdp

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"testing"

	"github.com/ethereum/go-ethereum/common"
	"pgregory.net/rapid"

	"verif/harness/gen"
	"verif/harness/vk"
)

// rawBlock is block num of the stand-in's chain as JSON; num < 0: the pending one.
func rawBlock(t *rapid.T, num int64, pending bool, txs int) map[string]interface{} {
	h := func() string { x := gen.Hash().Draw(t, "h"); return hx(x[:]) }
	q := func() string { return fmt.Sprintf("0x%x", gen.Uint64().Draw(t, "q")>>1) }
	a := gen.Address().Draw(t, "miner")
	m := map[string]interface{}{
		"number": fmt.Sprintf("0x%x", num), "hash": h(), "parentHash": h(), "nonce": fmt.Sprintf("0x%016x", gen.Uint64().Draw(t, "nonce")),
		"sha3Uncles": h(), "logsBloom": hx(gen.Bytes(1, 40).Draw(t, "bloom")), "transactionsRoot": h(), "stateRoot": h(), "receiptsRoot": h(),
		"miner": hx(a[:]), "gasLimit": q(), "gasUsed": q(), "difficulty": quantity(gen.Big(256).Draw(t, "d")), "totalDifficulty": quantity(gen.Big(256).Draw(t, "td")),
		"timestamp": q(), "extraData": hx(gen.Bytes(1, 32).Draw(t, "extra")),
	}
	if pending {
		m["hash"] = nil
		if rapid.Bool().Draw(t, "unnumbered") {
			m["number"] = nil
		}
	}
	uncles := []interface{}{}
	for i := rapid.IntRange(0, 2).Draw(t, "uncles"); i > 0; i-- {
		uncles = append(uncles, h())
	}
	list := []interface{}{}
	for i := 0; i < txs; i++ {
		list = append(list, map[string]interface{}{"hash": h(), "value": q(), "input": hx(gen.Bytes(0, 20).Draw(t, "input")), "to": hx(a[:]), "extra": float64(i)})
	}
	m["uncles"], m["transactions"] = uncles, list
	return m
}

// sameJSON compares what is printed with what the node said.
func sameBlock(got, want map[string]interface{}) string {
	for k, w := range want {
		g := got[k]
		ws, ok := w.(string)
		if !ok {
			gj, _ := json.Marshal(g)
			wj, _ := json.Marshal(w)
			if string(gj) != string(wj) && !(string(wj) == "[]" && string(gj) == "null") {
				return fmt.Sprintf("%s is %s, want %s", k, gj, wj)
			}
			continue
		}
		gs, _ := g.(string)
		switch k {
		case "number", "nonce", "gasLimit", "gasUsed", "difficulty", "totalDifficulty", "timestamp":
			x, ok := new(big.Int).SetString(strings.TrimPrefix(gs, "0x"), 16)
			y, _ := new(big.Int).SetString(ws[2:], 16)
			if !ok || !strings.HasPrefix(gs, "0x") || x.Cmp(y) != 0 {
				return fmt.Sprintf("%s is %q, want %q", k, gs, ws)
			}
		default:
			if gs != ws {
				return fmt.Sprintf("%s is %q, want %q", k, gs, ws)
			}
		}
	}
	return ""
}

func documents(out string) (docs []map[string]interface{}, err error) {
	d := json.NewDecoder(strings.NewReader(out))
	for d.More() {
		var m map[string]interface{}
		if err = d.Decode(&m); err != nil {
			return
		}
		docs = append(docs, m)
	}
	return
}

// spec is a block specifier and the blocks it stands for.
type spec struct {
	text string
	want []int64 // of numbered blocks; -1: latest, -2: pending
	bad  bool    // must end with an error, with at most the blocks before it printed
	must bool    // ... and is not even a question
}

// genSpecifier draws a specifier; the node knows blocks up to top by their numbers, which
// may leave out the pending one.
func genSpecifier(t *rapid.T, head, top int64) spec {
	number := func(n int64) string {
		if rapid.IntRange(0, 2).Draw(t, "hex") == 0 {
			return fmt.Sprintf("0x%x", n)
		}
		return fmt.Sprint(n)
	}
	num := func() int64 {
		switch rapid.IntRange(0, 3).Draw(t, "where") {
		case 0:
			return int64(rapid.IntRange(0, 3).Draw(t, "low"))
		case 1:
			return head - int64(rapid.IntRange(0, 3).Draw(t, "high"))
		}
		return int64(rapid.IntRange(0, int(head)).Draw(t, "number"))
	}
	switch rapid.IntRange(0, 12).Draw(t, "specifier") {
	case 0, 1:
		n := num()
		if n < 0 {
			n = 0
		}
		if n > top {
			return spec{text: number(n), bad: true}
		}
		return spec{text: number(n), want: []int64{n}}
	case 2:
		return spec{text: "latest", want: []int64{-1}}
	case 3:
		return spec{text: "pending", want: []int64{-2}}
	case 4:
		return spec{text: "earliest", want: []int64{0}}
	case 5: // no such block
		n := head + 2 + int64(rapid.IntRange(0, 5).Draw(t, "beyond"))
		return spec{text: number(n), bad: true}
	case 6:
		return spec{text: rapid.SampledFrom([]string{"", "x", "last", "Latest", "1.5", "0x", "0xg", "1e3", "latest ", "5+", "+5", "5+x", "5+1+1", "latest-", "5-1-1", "1+2-1", "0x10000000000000000", "9223372036854775808", "x-3", "5+-3", "5+-1", "latest-latest", "5-0xg"}).Draw(t, "nonsense"), bad: true, must: true}
	}
	var text string
	var start int64
	switch rapid.IntRange(0, 4).Draw(t, "from") {
	case 0:
		text, start = "latest", head
	case 1:
		text, start = "pending", head+1
	case 2:
		text, start = "earliest", 0
	default:
		start = num()
		if start < 0 {
			start = 0
		}
		text = number(start)
	}
	count := int64(rapid.IntRange(0, 6).Draw(t, "count"))
	if oneIn(t, 5, "long") {
		count = int64(rapid.IntRange(0, 20).Draw(t, "long count"))
	}
	s := spec{}
	op, d := "+", int64(1)
	if rapid.Bool().Draw(t, "down") {
		op, d = "-", -1
		if oneIn(t, 3, "to the bottom") && start < 15 {
			count = start + int64(rapid.IntRange(0, 3).Draw(t, "about"))
		}
	}
	s.text = text + op + number(count)
	for i := int64(0); i < count; i++ {
		n := start + d*i
		if n < 0 || n > top && (i > 0 || text != "pending") {
			s.bad = true
			return s
		}
		s.want = append(s.want, n)
	}
	return s
}

func TestC45(t *testing.T) {
	p := vk.Start(t, "C45", "balances, code, blocks and ranges of blocks (numbers, names and ranges up and down, beyond either end, nonsense), return values of every type and raw transactions, asked of a stand-in node over HTTP or a socket that answers as drawn, not at all or with an error; non-trivial: a distinct answer printed",
		"the pending block is one above the latest; a range below block zero may end with an error or at block zero; bytesN results may be printed with their padding")

	ask := func(c *vk.C, dir string, n *node, unset bool, args ...string) result {
		env := map[string]string{"SETH_URL": n.url}
		if unset {
			delete(env, "SETH_URL")
		}
		return tool{dir: dir, env: env}.run(args...)
	}
	// where starts a node; the tool finds it by its URL, its path or, unset, in the usual place.
	where := func(c *vk.C, dir string, answer func(r request) (interface{}, string)) (*node, bool) {
		switch rapid.IntRange(0, 3).Draw(c.T, "node") {
		case 0:
			return newNode(dir, true, answer), false
		case 1:
			d := filepath.Join(dir, ".ethereum")
			check(os.MkdirAll(d, 0777))
			n := newNode(d, true, answer)
			// its socket has another name there
			check(os.Rename(n.url, filepath.Join(d, "geth.ipc")))
			return n, true
		}
		return newNode(dir, false, answer), false
	}

	p.Check("balance", 150, 6000, func(c *vk.C) {
		dir := scratch()
		defer os.RemoveAll(dir)
		form := rapid.SampledFrom([]string{"", "-d", "-x"}).Draw(c.T, "form")
		args := []string{"balance"}
		if form != "" {
			args = append(args, form)
		}
		bals := map[string]*big.Int{}
		var want []*big.Int
		badAt, failAt := -1, ""
		k := rapid.IntRange(1, 4).Draw(c.T, "accounts")
		if oneIn(c.T, 4, "bad") {
			badAt = rapid.IntRange(0, k-1).Draw(c.T, "at")
		}
		fails := oneIn(c.T, 5, "fails")
		for i := 0; i < k; i++ {
			a := gen.Address().Draw(c.T, "account")
			x := gen.Big(256).Draw(c.T, "balance")
			if rapid.Bool().Draw(c.T, "round") {
				x = new(big.Int).Mul(big.NewInt(int64(rapid.IntRange(0, 5000).Draw(c.T, "n"))), new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(rapid.IntRange(0, 20).Draw(c.T, "zeros"))), nil))
			}
			s := hx(a[:])
			if old := bals[s]; old != nil {
				x = old
			}
			bals[s] = x
			want = append(want, x)
			if fails && i == k-1 {
				failAt = s
			}
			if i == badAt {
				s = rapid.SampledFrom([]string{"0x", "", s[:40], s + "0", s + "00", "main", "0x" + strings.Repeat("g", 40)}).Draw(c.T, "bad address")
			}
			args = append(args, s)
		}
		n, unset := where(c, dir, func(r request) (interface{}, string) {
			var a, at string
			if r.Method != "eth_getBalance" || len(r.Params) != 2 || json.Unmarshal(r.Params[0], &a) != nil || json.Unmarshal(r.Params[1], &at) != nil || at != "latest" || bals[a] == nil {
				return nil, "not asked for: " + r.String()
			}
			if a == failAt {
				return nil, "no balance"
			}
			return quantity(bals[a]), ""
		})
		defer n.close()
		r := ask(c, dir, n, unset, args...)
		if badAt >= 0 || failAt != "" {
			if !r.failed() || badAt >= 0 && (r.out != "" || len(n.reqs) > 0) {
				c.Fatalf("eth %q: %v, asks for %v", args, r, n.reqs)
			}
			c.Class("refused")
			return
		}
		lines := strings.Split(strings.TrimSuffix(r.out, "\n"), "\n")
		if r.code != 0 || len(lines) != len(want) || len(n.reqs) != len(want) {
			c.Fatalf("eth %q: %v, asks for %v; want %v", args, r, n.reqs, want)
		}
		for i, l := range lines {
			ok := false
			switch form {
			case "-d":
				ok = l == want[i].String()
			case "-x":
				ok = l == quantity(want[i])
			default:
				q, k := new(big.Rat).SetString(strings.TrimSuffix(l, " ETH"))
				e := new(big.Rat).SetFrac(want[i], new(big.Int).Exp(big.NewInt(10), big.NewInt(18), nil))
				ok = k && strings.HasSuffix(l, " ETH") && q.Cmp(e) == 0 && !strings.ContainsAny(l, "e/_x")
			}
			if !ok {
				c.Fatalf("eth %q prints %q for a balance of %v wei", args, l, want[i])
			}
		}
		c.NonTrivial(form, r.out)
		c.Class("form " + form)
		c.Sample("eth %q: %q", args, clip(r.out))
	})

	p.Check("code", 80, 3000, func(c *vk.C) {
		dir := scratch()
		defer os.RemoveAll(dir)
		a := gen.Address().Draw(c.T, "account")
		code := gen.Bytes(0, 400).Draw(c.T, "code")
		text := hx(a[:])
		bad := oneIn(c.T, 6, "bad")
		if bad {
			text = rapid.SampledFrom([]string{"0x", "", text[:40], text + "0", "main"}).Draw(c.T, "bad address")
		}
		fails := oneIn(c.T, 6, "fails")
		n, unset := where(c, dir, func(r request) (interface{}, string) {
			if r.Method != "eth_getCode" || len(r.Params) != 2 || string(r.Params[0]) != fmt.Sprintf("%q", hx(a[:])) || string(r.Params[1]) != `"latest"` || fails {
				return nil, "not asked for: " + r.String()
			}
			return hx(code), ""
		})
		defer n.close()
		r := ask(c, dir, n, unset, "code", text)
		if bad || fails {
			if !r.failed() || r.out != "" || bad && len(n.reqs) > 0 {
				c.Fatalf("eth code %s: %v, asks for %v", text, r, n.reqs)
			}
			c.Class("refused")
			return
		}
		if r.code != 0 || strings.TrimPrefix(strings.TrimSuffix(r.out, "\n"), "0x") != hex.EncodeToString(code) {
			c.Fatalf("eth code %s: %v; want %x", text, r, code)
		}
		c.NonTrivial(code)
	})

	p.Check("block", 300, 12000, func(c *vk.C) {
		dir := scratch()
		defer os.RemoveAll(dir)
		head := int64(rapid.IntRange(0, 12).Draw(c.T, "head"))
		top := head + 1
		if rapid.Bool().Draw(c.T, "pending not by number") {
			top = head
		}
		blocks := map[int64]map[string]interface{}{}
		full := map[int64]int{}
		get := func(i int64) map[string]interface{} {
			if blocks[i] == nil {
				full[i] = rapid.IntRange(0, 2).Draw(c.T, "txs")
				blocks[i] = rawBlock(c.T, i, i == head+1, full[i])
			}
			return blocks[i]
		}
		var specs []spec
		for i := rapid.IntRange(0, 3).Draw(c.T, "specifiers"); i > 0; i-- {
			s := genSpecifier(c.T, head, top)
			specs = append(specs, s)
			if s.bad {
				break
			}
		}
		args := []string{"block"}
		var want []int64
		bad := false
		for _, s := range specs {
			args = append(args, s.text)
			bad = bad || s.bad
			for _, w := range s.want {
				switch w {
				case -1:
					w = head
				case -2:
					w = head + 1
				}
				want = append(want, w)
			}
		}
		if len(specs) == 0 {
			want = []int64{head + 1}
		}
		for i := int64(0); i <= head+1; i++ {
			get(i)
		}
		var wrong string
		failing := int64(-1)
		if len(want) > 0 && oneIn(c.T, 5, "fails") {
			failing = rapid.SampledFrom(want).Draw(c.T, "at")
			for i, w := range want {
				if w == failing {
					want = want[:i]
					break
				}
			}
			bad = true
		}
		n, unset := where(c, dir, func(r request) (interface{}, string) {
			var at string
			var txs bool
			if r.Method != "eth_getBlockByNumber" || len(r.Params) != 2 || json.Unmarshal(r.Params[0], &at) != nil || json.Unmarshal(r.Params[1], &txs) != nil {
				wrong = r.String()
				return nil, "not asked for"
			}
			var i int64
			switch at {
			case "latest":
				i = head
			case "pending":
				i = head + 1
			case "earliest":
			default:
				var err error
				if i, err = strconv.ParseInt(at, 0, 64); err != nil || !strings.HasPrefix(at, "0x") || i < 0 {
					wrong = r.String()
					return nil, "bad number"
				}
				if i > top {
					return nil, ""
				}
			}
			if i == failing {
				return nil, "no such luck"
			}
			b := blocks[i]
			if b == nil {
				return nil, ""
			}
			cp := map[string]interface{}{}
			for k, v := range b {
				cp[k] = v
			}
			if !txs {
				hs := []interface{}{}
				for _, x := range b["transactions"].([]interface{}) {
					hs = append(hs, x.(map[string]interface{})["hash"])
				}
				cp["transactions"] = hs
			}
			return cp, ""
		})
		defer n.close()
		r := ask(c, dir, n, unset, args...)
		if wrong != "" || r.crashed() {
			c.Fatalf("eth %q of a chain of %d blocks asks for %s: %v", args, head+1, wrong, r)
		}
		docs, err := documents(r.out)
		if err != nil {
			c.Fatalf("eth %q: %v: %v", args, r, err)
		}
		if len(docs) > len(want) || !bad && (r.code != 0 || len(docs) != len(want)) {
			c.Fatalf("eth %q of a chain of %d blocks: %d blocks, want %v: %v", args, head+1, len(docs), want, r)
		}
		for i, d := range docs {
			if why := sameBlock(d, blocks[want[i]]); why != "" {
				c.Fatalf("eth %q of a chain of %d blocks, document %d, block %d: %s\n%v", args, head+1, i, want[i], why, r)
			}
		}
		if bad {
			last := spec{}
			if len(specs) > 0 {
				last = specs[len(specs)-1]
			}
			// the blocks down to block zero are all there are
			if all := r.code == 0 && len(docs) == len(want) && strings.Contains(last.text, "-") && !last.must && failing < 0; !all && !r.failed() {
				c.Fatalf("eth %q of a chain of %d blocks (failing at %d): %v", args, head+1, failing, r)
			}
			c.Class("refused")
			return
		}
		if len(docs) > 0 {
			c.NonTrivial(r.out)
		}
		c.Class(fmt.Sprintf("%d specifiers", len(specs)))
		c.Sample("eth %q: %d blocks", args, len(docs))
	})

	p.Check("read", 250, 10000, func(c *vk.C) {
		dir := scratch()
		defer os.RemoveAll(dir)
		var types, show []string
		var refs []interface{}
		a := gen.Address().Draw(c.T, "contract")
		args := []string{"read", "-f", hx(a[:]), "f()"}
		for i := rapid.IntRange(1, 4).Draw(c.T, "results"); i > 0; i-- {
			typ := genCallType(c.T)
			if strings.HasSuffix(typ, "[]") {
				continue
			}
			_, v := genCallValue(c.T, typ)
			switch x := v.(type) {
			case string:
				show = append(show, x)
			case []byte:
				show = append(show, hex.EncodeToString(x))
			case common.Address:
				show = append(show, hx(x[:]))
			default:
				s := fmt.Sprint(x)
				if strings.HasPrefix(typ, "bytes") {
					s = fmt.Sprintf("%x", x)
				}
				show = append(show, s)
			}
			name := typ
			if (typ == "uint256" || typ == "int256") && rapid.Bool().Draw(c.T, "short") {
				name = strings.TrimSuffix(typ, "256")
			}
			types, refs = append(types, typ), append(refs, v)
			args = append(args, name)
		}
		if len(types) == 0 {
			return
		}
		data := pack(types, refs)
		how := rapid.SampledFrom([]string{"", "", "", "", "", "short", "empty", "error", "null"}).Draw(c.T, "how")
		switch how {
		case "short":
			if len(data) > 32*len(types) {
				data = data[:32*len(types)]
				for _, v := range refs {
					if s, ok := v.(string); ok && s == "" {
						how = "" // may not be missed
					}
					if b, ok := v.([]byte); ok && len(b) == 0 {
						how = ""
					}
				}
				if how == "" {
					return
				}
			} else {
				data = data[:rapid.IntRange(0, len(types)-1).Draw(c.T, "words")*32]
			}
		case "empty":
			data = nil
		}
		n, unset := where(c, dir, func(r request) (interface{}, string) {
			var q struct{ To, Data string }
			if r.Method != "eth_call" || len(r.Params) != 2 || json.Unmarshal(r.Params[0], &q) != nil || q.To != hx(a[:]) || q.Data != hx(selector("f()")) || string(r.Params[1]) != `"latest"` && string(r.Params[1]) != `"pending"` || how == "error" {
				return nil, "not asked for: " + r.String()
			}
			if how == "null" {
				return nil, ""
			}
			return hx(data), ""
		})
		defer n.close()
		r := ask(c, dir, n, unset, args...)
		if how != "" {
			if !r.failed() || r.out != "" {
				c.Fatalf("%s: eth %q: %v; result %x", how, args, r, data)
			}
			c.Class("refused: " + how)
			return
		}
		out := r.out
		for i, s := range show {
			if typ := types[i]; strings.HasPrefix(typ, "bytes") {
				out = strings.TrimPrefix(out, "0x")
				if pad := s + strings.Repeat("0", 64-len(s)%65); typ != "bytes" && len(s) < 64 && strings.HasPrefix(out, pad[:64]+"\n") {
					s = pad[:64]
				}
			}
			if !strings.HasPrefix(out, s+"\n") || r.code != 0 {
				c.Fatalf("eth %q: result %d should be %q: %v (result %x)", args, i, s, r, data)
			}
			out = out[len(s)+1:]
		}
		if out != "" {
			c.Fatalf("eth %q also prints %q", args, out)
		}
		c.NonTrivial(args, data)
		c.Class(types...)
		c.Sample("eth %q: %q", args, clip(r.out))
	})

	p.Check("post", 120, 5000, func(c *vk.C) {
		dir := scratch()
		defer os.RemoveAll(dir)
		k := rapid.IntRange(1, 4).Draw(c.T, "transactions")
		if oneIn(c.T, 12, "many") {
			k = rapid.IntRange(20, 200).Draw(c.T, "how many")
		}
		args := []string{"post"}
		var raws, hashes []string
		var stdin []byte
		badAt, failAt := -1, -1
		if oneIn(c.T, 4, "bad") {
			badAt = rapid.IntRange(0, k-1).Draw(c.T, "at")
		} else if oneIn(c.T, 5, "fails") {
			failAt = rapid.IntRange(0, k-1).Draw(c.T, "at")
		}
		dash := false
		for i := 0; i < k; i++ {
			raw := gen.Bytes(1, 150).Draw(c.T, "transaction")
			if oneIn(c.T, 60, "large") {
				raw = make([]byte, rapid.IntRange(30000, 200000).Draw(c.T, "size"))
				rand.New(rand.NewSource(int64(len(raw)))).Read(raw)
			}
			if i > 0 && oneIn(c.T, 6, "again") {
				raw, _ = hex.DecodeString(raws[rapid.IntRange(0, i-1).Draw(c.T, "of")][2:])
			}
			text := hex.EncodeToString(raw)
			if oneIn(c.T, 4, "upper") {
				text = strings.ToUpper(text)
			}
			if i == badAt {
				text = rapid.SampledFrom([]string{"", text[1:], text + "0", text + "g0", text + " 00", "hello", "-", text + "\n" + text, "0x"}).Draw(c.T, "text")
			}
			if rapid.Bool().Draw(c.T, "newline") {
				text += "\n"
			}
			if i == badAt && strings.TrimSpace(text) == "" {
				text = "" // a lone newline is an empty transaction
			}
			name := fmt.Sprintf("tx%d", i)
			if i == badAt && oneIn(c.T, 4, "missing") {
				name = rapid.SampledFrom([]string{"missing", "."}).Draw(c.T, "no file")
			} else if !dash && oneIn(c.T, 3, "-") {
				dash = true
				name, stdin = "-", []byte(text)
			} else {
				write(dir, name, []byte(text))
			}
			h := gen.Hash().Draw(c.T, "hash")
			raws, hashes = append(raws, hx(raw)), append(hashes, hx(h[:]))
			args = append(args, name)
		}
		next := 0
		n, unset := where(c, dir, func(r request) (interface{}, string) {
			if r.Method != "eth_sendRawTransaction" || next >= k || next == failAt || len(r.Params) != 1 || string(r.Params[0]) != fmt.Sprintf("%q", raws[next]) {
				return nil, "not asked for: " + r.String()
			}
			next++
			return hashes[next-1], ""
		})
		defer n.close()
		env := map[string]string{"SETH_URL": n.url}
		if unset {
			delete(env, "SETH_URL")
		}
		r := tool{dir: dir, env: env, stdin: stdin}.run(args...)
		if badAt >= 0 {
			if !r.failed() || r.out != "" || len(n.reqs) > 0 {
				c.Fatalf("eth %q, argument %d bad: %v, asks for %v", args, badAt, r, n.reqs)
			}
			c.Class("refused")
			return
		}
		want := hashes
		if failAt >= 0 {
			want = hashes[:failAt]
		}
		out := strings.Join(want, "\n")
		if len(want) > 0 {
			out += "\n"
		}
		if r.out != out || failAt < 0 && r.code != 0 || failAt >= 0 && (!r.failed() || len(n.reqs) > failAt+1) {
			c.Fatalf("eth %q, failing at %d: %v, want %v; asked for %v of %v", args, failAt, r, want, n.reqs, raws)
		}
		c.NonTrivial(raws)
		c.Class(fmt.Sprintf("stdin %v", dash))
		c.Sample("eth %.200q: %.300s", args, fmt.Sprint(raws))
	})

	p.Check("no node", 100, 3000, func(c *vk.C) {
		dir := scratch()
		defer os.RemoveAll(dir)
		a := gen.Address().Draw(c.T, "account")
		write(dir, "tx", []byte("00ff\n"))
		if oneIn(c.T, 5, "usage") {
			n := newNode(dir, false, func(r request) (interface{}, string) { return "0x0", "" })
			defer n.close()
			args := rapid.SampledFrom([][]string{{"post"}, {"code"}, {"code", hx(a[:]), hx(a[:])}, {"balance"}, {"read"}, {"read", hx(a[:])}, {"balances", hx(a[:])}, {"-v"}, {"block", "-x", "1"}, {}}).Draw(c.T, "args")
			r := tool{dir: dir, env: map[string]string{"SETH_URL": n.url}}.run(args...)
			if r.code == 0 || r.crashed() || len(n.reqs) > 0 || r.out+r.err == "" {
				c.Fatalf("eth %q: %v, asks for %v", args, r, n.reqs)
			}
			c.Class("usage")
			return
		}
		args := rapid.SampledFrom([][]string{{"balance", hx(a[:])}, {"code", hx(a[:])}, {"block", "latest"}, {"block"}, {"block", "latest-3"}, {"read", hx(a[:]), "f()", "uint256"}, {"read", "-f", hx(a[:]), "f()", "uint256"}, {"post", "tx"}}).Draw(c.T, "args")
		n := newNode(dir, false, func(r request) (interface{}, string) { return "0x0", "" })
		defer n.close()
		env := map[string]string{"SETH_URL": n.url}
		how := rapid.SampledFrom([]string{"status", "closed", "unset", "path", "null", "garbage"}).Draw(c.T, "how")
		switch how {
		case "status":
			n.status = rapid.SampledFrom([]int{400, 401, 404, 429, 500, 502, 503}).Draw(c.T, "status")
		case "closed":
			n.close()
		case "unset":
			delete(env, "SETH_URL")
		case "path":
			env["SETH_URL"] = rapid.SampledFrom([]string{"nowhere", "tx", "ftp://127.0.0.1:1/", filepath.Join(dir, "x.ipc")}).Draw(c.T, "path")
		case "null":
			n.answer = func(r request) (interface{}, string) { return nil, "" }
		case "garbage":
			bad := rapid.SampledFrom([]interface{}{"zz", 1.5, []int{}, true, map[string]interface{}{"number": "zz"}}).Draw(c.T, "answer")
			n.answer = func(r request) (interface{}, string) { return bad, "" }
		}
		r := tool{dir: dir, env: env}.run(args...)
		if !r.failed() || r.out != "" {
			c.Fatalf("%s: eth %q: %v", how, args, r)
		}
		c.NonTrivial(how, args, n.status, env["SETH_URL"][:min(3, len(env["SETH_URL"]))])
		c.Class(how)
	})
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}
