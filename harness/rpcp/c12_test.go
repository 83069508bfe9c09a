package rpcp

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"math/rand"
	"os"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/philhofer/seth"
	"pgregory.net/rapid"

	"verif/harness/gen"
	"verif/harness/vk"
)

func TestMain(m *testing.M) {
	log.SetOutput(io.Discard)
	os.Exit(m.Run())
}

// patience is how long something that takes microseconds may take before it
// counts as hung.
const patience = 60 * time.Second

// answer is what the server says to one call.
type answer struct {
	kind   string // result, error, null
	result string
	code   int
	msg    string
	data   string
}

func genAnswer(t *rapid.T) answer {
	switch rapid.IntRange(0, 5).Draw(t, "answer") {
	case 0:
		a := answer{kind: "error", code: int(int32(gen.Uint64().Draw(t, "code"))), msg: rapid.SampledFrom([]string{"", "bad", "no \"such\" thing", "ü", "null"}).Draw(t, "msg"),
			data: rapid.SampledFrom([]string{"", "null", `"0x12"`, `{"a":1}`}).Draw(t, "data")}
		if a.code == 0 && a.msg == "" {
			a.msg = "x"
		}
		return a
	case 1:
		return answer{kind: "null"}
	case 2:
		if rapid.IntRange(0, 30).Draw(t, "huge") == 0 {
			return answer{kind: "result", result: strings.Repeat("0123456789z", rapid.IntRange(6000, 150000).Draw(t, "size"))}
		}
		return answer{kind: "result", result: strings.Repeat("x", rapid.IntRange(0, 5000).Draw(t, "big"))}
	default:
		return answer{kind: "result", result: rapid.SampledFrom([]string{"", "0x1", "null", "{}", "\\\"\n", "}{", "ü☃"}).Draw(t, "text")}
	}
}

// reply writes the answer to the call with the given token.
func (a answer) reply(id int64, token string, order int) string {
	var body string
	switch a.kind {
	case "error":
		e := fmt.Sprintf(`{"code":%d,"message":%s`, a.code, quote(a.msg))
		if a.data != "" {
			e += `,"data":` + a.data
		}
		body = `"error":` + e + "}"
	case "null":
		body = `"result":null`
	default:
		body = `"result":` + quote(token+":"+a.result)
	}
	if order/3%3 == 0 { // as JSON-RPC 1.0 has it, with both
		if a.kind == "error" {
			body = `"result":null,` + body
		} else {
			body += `,"error":null`
		}
	}
	switch order % 3 {
	case 0:
		return fmt.Sprintf(`{"jsonrpc":"2.0","id":%d,%s}`, id, body)
	case 1:
		return fmt.Sprintf(`{%s,"jsonrpc":"2.0","id":%d}`, body, id) + "\n"
	}
	return fmt.Sprintf("{\"id\": %d,\n %s,\n \"jsonrpc\": \"2.0\" }\n", id, body)
}

func quote(s string) string { b, _ := json.Marshal(s); return string(b) }

// check compares what a call returned with the answer to it.
func (a answer) check(token string, got string, err error) error {
	switch a.kind {
	case "error":
		var e *seth.RPCError
		if !errors.As(err, &e) {
			return fmt.Errorf("%s: got %q, %v; want RPC error %d %q", token, short(got), err, a.code, a.msg)
		}
		if e.Code != a.code || e.Message != a.msg || (string(e.Data) != a.data && !(a.data == "null" && len(e.Data) == 0)) {
			return fmt.Errorf("%s: got RPC error %+v, want %+v", token, e, a)
		}
	case "null":
		if err != seth.ErrNotFound {
			return fmt.Errorf("%s: got %q, %v; want not found", token, short(got), err)
		}
	default:
		if err != nil || got != token+":"+a.result {
			return fmt.Errorf("%s: got %q, %v; want %q", token, short(got), err, short(token+":"+a.result))
		}
	}
	return nil
}

func short(s string) string {
	if len(s) > 80 {
		return s[:80] + "..."
	}
	return s
}

func tokenOf(r *request) (string, error) {
	if r.Version != "2.0" || r.ID == nil || len(r.Params) != 2 {
		return "", fmt.Errorf("malformed request %s", r.raw)
	}
	var tok string
	if err := json.Unmarshal(r.Params[0], &tok); err != nil {
		return "", fmt.Errorf("malformed request %s", r.raw)
	}
	if want := fmt.Sprintf(`{"pad":%q}`, pad(tok)); string(r.Params[1]) != want {
		return "", fmt.Errorf("request %s has other parameters than were given", r.raw)
	}
	if r.Method != "m_"+tok {
		return "", fmt.Errorf("method %q called with %q", r.Method, tok)
	}
	return tok, nil
}

// pad makes some requests long.
func pad(tok string) string {
	if tok == "g4c2" {
		return strings.Repeat("yz", 50000)
	}
	return strings.Repeat("y", (len(tok)*37+int(tok[len(tok)-1])*91)%900)
}

func do(c *seth.Client, tok string) (string, error) {
	var got string
	err := c.Do("m_"+tok, []json.RawMessage{json.RawMessage(quote(tok)), json.RawMessage(fmt.Sprintf(`{"pad":%q}`, pad(tok)))}, &got)
	return got, err
}

func TestC12(t *testing.T) {
	p := vk.Start(t, "C12", "1 to 12 goroutines making up to 8 calls each over one connection to a server that holds requests back, answers in random order and pieces, repeats replies and sends replies nobody asked for; every call's result is compared with the answer planned for it (built with the race detector); non-trivial: at least two goroutines and two calls",
		"schedules are those the Go runtime produces under the race detector with random yields")

	p.Check("long-lived", 1, 4, func(c *vk.C) {
		// calls that wait while tens of thousands of others come and go
		held := rapid.IntRange(1, 4).Draw(c.T, "held")
		g := rapid.IntRange(1, 4).Draw(c.T, "goroutines")
		n := rapid.IntRange(66000, 70000).Draw(c.T, "calls") / g
		cn := newConn(1)
		cn.toClient.whole, cn.toServer.whole = true, true
		out := map[int64]string{} // held
		var mu sync.Mutex
		var fault string
		fail := func(f string, args ...interface{}) {
			mu.Lock()
			if fault == "" {
				fault = fmt.Sprintf(f, args...)
			}
			mu.Unlock()
		}
		all := make(chan bool)
		go cn.requests(func(r *request, err error) {
			if r == nil {
				return
			}
			tok, err := tokenOf(r)
			if err != nil {
				fail("%v", err)
				return
			}
			mu.Lock()
			was, dup := out[*r.ID]
			if tok[0] == 'h' && !dup {
				out[*r.ID] = tok
				if len(out) == held {
					close(all)
				}
				mu.Unlock()
				return
			}
			mu.Unlock()
			if dup {
				fail("%s is sent with the id %d of %s, which is not answered yet", tok, *r.ID, was)
				cn.Close()
				return
			}
			cn.toClient.put([]byte(answer{kind: "result", result: "ok"}.reply(*r.ID, tok, 0)))
		})
		client := seth.NewClient(func() (io.ReadWriteCloser, error) { return cn, nil })
		var waiting, wg sync.WaitGroup
		call := func(tok string) bool {
			got, err := do(client, tok)
			if err != nil || got != tok+":ok" {
				fail("%s gives %q, %v", tok, short(got), err)
				return false
			}
			return true
		}
		for i := 0; i < held; i++ {
			waiting.Add(1)
			go func(tok string) { defer waiting.Done(); call(tok) }(fmt.Sprintf("h%d", i))
		}
		if !vk.Within(patience, func() { <-all }) {
			c.Fatalf("the calls do not arrive")
		}
		for i := 0; i < g; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				for j := 0; j < n && call(fmt.Sprintf("g%dc%d", i, j)); j++ {
				}
			}(i)
		}
		if !vk.Within(2*patience, wg.Wait) {
			c.Fatalf("callers still waiting: %s", fault)
		}
		if fault != "" {
			cn.Close()
			c.Fatalf("%s", fault)
		}
		for id, tok := range out {
			cn.toClient.put([]byte(answer{kind: "result", result: "ok"}.reply(id, tok, 0)))
		}
		if !vk.Within(patience, waiting.Wait) {
			c.Fatalf("held calls still waiting: %s", fault)
		}
		cn.Close()
		if fault != "" {
			c.Fatalf("%s", fault)
		}
		c.NonTrivial(held, g, n)
	})

	p.Check("replies", 500, 15000, func(c *vk.C) {
		g := rapid.IntRange(1, 12).Draw(c.T, "goroutines")
		k := rapid.IntRange(1, 8).Draw(c.T, "calls")
		plan := map[string]answer{}
		for i := 0; i < g; i++ {
			for j := 0; j < k; j++ {
				plan[fmt.Sprintf("g%dc%d", i, j)] = genAnswer(c.T)
			}
		}
		seed := int64(gen.Uint64().Draw(c.T, "schedule"))
		holding := rapid.IntRange(0, 100).Draw(c.T, "hold")
		junk := rapid.IntRange(0, 40).Draw(c.T, "junk")
		var mu sync.Mutex
		var faults []string
		fault := func(format string, args ...interface{}) {
			mu.Lock()
			faults = append(faults, fmt.Sprintf(format, args...))
			mu.Unlock()
		}
		dials := 0
		seen := map[string]int{}
		var cn *conn
		reqs := make(chan *request, g*k+10)
		client := seth.NewClient(func() (io.ReadWriteCloser, error) {
			mu.Lock()
			defer mu.Unlock()
			dials++
			cn = newConn(seed)
			go func(cn *conn) {
				defer close(reqs)
				cn.requests(func(r *request, err error) {
					if err != nil {
						fault("the server cannot parse what it is sent: %v", err)
						return
					}
					reqs <- r
				})
			}(cn)
			return cn, nil
		})
		served := make(chan struct{})
		go func() {
			defer close(served)
			rnd := rand.New(rand.NewSource(seed))
			var pool []*request
			ids := map[int64]bool{}
			open := true
			for open || len(pool) > 0 {
				if len(pool) == 0 {
					r, ok := <-reqs
					if !ok {
						return
					}
					pool = append(pool, r)
				}
			more:
				for i := 0; i < g; i++ {
					select {
					case r, ok := <-reqs:
						if !ok {
							open = false
							break more
						}
						pool = append(pool, r)
					default:
						if rnd.Intn(100) < holding {
							time.Sleep(time.Duration(rnd.Intn(60)) * time.Microsecond)
						} else {
							break more
						}
					}
				}
				for n := 1 + rnd.Intn(len(pool)); n > 0; n-- {
					i := rnd.Intn(len(pool))
					r := pool[i]
					pool = append(pool[:i], pool[i+1:]...)
					tok, err := tokenOf(r)
					if err != nil {
						fault("%v", err)
						continue
					}
					mu.Lock()
					seen[tok]++
					mu.Unlock()
					if ids[*r.ID] {
						fault("id %d used twice", *r.ID)
					}
					ids[*r.ID] = true
					out := ""
					if rnd.Intn(100) < junk {
						out += fmt.Sprintf(`{"jsonrpc":"2.0","id":%d,"result":"junk"}`, int64(1<<30)+int64(rnd.Intn(1000)))
					}
					rep := plan[tok].reply(*r.ID, tok, rnd.Intn(3))
					out += rep
					if rnd.Intn(100) < junk {
						out += rep // nobody waits for it any more
					}
					if rnd.Intn(100) < junk {
						out += fmt.Sprintf(`{"jsonrpc":"2.0","method":"note","params":[%d]}`, rnd.Intn(9))
						out += fmt.Sprintf(`{"jsonrpc":"2.0","id":%d,"error":{"code":-1,"message":"junk"}}`, -rnd.Intn(9))
					}
					cn.toClient.put([]byte(out))
				}
			}
		}()
		var wg sync.WaitGroup
		for i := 0; i < g; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				for j := 0; j < k; j++ {
					tok := fmt.Sprintf("g%dc%d", i, j)
					got, err := do(client, tok)
					if e := plan[tok].check(tok, got, err); e != nil {
						fault("%v", e)
					}
				}
			}(i)
		}
		if !vk.Within(patience, wg.Wait) {
			c.Fatalf("callers still waiting after %v: %d goroutines, %d calls", patience, g, k)
		}
		mu.Lock()
		defer mu.Unlock()
		cn.Close()
		if dials != 1 {
			faults = append(faults, fmt.Sprintf("%d connections dialled", dials))
		}
		for tok := range plan {
			if seen[tok] != 1 {
				faults = append(faults, fmt.Sprintf("%s was sent %d times", tok, seen[tok]))
			}
		}
		if len(faults) > 0 {
			c.Fatalf("%d goroutines, %d calls each: %s", g, k, strings.Join(faults, "\n"))
		}
		if g > 1 && g*k > 2 {
			c.NonTrivial(fmt.Sprint(g, k, seed, plan))
		}
		c.Sample("%d goroutines, %d calls each, schedule %d, plan %v", g, k, seed, short(fmt.Sprint(plan)))
	})
}

func TestC13(t *testing.T) {
	p := vk.Start(t, "C13", "histories of 1 to 5 connections: on each, up to 6 calls, of which some are answered, then the connection breaks (closed, garbage, cut reply, wrong JSON, failing write, or dialling fails); a dead connection may still deliver stale bytes to later calls' connection's lifetime; every call's outcome is checked (built with the race detector); non-trivial: at least one connection breaks with a call pending",
		"schedules are those the Go runtime produces under the race detector")

	p.Check("breaks", 700, 20000, func(c *vk.C) {
		type life struct {
			how      string
			calls    int
			answered []int // in order
			refused  int   // dials that fail first
			answers  []answer
			partial  int
			sticky   bool
			garbage  string
		}
		var lives []life
		n := rapid.IntRange(1, 5).Draw(c.T, "lives")
		pendingBreak := false
		for i := 0; i < n; i++ {
			l := life{
				how:     rapid.SampledFrom([]string{"eof", "error", "garbage", "cut", "type", "write"}).Draw(c.T, "how"),
				calls:   rapid.IntRange(1, 6).Draw(c.T, "calls"),
				refused: rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(c.T, "refused"),
				partial: rapid.IntRange(0, 60).Draw(c.T, "partial"),
				sticky:  rapid.Bool().Draw(c.T, "sticky"),
				garbage: rapid.SampledFrom([]string{"}", "garbage", "\x00\x00", `"just a string"`, "[1,2]", `{"id":"x"}`, `{"id":1.5}`, "<html>", `{"result":`, "nul", "{,}"}).Draw(c.T, "garbage"),
			}
			perm := rapid.Permutation([]int{0, 1, 2, 3, 4, 5}[:l.calls]).Draw(c.T, "order")
			l.answered = perm[:rapid.IntRange(0, l.calls).Draw(c.T, "answered")]
			for j := 0; j < l.calls; j++ {
				l.answers = append(l.answers, genAnswer(c.T))
			}
			if len(l.answered) < l.calls || l.how == "write" {
				pendingBreak = true
			}
			lives = append(lives, l)
		}
		seed := int64(gen.Uint64().Draw(c.T, "schedule"))

		var mu sync.Mutex
		dials, refuse := 0, 0
		conns := []*conn{}
		chans := []chan *request{}
		var parseFault string
		errDial := errors.New("dial refused")
		client := seth.NewClient(func() (io.ReadWriteCloser, error) {
			mu.Lock()
			defer mu.Unlock()
			dials++
			if refuse > 0 {
				refuse--
				return nil, errDial
			}
			cn := newConn(seed + int64(dials)*10)
			ch := make(chan *request, 100)
			conns = append(conns, cn)
			chans = append(chans, ch)
			go func() {
				cn.requests(func(r *request, err error) {
					if r != nil {
						ch <- r
					} else if err != io.ErrUnexpectedEOF {
						mu.Lock()
						parseFault = err.Error()
						mu.Unlock()
					}
				})
				close(ch)
			}()
			return cn, nil
		})
		type outcome struct {
			got string
			err error
		}
		var stale []int64 // ids whose connection broke before they were answered
		for li, l := range lives {
			mu.Lock()
			refuse = l.refused
			before := dials
			mu.Unlock()
			for i := 0; i < l.refused; i++ {
				var err error
				if !vk.Within(patience, func() { _, err = do(client, fmt.Sprintf("r%dc%d", li, i)) }) {
					c.Fatalf("life %d: a call hangs when dialling fails", li)
				}
				if err == nil || !strings.Contains(err.Error(), "dial refused") {
					c.Fatalf("life %d: a call returned %v though dialling failed", li, err)
				}
			}
			// start the calls and wait until the server has them all
			outs := make([]outcome, l.calls)
			done := make([]chan struct{}, l.calls)
			for j := 0; j < l.calls; j++ {
				done[j] = make(chan struct{})
				go func(j int) {
					defer close(done[j])
					g, e := do(client, fmt.Sprintf("l%dc%d", li, j))
					outs[j] = outcome{g, e}
				}(j)
			}
			byTok := map[string]*request{}
			var ch chan *request
			if !vk.Within(patience, func() {
				for {
					mu.Lock()
					if len(chans) == li+1 {
						ch = chans[li]
						mu.Unlock()
						break
					}
					mu.Unlock()
					time.Sleep(20 * time.Microsecond)
				}
			}) {
				c.Fatalf("life %d: no new connection is dialled", li)
			}
			for len(byTok) < l.calls {
				select {
				case r := <-ch:
					if r == nil {
						c.Fatalf("life %d: the connection ended early: %s", li, parseFault)
					}
					tok, err := tokenOf(r)
					if err != nil {
						c.Fatalf("life %d: %v", li, err)
					}
					if byTok[tok] != nil || !strings.HasPrefix(tok, fmt.Sprintf("l%dc", li)) {
						c.Fatalf("life %d: request %s sent again", li, tok)
					}
					byTok[tok] = r
				case <-time.After(vk.Patience(patience)):
					vk.Hung()
					c.Fatalf("life %d: only %d of %d requests arrive", li, len(byTok), l.calls)
				}
			}
			mu.Lock()
			cn := conns[li]
			if dials != before+l.refused+1 {
				c.Fatalf("life %d: %d dials instead of %d", li, dials-before, l.refused+1)
			}
			mu.Unlock()
			if l.how == "write" {
				cn.mu.Lock()
				cn.sticky = l.sticky
				cn.failAt, cn.partial = cn.writes+1, l.partial
				cn.mu.Unlock()
			}
			// dead connections say something late, about calls that have
			// already failed and about the ones pending now
			for _, old := range conns[:li] {
				for _, id := range stale {
					old.toClient.put([]byte(fmt.Sprintf(`{"jsonrpc":"2.0","id":%d,"result":"stale"}`, id)))
				}
				for _, r := range byTok {
					old.toClient.put([]byte(fmt.Sprintf(`{"jsonrpc":"2.0","id":%d,"result":"stale"}`, *r.ID)))
				}
			}
			isAnswered := map[int]bool{}
			for i, j := range l.answered {
				isAnswered[j] = true
				tok := fmt.Sprintf("l%dc%d", li, j)
				cn.toClient.put([]byte(l.answers[j].reply(*byTok[tok].ID, tok, i)))
			}
			wait := func(j int) {
				select {
				case <-done[j]:
				case <-time.After(vk.Patience(patience)):
					vk.Hung()
					c.Fatalf("life %d (%s): call %d (answered: %v) is still waiting", li, l.how, j, isAnswered[j])
				}
			}
			var late *outcome
			switch l.how {
			case "eof":
				cn.toClient.end(io.EOF)
			case "error":
				cn.toClient.end(errors.New("connection reset"))
			case "garbage":
				cn.toClient.put([]byte(l.garbage))
				if rapid.Bool().Draw(c.T, "staysopen") && l.garbage != "nul" && l.garbage != `{"result":` {
					break
				}
				cn.toClient.end(io.EOF)
			case "cut":
				cn.toClient.put([]byte(`{"jsonrpc":"2.0","id":` + fmt.Sprint(*byTok[fmt.Sprintf("l%dc0", li)].ID) + `,"result":"cu`))
				cn.toClient.end(io.ErrUnexpectedEOF)
			case "type":
				cn.toClient.put([]byte(`{"jsonrpc":"2.0","id":{},"result":"cut"}`))
			case "write":
				// what was answered is delivered first; the next call's write fails
				for _, j := range l.answered {
					wait(j)
				}
				late = new(outcome)
				if !vk.Within(patience, func() { late.got, late.err = do(client, fmt.Sprintf("l%dlate", li)) }) {
					c.Fatalf("life %d: a call whose write fails hangs", li)
				}
				if late.err == nil {
					c.Fatalf("life %d: a call whose write fails returns %q", li, late.got)
				}
			}
			for j := range outs {
				wait(j)
				tok := fmt.Sprintf("l%dc%d", li, j)
				if isAnswered[j] {
					if e := l.answers[j].check(tok, outs[j].got, outs[j].err); e != nil {
						c.Fatalf("life %d (%s): answered before the break: %v", li, l.how, e)
					}
				} else {
					if outs[j].err == nil || outs[j].err == seth.ErrNotFound {
						c.Fatalf("life %d (%s): call %s was never answered but returned %q, %v", li, l.how, tok, outs[j].got, outs[j].err)
					}
					var e *seth.RPCError
					if errors.As(outs[j].err, &e) {
						c.Fatalf("life %d (%s): call %s was never answered but returned RPC error %v", li, l.how, tok, e)
					}
					stale = append(stale, *byTok[tok].ID)
				}
			}
			// the client has noticed once it lets go of the connection; until
			// then a new call may still be sent on it, and fail with it
			if !vk.Within(patience, func() {
				for {
					cn.mu.Lock()
					ok := cn.closed
					cn.mu.Unlock()
					if ok {
						return
					}
					time.Sleep(20 * time.Microsecond)
				}
			}) {
				c.Fatalf("life %d (%s): the broken connection is kept", li, l.how)
			}
			c.Class(l.how)
		}
		// end old connections that still read
		mu.Lock()
		for _, cn := range conns {
			cn.toClient.put([]byte(`{"jsonrpc":"2.0","id":1,"result":"stale"}`))
		}
		for _, cn := range conns[:len(conns)-1] {
			cn.toClient.end(errors.New("late error"))
		}
		refuse = 0
		mu.Unlock()
		// and the client still works
		res := make(chan outcome, 1)
		go func() { g, e := do(client, "final"); res <- outcome{g, e} }()
		var ch chan *request
		if !vk.Within(patience, func() {
			for ch == nil {
				mu.Lock()
				if len(chans) > len(lives) {
					ch = chans[len(lives)]
				}
				mu.Unlock()
				time.Sleep(20 * time.Microsecond)
			}
		}) {
			c.Fatalf("no new connection after the last break")
		}
		select {
		case r := <-ch:
			if tok, err := tokenOf(r); err != nil || tok != "final" {
				c.Fatalf("final request: %s %v", tok, err)
			}
			conns[len(lives)].toClient.put([]byte(answer{kind: "result", result: "ok"}.reply(*r.ID, "final", 0)))
		case <-time.After(vk.Patience(patience)):
			vk.Hung()
			c.Fatalf("the final request does not arrive")
		}
		select {
		case o := <-res:
			if o.err != nil || o.got != "final:ok" {
				c.Fatalf("final call: %q %v", o.got, o.err)
			}
		case <-time.After(vk.Patience(patience)):
			vk.Hung()
			c.Fatalf("the final call hangs")
		}
		mu.Lock()
		defer mu.Unlock()
		for _, cn := range conns {
			cn.toClient.end(io.EOF)
		}
		if parseFault != "" {
			c.Fatalf("the server cannot parse what it is sent: %s", parseFault)
		}
		if pendingBreak {
			c.NonTrivial(fmt.Sprintf("%+v", lives), fmt.Sprint(seed))
		}
		c.Sample("%s", short(fmt.Sprintf("%+v", lives)))
	})
}
