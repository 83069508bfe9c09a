package rpcp

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"sync"
	"testing"

	"github.com/philhofer/seth"
	"pgregory.net/rapid"

	"verif/harness/vk"
)

// wire stands in for the network: it records what is asked for and answers.
type wire struct {
	mu   sync.Mutex
	reqs []*http.Request
	body [][]byte
	next func(r *http.Request, body []byte) (*http.Response, error)
	open int // bodies handed out and not closed
}

type wireBody struct {
	io.Reader
	w    *wire
	once sync.Once
}

func (b *wireBody) Close() error {
	b.once.Do(func() {
		b.w.mu.Lock()
		b.w.open--
		b.w.mu.Unlock()
	})
	return nil
}

var errWire = errors.New("fake wire: unplugged")

func (w *wire) RoundTrip(r *http.Request) (*http.Response, error) {
	var body []byte
	if r.Body != nil {
		body, _ = io.ReadAll(r.Body)
		r.Body.Close()
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	w.reqs, w.body = append(w.reqs, r), append(w.body, body)
	return w.next(r, body)
}

// posted are the calls the endpoint takes as POST; it takes all others as GET.
var posted = map[string]bool{"eth_sendRawTransaction": true, "eth_estimateGas": true, "eth_submitWork": true, "eth_submitHashrate": true}

func genParams(t *rapid.T) []json.RawMessage {
	if rapid.IntRange(0, 5).Draw(t, "none") == 0 {
		if rapid.Bool().Draw(t, "nil") {
			return nil
		}
		return []json.RawMessage{}
	}
	text := rapid.OneOf(rapid.SampledFrom([]string{"0x1", "latest", "a&b=c", "a+b c", "100%", "%41", "#x", "x;y", "ü☃", "?", "/../", "\"", "\\", "\n", "<>&"}), rapid.String())
	var out []json.RawMessage
	for i := rapid.IntRange(1, 4).Draw(t, "params"); i > 0; i-- {
		var v interface{}
		switch rapid.IntRange(0, 4).Draw(t, "kind") {
		case 0:
			v = map[string]interface{}{text.Draw(t, "key"): text.Draw(t, "value"), "data": "0x" + strings.Repeat("ab", rapid.IntRange(0, 300).Draw(t, "size"))}
			if rapid.IntRange(0, 400).Draw(t, "huge") == 0 {
				v = strings.Repeat("0123456789abc ", rapid.IntRange(1000, 15000).Draw(t, "length"))
			}
		case 1:
			v = []interface{}{text.Draw(t, "element"), nil}
		case 2:
			v = rapid.Bool().Draw(t, "flag")
		default:
			v = text.Draw(t, "text")
		}
		b, err := json.Marshal(v)
		if err != nil {
			panic("HARNESS-ERROR " + err.Error())
		}
		out = append(out, b)
	}
	return out
}

// sameParams: the JSON text holds exactly the parameters given.
func sameParams(js []byte, want []json.RawMessage) bool {
	var have []interface{}
	if len(js) > 0 && json.Unmarshal(js, &have) != nil {
		return false
	}
	if len(have) != len(want) {
		return false
	}
	for i := range want {
		var v interface{}
		if json.Unmarshal(want[i], &v) != nil || !reflect.DeepEqual(v, have[i]) {
			return false
		}
	}
	return true
}

func TestC47(t *testing.T) {
	p := vk.Start(t, "C47", "sequences of up to 6 calls of drawn methods with drawn parameters through the Infura transport, whose network is a stand-in that records each request and answers, fails or gives what is no answer; unix sockets at drawn paths for the IPC dialers; non-trivial: a distinct method and parameters, or set of sockets",
		"the endpoint is a stand-in installed as http.DefaultTransport")

	old := http.DefaultTransport
	defer func() { http.DefaultTransport = old }()
	w := &wire{}
	http.DefaultTransport = w

	p.Check("infura", 8000, 250000, func(c *vk.C) {
		client := seth.NewClientTransport(seth.InfuraTransport{})
		w.mu.Lock()
		w.reqs, w.body, w.open = nil, nil, 0
		w.mu.Unlock()
		for n, i := rapid.IntRange(1, 6).Draw(c.T, "calls"), 0; i < n; i++ {
			method := rapid.SampledFrom([]string{"eth_sendRawTransaction", "eth_estimateGas", "eth_submitWork", "eth_submitHashrate", "eth_sendRawTransaction", "eth_estimateGas",
				"eth_call", "eth_blockNumber", "eth_getBalance", "eth_getBlockByNumber", "eth_getLogs", "eth_gasPrice", "net_version", "web3_sha3", "eth_getStorageAt"}).Draw(c.T, "method")
			params := genParams(c.T)
			ans := genAnswer(c.T)
			fate := rapid.SampledFrom([]string{"good", "good", "good", "good", "unplugged", "status", "body", "cut"}).Draw(c.T, "fate")
			status, junk, cut := 200, "", 0
			switch fate {
			case "status":
				status = rapid.SampledFrom([]int{201, 202, 203, 206, 207, 226, 300, 301, 400, 401, 403, 404, 405, 429, 500, 502, 503, 504}).Draw(c.T, "status")
				junk = rapid.SampledFrom([]string{"", "good", "good", "{}", "null", "<html>oops</html>"}).Draw(c.T, "text")
			case "body":
				junk = rapid.SampledFrom([]string{"", "garbage", "<html>", "[]", `"text"`, "12", `{"result":`, `{"error":"text"}`}).Draw(c.T, "text")
			case "cut":
				cut = rapid.IntRange(1, 40).Draw(c.T, "cut")
			}
			order, tok := rapid.IntRange(0, 8).Draw(c.T, "order"), fmt.Sprintf("c%d", i)
			w.mu.Lock()
			w.next = func(r *http.Request, body []byte) (*http.Response, error) {
				if fate == "unplugged" {
					return nil, errWire
				}
				text := strings.TrimSpace(ans.reply(int64(i+1), tok, order))
				if cut > len(text) {
					cut = len(text)
				}
				text = text[:len(text)-cut]
				if junk != "good" && (fate == "status" || fate == "body") {
					text = junk
				}
				w.open++
				return &http.Response{StatusCode: status, Status: fmt.Sprintf("%d %s", status, http.StatusText(status)), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
					Header: http.Header{"Content-Type": {"application/json"}}, Body: &wireBody{Reader: strings.NewReader(text), w: w}, ContentLength: -1, Request: r}, nil
			}
			w.mu.Unlock()
			var got string
			var err error
			if m := vk.Trap(func() { err = client.Do(method, params, &got) }); m != "" {
				c.Fatalf("%s%s: %s", method, params, m)
			}
			w.mu.Lock()
			reqs, bodies, open := w.reqs, w.body, w.open
			w.reqs, w.body = nil, nil
			w.mu.Unlock()
			if len(reqs) != 1 {
				c.Fatalf("%s%s: %d requests", method, params, len(reqs))
			}
			if open != 0 {
				c.Fatalf("%s%s (%s): the response's body is left open", method, params, fate)
			}
			r, body := reqs[0], bodies[0]
			u := r.URL
			if u.Scheme != "https" || u.Host != "api.infura.io" || u.User != nil || u.Fragment != "" {
				c.Fatalf("%s: requested from %s", method, u)
			}
			const base = "/v1/jsonrpc/mainnet"
			if posted[method] {
				var q struct {
					Version string          `json:"jsonrpc"`
					ID      *int64          `json:"id"`
					Method  string          `json:"method"`
					Params  json.RawMessage `json:"params"`
				}
				if r.Method != "POST" || strings.TrimSuffix(u.Path, "/") != base || u.RawQuery != "" || json.Unmarshal(body, &q) != nil || q.Version != "2.0" || q.ID == nil || q.Method != method || !sameParams(q.Params, params) ||
					!strings.HasPrefix(r.Header.Get("Content-Type"), "application/json") {
					c.Fatalf("%s%s is sent as %s %s %s %v", method, params, r.Method, u, body, r.Header)
				}
			} else if q := u.Query(); r.Method != "GET" || u.Path != base+"/"+method || len(body) != 0 || len(q) > 1 || len(q["params"]) > 1 || !sameParams([]byte(q.Get("params")), params) {
				c.Fatalf("%s%s is sent as %s %s %s", method, params, r.Method, u, body)
			}
			if fate == "good" {
				if e := ans.check(tok, got, err); e != nil {
					c.Fatalf("%s%s: %v", method, params, e)
				}
			} else if err == nil || got != "" || errors.Is(err, seth.ErrNotFound) {
				c.Fatalf("%s: %s (status %d, %q, cut %d of %+v) gives %q, %v", method, fate, status, junk, cut, ans, got, err)
			}
			c.Class(fate)
			c.NonTrivial(method, fmt.Sprintf("%s", params))
			c.Sample("%s%s: %s", method, short(fmt.Sprintf("%s", params)), fate)
		}
	})

	p.Check("sockets", 150, 3000, func(c *vk.C) {
		dir, err := os.MkdirTemp(os.Getenv("VK_SCRATCH"), "s")
		if err != nil {
			panic("HARNESS-ERROR " + err.Error())
		}
		defer os.RemoveAll(dir)
		oldHome, had := os.LookupEnv("HOME")
		defer func() {
			if had {
				os.Setenv("HOME", oldHome)
			} else {
				os.Unsetenv("HOME")
			}
		}()
		var paths []string
		up := map[string]bool{}
		for i, n := 0, rapid.IntRange(1, 3).Draw(c.T, "homes"); i < n; i++ {
			h := filepath.Join(dir, fmt.Sprintf("h%d", i), ".ethereum")
			if err := os.MkdirAll(h, 0777); err != nil {
				panic("HARNESS-ERROR " + err.Error())
			}
			paths = append(paths, filepath.Join(h, "geth.ipc"))
			if rapid.Bool().Draw(c.T, "other") {
				paths = append(paths, filepath.Join(h, rapid.SampledFrom([]string{"parity.ipc", "geth.ipc2", "a b", "ü"}).Draw(c.T, "name")))
			}
		}
		for _, s := range paths {
			if rapid.IntRange(0, 3).Draw(c.T, "up") > 0 && !up[s] {
				l, err := net.Listen("unix", s)
				if err != nil {
					panic("HARNESS-ERROR " + err.Error())
				}
				defer l.Close()
				up[s] = true
				go func(s string) {
					for {
						cn, err := l.Accept()
						if err != nil {
							return
						}
						go func() {
							defer cn.Close()
							dec := json.NewDecoder(cn)
							for {
								var r request
								if dec.Decode(&r) != nil {
									return
								}
								fmt.Fprintf(cn, `{"jsonrpc":"2.0","id":%d,"result":%s}`, *r.ID, quote(s))
							}
						}()
					}
				}(s)
			}
		}
		ask := func(cl *seth.Client) (got string, err error) {
			if !vk.Within(patience, func() { err = cl.Do("m", nil, &got) }) {
				c.Fatalf("a call over a unix socket hangs")
			}
			return
		}
		for i := rapid.IntRange(1, 5).Draw(c.T, "steps"); i > 0; i-- {
			s := rapid.SampledFrom(paths).Draw(c.T, "path")
			var cl *seth.Client
			if filepath.Base(s) == "geth.ipc" && rapid.Bool().Draw(c.T, "by home") {
				os.Setenv("HOME", filepath.Dir(filepath.Dir(s)))
				cl = seth.NewClient(seth.IPCDial)
			} else {
				os.Setenv("HOME", dir)
				cl = seth.NewClient(seth.IPCPath(s))
			}
			for j := 0; j < 2; j++ {
				got, err := ask(cl)
				if up[s] && (err != nil || got != s) {
					c.Fatalf("%s answers %q, %v", s, got, err)
				}
				if !up[s] && err == nil {
					c.Fatalf("nothing listens at %s but %q answers", s, got)
				}
			}
		}
		c.NonTrivial(fmt.Sprint(len(paths), up))
	})
}
