package rpcp

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/philhofer/seth"
	"pgregory.net/rapid"

	"verif/harness/gen"
	"verif/harness/vk"
)

func TestC14(t *testing.T) {
	p := vk.Start(t, "C14", "1 to 8 goroutines making calls through one HTTP client to a server on the loopback that answers results, errors and nulls late, in pieces and concurrently, or fails: error statuses, truncated, empty and non-JSON bodies, dropped connections; each call's outcome is compared with the one planned for it; non-trivial: at least two concurrent calls, or a failure")

	type step struct {
		kind   string // good, status, body, drop
		ans    answer
		status int
		body   string
	}
	var mu sync.Mutex
	var plan map[string]step
	var seen map[string]int
	var faults []string
	var rnd *rand.Rand
	fault := func(format string, args ...interface{}) { faults = append(faults, fmt.Sprintf(format, args...)) }
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, hr *http.Request) {
		body, err := io.ReadAll(hr.Body)
		mu.Lock()
		r := new(request)
		if err != nil || hr.Method != "POST" || json.Unmarshal(body, r) != nil {
			fault("bad HTTP request %s %q %v", hr.Method, body, err)
			mu.Unlock()
			return
		}
		if ct := hr.Header.Get("Content-Type"); !strings.HasPrefix(ct, "application/json") {
			fault("content type %q", ct)
		}
		r.raw = body
		tok, err := tokenOf(r)
		if err != nil {
			fault("%v", err)
			mu.Unlock()
			return
		}
		seen[tok]++
		s := plan[tok]
		delay, piece, order := rnd.Intn(300), 1+rnd.Intn(200), rnd.Intn(9)
		mu.Unlock()
		time.Sleep(time.Duration(delay) * time.Microsecond)
		good := s.ans.reply(*r.ID, tok, order)
		switch s.kind {
		case "drop":
			conn, _, err := w.(http.Hijacker).Hijack()
			if err == nil {
				good = strings.TrimSpace(good)
				if s.status%2 == 1 {
					fmt.Fprintf(conn, "HTTP/1.1 200 OK\r\nContent-Type: application/json\r\nContent-Length: %d\r\n\r\n%s", len(good)+10, good[:len(good)-1-s.status%len(good)/2])
				}
				conn.Close()
			}
			return
		case "status":
			w.Header().Set("Content-Type", "application/json")
			w.WriteHeader(s.status)
			switch s.body {
			case "good":
				io.WriteString(w, good)
			default:
				io.WriteString(w, s.body)
			}
			return
		case "body":
			if s.body == "cut" {
				good = good[:s.status%len(strings.TrimSpace(good))]
				io.WriteString(w, good)
				return
			}
			io.WriteString(w, s.body)
			return
		}
		w.Header().Set("Content-Type", "application/json")
		for len(good) > 0 {
			n := piece
			if n > len(good) {
				n = len(good)
			}
			io.WriteString(w, good[:n])
			good = good[n:]
			if f, ok := w.(http.Flusher); ok && piece%2 == 0 {
				f.Flush()
			}
		}
	}))
	defer srv.Close()
	srv.Config.ErrorLog = nil

	p.Check("replies", 400, 10000, func(c *vk.C) {
		g := rapid.IntRange(1, 8).Draw(c.T, "goroutines")
		k := rapid.IntRange(1, 4).Draw(c.T, "calls")
		pl := map[string]step{}
		failing := false
		for i := 0; i < g; i++ {
			for j := 0; j < k; j++ {
				s := step{kind: "good", ans: genAnswer(c.T), status: rapid.IntRange(0, 5000).Draw(c.T, "n")}
				switch rapid.IntRange(0, 9).Draw(c.T, "fate") {
				case 0:
					s.kind = "drop"
				case 1:
					s.kind = "status"
					s.status = rapid.SampledFrom([]int{201, 202, 203, 206, 207, 226, 300, 301, 400, 401, 403, 404, 405, 429, 500, 502, 503, 504}).Draw(c.T, "status")
					s.body = rapid.SampledFrom([]string{"", "good", "good", "<html>oops</html>", "{}", "null", `{"jsonrpc":"2.0","id":1,"error":{"code":-32000,"message":"busy"}}`}).Draw(c.T, "body")
				case 2:
					s.kind = "body"
					s.body = rapid.SampledFrom([]string{"", "cut", "cut", "garbage", "<html>", "[]", `"text"`, "12", `{"result":`, `{"id":"x","result":1}`, `{"jsonrpc":"2.0"}`, `{"error":"text"}`, `{"id":1}`}).Draw(c.T, "body")
				}
				failing = failing || s.kind != "good"
				c.Class(s.kind)
				pl[fmt.Sprintf("g%dc%d", i, j)] = s
			}
		}
		schedule := int64(gen.Uint64().Draw(c.T, "schedule"))
		mu.Lock()
		plan, seen, faults = pl, map[string]int{}, nil
		rnd = rand.New(rand.NewSource(schedule))
		mu.Unlock()
		client := seth.NewHTTPClient(srv.URL)
		var wg sync.WaitGroup
		for i := 0; i < g; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				for j := 0; j < k; j++ {
					tok := fmt.Sprintf("g%dc%d", i, j)
					got, err := do(client, tok)
					s := pl[tok]
					var e error
					if s.kind == "good" {
						e = s.ans.check(tok, got, err)
					} else if err == nil || got != "" {
						e = fmt.Errorf("%s: %s (status %d, body %q) gives %q, %v", tok, s.kind, s.status, s.body, got, err)
					} else if errors.Is(err, seth.ErrNotFound) {
						e = fmt.Errorf("%s: %s (status %d, body %q) is reported as not found", tok, s.kind, s.status, s.body)
					}
					if e != nil {
						mu.Lock()
						fault("%v", e)
						mu.Unlock()
					}
				}
			}(i)
		}
		if !vk.Within(patience, wg.Wait) {
			c.Fatalf("callers still waiting after %v", patience)
		}
		mu.Lock()
		defer mu.Unlock()
		for tok := range pl {
			if seen[tok] != 1 {
				fault("%s was sent %d times", tok, seen[tok])
			}
		}
		if len(faults) > 0 {
			c.Fatalf("%s", strings.Join(faults, "\n"))
		}
		if g > 1 || failing {
			c.NonTrivial(fmt.Sprint(g, k, pl))
		}
		c.Sample("%s", short(fmt.Sprint(pl)))
	})

	p.Check("unreachable", 30, 500, func(c *vk.C) {
		s2 := httptest.NewServer(http.NotFoundHandler())
		url := s2.URL
		s2.Close()
		var err error
		if !vk.Within(patience, func() { _, err = do(seth.NewHTTPClient(url), "x1") }) || err == nil {
			c.Fatalf("a call to a server that is not there: %v", err)
		}
		bad := rapid.SampledFrom([]string{"", "http://", "::", "ftp://localhost/", "http://127.0.0.1:1/"}).Draw(c.T, "url")
		if m := vk.Trap(func() { _, err = do(seth.NewHTTPClient(bad), "x1") }); m != "" || err == nil {
			c.Fatalf("URL %q: %v %s", bad, err, m)
		}
		c.NonTrivial(url, bad)
	})
}
