package cmdp

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"

	"github.com/ethereum/go-ethereum/accounts/abi"
	"github.com/ethereum/go-ethereum/crypto"
	"pgregory.net/rapid"

	"verif/harness/vk"
)

func check(err error) {
	if err != nil {
		panic("HARNESS-ERROR " + err.Error())
	}
}

func oneIn(t *rapid.T, n int, label string) bool { return rapid.IntRange(0, n-1).Draw(t, label) == 0 }

// request is what a node was asked.
type request struct {
	Method string            `json:"method"`
	Params []json.RawMessage `json:"params"`
	ID     json.RawMessage   `json:"id"`
}

func (r request) String() string { return fmt.Sprintf("%s%s", r.Method, r.Params) }

// node is a stand-in for an Ethereum client, over HTTP or a socket.
type node struct {
	mu     sync.Mutex
	reqs   []request
	answer func(r request) (result interface{}, fail string)
	url    string
	close  func()
	status int // of HTTP, when not 200
}

func (n *node) serve(r request) map[string]interface{} {
	n.mu.Lock()
	defer n.mu.Unlock()
	n.reqs = append(n.reqs, r)
	res, fail := n.answer(r)
	if fail != "" {
		return map[string]interface{}{"jsonrpc": "2.0", "id": r.ID, "error": map[string]interface{}{"code": -32000, "message": fail}}
	}
	return map[string]interface{}{"jsonrpc": "2.0", "id": r.ID, "result": res}
}

func (n *node) asked(method string) (out []request) {
	n.mu.Lock()
	defer n.mu.Unlock()
	for _, r := range n.reqs {
		if r.Method == method {
			out = append(out, r)
		}
	}
	return
}

func (n *node) ServeHTTP(w http.ResponseWriter, q *http.Request) {
	var r request
	if json.NewDecoder(q.Body).Decode(&r) != nil {
		w.WriteHeader(400)
		return
	}
	res := n.serve(r)
	w.Header().Set("Content-Type", "application/json")
	if n.status != 0 {
		w.WriteHeader(n.status)
		io.WriteString(w, "no service")
		return
	}
	check(json.NewEncoder(w).Encode(res))
}

func newNode(dir string, ipc bool, answer func(r request) (interface{}, string)) *node {
	n := &node{answer: answer}
	if !ipc {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		check(err)
		s := &http.Server{Handler: n}
		go s.Serve(l)
		n.url, n.close = "http://"+l.Addr().String(), func() { s.Close() }
		return n
	}
	n.url = filepath.Join(dir, "http.ipc") // a path all the same
	l, err := net.Listen("unix", n.url)
	check(err)
	n.close = func() { l.Close() }
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go func() {
				defer c.Close()
				d, e := json.NewDecoder(c), json.NewEncoder(c)
				for {
					var r request
					if d.Decode(&r) != nil || e.Encode(n.serve(r)) != nil {
						return
					}
				}
			}()
		}
	}()
	return n
}

// tool runs the eth binary.
type tool struct {
	dir   string
	env   map[string]string
	stdin []byte   // when not on a terminal
	tty   []string // what is typed, each piece given when the one before was read; nil: no terminal
	from  string   // a file to use as standard input instead
	to    string   // a file to use as standard output
}

type result struct {
	out, err string
	code     int
}

func (r result) String() string {
	return fmt.Sprintf("exit %d, prints %q and %q", r.code, clip(r.out), clip(r.err))
}

func clip(s string) string {
	if len(s) > 1500 {
		return s[:1500] + "..."
	}
	return s
}

// failed tells whether the tool ended with a message and without results: an
// accidental panic is neither.
func (r result) failed() bool {
	return r.code != 0 && strings.TrimSpace(r.err) != "" && !r.crashed()
}

func (r result) crashed() bool {
	return strings.Contains(r.err, "runtime error") || strings.Contains(r.err, "nil pointer") || r.code < 0
}

func openpty() (master, slave *os.File) {
	m, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	check(err)
	var n, zero uint32
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), 0x80045430, uintptr(unsafe.Pointer(&n))); e != 0 {
		check(e)
	}
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), 0x40045431, uintptr(unsafe.Pointer(&zero))); e != 0 {
		check(e)
	}
	s, err := os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	check(err)
	return m, s
}

func (k tool) run(args ...string) result {
	eth := os.Getenv("VK_BIN_ETH")
	if eth == "" {
		panic("HARNESS-ERROR no eth")
	}
	cmd := exec.Command(eth, args...)
	cmd.Dir = k.dir
	cmd.Env = []string{"HOME=" + k.dir, "PATH=" + os.Getenv("PATH")}
	for n, v := range k.env {
		cmd.Env = append(cmd.Env, n+"="+v)
	}
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	if k.tty != nil {
		m, s := openpty()
		defer m.Close()
		defer s.Close()
		cmd.Stdin = s
		go io.Copy(io.Discard, m) // the echo; ends when the terminal is closed
		_, err := io.WriteString(m, strings.Join(k.tty, ""))
		check(err)
	} else {
		cmd.Stdin = bytes.NewReader(k.stdin)
	}
	if k.from != "" {
		f, err := os.Open(filepath.Join(k.dir, k.from))
		check(err)
		defer f.Close()
		cmd.Stdin = f
	}
	if k.to != "" {
		f, err := os.OpenFile(k.to, os.O_WRONLY, 0)
		check(err)
		defer f.Close()
		cmd.Stdout = f
	}
	check(cmd.Start())
	t := time.AfterFunc(100*time.Second, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	t.Stop()
	if _, ok := err.(*exec.ExitError); err != nil && !ok {
		check(err)
	}
	return result{o.String(), e.String(), cmd.ProcessState.ExitCode()}
}

func scratch() string {
	d, err := os.MkdirTemp(os.Getenv("VK_SCRATCH"), "eth")
	check(err)
	return d
}

func write(dir, name string, b []byte) string {
	p := filepath.Join(dir, name)
	check(os.MkdirAll(filepath.Dir(p), 0777))
	check(os.WriteFile(p, b, 0666))
	return p
}

func pack(types []string, vals []interface{}) []byte {
	var args abi.Arguments
	for _, s := range types {
		ty, err := abi.NewType(s, nil)
		check(err)
		args = append(args, abi.Argument{Type: ty})
	}
	b, err := args.Pack(vals...)
	if err != nil {
		panic(fmt.Sprintf("HARNESS-ERROR: %v: %v", types, err))
	}
	return b
}

func selector(sig string) []byte { return crypto.Keccak256([]byte(sig))[:4:4] }

func hx(b []byte) string { return "0x" + hex.EncodeToString(b) }

func quantity(x *big.Int) string { return "0x" + x.Text(16) }

var _ = vk.Root
