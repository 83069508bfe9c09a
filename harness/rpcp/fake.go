// Package rpcp checks the RPC transports and what is built on them.
package rpcp

import (
	"encoding/json"
	"errors"
	"io"
	"math/rand"
	"runtime"
	"sync"
)

// pipe is one direction of a connection: unbounded, read in random pieces.
type pipe struct {
	mu    sync.Mutex
	cond  *sync.Cond
	buf   []byte
	err   error // returned once buf is empty
	rnd   *rand.Rand
	whole bool // hand out all there is
}

func newPipe(seed int64) *pipe {
	p := &pipe{rnd: rand.New(rand.NewSource(seed))}
	p.cond = sync.NewCond(&p.mu)
	return p
}

func (p *pipe) Read(b []byte) (int, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	for len(p.buf) == 0 && p.err == nil {
		p.cond.Wait()
	}
	if len(p.buf) == 0 {
		return 0, p.err
	}
	n := len(p.buf)
	if k := 1 + p.rnd.Intn(64); k < n && !p.whole && p.rnd.Intn(4) > 0 {
		n = k
	}
	n = copy(b, p.buf[:n])
	p.buf = p.buf[n:]
	return n, nil
}

func (p *pipe) put(b []byte) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.err == nil {
		p.buf = append(p.buf, b...)
	}
	p.cond.Broadcast()
}

func (p *pipe) end(err error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.err == nil {
		p.err = err
	}
	p.cond.Broadcast()
}

// conn is the client's end of a connection to a fake server.
type conn struct {
	toClient *pipe
	toServer *pipe
	sticky   bool // closing does not wake a reader
	mu       sync.Mutex
	closed   bool
	writes   int
	failAt   int // the write that fails, if above 0
	partial  int // the bytes the failing write still sends
	inflight int // writes under way
}

func newConn(seed int64) *conn {
	return &conn{toClient: newPipe(seed), toServer: newPipe(seed + 1)}
}

var errClosed = errors.New("fake conn: closed")
var errWrite = errors.New("fake conn: write failed")

func (c *conn) Read(b []byte) (int, error) { return c.toClient.Read(b) }

func (c *conn) Write(b []byte) (int, error) {
	c.mu.Lock()
	if c.closed {
		c.mu.Unlock()
		return 0, errClosed
	}
	c.writes++
	if c.failAt > 0 && c.writes >= c.failAt {
		n := c.partial
		if n > len(b)-1 {
			n = len(b) - 1
		}
		c.toServer.put(b[:n])
		c.mu.Unlock()
		return n, errWrite
	}
	// nothing keeps another write from coming between the parts of this one
	parts := 1
	if c.writes%4 == 0 {
		parts = 2 + c.writes/4%2
	}
	c.inflight++
	c.mu.Unlock()
	for i := 0; i < parts; i++ {
		c.toServer.put(b[len(b)*i/parts : len(b)*(i+1)/parts])
		if i+1 < parts {
			runtime.Gosched()
		}
	}
	c.mu.Lock()
	if c.inflight--; c.inflight == 0 && c.closed {
		c.toServer.end(io.EOF)
	}
	c.mu.Unlock()
	return len(b), nil
}

func (c *conn) Close() error {
	c.mu.Lock()
	c.closed = true
	sticky := c.sticky
	if c.inflight == 0 {
		c.toServer.end(io.EOF)
	}
	c.mu.Unlock()
	if !sticky {
		c.toClient.end(errClosed)
	}
	return nil
}

// request is one request as the server read it.
type request struct {
	Version string            `json:"jsonrpc"`
	ID      *int64            `json:"id"`
	Method  string            `json:"method"`
	Params  []json.RawMessage `json:"params"`
	raw     json.RawMessage
}

// requests reads the client's requests until the connection ends.
func (c *conn) requests(f func(*request, error)) {
	dec := json.NewDecoder(c.toServer)
	for {
		var raw json.RawMessage
		if err := dec.Decode(&raw); err != nil {
			if err != io.EOF {
				f(nil, err)
			}
			return
		}
		r := new(request)
		if err := json.Unmarshal(raw, r); err != nil {
			f(nil, err)
			return
		}
		r.raw = raw
		f(r, nil)
	}
}
