package verifkit

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Proc is a server process under test, on a loopback port.
type Proc struct {
	Addr string
	cmd  *exec.Cmd
	mu   sync.Mutex
	out  bytes.Buffer
	done chan struct{}
}

func (p *Proc) Write(b []byte) (int, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.out.Write(b)
}

// Output is what the process has printed so far, on both streams.
func (p *Proc) Output() string {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.out.String()
}

// Bin is the path of a binary the driver has built from the working tree.
func Bin(name string) string {
	b := os.Getenv("VERIF_BIN_" + strings.ReplaceAll(strings.ToUpper(name), "-", "_"))
	if b == "" {
		Broken("the driver has not built %s", name)
	}
	return b
}

// StartServer starts bin with args(addr) on a free port and waits until path answers.
func StartServer(c *Case, bin, dir string, args func(addr string) []string, path string) *Proc {
	for try := 0; ; try++ {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			Broken("no loopback port: %v", err)
		}
		addr := l.Addr().String()
		l.Close()
		p := &Proc{Addr: addr, cmd: exec.Command(bin, args(addr)...), done: make(chan struct{})}
		p.cmd.Dir, p.cmd.Stdout, p.cmd.Stderr = dir, p, p
		p.cmd.Env = append(os.Environ(), "HTTP_PROXY=", "http_proxy=")
		if err := p.cmd.Start(); err != nil {
			Broken("cannot start %s: %v", bin, err)
		}
		go func() { _ = p.cmd.Wait(); close(p.done) }()
		for t0 := time.Now(); ; {
			if code, _, err := Request(addr, "GET", path, 5*time.Second); err == nil && code > 0 {
				return p
			}
			select {
			case <-p.done:
			case <-time.After(3 * time.Millisecond):
				if time.Since(t0) > 90*time.Second {
					p.Kill()
					c.Failf("the process does not answer at %s%s:\n%s", addr, path, p.Output())
				}
				continue
			}
			break
		}
		if try > 8 || !strings.Contains(p.Output(), "address already in use") {
			c.Failf("the process ended before it answered a request:\n%s", p.Output())
		}
	}
}

// Signal sends a signal.
func (p *Proc) Signal(s syscall.Signal) { _ = p.cmd.Process.Signal(s) }

// Exit waits for the process to end and returns its exit code, or -1000 if it does not.
func (p *Proc) Exit(limit time.Duration) int {
	select {
	case <-p.done:
		return p.cmd.ProcessState.ExitCode()
	case <-time.After(limit):
		return -1000
	}
}

func (p *Proc) Kill() {
	_ = p.cmd.Process.Kill()
	<-p.done
}

// Client is one keep-alive connection with one request at a time.
type Client struct {
	addr string
	c    net.Conn
	r    *bufio.Reader
}

func NewClient(addr string) *Client { return &Client{addr: addr} }

func (c *Client) Close() {
	if c.c != nil {
		c.c.Close()
		c.c = nil
	}
}

// Do sends one request. sent tells whether any byte of it may have reached the server.
func (c *Client) Do(method, path string, limit time.Duration) (code int, hdr http.Header, body string, sent bool, err error) {
	if c.c == nil {
		if c.c, err = net.DialTimeout("tcp", c.addr, limit); err != nil {
			c.c = nil
			return 0, nil, "", false, err
		}
		c.r = bufio.NewReader(c.c)
	}
	_ = c.c.SetDeadline(time.Now().Add(limit))
	if _, err = fmt.Fprintf(c.c, "%s %s HTTP/1.1\r\nHost: %s\r\nContent-Length: 0\r\n\r\n", method, path, c.addr); err != nil {
		c.Close()
		return 0, nil, "", true, err
	}
	resp, err := http.ReadResponse(c.r, &http.Request{Method: method})
	if err != nil {
		c.Close()
		return 0, nil, "", true, err
	}
	b, err := io.ReadAll(resp.Body)
	resp.Body.Close()
	if err != nil {
		c.Close()
		return resp.StatusCode, resp.Header, string(b), true, err
	}
	if resp.Close {
		c.Close()
	}
	return resp.StatusCode, resp.Header, string(b), true, nil
}

// Request sends one request on its own connection.
func Request(addr, method, path string, limit time.Duration) (int, string, error) {
	c := NewClient(addr)
	defer c.Close()
	code, _, body, _, err := c.Do(method, path, limit)
	return code, body, err
}
