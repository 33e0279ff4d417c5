package verifpersist_test

import (
	"bufio"
	"crypto/sha1"
	"encoding/hex"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
	"sync"

	kit "vsa/internal/verifkit"
)

// ---- the real client against a server on the loopback interface ----

type respServer struct {
	mu      sync.Mutex
	f       *fakeRedis
	plan    []int // per EVAL: 0 ok, 1 connection dropped before it, 2 after it took effect
	n       int
	scripts map[string]string
	addr    string
	gate    func(eval int) // called before the script of that number runs
}

func startResp() *respServer {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		kit.Broken("listen: %v", err)
	}
	s := &respServer{f: newFakeRedis(), addr: ln.Addr().String(), scripts: map[string]string{}}
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			go s.serve(c)
		}
	}()
	return s
}

func readCmd(r *bufio.Reader) ([]string, error) {
	line, err := r.ReadString('\n')
	if err != nil {
		return nil, err
	}
	if line[0] != '*' {
		return nil, fmt.Errorf("protocol %q", line)
	}
	n, err := strconv.Atoi(strings.TrimSpace(line[1:]))
	if err != nil {
		return nil, err
	}
	var out []string
	for i := 0; i < n; i++ {
		l, err := r.ReadString('\n')
		if err != nil {
			return nil, err
		}
		m, err := strconv.Atoi(strings.TrimSpace(l[1:]))
		if err != nil {
			return nil, err
		}
		b := make([]byte, m+2)
		if _, err := io.ReadFull(r, b); err != nil {
			return nil, err
		}
		out = append(out, string(b[:m]))
	}
	return out, nil
}

func encodeReply(v lval, err error) string {
	if err != nil {
		return "-" + strings.ReplaceAll(err.Error(), "\n", " ") + "\r\n"
	}
	switch x := v.(type) {
	case nil:
		return "$-1\r\n"
	case bool:
		if x {
			return ":1\r\n"
		}
		return "$-1\r\n"
	case float64:
		return ":" + strconv.FormatInt(int64(x), 10) + "\r\n"
	case string:
		return fmt.Sprintf("$%d\r\n%s\r\n", len(x), x)
	case *ltable:
		if ok, is := x.m["ok"]; is {
			return fmt.Sprintf("+%v\r\n", ok)
		}
		s := fmt.Sprintf("*%d\r\n", len(x.arr))
		for _, e := range x.arr {
			s += encodeReply(e, nil)
		}
		return s
	}
	kit.Broken("reply %T", v)
	return ""
}

func (s *respServer) serve(c net.Conn) {
	defer c.Close()
	r := bufio.NewReader(c)
	for {
		cmd, err := readCmd(r)
		if err != nil || len(cmd) == 0 {
			return
		}
		s.mu.Lock()
		if u := strings.ToUpper(cmd[0]); s.gate != nil && (u == "EVAL" || u == "EVALSHA") {
			g, n := s.gate, s.n
			s.mu.Unlock()
			g(n)
			s.mu.Lock()
		}
		reply, drop := "", false
		switch strings.ToUpper(cmd[0]) {
		case "HELLO", "CLIENT":
			reply = "-ERR unknown command\r\n"
		case "SELECT", "AUTH":
			reply = "+OK\r\n"
		case "SCRIPT":
			h := sha1.Sum([]byte(cmd[2]))
			s.scripts[hex.EncodeToString(h[:])] = cmd[2]
			reply = encodeReply(hex.EncodeToString(h[:]), nil)
		case "EVAL", "EVALSHA":
			script := cmd[1]
			if strings.ToUpper(cmd[0]) == "EVALSHA" {
				var ok bool
				if script, ok = s.scripts[cmd[1]]; !ok {
					reply = "-NOSCRIPT No matching script. Please use EVAL.\r\n"
					break
				}
			} else {
				h := sha1.Sum([]byte(script))
				s.scripts[hex.EncodeToString(h[:])] = script
			}
			nk, _ := strconv.Atoi(cmd[2])
			mode := 0
			if s.n < len(s.plan) {
				mode = s.plan[s.n]
			}
			s.n++
			if mode == 1 {
				drop = true
				break
			}
			v, err := s.f.eval(script, cmd[3:3+nk], cmd[3+nk:])
			reply = encodeReply(v, err)
			drop = mode == 2
		default:
			v, err := s.f.call(cmd)
			reply = encodeReply(v, err)
		}
		s.mu.Unlock()
		if drop {
			return
		}
		if _, err := io.WriteString(c, reply); err != nil {
			return
		}
	}
}
