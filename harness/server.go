package main

import (
	"bytes"
	"context"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

var portCursor = int64(os.Getpid() * 37 % 9000)

// freePort picks a port below the ephemeral range which nobody listens on.
func freePort() int {
	for i := 0; i < 20000; i++ {
		p := 20000 + int(atomic.AddInt64(&portCursor, 1)%12000)
		if bindable(p) {
			return p
		}
	}
	panic("no free port")
}

// bindable binds without ever listening: a listening probe would survive its
// close in a child forked at that moment, and accept somebody's connection.
func bindable(p int) bool {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	if err != nil {
		return false
	}
	defer syscall.Close(fd)
	_ = syscall.SetsockoptInt(fd, syscall.SOL_SOCKET, syscall.SO_REUSEADDR, 1)
	return syscall.Bind(fd, &syscall.SockaddrInet4{Port: p, Addr: [4]byte{127, 0, 0, 1}}) == nil
}

// owns says whether the process (or a descendant: wrapped commands) holds a
// socket listening on the port. Where /proc cannot tell, it is trusted.
func (s *Server) owns(port int) bool {
	inodes := map[string]bool{}
	known := false
	for _, f := range []string{"/proc/net/tcp", "/proc/net/tcp6"} {
		data, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		known = known || f == "/proc/net/tcp"
		want := fmt.Sprintf(":%04X", port)
		for _, line := range strings.Split(string(data), "\n") {
			f := strings.Fields(line)
			if len(f) > 9 && f[3] == "0A" && (port < 0 || strings.HasSuffix(f[1], want)) {
				inodes["socket:["+f[9]+"]"] = true
			}
		}
	}
	if !known {
		return true
	}
	pids := []int{s.Pid()}
	for i := 0; i < len(pids); i++ {
		dir := fmt.Sprintf("/proc/%d/fd", pids[i])
		ents, err := os.ReadDir(dir)
		if errors.Is(err, os.ErrPermission) {
			return true
		}
		for _, e := range ents {
			if l, err := os.Readlink(filepath.Join(dir, e.Name())); err == nil && inodes[l] {
				return true
			}
		}
		tasks, _ := filepath.Glob(fmt.Sprintf("/proc/%d/task/*/children", pids[i]))
		for _, t := range tasks {
			data, _ := os.ReadFile(t)
			for _, w := range strings.Fields(string(data)) {
				if n, err := strconv.Atoi(w); err == nil {
					pids = append(pids, n)
				}
			}
		}
	}
	return false
}

type logBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *logBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.Write(p)
}
func (l *logBuf) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.String()
}

type Server struct {
	c      *C
	cmd    *exec.Cmd
	Log    *logBuf
	Base   string
	Dir    string
	Cfg    string
	done   chan struct{}
	code   int
	signal string
	client *http.Client
}

type StartOpts struct {
	Variant string   // plain, race, asan
	Env     []string // extra environment
	Wrap    []string // command prefix (strace, prlimit, ...)
	Args    []string // arguments instead of -c config
	LogLvl  string
	Port    int    // port to poll; 0 = do not wait for a port
	Scheme  string // http or https
	Exe     string // explicit binary
	Wait    int    // seconds before the server is said not to listen
}

// Spawn starts the real server as a child process in its own process group.
func (c *C) Spawn(dir, cfgPath string, o StartOpts) *Server {
	if o.Variant == "" {
		o.Variant = "plain"
	}
	if o.LogLvl == "" {
		o.LogLvl = "info"
	}
	bin := o.Exe
	if bin == "" {
		bin = c.Binary(o.Variant)
	}
	args := append([]string{}, o.Wrap...)
	args = append(args, bin)
	if o.Args != nil {
		args = append(args, o.Args...)
	} else {
		args = append(args, "-c", cfgPath, "-l", o.LogLvl)
	}
	cmd := exec.Command(args[0], args[1:]...)
	cmd.Dir = dir
	cmd.Env = append([]string{"PATH=/usr/bin:/bin", "HOME=" + dir, "TMPDIR=" + dir, "LANG=C.UTF-8"}, o.Env...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	s := &Server{c: c, cmd: cmd, Log: &logBuf{}, Dir: dir, Cfg: cfgPath, done: make(chan struct{})}
	cmd.Stdout = s.Log
	cmd.Stderr = s.Log
	started := make(chan error, 1)
	go func() {
		// Pdeathsig is tied to the thread: this goroutine stays on its own
		// thread only while waiting, which is enough as main never exits
		// before killing the children.
		err := cmd.Start()
		started <- err
		if err != nil {
			close(s.done)
			return
		}
		_ = cmd.Wait()
		if ws, ok := cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			s.signal = ws.Signal().String()
			s.code = 128 + int(ws.Signal())
		} else {
			s.code = cmd.ProcessState.ExitCode()
		}
		close(s.done)
	}()
	if err := <-started; err != nil {
		panic(err)
	}
	c.mu.Lock()
	c.servers = append(c.servers, s)
	c.mu.Unlock()
	if o.Scheme == "" {
		o.Scheme = "http"
	}
	if o.Port != 0 {
		s.Base = fmt.Sprintf("%s://127.0.0.1:%d", o.Scheme, o.Port)
	}
	s.client = newClient()
	return s
}

func newClient() *http.Client {
	return &http.Client{
		Timeout: 90 * time.Second,
		Transport: &http.Transport{
			MaxIdleConns: 256, MaxIdleConnsPerHost: 256, DisableCompression: true,
			TLSClientConfig: &tls.Config{InsecureSkipVerify: true},
			DialContext: func(ctx context.Context, network, addr string) (net.Conn, error) {
				d := net.Dialer{Timeout: 60 * time.Second}
				return d.DialContext(ctx, network, addr)
			},
		},
		CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse },
	}
}

// WaitUp waits until the port accepts connections (true) or the process ended (false).
func (s *Server) WaitUp(d time.Duration) (bool, error) {
	addr := strings.TrimPrefix(strings.TrimPrefix(s.Base, "http://"), "https://")
	deadline := time.Now().Add(d)
	for {
		select {
		case <-s.done:
			return false, nil
		default:
		}
		conn, err := net.DialTimeout("tcp", addr, time.Second)
		if err == nil {
			_ = conn.Close()
			_, port, _ := net.SplitHostPort(addr)
			if n, err := strconv.Atoi(port); err != nil || s.owns(n) {
				return true, nil
			}
		}
		if time.Now().After(deadline) {
			return false, errors.New("neither listening nor finished: " + tail(s.Log.String(), 400))
		}
		time.Sleep(3 * time.Millisecond)
	}
}

func (s *Server) Exited() bool {
	select {
	case <-s.done:
		return true
	default:
		return false
	}
}

// WaitExit waits for the end of the process; ok is false on timeout.
func (s *Server) WaitExit(d time.Duration) (code int, ok bool) {
	select {
	case <-s.done:
		return s.code, true
	case <-time.After(d):
		return 0, false
	}
}

func (s *Server) Pid() int { return s.cmd.Process.Pid }

func (s *Server) Signal(sig syscall.Signal) { _ = s.cmd.Process.Signal(sig) }

func (s *Server) Kill() {
	if s.cmd.Process == nil || s.Exited() {
		return
	}
	_ = syscall.Kill(-s.cmd.Process.Pid, syscall.SIGKILL)
	select {
	case <-s.done:
	case <-time.After(10 * time.Second):
	}
	if s.client != nil {
		s.client.CloseIdleConnections()
	}
}

// Stop asks for a graceful end, then kills.
func (s *Server) Stop() (code int, graceful bool) {
	if s.client != nil {
		s.client.CloseIdleConnections()
	}
	s.Signal(syscall.SIGINT)
	code, ok := s.WaitExit(30 * time.Second)
	if !ok {
		s.Kill()
	}
	return code, ok
}

type Resp struct {
	Status int
	Header http.Header
	Body   []byte
	Err    error
}

func (s *Server) Do(method, path string, body []byte) *Resp {
	req, err := http.NewRequest(method, s.Base+path, bytes.NewReader(body))
	if err != nil {
		return &Resp{Err: fmt.Errorf("harness cannot build the request: %w", err)}
	}
	return s.DoReq(req)
}

func (s *Server) DoReq(req *http.Request) *Resp {
	r, err := s.client.Do(req)
	if err != nil {
		return &Resp{Err: err}
	}
	defer r.Body.Close()
	b, err := io.ReadAll(r.Body)
	return &Resp{Status: r.StatusCode, Header: r.Header, Body: b, Err: err}
}

func (s *Server) Get(path string) *Resp { return s.Do("GET", path, nil) }

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

// fdCount reads the descriptor table of our own child process.
func (s *Server) fds() (map[string]int, int) {
	out := map[string]int{}
	n := 0
	dir := fmt.Sprintf("/proc/%d/fd", s.Pid())
	ents, err := os.ReadDir(dir)
	if err != nil {
		return out, -1
	}
	for _, e := range ents {
		l, err := os.Readlink(filepath.Join(dir, e.Name()))
		if err != nil {
			continue
		}
		out[l]++
		n++
	}
	return out, n
}
