package main

import (
	"bufio"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

func init() {
	register(&Check{ID: "C23", Level: "exploration", Min: 60,
		Rule: "a case is one (set of services, history of the process: start, requests, signal or failure) judged on every response, on the exit status and on the ports; non-trivial: requests were really being handled, or the start or service really failed",
		Fn:   c23})
}

// port of a service of a life
type lport struct {
	svc, port int
	tls       bool
}

func (p lport) addr() string { return fmt.Sprintf("127.0.0.1:%d", p.port) }

type lifeWorld struct {
	*World
	ports []lport
	// layout: for each service, a string of 'h' (http) and 's' (https)
	layout []string
	fixed  []int // ports to use instead of free ones
	cert   string
	key    string
}

// lifeData makes the inputs once: "big" is slow to scan, "wide" gives large
// responses.
func (c *C) lifeData(dir string, layout ...string) *lifeWorld {
	r := c.Rng("data", 0)
	w := &lifeWorld{World: NewWorld(dir), layout: layout}
	big := w.CsvInput(r, "big", 20000, []Field{
		{"id", "integer", func(r randT, i int) (string, any) { return fmt.Sprint(i), int64(i) }},
		fKey("cat", "c", 8)}, CsvOpts{})
	_ = big
	recs := []Rec{}
	for i := 0; i < 40; i++ {
		recs = append(recs, Rec{"id": float64(i), "note": strings.Repeat(fmt.Sprintf("%d-%s ", i, word(r)), 40000)})
	}
	w.JsonInput(r, "wide", recs)
	w.AddIndex(&Index{Name: "m", Kind: "map", Input: "big", Props: []IProp{{"id", ""}}})
	w.AddOutput(&Output{Name: "one", Kind: "jsonObject", Input: "big", Params: map[string]Param{"id": {"id", "m", "integer"}}}, "/one/{id}")
	for _, kind := range []string{"csv", "json", "xml"} {
		w.anyInput(r, "r"+kind, kind, 60, 30)
	}
	cat := []IProp{{"cat", ""}}
	w.AddIndex(&Index{Name: "rs", Kind: "sqlite", Input: "rcsv", Props: cat, Path: "rs.db"})
	w.AddIndex(&Index{Name: "ro", Kind: "sqlite", Input: "rjson", Props: cat, Path: ":memory:"})
	w.AddIndex(&Index{Name: "rx", Kind: "wildcard", Input: "rxml", Props: cat, Path: "rx.idx"})
	w.AddIndex(&Index{Name: "rm", Kind: "map", Input: "rxml", Props: cat})
	w.AddIndex(&Index{Name: "rf", Kind: "fts5", Input: "rjson", Props: cat, Path: "rf.db", FtsMatch: func(rec Rec, q string) (bool, error) {
		return rec["cat"] == q, nil
	}})
	w.AddOutput(&Output{Name: "slow", Kind: "jsonArray", Input: "big", LimMax: 100000, Rels: map[string]*Rel{
		"same": {Input: "big", IsArray: true, Match: []RelMatch{{"id", "id", ""}},
			// what a request uses up to its end: every kind of index and of input
			Rels: map[string]*Rel{
				"s": {Input: "rcsv", IsArray: true, Limit: 2, Match: []RelMatch{{"cat", "cat", "rs"}}},
				"o": {Input: "rjson", IsArray: true, Limit: 2, Match: []RelMatch{{"cat", "cat", "ro"}}},
				"f": {Input: "rjson", IsArray: true, Limit: 2, Match: []RelMatch{{"cat", "match", "rf"}}},
				"x": {Input: "rxml", IsArray: true, Limit: 2, Match: []RelMatch{{"cat", "cat", "rx"}}},
				"m": {Input: "rxml", IsArray: true, Limit: 2, Match: []RelMatch{{"cat", "cat", "rm"}}}}}}}, "/slow")
	w.AddOutput(&Output{Name: "wide", Kind: "jsonArray", Input: "wide"}, "/wide")
	w.cert, w.key = selfSigned(dir, "srv")
	w.Extra = func(cfg M) {
		routes := cfg["services"].(A)[0].(M)["routes"]
		first := strings.TrimPrefix(cfg["services"].(A)[0].(M)["http"].(M)["listen"].(string), "127.0.0.1:")
		firstPort, _ := strconv.Atoi(first)
		w.ports = nil
		svcs := A{}
		n := 0
		for i, l := range w.layout {
			svc := M{"name": fmt.Sprintf("svc%d", i), "type": "http", "routes": routes}
			for _, k := range l {
				p := firstPort
				if n < len(w.fixed) {
					p = w.fixed[n]
				} else if n > 0 {
					p = freePort()
				}
				n++
				if k == 'h' {
					svc["http"] = M{"listen": fmt.Sprintf("127.0.0.1:%d", p)}
				} else {
					svc["https"] = M{"listen": fmt.Sprintf("127.0.0.1:%d", p), "certificatePath": w.cert, "privateKeyPath": w.key}
				}
				w.ports = append(w.ports, lport{i, p, k == 's'})
			}
			svcs = append(svcs, svc)
		}
		cfg["services"] = svcs
	}
	return w
}

// begin starts a server and waits for all of its ports.
func (w *lifeWorld) begin(c *C, wrap ...string) *Server {
	s := w.startOrFail(c, StartOpts{Wrap: wrap})
	if s == nil {
		return nil
	}
	for _, p := range w.ports {
		q := *s
		q.Base = "http://" + p.addr()
		if up, err := q.WaitUp(120 * time.Second); !up {
			c.Fail("startup", M{"port": p.addr(), "error": fmt.Sprint(err), "log": tail(s.Log.String(), 1500)}, s.Cfg)
			s.Kill()
			return nil
		}
	}
	return s
}

func (p lport) dial() (net.Conn, error) {
	d := net.Dialer{Timeout: 30 * time.Second, Control: func(network, address string, rc syscall.RawConn) error {
		return rc.Control(func(fd uintptr) {
			_ = syscall.SetsockoptInt(int(fd), syscall.SOL_SOCKET, syscall.SO_RCVBUF, 8192)
		})
	}}
	conn, err := d.Dial("tcp", p.addr())
	if err != nil {
		return nil, err
	}
	if p.tls {
		t := tls.Client(conn, &tls.Config{InsecureSkipVerify: true})
		_ = t.SetDeadline(time.Now().Add(60 * time.Second))
		if err := t.Handshake(); err != nil {
			_ = conn.Close()
			return nil, err
		}
		_ = t.SetDeadline(time.Time{})
		return t, nil
	}
	return conn, nil
}

func readResp(br *bufio.Reader) *Resp {
	hr, err := http.ReadResponse(br, nil)
	if err != nil {
		return &Resp{Err: err}
	}
	b, err := io.ReadAll(hr.Body)
	return &Resp{Status: hr.StatusCode, Header: hr.Header, Body: b, Err: err}
}

type flight struct {
	port    lport
	kind    string // slow, wide, h2slow, h2wide
	path    string
	ready   chan struct{} // the request is being handled
	release chan struct{} // the client may read the rest
	done    chan struct{}
	resp    *Resp
	at      time.Time // of the end
}

// launch sends a request; ready is closed when the server is known to be
// handling it.
func (w *lifeWorld) launch(p lport, kind, path string) *flight {
	f := &flight{port: p, kind: kind, path: path, ready: make(chan struct{}), release: make(chan struct{}), done: make(chan struct{})}
	go func() {
		defer func() { f.at = time.Now(); close(f.done) }()
		var once sync.Once
		ready := func() { once.Do(func() { close(f.ready) }) }
		defer ready()
		if strings.HasPrefix(kind, "h2") {
			t := &http.Transport{ForceAttemptHTTP2: true, TLSClientConfig: &tls.Config{InsecureSkipVerify: true}}
			defer t.CloseIdleConnections()
			cl := &http.Client{Transport: t}
			// the first request opens the connection
			if r, err := cl.Get("https://" + p.addr() + "/one/1"); err != nil {
				f.resp = &Resp{Err: err}
				return
			} else {
				_, _ = io.Copy(io.Discard, r.Body)
				_ = r.Body.Close()
				if r.ProtoMajor != 2 {
					f.resp = &Resp{Err: fmt.Errorf("protocol %s", r.Proto)}
					return
				}
			}
			if kind == "h2slow" {
				time.AfterFunc(500*time.Millisecond, ready)
			}
			r, err := cl.Get("https://" + p.addr() + path)
			if err != nil {
				f.resp = &Resp{Err: err}
				return
			}
			ready()
			<-f.release
			b, err := io.ReadAll(r.Body)
			_ = r.Body.Close()
			f.resp = &Resp{Status: r.StatusCode, Header: r.Header, Body: b, Err: err}
			return
		}
		conn, err := p.dial()
		if err != nil {
			f.resp = &Resp{Err: err}
			return
		}
		defer conn.Close()
		br := bufio.NewReaderSize(conn, 512)
		_, err = fmt.Fprintf(conn, "GET /one/1 HTTP/1.1\r\nHost: a\r\n\r\nGET %s HTTP/1.1\r\nHost: a\r\n\r\n", path)
		if err != nil {
			f.resp = &Resp{Err: err}
			return
		}
		if r := readResp(br); r.Err != nil || r.Status != 200 {
			f.resp = &Resp{Err: fmt.Errorf("first response: %d %v", r.Status, r.Err)}
			return
		}
		if kind == "slow" {
			time.AfterFunc(300*time.Millisecond, ready)
		}
		if _, err := br.Peek(12); err != nil {
			f.resp = &Resp{Err: fmt.Errorf("no response: %w", err)}
			return
		}
		ready()
		<-f.release
		f.resp = readResp(br)
	}()
	return f
}

func (f *flight) finished() bool {
	select {
	case <-f.done:
		return true
	default:
		return false
	}
}

// cpu gives the processor time of a process in ticks (10 ms).
func cpu(pid int) int {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	s := string(b)
	fs := strings.Fields(s[strings.LastIndex(s, ")")+1:])
	if len(fs) < 14 {
		return 0
	}
	u, _ := strconv.Atoi(fs[11])
	k, _ := strconv.Atoi(fs[12])
	return u + k
}

func canListen(p lport) error {
	if !bindable(p.port) {
		return fmt.Errorf("somebody still listens on %s", p.addr())
	}
	return nil
}

// ended checks the end of a process and of its ports.
func (w *lifeWorld) ended(c *C, s *Server, name string, wantZero bool, d time.Duration, detail M) bool {
	code, ok := s.WaitExit(d)
	detail["exit"], detail["log"] = code, tail(s.Log.String(), 2500)
	switch {
	case !ok:
		c.Fail(name+":hang", detail, s.Cfg)
		s.Kill()
		return false
	case wantZero && code != 0, !wantZero && code == 0:
		c.Fail(name+":status", detail, s.Cfg)
		return false
	case crashed(s.Log.String()):
		c.Fail(name+":crash", detail, s.Cfg)
		return false
	}
	for _, p := range w.ports {
		var err error
		for i := 0; i < 20; i++ {
			if err = canListen(p); err == nil {
				break
			}
			time.Sleep(100 * time.Millisecond)
		}
		if err != nil {
			detail["port"] = err.Error()
			c.Fail(name+":port", detail, s.Cfg)
			return false
		}
	}
	return true
}

func crashed(log string) bool {
	for _, m := range []string{"panic: ", "goroutine 1 [", "fatal error: ", "SIGSEGV"} {
		if strings.Contains(log, m) {
			return true
		}
	}
	return false
}

// drain: requests being handled when the interrupt signal comes.
func (c *C) drain(idx int, layout []string, hold time.Duration) {
	r := c.Rng("drain", idx)
	w := c.lifeData(c.dir("drain%d", idx), layout...)
	s := w.begin(c)
	if s == nil {
		return
	}
	before := cpu(s.Pid())
	fl := []*flight{}
	nslow := 0
	for i := 0; i < 3+r.Intn(4); i++ {
		p := w.ports[r.Intn(len(w.ports))]
		kind, path := "wide", fmt.Sprintf("/wide?offset=%d", r.Intn(3))
		if hold == 0 && r.Intn(2) == 0 && nslow < 3 {
			nslow++
			kind, path = "slow", fmt.Sprintf("/slow?limit=%d&offset=%d", 60+r.Intn(60), r.Intn(300))
		}
		if p.tls && r.Intn(2) == 0 {
			kind = "h2" + kind
		}
		f := w.launch(p, kind, path)
		if kind == "slow" || kind == "h2slow" {
			close(f.release)
		}
		fl = append(fl, f)
	}
	idle := []net.Conn{}
	for i := 0; i < r.Intn(4); i++ { // connections without any request
		p := w.ports[r.Intn(len(w.ports))]
		if conn, err := p.dial(); err == nil {
			idle = append(idle, conn)
		}
	}
	for _, f := range fl {
		select {
		case <-f.ready:
		case <-time.After(120 * time.Second):
			c.Inconclusive("a request was not handled within two minutes")
			s.Kill()
			return
		}
	}
	if nslow > 0 {
		for i := 0; i < 400 && cpu(s.Pid())-before < 10+5*nslow; i++ {
			time.Sleep(10 * time.Millisecond)
		}
	}
	time.Sleep(time.Duration(r.Intn(120)) * time.Millisecond)
	flying := []*flight{}
	for _, f := range fl {
		if !f.finished() {
			flying = append(flying, f)
		}
	}
	s.Signal(syscall.SIGINT)
	sent := time.Now()
	detail := func(f *flight) M {
		return M{"layout": layout, "kind": f.kind, "port": f.port, "request": f.path, "after_signal": f.at.Sub(sent).String(), "log": tail(s.Log.String(), 1500)}
	}
	// stops accepting: the listener of the (only) service is closed although
	// requests are still being handled
	holding := false
	for _, f := range flying {
		holding = holding || strings.HasSuffix(f.kind, "wide")
	}
	if len(w.ports) == 1 && holding {
		p, refused := w.ports[0], false
		for i := 0; i < 200 && !refused; i++ {
			conn, err := net.DialTimeout("tcp", p.addr(), time.Second)
			if err != nil {
				refused = true
				break
			}
			_ = conn.Close()
			time.Sleep(50 * time.Millisecond)
		}
		if !refused {
			c.Fail("accepting", M{"layout": layout, "log": tail(s.Log.String(), 1500)}, s.Cfg)
		}
		c.Count("observed_refused_while_draining", 1)
	}
	if hold > 0 {
		time.Sleep(hold)
	} else {
		time.Sleep(time.Duration(r.Intn(2500)) * time.Millisecond)
	}
	for _, f := range fl {
		select {
		case <-f.release:
		default:
			close(f.release)
			if r.Intn(2) == 0 {
				time.Sleep(time.Duration(r.Intn(300)) * time.Millisecond)
			}
		}
	}
	late := 0
	for _, f := range fl {
		select {
		case <-f.done:
		case <-time.After(120 * time.Second):
			c.Fail("drain:hang", detail(f), s.Cfg)
			s.Kill()
			return
		}
		why := judge(w.Expect(f.path), f.resp)
		if why != "" {
			d := detail(f)
			d["why"] = why
			c.Fail("drain:lost:"+f.kind, d, s.Cfg)
		}
		if f.at.After(sent) {
			late++
			c.Count("answered_after_the_signal_"+f.kind, 1)
			c.Max("max_ms_after_the_signal", f.at.Sub(sent).Milliseconds())
		}
	}
	w.ended(c, s, "drain", true, 60*time.Second, M{"layout": layout})
	for _, conn := range idle {
		_ = conn.Close()
	}
	key := ""
	if late > 0 {
		key = fmt.Sprintf("drain|%d|%v|%d", idx, layout, late)
	}
	c.Eval(key)
	c.Count("drains", 1)
	if idx < 2 {
		c.Sample(M{"layout": layout, "in_flight": len(flying), "answered_after_the_signal": late, "exit": s.code})
	}
}

// early: requests sent as soon as the port accepts connections.
func (c *C) early(idx int) {
	r := c.Rng("early", idx)
	kind := pick(r, "csv", "json", "xml")
	w := c.mixWorld(r, c.dir("early%d", idx), kind, 700, 60)
	w.AddOutput(&Output{Name: "all", Kind: "jsonArray", Input: "in", Params: w.params}, "/all")
	port := freePort()
	cfg := filepath.Join(w.Dir, "config.yaml")
	writeConfig(cfg, w.Config(port))
	qs := []string{}
	for i := 0; i < 40; i++ {
		vals, _ := w.query(r, 1+r.Intn(2))
		vals.Set("limit", "5")
		qs = append(qs, "/all?"+vals.Encode())
	}
	s := c.Spawn(w.Dir, cfg, StartOpts{Port: port})
	p := lport{0, port, false}
	var answered, refused int64
	parallel(8, 8, func(g int) {
		for n := 0; n < 5; {
			if s.Exited() {
				return
			}
			conn, err := net.DialTimeout("tcp", p.addr(), 30*time.Second)
			if err != nil {
				atomic.AddInt64(&refused, 1)
				time.Sleep(time.Duration(g) * 100 * time.Microsecond)
				continue
			}
			q := qs[(g*5+n)%len(qs)]
			_ = conn.SetDeadline(time.Now().Add(120 * time.Second))
			_, err = fmt.Fprintf(conn, "GET %s HTTP/1.1\r\nHost: a\r\nConnection: close\r\n\r\n", q)
			var resp *Resp
			if err != nil {
				resp = &Resp{Err: err}
			} else {
				resp = readResp(bufio.NewReader(conn))
			}
			_ = conn.Close()
			if why := judge(w.Expect(q), resp); why != "" {
				c.Fail("early:answer", M{"kind": kind, "request": q, "why": why, "log": tail(s.Log.String(), 1500)}, s.Cfg)
			}
			c.Eval(fmt.Sprintf("early|%d|%s", idx, q))
			atomic.AddInt64(&answered, 1)
			n++
		}
	})
	if answered == 0 {
		c.Fail("startup", M{"kind": kind, "log": tail(s.Log.String(), 1500)}, s.Cfg)
		return
	}
	c.Count("early_answers", answered)
	c.Count("refused_before_ready", refused)
	if code, ok := s.Stop(); !ok || code != 0 {
		c.Fail("early:stop", M{"exit": code, "graceful": ok, "log": tail(s.Log.String(), 1500)}, s.Cfg)
	}
}

// failed: starts which cannot succeed.
func (c *C) failed(idx int) {
	layouts := [][]string{{"h"}, {"s"}, {"hs"}, {"h", "h"}, {"h", "s"}, {"hs", "h"}, {"h", "h", "h", "h"}}
	layout := layouts[idx%len(layouts)]
	n := len(strings.Join(layout, ""))
	w := c.lifeData(c.dir("failed%d", idx), layout...)
	w.AddIndex(&Index{Name: "sq", Kind: "sqlite", Input: "big", Props: []IProp{{"id", ""}}, Path: "sq.db"})
	w.AddIndex(&Index{Name: "wi", Kind: "wildcard", Input: "wide", Props: []IProp{{"id", ""}}, Path: "wi.idx"})
	delete(w.Indexes, "wi") // numbers cannot be indexed
	w.AddOutput(&Output{Name: "sql", Kind: "jsonObject", Input: "big", Params: map[string]Param{"id": {"id", "sq", "integer"}}}, "/sql/{id}")
	bad := idx / len(layouts) % n
	how := []string{"used", "twice", "address"}[idx/len(layouts)/n%3]
	if how == "twice" && n == 1 {
		how = "used"
	}
	ports := []int{}
	for i := 0; i < n; i++ {
		ports = append(ports, freePort())
	}
	var l net.Listener
	var err error
	if how == "used" {
		l, err = net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", ports[bad]))
		must(err)
	}
	if how == "twice" {
		ports[bad] = ports[(bad+1)%n]
	}
	w.fixed = ports
	cfg := filepath.Join(w.Dir, "config.yaml")
	m := w.Config(ports[0])
	if how == "address" {
		k := 0
		for _, svc := range m["services"].(A) {
			for _, key := range []string{"http", "https"} {
				if h, ok := svc.(M)[key].(M); ok {
					if k == bad {
						h["listen"] = pickAt(idx, "127.0.0.1:99999", "127.0.0.1:http-nope", "256.1.1.1:80", "nonsense", "192.0.2.1:81")
					}
					k++
				}
			}
		}
	}
	writeConfig(cfg, m)
	s := c.Spawn(w.Dir, cfg, StartOpts{Port: ports[(bad+1)%n]})
	detail := M{"layout": layout, "how": how, "which": bad}
	if how == "used" {
		keep := w.ports
		w.ports = nil
		for i, p := range keep {
			if i != bad {
				w.ports = append(w.ports, p)
			}
		}
	}
	ok := w.ended(c, s, "failed", false, 120*time.Second, detail)
	if l != nil {
		_ = l.Close()
	}
	if !ok {
		return
	}
	if !strings.Contains(s.Log.String(), "level=error") {
		c.Fail("failed:message", detail, s.Cfg)
	}
	c.Eval(fmt.Sprintf("failed|%v|%s|%d", layout, how, bad))
	c.Count("failed_starts", 1)
	// then it can start, on what the failed start left
	w.fixed = nil
	if s = w.begin(c); s == nil {
		return
	}
	for _, q := range []string{"/one/7", "/sql/7", "/sql/19999", "/sql/20000", "/one/x", "/wide?limit=1"} {
		p := w.ports[idx%len(w.ports)]
		w.askPort(c, s, p, "failed:after", q)
	}
	s.Signal(syscall.SIGINT)
	w.ended(c, s, "failed:stop", true, 60*time.Second, detail)
}

func (w *lifeWorld) askPort(c *C, s *Server, p lport, sig, q string) {
	conn, err := p.dial()
	var resp *Resp
	if err != nil {
		resp = &Resp{Err: err}
	} else {
		_ = conn.SetDeadline(time.Now().Add(60 * time.Second))
		_, err = fmt.Fprintf(conn, "GET %s HTTP/1.1\r\nHost: a\r\nConnection: close\r\n\r\n", q)
		resp = readResp(bufio.NewReader(conn))
		_ = conn.Close()
	}
	if why := judge(w.Expect(q), resp); why != "" {
		c.Fail(sig, M{"layout": w.layout, "port": p, "request": q, "why": why, "log": tail(s.Log.String(), 1500)}, s.Cfg)
	}
}

// lost: the system refuses the connections of one of the ports.
func (c *C) lost(idx int) {
	layouts := [][]string{{"h"}, {"s"}, {"hs"}, {"hs"}, {"h", "s"}, {"h", "h"}}
	layout := layouts[idx%len(layouts)]
	w := c.lifeData(c.dir("lost%d", idx), layout...)
	in, wrap := c.NewInject(fmt.Sprintf("lost%d", idx), "socket:")
	s := w.begin(c, wrap...)
	if s == nil {
		return
	}
	for _, p := range w.ports {
		w.askPort(c, s, p, "lost:before", "/one/5")
	}
	p := w.ports[(idx/2)%len(w.ports)]
	// temporary failures are survived
	tmp := []syscall.Errno{syscall.EMFILE, syscall.ECONNABORTED, syscall.ENFILE}[idx%3]
	in.Set(iError, int(tmp), fAccept, 0, 3, 1000, 1, 1)
	for i := 0; i < 3; i++ {
		w.askPort(c, s, p, "lost:temporary", fmt.Sprintf("/one/%d", i))
	}
	c.Count("accept_faults_survived", int64(in.Hits()))
	if in.Hits() > 0 {
		c.Eval(fmt.Sprintf("temporary|%v|%v|%v", layout, p.svc, tmp))
	}
	in.Set(iError, int(syscall.EINVAL), fAccept, 0, -1, 1000, 1, 1)
	if conn, err := net.DialTimeout("tcp", p.addr(), 10*time.Second); err == nil {
		defer conn.Close()
	}
	for i := 0; i < 500 && in.Hits() == 0; i++ {
		time.Sleep(10 * time.Millisecond)
	}
	if in.Hits() == 0 {
		c.Inconclusive("no connection was refused by the injector")
		s.Kill()
		return
	}
	w.ended(c, s, "lost", false, 60*time.Second, M{"layout": layout, "port": p})
	c.Eval(fmt.Sprintf("lost|%v|%v|%v", layout, p.svc, p.tls))
	c.Count("services_lost", 1)
}

// restart: the same ports, again and again, with idle connections left open.
func (c *C) restart(idx int) {
	r := c.Rng("restart", idx)
	layout := [][]string{{"h"}, {"hs"}, {"s", "h"}}[idx%3]
	w := c.lifeData(c.dir("restart%d", idx), layout...)
	for range strings.Join(layout, "") {
		w.fixed = append(w.fixed, freePort())
	}
	cfg := filepath.Join(w.Dir, "config.yaml")
	writeConfig(cfg, w.Config(w.fixed[0]))
	for life := 0; life < c.Q(5, 25); life++ {
		s := c.Spawn(w.Dir, cfg, StartOpts{Port: w.fixed[0]})
		for _, p := range w.ports {
			q := *s
			q.Base = "http://" + p.addr()
			if up, err := q.WaitUp(120 * time.Second); !up {
				c.Fail("restart:startup", M{"life": life, "layout": layout, "error": fmt.Sprint(err), "log": tail(s.Log.String(), 1500)}, cfg)
				s.Kill()
				return
			}
		}
		conns := []net.Conn{}
		for i := 0; i < 10; i++ {
			p := w.ports[r.Intn(len(w.ports))]
			conn, err := p.dial()
			if err != nil {
				c.Fail("restart:connection", M{"life": life, "error": err.Error()}, cfg)
				continue
			}
			defer conn.Close()
			q := fmt.Sprintf("/one/%d", r.Intn(21000))
			fmt.Fprintf(conn, "GET %s HTTP/1.1\r\nHost: a\r\n\r\n", q)
			if why := judge(w.Expect(q), readResp(bufio.NewReader(conn))); why != "" {
				c.Fail("restart:answer", M{"life": life, "request": q, "why": why}, cfg)
			}
			if r.Intn(2) == 0 {
				_ = conn.Close()
			}
			conns = append(conns, conn)
		}
		s.Signal(syscall.SIGINT)
		if !w.ended(c, s, "restart", true, 60*time.Second, M{"life": life, "layout": layout}) {
			return
		}
		c.Eval(fmt.Sprintf("restart|%d|%d", idx, life))
		c.Count("restarts", 1)
		for _, conn := range conns {
			_ = conn.Close()
		}
	}
}

// midstart: the signal comes at any moment of the start.
func (c *C) midstart(idx int) {
	r := c.Rng("midstart", idx)
	w := c.lifeData(c.dir("mid%d", idx), "hs", "h")
	cfg := filepath.Join(w.Dir, "config.yaml")
	for i := 0; i < c.Q(10, 60); i++ {
		writeConfig(cfg, w.Config(freePort()))
		s := c.Spawn(w.Dir, cfg, StartOpts{Port: w.ports[0].port})
		time.Sleep(time.Duration(r.Intn([]int{200000, 30000, 60000}[i%3])) * time.Microsecond)
		s.Signal(syscall.SIGINT)
		code, ok := s.WaitExit(60 * time.Second)
		switch {
		case !ok:
			c.Fail("midstart:hang", M{"log": tail(s.Log.String(), 1500)}, cfg)
			s.Kill()
		case strings.Contains(s.Log.String(), "Received signal") && code != 0:
			c.Fail("midstart:status", M{"exit": code, "log": tail(s.Log.String(), 1500)}, cfg)
		}
		for _, p := range w.ports {
			if err := canListen(p); err != nil {
				c.Fail("midstart:port", M{"error": err.Error()}, cfg)
			}
		}
		c.Count(fmt.Sprintf("interrupted_starts_exit_%d", code), 1)
		c.Eval(fmt.Sprintf("mid|%d|%d", idx, i))
	}
}

// fifo: the first port already serves while the start is still going on.
func (c *C) fifo() {
	w := c.lifeData(c.dir("fifo"), "hs")
	data, err := os.ReadFile(filepath.Join(w.Dir, w.cert))
	must(err)
	fifo := filepath.Join(w.Dir, "fifo.crt")
	must(syscall.Mkfifo(fifo, 0644))
	w.cert = "fifo.crt"
	port := freePort()
	cfg := filepath.Join(w.Dir, "config.yaml")
	writeConfig(cfg, w.Config(port))
	s := c.Spawn(w.Dir, cfg, StartOpts{Port: port})
	defer s.Kill()
	s2 := *s
	up, _ := s2.WaitUp(15 * time.Second)
	if !up {
		// it does not listen before it has everything: nothing to lose
		c.Count("fifo_not_listening", 1)
		return
	}
	f := w.launch(w.ports[0], "wide", "/wide")
	<-f.ready
	s.Signal(syscall.SIGINT)
	time.Sleep(300 * time.Millisecond)
	go func() {
		if o, err := os.OpenFile(fifo, os.O_WRONLY, 0); err == nil {
			_, _ = o.Write(data)
			_ = o.Close()
		}
	}()
	time.Sleep(700 * time.Millisecond)
	close(f.release)
	<-f.done
	if why := judge(w.Expect(f.path), f.resp); why != "" {
		c.Fail("fifo:lost", M{"why": why, "log": tail(s.Log.String(), 1500)}, cfg)
	}
	if code, ok := s.WaitExit(60 * time.Second); !ok || code != 0 {
		c.Fail("fifo:status", M{"exit": code, "ended": ok, "log": tail(s.Log.String(), 1500)}, cfg)
	}
	c.Eval("fifo")
	c.Count("signals_while_starting_and_serving", 1)
}

func c23(c *C) {
	layouts := [][]string{{"h"}, {"s"}, {"hs"}, {"h", "h"}, {"s", "h"}, {"hs", "hs"}}
	jobs := []func(){func() { c.drain(900, []string{"h"}, time.Duration(c.Q(33, 130))*time.Second) },
		func() { c.drain(901, []string{"s"}, time.Duration(c.Q(12, 70))*time.Second) },
		func() { c.fifo() }}
	for i := 0; i < c.Q(24, 240); i++ {
		jobs = append(jobs, func() { c.drain(i, layouts[i%len(layouts)], 0) })
	}
	for i := 0; i < c.Q(8, 60); i++ {
		jobs = append(jobs, func() { c.early(i) })
	}
	for i := 0; i < c.Q(28, 84); i++ {
		jobs = append(jobs, func() { c.failed(i) })
	}
	for i := 0; i < c.Q(3, 9); i++ {
		jobs = append(jobs, func() { c.restart(i) })
	}
	for i := 0; i < c.Q(2, 8); i++ {
		jobs = append(jobs, func() { c.midstart(i) })
	}
	if c.Injector() != "" {
		for i := 0; i < c.Q(12, 36); i++ {
			jobs = append(jobs, func() { c.lost(i) })
		}
	} else {
		c.Inconclusive("%v", errors.New("ptrace is not available: lost services not covered"))
	}
	c.Binary("plain")
	parallel(len(jobs), 5, func(i int) { jobs[i]() })
}
