package main

import (
	"bytes"
	"crypto/tls"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

func init() {
	register(&Check{ID: "C20", Level: "exploration", Min: 40,
		Rule: "a case is one group of requests of one class (successful, partially read, refused, failing, abandoned by the client) after which the descriptors, threads and memory of the server process were measured, once it was idle, against those it had before its first request",
		Fn:   c20})
}

// status reads a field of /proc/<pid>/status of our own child.
func (s *Server) status(field string) int64 {
	b, _ := os.ReadFile(fmt.Sprintf("/proc/%d/status", s.Pid()))
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, field+":") {
			n, _ := strconv.ParseInt(strings.Fields(l)[1], 10, 64)
			return n
		}
	}
	return -1
}

// quiet waits until the process does not use the processor any more: the
// requests of clients which went away are still being handled.
func (s *Server) quiet() {
	cpu := func() string {
		b, _ := os.ReadFile(fmt.Sprintf("/proc/%d/stat", s.Pid()))
		f := strings.Fields(string(b[bytes.LastIndexByte(b, ')')+1:]))
		if len(f) < 13 {
			return ""
		}
		return f[11] + "+" + f[12]
	}
	last := cpu()
	for end := time.Now().Add(60 * time.Second); time.Now().Before(end); {
		time.Sleep(60 * time.Millisecond)
		now := cpu()
		if now == last {
			return
		}
		last = now
	}
}

// idleFds waits until at most max descriptors are left, and gives them.
func (s *Server) idleFds(max int) (map[string]int, int) {
	s.client.CloseIdleConnections()
	s.quiet()
	var m map[string]int
	n := 0
	for end := time.Now().Add(10 * time.Second); ; time.Sleep(20 * time.Millisecond) {
		m, n = s.fds()
		if n >= 0 && n <= max || time.Now().After(end) {
			break
		}
	}
	return m, n
}

var goroutineRe = regexp.MustCompile(`(?m)^goroutine \d+ .*\[`)

type reqClass struct {
	name string
	gen  func(r randT) string
	bad  string // vanish, head, partial
}

func (c *C) resourceWorld(r randT, dir string) (*World, []reqClass) {
	w, gen := c.busyWorld(r, dir)
	w.CsvInput(r, "odd", 60, []Field{
		{"i", "integer", func(r randT, i int) (string, any) { return fmt.Sprint(i), int64(i) }},
		{"v", "float", func(r randT, i int) (string, any) {
			if i%3 == 0 {
				return pick(r, "NaN", "x", "Inf"), Bad{}
			}
			return "1.5", 1.5
		}},
		{"t", "string", func(r randT, i int) (string, any) { s := strings.Repeat("x", 3000); return s, s }},
		{"u", "string", func(r randT, i int) (string, any) { return "xxxx", "xxxx" }}}, CsvOpts{})
	w.AddParser(&PDef{Name: "latin", Type: "string", Charset: "iso-8859-1"})
	w.AddParser(&PDef{Name: "spaced", Type: "integer", Ignore: " _"})
	w.AddIndex(&Index{Name: "oi", Kind: "map", Input: "odd", Props: []IProp{{"i", ""}}})
	w.AddIndex(&Index{Name: "os", Kind: "sqlite", Input: "odd", Props: []IProp{{"i", ""}, {"t", ""}}, Path: "odd.db"})
	w.AddIndex(&Index{Name: "ox", Kind: "wildcard", Input: "odd", Props: []IProp{{"u", ""}}, Path: "odd.idx"})
	w.AddOutput(&Output{Name: "odd", Kind: "jsonArray", Input: "odd", LimDefault: 5, LimMax: 60, Params: map[string]Param{
		"i": {"i", "oi", "integer"}, "s": {"i", "os", "integer"}, "n": {"v", "", "float"}, "t": {"t", "os", ""}, "x": {"u", "ox", ""},
		"l": {"u", "", "latin"}, "k": {"i", "oi", "spaced"}, "lm": {"u", "ox", "latin"}}}, "/odd")
	w.AddOutput(&Output{Name: "oddone", Kind: "jsonObject", Input: "odd", Params: map[string]Param{"n": {"v", "", "float"}, "t": {"t", "os", ""}}}, "/oddone")
	cert, key := selfSigned(w.Dir, "tls")
	var secure string
	w.Extra = func(cfg M) {
		secure = fmt.Sprintf("127.0.0.1:%d", freePort())
		cfg["services"].(A)[0].(M)["https"] = M{"listen": secure, "certificatePath": cert, "privateKeyPath": key}
	}
	tlsOnce := func(r randT) { // a connection of its own, complete or not
		conn, err := net.DialTimeout("tcp", secure, 30*time.Second)
		if err != nil {
			return
		}
		defer conn.Close()
		_ = conn.SetDeadline(time.Now().Add(30 * time.Second))
		switch r.Intn(6) {
		case 0:
			return
		case 1: // no TLS at all
			_, _ = io.WriteString(conn, "GET /plaina?limit=1 HTTP/1.1\r\nHost: x\r\n\r\n")
			_, _ = conn.Read(make([]byte, 1000))
			return
		case 2: // the beginning of a handshake
			_, _ = conn.Write([]byte{0x16, 3, 1, 2, 0, 1, 0, 1, 0xfc, 3, 3}[:1+r.Intn(11)])
			time.Sleep(time.Duration(r.Intn(1000)) * time.Microsecond)
			return
		}
		conf := &tls.Config{InsecureSkipVerify: r.Intn(5) > 0, NextProtos: pick(r, []string{"http/1.1"}, []string{"h2"}, nil)}
		if r.Intn(6) == 0 {
			conf.MaxVersion, conf.MinVersion = tls.VersionTLS10, tls.VersionTLS10
		}
		sec := tls.Client(conn, conf)
		if sec.Handshake() != nil {
			return
		}
		_, raw := gen(r)
		_, _ = io.WriteString(sec, "GET "+raw+" HTTP/1.1\r\nHost: x\r\n\r\n")
		if r.Intn(2) == 0 {
			_, _ = sec.Read(make([]byte, 1000))
		}
	}
	w.secureOnce = tlsOnce
	long := url.QueryEscape(strings.Repeat("x", 3000))
	f := func(format string, n int) func(randT) string {
		return func(r randT) string {
			if strings.Contains(format, "%d") || strings.Contains(format, "%[1]d") {
				return fmt.Sprintf(format, r.Intn(n))
			}
			return format
		}
	}
	mixed := func(r randT) string { _, raw := gen(r); return raw }
	return w, []reqClass{
		{"mixed", mixed, ""},
		{"first page", f("/plaina?limit=1", 0), ""},
		{"first page json", f("/plainb?limit=1", 0), ""},
		{"first page xml", f("/plainp?limit=1", 0), ""},
		{"a page", f("/plaina?limit=2&offset=%d", 10), ""},
		{"after the end", f("/plainb?offset=%d000", 9), ""},
		{"related", f("/rela?limit=1&offset=%d", 10), ""},
		{"related json", f("/relb?limit=1&offset=%d", 10), ""},
		{"related xml", f("/relp?limit=1&offset=%d", 10), ""},
		{"one", f("/onea/%d", 20), ""},
		{"missing", f("/oneb/99%d", 1<<30), ""},
		{"no route", f("/nothing%d", 1<<30), ""},
		{"distinct texts", f("/plaina?n_cat=d%[1]d&m_cat=d%[1]d&s_cat=d%[1]d&x_cat=d%[1]d&f.match=d%[1]d&limit=%[1]d", 1<<30), ""},
		{"distinct names", f("/plaina?limit=1&other%d=1", 1<<30), ""},
		{"distinct charset texts", f("/odd?limit=2&l=d%[1]d&lm=d%[1]d", 1<<30), ""},
		{"bad limit", f("/plaina?limit=x%d", 9), ""},
		{"bad parameter", f("/plaina?m_id=x&s_cat=c%d", 9), ""},
		{"bad expression", f("/plaina?f.match=%%22&s_cat=c%d", 9), ""},
		{"bad second filter", f("/plaina?s_cat=c1&f.match=(&n_cat=c%d", 9), ""},
		{"sqlite first of many", func(randT) string { return "/plaina?s_flag=1&limit=1" }, ""},
		{"fts first of many", f("/plainb?f.match=c%d&limit=1", 5), ""},
		{"wildcard first of many", f("/plainp?x_cat=c&limit=1&offset=%d", 3), ""},
		{"scan first of many", f("/plaina?n_cat=c%d&limit=1", 5), ""},
		{"joined first of many", func(randT) string { return "/plaina?s_flag=1&n_flag=1&m_flag=1&x_cat=c&limit=1" }, ""},
		{"joined none", func(randT) string { return "/plaina?s_flag=1&n_flag=0&limit=9&x_cat=c" }, ""},
		{"unreadable cell", f("/odd?offset=%d", 50), ""},
		{"unreadable scan", f("/odd?n=1.5&limit=%d9", 5), ""},
		{"unreadable one", func(randT) string { return "/oddone?n=7&t=" + long }, ""},
		{"unreadable joined", func(randT) string { return "/odd?n=1.5&limit=60&t=" + long + "&x=xxx" }, ""},
		{"unreadable record of many", func(randT) string { return "/odd?limit=60&t=" + long }, ""},
		{"huge limit", f("/odd?i=%d&limit=100000", 9), ""},
		{"vanished clients", mixed, "vanish"},
		{"vanished clients of big answers", func(randT) string { return "/plainb?limit=100" }, "vanish"},
		{"incomplete requests", mixed, "partial"},
		{"other methods", mixed, "method"},
		{"new connections", mixed, "close"},
		{"bodies", mixed, "body"},
		{"secure connections", mixed, "tls"},
	}
}

func (w *World) sendClass(s *Server, cl reqClass, r randT) {
	raw := cl.gen(r)
	host := strings.TrimPrefix(s.Base, "http://")
	switch cl.bad {
	case "":
		s.Get(raw)
	case "method":
		s.Do(pick(r, "POST", "PUT", "DELETE", "HEAD"), raw, nil)
	case "tls":
		w.secureOnce(r)
	case "body":
		s.Do("POST", raw, bytes.Repeat([]byte("b"), r.Intn(20000)))
	default:
		conn, err := net.DialTimeout("tcp", host, 30*time.Second)
		if err != nil {
			return
		}
		defer conn.Close()
		msg := "GET " + raw + " HTTP/1.1\r\nHost: x\r\n\r\n"
		if cl.bad == "partial" {
			msg = msg[:r.Intn(len(msg)-2)]
		}
		_, _ = io.WriteString(conn, msg)
		switch cl.bad {
		case "vanish":
			if r.Intn(2) == 0 {
				_ = conn.(*net.TCPConn).SetLinger(0)
			}
			if r.Intn(2) == 0 {
				time.Sleep(time.Duration(r.Intn(1000)) * time.Microsecond)
			}
		case "close":
			_ = conn.SetReadDeadline(time.Now().Add(30 * time.Second))
			_, _ = conn.Read(make([]byte, 1000))
		}
	}
}

func c20(c *C) {
	c.phase("descriptors", c.descriptorsPhase)
	c.phase("memory", c.memoryPhase)
}

// Without any garbage collection, nothing is closed but what the code closes.
func (c *C) descriptorsPhase() {
	parallel(c.Q(3, 8), 3, func(wi int) {
		r := c.Rng("fd", wi)
		w, classes := c.resourceWorld(r, c.dir("f%d", wi))
		gogc := []string{"off", "off", "100"}[wi%3]
		s := w.startOrFail(c, StartOpts{LogLvl: "panic", Env: []string{"GOGC=" + gogc, "GOMEMLIMIT=2GiB"}})
		if s == nil {
			return
		}
		defer s.Kill()
		sqlite := 0
		for _, ix := range w.Indexes {
			if ix.Kind == "sqlite" || ix.Kind == "fts5" {
				sqlite++
			}
		}
		_, f0 := s.idleFds(0)
		t0 := s.status("Threads")
		// idle connections kept by database/sql: two for each index
		bound := f0 + 2*3*sqlite + 8
		const clients = 12
		tbound := t0 + 8*clients + 16
		order := r.Perm(len(classes))
		for round := 0; round < c.Q(2, 4); round++ {
			for _, k := range order {
				cl := classes[k]
				n := c.Q(160, 900)
				before, _ := s.fds()
				peak := int64(0)
				stop := make(chan struct{})
				var wg sync.WaitGroup
				wg.Add(1)
				go func() {
					defer wg.Done()
					for {
						select {
						case <-stop:
							return
						case <-time.After(3 * time.Millisecond):
							if _, k := s.fds(); int64(k) > peak {
								atomic.StoreInt64(&peak, int64(k))
							}
						}
					}
				}()
				for k := 0; k < n; k += 2 * clients {
					parallel(2*clients, clients, func(i int) { w.sendClass(s, cl, c.Rng(cl.name, wi<<20+round<<16+k+i)) })
					if cl.bad == "vanish" {
						s.quiet()
					}
				}
				close(stop)
				wg.Wait()
				m, left := s.idleFds(bound)
				th := s.status("Threads")
				c.Max("max_descriptors_under_load", peak)
				c.Max("max_descriptors_idle", int64(left))
				c.Max("max_threads", th)
				c.Count("requests", int64(n))
				c.Eval(fmt.Sprintf("fd|%d|%d|%s", wi, round, cl.name))
				if left > bound {
					c.Fail("descriptors", M{"class": cl.name, "example": cl.gen(r), "at_start": f0, "left": left, "bound": bound, "before_this_class": before, "descriptors": m, "gogc": gogc}, s.Cfg)
					return
				}
				if th > tbound {
					c.Fail("threads", M{"class": cl.name, "at_start": t0, "left": th, "bound": tbound}, s.Cfg)
					return
				}
				if s.Exited() {
					c.Fail("died", M{"class": cl.name, "log": tail(s.Log.String(), 3000)}, s.Cfg)
					return
				}
			}
		}
		for q := 0; q < 30; q++ {
			w.Ask(c, s, "afterwards", classes[0].gen(r))
		}
		// the goroutines of the idle server, by the dump of the Go runtime
		s.quiet()
		s.client.CloseIdleConnections()
		time.Sleep(100 * time.Millisecond)
		s.Signal(syscall.SIGQUIT)
		if _, ok := s.WaitExit(30 * time.Second); ok {
			dump := s.Log.String()
			n := len(goroutineRe.FindAllString(dump, -1))
			gbound := 30 + 4*len(w.Indexes) + 6*len(w.Inputs)
			c.Max("max_goroutines_idle", int64(n))
			if n == 0 {
				c.Inconclusive("no goroutine dump")
			}
			if n > gbound {
				c.Fail("goroutines", M{"left": n, "bound": gbound, "dump": tail(dump, 6000)}, s.Cfg)
			}
			c.Eval(fmt.Sprintf("goroutines|%d", wi))
		}
		if wi == 0 {
			c.Sample(M{"at_start": f0, "bound": bound, "classes": len(classes), "gogc": gogc})
		}
	})
}

// Memory after much more requests than what it was after the first ones.
func (c *C) memoryPhase() {
	parallel(c.Q(2, 4), 2, func(wi int) {
		r := c.Rng("mem", wi)
		w, classes := c.resourceWorld(r, c.dir("m%d", wi))
		s := w.startOrFail(c, StartOpts{LogLvl: "panic", Env: []string{"GOGC=10", "GOMAXPROCS=3"}})
		if s == nil {
			return
		}
		defer s.Kill()
		var sent int64
		round := func(ri int, d time.Duration) int64 {
			end := time.Now().Add(d)
			for b := 0; time.Now().Before(end); b++ {
				cl := classes[(ri*7+b)%len(classes)]
				parallel(60, 12, func(i int) { w.sendClass(s, cl, c.Rng("m"+cl.name, wi<<20+ri<<14+b<<7+i)) })
				atomic.AddInt64(&sent, 60)
				if cl.bad == "vanish" {
					s.quiet()
				}
			}
			s.idleFds(1 << 20)
			// smallest of a few readings
			rss := int64(1 << 60)
			for k := 0; k < 5; k++ {
				for i := 0; i < 40; i++ {
					s.Get("/plaina?limit=1")
				}
				if v := s.status("VmRSS"); v > 0 && v < rss {
					rss = v
				}
			}
			return rss
		}
		secs := time.Duration(c.Q(6, 60)) * time.Second
		first := round(0, secs)
		readings := []int64{first}
		warm := atomic.LoadInt64(&sent)
		rounds := c.Q(6, 12)
		for ri := 1; ri <= rounds; ri++ {
			readings = append(readings, round(ri, secs))
			c.Eval(fmt.Sprintf("mem|%d|%d", wi, ri))
		}
		// what was asked is not kept: each kind of long and distinct requests
		kinds := []string{"/nothing/%s", "/onea/%s", "/plaina?n_cat=%s", "/plaina?m_cat=%s", "/plaina?s_cat=%s", "/plaina?x_cat=%s", "/plaina?f.match=%s", "/plaina?limit=1&%s=1", "/plainp?m_id=%s", "/odd?l=%s", "/odd?k=%s", "header", "body"}
		for ki, kind := range kinds {
			if (ki+wi)%2 > 0 && c.Tier == "quick" {
				continue
			}
			size := 20000
			if strings.Contains(kind, "x_cat") || strings.Contains(kind, "f.match") {
				size = 6000
			}
			var at int64
			send := func(n int) int64 {
				parallel(n, 12, func(int) {
					i := atomic.AddInt64(&at, 1)
					text := strings.Repeat(fmt.Sprintf("%d", 1000000+i), size/7)
					req, err := http.NewRequest("GET", s.Base+"/plaina?limit=1", nil)
					switch kind {
					case "header":
						req.Header.Set("X-A", text)
						req.Header.Set(fmt.Sprintf("X-%d", i), text)
					case "body":
						req, err = http.NewRequest("POST", s.Base+"/plaina?limit=1", strings.NewReader(text))
					default:
						req, err = http.NewRequest("GET", s.Base+fmt.Sprintf(kind, text), nil)
					}
					must(err)
					s.DoReq(req)
				})
				s.idleFds(1 << 20)
				rss := int64(1 << 60)
				for k := 0; k < 5; k++ {
					for i := 0; i < 40; i++ {
						s.Get("/plaina?limit=1")
					}
					if v := s.status("VmRSS"); v > 0 && v < rss {
						rss = v
					}
				}
				return rss
			}
			before := send(400)
			n := c.Q(4000, 12000)
			after := send(n)
			c.Count("long_distinct_requests", int64(n))
			c.Max("max_rss_growth_long_kB", after-before)
			c.Eval(fmt.Sprintf("long|%d|%s", wi, kind))
			if limit := int64(n*size/3/1024 + 8*1024); after-before > limit {
				c.Fail("memory:distinct", M{"kind": kind, "bytes_each": size, "requests": n, "rss_before_kB": before, "rss_after_kB": after, "limit_kB": limit}, s.Cfg)
			}
			if s.Exited() {
				c.Fail("died", M{"kind": kind, "log": tail(s.Log.String(), 3000)}, s.Cfg)
				return
			}
		}
		n := atomic.LoadInt64(&sent) - warm
		growth := readings[len(readings)-1] - first
		c.Count("memory_requests", n)
		c.Max("max_rss_growth_kB", growth)
		c.Sample(M{"rss_kB": readings, "requests": n})
		// a leak of a few hundred bytes for each request, or more
		limit := n/8 + 24*1024
		if growth > limit {
			c.Fail("memory", M{"rss_kB": readings, "requests": n, "growth_kB": growth, "limit_kB": limit}, s.Cfg)
		}
	})
}
