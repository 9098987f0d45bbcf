package main

import (
	"bytes"
	"crypto/tls"
	"fmt"
	"net"
	"net/http"
	"os"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

func init() {
	register(&Check{ID: "C27", Level: "exploration", Min: 2000,
		Rule: "a case is one question asked to all of the services, schemes, protocols, routes and outputs of a server which can answer it, each answer being judged against the oracle and against the other ones; distinct: the question with the set of its askers; non-trivial: at least two different ways were compared",
		Fn:   c27})
}

// way is one manner to ask something: a service, a scheme, a protocol.
type way struct {
	svc    int
	proto  string // http, https, h2
	base   string
	client *http.Client
}

// fleet is a world served by several services, each with its own routes.
type fleet struct {
	*World
	views []*World // what each service must answer
	ways  []*way
	cert  string
	key   string
	// twin outputs: same input, parameters and relationships
	twin map[string]string
}

func (f *fleet) get(x *way, raw string) *Resp {
	req, err := http.NewRequest("GET", x.base+raw, nil)
	if err != nil {
		return &Resp{Err: err}
	}
	s := &Server{client: x.client}
	return s.DoReq(req)
}

// layouts: for each service h, s or both.
var fleetLayouts = [][]string{{"hs"}, {"h", "h"}, {"h", "s"}, {"hs", "hs"}, {"s", "h", "hs"}, {"h", "h", "h", "h", "h"}, {"hs", "h", "s", "hs"}, {"s", "s"}}

func (c *C) fleet(r randT, w *World, layout []string) *fleet {
	f := &fleet{World: w, twin: map[string]string{}}
	f.cert, f.key = selfSigned(w.Dir, "fleet")
	// twins of some of the outputs
	for _, n := range sortedKeys(w.Outputs) {
		if r.Intn(2) == 0 {
			o := *w.Outputs[n]
			o.Name = "twin_" + n
			w.Outputs[o.Name] = &o
			f.twin[o.Name] = n
		}
	}
	// one path whose parameter is of another type, or another output, in each service
	typed := []string{}
	for _, in := range []string{"a", "p"} {
		for _, t := range [][2]string{{"num", "integer"}, {"name", "string"}, {"cat", ""}, {"price", "float"}, {"flag", "boolean"}} {
			for _, kind := range []string{"jsonArray", "jsonObject"} {
				o := w.AddOutput(&Output{Name: "typed" + in + t[0] + kind, Kind: kind, Input: in, Params: map[string]Param{"v": {t[0], "", t[1]}}})
				typed = append(typed, o.Name)
			}
		}
	}
	base := w.Routes
	for i := range layout {
		v := w.clone()
		v.Routes = nil
		prefix := pick(r, "", "", fmt.Sprintf("/s%d", i), "/x")
		for _, rt := range base {
			if i > 0 && r.Intn(8) == 0 {
				continue // not served by this one
			}
			n := Route{rt.Path, rt.Output}
			if _, ok := f.twin["twin_"+rt.Output]; ok && r.Intn(2) == 0 {
				n.Output = "twin_" + rt.Output
			}
			v.Routes = append(v.Routes, n)
			if prefix != "" && r.Intn(2) == 0 {
				v.Routes = append(v.Routes, Route{prefix + rt.Path, n.Output})
			}
		}
		if i > 0 && r.Intn(2) == 0 { // the same paths lead elsewhere in this service
			same := []int{}
			for k, rt := range v.Routes {
				if !strings.Contains(rt.Path, "{") && !strings.Contains(rt.Path, "/q") { // the texts of a charset are only known for its own output
					same = append(same, k)
				}
			}
			if len(same) > 1 {
				a, b := same[r.Intn(len(same))], same[r.Intn(len(same))]
				v.Routes[a].Output, v.Routes[b].Output = v.Routes[b].Output, v.Routes[a].Output
			}
		}
		v.Routes = append(v.Routes, Route{"/typed/{v}", pick(r, typed...)}, Route{"/typed/{v}/x", pick(r, typed...)})
		r.Shuffle(len(v.Routes), func(a, b int) { v.Routes[a], v.Routes[b] = v.Routes[b], v.Routes[a] })
		if len(v.Routes) == 0 {
			v.Routes = append(v.Routes, base[0])
		}
		f.views = append(f.views, v)
	}
	w.Extra = func(cfg M) {
		first := strings.TrimPrefix(cfg["services"].(A)[0].(M)["http"].(M)["listen"].(string), "127.0.0.1:")
		firstPort, _ := strconv.Atoi(first)
		f.ways = nil
		svcs := A{}
		n := 0
		for i, l := range layout {
			rs := A{}
			for _, rt := range f.views[i].Routes {
				rs = append(rs, M{"path": rt.Path, "output": rt.Output})
			}
			svc := M{"name": fmt.Sprintf("svc%d", i), "type": "http", "routes": rs}
			for _, k := range l {
				p := firstPort
				if n > 0 {
					p = freePort()
				}
				n++
				if k == 'h' {
					svc["http"] = M{"listen": fmt.Sprintf("127.0.0.1:%d", p)}
					f.ways = append(f.ways, &way{i, "http", fmt.Sprintf("http://127.0.0.1:%d", p), newClient()})
				} else {
					svc["https"] = M{"listen": fmt.Sprintf("127.0.0.1:%d", p), "certificatePath": f.cert, "privateKeyPath": f.key}
					f.ways = append(f.ways, &way{i, "https", fmt.Sprintf("https://127.0.0.1:%d", p), newClient()})
					h2 := newClient()
					h2.Transport.(*http.Transport).ForceAttemptHTTP2 = true
					f.ways = append(f.ways, &way{i, "h2", fmt.Sprintf("https://127.0.0.1:%d", p), h2})
				}
			}
			svcs = append(svcs, svc)
		}
		cfg["services"] = svcs
	}
	return f
}

func (f *fleet) begin(c *C, o StartOpts) *Server {
	s := f.startOrFail(c, o)
	if s == nil {
		return nil
	}
	for _, x := range f.ways {
		q := *s
		q.Base = x.base
		if up, err := q.WaitUp(120 * time.Second); !up {
			c.Fail("startup", M{"port": x.base, "error": fmt.Sprint(err), "log": tail(s.Log.String(), 1500)}, s.Cfg)
			s.Kill()
			return nil
		}
	}
	return s
}

// variants of a question: every route of every service leading to the output
// (or its twin) with the same parameters.
type asked struct {
	x   *way
	raw string
}

func (f *fleet) variants(raw string) []asked {
	out := []asked{}
	for _, x := range f.ways {
		out = append(out, asked{x, raw})
		for _, p := range []string{fmt.Sprintf("/s%d", x.svc), "/x"} {
			for _, rt := range f.views[x.svc].Routes {
				if strings.HasPrefix(rt.Path, p+"/") {
					out = append(out, asked{x, p + raw})
					break
				}
			}
		}
	}
	return out
}

// question asks the same thing by all of the ways, one after another or all
// at once.
func (f *fleet) question(c *C, s *Server, raw string, exps *sync.Map, together bool, sig string) {
	vs := f.variants(raw)
	resps := make([]*Resp, len(vs))
	if together {
		var wg sync.WaitGroup
		gate := make(chan struct{})
		for i := range vs {
			wg.Add(1)
			go func(i int) { defer wg.Done(); <-gate; resps[i] = f.get(vs[i].x, vs[i].raw) }(i)
		}
		close(gate)
		wg.Wait()
	} else {
		for i := range vs {
			resps[i] = f.get(vs[i].x, vs[i].raw)
		}
	}
	type first struct {
		body []byte
		v    asked
		typ  string
	}
	seen := map[string]first{}
	compared := 0
	for i, v := range vs {
		key := fmt.Sprintf("%d|%s", v.x.svc, v.raw)
		var e Exp
		if x, ok := exps.Load(key); ok {
			e = x.(Exp)
		} else {
			e = f.views[v.x.svc].Expect(v.raw)
			exps.Store(key, e)
		}
		d := M{"service": v.x.svc, "protocol": v.x.proto, "request": v.raw, "together": together}
		if why := judge(e, resps[i]); why != "" {
			d["why"] = why
			d["log"] = tail(s.Log.String(), 500)
			c.Fail(sig+":answer", d, s.Cfg)
			continue
		}
		if e.Kind != "ok" {
			c.Count("refusals_compared", 1)
			continue
		}
		// what is really the same question
		out := ""
		path, rest, _ := strings.Cut(v.raw, "?")
		if cr, _ := f.views[v.x.svc].route(mustPath(path)); cr != nil {
			out = cr.route.Output
			if t, ok := f.twin[out]; ok {
				out = t
			}
		}
		k := out + "|" + path[strings.LastIndex(path, "/"):] + "|" + rest
		typ := resps[i].Header.Get("Content-Type")
		if o, ok := seen[k]; !ok {
			seen[k] = first{resps[i].Body, v, typ}
		} else {
			compared++
			if !bytes.Equal(o.body, resps[i].Body) || o.typ != typ {
				d["other"] = M{"service": o.v.x.svc, "protocol": o.v.x.proto, "request": o.v.raw}
				d["bodies"] = []string{clip(string(o.body)), clip(string(resps[i].Body))}
				d["types"] = []string{o.typ, typ}
				c.Fail(sig+":differs", d, s.Cfg)
			}
		}
	}
	c.Count("answers", int64(len(vs)))
	c.Count("compared_with_another_way", int64(compared))
	if compared > 0 {
		c.Eval(fmt.Sprintf("%s|%s|%v|%d", s.Cfg, raw, together, len(vs)))
	} else {
		c.Eval("")
	}
}

func mustPath(escaped string) string {
	req, err := http.NewRequest("GET", "http://a"+escaped, nil)
	must(err)
	return req.URL.Path
}

func (c *C) services(idx int) {
	r := c.Rng("fleet", idx)
	w, gen := c.busyWorld(r, c.dir("w%d", idx))
	layout := fleetLayouts[idx%len(fleetLayouts)]
	f := c.fleet(r, w, layout)
	s := f.begin(c, StartOpts{LogLvl: "error"})
	if s == nil {
		return
	}
	defer s.Kill()
	raws := make([]string, c.Q(90, 300))
	for i := range raws {
		_, raws[i] = gen(r)
		if i%7 == 0 {
			raws[i] = pick(r, fmt.Sprintf("/typed/%d", r.Intn(200)-60), "/typed/abc", "/typed/c3", fmt.Sprintf("/typed/%.2f", float64(r.Intn(400))/4), "/typed/true", "/typed/c1/x", "/typed/1/x", "/typed/0", "/typed/", "/typed/-", "/", "/none", "/plaina/", "/plaina?unknown=1", "/onea/zzz", "/plainb?limit=x", "/s0/plaina", "/x")
		}
	}
	var exps sync.Map
	for i, raw := range raws {
		if i%3 == 0 {
			f.question(c, s, raw, &exps, false, "alone")
		}
	}
	for round := 0; round < c.Q(3, 10); round++ {
		parallel(len(raws), 2+r.Intn(6), func(i int) {
			f.question(c, s, raws[(i*31+round*7)%len(raws)], &exps, true, "concurrent")
		})
	}
	for _, x := range f.ways {
		c.Count("ways_"+x.proto, 1)
		x.client.CloseIdleConnections()
	}
	if code, ok := s.Stop(); !ok || code != 0 || crashed(s.Log.String()) {
		c.Fail("end", M{"code": code, "ended": ok, "log": tail(s.Log.String(), 3000)}, s.Cfg)
	}
	c.Count("fleets", 1)
	if idx < 3 {
		c.Sample(M{"services": layout, "ways": len(f.ways), "question": raws[1], "asked_by": len(f.variants(raws[1]))})
	}
	must(os.RemoveAll(w.Dir))
}

// stall opens requests with large answers which are never read.
func (f *fleet) stall(x *way, raw string, n int) (conns []net.Conn) {
	for i := 0; i < n; i++ {
		d := net.Dialer{Timeout: 30 * time.Second, Control: func(network, address string, rc syscall.RawConn) error {
			return rc.Control(func(fd uintptr) { _ = syscall.SetsockoptInt(int(fd), syscall.SOL_SOCKET, syscall.SO_RCVBUF, 4096) })
		}}
		conn, err := d.Dial("tcp", strings.TrimPrefix(strings.TrimPrefix(x.base, "https://"), "http://"))
		if err != nil {
			continue
		}
		conns = append(conns, conn)
		rw := net.Conn(conn)
		if x.proto != "http" {
			t := tls.Client(conn, &tls.Config{InsecureSkipVerify: true})
			_ = t.SetDeadline(time.Now().Add(30 * time.Second))
			if t.Handshake() != nil {
				continue
			}
			rw = t
		}
		_, _ = fmt.Fprintf(rw, "GET %s HTTP/1.1\r\nHost: a\r\n\r\n", raw)
	}
	return conns
}

// independent: what happens on one service does not matter for the other ones.
func (c *C) independent(idx int) {
	r := c.Rng("independent", idx)
	w, gen := c.busyWorld(r, c.dir("i%d", idx))
	// large answers out of the same inputs and indexes
	recs := []Rec{}
	for i := 0; i < 8; i++ {
		recs = append(recs, Rec{"cat": fmt.Sprintf("c%d", i), "note": strings.Repeat(word(r)+" ", 90000)})
	}
	w.JsonInput(r, "wide", recs)
	for _, n := range []string{"a", "b", "p"} {
		w.AddOutput(&Output{Name: "huge" + n, Kind: "jsonArray", Input: n, LimDefault: 12, Rels: map[string]*Rel{
			"wide": {Input: "wide", IsArray: true, Match: []RelMatch{{"cat", "cat", ""}}}},
			Params: map[string]Param{"cat": {"cat", "s_" + n, ""}}}, "/huge"+n)
	}
	layout := [][]string{{"h", "h"}, {"s", "h"}, {"h", "s"}, {"hs", "hs"}}[idx%4]
	f := c.fleet(r, w, layout)
	s := f.begin(c, StartOpts{LogLvl: "error"})
	if s == nil {
		return
	}
	defer s.Kill()
	noisy := []*way{}
	quiet := []*way{}
	for _, x := range f.ways {
		if x.svc == 0 {
			noisy = append(noisy, x)
		} else {
			quiet = append(quiet, x)
		}
	}
	var exps sync.Map
	expect := func(v *World, k, raw string) Exp {
		if e, ok := exps.Load(k + raw); ok {
			return e.(Exp)
		}
		e := v.Expect(raw)
		exps.Store(k+raw, e)
		return e
	}
	stop := make(chan struct{})
	var wg sync.WaitGroup
	conns := []net.Conn{}
	noise := ""
	switch idx / 4 % 4 {
	case 0:
		noise = "answers which are not read"
		for _, x := range noisy {
			for _, n := range []string{"a", "b", "p"} {
				conns = append(conns, f.stall(x, "/huge"+n, 6)...)
			}
		}
		time.Sleep(300 * time.Millisecond)
	case 1:
		noise = "requests which do not finish"
		for _, x := range noisy {
			for i := 0; i < 40; i++ {
				if conn, err := net.DialTimeout("tcp", strings.TrimPrefix(strings.TrimPrefix(x.base, "https://"), "http://"), 10*time.Second); err == nil {
					_, _ = conn.Write([]byte(pick(r, "GET /pl", "", "\x16\x03\x01\x02\x00", "POST / HTTP/1.1\r\nContent-Length: 100\r\n\r\nabc")))
					conns = append(conns, conn)
				}
			}
		}
	case 2:
		noise = "clients leaving"
		for i := 0; i < 6; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				for {
					select {
					case <-stop:
						return
					default:
					}
					for _, conn := range f.stall(noisy[i%len(noisy)], "/huge"+[]string{"a", "b", "p"}[i%3], 1) {
						// in the middle of the answer (the requests of clients who left would
						// pile up otherwise, and show nothing but an overload)
						_ = conn.SetReadDeadline(time.Now().Add(20 * time.Second))
						_, _ = conn.Read(make([]byte, 10))
						_ = conn.Close()
					}
				}
			}(i)
		}
	case 3:
		noise = "flood"
		for i := 0; i < 16; i++ {
			wg.Add(1)
			rr := c.Rng(fmt.Sprint("flood", idx), i)
			go func(i int) {
				defer wg.Done()
				for {
					select {
					case <-stop:
						return
					default:
					}
					x := noisy[i%len(noisy)]
					_, raw := gen(rr)
					if i%4 == 0 {
						raw = "/huge" + pick(rr, "a", "b", "p")
					}
					resp := f.get(x, raw)
					if why := judge(expect(f.views[0], "0", raw), resp); why != "" {
						c.Fail("independent:noisy", M{"noise": "flood", "layout": layout, "request": raw, "why": why}, s.Cfg)
					}
				}
			}(i)
		}
	}
	var n int64
	for _, n := range []string{"a", "b", "p"} { // large enough for the noise
		if resp := f.get(noisy[0], "/huge"+n); noise == "flood" && resp.Err == nil {
			c.Max("largest_answer", int64(len(resp.Body)))
		}
	}
	deadline := time.Now().Add(time.Duration(c.Q(6, 20)) * time.Second)
	raws := make([]string, 200)
	for i := range raws {
		_, raws[i] = gen(r)
	}
	for round := 0; time.Now().Before(deadline); round++ {
		parallel(40, 4, func(i int) {
			x := quiet[i%len(quiet)]
			raw := raws[(round*40+i)%len(raws)]
			resp := f.get(x, raw)
			if why := judge(expect(f.views[x.svc], fmt.Sprint(x.svc), raw), resp); why != "" {
				c.Fail("independent:answer", M{"noise": noise, "layout": layout, "service": x.svc, "protocol": x.proto, "request": raw, "why": why, "log": tail(s.Log.String(), 800)}, s.Cfg)
			}
			atomic.AddInt64(&n, 1)
			c.Eval(fmt.Sprintf("independent|%d|%s|%s", idx, x.base, raw))
		})
	}
	close(stop)
	wg.Wait()
	for _, conn := range conns {
		_ = conn.Close()
	}
	// the noisy one itself works again
	for i := 0; i < 20; i++ {
		x := noisy[i%len(noisy)]
		resp := f.get(x, raws[i])
		if why := judge(f.views[0].Expect(raws[i]), resp); why != "" {
			c.Fail("independent:after", M{"noise": noise, "layout": layout, "request": raws[i], "why": why}, s.Cfg)
		}
	}
	for _, x := range f.ways {
		x.client.CloseIdleConnections()
	}
	if code, ok := s.Stop(); !ok || code != 0 || crashed(s.Log.String()) {
		c.Fail("end", M{"noise": noise, "code": code, "ended": ok, "log": tail(s.Log.String(), 3000)}, s.Cfg)
	}
	c.Count("independent_"+strings.ReplaceAll(noise, " ", "_"), n)
	must(os.RemoveAll(w.Dir))
}

func c27(c *C) {
	c.Binary("plain")
	c.phase("listens", c.listens)
	c.phase("services", func() { parallel(c.Q(24, 96), 3, func(i int) { c.services(i) }) })
	c.phase("independent", func() { parallel(c.Q(16, 48), 2, func(i int) { c.independent(i) }) })
}
