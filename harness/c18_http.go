package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"strings"
	"sync/atomic"
	"time"
)

func init() {
	register(&Check{ID: "C18", Level: "exploration", Min: 1500,
		Rule: "a case is one raw HTTP request written on a TCP connection (alone, pipelined, fragmented, malformed or abandoned) whose response bytes are parsed and judged; non-trivial when the request is one the service must answer, or an abuse after which other answers are checked",
		Fn:   c18})
}

// rawReq is one request of a connection and what must come back.
type rawReq struct {
	bytes  string
	method string
	exp    *Exp // nil: only well-formedness is judged
	last   bool // the connection ends after this one
	object bool
	desc   string
}

// wellFormed: a complete, typed and self-consistent response.
func wellFormed(r *Resp, object bool, anyShape bool) string {
	if r.Err != nil {
		return "no complete response: " + r.Err.Error()
	}
	if r.Status >= 400 {
		return judge(Exp{Kind: map[bool]string{true: "noroute", false: "error"}[r.Status == 404]}, r)
	}
	if r.Status != 200 {
		return fmt.Sprintf("status %d", r.Status)
	}
	v, err := decodeJSON(r.Body)
	if err != nil {
		return fmt.Sprintf("200 with a body which is not one JSON value: %v", err)
	}
	if ct := strings.ToLower(r.Header.Get("Content-Type")); !strings.HasPrefix(ct, "application/json") {
		return "content type " + ct
	}
	_, isObj := v.(map[string]any)
	_, isArr := v.([]any)
	if !anyShape && (object && !isObj || !object && !isArr) {
		return "a value of the wrong shape: " + show(v)
	}
	return ""
}

func (w *mixWorld) rawRequest(r randT, host string, allowLast bool) rawReq {
	q := rawReq{method: "GET"}
	// the target
	vals, _ := w.query(r, pick(r, 0, 1, 1, 2))
	vals.Set("limit", fmt.Sprint(pick(r, 1, 3, 20)))
	target := "/arr?" + vals.Encode()
	switch r.Intn(9) {
	case 0:
		if len(w.in.Recs) > 0 {
			rec := w.in.Recs[r.Intn(len(w.in.Recs))]
			id, _ := filterFor(r, w.in, rec, "id", numParser(w.kind))
			nm, _ := rec["name"].(string)
			if !strings.ContainsAny(id, " /%+") {
				target, q.object = "/one/"+id+"?s2.name="+urlq(nm), true
			}
		}
	case 1:
		target = pick(r, "/nowhere", "/", "/arr/", "/ARR", "/arr%00", "/%61rr?limit=2", "//arr", "/arr/../arr", "/arr;x=1", "/one/", "/one/a/b", "/one/x", "/one/99999999999999999999", "/arr?limit=0", "/arr?limit=x", "/arr?offset=-1", "/odd?limit=5", "/big", "/odd?i=7", "/odd?i=z", "/rel", "/arr?offset=50", "/arr?offset=1x")
	case 2:
		target = "/odd?i=" + fmt.Sprint(r.Intn(12))
	case 3:
		target = "/odd?limit=" + fmt.Sprint(1+r.Intn(12)) + "&offset=" + fmt.Sprint(r.Intn(12))
	case 4:
		target = "/rel?limit=" + fmt.Sprint(1+r.Intn(5)) + "&offset=" + fmt.Sprint(r.Intn(12))
	}
	exact := true
	switch r.Intn(14) {
	case 0: // spellings the reference does not give a meaning to
		target = pick(r, "/arr?limit=1;limit=2", "/arr?limit=%zz", "/arr?&&&", "/arr?=x", "/arr?limit", "/arr?limit=1&limit=7", "/arr?"+strings.Repeat("a=b&", 2000), "/arr?x.name=%ff%fe", "/arr?m.num=%00", "/arr?f.match=%22", "/arr?f.match=(", "/arr?y.name=")
		exact = false
		q.object = false
	case 1:
		target = "/one/" + pick(r, "1", "-1", "%31", "1%20", "1%0A", "%ff") + "?s2.name=" + pick(r, "", "x", "%00", "%ff", urlq(strings.Repeat("é", 3000)))
		exact, q.object = false, true
	}
	uri := target
	if r.Intn(8) == 0 {
		uri = "http://" + pick(r, host, "example.org", "x:1") + target
	}
	proto := "HTTP/1.1"
	hdr := []string{"Host: " + pick(r, host, "localhost", "")}
	body := ""
	switch r.Intn(6) {
	case 0:
		q.method = pick(r, "POST", "PUT", "DELETE", "PATCH", "HEAD", "OPTIONS", "TRACE", "get", "GETX", "PROPFIND", "M-SEARCH")
		if uri == "/" && q.method == "OPTIONS" {
			q.method = "POST"
		}
	}
	// a server may reset a closing connection whose last body it did not read
	if allowLast && r.Intn(3) == 0 {
		q.last = true
		if r.Intn(3) == 0 {
			proto = "HTTP/1.0"
		} else {
			hdr = append(hdr, "Connection: close")
		}
	} else if q.method != "GET" && q.method != "HEAD" && r.Intn(2) == 0 || r.Intn(10) == 0 && q.method == "GET" {
		body = strings.Repeat(pick(r, "a", "{}", "x=1&"), r.Intn(300))
		if r.Intn(3) == 0 {
			hdr = append(hdr, "Content-Type: "+pick(r, "application/json", "application/x-www-form-urlencoded", "text/plain", ""))
		}
		if r.Intn(2) == 0 {
			hdr = append(hdr, fmt.Sprintf("Content-Length: %d", len(body)))
		} else {
			hdr = append(hdr, "Transfer-Encoding: chunked")
			b := ""
			for len(body) > 0 {
				k := 1 + r.Intn(len(body))
				b += fmt.Sprintf("%x\r\n%s\r\n", k, body[:k])
				body = body[k:]
			}
			body = b + "0\r\n\r\n"
		}
	}
	for k := r.Intn(3); k > 0; k-- {
		hdr = append(hdr, pick(r, "Accept: text/html", "Accept-Encoding: gzip, br", "Range: bytes=0-3", "If-None-Match: *", "If-Modified-Since: Wed, 21 Oct 2065 07:28:00 GMT",
			"Cookie: "+strings.Repeat("c", r.Intn(5000)), "X-Forwarded-For: 1.2.3.4", "X-HTTP-Method-Override: DELETE", "Content-Type: application/json", "Upgrade: websocket", "Authorization: Basic Og=="))
	}
	sep := "\r\n"
	q.bytes = q.method + " " + uri + " " + proto + sep + strings.Join(hdr, sep) + sep + sep + body
	q.desc = clip(q.method + " " + uri + " " + proto + " " + strings.Join(hdr, "; "))
	if q.method != "GET" {
		q.exp = &Exp{Kind: "noroute"}
	} else if exact {
		e := w.Expect(target)
		q.exp = &e
	}
	return q
}

var malformed = []string{
	"\r\n\r\n\r\n", "GET\r\n\r\n", "GET / HTTP/9.9\r\nHost: x\r\n\r\n", "GET /arr HTTP/1.1\r\n\r\n", "GET /arr HTTP/1.1\r\nHost: a\r\nHost: b\r\n\r\n",
	"GET /arr HTTP/1.1\r\nHost: x\r\nContent-Length: -1\r\n\r\n", "GET /arr HTTP/1.1\r\nHost: x\r\nContent-Length: 5\r\nContent-Length: 6\r\n\r\nhello",
	"POST /arr HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n", "POST /arr HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: gzip\r\n\r\n",
	"GET /arr HTTP/1.1\r\nHost: x\r\nBad Header: 1\r\n\r\n", "GET /arr HTTP/1.1\r\nHost: x\r\n: 1\r\n\r\n", "GET /arr%zz HTTP/1.1\r\nHost: x\r\n\r\n",
	"PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n", "\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03", "GET /arr\x00 HTTP/1.1\r\nHost: x\r\n\r\n", "GET arr HTTP/1.1\r\nHost: x\r\n\r\n",
	"GET /arr HTTP/1.1\r\nHost: x\r\nExpect: nothing\r\n\r\n", "CONNECT x:1 HTTP/1.1\r\nHost: x:1\r\n\r\n", "OPTIONS * HTTP/1.1\r\nHost: x\r\n\r\n",
}

func c18(c *C) {
	worlds := c.Q(24, 200)
	parallel(worlds, 3, func(wi int) {
		r := c.Rng("world", wi)
		kind := []string{"csv", "json", "xml"}[wi%3]
		w := c.mixWorld(r, c.dir("w%d", wi), kind, 40, 20)
		w.AddOutput(&Output{Name: "arr", Kind: "jsonArray", Input: "in", Params: w.params, LimDefault: 10, LimMax: 100}, "/arr")
		w.AddIndex(&Index{Name: "s2", Kind: "sqlite", Input: "in", Path: "s2.db", Props: []IProp{{"id", ""}, {"name", ""}}})
		w.AddOutput(&Output{Name: "one", Kind: "jsonObject", Input: "in", Params: map[string]Param{"id": {"id", "m", numParser(kind)}, "s2.name": {"name", "s2", ""}}}, "/one/{id}")
		// values which have no JSON representation must give errors
		w.CsvInput(r, "odd", 20, []Field{
			{"i", "integer", func(r randT, i int) (string, any) { return fmt.Sprint(i), int64(i) }},
			{"v", "float", func(r randT, i int) (string, any) {
				if r.Intn(4) == 0 {
					return pick(r, "NaN", "nan", "Inf", "-inf", "Infinity", "1e999", "x", ""), Bad{}
				}
				v := float64(r.Intn(100)) / 4
				return fmt.Sprint(v), v
			}},
			fText("t", 10)}, CsvOpts{})
		w.AddIndex(&Index{Name: "oi", Kind: "map", Input: "odd", Props: []IProp{{"i", ""}}})
		w.AddOutput(&Output{Name: "odd", Kind: "jsonArray", Input: "odd", LimDefault: 3, Params: map[string]Param{"i": {"i", "oi", "integer"}}}, "/odd")
		w.AddOutput(&Output{Name: "rel", Kind: "jsonArray", Input: "odd", LimDefault: 3,
			Rels: map[string]*Rel{"self": {Input: "odd", Match: []RelMatch{{"i", "i", "oi"}}}}}, "/rel")
		w.CsvInput(r, "bigin", 3, []Field{{"v", "string", func(r randT, i int) (string, any) {
			s := strings.Repeat(string(rune('a'+i)), 1500000)
			return s, s
		}}}, CsvOpts{})
		w.AddOutput(&Output{Name: "big", Kind: "jsonArray", Input: "bigin"}, "/big")
		s := w.startOrFail(c, StartOpts{LogLvl: "error"})
		if s == nil {
			return
		}
		defer s.Kill()
		host := strings.TrimPrefix(s.Base, "http://")
		report := func(sig string, d M) {
			d["log"] = tail(s.Log.String(), 1500)
			c.Fail(sig, d, s.Cfg)
		}

		// a client which behaves, all along
		stop := make(chan struct{})
		finished := make(chan struct{})
		var sentinels int64
		go func() {
			defer close(finished)
			r := c.Rng("sentinel", wi)
			for {
				select {
				case <-stop:
					return
				default:
				}
				vals, _ := w.query(r, 1)
				w.Ask(c, s, "other-client", "/arr?"+vals.Encode())
				atomic.AddInt64(&sentinels, 1)
				time.Sleep(10 * time.Millisecond)
			}
		}()

		parallel(c.Q(240, 1500), 8, func(q int) {
			r := c.Rng("conn", wi*100000+q)
			conn, err := net.DialTimeout("tcp", host, 30*time.Second)
			if err != nil {
				report("connect", M{"error": err.Error()})
				return
			}
			defer conn.Close()
			_ = conn.SetDeadline(time.Now().Add(90 * time.Second))
			reqs := []rawReq{}
			for k := pick(r, 1, 1, 3, 8, 25); k > 0; k-- {
				reqs = append(reqs, w.rawRequest(r, host, k == 1))
			}
			all := ""
			for _, x := range reqs {
				all += x.bytes
			}
			abuse := ""
			if r.Intn(4) == 0 {
				abuse = pick(r, "malformed", "malformed", "partial", "vanish", "reset", "hugeheader", "bodybreak")
			}
			switch abuse {
			case "malformed":
				all += pick(r, malformed...)
			case "partial":
				// a request cut in its body is whole enough to be answered
				x := w.rawRequest(r, host, false).bytes
				x, _, _ = strings.Cut(x, "\r\n\r\n")
				all += x[:r.Intn(len(x))]
			case "hugeheader":
				all += "GET /arr HTTP/1.1\r\nHost: x\r\nX-A: " + strings.Repeat("a", 1<<21) + "\r\n\r\n"
			case "bodybreak":
				all += "POST /arr HTTP/1.1\r\nHost: x\r\nContent-Length: 100000\r\n\r\nabc"
			}
			// how it is written: at once, in pieces, or each after the previous answer
			style := pick(r, "once", "pieces", "turns", "bytes")
			if abuse != "" && style == "turns" {
				style = "pieces"
			}
			br := bufio.NewReaderSize(conn, 64<<10)
			read := func(x rawReq) (*Resp, error) {
				for {
					resp, err := http.ReadResponse(br, &http.Request{Method: x.method})
					if err != nil {
						return nil, err
					}
					b, err := io.ReadAll(resp.Body)
					if resp.StatusCode == 100 {
						continue
					}
					if err == nil && x.method == "HEAD" && len(b) > 0 {
						err = fmt.Errorf("a HEAD response with a body")
					}
					if err == nil && resp.ContentLength < 0 && len(resp.TransferEncoding) == 0 && !resp.Close {
						err = fmt.Errorf("a response without framing")
					}
					return &Resp{Status: resp.StatusCode, Header: resp.Header, Body: b, Err: err}, nil
				}
			}
			verify := func(k int) bool {
				x := reqs[k]
				resp, err := read(x)
				if abuse != "" && (err != nil || resp.Err != nil && strings.Contains(resp.Err.Error(), "reset")) {
					// refusing what follows may reset the connection, which
					// discards what was not read yet
					c.Count("reset_by_abuse", 1)
					return false
				}
				if err != nil {
					report("no-response", M{"request": x.desc, "number": k, "of": len(reqs), "error": err.Error(), "style": style, "abuse": abuse})
					return false
				}
				d := ""
				switch {
				case x.method == "HEAD":
					if resp.Err != nil {
						d = resp.Err.Error()
					} else if resp.Status != 404 {
						d = fmt.Sprint("status ", resp.Status)
					}
				case x.exp != nil:
					d = judge(*x.exp, resp)
				}
				if d == "" && x.method != "HEAD" {
					d = wellFormed(resp, x.object, false)
				}
				if d != "" {
					report("response", M{"request": x.desc, "number": k, "of": len(reqs), "difference": d, "style": style, "abuse": abuse})
					return false
				}
				c.Count(fmt.Sprintf("status_%d", resp.Status), 1)
				c.Eval(fmt.Sprintf("%d|%d|%s|%s|%d", wi, q, x.desc, style, k))
				return true
			}
			write := func(b string) error { _, err := io.WriteString(conn, b); return err }
			if abuse == "vanish" || abuse == "reset" {
				_ = write(all[:r.Intn(len(all)+1)])
				if r.Intn(2) == 0 {
					_ = conn.SetReadDeadline(time.Now().Add(time.Duration(r.Intn(40)) * time.Millisecond))
					_, _ = br.Peek(1)
				}
				if abuse == "reset" {
					_ = conn.(*net.TCPConn).SetLinger(0)
				}
				c.Count("abuse_"+abuse, 1)
				c.Eval(fmt.Sprintf("abuse|%d|%d", wi, q))
				return
			}
			if style == "turns" {
				for k, x := range reqs {
					if err := write(x.bytes); err != nil {
						report("write", M{"error": err.Error()})
						return
					}
					if !verify(k) {
						return
					}
				}
			} else {
				werr := make(chan error, 1)
				go func() {
					r := c.Rng("write", wi*100000+q)
					b := all
					var err error
					for len(b) > 0 && err == nil {
						k := len(b)
						if style == "pieces" {
							k = 1 + r.Intn(len(b))
						} else if style == "bytes" && len(b) < 4000 {
							k = min(len(b), 1+r.Intn(3))
						}
						err = write(b[:k])
						b = b[k:]
						if style == "pieces" && r.Intn(3) == 0 {
							time.Sleep(time.Duration(r.Intn(2000)) * time.Microsecond)
						}
					}
					if err == nil && (abuse == "partial" || abuse == "bodybreak" || abuse == "malformed") {
						err = conn.(*net.TCPConn).CloseWrite()
					}
					werr <- err
				}()
				if r.Intn(6) == 0 {
					time.Sleep(time.Duration(r.Intn(30)) * time.Millisecond) // a slow reader
				}
				for k := range reqs {
					if !verify(k) {
						return
					}
				}
				if abuse == "" {
					if err := <-werr; err != nil && !reqs[len(reqs)-1].last {
						report("write", M{"error": err.Error()})
						return
					}
				}
			}
			// whatever is left: nothing, or the refusal of the abuse
			if abuse == "" {
				if !reqs[len(reqs)-1].last {
					_ = conn.(*net.TCPConn).CloseWrite()
				}
				rest, err := io.ReadAll(br)
				if err != nil || len(rest) > 0 {
					report("extra-bytes", M{"bytes": clip(string(rest)), "error": fmt.Sprint(err), "last": reqs[len(reqs)-1].desc, "style": style})
				}
				return
			}
			_ = conn.SetReadDeadline(time.Now().Add(5 * time.Second))
			rest, rerr := io.ReadAll(br)
			if ne, ok := rerr.(net.Error); ok && ne.Timeout() {
				c.Count("abused_connection_left_open", 1)
				return
			}
			c.Count("abuse_"+abuse, 1)
			c.Eval(fmt.Sprintf("abuse|%d|%d", wi, q))
			if rerr != nil {
				return
			}
			for rb := bufio.NewReader(bytes.NewReader(rest)); ; {
				if _, err := rb.Peek(1); err != nil {
					break
				}
				resp, err := http.ReadResponse(rb, nil)
				if err != nil {
					report("abuse-response", M{"abuse": abuse, "bytes": clip(string(rest)), "error": err.Error()})
					break
				}
				b, _ := io.ReadAll(resp.Body)
				if resp.StatusCode < 300 && (len(b) > 0 && !strings.HasPrefix(string(b), "[")) {
					report("abuse-accepted", M{"abuse": abuse, "sent": clip(all[len(all)-min(len(all), 200):]), "bytes": clip(string(rest))})
				}
			}
		})
		close(stop)
		<-finished
		c.Count("answers_to_the_other_client", sentinels)
		for q := 0; q < 10; q++ {
			vals, _ := w.query(r, 1)
			w.Ask(c, s, "afterwards", "/arr?"+vals.Encode())
		}
		if log := s.Log.String(); s.Exited() || strings.Contains(log, "panic") {
			report("panic", M{"exited": s.Exited()})
		}
		// the error documents of generated texts are valid JSON too
		for q := 0; q < c.Q(150, 800); q++ {
			t := text(r, 20, true)
			if r.Intn(2) == 0 {
				i := r.Intn(len(t) + 1)
				t = t[:i] + pick(r, "\x00", "\x07", "\x1b[0m", "\x7f", "\u0085", "\xff", "\u2028", "\U000e0001", "\v", "\x01\x02", "\ud7ff\u200e", "</script>", "\xc3\x28", "\r\n") + t[i:]
			}
			raw := pick(r, "/odd?i=", "/odd?limit=", "/odd?offset=", "/arr?f.match=", "/arr?default.flag=", "/arr?m.price=", "/arr?limit=") + url.QueryEscape(t)
			resp := s.Get(raw)
			if d := wellFormed(resp, false, false); d != "" {
				report("error-document", M{"request": raw, "difference": d})
			}
			c.Eval(fmt.Sprintf("doc|%d|%s", wi, raw))
		}
		if wi < 2 {
			c.Sample(M{"kind": kind, "example": w.rawRequest(r, host, true).desc})
		}
	})
}
