package main

import (
	"encoding/hex"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// listening gives the addresses ("ip:port", * for any ip) of the listening
// sockets of the process, and whether /proc could tell.
func (s *Server) listening() ([]string, bool) {
	inodes := map[string]string{}
	for _, f := range []string{"/proc/net/tcp", "/proc/net/tcp6"} {
		data, err := os.ReadFile(f)
		if err != nil {
			if strings.HasSuffix(f, "6") {
				continue
			}
			return nil, false
		}
		for _, line := range strings.Split(string(data), "\n") {
			f := strings.Fields(line)
			if len(f) < 10 || f[3] != "0A" {
				continue
			}
			h, p, _ := strings.Cut(f[1], ":")
			raw, err := hex.DecodeString(h)
			if err != nil {
				return nil, false
			}
			for i := 0; i+4 <= len(raw); i += 4 { // words in the order of the machine
				raw[i], raw[i+1], raw[i+2], raw[i+3] = raw[i+3], raw[i+2], raw[i+1], raw[i]
			}
			ip := net.IP(raw).String()
			if net.IP(raw).IsUnspecified() {
				ip = "*"
			}
			port := 0
			_, _ = fmt.Sscanf(p, "%X", &port)
			inodes["socket:["+f[9]+"]"] = fmt.Sprintf("%s:%d", ip, port)
		}
	}
	out := []string{}
	ents, err := os.ReadDir(fmt.Sprintf("/proc/%d/fd", s.Pid()))
	if err != nil {
		return nil, os.IsNotExist(err)
	}
	for _, e := range ents {
		if l, err := os.Readlink(filepath.Join(fmt.Sprintf("/proc/%d/fd", s.Pid()), e.Name())); err == nil && inodes[l] != "" {
			out = append(out, inodes[l])
		}
	}
	sort.Strings(out)
	return out, true
}

// listens: each transport listens on the interface and the port of its
// configuration, on no other, and says where.
func (c *C) listens() {
	w := NewWorld(c.dir("listens"))
	w.JsonInput(c.Rng("listens", 0), "in", []Rec{{"id": 1.0}, {"id": 2.0}})
	cert, key := selfSigned(w.Dir, "listens")
	cert, key = filepath.Join(w.Dir, cert), filepath.Join(w.Dir, key)
	type tr struct{ scheme, listen string }
	cases := [][]tr{}
	for _, l := range []string{"", "127.0.0.1:0", "127.0.0.1:P", "127.0.0.2:P", "127.1.2.3:P", ":P", "0.0.0.0:P", ":0", "localhost:P", "127.0.0.2:0"} {
		for _, s := range []string{"http", "https"} {
			cases = append(cases, []tr{{s, l}})
		}
	}
	if l, err := net.Listen("tcp", "[::1]:0"); err == nil {
		_ = l.Close()
		cases = append(cases, []tr{{"http", "[::1]:P"}}, []tr{{"https", "[::1]:0"}})
	}
	cases = append(cases, []tr{{"http", ""}, {"https", ""}}, []tr{{"http", "127.0.0.1:0"}, {"https", "127.0.0.1:0"}}, []tr{{"http", "127.0.0.1:P"}, {"https", "127.0.0.2:P"}})
	parallel(len(cases), 6, func(i int) {
		cs := cases[i]
		dir := c.dir("listen%d", i)
		must(os.MkdirAll(dir, 0755))
		for try := 0; try < 5; try++ {
			svc := M{"name": "svc", "type": "http", "routes": A{M{"path": "/", "output": "out"}}}
			want := []string{}
			for k, t := range cs {
				p := fmt.Sprint(freePort())
				if i == len(cases)-1 && k == 1 { // the same port on another interface
					p = want[0][strings.LastIndex(want[0], ":")+1:]
				}
				l := strings.Replace(t.listen, "P", p, 1)
				m := M{}
				if l != "" {
					m["listen"] = l
				} else {
					l = "127.0.0.1:0"
				}
				if t.scheme == "https" {
					m["certificatePath"], m["privateKeyPath"] = cert, key
				}
				svc[t.scheme] = m
				h, p, err := net.SplitHostPort(l)
				must(err)
				switch h {
				case "", "0.0.0.0":
					h = "*"
				case "localhost":
					h = "127.0.0.1"
				}
				want = append(want, h+":"+p)
			}
			cfg := filepath.Join(dir, fmt.Sprintf("c%d.yaml", try))
			writeConfig(cfg, M{"inputs": A{M{"name": "in", "type": "json", "path": filepath.Join(w.Dir, w.Inputs["in"].File)}},
				"outputs": A{M{"name": "out", "type": "jsonArray", "input": "in"}}, "services": A{svc}})
			s := c.Spawn(dir, cfg, StartOpts{})
			fail := func(why string, got any) {
				c.Fail("listen", M{"transports": fmt.Sprint(cs), "expected": want, "got": got, "why": why, "log": tail(s.Log.String(), 800)}, cfg)
			}
			var got []string
			known := true
			for end := time.Now().Add(60 * time.Second); time.Now().Before(end) && !s.Exited(); time.Sleep(20 * time.Millisecond) {
				if got, known = s.listening(); !known || len(got) >= len(want) {
					break
				}
			}
			if s.Exited() && strings.Contains(s.Log.String(), "address already in use") {
				s.Kill()
				continue
			}
			if !known {
				c.Count("listening_unknown", 1)
				s.Kill()
				return
			}
			time.Sleep(300 * time.Millisecond)
			got, _ = s.listening()
			c.Eval(fmt.Sprintf("listen|%v", cs))
			bad := len(got) != len(want)
			left := append([]string{}, got...)
			for _, x := range want {
				h, p, _ := strings.Cut(x, ":")
				if strings.HasPrefix(x, "::1") {
					h, p = "::1", x[4:]
				}
				found := false
				for j, g := range left {
					k := strings.LastIndex(g, ":")
					if g[:k] == h && (p == "0" && g[k+1:] != "0" || g[k+1:] == p) {
						left = append(left[:j], left[j+1:]...)
						found = true
						break
					}
				}
				bad = bad || !found
			}
			if bad {
				fail("the listening sockets are not the configured ones", got)
				s.Kill()
				return
			}
			log, announced := s.Log.String(), 0
			for _, g := range got {
				k := strings.LastIndex(g, ":")
				if strings.Contains(log, ":"+g[k+1:]) {
					announced++
				}
				ips := []string{g[:k]}
				if g[:k] == "*" {
					ips = []string{"127.0.0.1", "127.0.0.3"}
				}
				for _, ip := range ips {
					ok := 0
					for _, scheme := range []string{"http", "https"} {
						s.Base = scheme + "://" + net.JoinHostPort(ip, g[k+1:])
						if r := s.Get("/"); r.Err == nil && r.Status == 200 && strings.Contains(string(r.Body), `{"id":2}`) {
							ok++
						}
					}
					if ok != 1 {
						fail(fmt.Sprintf("answers by %d schemes at %s:%s", ok, ip, g[k+1:]), got)
					}
					c.Count("addresses_asked", 1)
				}
			}
			if announced == 0 { // of two transports, one is announced
				fail("the address is not announced", got)
			}
			if code, ok := s.Stop(); !ok || code != 0 {
				fail("end", code)
			}
			return
		}
	})
}
