package main

import (
	"fmt"
	"net/url"
	"strings"
)

func init() {
	register(&Check{ID: "C06", Level: "exploration", Min: 500,
		Rule: "a case is one request (method, path, query) sent to a service with generated routes; non-trivial when the path is one a route was built to match, or such a path with one change",
		Fn:   c06})
}

// pathEscape keeps slashes: they are part of literal route parts.
func pathEscape(s string) string { return (&url.URL{Path: s}).EscapedPath() }

// The first configured route matching the whole path answers, with the
// parameters of the path first, then those of the query.
func c06(c *C) {
	worlds := c.Q(300, 3000)
	parallel(worlds, 6, func(wi int) {
		r := c.Rng("world", wi)
		w := NewWorld(c.dir("w%d", wi))
		w.AddParser(&PDef{Name: "fr", Type: "float", Sep: ",", Ignore: " "})
		w.AddParser(&PDef{Name: "yn", Type: "boolean", T: []string{"yes", "y", "a.b"}, F: []string{"no", "n", "+"}})
		strs := []string{"x", "X", "日本", "a b", "50%", "a+b", "q?", "#1", ".", "..", "d.e", "(", "%2F", "\\", "true", "1"}
		for k := 0; k < 3; k++ {
			src := fmt.Sprintf("src%d", k)
			w.CsvInput(r, src, 40, []Field{fID(),
				{"src", "string", func(randT, int) (string, any) { return src, src }},
				{"s", "string", func(r randT, i int) (string, any) { s := strs[r.Intn(len(strs))]; return s, s }},
				{"i", "integer", func(r randT, i int) (string, any) { v := int64(r.Intn(7) - 3); return fmt.Sprint(v), v }},
				{"f", "fr", func(r randT, i int) (string, any) {
					v := float64(r.Intn(9)-4) / 2
					return strings.ReplaceAll(fmt.Sprint(v), ".", ","), v
				}},
				{"b", "yn", func(r randT, i int) (string, any) {
					if r.Intn(2) == 0 {
						return "y", true
					}
					return "+", false
				}}}, CsvOpts{})
			w.AddIndex(&Index{Name: "m" + src, Kind: "map", Input: src, Props: []IProp{{"s", ""}, {"i", ""}, {"f", ""}, {"b", ""}}})
		}
		value := func(r randT, p string) string {
			switch p {
			case "i":
				return fmt.Sprint(r.Intn(7) - 3)
			case "f":
				return pick(r, "-2", "-1,5", "0", "1", "0,5", "1 , 5", "2,50")
			case "b":
				return pick(r, "yes", "y", "a.b", "no", "n", "+")
			}
			return strs[r.Intn(len(strs))]
		}
		lits := []string{"/", "/a", "/A", "/item/", "/v1.0", "/x+y", "/(x)", "/[a]", "/$", "/^", "/a|b", "/*", "/日本", "/a b", "/~", "/{", "/}", "/.", "/\\d", "/-", "/a/b/c"}
		type tmpl struct {
			path  string
			parts []string // literal, placeholder, literal...
			names []string
		}
		tmpls := []tmpl{}
		used := map[string]bool{}
		nOut := 6
		type outp struct{ params []string }
		outs := []outp{}
		for k := 0; k < nOut; k++ {
			src := fmt.Sprintf("src%d", r.Intn(3))
			ps := map[string]Param{}
			names := []string{}
			for _, p := range []string{"s", "i", "f", "b"} {
				if r.Intn(4) > 0 || p == "b" && len(names) == 0 {
					ps["p_"+p] = Param{p, pick(r, "", "m"+src), map[string]string{"s": "", "i": "integer", "f": "fr", "b": "yn"}[p]}
					names = append(names, p)
				}
			}
			o := &Output{Name: fmt.Sprintf("o%d", k), Kind: "jsonArray", Input: src, Params: ps, LimDefault: 50}
			if k%3 == 2 {
				o.Kind = "jsonObject"
			} else if r.Intn(2) == 0 {
				o.LimParam, o.OffParam = "max", "from"
			}
			w.AddOutput(o)
			outs = append(outs, outp{names})
		}
		for len(tmpls) < 12 {
			k := r.Intn(nOut)
			names := append([]string{}, outs[k].params...)
			r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
			t := tmpl{}
			lit := lits[r.Intn(len(lits))]
			if strings.Contains(lit, "{") && !strings.HasSuffix(lit, "{") {
				continue
			}
			t.parts = append(t.parts, lit)
			n := r.Intn(len(names) + 1)
			stringUsed := false
			for x := 0; x < n; x++ {
				p := names[x]
				if p == "s" {
					// what follows a greedy text would be ambiguous
					if stringUsed || x != n-1 {
						continue
					}
					stringUsed = true
				}
				if strings.HasSuffix(t.parts[len(t.parts)-1], "{") {
					break
				}
				t.names = append(t.names, p)
				sep := pick(r, "/", "/", "-", ".", "_to_", "/日/", "(", "|")
				if p == "f" || p == "i" {
					sep = pick(r, "/", "_", "x", "$", ")")
				}
				if x == n-1 || p == "s" {
					sep = pick(r, "", "", "/", ".json", "/end")
				}
				t.parts = append(t.parts, sep)
			}
			if strings.HasSuffix(t.parts[0], "}") && false {
				continue
			}
			for i, lit := range t.parts {
				t.path += lit
				if i < len(t.names) {
					t.path += "{p_" + t.names[i] + "}"
				}
			}
			if used[t.path] {
				continue
			}
			used[t.path] = true
			w.Routes = append(w.Routes, Route{t.path, fmt.Sprintf("o%d", k)})
			tmpls = append(tmpls, t)
		}
		s := w.startOrFail(c, StartOpts{})
		if s == nil {
			return
		}
		defer s.Kill()
		nq := c.Q(150, 900)
		parallel(nq, 4, func(q int) {
			r := c.Rng("q", wi*100000+q)
			t := tmpls[r.Intn(len(tmpls))]
			path := ""
			for i, lit := range t.parts {
				path += lit
				if i < len(t.names) {
					v := value(r, t.names[i])
					if r.Intn(12) == 0 {
						v = pick(r, "abc", "--1", "1.2.3", "", "maybe", "1 x")
					}
					path += v
				}
			}
			switch r.Intn(12) {
			case 0:
				path += pick(r, "/", "x", "\n", " ", ".json")
			case 1:
				path = pick(r, "/x", "/", "/ ") + path
			case 2:
				k := r.Intn(len(path))
				path = path[:k] + path[k+1:]
				if !strings.HasPrefix(path, "/") {
					path = "/" + path
				}
			case 3:
				path = flipCase(path)
			case 4:
				path = strings.NewReplacer(".", "x", "+", "", "(", "", ")", "", "*", "z").Replace(path)
			}
			vals := url.Values{}
			for x := 0; x < r.Intn(4); x++ {
				p := pick(r, "s", "i", "f", "b")
				v := value(r, p)
				if r.Intn(12) == 0 {
					v = pick(r, "zz", "", "1.2")
				}
				vals.Add("p_"+p, v)
			}
			if r.Intn(8) == 0 {
				vals.Add(pick(r, "unknown", "P_s", "s", "p_s[]"), "1")
			}
			if r.Intn(5) == 0 {
				vals.Add(pick(r, "limit", "max"), pick(r, "1", "3", "0", "-1", "x", "5000"))
			}
			if r.Intn(5) == 0 {
				vals.Add(pick(r, "offset", "from"), pick(r, "0", "2", "40", "-1", "1.5"))
			}
			raw := pathEscape(path)
			if e := vals.Encode(); e != "" {
				raw += "?" + e
			}
			method := "GET"
			if r.Intn(10) == 0 {
				method = pick(r, "POST", "PUT", "DELETE", "HEAD", "PATCH", "OPTIONS")
			}
			if method != "GET" {
				resp := s.Do(method, raw, []byte(`{}`))
				d := ""
				if method == "HEAD" {
					if resp.Err != nil || resp.Status != 404 {
						d = fmt.Sprintf("expected 404, got %d %v", resp.Status, resp.Err)
					}
				} else {
					d = judge(Exp{Kind: "noroute"}, resp)
				}
				if d != "" {
					c.Fail("route:method", M{"method": method, "request": raw, "difference": d}, s.Cfg)
				}
				c.Eval(method + raw)
				c.Count("other_methods", 1)
				return
			}
			w.Ask(c, s, "route", raw)
			c.Eval(fmt.Sprintf("%d|%s", wi, raw))
			if q == 0 && wi < 3 {
				c.Sample(M{"request": raw, "routes": len(tmpls), "one_route": t.path})
			}
		})
	})
}
