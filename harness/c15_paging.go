package main

import (
	"fmt"
	"net/url"
)

func init() {
	register(&Check{ID: "C15", Level: "exploration", Min: 400,
		Rule: "a case is one page (limit and offset given, defaulted, above the maximum, out of range or malformed) of one filtered list, judged against the slice of the whole expected list; full traversals page by page are judged to give every record exactly once; non-trivial when the filtered list has more than one record or the values must be refused",
		Fn:   c15})
}

// Pages are slices of the ordered list of the matching records.
func c15(c *C) {
	worlds := c.Q(36, 400)
	parallel(worlds, 4, func(wi int) {
		r := c.Rng("world", wi)
		kind := []string{"csv", "json", "xml"}[wi%3]
		n := []int{0, 130, 1300}[wi/3%3]
		w := c.mixWorld(r, c.dir("w%d", wi), kind, n, 8)
		w.AddOutput(&Output{Name: "d", Kind: "jsonArray", Input: "in", Params: w.params}, "/d")
		w.AddOutput(&Output{Name: "p", Kind: "jsonArray", Input: "in", Params: w.params, LimDefault: 7, LimMax: 20, LimParam: "per page", OffParam: "from"}, "/p", "/q/{m.cat}")
		w.AddOutput(&Output{Name: "m", Kind: "jsonArray", Input: "in", Params: w.params, LimMax: 5000, LimDefault: 1}, "/m")
		w.AddOutput(&Output{Name: "b", Kind: "jsonArray", Input: "in", Params: w.params, LimMax: pick(r, 1<<16, 1<<31, 1<<40, 1<<53, 1<<62, 9223372036854775807), LimDefault: 9}, "/b")
		names := map[string][2]string{"/d": {"limit", "offset"}, "/p": {"per page", "from"}, "/m": {"limit", "offset"}, "/b": {"limit", "offset"}}
		s := w.startOrFail(c, StartOpts{})
		if s == nil {
			return
		}
		defer s.Kill()
		parallel(c.Q(110, 700), 4, func(q int) {
			r := c.Rng("q", wi*100000+q)
			path := pick(r, "/d", "/p", "/m", "/b")
			lp, op := names[path][0], names[path][1]
			vals := url.Values{}
			if r.Intn(3) > 0 {
				vals, _ = w.query(r, 1+r.Intn(2))
			}
			if r.Intn(4) > 0 {
				vals.Set(lp, pick(r, "1", "2", "5", "19", "20", "21", "100", "1000", "1001", "5000", "100000", "65536", "65537", "65541", "131079", "1000000000000", "9007199254740993", "4294967296", "4294967299", "2147483649", "9223372036854775807", "0", "-1", "-9223372036854775808", "9223372036854775808", "abc", "", "1.5", "+3", " 3", "0x10", "007"))
			}
			if r.Intn(3) > 0 {
				vals.Set(op, pick(r, "0", "1", "2", fmt.Sprint(r.Intn(40)), fmt.Sprint(n), fmt.Sprint(n-1), fmt.Sprint(n+1), "100000", "65536", "65537", "131073", "4294967296", "4294967297", "2147483648", "9223372036854775807", "-1", "18446744073709551615", "abc", "", "1e3", "+2", "-0"))
			}
			if r.Intn(6) == 0 { // the parameters of another output mean nothing here
				vals.Set(pick(r, "page", "Limit", "OFFSET", "skip"), "3")
			}
			raw := path + "?" + vals.Encode()
			e := w.Expect(raw)
			w.AskExp(c, s, "page", raw, e)
			key := ""
			if b, ok := e.Body.(A); !ok || len(b) > 1 {
				key = fmt.Sprintf("%d|%s", wi, raw)
			}
			c.Eval(key)
			if q == 0 && n > 0 {
				c.Sample(M{"kind": kind, "records": n, "request": raw})
			}
		})
		// whole traversals
		for t := 0; t < c.Q(4, 20); t++ {
			vals := url.Values{}
			if t > 0 {
				for len(vals) == 0 {
					vals, _ = w.query(r, 1+t%2)
				}
			}
			e := w.Expect("/m?" + vals.Encode() + "&limit=5000")
			all, _ := e.Body.(A)
			step := 1 + r.Intn(60)
			if t == 0 {
				step += 100
			}
			got := A{}
			bad := false
			for off := 0; ; off += step {
				raw := fmt.Sprintf("/m?%s&limit=%d&offset=%d", vals.Encode(), step, off)
				resp := s.Get(raw)
				v, err := decodeJSON(resp.Body)
				page, isArr := v.([]any)
				if err != nil || resp.Status != 200 || !isArr {
					c.Fail("traversal", M{"request": raw, "status": resp.Status, "body": clip(string(resp.Body))}, s.Cfg)
					bad = true
					break
				}
				got = append(got, page...)
				c.Eval(fmt.Sprintf("%d|%d|%s", wi, t, raw))
				if len(page) < step {
					break
				}
			}
			if !bad {
				if d := diff("$", all, []any(got)); d != "" {
					c.Fail("traversal", M{"filters": vals.Encode(), "step": step, "difference": d}, s.Cfg)
				}
			}
			c.Count("traversals", 1)
			c.Count("traversed_records", int64(len(got)))
		}
	})
}
