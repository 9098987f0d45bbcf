package main

import "fmt"

func init() {
	register(&Check{ID: "C10", Level: "exploration", Min: 400,
		Rule: "a case is one request giving filters to one or several indexes at once (noop, map, sqlite on disk and in memory, wildcard, fts5) with an optional page, judged against the conjunction evaluated by a scan; non-trivial when at least two filters are combined",
		Fn:   c10})
}

// Filters given to several indexes select the records matching all of them.
func c10(c *C) {
	c.phase("bulk", func() { c.bulk("bulk", "map", "sqlite", "noop", "wildcard", "fts5") })
	worlds := c.Q(54, 600)
	parallel(worlds, 4, func(wi int) {
		r := c.Rng("world", wi)
		kind := []string{"csv", "json", "xml"}[wi%3]
		w := c.mixWorld(r, c.dir("w%d", wi), kind, []int{1, 60, 400}[wi/3%3], 30)
		w.AddOutput(&Output{Name: "o", Kind: "jsonArray", Input: "in", LimDefault: 1000, Params: w.params}, "/o")
		w.AddOutput(&Output{Name: "none", Kind: "jsonArray", Input: "in", LimDefault: 1000}, "/none")
		s := w.startOrFail(c, StartOpts{})
		if s == nil {
			return
		}
		defer s.Kill()
		parallel(c.Q(160, 900), 4, func(q int) {
			r := c.Rng("q", wi*100000+q)
			vals, used := w.query(r, 1+r.Intn(6))
			if r.Intn(4) == 0 {
				vals.Set("offset", fmt.Sprint(r.Intn(8)))
				vals.Set("limit", fmt.Sprint(1+r.Intn(8)))
			}
			raw := "/o?" + vals.Encode()
			e := w.Expect(raw)
			if b, ok := e.Body.(A); ok && len(b) > 0 {
				c.Count("answers_with_records", 1)
			}
			w.AskExp(c, s, "conjunction", raw, e)
			c.Count(fmt.Sprintf("indexes_combined_%d", used), 1)
			key := ""
			if len(vals) > 1 {
				key = fmt.Sprintf("%d|%s", wi, raw)
			}
			c.Eval(key)
			if q == 0 {
				c.Sample(M{"kind": kind, "records": len(w.in.Recs), "request": raw})
			}
		})
		w.Ask(c, s, "conjunction:none", "/none?m.id=1&x=2")
	})
}
