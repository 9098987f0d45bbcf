package main

import (
	"bytes"
	"fmt"
	"net/url"
	"os"
	"path/filepath"
)

func init() {
	register(&Check{ID: "C16", Level: "exploration", Min: 400,
		Rule: "a case is one request to a jsonObject output with parameters on one to three indexes of any kind: several, one or no matching records; non-trivial always (the first matching record or a 404 or an error is expected)",
		Fn:   c16})
}

// A jsonObject output gives the first matching record, or 404.
func c16(c *C) {
	parallel(c.Q(24, 120), 4, func(i int) { c.cut(i) })
	worlds := c.Q(126, 1300)
	parallel(worlds, 4, func(wi int) {
		r := c.Rng("world", wi)
		kind := []string{"csv", "json", "xml"}[wi%3]
		w := c.mixWorld(r, c.dir("w%d", wi), kind, []int{0, 40, 300}[wi/3%3], 12)
		outs := []*Output{}
		for k := 0; k < 8; k++ {
			ps := map[string]Param{}
			for i := 0; i <= r.Intn(3); i++ {
				n := w.names[r.Intn(len(w.names))]
				if k == 0 {
					n = "m.cat"
				}
				ps[n] = w.params[n]
			}
			o := &Output{Name: fmt.Sprintf("o%d", k), Kind: "jsonObject", Input: "in", Params: ps}
			w.AddOutput(o, fmt.Sprintf("/o%d", k))
			outs = append(outs, o)
		}
		s := w.startOrFail(c, StartOpts{})
		if s == nil {
			return
		}
		defer s.Kill()
		parallel(c.Q(120, 700), 4, func(q int) {
			r := c.Rng("q", wi*100000+q)
			k := r.Intn(len(outs))
			var base Rec
			if len(w.in.Recs) > 0 {
				base = w.in.Recs[r.Intn(len(w.in.Recs))]
			}
			vals := url.Values{}
			for _, n := range sortedKeys(outs[k].Params) {
				if r.Intn(15) == 0 && w.Indexes[outs[k].Params[n].Index].Kind != "fts5" && w.Indexes[outs[k].Params[n].Index].Kind != "wildcard" {
					continue // a missing parameter
				}
				vals.Set(n, w.filter(r, n, base))
			}
			if r.Intn(5) == 0 {
				vals.Set(pick(r, "limit", "offset", "other"), "2")
			}
			raw := fmt.Sprintf("/o%d?%s", k, vals.Encode())
			w.Ask(c, s, "object", raw)
			c.Eval(fmt.Sprintf("%d|%s", wi, raw))
			if q == 0 {
				c.Sample(M{"kind": kind, "records": len(w.in.Recs), "request": raw})
			}
		})
	})
}

// cut: the end of the file disappears, for an input which tolerates changes.
// The records which were there are not "not found": they cannot be read.
func (c *C) cut(wi int) {
	r := c.Rng("cut", wi)
	w := NewWorld(c.dir("cut%d", wi))
	n := 5 + r.Intn(400)
	kind := []string{"csv", "json"}[wi%2]
	var in *Input
	if kind == "csv" {
		in = w.CsvInput(r, "in", n, []Field{fUnique("id", "k"), fKey("cat", "c", 3), fKey("t", "text", 9)}, CsvOpts{})
	} else {
		recs := []Rec{}
		for i := 0; i < n; i++ {
			recs = append(recs, Rec{"id": fmt.Sprintf("k%d", i), "cat": fmt.Sprintf("c%d", r.Intn(3)), "t": word(r)})
		}
		in = w.JsonInput(r, "in", recs)
		var b bytes.Buffer
		for _, rec := range recs {
			fmt.Fprintf(&b, "{\"id\": %q, \"cat\": %q, \"t\": %q}\n", rec["id"], rec["cat"], rec["t"])
		}
		must(os.WriteFile(filepath.Join(w.Dir, in.File), b.Bytes(), 0644))
	}
	in.Conf["dieOnInputChange"] = false
	w.AddIndex(&Index{Name: "m", Kind: "map", Input: "in", Props: []IProp{{"id", ""}, {"cat", ""}}})
	w.AddIndex(&Index{Name: "s", Kind: "sqlite", Input: "in", Props: []IProp{{"id", ""}, {"cat", ""}}, Path: ":memory:"})
	for _, x := range []string{"m", "s"} {
		w.AddOutput(&Output{Name: "o" + x, Kind: "jsonObject", Input: "in", Params: map[string]Param{"id": {"id", x, ""}}}, "/"+x+"/{id}")
	}
	s := w.startOrFail(c, StartOpts{})
	if s == nil {
		return
	}
	defer s.Kill()
	file := filepath.Join(w.Dir, in.File)
	data, err := os.ReadFile(file)
	must(err)
	keep := r.Intn(n)
	lines := bytes.SplitAfter(data, []byte("\n"))
	must(os.Truncate(file, int64(len(bytes.Join(lines[:keep], nil)))))
	for q := 0; q < 40; q++ {
		i := keep + r.Intn(n-keep)
		if q%4 == 0 {
			i = r.Intn(n + 20)
		}
		raw := fmt.Sprintf("/%s/k%d", pick(r, "m", "s"), i)
		e := w.Expect(raw)
		c.Eval(fmt.Sprintf("cut%d|%d|%s", wi, q, raw))
		if i < keep || i >= n {
			w.AskExp(c, s, "cut:present", raw, e)
			continue
		}
		resp := s.Get(raw)
		if judge(e, resp) == "" {
			continue // it was still in memory
		}
		if why := judge(Exp{Kind: "error"}, resp); why != "" {
			c.Fail("cut:gone", M{"request": raw, "difference": why, "records": n, "kept": keep, "server_log": tail(s.Log.String(), 1500)}, s.Cfg)
		}
		c.Count("records_cut_away", 1)
	}
}
