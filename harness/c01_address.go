package main

import (
	"bufio"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"
)

func init() {
	register(&Check{ID: "C01", Level: "exploration", Min: 600,
		Rule: "a case is one (data set, index, record, life of the server: the one which built the index or the one which reopened it) read in a hostile order; non-trivial always: the whole record is compared with the one the generator wrote",
		Fn:   c01})
}

// Every record reachable through an index is the record which was indexed:
// whatever the format, the size, the order of the reads, their interleaving
// and whether the positions were computed in this process or a previous one.
func c01(c *C) {
	c.phase("far", c.farRecords)
	c.phase("worlds", c.addresses)
}

func (c *C) addresses() {
	worlds := c.Q(36, 400)
	parallel(worlds, 4, func(wi int) {
		r := c.Rng("world", wi)
		kind := []string{"csv", "json", "xml"}[wi%3]
		w := NewWorld(c.dir("w%d", wi))
		n := []int{60, 400, 1500}[wi/3%3]
		textMax := []int{9000, 300, 12}[wi/3%3]
		if wi/9%3 == 1 {
			w.Gap, w.Pad = pick(r, 5000, 66000, 1<<20, 9<<20), 4000
		}
		in := w.anyInput(r, "in", kind, n, textMax)
		w.AddIndex(&Index{Name: "m", Kind: "map", Input: "in", Props: []IProp{{"id", ""}}})
		w.AddIndex(&Index{Name: "s", Kind: "sqlite", Input: "in", Props: []IProp{{"id", ""}}, Path: "s.db"})
		w.AddIndex(&Index{Name: "f", Kind: "wildcard", Input: "in", Props: []IProp{{"cat", ""}}, Path: "f.idx"})
		routes := []string{}
		for _, ix := range []string{"", "m", "s"} {
			path := "/by" + ix + "/"
			routes = append(routes, path)
			w.AddOutput(&Output{Name: "o" + ix, Kind: "jsonObject", Input: "in", Params: map[string]Param{"id": {"id", ix, numParser(kind)}}}, path+"{id}")
		}
		// the same records with others attached to them, in turn with the plain ones
		w.AddOutput(&Output{Name: "rel", Kind: "jsonObject", Input: "in", Params: map[string]Param{"id": {"id", "m", numParser(kind)}}, Rels: map[string]*Rel{
			"same":  {Input: "in", IsArray: true, Limit: 2, Match: []RelMatch{{"cat", "cat", "s2"}}, Sort: []Sort{{"id", r.Intn(2) == 0, true}}},
			"again": {Input: "in", Match: []RelMatch{{"id", "id", pick(r, "m", "s")}}, Rels: map[string]*Rel{"third": {Input: "in", Match: []RelMatch{{"id", "id", "s"}}}}}}}, "/rel/{id}")
		w.AddIndex(&Index{Name: "s2", Kind: "sqlite", Input: "in", Props: []IProp{{"cat", ""}}, Path: ":memory:"})
		w.AddOutput(&Output{Name: "all", Kind: "jsonArray", Input: "in", LimDefault: 40, Params: map[string]Param{"cat": {"cat", "f", ""}}}, "/all")
		for life := 0; life < 2; life++ {
			s := w.startOrFail(c, StartOpts{})
			if s == nil {
				return
			}
			order := r.Perm(n)
			switch wi % 4 {
			case 1:
				for i := range order {
					order[i] = n - 1 - i
				}
			case 2:
				for i := range order {
					order[i] = (n-1)*(i%2) + (1-2*(i%2))*(i/2) // both ends alternately
				}
			}
			max := c.Q(160, 1200)
			if len(order) > max {
				order = append(order[:max-4:max-4], 0, n-1, n-1, 0)
			}
			clients := []int{1, 4, 8}[r.Intn(3)]
			parallel(len(order), clients, func(i int) {
				// The scanning route is much slower
				route := routes[1+i%2]
				if i%8 == 0 && n <= 400 || i%64 == 0 {
					route = routes[0]
				}
				if i%8 == 5 && (n <= 400 || i%40 == 5) {
					w.Ask(c, s, "address:"+kind, fmt.Sprintf("/rel/%d", order[i]))
					c.Eval(fmt.Sprintf("%d|%d|rel%d", wi, life, order[i]))
					if i%3 == 0 { // and the same record again
						route = routes[1]
					}
				}
				raw := fmt.Sprintf("%s%d", route, order[i])
				w.Ask(c, s, "address:"+kind, raw)
				c.Eval(fmt.Sprintf("%d|%d|%s", wi, life, raw))
				if i%16 == 3 {
					w.Ask(c, s, "address:"+kind, fmt.Sprintf("/all?cat=c%d&offset=%d", i%6, i%30))
					c.Eval("")
				}
			})
			c.Count("records_"+kind, int64(len(order)))
			c.Count(fmt.Sprintf("life_%d", life), 1)
			if life == 0 {
				c.Sample(M{"kind": kind, "records": len(in.Recs), "clients": clients, "requests": len(order)})
			}
			if code, ok := s.Stop(); !ok || code != 0 {
				c.Fail("stop", M{"code": code, "graceful": ok, "log": tail(s.Log.String(), 2000)}, s.Cfg)
			}
		}
	})
}

// farRecords: small records between huge ones, before and after the positions
// which a 31 or 32 bits number can hold.
func (c *C) farRecords() {
	var fs syscall.Statfs_t
	if err := syscall.Statfs(c.Work, &fs); err != nil || int64(fs.Bavail)*int64(fs.Bsize) < 15<<30 {
		c.Count("far_without_disk", 1)
		return
	}
	kinds := []string{"csv"}
	if c.Tier != "quick" {
		kinds = []string{"csv", "json"}
	}
	for _, kind := range kinds {
		r := c.Rng("far", len(kind))
		w := NewWorld(c.dir("far-%s", kind))
		in := &Input{Name: "in", Kind: kind, File: "in." + kind, Strict: true}
		f, err := os.Create(filepath.Join(w.Dir, in.File))
		must(err)
		out := bufio.NewWriterSize(f, 1<<20)
		filler := strings.Repeat("0123456789abcdef", 3<<16)
		pos := int64(0)
		put := func(format string, a ...any) {
			n, err := fmt.Fprintf(out, format, a...)
			must(err)
			pos += int64(n)
		}
		row := func(text string) {
			id := len(in.Recs)
			cat := fmt.Sprintf("c%d", id%7)
			if text == "" { // one of the records which are asked
				cat = fmt.Sprintf("far%d", id)
			}
			switch kind {
			case "csv":
				put("%d,%s,%s\n", id, cat, text)
				in.Recs = append(in.Recs, Rec{"id": int64(id), "cat": cat, "text": text})
			case "json":
				put("{\"id\":%d,\"cat\":\"%s\",\"text\":\"%s\"}\n", id, cat, text)
				in.Recs = append(in.Recs, Rec{"id": float64(id), "cat": cat, "text": text})
			case "xml":
				put("<rec><id>%d</id><cat>%s</cat><text>%s</text></rec>\n", id, cat, text)
				in.Recs = append(in.Recs, Rec{"id": int64(id), "cat": cat, "text": text})
			}
		}
		ids := []int{}
		small := func() {
			for k := 0; k < 3; k++ {
				ids = append(ids, len(in.Recs))
				row("")
			}
		}
		switch kind {
		case "csv":
			in.Conf = M{"columns": A{M{"name": "id", "parser": "integer"}, M{"name": "cat"}, M{"name": "text"}}}
		case "json":
			in.Strict = false
		case "xml":
			in.Conf = M{"recordXpath": "/root/rec", "properties": A{M{"name": "id", "xpath": "string(id)", "parser": "integer"}, M{"name": "cat", "xpath": "string(cat)"}, M{"name": "text", "xpath": "string(text)"}}}
			put("<root>")
		}
		// around each limit, and at positions whose lower 32 bits are those of others
		for _, limit := range []int64{0, 1 << 24, 1<<31 - 100, 1<<31 + 4096, 1<<32 - 100, 1<<32 + 1<<24, 1<<32 + 1<<27} {
			for limit-pos > int64(len(filler))+200 {
				row(filler)
			}
			if limit-pos > 200 {
				row(filler[:limit-pos-100])
			}
			small()
		}
		if kind == "xml" {
			put("</root>")
		}
		must(out.Flush())
		must(f.Close())
		w.AddInput(in)
		ps := map[string]Param{"cat": {"cat", "x", ""}, "m": {"id", "m", numParser(kind)}, "s": {"id", "s", numParser(kind)}, "f": {"match", "f", ""}}
		w.AddIndex(&Index{Name: "m", Kind: "map", Input: "in", Props: []IProp{{"id", ""}}})
		w.AddIndex(&Index{Name: "s", Kind: "sqlite", Input: "in", Props: []IProp{{"id", ""}}, Path: "s.db"})
		w.AddIndex(&Index{Name: "x", Kind: "wildcard", Input: "in", Props: []IProp{{"cat", ""}}, Path: "x.idx"})
		w.AddIndex(&Index{Name: "f", Kind: "fts5", Input: "in", Props: []IProp{{"cat", ""}}, Path: "f.db",
			FtsMatch: func(rec Rec, q string) (bool, error) { return rec["cat"] == q, nil }})
		w.AddOutput(&Output{Name: "all", Kind: "jsonArray", Input: "in", LimDefault: 5, Params: ps, Rels: map[string]*Rel{
			"again": {Input: "in", Match: []RelMatch{{"id", "id", "s"}}}}}, "/all")
		for life := 0; life < 2; life++ {
			if life > 0 { // only what was kept
				for _, k := range []string{"m"} {
					delete(w.Indexes, k)
					delete(ps, k)
				}
			}
			s := w.startOrFail(c, StartOpts{Wait: 600})
			if s == nil {
				return
			}
			for _, k := range r.Perm(len(ids)) {
				for _, p := range sortedKeys(ps) {
					v := fmt.Sprint(ids[k])
					if p == "cat" || p == "f" {
						v = fmt.Sprintf("far%d", ids[k])
					}
					raw := fmt.Sprintf("/all?%s=%s&limit=1", p, v)
					w.Ask(c, s, "far:"+kind, raw)
					c.Eval(fmt.Sprintf("far|%s|%d|%s", kind, life, raw))
				}
			}
			s.Stop()
		}
		c.Max("max_position_"+kind, pos)
		c.Count("far_records", int64(len(ids)))
		must(os.RemoveAll(w.Dir))
	}
}
