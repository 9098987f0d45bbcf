package main

import (
	"fmt"
	"net/url"
	"sort"
	"strings"
)

// bulk asks for parts of very long results: more records than any 16-bit
// count, list page, or usual cap holds.
func (c *C) bulk(sig string, kinds ...string) {
	r := c.Rng("bulk", 0)
	w := NewWorld(c.dir("bulk"))
	n := c.Q(68000, 140000)
	fields := []Field{fID(),
		{"all", "string", func(r randT, i int) (string, any) { return "common", "common" }},
		{"k", "string", func(r randT, i int) (string, any) { s := fmt.Sprintf("k%d", i%3); return s, s }},
		{"rare", "string", func(r randT, i int) (string, any) { s := fmt.Sprintf("r%d", i/20000); return s, s }}}
	in := w.CsvInput(r, "in", n, fields, CsvOpts{})
	ps := map[string]Param{"n.all": {"all", "", ""}, "n.k": {"k", "", ""}}
	names := []string{}
	for _, k := range kinds {
		props := []string{"all", "k", "rare"}
		ip := []IProp{}
		for _, p := range props {
			ip = append(ip, IProp{p, ""})
		}
		ix := &Index{Name: k, Kind: k, Input: "in", Props: ip}
		switch k {
		case "noop":
			for _, p := range props {
				ps[k+"."+p] = Param{p, "", ""}
				names = append(names, k+"."+p)
			}
			continue
		case "sqlite":
			ix.Path = "bulk.db"
		case "wildcard":
			ix.Path = "bulk.idx"
		case "fts5":
			ix.Path = "bulkfts.db"
			ix.FtsMatch = func(rec Rec, q string) (bool, error) {
				for _, p := range props {
					if rec[p] == q {
						return true, nil
					}
				}
				return false, nil
			}
			ps["fts5.match"] = Param{"match", k, ""}
			names = append(names, "fts5.match")
			w.AddIndex(ix)
			continue
		}
		w.AddIndex(ix)
		for _, p := range props {
			ps[k+"."+p] = Param{p, k, ""}
			names = append(names, k+"."+p)
		}
	}
	sort.Strings(names)
	w.AddOutput(&Output{Name: "o", Kind: "jsonArray", Input: "in", LimDefault: 2, LimMax: 1 << 40, Params: ps}, "/o")
	offs := []int{0, 255, 256, 511, 512, 999, 1000, 1001, 1023, 1024, 4095, 4096, 9999, 10000, 16383, 16384, 21845, 21846, 22666, 32767, 32768, 65534, 65535, 65536, 65537, n/3 - 1, n / 3, n - 2, n - 1, n}
	for life := 0; life < 2; life++ {
		s := w.startOrFail(c, StartOpts{})
		if s == nil {
			return
		}
		ask := func(vals url.Values) {
			raw := "/o?" + vals.Encode()
			w.AskExp(c, s, sig, raw, w.Expect(raw))
			c.Eval(fmt.Sprintf("bulk|%d|%s", life, raw))
			c.Count("parts_of_long_results", 1)
		}
		value := func(name string) string {
			switch p := name[strings.IndexByte(name, '.')+1:]; p {
			case "all":
				return "common"
			case "k":
				return pick(r, "k0", "k1", "k2")
			case "rare":
				return pick(r, "r0", "r1", "r3")
			}
			return pick(r, "common", "common", "k1", "r2")
		}
		for _, name := range names { // everything at once
			ask(url.Values{name: {value(name)}, "limit": {fmt.Sprint(n + 5)}})
		}
		cases := []url.Values{}
		for _, off := range offs {
			for k := 0; k < c.Q(3, 12); k++ {
				vals := url.Values{"offset": {fmt.Sprint(off)}}
				if r.Intn(2) == 0 {
					vals.Set("limit", pick(r, "1", "3", "1002", "70"))
				}
				for f := 0; f < pick(r, 1, 1, 2, 3); f++ {
					name := names[r.Intn(len(names))]
					vals.Set(name, value(name))
				}
				cases = append(cases, vals)
			}
		}
		parallel(len(cases), 4, func(i int) { ask(cases[i]) })
		if code, ok := s.Stop(); !ok || code != 0 {
			c.Fail("stop", M{"code": code, "graceful": ok, "log": tail(s.Log.String(), 2000)}, s.Cfg)
		}
	}
	c.Count("records_of_long_results", int64(len(in.Recs)))
}
