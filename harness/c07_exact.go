package main

import (
	"encoding/json"
	"fmt"
	"net/url"
	"os"
	"path/filepath"
	"strings"
)

func init() {
	register(&Check{ID: "C07", Level: "exploration", Min: 300,
		Rule: "a case is one filtered request (index kind, property, type of value, filter value) against a generated data set, judged against a linear scan of the generated records; non-trivial when the filter value occurs in the data or is a near miss of one that does",
		Fn:   c07})
}

// exactWorld: one data set, every exact index kind, one array route per
// (index, property) and combinations.
func c07(c *C) {
	c.phase("bulk", func() { c.bulk("bulk", "map", "sqlite", "noop") })
	c.phase("deep", func() { c07Deep(c) })
	c.phase("unindexable", func() { c07Unindexable(c) })
	c.phase("long", func() { c07Long(c) })
	worlds := c.Q(70, 800)
	parallel(worlds, 4, func(wi int) {
		r := c.Rng("world", wi)
		w := NewWorld(filepath.Join(c.Work, fmt.Sprintf("w%d", wi)))
		n := []int{0, 1, 60, 300, 900, 1500}[wi%6]
		kind := []string{"csv", "json"}[wi/2%2]
		w.AddParser(&PDef{Name: "tags", Type: "split", Delim: "|", Sub: "string"})
		fields := []Field{fID(), fKey("cat", "c", 7), fInt("num", 40), fFloat("price", 30), fBool("flag"), fText("txt", 30), fWords("w", 3),
			{"pad", "string", func(r2 randT, i int) (string, any) {
				s := pick(r2, "x", "X", "x ", "x  ", " x", "é", "É", "x\t", "abc", "ABC", "Abc ", "", " ")
				return s, s
			}},
			{"tags", "tags", func(r2 randT, i int) (string, any) {
				a := A{}
				s := ""
				for j := 0; j < r2.Intn(4)+1; j++ {
					t := fmt.Sprintf("t%d", r2.Intn(6))
					if j > 0 {
						s += "|"
					}
					s += t
					a = append(a, t)
				}
				return s, a
			}},
			fText("blob", 200), fKey("opt", "o", 3)}
		var in *Input
		if kind == "csv" {
			in = w.CsvInput(r, "in", n, fields, CsvOpts{Delim: pick(r, ",", ";", "\t", "|"[:1]), Header: r.Intn(2) == 0, CRLF: r.Intn(2) == 0, Ragged: 0.1, Blank: 0.05, NoFinalNL: r.Intn(2) == 0})
		} else {
			recs := []Rec{}
			for i := 0; i < n; i++ {
				rec := Rec{}
				for _, f := range fields {
					_, v := f.Gen(r, i)
					if iv, ok := v.(int64); ok {
						v = float64(iv)
					}
					rec[f.Name] = v
				}
				if r.Intn(5) == 0 {
					delete(rec, "opt")
				} else if r.Intn(5) == 0 {
					rec["opt"] = nil
				}
				rec["mix"] = pick[any](r, "1", 1.0, true, "true", "0", 0.0, false, "false", nil, "", "1.5", 1.5, "TRUE", "null", " 1", "1.0", -1.0, "-1", 1e15, "1e15")
				rec["loose"] = pick[any](r, rec["mix"], A{}, A{rec["mix"], A{rec["cat"], A{true}}, nil}, A{A{}, "1"}, A{1.0, 1.0, "1"}, nil)
				rec["nest"] = M{"a": fmt.Sprintf("n%d", r.Intn(5)), "l": A{fmt.Sprintf("l%d", r.Intn(4)), float64(r.Intn(3))}}
				recs = append(recs, rec)
			}
			in = w.JsonInput(r, "in", recs)
		}
		props := []string{"id", "cat", "num", "price", "flag", "txt", "w", "pad", "opt"}
		sprops := []IProp{}
		for _, p := range props {
			sprops = append(sprops, IProp{p, ""})
		}
		parserOf := map[string]string{"id": "integer", "num": "integer", "price": "float", "flag": "boolean"}
		if kind == "json" {
			parserOf["id"], parserOf["num"] = "float", "float"
			sprops = append(sprops, IProp{"mix", ""})
			props = append(props, "nest.a", "nest.l.0", "nest.l.1", "nest.l.7")
			parserOf["nest.l.1"] = "float"
			sprops = append(sprops, IProp{"nest.a", ""}, IProp{"nest.l.0", ""}, IProp{"nest.l.1", ""}, IProp{"nest.l.7", ""})
		}
		w.AddIndex(&Index{Name: "map", Kind: "map", Input: "in", Props: append(append([]IProp{}, sprops...), IProp{"tags", ""}, IProp{"loose", ""})})
		w.AddIndex(&Index{Name: "sq", Kind: "sqlite", Input: "in", Props: sprops, Path: "sq.db"})
		w.AddIndex(&Index{Name: "mem", Kind: "sqlite", Input: "in", Props: sprops, Path: ":memory:"})
		w.AddIndex(&Index{Name: "nc", Kind: "sqlite", Input: "in", Props: []IProp{{"pad", "nocase"}, {"w", "NOCASE"}, {"cat", "binary"}}, Path: "nc.db"})
		w.AddIndex(&Index{Name: "rt", Kind: "sqlite", Input: "in", Props: []IProp{{"pad", "rtrim"}, {"w", "RTRIM"}, {"txt", "rtrim"}}, Path: "rt.db"})
		mixed := []string{}
		if kind == "json" {
			for _, pr := range []string{"string", "float", "boolean", "integer"} {
				mixed = append(mixed, "mix."+pr, "loose."+pr)
			}
		} else {
			w.Indexes["map"].Props = w.Indexes["map"].Props[:len(w.Indexes["map"].Props)-1]
		}
		type route struct{ ix, path string }
		routes := []route{}
		for _, ix := range []string{"default", "map", "sq", "mem", "nc", "rt"} {
			x := w.Indexes[ix]
			ps := map[string]Param{}
			for _, p := range append(append([]string{}, props...), "tags") {
				if !x.handles(p) || (ix == "default" && p == "tags") {
					continue
				}
				name := ix
				if ix == "default" {
					name = pick(r, "", "default")
				}
				ps["p."+p] = Param{Prop: p, Index: name, Parser: parserOf[p]}
			}
			for _, m := range mixed {
				prop, pr, _ := strings.Cut(m, ".")
				if x.handles(prop) {
					ps["t."+m] = Param{Prop: prop, Index: ix, Parser: pr}
				}
			}
			w.AddOutput(&Output{Name: "o_" + ix, Kind: "jsonArray", Input: "in", LimDefault: 1000, Params: ps}, "/"+ix)
			routes = append(routes, route{ix, "/" + ix})
		}
		s, err := w.Start(c, StartOpts{})
		if err != nil {
			c.Fail("startup", M{"error": err.Error()}, s.Cfg)
			return
		}
		defer s.Kill()
		nq := c.Q(260, 1200)
		parallel(nq, 4, func(q int) {
			r := c.Rng("q", wi*100000+q)
			rt := routes[q%len(routes)]
			x := w.Indexes[rt.ix]
			nf := pick(r, 1, 1, 1, 2, 2, 3)
			vals := url.Values{}
			desc := rt.ix
			all := []string{}
			for _, p := range append(append([]string{}, props...), "tags") {
				if x.handles(p) && !(rt.ix == "default" && p == "tags") {
					all = append(all, p)
				}
			}
			nontrivial := false
			// several filters taken from one record so that conjunctions match
			var base Rec
			if len(in.Recs) > 0 {
				base = in.Recs[r.Intn(len(in.Recs))]
			}
			for f := 0; f < nf; f++ {
				p := all[r.Intn(len(all))]
				raw, hit := filterFor(r, in, base, p, parserOf[p])
				nontrivial = nontrivial || hit
				vals.Set("p."+p, raw)
				desc += "|" + p
			}
			if len(mixed) > 0 && r.Intn(4) == 0 {
				if r.Intn(3) > 0 {
					vals = url.Values{}
				}
				m := mixed[r.Intn(len(mixed))]
				_, pr, _ := strings.Cut(m, ".")
				switch pr {
				case "string":
					vals.Set("t."+m, pick(r, "1", "true", "0", "false", "", "1.5", "TRUE", "null", " 1", "c1", "1e15", "1.0", "-1"))
				case "boolean":
					vals.Set("t."+m, pick(r, "1", "true", "0", "false"))
				case "float":
					vals.Set("t."+m, pick(r, "1", "0", "1.5", "-1", "1e15", "1.0"))
				default:
					vals.Set("t."+m, pick(r, "1", "0", "-1", "1000000000000000"))
				}
				desc, nontrivial = desc+"|"+m, true
			}
			if r.Intn(4) == 0 {
				vals.Set("limit", fmt.Sprint(1+r.Intn(50)))
				vals.Set("offset", fmt.Sprint(r.Intn(30)))
			}
			raw := rt.path + "?" + vals.Encode()
			w.Ask(c, s, "exact:"+rt.ix, raw)
			key := ""
			if nontrivial {
				key = fmt.Sprintf("%d|%s", wi, raw)
			}
			c.Eval(key)
			c.Count("queries_"+rt.ix, 1)
			if q < 2 {
				c.Sample(M{"records": n, "input": kind, "request": raw})
			}
		})
	})
}

// filterFor picks a raw filter value: present in the base record, present
// elsewhere, a near miss, or absent.
func filterFor(r randT, in *Input, base Rec, prop, parser string) (string, bool) {
	var v any
	if base != nil {
		switch r.Intn(6) {
		case 0, 1, 2, 3:
			v, _ = in.get(base, prop)
		case 4:
			v, _ = in.get(in.Recs[r.Intn(len(in.Recs))], prop)
		}
	}
	if a, ok := v.(A); ok {
		if len(a) > 0 {
			v = a[r.Intn(len(a))]
		} else {
			v = nil
		}
	}
	switch parser {
	case "integer":
		if n, ok := v.(int64); ok {
			return fmt.Sprint(n), true
		}
		return fmt.Sprint(r.Intn(100000) - 50000), false
	case "float":
		if f, ok := v.(float64); ok {
			s := fmt.Sprintf("%v", f)
			return s, true
		}
		return fmt.Sprint(r.Intn(1000)) + ".125", false
	case "boolean":
		if b, ok := v.(bool); ok {
			if b {
				return pick(r, "true", "1", "TRUE"), true
			}
			return pick(r, "false", "0", "FALSE"), true
		}
		return "1", false
	}
	if s, ok := v.(string); ok {
		switch r.Intn(6) {
		case 0:
			return s + pick(r, " ", "x", "%"), true
		case 1:
			if len(s) > 0 {
				return flipCase(s), true
			}
		}
		return s, true
	}
	return pick(r, "zz", "", "null", "nil", "<nil>", "0", "%", "_", "'", "\"; DROP"), false
}

func flipCase(s string) string {
	b := []byte(s)
	for i, ch := range b {
		if ch >= 'a' && ch <= 'z' {
			b[i] = ch - 32
		} else if ch >= 'A' && ch <= 'Z' {
			b[i] = ch + 32
		}
	}
	return string(b)
}

// Filters on a path inside of a parsed value.
func c07Deep(c *C) {
	parallel(c.Q(18, 180), 4, func(wi int) {
		r := c.Rng("deep", wi)
		w := NewWorld(c.dir("deep%d", wi))
		kind := []string{"csv", "json", "xml"}[wi%3]
		odd := wi/3%3 == 2 // some values do not have the shape of the paths: only scanned
		n := pick(r, 1, 12, 60, 200)
		txt := func() string { return pick(r, "x", "y", "", "X", "a b", "é", "1", "\"", "<&>") }
		recs := []Rec{}
		var csv, xml strings.Builder
		xml.WriteString("<root>")
		for i := 0; i < n; i++ {
			d := M{}
			if r.Intn(4) > 0 {
				d["a"] = txt()
			}
			if r.Intn(4) > 0 {
				d["n"] = float64(r.Intn(6)) / 2
			}
			if r.Intn(4) > 0 {
				d["b"] = r.Intn(2) == 0
			}
			l := A{}
			for j := r.Intn(4); j > 0; j-- {
				o := M{}
				if r.Intn(4) > 0 {
					o["x"] = txt()
				}
				l = append(l, o)
			}
			d["l"] = l
			if r.Intn(4) > 0 {
				d["o"] = M{"p": M{"q": txt(), "0": float64(r.Intn(3))}}
			}
			var v any = d
			if odd && r.Intn(n+1) < 2 {
				v = pick[any](r, 12.0, "text", true, A{1.0}, M{"l": "text", "a": "x"}, M{"l": M{"0": M{"x": "x"}}}, M{"o": 1.0}, M{"o": M{"p": "q"}})
			}
			g, gs := A{}, []string{}
			for j := 1 + r.Intn(3); j > 0; j-- {
				in, is := A{}, []string{}
				for k := 1 + r.Intn(3); k > 0; k-- {
					x := r.Intn(4)
					in, is = append(in, float64(x)), append(is, fmt.Sprint(x))
				}
				g, gs = append(g, in), append(gs, strings.Join(is, ","))
			}
			rec := Rec{"id": fmt.Sprint(i), "d": v, "g": g}
			js, err := json.Marshal(v)
			must(err)
			fmt.Fprintf(&csv, "%d;\"%s\";\"%s\"\n", i, strings.ReplaceAll(string(js), "\"", "\"\""), strings.Join(gs, "/"))
			fmt.Fprintf(&xml, "<rec id=\"%d\"><d>%s</d><g>%s</g></rec>", i, xmlText(r, string(js)), strings.Join(gs, "/"))
			recs = append(recs, rec)
		}
		xml.WriteString("</root>")
		w.AddParser(&PDef{Name: "fl", Type: "split", Delim: ",", Sub: "float"})
		w.AddParser(&PDef{Name: "gg", Type: "split", Delim: "/", Sub: "fl"})
		switch kind {
		case "json":
			w.JsonInput(r, "in", recs)
		case "csv":
			must(os.WriteFile(filepath.Join(w.Dir, "in.csv"), []byte(csv.String()), 0644))
			w.AddInput(&Input{Name: "in", Kind: "csv", File: "in.csv", Recs: recs, Strict: true, Conf: M{"delimiter": ";", "columns": A{M{"name": "id"}, M{"name": "d", "parser": "json"}, M{"name": "g", "parser": "gg"}}}})
		case "xml":
			must(os.WriteFile(filepath.Join(w.Dir, "in.xml"), []byte(xml.String()), 0644))
			w.AddInput(&Input{Name: "in", Kind: "xml", File: "in.xml", Recs: recs, Strict: true, Conf: M{"recordXpath": "//rec", "properties": A{
				M{"name": "id", "xpath": "string(@id)"}, M{"name": "d", "xpath": "string(d)", "parser": "json"}, M{"name": "g", "xpath": "string(g)", "parser": "gg"}}}})
		}
		texts := []string{"d.a", "d.l.0.x", "d.l.2.x", "d.o.p.q", "d.zz", "d.l.99.x"}
		nums := []string{"d.n", "g.0.0", "g.1.1", "g.9", "g.0.-1", "d.o.p.0"}
		params := map[string]Param{"d.b": {"d.b", "", "boolean"}}
		ip := []IProp{{"d.b", ""}}
		for _, p := range append(append([]string{}, texts...), nums...) {
			ip = append(ip, IProp{p, ""})
		}
		ixs := []string{""}
		if !odd {
			ixs = append(ixs, "m", "s")
			w.AddIndex(&Index{Name: "m", Kind: "map", Input: "in", Props: ip})
			w.AddIndex(&Index{Name: "s", Kind: "sqlite", Input: "in", Props: ip, Path: pick(r, ":memory:", "s.db")})
			params["m.d.b"], params["s.d.b"] = Param{"d.b", "m", "boolean"}, Param{"d.b", "s", "boolean"}
		}
		for _, ix := range ixs {
			for _, p := range texts {
				params[ix+"."+p] = Param{p, ix, ""}
			}
			for _, p := range nums {
				params[ix+"."+p] = Param{p, ix, "float"}
			}
		}
		if odd { // paths which no value suits
			for _, p := range []string{"d.l.x", "id.x", "d.a.b", "g.x", "g.0.0.0"} {
				params["."+p] = Param{p, "", ""}
			}
		}
		names := sortedKeys(params)
		w.AddOutput(&Output{Name: "o", Kind: "jsonArray", Input: "in", LimDefault: 1000, Params: params}, "/o")
		s := w.startOrFail(c, StartOpts{})
		if s == nil {
			return
		}
		defer s.Kill()
		parallel(c.Q(90, 300), 4, func(q int) {
			r := c.Rng("deepq", wi*10000+q)
			vals := url.Values{}
			k := pick(r, 1, 1, 1, 2)
			if odd { // the second filter of a pair is only evaluated when the first one matches
				k = 1
			}
			for j := k; j > 0; j-- {
				name := names[(q+j*7)%len(names)]
				p := params[name]
				switch p.Parser {
				case "boolean":
					vals.Set(name, pick(r, "true", "false"))
				case "float":
					vals.Set(name, pick(r, "0", "1", "2", "0.5", "3", "2.5"))
				default:
					vals.Set(name, pick(r, "x", "y", "", "X", "a b", "é", "1", "\"", "<&>", "zz"))
				}
			}
			raw := "/o?" + vals.Encode()
			e := w.Expect(raw)
			w.AskExp(c, s, "deep:"+kind, raw, e)
			if b, ok := e.Body.(A); ok && len(b) > 0 {
				c.Count("deep_answers_with_records", 1)
			}
			c.Eval(fmt.Sprintf("deep|%d|%s", wi, raw))
		})
	})
}

// c07Unindexable: some values are lists or objects. The database index may
// refuse them; when it does not, it answers as a scan does.
func c07Unindexable(c *C) {
	parallel(c.Q(24, 240), 6, func(wi int) {
		r := c.Rng("unindexable", wi)
		w := NewWorld(c.dir("unindexable%d", wi))
		n := pick(r, 1, 2, 5, 40)
		recs := []Rec{}
		for i := 0; i < n; i++ {
			recs = append(recs, Rec{"id": fmt.Sprint(i), "k": pick(r, "a", "b", "", "[]")})
		}
		sc := pick(r, "a", "b", "")
		at := pick(r, 0, n-1, r.Intn(n))
		recs[at]["k"] = pick[any](r, A{}, A{sc}, A{sc, "b"}, A{1.0}, A{nil}, A{A{sc}}, A{true, "a"}, M{}, M{"a": "b"}, M{"k": sc})
		w.JsonInput(r, "in", recs)
		w.AddIndex(&Index{Name: "s", Kind: "sqlite", Input: "in", Props: []IProp{{"id", ""}, {"k", pick(r, "", "nocase", "binary")}}, Path: pick(r, ":memory:", "s.db")})
		w.AddOutput(&Output{Name: "o", Kind: "jsonArray", Input: "in", LimDefault: 1000, Params: map[string]Param{"k": {"k", "", ""}, "s": {"k", "s", ""}, "id": {"id", "s", ""}}}, "/o")
		s, err := w.Start(c, StartOpts{})
		c.Eval(fmt.Sprintf("unindexable|%d|%v", wi, recs[at]["k"]))
		if err != nil {
			c.Count("unindexable_refused", 1)
			return
		}
		defer s.Kill()
		for _, v := range []string{"a", "b", "", "[]", "[a]", "[a b]", "[\"a\"]", "1", "map[a:b]", "{}"} {
			for _, ps := range []string{"k", "s"} {
				raw := "/o?" + url.Values{ps: {v}}.Encode()
				w.AskExp(c, s, "unindexable", raw, w.Expect("/o?"+url.Values{"k": {v}}.Encode()))
			}
		}
	})
}
