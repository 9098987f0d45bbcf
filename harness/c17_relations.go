package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
)

func init() {
	register(&Check{ID: "C17", Level: "exploration", Min: 300,
		Rule: "a case is one record or page rendered with a generated tree of relationships (one or several matched properties, object or array, limit, sort, nesting up to three levels, any input format, any kind of index), compared with the join of the generated records; non-trivial when the tree attaches at least one record, or must attach none",
		Fn:   c17})
	register(&Check{ID: "C25", Level: "exploration", Min: 200,
		Rule: "a case is one parent record whose related records are sorted by one to four properties (text, integer, number, boolean, possibly missing) in mixed directions, with or without a limit; non-trivial when at least two related records are to be ordered",
		Fn:   c25})
}

func typeClass(kind, prop string) string {
	switch prop {
	case "id", "num":
		if kind == "json" {
			return "float"
		}
		return "int"
	case "price":
		return "float"
	case "flag":
		return "bool"
	}
	return "string"
}

func (w *World) randRel(r randT, parentKind string, kinds map[string]string, depth int) *Rel {
	names := sortedKeys(kinds)
	child := names[r.Intn(len(names))]
	rel := &Rel{Input: child, IsArray: r.Intn(3) > 0}
	used := map[string]bool{}
	add := func(p, q string) {
		if used[q] || typeClass(parentKind, p) != typeClass(kinds[child], q) {
			return
		}
		used[q] = true
		ix := pick(r, "", "m_"+child, "m_"+child, "s_"+child)
		if q == "cat" && r.Intn(3) == 0 {
			ix = pick(r, "x_"+child, "f_"+child)
		}
		if ix == "f_"+child {
			q = "match"
			if used["match"] {
				return
			}
			used["match"] = true
		}
		rel.Match = append(rel.Match, RelMatch{p, q, ix})
	}
	add("cat", "cat")
	if len(rel.Match) == 0 || r.Intn(2) == 0 {
		switch r.Intn(4) {
		case 0:
			add("id", "id")
		case 1:
			add("flag", "flag")
		case 2:
			add("id", "num")
		case 3:
			add("price", "price")
		}
	}
	if r.Intn(6) == 0 && len(rel.Match) > 1 {
		rel.Match = rel.Match[1:]
	}
	if rel.IsArray {
		rel.Limit = pick(r, 0, 0, 1, 2, 5, 100)
		if depth > 1 && rel.Limit == 0 {
			rel.Limit = 4
		}
		if r.Intn(2) == 0 {
			for _, p := range []string{"cat", "num", "price", "flag", "name"} {
				if r.Intn(3) == 0 {
					rel.Sort = append(rel.Sort, Sort{p, r.Intn(2) == 0, r.Intn(2) == 0})
				}
			}
			rel.Sort = append(rel.Sort, Sort{"id", r.Intn(2) == 0, r.Intn(2) == 0})
		}
	}
	if depth > 1 {
		for k := 0; k < r.Intn(3); k++ {
			if rel.Rels == nil {
				rel.Rels = map[string]*Rel{}
			}
			rel.Rels[fmt.Sprintf("sub %d", k)] = w.randRel(r, kinds[child], kinds, depth-1)
		}
	}
	return rel
}

// Relationships attach exactly the matching records.
func c17(c *C) {
	c.phase("values", func() { c17Values(c) })
	worlds := c.Q(54, 600)
	parallel(worlds, 4, func(wi int) {
		r := c.Rng("world", wi)
		w := NewWorld(c.dir("w%d", wi))
		kinds := map[string]string{"a": pick(r, "csv", "json", "xml"), "b": pick(r, "csv", "json"), "p": pick(r, "csv", "xml")}
		w.Holes = pick(r, 0, 0, 0.1, 0.4)
		for _, n := range sortedKeys(kinds) {
			w.anyInput(r, n, kinds[n], pick(r, 1, 15, 40), 12)
			props := []IProp{{"id", ""}, {"cat", ""}, {"num", ""}, {"price", ""}, {"flag", ""}, {"name", ""}}
			w.AddIndex(&Index{Name: "m_" + n, Kind: "map", Input: n, Props: props})
			w.AddIndex(&Index{Name: "s_" + n, Kind: "sqlite", Input: n, Props: props, Path: pick(r, ":memory:", "db.db")})
			w.AddIndex(&Index{Name: "x_" + n, Kind: "wildcard", Input: n, Props: []IProp{{"cat", ""}}, Path: n + ".idx"})
			w.AddIndex(&Index{Name: "f_" + n, Kind: "fts5", Input: n, Props: []IProp{{"cat", ""}}, Path: "db.db",
				FtsMatch: func(rec Rec, q string) (bool, error) { return rec["cat"] == q, nil }})
		}
		type route struct{ arr, one, in string }
		routes := []route{}
		for k := 0; k < 5; k++ {
			in := pick(r, "a", "b", "p")
			rels := map[string]*Rel{}
			for j := 0; j <= r.Intn(2); j++ {
				rels[fmt.Sprintf("rel%d", j)] = w.randRel(r, kinds[in], kinds, 3)
			}
			ar, on := fmt.Sprintf("/arr%d", k), fmt.Sprintf("/one%d/", k)
			w.AddOutput(&Output{Name: ar[1:], Kind: "jsonArray", Input: in, LimDefault: 5, Rels: rels}, ar)
			w.AddOutput(&Output{Name: fmt.Sprintf("one%d", k), Kind: "jsonObject", Input: in, Rels: rels,
				Params: map[string]Param{"id": {"id", "m_" + in, numParser(kinds[in])}}}, on+"{id}")
			routes = append(routes, route{ar, on, in})
		}
		s := w.startOrFail(c, StartOpts{})
		if s == nil {
			return
		}
		defer s.Kill()
		parallel(c.Q(120, 600), 4, func(q int) {
			r := c.Rng("q", wi*100000+q)
			rt := routes[r.Intn(len(routes))]
			n := len(w.Inputs[rt.in].Recs)
			raw := fmt.Sprintf("%s%d", rt.one, r.Intn(n+1))
			if q%4 == 0 {
				raw = fmt.Sprintf("%s?limit=%d&offset=%d", rt.arr, 1+r.Intn(6), r.Intn(n+1))
			}
			e := w.Expect(raw)
			c.Count("attached_records", int64(countRecs(e.Body)))
			w.AskExp(c, s, "relationship", raw, e)
			key := ""
			if e.Kind == "ok" {
				key = fmt.Sprintf("%d|%s", wi, raw)
			}
			c.Eval(key)
			if q == 1 && wi < 4 {
				c.Sample(M{"request": raw, "relationships": w.Outputs[rt.arr[1:]].conf()["relationships"]})
			}
		})
	})
}

func countRecs(v any) int {
	n := 0
	switch t := v.(type) {
	case M:
		n++
		for _, e := range t {
			n += countRecs(e)
		}
	case A:
		for _, e := range t {
			n += countRecs(e)
		}
	}
	return n
}

// Sorted relationships are in the order of their properties.
func c25(c *C) {
	c.phase("ties", func() { c25Ties(c) })
	worlds := c.Q(84, 900)
	parallel(worlds, 4, func(wi int) {
		r := c.Rng("world", wi)
		w := NewWorld(c.dir("w%d", wi))
		np := 8
		parents := []Rec{}
		for i := 0; i < np; i++ {
			parents = append(parents, M{"k": fmt.Sprintf("k%d", i)})
		}
		w.JsonInput(r, "par", parents)
		n := pick(r, 3, 60, 300, 800)
		kind := pick(r, "csv", "json")
		strs := []string{"a", "A", "b", "", "é", "z", "日本", " ", "10", "9", "a b", "ab", "_"}
		extreme := kind == "csv" && wi%3 > 0
		// few values, so that the next properties decide; k and id are never missing
		fields := []Field{fID(), fKey("k", "k", np), fInt("i", 7), fFloat("f", 6), fBool("b"),
			{"s", "string", func(r randT, i int) (string, any) { s := strs[r.Intn(len(strs))]; return s, s }},
			{"big", "integer", func(r randT, i int) (string, any) {
				v := int64(r.Intn(1000000))
				if extreme {
					v = pick(r, int64(math.MaxInt64), math.MinInt64, 0, -1, 1, math.MaxInt64-1, math.MinInt64+1, 1<<53, 1<<53+1, 1<<32, -(1 << 62), 1<<62)
				}
				return strconv.FormatInt(v, 10), v
			}},
			{"wide", "float", func(r randT, i int) (string, any) {
				v := pick(r, 0.0, 1e308, -1e308, 5e-324, -5e-324, 1e16, 1e16+2, 0.1, 0.30000000000000004, 0.3, -0.1, math.MaxFloat64, -math.MaxFloat64)
				return strconv.FormatFloat(v, 'g', -1, 64), v
			}},
			{"long", "string", func(r randT, i int) (string, any) {
				s := strings.Repeat(longPrefix, r.Intn(3)) + text(r, 3, true)
				return s, s
			}}}
		if kind == "csv" {
			w.CsvInput(r, "ch", n, fields, CsvOpts{Ragged: pick(r, 0, 0.4), RaggedKeep: 2})
		} else {
			missing := r.Intn(2) == 0
			recs := []Rec{}
			for i := 0; i < n; i++ {
				rec := jsonRec(r, fields, i)
				for _, p := range []string{"i", "f", "b", "s", "big", "wide", "long"} {
					if missing && r.Intn(6) == 0 {
						if r.Intn(2) == 0 {
							delete(rec, p)
						} else {
							rec[p] = nil
						}
					}
				}
				rec["n"] = M{"v": rec["s"]}
				recs = append(recs, rec)
			}
			w.JsonInput(r, "ch", recs)
		}
		w.AddIndex(&Index{Name: "m", Kind: "map", Input: "ch", Props: []IProp{{"k", ""}}})
		sorts := c.Q(8, 24)
		for k := 0; k < sorts; k++ {
			rel := &Rel{Input: "ch", IsArray: true, Match: []RelMatch{{"k", "k", "m"}}, Limit: pick(r, 0, 0, 1, 3, 10)}
			props := []string{"i", "f", "b", "s", "big", "wide", "long"}
			if kind == "json" {
				props = append(props, "n.v")
			}
			r.Shuffle(len(props), func(i, j int) { props[i], props[j] = props[j], props[i] })
			for _, p := range props[:r.Intn(4)] {
				rel.Sort = append(rel.Sort, Sort{p, r.Intn(2) == 0, r.Intn(2) == 0})
			}
			rel.Sort = append(rel.Sort, Sort{"id", r.Intn(2) == 0, r.Intn(2) == 0})
			w.AddOutput(&Output{Name: fmt.Sprintf("o%d", k), Kind: "jsonObject", Input: "par", Params: map[string]Param{"k": {"k", "", ""}},
				Rels: map[string]*Rel{"ch": rel}}, fmt.Sprintf("/o%d/{k}", k))
			if wi < 5 && k == 0 {
				c.Sample(M{"kind": kind, "children": n, "sort": rel.conf()["sort"], "limit": rel.Limit})
			}
		}
		s := w.startOrFail(c, StartOpts{})
		if s == nil {
			return
		}
		defer s.Kill()
		parallel(sorts*np, 4, func(q int) {
			raw := fmt.Sprintf("/o%d/k%d", q/np, q%np)
			e := w.Expect(raw)
			key := ""
			if b, ok := e.Body.(M); ok && len(b["ch"].(A)) > 1 {
				key = fmt.Sprintf("%d|%s", wi, raw)
				c.Count("ordered_records", int64(len(b["ch"].(A))))
			}
			w.AskExp(c, s, "sort", raw, e)
			c.Eval(key)
		})
	})
}

// Matches on values which are easily confused.
func c17Values(c *C) {
	long := strings.Repeat("common ", 50)
	texts := []any{"x", "X", "x ", " x", "\u00e9", "e\u0301", "\u00c9", long + "1", long + "2", long, "", "null", "1", "01", "1.0", "true", "\x01", "\u65e5\u672c", "%", "_", "'", "\"", "a\nb", "a*"}
	nums := []any{0.0, 1.0, 1.5, -1.0, 1e15, 1e15 + 1, 1234567890123457.0, 9007199254740991.0, 9007199254740990.0, 0.1, 0.1 + 0.2, 0.3, 16777216.0, 16777217.0, 123456789.125, 4294967297.0, 1e300, 5e-324}
	mix := []any{"1", 1.0, true, "true", "0", 0.0, false, "", "1.5", 1.5, "x", 1e15, "1e+15", "1e15"}
	parallel(c.Q(24, 240), 4, func(wi int) {
		r := c.Rng("values", wi)
		w := NewWorld(c.dir("v%d", wi))
		fields := map[string][]any{"t": texts, "u": texts, "n": nums, "m": mix, "b": {true, false}}
		some := map[string][]any{} // few values: most of the parents have relatives
		for _, f := range sortedKeys(fields) {
			for k := 0; k < 7; k++ {
				some[f] = append(some[f], fields[f][r.Intn(len(fields[f]))])
			}
		}
		rec := func(i int, child bool) Rec {
			out := Rec{"id": float64(i)}
			sub := M{}
			for _, f := range sortedKeys(fields) {
				out[f] = some[f][r.Intn(len(some[f]))]
				sub[f] = some[f][r.Intn(len(some[f]))]
				if r.Intn(12) == 0 {
					out[f] = nil
				}
				if child && r.Intn(12) == 0 {
					delete(out, f)
				}
			}
			if child {
				out["sub"] = sub
				out["list"] = A{sub["t"], sub["n"], M{"t": out["u"]}}
			}
			return out
		}
		as, bs := []Rec{}, []Rec{}
		for i := 0; i < 40; i++ {
			as = append(as, rec(i, false))
		}
		for i := 0; i < pick(r, 3, 40, 120); i++ {
			bs = append(bs, rec(i, true))
		}
		w.JsonInput(r, "a", as)
		w.JsonInput(r, "b", bs)
		ip := []IProp{}
		paths := map[string][]string{"t": {"t", "u", "sub.t", "sub.u", "list.0", "list.2.t"}, "u": {"u", "sub.t"}, "n": {"n", "sub.n", "list.1"}, "m": {"m", "sub.m"}, "b": {"b", "sub.b"}}
		seen := map[string]bool{}
		for _, f := range sortedKeys(paths) {
			for _, p := range paths[f] {
				if !seen[p] {
					ip = append(ip, IProp{p, ""})
				}
				seen[p] = true
			}
		}
		w.AddIndex(&Index{Name: "map", Kind: "map", Input: "b", Props: ip})
		w.AddIndex(&Index{Name: "sq", Kind: "sqlite", Input: "b", Props: ip, Path: pick(r, ":memory:", "sq.db")})
		outs := 12
		for k := 0; k < outs; k++ {
			rel := &Rel{Input: "b", IsArray: r.Intn(3) > 0}
			used := map[string]bool{}
			for j := pick(r, 1, 1, 2, 3); j > 0; j-- {
				f := pick(r, "t", "t", "u", "n", "n", "m", "b")
				q := pick(r, paths[f]...)
				if !used[q] {
					rel.Match = append(rel.Match, RelMatch{f, q, pick(r, "", "map", "sq")})
				}
				used[q] = true
			}
			if rel.IsArray {
				rel.Limit = pick(r, 0, 0, 1, 3)
			}
			w.AddOutput(&Output{Name: fmt.Sprintf("o%d", k), Kind: "jsonArray", Input: "a", LimDefault: 40, Rels: map[string]*Rel{"r": rel}}, fmt.Sprintf("/%d", k))
		}
		s := w.startOrFail(c, StartOpts{})
		if s == nil {
			return
		}
		defer s.Kill()
		for k := 0; k < outs; k++ {
			for i := 0; i < len(as); i += 4 {
				raw := fmt.Sprintf("/%d?offset=%d&limit=4", k, i)
				e := w.Expect(raw)
				c.Count("attached_by_value", int64(countRecs(e.Body)-4))
				w.AskExp(c, s, "values", raw, e)
				c.Eval(fmt.Sprintf("values|%d|%s", wi, raw))
			}
		}
	})
}

// Records which the sorted properties do not distinguish, or which cannot be
// compared: they are in any order, and all there.
func c25Ties(c *C) {
	worlds := c.Q(16, 160)
	parallel(worlds, 4, func(wi int) {
		r := c.Rng("ties", wi)
		w := NewWorld(c.dir("t%d", wi))
		np := 4
		parents := []Rec{}
		for i := 0; i < np; i++ {
			parents = append(parents, M{"k": fmt.Sprintf("k%d", i)})
		}
		w.JsonInput(r, "par", parents)
		n := pick(r, 4, 40, 200, 600)
		recs := []Rec{}
		for i := 0; i < n; i++ {
			rec := Rec{"id": float64(i), "k": fmt.Sprintf("k%d", r.Intn(np)), "a": float64(r.Intn(3)), "b": pick(r, "x", "y", "z"), "c": r.Intn(2) == 0,
				"mix": pick[any](r, "x", "1", 1.0, 2.0, true, false, nil, "y"), "un": pick[any](r, A{}, M{}, "x", 1.0, nil, A{1.0}, M{"z": 1.0}),
				"deep": pick[any](r, M{"v": float64(r.Intn(3))}, M{}, "text", 1.0, nil)}
			for _, p := range []string{"a", "b", "c"} {
				if r.Intn(10) == 0 {
					rec[p] = nil
				}
			}
			recs = append(recs, rec)
		}
		w.JsonInput(r, "ch", recs)
		w.AddIndex(&Index{Name: "m", Kind: "map", Input: "ch", Props: []IProp{{"k", ""}}})
		rels := []*Rel{}
		for k := 0; k < 12; k++ {
			rel := &Rel{Input: "ch", IsArray: true, Match: []RelMatch{{"k", "k", pick(r, "", "m")}}, Limit: pick(r, 0, 0, 1, 5, 30)}
			props := []string{"a", "b", "c"}
			r.Shuffle(3, func(i, j int) { props[i], props[j] = props[j], props[i] })
			for _, p := range props[:1+r.Intn(3)] {
				rel.Sort = append(rel.Sort, Sort{p, r.Intn(2) == 0, r.Intn(2) == 0})
			}
			if k%3 == 2 {
				rel.Sort = append(rel.Sort[:r.Intn(len(rel.Sort))], Sort{pick(r, "mix", "un", "deep.v", "none", "deep.v.w"), r.Intn(2) == 0, r.Intn(2) == 0})
			}
			rels = append(rels, rel)
			w.AddOutput(&Output{Name: fmt.Sprintf("o%d", k), Kind: "jsonObject", Input: "par", Params: map[string]Param{"k": {"k", "", ""}}, Rels: map[string]*Rel{"ch": rel}}, fmt.Sprintf("/o%d/{k}", k))
		}
		s := w.startOrFail(c, StartOpts{})
		if s == nil {
			return
		}
		defer s.Kill()
		for q := 0; q < 12*np; q++ {
			rel, k := rels[q/np], fmt.Sprintf("k%d", q%np)
			raw := fmt.Sprintf("/o%d/%s", q/np, k)
			resp := s.Get(raw)
			var want []Rec
			for _, rec := range recs {
				if rec["k"] == k {
					want = append(want, rec)
				}
			}
			odd := false
			for _, so := range rel.Sort {
				odd = odd || len(so.Prop) > 1
			}
			c.Eval(fmt.Sprintf("ties|%d|%s", wi, raw))
			fail := func(why string) {
				c.Fail("sort:ties", M{"request": raw, "sort": rel.conf()["sort"], "limit": rel.Limit, "records": len(want), "why": why, "status": resp.Status, "got": tail(string(resp.Body), 400), "log": tail(s.Log.String(), 500)}, s.Cfg)
			}
			if odd && resp.Err == nil && resp.Status >= 500 {
				continue
			}
			v, err := decodeJSON(resp.Body)
			m, _ := v.(map[string]any)
			l, isList := m["ch"].([]any)
			if resp.Status != 200 || err != nil || !isList {
				fail("no list")
				continue
			}
			expect := len(want)
			if rel.Limit > 0 && rel.Limit < expect {
				expect = rel.Limit
			}
			if len(l) != expect {
				fail(fmt.Sprintf("%d related records, %d expected", len(l), expect))
				continue
			}
			// the sorted values are those of a sorted list, each record is there once and unchanged
			less := func(x, y Rec) bool {
				for _, so := range rel.Sort {
					if d := cmpVal(x[so.Prop], y[so.Prop]); d != 0 {
						return (d < 0) != so.Desc
					}
				}
				return false
			}
			if !odd {
				sort.SliceStable(want, func(i, j int) bool { return less(want[i], want[j]) })
			}
			seen := map[string]bool{}
			for i, e := range l {
				id := fmt.Sprint(e.(map[string]any)["id"])
				n, err := strconv.Atoi(id)
				if err != nil || n < 0 || n >= len(recs) || seen[id] || recs[n]["k"] != k {
					fail("record " + id + " is not one of them, or is twice there")
					break
				}
				seen[id] = true
				if d := diff("", recs[n], e); d != "" {
					fail(d)
					break
				}
				if !odd && (less(recs[n], want[i]) || less(want[i], recs[n])) {
					fail(fmt.Sprintf("record %s cannot be at position %d", id, i))
					break
				}
			}
			c.Count("tied_records", int64(len(l)))
		}
	})
}
