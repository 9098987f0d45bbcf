package main

import (
	"fmt"
	"math/rand"
	"net/url"
	"strings"
)

// mixWorld: one input of the given kind, with every kind of index on it.
type mixWorld struct {
	*World
	in     *Input
	kind   string
	params map[string]Param
	names  []string
}

func (c *C) mixWorld(r randT, dir, kind string, n, textMax int) *mixWorld {
	w := &mixWorld{World: NewWorld(dir), kind: kind, params: map[string]Param{}}
	// the properties of the indexes come in any order, which does not depend on the data
	sr := rand.New(rand.NewSource(r.Int63()))
	shuffled := func(p ...string) []IProp {
		sr.Shuffle(len(p), func(i, j int) { p[i], p[j] = p[j], p[i] })
		out := []IProp{}
		for _, n := range p {
			out = append(out, IProp{n, ""})
		}
		return out
	}
	if sr.Intn(4) == 0 && kind != "fixed" {
		w.Pad = 6000
	}
	if sr.Intn(6) == 0 && kind != "fixed" {
		w.Gap = pick(sr, 4096, 70000, 300000)
	}
	w.in = w.anyInput(r, "in", kind, n, textMax)
	w.AddIndex(&Index{Name: "m", Kind: "map", Input: "in", Props: shuffled("id", "cat", "num", "price", "flag", "name", "tags")})
	w.AddIndex(&Index{Name: "s", Kind: "sqlite", Input: "in", Props: shuffled("id", "cat", "num", "price", "flag", "name"), Path: "shared.db"})
	w.AddIndex(&Index{Name: "sm", Kind: "sqlite", Input: "in", Props: shuffled("id", "cat", "num", "price", "flag", "name"), Path: ":memory:"})
	w.AddIndex(&Index{Name: "x", Kind: "wildcard", Input: "in", Props: shuffled("cat", "name"), Path: "x.idx"})
	w.AddIndex(&Index{Name: "y", Kind: "wildcard", Input: "in", Props: []IProp{{"name", ""}}, Path: "y.idx", IgnoreCase: true})
	f := &Index{Name: "f", Kind: "fts5", Input: "in", Props: []IProp{{"cat", ""}}, Path: "shared.db"}
	f.FtsMatch = func(rec Rec, q string) (bool, error) {
		for _, t := range strings.Split(q, " OR ") {
			if v, ok := rec["cat"].(string); ok && v == t {
				return true, nil
			}
		}
		return false, nil
	}
	w.AddIndex(f)
	pars := map[string]string{"id": numParser(kind), "num": numParser(kind), "price": "float", "flag": "boolean"}
	for _, ix := range []string{"default", "m", "s", "sm", "x", "y"} {
		for _, p := range []string{"id", "cat", "num", "price", "flag", "name", "tags"} {
			if !w.Indexes[ix].handles(p) || ix == "default" && p == "tags" {
				continue
			}
			w.params[ix+"."+p] = Param{p, ix, pars[p]}
		}
	}
	w.params["f.match"] = Param{"match", "f", ""}
	// two parameters on the same property of the same index
	w.params["x.name2"] = Param{"name", "x", ""}
	w.params["m.tags2"] = Param{"tags", "m", ""}
	w.params["s.cat2"] = Param{"cat", "s", ""}
	w.params["m.tags3"] = Param{"tags", "m", ""}
	w.params["x.name3"] = Param{"name", "x", ""}
	w.names = sortedKeys(w.params)
	return w
}

// filter gives a raw value for a parameter, usually matching the base record.
func (w *mixWorld) filter(r randT, name string, base Rec) string {
	p := w.params[name]
	ix := w.Indexes[p.Index]
	if r.Intn(5) == 0 && len(w.in.Recs) > 0 {
		base = w.in.Recs[r.Intn(len(w.in.Recs))]
	}
	switch ix.Kind {
	case "fts5":
		s := ""
		if base != nil {
			s, _ = base["cat"].(string)
		}
		if r.Intn(2) == 0 {
			s += fmt.Sprintf(" OR c%d", r.Intn(8))
		}
		if s == "" {
			return "c0"
		}
		return strings.TrimPrefix(s, " OR ")
	case "wildcard":
		if base != nil {
			if s, _ := substringOf(r, base[p.Prop]); s != "" {
				if rs := []rune(s); len(rs) > 60 {
					s = string(rs[:60])
				}
				return s
			}
		}
		return "zz"
	}
	raw, _ := filterFor(r, w.in, base, p.Prop, p.Parser)
	return raw
}

// query picks k parameters, on different indexes when possible.
func (w *mixWorld) query(r randT, k int) (url.Values, int) {
	var base Rec
	if len(w.in.Recs) > 0 {
		base = w.in.Recs[r.Intn(len(w.in.Recs))]
	}
	vals := url.Values{}
	used := map[string]bool{}
	if k > 2 && r.Intn(4) == 0 { // several filters on one property
		for _, n := range w.names {
			if p := "x.name"; strings.HasPrefix(n, p) || strings.HasPrefix(n, "m.tags") && r.Intn(4) > 0 {
				used[w.params[n].Index] = true
				vals.Set(n, w.filter(r, n, base))
			}
		}
	}
	for i := 0; i < k; i++ {
		n := w.names[r.Intn(len(w.names))]
		if used[w.params[n].Index] && r.Intn(3) > 0 {
			continue
		}
		used[w.params[n].Index] = true
		vals.Set(n, w.filter(r, n, base))
	}
	return vals, len(used)
}
