package main

import (
	"fmt"
	"strings"
)

func init() {
	register(&Check{ID: "C03", Level: "exploration", Min: 400,
		Rule: "a case is one generated json document (random nesting, spelling, escapes, white space and separators, up to several read buffers long), or one nested property of it used as a filter, read by address or by listing and compared with the generated value; always non-trivial",
		Fn:   c03})
}

type leaf struct {
	path string
	val  any
}

// leaves lists the primitive values reachable by a dotted path.
func leaves(prefix string, v any, out *[]leaf) {
	switch t := v.(type) {
	case M:
		for _, k := range sortedKeys(t) {
			if k == "" || strings.Contains(k, ".") {
				continue
			}
			leaves(prefix+"."+k, t[k], out)
		}
	case A:
		for i, e := range t {
			leaves(fmt.Sprintf("%s.%d", prefix, i), e, out)
		}
	default:
		*out = append(*out, leaf{prefix, v})
	}
}

// Reading a json file gives the documents which were written.
func c03(c *C) {
	worlds := c.Q(48, 600)
	parallel(worlds, 6, func(wi int) {
		r := c.Rng("world", wi)
		w := NewWorld(c.dir("w%d", wi))
		n := []int{0, 1, 3, 50, 300, 1200}[wi%6]
		depth := []int{1, 3, 6}[r.Intn(3)]
		big := pick(r, 20, 300, 9000)
		huge := wi%12 == 2 || wi%12 == 9
		recs := []Rec{}
		// properties with the same nesting in every document, to filter on
		paths := []string{}
		for k := 0; k < 3; k++ {
			p := []string{"obj"}
			for x := r.Intn(11); x > 0; x-- {
				p = append(p, pick(r, "a", "é", "x y", "0", "obj", "deep", "id", "-1", "", "A", "00"))
			}
			paths = append(paths, "deep."+strings.Join(append(p, fmt.Sprintf("k%d", k)), "."))
		}
		for i := 0; i < n; i++ {
			rec := M{"id": float64(i)}
			for k := 0; k < r.Intn(5); k++ {
				rec[pick(r, "a", "b", "c", "é", "日本", "", "q\"uote", "with.dot", "new\nline", "ID")] = randJSON(r, depth)
			}
			if r.Intn(3) == 0 {
				rec["text"] = text(r, big, true)
			}
			deep := M{}
			for _, p := range paths {
				parts := strings.Split(p, ".")[1:]
				cur := deep
				for _, q := range parts[:len(parts)-1] {
					if cur[q] == nil {
						cur[q] = M{}
					}
					cur = cur[q].(M)
				}
				cur[parts[len(parts)-1]] = fmt.Sprintf("v%d", r.Intn(6))
			}
			deep["arr"] = A{A{fmt.Sprintf("x%d", r.Intn(4)), nil, true}, M{"k": fmt.Sprintf("y%d", r.Intn(4))}}
			deep["nest"] = A{A{nil, M{"b": A{true, 1.5, M{"c": A{M{"d": fmt.Sprintf("x%d", r.Intn(4))}}}}}}}
			if r.Intn(3) == 0 { // the whole way to a property is missing in the others
				deep["some"] = M{"a": M{"b": fmt.Sprintf("v%d", r.Intn(6))}}
			}
			rec["deep"] = deep
			if r.Intn(3) == 0 {
				list := A{}
				for k := r.Intn(3); k > 0; k-- {
					list = append(list, M{"k": A{fmt.Sprintf("x%d", r.Intn(4))}})
				}
				rec["some"] = M{"list": list}
			}
			if huge && i == n/2 || huge && i == n-1 {
				rec["huge"] = strings.Repeat(pick(r, "x", "日本", "{", "\\", "\"}"), 400000+r.Intn(1200000))
			}
			if r.Intn(40) == 0 {
				long := A{}
				for k := r.Intn(3000); k >= 0; k-- {
					long = append(long, pick[any](r, nil, 1.5, "", "x", true, M{"k": A{}}, A{}))
				}
				rec["long"] = long
			}
			if r.Intn(40) == 0 {
				var v any = "bottom"
				for k := 20 + r.Intn(250); k > 0; k-- {
					if r.Intn(2) == 0 {
						v = A{v}
					} else {
						v = M{"d": v}
					}
				}
				rec["tower"] = v
			}
			recs = append(recs, rec)
		}
		paths = append(paths, "deep.arr.0.0", "deep.arr.1.k", "deep.nest.0.1.b.2.c.0.d", "deep.some.a.b", "deep.none.a.0.b", "some.list.1.k.0", "some.list.-1.k", "none.1.k")
		w.JsonInput(r, "in", recs)
		ip := []IProp{{"id", ""}}
		ps := map[string]Param{"m.id": {"id", "m", "float"}, "n.id": {"id", "", "float"}}
		for i, p := range paths {
			ip = append(ip, IProp{p, ""})
			ps[fmt.Sprintf("m%d", i)] = Param{p, "m", ""}
			ps[fmt.Sprintf("n%d", i)] = Param{p, "", ""}
		}
		w.AddIndex(&Index{Name: "m", Kind: "map", Input: "in", Props: ip})
		w.AddOutput(&Output{Name: "one", Kind: "jsonObject", Input: "in", Params: map[string]Param{"id": {"id", "m", "float"}}}, "/one/{id}")
		w.AddOutput(&Output{Name: "all", Kind: "jsonArray", Input: "in", LimDefault: 300, Params: ps}, "/all")
		s := w.startOrFail(c, StartOpts{})
		if s == nil {
			return
		}
		defer s.Kill()
		step := 1 + r.Intn(60)
		for off := 0; off <= n; off += step {
			w.Ask(c, s, "json:list", fmt.Sprintf("/all?limit=%d&offset=%d", step, off))
			for i := off; i < off+step && i < n; i++ {
				c.Eval(fmt.Sprintf("%d|list|%d", wi, i))
			}
		}
		max := c.Q(60, 600)
		for _, i := range r.Perm(n) {
			if max--; max < 0 {
				break
			}
			w.Ask(c, s, "json:one", fmt.Sprintf("/one/%d", i))
			c.Eval(fmt.Sprintf("%d|one|%d", wi, i))
		}
		for q := 0; q < c.Q(16, 80); q++ {
			i := r.Intn(len(paths))
			v := fmt.Sprintf("%s%d", pick(r, "v", "v", "x", "y"), r.Intn(6))
			raw := fmt.Sprintf("/all?%s%d=%s", pick(r, "m", "n"), i, v)
			w.Ask(c, s, "json:path", raw)
			c.Eval(fmt.Sprintf("%d|%s", wi, raw))
		}
		c.Count("documents", int64(n))
		if wi < 4 && n > 0 {
			c.Sample(M{"documents": n, "depth": depth, "text_max": big, "first": clip(show(recs[0]))})
		}
	})
}
