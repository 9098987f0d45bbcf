package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"
)

func init() {
	register(&Check{ID: "C04", Level: "exploration", Min: 150,
		Rule: "a case is one XML data set and one request reading records of it (whole or by a value reached through a configured path); non-trivial when at least one record is expected; judged against the values the generator wrote",
		Fn:   c04})
}

// The processing instructions inside the root element are no part of the
// records and do not hide any of them.
func c04Instructions(c *C) {
	for k, d := range []struct{ name, path, doc string }{
		{"between", "/root/rec", `<root><rec id="1"><v>a</v></rec><?pi y?><rec id="2"><v>b</v></rec><rec id="3"><v>c</v></rec></root>`},
		{"between-any", "//rec", `<root><rec id="1"><v>a</v></rec><?pi y?><rec id="2"><v>b</v></rec><rec id="3"><v>c</v></rec></root>`},
		{"before", "/root/rec", `<root><?pi y?><rec id="1"><v>a</v></rec><rec id="2"><v>b</v></rec><rec id="3"><v>c</v></rec></root>`},
		{"inside", "/root/rec", `<root><rec id="1"><v>a<?pi y?></v></rec><rec id="2"><v>b</v></rec><rec id="3"><v>c</v></rec></root>`},
		{"inside-grouped", "/root/grp/rec", `<root><grp><rec id="1"><v>a<?pi y?></v></rec></grp><grp><rec id="2"><v>b</v></rec><rec id="3"><v>c</v></rec></grp></root>`},
		{"between-groups", "/root/grp/rec", `<root><grp><rec id="1"><v>a</v></rec></grp><?pi y?><grp><rec id="2"><v>b</v></rec><rec id="3"><v>c</v></rec></grp></root>`},
		{"between-grouped", "/root/grp/rec", `<root><grp><rec id="1"><v>a</v></rec><?pi y?></grp><grp><rec id="2"><v>b</v></rec><rec id="3"><v>c</v></rec></grp></root>`},
		{"between-others", "/root/rec", `<root><rec id="1"><v>a</v></rec><?pi y?><other/><rec id="2"><v>b</v></rec><?pi y?><other/><rec id="3"><v>c</v></rec></root>`},
		{"after-other", "/root/rec", `<root><rec id="1"><v>a</v></rec><other/><?pi y?><rec id="2"><v>b</v></rec><rec id="3"><v>c</v></rec></root>`},
		{"after-comment", "/root/rec", `<root><rec id="1"><v>a</v></rec><!-- x --><?pi y?>
<rec id="2"><v>b</v></rec><?pi y?><?pi z?>
 <rec id="3"><v>c</v></rec></root>`},
		{"inside-after", "/root/rec", `<root><rec id="1"><w/><?pi y?><v>a</v></rec><rec id="2"><w>1</w><?pi y?><v>b</v></rec><rec id="3"><v>c</v></rec></root>`},
		{"before-value", "/root/rec", `<root><rec id="1"><?pi y?><v>a</v></rec><rec id="2"><v>b</v></rec><rec id="3"><v>c</v></rec></root>`},
		{"prolog", "/root/rec", `<?xml version="1.0"?><?pi y?><?pi z?><root><rec id="1"><v>a</v></rec><rec id="2"><v>b</v></rec><rec id="3"><v>c</v></rec></root>`},
		{"epilog", "/root/rec", `<root><rec id="1"><v>a</v></rec><rec id="2"><v>b</v></rec><rec id="3"><v>c</v></rec></root><?pi y?>`},
	} {
		w := NewWorld(c.dir("instr%d", k))
		must(os.WriteFile(filepath.Join(w.Dir, "x.xml"), []byte(d.doc), 0644))
		recs := []Rec{{"id": "1", "v": "a"}, {"id": "2", "v": "b"}, {"id": "3", "v": "c"}}
		w.AddInput(&Input{Name: "x", Kind: "xml", File: "x.xml", Recs: recs, Strict: true, Conf: M{"recordXpath": d.path, "properties": A{
			M{"name": "id", "xpath": "string(@id)"}, M{"name": "v", "xpath": "string(v)"}}}})
		w.AddOutput(&Output{Name: "all", Kind: "jsonArray", Input: "x", LimDefault: 1000}, "/all")
		s, err := w.Start(c, StartOpts{})
		seen := ""
		if err != nil {
			seen = "refused"
		} else {
			r := s.Get("/all")
			var got []struct{ Id, V string }
			if r.Status != 200 || json.Unmarshal(r.Body, &got) != nil {
				seen = fmt.Sprintf("status-%d", r.Status)
			}
			for _, g := range got {
				seen += g.Id + g.V
			}
			s.Kill()
		}
		c.Eval("instructions:" + d.name)
		if seen != "1a2b3c" {
			c.Fail("instructions:"+d.name+":"+seen, M{"document": d.doc, "recordXpath": d.path, "expected": "1a2b3c", "got": seen}, s.Cfg, filepath.Join(w.Dir, "x.xml"))
		}
	}
}

// A property which its record does not have in the form of the configuration
// is refused, as a whole or by a filter on it: no other value replaces it.
func c04Unsuited(c *C) {
	obj := func(xp string, props ...any) M {
		return M{"name": "p", "type": "object", "xpath": xp, "properties": A(props)}
	}
	v := M{"name": "v", "xpath": "string(v)", "parser": "integer"}
	for k, d := range []struct {
		name, xml string
		prop      M
		path      string
		want      string // a JSON value, or empty for an error
	}{
		{"object-one", `<o><v>1</v></o>`, obj("o", v), "p.v", `{"v":1}`},
		{"object-many", `<o><v>1</v></o><o><v>2</v></o>`, obj("o", v), "p.v", ""},
		{"object-many-same", `<o><v>1</v></o><o><v>1</v></o>`, obj("o", v), "p.v", ""},
		{"object-none", `<x/>`, obj("o", v), "p.v", `null`},
		{"object-deep-many", `<x><o><v>1</v></o><o/></x>`, obj("x", M{"name": "o", "type": "object", "xpath": "o", "properties": A{v}}), "p.o.v", ""},
		{"object-in-array-many", `<x><o><v>1</v></o><o/></x>`, M{"name": "p", "type": "array", "xpath": "x", "items": obj("o", v)}, "p.0.v", ""},
		{"object-in-array", `<x><o><v>1</v></o></x><x/>`, M{"name": "p", "type": "array", "xpath": "x", "items": obj("o", v)}, "p.0.v", `[{"v":1},null]`},
		{"object-attribute", `<o v="1"/>`, obj("o", M{"name": "v", "xpath": "number(@v)", "parser": "integer"}), "p.v", `{"v":1}`},
		{"number-huge", `<v>1` + strings.Repeat("0", 30) + `</v>`, M{"name": "p", "xpath": "number(v)", "parser": "integer"}, "p", ""},
		{"number-low", `<v>-1` + strings.Repeat("0", 30) + `</v>`, M{"name": "p", "xpath": "number(v)", "parser": "integer"}, "p", ""},
		{"number-ok", `<v>12</v>`, M{"name": "p", "xpath": "number(v)", "parser": "integer"}, "p", `12`},
		{"number-as-string", `<v>12</v>`, M{"name": "p", "xpath": "number(v)", "parser": "string"}, "p", ""},
		{"number-as-boolean", `<v>1</v>`, M{"name": "p", "xpath": "number(v)", "parser": "boolean"}, "p", ""},
		{"number-as-json", `<v>1</v>`, M{"name": "p", "xpath": "number(v)", "parser": "json"}, "p", ""},
		{"boolean-ok", `<v>1</v>`, M{"name": "p", "xpath": "v = '1'", "parser": "boolean"}, "p", `true`},
		{"boolean-as-integer", `<v>1</v>`, M{"name": "p", "xpath": "v = '1'", "parser": "integer"}, "p", ""},
		{"boolean-as-string", `<v>1</v>`, M{"name": "p", "xpath": "v = '1'", "parser": "string"}, "p", ""},
		{"boolean-as-float", `<v>1</v>`, M{"name": "p", "xpath": "v = '1'", "parser": "float"}, "p", ""},
		{"nodes-as-integer", `<v>1</v>`, M{"name": "p", "xpath": "v", "parser": "integer"}, "p", ""},
		{"nodes-as-float", `<v>1</v>`, M{"name": "p", "xpath": "v", "parser": "float"}, "p", ""},
		{"nodes-as-boolean", `<v>1</v>`, M{"name": "p", "xpath": "v", "parser": "boolean"}, "p", ""},
		{"nodes-as-string", `<v k="2">1</v>`, M{"name": "p", "xpath": "v", "parser": "string"}, "p", `"<v k=\"2\">1</v>"`},
		{"nodes-many-as-string", `<v>1</v><w/><v>2</v>`, M{"name": "p", "xpath": "v", "parser": "string"}, "p", `"<v>1</v><v>2</v>"`},
		{"nodes-none-as-string", `<w/>`, M{"name": "p", "xpath": "v", "parser": "string"}, "p", `""`},
		{"text-as-integer", `<v>1x</v>`, M{"name": "p", "xpath": "string(v)", "parser": "integer"}, "p", ""},
		{"missing-as-integer", `<w/>`, M{"name": "p", "xpath": "string(v)", "parser": "integer"}, "p", ""},
		{"text-as-boolean", `<v>maybe</v>`, M{"name": "p", "xpath": "string(v)", "parser": "boolean"}, "p", ""},
		{"text-as-json", `<v>{"a": [1, "x"]}</v>`, M{"name": "p", "xpath": "string(v)", "parser": "json"}, "p", `{"a":[1,"x"]}`},
		{"text-as-bad-json", `<v>{"a": </v>`, M{"name": "p", "xpath": "string(v)", "parser": "json"}, "p", ""},
		{"array-item-bad", `<v>1</v><v>x</v>`, M{"name": "p", "type": "array", "xpath": "v", "items": M{"xpath": "string(.)", "parser": "integer"}}, "", ""},
		{"array-empty", `<w/>`, M{"name": "p", "type": "array", "xpath": "v", "items": M{"xpath": "string(.)", "parser": "integer"}}, "", `[]`},
	} {
		w := NewWorld(c.dir("unsuited%d", k))
		doc := `<root><rec id="0">` + d.xml + `</rec></root>`
		must(os.WriteFile(filepath.Join(w.Dir, "x.xml"), []byte(doc), 0644))
		w.AddInput(&Input{Name: "x", Kind: "xml", File: "x.xml", Strict: true, Conf: M{"recordXpath": "//rec", "properties": A{
			M{"name": "id", "xpath": "string(@id)"}, d.prop}}})
		w.AddOutput(&Output{Name: "one", Kind: "jsonObject", Input: "x", Params: map[string]Param{"id": {"id", "", ""}}}, "/one/{id}")
		if d.path != "" {
			w.AddOutput(&Output{Name: "f", Kind: "jsonArray", Input: "x", LimDefault: 10, Params: map[string]Param{"v": {d.path, "", ""}}}, "/f")
		}
		s, err := w.Start(c, StartOpts{})
		if err != nil {
			c.Fail("unsuited:"+d.name, M{"document": doc, "property": d.prop, "error": err.Error()}, s.Cfg, filepath.Join(w.Dir, "x.xml"))
			continue
		}
		r := s.Get("/one/0")
		bad := ""
		switch {
		case d.want == "" && (r.Status < 500 || r.Status > 599):
			bad = "a value"
		case d.want != "" && (r.Status != 200 || strings.TrimSpace(string(r.Body)) != `{"id":"0","p":`+d.want+`}`):
			var got struct{ P any }
			var want any
			must(json.Unmarshal([]byte(d.want), &want))
			if r.Status != 200 || json.Unmarshal(r.Body, &got) != nil || !reflect.DeepEqual(got.P, want) {
				bad = "another value"
			}
		}
		if bad == "" && d.path != "" && d.want == "" {
			if f := s.Get("/f?v=no-such-value"); f.Status < 500 || f.Status > 599 {
				bad, r = "a filter on it", f
			}
		}
		if bad != "" {
			c.Fail("unsuited:"+d.name, M{"document": doc, "property": d.prop, "expected": d.want, "status": r.Status, "got": tail(string(r.Body), 300), "why": bad}, s.Cfg, filepath.Join(w.Dir, "x.xml"))
		}
		s.Kill()
		c.Eval("unsuited:" + d.name)
	}
}

func c04(c *C) {
	c04Instructions(c)
	c04Unsuited(c)
	worlds := c.Q(150, 1500)
	parallel(worlds, 4, func(wi int) {
		r := c.Rng("world", wi)
		w := NewWorld(filepath.Join(c.Work, fmt.Sprintf("w%d", wi)))
		n := []int{1, 2, 40, 150, 0, 300}[wi%6]
		o := XmlOpts{RecordPath: "//rec", Wrap: []string{"root"}, Noise: r.Intn(2) == 0, Compact: r.Intn(2) == 0}
		switch wi % 3 {
		case 1:
			o.RecordPath, o.Wrap = "/root/rec", []string{"root"}
		case 2:
			o.RecordPath, o.Wrap = "/root/list/rec", []string{"root", "list"}
		}
		if wi%4 == 3 {
			o.BigEvery = 17
		}
		o.Latin1 = wi%5 == 2
		if wi%3 != 0 && wi%4 == 1 {
			o.Groups, o.RecordPath = "grp", strings.Replace(o.RecordPath, "/rec", "/grp/rec", 1)
		} else if wi%3 == 0 && wi%2 == 1 {
			o.Groups = "grp"
		}
		o.Rich = wi%2 == 0 || wi%7 == 1
		o.Decoys = !strings.HasPrefix(o.RecordPath, "//")
		in := w.XmlInput(r, "x", n, o)
		w.AddIndex(&Index{Name: "m", Kind: "map", Input: "x", Props: []IProp{{"id", ""}, {"cat", ""}, {"tags", ""}, {"info.deep.v", ""}, {"items.0.q", ""}, {"nums.0", ""}}})
		w.AddOutput(&Output{Name: "all", Kind: "jsonArray", Input: "x", LimDefault: 1000}, "/all")
		w.AddOutput(&Output{Name: "one", Kind: "jsonObject", Input: "x", Params: map[string]Param{"id": {"id", "m", "integer"}}}, "/one/{id}")
		w.AddOutput(&Output{Name: "scan", Kind: "jsonObject", Input: "x", Params: map[string]Param{"id": {"id", "", "integer"}}}, "/scan/{id}")
		w.AddOutput(&Output{Name: "f", Kind: "jsonArray", Input: "x", Params: map[string]Param{
			"cat": {"cat", "m", ""}, "tag": {"tags", "m", ""}, "v": {"info.deep.v", "m", ""}, "q": {"items.0.q", "m", "integer"}, "n0": {"nums.0", "m", "integer"},
			"scat": {"cat", "", ""}, "sw": {"items.0.ws.0", "", ""}, "sa": {"info.a", "", ""}, "sp": {"price", "", "float"}, "sf": {"flag", "", "boolean"}}}, "/f")
		s, err := w.Start(c, StartOpts{})
		if err != nil {
			c.Fail("startup", M{"error": err.Error()}, s.Cfg, filepath.Join(w.Dir, in.File))
			return
		}
		defer s.Kill()
		c.Eval(fmt.Sprintf("all%d", wi))
		w.Ask(c, s, "all", "/all")
		parallel(c.Q(60, 400), 2, func(q int) {
			r := c.Rng("q", wi*10000+q)
			id := r.Intn(n + 1)
			var path string
			switch q % 4 {
			case 0:
				path = fmt.Sprintf("/one/%d", id)
			case 1:
				path = fmt.Sprintf("/scan/%d", id)
			default:
				path = "/f?" + pick(r, "cat=c1", "tag=t2", "v=d3", "q=4", "n0=50", "scat=c2&cat=c2", "sw=alpha", "sa=", "sp=1.5", "sf=true", "sf=0&cat=c3") + pick(r, "", "&limit=3", "&offset=2")
			}
			w.Ask(c, s, "read", path)
			c.Eval(fmt.Sprintf("%d%s", wi, path))
			if q == 0 {
				c.Sample(M{"records": n, "recordXpath": o.RecordPath, "request": path})
			}
		})
	})
}
