package main

import (
	"bytes"
	"encoding/csv"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"time"
)

func init() {
	register(&Check{ID: "C24", Level: "exploration", Min: 500,
		Rule: "a case is one damaged file: every listing, page, lookup, relationship and index start on it is judged against what an independent reading of the same bytes says; non-trivial: the damage changed the bytes",
		Fn:   c24})
}

// What an independent reading of a file gives.
type reading struct {
	recs   []Rec
	broken string // why the file cannot be read after these records
	fuzzy  bool   // what comes from here on is not specified
	loose  bool   // the content is not strictly valid: it can be refused as well
}

// ---------------------------------------------------------------------------
// Files to damage and their independent readings
// ---------------------------------------------------------------------------

var c24Cols = []string{"id", "name", "note", "num"}

func c24Csv(r randT, n, big int) []byte {
	var b bytes.Buffer
	eol := pick(r, "\n", "\r\n")
	for i := 0; i < n; i++ {
		cells := []string{fmt.Sprintf("k%d", i), text(r, 20, true), text(r, 30, true), fmt.Sprint(r.Intn(1000))}
		if big > 0 && r.Intn(6) == 0 {
			cells[2] = text(r, big, true) + strings.Repeat("x", r.Intn(big))
		}
		for j, s := range cells {
			if j > 0 {
				b.WriteString(",")
			}
			b.WriteString(csvCell(r, s, ",", j < 3 && r.Intn(3) == 0))
		}
		b.WriteString(eol)
	}
	return b.Bytes()
}

func readCsv(data []byte, header bool) reading {
	rd := csv.NewReader(bytes.NewReader(data))
	rd.FieldsPerRecord = -1
	out := reading{}
	if header {
		if _, err := rd.Read(); err != nil && err != io.EOF {
			out.broken = err.Error()
			return out
		}
	}
	for {
		row, err := rd.Read()
		if err == io.EOF {
			return out
		}
		if err != nil {
			out.broken = err.Error()
			return out
		}
		rec := Rec{}
		for i, c := range c24Cols {
			switch {
			case i >= len(row):
				rec[c] = nil
			case c == "num":
				w := &World{Parsers: defaultParsers()}
				v, err := w.Parse("integer", row[i])
				if err != nil {
					v = Bad{}
				}
				rec[c] = v
			default:
				rec[c] = row[i]
			}
		}
		out.recs = append(out.recs, rec)
	}
}

func c24Json(r randT, n, big int) []byte {
	var b strings.Builder
	for i := 0; i < n; i++ {
		rec := Rec{"id": fmt.Sprintf("k%d", i), "name": text(r, 20, true), "num": float64(r.Intn(1000)), "flag": r.Intn(2) == 0,
			"list": A{float64(r.Intn(9)), nil, M{"deep": text(r, 10, true), "empty": M{}}}}
		if big > 0 && r.Intn(6) == 0 {
			rec["note"] = text(r, big, true) + strings.Repeat("x", r.Intn(big))
		}
		jsonEncode(r, &b, rec)
		b.WriteString(pick(r, "\n", " ", "", "\r\n", "\t\n\n"))
	}
	return []byte(b.String())
}

func readJson(data []byte) reading {
	d := json.NewDecoder(bytes.NewReader(data))
	out := reading{}
	for {
		var v any
		err := d.Decode(&v)
		if err == io.EOF {
			return out
		}
		if err != nil {
			out.broken = err.Error()
			return out
		}
		m, ok := v.(M)
		if !ok {
			out.broken = "not an object"
			return out
		}
		out.recs = append(out.recs, m)
	}
}

func c24Xml(r randT, n, big int) []byte {
	var b strings.Builder
	b.WriteString("<root>")
	sp := func() { b.WriteString(pick(r, "\n", "\n  ", "", " ")) }
	for i := 0; i < n; i++ {
		sp()
		if r.Intn(5) == 0 {
			b.WriteString("<!-- <rec> -->")
			sp()
		}
		b.WriteString(fmt.Sprintf(`<rec k="%s">`, xmlAttr(text(r, 8, false))))
		sp()
		b.WriteString(fmt.Sprintf("<id>k%d</id>", i))
		sp()
		s := text(r, 20, true)
		if big > 0 && r.Intn(6) == 0 {
			s = text(r, big, true) + strings.Repeat("x", r.Intn(big))
		}
		b.WriteString("<name>" + xmlText(r, s) + "</name>")
		sp()
		b.WriteString("<tags>")
		for j := r.Intn(3); j > 0; j-- {
			b.WriteString("<t>" + xmlText(r, text(r, 6, false)) + "</t>")
		}
		b.WriteString("</tags></rec>")
	}
	sp()
	b.WriteString("</root>")
	sp()
	return []byte(b.String())
}

type xnode struct {
	name  string
	text  string // character data of the whole subtree
	attr  map[string]string
	nodes []*xnode
}

func (n *xnode) child(name string) *xnode {
	for _, c := range n.nodes {
		if c.name == name {
			return c
		}
	}
	return nil
}

// readXml follows the tokens of the document. The server reads the documents
// leniently (unbalanced tags, unknown entities...): what only a strict reader
// refuses is loose.
func readXml(data []byte) reading {
	out := reading{}
	strict := xml.NewDecoder(bytes.NewReader(data))
	roots, depth := 0, 0
	for {
		t, err := strict.Token()
		if err == io.EOF {
			break
		}
		if err != nil {
			out.loose = true
			break
		}
		switch v := t.(type) {
		case xml.StartElement:
			if depth == 0 {
				roots++
			}
			depth++
		case xml.EndElement:
			depth--
		case xml.CharData:
			if depth == 0 && strings.TrimSpace(string(v)) != "" {
				out.loose = true
			}
		}
	}
	if roots != 1 {
		out.loose = true
	}
	d := xml.NewDecoder(bytes.NewReader(data))
	d.Strict = false
	stack := []*xnode{}
	inRec := 0
	for {
		t, err := d.Token()
		if err == io.EOF {
			return out
		}
		if err != nil {
			out.broken = err.Error()
			return out
		}
		switch v := t.(type) {
		case xml.StartElement:
			n := &xnode{name: v.Name.Local, attr: map[string]string{}}
			if v.Name.Space != "" {
				out.fuzzy = true
			}
			for _, a := range v.Attr {
				if _, dup := n.attr[a.Name.Local]; dup || a.Name.Space != "" || a.Name.Local == "xmlns" {
					out.fuzzy = true
				}
				n.attr[a.Name.Local] = a.Value
			}
			if len(stack) > 0 {
				p := stack[len(stack)-1]
				p.nodes = append(p.nodes, n)
			}
			stack = append(stack, n)
			if n.name == "rec" {
				inRec++
			}
		case xml.EndElement:
			if len(stack) == 0 {
				out.fuzzy = true
				return out
			}
			n := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if n.name == "rec" {
				inRec--
				if inRec == 0 && len(stack) == 1 && stack[0].name == "root" && !out.fuzzy {
					rec := Rec{"id": "", "name": "", "k": n.attr["k"], "tags": A{}}
					for _, f := range []string{"id", "name"} {
						if c := n.child(f); c != nil {
							rec[f] = c.text
						}
					}
					for _, c := range n.nodes {
						if c.name != "tags" {
							continue
						}
						for _, t := range c.nodes {
							if t.name == "t" {
								rec["tags"] = append(rec["tags"].(A), t.text)
							}
						}
					}
					out.recs = append(out.recs, rec)
				}
			}
		case xml.CharData:
			for _, n := range stack {
				n.text += string(v)
			}
		case xml.ProcInst:
			// the library counts the levels differently from there
			out.fuzzy = true
		}
	}
}

// damage changes a file.
func damage(r randT, data []byte, kind string) ([]byte, string) {
	tokens := map[string][]string{
		"csv":  {`"`, `""`, ",", "\n", "\r", "\r\n", "\x00", "\xff", ",\"", "\",", "é", " \"", "\n\n"},
		"json": {"{", "}", "[", "]", `"`, ",", ":", "null", "1", "{}", "tru", "\\", "\x00", "\xff", "é", "}{", "true", "-", "e", "\\u12", "/*", "\ufeff", `"a"`, "[{}]"},
		"xml":  {"<", ">", "</", "/>", "&", "]]>", "<!--", "-->", "<rec>", "</rec>", "</root>", "<root>", "\"", "=", "&#0;", "&x;", "\xff", "\x01", "<![CDATA[", "<!", "<t>", "</t>", "x"},
	}[kind]
	out := append([]byte{}, data...)
	what := []string{}
	at := func() int {
		if len(out) == 0 {
			return 0
		}
		return r.Intn(len(out))
	}
	for n := 1 + r.Intn(2)*r.Intn(3); n > 0; n-- {
		i := at()
		switch k := r.Intn(11); k {
		case 0, 1:
			out = out[:i]
			what = append(what, fmt.Sprintf("truncate@%d", i))
		case 2:
			if len(out) > 0 {
				out = append(out[:i], out[i+1:]...)
			}
			what = append(what, fmt.Sprintf("delete@%d", i))
		case 3:
			j := i + r.Intn(60)
			if j > len(out) {
				j = len(out)
			}
			out = append(out[:i], out[j:]...)
			what = append(what, fmt.Sprintf("cut@%d+%d", i, j-i))
		case 4:
			if len(out) > 0 {
				out[i] ^= 1 << r.Intn(8)
			}
			what = append(what, fmt.Sprintf("flip@%d", i))
		case 5, 6, 7:
			t := tokens[r.Intn(len(tokens))]
			out = append(out[:i], append([]byte(t), out[i:]...)...)
			what = append(what, fmt.Sprintf("insert %q@%d", t, i))
		case 8:
			j := i + r.Intn(200)
			if j > len(out) {
				j = len(out)
			}
			part := append([]byte{}, out[i:j]...)
			k := at()
			out = append(out[:k], append(part, out[k:]...)...)
			what = append(what, fmt.Sprintf("copy %d+%d@%d", i, j-i, k))
		case 9:
			t := tokens[r.Intn(len(tokens))]
			out = append(out, t...)
			what = append(what, fmt.Sprintf("append %q", t))
		case 10:
			if len(out) > 0 {
				t := tokens[r.Intn(len(tokens))]
				out = append(out[:i], append([]byte(t), out[i+1:]...)...)
				what = append(what, fmt.Sprintf("replace by %q@%d", t, i))
			}
		}
	}
	return out, strings.Join(what, ", ")
}

// aimed damages: the last bytes and the ends of the records, where a loss is
// easily taken for the end of the data.
func aimed(r randT, data []byte, kind string) ([]byte, string) {
	out := append([]byte{}, data...)
	switch r.Intn(4) {
	case 0: // the last bytes are missing
		n := 1 + r.Intn(12)
		if n > len(out) {
			n = len(out)
		}
		return out[:len(out)-n], fmt.Sprintf("last %d bytes missing", n)
	case 1: // truncated in the last record
		i := bytes.LastIndex(out, []byte("k"))
		if i < 0 {
			return out, ""
		}
		i += r.Intn(len(out) - i)
		return out[:i], fmt.Sprintf("truncate@%d (last record)", i)
	case 2: // something between two records
		sep := map[string]string{"csv": "\n", "json": "}", "xml": "</rec>"}[kind]
		parts := bytes.SplitAfter(out, []byte(sep))
		k := r.Intn(len(parts))
		t := map[string][]string{"csv": {`"`, `a"b` + "\n", `"a"b` + "\n"}, "json": {"}", "]", "null", "x", ",", "1 ", `"s"`, "[]", "{", "nul", "fals", "-", "\x00", "\v"},
			"xml": {"<", "&#x1;", "\x01", "</x>", "<!", "<rec", "\xfe", "<a b>", "</root></root>", "<!-- "}}[kind]
		s := t[r.Intn(len(t))]
		parts[k] = append(append([]byte{}, parts[k]...), s...)
		return bytes.Join(parts, nil), fmt.Sprintf("%q after part %d", s, k)
	default: // the last byte of one record is missing
		sep := map[string]string{"csv": "\"", "json": "}", "xml": ">"}[kind]
		parts := bytes.SplitAfter(out, []byte(sep))
		k := r.Intn(len(parts))
		if len(parts[k]) > 0 {
			parts[k] = parts[k][:len(parts[k])-1]
		}
		return bytes.Join(parts, nil), fmt.Sprintf("the end %q of part %d is missing", sep, k)
	}
}

type c24File struct {
	kind, what string
	data       []byte
	header     bool
	rd         reading
}

func (c *C) c24File(r randT, kind string) c24File {
	for {
		n := []int{0, 1, 2, 12, 40}[r.Intn(5)]
		big := []int{0, 0, 300, 6000}[r.Intn(4)]
		f := c24File{kind: kind}
		var data []byte
		switch kind {
		case "csv":
			data = c24Csv(r, n, big)
			f.header = r.Intn(3) == 0
		case "json":
			data = c24Json(r, n, big)
		case "xml":
			data = c24Xml(r, n, big)
		}
		if r.Intn(2) == 0 {
			f.data, f.what = aimed(r, data, kind)
		} else {
			f.data, f.what = damage(r, data, kind)
		}
		if bytes.Equal(f.data, data) {
			continue
		}
		switch kind {
		case "csv":
			f.rd = readCsv(f.data, f.header)
		case "json":
			f.rd = readJson(f.data)
		case "xml":
			f.rd = readXml(f.data)
		}
		if f.rd.fuzzy {
			c.Count("unspecified_xml_skipped", 1)
			continue
		}
		return f
	}
}

func (f *c24File) add(w *World, name string) *Input {
	file := name + "." + f.kind
	must(os.WriteFile(filepath.Join(w.Dir, file), f.data, 0644))
	in := &Input{Name: name, Kind: f.kind, File: file, Recs: f.rd.recs, Strict: f.kind != "json"}
	switch f.kind {
	case "csv":
		cols := A{}
		for _, c := range c24Cols {
			m := M{"name": c}
			if c == "num" {
				m["parser"] = "integer"
			}
			cols = append(cols, m)
		}
		in.Conf = M{"columns": cols, "ignoreFirstRow": f.header}
	case "xml":
		in.Conf = M{"recordXpath": "/root/rec", "properties": A{
			M{"name": "id", "xpath": "string(id)"}, M{"name": "name", "xpath": "string(name)"}, M{"name": "k", "xpath": "string(@k)"},
			M{"name": "tags", "type": "array", "xpath": "tags/t", "items": M{"xpath": "string(.)"}}}}
	default:
		in.Conf = M{}
	}
	return w.AddInput(in)
}

// verdict: the expected answer, knowing where the file is broken. need is the
// number of records which have to be read.
func (f *c24File) judge(e Exp, beyond bool, resp *Resp) string {
	if f.rd.broken != "" && beyond {
		return judge(Exp{Kind: "error"}, resp)
	}
	if f.rd.broken != "" || f.rd.loose {
		if judge(Exp{Kind: "error"}, resp) == "" {
			return ""
		}
	}
	return judge(e, resp)
}

func (c *C) c24Serve(batch int, kinds []string) {
	r := c.Rng("serve", batch)
	w := NewWorld(c.dir("serve%d", batch))
	w.CsvInput(r, "parents", 6, []Field{{"pid", "string", func(r randT, i int) (string, any) { s := fmt.Sprintf("k%d", i*7%13); return s, s }}}, CsvOpts{})
	files := []c24File{}
	for i := 0; i < 12; i++ {
		f := c.c24File(r, kinds[i%len(kinds)])
		name := fmt.Sprintf("in%d", i)
		f.add(w, name)
		w.AddOutput(&Output{Name: "all" + name, Kind: "jsonArray", Input: name, Params: map[string]Param{"name": {"name", "", ""}}}, "/"+name+"/all")
		w.AddOutput(&Output{Name: "one" + name, Kind: "jsonObject", Input: name, Params: map[string]Param{"id": {"id", "", ""}}}, "/"+name+"/one/{id}")
		w.AddOutput(&Output{Name: "rel" + name, Kind: "jsonArray", Input: "parents", Rels: map[string]*Rel{
			"kids": {Input: name, IsArray: true, Match: []RelMatch{{"pid", "id", ""}}}}}, "/"+name+"/rel")
		files = append(files, f)
	}
	s := w.startOrFail(c, StartOpts{})
	if s == nil {
		return
	}
	for i := range files {
		f := &files[i]
		name := fmt.Sprintf("in%d", i)
		n := len(f.rd.recs)
		ask := func(sig, q string, beyond bool) {
			resp := s.Get(q)
			if why := f.judge(w.Expect(q), beyond, resp); why != "" {
				c.Fail("malformed:"+f.kind+":"+sig, M{"request": q, "why": why, "damage": f.what, "broken": f.rd.broken, "readable_records": n, "status": resp.Status,
					"body": clip(string(resp.Body)), "log": tail(s.Log.String(), 600)}, filepath.Join(w.Dir, w.Inputs[name].File), s.Cfg)
			}
			c.Count("requests_"+f.kind, 1)
		}
		ask("list", "/"+name+"/all?limit=1000", true)
		ask("list", "/"+name+"/all?limit=1000&name=zz-none", true)
		for k := 0; k < 4; k++ {
			off := r.Intn(n + 2)
			lim := 1 + r.Intn(n+2)
			ask("page", fmt.Sprintf("/%s/all?limit=%d&offset=%d", name, lim, off), off+lim > n)
		}
		for k := 0; k < 3; k++ {
			id := fmt.Sprintf("k%d", r.Intn(42))
			first := false
			for _, rec := range f.rd.recs {
				if rec["id"] == id {
					first = true
				}
			}
			ask("lookup", "/"+name+"/one/"+id, !first)
		}
		ask("relationship", "/"+name+"/rel", true)
		if f.rd.broken != "" {
			c.Count("broken_"+f.kind, 1)
		} else {
			c.Count("still_valid_"+f.kind, 1)
		}
		c.Eval(f.kind + "|" + sum(f.data))
	}
	if batch == 0 {
		c.Sample(M{"damage": files[0].what, "broken": files[0].rd.broken, "readable_records": len(files[0].rd.recs)})
	}
	if crashed(s.Log.String()) {
		c.Fail("malformed:crash", M{"log": tail(s.Log.String(), 3000)}, s.Cfg)
	}
	if code, ok := s.Stop(); !ok || code != 0 {
		c.Fail("malformed:stop", M{"exit": code, "graceful": ok, "log": tail(s.Log.String(), 2000)}, s.Cfg)
	}
	must(os.RemoveAll(w.Dir))
}

// c24Index: a persistent or memory index created on a damaged file.
func (c *C) c24Index(n int, kind, ix string) {
	r := c.Rng("index", n)
	w := NewWorld(c.dir("index%d", n))
	f := c.c24File(r, kind)
	for f.rd.broken == "" && r.Intn(4) > 0 {
		f = c.c24File(r, kind)
	}
	f.add(w, "in")
	idx := &Index{Name: "x", Kind: ix, Input: "in", Props: []IProp{{"id", ""}}, Path: "x.idx"}
	param := Param{"id", "x", ""}
	switch ix {
	case "sqlite-memory", "fts5-memory":
		idx.Kind = strings.TrimSuffix(ix, "-memory")
		idx.Path = ":memory:"
	}
	if idx.Kind == "fts5" {
		param = Param{"match", "x", ""}
		idx.FtsMatch = func(rec Rec, q string) (bool, error) {
			v, ok := rec["id"].(string)
			return ok && v == q, nil
		}
	}
	w.AddIndex(idx)
	w.AddOutput(&Output{Name: "all", Kind: "jsonArray", Input: "in", LimMax: 100000, Params: map[string]Param{"id": param}}, "/all")
	plain := true
	for _, rec := range f.rd.recs {
		s, ok := rec["id"].(string)
		if !ok || idx.Kind == "fts5" && strings.Trim(s, "k0123456789") != "" {
			plain = false
		}
	}
	cfg := filepath.Join(w.Dir, "config.yaml")
	port := freePort()
	writeConfig(cfg, w.Config(port))
	detail := M{"index": ix, "damage": f.what, "broken": f.rd.broken, "readable_records": len(f.rd.recs)}
	fail := func(sig string, s *Server) {
		detail["log"] = tail(s.Log.String(), 1500)
		c.Fail("malformed:"+kind+":index:"+sig, detail, filepath.Join(w.Dir, "in."+kind), cfg)
	}
	for life := 0; life < 2; life++ { // the second start meets what the first one left
		detail["life"] = life
		s := c.Spawn(w.Dir, cfg, StartOpts{Port: port})
		up, err := s.WaitUp(120 * time.Second)
		if err != nil {
			fail("hang", s)
			s.Kill()
			return
		}
		if !up {
			if strings.Contains(s.Log.String(), "address already in use") || s.noWatchers() {
				port = freePort()
				writeConfig(cfg, w.Config(port))
				life--
				continue
			}
			if crashed(s.Log.String()) || s.code == 0 || !strings.Contains(s.Log.String(), "level=error") {
				detail["exit"] = s.code
				fail("refusal", s)
				return
			}
			if f.rd.broken == "" && plain && !f.rd.loose && f.what != "" && !(len(f.rd.recs) == 0 && idx.Kind == "wildcard") {
				fail("valid refused", s)
				return
			}
			c.Count("refused_starts_"+ix, 1)
			continue
		}
		if f.rd.broken != "" {
			fail("accepted", s)
			s.Kill()
			return
		}
		if plain {
			for _, q := range []string{"/all?limit=1000", "/all?id=k0", "/all?id=k11", "/all?id=k39", "/all?id=k99"} {
				resp := s.Get(q)
				if idx.Kind == "wildcard" && strings.Contains(q, "id=") {
					// substrings: compared by the model too
					q = strings.Replace(q, "id=k", "id=", 1)
					resp = s.Get(q)
				}
				if why := judge(w.Expect(q), resp); why != "" {
					if f.rd.loose && judge(Exp{Kind: "error"}, resp) == "" {
						continue
					}
					detail["request"], detail["why"] = q, why
					fail("answer", s)
				}
			}
		}
		c.Count("valid_starts_"+ix, 1)
		s.Stop()
	}
	c.Eval("index|" + ix + "|" + sum(f.data))
	must(os.RemoveAll(w.Dir))
}

// autodetected columns: a header which cannot be read refuses the start.
func (c *C) c24Header(n int) {
	r := c.Rng("header", n)
	w := NewWorld(c.dir("header%d", n))
	data := append([]byte("id,name,note,num\n"), c24Csv(r, 4, 0)...)
	bad := pick(r, "", "id,,note,num\n", "id,name,id,num\n", "\"id,name\n", "i\"d,name\n", "\"id\"x,name\n", "\n\n", "id,name,note,name\n")
	switch {
	case bad == "" || bad == "\n\n":
		data = []byte(bad)
	case strings.HasPrefix(bad, "\"id,name"):
		data = []byte(bad) // never closed
	default:
		data = append([]byte(bad), data...)
	}
	must(os.WriteFile(filepath.Join(w.Dir, "in.csv"), data, 0644))
	w.AddInput(&Input{Name: "in", Kind: "csv", File: "in.csv", Conf: M{"autodetectColumns": true}})
	w.AddOutput(&Output{Name: "all", Kind: "jsonArray", Input: "in"}, "/all")
	port := freePort()
	cfg := filepath.Join(w.Dir, "config.yaml")
	writeConfig(cfg, w.Config(port))
	s := c.Spawn(w.Dir, cfg, StartOpts{Port: port})
	up, err := s.WaitUp(120 * time.Second)
	if err != nil || up || s.code == 0 || crashed(s.Log.String()) {
		c.Fail("malformed:csv:header", M{"header": bad, "up": up, "exit": s.code, "log": tail(s.Log.String(), 1500)}, filepath.Join(w.Dir, "in.csv"), cfg)
		s.Kill()
	}
	c.Eval("header|" + bad)
	c.Count("bad_headers_refused", 1)
}

func c24(c *C) {
	c.Binary("plain")
	kinds := []string{"csv", "json", "xml"}
	nb := c.Q(240, 2400)
	c.phase("serve", func() {
		parallel(nb, 6, func(i int) { c.c24Serve(i, kinds) })
	})
	ixs := []string{"map", "sqlite", "wildcard", "fts5", "sqlite-memory", "fts5-memory"}
	c.phase("index", func() {
		parallel(c.Q(1500, 15000), 6, func(i int) { c.c24Index(i, kinds[i%3], ixs[i/3%len(ixs)]) })
	})
	parallel(c.Q(24, 60), 6, func(i int) { c.c24Header(i) })
}
