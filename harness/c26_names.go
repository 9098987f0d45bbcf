package main

import (
	"crypto/sha256"
	"fmt"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

func init() {
	register(&Check{ID: "C26", Level: "exploration", Min: 500,
		Rule: "a case is one request with a hostile value or a set of hostile names in one life of the server, judged on its answer, on the bytes of the index files, on the foreign tables of the database and on the files of the directory; non-trivial: a name or a value which is not a plain word",
		Fn:   c26})
}

// names which mean something to SQL, regular expressions, URLs, paths, YAML
// or the code itself
var hostileNames = []string{
	`a"b`, `a'b`, `a""b`, `"`, `'`, `""`, `"; DROP TABLE canary; --`, `'; DROP TABLE canary; --`, `x" COLLATE NOCASE, "y`, `a") --`, `a, b`,
	`[x]`, "`x`", "a b", " a", "a ", "a\tb", "a\nb", "é", "e\u0301", "日本", "😀", "%s", "%", "%w", "%00", "?", "?1", ":a", "@a", `a\`, `a\b`, `a/b`,
	"../x", "..", "~", "a;b", "--", "/*", "*/", "a_b", "_", "a_", "a__b", "index", "metadata", "a_index", "a_metadata", "a_index_0", "a_index_data", "index_index",
	"select", "offset_", "property_a", "rodb_b", "*", "null", "true", "0", "-1", "1e3", "{a", "#a", "&a", "!a", "|", ">", "- a", "a: b", "a=b",
	"name", "a+b", "(a)", "^a", "a?", "a|b", "(?i)a", `\d+`, "[a-z]", "a&b", "<a>", "sqlite_a", "sqlite_master", "main", "temp", "a\u200bb", "ﬀ", "ß",
	"unindexed", "content", "tokenize", "match", "x\u202ey", "a\r\nb", "\u00a0", "Ⅷ", "İ", "a#b", "a%20b", "%61", "NaN", "1", "01", "+1", "a,b", "\"a\"", "'a'",
}

var hostileValues = []string{
	`' OR 1=1 --`, `" OR ""="`, `'`, `"`, `''`, `%`, `_`, `*`, `?`, `NULL`, `null`, `0x41`, `x'41'`, `1`, `1.0`, `01`, ` 1`, `1 `, `true`, `a%`, `a_`, `a`, `A`, `aa`,
	`'; DROP TABLE canary; --`, `"; DELETE FROM canary; --`, "a\nb", "a\x00b", "\x00", "a\x00", `\`, `\\`, `\'`, `a" AND "b`, `a OR b`, `a AND NOT b`, `NEAR(a b)`, `{a}: b`,
	"é", "e\u0301", "É", "ÿ", "日本", "😀", "\u2028", "(", ")", "[a-z]", "(?i)a", "^", ".", ".*", "a.b", "a/b", "../../etc/passwd", "${HOME}", "$1", "%s%n", "<a>&amp;", "-1", "--", "/*", ";", " ", "  ", "a ", " a",
	"ı", "İ", "ſ", "ﬀ", "SELECT * FROM sqlite_master", "rodb_a_index", "randomblob(1000000000)", "char(0)", "a||b",
}

func plainWord(s string) bool {
	for _, r := range s {
		if (r < 'a' || r > 'z') && (r < '0' || r > '9') {
			return false
		}
	}
	return s != ""
}

// hostileSet gives n different names (whatever the case).
func hostileSet(r randT, n int, avoid ...string) []string {
	seen := map[string]bool{}
	for _, a := range avoid {
		seen[a] = true
	}
	out := []string{}
	for len(out) < n {
		s := hostileNames[r.Intn(len(hostileNames))]
		switch r.Intn(6) {
		case 0:
			s += hostileNames[r.Intn(len(hostileNames))]
		case 1:
			s += fmt.Sprint(r.Intn(3))
		case 2:
			s = pick(r, "a", "b", "c", "id", "a_b", "b_c", "a_b_c")
		}
		k := strings.ToLower(s)
		if seen[k] || seen[s] {
			continue
		}
		seen[k] = true
		out = append(out, s)
	}
	return out
}

func hostileValue(r randT) string {
	s := hostileValues[r.Intn(len(hostileValues))]
	if r.Intn(5) == 0 {
		s += hostileValues[r.Intn(len(hostileValues))]
	}
	return s
}

// python runs a script on a database, when python has sqlite3.
func python(script string, args ...string) (string, error) {
	out, err := exec.Command("python3", append([]string{"-c", script}, args...)...).CombinedOutput()
	return string(out), err
}

const canaryMake = `
import sqlite3,sys
d=sqlite3.connect(sys.argv[1])
for i,t in enumerate(['canary','rodb_canary','index','"a"','rodb__inde','a_index']):
    q='"'+t.replace('"','""')+'"'
    d.execute('create table '+q+' (a,b)')
    d.executemany('insert into '+q+' values (?,?)',[(i,str(k)*k) for k in range(20)])
d.commit()
`

const canaryRead = `
import sqlite3,sys
d=sqlite3.connect('file:'+sys.argv[1]+'?mode=ro',uri=True)
for t in ['canary','rodb_canary','index','"a"','rodb__inde','a_index']:
    q='"'+t.replace('"','""')+'"'
    print(t,d.execute('select * from '+q).fetchall())
print(d.execute('pragma integrity_check').fetchall())
`

func hashFile(path string) string {
	b, err := os.ReadFile(path)
	if err != nil {
		return err.Error()
	}
	h := sha256.Sum256(b)
	return fmt.Sprintf("%x", h[:10])
}

func listDir(dir string) []string {
	out := []string{}
	_ = filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err == nil && p != dir {
			rel, _ := filepath.Rel(dir, p)
			out = append(out, rel)
		}
		return nil
	})
	sort.Strings(out)
	return out
}

type nameWorld struct {
	*World
	asks  []string // templates: path prefix + parameter, completed by a value
	ftsOf map[string]bool
}

func (c *C) nameWorld(idx int) *nameWorld {
	r := c.Rng("world", idx)
	w := &nameWorld{World: NewWorld(c.dir("w%d", idx)), ftsOf: map[string]bool{}}
	nIn := 2 + r.Intn(4)
	inNames := hostileSet(r, nIn)
	ixNames := hostileSet(r, nIn*3, "default")
	outNames := hostileSet(r, nIn*2)
	parNames := hostileSet(r, 2)
	files := []string{"in put';1.csv", "é\"2.csv", "a%20b.csv", "#x.csv", "[a]*.csv", "{x}.csv"}
	// two parsers whose names differ but not by much
	w.AddParser(&PDef{Name: parNames[0], Type: "string"})
	w.AddParser(&PDef{Name: parNames[1], Type: "string"})
	for i := 0; i < nIn; i++ {
		kind := pick(r, "csv", "csv", "json", "xml")
		props := []string{}
		for _, p := range hostileSet(r, 2+r.Intn(4), "rank", "rowid", "__offset", "limit", "offset") {
			props = append(props, strings.ReplaceAll(p, ".", "_dot_"+fmt.Sprint(len(props))))
		}
		vals := make([]string, 6)
		// SQLite gives no meaning to the comparison of two texts with NUL characters by NOCASE
		nocase := pick(r, "", "nocase")
		for k := range vals {
			vals[k] = hostileValue(r)
			if nocase != "" {
				vals[k] = strings.ReplaceAll(vals[k], "\x00", "")
			}
		}
		n := 12 + r.Intn(20)
		rows := make([][]string, n)
		recs := make([]Rec, n)
		for k := range rows {
			rows[k] = make([]string, len(props))
			recs[k] = Rec{}
			for j, p := range props {
				v := vals[r.Intn(len(vals))]
				if kind == "xml" {
					v = strings.Map(func(c rune) rune {
						if c < ' ' && c != '\n' && c != '\t' {
							return 'z'
						}
						return c
					}, v)
				}
				rows[k][j] = v
				recs[k][p] = v
			}
		}
		in := &Input{Name: inNames[i], Kind: kind, File: strings.TrimSuffix(files[i], ".csv") + "." + kind, Recs: recs, Strict: kind != "json", Conf: M{}}
		var b strings.Builder
		switch kind {
		case "csv":
			cols := A{}
			for _, p := range props {
				m := M{"name": p}
				if r.Intn(2) == 0 {
					m["parser"] = parNames[r.Intn(2)]
				}
				cols = append(cols, m)
			}
			in.Conf["columns"] = cols
			if r.Intn(3) == 0 {
				delete(in.Conf, "columns")
				in.Conf["autodetectColumns"] = true
				for j, p := range props {
					if j > 0 {
						b.WriteString(",")
					}
					b.WriteString(csvCell(r, p, ",", true))
				}
				b.WriteString("\n")
			}
			for _, row := range rows {
				for j, s := range row {
					if j > 0 {
						b.WriteString(",")
					}
					b.WriteString(csvCell(r, s, ",", true))
				}
				b.WriteString("\n")
			}
			for k := range recs { // a quoted \r\n is read as \n
				for p, v := range recs[k] {
					recs[k][p] = strings.ReplaceAll(v.(string), "\r\n", "\n")
				}
			}
			if in.Conf["autodetectColumns"] == true {
				for j, p := range props {
					if q := strings.ReplaceAll(p, "\r\n", "\n"); q != p {
						props[j] = q
						for k := range recs {
							recs[k][q] = recs[k][p]
							delete(recs[k], p)
						}
					}
				}
				// the header is one of the records, unless ignoreFirstRow says otherwise
				if r.Intn(2) == 0 {
					in.Conf["ignoreFirstRow"] = true
				} else {
					head := Rec{}
					for _, p := range props {
						head[p] = p
					}
					recs = append([]Rec{head}, recs...)
					in.Recs = recs
				}
			}
		case "json":
			for k := range recs {
				jsonEncode(r, &b, recs[k])
				b.WriteString("\n")
			}
		case "xml":
			ps := A{}
			for j, p := range props {
				ps = append(ps, M{"name": p, "xpath": fmt.Sprintf("string(p%d)", j)})
			}
			in.Conf["recordXpath"] = "/root/rec"
			in.Conf["properties"] = ps
			b.WriteString("<root>")
			for k := range recs {
				b.WriteString("<rec>")
				for j, p := range props {
					b.WriteString(fmt.Sprintf("<p%d>%s</p%d>", j, xmlText(r, recs[k][p].(string)), j))
				}
				b.WriteString("</rec>\n")
			}
			b.WriteString("</root>")
		}
		must(os.WriteFile(filepath.Join(w.Dir, in.File), []byte(b.String()), 0644))
		w.AddInput(in)
		// indexes: most of them in the shared database
		ips := []IProp{}
		for _, p := range props {
			ips = append(ips, IProp{p, pick(r, "", "", "binary", nocase, "rtrim")})
		}
		mine := []string{"default"}
		for k := 0; k < 3; k++ {
			name := ixNames[i*3+k]
			ix := &Index{Name: name, Kind: pick(r, "sqlite", "sqlite", "sqlite", "fts5", "map", "wildcard"), Input: in.Name, Props: ips, Path: "shared.db"}
			switch ix.Kind {
			case "wildcard":
				ix.Path = pick(r, "we ird", "é'", `a"b`, "#", "%41", "*") + fmt.Sprintf("%d-%d.idx", i, k)
			case "fts5":
				w.ftsOf[name] = true
				ix.FtsMatch = func(Rec, string) (bool, error) { return false, nil }
			}
			w.AddIndex(ix)
			mine = append(mine, name)
		}
		// outputs
		params := map[string]Param{}
		pn := hostileSet(r, 8, "limit", "offset")
		routeParam := ""
		for _, ixn := range mine {
			ix := w.Indexes[ixn]
			if ix.Kind == "fts5" {
				if len(pn) > 0 {
					params[pn[0]] = Param{"match", ixn, ""}
					pn = pn[1:]
				}
				continue
			}
			for k := 0; k < 2 && len(pn) > 0; k++ {
				params[pn[0]] = Param{props[r.Intn(len(props))], ixn, pick(r, "", parNames[0])}
				if !strings.Contains(pn[0], "}") {
					routeParam = pn[0]
				}
				pn = pn[1:]
			}
		}
		rels := map[string]*Rel{}
		if i > 0 && r.Intn(2) == 0 {
			other := w.Inputs[inNames[r.Intn(i)]]
			op := sortedKeys(other.Recs[0])
			rels[hostileSet(r, 1, props...)[0]+" rel"] = &Rel{Input: other.Name, IsArray: true, Limit: 3, Match: []RelMatch{{props[0], op[0], ""}}}
		}
		o := &Output{Name: outNames[i*2], Kind: "jsonArray", Input: in.Name, Params: params, Rels: rels}
		lit := pick(r, "/a.b", "/(x)", "/é", "/a b", "/[a-z]+", `/"q"`, "/x|y", "/a;b", "/^$", "/%", "/a+b", "/a?b", "/日本") + fmt.Sprint(i)
		w.AddOutput(o, lit)
		esc := (&url.URL{Path: lit}).EscapedPath()
		for _, p := range sortedKeys(params) {
			w.asks = append(w.asks, esc+"?limit=50&"+url.QueryEscape(p)+"=")
		}
		if routeParam != "" {
			o2 := &Output{Name: outNames[i*2+1], Kind: "jsonArray", Input: in.Name, Params: map[string]Param{routeParam: params[routeParam]}}
			w.AddOutput(o2, lit+"/{"+routeParam+"}/end")
			w.asks = append(w.asks, esc+"/\x00/end")
		}
	}
	return w
}

func (c *C) names(idx int) {
	r := c.Rng("ask", idx)
	w := c.nameWorld(idx)
	db := filepath.Join(w.Dir, "shared.db")
	canary := false
	if out, err := python(canaryMake, db); err == nil {
		canary = true
	} else {
		c.Count("no_canary", 1)
		_ = out
	}
	before := ""
	if canary {
		before, _ = python(canaryRead, db)
	}
	allowed := map[string]bool{}
	for _, f := range listDir(w.Dir) {
		allowed[f] = true
	}
	allowed["shared.db"] = true
	for _, ix := range w.Indexes {
		if ix.Path != "" {
			allowed[ix.Path] = true
		}
	}
	hashes := map[string]string{}
	for life := 0; life < 2; life++ {
		s := w.startOrFail(c, StartOpts{})
		if s == nil {
			return
		}
		allowed[filepath.Base(s.Cfg)] = true
		for _, ix := range w.Indexes {
			if ix.Path == "" {
				continue
			}
			h := hashFile(filepath.Join(w.Dir, ix.Path))
			if old, ok := hashes[ix.Path]; ok && old != h {
				c.Fail("names:index changed", M{"file": ix.Path, "when": "restart", "life": life}, s.Cfg)
			}
			hashes[ix.Path] = h
		}
		for i := 0; i < c.Q(60, 200); i++ {
			t := w.asks[r.Intn(len(w.asks))]
			// mostly values which exist
			in := w.Inputs[sortedKeys(w.Inputs)[r.Intn(len(w.Inputs))]]
			rec := in.Recs[r.Intn(len(in.Recs))]
			v := rec[sortedKeys(rec)[r.Intn(len(rec))]].(string)
			if r.Intn(3) == 0 {
				v = hostileValue(r)
			}
			var q string
			if strings.Contains(t, "\x00") {
				if v == "" || strings.ContainsAny(v, "\n") {
					v = "a"
				}
				q = strings.Replace(t, "\x00", url.PathEscape(v), 1)
			} else {
				q = t + url.QueryEscape(v)
			}
			u, err := url.ParseRequestURI(q)
			must(err)
			var ix *Index
			if cr, pp := w.route(u.Path); cr != nil {
				for n, p := range w.Outputs[cr.route.Output].Params {
					_, inPath := pp[n]
					if inPath || u.Query().Has(n) {
						ix = w.Indexes[p.Index]
					}
				}
			}
			resp := s.Get(q)
			why := ""
			switch {
			case ix != nil && ix.Kind == "fts5":
				// an expression: only its effects are judged here (C09 for the answers),
				// and the answers it cannot have
				why = shapeOnly(resp)
			case ix != nil && ix.Kind == "wildcard" && v == "":
				why = shapeOnly(resp)
			default:
				why = judge(w.Expect(q), resp)
			}
			if why != "" {
				kind := ""
				if ix != nil {
					kind = ix.Kind
				}
				c.Fail("names:answer:"+kind, M{"request": q, "value": v, "why": why, "life": life, "status": resp.Status, "log": tail(s.Log.String(), 500)}, s.Cfg, filepath.Join(w.Dir, in.File))
			}
			key := ""
			if !plainWord(v) {
				key = fmt.Sprintf("%d|%d|%s", idx, life, q)
			}
			c.Eval(key)
			if ix != nil {
				c.Count("requests_"+ix.Kind, 1)
			}
		}
		for _, f := range listDir(w.Dir) {
			if !allowed[f] {
				c.Fail("names:file", M{"file": f, "life": life, "all": listDir(w.Dir)}, s.Cfg)
			}
		}
		if crashed(s.Log.String()) {
			c.Fail("names:crash", M{"log": tail(s.Log.String(), 3000)}, s.Cfg)
		}
		if code, ok := s.Stop(); !ok || code != 0 {
			c.Fail("names:stop", M{"exit": code, "graceful": ok, "log": tail(s.Log.String(), 2000)}, s.Cfg)
		}
		for path, h := range hashes {
			if hashFile(filepath.Join(w.Dir, path)) != h {
				c.Fail("names:index changed", M{"file": path, "when": "requests", "life": life}, s.Cfg)
			}
		}
		if canary {
			after, err := python(canaryRead, db)
			if err != nil || after != before {
				c.Fail("names:foreign tables", M{"life": life, "before": clip(before), "after": clip(after)}, s.Cfg, db)
			}
			c.Count("canary_checks", 1)
		}
	}
	c.Count("names", int64(len(w.Inputs)+len(w.Indexes)+len(w.Outputs)+len(w.Parsers)))
	if idx == 0 {
		c.Sample(M{"inputs": sortedKeys(w.Inputs), "indexes": sortedKeys(w.Indexes), "outputs": sortedKeys(w.Outputs)})
	}
	must(os.RemoveAll(w.Dir))
}

// shapeOnly: 200 with an array, or an error document.
func shapeOnly(r *Resp) string {
	if r.Err != nil {
		return r.Err.Error()
	}
	v, err := decodeJSON(r.Body)
	if err != nil {
		return err.Error()
	}
	if _, ok := v.([]any); ok && r.Status == 200 {
		return ""
	}
	return judge(Exp{Kind: "error"}, r)
}

// longTwins differ in their middle only.
func longTwins(fill string, mid ...string) []string {
	out := []string{}
	for i, m := range mid {
		out = append(out, strings.Repeat(fill, 150)+m+strings.Repeat(fill, 150))
		if i == len(mid)-1 { // or at the end
			out[i] = out[0] + m
		}
	}
	return out
}

// twins: indexes and properties whose names could be confused, each on its
// own data, in one database.
func (c *C) twins(idx int) {
	r := c.Rng("twins", idx)
	families := [][]string{
		{"a", "a_index", "a_metadata", "a_index_index", "a_index_0", "a_index_data", "a_metadata_index", "index", "_index", "metadata"},
		{"a", "a ", " a", "a\t", "a\u00a0", "a\u200b", "a\n"},
		{`a"`, `a""`, `a'`, `a''`, `"a`, `"a"`, "`a`", "[a]", "a]", `a\"`},
		{"é", "e\u0301", "e", "ê", "ё"},
		{"a%", "a%s", "a%w", "a%%", "a%d", "%w", "%q"},
		{"a;", "a--", "a/*", "a*/", "a)", "a,", "a(", "a?"},
		{"1", "01", "1.0", "1e0", "+1", "0x1", "true", "null", "~"},
		longTwins("n", "1", "2", "3", "4", "5"),
		{"a.b", "a_b", "a-b", "a:b", "a/b", `a\b`, "a|b", "a+b"},
	}
	fam := families[idx%len(families)]
	w := NewWorld(c.dir("t%d", idx))
	inProps := hostileSet(r, 3, "id", "rank", "rowid", "__offset", "limit", "offset")
	for i := range inProps {
		inProps[i] = strings.NewReplacer(".", "_", "\r", "_").Replace(inProps[i])
	}
	if inProps[0] == inProps[1] || inProps[1] == inProps[2] || inProps[0] == inProps[2] {
		inProps = []string{"a", "a_b", "b"}
	}
	if idx%3 == 0 {
		inProps = [][]string{{"a", "a_b", "b_c"}, {"b", "b_c", "c"}, {"a", "index", "a_index"}}[idx/3%3]
	}
	kinds := []string{"sqlite", "fts5", "map", "noop"}
	if len(fam[0]) > 100 {
		inProps = longTwins("p", "a", "b", "c")
	}
	for i, name := range fam {
		in := w.CsvInput(r, fmt.Sprintf("twin%d", i), 8, []Field{
			{"id", "integer", func(r randT, k int) (string, any) { return fmt.Sprint(i*100 + k), int64(i*100 + k) }},
			{inProps[0], "string", func(r randT, k int) (string, any) { s := fmt.Sprintf("w%d", k%3); return s, s }},
			{inProps[1], "string", func(r randT, k int) (string, any) { s := fmt.Sprintf("w%d", (k+i)%4); return s, s }},
			{inProps[2], "string", func(r randT, k int) (string, any) { s := fmt.Sprintf("w%d", i); return s, s }}}, CsvOpts{})
		delete(w.Inputs, in.Name)
		in.Name = "in-" + name
		w.AddInput(in)
		ix := &Index{Name: name, Kind: kinds[(i+idx/len(families))%3], Input: in.Name, Path: "shared.db", Props: []IProp{{inProps[0], ""}, {inProps[1], ""}, {inProps[2], ""}}}
		param := Param{inProps[1], name, ""}
		if ix.Kind == "fts5" {
			param = Param{"match", name, ""}
			ix.FtsMatch = func(rec Rec, q string) (bool, error) {
				return rec[inProps[0]] == q || rec[inProps[1]] == q || rec[inProps[2]] == q, nil
			}
		}
		w.AddIndex(ix)
		w.AddOutput(&Output{Name: "o" + name, Kind: "jsonArray", Input: in.Name, Params: map[string]Param{"q": param}}, fmt.Sprintf("/t%d", i))
		if ix.Kind != "fts5" {
			w.AddOutput(&Output{Name: "p" + name, Kind: "jsonArray", Input: in.Name, Params: map[string]Param{"q": {inProps[0], name, ""}, "r": {inProps[2], name, ""}}}, fmt.Sprintf("/u%d", i))
		}
	}
	for life := 0; life < 2; life++ {
		s := w.startOrFail(c, StartOpts{})
		if s == nil {
			return
		}
		for i := range fam {
			for k := 0; k < 5; k++ {
				w.Ask(c, s, "names:twins", fmt.Sprintf("/t%d?q=w%d", i, k))
				w.Ask(c, s, "names:twins", fmt.Sprintf("/t%d", i))
				w.Ask(c, s, "names:twins", fmt.Sprintf("/u%d?q=w%d", i, k))
				w.Ask(c, s, "names:twins", fmt.Sprintf("/u%d?q=w%d&r=w%d", i, k, i))
				c.Eval(fmt.Sprintf("twins|%d|%d|%d|%d", idx, life, i, k))
			}
		}
		c.Count("twin_worlds", 1)
		s.Stop()
	}
	must(os.RemoveAll(w.Dir))
}

// cases: names which only differ by the case, for everything which has a
// name; a start may be refused, but an answer is never that of the twin.
func (c *C) cases(idx int) {
	r := c.Rng("cases", idx)
	pairs := [][]string{{"key", "Key", "KEY"}, {"é", "É"}, {"a b", "A b"}, {"ı", "I", "i"}, {"ß", "SS", "ẞ"}, {"k", "\u212a"}, {"σ", "ς", "Σ"}}
	names := pairs[idx%len(pairs)]
	kind := []string{"csv", "json", "xml"}[idx/len(pairs)%3]
	ixKind := pick(r, "map", "wildcard", "map", "sqlite", "fts5")
	w := NewWorld(c.dir("k%d", idx))
	w.AddParser(&PDef{Name: names[0], Type: "string"})
	for _, in := range names {
		recs := []Rec{}
		var b strings.Builder
		cols, ps := A{}, A{}
		for j, p := range names {
			cols = append(cols, M{"name": p, "parser": names[0]})
			ps = append(ps, M{"name": p, "xpath": fmt.Sprintf("string(p%d)", j), "type": "primitive"})
		}
		for k := 0; k < 9; k++ {
			rec := Rec{}
			row := []string{}
			for j, p := range names {
				v := fmt.Sprintf("w%d", (k+len(in)*7+int(in[0])+j*3)%(4+j))
				rec[p] = v
				row = append(row, v)
			}
			recs = append(recs, rec)
			switch kind {
			case "csv":
				b.WriteString(strings.Join(row, ",") + "\n")
			case "json":
				jsonEncode(r, &b, rec)
				b.WriteString("\n")
			case "xml":
				b.WriteString("<rec>")
				for j, v := range row {
					b.WriteString(fmt.Sprintf("<p%d>%s</p%d>", j, v, j))
				}
				b.WriteString("</rec>")
			}
		}
		conf := M{"columns": cols}
		text := b.String()
		switch kind {
		case "json":
			conf = M{}
		case "xml":
			conf = M{"recordXpath": "/root/rec", "properties": ps}
			text = "<root>" + text + "</root>"
		}
		file := fmt.Sprintf("%x.%s", in, kind)
		must(os.WriteFile(filepath.Join(w.Dir, file), []byte(text), 0644))
		w.AddInput(&Input{Name: in, Kind: kind, File: file, Conf: conf, Recs: recs, Strict: kind != "json"})
	}
	for i, name := range names {
		in := names[(i+1)%len(names)]
		ix := &Index{Name: name, Kind: ixKind, Input: in}
		ips := []IProp{}
		for _, p := range names {
			ips = append(ips, IProp{p, ""})
		}
		switch ixKind {
		case "wildcard":
			ix.Path = fmt.Sprintf("%x.idx", name)
		case "sqlite", "fts5": // their names ignore the case
			ix.Path = pick(r, "shared.db", fmt.Sprintf("%x.db", name))
			ips = ips[i : i+1]
			p := names[i]
			ix.FtsMatch = func(rec Rec, q string) (bool, error) { return rec[p] == q, nil }
		}
		ix.Props = ips
		w.AddIndex(ix)
		params, scans := map[string]Param{}, map[string]Param{}
		for _, p := range names {
			scans[p] = Param{p, "", ""}
			if len(ips) > 1 || p == names[i] {
				params[p] = Param{p, name, names[0]}
				if ixKind == "fts5" {
					params[p] = Param{"match", name, ""}
				}
			}
		}
		w.AddOutput(&Output{Name: name, Kind: "jsonArray", Input: in, Params: params}, "/i/"+name)
		w.AddOutput(&Output{Name: name + " scan", Kind: "jsonArray", Input: in, Params: scans}, "/s/"+name)
	}
	for life := 0; life < 2; life++ {
		s, err := w.Start(c, StartOpts{})
		if err != nil {
			if s == nil || s.code == 0 || crashed(s.Log.String()) || !strings.Contains(s.Log.String(), "level=error") {
				c.Fail("names:case", M{"names": names, "index": ixKind, "input": kind, "error": err.Error()})
			}
			c.Count("cases_refused", 1)
			c.Eval(fmt.Sprintf("case|%s|%s|%s", names[0], ixKind, kind))
			break
		}
		for i, name := range names {
			for _, p := range names {
				for _, route := range []string{"/i/", "/s/"} {
					if route == "/i/" && p != names[i] && (ixKind == "sqlite" || ixKind == "fts5") {
						continue
					}
					for k := 0; k < 6; k++ {
						w.Ask(c, s, "names:case", route+url.PathEscape(name)+"?"+url.QueryEscape(p)+fmt.Sprintf("=w%d", k))
						c.Eval(fmt.Sprintf("case|%s|%s|%s|%d|%s|%s|%d", name, ixKind, kind, life, route, p, k))
					}
				}
			}
			w.Ask(c, s, "names:case", "/i/"+url.PathEscape(strings.ToUpper(name))+"?limit=3")
			w.Ask(c, s, "names:case", "/I/"+url.PathEscape(name))
		}
		c.Count("case_worlds", 1)
		s.Stop()
	}
	must(os.RemoveAll(w.Dir))
}

// reserved: names a library reserves are refused, or treated literally.
func (c *C) reserved(idx int) {
	r := c.Rng("reserved", idx)
	prop := []string{"rank", "rowid", "__offset", "RANK", "oid", "_rowid_", "offset", "rodb_x_index", "a\x00b", "a\x00c", "property_a", "docid", "x unindexed", "content=''", "\x00", "tokenize", "limit"}[idx%17]
	kind := []string{"fts5", "sqlite", "map", "wildcard"}[idx/17%4]
	w := NewWorld(c.dir("r%d", idx))
	in := w.CsvInput(r, "in", 9, []Field{
		{"id", "integer", func(r randT, k int) (string, any) { return fmt.Sprint(k), int64(k) }},
		{prop, "string", func(r randT, k int) (string, any) { s := fmt.Sprintf("w%d", k%3); return s, s }},
		{"other", "string", func(r randT, k int) (string, any) { s := fmt.Sprintf("w%d", k%4); return s, s }}}, CsvOpts{})
	ix := &Index{Name: "x", Kind: kind, Input: in.Name, Path: "x.db", Props: []IProp{{prop, ""}, {"other", ""}}}
	param := Param{prop, "x", ""}
	if kind == "fts5" {
		param.Prop = "match"
		ix.FtsMatch = func(rec Rec, q string) (bool, error) { return rec[prop] == q || rec["other"] == q, nil }
	}
	w.AddIndex(ix)
	w.AddOutput(&Output{Name: "o", Kind: "jsonArray", Input: "in", Params: map[string]Param{"q": param}}, "/all")
	for life := 0; life < 2; life++ {
		s, err := w.Start(c, StartOpts{})
		if err != nil {
			if s == nil || s.code == 0 || crashed(s.Log.String()) || !strings.Contains(s.Log.String(), "level=error") {
				c.Fail("names:reserved", M{"property": prop, "index": kind, "error": err.Error()})
			}
			c.Count("reserved_refused", 1)
			c.Eval("reserved|" + kind + "|" + prop)
			return
		}
		for k := 0; k < 5; k++ {
			w.Ask(c, s, "names:reserved", fmt.Sprintf("/all?q=w%d", k))
		}
		c.Count("reserved_accepted", 1)
		c.Eval("reserved|" + kind + "|" + prop)
		s.Stop()
	}
	must(os.RemoveAll(w.Dir))
}

// config texts which end up in SQL statements: refused, or without any effect
// on the rest of the database.
func (c *C) sqlTexts(idx int) {
	r := c.Rng("sqltext", idx)
	tok := []string{`unicode61"); DROP TABLE canary; --`, `unicode61'); DROP TABLE canary; --`, `x"`, `'`, `unicode61 "`, `unicode61", content=""`, `unicode61", "x`, `ascii'`,
		`unicode61"); CREATE TABLE evil(a); --`, `porter unicode61"', prefix='1'`, `;`, "unicode61\n", "unicode61 separators \"'\""}
	t := tok[idx%len(tok)]
	w := NewWorld(c.dir("q%d", idx))
	in := w.CsvInput(r, "in", 9, []Field{{"a", "string", func(r randT, k int) (string, any) { s := fmt.Sprintf("w%d", k%3); return s, s }}}, CsvOpts{})
	_ = in
	db := filepath.Join(w.Dir, "shared.db")
	if _, err := python(canaryMake, db); err != nil {
		return
	}
	before, _ := python(canaryRead, db)
	w.AddIndex(&Index{Name: "f", Kind: "fts5", Input: "in", Path: "shared.db", Props: []IProp{{"a", ""}}, Tokenize: t,
		FtsMatch: func(rec Rec, q string) (bool, error) { return rec["a"] == q, nil }})
	w.AddIndex(&Index{Name: "s", Kind: "sqlite", Input: "in", Path: "shared.db", Props: []IProp{{"a", ""}}})
	w.AddOutput(&Output{Name: "o", Kind: "jsonArray", Input: "in", Params: map[string]Param{"q": {"match", "f", ""}}}, "/f")
	w.AddOutput(&Output{Name: "p", Kind: "jsonArray", Input: "in", Params: map[string]Param{"q": {"a", "s", ""}}}, "/s")
	s, err := w.Start(c, StartOpts{})
	if err != nil {
		if s == nil || s.code == 0 || crashed(s.Log.String()) {
			c.Fail("names:tokenize", M{"tokenize": t, "error": err.Error()})
		}
		c.Count("tokenize_refused", 1)
	} else {
		w.Ask(c, s, "names:tokenize", "/f?q=w1")
		w.Ask(c, s, "names:tokenize", "/s?q=w1")
		c.Count("tokenize_accepted", 1)
		s.Stop()
	}
	after, err := python(canaryRead, db)
	if err != nil || after != before {
		c.Fail("names:tokenize:foreign tables", M{"tokenize": t, "before": clip(before), "after": clip(after)})
	}
	if n, err := python("import sqlite3,sys\nprint([r[0] for r in sqlite3.connect(sys.argv[1]).execute('select name from sqlite_master') if 'evil' in r[0]])", db); err == nil && strings.TrimSpace(n) != "[]" {
		c.Fail("names:tokenize:table created", M{"tokenize": t, "tables": n})
	}
	c.Eval("tokenize|" + t)
	must(os.RemoveAll(w.Dir))
}

func c26(c *C) {
	c.Binary("plain")
	c.phase("names", func() { parallel(c.Q(240, 1500), 6, func(i int) { c.names(i) }) })
	c.phase("twins", func() { parallel(c.Q(96, 400), 6, func(i int) { c.twins(i) }) })
	c.phase("cases", func() { parallel(c.Q(63, 420), 6, func(i int) { c.cases(i) }) })
	c.phase("reserved", func() { parallel(68, 6, func(i int) { c.reserved(i) }) })
	c.phase("texts", func() { parallel(13, 6, func(i int) { c.sqlTexts(i) }) })
}
