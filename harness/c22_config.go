package main

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"math/big"
	"net"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"time"
)

func init() {
	register(&Check{ID: "C22", Level: "exploration", Min: 400,
		Rule: "one started server per distinct configuration mutation, judged as refused or honoured",
		Fn:   c22})
}

// selfSigned writes a certificate and its key.
func selfSigned(dir, name string) (cert, key string) {
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	must(err)
	t := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "localhost"},
		NotBefore: time.Now().Add(-24 * time.Hour), NotAfter: time.Now().Add(240 * time.Hour),
		DNSNames: []string{"localhost"}, IPAddresses: []net.IP{net.ParseIP("127.0.0.1")}}
	der, err := x509.CreateCertificate(rand.Reader, t, t, &k.PublicKey, k)
	must(err)
	kb, err := x509.MarshalECPrivateKey(k)
	must(err)
	cert, key = name+".crt", name+".key"
	must(os.WriteFile(filepath.Join(dir, cert), pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0644))
	must(os.WriteFile(filepath.Join(dir, key), pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kb}), 0600))
	return
}

// What the documentation says about each setting.
type setting struct {
	typ  string // str, bool, int, uint, strs, ints, map:KIND, list:KIND, dict:KIND, ref:SECTION, enum:a|b, file
	req  bool
	def  any  // the documented default
	keep bool // never omit it (mode switch)
}

var docSchema = map[string]map[string]setting{
	"":                   {"parsers": {typ: "list:parsers"}, "inputs": {typ: "list:inputs"}, "indexes": {typ: "list:indexes"}, "outputs": {typ: "list:outputs"}, "services": {typ: "list:services"}},
	"parsers.string":     {"name": {typ: "str", req: true}, "type": {typ: "type", req: true}, "convertFromCharset": {typ: "str", def: ""}},
	"parsers.integer":    {"name": {typ: "str", req: true}, "type": {typ: "type", req: true}, "ignoreCharacters": {typ: "str", def: ""}},
	"parsers.float":      {"name": {typ: "str", req: true}, "type": {typ: "type", req: true}, "decimalSeparator": {typ: "str", req: true}, "ignoreCharacters": {typ: "str", def: ""}},
	"parsers.boolean":    {"name": {typ: "str", req: true}, "type": {typ: "type", req: true}, "trueValues": {typ: "strs", req: true}, "falseValues": {typ: "strs", req: true}},
	"parsers.json":       {"name": {typ: "str", req: true}, "type": {typ: "type", req: true}},
	"parsers.split":      {"name": {typ: "str", req: true}, "type": {typ: "type", req: true}, "delimiter": {typ: "str", req: true}, "delimiterIsRegexp": {typ: "bool", def: false}, "parser": {typ: "ref:parsers", req: true}},
	"inputs.csv":         {"name": {typ: "str", req: true}, "type": {typ: "type", req: true}, "path": {typ: "file", req: true}, "delimiter": {typ: "str", def: ","}, "autodetectColumns": {typ: "bool", def: false}, "ignoreFirstRow": {typ: "bool", def: false}, "columns": {typ: "list:column", req: true}, "dieOnInputChange": {typ: "bool", def: true}},
	"column":             {"name": {typ: "str", req: true}, "parser": {typ: "ref:parsers", def: "string"}},
	"inputs.json":        {"name": {typ: "str", req: true}, "type": {typ: "type", req: true}, "path": {typ: "file", req: true}, "dieOnInputChange": {typ: "bool", def: true}},
	"inputs.xml":         {"name": {typ: "str", req: true}, "type": {typ: "type", req: true}, "path": {typ: "file", req: true}, "recordXpath": {typ: "str", req: true}, "properties": {typ: "list:xmlprop", req: true}, "dieOnInputChange": {typ: "bool", def: true}},
	"xmlprop.primitive":  {"name": {typ: "str", req: true}, "type": {typ: "enum:primitive|array|object", def: "primitive"}, "xpath": {typ: "str", req: true}, "parser": {typ: "ref:parsers", def: "string"}},
	"xmlprop.array":      {"name": {typ: "str", req: true}, "type": {typ: "enum:primitive|array|object", req: true}, "xpath": {typ: "str", req: true}, "items": {typ: "map:xmlitem", req: true}},
	"xmlprop.object":     {"name": {typ: "str", req: true}, "type": {typ: "enum:primitive|array|object", req: true}, "xpath": {typ: "str", req: true}, "properties": {typ: "list:xmlprop", req: true}},
	"xmlitem.primitive":  {"type": {typ: "enum:primitive|array|object", def: "primitive"}, "xpath": {typ: "str", req: true}, "parser": {typ: "ref:parsers", def: "string"}},
	"indexes.map":        {"name": {typ: "str", req: true}, "type": {typ: "type", req: true}, "input": {typ: "ref:inputs", req: true}, "properties": {typ: "strs", req: true}},
	"indexes.noop":       {"name": {typ: "str", req: true}, "type": {typ: "type", req: true}},
	"indexes.sqlite":     {"name": {typ: "str", req: true}, "type": {typ: "type", req: true}, "dsn": {typ: "str", req: true}, "input": {typ: "ref:inputs", req: true}, "properties": {typ: "list:sqliteprop", req: true}},
	"sqliteprop":         {"name": {typ: "str", req: true}, "collate": {typ: "enum:binary|nocase|rtrim", def: "binary"}},
	"indexes.fts5":       {"name": {typ: "str", req: true}, "type": {typ: "type", req: true}, "dsn": {typ: "str", req: true}, "input": {typ: "ref:inputs", req: true}, "prefix": {typ: "ints", def: A{}}, "tokenize": {typ: "str", def: "unicode61"}, "properties": {typ: "strs", req: true}},
	"indexes.wildcard":   {"name": {typ: "str", req: true}, "type": {typ: "type", req: true}, "path": {typ: "str", req: true}, "input": {typ: "ref:inputs", req: true}, "ignoreCase": {typ: "bool", def: false}, "properties": {typ: "strs", req: true}},
	"outputs.jsonArray":  {"name": {typ: "str", req: true}, "type": {typ: "type", req: true}, "input": {typ: "ref:inputs", req: true}, "limit": {typ: "map:limit", def: M{"default": 100, "max": 1000, "parameter": "limit"}}, "offset": {typ: "map:offset", def: M{"parameter": "offset"}}, "parameters": {typ: "dict:parameter"}, "relationships": {typ: "dict:relationship"}},
	"outputs.jsonObject": {"name": {typ: "str", req: true}, "type": {typ: "type", req: true}, "input": {typ: "ref:inputs", req: true}, "parameters": {typ: "dict:parameter", req: true}, "relationships": {typ: "dict:relationship"}},
	"limit":              {"default": {typ: "uint", def: 100}, "max": {typ: "uint", def: 1000}, "parameter": {typ: "str", def: "limit"}},
	"offset":             {"parameter": {typ: "str", def: "offset"}},
	"parameter":          {"property": {typ: "str", req: true}, "index": {typ: "ref:indexes", def: "default"}, "parser": {typ: "ref:parsers", def: "string"}},
	"relationship":       {"input": {typ: "ref:inputs", req: true}, "isArray": {typ: "bool", def: false}, "limit": {typ: "uint"}, "sort": {typ: "list:sort"}, "match": {typ: "list:match", req: true}, "relationships": {typ: "dict:relationship"}},
	"sort":               {"property": {typ: "str", req: true}, "ascending": {typ: "bool", def: true}},
	"match":              {"parentProperty": {typ: "str", req: true}, "childProperty": {typ: "str", req: true}, "childIndex": {typ: "ref:indexes", def: "default"}},
	"services.http":      {"name": {typ: "str", req: true}, "type": {typ: "type", req: true}, "http": {typ: "map:http", keep: true}, "https": {typ: "map:https", keep: true}, "errorsType": {typ: "enum:application/json", def: "application/json"}, "routes": {typ: "list:route", req: true}},
	"http":               {"listen": {typ: "str", def: "127.0.0.1:0", keep: true}},
	"https":              {"listen": {typ: "str", def: "127.0.0.1:0", keep: true}, "certificatePath": {typ: "file", req: true}, "privateKeyPath": {typ: "file", req: true}},
	"route":              {"path": {typ: "str", req: true}, "output": {typ: "ref:outputs", req: true}},
}

// A place of the configuration: the mapping holding it and its documentation.
type place struct {
	path string
	kind string
	m    M
	// the container and key of the mapping itself, to replace or remove it
	set func(v any)
}

func deepCopy(v any) any {
	switch t := v.(type) {
	case M:
		o := M{}
		for k, e := range t {
			o[k] = deepCopy(e)
		}
		return o
	case A:
		o := make(A, len(t))
		for i, e := range t {
			o[i] = deepCopy(e)
		}
		return o
	case []string:
		o := make(A, len(t))
		for i, e := range t {
			o[i] = e
		}
		return o
	case []int:
		o := make(A, len(t))
		for i, e := range t {
			o[i] = e
		}
		return o
	}
	return v
}

func kindOf(kind string, m M) string {
	t, _ := m["type"].(string)
	switch kind {
	case "parsers", "inputs", "indexes", "outputs", "services":
		return kind + "." + t
	case "xmlprop", "xmlitem":
		if t == "" {
			t = "primitive"
		}
		return kind + "." + t
	}
	return kind
}

// places lists all the mappings of a configuration in a fixed order.
func places(cfg M) []place {
	var out []place
	var walk func(path, kind string, m M, set func(v any))
	walk = func(path, kind string, m M, set func(v any)) {
		kind = kindOf(kind, m)
		out = append(out, place{path, kind, m, set})
		sch := docSchema[kind]
		for _, k := range sortedKeys(m) {
			k := k
			typ := sch[k].typ
			switch {
			case strings.HasPrefix(typ, "list:"):
				l, _ := m[k].(A)
				for i := range l {
					i := i
					if e, ok := l[i].(M); ok {
						walk(fmt.Sprintf("%s.%s[%d]", path, k, i), typ[5:], e, func(v any) { l[i] = v })
					}
				}
			case strings.HasPrefix(typ, "dict:"):
				d, _ := m[k].(M)
				for _, n := range sortedKeys(d) {
					n := n
					if e, ok := d[n].(M); ok {
						walk(fmt.Sprintf("%s.%s.%s", path, k, n), typ[5:], e, func(v any) { d[n] = v })
					}
				}
			case strings.HasPrefix(typ, "map:"):
				if e, ok := m[k].(M); ok {
					walk(path+"."+k, typ[4:], e, func(v any) { m[k] = v })
				}
			}
		}
	}
	walk("", "", cfg, func(any) {})
	return out
}

type confCase struct {
	name string
	// edit changes the configuration; false when it does not apply
	edit func(cfg M) bool
	want string // refuse, same, any
	raw  func(s string) string
}

// yamlBlock renders a configuration in YAML's block style.
func yamlBlock(r randT, v any, ind string) string {
	var b strings.Builder
	switch t := v.(type) {
	case M:
		if len(t) == 0 {
			return " {}\n"
		}
		b.WriteString("\n")
		keys := sortedKeys(t)
		r.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
		for _, k := range keys {
			if r.Intn(12) == 0 {
				b.WriteString(ind + "# a comment: with {braces} and 'quotes'\n\n")
			}
			b.WriteString(ind + yamlScalar(r, k) + ":" + yamlBlock(r, t[k], ind+"  "))
		}
	case A:
		if len(t) == 0 {
			return " []\n"
		}
		b.WriteString("\n")
		for _, e := range t {
			if m, ok := e.(M); ok && len(m) > 0 {
				s := yamlBlock(r, m, ind+"  ")
				// the first entry goes on the line of the dash
				s = strings.TrimPrefix(s, "\n")
				if strings.HasPrefix(s, ind+"  ") && !strings.HasPrefix(s, ind+"  #") {
					b.WriteString(ind + "- " + s[len(ind)+2:])
					continue
				}
				b.WriteString(ind + "-\n" + s)
				continue
			}
			b.WriteString(ind + "-" + yamlBlock(r, e, ind+"  "))
		}
	default:
		return " " + yamlScalar(r, v) + "\n"
	}
	return b.String()
}

var plainScalar = regexp.MustCompile(`^[A-Za-z/][A-Za-z0-9_./]*$`)

func yamlScalar(r randT, v any) string {
	s, ok := v.(string)
	if !ok {
		d, err := json.Marshal(v)
		must(err)
		return string(d)
	}
	if plainScalar.MatchString(s) && s != "true" && s != "false" && s != "null" && s != "no" && s != "y" && s != "n" && s != "yes" && r.Intn(2) == 0 {
		return s
	}
	if !strings.ContainsAny(s, "'\n$") && r.Intn(2) == 0 {
		return "'" + s + "'"
	}
	d, err := json.Marshal(s)
	must(err)
	return strings.ReplaceAll(string(d), "$", `\u0024`)
}

type confWorld struct {
	c     *C
	dir   string
	cfg   M
	asks  []string
	want  map[string]string
	byTyp map[string]string
}

// confBase builds a configuration in which every optional setting is given its
// documented default value.
func (c *C) confBase(dir string) *confWorld {
	must(os.MkdirAll(dir, 0755))
	var b strings.Builder
	for i := 0; i < 1100; i++ {
		fmt.Fprintf(&b, "%d,Name%d,c%d,%d.5,%s,\"1|2|%d\"\n", i, i%37, i%7, i, pickAt(i, "true", "false", "1", "0"), i%5)
	}
	must(os.WriteFile(filepath.Join(dir, "a.csv"), []byte(b.String()), 0644))
	b.Reset()
	for i := 0; i < 12; i++ {
		fmt.Fprintf(&b, "{\"id\": %d, \"cat\": \"c%d\", \"text\": \"Some words %d here\", \"t\": [1, \"%d\"], \"o\": {\"x\": %d}}\n", i, i%7, i%4, i%3, i%5)
	}
	must(os.WriteFile(filepath.Join(dir, "j.json"), []byte(b.String()), 0644))
	b.Reset()
	b.WriteString("<root>\n")
	for i := 0; i < 10; i++ {
		fmt.Fprintf(&b, "<rec id=\"%d\"><name>N%d</name><cat>c%d</cat><tags><t>a%d</t><t>b</t></tags><obj><k>%d</k></obj><list><e v=\"%d\"><w>x</w><in><x>y</x></in></e></list></rec>\n", i, i%5, i%7, i%3, i, i%2)
	}
	b.WriteString("</root>\n")
	must(os.WriteFile(filepath.Join(dir, "x.xml"), []byte(b.String()), 0644))
	cert, key := selfSigned(dir, "tls")
	rel := func(input, parent, child, index string, extra M) M {
		m := M{"input": input, "isArray": false, "match": A{M{"parentProperty": parent, "childProperty": child, "childIndex": index}}}
		for k, v := range extra {
			m[k] = v
		}
		return m
	}
	cfg := M{
		"parsers": A{
			M{"name": "str", "type": "string", "convertFromCharset": ""},
			M{"name": "int", "type": "integer", "ignoreCharacters": ""},
			M{"name": "flt", "type": "float", "ignoreCharacters": "", "decimalSeparator": "."},
			M{"name": "bool", "type": "boolean", "trueValues": A{"true", "1"}, "falseValues": A{"false", "0"}},
			M{"name": "js", "type": "json"},
			M{"name": "ints", "type": "split", "delimiter": "|", "delimiterIsRegexp": false, "parser": "int"},
			M{"name": "nested", "type": "split", "delimiter": ";", "delimiterIsRegexp": false, "parser": "ints"},
		},
		"inputs": A{
			M{"name": "a", "type": "csv", "path": "a.csv", "delimiter": ",", "autodetectColumns": false, "ignoreFirstRow": false, "dieOnInputChange": true,
				"columns": A{M{"name": "id", "parser": "integer"}, M{"name": "name", "parser": "string"}, M{"name": "cat", "parser": "str"}, M{"name": "price", "parser": "flt"}, M{"name": "flag", "parser": "bool"}, M{"name": "tags", "parser": "nested"}}},
			M{"name": "j", "type": "json", "path": "j.json", "dieOnInputChange": true},
			M{"name": "x", "type": "xml", "path": "x.xml", "dieOnInputChange": true, "recordXpath": "//rec", "properties": A{
				M{"name": "id", "type": "primitive", "xpath": "string(@id)", "parser": "integer"},
				M{"name": "name", "type": "primitive", "xpath": "string(name)", "parser": "string"},
				M{"name": "cat", "type": "primitive", "xpath": "string(cat)", "parser": "string"},
				M{"name": "tags", "type": "array", "xpath": "tags/t", "items": M{"type": "primitive", "xpath": "string(.)", "parser": "string"}},
				M{"name": "obj", "type": "object", "xpath": "obj", "properties": A{M{"name": "k", "type": "primitive", "xpath": "string(k)", "parser": "str"}}},
				M{"name": "list", "type": "array", "xpath": "list/e", "items": M{"type": "object", "xpath": ".", "properties": A{
					M{"name": "v", "type": "primitive", "xpath": "string(@v)", "parser": "int"},
					M{"name": "ws", "type": "array", "xpath": "w", "items": M{"type": "primitive", "xpath": "string(.)", "parser": "string"}},
					M{"name": "in", "type": "object", "xpath": "in", "properties": A{M{"name": "x", "type": "primitive", "xpath": "string(x)", "parser": "string"}}}}}},
				M{"name": "deep", "type": "object", "xpath": "obj", "properties": A{
					M{"name": "ks", "type": "array", "xpath": "k", "items": M{"type": "object", "xpath": ".", "properties": A{M{"name": "k", "type": "primitive", "xpath": "number(.)", "parser": "int"}}}}}},
			}},
		},
		"indexes": A{
			M{"name": "m", "type": "map", "input": "a", "properties": A{"id", "cat"}},
			M{"name": "n", "type": "noop"},
			M{"name": "s", "type": "sqlite", "dsn": ":memory:", "input": "a", "properties": A{M{"name": "name", "collate": "binary"}, M{"name": "price", "collate": "binary"}}},
			M{"name": "f", "type": "fts5", "dsn": ":memory:", "input": "j", "prefix": A{}, "tokenize": "unicode61", "properties": A{"text"}},
			M{"name": "w", "type": "wildcard", "path": "w.idx", "input": "x", "ignoreCase": false, "properties": A{"name"}},
			M{"name": "mj", "type": "map", "input": "j", "properties": A{"cat", "o.x"}},
		},
		"outputs": A{
			M{"name": "la", "type": "jsonArray", "input": "a", "limit": M{"default": 100, "max": 1000, "parameter": "limit"}, "offset": M{"parameter": "offset"},
				"parameters": M{"id": M{"property": "id", "index": "m", "parser": "int"}, "name": M{"property": "name", "index": "s", "parser": "string"},
					"cat": M{"property": "cat", "index": "default", "parser": "string"}, "price": M{"property": "price", "index": "s", "parser": "flt"}}},
			M{"name": "lj", "type": "jsonArray", "input": "j", "limit": M{"default": 100, "max": 1000, "parameter": "limit"}, "offset": M{"parameter": "offset"},
				"parameters": M{"q": M{"property": "match", "index": "f", "parser": "string"}, "cat": M{"property": "cat", "index": "n", "parser": "str"}},
				"relationships": M{
					"xs":  rel("x", "cat", "cat", "default", M{"isArray": true, "limit": 2, "sort": A{M{"property": "name", "ascending": true}, M{"property": "id", "ascending": false}}}),
					"one": rel("a", "cat", "cat", "m", M{"relationships": M{"same": rel("j", "cat", "cat", "mj", M{"isArray": true, "limit": 3})}}),
				}},
			M{"name": "oa", "type": "jsonObject", "input": "a", "parameters": M{"id": M{"property": "id", "index": "m", "parser": "integer"}},
				"relationships": M{"x": rel("x", "id", "id", "n", nil)}},
			M{"name": "of", "type": "jsonObject", "input": "a", "parameters": M{"flag": M{"property": "flag", "index": "default", "parser": "bool"}}},
			M{"name": "ox", "type": "jsonObject", "input": "x", "parameters": M{"name": M{"property": "name", "index": "w", "parser": "string"}}},
		},
		"services": A{M{"name": "svc", "type": "http", "http": M{"listen": ""}, "https": M{"listen": "127.0.0.1:0", "certificatePath": cert, "privateKeyPath": key},
			"errorsType": "application/json", "routes": A{
				M{"path": "/a", "output": "la"}, M{"path": "/j", "output": "lj"}, M{"path": "/a/{id}", "output": "oa"}, M{"path": "/x/{name}", "output": "ox"}, M{"path": "/f/{flag}/x", "output": "of"}}}},
	}
	return &confWorld{c: c, dir: dir, cfg: cfg, want: map[string]string{}, asks: []string{
		"/a", "/a?limit=3&offset=5", "/a?limit=5000", "/a?cat=c3&limit=4", "/a?name=Name3", "/a?name=name3", "/a?price=7.5", "/a?id=12", "/a?id=zz", "/a?limit=-1", "/a?offset=1099",
		"/j", "/j?q=words", "/j?q=wo*", "/j?q=WORDS%20AND%203", "/j?cat=c2", "/j?limit=1", "/j?offset=11",
		"/a/7", "/a/99999", "/a/-1", "/x/N", "/x/n", "/x/N3", "/f/true/x", "/f/0/x", "/f/TRUE/x", "/nowhere", "/a/x"}}
}

func pickAt(i int, v ...string) string { return v[i%len(v)] }

var crashMark = regexp.MustCompile(`(?m)^(panic:|fatal error:|goroutine \d+ \[|SIG[A-Z]+: )`)

// run starts a server on the configuration text, in its own directory.
func (w *confWorld) run(name, want, text string, port int, detail M) (outcome string) {
	c := w.c
	dir, err := os.MkdirTemp(c.Work, "conf-")
	must(err)
	defer os.RemoveAll(dir)
	for _, f := range []string{"a.csv", "j.json", "x.xml", "tls.crt", "tls.key"} {
		must(os.Symlink(filepath.Join(w.dir, f), filepath.Join(dir, f)))
	}
	path := filepath.Join(dir, "rodb.yaml")
	must(os.WriteFile(path, []byte(text), 0644))
	d := M{"case": name, "want": want}
	for k, v := range detail {
		d[k] = v
	}
	s := c.Spawn(dir, path, StartOpts{Port: port, Env: []string{"CONF_PATH=a.csv", "CONF_NAME=svc"}})
	defer s.Kill()
	// several moments of life: refused (exit), or serving
	up, err := false, error(nil)
	for try := 0; try < 40; try++ {
		if up, err = s.WaitUp(3 * time.Second); err == nil {
			break
		}
		if want == "any" && s.owns(-1) {
			// without the address it was given, only by https or on any port
			if code, ok := s.Stop(); !ok || code != 0 {
				d["exit"], d["log"] = code, tail(s.Log.String(), 1500)
				c.Fail("stop", d, path)
			}
			return "elsewhere"
		}
	}
	if err != nil {
		d["error"] = err.Error()
		c.Fail("hang", d, path)
		return "hang"
	}
	if !up {
		log := s.Log.String()
		d["exit"], d["log"] = s.code, tail(log, 1200)
		switch {
		case (strings.Contains(log, "address already in use") || s.noWatchers()) && want != "refuse":
			return "busy"
		case crashMark.MatchString(log) || s.code == 2 || s.signal != "":
			c.Fail("crash", d, path)
		case s.code == 0 && want != "any":
			c.Fail("exit-0", d, path)
		case s.code != 0 && !strings.Contains(log, "level=error") && !strings.Contains(log, "level=fatal"):
			c.Fail("no-message", d, path)
		case want == "same":
			c.Fail("valid-refused", d, path)
		}
		return "refused"
	}
	if want == "refuse" {
		// it may be about to end
		if code, ok := s.WaitExit(1500 * time.Millisecond); ok {
			if code == 0 || crashMark.MatchString(s.Log.String()) {
				d["exit"], d["log"] = code, tail(s.Log.String(), 1200)
				c.Fail("bad-end", d, path)
			}
			return "refused"
		}
		d["answer"] = tail(string(s.Get("/a").Body), 300)
		d["log"] = tail(s.Log.String(), 600)
		c.Fail("invalid-accepted", d, path)
		return "accepted"
	}
	for _, q := range w.asks {
		r := s.Get(q)
		d["request"] = q
		if r.Err != nil {
			d["error"], d["log"] = r.Err.Error(), tail(s.Log.String(), 1500)
			c.Fail("no-answer", d, path)
			break
		}
		got := fmt.Sprintf("%d %s", r.Status, r.Body)
		if want == "same" && r.Status == 200 && got != w.want[q] || want == "same" && r.Status != 200 && got[:3] != w.want[q][:3] {
			d["expected"], d["got"] = tail(w.want[q], 400), tail(got, 400)
			c.Fail("default-differs", d, path)
			break
		}
		if m := wellFormed(r, false, true); m != "" {
			d["got"], d["why"] = tail(got, 400), m
			c.Fail("malformed-answer", d, path)
			break
		}
	}
	if s.Exited() || crashMark.MatchString(s.Log.String()) {
		d["log"] = tail(s.Log.String(), 1500)
		c.Fail("crash-serving", d, path)
		return "crash"
	}
	if code, ok := s.Stop(); !ok || code != 0 {
		d["exit"], d["log"] = code, tail(s.Log.String(), 1500)
		c.Fail("stop", d, path)
	}
	return "served"
}

func (w *confWorld) text(cfg M, port int, block randT) string {
	svcs, _ := cfg["services"].(A)
	for _, x := range svcs {
		if m, ok := x.(M); ok {
			if h, ok := m["http"].(M); ok {
				if l, isStr := h["listen"].(string); isStr && l == "" {
					h["listen"] = fmt.Sprintf("127.0.0.1:%d", port)
				}
			}
		}
	}
	if block != nil {
		return strings.TrimPrefix(yamlBlock(block, cfg, ""), "\n")
	}
	data, err := json.MarshalIndent(cfg, "", " ")
	must(err)
	return strings.ReplaceAll(string(data), "$", `\u0024`)
}

// cases enumerates the single mutations.
func (w *confWorld) cases() []confCase {
	var out []confCase
	add := func(want, name string, edit func(cfg M) bool) {
		out = append(out, confCase{name: name, want: want, edit: edit})
	}
	for pi, p := range places(w.cfg) {
		pi, p := pi, p
		at := func(fn func(p place) bool) func(cfg M) bool {
			return func(cfg M) bool { return fn(places(cfg)[pi]) }
		}
		sch := docSchema[p.kind]
		put := func(want, what, key string, v any) {
			add(want, fmt.Sprintf("%s %s.%s=%v", what, p.path, key, show(v)), at(func(p place) bool { p.m[key] = deepCopy(v); return true }))
		}
		add("refuse", "unknown key in "+p.path, at(func(p place) bool { p.m["unknownSetting"] = "x"; return true }))
		if p.path != "" {
			for _, v := range []any{nil, "text", 12, A{}, A{"x"}, true} {
				v := v
				want := "refuse"
				if v == nil && (p.kind == "limit" || p.kind == "offset" || p.kind == "http" || p.kind == "https") {
					continue // same as omitted
				}
				add(want, fmt.Sprintf("%v instead of the mapping %s", v, p.path), at(func(p place) bool { p.set(v); return true }))
			}
		}
		for _, key := range sortedKeys(sch) {
			key := key
			st := sch[key]
			cur, present := p.m[key]
			if !present {
				continue
			}
			id := p.path + "." + key
			switch {
			case st.req:
				add("refuse", "without "+id, at(func(p place) bool { delete(p.m, key); return true }))
				put("refuse", "null", key, nil)
			case st.def != nil && !st.keep && fmt.Sprint(deepCopy(st.def)) == fmt.Sprint(deepCopy(cur)):
				add("same", "default for "+id, at(func(p place) bool { delete(p.m, key); return true }))
				put("same", "null", key, nil)
			}
			typ := strings.SplitN(st.typ, ":", 2)
			switch typ[0] {
			case "str", "file", "ref", "enum", "type":
				put("refuse", "ill-typed", key, A{"x"})
				put("refuse", "ill-typed", key, M{"x": "y"})
				if st.req && !(p.kind == "parsers.split" && key == "delimiter") {
					put("refuse", "empty", key, "")
				}
			case "bool":
				for _, v := range []any{"maybe", 12, A{true}, M{}, 1.5} {
					put("refuse", "ill-typed", key, v)
				}
			case "int", "uint":
				for _, v := range []any{"many", A{1}, M{}, true} {
					put("refuse", "ill-typed", key, v)
				}
				if typ[0] == "uint" {
					put("refuse", "out of range", key, -1)
				}
			case "strs", "ints":
				put("refuse", "ill-typed", key, M{"x": "y"})
				put("refuse", "ill-typed", key, A{A{"x"}})
				put("refuse", "ill-typed", key, A{M{"x": "y"}})
				if st.req {
					put("refuse", "empty", key, A{})
				}
				if typ[0] == "ints" {
					put("refuse", "ill-typed", key, A{"x"})
				} else if l, _ := cur.(A); len(l) > 0 && strings.HasPrefix(p.kind, "indexes") {
					put("refuse", "duplicate", key, append(append(A{}, l...), l[0]))
				}
			case "list":
				put("refuse", "ill-typed", key, "x")
				put("refuse", "ill-typed", key, M{"x": "y"})
				put("refuse", "ill-typed", key, A{"x"})
				put("refuse", "ill-typed", key, A{A{}})
				if st.req {
					put("refuse", "empty", key, A{})
				}
				add("refuse", "null in "+id, at(func(p place) bool { p.m[key] = append(p.m[key].(A), nil); return true }))
				add("refuse", "duplicate in "+id, at(func(p place) bool {
					l := p.m[key].(A)
					p.m[key] = append(l, deepCopy(l[0]))
					return true
				}))
			case "dict":
				put("refuse", "ill-typed", key, "x")
				put("refuse", "ill-typed", key, A{"x"})
				add("refuse", "null in "+id, at(func(p place) bool { p.m[key].(M)["extra"] = nil; return true }))
			case "map":
				put("refuse", "ill-typed", key, "x")
				put("refuse", "ill-typed", key, A{"x"})
			}
			switch typ[0] {
			case "ref":
				put("refuse", "dangling", key, "doesNotExist")
				put("refuse", "dangling", key, fmt.Sprint(cur)+" ")
				put("refuse", "dangling", key, strings.ToUpper(fmt.Sprint(cur))+"X")
			case "enum":
				put("refuse", "bad enum", key, "bogus")
				put("refuse", "bad enum", key, strings.ToUpper(fmt.Sprint(cur))+"S")
			case "type":
				put("refuse", "bad type", key, "bogus")
				put("refuse", "bad type", key, 12)
				put("refuse", "bad type", key, true)
			case "file":
				put("refuse", "bad path", key, "does/not/exist")
				put("refuse", "bad path", key, ".")
				put("refuse", "bad path", key, "a.csv/x")
				put("refuse", "bad path", key, strings.Repeat("x", 5000))
				put("refuse", "bad path", key, "nul\x00byte")
			}
		}
	}
	// the settings which relate to each other or to the other components
	find := func(cfg M, section, name string) M {
		l, _ := cfg[section].(A)
		for _, e := range l {
			if m, ok := e.(M); ok && m["name"] == name {
				return m
			}
		}
		panic("no " + section + " " + name)
	}
	set := func(want, section, name, key string, v any) {
		add(want, fmt.Sprintf("%s.%s.%s=%s", section, name, key, show(v)), func(cfg M) bool { find(cfg, section, name)[key] = deepCopy(v); return true })
	}
	set("refuse", "parsers", "nested", "parser", "nested")
	for _, round := range [][]string{{"r0"}, {"r0", "r1"}, {"r0", "r1", "r2"}} {
		round := round
		add("refuse", fmt.Sprintf("parsers which lead into a cycle of %v", len(round)), func(cfg M) bool {
			for i, name := range round {
				cfg["parsers"] = append(cfg["parsers"].(A), M{"name": name, "type": "split", "delimiter": "x", "parser": round[(i+1)%len(round)]})
			}
			for i := 0; i < 20; i++ { // whichever is read first
				cfg["parsers"] = append(cfg["parsers"].(A), M{"name": fmt.Sprintf("lead%v", i), "type": "split", "delimiter": "y", "parser": "r0"})
			}
			return true
		})
	}
	add("refuse", "split cycle", func(cfg M) bool { find(cfg, "parsers", "ints")["parser"] = "nested"; return true })
	for _, re := range []string{"(", "[a", "a{2,1}", "\\", "(?P<", "*"} {
		re := re
		add("refuse", "bad regexp "+re, func(cfg M) bool {
			p := find(cfg, "parsers", "ints")
			p["delimiterIsRegexp"], p["delimiter"] = true, re
			return true
		})
	}
	add("same", "regexp delimiter", func(cfg M) bool {
		p := find(cfg, "parsers", "ints")
		p["delimiterIsRegexp"], p["delimiter"] = true, "[|]"
		return true
	})
	for _, cs := range []string{"no-such-charset", "utf8000", "-", " "} {
		set("refuse", "parsers", "str", "convertFromCharset", cs)
	}
	set("same", "parsers", "str", "convertFromCharset", "UTF-8")
	for _, d := range []string{"ab", ",,", "\"", "\n", "\r", "\r\n"} {
		set("refuse", "inputs", "a", "delimiter", d)
	}
	add("refuse", "autodetectColumns with columns", func(cfg M) bool { find(cfg, "inputs", "a")["autodetectColumns"] = true; return true })
	for _, x := range []string{"", "//", "a[", "///", "rec[@id=", "foo(", "nosuch(1)", "count(", "'unterminated", "1 +", "@", "a/", "a]", ")", "rec[1", "..//..[", "string()", "name(", "|", "a | ", "(", "!", "a::b", "child::", "/..[..", "::", "$v", "-"} {
		x := x
		want := "any"
		switch x {
		case "", "//", "a[", "///", "rec[@id=", "foo(", "nosuch(1)", "count(", "'unterminated", "1 +", "a/", "(", "name(", "a | ", "rec[1", ")":
			want = "refuse"
		}
		add(want, "recordXpath "+x, func(cfg M) bool { find(cfg, "inputs", "x")["recordXpath"] = x; return true })
		add(want, "property xpath "+x, func(cfg M) bool {
			find(cfg, "inputs", "x")["properties"].(A)[0].(M)["xpath"] = x
			return true
		})
		add(want, "items xpath "+x, func(cfg M) bool {
			find(cfg, "inputs", "x")["properties"].(A)[3].(M)["items"].(M)["xpath"] = x
			return true
		})
	}
	// inconsistent xml properties
	for i, m := range []M{
		{"name": "p", "type": "primitive", "xpath": "a", "items": M{"xpath": "b"}},
		{"name": "p", "type": "primitive", "xpath": "a", "properties": A{M{"name": "b", "xpath": "b"}}},
		{"name": "p", "type": "array", "xpath": "a"},
		{"name": "p", "type": "array", "xpath": "a", "parser": "string", "items": M{"xpath": "b"}},
		{"name": "p", "type": "array", "xpath": "a", "items": M{"xpath": "b"}, "properties": A{M{"name": "b", "xpath": "b"}}},
		{"name": "p", "type": "array", "xpath": "a", "items": M{"type": "array", "xpath": "b"}},
		{"name": "p", "type": "object", "xpath": "a"},
		{"name": "p", "type": "object", "xpath": "a", "properties": A{}},
		{"name": "p", "type": "object", "xpath": "a", "parser": "string", "properties": A{M{"name": "b", "xpath": "b"}}},
		{"name": "p", "type": "object", "xpath": "a", "items": M{"xpath": "b"}, "properties": A{M{"name": "b", "xpath": "b"}}},
		{"name": "p", "type": "object", "xpath": "a", "properties": A{M{"name": "b", "xpath": "b"}, M{"name": "b", "xpath": "c"}}},
		{"name": "p", "type": "object", "xpath": "a", "properties": A{M{"xpath": "b"}}},
		{"name": "name", "xpath": "a"},
	} {
		i, m := i, m
		add("refuse", fmt.Sprintf("inconsistent xml property %d", i), func(cfg M) bool {
			in := find(cfg, "inputs", "x")
			in["properties"] = append(in["properties"].(A), deepCopy(m))
			return true
		})
	}
	for _, t := range []string{"nosuch", "unicode61 bogus 1", "unicode61 remove_diacritics 9", "'", "a'b", "unicode61 \"", "porter nosuch"} {
		set("refuse", "indexes", "f", "tokenize", t)
	}
	for _, p := range []A{{-1}, {0}, {1000}, {2, -3}} {
		set("refuse", "indexes", "f", "prefix", p)
	}
	set("refuse", "indexes", "s", "dsn", "does/not/exist/db.sqlite")
	set("refuse", "indexes", "s", "dsn", ".")
	set("refuse", "indexes", "s", "dsn", "a.csv")
	set("refuse", "indexes", "f", "dsn", "a.csv")
	set("refuse", "indexes", "w", "path", ".")
	set("refuse", "indexes", "w", "path", "no/such/dir/w.idx")
	set("refuse", "indexes", "w", "path", "a.csv")
	set("refuse", "indexes", "w", "path", "a.csv/w.idx")
	set("refuse", "indexes", "w", "input", "j")
	set("refuse", "indexes", "m", "input", "x")
	for _, ix := range []string{"m", "s", "f", "w"} {
		set("refuse", "indexes", ix, "properties", A{M{"name": "noSuchProperty"}, "x"})
	}
	set("refuse", "indexes", "m", "properties", A{"id", "cat", "noSuchColumn"})
	set("refuse", "indexes", "s", "properties", A{M{"name": "name"}, M{"name": "price"}, M{"name": "noSuchColumn"}})
	set("refuse", "indexes", "w", "properties", A{"name", "noSuchProperty"})
	set("refuse", "outputs", "la", "limit", M{"default": 1001})
	set("refuse", "outputs", "la", "limit", M{"default": 50, "max": 49})
	set("refuse", "outputs", "la", "limit", M{"max": 99})
	set("refuse", "outputs", "la", "limit", M{"parameter": "id"})
	set("refuse", "outputs", "la", "offset", M{"parameter": "name"})
	set("refuse", "outputs", "la", "parameters", M{"limit": M{"property": "name"}})
	set("refuse", "outputs", "la", "parameters", M{"offset": M{"property": "name"}})
	set("refuse", "outputs", "oa", "parameters", M{})
	set("refuse", "outputs", "oa", "parameters", M{"flag": M{"property": "flag"}}) // the route uses {id}
	for _, ps := range []string{"js", "ints", "nested", "json"} {
		set("refuse", "outputs", "oa", "parameters", M{"id": M{"property": "id", "parser": ps}})
	}
	for _, pm := range []M{
		{"property": "price", "index": "m"}, {"property": "id", "index": "s"}, {"property": "id", "index": "f"}, {"property": "cat", "index": "mj"}, {"property": "name", "index": "w"}, {"property": "Id", "index": "m"},
	} {
		set("refuse", "outputs", "oa", "parameters", M{"id": pm})
	}
	set("refuse", "outputs", "lj", "parameters", M{"q": M{"property": "text", "index": "f"}})
	relM := func(m M) any { return M{"r": m} }
	okMatch := A{M{"parentProperty": "cat", "childProperty": "cat"}}
	for _, m := range []M{
		{"input": "nosuch", "match": okMatch},
		{"input": "x"}, {"input": "x", "match": A{}}, {"match": okMatch},
		{"input": "x", "match": append(append(A{}, okMatch...), M{"parentProperty": "o", "childProperty": "cat"})},
		{"input": "x", "match": A{M{"parentProperty": "cat", "childProperty": "cat", "childIndex": "nosuch"}}},
		{"input": "x", "match": A{M{"parentProperty": "cat", "childProperty": "cat", "childIndex": "m"}}},
		{"input": "a", "match": A{M{"parentProperty": "cat", "childProperty": "name", "childIndex": "m"}}},
		{"input": "x", "match": okMatch, "isArray": true, "sort": A{M{"property": "id"}, M{"property": "id", "ascending": false}}},
		{"input": "x", "match": okMatch, "isArray": true, "sort": A{M{"ascending": false}}},
		{"input": "x", "match": okMatch, "isArray": true, "limit": -2},
		{"input": "x", "match": okMatch, "isArray": false, "sort": A{M{"property": "id"}}},
		{"input": "x", "match": okMatch, "sort": A{M{"property": "id"}}},
		{"input": "x", "match": okMatch, "relationships": M{"s": M{"input": "nosuch", "match": okMatch}}},
		{"input": "x", "match": okMatch, "relationships": M{"s": M{"input": "x", "match": A{}}}},
		{"input": "x", "match": okMatch, "relationships": M{"s": nil}},
	} {
		set("refuse", "outputs", "lj", "relationships", relM(m))
	}
	routes := func(want string, rs ...any) { set(want, "services", "svc", "routes", A(rs)) }
	routes("refuse", M{"path": "/a", "output": "la"}, M{"path": "/a", "output": "lj"})
	routes("refuse", M{"path": "/a/{nosuch}", "output": "la"})
	routes("refuse", M{"path": "/a/{id}", "output": "ox"})
	routes("any", M{"path": "/a/{id", "output": "oa"})
	routes("any", M{"path": "/a/{id}/{id}", "output": "oa"})
	routes("any", M{"path": "a", "output": "la"})
	routes("any", M{"path": "/{}", "output": "la"})
	add("refuse", "no service transport", func(cfg M) bool {
		s := find(cfg, "services", "svc")
		delete(s, "http")
		delete(s, "https")
		return true
	})
	for _, l := range []string{"nonsense", "127.0.0.1:99999", "127.0.0.1:-1", "256.0.0.1:80", ":::", "127.0.0.1:http:x", "203.0.113.7:1"} {
		l := l
		add("refuse", "listen "+l, func(cfg M) bool {
			s := find(cfg, "services", "svc")
			s["http"] = M{"listen": l}
			delete(s, "https")
			return true
		})
		add("refuse", "https listen "+l, func(cfg M) bool {
			find(cfg, "services", "svc")["https"].(M)["listen"] = l
			return true
		})
	}
	for _, k := range []string{"certificatePath", "privateKeyPath"} {
		for _, v := range []string{"a.csv", "tls.crt", "tls.key"} {
			k, v := k, v
			add("bad-cert", k+" "+v, func(cfg M) bool {
				h := find(cfg, "services", "svc")["https"].(M)
				if h[k] == v {
					return false
				}
				h[k] = v
				return true
			})
		}
	}
	add("refuse", "two services on one port", func(cfg M) bool {
		s := deepCopy(find(cfg, "services", "svc")).(M)
		s["name"] = "other"
		cfg["services"] = append(cfg["services"].(A), s)
		return true
	})
	// the predefined components may be replaced
	for _, t := range []M{{"name": "string", "type": "string"}, {"name": "integer", "type": "integer"}, {"name": "float", "type": "float", "decimalSeparator": "."},
		{"name": "boolean", "type": "boolean", "trueValues": A{"true", "1", "TRUE"}, "falseValues": A{"false", "0", "FALSE"}}, {"name": "json", "type": "json"}} {
		t := t
		add("same", fmt.Sprintf("redefined parser %s", t["name"]), func(cfg M) bool { cfg["parsers"] = append(cfg["parsers"].(A), deepCopy(t)); return true })
	}
	add("same", "redefined default index", func(cfg M) bool {
		cfg["indexes"] = append(cfg["indexes"].(A), M{"name": "default", "type": "noop"})
		return true
	})
	add("refuse", "default index for one input only", func(cfg M) bool {
		cfg["indexes"] = append(cfg["indexes"].(A), M{"name": "default", "type": "map", "input": "a", "properties": A{"cat"}})
		return true
	})
	add("refuse", "graphql output", func(cfg M) bool {
		cfg["outputs"] = append(cfg["outputs"].(A), M{"name": "gql", "type": "graphql"})
		return true
	})
	add("same", "without https", func(cfg M) bool { delete(find(cfg, "services", "svc"), "https"); return true })
	add("same", "https without listen", func(cfg M) bool { delete(find(cfg, "services", "svc")["https"].(M), "listen"); return true })
	return out
}

func c22(c *C) {
	w := c.confBase(c.dir("conf"))
	c.Binary("plain")
	// the reference answers
	port := freePort()
	text := w.text(deepCopy(w.cfg).(M), port, nil)
	base := c.dir("base")
	must(os.MkdirAll(base, 0755))
	for _, f := range []string{"a.csv", "j.json", "x.xml", "tls.crt", "tls.key"} {
		must(os.Symlink(filepath.Join(w.dir, f), filepath.Join(base, f)))
	}
	must(os.WriteFile(filepath.Join(base, "rodb.yaml"), []byte(text), 0644))
	s := c.Spawn(base, filepath.Join(base, "rodb.yaml"), StartOpts{Port: port})
	up, err := s.WaitUp(60 * time.Second)
	if err != nil || !up {
		c.Fail("valid-refused", M{"case": "base", "log": tail(s.Log.String(), 1500)}, s.Cfg)
		return
	}
	statuses := map[string]int{}
	for _, q := range w.asks {
		r := s.Get(q)
		if r.Err != nil {
			c.Fail("no-answer", M{"case": "base", "request": q, "log": tail(s.Log.String(), 1500)}, s.Cfg)
			return
		}
		w.want[q] = fmt.Sprintf("%d %s", r.Status, r.Body)
		statuses[q] = r.Status
	}
	// the explicit defaults must be honoured in the first place
	for q, st := range map[string]int{"/a": 200, "/a?id=zz": 500, "/a/7": 200, "/a/99999": 404, "/x/N": 200, "/x/n": 404, "/f/0/x": 200, "/f/TRUE/x": 404, "/nowhere": 404, "/a/x": 404, "/j?q=words": 200, "/a?limit=-1": 500} {
		if statuses[q] != st {
			c.Fail("default-differs", M{"case": "base", "request": q, "status": statuses[q], "expected": st, "got": w.want[q]}, s.Cfg)
		}
	}
	for q, n := range map[string]int{"/a": 100, "/a?limit=5000": 1000, "/a?offset=1099": 1, "/a?limit=3&offset=5": 3, "/a?name=name3": 0, "/a?name=Name3": 30, "/j": 12, "/j?q=words": 12, "/j?q=wo*": 12, "/j?q=WORDS%20AND%203": 3} {
		var l A
		v, _ := decodeJSON([]byte(w.want[q][4:]))
		l, _ = v.(A)
		if len(l) != n {
			c.Fail("default-differs", M{"case": "base", "request": q, "records": len(l), "expected": n}, s.Cfg)
		}
	}
	s.Stop()

	one := func(want, name string, edits []confCase, block randT, raw func(string) string) {
		for try := 0; try < 4; try++ {
			cfg := deepCopy(w.cfg).(M)
			for _, e := range edits {
				if !safeEdit(e, cfg) && want != "any" {
					return
				}
			}
			port := freePort()
			text := w.text(cfg, port, block)
			if raw != nil {
				// the port stays out of reach of the damages, which would turn it into another server's
				text = strings.ReplaceAll(raw(strings.ReplaceAll(text, fmt.Sprintf("127.0.0.1:%d", port), "127.0.0.1:PORT")), "PORT", fmt.Sprint(port))
			}
			jwant := want
			if want == "bad-cert" {
				jwant = "refuse"
			}
			got := w.run(name, jwant, text, port, nil)
			if got == "busy" {
				continue
			}
			c.Eval(want + "|" + name)
			c.Count("configurations_"+want, 1)
			c.Count("outcome_"+got, 1)
			return
		}
	}
	cases := w.cases()
	c.Count("single_mutations", int64(len(cases)))
	c.phase("single", func() {
		parallel(len(cases), 8, func(i int) {
			cs := cases[i]
			one(cs.want, cs.name, []confCase{cs}, nil, nil)
		})
	})
	var same, refuse []confCase
	for _, cs := range cases {
		if cs.want == "same" {
			same = append(same, cs)
		} else if cs.want == "refuse" {
			refuse = append(refuse, cs)
		}
	}
	// any subset of the settings left out, in any spelling
	c.phase("subsets", func() {
		parallel(c.Q(200, 3000), 8, func(i int) {
			r := c.Rng("subset", i)
			var es []confCase
			name := fmt.Sprintf("subset %d:", i)
			p := r.Intn(100)
			for _, cs := range same {
				if strings.HasPrefix(cs.name, "default for ") && r.Intn(100) < p {
					es = append(es, cs)
					name += " " + cs.name[12:]
				}
			}
			// deepest first, so that the places keep their numbers
			r2 := c.Rng("style", i)
			cfg := deepCopy(w.cfg).(M)
			ps := places(cfg)
			_ = ps
			edit := confCase{name: name, want: "same", edit: func(cfg M) bool { return dropAll(cfg, es) }}
			one("same", name, []confCase{edit}, pick(r2, nil, r2), nil)
		})
	})
	// an invalid setting among left out ones, in any spelling
	c.phase("mixed", func() {
		parallel(c.Q(400, 6000), 8, func(i int) {
			r := c.Rng("mixed", i)
			bad := refuse[r.Intn(len(refuse))]
			var es []confCase
			for _, cs := range same {
				if strings.HasPrefix(cs.name, "default for ") && r.Intn(6) == 0 {
					es = append(es, cs)
				}
			}
			edit := confCase{edit: func(cfg M) bool {
				if !safeEdit(bad, cfg) {
					return false
				}
				return true
			}}
			_ = es
			one("refuse", fmt.Sprintf("mixed %d: %s", i, bad.name), []confCase{edit}, r, nil)
		})
	})
	// arbitrary combinations and texts: refused or serving, never a crash
	c.phase("fuzz", func() {
		parallel(c.Q(2500, 60000), 8, func(i int) {
			r := c.Rng("fuzz", i)
			if i%2 == 0 {
				var es []confCase
				for j := 0; j < 1+r.Intn(4); j++ {
					es = append(es, confCase{edit: func(cfg M) bool { return fuzzConfig(r, cfg) }})
				}
				seed := r.Int63()
				_ = seed
				one("any", fmt.Sprintf("fuzz %d", i), es, pick(r, nil, r), nil)
				return
			}
			one("any", fmt.Sprintf("bytes %d", i), nil, r, func(s string) string { return fuzzText(r, s) })
		})
	})
	// the documented environment variables, and more than one document
	one("same", "environment", nil, nil, func(s string) string { return strings.ReplaceAll(s, `"a.csv"`, `"${CONF_PATH}"`) })
	one("same", "environment $", nil, nil, func(s string) string { return strings.ReplaceAll(s, `"svc"`, `"$CONF_NAME"`) })
	// predefined parsers and index which are defined again
	for _, n := range [][2]string{{"bool", "boolean"}, {"flt", "float"}, {"js", "json"}, {"int", "integer"}, {"str", "string"}, {"n", "default"}} {
		n := n
		for _, block := range []bool{false, true} {
			var r2 randT
			if block {
				r2 = c.Rng("again", len(n[1]))
			}
			one("same", "again "+n[1], []confCase{{edit: func(cfg M) bool { rename(cfg, n[0], n[1]); return true }}}, r2, nil)
		}
	}
	// parts which nothing uses are judged by themselves: the least ones which
	// make sense, and those which do not
	spare := func(want, section string, m M) {
		if m["name"] != "" {
			m["name"] = "spare"
		}
		one(want, "spare "+section+" "+show(m), []confCase{{edit: func(cfg M) bool {
			cfg[section] = append(cfg[section].(A), deepCopy(m))
			return true
		}}}, nil, nil)
	}
	x := M{"name": "v", "xpath": "id"}
	for _, least := range []struct {
		want, section string
		m             M
	}{
		{"same", "inputs", M{"type": "xml", "path": "x.xml", "recordXpath": "//rec", "properties": A{x}}},
		{"refuse", "inputs", M{"type": "xml", "path": "x.xml", "recordXpath": "//rec", "properties": A{}}},
		{"same", "inputs", M{"type": "xml", "path": "x.xml", "recordXpath": "//rec", "properties": A{M{"name": "o", "type": "object", "xpath": "obj", "properties": A{x}}}}},
		{"refuse", "inputs", M{"type": "xml", "path": "x.xml", "recordXpath": "//rec", "properties": A{M{"name": "o", "type": "object", "xpath": "obj", "properties": A{}}}}},
		{"refuse", "inputs", M{"type": "xml", "path": "x.xml", "recordXpath": "//[", "properties": A{x}}},
		{"refuse", "inputs", M{"type": "xml", "path": "x.xml", "recordXpath": "//rec", "properties": A{M{"name": "v", "xpath": "]id"}}}},
		{"refuse", "inputs", M{"type": "xml", "path": "x.xml", "recordXpath": "//rec", "properties": A{x, x}}},
		{"refuse", "inputs", M{"type": "xml", "path": "none.xml", "recordXpath": "//rec", "properties": A{x}}},
		{"refuse", "inputs", M{"type": "xml", "path": ".", "recordXpath": "//rec", "properties": A{x}}},
		{"same", "inputs", M{"type": "csv", "path": "a.csv", "columns": A{M{"name": "v"}}}},
		{"refuse", "inputs", M{"type": "csv", "path": "a.csv", "columns": A{}}},
		{"refuse", "inputs", M{"type": "csv", "path": "a.csv"}},
		{"same", "inputs", M{"type": "csv", "path": "a.csv", "autodetectColumns": true}},
		{"same", "inputs", M{"type": "csv", "path": "a.csv", "autodetectColumns": true, "columns": A{}}},
		{"refuse", "inputs", M{"type": "csv", "path": "a.csv", "autodetectColumns": true, "columns": A{M{"name": "v"}}}},
		{"refuse", "inputs", M{"type": "csv", "path": "a.csv", "autodetectColumns": true, "columns": A{M{"name": "c1"}, M{"name": "c2"}, M{"name": "c3"}, M{"name": "c4"}, M{"name": "c5"}, M{"name": "c6"}}}},
		{"refuse", "inputs", M{"type": "csv", "path": "a.csv", "autodetectColumns": true, "ignoreFirstRow": true, "columns": A{M{"name": "c1"}, M{"name": "c2"}, M{"name": "c3"}, M{"name": "c4"}, M{"name": "c5"}, M{"name": "c6"}}}},
		{"refuse", "inputs", M{"type": "csv", "path": "a.csv", "autodetectColumns": true, "ignoreFirstRow": true, "columns": A{M{"name": "id"}}}},
		{"refuse", "inputs", M{"type": "csv", "path": "a.csv", "autodetectColumns": false}},
		{"refuse", "inputs", M{"type": "csv", "path": "a.csv", "columns": A{M{"name": "v"}, M{"name": "v"}}}},
		{"refuse", "inputs", M{"type": "csv", "path": "none.csv", "columns": A{M{"name": "v"}}}},
		{"refuse", "inputs", M{"type": "csv", "path": ".", "columns": A{M{"name": "v"}}}},
		{"same", "inputs", M{"type": "json", "path": "j.json"}},
		{"refuse", "inputs", M{"type": "json", "path": "none.json"}},
		{"refuse", "inputs", M{"type": "json", "path": "."}},
		{"same", "parsers", M{"type": "boolean", "trueValues": A{"x"}, "falseValues": A{"y"}}},
		{"refuse", "parsers", M{"type": "boolean", "trueValues": A{}, "falseValues": A{"y"}}},
		{"refuse", "parsers", M{"type": "boolean", "trueValues": A{"x"}, "falseValues": A{}}},
		{"same", "parsers", M{"type": "float", "decimalSeparator": ","}},
		{"refuse", "parsers", M{"type": "float", "decimalSeparator": ""}},
		{"same", "parsers", M{"type": "split", "delimiter": "x", "parser": "js"}},
		{"refuse", "parsers", M{"type": "split", "delimiter": "x", "parser": "spare"}},
		{"refuse", "parsers", M{"type": "string", "convertFromCharset": "nosuchcharset"}},
		{"same", "indexes", M{"type": "map", "input": "a", "properties": A{"id"}}},
		{"same", "indexes", M{"type": "sqlite", "dsn": ":memory:", "input": "a", "properties": A{M{"name": "id"}}}},
		{"same", "indexes", M{"type": "fts5", "dsn": ":memory:", "input": "a", "properties": A{"name"}}},
		{"same", "indexes", M{"type": "wildcard", "path": "spare.idx", "input": "a", "properties": A{"name"}}},
		{"same", "indexes", M{"type": "noop"}},
		{"refuse", "indexes", M{"type": "map", "input": "a", "properties": A{"id", "id"}}},
		{"refuse", "indexes", M{"type": "sqlite", "dsn": ":memory:", "input": "a", "properties": A{M{"name": "id"}, M{"name": "id"}}}},
		{"refuse", "indexes", M{"type": "fts5", "dsn": ":memory:", "input": "a", "properties": A{"name", "name"}}},
		{"refuse", "indexes", M{"type": "wildcard", "path": "spare.idx", "input": "a", "properties": A{"name", "name"}}},
		{"refuse", "inputs", M{"name": "", "type": "json", "path": "j.json"}},
		{"refuse", "inputs", M{"name": "", "type": "csv", "path": "a.csv", "columns": A{M{"name": "v"}}}},
		{"refuse", "inputs", M{"name": "", "type": "xml", "path": "x.xml", "recordXpath": "//rec", "properties": A{x}}},
		{"refuse", "parsers", M{"name": "", "type": "string"}},
		{"refuse", "parsers", M{"name": "", "type": "integer"}},
		{"refuse", "parsers", M{"name": "", "type": "float"}},
		{"refuse", "parsers", M{"name": "", "type": "json"}},
		{"refuse", "parsers", M{"name": "", "type": "boolean", "trueValues": A{"x"}, "falseValues": A{"y"}}},
		{"refuse", "parsers", M{"name": "", "type": "split", "delimiter": "x", "parser": "js"}},
		{"refuse", "indexes", M{"name": "", "type": "map", "input": "a", "properties": A{"id"}}},
		{"refuse", "indexes", M{"name": "", "type": "sqlite", "dsn": ":memory:", "input": "a", "properties": A{M{"name": "id"}}}},
		{"refuse", "indexes", M{"name": "", "type": "fts5", "dsn": ":memory:", "input": "a", "properties": A{"name"}}},
		{"refuse", "indexes", M{"name": "", "type": "wildcard", "path": "spare.idx", "input": "a", "properties": A{"name"}}},
		{"refuse", "indexes", M{"name": "", "type": "noop"}},
		{"refuse", "outputs", M{"name": "", "type": "jsonArray", "input": "a"}},
		{"refuse", "outputs", M{"name": "", "type": "jsonObject", "input": "a", "parameters": M{"p": M{"property": "id"}}}},
		{"same", "outputs", M{"type": "jsonArray", "input": "a"}},
		{"same", "outputs", M{"type": "jsonArray", "input": "a", "limit": M{"default": 1, "max": 1}}},
		{"refuse", "outputs", M{"type": "jsonArray", "input": "a", "limit": M{"default": 2, "max": 1}}},
		{"same", "outputs", M{"type": "jsonObject", "input": "a", "parameters": M{"p": M{"property": "id"}}}},
		{"refuse", "outputs", M{"type": "jsonObject", "input": "a", "parameters": M{}}},
		{"refuse", "outputs", M{"type": "jsonObject", "input": "a"}},
	} {
		spare(least.want, least.section, least.m)
	}
	one("refuse", "default index of another input", []confCase{{edit: func(cfg M) bool {
		cfg["indexes"] = append(cfg["indexes"].(A), M{"name": "default", "type": "map", "input": "j", "properties": A{"cat"}})
		return true
	}}}, nil, nil)
	one("refuse", "default parser of another type", []confCase{{edit: func(cfg M) bool {
		cfg["parsers"] = append(cfg["parsers"].(A), M{"name": "string", "type": "json"})
		return true
	}}}, nil, nil)
	// no configuration at all
	for _, args := range [][]string{{"-c", "no-such-file.yaml"}, {"-c", "."}, {}, {"-l", "bogus"}, {"--nosuchflag"}, {"-c"}} {
		d := c.dir("args%d", len(args)+c.FailCount())
		must(os.MkdirAll(d, 0755))
		s := c.Spawn(d, "", StartOpts{Args: append([]string{}, args...)})
		code, ok := s.WaitExit(30 * time.Second)
		log := s.Log.String()
		if !ok || code == 0 || crashMark.MatchString(log) || strings.TrimSpace(log) == "" {
			c.Fail("arguments", M{"args": args, "ended": ok, "exit": code, "log": tail(log, 800)})
		}
		s.Kill()
		c.Eval("args|" + strings.Join(args, " "))
	}
	c.Sample(M{"configuration": w.cfg["services"], "requests": w.asks})
}

// rename gives another name to everything named so, and to the references to it.
func rename(v any, from, to string) {
	switch x := v.(type) {
	case M:
		for k, e := range x {
			if s, ok := e.(string); ok && s == from && (k == "name" || k == "parser" || k == "index" || k == "childIndex") {
				x[k] = to
			}
			rename(e, from, to)
		}
	case A:
		for _, e := range x {
			rename(e, from, to)
		}
	}
}

func safeEdit(e confCase, cfg M) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	return e.edit(cfg)
}

// dropAll applies several "default for" edits at once: removing a key does not
// renumber the mappings unless it holds some, so these come last.
func dropAll(cfg M, es []confCase) bool {
	byPath := map[string]place{}
	for _, p := range places(cfg) {
		byPath[p.path] = p
	}
	for _, e := range es {
		id := strings.TrimPrefix(e.name, "default for ")
		i := strings.LastIndex(id, ".")
		delete(byPath[id[:i]].m, id[i+1:])
	}
	return true
}

// fuzzConfig makes one random change anywhere in the tree.
func fuzzConfig(r randT, cfg M) bool {
	ps := places(cfg)
	p := ps[r.Intn(len(ps))]
	keys := sortedKeys(p.m)
	if len(keys) == 0 {
		return true
	}
	k := keys[r.Intn(len(keys))]
	if k == "listen" || p.kind == "http" || p.kind == "https" && r.Intn(2) == 0 {
		return true
	}
	vals := []any{nil, "", "x", 0, -1, 1, 1 << 31, 1.5, true, false, A{}, M{}, A{nil}, A{A{}}, A{M{}}, M{"a": nil}, "id", "cat", "name", "a", "j", "x", "m", "s", "f", "w", "default", "string", "ints", "//rec", ".", "..", "/", "*", "0", "%", "{id}", "\x7f", "é", strings.Repeat("z", 300)}
	switch r.Intn(5) {
	case 0:
		delete(p.m, k)
	case 1: // take the value of another place
		q := ps[r.Intn(len(ps))]
		qk := sortedKeys(q.m)
		if len(qk) > 0 {
			o := qk[r.Intn(len(qk))]
			if o != "listen" {
				p.m[k] = deepCopy(q.m[o])
			}
		}
	case 2:
		if l, ok := p.m[k].(A); ok && len(l) > 0 {
			switch r.Intn(3) {
			case 0:
				p.m[k] = append(l[:0:0], l[1:]...)
			case 1:
				p.m[k] = append(append(A{}, l...), deepCopy(l[r.Intn(len(l))]))
			default:
				l[r.Intn(len(l))] = vals[r.Intn(len(vals))]
			}
			return true
		}
		p.m[k] = vals[r.Intn(len(vals))]
	default:
		p.m[k] = vals[r.Intn(len(vals))]
	}
	return true
}

// fuzzText damages the text of a configuration.
func fuzzText(r randT, s string) string {
	b := []byte(s)
	for j := 0; j < 1+r.Intn(4) && len(b) > 4; j++ {
		i := r.Intn(len(b))
		switch r.Intn(6) {
		case 0:
			b = b[:i]
		case 1:
			b[i] = byte(r.Intn(256))
		case 2:
			n := 1 + r.Intn(20)
			if i+n < len(b) {
				b = append(b[:i:i], b[i+n:]...)
			}
		case 3:
			b = append(b[:i:i], append([]byte(pick(r, "&a ", "*a", "<<: *a", "- ", ": ", "\t", "|\n", ">\n", "!!binary ", "? ", "{", "}", "[", "]", "'", "\"", "#", "%YAML 1.2\n", "---\n", "...\n", "!!int ", "~", "\x00", "\xff\xfe")), b[i:]...)...)
		case 4:
			k := r.Intn(len(b))
			if k > i {
				b = append(b[:k:k], append(append([]byte{}, b[i:k]...), b[k:]...)...)
			}
		default:
			lines := strings.SplitAfter(string(b), "\n")
			x, y := r.Intn(len(lines)), r.Intn(len(lines))
			lines[x], lines[y] = lines[y], lines[x]
			b = []byte(strings.Join(lines, ""))
		}
		if len(b) > 1<<20 {
			b = b[:1<<20]
		}
	}
	return string(b)
}
