package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"net/url"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// ---------------------------------------------------------------------------
// Reference model. It never reads the data files: it works on the records the
// generator invented, so a wrong reading, indexing, joining or rendering by
// the real server shows up as a difference.
// ---------------------------------------------------------------------------

type M = map[string]any
type A = []any

type PDef struct {
	Name    string
	Type    string
	Ignore  string
	Sep     string
	T, F    []string
	Charset string
	Delim   string
	DelimRe bool
	Sub     string
	// Known gives the values of the raw texts encoded by the generator (charsets)
	Known map[string]any
}

var errParse = errors.New("parse error")

// Parse is the oracle's reading of a raw text.
func (w *World) Parse(name, s string) (any, error) {
	p := w.Parsers[name]
	if p == nil {
		return nil, fmt.Errorf("no parser %s", name)
	}
	switch p.Type {
	case "string":
		if v, ok := p.Known[s]; ok {
			return v, nil
		}
		if p.Charset != "" {
			return nil, fmt.Errorf("charset values must be given by the generator")
		}
		return s, nil
	case "integer":
		s = dropRunes(s, p.Ignore)
		n, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			return nil, errParse
		}
		return n, nil
	case "float":
		s = dropRunes(s, p.Ignore)
		if p.Sep != "" && p.Sep != "." {
			s = strings.ReplaceAll(s, p.Sep, ".")
		}
		f, err := strconv.ParseFloat(s, 64)
		if err != nil {
			return nil, errParse
		}
		return f, nil
	case "boolean":
		for _, v := range p.T {
			if v == s {
				return true, nil
			}
		}
		for _, v := range p.F {
			if v == s {
				return false, nil
			}
		}
		return nil, errParse
	case "json":
		var v any
		if err := json.Unmarshal([]byte(s), &v); err != nil {
			return nil, errParse
		}
		return v, nil
	case "split":
		var parts []string
		if p.DelimRe {
			parts = regexp.MustCompile(p.Delim).Split(s, -1)
		} else if p.Delim == "" {
			for _, r := range s {
				parts = append(parts, string(r))
			}
		} else {
			for {
				i := strings.Index(s, p.Delim)
				if i < 0 {
					parts = append(parts, s)
					break
				}
				parts = append(parts, s[:i])
				s = s[i+len(p.Delim):]
			}
		}
		out := make(A, 0, len(parts))
		for _, part := range parts {
			v, err := w.Parse(p.Sub, part)
			if err != nil {
				return nil, err
			}
			out = append(out, v)
		}
		return out, nil
	}
	return nil, fmt.Errorf("unknown parser type %s", p.Type)
}

func dropRunes(s, drop string) string {
	if drop == "" {
		return s
	}
	var b strings.Builder
	for _, r := range s {
		if !strings.ContainsRune(drop, r) {
			b.WriteRune(r)
		}
	}
	return b.String()
}

func (p *PDef) conf() M {
	m := M{"name": p.Name, "type": p.Type}
	switch p.Type {
	case "string":
		if p.Charset != "" {
			m["convertFromCharset"] = p.Charset
		}
	case "integer":
		if p.Ignore != "" {
			m["ignoreCharacters"] = p.Ignore
		}
	case "float":
		if p.Ignore != "" {
			m["ignoreCharacters"] = p.Ignore
		}
		if p.Sep != "" {
			m["decimalSeparator"] = p.Sep
		}
	case "boolean":
		m["trueValues"] = p.T
		m["falseValues"] = p.F
	case "split":
		m["delimiter"] = p.Delim
		m["parser"] = p.Sub
		if p.DelimRe {
			m["delimiterIsRegexp"] = true
		}
	}
	return m
}

func defaultParsers() map[string]*PDef {
	return map[string]*PDef{
		"string":  {Name: "string", Type: "string"},
		"integer": {Name: "integer", Type: "integer"},
		"float":   {Name: "float", Type: "float", Sep: "."},
		"boolean": {Name: "boolean", Type: "boolean", T: []string{"true", "1", "TRUE"}, F: []string{"false", "0", "FALSE"}},
		"json":    {Name: "json", Type: "json"},
	}
}

// Bad marks a value which cannot be parsed: reading it must fail.
type Bad struct{}

type Rec = M

type Input struct {
	Name   string
	Kind   string // csv, json, xml
	File   string
	Conf   M // everything but name, type, path
	Recs   []Rec
	Strict bool // unknown properties are an error (csv, xml)
}

func (in *Input) get(r Rec, path string) (any, error) {
	parts := strings.Split(path, ".")
	v, ok := r[parts[0]]
	if !ok {
		if in.Strict {
			return nil, errors.New("no such property")
		}
		return nil, nil
	}
	return subValue(v, parts[1:], in.Kind == "xml")
}

// nilOK: an absent (xml) object has nil sub-values, where a null one has none
func subValue(v any, path []string, nilOK bool) (any, error) {
	if _, bad := v.(Bad); bad {
		return nil, errParse
	}
	if len(path) == 0 {
		return v, nil
	}
	switch t := v.(type) {
	case M:
		s, ok := t[path[0]]
		if !ok {
			return nil, nil
		}
		return subValue(s, path[1:], nilOK)
	case A:
		i, err := strconv.Atoi(path[0])
		if err != nil {
			return nil, errors.New("bad array index")
		}
		if i < 0 || i >= len(t) {
			return nil, nil
		}
		return subValue(t[i], path[1:], nilOK)
	case nil:
		if nilOK {
			return nil, nil
		}
	}
	return nil, errors.New("sub path of a primitive")
}

type IProp struct{ Name, Collate string }

type Index struct {
	Name       string
	Kind       string // map, noop, sqlite, wildcard, fts5
	Input      string
	Props      []IProp
	Path       string // wildcard path or dsn
	IgnoreCase bool
	Tokenize   string
	Prefix     []int
	// Match overrides the built-in oracle (fts5): it receives record and filter
	FtsMatch func(r Rec, q string) (bool, error)
}

func (ix *Index) handles(prop string) bool {
	if ix.Kind == "fts5" {
		return prop == "match"
	}
	if ix.Kind == "noop" {
		return true
	}
	for _, p := range ix.Props {
		if p.Name == prop {
			return true
		}
	}
	return false
}

func (ix *Index) conf() M {
	m := M{"name": ix.Name, "type": ix.Kind}
	if ix.Kind != "noop" {
		m["input"] = ix.Input
	}
	names := []string{}
	for _, p := range ix.Props {
		names = append(names, p.Name)
	}
	switch ix.Kind {
	case "map":
		m["properties"] = names
	case "wildcard":
		m["properties"] = names
		m["path"] = ix.Path
		if ix.IgnoreCase {
			m["ignoreCase"] = true
		}
	case "sqlite":
		ps := A{}
		for _, p := range ix.Props {
			q := M{"name": p.Name}
			if p.Collate != "" {
				q["collate"] = p.Collate
			}
			ps = append(ps, q)
		}
		m["properties"] = ps
		m["dsn"] = ix.Path
	case "fts5":
		m["properties"] = names
		m["dsn"] = ix.Path
		if ix.Tokenize != "" {
			m["tokenize"] = ix.Tokenize
		}
		if len(ix.Prefix) > 0 {
			m["prefix"] = ix.Prefix
		}
	}
	return m
}

func isPrimitive(v any) bool {
	switch v.(type) {
	case nil, bool, int64, float64, string:
		return true
	}
	return false
}

// strictEq: same type and same value.
func strictEq(a, b any) bool {
	if !isPrimitive(a) || !isPrimitive(b) {
		return false
	}
	return a == b
}

func numCmpEq(a, b any) bool {
	toF := func(v any) (float64, int64, bool, bool) {
		switch t := v.(type) {
		case int64:
			return 0, t, true, true
		case float64:
			return t, 0, false, true
		case bool:
			if t {
				return 0, 1, true, true
			}
			return 0, 0, true, true
		}
		return 0, 0, false, false
	}
	af, ai, aInt, aok := toF(a)
	bf, bi, bInt, bok := toF(b)
	if !aok || !bok {
		return false
	}
	switch {
	case aInt && bInt:
		return ai == bi
	case !aInt && !bInt:
		return af == bf
	case aInt:
		return bf == math.Trunc(bf) && math.Abs(bf) < 9e18 && int64(bf) == ai
	default:
		return af == math.Trunc(af) && math.Abs(af) < 9e18 && int64(af) == bi
	}
}

func asciiLower(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

func (ix *Index) match(in *Input, r Rec, prop string, f any) (bool, error) {
	if ix.Kind == "fts5" {
		return ix.FtsMatch(r, f.(string))
	}
	v, err := in.get(r, prop)
	if err != nil {
		return false, err
	}
	switch ix.Kind {
	case "noop":
		if v == nil {
			return f == nil, nil
		}
		return strictEq(v, f), nil
	case "map":
		return mapEq(v, f), nil
	case "sqlite":
		if v == nil || f == nil {
			return false, nil
		}
		vs, vok := v.(string)
		fs, fok := f.(string)
		if vok != fok {
			return false, nil
		}
		if vok {
			coll := ""
			for _, p := range ix.Props {
				if p.Name == prop {
					coll = strings.ToLower(p.Collate)
				}
			}
			switch coll {
			case "nocase":
				return asciiLower(vs) == asciiLower(fs), nil
			case "rtrim":
				return strings.TrimRight(vs, " ") == strings.TrimRight(fs, " "), nil
			}
			return vs == fs, nil
		}
		return numCmpEq(v, f), nil
	case "wildcard":
		fs, ok := f.(string)
		if !ok {
			return false, errors.New("not a string")
		}
		return wildcardMatch(v, fs, ix.IgnoreCase)
	}
	return false, errors.New("unknown index kind")
}

func mapEq(v, f any) bool {
	if arr, ok := v.(A); ok {
		for _, e := range arr {
			if mapEq(e, f) {
				return true
			}
		}
		return false
	}
	return strictEq(v, f)
}

func wildcardMatch(v any, f string, ic bool) (bool, error) {
	if arr, ok := v.(A); ok {
		for _, e := range arr {
			m, err := wildcardMatch(e, f, ic)
			if err != nil || m {
				return m, err
			}
		}
		return false, nil
	}
	s, ok := v.(string)
	if !ok {
		return false, errors.New("not a string")
	}
	if ic {
		s, f = strings.ToLower(s), strings.ToLower(f)
	}
	return f != "" && strings.Contains(s, f), nil
}

type Param struct{ Prop, Index, Parser string }

type Sort struct {
	Prop string
	Desc bool
	Set  bool // "ascending" explicitly given
}

type RelMatch struct{ Parent, Child, Index string }

type Rel struct {
	Input   string
	IsArray bool
	Limit   int
	Sort    []Sort
	Match   []RelMatch
	Rels    map[string]*Rel
}

type Output struct {
	Name        string
	Kind        string // jsonArray, jsonObject
	Input       string
	LimDefault  int
	LimMax      int
	LimParam    string
	OffParam    string
	Params      map[string]Param
	Rels        map[string]*Rel
	SkipEmitLim bool
}

func (r *Rel) conf() M {
	m := M{"input": r.Input}
	if r.IsArray {
		m["isArray"] = true
	}
	if r.Limit > 0 {
		m["limit"] = r.Limit
	}
	ms := A{}
	for _, x := range r.Match {
		q := M{"parentProperty": x.Parent, "childProperty": x.Child}
		if x.Index != "" {
			q["childIndex"] = x.Index
		}
		ms = append(ms, q)
	}
	m["match"] = ms
	if len(r.Sort) > 0 {
		ss := A{}
		for _, s := range r.Sort {
			q := M{"property": s.Prop}
			if s.Desc {
				q["ascending"] = false
			} else if s.Set {
				q["ascending"] = true
			}
			ss = append(ss, q)
		}
		m["sort"] = ss
	}
	if len(r.Rels) > 0 {
		q := M{}
		for k, v := range r.Rels {
			q[k] = v.conf()
		}
		m["relationships"] = q
	}
	return m
}

func (o *Output) conf() M {
	m := M{"name": o.Name, "type": o.Kind, "input": o.Input}
	if len(o.Params) > 0 {
		ps := M{}
		for k, p := range o.Params {
			q := M{"property": p.Prop}
			if p.Index != "" {
				q["index"] = p.Index
			}
			if p.Parser != "" {
				q["parser"] = p.Parser
			}
			ps[k] = q
		}
		m["parameters"] = ps
	}
	if o.Kind == "jsonArray" {
		l := M{}
		if o.LimDefault > 0 {
			l["default"] = o.LimDefault
		}
		if o.LimMax > 0 {
			l["max"] = o.LimMax
		}
		if o.LimParam != "" {
			l["parameter"] = o.LimParam
		}
		if len(l) > 0 {
			m["limit"] = l
		}
		if o.OffParam != "" {
			m["offset"] = M{"parameter": o.OffParam}
		}
	}
	if len(o.Rels) > 0 {
		q := M{}
		for k, v := range o.Rels {
			q[k] = v.conf()
		}
		m["relationships"] = q
	}
	return m
}

type Route struct{ Path, Output string }

type World struct {
	Dir        string
	Parsers    map[string]*PDef
	Inputs     map[string]*Input
	Indexes    map[string]*Index
	Outputs    map[string]*Output
	Routes     []Route
	Service    M // extra service keys; default http listen
	compl      []*compiledRoute
	once       sync.Once
	Extra      func(cfg M)
	secureOnce func(r randT)
	Pad        int     // some of the notes are this long
	Gap        int     // bytes of nothing between some of the records
	Holes      float64 // some of the numbers and flags are missing or null (json)
}

// clone copies the definition, not the state.
func (w *World) clone() *World {
	return &World{Dir: w.Dir, Parsers: w.Parsers, Inputs: w.Inputs, Indexes: w.Indexes, Outputs: w.Outputs,
		Routes: w.Routes, Service: w.Service, Extra: w.Extra}
}

type compiledRoute struct {
	re     *regexp.Regexp
	params []string
	route  Route
}

func NewWorld(dir string) *World {
	must(os.MkdirAll(dir, 0755))
	return &World{Dir: dir, Parsers: defaultParsers(), Inputs: map[string]*Input{}, Indexes: map[string]*Index{
		"default": {Name: "default", Kind: "noop"}}, Outputs: map[string]*Output{}}
}

func (w *World) AddParser(p *PDef) *PDef  { w.Parsers[p.Name] = p; return p }
func (w *World) AddInput(i *Input) *Input { w.Inputs[i.Name] = i; return i }
func (w *World) AddIndex(i *Index) *Index { w.Indexes[i.Name] = i; return i }
func (w *World) AddOutput(o *Output, paths ...string) *Output {
	w.Outputs[o.Name] = o
	for _, p := range paths {
		w.Routes = append(w.Routes, Route{p, o.Name})
	}
	return o
}

func (w *World) Config(port int) M {
	cfg := M{}
	ps := A{}
	for _, k := range sortedKeys(w.Parsers) {
		d, isDef := defaultParsers()[k]
		if isDef && fmt.Sprint(*d) == fmt.Sprint(*w.Parsers[k]) {
			continue
		}
		ps = append(ps, w.Parsers[k].conf())
	}
	if len(ps) > 0 {
		cfg["parsers"] = ps
	}
	is := A{}
	for _, k := range sortedKeys(w.Inputs) {
		in := w.Inputs[k]
		m := M{"name": in.Name, "type": in.Kind, "path": in.File}
		for k, v := range in.Conf {
			m[k] = v
		}
		is = append(is, m)
	}
	cfg["inputs"] = is
	xs := A{}
	for _, k := range sortedKeys(w.Indexes) {
		if k == "default" {
			continue
		}
		xs = append(xs, w.Indexes[k].conf())
	}
	if len(xs) > 0 {
		cfg["indexes"] = xs
	}
	outs := A{}
	for _, k := range sortedKeys(w.Outputs) {
		outs = append(outs, w.Outputs[k].conf())
	}
	cfg["outputs"] = outs
	rs := A{}
	for _, r := range w.Routes {
		rs = append(rs, M{"path": r.Path, "output": r.Output})
	}
	svc := M{"name": "svc", "type": "http", "http": M{"listen": fmt.Sprintf("127.0.0.1:%d", port)}, "routes": rs}
	for k, v := range w.Service {
		svc[k] = v
	}
	cfg["services"] = A{svc}
	if w.Extra != nil {
		w.Extra(cfg)
	}
	return cfg
}

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// writeConfig renders JSON, which is YAML, with $ escaped because the
// configuration file supports environment variables.
func writeConfig(path string, cfg any) {
	data, err := json.MarshalIndent(cfg, "", " ")
	must(err)
	s := strings.ReplaceAll(string(data), "$", `\u0024`)
	must(os.WriteFile(path, []byte(s), 0644))
}

// Start writes the configuration and starts a server hosting this world.
func (w *World) Start(c *C, o StartOpts) (*Server, error) {
	var last error
	for try := 0; try < 8; try++ {
		port := freePort()
		cfg := filepath.Join(w.Dir, fmt.Sprintf("config-%d.yaml", port))
		writeConfig(cfg, w.Config(port))
		o.Port = port
		s := c.Spawn(w.Dir, cfg, o)
		wait := 300
		if o.Wait > 0 {
			wait = o.Wait
		}
		up, err := s.WaitUp(time.Duration(wait) * time.Second)
		if err != nil {
			s.Kill()
			return s, err
		}
		if up {
			return s, nil
		}
		last = fmt.Errorf("the server ended with code %d before listening: %s", s.code, tail(s.Log.String(), 1500))
		if strings.Contains(s.Log.String(), "address already in use") || o.Wrap == nil && s.noWatchers() {
			continue
		}
		return s, last
	}
	return nil, last
}

// noWatchers tells a start which failed because the machine has no inotify
// instance left (the limit is shared with the unrelated processes), after
// having left them the time to end.
func (s *Server) noWatchers() bool {
	if !strings.Contains(s.Log.String(), "Error initializing inputs: too many open files") {
		return false
	}
	time.Sleep(2 * time.Second)
	return true
}

type Exp struct {
	Kind string // ok, notfound, noroute, error
	Body any
}

func (w *World) route(path string) (*compiledRoute, map[string]string) {
	w.once.Do(func() {
		for _, r := range w.Routes {
			cr := &compiledRoute{route: r}
			var b strings.Builder
			b.WriteString(`\A(?s:`)
			rest := r.Path
			for {
				i := strings.Index(rest, "{")
				j := -1
				if i >= 0 {
					j = strings.Index(rest[i:], "}")
				}
				if i < 0 || j < 2 {
					b.WriteString(regexp.QuoteMeta(rest))
					break
				}
				b.WriteString(regexp.QuoteMeta(rest[:i]))
				name := rest[i+1 : i+j]
				rest = rest[i+j+1:]
				cr.params = append(cr.params, name)
				b.WriteString("(" + w.paramPattern(w.Outputs[r.Output].Params[name].Parser) + ")")
			}
			b.WriteString(`)\z`)
			cr.re = regexp.MustCompile(b.String())
			w.compl = append(w.compl, cr)
		}
	})
	for _, cr := range w.compl {
		if m := cr.re.FindStringSubmatch(path); m != nil {
			out := map[string]string{}
			for i, p := range cr.params {
				out[p] = m[i+1]
			}
			return cr, out
		}
	}
	return nil, nil
}

func charClass(s string) string {
	var b strings.Builder
	for _, r := range s {
		fmt.Fprintf(&b, `\x{%x}`, r)
	}
	return b.String()
}

func (w *World) paramPattern(name string) string {
	if name == "" {
		name = "string"
	}
	p := w.Parsers[name]
	ig := charClass(p.Ignore)
	pre := ""
	if ig != "" {
		pre = "[" + ig + "]*"
	}
	switch p.Type {
	case "integer":
		return pre + `-?[0-9` + ig + `]+`
	case "float":
		return pre + `-?[0-9` + ig + `]+(?:` + regexp.QuoteMeta(p.Sep) + `[0-9` + ig + `]+)?`
	case "boolean":
		q := []string{}
		for _, v := range append(append([]string{}, p.T...), p.F...) {
			q = append(q, regexp.QuoteMeta(v))
		}
		return "(?:" + strings.Join(q, "|") + ")"
	}
	return `[^\n]+`
}

// find evaluates the conjunction of the filters over the input, in input order.
type filt struct {
	ix, prop string
	v        any
}

func (w *World) find(in *Input, filters []filt) ([]int, error) {
	out := []int{}
	for i, r := range in.Recs {
		ok := true
		for _, f := range filters {
			m, err := w.Indexes[f.ix].match(in, r, f.prop, f.v)
			if err != nil {
				return nil, err
			}
			if !m {
				ok = false
			}
		}
		if ok {
			out = append(out, i)
		}
	}
	return out, nil
}

func (w *World) render(in *Input, i int, rels map[string]*Rel) (M, error) {
	out := M{}
	for k, v := range in.Recs[i] {
		if containsBad(v) {
			return nil, errParse
		}
		out[k] = v
	}
	for _, name := range sortedKeys(rels) {
		rel := rels[name]
		child := w.Inputs[rel.Input]
		filters := []filt{}
		for _, m := range rel.Match {
			v, ok := out[m.Parent]
			if !ok {
				return nil, errors.New("no parent property")
			}
			ix := m.Index
			if ix == "" {
				ix = "default"
			}
			filters = append(filters, filt{ix, m.Child, v})
		}
		pos, err := w.find(child, filters)
		if err != nil {
			return nil, err
		}
		if len(rel.Sort) > 0 {
			var serr error
			sort.SliceStable(pos, func(a, b int) bool {
				for _, s := range rel.Sort {
					x, e1 := child.get(child.Recs[pos[a]], s.Prop)
					y, e2 := child.get(child.Recs[pos[b]], s.Prop)
					if e1 != nil || e2 != nil {
						serr = errParse
						return false
					}
					c := cmpVal(x, y)
					if c != 0 {
						return (c < 0) != s.Desc
					}
				}
				return false
			})
			if serr != nil {
				return nil, serr
			}
		}
		n := len(pos)
		if !rel.IsArray && n > 1 {
			n = 1
		}
		if rel.IsArray && rel.Limit > 0 && n > rel.Limit {
			n = rel.Limit
		}
		items := A{}
		for _, p := range pos[:n] {
			d, err := w.render(child, p, rel.Rels)
			if err != nil {
				return nil, err
			}
			items = append(items, d)
		}
		if rel.IsArray {
			out[name] = items
		} else if len(items) > 0 {
			out[name] = items[0]
		} else {
			out[name] = nil
		}
	}
	return out, nil
}

func containsBad(v any) bool {
	switch t := v.(type) {
	case Bad:
		return true
	case M:
		for _, e := range t {
			if containsBad(e) {
				return true
			}
		}
	case A:
		for _, e := range t {
			if containsBad(e) {
				return true
			}
		}
	}
	return false
}

func cmpVal(a, b any) int {
	if a == nil || b == nil {
		switch {
		case a == nil && b == nil:
			return 0
		case a == nil:
			return -1
		}
		return 1
	}
	switch x := a.(type) {
	case string:
		return strings.Compare(x, b.(string))
	case int64:
		y := b.(int64)
		switch {
		case x < y:
			return -1
		case x > y:
			return 1
		}
	case float64:
		y := b.(float64)
		switch {
		case x < y:
			return -1
		case x > y:
			return 1
		}
	case bool:
		y := b.(bool)
		if x == y {
			return 0
		}
		if !x {
			return -1
		}
		return 1
	}
	return 0
}

// Expect gives the expected answer to a GET request.
func (w *World) Expect(raw string) Exp {
	u, err := url.ParseRequestURI(raw)
	if err != nil {
		panic("harness request: " + err.Error())
	}
	cr, pathParams := w.route(u.Path)
	if cr == nil {
		return Exp{Kind: "noroute"}
	}
	o := w.Outputs[cr.route.Output]
	params := map[string]string{}
	for k, v := range u.Query() {
		params[k] = v[0]
	}
	for k, v := range pathParams {
		params[k] = v
	}
	filters := []filt{}
	for _, name := range sortedKeys(o.Params) {
		p := o.Params[name]
		rawv, given := params[name]
		if !given && o.Kind == "jsonArray" {
			continue
		}
		parser := p.Parser
		if parser == "" {
			parser = "string"
		}
		v, err := w.Parse(parser, rawv)
		if err != nil {
			return Exp{Kind: "error"}
		}
		ix := p.Index
		if ix == "" {
			ix = "default"
		}
		filters = append(filters, filt{ix, p.Prop, v})
	}
	in := w.Inputs[o.Input]
	limit, offset := 1, 0
	if o.Kind == "jsonArray" {
		limit = 100
		max := 1000
		if o.LimMax > 0 {
			max = o.LimMax
		}
		if o.LimDefault > 0 {
			limit = o.LimDefault
		}
		lp, op := o.LimParam, o.OffParam
		if lp == "" {
			lp = "limit"
		}
		if op == "" {
			op = "offset"
		}
		if s, ok := params[lp]; ok {
			n, err := strconv.Atoi(s)
			if err != nil || n <= 0 {
				return Exp{Kind: "error"}
			}
			limit = n
		}
		if limit > max {
			limit = max
		}
		if s, ok := params[op]; ok {
			n, err := strconv.Atoi(s)
			if err != nil || n < 0 {
				return Exp{Kind: "error"}
			}
			offset = n
		}
	}
	pos, err := w.find(in, filters)
	if err != nil {
		return Exp{Kind: "error"}
	}
	if o.Kind == "jsonObject" {
		if len(pos) == 0 {
			return Exp{Kind: "notfound"}
		}
		d, err := w.render(in, pos[0], o.Rels)
		if err != nil {
			return Exp{Kind: "error"}
		}
		return Exp{Kind: "ok", Body: d}
	}
	out := A{}
	if offset > len(pos) {
		offset = len(pos)
	}
	pos = pos[offset:]
	if len(pos) > limit {
		pos = pos[:limit]
	}
	for _, p := range pos {
		d, err := w.render(in, p, o.Rels)
		if err != nil {
			return Exp{Kind: "error"}
		}
		out = append(out, d)
	}
	return Exp{Kind: "ok", Body: out}
}

// ---------------------------------------------------------------------------
// Comparison of a real response with an expectation
// ---------------------------------------------------------------------------

func decodeJSON(b []byte) (any, error) {
	d := json.NewDecoder(strings.NewReader(string(b)))
	d.UseNumber()
	var v any
	if err := d.Decode(&v); err != nil {
		return nil, err
	}
	var extra any
	if err := d.Decode(&extra); err == nil {
		return nil, errors.New("more than one JSON value in the body")
	} else if err.Error() != "EOF" {
		return nil, errors.New("trailing bytes after the JSON value")
	}
	return v, nil
}

// diff returns "" when got (decoded with UseNumber) is the expected value.
func diff(path string, exp, got any) string {
	switch e := exp.(type) {
	case nil:
		if got != nil {
			return fmt.Sprintf("%s: expected null, got %s", path, show(got))
		}
	case bool:
		if g, ok := got.(bool); !ok || g != e {
			return fmt.Sprintf("%s: expected %v, got %s", path, e, show(got))
		}
	case string:
		if g, ok := got.(string); !ok || g != jsonText(e) {
			return fmt.Sprintf("%s: expected %q, got %s", path, clip(e), show(got))
		}
	case int64:
		if g, ok := got.(json.Number); !ok || g.String() != strconv.FormatInt(e, 10) {
			return fmt.Sprintf("%s: expected integer %d, got %s", path, e, show(got))
		}
	case float64:
		g, ok := got.(json.Number)
		if !ok {
			return fmt.Sprintf("%s: expected number %v, got %s", path, e, show(got))
		}
		f, err := strconv.ParseFloat(g.String(), 64)
		if err != nil || f != e {
			return fmt.Sprintf("%s: expected number %v, got %s", path, e, show(got))
		}
	case A:
		g, ok := got.([]any)
		if !ok {
			return fmt.Sprintf("%s: expected an array of %d, got %s", path, len(e), show(got))
		}
		if len(g) != len(e) {
			return fmt.Sprintf("%s: expected %d items, got %d (expected %s, got %s)", path, len(e), len(g), show(e), show(got))
		}
		for i := range e {
			if d := diff(fmt.Sprintf("%s[%d]", path, i), e[i], g[i]); d != "" {
				return d
			}
		}
	case M:
		g, ok := got.(map[string]any)
		if !ok {
			return fmt.Sprintf("%s: expected an object, got %s", path, show(got))
		}
		for _, k := range sortedKeys(e) {
			gv, ok := g[k]
			if !ok {
				return fmt.Sprintf("%s: the property %q is missing", path, k)
			}
			if d := diff(path+"."+k, e[k], gv); d != "" {
				return d
			}
		}
		if len(g) != len(e) {
			for k := range g {
				if _, ok := e[k]; !ok {
					return fmt.Sprintf("%s: unexpected property %q", path, k)
				}
			}
		}
	default:
		panic(fmt.Sprintf("diff: %T", exp))
	}
	return ""
}

// jsonText is what a string becomes after a JSON round trip: bytes which are
// not UTF-8 are replaced one by one.
func jsonText(s string) string {
	out := make([]rune, 0, len(s))
	for _, r := range s {
		out = append(out, r)
	}
	return string(out)
}

func clip(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

func show(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return clip(fmt.Sprintf("%#v", v))
	}
	return clip(string(b))
}

// judge compares; returns "" when the response is right.
func judge(e Exp, r *Resp) string {
	if r.Err != nil {
		return "no complete response: " + r.Err.Error()
	}
	ct := r.Header.Get("Content-Type")
	if !strings.HasPrefix(strings.ToLower(ct), "application/json") {
		return fmt.Sprintf("content type %q (status %d, body %s)", ct, r.Status, clip(string(r.Body)))
	}
	v, err := decodeJSON(r.Body)
	if err != nil {
		return fmt.Sprintf("status %d with a body which is not one JSON value (%v): %s", r.Status, err, clip(string(r.Body)))
	}
	if e.Kind != "ok" {
		want404 := e.Kind == "notfound" || e.Kind == "noroute"
		if want404 && r.Status != 404 {
			return fmt.Sprintf("expected 404 (%s), got %d: %s", e.Kind, r.Status, clip(string(r.Body)))
		}
		if !want404 && (r.Status < 400 || r.Status == 404) {
			return fmt.Sprintf("expected an error status, got %d: %s", r.Status, clip(string(r.Body)))
		}
		m, ok := v.(map[string]any)
		if !ok {
			return "the error body is not an object: " + show(v)
		}
		if s, ok := m["error"].(string); !ok || s == "" {
			return "the error body has no error message: " + show(v)
		}
		return ""
	}
	if r.Status != 200 {
		return fmt.Sprintf("expected 200 with %s, got %d: %s", show(e.Body), r.Status, clip(string(r.Body)))
	}
	return diff("$", e.Body, v)
}

// Ask sends a request and judges the answer; it reports a violation with the
// given signature and returns whether it was right.
func (w *World) Ask(c *C, s *Server, sig, raw string) bool {
	e := w.Expect(raw)
	return w.AskExp(c, s, sig, raw, e)
}

func (w *World) AskExp(c *C, s *Server, sig, raw string, e Exp) bool {
	r := s.Get(raw)
	c.Count("answers_"+e.Kind, 1)
	if d := judge(e, r); d != "" {
		files := []string{s.Cfg}
		for _, k := range sortedKeys(w.Inputs) {
			files = append(files, filepath.Join(w.Dir, w.Inputs[k].File))
		}
		c.Fail(sig, M{"request": raw, "difference": d, "expected_kind": e.Kind, "server_log": tail(s.Log.String(), 1500)}, files...)
		return false
	}
	return true
}
