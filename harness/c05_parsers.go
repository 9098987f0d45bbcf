package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"net/url"
	"strconv"
	"strings"
)

func init() {
	register(&Check{ID: "C05", Level: "exploration", Min: 500,
		Rule: "a case is one raw text given as a request parameter (query or path) through one configured parser, selecting records through a noop, map or sqlite index; non-trivial when the text is one of the spellings of a value of the data, or an unparsable text which must be refused",
		Fn:   c05})
}

// One parser configuration, with the spellings of a few values.
type spelled struct {
	p    *PDef
	vals []any
	// spell gives one of the raw texts of a value
	spell func(r randT, v any) string
	bad   []string
}

func spelledParsers(w *World, r randT, predefined bool) []spelled {
	out := []spelled{}
	add := func(s spelled) { w.AddParser(s.p); out = append(out, s) }
	// a configured parser may also take the name of a predefined one, which it replaces everywhere
	named := func(k int, prefix, name string) string {
		if k == 0 && predefined && r.Intn(3) == 0 {
			return name
		}
		return fmt.Sprintf("%s%d", prefix, k)
	}
	for k := 0; k < 2; k++ {
		ig := pick(r, " ", ", ", "$ .", "^]", `\d`, "_'", "")
		add(spelled{&PDef{Name: named(k, "int", "integer"), Type: "integer", Ignore: ig}, []any{int64(0), int64(7), int64(-7), int64(1234567), int64(-1000), int64(1<<53 + 1)},
			func(r randT, v any) string {
				s := strconv.FormatInt(v.(int64), 10)
				if v.(int64) >= 0 && r.Intn(3) == 0 {
					s = "00" + s
				}
				return sprinkle(r, s, ig)
			}, []string{"abc", "1.5e", "--1", "", "1-1"}})
	}
	for k := 0; k < 2; k++ {
		ig := pick(r, "", " ", "' ", "^_", ".", ". ", ",")
		sep := pick(r, ",", ".", "·", "::", "|")
		if strings.Contains(ig, sep) {
			ig = " "
		}
		add(spelled{&PDef{Name: named(k, "flt", "float"), Type: "float", Ignore: ig, Sep: sep}, []any{0.0, 1.5, -1.5, 1234.25, 0.1, 1e6, -0.001},
			func(r randT, v any) string {
				s := strconv.FormatFloat(v.(float64), 'f', -1, 64)
				if strings.Contains(s, ".") {
					s += pick(r, "", "0", "00")
				} else {
					s += pick(r, "", ".0")
				}
				parts := strings.Split(s, ".")
				for i := range parts {
					parts[i] = sprinkle(r, parts[i], ig)
				}
				return strings.Join(parts, sep)
			}, []string{"abc", "1" + sep + "2" + sep + "3", "", "--1"}})
	}
	sets := [][2][]string{{{"yes", "y", "1"}, {"no", "n", "0"}}, {{"true"}, {"false"}}, {{"on|off", "a.b", "+"}, {"^", "on", "("}}, {{"はい", "oui"}, {"いいえ", "non"}}}
	for k, set := range sets {
		set := set
		add(spelled{&PDef{Name: named(k, "boo", "boolean"), Type: "boolean", T: set[0], F: set[1]}, []any{true, false},
			func(r randT, v any) string {
				if v.(bool) {
					return set[0][r.Intn(len(set[0]))]
				}
				return set[1][r.Intn(len(set[1]))]
			}, []string{"maybe", "YES", "TRUE ", "", "x"}})
	}
	str := w.Parsers["string"]
	add(spelled{str, []any{"a", "A", "a ", "日本", "1", "01", "%41", "a+b", "'", "true", "\t", "a\\"},
		func(r randT, v any) string { return v.(string) }, nil})
	byCs := map[string][]any{}
	raws := map[string]map[string]any{}
	for _, e := range encoded {
		d, _ := hex.DecodeString(e.hex)
		if raws[e.charset] == nil {
			raws[e.charset] = map[string]any{}
		}
		byCs[e.charset] = append(byCs[e.charset], e.text)
		raws[e.charset][string(d)] = e.text
	}
	cs := sortedKeys(byCs)
	for k := 0; k < 3; k++ {
		charset := cs[r.Intn(len(cs))]
		known := raws[charset]
		add(spelled{&PDef{Name: named(k, "chr", "string"), Type: "string", Charset: charset, Known: known}, byCs[charset],
			func(r randT, v any) string {
				for _, raw := range sortedKeys(known) {
					if known[raw] == v {
						return raw
					}
				}
				panic("no spelling")
			}, nil})
	}
	if w.Parsers["string"] != str {
		for i := range out {
			if out[i].p == str { // it is not there any more
				return append(out[:i], out[i+1:]...)
			}
		}
	}
	return out
}

// nearMiss gives a text which differs a little: the same value, another one, or none.
func nearMiss(r randT, s string) string {
	rs := []rune(s)
	i := 0
	if len(rs) > 0 {
		i = r.Intn(len(rs))
	}
	switch r.Intn(10) {
	case 0:
		return pick(r, " ", "\t", "\u00a0", "\n", "+", "0", "_", "\x00", ".", ",") + s
	case 1:
		return s + pick(r, " ", "\t", "\u00a0", "\n", "0", ".", ",", ".0", "e0", "e3", "_", "\x00", "L", "f")
	case 2:
		return strings.ToUpper(s)
	case 3:
		return strings.ToLower(s)
	case 4:
		return strings.ToUpper(string(rs[:i])) + string(rs[i:])
	case 5:
		return " " + s + " "
	case 6:
		return string(rs[:i])
	case 7:
		return s + s
	case 8:
		return string(rs[:i]) + pick(r, " ", "_", ",", "'", ".", "-", "٣", "３", "\u200b") + string(rs[i:])
	}
	return pick(r, "-0", "0x10", "0b1", "1e3", "1E400", "inf", "-Inf", "NaN", "1_000", "9223372036854775808", "-9223372036854775808", "1.", ".5", "０", "+7", "t", "T", "True", "f", "on", "null", "nil")
}

// The values of the data and of the requests are read by the same rules.
func c05(c *C) {
	c.phase("cells", func() { c05Cells(c) })
	worlds := c.Q(160, 1800)
	parallel(worlds, 5, func(wi int) {
		r := c.Rng("world", wi)
		w := NewWorld(c.dir("w%d", wi))
		sp := spelledParsers(w, r, true)
		fields := []Field{fID()}
		for i := range sp {
			s := sp[i]
			fields = append(fields, Field{fmt.Sprintf("f%d", i), s.p.Name, func(r randT, _ int) (string, any) {
				v := s.vals[r.Intn(len(s.vals))]
				return s.spell(r, v), v
			}})
		}
		n := []int{1, 30, 120}[r.Intn(3)]
		w.CsvInput(r, "in", n, fields, CsvOpts{Delim: pick(r, ",", ";", "\t")})
		ip := []IProp{}
		for _, f := range fields {
			ip = append(ip, IProp{f.Name, ""})
		}
		w.AddIndex(&Index{Name: "m", Kind: "map", Input: "in", Props: ip})
		w.AddIndex(&Index{Name: "s", Kind: "sqlite", Input: "in", Props: ip, Path: ":memory:"})
		for _, x := range []string{"", "m", "s"} {
			for i, s := range sp {
				pr := s.p.Name
				if pr == "string" {
					pr = pick(r, "", "string")
				}
				ps := map[string]Param{"v": {fmt.Sprintf("f%d", i), x, pr}}
				w.AddOutput(&Output{Name: fmt.Sprintf("q%s%d", x, i), Kind: "jsonArray", Input: "in", LimDefault: 200, Params: ps},
					fmt.Sprintf("/q%s/%d", x, i), fmt.Sprintf("/p%s/%d/{v}", x, i), fmt.Sprintf("/e%s/%d-{v}.end", x, i))
			}
		}
		s := w.startOrFail(c, StartOpts{})
		if s == nil {
			return
		}
		defer s.Kill()
		nq := c.Q(160, 800)
		parallel(nq, 4, func(q int) {
			r := c.Rng("q", wi*100000+q)
			i := r.Intn(len(sp))
			x := pick(r, "", "m", "s")
			var raw string
			bad := len(sp[i].bad) > 0 && r.Intn(5) == 0
			if bad {
				raw = sp[i].bad[r.Intn(len(sp[i].bad))]
			} else {
				raw = sp[i].spell(r, sp[i].vals[r.Intn(len(sp[i].vals))])
			}
			if sp[i].p.Charset == "" && r.Intn(3) == 0 {
				raw = nearMiss(r, raw)
			}
			var u string
			switch k := r.Intn(4); {
			case k < 2 || raw == "" || strings.Contains(raw, "/"):
				u = fmt.Sprintf("/q%s/%d?v=%s", x, i, url.QueryEscape(raw))
			case k == 2:
				u = fmt.Sprintf("/p%s/%d/%s", x, i, url.PathEscape(raw))
			default:
				u = fmt.Sprintf("/e%s/%d-%s.end", x, i, url.PathEscape(raw))
			}
			e := w.Expect(u)
			c.Count("texts_"+sp[i].p.Type, 1)
			w.AskExp(c, s, "parser:"+sp[i].p.Type, u, e)
			key := fmt.Sprintf("%d|%s", wi, u)
			if b, ok := e.Body.(A); ok && len(b) == 0 {
				key = ""
			}
			c.Eval(key)
		})
		if wi < 3 {
			c.Sample(M{"records": n, "parsers": len(sp), "integer_ignores": sp[0].p.Ignore, "decimal_separator": sp[2].p.Sep})
		}
	})
}

// jsonTexts are values, or nearly.
func jsonTexts(r randT) string {
	v, err := json.Marshal(randJSON(r, 3))
	must(err)
	s := string(v)
	switch r.Intn(8) {
	case 0:
		return s + pick(r, " ", "\n", " x", ",", "]", "}", "null", s, "\x00", "//c", " 1")
	case 1:
		return pick(r, " ", "\n\t", "\ufeff", "+", "-", "[", "\u00a0") + s
	case 2:
		if len(s) > 1 {
			return s[:1+r.Intn(len(s)-1)]
		}
	case 3:
		return pick(r, "", " ", "nul", "NULL", "True", "01", "1.", ".5", "1e", "1e5", "-0", "'a'", "[1,]", "{\"a\":1,}", "{a:1}", "{\"a\":1,\"a\":2}", "\"\\x\"", "\"\\ud83d\"", "\"\\ud83d\\ude00\"", "\"\t\"", "1e400", "NaN", "{\"b\":1}{\"c\":2}", "[]", "{}", "\"\"")
	}
	return s
}

// One text by record, in a cell read by one parser: the value or an error.
func c05Cells(c *C) {
	parallel(c.Q(14, 160), 4, func(wi int) {
		r := c.Rng("cells", wi)
		w := NewWorld(c.dir("c%d", wi))
		sp := spelledParsers(w, r, true)
		sp = append(sp, spelled{p: w.Parsers["json"]})
		for k := 0; k < 6; k++ {
			sub := sp[r.Intn(len(sp))]
			if sub.p.Charset != "" {
				sub = sp[0]
			}
			p := &PDef{Name: fmt.Sprintf("spl%d", k), Type: "split", Delim: pick(r, ";", "|", ", ", "::", "é", "-", "0", "a"), Sub: sub.p.Name}
			if r.Intn(3) == 0 {
				p.Delim, p.DelimRe = pick(r, "[;|]", " *; *", "x+", "^a", "-|;", "(;)(;)?", "$"), true
			}
			w.AddParser(p)
			sp = append(sp, spelled{p: p})
		}
		one := func(s spelled) string {
			t := ""
			switch {
			case len(s.bad) > 0 && r.Intn(6) == 0:
				t = pick(r, s.bad...)
			case len(s.vals) > 0:
				t = s.spell(r, s.vals[r.Intn(len(s.vals))])
			default:
				t = jsonTexts(r)
			}
			if s.p.Charset == "" && r.Intn(3) == 0 {
				t = nearMiss(r, t)
			}
			return t
		}
		byName := map[string]spelled{}
		for _, s := range sp {
			byName[s.p.Name] = s
		}
		var text func(s spelled) string
		text = func(s spelled) string {
			if s.p.Type != "split" {
				return one(s)
			}
			d := s.p.Delim
			if s.p.DelimRe {
				d = pick(r, ";", "|", " ;  ", "xx", "a", "-", ";;")
			}
			parts := []string{}
			many := r.Intn(5)
			if byName[s.p.Sub].p.Type != "split" && r.Intn(25) == 0 {
				many = 60 + r.Intn(400)
			}
			for j := many; j >= 0; j-- {
				parts = append(parts, text(byName[s.p.Sub]))
			}
			return strings.Join(parts, d) + pick(r, "", "", "", "", d)
		}
		for i := range sp {
			s := sp[i]
			id := 0
			w.CsvInput(r, fmt.Sprintf("in%d", i), 50, []Field{fID(), {"v", s.p.Name, func(r randT, row int) (string, any) {
				t := strings.ReplaceAll(text(s), "\r", "")
				id++
				v, err := w.Parse(s.p.Name, t)
				if err == nil { // NaN and Inf have no spelling in an answer
					_, err = json.Marshal(v)
				}
				if err != nil {
					c.Count("cells_refused", 1)
					return t, Bad{}
				}
				c.Count("cells_"+s.p.Type, 1)
				return t, v
			}}}, CsvOpts{})
			w.AddOutput(&Output{Name: fmt.Sprintf("o%d", i), Kind: "jsonObject", Input: fmt.Sprintf("in%d", i), Params: map[string]Param{"id": {"id", "", "integer"}}}, fmt.Sprintf("/%d/{id}", i))
		}
		s := w.startOrFail(c, StartOpts{})
		if s == nil {
			return
		}
		defer s.Kill()
		for i := range sp {
			for _, rec := range w.Inputs[fmt.Sprintf("in%d", i)].Recs {
				raw := fmt.Sprintf("/%d/%v", i, rec["id"])
				w.AskExp(c, s, "cell:"+sp[i].p.Type, raw, w.Expect(raw))
				c.Eval(fmt.Sprintf("cell|%d|%s", wi, raw))
			}
		}
	})
}
