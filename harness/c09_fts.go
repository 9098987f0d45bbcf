package main

import (
	"errors"
	"fmt"
	"net/url"
	"strings"
	"sync"
	"unicode"
)

func init() {
	register(&Check{ID: "C09", Level: "exploration", Min: 400,
		Rule: "a case is one generated full text expression (terms, phrases, prefixes, NEAR, column filters, AND/OR/NOT) against one index (tokenizer, prefix sizes, life of the server), judged by evaluating the expression on the tokens of the generated records; non-trivial when it uses words of the data",
		Fn:   c09})
}

// ---- expression and its evaluation ----

type ftsNode struct {
	op    string // phrase, near, and, or, not
	words []string
	pre   bool
	init  bool
	subs  []*ftsNode
	dist  int
	cols  []string
	neg   bool
}

func ftsQuote(s string) string { return `"` + strings.ReplaceAll(s, `"`, `""`) + `"` }

func bareword(s string) bool {
	for _, ch := range s {
		if ch < 0x80 && !unicode.IsLetter(ch) && !unicode.IsDigit(ch) && ch != '_' {
			return false
		}
	}
	return s != "" && s != "AND" && s != "OR" && s != "NOT" && s != "NEAR"
}

func (n *ftsNode) text(r randT) string {
	col := ""
	if len(n.cols) > 0 {
		cs := []string{}
		for _, x := range n.cols {
			if bareword(x) && r.Intn(2) == 0 {
				cs = append(cs, x)
			} else {
				cs = append(cs, ftsQuote(x))
			}
		}
		col = strings.Join(cs, " ")
		if len(cs) > 1 || r.Intn(3) == 0 {
			col = "{" + col + "}"
		}
		if n.neg {
			col = "- " + col
		}
		col += " : "
	}
	switch n.op {
	case "phrase":
		s := ""
		plain := true
		for _, x := range n.words {
			plain = plain && bareword(x)
		}
		if plain && r.Intn(2) == 0 {
			s = strings.Join(n.words, " + ")
		} else {
			s = ftsQuote(strings.Join(n.words, " "))
		}
		if n.pre {
			s += pick(r, "*", " *")
		}
		if n.init {
			s = "^" + s
		}
		return col + s
	case "near":
		ps := []string{}
		for _, x := range n.subs {
			ps = append(ps, x.text(r))
		}
		d := fmt.Sprintf(", %d", n.dist)
		if n.dist == 10 && r.Intn(2) == 0 {
			d = ""
		}
		return col + "NEAR(" + strings.Join(ps, " ") + d + ")"
	}
	ps := []string{}
	for _, x := range n.subs {
		ps = append(ps, "("+x.text(r)+")")
	}
	s := strings.Join(ps, map[string]string{"and": " AND ", "or": " OR ", "not": " NOT "}[n.op])
	if col != "" {
		s = col + "(" + s + ")"
	}
	return s
}

type ftsDoc map[string][]string // tokens per column

// starts gives the positions of a phrase in a column.
func phraseStarts(tokens, words []string, pre, init bool) []int {
	out := []int{}
	for i := 0; i+len(words) <= len(tokens); i++ {
		if init && i > 0 {
			break
		}
		ok := true
		for j, x := range words {
			t := tokens[i+j]
			if t != x && !(pre && j == len(words)-1 && strings.HasPrefix(t, x)) {
				ok = false
				break
			}
		}
		if ok {
			out = append(out, i)
		}
	}
	return out
}

func (n *ftsNode) eval(d ftsDoc, cols []string, tok func(string) []string) bool {
	if len(n.cols) > 0 {
		keep := []string{}
		for _, x := range cols {
			in := false
			for _, y := range n.cols {
				in = in || x == y
			}
			if in != n.neg {
				keep = append(keep, x)
			}
		}
		cols = keep
	}
	norm := func(p *ftsNode) []string {
		out := []string{}
		for _, x := range p.words {
			out = append(out, tok(x)...)
		}
		return out
	}
	switch n.op {
	case "phrase":
		for _, x := range cols {
			if len(phraseStarts(d[x], norm(n), n.pre, n.init)) > 0 {
				return true
			}
		}
		return false
	case "near":
		for _, x := range cols {
			all := [][]int{}
			lens := []int{}
			for _, p := range n.subs {
				ws := norm(p)
				all = append(all, phraseStarts(d[x], ws, p.pre, false))
				lens = append(lens, len(ws))
			}
			var try func(i, max int, chosen []int) bool
			try = func(i, max int, chosen []int) bool {
				if i == len(all) {
					for k, st := range chosen {
						if st < max-lens[k]-n.dist {
							return false
						}
					}
					return true
				}
				for _, st := range all[i] {
					m := max
					if st > m {
						m = st
					}
					if try(i+1, m, append(chosen, st)) {
						return true
					}
				}
				return false
			}
			if try(0, 0, nil) {
				return true
			}
		}
		return false
	case "and":
		for _, s := range n.subs {
			if !s.eval(d, cols, tok) {
				return false
			}
		}
		return true
	case "or":
		for _, s := range n.subs {
			if s.eval(d, cols, tok) {
				return true
			}
		}
		return false
	}
	return n.subs[0].eval(d, cols, tok) && !n.subs[1].eval(d, cols, tok)
}

var ftsFold = strings.NewReplacer("é", "e", "É", "e", "è", "e", "ü", "u", "Ü", "u", "ñ", "n", "Ñ", "n", "È", "e")

// tokenizers of the oracle, limited to the vocabulary of the generator
func unicodeTokens(s, extra string, fold bool) []string {
	out := []string{}
	cur := ""
	for _, ch := range s {
		if unicode.IsLetter(ch) || unicode.IsDigit(ch) || strings.ContainsRune(extra, ch) {
			cur += string(ch)
		} else if cur != "" {
			out = append(out, cur)
			cur = ""
		}
	}
	if cur != "" {
		out = append(out, cur)
	}
	for i := range out {
		if fold {
			out[i] = strings.ToLower(ftsFold.Replace(out[i]))
		} else {
			out[i] = asciiLower(out[i])
		}
	}
	return out
}

var ftsVocab = []string{"alpha", "beta", "Gamma", "delta", "alphabet", "alp", "café", "cafe", "CAFÉ", "niño", "über", "uber", "日本", "日本語", "x1", "42", "run-time", "a_b", "end", "and", "or", "not", "near", "é"}

func ftsText(r randT, n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteString(pick(r, " ", " ", " ", ", ", ". ", "\n", " - ", "; ", " (", "'", "\"", "/"))
		}
		b.WriteString(ftsVocab[r.Intn(len(ftsVocab))])
	}
	return b.String()
}

func ftsPhrase(r randT, src []string) *ftsNode {
	n := &ftsNode{op: "phrase"}
	k := pick(r, 1, 1, 1, 2, 3)
	if len(src) > 0 && r.Intn(4) > 0 {
		i := r.Intn(len(src))
		for j := i; j < len(src) && j < i+k; j++ {
			n.words = append(n.words, src[j])
		}
	} else {
		for j := 0; j < k; j++ {
			n.words = append(n.words, strings.ReplaceAll(strings.ReplaceAll(ftsVocab[r.Intn(len(ftsVocab))], "-", "z"), "_", "z"))
		}
	}
	if r.Intn(4) == 0 {
		last := []rune(n.words[len(n.words)-1])
		n.words[len(n.words)-1] = string(last[:1+r.Intn(len(last))])
		n.pre = true
	}
	if r.Intn(6) == 0 {
		n.words[0] = strings.ToUpper(n.words[0])
	}
	return n
}

func ftsExpr(r randT, depth int, src []string, cols []string) *ftsNode {
	var n *ftsNode
	switch k := r.Intn(10); {
	case depth > 0 && k < 5:
		n = &ftsNode{op: pick(r, "and", "and", "or", "not")}
		m := 2
		if n.op != "not" {
			m += r.Intn(2)
		}
		for i := 0; i < m; i++ {
			n.subs = append(n.subs, ftsExpr(r, depth-1, src, cols))
		}
	case k == 5 || k == 6:
		n = &ftsNode{op: "near", dist: pick(r, 0, 1, 2, 5, 10)}
		for i := 0; i < 2+r.Intn(2); i++ {
			n.subs = append(n.subs, ftsPhrase(r, src))
		}
	default:
		n = ftsPhrase(r, src)
		n.init = r.Intn(6) == 0
	}
	if r.Intn(4) == 0 {
		for _, x := range cols {
			if r.Intn(2) == 0 {
				n.cols = append(n.cols, x)
			}
		}
		n.neg = len(n.cols) > 0 && r.Intn(4) == 0
	}
	return n
}

// A fts5 index finds exactly the records matching the expression.
func c09(c *C) {
	c.phase("bulk", func() { c.bulk("bulk", "fts5") })
	worlds := c.Q(120, 1200)
	parallel(worlds, 5, func(wi int) {
		r := c.Rng("world", wi)
		w := NewWorld(c.dir("w%d", wi))
		n := []int{1, 30, 150, 400}[r.Intn(4)]
		kind := pick(r, "csv", "json")
		cols := []string{"title", "Body text", "é"}
		gen := func(max int) func(randT, int) (string, any) {
			return func(r randT, i int) (string, any) { s := ftsText(r, r.Intn(max+1)); return s, s }
		}
		fields := []Field{fID(), {"title", "string", gen(4)}, {"Body text", "string", gen(14)}, {"é", "string", gen(2)}}
		var in *Input
		if kind == "csv" {
			in = w.CsvInput(r, "in", n, fields, CsvOpts{Ragged: 0.1})
		} else {
			cols = append(cols, "sub.t")
			recs := []Rec{}
			for i := 0; i < n; i++ {
				rec := jsonRec(r, fields, i)
				rec["sub"] = M{"t": ftsText(r, r.Intn(4))}
				if r.Intn(6) == 0 {
					rec["title"] = nil
				}
				if r.Intn(6) == 0 {
					delete(rec, "é")
				}
				recs = append(recs, rec)
			}
			in = w.JsonInput(r, "in", recs)
		}
		ip := []IProp{}
		for _, x := range cols {
			ip = append(ip, IProp{x, ""})
		}
		type variant struct {
			name, tokenize string
			prefix         []int
			tok            func(string) []string
		}
		vs := []variant{
			{"def", "", nil, func(s string) []string { return unicodeTokens(s, "", true) }},
			{"pre", "unicode61", []int{1, 2, 3}, func(s string) []string { return unicodeTokens(s, "", true) }},
			{"asc", "ascii", nil, func(s string) []string { return unicodeTokens(s, "", false) }},
			{"tch", "unicode61 tokenchars '-_'", []int{2}, func(s string) []string { return unicodeTokens(s, "-_", true) }},
			{"dia", "unicode61 remove_diacritics 0", nil, func(s string) []string {
				out := unicodeTokens(s, "", false)
				for i := range out {
					out[i] = strings.ToLower(out[i])
				}
				return out
			}},
		}
		asts := map[string]*ftsNode{}
		var mu sync.Mutex
		for _, v := range vs {
			v := v
			cache := map[int]ftsDoc{}
			var cmu sync.Mutex
			doc := func(rec Rec) ftsDoc {
				var id int
				switch t := rec["id"].(type) {
				case int64:
					id = int(t)
				case float64:
					id = int(t)
				}
				cmu.Lock()
				defer cmu.Unlock()
				if d, ok := cache[id]; ok {
					return d
				}
				d := ftsDoc{}
				for _, x := range cols {
					val, _ := in.get(rec, x)
					s, _ := val.(string)
					d[x] = v.tok(s)
				}
				cache[id] = d
				return d
			}
			ix := &Index{Name: v.name, Kind: "fts5", Input: "in", Props: ip, Path: v.name + ".db", Tokenize: v.tokenize, Prefix: v.prefix}
			ix.FtsMatch = func(rec Rec, q string) (bool, error) {
				mu.Lock()
				a := asts[q]
				mu.Unlock()
				if a == nil {
					return false, errors.New("bad expression")
				}
				return a.eval(doc(rec), cols, v.tok), nil
			}
			w.AddIndex(ix)
			w.AddOutput(&Output{Name: "o" + v.name, Kind: "jsonArray", Input: "in", LimDefault: 1000, Params: map[string]Param{"q": {"match", v.name, ""}}}, "/"+v.name)
		}
		for life := 0; life < 2; life++ {
			s := w.startOrFail(c, StartOpts{})
			if s == nil {
				return
			}
			nq := c.Q(90, 600)
			parallel(nq, 4, func(q int) {
				r := c.Rng("q", wi*1000000+life*100000+q)
				v := vs[r.Intn(len(vs))]
				rec := in.Recs[r.Intn(len(in.Recs))]
				val, _ := in.get(rec, cols[r.Intn(len(cols))])
				src, _ := val.(string)
				ast := ftsExpr(r, pick(r, 0, 1, 2), v.tok(src), cols)
				expr := ast.text(r)
				if r.Intn(25) == 0 {
					expr = pick(r, "\"open", "(a", "AND", "NEAR(", "nocol : a", "*", "a AND")
				} else {
					mu.Lock()
					asts[expr] = ast
					mu.Unlock()
				}
				raw := "/" + v.name + "?q=" + url.QueryEscape(expr)
				if r.Intn(5) == 0 {
					raw += fmt.Sprintf("&limit=%d&offset=%d", 1+r.Intn(9), r.Intn(9))
				}
				e := w.Expect(raw)
				if b, ok := e.Body.(A); ok {
					c.Count("records_expected", int64(len(b)))
					if len(b) == 0 {
						c.Count("empty_answers", 1)
					}
				}
				c.Count("op_"+ast.op, 1)
				w.AskExp(c, s, "fts:"+v.name, raw, e)
				c.Eval(fmt.Sprintf("%d|%d|%s", wi, life, raw))
				if q == 0 && life == 0 {
					c.Sample(M{"expression": expr, "tokenizer": v.tokenize, "records": n})
				}
			})
			if code, ok := s.Stop(); !ok || code != 0 {
				c.Fail("stop", M{"code": code, "graceful": ok, "log": tail(s.Log.String(), 2000)}, s.Cfg)
			}
		}
	})
}
