package main

import (
	"fmt"
	"net/url"
	"strings"
)

func init() {
	register(&Check{ID: "C08", Level: "exploration", Min: 500,
		Rule: "a case is one request filtered by one or several substrings (data set, index, life of the server, substrings); non-trivial when a substring is taken from the indexed data or is a one-byte/one-case change of such a substring",
		Fn:   c08})
}

// alphaText draws from a tiny alphabet so that the suffix tree splits a lot.
func alphaText(r randT, style, max int) string {
	var abc []string
	switch style {
	case 0:
		abc = []string{"a", "b"}
	case 1:
		abc = []string{"a"}
	case 2:
		abc = []string{"a", "A", "b", "B", "é", "É", "è", "ß"}
	case 3:
		abc = []string{"日", "本", "東", "京", "旧", "時"}
	case 4:
		abc = append([]string{" ", "%", "_", "*", "?", "'", "\""}, words...)
	default:
		abc = []string{"a", "b", "c", "ab", "abc", "\x01", "\n", "🎉", "🎊"}
	}
	n := r.Intn(max + 1)
	var b strings.Builder
	for b.Len() < n {
		b.WriteString(abc[r.Intn(len(abc))])
	}
	return b.String()
}

// A wildcard index finds exactly the records containing the text.
func c08(c *C) {
	c.phase("bulk", func() { c.bulk("bulk", "wildcard") })
	worlds := c.Q(112, 1200)
	parallel(worlds, 4, func(wi int) {
		r := c.Rng("world", wi)
		style := wi % 6
		n := []int{1, 40, 150, 400}[r.Intn(4)]
		maxA := []int{6, 24, 60}[r.Intn(3)]
		if style == 1 {
			maxA = 30
		}
		if wi%7 == 3 { // few long values crossing the buffer of the index several times
			n, maxA = 6, 900
			if style == 1 {
				style = 0
			}
			if wi%2 == 1 && style != 0 && style != 2 {
				n, maxA = 3, 5000 // bytes, longer than several buffers
			}
		}
		w := NewWorld(c.dir("w%d", wi))
		w.AddParser(&PDef{Name: "tags", Type: "split", Delim: "|", Sub: "string"})
		arr := func(r randT) (string, any) {
			a, ss := A{}, []string{}
			for j := 0; j <= r.Intn(4); j++ {
				t := strings.ReplaceAll(alphaText(r, style, 8), "|", "")
				a, ss = append(a, t), append(ss, t)
			}
			return strings.Join(ss, "|"), a
		}
		fields := []Field{fID(),
			{"a", "string", func(r randT, i int) (string, any) { s := alphaText(r, style, maxA); return s, s }},
			{"b", "string", func(r randT, i int) (string, any) { s := alphaText(r, style, 5); return s, s }},
			{"t", "tags", func(r randT, i int) (string, any) { return arr(r) }}}
		kind := "csv"
		var in *Input
		if wi%2 == 0 {
			in = w.CsvInput(r, "in", n, fields, CsvOpts{Header: r.Intn(2) == 0})
		} else {
			kind = "json"
			recs := []Rec{}
			for i := 0; i < n; i++ {
				rec := jsonRec(r, fields, i)
				a := A{}
				for j := 0; j < r.Intn(3); j++ {
					_, v := arr(r)
					a = append(a, v, alphaText(r, style, 6))
				}
				rec["n"] = M{"t": a}
				recs = append(recs, rec)
			}
			in = w.JsonInput(r, "in", recs)
		}
		props := []string{"a", "b", "t"}
		if kind == "json" {
			props = append(props, "n.t")
		}
		ip := []IProp{}
		for _, p := range props {
			ip = append(ip, IProp{p, ""})
		}
		w.AddIndex(&Index{Name: "cs", Kind: "wildcard", Input: "in", Props: ip, Path: "cs.idx"})
		w.AddIndex(&Index{Name: "ci", Kind: "wildcard", Input: "in", Props: ip, Path: "ci.idx", IgnoreCase: true})
		for _, x := range []string{"cs", "ci"} {
			ps := map[string]Param{}
			for _, p := range props {
				ps["p."+p] = Param{p, x, ""}
			}
			w.AddOutput(&Output{Name: "o" + x, Kind: "jsonArray", Input: "in", LimDefault: 1000, Params: ps}, "/"+x)
		}
		for life := 0; life < 2; life++ {
			s := w.startOrFail(c, StartOpts{})
			if s == nil {
				return
			}
			nq := c.Q(70, 400)
			parallel(nq, 4, func(q int) {
				r := c.Rng("q", wi*1000000+life*100000+q)
				x := pick(r, "cs", "ci")
				vals := url.Values{}
				hit := false
				base := in.Recs[r.Intn(len(in.Recs))]
				for f := 0; f < pick(r, 1, 1, 1, 2, 3); f++ {
					p := props[r.Intn(len(props))]
					v, _ := in.get(base, p)
					sub, h := substringOf(r, v)
					if sub == "" {
						sub = alphaText(r, style, 3) + "a"
					}
					hit = hit || h
					vals.Set("p."+p, sub)
				}
				raw := "/" + x + "?" + vals.Encode()
				e := w.Expect(raw)
				if b, ok := e.Body.(A); ok {
					c.Count("records_expected", int64(len(b)))
					if len(b) == 0 {
						c.Count("empty_answers", 1)
					}
				}
				w.AskExp(c, s, "wildcard:"+x, raw, e)
				if q == 0 && life == 0 {
					c.Sample(M{"records": n, "kind": kind, "request": raw})
				}
				key := ""
				if hit {
					key = fmt.Sprintf("%d|%d|%s", wi, life, raw)
				}
				c.Eval(key)
			})
			if code, ok := s.Stop(); !ok || code != 0 {
				c.Fail("stop", M{"code": code, "graceful": ok, "log": tail(s.Log.String(), 2000)}, s.Cfg)
			}
		}
	})
}

// substringOf cuts a byte- or rune-aligned part of a value, sometimes damaged.
func substringOf(r randT, v any) (string, bool) {
	for {
		a, ok := v.(A)
		if !ok {
			break
		}
		if len(a) == 0 {
			return "", false
		}
		v = a[r.Intn(len(a))]
	}
	s, ok := v.(string)
	if !ok || s == "" {
		return "", false
	}
	runes := []rune(s)
	i := r.Intn(len(runes))
	j := i + 1 + r.Intn(len(runes)-i)
	switch r.Intn(6) {
	case 0:
		i = 0
	case 1:
		j = len(runes)
	case 2:
		i, j = 0, len(runes)
	}
	sub := string(runes[i:j])
	switch r.Intn(8) {
	case 0:
		return sub + pick(r, "a", "b", "z", " "), true
	case 1:
		return pick(r, "a", "b", "z", " ") + sub, true
	case 2:
		return flipCase(sub), true
	case 3:
		return strings.ToUpper(sub), true
	}
	return sub, true
}
