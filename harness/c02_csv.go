package main

import (
	"encoding/hex"
	"fmt"
	"math"
	"strconv"
	"strings"
)

func init() {
	register(&Check{ID: "C02", Level: "exploration", Min: 500,
		Rule: "a case is one generated record of one generated csv dialect (delimiter, quoting, line ends, header, ragged and blank lines, typed columns, cells up to several read buffers), read by address or by listing and compared cell by cell with the values the generator encoded; always non-trivial",
		Fn:   c02})
}

// csvFields makes a random set of typed columns, adding the parsers needed.
func csvFields(w *World, r randT, bad bool) []Field {
	names := []string{"Name", "a b", "é", "日本", "x-y", "a_b", "A", "value", "UPPER", "0", "quo\"te", "semi;colon", "com,ma", "len", " lead", "trail ", " ", "  ", "\u00a0n", "name", "a", "new\nline", "a.b", "É", "\ufeffbom", "tab\t", "ID", "'q'", "null", "true", "-1"}
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	fields := []Field{fID()}
	n := 1 + r.Intn(pick(r, 8, 8, 20))
	for k := 0; k < n; k++ {
		f := typedField(w, r, names[k], k, bad)
		fields = append(fields, f)
	}
	// the id is not always the first column
	j := r.Intn(len(fields))
	fields[0], fields[j] = fields[j], fields[0]
	return fields
}

func typedField(w *World, r randT, name string, k int, bad bool) Field {
	big := pick(r, 10, 40, 200, 5000)
	switch r.Intn(11) {
	case 0:
		return fInt(name, 100000)
	case 1: // the whole int64 range
		return Field{name, "integer", func(r randT, i int) (string, any) {
			v := pick(r, int64(math.MaxInt64), math.MinInt64, 0, -1, 1<<53+1, -(1<<53 + 1), r.Int63(), -r.Int63())
			return strconv.FormatInt(v, 10), v
		}}
	case 2:
		p := w.AddParser(&PDef{Name: fmt.Sprintf("int%d", k), Type: "integer", Ignore: pick(r, " ", ", ", "$ .", "-_", "^]")})
		return Field{name, p.Name, func(r randT, i int) (string, any) {
			v := int64(r.Intn(1000000))
			if !strings.Contains(p.Ignore, "-") && r.Intn(3) == 0 {
				v = -v
			}
			return sprinkle(r, strconv.FormatInt(v, 10), p.Ignore), v
		}}
	case 3:
		ig := pick(r, "", " ", "_ ", "'")
		sep := pick(r, ",", ".", "·", "::")
		p := w.AddParser(&PDef{Name: fmt.Sprintf("flt%d", k), Type: "float", Ignore: ig, Sep: sep})
		return Field{name, p.Name, func(r randT, i int) (string, any) {
			s := strconv.Itoa(r.Intn(100000)) + "." + strconv.Itoa(r.Intn(1000))
			if r.Intn(2) == 0 {
				s = "-" + s
			}
			v, err := strconv.ParseFloat(s, 64)
			must(err)
			return strings.ReplaceAll(sprinkle(r, s, ig), ".", sep), v
		}}
	case 4:
		p := w.AddParser(&PDef{Name: fmt.Sprintf("boo%d", k), Type: "boolean", T: []string{"yes", "Y", "oui", "1"}, F: []string{"no", "N", "", "0"}})
		return Field{name, p.Name, func(r randT, i int) (string, any) {
			if r.Intn(2) == 0 {
				return p.T[r.Intn(len(p.T))], true
			}
			return p.F[r.Intn(len(p.F))], false
		}}
	case 5:
		return Field{name, "json", func(r randT, i int) (string, any) {
			v := randJSON(r, 3)
			var b strings.Builder
			jsonEncode(r, &b, v)
			return strings.ReplaceAll(b.String(), "\r", " "), v
		}}
	case 6:
		in := w.AddParser(&PDef{Name: fmt.Sprintf("spi%d", k), Type: "split", Delim: ":", Sub: pick(r, "string", "string", "integer")})
		out := w.AddParser(&PDef{Name: fmt.Sprintf("spo%d", k), Type: "split", Delim: pick(r, "||", "/", "é", " - "), Sub: in.Name})
		return Field{name, out.Name, func(r randT, i int) (string, any) {
			a, ss := A{}, []string{}
			for x := 0; x <= r.Intn(4); x++ {
				b, tt := A{}, []string{}
				for y := 0; y <= r.Intn(3); y++ {
					if in.Sub == "integer" {
						v := int64(r.Intn(50) - 20)
						b, tt = append(b, v), append(tt, strconv.FormatInt(v, 10))
					} else {
						v := pick(r, "", "x", "y z", "日", "\"", ",", "a,b")
						b, tt = append(b, v), append(tt, v)
					}
				}
				a, ss = append(a, b), append(ss, strings.Join(tt, ":"))
			}
			return strings.Join(ss, out.Delim), a
		}}
	case 7:
		p := w.AddParser(&PDef{Name: fmt.Sprintf("spr%d", k), Type: "split", Delim: pick(r, `[;,]\s*`, `\s+`, `x+`), DelimRe: true, Sub: "string"})
		return Field{name, p.Name, func(r randT, i int) (string, any) {
			parts, a := []string{}, A{}
			for x := 0; x <= r.Intn(5); x++ {
				v := pick(r, "A", "b", "日本", "1", "\"q\"")
				parts, a = append(parts, v), append(a, v)
			}
			s := parts[0]
			for _, q := range parts[1:] {
				switch p.Delim[0] {
				case '[':
					s += pick(r, ";", ",", "; ", ",  ", ",\n") + q
				case '\\':
					s += pick(r, " ", "  ", "\t", " \n ") + q
				default:
					s += pick(r, "x", "xx", "xxxxx") + q
				}
			}
			return s, a
		}}
	case 8:
		e := encoded[r.Intn(len(encoded))]
		p := w.AddParser(&PDef{Name: fmt.Sprintf("chr%d", k), Type: "string", Charset: pick(r, e.charset, strings.ToUpper(e.charset))})
		return Field{name, p.Name, func(r randT, i int) (string, any) {
			raw, val := "", ""
			for j := 0; j < r.Intn(6); j++ {
				x := encoded[r.Intn(len(encoded))]
				if x.charset == e.charset {
					d, _ := hex.DecodeString(x.hex)
					raw, val = raw+string(d), val+x.text
				}
			}
			return raw, val
		}}
	case 9:
		if bad {
			return Field{name, "integer", func(r randT, i int) (string, any) {
				if r.Intn(25) == 0 {
					return pick(r, "abc", "", "1.5", "99999999999999999999", " 1", "0x10"), Bad{}
				}
				return strconv.Itoa(i), int64(i)
			}}
		}
	}
	return fText(name, big)
}

func sprinkle(r randT, s, chars string) string {
	if chars == "" {
		return s
	}
	cs := []rune(chars)
	var b strings.Builder
	for _, ch := range s {
		for r.Intn(3) == 0 {
			b.WriteRune(cs[r.Intn(len(cs))])
		}
		b.WriteRune(ch)
	}
	if r.Intn(3) == 0 {
		b.WriteRune(cs[r.Intn(len(cs))])
	}
	return b.String()
}

func randJSON(r randT, depth int) any {
	switch k := r.Intn(9); {
	case k == 0:
		return nil
	case k == 1:
		return r.Intn(2) == 0
	case k == 2:
		return float64(r.Intn(100000)-50000) / 8
	case k == 3:
		return pick(r, 0.0, 1e21, -1e-7, 123456789012345680.0, 5e-324, 1.7976931348623157e308, 0.1)
	case k <= 5 || depth == 0:
		return text(r, 20, true)
	case k <= 6:
		a := A{}
		for i := 0; i < r.Intn(4); i++ {
			a = append(a, randJSON(r, depth-1))
		}
		return a
	}
	m := M{}
	for i := 0; i < r.Intn(4); i++ {
		m[pick(r, "a", "b", "é", "", "a.b", "k\"", "x y", "0", "\t")] = randJSON(r, depth-1)
	}
	return m
}

// Reading a csv gives the cells which were written, typed by their parsers.
func c02(c *C) {
	c.phase("edges", func() { c02Edges(c) })
	worlds := c.Q(300, 3000)
	parallel(worlds, 6, func(wi int) {
		r := c.Rng("world", wi)
		w := NewWorld(c.dir("w%d", wi))
		n := []int{0, 1, 2, 30, 120, 700}[r.Intn(6)]
		auto := wi%4 == 3
		bad := wi%4 == 1
		fields := csvFields(w, r, bad)
		o := CsvOpts{Delim: pick(r, ",", ";", "\t", "|", "é", "日", " ", ":"), Header: r.Intn(2) == 0, CRLF: r.Intn(2) == 0,
			NoFinalNL: r.Intn(2) == 0, QuoteAll: r.Intn(5) == 0}
		if r.Intn(2) == 0 {
			o.Ragged, o.Blank = 0.15, 0.1
		}
		if auto {
			o.Header, o.Autodetect = true, true
			for k := range fields {
				f := fields[k]
				fields[k] = Field{f.Name, "string", func(r randT, i int) (string, any) {
					raw, _ := f.Gen(r, i)
					return raw, raw
				}}
			}
			o.Ragged = 0
		}
		in := w.CsvInput(r, "in", n, fields, o)
		if auto {
			for _, rec := range in.Recs {
				for k := range rec {
					if v, ok := rec[k].(int64); ok {
						rec[k] = strconv.FormatInt(v, 10)
					}
				}
			}
		}
		idParser := "integer"
		if auto {
			idParser = ""
		}
		// A ragged line may have no id: it can only be listed
		w.AddIndex(&Index{Name: "m", Kind: "map", Input: "in", Props: []IProp{{"id", ""}}})
		w.AddOutput(&Output{Name: "one", Kind: "jsonObject", Input: "in", Params: map[string]Param{"id": {"id", "m", idParser}}}, "/one/{id}")
		w.AddOutput(&Output{Name: "all", Kind: "jsonArray", Input: "in", LimDefault: 10}, "/all")
		s := w.startOrFail(c, StartOpts{})
		if s == nil {
			return
		}
		defer s.Kill()
		step := 1 + r.Intn(40)
		seen := 0
		for off := 0; off <= n; off += step {
			raw := fmt.Sprintf("/all?limit=%d&offset=%d", step, off)
			w.Ask(c, s, "csv:list", raw)
			end := off + step
			if end > n {
				end = n
			}
			for i := off; i < end; i++ {
				c.Eval(fmt.Sprintf("%d|list|%d", wi, i))
				seen++
			}
		}
		max := c.Q(60, 700)
		for _, i := range r.Perm(n) {
			if max--; max < 0 {
				break
			}
			w.Ask(c, s, "csv:one", fmt.Sprintf("/one/%d", i))
			c.Eval(fmt.Sprintf("%d|one|%d", wi, i))
		}
		if n == 0 {
			c.Eval(fmt.Sprintf("%d|empty", wi))
		}
		c.Count("dialects", 1)
		c.Count("records", int64(n))
		if wi < 3 {
			c.Sample(M{"records": n, "columns": len(fields), "delimiter": o.Delim, "header": o.Header, "autodetect": auto, "with_unparsable_cells": bad})
		}
	})
}
