package main

import (
	"fmt"
	"net/url"
	"os"
	"path/filepath"
	"strings"
)

// c02Edges: the first and the last cell of a file begin or end with what some
// other readers take for something else than data.
func c02Edges(c *C) {
	special := []string{"\ufeff", "\ufeff\ufeff", "\ufeffa", "sep=;", "sep=", "#", "# comment", "//", "--", ";", "\x00", "\x1a", "a\x00", "a\x1a", "a\x04", "\\", "a\\", "\\.", "'", "'a'", "=1+1", "@a", "+", "-", "%PDF", "PK\x03\x04", "\x1f\x8b", "\u200b", "\u2028", "a\u2028", "\u0085", "a\u0085", "\v", "\f", "a\v", "NULL", "\\N", "null", "NaN", "0", " ", "\t", "a ", "é", "e\u0301", "id", "t"}
	n := len(special) * c.Q(2, 12)
	parallel(n, 6, func(i int) {
		r := c.Rng("edges", i)
		sp := special[i%len(special)]
		quoted := i/len(special)%2 == 1
		cell := func(s string) string {
			if quoted || s == "" || s == " " || s == "\t" || strings.ContainsAny(s, "\",\n\r") || s[0] == ' ' {
				return `"` + strings.ReplaceAll(s, `"`, `""`) + `"`
			}
			return s
		}
		w := NewWorld(c.dir("edges%d", i))
		cols := pick(r, 1, 2)
		rows := pick(r, 1, 2, 5)
		recs := []Rec{}
		var b strings.Builder
		head := r.Intn(2) == 0
		eol := pick(r, "\n", "\r\n")
		if head {
			if cols == 1 {
				b.WriteString("t" + eol)
			} else {
				b.WriteString("t,u" + eol)
			}
		}
		for j := 0; j < rows; j++ {
			t, u := "t"+fmt.Sprint(j), "u"+fmt.Sprint(j)
			if j == 0 || r.Intn(3) == 0 {
				t = sp
			}
			if j == rows-1 {
				u = sp
				if cols == 1 {
					t = sp
				}
			}
			rec := Rec{"t": t}
			b.WriteString(cell(t))
			if cols == 2 {
				rec["u"] = u
				b.WriteString("," + cell(u))
			}
			if j < rows-1 || r.Intn(2) == 0 {
				b.WriteString(eol)
			}
			recs = append(recs, rec)
		}
		must(os.WriteFile(filepath.Join(w.Dir, "in.csv"), []byte(b.String()), 0644))
		conf := M{"columns": A{M{"name": "t"}}, "ignoreFirstRow": head}
		if cols == 2 {
			conf["columns"] = A{M{"name": "t"}, M{"name": "u"}}
		}
		w.AddInput(&Input{Name: "in", Kind: "csv", File: "in.csv", Recs: recs, Conf: conf})
		w.AddIndex(&Index{Name: "m", Kind: "map", Input: "in", Props: []IProp{{"t", ""}}})
		w.AddOutput(&Output{Name: "o", Kind: "jsonArray", Input: "in", LimDefault: 100, Params: map[string]Param{"m": {"t", "m", ""}, "t": {"t", "", ""}}}, "/o")
		s := w.startOrFail(c, StartOpts{})
		if s == nil {
			return
		}
		defer s.Kill()
		for k := 0; k < 2; k++ {
			for _, raw := range []string{"/o", "/o?m=" + url.QueryEscape(sp), "/o?t=" + url.QueryEscape(sp), "/o?m=t0", fmt.Sprintf("/o?offset=%d", rows-1), "/o?limit=1"} {
				w.Ask(c, s, "edges", raw)
			}
		}
		c.Eval(fmt.Sprintf("edges|%d", i))
	})
}
