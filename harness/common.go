package main

import (
	"fmt"
	"path/filepath"
	"strings"
)

// anyInput makes an input of the given kind. Whatever the kind, records have
// a unique "id", a "cat" with few values, "num", "price", "flag", "name",
// "note" (hostile text) and "tags" (an array of strings).
func (w *World) anyInput(r randT, name, kind string, n, textMax int) *Input {
	switch kind {
	case "fixed": // a csv whose size only depends on the number of records
		if w.Parsers["tags"] == nil {
			w.AddParser(&PDef{Name: "tags", Type: "split", Delim: "|", Sub: "string"})
		}
		letters := func(name string, n int) Field {
			return Field{name, "string", func(r randT, i int) (string, any) {
				b := make([]byte, n)
				for k := range b {
					b[k] = "abcdeABCDE"[r.Intn(10)]
				}
				return string(b), string(b)
			}}
		}
		return w.CsvInput(r, name, n, []Field{
			{"id", "integer", func(r randT, i int) (string, any) { return fmt.Sprint(1000 + i), int64(1000 + i) }},
			fKey("cat", "c", 9),
			{"num", "integer", func(r randT, i int) (string, any) { v := 100 + r.Intn(20); return fmt.Sprint(v), int64(v) }},
			{"price", "float", func(r randT, i int) (string, any) {
				v := 10 + r.Intn(20)
				return fmt.Sprintf("%d.25", v), float64(v) + 0.25
			}},
			{"flag", "boolean", func(r randT, i int) (string, any) { v := r.Intn(2); return fmt.Sprint(v), v == 1 }},
			letters("name", 8), letters("note", 3),
			{"tags", "tags", func(r randT, i int) (string, any) {
				a, b := fmt.Sprintf("t%d", r.Intn(6)), fmt.Sprintf("t%d", r.Intn(6))
				return a + "|" + b, A{a, b}
			}}}, CsvOpts{Header: n%2 == 0, QuoteAll: true})
	case "xml":
		o := XmlOpts{RecordPath: "//rec", Wrap: []string{"root"}, Noise: r.Intn(2) == 0, Compact: r.Intn(2) == 0, TextMax: textMax}
		if r.Intn(2) == 0 {
			o.RecordPath, o.Wrap = "/root/list/rec", []string{"root", "list"}
		}
		if r.Intn(3) == 0 {
			o.Latin1 = true
		}
		return w.XmlInput(r, name, n, o)
	}
	if w.Parsers["tags"] == nil {
		w.AddParser(&PDef{Name: "tags", Type: "split", Delim: "|", Sub: "string"})
	}
	note := fText("note", textMax/2+1)
	if w.Pad > 0 {
		gen := note.Gen
		note.Gen = func(r randT, i int) (string, any) {
			s, _ := gen(r, i)
			s = w.padded(r, s)
			return s, s
		}
	}
	fields := []Field{fID(), fKey("cat", "c", 6), fInt("num", 2000), fFloat("price", 4000), fBool("flag"),
		fText("name", textMax), note, fTags("tags", 6)}
	if kind == "csv" {
		return w.CsvInput(r, name, n, fields, CsvOpts{Delim: pick(r, ",", ";", "\t", "é"), Header: r.Intn(2) == 0, CRLF: r.Intn(2) == 0,
			Ragged: 0.05 * float64(r.Intn(2)), RaggedKeep: 6, Blank: 0.05 * float64(r.Intn(2)), NoFinalNL: r.Intn(2) == 0})
	}
	recs := []Rec{}
	for i := 0; i < n; i++ {
		rec := jsonRec(r, fields, i)
		for _, p := range []string{"num", "price", "flag"} {
			if w.Holes > 0 && r.Float64() < w.Holes {
				if r.Intn(3) == 0 {
					rec[p] = nil
				} else {
					delete(rec, p)
				}
			}
		}
		recs = append(recs, rec)
	}
	return w.JsonInput(r, name, recs)
}

func jsonRec(r randT, fields []Field, i int) Rec {
	rec := Rec{}
	for _, f := range fields {
		_, v := f.Gen(r, i)
		if iv, ok := v.(int64); ok {
			v = float64(iv)
		}
		rec[f.Name] = v
	}
	return rec
}

func fTags(name string, mod int) Field {
	return Field{name, "tags", func(r randT, i int) (string, any) {
		a := A{}
		ss := []string{}
		for j := 0; j <= r.Intn(4); j++ {
			t := fmt.Sprintf("t%d", r.Intn(mod))
			ss = append(ss, t)
			a = append(a, t)
		}
		return strings.Join(ss, "|"), a
	}}
}

// numParser is the parser giving filters of the type of the numbers of an input.
func numParser(kind string) string {
	if kind == "json" {
		return "float"
	}
	return "integer"
}

func (c *C) dir(format string, a ...any) string {
	return filepath.Join(c.Work, fmt.Sprintf(format, a...))
}

// startOrFail starts the world; a server which does not start is a violation
// (every generated configuration is valid).
func (w *World) startOrFail(c *C, o StartOpts) *Server {
	s, err := w.Start(c, o)
	if err != nil {
		files := []string{}
		if s != nil {
			files = append(files, s.Cfg)
		}
		for _, k := range sortedKeys(w.Inputs) {
			files = append(files, filepath.Join(w.Dir, w.Inputs[k].File))
		}
		c.Fail("startup", M{"error": err.Error()}, files...)
		if s != nil {
			s.Kill()
		}
		return nil
	}
	return s
}
