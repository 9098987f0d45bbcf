package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

var words = []string{"alpha", "beta", "gamma", "delta", "omega", "Sun", "moon", "STAR", "river", "stone", "cloud", "fire", "ice", "wind", "tree", "leaf", "root", "seed", "bird", "wolf"}
var uni = []string{"é", "ü", "ñ", "日本", "東京", "Ω", "ß", "Ж", "🎉", "中", "ﬁ", "ا"}

// characters which are easily dropped, folded, split or normalised on the way
var odd = []string{"\u00a0", "\u200b", "e\u0301", "\u2028", "\u0085", "\ufeff", "\u3000", "É", "Ü", "Σ", "ς", "İ", "ı", "ſ", "K", "Ж", "ж", "\u202e", "👩‍👩‍👧", "\ufffd", "\u007f", "ǆ", "Ａ", "𐐀", "\U0010fffd", "''", "--", "\\n", "%20", "&amp;", "null", "${x}", "/*"}

// longPrefix makes texts which only differ late.
const longPrefix = "a long common prefix of many texts, "

func word(r *rand.Rand) string { return words[r.Intn(len(words))] }

// text makes a hostile but printable string.
func text(r *rand.Rand, max int, newline bool) string {
	var b strings.Builder
	n := r.Intn(max + 1)
	if max >= 100 && r.Intn(4) == 0 {
		b.WriteString(longPrefix)
		n += len(longPrefix)
	}
	for b.Len() < n {
		switch r.Intn(16) {
		case 14:
			b.WriteString(odd[r.Intn(len(odd))])
		case 0:
			b.WriteString(uni[r.Intn(len(uni))])
		case 1:
			b.WriteString("\"")
		case 2:
			b.WriteString(",")
		case 3:
			b.WriteString(" ")
		case 4:
			b.WriteString(";")
		case 5:
			b.WriteString("\t")
		case 6:
			if newline {
				b.WriteString("\n")
			} else {
				b.WriteString("|")
			}
		case 7:
			b.WriteString([]string{"<", ">", "&", "'", "]]", "{", "}", "\\", "$", "%", "#", "/", "?", "="}[r.Intn(14)])
		case 8:
			b.WriteString(strconv.Itoa(r.Intn(100000)))
		default:
			b.WriteString(word(r))
		}
	}
	return b.String()
}

// Field of a generated entity.
type Field struct {
	Name   string
	Parser string
	Gen    func(r *rand.Rand, i int) (raw string, val any)
}

type CsvOpts struct {
	Delim      string
	Header     bool // writes a header row (ignoreFirstRow)
	Autodetect bool
	CRLF       bool
	Ragged     float64 // probability of missing or extra cells
	RaggedKeep int     // columns which are never missing
	Blank      float64 // probability of an empty line before a row
	NoFinalNL  bool
	QuoteAll   bool
}

func csvCell(r *rand.Rand, s, delim string, force bool) string {
	if force || s == "" && r.Intn(2) == 0 || strings.ContainsAny(s, "\"\n\r") || strings.Contains(s, delim) || r.Intn(5) == 0 {
		return `"` + strings.ReplaceAll(s, `"`, `""`) + `"`
	}
	return s
}

// CsvInput generates n rows, writes the file and returns the expected records.
func (w *World) CsvInput(r *rand.Rand, name string, n int, fields []Field, o CsvOpts) *Input {
	if o.Delim == "" {
		o.Delim = ","
	}
	eol := "\n"
	if o.CRLF {
		eol = "\r\n"
	}
	var b strings.Builder
	if o.Header {
		for i, f := range fields {
			if i > 0 {
				b.WriteString(o.Delim)
			}
			b.WriteString(csvCell(r, f.Name, o.Delim, o.QuoteAll))
		}
		b.WriteString(eol)
	}
	recs := make([]Rec, 0, n)
	for i := 0; i < n; i++ {
		rec := Rec{}
		cells := make([]string, len(fields))
		for k, f := range fields {
			raw, val := f.Gen(r, i)
			cells[k] = raw
			rec[f.Name] = val
		}
		keep := len(fields)
		extra := 0
		if o.Ragged > 0 && r.Float64() < o.Ragged {
			low := o.RaggedKeep
			if low < 1 {
				low = 1
			}
			if r.Intn(2) == 0 && len(fields) > low {
				keep = low + r.Intn(len(fields)-low)
				for k := keep; k < len(fields); k++ {
					rec[fields[k].Name] = nil
				}
			} else {
				extra = 1 + r.Intn(3)
			}
		}
		if o.Blank > 0 && r.Float64() < o.Blank {
			b.WriteString(eol)
		}
		if w.gapAt(i, n) {
			b.WriteString(strings.Repeat(eol, w.Gap/len(eol)))
		}
		for k := 0; k < keep; k++ {
			if k > 0 {
				b.WriteString(o.Delim)
			}
			force := o.QuoteAll || (keep == 1 && extra == 0 && cells[k] == "")
			b.WriteString(csvCell(r, cells[k], o.Delim, force))
		}
		for k := 0; k < extra; k++ {
			b.WriteString(o.Delim)
			b.WriteString(csvCell(r, text(r, 10, true), o.Delim, false))
		}
		if i < n-1 || !o.NoFinalNL {
			b.WriteString(eol)
		}
		recs = append(recs, rec)
	}
	file := name + ".csv"
	must(os.WriteFile(filepath.Join(w.Dir, file), []byte(b.String()), 0644))
	conf := M{"delimiter": o.Delim}
	if o.Delim == "," && r.Intn(2) == 0 {
		delete(conf, "delimiter")
	}
	if o.Header {
		conf["ignoreFirstRow"] = true
	}
	if o.Autodetect {
		conf["autodetectColumns"] = true
	} else {
		cols := A{}
		for _, f := range fields {
			m := M{"name": f.Name}
			if f.Parser != "" && !(f.Parser == "string" && r.Intn(2) == 0) {
				m["parser"] = f.Parser
			}
			cols = append(cols, m)
		}
		conf["columns"] = cols
	}
	return w.AddInput(&Input{Name: name, Kind: "csv", File: file, Conf: conf, Recs: recs, Strict: true})
}

// gapAt says where long stretches without data are: positions in the file
// grow without many records.
func (w *World) gapAt(i, n int) bool {
	return w.Gap > 0 && (i == n/3 || i == n/2 || i == n-1)
}

// padded lengthens some of the notes.
func (w *World) padded(r *rand.Rand, s string) string {
	if w.Pad > 0 && r.Intn(8) == 0 {
		return strings.TrimSpace(s + "x" + text(r, w.Pad, true) + "x")
	}
	return s
}

func pick[T any](r *rand.Rand, v ...T) T { return v[r.Intn(len(v))] }

func fID() Field {
	return Field{"id", "integer", func(r *rand.Rand, i int) (string, any) { return strconv.Itoa(i), int64(i) }}
}

func fKey(name, prefix string, mod int) Field {
	return Field{name, "string", func(r *rand.Rand, i int) (string, any) {
		s := fmt.Sprintf("%s%d", prefix, r.Intn(mod))
		return s, s
	}}
}
func fUnique(name, prefix string) Field {
	return Field{name, "string", func(r *rand.Rand, i int) (string, any) { s := fmt.Sprintf("%s%d", prefix, i); return s, s }}
}
func fText(name string, max int) Field {
	return Field{name, "string", func(r *rand.Rand, i int) (string, any) { s := text(r, max, true); return s, s }}
}
func fWords(name string, max int) Field {
	return Field{name, "string", func(r *rand.Rand, i int) (string, any) {
		n := r.Intn(max + 1)
		ws := []string{}
		for j := 0; j < n; j++ {
			ws = append(ws, word(r))
		}
		s := strings.Join(ws, " ")
		return s, s
	}}
}
func fInt(name string, mod int) Field {
	return Field{name, "integer", func(r *rand.Rand, i int) (string, any) {
		v := int64(r.Intn(mod) - mod/3)
		return strconv.FormatInt(v, 10), v
	}}
}
func fFloat(name string, mod int) Field {
	return Field{name, "float", func(r *rand.Rand, i int) (string, any) {
		v := float64(r.Intn(mod)-mod/3) / 4
		return strconv.FormatFloat(v, 'f', -1, 64), v
	}}
}
func fBool(name string) Field {
	return Field{name, "boolean", func(r *rand.Rand, i int) (string, any) {
		if r.Intn(2) == 0 {
			return pick(r, "true", "1", "TRUE"), true
		}
		return pick(r, "false", "0", "FALSE"), false
	}}
}

// jsonEncode renders a value with randomly chosen, equivalent JSON spellings.
func jsonEncode(r *rand.Rand, b *strings.Builder, v any) {
	ws := func() {
		if r.Intn(8) == 0 {
			b.WriteString(pick(r, " ", "\n", "\t", "  ", "\r\n"))
		}
	}
	ws()
	switch t := v.(type) {
	case M:
		b.WriteString("{")
		keys := sortedKeys(t)
		r.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
		for i, k := range keys {
			if i > 0 {
				b.WriteString(",")
			}
			ws()
			b.WriteString(jsonString(r, k))
			ws()
			b.WriteString(":")
			jsonEncode(r, b, t[k])
		}
		ws()
		b.WriteString("}")
	case A:
		b.WriteString("[")
		for i, e := range t {
			if i > 0 {
				b.WriteString(",")
			}
			jsonEncode(r, b, e)
		}
		ws()
		b.WriteString("]")
	case string:
		b.WriteString(jsonString(r, t))
	case float64:
		s := strconv.FormatFloat(t, 'g', -1, 64)
		if r.Intn(4) == 0 {
			s = strconv.FormatFloat(t, 'e', -1, 64)
		}
		b.WriteString(s)
	default:
		d, err := json.Marshal(v)
		must(err)
		b.Write(d)
	}
	ws()
}

func jsonString(r *rand.Rand, s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, c := range s {
		switch {
		case c == '"' || c == '\\':
			b.WriteByte('\\')
			b.WriteRune(c)
		case c < 0x20:
			if c == '\n' && r.Intn(2) == 0 {
				b.WriteString(`\n`)
			} else {
				fmt.Fprintf(&b, `\u%04x`, c)
			}
		case c < 0x10000 && r.Intn(12) == 0:
			fmt.Fprintf(&b, `\u%04x`, c)
		case c >= 0x10000 && r.Intn(3) == 0:
			x := c - 0x10000
			fmt.Fprintf(&b, `\u%04x\u%04X`, 0xd800+(x>>10), 0xdc00+(x&0x3ff))
		case c == '/' && r.Intn(3) == 0:
			b.WriteString(`\/`)
		default:
			b.WriteRune(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

// JsonInput writes the given documents one after the other.
func (w *World) JsonInput(r *rand.Rand, name string, recs []Rec) *Input {
	var b strings.Builder
	for i, rec := range recs {
		if w.gapAt(i, len(recs)) {
			b.WriteString(strings.Repeat(pick(r, " ", "\n", "\t"), w.Gap))
		}
		jsonEncode(r, &b, rec)
		if i < len(recs)-1 || r.Intn(2) == 0 {
			b.WriteString(pick(r, "\n", "\n", "\n", "", " ", "\r\n", "\n\n\t"))
		}
	}
	file := name + ".json"
	must(os.WriteFile(filepath.Join(w.Dir, file), []byte(b.String()), 0644))
	return w.AddInput(&Input{Name: name, Kind: "json", File: file, Conf: M{}, Recs: recs})
}

func xmlText(r *rand.Rand, s string) string {
	if s != "" && !strings.Contains(s, "]]>") && !strings.Contains(s, "]]") && r.Intn(6) == 0 {
		return "<![CDATA[" + s + "]]>"
	}
	var b strings.Builder
	for _, c := range s {
		switch c {
		case '<':
			b.WriteString("&lt;")
		case '>':
			b.WriteString("&gt;")
		case '&':
			b.WriteString("&amp;")
		case '"':
			b.WriteString(pick(r, "&quot;", "\""))
		default:
			if r.Intn(30) == 0 {
				fmt.Fprintf(&b, "&#x%x;", c)
			} else {
				b.WriteRune(c)
			}
		}
	}
	return b.String()
}

func xmlAttr(s string) string {
	return strings.NewReplacer("&", "&amp;", "<", "&lt;", `"`, "&quot;", "\n", "&#10;", "\t", "&#9;").Replace(s)
}
