package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type XmlOpts struct {
	RecordPath string // the recordXpath
	Wrap       []string
	Noise      bool // comments, other elements, stray text between the records
	Compact    bool // no whitespace between elements
	BigEvery   int
	TextMax    int
	Latin1     bool   // encoded in ISO-8859-1, with an encoding declaration
	Rich       bool   // functions, predicates, mixed content, namespaces, repeated elements
	Decoys     bool   // elements of the same name which are not records (not with //)
	Groups     string // when set, the records are spread in elements of this name inside the innermost wrapping one
}

func latin1(s string) []byte {
	var b []byte
	for _, c := range s {
		if c < 128 || c >= 160 && c < 256 {
			b = append(b, byte(c))
		} else {
			b = append(b, fmt.Sprintf("&#%d;", c)...)
		}
	}
	return b
}

// XmlInput writes n records and returns the expected ones. The properties
// cover primitive (string, numeric and boolean xpath results), array, object
// and nested combinations.
func (w *World) XmlInput(r randT, name string, n int, o XmlOpts) *Input {
	if o.TextMax == 0 {
		o.TextMax = 40
	}
	var b strings.Builder
	xt := func(s string) string {
		for {
			x := xmlText(r, s)
			if o.Latin1 && strings.HasPrefix(x, "<![CDATA[") && strings.Contains(string(latin1(x)), "&#") {
				continue
			}
			return x
		}
	}
	sp := func() {
		if !o.Compact {
			b.WriteString(pick(r, "\n", "\n  ", " ", "\t", ""))
		}
	}
	if o.Latin1 {
		b.WriteString(`<?xml version="1.0" encoding=` + pick(r, `"ISO-8859-1"`, `'iso-8859-1'`) + `?>` + "\n")
	} else if r.Intn(2) == 0 {
		b.WriteString(`<?xml version="1.0" encoding="UTF-8"?>` + "\n")
	}
	if r.Intn(3) == 0 {
		b.WriteString("<!-- generated -->\n")
	}
	if r.Intn(4) == 0 {
		b.WriteString("<?xml-stylesheet type=\"text/xsl\" href=\"rec.xsl\"?>\n")
	}
	if r.Intn(6) == 0 {
		b.WriteString("<!DOCTYPE " + o.Wrap[0] + " [<!ELEMENT rec (#PCDATA)>]>\n")
	}
	nsAt := r.Intn(len(o.Wrap) + 1) // where the namespace of the rich properties is declared
	for k, t := range o.Wrap {
		ns := ""
		if o.Rich && k == nsAt {
			ns = ` xmlns:q="urn:q"`
		}
		b.WriteString("<" + t + ns + pick(r, "", ` v="1"`) + ">")
		sp()
	}
	recs := []Rec{}
	group := ""
	for i := 0; i < n; i++ {
		if o.Groups != "" && (i == 0 || r.Intn(4) == 0) {
			if i > 0 {
				b.WriteString("</" + o.Groups + ">")
			}
			sp()
			if r.Intn(5) == 0 {
				b.WriteString("<" + o.Groups + "/>")
			}
			group = text(r, 10, true)
			b.WriteString("<" + o.Groups + ` g="` + xmlAttr(group) + `">`)
			sp()
		}
		if o.Decoys && r.Intn(4) == 0 {
			b.WriteString(fmt.Sprintf(`<other><rec id="%d" cat="c1"><name>decoy</name><num>1</num></rec></other>`, r.Intn(n)))
			sp()
		}
		if o.Noise {
			switch r.Intn(6) {
			case 0:
				b.WriteString("<!-- noise <rec> not a record -->")
			case 1:
				b.WriteString(fmt.Sprintf("<other><name>no%d</name></other>", i))
			case 2:
				b.WriteString("<empty/>")
			case 3:
				b.WriteString("some stray text")
			}
			sp()
		}
		tm := o.TextMax
		if o.BigEvery > 0 && i%o.BigEvery == o.BigEvery-1 {
			tm = 9000
		}
		num := int64(r.Intn(2000) - 700)
		price := float64(r.Intn(4000)-1000) / 8
		nm := strings.TrimSpace(text(r, tm, true))
		cat := fmt.Sprintf("c%d", r.Intn(6))
		flag := r.Intn(2) == 0
		rec := Rec{"id": int64(i), "cat": cat, "num": num, "price": price, "flag": flag}
		if o.Groups != "" {
			rec["group"] = group
		}
		if w.gapAt(i, n) {
			b.WriteString(strings.Repeat(pick(r, " ", "\n", "\t"), w.Gap))
		}
		b.WriteString(fmt.Sprintf(`<rec id="%d" cat="%s"`, i, cat))
		attr := w.padded(r, text(r, 20, true))
		b.WriteString(` note="` + xmlAttr(attr) + `"`)
		rec["note"] = attr
		b.WriteString(">")
		parts := []func(){
			func() {
				if nm == "" && r.Intn(2) == 0 {
					b.WriteString("<name/>")
				} else {
					b.WriteString("<name>" + xt(nm) + "</name>")
				}
			},
			func() { b.WriteString("<num>" + strconv.FormatInt(num, 10) + "</num>") },
			func() { b.WriteString("<price>" + strconv.FormatFloat(price, 'f', -1, 64) + "</price>") },
			func() {
				if flag {
					b.WriteString("<flag>yes</flag>")
				} else if r.Intn(2) == 0 {
					b.WriteString("<flag>no</flag>")
				}
			},
		}
		rec["name"] = nm
		// tags: array of strings
		tags := A{}
		tagSrc := []string{}
		for j := r.Intn(4); j > 0; j-- {
			t := pick(r, "t1", "t2", "t3", strings.TrimSpace(text(r, 12, false)))
			tags = append(tags, t)
			tagSrc = append(tagSrc, t)
		}
		rec["tags"] = tags
		parts = append(parts, func() {
			b.WriteString("<tags>")
			for _, t := range tagSrc {
				b.WriteString("<tag>" + xt(t) + "</tag>")
				sp()
			}
			b.WriteString("</tags>")
		})
		// info: optional object with an integer and a nested object
		if r.Intn(4) == 0 {
			rec["info"] = nil
		} else {
			a, bb := text(r, 10, false), int64(r.Intn(50))
			a = strings.TrimSpace(a)
			deep := fmt.Sprintf("d%d", r.Intn(9))
			rec["info"] = M{"a": a, "b": bb, "deep": M{"v": deep}}
			parts = append(parts, func() {
				b.WriteString("<info><a>" + xt(a) + "</a><b>" + strconv.FormatInt(bb, 10) + "</b><deep><v>" + deep + "</v></deep></info>")
			})
		}
		// items: array of objects holding arrays
		items := A{}
		src := ""
		for j := r.Intn(3); j > 0; j-- {
			q := int64(r.Intn(9))
			ws := A{}
			wsx := ""
			for k := r.Intn(3); k > 0; k-- {
				x := word(r)
				ws = append(ws, x)
				wsx += "<w>" + x + "</w>"
			}
			items = append(items, M{"q": q, "ws": ws})
			src += fmt.Sprintf(`<item q="%d">%s</item>`, q, wsx)
		}
		rec["items"] = items
		parts = append(parts, func() { b.WriteString("<items>" + src + "</items>") })
		// csv text parsed by a split parser
		sl := A{}
		ss := []string{}
		for j := 0; j <= r.Intn(3); j++ {
			v := int64(r.Intn(100))
			sl = append(sl, v)
			ss = append(ss, strconv.FormatInt(v, 10))
		}
		rec["nums"] = sl
		parts = append(parts, func() { b.WriteString("<nums>" + strings.Join(ss, ";") + "</nums>") })
		if o.Rich {
			parts = append(parts, richParts(r, &b, rec, xt, sp, nsAt == len(o.Wrap))...)
		}
		r.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
		for _, p := range parts {
			sp()
			p()
		}
		sp()
		b.WriteString("</rec>")
		sp()
		recs = append(recs, rec)
	}
	if o.Groups != "" && n > 0 {
		b.WriteString("</" + o.Groups + ">")
	}
	for i := len(o.Wrap) - 1; i >= 0; i-- {
		b.WriteString("</" + o.Wrap[i] + ">")
	}
	if r.Intn(2) == 0 {
		b.WriteString("\n" + pick(r, "", "<!-- end -->", "<?end?>\n"))
	}
	if w.Parsers["xints"] == nil {
		w.AddParser(&PDef{Name: "xints", Type: "split", Delim: ";", Sub: "integer"})
	}
	prop := func(name, xp, parser string) M {
		m := M{"name": name, "xpath": xp}
		if parser != "" {
			m["parser"] = parser
		}
		return m
	}
	conf := M{"recordXpath": o.RecordPath, "properties": A{
		prop("id", "number(@id)", "integer"),
		prop("cat", "string(@cat)", "string"),
		prop("note", "string(@note)", ""),
		prop("name", "string(name)", ""),
		prop("num", "string(num)", "integer"),
		prop("price", "number(price)", "float"),
		prop("flag", "flag = 'yes'", "boolean"),
		M{"name": "tags", "type": "array", "xpath": "tags/tag", "items": M{"type": "primitive", "xpath": "string(.)"}},
		M{"name": "info", "type": "object", "xpath": "info", "properties": A{
			prop("a", "string(a)", "string"), prop("b", "number(b)", "integer"),
			M{"name": "deep", "type": "object", "xpath": "deep", "properties": A{prop("v", "string(v)", "")}},
		}},
		M{"name": "items", "type": "array", "xpath": "items/item", "items": M{"type": "object", "xpath": ".", "properties": A{
			prop("q", "string(@q)", "integer"),
			M{"name": "ws", "type": "array", "xpath": "w", "items": M{"xpath": "string(.)"}},
		}}},
		prop("nums", "string(nums)", "xints"),
	}}
	if o.Rich {
		conf["properties"] = append(conf["properties"].(A), richProps(prop)...)
	}
	if o.Groups != "" {
		conf["properties"] = append(conf["properties"].(A), prop("group", "string(../@g)", ""))
	}
	file := name + ".xml"
	data := []byte(b.String())
	if o.Latin1 {
		data = latin1(b.String())
	}
	must(os.WriteFile(filepath.Join(w.Dir, file), data, 0644))
	return w.AddInput(&Input{Name: name, Kind: "xml", File: file, Conf: conf, Recs: recs, Strict: true})
}

// richParts adds to a record the elements read by richProps.
func richParts(r randT, b *strings.Builder, rec Rec, xt func(string) string, sp func(), local bool) []func() {
	// a text cut by comments, sections, instructions
	pieces := []string{}
	mixed := ""
	for k := r.Intn(4); k >= 0; k-- {
		p := strings.ReplaceAll(text(r, 8, false), "]]", "")
		if strings.TrimSpace(p) != p || p == "" {
			p = word(r)
		}
		mixed += p
		pieces = append(pieces, p)
	}
	rec["mixed"] = mixed
	// several elements of one name: the first one is the value
	first := word(r)
	more := r.Intn(3)
	rec["first"] = first
	rec["last"] = fmt.Sprintf("%s%d", first, more)
	// keyed values
	keys := r.Perm(6)[:r.Intn(5)]
	vals := map[int]int64{}
	sum := int64(0)
	for _, k := range keys {
		vals[k] = int64(r.Intn(40) - 20)
		sum += vals[k]
	}
	keyed, all := "", A{}
	for _, k := range keys {
		keyed += fmt.Sprintf(`<val key="k%d">%d</val>`, k, vals[k])
		all = append(all, vals[k])
	}
	rec["vals"] = all
	rec["count"] = int64(len(keys))
	rec["sum"] = float64(sum)
	rec["has"] = len(keys) > 0
	k2 := ""
	if v, ok := vals[2]; ok {
		k2 = strconv.FormatInt(v, 10)
	}
	rec["k2"] = k2
	second := ""
	if len(keys) > 1 {
		second = fmt.Sprintf("k%d", keys[1])
	}
	rec["second"] = second
	big := A{}
	for _, k := range keys {
		if vals[k] > 0 {
			big = append(big, M{"key": fmt.Sprintf("k%d", k), "v": vals[k]})
		}
	}
	rec["positive"] = big
	allw, opt := A{}, ""
	for _, it := range rec["items"].(A) {
		allw = append(allw, it.(M)["ws"].(A)...)
	}
	rec["allw"] = allw
	rec["firstw"] = ""
	if len(allw) > 0 {
		rec["firstw"] = allw[0]
	}
	if r.Intn(3) == 0 {
		opt = word(r)
	}
	rec["opt"], rec["rooted"], rec["optnode"] = opt, first, ""
	if opt != "" {
		rec["optnode"] = `<opt k="1">` + opt + "</opt>"
	}
	rec["optobj"] = nil
	if opt != "" {
		rec["optobj"] = M{"k": int64(1), "v": opt}
	}
	a, z := word(r), word(r)
	rec["concat"] = a + "-" + z
	rec["len"] = int64(len(a))
	rec["starts"] = strings.HasPrefix(a, "s")
	rec["up"] = strings.ToUpper(a)
	rec["norm"] = a + " " + z
	ns := ""
	nsd := strings.TrimSpace(text(r, 6, false))
	rec["ns"], rec["nsattr"] = nsd, first
	if local {
		ns = ` xmlns:q="urn:q"`
	}
	return []func(){
		func() {
			b.WriteString("<mixed>")
			for i, p := range pieces {
				if i > 0 {
					b.WriteString(pick(r, "<!-- x -->", "<!---->", "<!-- <mixed>no</mixed> -->"))
				}
				b.WriteString(xt(p))
			}
			b.WriteString("</mixed>")
		},
		func() {
			b.WriteString("<multi>" + first + "</multi>")
			for k := 1; k <= more; k++ {
				sp()
				b.WriteString(fmt.Sprintf("<multi>%s%d</multi>", first, k))
			}
			if more == 0 {
				b.WriteString("<multi>" + first + "0</multi>")
			}
		},
		func() { b.WriteString("<vals>" + keyed + "</vals>") },
		func() { b.WriteString("<a>" + a + "</a>") },
		func() {
			if opt != "" {
				b.WriteString(pick(r, `<sub><opt k="1">`, `<sub><opt k='1' >`) + opt + "</opt></sub>")
			}
		},
		func() { b.WriteString("<z>" + z + "</z>") },
		func() { b.WriteString("<norm>  " + a + pick(r, "  ", "\n", " \t ") + z + " </norm>") },
		func() { b.WriteString("<q:ns" + ns + ` q:attr="` + first + `">` + xt(nsd) + "</q:ns>") },
	}
}

func richProps(prop func(name, xp, parser string) M) A {
	return A{
		// in the way of the documentation: the root is the node of the record (or of its parent property)
		M{"name": "allw", "type": "array", "xpath": "//w", "items": M{"xpath": "string(.)"}}, prop("firstw", "string(//w)", ""),
		prop("opt", "string(//opt)", ""), prop("optnode", "//opt", "string"), prop("rooted", "string(/multi)", ""),
		M{"name": "optobj", "type": "object", "xpath": "/sub/opt", "properties": A{prop("k", "number(/@k)", "integer"), prop("v", "string(.)", "")}},
		prop("mixed", "string(mixed)", ""), prop("first", "string(multi)", ""), prop("last", "string(multi[last()])", ""),
		M{"name": "vals", "type": "array", "xpath": "vals/val", "items": M{"xpath": "string(.)", "parser": "integer"}},
		prop("count", "count(vals/val)", "integer"), prop("sum", "sum(vals/val)", "float"), prop("has", "boolean(vals/val)", "boolean"),
		prop("k2", "string(vals/val[@key='k2'])", ""), prop("second", "string(vals/val[2]/@key)", ""),
		M{"name": "positive", "type": "array", "xpath": "vals/val[. > 0]", "items": M{"type": "object", "xpath": ".", "properties": A{
			prop("key", "string(@key)", ""), prop("v", "number(.)", "integer")}}},
		prop("concat", "concat(a, '-', z)", ""), prop("len", "string-length(a)", "integer"), prop("starts", "starts-with(a, 's')", "boolean"),
		prop("up", "translate(a, 'abcdefghijklmnopqrstuvwxyz', 'ABCDEFGHIJKLMNOPQRSTUVWXYZ')", ""),
		prop("norm", "normalize-space(norm)", ""), prop("ns", "string(q:ns)", ""), prop("nsattr", "string(q:ns/@q:attr)", ""),
	}
}
