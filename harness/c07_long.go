package main

import (
	"fmt"
	"hash/adler32"
	"hash/crc32"
	"hash/fnv"
	"net/url"
	"os"
	"path/filepath"
	"strings"
)

// collide finds two texts which have the same checksum.
func collide(sum func([]byte) uint32, salt string) (string, string) {
	seen := map[uint32]string{}
	for i := uint64(0); ; i++ {
		t := fmt.Sprintf("%s%x", salt, i*0x9e3779b97f4a7c15)
		h := sum([]byte(t))
		if o, ok := seen[h]; ok && o != t {
			return o, t
		}
		seen[h] = t
	}
}

func multiplied(by, start uint32) func([]byte) uint32 {
	return func(b []byte) uint32 {
		h := start
		for _, x := range b {
			h = h*by + uint32(x)
		}
		return h
	}
}

// lookAlikes are texts which only differ far from their beginning or end, or
// which have the same checksum, or the same length and letters.
func lookAlikes(r randT, longest int) []string {
	all := []string{}
	for _, n := range []int{7, 8, 15, 16, 31, 32, 63, 64, 100, 127, 128, 200, 254, 255, 256, 257, 500, 511, 512, 1000, 1023, 1024, 2048, 4095, 4096, 8192, 16384, 32767, 32768, 65535, 65536} {
		if n > longest {
			break
		}
		same := strings.Repeat(pick(r, "x", "ab", "é", "日"), n)[:n]
		same = strings.ToValidUTF8(same, "z")
		all = append(all, same, same+"a", same+"b", same+"A", "a"+same, "b"+same, same+"a"+same, same+"b"+same)
	}
	for _, sum := range []func([]byte) uint32{
		crc32.ChecksumIEEE, func(b []byte) uint32 { return crc32.Checksum(b, crc32.MakeTable(crc32.Castagnoli)) }, adler32.Checksum,
		func(b []byte) uint32 { h := fnv.New32(); h.Write(b); return h.Sum32() },
		func(b []byte) uint32 { h := fnv.New32a(); h.Write(b); return h.Sum32() },
		func(b []byte) uint32 { h := fnv.New64a(); h.Write(b); return uint32(h.Sum64()) },
		multiplied(31, 0), multiplied(33, 5381), multiplied(131, 0), multiplied(65599, 0),
	} {
		a, b := collide(sum, pick(r, "", "v", "key-"))
		all = append(all, a, b)
	}
	all = append(all, "Aa", "BB", "AaAa", "BBBB", "AaBB", "abc", "acb", "bca", "cab", "ab c", "a bc")
	return all
}

// c07Long: lookups of texts which are easily taken for one another.
func c07Long(c *C) {
	parallel(c.Q(6, 40), 3, func(wi int) {
		r := c.Rng("long", wi)
		w := NewWorld(c.dir("long%d", wi))
		kind := []string{"csv", "json", "xml"}[wi%3]
		texts := lookAlikes(r, pick(r, 4096, 65536))
		recs := []Rec{}
		for i, t := range texts {
			recs = append(recs, Rec{"id": fmt.Sprint(i), "t": t})
			if r.Intn(8) == 0 {
				recs = append(recs, Rec{"id": fmt.Sprint(i) + "'", "t": t})
			}
		}
		r.Shuffle(len(recs), func(i, j int) { recs[i], recs[j] = recs[j], recs[i] })
		switch kind {
		case "csv":
			var b strings.Builder
			for _, rec := range recs {
				fmt.Fprintf(&b, "%s,%s\n", rec["id"], rec["t"])
			}
			must(os.WriteFile(filepath.Join(w.Dir, "in.csv"), []byte(b.String()), 0644))
			w.AddInput(&Input{Name: "in", Kind: "csv", File: "in.csv", Recs: recs, Strict: true, Conf: M{"columns": A{M{"name": "id"}, M{"name": "t"}}}})
		case "json":
			w.JsonInput(r, "in", recs)
		case "xml":
			var b strings.Builder
			b.WriteString("<root>")
			for _, rec := range recs {
				fmt.Fprintf(&b, "<rec id=\"%s\"><t>%s</t></rec>\n", rec["id"], rec["t"])
			}
			b.WriteString("</root>")
			must(os.WriteFile(filepath.Join(w.Dir, "in.xml"), []byte(b.String()), 0644))
			w.AddInput(&Input{Name: "in", Kind: "xml", File: "in.xml", Recs: recs, Strict: true, Conf: M{"recordXpath": "//rec", "properties": A{M{"name": "id", "xpath": "string(@id)"}, M{"name": "t", "xpath": "string(t)"}}}})
		}
		w.AddIndex(&Index{Name: "m", Kind: "map", Input: "in", Props: []IProp{{"t", ""}}})
		w.AddIndex(&Index{Name: "s", Kind: "sqlite", Input: "in", Props: []IProp{{"t", ""}}, Path: pick(r, ":memory:", "s.db")})
		for _, ix := range []string{"", "m", "s"} {
			w.AddOutput(&Output{Name: "o" + ix, Kind: "jsonArray", Input: "in", LimDefault: 1000, Params: map[string]Param{"t": {"t", ix, ""}}}, "/o"+ix)
			w.AddOutput(&Output{Name: "one" + ix, Kind: "jsonObject", Input: "in", Params: map[string]Param{"t": {"t", ix, ""}}}, "/one"+ix+"/{t}")
		}
		s := w.startOrFail(c, StartOpts{})
		if s == nil {
			return
		}
		defer s.Kill()
		asked := append([]string{}, texts...)
		for i := 0; i < 40; i++ { // and texts which are not there
			t := texts[r.Intn(len(texts))]
			asked = append(asked, t+"c", t+" ", "c"+t, t[:len(t)/2])
		}
		parallel(len(asked), 4, func(q int) {
			t := strings.ToValidUTF8(asked[q], "")
			ix := []string{"", "m", "s"}[q%3]
			for _, ix := range []string{ix, "m", "s"} {
				raw := "/o" + ix + "?t=" + url.QueryEscape(t)
				w.Ask(c, s, "long:"+kind, raw)
			}
			if t != "" && len(t) < 60000 {
				w.Ask(c, s, "long:one", "/one"+ix+"/"+url.PathEscape(t))
			}
			c.Eval(fmt.Sprintf("long|%d|%d", wi, q))
		})
	})
}
