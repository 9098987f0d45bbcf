package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

func init() {
	register(&Check{ID: "C12", Level: "exploration", Min: 150,
		Rule: "a case is one start of the server on index files made by a previous life, after the input, the index configuration or an index file was changed; non-trivial when the change makes the index unfit; the start must fail, or every probing request must be answered rightly for the present input and configuration (or with an error)",
		Fn:   c12})
}

// rightOrError accepts an error status whenever data was expected.
func rightOrError(e Exp, r *Resp) string {
	if r.Err == nil && r.Status >= 400 && r.Status != 404 {
		return judge(Exp{Kind: "error"}, r)
	}
	return judge(e, r)
}

// startMaybe starts a server which may legitimately refuse to.
func (w *World) startMaybe(c *C, o StartOpts, sig string, detail M) *Server {
	s, err := w.Start(c, o)
	if err == nil {
		return s
	}
	if !s.Exited() {
		c.Fail(sig+":hang", M{"error": err.Error(), "case": detail}, s.Cfg)
		s.Kill()
		return nil
	}
	log := s.Log.String()
	if s.code == 0 || strings.Contains(log, "panic:") || strings.Contains(log, "goroutine ") || s.signal != "" {
		c.Fail(sig+":crash", M{"error": err.Error(), "case": detail}, s.Cfg)
	}
	return nil
}

// probe asks n requests and judges them as right or error.
func (w *mixWorld) probe(c *C, s *Server, r randT, n int, sig string, detail M) (right, errs int) {
	for q := 0; q < n; q++ {
		vals, _ := w.query(r, pick(r, 1, 1, 1, 2))
		if q < len(w.names) { // every parameter at least once
			vals = map[string][]string{}
			var base Rec
			if len(w.in.Recs) > 0 {
				base = w.in.Recs[r.Intn(len(w.in.Recs))]
			}
			vals.Set(w.names[q], w.filter(r, w.names[q], base))
		}
		raw := "/arr?" + vals.Encode()
		if q%9 == 8 {
			raw = "/arr"
		}
		e := w.Expect(raw)
		resp := s.Get(raw)
		if d := rightOrError(e, resp); d != "" {
			c.Fail(sig, M{"request": raw, "difference": d, "case": detail, "log": tail(s.Log.String(), 1000)}, s.Cfg)
			return
		}
		if resp.Status == 200 {
			right++
		} else if e.Kind == "ok" {
			errs++
		}
	}
	return
}

// keepOnly removes the other indexes kept on disk.
func (w *mixWorld) keepOnly(name string) {
	if name == "" {
		return
	}
	for n, x := range w.Indexes {
		if n != name && x.Path != "" && x.Path != ":memory:" {
			delete(w.Indexes, n)
		}
	}
	for p, v := range w.params {
		if _, ok := w.Indexes[v.Index]; !ok {
			delete(w.params, p)
		}
	}
	if name != "s2" {
		delete(w.Outputs, "byid")
		routes := []Route{}
		for _, rt := range w.Routes {
			if rt.Output != "byid" {
				routes = append(routes, rt)
			}
		}
		w.Routes = routes
	}
	w.names = sortedKeys(w.params)
}

const versionScript = `
import sqlite3, sys
db = sqlite3.connect(sys.argv[1])
done = 0
for (t,) in db.execute("select name from sqlite_master where type = 'table'").fetchall():
    cols = [r[1] for r in db.execute('pragma table_info("%s")' % t.replace('"', '""'))]
    if "version" in cols and "completed" in cols:
        db.execute('update "%s" set version = ?' % t.replace('"', '""'), (int(sys.argv[2]),))
        done += 1
db.commit()
print(done)
`

// The index files of another version of the format are refused.
func c12Version(c *C) {
	type tc struct {
		index, file string
		version     int64
	}
	cases := []tc{}
	for i, ix := range []string{"s3", "f2", "y", "x", "s"} {
		for _, v := range []int64{0, 2, 3, 255, 256, 65535, 65537, -1} {
			if ix == "x" || ix == "y" {
				if v < 0 || v > 65535 {
					continue
				}
			}
			cases = append(cases, tc{ix, []string{"own file.db", "fts.db", "y.idx", "x.idx", "shared.db"}[i], v})
		}
	}
	parallel(len(cases), 6, func(i int) {
		t := cases[i]
		r := c.Rng("version", i)
		w := c.persistWorld(r, c.dir("v%d", i), pick(r, "csv", "json", "xml"), 20, 10)
		w.keepOnly(t.index)
		s := w.startOrFail(c, StartOpts{})
		if s == nil {
			return
		}
		s.Stop()
		path := filepath.Join(w.Dir, t.file)
		if strings.HasSuffix(t.file, ".idx") {
			b, err := os.ReadFile(path)
			must(err)
			magic := "RODB/INDEX/WILDCARD"
			if !strings.HasPrefix(string(b), magic) || len(b) < 21 {
				c.Count("version_not_found", 1)
				return
			}
			b[len(magic)], b[len(magic)+1] = byte(t.version>>8), byte(t.version)
			must(os.WriteFile(path, b, 0644))
		} else {
			out, err := exec.Command("python3", "-c", versionScript, path, fmt.Sprint(t.version)).CombinedOutput()
			if err != nil || strings.TrimSpace(string(out)) == "0" {
				c.Count("version_not_found", 1)
				return
			}
		}
		detail := M{"index": t.index, "version": t.version}
		s = w.startMaybe(c, StartOpts{}, "version", detail)
		if s != nil {
			c.Fail("version:accepted", M{"case": detail, "meaning": "an index file of another version was used"}, s.Cfg)
			s.Kill()
		} else {
			c.Count("refused_version", 1)
		}
		c.Eval(fmt.Sprintf("version|%s|%d", t.index, t.version))
	})
}

// An index which does not fit is refused or harmless.
func c12(c *C) {
	c.phase("version", func() { c12Version(c) })
	trials := c.Q(900, 9000)
	kinds := []string{"input-replaced", "input-same-size", "input-mtime-kept", "input-appended", "input-truncated", "input-older",
		"wildcard-case", "wildcard-more-properties", "wildcard-less-properties", "wildcard-swapped-files",
		"wildcard-properties-reordered", "wildcard-property-replaced",
		"sqlite-collation", "sqlite-new-property", "sqlite-less-properties", "sqlite-reordered", "sqlite-renamed", "sqlite-property-replaced",
		"fts5-to-sqlite", "sqlite-to-fts5", "fts5-properties-replaced", "fts5-tokenizer-changed", "fts5-prefix-changed",
		"file-empty", "file-random", "file-other", "file-truncated", "file-directory", "file-deleted", "file-text", "other-input"}
	parallel(trials, 6, func(ti int) {
		r := c.Rng("trial", ti)
		what := kinds[ti%len(kinds)]
		kind := pick(r, "csv", "json", "xml", "fixed")
		if what == "input-same-size" || what == "input-older" && ti%2 == 0 {
			kind = "fixed"
		}
		n := pick(r, 1, 6, 40, 90)
		dir := c.dir("t%d", ti)
		// an index refusing to open would hide another one which does not
		alone := ""
		if strings.HasPrefix(what, "input-") && ti/len(kinds)%8 > 0 {
			alone = []string{"s", "s2", "s3", "f", "f2", "x", "y"}[ti/len(kinds)%8-1]
		}
		w := c.persistWorld(r, dir, kind, n, 10)
		w.keepOnly(alone)
		inPath := filepath.Join(dir, w.in.File)
		linked := strings.HasPrefix(what, "input-") && r.Intn(4) == 0
		if linked { // the input is configured through a symbolic link
			must(os.Rename(inPath, inPath+".data"))
			must(os.Symlink(pick(r, inPath, w.in.File)+".data", inPath))
			inPath += ".data"
			c.Count("linked_inputs", 1)
		}
		old := time.Now().Add(-time.Duration(3600+r.Intn(1e6)) * time.Second)
		must(os.Chtimes(inPath, old, old))
		s := w.startOrFail(c, StartOpts{})
		if s == nil {
			return
		}
		w.probe(c, s, r, 3, "before", M{"case": what})
		s.Stop()
		before := fileSize(inPath)
		detail := M{"linked": linked, "alone": alone, "change": what, "kind": kind, "records": n, "trial": ti}
		unfit := true
		same := func(w2 *mixWorld) { // only the data differ
			for n, x := range w.Indexes {
				if y, ok := w2.Indexes[n]; ok {
					y.Props = x.Props
				}
			}
		}
		reinput := func(k string, n int, mtime time.Time) {
			tmp := c.dir("t%d-new", ti)
			w2 := c.persistWorld(c.Rng("new", ti), tmp, k, n, 10)
			must(os.Rename(filepath.Join(tmp, w2.in.File), inPath))
			must(os.RemoveAll(tmp))
			must(os.Chtimes(inPath, mtime, mtime))
			w2.Dir = dir
			w2.keepOnly(alone)
			same(w2)
			w = w2
		}
		sized := func() {
			c.Count("judged_"+what, 1)
			if fileSize(inPath) == before {
				c.Count("same_size_"+what, 1)
			}
		}
		file := persistFiles[r.Intn(len(persistFiles))]
		path := filepath.Join(dir, file)
		ix := func(name string) *Index { v := *w.Indexes[name]; w.Indexes[name] = &v; return &v }
		delParams := func(index string) {
			for k, p := range w.params {
				if p.Index == index {
					delete(w.params, k)
				}
			}
		}
		switch what {
		case "input-replaced":
			reinput(kind, pick(r, 1, n, n+1, 40), pick(r, time.Now(), old.Add(time.Second), old.Add(time.Hour)))
		case "input-same-size":
			reinput(kind, n, pick(r, time.Now(), old.Add(time.Second), old.Add(-time.Second), old.Add(24*time.Hour), old.Add(-24*time.Hour), old.Add(-400*24*time.Hour), old.Add(time.Duration(1<<32)*time.Second), time.Unix(0, 0), time.Unix(old.Unix()-1<<32, 0)))
		case "input-older":
			reinput(kind, n, old.Add(-time.Duration(1+r.Intn(1e7))*time.Second))
		case "input-mtime-kept":
			reinput(kind, n+1+r.Intn(3), old)
			if fileSize(inPath) == before {
				return
			}
		case "input-appended": // the same data, with more records at the end
			r2 := c.Rng("trial", ti)
			pick(r2, "csv", "json", "xml", "fixed")
			pick(r2, 1, 6, 40, 90)
			tmp := c.dir("t%d-new", ti)
			w2 := c.persistWorld(r2, tmp, kind, n+1+r.Intn(3), 10)
			must(os.Rename(filepath.Join(tmp, w2.in.File), inPath))
			must(os.RemoveAll(tmp))
			if r.Intn(2) == 0 {
				must(os.Chtimes(inPath, old, old))
				if fileSize(inPath) == before {
					return
				}
			}
			w2.Dir = dir
			w2.keepOnly(alone)
			same(w2)
			w = w2
		case "input-truncated":
			r2 := c.Rng("trial", ti)
			pick(r2, "csv", "json", "xml", "fixed")
			pick(r2, 1, 6, 40, 90)
			tmp := c.dir("t%d-new", ti)
			w2 := c.persistWorld(r2, tmp, kind, n/2, 10)
			must(os.Rename(filepath.Join(tmp, w2.in.File), inPath))
			must(os.RemoveAll(tmp))
			if r.Intn(2) == 0 {
				must(os.Chtimes(inPath, old, old))
				if fileSize(inPath) == before {
					return
				}
			}
			w2.Dir = dir
			w2.keepOnly(alone)
			same(w2)
			w = w2
		case "wildcard-case":
			x := ix(pick(r, "x", "y"))
			x.IgnoreCase = !x.IgnoreCase
		case "wildcard-more-properties":
			x := ix("x")
			x.Props = pick(r, []IProp{x.Props[0], x.Props[1], {"note", ""}}, []IProp{{"note", ""}, x.Props[0], x.Props[1]})
			w.params["x.note"] = Param{"note", "x", ""}
		case "wildcard-less-properties":
			x := ix("x")
			keep := pick(r, "cat", "name")
			x.Props = []IProp{{keep, ""}}
			delParams("x")
			w.params["x."+keep] = Param{keep, "x", ""}
		case "wildcard-swapped-files":
			x, y := ix("x"), ix("y")
			x.Path, y.Path = y.Path, x.Path
		case "wildcard-properties-reordered":
			x := ix("x")
			x.Props = []IProp{x.Props[1], x.Props[0]}
		case "wildcard-property-replaced":
			x := ix("y")
			x.Props = []IProp{{"note", ""}}
			delParams("y")
			w.params["y.note"] = Param{"note", "y", ""}
		case "sqlite-collation":
			unfit = false
			x := ix("s2")
			x.Props = []IProp{{"name", pick(r, "", "rtrim", "binary")}, {"id", pick(r, "", "nocase")}, {"cat", pick(r, "", "nocase", "binary")}}
		case "sqlite-new-property":
			x := ix("s3")
			x.Props = append(append([]IProp{}, x.Props...), IProp{"name", ""})
			w.params["s3.name"] = Param{"name", "s3", ""}
		case "sqlite-less-properties":
			unfit = false
			ix("s3").Props = []IProp{{"num", ""}}
			delete(w.params, "s3.note")
		case "sqlite-reordered":
			unfit = false
			ix("s3").Props = []IProp{{"num", ""}, {"note", ""}}
		case "sqlite-property-replaced":
			ix("s3").Props = []IProp{{"name", ""}, {"num", ""}}
			delete(w.params, "s3.note")
			w.params["s3.name"] = Param{"name", "s3", ""}
		case "sqlite-renamed":
			unfit = false
			x := ix("s3")
			delete(w.Indexes, "s3")
			delParams("s3")
			x.Name = pick(r, "s33", "s", "s3_index", "rodb_s3")
			if x.Name != "s" {
				w.AddIndex(x)
				w.params["r.note"] = Param{"note", x.Name, ""}
			}
		case "fts5-to-sqlite":
			x := ix("f2")
			x.Kind, x.FtsMatch, x.Prefix = "sqlite", nil, nil
			delParams("f2")
			w.params["f2.cat"] = Param{"cat", "f2", ""}
		case "sqlite-to-fts5":
			x := ix("s3")
			x.Kind, x.Props, x.FtsMatch = "fts5", []IProp{{"cat", ""}}, w.Indexes["f"].FtsMatch
			delParams("s3")
			w.params["s3.match"] = Param{"match", "s3", ""}
		case "fts5-properties-replaced":
			x := ix("f2")
			x.Props = []IProp{{"flag", ""}}
			x.FtsMatch = func(rec Rec, q string) (bool, error) { return false, nil } // no record has such a flag
		case "fts5-tokenizer-changed":
			x := ix("f2")
			x.Tokenize = "unicode61 separators '0123456789'"
			x.FtsMatch = func(rec Rec, q string) (bool, error) { return rec["cat"] != nil && rec["cat"] != "", nil }
		case "fts5-prefix-changed":
			unfit = false
			ix("f2").Prefix = []int{3}
		case "file-empty":
			must(os.WriteFile(path, nil, 0644))
		case "file-random":
			b := make([]byte, pick(r, 1, 19, 60, 100, 5000, 20000))
			r.Read(b)
			if r.Intn(3) == 0 { // a plausible beginning
				o, err := os.ReadFile(path)
				must(err)
				k := pick(r, 16, 19, 21, 29, 37)
				if k < len(o) && k < len(b) {
					copy(b, o[:k])
				}
			}
			must(os.WriteFile(path, b, 0644))
		case "file-text":
			must(os.WriteFile(path, []byte(text(r, 3000, true)), 0644))
		case "file-other":
			other := persistFiles[r.Intn(len(persistFiles))]
			if other == file {
				other = w.in.File
			}
			copyFile(filepath.Join(dir, other), path)
		case "file-truncated":
			size := fileSize(path)
			to := pick(r, size-1, size/2, r.Int63n(size), int64(47), size-1-r.Int63n(min(size, 4000)))
			if strings.HasSuffix(file, ".db") {
				// A database with a partial last page is accepted by SQLite
				// itself: only losses of whole pages are judged.
				to = min(to, size-4096)
			}
			detail["size"], detail["truncated_to"] = size, to
			must(os.Truncate(path, to))
		case "file-directory":
			must(os.Remove(path))
			must(os.Mkdir(path, 0755))
		case "file-deleted":
			unfit = false
			must(os.Remove(path))
		case "other-input": // the configuration now binds an index to another input
			w.anyInput(r, "in2", pick(r, "csv", "json", "xml"), n+2, 10)
			name := pick(r, "x", "y", "s3", "f2")
			ix(name).Input = "in2"
			delParams(name)
			out := &Output{Name: "arr2", Kind: "jsonArray", Input: "in2", LimDefault: 1000, Params: map[string]Param{}}
			k := pick(r, "name", "name")
			switch name {
			case "x", "y":
				out.Params["p"] = Param{k, name, ""}
			case "s3":
				out.Params["p"] = Param{"note", name, ""}
			case "f2":
				out.Params["p"] = Param{"match", name, ""}
			}
			w.AddOutput(out, "/arr2")
		}
		if strings.HasPrefix(what, "input-") {
			sized()
		}
		w.names = sortedKeys(w.params)
		if strings.HasPrefix(what, "file-") {
			detail["file"] = file
		}
		sig := "stale:" + what
		s = w.startMaybe(c, StartOpts{}, sig, detail)
		key := ""
		if unfit {
			key = fmt.Sprintf("%s|%s|%v|%d", what, kind, detail["file"], ti)
		}
		if s == nil {
			c.Count("refused_"+what, 1)
			if !unfit && c.FailCount() == 0 {
				c.Fail("refused:"+what, M{"case": detail, "meaning": "the index fits, yet the server did not start"})
			}
			c.Eval(key)
			return
		}
		c.Count("started_"+what, 1)
		if what == "other-input" {
			for q := 0; q < 8; q++ {
				v, _ := w.Inputs["in2"].Recs[r.Intn(n+2)]["name"].(string)
				raw := "/arr2?p=" + strings.ReplaceAll(urlq(v), "+", "%20")
				if v == "" {
					continue
				}
				if w.Outputs["arr2"].Params["p"].Prop == "match" {
					raw = "/arr2?p=c" + fmt.Sprint(q)
				}
				e := w.Expect(raw)
				if d := rightOrError(e, s.Get(raw)); d != "" {
					c.Fail(sig, M{"request": raw, "difference": d, "case": detail}, s.Cfg)
					break
				}
			}
		}
		right, errs := w.probe(c, s, r, len(w.names)+12, sig, detail)
		c.Count("right_answers", int64(right))
		c.Count("error_answers_instead_of_data", int64(errs))
		if !unfit && errs > 0 {
			c.Fail("errors:"+what, M{"case": detail, "log": tail(s.Log.String(), 1500)}, s.Cfg)
		}
		s.Kill()
		c.Eval(key)
		if ti < 4 {
			c.Sample(detail)
		}
	})
}

func fileSize(p string) int64 {
	i, err := os.Stat(p)
	must(err)
	return i.Size()
}
