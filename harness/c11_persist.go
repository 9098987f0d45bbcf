package main

import (
	"fmt"
	"io"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"
)

func init() {
	register(&Check{ID: "C11", Level: "exploration", Min: 600,
		Rule: "a case is one request answered by a server reopening (second to sixth life) index files it or a previous life created; non-trivial when it filters through at least one persisted index and the expected answer is known from the generated records",
		Fn:   c11})
}

// copyTree copies regular files with their modification times.
func copyTree(from, to string) {
	must(os.MkdirAll(to, 0755))
	ents, err := os.ReadDir(from)
	must(err)
	for _, e := range ents {
		info, err := e.Info()
		must(err)
		if !info.Mode().IsRegular() {
			continue
		}
		copyFile(filepath.Join(from, e.Name()), filepath.Join(to, e.Name()))
	}
}

func copyFile(from, to string) {
	info, err := os.Stat(from)
	must(err)
	in, err := os.Open(from)
	must(err)
	defer in.Close()
	out, err := os.Create(to)
	must(err)
	_, err = io.Copy(out, in)
	must(err)
	must(out.Close())
	must(os.Chtimes(to, info.ModTime(), info.ModTime()))
}

// persistWorld: the mixed world with more persisted indexes, some sharing a file.
func (c *C) persistWorld(r randT, dir, kind string, n, textMax int) *mixWorld {
	w := c.mixWorld(r, dir, kind, n, textMax)
	w.AddIndex(&Index{Name: "s2", Kind: "sqlite", Input: "in", Props: []IProp{{"name", "nocase"}, {"id", ""}, {"cat", "rtrim"}}, Path: "shared.db"})
	w.AddIndex(&Index{Name: "s3", Kind: "sqlite", Input: "in", Props: []IProp{{"note", ""}, {"num", ""}}, Path: "own file.db"})
	w.AddIndex(&Index{Name: "f2", Kind: "fts5", Input: "in", Props: []IProp{{"cat", ""}}, Path: "fts.db", Prefix: []int{1, 2}, FtsMatch: w.Indexes["f"].FtsMatch})
	num := numParser(kind)
	for n, p := range map[string]Param{"s2.name": {"name", "s2", ""}, "s2.id": {"id", "s2", num}, "s2.cat": {"cat", "s2", ""},
		"s3.note": {"note", "s3", ""}, "s3.num": {"num", "s3", num}, "f2.match": {"match", "f2", ""}} {
		w.params[n] = p
	}
	w.AddOutput(&Output{Name: "arr", Kind: "jsonArray", Input: "in", LimDefault: 1000, Params: w.params}, "/arr")
	w.AddOutput(&Output{Name: "byid", Kind: "jsonObject", Input: "in", Params: map[string]Param{"s2.id": w.params["s2.id"], "s2.name": w.params["s2.name"]}}, "/one/{s2.id}")
	w.names = sortedKeys(w.params)
	return w
}

var persistFiles = []string{"shared.db", "own file.db", "fts.db", "x.idx", "y.idx"}

func hashFiles(dir string, names []string) map[string]string {
	out := map[string]string{}
	for _, n := range names {
		b, err := os.ReadFile(filepath.Join(dir, n))
		if err != nil {
			out[n] = "absent"
			continue
		}
		out[n] = sum(b)
	}
	return out
}

// Indexes kept on disk give the same answers in every later life.
func c11(c *C) {
	worlds := c.Q(60, 700)
	parallel(worlds, 4, func(wi int) {
		r := c.Rng("world", wi)
		kind := []string{"csv", "json", "xml"}[wi%3]
		n := pick(r, 1, 8, 60, 250)
		w := c.persistWorld(r, c.dir("w%d", wi), kind, n, pick(r, 8, 24))
		if wi%4 == 3 { // an old input
			t := time.Unix(int64(r.Intn(1700000000)), int64(r.Intn(1e9)))
			must(os.Chtimes(filepath.Join(w.Dir, w.in.File), t, t))
		}
		var hashes map[string]string
		history := []string{}
		lives := c.Q(5, 8)
		created := map[string]bool{}
		for life := 0; life < lives; life++ {
			step := "same"
			if life > 0 {
				step = pick(r, "same", "same", "copy", "add", "second-server", "env", "drop")
			}
			o := StartOpts{}
			switch step {
			case "copy":
				to := c.dir("w%d-life%d", wi, life)
				copyTree(w.Dir, to)
				w.Dir = to
			case "add": // a new index in an existing file
				name := fmt.Sprintf("s-new%d", life)
				w.AddIndex(&Index{Name: name, Kind: "sqlite", Input: "in", Props: []IProp{{"cat", ""}}, Path: pick(r, "shared.db", "fts.db")})
				w.params[name+".cat"] = Param{"cat", name, ""}
				w.names = sortedKeys(w.params)
			case "drop": // an index which nothing uses any more, then possibly comes back
				for _, p := range []string{"s3.note", "s3.num"} {
					if _, ok := w.params[p]; ok {
						delete(w.params, p)
					} else {
						w.params[p] = Param{p[3:], "s3", map[string]string{"s3.num": numParser(kind)}[p]}
					}
				}
				if _, ok := w.Indexes["s3"]; ok {
					delete(w.Indexes, "s3")
				} else {
					w.AddIndex(&Index{Name: "s3", Kind: "sqlite", Input: "in", Props: []IProp{{"note", ""}, {"num", ""}}, Path: "own file.db"})
				}
				w.names = sortedKeys(w.params)
			case "env":
				o.Env = []string{pick(r, "TZ=Asia/Tokyo", "TZ=America/New_York", "GOMAXPROCS=1", "LC_ALL=tr_TR.UTF-8")}
			}
			history = append(history, step)
			s := w.startOrFail(c, o)
			if s == nil {
				return
			}
			servers := []*Server{s}
			if step == "second-server" || life > 0 && r.Intn(4) == 0 {
				s2 := w.startOrFail(c, o)
				if s2 == nil {
					return
				}
				servers = append(servers, s2)
			}
			sig := "persisted-answers"
			parallel(c.Q(50, 200), 4, func(q int) {
				r := c.Rng("q", wi*1000000+life*10000+q)
				vals, used := w.query(r, pick(r, 1, 1, 2))
				raw := "/arr?" + vals.Encode()
				if q%7 == 0 && len(w.in.Recs) > 0 {
					rec := w.in.Recs[r.Intn(len(w.in.Recs))]
					id, _ := filterFor(r, w.in, rec, "id", numParser(kind))
					nm, _ := rec["name"].(string)
					raw = "/one/" + id + "?s2.name=" + url.QueryEscape(nm)
				}
				for _, s := range servers {
					if !w.Ask(c, s, sig, raw) {
						c.Count("wrong_in_life_"+fmt.Sprint(life), 1)
					}
				}
				key := ""
				if life > 0 && used > 0 {
					key = fmt.Sprintf("%d|%d|%s", wi, life, raw)
				}
				c.Eval(key)
			})
			end := pick(r, "stop", "kill", "kill-busy")
			for _, s := range servers {
				switch end {
				case "stop":
					if code, ok := s.Stop(); !ok || code != 0 {
						c.Fail("stop", M{"code": code, "graceful": ok, "history": history, "log": tail(s.Log.String(), 1000)}, s.Cfg)
					}
				case "kill":
					s.Kill()
				case "kill-busy":
					done := make(chan struct{})
					go func() {
						for k := 0; k < 20; k++ {
							s.Get("/arr?x.name=a&limit=5")
						}
						close(done)
					}()
					time.Sleep(time.Duration(r.Intn(4000)) * time.Microsecond)
					s.Signal(syscall.SIGKILL)
					s.Kill()
					<-done
				}
			}
			c.Count("lives", 1)
			c.Count("lives_after_"+step, 1)
			c.Count("ended_by_"+end, 1)
			history = append(history, end)
			now := hashFiles(w.Dir, persistFiles)
			for _, ix := range w.Indexes {
				if ix.Path != "" && ix.Path != ":memory:" {
					created[ix.Path] = true
				}
			}
			if hashes != nil && step != "add" {
				for f, h := range hashes {
					if h != now[f] {
						c.Fail("rewritten:"+f, M{"history": history, "file": f, "before": h, "after": now[f],
							"meaning": "reopening a complete index changed its file"}, s.Cfg)
					}
				}
			}
			for f := range created {
				if now[f] == "absent" {
					c.Fail("not-persisted:"+f, M{"history": history, "file": f}, s.Cfg)
				}
			}
			hashes = now
		}
		if wi < 4 {
			c.Sample(M{"kind": kind, "records": n, "history": strings.Join(history, " ")})
		}
	})
}
