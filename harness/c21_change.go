package main

import (
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

func init() {
	register(&Check{ID: "C21", Level: "exploration", Min: 150,
		Rule: "a case is one history of operations on the files of a running server (neutral ones, replacements, modifications in place), after which the process must have ended with a failure or still be there with exact answers; distinct: formats, settings, operations and their order",
		Fn:   c21})
}

func appendTo(path, data string) {
	f, err := os.OpenFile(path, os.O_WRONLY|os.O_APPEND, 0)
	must(err)
	_, err = io.WriteString(f, data)
	must(err)
	must(f.Close())
}

// Modifications of the content, in place. Each changes at least one byte.
var modifyOps = map[string]func(path string, r randT){
	"append":     func(p string, r randT) { appendTo(p, pick(r, "\n", "x", "{}\n", strings.Repeat("abc\n", 3000))) },
	"append one": func(p string, r randT) { appendTo(p, "z") },
	"overwrite a byte": func(p string, r randT) {
		b, err := os.ReadFile(p)
		must(err)
		f, err := os.OpenFile(p, os.O_RDWR, 0)
		must(err)
		k := r.Intn(len(b))
		_, err = f.WriteAt([]byte{b[k] ^ 1}, int64(k))
		must(err)
		must(f.Close())
	},
	"truncate": func(p string, r randT) { st, _ := os.Stat(p); must(os.Truncate(p, int64(r.Intn(int(st.Size()))))) },
	"empty":    func(p string, r randT) { must(os.Truncate(p, 0)) },
	"extend":   func(p string, r randT) { st, _ := os.Stat(p); must(os.Truncate(p, st.Size()+1+int64(r.Intn(5000)))) },
	"rewrite": func(p string, r randT) {
		b, _ := os.ReadFile(p)
		must(os.WriteFile(p, append(b[:len(b)/2:len(b)/2], b[len(b)/2+1:]...), 0644))
	},
	"same times": func(p string, r randT) {
		st, _ := os.Stat(p)
		appendTo(p, "y")
		must(os.Chtimes(p, st.ModTime(), st.ModTime()))
	},
	"by hard link": func(p string, r randT) { must(os.Link(p, p+".hl")); appendTo(p+".hl", "h") },
	"by symlink":   func(p string, r randT) { must(os.Symlink(p, p+".sl")); appendTo(p+".sl", "s") },
	"by another process": func(p string, r randT) {
		must(exec.Command("/bin/sh", "-c", `printf x >> "$1"`, "sh", p).Run())
	},
	"by cp": func(p string, r randT) {
		b, _ := os.ReadFile(p)
		must(os.WriteFile(p+".new", append([]byte("0"), b...), 0644))
		must(exec.Command("/bin/cp", p+".new", p).Run())
	},
	"by sed and cat": func(p string, r randT) {
		must(exec.Command("/bin/sh", "-c", `sed 's/[0-9]/9/;$s/$/ /' "$1" > "$1.new" && cat "$1.new" > "$1"`, "sh", p).Run())
	},
	"through an old descriptor": func(p string, r randT) {
		f, err := os.OpenFile(p, os.O_RDWR, 0)
		must(err)
		time.Sleep(time.Duration(r.Intn(30)) * time.Millisecond)
		_, err = f.WriteAt([]byte("~"), 0)
		must(err)
		time.Sleep(time.Duration(r.Intn(30)) * time.Millisecond)
		must(f.Close())
	},
	"many writes": func(p string, r randT) {
		for i := 0; i < 200; i++ {
			appendTo(p, "m")
		}
	},
}

// Operations which leave the content and the path alone.
var neutralOps = map[string]func(path string, r randT){
	"read":  func(p string, r randT) { _, err := os.ReadFile(p); must(err) },
	"chmod": func(p string, r randT) { must(os.Chmod(p, pick[os.FileMode](r, 0600, 0644, 0444))) },
	"touch": func(p string, r randT) {
		t := time.Now().Add(-time.Duration(r.Intn(1e6)) * time.Second)
		must(os.Chtimes(p, t, t))
	},
	"open for writing": func(p string, r randT) {
		f, err := os.OpenFile(p, pick(r, os.O_RDWR, os.O_WRONLY|os.O_APPEND), 0)
		must(err)
		must(f.Close())
	},
	"siblings": func(p string, r randT) {
		must(os.WriteFile(p+".tmp", []byte("x"), 0644))
		must(os.Rename(p+".tmp", p+"~"))
		must(os.Remove(p + "~"))
	},
	"links": func(p string, r randT) {
		must(os.Link(p, p+".l"))
		must(os.Remove(p + ".l"))
	},
	"chown": func(p string, r randT) { must(os.Chown(p, os.Getuid(), os.Getgid())) },
	"other files": func(p string, r randT) {
		fs, _ := filepath.Glob(filepath.Join(filepath.Dir(p), "config-*"))
		for _, f := range fs {
			appendTo(f, "\n")
		}
	},
	"wait": func(p string, r randT) { time.Sleep(time.Duration(r.Intn(60)) * time.Millisecond) },
}

// Something else takes the place of the file: the server ends, or goes on
// with the content it started on.
var replaceOps = map[string]func(path string, r randT){
	"rename over": func(p string, r randT) {
		must(os.WriteFile(p+".new", []byte("other\ncontent\n"), 0644))
		must(os.Rename(p+".new", p))
	},
	"delete":              func(p string, r randT) { must(os.Remove(p)) },
	"delete and recreate": func(p string, r randT) { must(os.Remove(p)); must(os.WriteFile(p, []byte("{}\n{}\n"), 0644)) },
	"move away":           func(p string, r randT) { must(os.Rename(p, p+".old")) },
	"move away and back":  func(p string, r randT) { must(os.Rename(p, p+".old")); must(os.Rename(p+".old", p)) },
	"sed -i":              func(p string, r randT) { must(exec.Command("/bin/sed", "-i", "s/[0-9]/7/", p).Run()) },
}

func c21(c *C) {
	trials := c.Q(420, 4000)
	parallel(trials, 8, func(ti int) {
		r := c.Rng("t", ti)
		w := NewWorld(c.dir("t%d", ti))
		defer os.RemoveAll(w.Dir)
		names := []string{"a", "b", "p"}
		kinds := map[string]string{"a": "csv", "b": "json", "p": "xml"}
		flags := map[string]string{}
		for _, n := range names {
			in := w.anyInput(r, n, kinds[n], 1+r.Intn(12), 12)
			flags[n] = pick(r, "default", "true", "false")
			if flags[n] != "default" {
				if in.Conf == nil {
					in.Conf = M{}
				}
				in.Conf["dieOnInputChange"] = flags[n] == "true"
			}
			w.AddIndex(&Index{Name: "m" + n, Kind: pick(r, "map", "sqlite"), Input: n, Props: []IProp{{"id", ""}, {"cat", ""}}})
			if w.Indexes["m"+n].Kind == "sqlite" {
				w.Indexes["m"+n].Path = pick(r, ":memory:", "i"+n+".db")
			}
			w.AddOutput(&Output{Name: n, Kind: "jsonArray", Input: n, LimDefault: 50, Params: map[string]Param{"cat": {"cat", "m" + n, ""}}}, "/"+n)
		}
		if r.Intn(4) == 0 { // two inputs on one file, of which any can be the one to die
			in := *w.Inputs["a"]
			in.Name, in.Conf = "a2", M{}
			for k, v := range w.Inputs["a"].Conf {
				in.Conf[k] = v
			}
			flags["a2"] = pick(r, "true", "false")
			in.Conf["dieOnInputChange"] = flags["a2"] == "true"
			w.AddInput(&in)
			w.AddOutput(&Output{Name: "a2", Kind: "jsonArray", Input: "a2", LimDefault: 50}, "/a2")
		}
		hist := []string{}
		for _, n := range names { // an input configured through a symbolic link
			if r.Intn(5) == 0 {
				p := filepath.Join(w.Dir, w.Inputs[n].File)
				must(os.Rename(p, p+".data"))
				must(os.Symlink(pick(r, p, w.Inputs[n].File)+".data", p))
				hist = append(hist, "linked "+kinds[n])
				c.Count("linked_inputs", 1)
			}
		}
		s := w.startOrFail(c, StartOpts{LogLvl: pick(r, "info", "info", "info", "panic", "fatal", "error", "debug", "trace")})
		if s == nil {
			return
		}
		defer s.Kill()
		fail := func(sig string, d M) {
			d["history"], d["flags"], d["exited"], d["code"], d["log"] = hist, flags, s.Exited(), s.code, tail(s.Log.String(), 1500)
			c.Fail(sig, d, s.Cfg)
		}
		ask := func(n string) bool {
			raw := "/" + n
			if r.Intn(2) == 0 {
				raw += fmt.Sprintf("?cat=c%d", r.Intn(6))
			}
			e := w.Expect(raw)
			resp := s.Get(raw)
			d := judge(e, resp)
			if d != "" {
				fail("answer", M{"request": raw, "difference": d})
			}
			return d == ""
		}
		target := pick(r, names...)
		twin := flags["a2"] != ""
		path := func(n string) string { return filepath.Join(w.Dir, w.Inputs[n].File) }
		// requests go on meanwhile in some trials
		stop := make(chan struct{})
		var load sync.WaitGroup
		if r.Intn(3) == 0 {
			load.Add(1)
			go func() {
				defer load.Done()
				for {
					select {
					case <-stop:
						return
					default:
						s.Get("/a")
						s.Get("/p?cat=c1")
					}
				}
			}()
		}
		defer load.Wait()
		defer close(stop)

		for k := r.Intn(5); k > 0; k-- {
			n := pick(r, names...)
			op := pick(r, sortedKeys(neutralOps)...)
			hist = append(hist, op+" "+kinds[n])
			neutralOps[op](path(n), r)
			if r.Intn(2) == 0 && !ask(n) {
				return
			}
		}
		if s.Exited() {
			fail("died-unmodified", M{})
			return
		}
		key := func() string { return fmt.Sprintf("%s|%v|%v", kinds[target], flags[target], hist) }
		die := flags[target] != "false" || target == "a" && flags["a2"] == "true"
		switch r.Intn(6) {
		case 0: // nothing more: it must still be there
			time.Sleep(time.Duration(100+r.Intn(300)) * time.Millisecond)
			if s.Exited() {
				fail("died-unmodified", M{})
				return
			}
			for _, n := range names {
				ask(n)
			}
			c.Count("unmodified", 1)
			c.Eval(key())
			return
		case 1:
			op := pick(r, sortedKeys(replaceOps)...)
			if twin {
				op = "delete"
			}
			hist = append(hist, op+" "+kinds[target])
			replaceOps[op](path(target), r)
			code, gone := s.WaitExit(time.Duration(100+r.Intn(200)) * time.Millisecond)
			if gone {
				if !die || code == 0 || s.signal != "" {
					fail("replaced-ended", M{})
				}
				c.Count("replaced_ended", 1)
			} else {
				for _, n := range names {
					ask(n)
				}
				c.Count("replaced_original_served", 1)
			}
			c.Eval(key())
			return
		}
		op := pick(r, sortedKeys(modifyOps)...)
		hist = append(hist, op+" "+kinds[target])
		modifyOps[op](path(target), r)
		if die {
			code, gone := s.WaitExit(20 * time.Second)
			if !gone {
				fail("not-ended", M{})
				return
			}
			if code == 0 || s.signal != "" || strings.Contains(s.Log.String(), "panic") {
				fail("ended-badly", M{})
			}
			c.Count("modified_ended_"+kinds[target], 1)
			c.Eval(key())
			if ti < 3 {
				c.Sample(M{"history": hist, "flags": flags, "exit_code": code})
			}
			return
		}
		time.Sleep(time.Duration(100+r.Intn(200)) * time.Millisecond)
		if s.Exited() {
			fail("died-although-disabled", M{})
			return
		}
		for _, n := range names {
			if n != target {
				ask(n)
			}
		}
		if s.Exited() {
			fail("died-although-disabled", M{})
			return
		}
		c.Count("modified_disabled_kept", 1)
		c.Eval(key())
		// another input, for which it is enabled, still ends it
		for _, n := range names {
			if flags[n] != "false" || n == "a" && flags["a2"] == "true" {
				hist = append(hist, "append "+kinds[n])
				appendTo(path(n), "e")
				if code, gone := s.WaitExit(20 * time.Second); !gone || code == 0 {
					fail("not-ended-after-other", M{})
				}
				c.Eval(key())
				return
			}
		}
	})
	c.phase("during_start", c.changeDuringStart)
}

// A modification while the indexes are being created.
func (c *C) changeDuringStart() {
	parallel(c.Q(40, 300), 6, func(ti int) {
		r := c.Rng("ds", ti)
		kind := []string{"csv", "json", "xml"}[ti%3]
		mk := func(n int) *World {
			r := c.Rng("dsw", ti)
			w := NewWorld(c.dir("d%d", ti))
			w.anyInput(r, "a", kind, n, 12)
			w.AddIndex(&Index{Name: "x", Kind: "wildcard", Input: "a", Props: []IProp{{"name", ""}}, Path: "x.idx"})
			w.AddIndex(&Index{Name: "s", Kind: "sqlite", Input: "a", Props: []IProp{{"cat", ""}}, Path: "s.db"})
			w.AddOutput(&Output{Name: "a", Kind: "jsonArray", Input: "a", LimDefault: 1000, LimMax: 1000,
				Params: map[string]Param{"cat": {"cat", "s", ""}, "name": {"name", "x", ""}}}, "/a")
			return w
		}
		w := mk(500)
		defer os.RemoveAll(w.Dir)
		in := w.Inputs["a"]
		path := filepath.Join(w.Dir, in.File)
		data, err := os.ReadFile(path)
		must(err)
		port := freePort()
		cfg := filepath.Join(w.Dir, "config.yaml")
		writeConfig(cfg, w.Config(port))
		s := c.Spawn(w.Dir, cfg, StartOpts{Port: port})
		defer s.Kill()
		time.Sleep(time.Duration(r.Intn(60)) * time.Millisecond)
		// swaps the contents of two records' texts of the same size
		text := string(data)
		mod := strings.NewReplacer("c1", "c2", "c2", "c1", "c3", "c4", "c4", "c3").Replace(text)
		listening := strings.Contains(s.Log.String(), "is up")
		indexing := strings.Contains(s.Log.String(), "Indexing")
		f, err := os.OpenFile(path, os.O_RDWR, 0)
		must(err)
		_, err = f.WriteAt([]byte(mod), 0)
		must(err)
		must(f.Close())
		key := ""
		if indexing && !listening {
			c.Count("modified_while_indexing", 1)
			key = fmt.Sprintf("start|%d", ti)
		}
		c.Eval(key)
		code, gone := s.WaitExit(10 * time.Second)
		if gone {
			if code == 0 || s.signal != "" || strings.Contains(s.Log.String(), "panic") {
				c.Fail("start-ended-badly", M{"code": code, "log": tail(s.Log.String(), 1500)}, cfg)
			}
			return
		}
		if indexing || listening {
			c.Fail("start-not-ended", M{"indexing": indexing, "listening": listening, "log": tail(s.Log.String(), 1500)}, cfg)
			return
		}
		c.Count("modified_before_opening", 1)
	})
}
