package main

import (
	"fmt"
	"net/http"
	"os"
	"path/filepath"
	"sync"
	"syscall"
	"time"
)

func init() {
	register(&Check{ID: "C14", Level: "fault_enumeration", Min: 300,
		Rule: "a case is one start or one group of requests during which at least one system call of the server on its input or index files really failed (or was cut short or interrupted), or during which its input was missing; the outcome must be a refusal, an error status or the exact answer, and the exact answer once the fault is over",
		Fn:   c14})
}

type faultSpec struct {
	name  string
	errno syscall.Errno
	mask  int
	index bool // on the index files rather than on the input
}

var createFaults = []faultSpec{
	{"input-read-EIO", syscall.EIO, fRead, false},
	{"input-open-EACCES", syscall.EACCES, fOpen, false},
	{"input-open-EMFILE", syscall.EMFILE, fOpen, false},
	{"input-seek-EIO", syscall.EIO, fSeek, false},
	{"input-stat-EIO", syscall.EIO, fStat, false},
	{"index-write-EIO", syscall.EIO, fWrite, true},
	{"index-write-ENOSPC", syscall.ENOSPC, fWrite, true},
	{"index-write-EDQUOT", syscall.EDQUOT, fWrite | fMeta, true},
	{"index-read-EIO", syscall.EIO, fRead, true},
	{"index-open-EACCES", syscall.EACCES, fOpen, true},
	{"index-stat-EIO", syscall.EIO, fStat, true},
	{"index-lock-EIO", syscall.EIO, fLock, true},
	{"index-seek-EIO", syscall.EIO, fSeek, true},
	{"input-any-EIO", syscall.EIO, fRead | fOpen | fSeek | fStat, false},
	{"index-any-EIO", syscall.EIO, fRead | fWrite | fOpen | fSeek | fStat | fMeta | fSync | fLock, true},
}

func (w *mixWorld) faultPaths(index bool) []string {
	if index {
		return w.indexPaths()
	}
	return []string{filepath.Join(w.Dir, w.in.File)}
}

func (w *mixWorld) relativize() {
	// relationships make the requests touch the input several times
	w.Outputs["arr"].Rels = map[string]*Rel{"same": {Input: "in", IsArray: true, Limit: 3, Match: []RelMatch{{"cat", "cat", "s"}}},
		"me": {Input: "in", Match: []RelMatch{{"id", "id", "m"}, {"name", "name", ""}}}}
}

func c14(c *C) {
	if c.Injector() == "" {
		c.Count("ptrace_unusable", 1)
	} else {
		c.phase("creation", c.creationFaults)
		c.phase("each", c.eachRead)
		c.phase("serving", c.servingFaults)
	}
	c.phase("descriptors", c.descriptorLimit)
	c.phase("missing", c.missingInput)
}

// Faults while the server starts and creates or opens its indexes.
func (c *C) creationFaults() {
	worlds := c.Q(6, 36)
	parallel(worlds, 3, func(wi int) {
		kind := []string{"csv", "json", "xml"}[wi%3]
		n := []int{12, 120}[wi/3%2]
		mk := func(name string) *mixWorld {
			return c.persistWorld(c.Rng("cw", wi), c.dir("c%d-%s", wi, name), kind, n, 20)
		}
		base := mk("base")
		s := base.startOrFail(c, StartOpts{})
		if s == nil {
			return
		}
		s.Stop()
		type key struct {
			spec int
			old  bool
		}
		var mu sync.Mutex
		events := map[key]int{}
		jobs := []key{}
		for si := range createFaults {
			jobs = append(jobs, key{si, false}, key{si, true})
		}
		world := func(name string, old bool) *mixWorld {
			w := mk(name)
			if old { // the indexes exist already
				for _, f := range w.indexFiles() {
					copyFile(filepath.Join(base.Dir, f), filepath.Join(w.Dir, f))
				}
				copyFile(filepath.Join(base.Dir, base.in.File), filepath.Join(w.Dir, w.in.File))
			}
			return w
		}
		parallel(len(jobs), 3, func(k int) {
			j := jobs[k]
			sp := createFaults[j.spec]
			w := world(fmt.Sprintf("count%d", k), j.old)
			in, wrap := c.NewInject(fmt.Sprintf("c%d-count%d", wi, k), w.faultPaths(sp.index)...)
			in.Set(iError, 0, sp.mask, 0, -1, 0, 1, 1)
			s := w.startOrFail(c, StartOpts{Wrap: wrap})
			if s == nil {
				return
			}
			s.Kill()
			mu.Lock()
			events[j] = in.Events()
			mu.Unlock()
			must(os.RemoveAll(w.Dir))
		})
		trials := c.Q(60, 400)
		parallel(trials, 3, func(ti int) {
			r := c.Rng("creation", wi*10000+ti)
			j := jobs[ti%len(jobs)]
			sp := createFaults[j.spec]
			ev := events[j]
			if ev == 0 {
				return
			}
			w := world(fmt.Sprintf("t%d", ti), j.old)
			defer os.RemoveAll(w.Dir)
			in, wrap := c.NewInject(fmt.Sprintf("c%d-t%d", wi, ti), w.faultPaths(sp.index)...)
			count := pick(r, 1, 1, 2, -1)
			skip := r.Intn(ev)
			mode, errno := iError, sp.errno
			transparent := false
			if sp.mask&(fRead|fWrite) != 0 && r.Intn(5) == 0 {
				// legal behaviours of a file system, which must not be noticed
				transparent = true
				count = -1
				if r.Intn(2) == 0 {
					mode = iShort
				} else {
					errno = syscall.EINTR
				}
			}
			permille := 1000
			mask := sp.mask
			if transparent {
				permille = pick(r, 100, 300, 500)
				mask &= fRead | fWrite
			}
			in.Set(mode, int(errno), mask, skip, count, permille, ti, 1)
			detail := M{"fault": sp.name, "existing_indexes": j.old, "kind": kind, "records": n, "skip": skip, "of": ev, "count": count, "transparent": transparent, "mode": mode}
			s := w.startMaybe(c, StartOpts{Wrap: wrap}, "fault:"+sp.name, detail)
			hits := in.Hits()
			in.Set(iOff, 0, 0, 0, 0, 0, 1, 1)
			c.Count("faults_at_start", int64(hits))
			key := ""
			if hits > 0 {
				key = fmt.Sprintf("create|%d|%s|%v|%d|%d|%v", wi, sp.name, j.old, skip, count, mode)
			}
			c.Eval(key)
			if s == nil {
				c.Count("start_refused", 1)
				if transparent || hits == 0 {
					c.Fail("refused-without-fault", M{"case": detail, "hits": hits})
				}
				res := w.recover_(c, r, detail)
				c.Count("then_"+res, 1)
				return
			}
			c.Count("start_accepted", 1)
			_, errs := w.probe(c, s, r, len(w.names)+6, "answers-after-faulty-start", detail)
			if errs > 0 {
				c.Fail("errors-after-the-fault", M{"case": detail, "log": tail(s.Log.String(), 1500)}, s.Cfg)
			}
			s.Kill()
			if !sp.index || transparent {
				return
			}
			// what was written is used by the next life
			w.recover_(c, r, detail)
		})
	})
}

// Every single read which some requests make, failing in turn: alone, and
// with all those which follow.
func (c *C) eachRead() {
	parallel(c.Q(9, 60), 3, func(wi int) {
		r := c.Rng("er", wi)
		kind := []string{"csv", "json", "xml"}[wi%3]
		w := c.persistWorld(r, c.dir("e%d", wi), kind, pick(r, 10, 30, c.Q(60, 200)), 10)
		files := w.indexPaths()
		for _, file := range append(files, w.faultPaths(false)...) {
			in, wrap := c.NewInject(fmt.Sprintf("e%d-%s", wi, filepath.Base(file)), file)
			s := w.startOrFail(c, StartOpts{Wrap: wrap})
			if s == nil {
				return
			}
			for _, name := range w.names {
				ix := w.Indexes[w.params[name].Index]
				if (ix.Path == "" || filepath.Join(w.Dir, ix.Path) != file) && filepath.Base(file) != w.in.File {
					continue
				}
				if filepath.Base(file) == w.in.File && r.Intn(4) > 0 {
					continue
				}
				raw := ""
				for try, best := 0, 0; try < 12; try++ { // the one with the most answers
					u := "/arr?" + urlq(name) + "=" + urlq(w.filter(r, name, w.in.Recs[r.Intn(len(w.in.Recs))]))
					if b, ok := w.Expect(u).Body.(A); ok && len(b) > best {
						raw, best = u, len(b)
					}
				}
				if raw == "" {
					continue
				}
				e := w.Expect(raw)
				for _, count := range []int{1, -1} {
					for skip := 0; skip < 400; skip++ {
						in.Set(iError, int(syscall.EIO), fRead, skip, count, 1000, skip, 1)
						resp := s.Get(raw)
						hits := in.Hits()
						in.Set(iOff, 0, 0, 0, 0, 0, 1, 1)
						if hits == 0 {
							c.Count("requests_with_every_read_failed", 1)
							break
						}
						c.Count("reads_failed_in_turn", 1)
						if d := rightOrError(e, resp); d != "" {
							c.Fail("each-read:"+ix.Kind, M{"request": raw, "file": filepath.Base(file), "read": skip, "count": count, "difference": d, "kind": kind}, s.Cfg)
						}
						c.Eval(fmt.Sprintf("each|%d|%s|%s|%d|%d", wi, filepath.Base(file), raw, skip, count))
					}
				}
				w.Ask(c, s, "after-the-fault", raw)
			}
			s.Kill()
		}
	})
}

// Faults while requests are being handled.
func (c *C) servingFaults() {
	worlds := c.Q(9, 45)
	parallel(worlds, 4, func(wi int) {
		r := c.Rng("sw", wi)
		kind := []string{"csv", "json", "xml"}[wi%3]
		w := c.persistWorld(r, c.dir("s%d", wi), kind, pick(r, 15, 40, c.Q(70, 200)), pick(r, 10, 400))
		w.relativize()
		paths := append(w.faultPaths(true), w.faultPaths(false)...)
		in, wrap := c.NewInject(fmt.Sprintf("s%d", wi), paths...)
		env := []string{}
		s := w.startOrFail(c, StartOpts{Wrap: wrap, Env: env})
		if s == nil {
			return
		}
		defer s.Kill()
		rounds := c.Q(90, 500)
		for q := 0; q < rounds; q++ {
			errno := pick(r, syscall.EIO, syscall.EIO, syscall.EMFILE, syscall.ENOMEM, syscall.EINTR)
			mask := pick(r, fRead, fRead, fOpen, fSeek, fStat, fRead|fOpen|fSeek|fStat|fLock, fLock)
			mode := iError
			if r.Intn(6) == 0 {
				mode = iShort
			}
			if errno == syscall.EINTR || mode == iShort {
				mask = fRead
			}
			transparent := errno == syscall.EINTR || mode == iShort
			skip := pick(r, 0, 0, 1, 2, 3, r.Intn(60))
			count := pick(r, 1, 1, 3, -1)
			permille := pick(r, 1000, 1000, 300)
			if transparent {
				permille = 500
			}
			raws := []string{}
			for k := 0; k < pick(r, 1, 1, 2, 5); k++ {
				vals, _ := w.query(r, pick(r, 0, 1, 1, 2))
				vals.Set("limit", fmt.Sprint(pick(r, 1, 5, 30)))
				if r.Intn(3) == 0 {
					vals.Set("offset", fmt.Sprint(r.Intn(10)))
				}
				raw := "/arr?" + vals.Encode()
				if r.Intn(5) == 0 && len(w.in.Recs) > 0 {
					rec := w.in.Recs[r.Intn(len(w.in.Recs))]
					id, _ := filterFor(r, w.in, rec, "id", numParser(kind))
					nm, _ := rec["name"].(string)
					raw = "/one/" + id + "?s2.name=" + urlq(nm)
				}
				raws = append(raws, raw)
			}
			in.Set(mode, int(errno), mask, skip, count, permille, q, 1)
			parallel(len(raws), len(raws), func(k int) {
				e := w.Expect(raws[k])
				resp := s.Get(raws[k])
				d := rightOrError(e, resp)
				if transparent {
					d = judge(e, resp)
				}
				if resp.Err == nil && resp.Status >= 400 && e.Kind == "ok" {
					c.Count("error_answers", 1)
				} else if d == "" {
					c.Count("exact_answers_despite_faults", 1)
				}
				if d != "" {
					c.Fail("serving-fault", M{"request": raws[k], "difference": d, "errno": errno.Error(), "mask": mask, "mode": mode, "skip": skip,
						"count": count, "kind": kind, "log": tail(s.Log.String(), 1500)}, s.Cfg)
				}
			})
			hits := in.Hits()
			in.Set(iOff, 0, 0, 0, 0, 0, 1, 1)
			c.Count("faults_while_serving", int64(hits))
			key := ""
			if hits > 0 {
				key = fmt.Sprintf("serve|%d|%d", wi, q)
			}
			c.Eval(key)
			for _, raw := range raws {
				if !w.Ask(c, s, "after-the-fault", raw) {
					return
				}
			}
			if q < 1 && wi < 3 {
				c.Sample(M{"kind": kind, "requests": raws, "errno": errno.Error(), "calls": mask, "hits": hits})
			}
		}
		if s.Exited() {
			c.Fail("died", M{"log": tail(s.Log.String(), 3000)}, s.Cfg)
		}
	})
}

// The process may not open enough files for the requests it handles.
func (c *C) descriptorLimit() {
	worlds := c.Q(3, 12)
	parallel(worlds, 3, func(wi int) {
		r := c.Rng("dl", wi)
		kind := []string{"csv", "json", "xml"}[wi%3]
		w := c.persistWorld(r, c.dir("d%d", wi), kind, 60, 200)
		w.relativize()
		limit := 30 + r.Intn(20)
		s := w.startOrFail(c, StartOpts{Wrap: []string{"/bin/bash", "-c", fmt.Sprintf(`ulimit -n %d; exec "$0" "$@"`, limit)}, Env: []string{"GOGC=20"}})
		if s == nil {
			return
		}
		defer s.Kill()
		// fewer connections than descriptors, and none kept idle: descriptors are
		// missing for the files, seldom for the connections themselves
		s.client.Transport.(*http.Transport).DisableKeepAlives = true
		s.client.Timeout = 20 * time.Second
		n := c.Q(400, 3000)
		raws := make([]string, n)
		for q := range raws {
			vals, _ := w.query(r, pick(r, 1, 1, 2, 3))
			raws[q] = "/arr?" + vals.Encode()
		}
		parallel(n, 16, func(q int) {
			e := w.Expect(raws[q])
			resp := s.Get(raws[q])
			if resp.Err != nil { // no answer at all: nothing wrong was told
				c.Count("limited_no_answers", 1)
				return
			}
			if resp.Status >= 400 && e.Kind == "ok" {
				c.Count("limited_error_answers", 1)
			} else {
				c.Count("limited_exact_answers", 1)
			}
			if d := rightOrError(e, resp); d != "" {
				c.Fail("descriptor-limit", M{"request": raws[q], "difference": d, "limit": limit, "kind": kind, "log": tail(s.Log.String(), 1500)}, s.Cfg)
			}
			c.Eval(fmt.Sprintf("limit|%d|%d", wi, q))
		})
		time.Sleep(1500 * time.Millisecond) // the longest pause of a failing accept is 1 s
		s.client.Timeout = 90 * time.Second
		for q := 0; q < 60; q++ {
			w.Ask(c, s, "after-the-descriptor-limit", raws[q])
		}
	})
}

// The input disappears, possibly behind something else, and comes back.
func (c *C) missingInput() {
	worlds := c.Q(6, 24)
	parallel(worlds, 3, func(wi int) {
		r := c.Rng("mi", wi)
		kind := []string{"csv", "json", "xml"}[wi%3]
		w := c.persistWorld(r, c.dir("m%d", wi), kind, 40, 30)
		w.in.Conf["dieOnInputChange"] = false
		s := w.startOrFail(c, StartOpts{})
		if s == nil {
			return
		}
		defer s.Kill()
		path := filepath.Join(w.Dir, w.in.File)
		for round := 0; round < c.Q(8, 30); round++ {
			// moved away and back: the content the server was started on is never
			// modified (that is another property)
			how := pick(r, "deleted", "directory", "dangling", "loop")
			must(os.Rename(path, path+".away"))
			switch how {
			case "directory":
				must(os.Mkdir(path, 0755))
			case "dangling":
				must(os.Symlink("nowhere", path))
			case "loop":
				must(os.Symlink(path, path)) // ELOOP
			}
			for q := 0; q < c.Q(25, 60); q++ {
				vals, _ := w.query(r, pick(r, 1, 1, 2))
				raw := "/arr?" + vals.Encode()
				e := w.Expect(raw)
				if b, ok := e.Body.(A); !ok || len(b) == 0 {
					continue
				}
				indexed := false
				for k := range vals {
					if w.params[k].Index != "default" {
						indexed = true
					}
				}
				if !indexed {
					continue
				}
				// an input which is kept open may still be readable
				resp := s.Get(raw)
				if d := rightOrError(e, resp); d != "" || resp.Status == 404 {
					c.Fail("missing-input", M{"how": how, "request": raw, "difference": d, "status": resp.Status, "body": clip(string(resp.Body)),
						"kind": kind, "log": tail(s.Log.String(), 1500)}, s.Cfg)
				} else if resp.Status >= 400 {
					c.Count("errors_when_input_"+how, 1)
				} else {
					c.Count("exact_when_input_"+how, 1)
				}
				c.Eval(fmt.Sprintf("missing|%d|%d|%d", wi, round, q))
			}
			must(os.RemoveAll(path))
			must(os.Rename(path+".away", path))
			for q := 0; q < 6; q++ {
				vals, _ := w.query(r, 1)
				w.Ask(c, s, "input-back", "/arr?"+vals.Encode())
			}
		}
		if s.Exited() {
			c.Fail("died", M{"log": tail(s.Log.String(), 3000)}, s.Cfg)
		}
	})
}
