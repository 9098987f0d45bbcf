package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"
)

func init() {
	register(&Check{ID: "C13", Level: "fault_enumeration", Min: 200,
		Rule: "a case is one start of the server on what a crash during the creation of its index files left: either the files copied while the process was stopped at an unpredictable moment, or the files left by SIGKILL at the n-th file system call on them; non-trivial when the crash happened after an index file appeared and before the server was up",
		Fn:   c13})
}

var crashVariants = map[string][]string{
	"wildcard": {"x", "y"}, "sqlite": {"s3"}, "fts5": {"f2"}, "shared": {"s", "s2", "f"},
	"added": {"s", "s2", "f"}, "all": {"x", "y", "s", "s2", "s3", "f", "f2"},
}

// crashWorld keeps only the persisted indexes of a variant.
func (c *C) crashWorld(r randT, dir, variant, kind string, n int) *mixWorld {
	w := c.persistWorld(r, dir, kind, n, 20)
	keep := map[string]bool{"default": true}
	for _, k := range crashVariants[variant] {
		keep[k] = true
	}
	for k := range w.Indexes {
		if !keep[k] {
			delete(w.Indexes, k)
		}
	}
	for k, p := range w.params {
		if !keep[p.Index] {
			delete(w.params, k)
		}
	}
	delete(w.Outputs, "byid")
	w.Routes = w.Routes[:1]
	w.names = sortedKeys(w.params)
	t := time.Unix(1600000000+int64(r.Intn(1e7)), 0)
	must(os.Chtimes(filepath.Join(dir, w.in.File), t, t))
	return w
}

func (w *mixWorld) indexFiles() []string {
	seen := map[string]bool{}
	for _, ix := range w.Indexes {
		if ix.Path != "" && ix.Path != ":memory:" {
			seen[ix.Path] = true
		}
	}
	return sortedKeys(seen)
}

// recover_ starts a server on an image and judges it.
func (w *mixWorld) recover_(c *C, r randT, detail M) string {
	s := w.startMaybe(c, StartOpts{}, "recovery", detail)
	if s == nil {
		// the documented way out: remove the index files
		for _, f := range w.indexFiles() {
			_ = os.Remove(filepath.Join(w.Dir, f))
		}
		s = w.startMaybe(c, StartOpts{}, "recovery-after-removal", detail)
		if s == nil {
			if c.FailCount() == 0 {
				c.Fail("no-recovery", M{"case": detail, "meaning": "the server does not start once the index files are removed"})
			}
			return "refused"
		}
		defer s.Kill()
		_, errs := w.probe(c, s, r, 5, "answers-after-removal", detail)
		if errs > 0 {
			c.Fail("errors-after-removal", M{"case": detail, "log": tail(s.Log.String(), 1500)}, s.Cfg)
		}
		return "refused"
	}
	defer s.Kill()
	_, errs := w.probe(c, s, r, len(w.names)+10, "answers-after-crash", detail)
	if errs > 0 {
		c.Count("error_answers", int64(errs))
	}
	return "accepted"
}

// stopAll stops the process and waits until each of its threads is stopped.
func (s *Server) stopAll() bool {
	s.Signal(syscall.SIGSTOP)
	for i := 0; i < 2000; i++ {
		if s.Exited() {
			return false
		}
		ents, err := os.ReadDir(fmt.Sprintf("/proc/%d/task", s.Pid()))
		if err != nil {
			return false
		}
		ok := true
		for _, e := range ents {
			b, err := os.ReadFile(fmt.Sprintf("/proc/%d/task/%s/stat", s.Pid(), e.Name()))
			if err != nil {
				continue
			}
			k := bytes.LastIndexByte(b, ')')
			if k < 0 || k+2 >= len(b) || b[k+2] != 'T' && b[k+2] != 'Z' && b[k+2] != 'X' {
				ok = false
			}
		}
		if ok {
			return true
		}
		time.Sleep(200 * time.Microsecond)
	}
	return false
}

const crashMask = fWrite | fMeta | fSync

func (w *mixWorld) indexPaths() []string {
	out := []string{}
	for _, f := range w.indexFiles() {
		out = append(out, filepath.Join(w.Dir, f))
	}
	return out
}

// A crash during the creation of an index never leaves wrong answers.
func c13(c *C) {
	// 1. crash images taken with the process stopped at unpredictable moments
	worlds := c.Q(12, 80)
	parallel(worlds, 4, func(wi int) {
		r := c.Rng("image", wi)
		variant := sortedKeys(crashVariants)[wi%len(crashVariants)]
		kind := pick(r, "csv", "json", "xml")
		n := pick(r, 150, 400, 900)
		w := c.crashWorld(r, c.dir("i%d", wi), variant, kind, n)
		if variant == "added" {
			w.prepareAdded(c)
		}
		files := w.indexFiles()
		images := []string{}
		port := freePort()
		cfg := filepath.Join(w.Dir, "config-create.yaml")
		writeConfig(cfg, w.Config(port))
		s := c.Spawn(w.Dir, cfg, StartOpts{Port: port})
		max := c.Q(14, 40)
		for k := 0; k < max; k++ {
			time.Sleep(time.Duration(1000+r.Intn(30000)) * time.Microsecond)
			if !s.stopAll() {
				break
			}
			up := strings.Contains(s.Log.String(), "is up and available")
			to := c.dir("i%d-img%d", wi, k)
			must(os.MkdirAll(to, 0755))
			copyFile(filepath.Join(w.Dir, w.in.File), filepath.Join(to, w.in.File))
			some := false
			for _, f := range files {
				if _, err := os.Stat(filepath.Join(w.Dir, f)); err == nil {
					copyFile(filepath.Join(w.Dir, f), filepath.Join(to, f))
					some = true
				}
			}
			s.Signal(syscall.SIGCONT)
			if up || !some {
				must(os.RemoveAll(to))
				if up {
					break
				}
				continue
			}
			images = append(images, to)
		}
		s.Kill()
		for k, img := range images {
			w2 := *w
			w2.World = w.World.clone()
			w2.Dir = img
			h := hashFiles(img, files)
			res := w2.recover_(c, r, M{"variant": variant, "kind": kind, "records": n, "image": k, "sizes": h, "how": "stopped image"})
			c.Count("images_"+variant+"_"+res, 1)
			c.Eval(fmt.Sprintf("image|%d|%v", wi, h))
			must(os.RemoveAll(img))
		}
	})
	// 2. SIGKILL at the n-th call on the index files
	if c.Injector() == "" {
		c.Count("ptrace_unusable", 1)
		c.randomKills()
		return
	}
	type plan struct {
		variant, kind string
		n, at, w      int
		what          string
	}
	plans := []plan{}
	var mu sync.Mutex
	specs := []plan{}
	for vi, v := range sortedKeys(crashVariants) {
		for k := 0; k < c.Q(2, 6); k++ {
			n := []int{3, 60, 1, 20, 300, 120}[k]
			if v == "wildcard" || v == "all" {
				n = []int{40, 150, 3, 300, 90, 10}[k]
			}
			specs = append(specs, plan{variant: v, kind: []string{"csv", "json", "xml"}[(vi+k)%3], n: n, w: vi*10 + k})
		}
	}
	parallel(len(specs), 6, func(i int) {
		sp := specs[i]
		w := c.crashWorld(c.Rng("kill", sp.w), c.dir("k%d", sp.w), sp.variant, sp.kind, sp.n)
		if sp.variant == "added" {
			w.prepareAdded(c)
		}
		in, wrap := c.NewInject(fmt.Sprintf("k%d", sp.w), w.indexPaths()...)
		in.Set(iError, 0, crashMask, 0, -1, 0, 1, 1)
		s, err := w.Start(c, StartOpts{Wrap: wrap})
		if err != nil {
			c.Fail("startup", M{"error": err.Error(), "variant": sp.variant})
			return
		}
		s.Kill()
		calls := in.Events()
		c.Count("creation_calls_"+sp.variant, int64(calls))
		r := c.Rng("at", sp.w)
		budget := c.Q(36, 200)
		at := map[int]bool{}
		for k := 1; k <= calls && len(at) < budget/3; k++ {
			at[k] = true
		}
		for k := calls; k > 0 && len(at) < 2*budget/3; k-- {
			at[k] = true
		}
		for len(at) < budget && len(at) < calls {
			at[1+r.Intn(calls)] = true
		}
		mu.Lock()
		for k := 1; k <= calls; k++ {
			if at[k] {
				p := sp
				p.at = k
				plans = append(plans, p)
			}
		}
		mu.Unlock()
		must(os.RemoveAll(w.Dir))
	})
	parallel(len(plans), 8, func(i int) {
		p := plans[i]
		dir := c.dir("k%d-%d", p.w, p.at)
		w := c.crashWorld(c.Rng("kill", p.w), dir, p.variant, p.kind, p.n)
		if p.variant == "added" {
			w.prepareAdded(c)
		}
		port := freePort()
		cfg := filepath.Join(dir, "config-create.yaml")
		writeConfig(cfg, w.Config(port))
		in, wrap := c.NewInject(fmt.Sprintf("k%d-%d", p.w, p.at), w.indexPaths()...)
		mode := iKill
		if i%5 == 0 {
			mode = iTorn // the last transfer stops after some whole pages
		}
		in.Set(mode, 0, crashMask, p.at-1, 1, 1000, i, 4096)
		s := c.Spawn(dir, cfg, StartOpts{Port: port, Wrap: wrap})
		up, _ := s.WaitUp(120 * time.Second)
		s.Kill()
		h := hashFiles(dir, w.indexFiles())
		res := w.recover_(c, c.Rng("probe", i), M{"variant": p.variant, "kind": p.kind, "records": p.n, "killed_at_call": p.at, "how": "SIGKILL at a call"})
		if up {
			c.Count("kill_not_reached", 1)
			res += "_complete"
		}
		c.Count("killed_"+p.variant+"_"+res, 1)
		key := ""
		if !up {
			key = fmt.Sprintf("kill|%s|%d|%d|%v", p.variant, p.w, p.at, h)
		}
		c.Eval(key)
		if i < 6 {
			c.Sample(M{"variant": p.variant, "killed_at_call": p.at, "result": res})
		}
		must(os.RemoveAll(dir))
	})
}

// prepareAdded gives the shared file a complete index before the others are added.
func (w *mixWorld) prepareAdded(c *C) {
	w1 := w.World.clone()
	w1.Indexes = map[string]*Index{"default": w.Indexes["default"], "s": w.Indexes["s"]}
	w1.Outputs = map[string]*Output{"arr": {Name: "arr", Kind: "jsonArray", Input: "in"}}
	s := w1.startOrFail(c, StartOpts{})
	if s != nil {
		s.Stop()
	}
}

// randomKills replaces the enumeration where strace cannot be used.
func (c *C) randomKills() {
	parallel(c.Q(240, 2000), 8, func(i int) {
		r := c.Rng("rkill", i)
		variant := sortedKeys(crashVariants)[i%len(crashVariants)]
		dir := c.dir("rk%d", i)
		w := c.crashWorld(r, dir, variant, pick(r, "csv", "json", "xml"), pick(r, 100, 400))
		if variant == "added" {
			w.prepareAdded(c)
		}
		port := freePort()
		cfg := filepath.Join(dir, "config-create.yaml")
		writeConfig(cfg, w.Config(port))
		s := c.Spawn(dir, cfg, StartOpts{Port: port})
		time.Sleep(time.Duration(5000+r.Intn(150000)) * time.Microsecond)
		s.Kill()
		h := hashFiles(dir, w.indexFiles())
		res := w.recover_(c, r, M{"variant": variant, "trial": i, "how": "SIGKILL at random"})
		c.Count("random_"+variant+"_"+res, 1)
		c.Eval(fmt.Sprintf("rkill|%d|%v", i, h))
		must(os.RemoveAll(dir))
	})
}
