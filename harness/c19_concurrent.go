package main

import (
	"fmt"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

func init() {
	register(&Check{ID: "C19", Level: "exploration", Min: 400,
		Rule: "a case is one request answered while others were being handled (counted by the client), on a server built with or without the race detector; distinct: the request together with the kinds of requests it overlapped; every answer is compared with the one the request has alone",
		Fn:   c19})
}

// busyWorld has all input formats, index kinds, parsers and outputs at once.
func (c *C) busyWorld(r randT, dir string) (*World, func(r randT) (kind, raw string)) {
	w := NewWorld(dir)
	kinds := map[string]string{"a": "csv", "b": "json", "p": "xml"}
	for _, n := range sortedKeys(kinds) {
		w.anyInput(r, n, kinds[n], pick(r, 15, 40, 120), pick(r, 12, 400))
		props := []IProp{{"id", ""}, {"cat", ""}, {"num", ""}, {"price", ""}, {"flag", ""}, {"name", ""}}
		w.AddIndex(&Index{Name: "m_" + n, Kind: "map", Input: n, Props: props})
		w.AddIndex(&Index{Name: "s_" + n, Kind: "sqlite", Input: n, Props: props, Path: pick(r, ":memory:", "db.db")})
		w.AddIndex(&Index{Name: "t_" + n, Kind: "sqlite", Input: n, Props: props, Path: "db.db"})
		w.AddIndex(&Index{Name: "x_" + n, Kind: "wildcard", Input: n, Props: []IProp{{"cat", ""}, {"name", ""}}, Path: n + ".idx", IgnoreCase: r.Intn(2) == 0})
		w.AddIndex(&Index{Name: "f_" + n, Kind: "fts5", Input: n, Props: []IProp{{"cat", ""}}, Path: pick(r, ":memory:", "db.db"),
			FtsMatch: func(rec Rec, q string) (bool, error) { return rec["cat"] == q, nil }})
	}
	// a csv whose columns use every parser
	sp := spelledParsers(w, r, false)
	fields := []Field{fID()}
	ip := []IProp{}
	for i := range sp {
		s := sp[i]
		fields = append(fields, Field{fmt.Sprintf("f%d", i), s.p.Name, func(r randT, _ int) (string, any) {
			v := s.vals[r.Intn(len(s.vals))]
			return s.spell(r, v), v
		}})
		ip = append(ip, IProp{fmt.Sprintf("f%d", i), ""})
	}
	w.CsvInput(r, "q", 40, fields, CsvOpts{})
	w.AddIndex(&Index{Name: "m_q", Kind: "map", Input: "q", Props: ip})
	w.AddIndex(&Index{Name: "s_q", Kind: "sqlite", Input: "q", Props: ip, Path: ":memory:"})
	for i, s := range sp {
		ps := map[string]Param{}
		for _, x := range []string{"", "m_q", "s_q"} {
			ps["v"+x] = Param{fmt.Sprintf("f%d", i), x, s.p.Name}
		}
		w.AddOutput(&Output{Name: fmt.Sprintf("q%d", i), Kind: "jsonArray", Input: "q", LimDefault: 30, Params: ps}, fmt.Sprintf("/q%d", i))
	}
	outs := map[string]map[string]Param{}
	for _, n := range sortedKeys(kinds) {
		rels := map[string]*Rel{"r0": w.randRel(r, kinds[n], kinds, 2), "r1": w.randRel(r, kinds[n], kinds, 2)}
		num := numParser(kinds[n])
		ps := map[string]Param{"f.match": {"match", "f_" + n, ""}}
		for _, x := range []string{"m_", "s_", "t_"} {
			for _, p := range []string{"id", "cat", "num", "price", "flag", "name"} {
				ps[x+p] = Param{p, x + n, map[string]string{"id": num, "num": num, "price": "float", "flag": "boolean"}[p]}
			}
		}
		ps["n_cat"], ps["n_flag"] = Param{"cat", "", ""}, Param{"flag", "", "boolean"}
		ps["x_cat"], ps["x_name"] = Param{"cat", "x_" + n, ""}, Param{"name", "x_" + n, ""}
		outs[n] = ps
		w.AddOutput(&Output{Name: "plain" + n, Kind: "jsonArray", Input: n, LimDefault: 15, Params: ps}, "/plain"+n)
		w.AddOutput(&Output{Name: "rel" + n, Kind: "jsonArray", Input: n, LimDefault: 4, Params: ps, Rels: rels}, "/rel"+n)
		w.AddOutput(&Output{Name: "one" + n, Kind: "jsonObject", Input: n, Rels: rels, Params: map[string]Param{"id": {"id", "s_" + n, num}}}, "/one"+n+"/{id}")
	}
	gen := func(r randT) (string, string) {
		if r.Intn(4) == 0 {
			i := r.Intn(len(sp))
			vals := url.Values{}
			vals.Set(pick(r, "v", "vm_q", "vs_q"), sp[i].spell(r, sp[i].vals[r.Intn(len(sp[i].vals))]))
			if len(sp[i].bad) > 0 && r.Intn(6) == 0 {
				vals.Set("v", sp[i].bad[r.Intn(len(sp[i].bad))])
			}
			return "parsers", fmt.Sprintf("/q%d?", i) + vals.Encode()
		}
		n := pick(r, "a", "b", "p")
		in := w.Inputs[n]
		rec := in.Recs[r.Intn(len(in.Recs))]
		if r.Intn(5) == 0 {
			id, _ := filterFor(r, in, rec, "id", numParser(kinds[n]))
			return "one-" + kinds[n], "/one" + n + "/" + url.PathEscape(id)
		}
		vals := url.Values{}
		names := sortedKeys(outs[n])
		used := ""
		for k := r.Intn(3); k > 0; k-- {
			name := names[r.Intn(len(names))]
			p := outs[n][name]
			used += "," + name[:1]
			switch name[0] {
			case 'f':
				vals.Set(name, fmt.Sprintf("c%d", r.Intn(8)))
			case 'x':
				t, _ := substringOf(r, rec[p.Prop])
				if t == "" {
					t = "c"
				}
				if rs := []rune(t); len(rs) > 40 {
					t = string(rs[:40])
				}
				vals.Set(name, t)
			default:
				v, _ := filterFor(r, in, rec, p.Prop, p.Parser)
				vals.Set(name, v)
			}
		}
		if r.Intn(2) == 0 {
			vals.Set("offset", fmt.Sprint(r.Intn(20)))
		}
		o := pick(r, "plain", "rel")
		return o + "-" + kinds[n] + used, "/" + o + n + "?" + vals.Encode()
	}
	return w, gen
}

func raceReports(dir string) []string {
	out := []string{}
	fs, _ := filepath.Glob(filepath.Join(dir, "race.*"))
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		out = append(out, strings.Split(string(b), "==================")...)
	}
	keep := []string{}
	for _, o := range out {
		if strings.Contains(o, "DATA RACE") || strings.Contains(o, "race:") || strings.Contains(o, "ERROR") {
			keep = append(keep, o)
		}
	}
	return keep
}

// raceSites names a race by the functions of its two accesses.
func raceSites(rep string) string {
	out := []string{}
	for _, part := range strings.Split(rep, "\n\n") {
		ls := strings.Split(strings.TrimSpace(part), "\n")
		for _, l := range ls {
			if strings.HasPrefix(strings.TrimSpace(l), "github.com/rodb-io") {
				out = append(out, strings.TrimSpace(l))
				break
			}
		}
		if len(out) == 2 {
			break
		}
	}
	return strings.Join(out, " / ")
}

// lives: what happens only once in the life of a server (the first requests,
// several services, the end by a signal or by a modified input) is raced too.
func c19Lives(c *C) {
	parallel(c.Q(5, 24), 5, func(wi int) {
		r := c.Rng("lives", wi)
		dir := c.dir("l%d", wi)
		w, gen := c.busyWorld(r, dir)
		f := c.fleet(r, w, fleetLayouts[r.Intn(len(fleetLayouts))])
		deadline := time.Now().Add(time.Duration(c.Q(20, 200)) * time.Second)
		for life := 0; life < c.Q(8, 60) && time.Now().Before(deadline); life++ {
			end := pick(r, "signal", "signal", "modified", "removed")
			if life == 0 {
				end = "signal"
			}
			env := []string{"GOMAXPROCS=" + pick(r, "1", "2", "4", "8"), "GORACE=log_path=" + filepath.Join(dir, "race") + " exitcode=66 halt_on_error=0 history_size=4"}
			s := f.begin(c, StartOpts{Variant: "race", Env: env, LogLvl: pick(r, "error", "debug")})
			if s == nil {
				return
			}
			type ask struct {
				x   *way
				raw string
				exp Exp
			}
			asks := []ask{}
			kind := ""
			for len(asks) < 40 {
				x := f.ways[r.Intn(len(f.ways))]
				k, raw := gen(r)
				if kind == "" {
					kind = k
				}
				if life%2 == 1 && k != kind && r.Intn(20) > 0 {
					continue // mostly the same kind of requests
				}
				asks = append(asks, ask{x, raw, f.views[x.svc].Expect(raw)})
			}
			var changed atomic.Bool
			ask1 := func(a ask) {
				before := !changed.Load()
				resp := f.get(a.x, a.raw)
				if resp.Err != nil && !before || resp.Err != nil && changed.Load() {
					return
				}
				if before && !changed.Load() {
					c.Count("answers_of_short_lives", 1)
					if d := judge(a.exp, resp); d != "" {
						c.Fail("short-life", M{"request": a.x.base + a.raw, "difference": d, "log": tail(s.Log.String(), 1500)}, s.Cfg)
					}
				}
			}
			gate := make(chan struct{})
			var wg sync.WaitGroup
			for i := range asks {
				wg.Add(1)
				go func(a ask) {
					defer wg.Done()
					<-gate
					ask1(a)
				}(asks[i])
			}
			close(gate)
			wg.Wait()
			c.Eval(fmt.Sprintf("life|%d|%d|%s|%s", wi, life, end, kind))
			// the end comes while requests are being handled
			var load sync.WaitGroup
			load.Add(1)
			go func() {
				defer load.Done()
				parallel(60, 12, func(i int) { ask1(asks[i%len(asks)]) })
			}()
			time.Sleep(time.Duration(r.Intn(25)) * time.Millisecond)
			changed.Store(true)
			var code int
			var ok bool
			victim := filepath.Join(dir, f.Inputs[pick(r, "a", "b", "p")].File)
			content, err := os.ReadFile(victim)
			must(err)
			st, err := os.Stat(victim)
			must(err)
			switch end {
			case "signal":
				code, ok = s.Stop()
			case "modified":
				h, err := os.OpenFile(victim, os.O_APPEND|os.O_WRONLY, 0)
				must(err)
				_, err = h.WriteString("\n")
				must(err)
				must(h.Close())
				code, ok = s.WaitExit(60 * time.Second)
				ok = ok && code != 0
				code = 0
			case "removed": // ends, or goes on with what it has
				must(os.Remove(victim))
				if code, ok = s.WaitExit(200 * time.Millisecond); !ok {
					code, ok = s.Stop()
				} else if code != 66 {
					code = 0
				}
			}
			if s.code == 66 {
				code = 66
			}
			s.Kill()
			load.Wait()
			if end != "signal" {
				must(os.WriteFile(victim, content, 0644))
				must(os.Chtimes(victim, st.ModTime(), st.ModTime()))
			}
			reports := raceReports(dir)
			for _, rep := range reports {
				c.Fail("race:"+raceSites(rep), M{"report": tail(rep, 6000), "end": end}, s.Cfg)
			}
			fs, _ := filepath.Glob(filepath.Join(dir, "race.*"))
			for _, x := range fs {
				_ = os.Remove(x)
			}
			log := s.Log.String()
			if !ok || code != 0 && len(reports) == 0 || strings.Contains(log, "panic: ") || strings.Contains(log, "fatal error: ") || strings.Contains(log, "DATA RACE") {
				c.Fail("end", M{"end": end, "code": s.code, "ended": ok, "log": tail(log, 3000)}, s.Cfg)
			}
			c.Count("short_lives_ended_by_"+end, 1)
			if c.FailCount() > 10 {
				return
			}
		}
	})
}

func c19(c *C) {
	c.Binary("race")
	c.phase("lives", func() { c19Lives(c) })
	worlds := c.Q(6, 24)
	parallel(worlds, 3, func(wi int) {
		r := c.Rng("world", wi)
		dir := c.dir("w%d", wi)
		w, gen := c.busyWorld(r, dir)
		variant := pick(r, "race", "plain")
		if wi < 4 {
			variant = []string{"race", "race", "race", "plain"}[wi]
		}
		procs := []string{"8", "2", "4", "8", "1", "3"}[wi%6]
		opts := StartOpts{Variant: variant, Env: []string{"GOMAXPROCS=" + procs}, LogLvl: "error"}
		if variant == "race" {
			opts.Env = append(opts.Env, "GORACE=log_path="+filepath.Join(dir, "race")+" exitcode=66 halt_on_error=0 history_size=4")
		}
		s := w.startOrFail(c, opts)
		if s == nil {
			return
		}
		defer s.Kill()
		type ask struct {
			kind, raw string
			exp       Exp
		}
		asks := make([]ask, c.Q(260, 900))
		for i := range asks {
			k, raw := gen(r)
			asks[i] = ask{k, raw, w.Expect(raw)}
		}
		// alone
		for i, a := range asks {
			if i%7 == 0 && !w.AskExp(c, s, "alone", a.raw, a.exp) {
				return
			}
		}
		var mu sync.Mutex
		active := map[int]string{}
		pairs := map[string]bool{}
		var overlapped, total int64
		one := func(id int, a ask) {
			mu.Lock()
			active[id] = a.kind
			seen := []string{}
			for k, o := range active {
				if k != id {
					seen = append(seen, o)
					pairs[a.kind+" with "+o] = true
				}
			}
			mu.Unlock()
			w.AskExp(c, s, "concurrent", a.raw, a.exp)
			mu.Lock()
			delete(active, id)
			mu.Unlock()
			atomic.AddInt64(&total, 1)
			if len(seen) > 0 {
				atomic.AddInt64(&overlapped, 1)
				sort.Strings(seen)
				c.Eval(fmt.Sprintf("%d|%s|%v", wi, a.raw, seen))
			}
		}
		deadline := time.Now().Add(time.Duration(c.Q(25, 240)) * time.Second)
		rounds := 0
		for ; time.Now().Before(deadline); rounds++ {
			switch rounds % 4 {
			case 0: // everything at once
				n := 8 + r.Intn(25)
				seed := r.Int63()
				parallel(400, n, func(i int) {
					one(i, asks[int(uint64(seed+int64(i)*7919)%uint64(len(asks)))])
				})
			case 1: // bursts of the same request
				for b := 0; b < 25; b++ {
					a := asks[r.Intn(len(asks))]
					parallel(10, 10, func(i int) { one(i, a) })
				}
			case 2: // requests of one kind, released together
				for b := 0; b < 25; b++ {
					k := asks[r.Intn(len(asks))].kind
					same := []ask{}
					for _, a := range asks {
						if a.kind == k {
							same = append(same, a)
						}
					}
					var ready, done sync.WaitGroup
					gate := make(chan struct{})
					for i := 0; i < 12; i++ {
						a := same[r.Intn(len(same))]
						ready.Add(1)
						done.Add(1)
						go func(i int) {
							defer done.Done()
							ready.Done()
							<-gate
							one(i, a)
						}(i)
					}
					ready.Wait()
					close(gate)
					done.Wait()
				}
			case 3: // two against two
				for b := 0; b < 20; b++ {
					x, y := asks[r.Intn(len(asks))], asks[r.Intn(len(asks))]
					parallel(16, 8, func(i int) {
						if i%2 == 0 {
							one(i, x)
						} else {
							one(i, y)
						}
					})
				}
			}
			if c.FailCount() > 10 {
				break
			}
		}
		// the end of the server under load is part of what is watched for races
		stopped := make(chan struct{})
		go func() {
			defer close(stopped)
			parallel(60, 12, func(i int) {
				a := asks[i%len(asks)]
				resp := s.Get(a.raw)
				if resp.Err == nil {
					if d := judge(a.exp, resp); d != "" {
						c.Fail("at-shutdown", M{"request": a.raw, "difference": d}, s.Cfg)
					}
				}
			})
		}()
		time.Sleep(time.Duration(r.Intn(30)) * time.Millisecond)
		code, ok := s.Stop()
		<-stopped
		reports := raceReports(dir)
		for _, rep := range reports {
			c.Fail("race:"+raceSites(rep), M{"report": tail(rep, 6000), "variant": variant}, s.Cfg)
		}
		log := s.Log.String()
		if !ok || code != 0 && len(reports) == 0 || strings.Contains(log, "panic") || strings.Contains(log, "fatal error") || strings.Contains(log, "DATA RACE") {
			c.Fail("end", M{"code": code, "ended": ok, "log": tail(log, 3000)}, s.Cfg)
		}
		c.Count("requests_"+variant, total)
		c.Count("overlapped_requests", overlapped)
		c.Count("kind_pairs_overlapped", int64(len(pairs)))
		c.Count("rounds", int64(rounds))
		if wi < 3 {
			c.Sample(M{"variant": variant, "GOMAXPROCS": procs, "requests": total, "overlapped": overlapped, "example": asks[0].raw})
		}
	})
	c.assume = append(c.assume, "the race detector does not see inside the SQLite C code")
}
