package main

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// ---------------------------------------------------------------------------
// Check context: verdicts, evidence, known findings, replay artefacts.
// Verdicts are three-valued: violated (exit 1), held on what was observed
// (exit 0), inconclusive (exit 2: the workload did not reach what it must).
// ---------------------------------------------------------------------------

type Check struct {
	ID    string
	Level string
	Rule  string
	// minimal number of distinct non-trivial observations for a conclusive run
	Min int
	Fn  func(c *C)
}

var registry = map[string]*Check{}

func register(c *Check) { registry[c.ID] = c }

type knownFinding struct {
	Property  string `json:"property"`
	Signature string `json:"signature"`
	What      string `json:"what"`
	Status    string `json:"status"` // "known" or "fixed"
	Commit    string `json:"commit,omitempty"`
}

type C struct {
	*Check
	Tier     string
	Seed     int64
	Thorough bool
	Work     string
	Verif    string
	Repo     string

	mu       sync.Mutex
	evals    int64
	distinct map[[16]byte]struct{}
	samples  []any
	counts   map[string]int64
	assume   []string
	fails    int
	hits     map[string]int // known finding hits
	known    []knownFinding
	replayN  int
	inconc   []string
	seenSig  map[string]int
	start    time.Time
	servers  []*Server
}

// Rng gives an independent deterministic stream for a named purpose.
func (c *C) Rng(name string, n int) *rand.Rand {
	h := sha256.Sum256([]byte(fmt.Sprintf("%s|%d|%s|%d", c.ID, c.Seed, name, n)))
	var s int64
	for i := 0; i < 8; i++ {
		s = s<<8 | int64(h[i])
	}
	return rand.New(rand.NewSource(s))
}

// Q picks the quick or the thorough quantity.
func (c *C) Q(quick, thorough int) int {
	if c.Thorough {
		return thorough
	}
	return quick
}

// Eval counts one executed and judged case. key identifies it; an empty key
// counts the execution but not as a distinct non-trivial one.
func (c *C) Eval(key string) {
	atomic.AddInt64(&c.evals, 1)
	if key == "" {
		return
	}
	h := sha256.Sum256([]byte(key))
	var k [16]byte
	copy(k[:], h[:16])
	c.mu.Lock()
	c.distinct[k] = struct{}{}
	c.mu.Unlock()
}

func (c *C) Count(name string, n int64) {
	c.mu.Lock()
	c.counts[name] += n
	c.mu.Unlock()
}

func (c *C) Max(name string, n int64) {
	c.mu.Lock()
	if n > c.counts[name] {
		c.counts[name] = n
	}
	c.mu.Unlock()
}

func (c *C) Sample(v any) {
	c.mu.Lock()
	if len(c.samples) < 6 {
		c.samples = append(c.samples, v)
	}
	c.mu.Unlock()
}

func (c *C) Inconclusive(format string, a ...any) {
	c.mu.Lock()
	c.inconc = append(c.inconc, fmt.Sprintf(format, a...))
	c.mu.Unlock()
}

func (c *C) FailCount() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.fails
}

// Fail records a violation. sig is the stable identity of the failing input,
// call site or history (used to match known findings); files are copied
// beside the replay file.
func (c *C) Fail(sig string, detail map[string]any, files ...string) {
	if c.fail(sig, detail, files...) {
		// Enough evidence: do not let a badly broken tree (hangs, ...) use the
		// whole time limit.
		code := c.finish()
		_ = os.RemoveAll(c.Work)
		os.Exit(code)
	}
}

const maxFails = 30

func (c *C) fail(sig string, detail map[string]any, files ...string) bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, k := range c.known {
		if k.Status == "known" && k.Property == c.ID && k.Signature == sig {
			c.hits[sig]++
			if c.hits[sig] == 1 {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, k.What)
			}
			return false
		}
	}
	c.fails++
	c.seenSig[sig]++
	if os.Getenv("VERIF_EXPLORE") != "" { // development: every failure on one line, no limit
		line, _ := json.Marshal(detail)
		fmt.Printf("FAIL %s %s\n", sig, line)
		return false
	}
	if c.seenSig[sig] > 3 || c.replayN >= 8 {
		return c.fails == maxFails
	}
	c.replayN++
	dir := filepath.Join(c.Verif, "replay", c.ID)
	_ = os.MkdirAll(dir, 0755)
	name := filepath.Join(dir, fmt.Sprintf("seed%d-%d.json", c.Seed, c.replayN))
	saved := []string{}
	for i, f := range files {
		if f == "" {
			continue
		}
		if data, err := os.ReadFile(f); err == nil && len(data) < 4<<20 {
			dst := filepath.Join(dir, fmt.Sprintf("seed%d-%d-%d-%s", c.Seed, c.replayN, i, filepath.Base(f)))
			if os.WriteFile(dst, data, 0644) == nil {
				saved = append(saved, dst)
			}
		}
	}
	out := map[string]any{
		"property": c.ID, "seed": c.Seed, "tier": c.Tier, "signature": sig,
		"detail": detail, "files": saved,
		"rerun": fmt.Sprintf("VERIF_SEED=%d VERIF_TIER=%s bash /verif/check.sh %s", c.Seed, c.Tier, c.ID),
	}
	data, err := json.MarshalIndent(out, "", " ")
	if err != nil {
		data = []byte(fmt.Sprintf("%#v", out))
	}
	_ = os.WriteFile(name, data, 0644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, name)
	short := string(data)
	if len(short) > 3000 {
		short = short[:3000] + "..."
	}
	fmt.Fprintf(os.Stderr, "%s\n", short)
	return c.fails == maxFails
}

// phase runs one part of a check and reports its duration.
func (c *C) phase(name string, fn func()) {
	t0 := time.Now()
	fn()
	c.Count("seconds_"+name, int64(time.Since(t0).Seconds()))
}

func (c *C) finish() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, s := range c.servers {
		if s.cmd.Process != nil && !s.Exited() {
			_ = syscall.Kill(-s.cmd.Process.Pid, syscall.SIGKILL)
		}
	}
	keys := make([]string, 0, len(c.counts))
	for k := range c.counts {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	cov := map[string]any{
		"evaluations":         c.evals,
		"distinct_nontrivial": len(c.distinct),
		"rule":                c.Rule,
		"samples":             c.samples,
	}
	obs := map[string]int64{}
	for _, k := range keys {
		obs[k] = c.counts[k]
	}
	cov["observed"] = obs
	if len(c.hits) > 0 {
		cov["known_finding_hits"] = c.hits
	}
	if c.samples == nil {
		cov["samples"] = []any{}
	}
	ev := map[string]any{
		"property": c.ID, "tier": c.Tier, "seed": c.Seed, "level": c.Level,
		"coverage": cov, "assumptions": append([]string{
			"the Go toolchain, the kernel, the SQLite C library and the harness itself are trusted",
			"only executions produced by the workload are judged",
		}, c.assume...),
		"wall_s":     time.Since(c.start).Seconds(),
		"violations": c.fails,
	}
	if len(c.inconc) > 0 {
		ev["inconclusive"] = c.inconc
	}
	data, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Join(c.Verif, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(c.Verif, "evidence", c.ID+".json"), append(data, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, "cannot write evidence:", err)
		return 2
	}
	fmt.Printf("%s: %d evaluations, %d distinct, %d violations, %.1fs\n", c.ID, c.evals, len(c.distinct), c.fails, time.Since(c.start).Seconds())
	if c.fails > 0 {
		return 1
	}
	if len(c.inconc) > 0 {
		fmt.Println("INCONCLUSIVE:", strings.Join(c.inconc, "; "))
		return 2
	}
	if len(c.distinct) < c.Min {
		fmt.Printf("INCONCLUSIVE: only %d distinct observations, at least %d are needed\n", len(c.distinct), c.Min)
		return 2
	}
	return 0
}

// ---------------------------------------------------------------------------
// Building the system under test from the current tree
// ---------------------------------------------------------------------------

var buildMu sync.Mutex
var built = map[string]string{}

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GO") || strings.HasPrefix(e, "CGO_") {
			continue
		}
		env = append(env, e)
	}
	return append(env,
		"GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=readonly", "CGO_ENABLED=1",
		"GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod", "GOCACHE=/root/.cache/go-build", "HOME=/root",
	)
}

// Binary builds (once per run) the server from /repo's working tree.
func (c *C) Binary(variant string) string {
	buildMu.Lock()
	defer buildMu.Unlock()
	if p, ok := built[variant]; ok {
		return p
	}
	out := filepath.Join(c.Work, "rodb-"+variant)
	args := []string{"build", "-buildvcs=false", "-tags", "sqlite_fts5", "-o", out}
	switch variant {
	case "plain":
	case "race":
		args = append(args, "-race")
	case "asan":
		args = append(args, "-asan")
	}
	args = append(args, "./cmd")
	cmd := exec.Command("go", args...)
	cmd.Dir = c.Repo
	cmd.Env = goEnv()
	t0 := time.Now()
	msg, err := cmd.CombinedOutput()
	if err != nil {
		fmt.Fprintf(os.Stderr, "cannot build the %s binary: %v\n%s\n", variant, err, msg)
		panic(abort{3})
	}
	fmt.Fprintf(os.Stderr, "[built %s in %.1fs]\n", variant, time.Since(t0).Seconds())
	built[variant] = out
	return out
}

type abort struct{ code int }

func runCheck(id string) (code int) {
	ck := registry[id]
	if ck == nil {
		fmt.Fprintf(os.Stderr, "unknown check %s\n", id)
		return 3
	}
	c := &C{Check: ck, Tier: os.Getenv("VERIF_TIER"), distinct: map[[16]byte]struct{}{}, counts: map[string]int64{},
		hits: map[string]int{}, seenSig: map[string]int{}, start: time.Now()}
	if c.Tier != "thorough" {
		c.Tier = "quick"
	}
	c.Thorough = c.Tier == "thorough"
	c.Seed = 1
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		c.Seed = s
	}
	c.Verif = os.Getenv("VERIF_DIR")
	if c.Verif == "" {
		c.Verif = "/verif"
	}
	c.Repo = os.Getenv("VERIF_REPO")
	if c.Repo == "" {
		c.Repo = "/repo"
	}
	if data, err := os.ReadFile(filepath.Join(c.Verif, "known_findings.json")); err == nil {
		if err := json.Unmarshal(data, &c.known); err != nil {
			fmt.Fprintln(os.Stderr, "known_findings.json:", err)
			return 3
		}
	}
	_ = os.RemoveAll(filepath.Join(c.Verif, "replay", c.ID))
	w, err := os.MkdirTemp("", "vh-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	c.Work = w
	// A generous watchdog: firing is inconclusive, never a violation.
	limit := 13 * time.Minute
	if c.Thorough {
		limit = 4 * time.Hour
	}
	timer := time.AfterFunc(limit, func() {
		buf := make([]byte, 1<<16)
		fmt.Fprintf(os.Stderr, "watchdog\n%s\n", buf[:runtime.Stack(buf, true)])
		for _, s := range c.servers {
			if s.cmd.Process != nil && !s.Exited() {
				_ = syscall.Kill(-s.cmd.Process.Pid, syscall.SIGKILL)
			}
		}
		_ = os.RemoveAll(w)
		if c.FailCount() > 0 {
			os.Exit(1)
		}
		os.Exit(2)
	})
	defer timer.Stop()
	defer func() {
		if r := recover(); r != nil {
			for _, s := range c.servers {
				s.Kill()
			}
			if a, ok := r.(abort); ok {
				code = a.code
			} else {
				buf := make([]byte, 1<<16)
				fmt.Fprintf(os.Stderr, "harness panic: %v\n%s\n", r, buf[:runtime.Stack(buf, false)])
				code = 3
			}
			if c.FailCount() > 0 {
				code = 1
			}
		}
		if os.Getenv("VERIF_KEEP") == "" {
			_ = os.RemoveAll(w)
		} else {
			fmt.Fprintln(os.Stderr, "kept", w)
		}
	}()
	ck.Fn(c)
	return c.finish()
}

func main() {
	if len(os.Args) >= 2 && os.Args[1] == "list" {
		ids := []string{}
		for id := range registry {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
		}
		return
	}
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness <property>")
		os.Exit(3)
	}
	// A signal which was ignored by whoever started the check would be ignored
	// by the servers as well: a signal which is handled here is reset in them.
	handled := []os.Signal{syscall.SIGINT, syscall.SIGTERM, syscall.SIGHUP, syscall.SIGQUIT}
	ignored := map[os.Signal]bool{}
	for _, sig := range handled {
		ignored[sig] = signal.Ignored(sig)
	}
	sigs := make(chan os.Signal, 1)
	signal.Notify(sigs, handled...)
	go func() {
		for sig := range sigs {
			if !ignored[sig] {
				os.Exit(2)
			}
		}
	}()
	os.Exit(runCheck(os.Args[1]))
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func sum(b []byte) string {
	h := sha256.Sum256(b)
	return hex.EncodeToString(h[:8])
}

// parallel runs fn(i) for i in [0,n) on at most k goroutines.
func parallel(n, k int, fn func(i int)) {
	var wg sync.WaitGroup
	ch := make(chan int)
	var first any
	var mu sync.Mutex
	for w := 0; w < k; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				func() {
					defer func() {
						if r := recover(); r != nil {
							mu.Lock()
							if first == nil {
								if a, ok := r.(abort); ok {
									first = a
								} else {
									buf := make([]byte, 1<<14)
									first = fmt.Sprintf("%v\n%s", r, buf[:runtime.Stack(buf, false)])
								}
							}
							mu.Unlock()
						}
					}()
					fn(i)
				}()
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
	if first != nil {
		panic(first)
	}
}
