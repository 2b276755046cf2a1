package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// A Check decides one property by running the real code under a workload
// and judging what it observes with an independent oracle.
type Check struct {
	ID    string
	Race  bool   // worker must be built with the race detector
	Rule  string // how cases are made, what makes one non-trivial
	Level string // "exploration" (default) or "fault_enumeration"
	Run   func(t *T)
}

var checks = map[string]*Check{}

func register(c *Check) {
	if c.Level == "" {
		c.Level = "exploration"
	}
	if checks[c.ID] != nil {
		panic("duplicate check " + c.ID)
	}
	checks[c.ID] = c
}

const maxReported = 25

// T accumulates what one run of a check observed.
type T struct {
	Check *Check
	Tier  string
	Seed  int64
	Known map[string]string // key -> description, from known-findings.txt

	mu         sync.Mutex
	evals      int64
	distinct   map[uint64]struct{}
	samples    []string
	counts     map[string]int64
	violations []string
	nviol      int64
	start      time.Time
	firstViol  int64 // unix nanoseconds
	knownHit   map[string]string
	require    map[string]int64
	assume     []string
}

func (t *T) Thorough() bool { return t.Tier == "thorough" }

// N scales the number of cases with the tier.
func (t *T) N(quick, thorough int) int {
	f, ok := effort[t.Check.ID]
	if !ok {
		f = [2]int{1, 1}
	}
	if t.Thorough() {
		return 5 * thorough * f[1]
	}
	return 10 * quick * f[0]
}

// effort: multiplies the number of cases, so that quick takes about 10 s, thorough a few minutes.
var effort = map[string][2]int{
	"C01": {8, 15}, "C02": {8, 15}, "C03": {5, 15}, "C04": {4, 15}, "C05": {2, 8}, "C06": {3, 12}, "C07": {2, 2},
	"C08": {1, 6}, "C09": {1, 5}, "C10": {8, 50}, "C11": {20, 80}, "C12": {20, 60}, "C13": {10, 30}, "C14": {20, 50},
	"C15": {10, 25}, "C16": {3, 8}, "C17": {3, 8}, "C18": {4, 8}, "C19": {10, 20}, "C20": {8, 20}, "C21": {20, 80},
	"C22": {30, 100}, "C23": {20, 100}, "C24": {15, 80}, "C25": {6, 20}, "C26": {8, 25}, "C27": {3, 8}, "C28": {30, 120},
	"C29": {20, 150}, "C30": {25, 60}, "C31": {8, 30}, "C32": {10, 40}, "C33": {1, 5}, "C34": {2, 8},
}

// Require makes the run inconclusive unless at least min events were counted under name.
func (t *T) Require(name string, min int64) {
	t.mu.Lock()
	t.require[name] = min
	t.mu.Unlock()
}

func (t *T) Assume(s string) { t.mu.Lock(); t.assume = append(t.assume, s); t.mu.Unlock() }

// C is one case: private random generator, private counters.
type C struct {
	*rand.Rand
	t     *T
	Name  string
	evals int64
	dist  []uint64
	cnt   map[string]int64
}

func (c *C) Eval(n int)               { c.evals += int64(n) }
func (c *C) Count(name string, n int) { c.cnt[name] += int64(n) }
func (c *C) Thorough() bool           { return c.t.Thorough() }
func (c *C) Distinct(x ...interface{}) {
	h := fnv.New64a()
	fmt.Fprint(h, x...)
	c.dist = append(c.dist, h.Sum64())
}
func (c *C) Sample(format string, x ...interface{}) {
	c.t.mu.Lock()
	defer c.t.mu.Unlock()
	if len(c.t.samples) < 8 {
		c.t.samples = append(c.t.samples, c.Name+": "+fmt.Sprintf(format, x...))
	}
}

func (c *C) Failf(format string, x ...interface{}) {
	c.t.fail(c.Name + ": " + fmt.Sprintf(format, x...))
}

// KnownOr reports a finding listed in known-findings.txt under key, or else a violation.
func (c *C) KnownOr(key string, format string, x ...interface{}) {
	msg := fmt.Sprintf(format, x...)
	c.t.mu.Lock()
	desc, ok := c.t.Known[key]
	if ok {
		if _, seen := c.t.knownHit[key]; !seen {
			c.t.knownHit[key] = desc
		}
	}
	c.t.mu.Unlock()
	if !ok {
		c.Failf("%s", msg)
	}
}

func (t *T) fail(msg string) {
	atomic.AddInt64(&t.nviol, 1)
	atomic.CompareAndSwapInt64(&t.firstViol, 0, time.Now().UnixNano())
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.violations) < maxReported {
		t.violations = append(t.violations, msg)
	}
}

func hash(x ...interface{}) uint64 {
	h := fnv.New64a()
	fmt.Fprint(h, x...)
	return h.Sum64()
}

func (t *T) newC(name string) *C {
	return &C{
		Rand: rand.New(rand.NewSource(int64(hash(t.Seed, "/", name) >> 1))),
		t:    t, Name: name, cnt: map[string]int64{},
	}
}

// Case runs f as one named case; a panic is a violation.
func (t *T) Case(name string, f func(c *C)) {
	if t.enough() {
		return
	}
	c := t.newC(name)
	heartbeat(name)
	func() {
		defer func() {
			if p := recover(); p != nil {
				c.Failf("panic: %v\n%s", p, trimStack(debug.Stack()))
			}
		}()
		f(c)
	}()
	t.mu.Lock()
	t.evals += c.evals
	for _, d := range c.dist {
		t.distinct[d] = struct{}{}
	}
	for k, v := range c.cnt {
		t.counts[k] += v
	}
	t.mu.Unlock()
	heartbeat("")
}

// Cases runs n independent cases on all cores.
// The i'th case only depends on the seed, name, and i.
func (t *T) Cases(name string, n int, f func(c *C, i int)) {
	var wg sync.WaitGroup
	var next int64 = -1
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n || t.enough() {
					return
				}
				t.Case(fmt.Sprintf("%s#%d", name, i), func(c *C) { f(c, i) })
			}
		}()
	}
	wg.Wait()
}

// enough: no more cases are started once the verdict is clear, or time is up
// (what was observed until then must still meet the requirements).
func (t *T) enough() bool {
	return atomic.LoadInt64(&t.nviol) > 400 || t.sinceViolation() > 20*time.Second || time.Since(t.start) > t.limit()
}

func (t *T) limit() time.Duration {
	if t.Thorough() {
		return 3000 * time.Second
	}
	return 600 * time.Second
}

func (t *T) sinceViolation() time.Duration {
	if first := atomic.LoadInt64(&t.firstViol); first != 0 {
		return time.Since(time.Unix(0, first))
	}
	return 0
}

func trimStack(b []byte) string {
	l := strings.Split(string(b), "\n")
	if len(l) > 40 {
		l = l[:40]
	}
	return strings.Join(l, "\n")
}

// heartbeats let the supervisor distinguish slow from stuck.
var hbMu sync.Mutex
var hbFile *os.File
var hbLast time.Time
var hbRunning = map[string]time.Time{}

func heartbeat(name string) {
	if hbFile == nil {
		return
	}
	hbMu.Lock()
	defer hbMu.Unlock()
	if time.Since(hbLast) > 200*time.Millisecond {
		hbLast = time.Now()
		fmt.Fprintln(hbFile, "HB", name)
	}
}

type result struct {
	Evals      int64
	Distinct   int64
	Samples    []string
	Counts     map[string]int64
	Violations []string
	NViol      int64
	KnownHit   map[string]string
	Inconcl    []string
	Assume     []string
}

func worker(id string) {
	c := checks[id]
	t := &T{
		Check: c, Tier: env("VERIF_TIER", "quick"), Seed: seed(),
		distinct: map[uint64]struct{}{}, counts: map[string]int64{},
		knownHit: map[string]string{}, require: map[string]int64{},
		Known: loadKnown(id),
	}
	t.start = time.Now()
	hbFile = os.NewFile(3, "heartbeat")
	go func() { // do not outlive the supervisor
		for parent := os.Getppid(); os.Getppid() == parent; {
			time.Sleep(time.Second)
		}
		os.Exit(1)
	}()
	go func() { // cases that take forever do not hold up the report of what others found
		for t.sinceViolation() < 90*time.Second {
			time.Sleep(time.Second)
		}
		t.report()
		os.Exit(0)
	}()
	c.Run(t)
	t.report()
}

var reported sync.Mutex

func (t *T) report() {
	reported.Lock() // and never unlocked: once only
	t.mu.Lock()
	defer t.mu.Unlock()
	r := result{t.evals, int64(len(t.distinct)), t.samples, t.counts, t.violations, t.nviol, t.knownHit, nil, t.assume}
	for k, min := range t.require {
		if t.counts[k] < min {
			r.Inconcl = append(r.Inconcl, fmt.Sprintf("observed only %d of %s, need %d", t.counts[k], k, min))
		}
	}
	b, err := json.Marshal(r)
	must(err)
	must(os.WriteFile(os.Getenv("VERIF_RESULT"), b, 0666))
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func env(k, def string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return def
}

func seed() int64 {
	s, err := strconv.ParseInt(env("VERIF_SEED", "1"), 10, 64)
	if err != nil {
		return 1
	}
	return s
}

// lines: "known: property=<id> key=<key> <what fails>"
func loadKnown(id string) map[string]string {
	known := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return known
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property="+id+" key=") {
			continue
		}
		rest := strings.TrimPrefix(l, "known: property="+id+" key=")
		f := strings.SplitN(rest, " ", 2)
		if len(f) == 2 {
			known[f[0]] = f[1]
		}
	}
	return known
}

func verifDir() string { return env("VERIF_DIR", "/verif") }

// supervise runs the worker in a child process and turns
// crashes, race reports and stalls into verdicts.
func supervise(id string) int {
	c := checks[id]
	if c == nil {
		fmt.Fprintln(os.Stderr, "no such check:", id)
		return 2
	}
	start := time.Now()
	tmp, err := os.MkdirTemp("", "verif-run-")
	must(err)
	defer os.RemoveAll(tmp)
	res := filepath.Join(tmp, "result.json")
	logf, err := os.Create(filepath.Join(tmp, "log"))
	must(err)
	defer logf.Close()
	pr, pw, err := os.Pipe()
	must(err)

	self, err := os.Executable()
	must(err)
	cmd := exec.Command(self, "worker", id)
	cmd.Env = append(os.Environ(), "VERIF_RESULT="+res, "VERIF_TMP="+tmp,
		"GORACE=halt_on_error=0 exitcode=0 log_path="+filepath.Join(tmp, "race"))
	cmd.Stdout = logf
	cmd.Stderr = logf
	cmd.ExtraFiles = []*os.File{pw}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	must(cmd.Start())
	pw.Close()

	var last int64 = time.Now().UnixNano()
	var lastCase atomic.Value
	lastCase.Store("")
	go func() {
		sc := bufio.NewScanner(pr)
		for sc.Scan() {
			atomic.StoreInt64(&last, time.Now().UnixNano())
			if f := strings.TrimPrefix(sc.Text(), "HB "); f != "" {
				lastCase.Store(f)
			}
		}
	}()
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	const stall = 240 * time.Second // cases normally take milliseconds
	var crash string
	var raceSeen time.Time
wait:
	for {
		select {
		case err := <-done:
			if err != nil {
				crash = err.Error()
			}
			break wait
		case <-time.After(time.Second):
			if c.Race && raceSeen.IsZero() {
				if m, _ := filepath.Glob(filepath.Join(tmp, "race.*")); len(m) > 0 {
					raceSeen = time.Now()
				}
			}
			if !raceSeen.IsZero() && time.Since(raceSeen) > 90*time.Second {
				// races make everything slow; those found so far are enough
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				<-done
				break wait
			}
			if time.Since(time.Unix(0, atomic.LoadInt64(&last))) > stall {
				crash = fmt.Sprintf("no progress for %v (a call into the code under test does not return), near case %v", stall, lastCase.Load())
				cmd.Process.Signal(syscall.SIGQUIT) // dump stacks
				time.Sleep(2 * time.Second)
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				<-done
				break wait
			}
		}
	}
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)

	var r result
	if b, err := os.ReadFile(res); err == nil {
		must(json.Unmarshal(b, &r))
	}
	log, _ := os.ReadFile(logf.Name())
	if r.Counts == nil {
		r.Counts = map[string]int64{}
	}
	if crash != "" {
		r.NViol++
		r.Violations = append(r.Violations, "worker died: "+crash+"\n"+tail(string(log), 12000))
	}
	races := raceReports(tmp)
	if c.Race {
		r.Counts["race_reports"] = int64(len(races))
	}
	for _, rep := range races {
		r.NViol++
		r.Violations = append(r.Violations, rep)
	}

	// evidence
	ev := map[string]interface{}{
		"property": id, "tier": env("VERIF_TIER", "quick"), "seed": seed(), "level": c.Level,
		"coverage": map[string]interface{}{
			"evaluations": r.Evals, "distinct_nontrivial": r.Distinct, "rule": c.Rule,
			"samples": strs(r.Samples), "observed": r.Counts, "race_detector": c.Race,
		},
		"assumptions": strs(r.Assume),
		"wall_s":      math.Round(time.Since(start).Seconds()*100) / 100,
		"violations":  r.NViol,
	}
	if len(r.KnownHit) > 0 {
		ev["coverage"].(map[string]interface{})["known_findings_observed"] = r.KnownHit
	}
	evDir := filepath.Join(verifDir(), "evidence")
	must(os.MkdirAll(evDir, 0777))
	b, err := json.MarshalIndent(ev, "", " ")
	must(err)
	must(os.WriteFile(filepath.Join(evDir, id+".json"), append(b, '\n'), 0666))

	keys := []string{}
	for k := range r.KnownHit {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, r.KnownHit[k])
	}
	fmt.Printf("%s: %d evaluations, %d distinct non-trivial, %d violations, %.1fs\n", id, r.Evals, r.Distinct, r.NViol, time.Since(start).Seconds())

	if r.NViol > 0 {
		dir := filepath.Join(evDir, "replay")
		must(os.MkdirAll(dir, 0777))
		fn := filepath.Join(dir, id+".txt")
		var sb strings.Builder
		fmt.Fprintf(&sb, "property %s: %d violations observed\nreplay: VERIF_SEED=%d VERIF_TIER=%s bash %s/run.sh %s\n(each case below is regenerated from the seed and its name)\n\n",
			id, r.NViol, seed(), env("VERIF_TIER", "quick"), verifDir(), id)
		for _, v := range r.Violations {
			fmt.Fprintf(&sb, "%s\n\n", v)
		}
		must(os.WriteFile(fn, []byte(sb.String()), 0666))
		for i, v := range r.Violations {
			if i == 5 {
				break
			}
			fmt.Println("  ", firstLines(v, 12))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, fn)
		return 1
	}
	if len(r.Inconcl) > 0 {
		fmt.Println("INCONCLUSIVE:", strings.Join(r.Inconcl, "; "))
		return 3
	}
	return 0
}

func strs(s []string) []string {
	if s == nil {
		return []string{}
	}
	return s
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n     ")
}

func tail(s string, n int) string {
	if len(s) > n {
		// keep the head of a panic message as well
		return s[:n/2] + "\n...\n" + s[len(s)-n/2:]
	}
	return s
}

// raceReports returns the distinct race reports (deduplicated by function names).
func raceReports(dir string) []string {
	files, _ := filepath.Glob(filepath.Join(dir, "race.*"))
	seen := map[string]bool{}
	var out []string
	for _, f := range files {
		b, _ := os.ReadFile(f)
		for _, rep := range strings.Split(string(b), "==================\n") {
			if !strings.Contains(rep, "WARNING: DATA RACE") {
				continue
			}
			var key []string
			for _, l := range strings.Split(rep, "\n") {
				if strings.HasPrefix(l, "  ") && !strings.HasPrefix(l, "   ") {
					key = append(key, l)
				}
			}
			k := strings.Join(key, "|")
			if !seen[k] {
				seen[k] = true
				if len(out) < 10 {
					out = append(out, "data race:\n"+rep)
				}
			}
		}
	}
	return out
}

func main() {
	if len(os.Args) == 2 && os.Args[1] == "list" {
		ids := []string{}
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id, checks[id].Race)
		}
		return
	}
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: harness run|worker|sub ID")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "run":
		os.Exit(supervise(os.Args[2]))
	case "worker":
		worker(os.Args[2])
	case "sub": // auxiliary process of a check
		subMain(os.Args[2], os.Args[3:])
	default:
		os.Exit(2)
	}
}

var subs = map[string]func(args []string){}

func subMain(name string, args []string) {
	f := subs[name]
	if f == nil {
		fmt.Fprintln(os.Stderr, "no sub", name)
		os.Exit(2)
	}
	f(args)
}
