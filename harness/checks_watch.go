package main

// bruteray-watch as a real process, watching real files (C33).

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"
)

func init() {
	register(&Check{
		ID:   "C33",
		Rule: "the real bruteray-watch process on a real file in a scratch directory, random histories of saves (new version, same text saved again, version that does not build, file that is not a program, bursts of saves, programs that do not build at first), programs that keep running or end by themselves; every run logs version, process and arguments; non-trivial: history step after which a run was observed",
		Run: func(t *T) {
			dir, err := os.MkdirTemp(os.Getenv("VERIF_TMP"), "watch-")
			must(err)
			defer os.RemoveAll(dir)
			bin := filepath.Join(dir, "watch")
			cmd := exec.Command("go", "build", "-o", bin, "github.com/barnex/bruteray/cmd/bruteray-watch")
			cmd.Dir = filepath.Join(verifDir(), "harness")
			if out, err := cmd.CombinedOutput(); err != nil {
				panic(fmt.Sprintf("build bruteray-watch: %v\n%s", err, out))
			}
			t.Cases("history", t.N(2, 12), func(c *C, i int) { watchHistory(c, bin, i) })
			t.Require("runs observed", 30)
			t.Require("saves that do not build", 4)
			t.Require("nothing runs after a save that does not build", 1)
			t.Require("programs that do not build at first", 1)
		},
	})
}

func progText(version string, ends string) string {
	return fmt.Sprintf(`package main

import (
	"fmt"
	"os"
	"os/signal"
	"syscall"
	"time"
)

var _ = signal.Ignore
var _ = syscall.SIGTERM

func main() {
	f, err := os.OpenFile("log", os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0666)
	if err != nil {
		panic(err)
	}
	fmt.Fprintf(f, "RUN %s %%d %%q\n", os.Getpid(), os.Args[1:])
	f.Close()
	%s
	time.Sleep(time.Hour)
}
`, version, ends)
}

// a program that does not end when asked to
const stubborn = "signal.Ignore(os.Interrupt, syscall.SIGTERM, syscall.SIGHUP)"

type watchRun struct {
	version string
	pid     int
	args    string
}

func readRuns(fname string) []watchRun {
	b, _ := os.ReadFile(fname)
	var out []watchRun
	for _, l := range strings.Split(string(b), "\n") {
		var r watchRun
		if n, _ := fmt.Sscanf(l, "RUN %s %d", &r.version, &r.pid); n == 2 {
			r.args = l[strings.Index(l, "["):]
			out = append(out, r)
		}
	}
	return out
}

func alive(pid int) bool {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return false
	}
	s := string(b)
	k := strings.LastIndex(s, ") ")
	return k > 0 && len(s) > k+2 && s[k+2] != 'Z' && s[k+2] != 'X'
}

func watchHistory(c *C, bin string, first int) {
	root := scratch(c)
	defer os.RemoveAll(root)
	dir := root
	// dots and dashes are legal in file names
	name := []string{"prog", "my.scene", "a-b", "x.1"}[first%4]
	rel := name + ".go"
	if c.Intn(2) == 0 {
		dir = filepath.Join(root, "sub")
		must(os.Mkdir(dir, 0777))
		rel = "sub/" + rel
	}
	file, logf := filepath.Join(dir, name+".go"), filepath.Join(dir, "log")
	nsave := 0
	save := func(text string) {
		// as editors do: never let the watcher see half a file
		tmp := filepath.Join(root, "tmp")
		must(os.WriteFile(tmp, []byte(text), 0666))
		if c.Intn(3) == 0 {
			// restored from elsewhere: the modification time may be older than that of the previous version
			nsave++
			ts := time.Now().Add(-time.Duration(c.Intn(100000))*time.Hour - time.Duration(nsave)*time.Second)
			must(os.Chtimes(tmp, ts, ts))
			c.Count("saves with an old modification time", 1)
		}
		must(os.Rename(tmp, file))
	}
	var args []string
	if c.Intn(2) == 0 {
		args = []string{"-a", "b c"}
	}
	version := 0
	next := func() string { version++; return fmt.Sprintf("v%d", version) }
	ends := func() string {
		return []string{"", stubborn, "os.Exit(0)", "os.Exit(3)", `panic("end")`}[c.Intn(5)]
	}
	wantArgs := fmt.Sprintf("%q", append([]string{"-o", name + ".jpg"}, args...))

	brokenStart := first%3 == 0
	if brokenStart {
		save([]string{"package main\nfunc main() { this does not build }\n", "package foo\n", "", "package main\nfunc main() {"}[c.Intn(4)])
	} else {
		save(progText(next(), ""))
	}
	w := exec.Command(bin, append([]string{"-i", "5ms", rel}, args...)...)
	w.Dir = root
	var outMu sync.Mutex
	var out strings.Builder
	w.Stdout = lockedWriter{&outMu, &out}
	w.Stderr = w.Stdout
	w.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	w.Env = append(os.Environ(), "GOFLAGS=", "GOWORK=off", "GO111MODULE=on")
	if first%2 == 1 {
		// priorities can not be changed everywhere
		nodir := filepath.Join(root, "nobin")
		must(os.Mkdir(nodir, 0777))
		must(os.WriteFile(filepath.Join(nodir, "renice"), []byte("#!/bin/sh\necho no >&2\nexit 1\n"), 0777))
		w.Env = append(w.Env, "PATH="+nodir+":"+os.Getenv("PATH"))
		c.Count("histories without renice", 1)
	}
	must(w.Start())
	dead := make(chan error, 1)
	go func() { dead <- w.Wait() }()
	defer func() {
		for _, r := range readRuns(logf) {
			if alive(r.pid) {
				syscall.Kill(r.pid, syscall.SIGKILL)
			}
		}
		syscall.Kill(-w.Process.Pid, syscall.SIGKILL)
	}()
	var history []string
	fail := func(format string, x ...interface{}) {
		outMu.Lock()
		defer outMu.Unlock()
		c.Failf("%s\n  history: %v\n  output: %s", fmt.Sprintf(format, x...), history, tail(out.String(), 3000))
	}
	// wait until the last run is of version v, at least n runs
	wait := func(v string, n int) bool {
		for k := 0; k < 6000; k++ {
			rs := readRuns(logf)
			if len(rs) >= n && rs[len(rs)-1].version == v {
				return true
			}
			select {
			case err := <-dead:
				fail("the watcher ended: %v", err)
				return false
			default:
			}
			heartbeat(c.Name)
			time.Sleep(10 * time.Millisecond)
		}
		fail("version %s was saved but does not run; runs: %v", v, readRuns(logf))
		return false
	}
	judge := func(v string) {
		rs := readRuns(logf)
		last := rs[len(rs)-1]
		c.Eval(1)
		c.Count("runs observed", 1)
		c.Distinct(c.Name, v, len(rs))
		if last.args != wantArgs {
			fail("version %s runs with arguments %s, want %s", v, last.args, wantArgs)
		}
		for _, r := range rs[:len(rs)-1] {
			if alive(r.pid) && r.pid != last.pid {
				fail("version %s (process %d) is still running next to %s", r.version, r.pid, v)
			}
		}
	}
	if brokenStart {
		// until the compiler's complaints appear
		history = append(history, "broken from the start")
		for k, said := 0, false; k < 1000 && !said; k++ {
			time.Sleep(10 * time.Millisecond)
			outMu.Lock()
			said = out.Len() > 0
			outMu.Unlock()
			heartbeat(c.Name)
		}
		time.Sleep(time.Duration(c.Intn(300)) * time.Millisecond)
		c.Count("programs that do not build at first", 1)
		save(progText(next(), ""))
	}
	history = append(history, "v1")
	if !wait("v1", 1) {
		return
	}
	judge("v1")
	for n := 0; n < 5; n++ {
		before := len(readRuns(logf))
		what := c.Intn(6)
		if n == 1 || n == 3 {
			what = 0
		}
		switch what {
		case 0: // does not build
			history = append(history, "broken")
			outMu.Lock()
			mark := out.Len()
			outMu.Unlock()
			save("package main\nfunc main() { this does not build }\n")
			c.Count("saves that do not build", 1)
			if c.Intn(3) == 0 {
				time.Sleep(time.Duration(c.Intn(1500)) * time.Millisecond)
				break
			}
			// the compiler's complaint is passed on
			said := false
			for k := 0; k < 6000 && !said; k++ {
				time.Sleep(10 * time.Millisecond)
				outMu.Lock()
				said = strings.Contains(out.String()[mark:], "syntax error")
				outMu.Unlock()
				heartbeat(c.Name)
			}
			if !said {
				fail("a version that does not build was saved, nothing is reported")
				return
			}
			// the previous instance was ended, and nothing takes its place
			runs := len(readRuns(logf))
			time.Sleep(time.Duration(300+c.Intn(500)) * time.Millisecond)
			rs := readRuns(logf)
			if len(rs) != runs {
				fail("the file does not build, but version %s was started", rs[len(rs)-1].version)
			}
			for _, r := range rs {
				if alive(r.pid) {
					fail("the file does not build, but version %s (process %d) is still running", r.version, r.pid)
				}
			}
			c.Count("nothing runs after a save that does not build", 1)
		case 1:
			history = append(history, "not a program")
			save("package foo\n")
			time.Sleep(time.Duration(c.Intn(1500)) * time.Millisecond)
			c.Count("saves that are not a program", 1)
		case 2:
			// burst
			history = append(history, "burst")
			for k := 0; k < 3; k++ {
				save(progText(next(), ends()))
				time.Sleep(time.Duration(c.Intn(60)) * time.Millisecond)
			}
		case 3:
			// nothing happens without a change
			quiet := false
			for k := 0; k < 15 && !quiet; k++ {
				n := len(readRuns(logf))
				time.Sleep(4 * time.Second)
				quiet = len(readRuns(logf)) == n
				heartbeat(c.Name)
			}
			if !quiet {
				fail("keeps running the program without a change: %v", readRuns(logf))
			}
			before = len(readRuns(logf))
		}
		v := next()
		history = append(history, v)
		end := ends()
		if n == 0 {
			end = stubborn
		} else if n == 2 {
			end = ""
		}
		save(progText(v, end))
		if !wait(v, before+1) {
			return
		}
		time.Sleep(50 * time.Millisecond)
		judge(v)
	}
	c.Sample("history %v, %d runs", history, len(readRuns(logf)))
	if err := w.Process.Signal(syscall.Signal(0)); err != nil {
		fail("the watcher ended")
	}
}

type lockedWriter struct {
	mu *sync.Mutex
	b  *strings.Builder
}

func (w lockedWriter) Write(p []byte) (int, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.b.Len() < 1<<20 {
		w.b.Write(p)
	}
	return len(p), nil
}
