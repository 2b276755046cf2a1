package main

// bruteray-view as a real process, with a recording window and a scripted server (C34).

import (
	"bufio"
	_ "embed"
	"encoding/gob"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/rand"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/barnex/bruteray/api"
	"github.com/barnex/bruteray/imagef"
)

//go:embed assets/driver.go.txt
var fakeDriver string

func init() {
	register(&Check{
		ID:   "C34",
		Rule: "the real viewer process, built with the race detector, its window replaced by one that is fed events and records what is shown, its server by one that answers with identifiable images after random delays, errors and stalls; random bursts of keys, drags, wheel, resizes (also to large windows), pauses; non-trivial: burst after which requests, cancellations and shown images were judged against a model of the view",
		Run: func(t *T) {
			dir, err := os.MkdirTemp(os.Getenv("VERIF_TMP"), "view-")
			must(err)
			defer os.RemoveAll(dir)
			bin := buildViewer(dir)
			t.Cases("history", t.N(1, 8), func(c *C, i int) { viewHistory(c, bin, dir, i%8 == 3) })
			t.Require("bursts judged", 60)
			t.Require("previews requested", 200)
			t.Require("bakes requested", 200)
			t.Require("stalled bakes canceled", 5)
			t.Require("published", 300)
			t.Require("large windows", 1)
		},
	})
}

// buildViewer builds the viewer with only its window replaced.
func buildViewer(dir string) string {
	h := filepath.Join(verifDir(), "harness")
	run := func(args ...string) string {
		cmd := exec.Command("go", args...)
		cmd.Dir = h
		cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GONOSUMDB=*", "GONOSUMCHECK=1", "GOFLAGS=-mod=mod")
		heartbeat("build")
		out, err := cmd.CombinedOutput()
		if err != nil {
			panic(fmt.Sprintf("go %v: %v\n%s", args, err, out))
		}
		return strings.TrimSpace(string(out))
	}
	repo := run("list", "-m", "-f", "{{.Dir}}", "github.com/barnex/bruteray")
	mod := filepath.Join(dir, "view.mod")
	text, err := os.ReadFile(filepath.Join(h, "go.mod"))
	must(err)
	must(os.WriteFile(mod, text, 0666))
	if sum, err := os.ReadFile(filepath.Join(repo, "go.sum")); err == nil {
		must(os.WriteFile(filepath.Join(dir, "view.sum"), sum, 0666))
	}
	exp := run("list", "-modfile", mod, "-m", "-f", "{{.Dir}}", "golang.org/x/exp")
	fake := filepath.Join(dir, "exp")
	must(os.MkdirAll(filepath.Join(fake, "shiny", "screen"), 0777))
	must(os.MkdirAll(filepath.Join(fake, "shiny", "driver"), 0777))
	files, _ := filepath.Glob(filepath.Join(exp, "shiny", "screen", "*.go"))
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		b, err := os.ReadFile(f)
		must(err)
		must(os.WriteFile(filepath.Join(fake, "shiny", "screen", filepath.Base(f)), b, 0666))
	}
	must(os.WriteFile(filepath.Join(fake, "shiny", "driver", "driver.go"), []byte(fakeDriver), 0666))
	must(os.WriteFile(filepath.Join(fake, "go.mod"), []byte("module golang.org/x/exp\n\ngo 1.12\n"), 0666))
	must(os.WriteFile(mod, append(text, []byte("\nreplace golang.org/x/exp => "+fake+"\n")...), 0666))
	bin := filepath.Join(dir, "view")
	run("build", "-race", "-modfile", mod, "-o", bin, "github.com/barnex/bruteray/cmd/bruteray-view")
	return bin
}

// ---- model ----

type viewModel struct {
	v      api.View
	held   bool
	paused bool
	x, y   float32
}

type winEvent struct {
	Kind             string
	X, Y             float32
	Button, Dir, Mod int
	Code             int
	W, H             int
	From, To         int
}

const (
	keyD, keyE, keyF, keyN, keyP, keyS         = 7, 8, 9, 17, 19, 22
	keyX, keyY, keyZ, keySpace                 = 27, 28, 29, 44
	keyRight, keyLeft, keyDown, keyUp          = 79, 80, 81, 82
	modShift                                   = 1
	dirNone, dirPress, dirRelease, dirStep     = 0, 1, 2, 3
	btnLeft, btnMiddle, btnRight               = 1, 2, 3
	wheelUp, wheelDown, wheelLeft, wheelRight  = -1, -2, -3, -4
	stageDead, stageAlive, stageVis, stageFocu = 0, 1, 2, 3
)

// move the camera over 0.05 in direction d, as seen by the camera.
func (m *viewModel) move(d Vec) {
	sp, cp := math.Sincos(m.v.CamPitch)
	sy, cy := math.Sincos(m.v.CamYaw)
	// pitch: around x, yaw: around y
	d = Vec{d[0], cp*d[1] - sp*d[2], sp*d[1] + cp*d[2]}
	d = Vec{cy*d[0] + sy*d[2], d[1], -sy*d[0] + cy*d[2]}
	for i := range d {
		m.v.CamPos[i] += 0.05 * d[i]
	}
}

func (m *viewModel) fov() {
	if m.v.DebugIsometricFOV == 0 {
		m.v.DebugIsometricFOV = 8
	}
}

func (m *viewModel) apply(e winEvent) {
	switch e.Kind {
	case "size":
		m.v.Width, m.v.Height = e.W, e.H
	case "key":
		if e.Dir != dirPress {
			return
		}
		shift := e.Mod&modShift != 0
		vert := func(z float64) {
			if shift {
				m.move(Vec{0, -z, 0})
			} else {
				m.move(Vec{0, 0, z})
			}
		}
		iso := func(k int) {
			if m.v.DebugIsometric && m.v.DebugIsometricDir == k {
				m.v.DebugIsometric = false
			} else {
				m.v.DebugIsometric = true
			}
			m.v.DebugIsometricDir = k
			m.fov()
		}
		switch e.Code {
		case keyLeft, keyS:
			m.move(Vec{-1, 0, 0})
		case keyRight, keyF:
			m.move(Vec{1, 0, 0})
		case keyUp, keyE:
			vert(-1)
		case keyDown, keyD:
			vert(1)
		case keySpace:
			m.move(Vec{0, 1, 0})
		case keyX:
			iso(0)
		case keyY:
			iso(1)
		case keyZ:
			iso(2)
		case keyP:
			m.paused = !m.paused
		case keyN:
			m.v.DebugNormals = (m.v.DebugNormals + 1) % (api.SpecMaxDebugNormals + 1)
		}
	case "mouse":
		if e.Dir == dirPress && e.Button == btnLeft {
			m.held = true
		}
		if e.Dir == dirRelease && e.Button == btnLeft {
			m.held = false
		}
		if m.held {
			m.v.CamYaw += 0.005 * float64(e.X-m.x)
			m.v.CamPitch = math.Max(-math.Pi/2, math.Min(math.Pi/2, m.v.CamPitch+0.005*float64(e.Y-m.y)))
		}
		m.x, m.y = e.X, e.Y
		if e.Dir == dirStep {
			shift := e.Mod&modShift != 0
			switch {
			case m.v.DebugIsometric && e.Button == wheelUp:
				m.v.DebugIsometricFOV /= math.Sqrt2
			case m.v.DebugIsometric && e.Button == wheelDown:
				m.v.DebugIsometricFOV *= math.Sqrt2
			case m.v.DebugIsometric:
			case e.Button == wheelUp && shift:
				m.move(Vec{0, 1, 0})
			case e.Button == wheelUp:
				m.move(Vec{0, 0, -1})
			case e.Button == wheelDown && shift:
				m.move(Vec{0, -1, 0})
			case e.Button == wheelDown:
				m.move(Vec{0, 0, 1})
			case e.Button == wheelLeft:
				m.move(Vec{-1, 0, 0})
			case e.Button == wheelRight:
				m.move(Vec{1, 0, 0})
			}
		}
	}
}

// sameCam ignores size and anti-aliasing.
// The isometric direction and field of view mean nothing when off.
func sameCam(a, b api.View) bool {
	near := func(x, y float64) bool { return math.Abs(x-y) <= 1e-6*(1+math.Abs(y)) }
	for i := range a.CamPos {
		if !near(a.CamPos[i], b.CamPos[i]) {
			return false
		}
	}
	if !near(a.CamYaw, b.CamYaw) || !near(a.CamPitch, b.CamPitch) || a.DebugNormals != b.DebugNormals || a.DebugIsometric != b.DebugIsometric {
		return false
	}
	return !a.DebugIsometric || a.DebugIsometricDir == b.DebugIsometricDir && near(a.DebugIsometricFOV, b.DebugIsometricFOV)
}

// sameView is for states of the model.
func sameView(a, b api.View) bool { return sameCam(a, b) && a.Width == b.Width && a.Height == b.Height }

// reqOf tells if request r is for state v, and at what fraction of the size.
func reqOf(r *viewReq, v api.View) (div int, ok bool) {
	if !sameCam(r.view, v) {
		return 0, false
	}
	if r.preview {
		return 8, r.view.Width == v.Width/8 && r.view.Height == v.Height/8
	}
	for div := 1; div <= 8; div *= 2 {
		if r.view.Width == v.Width/div && r.view.Height == v.Height/div {
			return div, true
		}
	}
	return 0, false
}

// ---- scripted server ----

type viewReq struct {
	seq      int
	preview  bool
	view     api.View
	stalls   bool
	canceled chan struct{} // closed by /cancel
	gone     bool          // canceled or answered
	wasCanc  bool
	timedOut bool
}

type viewServer struct {
	mu       sync.Mutex
	c        *C // random choices, under mu
	reqs     []*viewReq
	flying   *viewReq
	problems []string
	stall    bool
	errors   bool // may fail previews
	failed   int  // number of failed previews
	canc     int
	wanted   *api.View // last preview, nil if canceled since
}

var idLevels = [6]int{30, 70, 110, 150, 190, 230}

func idColor(id int) Color {
	ch := func(l int) float64 {
		s := float64(l) / 255
		return math.Pow((s+0.055)/1.055, 2.4)
	}
	return Color{R: ch(idLevels[id%6]), G: ch(idLevels[id/6%6]), B: ch(idLevels[id/36%6])}
}

func idImage(id, w, h int) imagef.Image {
	m := imagef.MakeImage(w, h)
	k := idColor(id)
	for y := range m {
		for x := range m[y] {
			switch {
			case y == h-1:
				m[y][x] = Color{R: 1, G: 1, B: 1}
			case x == w-1:
				m[y][x] = Color{}
			default:
				m[y][x] = k
			}
		}
	}
	return m
}

func nearRGB(a, b [3]int) bool {
	for i := range a {
		if a[i] > b[i]+12 || a[i] < b[i]-12 {
			return false
		}
	}
	return true
}

func (s *viewServer) problem(format string, x ...interface{}) {
	if len(s.problems) < 5 {
		s.problems = append(s.problems, fmt.Sprintf(format, x...))
	}
}

func (s *viewServer) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	path := r.URL.Path
	s.mu.Lock()
	if path == "/cancel" {
		s.canc++
		s.wanted = nil
		if f := s.flying; f != nil && !f.gone {
			f.gone, f.wasCanc = true, true
			close(f.canceled)
		}
		d := time.Duration(0)
		if s.c.Intn(4) == 0 {
			d = time.Duration(s.c.Intn(30)) * time.Millisecond
		}
		s.mu.Unlock()
		time.Sleep(d)
		return
	}
	var v api.View
	err := json.NewDecoder(r.Body).Decode(&v)
	if err != nil || path != "/preview" && path != "/bake" {
		s.problem("bad request %v: %v", path, err)
		s.mu.Unlock()
		http.Error(w, "bad request", 400)
		return
	}
	q := &viewReq{seq: len(s.reqs), preview: path == "/preview", view: v, canceled: make(chan struct{})}
	s.reqs = append(s.reqs, q)
	fail, empty := false, false
	delay := time.Duration(s.c.Intn(20)) * time.Millisecond
	late := time.Duration(0)
	if s.c.Intn(3) == 0 {
		delay *= 5
	}
	if q.preview {
		s.wanted = &v
		if s.errors && s.c.Intn(6) == 0 {
			fail = true
			s.failed++
		}
	} else {
		if s.flying != nil {
			s.problem("bake requested while another one, of %+v, is still being answered", s.flying.view)
		}
		s.flying = q
		switch s.c.Intn(10) {
		case 0:
			fail = true
		case 1:
			empty = true
		}
		if s.c.Intn(3) == 0 {
			late = time.Duration(s.c.Intn(100)) * time.Millisecond
		}
		if s.stall && s.wanted != nil && sameCam(*s.wanted, v) {
			q.stalls = true
			delay = 40 * time.Second
		}
	}
	s.mu.Unlock()

	timer := time.NewTimer(delay)
	defer timer.Stop()
	select {
	case <-q.canceled:
		// the result may still come, or not, or late
		time.Sleep(late)
	case <-timer.C:
		q.timedOut = q.stalls
	}
	if !q.preview {
		s.mu.Lock()
		q.gone = true
		if s.flying == q {
			s.flying = nil
		}
		s.mu.Unlock()
	}
	switch {
	case fail:
		http.Error(w, "injected failure", 500)
	case empty:
		gob.NewEncoder(w).Encode(imagef.Image{})
	default:
		gob.NewEncoder(w).Encode(idImage(q.seq%216, v.Width, v.Height))
	}
}

// ---- process ----

type published struct {
	W, H    int
	Main    [3]int
	Uniform bool
	Bottom  [3]int
	Right   [3]int
	Misuse  string
	seq     int // request that is shown, -1: placeholder
}

type viewProc struct {
	mu    sync.Mutex
	shown []published
	in    io.WriteCloser
	dead  chan error
}

func viewHistory(c *C, bin, dir string, large bool) {
	srv := &viewServer{c: &C{Rand: rand.New(rand.NewSource(c.Int63())), t: c.t, cnt: map[string]int64{}}}
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	hs := &http.Server{Handler: srv}
	go hs.Serve(ln)
	defer hs.Close()

	cmd := exec.Command(bin, "-addr", ln.Addr().String())
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=66")
	var errMu sync.Mutex
	var stderr strings.Builder
	cmd.Stderr = lockedWriter{&errMu, &stderr}
	p := &viewProc{dead: make(chan error, 1)}
	p.in, err = cmd.StdinPipe()
	must(err)
	out, err := cmd.StdoutPipe()
	must(err)
	must(cmd.Start())
	defer cmd.Process.Kill()
	var other strings.Builder // prints of the viewer itself
	go func() {
		sc := bufio.NewScanner(out)
		for sc.Scan() {
			l := sc.Text()
			var o published
			pub := strings.HasPrefix(l, "PUB ")
			if pub {
				must(json.Unmarshal([]byte(l[4:]), &o))
				srv.identify(&o)
			}
			p.mu.Lock()
			if pub {
				p.shown = append(p.shown, o)
			} else if other.Len() < 10000 {
				other.WriteString(l + "\n")
			}
			p.mu.Unlock()
		}
		p.dead <- cmd.Wait()
	}()

	m := viewModel{v: api.View{Width: 32, Height: 32}}
	var history []string
	failed := false
	fail := func(format string, x ...interface{}) {
		if failed {
			return
		}
		failed = true
		errMu.Lock()
		defer errMu.Unlock()
		srv.mu.Lock()
		defer srv.mu.Unlock()
		p.mu.Lock()
		defer p.mu.Unlock()
		var log []string
		for i := maxi(0, len(srv.reqs)-12); i < len(srv.reqs); i++ {
			r := srv.reqs[i]
			log = append(log, fmt.Sprintf("request %d preview=%v canceled=%v stalls=%v %+v", r.seq, r.preview, r.wasCanc, r.stalls, r.view))
		}
		for i := maxi(0, len(p.shown)-12); i < len(p.shown); i++ {
			log = append(log, fmt.Sprintf("shown %+v", p.shown[i]))
		}
		c.Failf("%s\n  events: %v\n  wanted view: %+v held=%v paused=%v\n  %s\n  stderr: %s\n  stdout: %s", fmt.Sprintf(format, x...),
			strings.Join(history[maxi(0, len(history)-2):], " | "), m.v, m.held, m.paused, strings.Join(log, "\n  "), tail(stderr.String(), 6000), other.String())
	}
	send := func(es ...winEvent) {
		var buf []byte
		for _, e := range es {
			b, err := json.Marshal(e)
			must(err)
			buf = append(append(buf, b...), '\n')
		}
		p.in.Write(buf)
	}
	deadline := func(what string, ok func() bool) bool {
		for k := 0; k < 12000; k++ {
			if ok() {
				return true
			}
			select {
			case err := <-p.dead:
				fail("the viewer ended (%v) while waiting for: %s", err, what)
				return false
			default:
			}
			heartbeat(c.Name)
			time.Sleep(5 * time.Millisecond)
		}
		fail("does not come: %s", what)
		return false
	}
	last := func() (o published, q *viewReq, n int) {
		srv.mu.Lock()
		defer srv.mu.Unlock()
		p.mu.Lock()
		defer p.mu.Unlock()
		n = len(p.shown)
		if n == 0 {
			return published{seq: -2}, nil, 0
		}
		o = p.shown[n-1]
		if o.seq >= 0 {
			q = srv.reqs[o.seq]
		}
		return o, q, n
	}

	states := []api.View{m.v} // since the last convergence
	all := states             // ever
	var previewed []api.View  // views of all previews requested
	baked := 0                // index in previewed, last bake requested
	var lastBake *viewReq
	firstReq, firstShown := 0, 0
	stalls := false

	// waits until the picture that belongs to the last view is there, then judges all that happened since the last time.
	converge := func() bool {
		final := states[len(states)-1]
		settled := m
		var ok bool
		switch {
		case m.held || m.paused:
			ok = deadline("preview of the last view, on the window", func() bool {
				o, q, _ := last()
				return q != nil && q.preview && is(q, final) && o.W == final.Width && o.H == final.Height
			})
		case stalls:
			ok = deadline("preview of the last view, on the window, and a request to bake it", func() bool {
				o, q, _ := last()
				if !(q != nil && q.preview && is(q, final) && o.W == final.Width && o.H == final.Height) {
					return false
				}
				srv.mu.Lock()
				defer srv.mu.Unlock()
				return srv.flying != nil && srv.flying.stalls && !srv.flying.gone && is(srv.flying, final)
			})
		default:
			ok = deadline("full resolution anti-aliased image of the last view, on the window", func() bool {
				o, q, _ := last()
				return q != nil && !q.preview && q.view.AntiAlias && q.view.Width == final.Width && q.view.Height == final.Height && is(q, final) && o.W == final.Width && o.H == final.Height
			})
		}
		if !ok {
			return false
		}
		_, _, nconv := last()
		time.Sleep(time.Duration(c.Intn(150)) * time.Millisecond)
		if (m.held || m.paused) && c.Intn(2) == 0 {
			// must be drawn again when asked for
			_, _, n0 := last()
			switch c.Intn(3) { // maybe along with other events
			case 0:
				send(winEvent{Kind: "paint"})
			case 1:
				send(winEvent{Kind: "paint"}, winEvent{Kind: "lifecycle", From: stageVis, To: stageFocu}, winEvent{Kind: "other"})
			case 2:
				send(winEvent{Kind: "paint"}, winEvent{Kind: "other"}, winEvent{Kind: "key", Code: keyE, Dir: dirRelease})
			}
			if !deadline("picture again, after a paint event", func() bool { _, _, n := last(); return n > n0 }) {
				return false
			}
		}
		_, _, nshown := last()
		srv.mu.Lock()
		reqs := append([]*viewReq{}, srv.reqs...)
		srv.mu.Unlock()
		p.mu.Lock()
		shown := append([]published{}, p.shown...)
		p.mu.Unlock()

		// previews and bakes are for views that the user made, each in that order
		// (a bake is requested in the background, a later preview may overtake it).
		k := 0
		for _, q := range reqs[firstReq:] {
			c.Eval(1)
			if q.preview {
				k0 := k
				for k < len(states) && !is(q, states[k]) {
					k++
				}
				if k == len(states) {
					fail("requests a view that the user did not make (or an older one again): request %d %+v\n%d views since last time: %+v", q.seq, q.view, len(states)-k0, states[k0:mini(k0+20, len(states))])
					return false
				}
				c.Count("previews requested", 1)
				previewed = append(previewed, states[k])
				if q.view.AntiAlias {
					fail("anti-aliased preview: request %d", q.seq)
				}
				continue
			}
			c.Count("bakes requested", 1)
			before := baked
			for baked < len(previewed) && !is(q, previewed[baked]) {
				baked++
			}
			if baked == len(previewed) {
				fail("bake of a view that has had no preview, or of an older view again: request %d %+v", q.seq, q.view)
				return false
			}
			div, _ := reqOf(q, previewed[baked])
			if baked != before && div < 4 {
				fail("first refinement of a new view is already at 1/%d of the size: request %d", div, q.seq)
			}
			if q.view.AntiAlias != (div == 1) {
				fail("anti-aliasing is for full resolution only: request %d", q.seq)
			}
			if lastBake != nil && sameCam(lastBake.view, q.view) && is(q, final) && is(lastBake, final) && q.view.Width < lastBake.view.Width {
				fail("resolution goes down for the same view: request %d", q.seq)
			}
			lastBake = q
			if (settled.held || settled.paused) && is(q, final) {
				fail("bakes while dragging or paused: request %d", q.seq)
			}
		}
		// shown: the newest at any time
		prev := -1
		for i, o := range shown[:nshown] {
			c.Eval(1)
			if i >= firstShown {
				c.Count("published", 1)
			}
			if o.Misuse != "" {
				fail("%s", o.Misuse)
			}
			if o.seq == -2 {
				fail("shows a picture that is none of the server's: %+v", o)
			}
			if o.seq == -1 {
				srv.mu.Lock()
				nf := srv.failed
				srv.mu.Unlock()
				if nf == 0 {
					fail("shows the placeholder though no preview failed: %+v", o)
				}
				continue
			}
			if o.seq < prev {
				fail("shows an outdated picture: request %d after %d", o.seq, prev)
			}
			prev = o.seq
			if i >= nconv {
				q := reqs[o.seq]
				if !is(q, final) || !m.held && !m.paused && !stalls && !q.view.AntiAlias {
					fail("went back to an older picture: request %d", o.seq)
				}
			}
		}
		firstReq, firstShown = len(reqs), nshown
		c.Count("bursts judged", 1)
		c.Distinct(c.Name, len(history), final)
		srv.mu.Lock()
		for _, s := range srv.problems {
			srv.mu.Unlock()
			fail("%s", s)
			srv.mu.Lock()
		}
		srv.mu.Unlock()
		return !failed
	}
	if !converge() {
		return
	}
	if m.v.Width != 32 {
		panic("model")
	}

	// random user input
	var burst []winEvent
	do := func(e winEvent) {
		m.apply(e)
		burst = append(burst, e)
		states = append(states, m.v)
		all = append(all, m.v)
	}
	mod := func() int { return c.Intn(2) * modShift }
	key := func(code, mod int) {
		do(winEvent{Kind: "key", Code: code, Dir: dirPress, Mod: mod})
		if c.Intn(2) == 0 {
			do(winEvent{Kind: "key", Code: code, Dir: dirRelease, Mod: mod})
		}
	}
	mouse := func(x, y float32, dir, button int) {
		do(winEvent{Kind: "mouse", X: x, Y: y, Dir: dir, Button: button})
	}
	motion := func() {
		x, y := float32(c.Intn(400)), float32(c.Intn(400))
		if c.Intn(6) == 0 {
			y = m.y + float32(c.Intn(2000)-1000)
		}
		b := 0
		if m.held {
			b = c.Intn(2)
		}
		mouse(x, y, dirNone, b)
	}
	movers := []int{keyD, keyE, keyF, keyS, keySpace, keyRight, keyLeft, keyDown, keyUp}
	random := func() {
		switch c.Intn(9) {
		case 0:
			key([]int{keyX, keyY, keyZ}[c.Intn(3)], 0)
		case 1:
			key(keyN, 0)
		case 2:
			do(winEvent{Kind: "mouse", X: m.x, Y: m.y, Dir: dirStep, Button: []int{wheelUp, wheelDown, wheelLeft, wheelRight}[c.Intn(4)], Mod: mod()})
		case 3, 4:
			motion()
		case 5:
			switch c.Intn(6) {
			case 0, 1:
				w, h := 32+c.Intn(120), 32+c.Intn(120)
				if large {
					w, h = 900+c.Intn(500), 700+c.Intn(500)
				}
				do(winEvent{Kind: "size", W: w, H: h})
			case 2:
				do(winEvent{Kind: "paint"})
			case 3:
				do(winEvent{Kind: "lifecycle", From: stageVis, To: stageFocu})
			case 4:
				do(winEvent{Kind: "key", Code: 4, Dir: dirPress})
			case 5:
				if !m.held {
					b := btnMiddle + c.Intn(2)
					mouse(m.x, m.y, dirPress, b)
					motion()
					mouse(m.x, m.y, dirRelease, b)
				}
			}
		case 6:
			key(movers[c.Intn(len(movers))], mod())
		default:
			key(movers[c.Intn(len(movers))], 0)
		}
	}
	changeMode := func(held, paused bool) {
		if m.held != held {
			motion()
			dir := dirPress
			if m.held {
				dir = dirRelease
			}
			mouse(m.x, m.y, dir, btnLeft)
		}
		if m.paused != paused {
			key(keyP, mod())
		}
	}
	finalMove := func() {
		if m.held && c.Intn(2) == 0 {
			motion()
			motion()
		}
		for n := 0; ; n++ {
			key(movers[(n/2)%len(movers)], 0)
			unique := true
			last := len(all) - 1
			for last > 0 && sameView(all[last-1], m.v) { // key release
				last--
			}
			for _, s := range all[:last] {
				if sameView(s, m.v) {
					unique = false
				}
			}
			if unique {
				return
			}
		}
	}
	send(winEvent{Kind: "lifecycle", From: stageAlive, To: stageVis})
	for phase := 0; phase < 8; phase++ {
		burst, states = nil, states[len(states)-1:]
		held, paused, stall := false, false, false
		switch c.Intn(6) {
		case 0:
			held = true
		case 1:
			paused = true
		case 2:
			stall = true
		case 3:
			held, paused = c.Intn(2) == 0, c.Intn(2) == 0
		}
		if large && phase%2 == 0 {
			do(winEvent{Kind: "size", W: 1100 + c.Intn(500), H: 1000 + c.Intn(300)})
			c.Count("large windows", 1)
		} else if phase == 0 && c.Intn(2) == 0 {
			do(winEvent{Kind: "size", W: 32 + c.Intn(120), H: 32 + c.Intn(120)})
		}
		n := c.Intn(4)
		if c.Intn(3) == 0 {
			n = c.Intn(40)
		}
		when := c.Intn(n + 1)
		for i := 0; i < n; i++ {
			if i == when {
				changeMode(held, paused)
			}
			if c.Intn(15) == 0 {
				changeMode(c.Intn(2) == 0, m.paused)
			}
			random()
		}
		changeMode(held, paused)
		finalMove()

		var stalled *viewReq
		srv.mu.Lock()
		if f := srv.flying; f != nil && f.stalls && !f.gone {
			stalled = f
		}
		srv.stall = stall
		srv.errors = !held && !paused && !stall && c.Intn(2) == 0
		srv.mu.Unlock()
		stalls = stall
		desc := fmt.Sprintf("phase %d held=%v paused=%v stall=%v:", phase, held, paused, stall)
		pace := c.Intn(3)
		for _, e := range burst {
			desc += fmt.Sprintf(" %+v", e)
		}
		history = append(history, desc)
		for _, e := range burst {
			send(e)
			switch pace {
			case 1:
				time.Sleep(time.Duration(c.Intn(3)) * time.Millisecond)
			case 2:
				time.Sleep(time.Duration(c.Intn(30)) * time.Millisecond)
			}
		}
		heartbeat(c.Name)
		if stalled != nil {
			if !deadline("cancellation of the bake that is no longer wanted", func() bool {
				srv.mu.Lock()
				defer srv.mu.Unlock()
				return stalled.gone
			}) {
				return
			}
			if stalled.timedOut {
				fail("bake that is no longer wanted is not canceled: request %d", stalled.seq)
				return
			}
			c.Count("stalled bakes canceled", 1)
		}
		if !converge() {
			return
		}
		if len(burst) > 10 && phase > 2 {
			c.Sample("%d events, %d requests, %d pictures shown, last view %+v", len(burst), len(srv.reqs), firstShown, m.v)
		}
	}

	// close
	srv.mu.Lock()
	var stalled *viewReq
	if f := srv.flying; f != nil && f.stalls && !f.gone {
		stalled = f
	}
	srv.mu.Unlock()
	send(winEvent{Kind: "lifecycle", From: stageFocu, To: stageDead})
	select {
	case err := <-p.dead:
		if err != nil {
			fail("closing the window: %v", err)
		}
	case <-time.After(60 * time.Second):
		fail("does not end when the window is closed")
		return
	}
	srv.mu.Lock()
	bad := stalled != nil && !stalled.wasCanc
	srv.mu.Unlock()
	if bad {
		fail("closing the window does not cancel the bake")
	}
	errMu.Lock()
	race := strings.Contains(stderr.String(), "DATA RACE")
	errMu.Unlock()
	if race {
		fail("data race")
	}
	c.Count("viewers closed", 1)
}

func is(q *viewReq, v api.View) bool { _, ok := reqOf(q, v); return ok }

// identify finds out which request the picture in the window answers.
func (s *viewServer) identify(o *published) {
	s.mu.Lock()
	defer s.mu.Unlock()
	o.seq = -2
	if !o.Uniform {
		return
	}
	if nearRGB(o.Main, [3]int{0, 0, 255}) {
		if nearRGB(o.Bottom, o.Main) && nearRGB(o.Right, o.Main) {
			o.seq = -1
		}
		return
	}
	if !nearRGB(o.Bottom, [3]int{255, 255, 255}) || !nearRGB(o.Right, [3]int{}) {
		return
	}
	id, mul := 0, 1
	for _, v := range o.Main {
		k := -1
		for j, l := range idLevels {
			if v >= l-12 && v <= l+12 {
				k = j
			}
		}
		if k < 0 {
			return
		}
		id += k * mul
		mul *= 6
	}
	for i := len(s.reqs) - 1; i >= 0; i-- {
		if i%216 == id {
			o.seq = i
			return
		}
	}
}

func maxi(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func mini(a, b int) int {
	if a < b {
		return a
	}
	return b
}
