package main

// Rendering to files: api.Render and api.Animate as real processes (C29).

import (
	"bufio"
	"bytes"
	"fmt"
	"image"
	_ "image/jpeg"
	_ "image/png"
	"math"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync/atomic"

	"github.com/barnex/bruteray/api"
	"github.com/barnex/bruteray/imagef"
	"github.com/barnex/bruteray/imagef/post"
	"github.com/barnex/bruteray/texture"
	"github.com/barnex/bruteray/tracer"
	"github.com/barnex/bruteray/tracer/cameras"
	"github.com/barnex/bruteray/tracer/materials"
	"github.com/barnex/bruteray/tracer/objects"
)

// mosaic is a picture that has one color per pixel, as seen by a projective camera:
// the image does not depend on the number or position of the samples within the pixel.
type mosaic struct {
	w, h int
	pix  imagef.Image
	fov  float64
}

func newMosaic(seed int64, smooth bool) mosaic {
	r := rand.New(rand.NewSource(seed))
	m := mosaic{w: 1 + r.Intn(40), fov: uni(r, 0.4, 2)}
	if seed%19 == 0 { // large
		m.w = 100 + r.Intn(500)
	}
	m.h = m.w + r.Intn(30)
	m.pix = imagef.MakeImage(m.w, m.h)
	f := smoothTex(r)
	for y := range m.pix {
		for x := range m.pix[y] {
			if smooth {
				m.pix[y][x] = f(Vec{float64(x) / 48, float64(y) / 48, 0}) // slow, also for small images: JPEG blurs colors
			} else {
				m.pix[y][x] = cmul(1.2, Color{R: r.Float64(), G: r.Float64(), B: r.Float64()})
			}
		}
	}
	return m
}

// countScale makes the k-th sample of a pixel k+1 times as bright (divided by twice the
// number of passes that are asked for), so that the picture tells how many samples it is made of.
func countScale(samples, passes int) float64 { return float64(samples+1) / float64(4*passes) }

func (m mosaic) spec(countPasses int) api.Spec {
	seen := make([]int64, m.w*m.h)
	f := 0.5 / math.Tan(m.fov/2)
	return api.Spec{
		Width: m.w, Height: m.h, Recursion: 1,
		Camera: cameras.Projective(m.fov),
		Objects: []api.Object{{Interface: objects.Backdrop(materials.Flat(texture.Func(func(d Vec) Color {
			u, v := 0.5-f*d[0]/d[2], 0.5-f*d[1]/d[2]
			x, y := pixOf(m.w, m.h, u, v)
			x, y = clampi(x, 0, m.w-1), clampi(y, 0, m.h-1)
			p := m.pix[y][x]
			if countPasses > 0 {
				p = cmul(float64(atomic.AddInt64(&seen[y*m.w+x], 1))/float64(2*countPasses), p)
			}
			return p
		})))}},
	}
}

type counted struct {
	tracer.Camera
	w, h   int
	n, off int64 // samples taken, those not in the center of the pixel
}

func (k *counted) RayFrom(ctx *tracer.Ctx, u, v float64) *Ray {
	atomic.AddInt64(&k.n, 1)
	x, y := pixOf(k.w, k.h, u, v)
	if cu, cv := tracer.IndexToCam(k.w, k.h, float64(x), float64(y)); math.Hypot(u-cu, v-cv) > 1e-3/float64(k.w) {
		atomic.AddInt64(&k.off, 1)
	}
	return k.Camera.RayFrom(ctx, u, v)
}

func atoi(s string) int64 {
	n, err := strconv.ParseInt(s, 10, 64)
	must(err)
	return n
}

func init() {
	// render SEED SMOOTH PASSES BLOOM COUNT flags...
	subs["render"] = func(a []string) {
		m := newMosaic(atoi(a[0]), a[1] == "true")
		n := 0
		if a[4] == "true" {
			n = int(atoi(a[2]))
		}
		s := m.spec(n)
		s.NumPass = int(atoi(a[2]))
		if a[3] == "true" {
			s.PostProcess = cliBloom()
		}
		os.Args = append([]string{"render"}, a[5:]...)
		k := &counted{Camera: s.Camera, w: s.Width, h: s.Height}
		s.Camera = k
		api.Render(s)
		fmt.Println("SAMPLES", k.n, k.off)
	}
	// animate SEED FRAMES PASSES flags...
	subs["animate"] = func(a []string) {
		os.Args = append([]string{"animate"}, a[3:]...)
		var cams []*counted
		defer func() {
			for _, k := range cams {
				fmt.Println("SAMPLES", k.n, k.off)
			}
		}()
		api.Animate(int(atoi(a[1])), func(frame int) api.Spec {
			fmt.Fprintln(os.Stderr, "ASKED FOR FRAME", frame)
			m := newMosaic(atoi(a[0])+int64(frame), true)
			s := m.spec(0)
			s.NumPass = int(atoi(a[2]))
			s.Camera = &counted{Camera: s.Camera, w: s.Width, h: s.Height}
			cams = append(cams, s.Camera.(*counted))
			return s
		})
	}
	register(&Check{
		ID:    "C29",
		Level: "fault_enumeration",
		Rule:  "real processes calling api.Render and api.Animate with random pictures, passes, post-processing, output names and formats, in scratch directories; files read back and compared with the picture; faults: full device for either output, missing directory, unknown format; non-trivial: (picture, flags) with all output files judged, or fault",
		Run: func(t *T) {
			t.Cases("render", t.N(3, 60), renderCase)
			t.Cases("animate", t.N(2, 20), animateCase)
			t.Cases("film", 2, longAnimation)
			t.Cases("fault", t.N(2, 10), outputFaults)
			t.Require("files judged", 40)
			t.Require("faults reported", 20)
		},
	})
}

func cliBloom() post.Params {
	return post.Params{Gaussian: post.BloomParams{Radius: 0.05, Amplitude: 0.3, Threshold: 0.6}}
}

func runSub(dir string, args ...string) (string, error) {
	self, err := os.Executable()
	must(err)
	cmd := exec.Command(self, append([]string{"sub"}, args...)...)
	cmd.Dir = dir
	out, err := cmd.CombinedOutput()
	return string(out), err
}

func srgbNear(got, lin, tol float64) bool {
	return math.Abs(got-refToSRGB(lin)) <= tol || math.Abs(got-knownToSRGB(lin)) <= tol
}

// judgeFile compares an image file to the picture.
func judgeFile(c *C, what, fname string, want imagef.Image) {
	c.Eval(1)
	b, err := os.ReadFile(fname)
	if err != nil {
		c.Failf("%s: %v", what, err)
		return
	}
	if bytes.Contains(b, []byte("old old old old")) {
		c.Failf("%s: the file still has parts of an older one", what)
		return
	}
	w, h := want.Size()
	if filepath.Ext(fname) == ".ppm" {
		judgePPM(c, what, b, want)
		return
	}
	img, format, err := image.Decode(bytes.NewReader(b))
	if err != nil {
		c.Failf("%s: %v", what, err)
		return
	}
	tol := 2.0 / 255
	if format == "jpeg" {
		tol = 0.09
	}
	if ext := filepath.Ext(fname); (ext == ".png") != (format == "png") {
		c.Failf("%s: file with extension %s is a %s", what, ext, format)
	}
	if img.Bounds().Dx() != w || img.Bounds().Dy() != h {
		c.Failf("%s: image is %v, want %dx%d", what, img.Bounds(), w, h)
		return
	}
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			r, g, b, a := img.At(x+img.Bounds().Min.X, y+img.Bounds().Min.Y).RGBA()
			p := want[y][x]
			for i, s := range []struct {
				got uint32
				lin float64
			}{{r, p.R}, {g, p.G}, {b, p.B}} {
				if !srgbNear(float64(s.got)/65535, s.lin, tol) {
					c.Failf("%s: pixel %d,%d component %d is %v, want %v (linear %v)", what, x, y, i, float64(s.got)/65535, refToSRGB(s.lin), s.lin)
					return
				}
			}
			if a != 65535 {
				c.Failf("%s: pixel %d,%d has alpha %v", what, x, y, a)
				return
			}
		}
	}
	c.Count("files judged", 1)
}

func judgePPM(c *C, what string, b []byte, want imagef.Image) {
	sc := bufio.NewScanner(bytes.NewReader(b))
	sc.Buffer(make([]byte, 1<<20), 1<<24)
	sc.Split(bufio.ScanWords)
	next := func() string {
		sc.Scan()
		return sc.Text()
	}
	w, h := want.Size()
	if head := strings.Join([]string{next(), next(), next()}, " "); head != fmt.Sprintf("P3 %d %d", w, h) {
		c.Failf("%s: header %q, want P3 %d %d", what, head, w, h)
		return
	}
	max := float64(atoi(next()))
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			p := want[y][x]
			for i, lin := range []float64{p.R, p.G, p.B} {
				s := next()
				n, err := strconv.Atoi(s)
				if err != nil {
					c.Failf("%s: pixel %d,%d: %q", what, x, y, s)
					return
				}
				if !srgbNear(float64(n)/max, lin, 1e-4) {
					c.Failf("%s: pixel %d,%d component %d is %v of %v, want %v", what, x, y, i, n, max, refToSRGB(lin))
					return
				}
			}
		}
	}
	if s := next(); s != "" {
		c.Failf("%s: data after the last pixel: %q", what, s)
		return
	}
	c.Count("files judged", 1)
}

func renderCase(c *C, i int) {
	dir := scratch(c)
	defer os.RemoveAll(dir)
	seed := c.Int63()
	ext := []string{".png", ".png", ".jpg", ".jpeg"}[c.Intn(4)]
	jpg := ext != ".png"
	m := newMosaic(seed, jpg)
	passes := 1 + c.Intn(7)
	if c.Intn(4) == 0 {
		passes = 1 + c.Intn(60)
	}
	if i == 0 {
		passes = 0 // default
	}
	bloom := c.Intn(3) == 0 && m.w < 100
	count := passes > 0 && c.Intn(2) == 0
	name := []string{"out", "a", "x.y", "out-1", "with space", "sub/pic"}[c.Intn(6)]
	must(os.MkdirAll(filepath.Join(dir, "sub"), 0777))
	flags := []string{"-o", name + ext}
	if jpg && c.Intn(4) == 0 {
		name, flags, ext = "out", nil, ".jpeg"
	}
	if c.Intn(2) == 0 {
		// longer, older output must vanish
		old := bytes.Repeat([]byte("old "), 100000)
		must(os.WriteFile(filepath.Join(dir, name+ext), old, 0666))
		must(os.WriteFile(filepath.Join(dir, name+".ppm"), old, 0666))
	}
	out, err := runSub(dir, append([]string{"render", fmt.Sprint(seed), fmt.Sprint(jpg), fmt.Sprint(passes), fmt.Sprint(bloom), fmt.Sprint(count)}, flags...)...)
	what := fmt.Sprintf("%dx%d, %d passes, bloom %v, flags %q", m.w, m.h, passes, bloom, flags)
	if err != nil {
		c.Failf("%s: %v\n%s", what, err, out)
		return
	}
	want := copyImg(m.pix)
	if count {
		// the files show the mean of all samples that were taken
		var k int64
		for _, l := range strings.Split(out, "\n") {
			fmt.Sscanf(l, "SAMPLES %d", &k)
		}
		f := countScale(int(k)/(m.w*m.h), passes)
		for y := range want {
			for x := range want[y] {
				want[y][x] = cmul(f, want[y][x])
			}
		}
		c.Count("pictures of counted samples", 1)
	}
	if bloom {
		p := cliBloom()
		want = p.ApplyTo(want, 1/float64(m.w))
	}
	judgeFile(c, what+ext, filepath.Join(dir, name+ext), want)
	judgeFile(c, what+".ppm", filepath.Join(dir, name+".ppm"), want)
	judgeSamples(c, what, out, []mosaic{m}, passes)
	c.Distinct(what, seed)
	if i < 3 {
		c.Sample("%s", what)
	}
	// nothing else is written
	n := 0
	filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		if err == nil && info.Mode().IsRegular() {
			n++
		}
		return nil
	})
	if n != 2 {
		c.Failf("%s: left %d files", what, n)
	}
}

func animateCase(c *C, i int) { animation(c, 1+c.Intn(6), c.Intn(4)) }

func longAnimation(c *C, i int) { animation(c, 1001+c.Intn(5), 1) }

func animation(c *C, frames, passes int) {
	dir := scratch(c)
	defer os.RemoveAll(dir)
	seed := c.Int63() / 2
	name := "out"
	var flags []string
	if c.Intn(2) == 0 {
		name = []string{"film", "a.b", "f-1"}[c.Intn(3)]
		flags = []string{"-o", name + ".jpg"}
	}
	fdir := filepath.Join(dir, name+"-frames")
	if c.Intn(2) == 0 {
		must(os.Mkdir(fdir, 0777)) // from an earlier run
		old := bytes.Repeat([]byte("old "), 100000)
		must(os.WriteFile(filepath.Join(fdir, fmt.Sprintf("%05d.jpg", c.Intn(frames))), old, 0666))
		must(os.WriteFile(filepath.Join(fdir, "last.jpg"), old, 0666))
	}
	out, err := runSub(dir, append([]string{"animate", fmt.Sprint(seed), fmt.Sprint(frames), fmt.Sprint(passes)}, flags...)...)
	what := fmt.Sprintf("animation of %d frames, %d passes, flags %q", frames, passes, flags)
	if err != nil {
		c.Failf("%s: %v\n%s", what, err, out)
		return
	}
	asked := 0
	for _, l := range strings.Split(out, "\n") {
		if strings.HasPrefix(l, "ASKED FOR FRAME ") {
			if l != fmt.Sprintf("ASKED FOR FRAME %d", asked) {
				c.Failf("%s: %s, expected %d", what, l, asked)
			}
			asked++
		}
	}
	if asked != frames {
		c.Failf("%s: asked for %d frames", what, asked)
	}
	for f := 0; f < frames; f++ {
		judgeFile(c, fmt.Sprintf("%s: frame %d", what, f), filepath.Join(fdir, fmt.Sprintf("%05d.jpg", f)), newMosaic(seed+int64(f), true).pix)
	}
	judgeFile(c, what+": last.jpg", filepath.Join(fdir, "last.jpg"), newMosaic(seed+int64(frames-1), true).pix)
	var ms []mosaic
	for f := 0; f < frames; f++ {
		ms = append(ms, newMosaic(seed+int64(f), true))
	}
	judgeSamples(c, what, out, ms, passes)
	l, _ := os.ReadDir(fdir)
	if len(l) != frames+1 {
		c.Failf("%s: %d files in %s, want %d", what, len(l), fdir, frames+1)
	}
	c.Distinct(what, seed)
}

func outputFaults(c *C, i int) {
	dir := scratch(c)
	defer os.RemoveAll(dir)
	seed := c.Int63() / 2
	full := func(name string) { must(os.Symlink("/dev/full", filepath.Join(dir, name))) }
	base := []string{"render", fmt.Sprint(seed), "true", fmt.Sprint(1 + c.Intn(3)), "false", "false"}
	anim := []string{"animate", fmt.Sprint(seed), fmt.Sprint(1 + c.Intn(3)), "1"}
	faults := map[string]func() (string, error){
		"png on full device":  func() (string, error) { full("a.png"); return runSub(dir, append(base, "-o", "a.png")...) },
		"jpeg on full device": func() (string, error) { full("b.jpg"); return runSub(dir, append(base, "-o", "b.jpg")...) },
		"ppm on full device":  func() (string, error) { full("c.ppm"); return runSub(dir, append(base, "-o", "c.png")...) },
		"missing directory":   func() (string, error) { return runSub(dir, append(base, "-o", "nosuchdir/d.png")...) },
		"output is a directory": func() (string, error) {
			must(os.Mkdir(filepath.Join(dir, "e.png"), 0777))
			return runSub(dir, append(base, "-o", "e.png")...)
		},
		"unknown format":    func() (string, error) { return runSub(dir, append(base, "-o", "f.bmp")...) },
		"no format":         func() (string, error) { return runSub(dir, append(base, "-o", "g")...) },
		"animation nowhere": func() (string, error) { return runSub(dir, append(anim, "-o", "nosuchdir/d.png")...) },
		"animation on full device": func() (string, error) {
			must(os.Mkdir(filepath.Join(dir, "h-frames"), 0777))
			full(fmt.Sprintf("h-frames/%05d.jpg", 0))
			return runSub(dir, append(anim, "-o", "h.jpg")...)
		},
		"last picture on full device": func() (string, error) {
			must(os.Mkdir(filepath.Join(dir, "k-frames"), 0777))
			full("k-frames/last.jpg")
			return runSub(dir, append(anim, "-o", "k.jpg")...)
		},
		"file instead of directory":       func() (string, error) { return runSub(dir, append(base, "-o", "plainfile/d.png")...) },
		"animation below a file":          func() (string, error) { return runSub(dir, append(anim, "-o", "plainfile/d.png")...) },
		"file instead of frame directory": func() (string, error) { return runSub(dir, append(anim, "-o", "i.png")...) },
		"busy port":                       func() (string, error) { return runSub(dir, append(base, "-http", "256.0.0.1:99999")...) },
	}
	frame0 := fmt.Sprintf("%05d.jpg", 0)
	outputs := map[string][]string{ // proof that a fault was overcome
		"png on full device":          {"a.png", "a.ppm"},
		"jpeg on full device":         {"b.jpg", "b.ppm"},
		"ppm on full device":          {"c.png", "c.ppm"},
		"missing directory":           {"nosuchdir/d.png", "nosuchdir/d.ppm"},
		"animation nowhere":           {"nosuchdir/d-frames/" + frame0, "nosuchdir/d-frames/last.jpg"},
		"animation on full device":    {"h-frames/" + frame0, "h-frames/last.jpg"},
		"last picture on full device": {"k-frames/" + frame0, "k-frames/last.jpg"},
	}
	must(os.WriteFile(filepath.Join(dir, "plainfile"), []byte("hello"), 0666))
	must(os.WriteFile(filepath.Join(dir, "i-frames"), []byte("hello"), 0666))
	for name, f := range faults {
		out, err := f()
		c.Eval(1)
		c.Distinct(name)
		if _, ok := err.(*exec.ExitError); !ok {
			if written(dir, outputs[name]) {
				c.Count("faults overcome", 1) // e.g. made the missing directory
				continue
			}
			c.Failf("%s: the process reports success\n%s", name, out)
			continue
		}
		if strings.Contains(out, "panic:") || strings.Contains(out, "DATA RACE") {
			c.Failf("%s: crash\n%s", name, out)
			continue
		}
		c.Count("faults reported", 1)
	}
}

// written tells if all files are there, as regular files with something in them.
func written(dir string, files []string) bool {
	for _, f := range files {
		info, err := os.Stat(filepath.Join(dir, f))
		if err != nil || !info.Mode().IsRegular() || info.Size() == 0 {
			return false
		}
	}
	return len(files) > 0
}

// Every picture must have been sampled at least the asked for number of times,
// and not many more (Render works in batches). Unless there is only one sample,
// they are spread over the pixel.
func judgeSamples(c *C, what, out string, ms []mosaic, passes int) {
	if passes == 0 {
		passes = 1
	}
	n := 0
	for _, l := range strings.Split(out, "\n") {
		var k, off int64
		if _, err := fmt.Sscanf(l, "SAMPLES %d %d", &k, &off); err == nil {
			if n < len(ms) {
				pix := int64(ms[n].w * ms[n].h)
				if k < pix*int64(passes) || k > pix*int64(2*passes) {
					c.Failf("%s: picture %d of %dx%d pixels took %d samples for %d passes", what, n, ms[n].w, ms[n].h, k, passes)
				}
				if passes > 1 && off < pix*int64(passes-1)*9/10 {
					c.Failf("%s: picture %d of %dx%d pixels is not anti-aliased: only %d of %d samples are off center", what, n, ms[n].w, ms[n].h, off, k)
				}
			}
			c.Count("samples taken", int(k))
			n++
		}
	}
	if n != len(ms) {
		c.Failf("%s: process ended early:\n%s", what, out)
	}
}
