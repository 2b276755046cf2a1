package main

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/barnex/bruteray/imagef"
	"github.com/barnex/bruteray/sampler"
	"github.com/barnex/bruteray/texture"
	"github.com/barnex/bruteray/tracer"
	"github.com/barnex/bruteray/tracer/cameras"
	"github.com/barnex/bruteray/tracer/lights"
	"github.com/barnex/bruteray/tracer/materials"
	"github.com/barnex/bruteray/tracer/media"
	"github.com/barnex/bruteray/tracer/objects"
)

// where pixel ix,iy of a w x h image lies on the sensor.
func pixCenter(w, h, ix, iy int) (u, v float64) {
	W, H := float64(w), float64(h)
	return (float64(ix) + 0.5) / W, 0.5 + (H/2-float64(iy)-0.5)/W
}

// inverse of pixCenter
func pixOf(w, h int, u, v float64) (ix, iy int) {
	W, H := float64(w), float64(h)
	return int(math.Floor(u * W)), int(math.Floor(H/2 - (v-0.5)*W))
}

func checkSize(c *C, img imagef.Image, w, h int) bool {
	if len(img) != h {
		c.Failf("image has %d rows, want %d", len(img), h)
		return false
	}
	for _, r := range img {
		if len(r) != w {
			c.Failf("image row has %d pixels, want %d", len(r), w)
			return false
		}
	}
	return true
}

func imgDiff(a, b imagef.Image) (max float64, where string) {
	if len(a) != len(b) {
		return math.Inf(1), "different size"
	}
	for y := range a {
		if len(a[y]) != len(b[y]) {
			return math.Inf(1), "different size"
		}
		for x := range a[y] {
			p, q := a[y][x], b[y][x]
			if p == q {
				continue
			}
			d := cdiff(p, q) / (1 + math.Abs(cmax(p)))
			if math.IsNaN(p.R+p.G+p.B) && math.IsNaN(q.R+q.G+q.B) {
				d = 0
			}
			if d > max {
				max, where = d, fmt.Sprintf("pixel %d,%d: %v vs %v", x, y, p, q)
			}
		}
	}
	return max, where
}

type ctxMonitor struct {
	mu   sync.Mutex
	busy map[*tracer.Ctx]bool
	seen map[*tracer.Ctx]bool
	over int64
}

func (m *ctxMonitor) enter(ctx *tracer.Ctx) {
	m.mu.Lock()
	if m.busy[ctx] {
		m.over++
	}
	m.busy[ctx] = true
	m.seen[ctx] = true
	m.mu.Unlock()
}
func (m *ctxMonitor) leave(ctx *tracer.Ctx) { m.mu.Lock(); m.busy[ctx] = false; m.mu.Unlock() }

var sizes = [][2]int{{1, 1}, {2, 1}, {1, 2}, {3, 5}, {15, 15}, {16, 16}, {17, 17}, {16, 17}, {17, 16}, {31, 33}, {33, 31}, {32, 32}, {1, 40}, {40, 1}, {64, 3}, {3, 64}, {15, 1}, {1, 16}, {1, 17}, {49, 48}, {48, 49}, {100, 17}, {65, 80}, {129, 7}}

func init() {
	register(&Check{
		ID:   "C08",
		Race: true,
		Rule: "real sampler over an instrumented image function: every call is logged with its pixel, then exactly-once per pixel and pass, mean, standard deviation and snapshot isolation are judged; sizes around tile boundaries, random pass splits, jittered timing, GOMAXPROCS 1..16, race detector on; non-trivial: (size, pass split) with more than one call",
		Run: func(t *T) {
			n := t.N(1, 4)
			for rep := 0; rep < n; rep++ {
				for si, sz := range sizes {
					w, h := sz[0], sz[1]
					if rep > 1 {
						r := rand.New(rand.NewSource(t.Seed + int64(rep*1000+si)))
						w, h = 1+r.Intn(70), 1+r.Intn(70)
					}
					t.Case(fmt.Sprintf("exactly-once-%dx%d-%d", w, h, rep), func(c *C) { exactlyOnce(c, w, h) })
				}
			}
			for i := 0; i < t.N(4, 40); i++ {
				t.Case(fmt.Sprintf("concurrent-scene#%d", i), concurrentScene)
			}
			t.Case("many-tiles", manyTiles)
			t.Require("pixels in large images", 1000)
			t.Case("many-passes", manyPasses)
			t.Require("concurrent scene pixels", 2000)
			t.Require("pixel evaluations", 10000)
			t.Require("contexts seen", 10)
		},
	})

	register(&Check{
		ID:   "C09",
		Race: true,
		Rule: "random scenes (all materials, lights, fog, recursion 1..2, pinhole cameras) rendered repeatedly with other core counts, pass splits, injected delays and concurrent renders of the same scene; non-trivial: distinct image with non-constant content",
		Run: func(t *T) {
			for i := 0; i < t.N(3, 20); i++ {
				t.Case(fmt.Sprintf("deterministic#%d", i), deterministic)
			}
			for i := 0; i < t.N(1, 4); i++ {
				t.Case(fmt.Sprintf("large#%d", i), deterministicLarge)
			}
			t.Require("large image comparisons", 3)
			t.Require("image comparisons", 60)
			t.Require("non-uniform images", 10)
		},
	})

	register(&Check{
		ID:   "C10",
		Rule: "all pixels of many image sizes: sensor position of samples recovered exactly from the running mean of a coordinate-valued image; non-trivial: pixel",
		Run: func(t *T) {
			t.Cases("mapping", t.N(40, 400), func(c *C, i int) {
				w, h := 1+c.Intn(300), 1+c.Intn(300)
				if i < len(sizes) {
					w, h = sizes[i][0], sizes[i][1]
				}
				for name, f := range map[string]func(w, h int, x, y float64) (float64, float64){"tracer": tracer.IndexToCam, "sampler": sampler.IndexToCam} {
					for k := 0; k < 50; k++ {
						ix, iy := c.Intn(w), c.Intn(h)
						switch k {
						case 0:
							ix, iy = 0, 0
						case 1:
							ix, iy = w-1, h-1
						case 2:
							ix, iy = 0, h-1
						}
						u, v := f(w, h, float64(ix), float64(iy))
						wu, wv := pixCenter(w, h, ix, iy)
						c.Eval(1)
						c.Distinct(w, h, ix, iy)
						if !(math.Abs(u-wu)+math.Abs(v-wv) < 1e-9) {
							c.Failf("%s: pixel %d,%d of %dx%d maps to %v,%v want %v,%v", name, ix, iy, w, h, u, v, wu, wv)
						}
					}
					// corners and outside
					u, v := f(w, h, -0.5, -0.5)
					if !(math.Abs(u) < 1e-9 && math.Abs(v-(0.5+0.5*float64(h)/float64(w))) < 1e-9) {
						c.Failf("%s: upper left corner maps to %v,%v", name, u, v)
					}
					for _, out := range [][2]float64{{-0.6, 0}, {0, -0.6}, {float64(w) - 0.4, 0}, {0, float64(h) - 0.4}, {float64(w), 0}, {0, float64(h)}} {
						if !panics(func() { f(w, h, out[0], out[1]) }) {
							c.Failf("%s: index %v outside %dx%d is accepted", name, out, w, h)
						}
					}
				}
				if ps := tracer.PixelSize(w, h); math.Abs(ps*math.Min(float64(w), float64(h))-1) > 1e-12 {
					c.Failf("pixel size of %dx%d is %v", w, h, ps)
				}
			})
			t.Cases("antialias", t.N(4, 20), func(c *C, i int) {
				w, h := 1+c.Intn(24), 1+c.Intn(24)
				if i < 5 {
					w, h = sizes[i*4][0], sizes[i*4][1]
				}
				antiAlias(c, w, h)
			})
			// images longer than 2^16 pixels
			t.Cases("long", t.N(2, 6), func(c *C, i int) {
				w, h := 66000+c.Intn(9000), 1+c.Intn(2)
				if i%2 == 1 {
					w, h = h, w
				}
				img := tracer.Uniform(func(ctx *tracer.Ctx, u, v float64) Color { return Color{R: u, G: v, B: 1} }, 1, w, h, false)
				if !checkSize(c, img, w, h) {
					return
				}
				for y := range img {
					for x, p := range img[y] {
						c.Eval(1)
						u, v := pixCenter(w, h, x, y)
						if !(math.Abs(p.R-u)+math.Abs(p.G-v) < 1e-9*(1+math.Abs(v)) && p.B == 1) {
							c.Failf("pixel %d,%d of %dx%d samples %v,%v, want %v,%v", x, y, w, h, p.R, p.G, u, v)
							return
						}
					}
				}
			})
			t.Require("anti-aliased pixels", 1000)
			t.Require("centered pixels", 1000)
		},
	})

	register(&Check{
		ID:   "C11",
		Rule: "random cameras (projective, aperture, environment map, isometric; random translate/rotate chains) x random sensor positions against closed-form rays; non-trivial: every ray",
		Run:  checkCameras,
	})

	register(&Check{
		ID:   "C12",
		Rule: "library materials wrapped in a monitor that watches recursion depth, the rays handed out by the context, and the caller's ray, in random scenes; plus closed-form series between parallel mirrors and in emitting enclosures; non-trivial: shading event at depth > 1",
		Run:  checkRecursion,
	})
}

func panics(f func()) (p bool) {
	defer func() {
		if recover() != nil {
			p = true
		}
	}()
	f()
	return
}

func jitter(r uint64) {
	switch r % 97 {
	case 0:
		runtime.Gosched()
	case 1:
		time.Sleep(time.Duration(r%1000) * time.Nanosecond)
	}
}

func sampleColor(seed uint64, pix, k int) Color {
	h := hash3(seed, uint64(pix), uint64(k))
	c := Color{R: float64(h%1000) / 100, G: float64((h/1000)%1000) / 10, B: float64((h / 1e6) % 1000)}
	switch (h >> 40) % 64 {
	case 0: // a firefly
		c = cmul(1e3, c)
	case 1:
		c = Color{}
	case 2:
		c.G = 0
	case 3: // user functions may return anything
		c.R = -c.R
	case 4:
		c.G, c.B = -c.G, -c.B
	}
	return c
}

func hash3(a, b, c uint64) uint64 {
	x := a*0x9E3779B97F4A7C15 + b*0xBF58476D1CE4E5B9 + c*0x94D049BB133111EB + 1
	for i := 0; i < 3; i++ {
		x ^= x >> 29
		x *= 0xBF58476D1CE4E5B9
		x ^= x >> 32
	}
	return x
}

func exactlyOnce(c *C, w, h int) {
	old := runtime.GOMAXPROCS(0)
	defer runtime.GOMAXPROCS(old)
	runtime.GOMAXPROCS([]int{1, 2, 8, 16}[c.Intn(4)])
	counts := make([]int64, w*h)
	seed := c.Uint64()
	mon := &ctxMonitor{busy: map[*tracer.Ctx]bool{}, seen: map[*tracer.Ctx]bool{}}
	var outside, running int64
	f := func(ctx *tracer.Ctx, u, v float64) Color {
		atomic.AddInt64(&running, 1)
		defer atomic.AddInt64(&running, -1)
		mon.enter(ctx)
		defer mon.leave(ctx)
		ix, iy := pixOf(w, h, u, v)
		if ix < 0 || iy < 0 || ix >= w || iy >= h {
			atomic.AddInt64(&outside, 1)
			return Color{}
		}
		p := iy*w + ix
		k := atomic.AddInt64(&counts[p], 1) - 1
		jitter(hash3(seed, uint64(p), uint64(k)))
		return sampleColor(seed, p, int(k))
	}
	s := tracer.NewSampler(f, w, h, false)
	total := 0
	var snaps []imagef.Image
	var copies []imagef.Image
	calls := 1 + c.Intn(4)
	var split []int
	for k := 0; k < calls; k++ {
		n := 1 + c.Intn(4)
		if w*h < 2000 && c.Intn(4) == 0 {
			n = 1 + c.Intn(40)
		}
		split = append(split, n)
		switch c.Intn(3) {
		case 0:
			s.SampleWithCancel(n, make(chan struct{}))
		default:
			s.Sample(n)
		}
		if r := atomic.LoadInt64(&running); r != 0 {
			c.Failf("%d samples still being evaluated after Sample returned", r)
		}
		total += n
		img := s.Image()
		if !checkSize(c, img, w, h) {
			return
		}
		snaps = append(snaps, img)
		copies = append(copies, copyImg(img))
		if c.Intn(2) == 0 { // the image is ours: nobody minds what we do to it
			x := s.Image()
			if total > 1 && c.Intn(2) == 0 {
				x = s.StdDev()
			}
			for iy := range x {
				for ix := range x[iy] {
					x[iy][ix] = Color{R: -7, G: 1e9, B: 3}
				}
			}
			c.Count("images overwritten", 1)
			if d, where := imgDiff(s.Image(), copies[len(copies)-1]); d != 0 {
				c.Failf("%dx%d: overwriting an image returned changes the next one: %s", w, h, where)
			}
		}
		var sd imagef.Image
		if total > 1 {
			sd = s.StdDev()
			if !checkSize(c, sd, w, h) {
				return
			}
		}
		for p := range counts {
			c.Count("pixel evaluations", n)
			if counts[p] != int64(total) {
				c.Failf("%dx%d split %v: pixel %d,%d evaluated %d times in %d passes", w, h, split, p%w, p/w, counts[p], total)
				return
			}
			var sum, sq Color
			for k := 0; k < total; k++ {
				x := sampleColor(seed, p, k)
				sum = cadd(sum, x)
				sq = cadd(sq, cmul3(x, x))
			}
			mean := cmul(1/float64(total), sum)
			if got := img[p/w][p%w]; !(cdiff(got, mean) < 1e-9*(1+math.Abs(mean.R)+math.Abs(mean.G)+math.Abs(mean.B)+math.Sqrt(cmax(sq)))) {
				c.Failf("%dx%d split %v: pixel %d,%d is %v, mean of its samples is %v", w, h, split, p%w, p/w, got, mean)
				return
			}
			if sd != nil {
				n := float64(total)
				va := func(s, q float64) float64 { return math.Sqrt(math.Max(0, (q-s*s/n)/(n-1))) }
				want := Color{R: va(sum.R, sq.R), G: va(sum.G, sq.G), B: va(sum.B, sq.B)}
				got := sd[p/w][p%w]
				near0 := func(g, w, m float64) bool {
					m = math.Abs(m) + w
					return math.Abs(g-w) < 1e-6*(1+m) || (math.IsNaN(g) && w < 1e-6*(1+m))
				}
				if !near0(got.R, want.R, mean.R) || !near0(got.G, want.G, mean.G) || !near0(got.B, want.B, mean.B) {
					c.Failf("%dx%d split %v: standard deviation of pixel %d,%d is %v, want %v", w, h, split, p%w, p/w, got, want)
					return
				}
			}
		}
	}
	for i := range snaps {
		if d, where := imgDiff(snaps[i], copies[i]); d != 0 {
			c.Failf("an image returned earlier was changed by further sampling: %s", where)
		}
	}
	// asking twice, without sampling, gives the same
	if d, where := imgDiff(s.Image(), s.Image()); d != 0 {
		c.Failf("image changes without sampling: %s", where)
	}
	if outside != 0 {
		c.Failf("%dx%d: %d samples outside the image", w, h, outside)
	}
	if mon.over != 0 {
		c.Failf("a context was used by two goroutines at the same time")
	}
	c.Count("contexts seen", len(mon.seen))
	c.Eval(w * h * total)
	c.Distinct(w, h, fmt.Sprint(split))
	c.Sample("%dx%d in passes %v: %d contexts, %d calls", w, h, split, len(mon.seen), w*h*total)

	// the shorthand
	for i := range counts {
		counts[i] = 0
	}
	n := 1 + c.Intn(5)
	img := tracer.Uniform(f, n, w, h, false)
	if !checkSize(c, img, w, h) {
		return
	}
	for p := range counts {
		if counts[p] != int64(n) {
			c.Failf("Uniform %dx%d: pixel %d,%d evaluated %d times in %d passes", w, h, p%w, p/w, counts[p], n)
			return
		}
	}
}

func copyImg(a imagef.Image) imagef.Image {
	var o imagef.Image
	for _, r := range a {
		o = append(o, append([]Color{}, r...))
	}
	return o
}

// a scene using as much of the library as possible.
func richScene(c *C, rec int) *tracer.Scene {
	g := newGen(c.Rand)
	var objs []tracer.Object
	all := []int{mFlat, mReflective, mRefractive, mCoat, mTransparent, mBlend, mBlendMap, mTwoSided, mMatte, mMatte, mMatte, mMatte, mShiny}
	rs := newRScene(rec)
	for n := 3 + c.Intn(5); n > 0; n-- {
		g.scenePrim(rs, all, 2)
	}
	objs = append(objs, rs.robjs...)
	m := g.material(all, 2)
	g.matFn = func() tracer.Material { return m.M }
	objs = append(objs, g.prim(kMesh).O, g.csg(3).O)
	objs = append(objs, objects.Rectangle(materials.Matte(anyTex(g, 2)), 6, 6, rvec(c.Rand, 3)), objects.Sphere(materials.Flat(anyTex(g, 3)), uni(g.Rand, .5, 3), rvec(c.Rand, 3)))
	objs = append(objs, objects.Rectangle(materials.Matte(texture.Checkers(1, 1, rcol(c.Rand), rcol(c.Rand))), 50, 50, Vec{0, -4, 0}))
	if c.Intn(2) == 0 {
		objs = append(objs, objects.Backdrop(materials.Flat(texture.Func(smoothTex(c.Rand)))))
	}
	var ls []tracer.Light
	for n := c.Intn(4); n >= 0; n-- {
		ls = append(ls, randLight(g))
	}
	var md []tracer.Medium
	if c.Intn(2) == 0 {
		md = append(md, media.ExpFog(uni(c.Rand, 0.01, 0.3), rcol(c.Rand), uni(c.Rand, -2, 4)))
	}
	if c.Intn(3) == 0 {
		md = append(md, media.Fog(uni(c.Rand, 0.01, 0.3), uni(c.Rand, -2, 4), 1+c.Intn(3)))
	}
	return tracer.NewSceneWithMedia(rec, md, ls, objs...)
}

// anyTex nests all kinds of textures.
func anyTex(g *gen, depth int) texture.Texture {
	if depth == 0 {
		t, _ := g.tex()
		return t
	}
	switch g.Intn(8) {
	case 0:
		return texture.Checkers(uni(g.Rand, .3, 3), uni(g.Rand, .3, 3), anyTex(g, depth-1), anyTex(g, depth-1))
	case 1:
		return texture.Grid(.05, uni(g.Rand, .3, 3), uni(g.Rand, .3, 3), anyTex(g, depth-1), anyTex(g, depth-1))
	case 2, 3:
		f, err := os.CreateTemp("", "verif-tex")
		must(err)
		f.Close()
		defer os.Remove(f.Name())
		writePNG(f.Name(), randRGBA(g.Rand, 1+g.Intn(9), 1+g.Intn(9)))
		return texture.MustLoad(f.Name())
	case 4, 5:
		return texture.Pan(anyTex(g, depth-1), uni(g.Rand, -2, 2), uni(g.Rand, -2, 2))
	default:
		return texture.ScaleUV(anyTex(g, depth-1), uni(g.Rand, .2, 4), uni(g.Rand, .2, 4))
	}
}

func randLight(g *gen) tracer.Light {
	b := cmul(logUni(g.Rand, 1, 100), rcol(g.Rand))
	ctr := add(rvec(g.Rand, 4), Vec{0, 5, 0})
	switch g.Intn(5) {
	case 0:
		return lights.PointLight(b, ctr)
	case 1:
		return lights.RectangleLight(b, uni(g.Rand, 0.1, 2), uni(g.Rand, 0.1, 2), ctr)
	case 2:
		return lights.DiskLight(b, uni(g.Rand, 0.1, 2), ctr)
	case 3:
		return lights.SunLight(rcol(g.Rand), uni(g.Rand, 0.01, 0.5), uni(g.Rand, -3, 3), uni(g.Rand, 0.1, 1.5))
	default:
		t, _ := g.sim()
		return lights.Transformed(lights.RectangleLight(b, uni(g.Rand, 0.1, 2), uni(g.Rand, 0.1, 2), ctr), t)
	}
}

func randCam(g *gen) tracer.Camera {
	s := rvec(g.Rand, 8)
	switch g.Intn(4) {
	case 0:
		return cameras.EnvironmentMap().Translate(s)
	case 1:
		return cameras.Isometric(g.Intn(3), uni(g.Rand, 2, 10)).Translate(s)
	default:
		return cameras.Projective(uni(g.Rand, 0.3, 2)).YawPitchRoll(uni(g.Rand, -0.4, 0.4), uni(g.Rand, -0.4, 0.4), uni(g.Rand, -3, 3)).Translate(Vec{0, 0, 9})
	}
}

// manyPasses: the mean is right also after a very large number of samples.
func manyPasses(c *C) {
	w, h := 1+c.Intn(3), 1
	n := make([]int64, w*h)
	f := func(ctx *tracer.Ctx, u, v float64) Color {
		ix, iy := pixOf(w, h, u, v)
		k := atomic.AddInt64(&n[iy*w+ix], 1)
		return Color{R: float64(k), G: 1, B: float64(k % 2)}
	}
	s := tracer.NewSampler(f, w, h, false)
	total := 0
	for _, p := range []int{200, 100, 32468, 32800, 5000 + c.Intn(1000), 60000} {
		s.Sample(p)
		total += p
		want := Color{R: float64(total+1) / 2, G: 1, B: math.Ceil(float64(total)/2) / float64(total)}
		for y, row := range s.Image() {
			for x, got := range row {
				c.Eval(p)
				if !(math.Abs(got.R-want.R) < 1e-6*want.R && math.Abs(got.G-1) < 1e-6 && math.Abs(got.B-want.B) < 1e-6) {
					c.Failf("after %d passes, pixel %d,%d of %dx%d is %v, want %v", total, x, y, w, h, got, want)
				}
			}
		}
		for i, k := range n {
			if int(k) != total {
				c.Failf("after %d passes, pixel %d has %d samples", total, i, k)
			}
		}
	}
}

// concurrentScene renders deep recursion through a lens with all workers at once,
// so that the race detector sees every source of randomness at work.
func concurrentScene(c *C) {
	g := newGen(c.Rand)
	sc := richScene(c, 3+c.Intn(4))
	cam := randCam(g)
	if c.Intn(2) == 0 {
		cam = cameras.ProjectiveAperture(uni(g.Rand, 0.5, 2), uni(g.Rand, 0.01, 0.3), uni(g.Rand, 2, 12)).Translate(Vec{0, 0, 9})
	}
	w, h := 20+c.Intn(30), 20+c.Intn(30)
	f0 := sc.ImageFunc(cam)
	// No lock or counter here: it would order the workers and hide races.
	f := func(ctx *tracer.Ctx, u, v float64) Color {
		// all sequences, also the ones that the scene does not need
		d := ctx.CurrentRecursionDepth
		for ctx.CurrentRecursionDepth = 1; ctx.CurrentRecursionDepth < 6; ctx.CurrentRecursionDepth++ {
			if a, b := ctx.Generate2(); !(a >= 0 && a <= 1 && b >= 0 && b <= 1) {
				c.Failf("random numbers %v,%v", a, b)
			}
		}
		ctx.CurrentRecursionDepth = d
		return f0(ctx, u, v)
	}
	s := tracer.NewSampler(f, w, h, c.Intn(2) == 0)
	for n := 0; n < 2; n++ {
		s.Sample(1 + c.Intn(2))
		for y, row := range s.Image() {
			for x, p := range row {
				c.Eval(1)
				c.Count("concurrent scene pixels", 1)
				if v := p.R + p.G + p.B; math.IsNaN(v) || math.IsInf(v, 0) || v < 0 {
					c.Failf("pixel %d,%d of %dx%d is %v", x, y, w, h, p)
				}
			}
		}
	}
	c.Distinct(c.Name)
}

func deterministic(c *C) {
	old := runtime.GOMAXPROCS(0)
	defer runtime.GOMAXPROCS(old)
	g := newGen(c.Rand)
	sc := richScene(c, 1+c.Intn(2))
	cam := randCam(g)
	w, h := 20+c.Intn(40), 20+c.Intn(40)
	aa := c.Intn(2) == 0
	passes := 1 + c.Intn(6)
	f0 := sc.ImageFunc(cam)
	want := tracer.Uniform(f0, passes, w, h, aa)
	seed := c.Uint64()
	var ctr uint64
	slow := func(ctx *tracer.Ctx, u, v float64) Color {
		jitter(hash3(seed, atomic.AddUint64(&ctr, 1), 0))
		return f0(ctx, u, v)
	}
	cmp := func(what string, got imagef.Image) {
		c.Count("image comparisons", 1)
		if d, where := imgDiff(got, want); d > 1e-12 {
			c.Failf("%dx%d, %d passes, aa=%v: %s gives another image (%s)", w, h, passes, aa, what, where)
		}
	}
	cmp("rendering again", tracer.Uniform(f0, passes, w, h, aa))
	for _, p := range []int{1, 3, 16} {
		runtime.GOMAXPROCS(p)
		cmp(fmt.Sprintf("GOMAXPROCS=%d with delays", p), tracer.Uniform(slow, passes, w, h, aa))
	}
	runtime.GOMAXPROCS(old)
	s := tracer.NewSampler(slow, w, h, aa)
	for n := 0; n < passes; {
		k := 1 + c.Intn(passes-n)
		s.Sample(k)
		n += k
	}
	cmp("other pass split", s.Image())
	// several renders of the same scene at once
	var wg sync.WaitGroup
	imgs := make([]imagef.Image, 3)
	for i := range imgs {
		wg.Add(1)
		go func(i int) { defer wg.Done(); imgs[i] = tracer.Uniform(f0, passes, w, h, aa) }(i)
	}
	wg.Wait()
	for _, img := range imgs {
		cmp("rendering concurrently", img)
	}
	first := want[0][0]
	for _, row := range want {
		for _, p := range row {
			if p != first {
				c.Count("non-uniform images", 1)
				c.Distinct(c.Name)
				c.Sample("%dx%d %d passes aa=%v, pixel 0,0 = %v", w, h, passes, aa, first)
				c.Eval(w * h * passes)
				return
			}
		}
	}
}

// deterministicLarge compares images of so many pixels that each worker renders
// tens of thousands of them. The image depends on all numbers drawn from the sequences.
func deterministicLarge(c *C) {
	w, h := 450+c.Intn(200), 400+c.Intn(100)
	aa := c.Intn(2) == 0
	passes := 2 + c.Intn(3)
	f := func(ctx *tracer.Ctx, u, v float64) Color {
		ctx.CurrentRecursionDepth = 1
		a, b := ctx.Generate2()
		ctx.CurrentRecursionDepth = 2
		d, e := ctx.Generate2()
		ctx.CurrentRecursionDepth = 0
		return Color{R: a + 3*b, G: u + 2*v, B: d + 5*e}
	}
	var want imagef.Image
	for k := 0; k < 4; k++ {
		s := tracer.NewSampler(f, w, h, aa)
		for n := 0; n < passes; {
			m := passes - n
			if k > 1 {
				m = 1 + c.Intn(m)
			}
			s.Sample(m)
			n += m
		}
		img := s.Image()
		if k == 0 {
			want = img
			continue
		}
		c.Count("large image comparisons", 1)
		c.Eval(w * h * passes)
		if d, where := imgDiff(img, want); d > 1e-12 {
			c.Failf("%dx%d, %d passes, aa=%v: rendering %d gives another image (%s)", w, h, passes, aa, k+1, where)
		}
	}
	c.Distinct(c.Name)
}

func antiAlias(c *C, w, h int) {
	f := func(ctx *tracer.Ctx, u, v float64) Color { return Color{R: u, G: v, B: 1} }
	const passes = 286
	half := 0.5 / math.Min(float64(w), float64(h))
	for _, aa := range []bool{false, true} {
		s := tracer.NewSampler(f, w, h, aa)
		sums := make([]Vec2, w*h)
		samples := make([][]Vec2, w*h)
		np := passes
		if !aa {
			np = 3
		}
		for pass := 1; pass <= np; pass++ {
			s.Sample(1)
			img := s.Image()
			if !checkSize(c, img, w, h) {
				return
			}
			for p := range sums {
				m := img[p/w][p%w]
				if math.Abs(m.B-1) > 1e-9 {
					c.Failf("image of constant 1 is %v", m.B)
					return
				}
				su, sv := m.R*float64(pass), m.G*float64(pass)
				samples[p] = append(samples[p], Vec2{su - sums[p][0], sv - sums[p][1]})
				sums[p] = Vec2{su, sv}
			}
		}
		c.Eval(w * h * np)
		distinctFirst := map[[2]int]bool{}
		for p, ss := range samples {
			u0, v0 := pixCenter(w, h, p%w, p/w)
			if !aa {
				for _, x := range ss {
					if !(math.Abs(x[0]-u0)+math.Abs(x[1]-v0) < 1e-9) {
						c.Failf("%dx%d without anti-aliasing: pixel %d,%d sampled at %v want %v,%v", w, h, p%w, p/w, x, u0, v0)
						return
					}
				}
				c.Count("centered pixels", 1)
				continue
			}
			var cells [9]int
			uniq := map[[2]int]bool{}
			var mu, mv float64
			for k, x := range ss {
				du, dv := (x[0]-u0)/half, (x[1]-v0)/half
				if !(math.Abs(du) <= 1+1e-6 && math.Abs(dv) <= 1+1e-6) {
					c.Failf("%dx%d: sample %v of pixel %d,%d lies outside its footprint (offset %v,%v half-widths)", w, h, x, p%w, p/w, du, dv)
					return
				}
				i, j := int((du+1)*1.5*0.999999), int((dv+1)*1.5*0.999999)
				cells[3*clampi(j, 0, 2)+clampi(i, 0, 2)]++
				q := [2]int{int(math.Round(du * 1e6)), int(math.Round(dv * 1e6))}
				uniq[q] = true
				mu += du / passes
				mv += dv / passes
				if k == 0 {
					distinctFirst[q] = true
				}
			}
			c.Count("anti-aliased pixels", 1)
			c.Distinct(w, h, p)
			for _, n := range cells {
				if n < passes/9/3 || n > passes/9*3 {
					c.Failf("%dx%d: samples of pixel %d,%d are not spread over its footprint: %v of %d in 3x3 cells", w, h, p%w, p/w, cells, passes)
					return
				}
			}
			if math.Abs(mu) > 0.1 || math.Abs(mv) > 0.1 {
				c.Failf("%dx%d: samples of pixel %d,%d are off center by %v,%v half-widths", w, h, p%w, p/w, mu, mv)
				return
			}
			if len(uniq) < passes*9/10 {
				c.Failf("%dx%d: only %d different samples for pixel %d,%d in %d passes", w, h, len(uniq), p%w, p/w, passes)
				return
			}
		}
		if aa && w*h > 10 && len(distinctFirst) < w*h*9/10 {
			c.Failf("%dx%d: only %d different first samples over all pixels: neighbouring pixels are correlated", w, h, len(distinctFirst))
		}
	}
}

func clampi(x, a, b int) int {
	if x < a {
		return a
	}
	if x > b {
		return b
	}
	return x
}

func checkCameras(t *T) {
	type rt struct {
		m   Mat3
		pos Vec
	}
	// random chain of Translate and YawPitchRoll, applied to the real camera and independently
	chain := func(c *C, cam *cameras.WithTransform) (*cameras.WithTransform, rt, []func() string) {
		x := rt{m: ident}
		ctx := newCtx(c)
		var undisturbed []func() string
		for n := c.Intn(5); n > 0; n-- {
			prev := cam
			// the camera a new one is derived from must stay as it was
			u, v := c.Float64(), c.Float64()
			before := *prev.RayFrom(ctx, u, v)
			if c.Intn(2) == 0 {
				d := rvec(c.Rand, 10)
				cam = cam.Translate(d)
				x.pos = add(x.pos, d)
			} else {
				y, p, r := uni(c.Rand, -4, 4), uni(c.Rand, -4, 4), uni(c.Rand, -4, 4)
				if c.Intn(3) == 0 {
					y, p, r = float64(c.Intn(5)-2)*math.Pi/2, float64(c.Intn(5)-2)*math.Pi/2, 0
				}
				cam = cam.YawPitchRoll(y, p, r)
				m := rotM(axes[1], y).mul(rotM(axes[0], p)).mul(rotM(axes[2], r))
				x.m = m.mul(x.m)
			}
			undisturbed = append(undisturbed, func() string {
				if after := *prev.RayFrom(ctx, u, v); after != before {
					return fmt.Sprintf("deriving a camera changed the original: %v became %v", before, after)
				}
				return ""
			})
		}
		return cam, x, undisturbed
	}
	judge := func(c *C, what string, got *Ray, s, d Vec, scale float64) {
		c.Eval(1)
		if !(dist(got.Start, s) < 1e-9*scale && dist(got.Dir, d) < 1e-9) {
			c.Failf("%s: ray %v, want start %v dir %v", what, *got, s, d)
		}
		if !(math.Abs(length(got.Dir)-1) < 1e-9) {
			c.Failf("%s: ray direction %v has length %v", what, got.Dir, length(got.Dir))
		}
	}
	uv := func(c *C, k int) (float64, float64) {
		u, v := uni(c.Rand, 0, 1), uni(c.Rand, 0, 1)
		switch k {
		case 0:
			return 0.5, 0.5
		case 1:
			return 0, 0.5
		case 2:
			return 1, 0.5
		case 3:
			return 0.5, 1
		case 4:
			return 0, 0
		}
		return u, v
	}
	t.Cases("cameras", t.N(400, 10000), func(c *C, i int) {
		ctx := newCtx(c)
		fov := uni(c.Rand, 0.02, 3.1)
		f := 0.5 / math.Tan(fov/2)
		var cam *cameras.WithTransform
		var x rt
		var und []func() string
		switch i % 4 {
		case 0:
			cam, x, und = chain(c, cameras.Projective(fov))
			for k := 0; k < 20; k++ {
				u, v := uv(c, k)
				judge(c, fmt.Sprintf("projective fov=%v u,v=%v,%v", fov, u, v), cam.RayFrom(ctx, u, v), x.pos, x.m.vec(unit(Vec{u - 0.5, v - 0.5, -f})), 20)
				c.Distinct(c.Name, k)
			}
			// the full width of the sensor spans the field of view
			a, b := cam.RayFrom(ctx, 0, 0.5).Dir, cam.RayFrom(ctx, 1, 0.5).Dir
			if ang := math.Acos(math.Max(-1, math.Min(1, dot(a, b)))); math.Abs(ang-fov) > 1e-6 {
				c.Failf("field of view %v, want %v", ang, fov)
			}
			c.Count("projective", 1)
		case 1:
			ap := logUni(c.Rand, 1e-5, 2)
			fd := logUni(c.Rand, 0.05, 100)
			if c.Intn(4) == 0 { // no aperture: a pinhole, wherever the focus is
				fd = []float64{0, fd}[c.Intn(2)]
				cam, x, und = chain(c, cameras.ProjectiveAperture(fov, 0, fd))
				for k := 0; k < 50; k++ {
					u, v := uv(c, k%6)
					ctx.Init(c.Intn(64), k)
					judge(c, fmt.Sprintf("aperture 0 focus %v fov=%v u,v=%v,%v", fd, fov, u, v), cam.RayFrom(ctx, u, v), x.pos, x.m.vec(unit(Vec{u - 0.5, v - 0.5, -f})), 20)
				}
				c.Count("pinholes", 1)
				break
			}
			cam, x, und = chain(c, cameras.ProjectiveAperture(fov, ap, fd))
			axis := x.m.vec(Vec{0, 0, -1})
			far, quad := 0.0, [4]int{}
			inner := 0
			const N = 200
			for k := 0; k < N; k++ {
				u, v := uv(c, k%6)
				ctx.Init(c.Intn(64), k)
				r := cam.RayFrom(ctx, u, v)
				c.Eval(1)
				c.Distinct(c.Name, k)
				off := sub(r.Start, x.pos)
				if math.Abs(dot(off, axis)) > 1e-8*(1+ap) || length(off) > ap*(1+1e-7) {
					c.Failf("lens sample %v lies off the lens (aperture %v, axis %v)", off, ap, axis)
				}
				far = math.Max(far, length(off)/ap)
				if length(off) < ap*math.Sqrt(0.5) {
					inner++
				}
				lx, ly := dot(off, x.m.vec(Vec{1, 0, 0})), dot(off, x.m.vec(Vec{0, 1, 0}))
				q := 0
				if lx > 0 {
					q |= 1
				}
				if ly > 0 {
					q |= 2
				}
				quad[q]++
				// all rays of a sensor point meet on the focal plane
				focus := madd(x.pos, fd, x.m.vec(Vec{(u - 0.5) / f, (v - 0.5) / f, -1}))
				toF := sub(focus, r.Start)
				if dd := length(cross(toF, r.Dir)); dd > 1e-7*(1+length(toF)) || dot(toF, r.Dir) < 0 {
					c.Failf("aperture %v focus %v fov %v u,v=%v,%v: ray %v misses the focal point %v by %v", ap, fd, fov, u, v, *r, focus, dd)
				}
				if math.Abs(length(r.Dir)-1) > 1e-9 {
					c.Failf("ray direction has length %v", length(r.Dir))
				}
			}
			// uniform disk
			if far < 0.8 || inner < N*25/100 || inner > N*75/100 || quad[0] < N/20 || quad[1] < N/20 || quad[2] < N/20 || quad[3] < N/20 {
				c.Failf("lens samples do not cover the lens evenly: max radius %v, quadrants %v, inner half %v of %v", far, quad, inner, N)
			}
			c.Count("aperture", 1)
		case 2:
			cam, x, und = chain(c, cameras.EnvironmentMap())
			for k := 0; k < 20; k++ {
				u, v := uv(c, k)
				th, ph := (v-0.5)*math.Pi, (u-0.5)*2*math.Pi // ph: to the right of -z
				d := Vec{math.Sin(ph) * math.Cos(th), math.Sin(th), -math.Cos(ph) * math.Cos(th)}
				judge(c, fmt.Sprintf("environment map u,v=%v,%v", u, v), cam.RayFrom(ctx, u, v), x.pos, x.m.vec(d), 20)
				c.Distinct(c.Name, k)
			}
			c.Count("environment map", 1)
		case 3:
			size := logUni(c.Rand, 0.1, 1500)
			dir := c.Intn(3)
			cam, x, und = chain(c, cameras.Isometric(dir, size))
			// looking along -x, -y, -z; up is y (z is down when looking down)
			right := []Vec{{0, 0, -1}, {1, 0, 0}, {1, 0, 0}}[dir]
			up := []Vec{{0, 1, 0}, {0, 0, -1}, {0, 1, 0}}[dir]
			fwd := []Vec{{-1, 0, 0}, {0, -1, 0}, {0, 0, -1}}[dir]
			for k := 0; k < 20; k++ {
				u, v := uv(c, k)
				r := cam.RayFrom(ctx, u, v)
				c.Eval(1)
				c.Distinct(c.Name, k)
				d := x.m.vec(fwd)
				p := add(x.pos, x.m.vec(add(mul((u-0.5)*size, right), mul((v-0.5)*size, up))))
				// ray runs along the line through p, from far behind
				back := sub(p, r.Start)
				if dist(r.Dir, d) > 1e-9 || length(cross(back, d)) > 1e-6*(1+size) || dot(back, d) < 1000 {
					c.Failf("isometric dir=%d size=%v u,v=%v,%v: ray %v, want along %v through %v from far away", dir, size, u, v, *r, d, p)
				}
			}
			c.Count("isometric", 1)
		}
		for _, f := range und {
			if msg := f(); msg != "" && i%4 != 1 {
				c.Failf("%s", msg)
			}
		}
	})
	t.Case("invalid", func(c *C) {
		for _, f := range []float64{0, -1, math.Pi, 4, math.Inf(1)} {
			c.Eval(1)
			if !panics(func() { cameras.Projective(f) }) {
				c.Failf("field of view %v is accepted", f)
			}
		}
		for _, d := range []int{-1, 3} {
			if !panics(func() { cameras.Isometric(d, 1) }) {
				c.Failf("isometric direction %v is accepted", d)
			}
		}
	})
	for _, k := range []string{"projective", "aperture", "environment map", "isometric"} {
		t.Require(k, 50)
	}
}

// spy wraps a material and watches what evaluating it does to the context.
type spy struct {
	orig tracer.Material
	m    *spyMon
}
type spyMon struct {
	c      *C
	rec    int
	events int
	deep   int
	maxDep int
	stack  []*Ray
}

func (s *spy) Shade(ctx *tracer.Ctx, sc *tracer.Scene, r *Ray, h tracer.HitCoords) Color {
	m := s.m
	m.events++
	d := ctx.CurrentRecursionDepth
	if d > m.maxDep {
		m.maxDep = d
	}
	if d < 1 || d > m.rec {
		m.c.Failf("material evaluated at recursion depth %d, limit is %d", d, m.rec)
	}
	if d > 1 {
		m.deep++
	}
	if math.Abs(length(h.Normal)-1) > 1e-9 {
		m.c.Failf("material got normal %v of length %v", h.Normal, length(h.Normal))
	}
	if !(h.T > 0) {
		m.c.Failf("material got hit at T=%v", h.T)
	}
	before := *r
	mine := ctx.Ray()
	for _, o := range m.stack {
		if o == mine {
			m.c.Failf("context handed out a ray that is still in use")
		}
	}
	if mine == r {
		m.c.Failf("context handed out the ray being shaded")
	}
	if *mine != (Ray{}) {
		m.c.Failf("context handed out a ray that is not blank: %v", *mine)
	}
	sentinel := Ray{Start: Vec{float64(m.events), 1, 2}, Dir: Vec{float64(d), 7, 8}}
	*mine = sentinel
	m.stack = append(m.stack, mine, r)
	col := s.orig.Shade(ctx, sc, r, h)
	m.stack = m.stack[:len(m.stack)-2]
	if *mine != sentinel {
		m.c.Failf("%T: a ray in use was overwritten: %v became %v", s.orig, sentinel, *mine)
	}
	if *r != before {
		m.c.Failf("%T: shading changed the incoming ray from %v to %v", s.orig, before, *r)
	}
	if ctx.CurrentRecursionDepth != d {
		m.c.Failf("%T: recursion depth changed from %d to %d", s.orig, d, ctx.CurrentRecursionDepth)
	}
	ctx.PutRay(mine)
	return col
}

type spyTransp struct {
	spy
	tm tracer.TransparentMaterial
}

func (s *spyTransp) Filter(r *Ray, h HitRecord, b Color) Color { return s.tm.Filter(r, h, b) }

func checkRecursion(t *T) {
	t.Cases("monitored", t.N(100, 4000), func(c *C, i int) {
		g := newGen(c.Rand)
		rec := 1 + c.Intn(6)
		m := &spyMon{c: c, rec: rec}
		wrap := func(o tracer.Material) tracer.Material {
			if tm, ok := o.(tracer.TransparentMaterial); ok {
				return &spyTransp{spy{o, m}, tm}
			}
			return &spy{o, m}
		}
		all := []int{mFlat, mReflective, mRefractive, mCoat, mTransparent, mBlend, mBlendMap, mTwoSided, mMatte, mMatte, mShiny}
		var objs []tracer.Object
		for n := 3 + c.Intn(4); n > 0; n-- {
			w := g.material(all, 2)
			// materials nested in others are watched as well
			sp := wrap(w.M)
			if c.Intn(2) == 0 {
				sp = wrap(materials.Blend(0.5, wrap(w.M), 0.5, wrap(g.material(all, 1).M)))
			}
			g.matFn = func() tracer.Material { return sp }
			objs = append(objs, g.prim(g.Intn(numKinds-1)).O)
		}
		room := wrap(g.material(all, 2).M)
		objs = append(objs, objects.Box(room, 14, 14, 14, Vec{}))
		var ls []tracer.Light
		for n := c.Intn(3); n > 0; n-- {
			ls = append(ls, randLight(g))
		}
		var md []tracer.Medium
		if c.Intn(2) == 0 {
			md = append(md, media.ExpFog(0.1, rcol(c.Rand), 1), media.Fog(0.1, 2, 2))
		}
		sc := tracer.NewSceneWithMedia(rec, md, ls, objs...)
		cam := cameras.Projective(1.5)
		f := sc.ImageFunc(cam)
		ctx := newCtx(c)
		for k := 0; k < 20; k++ {
			ctx.Init(c.Intn(64), k)
			col := f(ctx, c.Float64(), c.Float64())
			c.Eval(1)
			if ctx.CurrentRecursionDepth != 0 {
				c.Failf("recursion depth is %d after a sample", ctx.CurrentRecursionDepth)
				ctx.CurrentRecursionDepth = 0
			}
			_ = col
			// nothing may be in the pool twice
			seen := map[*Ray]bool{}
			var got []*Ray
			for n := 0; n < 40; n++ {
				r := ctx.Ray()
				if seen[r] {
					c.Failf("a ray was recycled twice")
					break
				}
				seen[r] = true
				got = append(got, r)
			}
			for _, r := range got {
				ctx.PutRay(r)
			}
		}
		c.Count("shading events", m.events)
		c.Count("shading events at depth > 1", m.deep)
		c.Count(fmt.Sprintf("scenes reaching depth %d", m.maxDep), 1)
		if m.deep > 0 {
			c.Distinct(c.Name)
		}
		c.Sample("%d objects, recursion %d: %d shading events, deepest %d", len(objs), rec, m.events, m.maxDep)
	})
	// between two parallel mirrors that also glow: e * (1 + c + c^2 + ...), one term per level
	t.Cases("mirrors", t.N(60, 2000), func(c *C, i int) {
		rec := 1 + c.Intn(30)
		e, k := rcol(c.Rand), rcol(c.Rand)
		if i%6 == 0 { // very deep
			rec = 30 + c.Intn(400)
			k = cadd(cmul(.05, k), Color{R: .95, G: .95, B: .95})
		}
		m := materials.Blend(1, materials.Flat(e), 1, materials.Reflective(k))
		sc := tracer.NewScene(rec, nil,
			objects.Rectangle(m, 1e5, 1e5, Vec{1, -1, 3}),
			objects.Rectangle(m, 1e5, 1e5, Vec{2, 1, 5}))
		d := unit(Vec{uni(c.Rand, -1, 1), uni(c.Rand, 0.3, 1) * float64(2*c.Intn(2)-1), uni(c.Rand, -1, 1)})
		r := Ray{Start: Vec{c.Float64(), uni(c.Rand, -0.9, 0.9), c.Float64()}, Dir: d}
		got := sc.LightField(newCtx(c), &r)
		want, pw := Color{}, Color{R: 1, G: 1, B: 1}
		for n := 0; n < rec; n++ {
			want = cadd(want, cmul3(e, pw))
			pw = cmul3(pw, k)
		}
		c.Eval(1)
		c.Distinct(c.Name)
		c.Count("mirror series", 1)
		if !(cdiff(got, want) < 1e-9*(1+cmax(want))) {
			c.Failf("glowing mirrors, recursion %d: %v, want %v", rec, got, want)
		}
	})
	t.Require("shading events at depth > 1", 5000)
	t.Require("mirror series", 50)
	t.Require("scenes reaching depth 4", 5)
}
