package main

import (
	"bytes"
	"errors"
	"fmt"
	"image"
	"image/color"
	"image/jpeg"
	"image/png"
	"math"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/barnex/bruteray/api"
	"github.com/barnex/bruteray/imagef"
	"github.com/barnex/bruteray/imagef/colorf"
	"github.com/barnex/bruteray/imagef/post"
	"github.com/barnex/bruteray/imagef/ppm"
	"github.com/barnex/bruteray/texture"
)

// tagTex returns the position it was asked for, tagged.
func tagTex(tag float64) texture.Texture {
	return texture.Func(func(p Vec) Color { return Color{R: tag, G: p[0], B: p[1]} })
}

func refToLinear(s float64) float64 {
	if s <= 0.04045 {
		return s / 12.92
	}
	return math.Pow((s+0.055)/1.055, 2.4)
}

func refToSRGB(c float64) float64 {
	if c <= 0 {
		return 0
	}
	if c >= 1 {
		return 1
	}
	if c <= 0.0031308 {
		return 12.92 * c
	}
	return 1.055*math.Pow(c, 1/2.4) - 0.055
}

// what the code does (finding srgb-offset)
func knownToSRGB(c float64) float64 {
	if c <= 0.0031308 {
		return refToSRGB(c)
	}
	return math.Min(1, 1.055*math.Pow(math.Min(c, 1), 1/2.4)-0.05)
}

func scratch(c *C) string {
	d, err := os.MkdirTemp(os.Getenv("VERIF_TMP"), "case-")
	must(err)
	return d
}

func randRGBA(r *rand.Rand, w, h int) *image.NRGBA {
	img := image.NewNRGBA(image.Rect(0, 0, w, h))
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			img.SetNRGBA(x, y, color.NRGBA{uint8(r.Intn(256)), uint8(r.Intn(256)), uint8(r.Intn(256)), 255})
		}
	}
	return img
}

func writePNG(fname string, img image.Image) {
	f, err := os.Create(fname)
	must(err)
	must(png.Encode(f, img))
	must(f.Close())
}

func init() {
	subs["loadimage"] = func(a []string) {
		switch a[0] {
		case "MustLoad":
			texture.MustLoad(a[1])
		case "HeightMap":
			texture.HeightMap(a[1])
		case "LoadTexture":
			api.LoadTexture(a[1])
		case "LoadHeightMap":
			api.LoadHeightMap(a[1])
		default:
			imagef.MustLoad(a[1])
		}
		fmt.Println("loaded")
	}
	register(&Check{
		ID:   "C23",
		Rule: "random procedural textures and random image files as textures (nested, panned, scaled, fisheye mapped), evaluated at random points inside and outside the unit square and compared with independent evaluation; non-trivial: point away from a pattern boundary",
		Run: func(t *T) {
			t.Cases("procedural", t.N(200, 5000), func(c *C, i int) { proceduralTex(c) })
			t.Cases("image", t.N(20, 500), func(c *C, i int) { imageTex(c) })
			t.Require("procedural lookups", 10000)
			t.Require("image lookups", 10000)
		},
	})
	register(&Check{
		ID:   "C24",
		Rule: "random colors including negative, huge and tiny, random images and image files (PNG 8/16 bit, gray, JPEG, offset bounds): encode and decode against independent codecs, and writers that fail after every possible number of bytes; non-trivial: each color or failure point",
		Run: func(t *T) {
			t.Cases("curve", t.N(50, 1000), func(c *C, i int) { colorCurve(c) })
			t.Cases("ppm", t.N(20, 500), func(c *C, i int) { ppmCase(c) })
			t.Cases("load", t.N(20, 500), func(c *C, i int) { loadCase(c) })
			t.Cases("ops", t.N(50, 1000), func(c *C, i int) { colorOps(c) })
			t.Cases("large", t.N(2, 30), func(c *C, i int) { bigImage(c) })
			t.Require("large images", 2)
			t.Cases("fatal", t.N(1, 1), func(c *C, i int) { fatalLoad(c) })
			t.Require("fatal loads", 20)
			t.Require("colors", 10000)
			t.Require("write faults", 1000)
			t.Require("passing write faults", 1000)
			t.Require("pixels loaded", 5000)
		},
	})
	register(&Check{
		ID:   "C25",
		Rule: "random images (isolated bright pixels near and far from borders, constant, noise) and random bloom settings against an independent convolution, with conservation of energy, locality and the unmodified source; non-trivial: at least one pixel above the threshold",
		Run: func(t *T) {
			t.Cases("large", t.N(4, 100), func(c *C, i int) { bigBloom(c, i) })
			t.Require("large blooms", 10)
			t.Cases("bloom", t.N(20, 600), func(c *C, i int) { bloomCase(c) })
			t.Require("pixels compared", 10000)
			t.Require("images with bloom", 50)
			t.Require("cropped stars", 50)
		},
	})
}

func cell(x float64) (i int, edge float64) {
	f := math.Floor(x)
	return int(f), math.Min(x-f, f+1-x)
}

func proceduralTex(c *C) {
	pu, pv := logUni(c.Rand, .1, 8), logUni(c.Rand, .1, 8)
	a, b := tagTex(1), tagTex(2)
	ck := texture.Checkers(pu, pv, a, b)
	width := uni(c.Rand, .02, .45) / math.Max(pu, pv)
	gr := texture.Grid(width, pu, pv, a, b)
	base := texture.Func(func(p Vec) Color { return Color{R: p[0], G: p[1], B: p[2]} })
	for k := 0; k < 50; k++ {
		u, v := uni(c.Rand, -5, 5), uni(c.Rand, -5, 5)
		p := Vec{u, v, uni(c.Rand, -1, 1)}
		c.Eval(1)
		// checkers: squares of half a period
		i, e1 := cell(u * pu * 2)
		j, e2 := cell(v * pv * 2)
		if math.Min(e1, e2) > 1e-9 {
			tag := 1.0
			if (i+j)&1 != 0 {
				tag = 2
			}
			c.Count("procedural lookups", 1)
			c.Distinct(c.Name, k)
			if got, want := ck.At(p), (Color{R: tag, G: u, B: v}); cdiff(got, want) > 1e-12 {
				c.Failf("Checkers(%v,%v) at %v: texture %v evaluated at (%v,%v), want texture %v", pu, pv, p, got.R, got.G, got.B, tag)
			}
		}
		// grid: lines around multiples of the period
		_, e1 = cell(u * pu)
		_, e2 = cell(v * pv)
		du, dv := e1/pu, e2/pv // distance to nearest line
		if math.Abs(du-width) > 1e-9 && math.Abs(dv-width) > 1e-9 {
			tag := 1.0
			if du < width || dv < width {
				tag = 2
			}
			c.Count("procedural lookups", 1)
			if got, want := gr.At(p), (Color{R: tag, G: u, B: v}); cdiff(got, want) > 1e-12 {
				c.Failf("Grid(%v,%v,%v) at %v: texture %v evaluated at (%v,%v), want texture %v", width, pu, pv, p, got.R, got.G, got.B, tag)
			}
		}
		// pan and scale
		d1, d2, s1, s2 := uni(c.Rand, -3, 3), uni(c.Rand, -3, 3), logUni(c.Rand, .1, 9), logUni(c.Rand, .1, 9)
		type tc struct {
			name string
			t    texture.Texture
			u, v float64
		}
		for _, x := range []tc{
			{"Pan", texture.Pan(base, d1, d2), u - d1, v - d2},
			{"ScaleUV", texture.ScaleUV(base, s1, s2), u / s1, v / s2},
			{"api.Texture.Scale", api.Texture{Texture: base}.Scale(s1, s2), u / s1, v / s2},
			{"Pan of ScaleUV", texture.Pan(texture.ScaleUV(base, s1, s2), d1, d2), (u - d1) / s1, (v - d2) / s2},
			{"ScaleUV of Pan", texture.ScaleUV(texture.Pan(base, d1, d2), s1, s2), u/s1 - d1, v/s2 - d2},
		} {
			c.Count("procedural lookups", 1)
			if got := x.t.At(p); !(math.Hypot(got.R-x.u, got.G-x.v) < 1e-9*(1+math.Abs(x.u)+math.Abs(x.v))) {
				c.Failf("%s (delta %v %v, scale %v %v) at %v looks up (%v,%v), want (%v,%v)", x.name, d1, d2, s1, s2, p, got.R, got.G, x.u, x.v)
			}
		}
		// fisheye: angle from the zenith is proportional to the radius
		dir := rdir(c.Rand)
		dir[1] = math.Abs(dir[1])
		if dir[1] > 0.01 {
			th := math.Acos(math.Min(1, dir[1]))
			rad := math.Hypot(dir[0], dir[2])
			wu, wv := .5, .5
			if rad > 1e-9 {
				wu, wv = .5+.5*th/(math.Pi/2)*dir[0]/rad, .5+.5*th/(math.Pi/2)*dir[2]/rad
			}
			got := texture.MapFisheye(base).At(mul(logUni(c.Rand, .1, 10), dir))
			c.Count("procedural lookups", 1)
			if !(math.Hypot(got.R-wu, got.G-wv) < 1e-5) {
				c.Failf("MapFisheye of direction %v looks up (%v,%v), want (%v,%v)", dir, got.R, got.G, wu, wv)
			}
		}
		// functions, constants, height maps
		col := rcol(c.Rand)
		f2 := texture.Func2D(func(a, b float64) Color { return Color{R: a, G: b} })
		if col.At(p) != col || col.AtUV(u, v) != col || f2.At(p) != (Color{R: u, G: v}) || f2.AtUV(u, v) != (Color{R: u, G: v}) {
			c.Failf("constant or function texture is wrong at %v", p)
		}
		s3 := texture.ScalarFunc3D(func(p Vec) float64 { return p[0] + 2*p[1] - 3*p[2] })
		if s3.At(p) != p[0]+2*p[1]-3*p[2] || texture.ConstScalar3D(u).At(p) != u {
			c.Failf("3D function or constant is wrong at %v", p)
		}
		if h := (api.Texture{Texture: base}).HeightMap()(u, v); h != u {
			c.Failf("height map of a texture returns %v at (%v,%v), want its red channel %v", h, u, v, u)
		}
	}
	if c.Intn(50) == 0 {
		c.Sample("Checkers(%.3g,%.3g), Grid(%.3g)", pu, pv, width)
	}
}

// what loads pictures for a program must stop it with an error if it can not
func fatalLoad(c *C) {
	dir := scratch(c)
	defer os.RemoveAll(dir)
	self, err := os.Executable()
	must(err)
	var buf bytes.Buffer
	must(png.Encode(&buf, randRGBA(c.Rand, 5, 4)))
	files := map[string][]byte{"good.png": buf.Bytes(), "cut.png": buf.Bytes()[:c.Intn(buf.Len()-20)], "text.png": []byte("hello")}
	for f, b := range files {
		must(os.WriteFile(filepath.Join(dir, f), b, 0666))
	}
	for _, f := range []string{"good.png", "cut.png", "text.png", "none.png"} {
		kind := []string{"MustLoad", "HeightMap", "LoadTexture", "LoadHeightMap", "imagef"}[c.Intn(5)]
		out, err := exec.Command(self, "sub", "loadimage", kind, filepath.Join(dir, f)).CombinedOutput()
		c.Eval(1)
		c.Distinct(kind, f)
		if (err == nil) != (f == "good.png") {
			c.Failf("%s of %s: %v\n%s", kind, f, err, out)
		}
		if err != nil {
			c.Count("fatal loads", 1)
		}
	}
}

func imageTex(c *C) {
	w, h := 1+c.Intn(12), 1+c.Intn(12)
	if c.Intn(25) == 0 { // large
		w, h = 1+c.Intn(600), 1+c.Intn(600)
	}
	src := randRGBA(c.Rand, w, h)
	dir := scratch(c)
	defer os.RemoveAll(dir)
	fname := filepath.Join(dir, "t.png")
	writePNG(fname, src)
	// bottom row is v=0
	pix := func(lin bool, x, y int) Color {
		p := src.NRGBAAt(x, h-1-y)
		f := func(b uint8) float64 {
			s := float64(b) / 255
			if lin {
				return s
			}
			return refToLinear(s)
		}
		return Color{R: f(p.R), G: f(p.G), B: f(p.B)}
	}
	loaded := imagef.MustLoad(fname)
	near := texture.Nearest(loaded)
	for _, tt := range []struct {
		name string
		t    texture.Texture
		lin  bool
	}{{"MustLoad", texture.MustLoad(fname), false}, {"HeightMap", texture.HeightMap(fname), true}, {"LoadTexture", api.LoadTexture(fname), false}, {"LoadHeightMap", api.LoadHeightMap(fname), true}} {
		for k := 0; k < 40; k++ {
			u, v := c.Float64(), c.Float64()
			switch k % 4 {
			case 1: // exactly on a pixel
				if w > 1 {
					u = float64(c.Intn(w-1)) / float64(w-1)
				}
			case 2: // outside: repeats
				u += float64(c.Intn(9) - 4)
				v += float64(c.Intn(9) - 4)
				if c.Intn(2) == 0 { // far outside
					u = float64(int(u*(1<<20)))/(1<<20) + float64(c.Intn(1<<31)-1<<30)
					v = float64(int(v*(1<<20)))/(1<<20) + float64(c.Intn(1<<uint(1+c.Intn(31))))
				}
			case 3: // just below or above a whole number
				e := logUni(c.Rand, 1e-12, 1e-2)
				u = 1 - e
				switch c.Intn(4) {
				case 0:
					u, v = v, u
				case 1:
					v = 1 - logUni(c.Rand, 1e-12, 1e-2)
				case 2:
					u = 1 + e
				}
			}
			fu, fv := u-math.Floor(u), v-math.Floor(v)
			X, Y := fu*float64(w-1), fv*float64(h-1)
			x0, y0 := int(X), int(Y)
			fx, fy := X-float64(x0), Y-float64(y0)
			x1, y1 := x0, y0
			if x0+1 < w {
				x1++
			}
			if y0+1 < h {
				y1++
			}
			want := cadd(cadd(cmul((1-fx)*(1-fy), pix(tt.lin, x0, y0)), cmul(fx*(1-fy), pix(tt.lin, x1, y0))),
				cadd(cmul((1-fx)*fy, pix(tt.lin, x0, y1)), cmul(fx*fy, pix(tt.lin, x1, y1))))
			got := tt.t.At(Vec{u, v, c.Float64()})
			c.Eval(1)
			c.Count("image lookups", 1)
			c.Distinct(w, h, u, v)
			if !(cdiff(got, want) < 1e-6) {
				c.Failf("%s texture of a %dx%d image at (%v,%v) is %v, want the interpolation %v", tt.name, w, h, u, v, got, want)
				return
			}
		}
	}
	// a hair below a whole number: either side of the seam
	for _, u := range []float64{-1e-20, -5e-324, 1, -1, 2, math.Copysign(0, -1)} {
		v := c.Float64()
		got := texture.MustLoad(fname).At(Vec{u, v, 0})
		Y := v * float64(h-1)
		y0 := int(Y)
		y1 := y0
		if y0+1 < h {
			y1++
		}
		c.Eval(1)
		c.Count("seam lookups", 1)
		at := func(x int) Color {
			return cadd(cmul(1-(Y-float64(y0)), pix(false, x, y0)), cmul(Y-float64(y0), pix(false, x, y1)))
		}
		if !(cdiff(got, at(0)) < 1e-6) && !(cdiff(got, at(w-1)) < 1e-6) {
			c.Failf("texture of a %dx%d image at (%v,%v) is %v, want %v or %v", w, h, u, v, got, at(0), at(w-1))
			return
		}
	}
	// undefined coordinates: no crash
	nan, x := math.NaN(), uni(c.Rand, -2, 3)
	for _, p := range []Vec{{nan, x, 0}, {x, nan, 0}, {nan, nan, 0}} {
		c.Eval(1)
		c.Count("undefined coordinates", 1)
		if panics(func() { texture.MustLoad(fname).At(p) }) {
			c.Failf("texture of a %dx%d image panics at %v", w, h, p)
			return
		}
	}
	for k := 0; k < 40; k++ {
		u, v := c.Float64(), c.Float64()
		X, Y := u*float64(w-1), v*float64(h-1)
		if _, e := cell(X + .5); e < 1e-6 {
			continue
		}
		if _, e := cell(Y + .5); e < 1e-6 {
			continue
		}
		got, want := near.At(Vec{u, v, 0}), pix(false, int(math.Floor(X+.5)), int(math.Floor(Y+.5)))
		c.Eval(1)
		if !(cdiff(got, want) < 1e-6) {
			c.Failf("Nearest texture of a %dx%d image at (%v,%v) is %v, want %v", w, h, u, v, got, want)
			return
		}
	}
	c.Sample("image texture %dx%d", w, h)
}

func randComp(r *rand.Rand) float64 {
	switch r.Intn(8) {
	case 0:
		return -logUni(r, 1e-9, 1e9)
	case 1:
		return logUni(r, 1, 1e12)
	case 2:
		return []float64{0, 1, .0031308, math.Nextafter(.0031308, 1), .99999, 1.00001, math.Inf(1), math.Inf(-1)}[r.Intn(8)]
	case 3:
		return logUni(r, 1e-6, .01)
	default:
		return r.Float64()
	}
}

// judgeSRGB compares an encoded value (max = full scale, truncated or rounded) to the curve.
func judgeSRGB(c *C, what string, lin, got, max float64) {
	c.Count("colors", 1)
	c.Eval(1)
	tol := 1.01 / max
	if math.Abs(lin-0.0031308) < 1e-9 { // the two branches of the curve meet here within 1e-4
		tol += 1e-4
	}
	if got < 0 || got > max {
		c.Failf("%s: linear %v is encoded as %v, outside 0..%v", what, lin, got, max)
		return
	}
	g := got / max
	if math.Abs(g-refToSRGB(lin)) <= tol {
		return
	}
	if math.Abs(g-knownToSRGB(lin)) <= tol {
		c.KnownOr("srgb-offset", "%s: linear %v is encoded as %v of %v, sRGB is %v", what, lin, got, max, refToSRGB(lin)*max)
		return
	}
	c.Failf("%s: linear %v is encoded as %v of %v, sRGB is %v", what, lin, got, max, refToSRGB(lin)*max)
}

func colorCurve(c *C) {
	prevX, prevY := math.Inf(-1), 0.0
	xs := []float64{}
	for k := 0; k < 50; k++ {
		x := randComp(c.Rand)
		xs = append(xs, x)
		y := colorf.LinearToSRGB(x)
		if y < 0 || y > 1 || math.IsNaN(y) {
			c.Failf("LinearToSRGB(%v) = %v, outside 0..1", x, y)
			continue
		}
		judgeSRGB(c, "LinearToSRGB", x, y*1e6, 1e6)
		col := Color{R: x, G: randComp(c.Rand), B: randComp(c.Rand)}
		r, g, b, a := col.RGBA()
		if a != 0xffff {
			c.Failf("color %v has alpha %v", col, a)
		}
		judgeSRGB(c, "RGBA red", col.R, float64(r), 0xffff)
		judgeSRGB(c, "RGBA green", col.G, float64(g), 0xffff)
		judgeSRGB(c, "RGBA blue", col.B, float64(b), 0xffff)
		s := c.Float64()
		if k%5 == 0 {
			s = float64(c.Intn(256)) / 255
		}
		if l := colorf.SRGBToLinear(s); !(math.Abs(l-refToLinear(s)) < 1e-9) {
			c.Failf("SRGBToLinear(%v) = %v, want %v", s, l, refToLinear(s))
		}
		// slope of the curve
		if x := c.Float64() + .0001; math.Abs(x-.0031308) > 1e-6 {
			// derivative of the sRGB curve, from the definition
			want := 12.92
			if x > .0031308 {
				want = 1.055 / 2.4 * math.Pow(x, 1/2.4-1)
			}
			if got := colorf.SRGBSlope(x); !(math.Abs(got-want) < 1e-9*want) {
				c.Failf("SRGBSlope(%v) = %v, want %v", x, got, want)
			}
		}
		c.Distinct(c.Name, k)
	}
	// monotonic
	for x := -0.1; x < 1.2; x += 0.0007 + 0.001*c.Float64() {
		y := colorf.LinearToSRGB(x)
		if y < prevY {
			c.Failf("LinearToSRGB decreases from %v at %v to %v at %v", prevY, prevX, y, x)
		}
		prevX, prevY = x, y
	}
	c.Sample("LinearToSRGB at %.4g", xs[:5])
}

func colorOps(c *C) {
	a, b := Color{R: uni(c.Rand, -2, 2), G: uni(c.Rand, -2, 2), B: uni(c.Rand, -2, 2)}, rcol(c.Rand)
	s := uni(c.Rand, -3, 3)
	c.Eval(1)
	chk := func(what string, got, want Color) {
		if !(cdiff(got, want) < 1e-12*(1+math.Abs(cmax(want)))) {
			c.Failf("%s of %v, %v, %v: got %v, want %v", what, a, b, s, got, want)
		}
	}
	chk("Add", a.Add(b), cadd(a, b))
	chk("Mul", a.Mul(s), cmul(s, a))
	chk("Mul3", a.Mul3(b), cmul3(a, b))
	chk("MAdd", a.MAdd(s, b), cadd(a, cmul(s, b)))
	chk("EV", a.EV(s), cmul(math.Exp2(s), a))
	chk("Gray", Color{R: a.Gray()}, Color{R: (a.R + a.G + a.B) / 3})
	chk("Max", Color{R: a.Max()}, Color{R: math.Max(a.R, math.Max(a.G, a.B))})
	n := a
	switch c.Intn(3) {
	case 0:
		n.R = math.NaN()
	case 1:
		n.G = math.NaN()
	case 2:
		n.B = math.NaN()
	}
	if !n.IsNaN() || a.IsNaN() {
		c.Failf("IsNaN(%v)=%v IsNaN(%v)=%v", n, n.IsNaN(), a, a.IsNaN())
	}
	w, h := c.Intn(6), 1+c.Intn(6)
	img := imagef.MakeImage(w, h)
	for y := range img {
		for x := range img[y] {
			img[y][x] = Color{R: float64(x), G: float64(y)}
		}
	}
	cp := img.Copy()
	gw, gh := img.Size()
	if gw != w || gh != h || img.NumPixels() != w*h || img.Bounds() != image.Rect(0, 0, w, h) {
		c.Failf("%dx%d image says %dx%d, %d pixels, bounds %v", w, h, gw, gh, img.NumPixels(), img.Bounds())
	}
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			if cp[y][x] != (Color{R: float64(x), G: float64(y)}) || cp.At(x, y) != color.Color(cp[y][x]) {
				c.Failf("copy of image differs at %d,%d: %v", x, y, cp[y][x])
			}
			cp[y][x] = Color{B: 9}
			if img[y][x] != (Color{R: float64(x), G: float64(y)}) {
				c.Failf("writing to a copy of an image, or to an other pixel, changed pixel %d,%d", x, y)
			}
		}
	}
	c.Distinct(c.Name)
}

type faultWriter struct {
	left  int
	once  bool // only one write fails
	short bool
	buf   bytes.Buffer
}

var errFault = errors.New("injected write failure")

func (w *faultWriter) Write(p []byte) (int, error) {
	if len(p) > w.left {
		n := w.left
		w.buf.Write(p[:n])
		w.left = 0
		if w.once {
			w.left = 1 << 60
		}
		return n, errFault
	}
	w.left -= len(p)
	return w.buf.Write(p)
}

func ppmCase(c *C) {
	w, h := 1+c.Intn(7), 1+c.Intn(7)
	img := imagef.MakeImage(w, h)
	for y := range img {
		for x := range img[y] {
			img[y][x] = Color{R: randComp(c.Rand), G: randComp(c.Rand), B: randComp(c.Rand)}
		}
	}
	orig := copyImg(img)
	comp := func(i int) float64 {
		p := img[i/3/w][i/3%w]
		return [3]float64{p.R, p.G, p.B}[i%3]
	}
	var a, b bytes.Buffer
	if err := ppm.EncodeAscii16(&a, img); err != nil {
		c.Failf("EncodeAscii16: %v", err)
		return
	}
	if err := ppm.Encode48BE(&b, img); err != nil {
		c.Failf("Encode48BE: %v", err)
		return
	}
	// P3
	f := strings.Fields(a.String())
	if len(f) != 4+3*w*h || f[0] != "P3" || f[1] != strconv.Itoa(w) || f[2] != strconv.Itoa(h) || f[3] != "65535" {
		c.Failf("ascii PPM of a %dx%d image has %d fields, starts with %.40q", w, h, len(f), a.String())
		return
	}
	for i, s := range f[4:] {
		v, err := strconv.Atoi(s)
		if err != nil {
			c.Failf("ascii PPM: %v", err)
			return
		}
		judgeSRGB(c, "ascii PPM", comp(i), float64(v), 65535)
	}
	// P6
	head := fmt.Sprintf("P6\n%d %d\n65535\n", w, h)
	raw := b.Bytes()
	if len(raw) != len(head)+6*w*h || string(raw[:len(head)]) != head {
		c.Failf("binary PPM of a %dx%d image has %d bytes, starts with %.40q", w, h, len(raw), raw)
		return
	}
	for i, d := 0, raw[len(head):]; i < 3*w*h; i++ {
		judgeSRGB(c, "binary PPM", comp(i), float64(int(d[2*i])<<8|int(d[2*i+1])), 65535)
	}
	if d, where := imgDiff(orig, img); d != 0 {
		c.Failf("encoding changed the image at %v", where)
	}
	// failing writers: every failure point must be reported
	for _, e := range []struct {
		name string
		full []byte
		f    func(*faultWriter) error
	}{
		{"EncodeAscii16", a.Bytes(), func(w *faultWriter) error { return ppm.EncodeAscii16(w, img) }},
		{"Encode48BE", b.Bytes(), func(w *faultWriter) error { return ppm.Encode48BE(w, img) }},
	} {
		step := 1
		if !c.Thorough() && len(e.full) > 60 {
			step = 1 + len(e.full)/60
		}
		for n := c.Intn(step); n < len(e.full); n += step {
			fw := &faultWriter{left: n}
			err := e.f(fw)
			c.Eval(1)
			c.Count("write faults", 1)
			c.Distinct(c.Name, e.name, n)
			if err == nil {
				c.Failf("%s of a %dx%d image reports success although writing failed after %d of %d bytes", e.name, w, h, n, len(e.full))
				break
			}
			fw1 := &faultWriter{left: n, once: true}
			if err := e.f(fw1); err == nil {
				c.Failf("%s of a %dx%d image reports success although a write failed after %d of %d bytes", e.name, w, h, n, len(e.full))
				break
			}
			c.Count("passing write faults", 1)
			if !bytes.HasPrefix(e.full, fw.buf.Bytes()) {
				c.Failf("%s: output before a write failure after %d bytes differs from the complete output", e.name, n)
				break
			}
		}
		fw := &faultWriter{left: len(e.full)}
		if err := e.f(fw); err != nil {
			c.Failf("%s reports %v although everything could be written", e.name, err)
		}
	}
	c.Sample("%dx%d PPM, %d ascii and %d binary bytes", w, h, a.Len(), b.Len())
}

func loadCase(c *C) {
	dir := scratch(c)
	defer os.RemoveAll(dir)
	w, h := 1+c.Intn(9), 1+c.Intn(9)
	var src image.Image
	kind := c.Intn(6)
	r8 := func() uint8 { return uint8(c.Intn(256)) }
	r16 := func() uint16 { return uint16(c.Intn(65536)) }
	switch kind {
	case 0:
		src = randRGBA(c.Rand, w, h)
	case 1:
		m := image.NewNRGBA64(image.Rect(0, 0, w, h))
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				m.SetNRGBA64(x, y, color.NRGBA64{r16(), r16(), r16(), 0xffff})
			}
		}
		src = m
	case 2:
		m := image.NewGray(image.Rect(0, 0, w, h))
		for i := range m.Pix {
			m.Pix[i] = r8()
		}
		src = m
	case 3:
		m := image.NewPaletted(image.Rect(0, 0, w, h), color.Palette{color.NRGBA{1, 2, 3, 255}, color.NRGBA{200, 100, 50, 255}, color.NRGBA{255, 0, 255, 255}})
		for i := range m.Pix {
			m.Pix[i] = uint8(c.Intn(3))
		}
		src = m
	case 5: // partly see-through: only the opaque pixels are judged
		m := randRGBA(c.Rand, w, h)
		for i := 3; i < len(m.Pix); i += 4 {
			m.Pix[i] = [...]uint8{255, 255, 0, r8()}[c.Intn(4)]
		}
		src = m
	default:
		src = randRGBA(c.Rand, w, h)
	}
	fname := filepath.Join(dir, "im")
	var buf bytes.Buffer
	if kind == 4 {
		must(jpeg.Encode(&buf, src, nil))
		must(os.WriteFile(fname, buf.Bytes(), 0666))
		var err error
		src, err = jpeg.Decode(bytes.NewReader(buf.Bytes()))
		must(err)
	} else {
		must(png.Encode(&buf, src))
		must(os.WriteFile(fname, buf.Bytes(), 0666))
	}
	for i, tr := range []func(float64) float64{nil, imagef.Linear, colorf.SRGBToLinear, func(x float64) float64 { return x * x }} {
		ref := []func(float64) float64{refToLinear, func(x float64) float64 { return x }, refToLinear, func(x float64) float64 { return x * x }}[i]
		img, err := imagef.Load(fname, tr)
		if err != nil {
			c.Failf("loading a valid image: %v", err)
			return
		}
		if !checkSize(c, img, w, h) {
			return
		}
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				r, g, b, a := src.At(x, y).RGBA()
				if a != 65535 {
					continue
				}
				want := Color{R: ref(float64(r) / 65535), G: ref(float64(g) / 65535), B: ref(float64(b) / 65535)}
				got := img[h-1-y][x]
				c.Eval(1)
				c.Count("pixels loaded", 1)
				if !(cdiff(got, want) < 1e-6) {
					c.Failf("pixel %d,%d (from the top left) of a %dx%d image is loaded as %v, want %v", x, y, w, h, got, want)
					return
				}
			}
		}
	}
	c.Distinct(c.Name)
	// damaged files are errors
	n := c.Intn(buf.Len())
	if kind == 4 {
		n = c.Intn(20) // the jpeg decoder accepts missing trailing data
	}
	must(os.WriteFile(fname, buf.Bytes()[:n], 0666))
	if _, err := png.Decode(bytes.NewReader(buf.Bytes()[:n])); err != nil || kind == 4 {
		if img, err := imagef.Load(fname, nil); err == nil {
			c.Failf("loading an image file truncated from %d to %d bytes succeeds: %v", buf.Len(), n, img)
		}
		c.Count("damaged files", 1)
	}
	if _, err := imagef.Load(filepath.Join(dir, "missing"), nil); err == nil {
		c.Failf("loading a missing file succeeds")
	}
	c.Sample("loaded %dx%d image of kind %d", w, h, kind)
}

func bloomCase(c *C) {
	w, h := 1+c.Intn(24), 1+c.Intn(24)
	img := imagef.MakeImage(w, h)
	thr := uni(c.Rand, 0, 2)
	switch c.Intn(3) {
	case 0: // isolated bright pixels
		for k := 1 + c.Intn(4); k > 0; k-- {
			img[c.Intn(h)][c.Intn(w)] = cmul(uni(c.Rand, 0, 8), rcol(c.Rand))
		}
	case 1:
		col := cmul(uni(c.Rand, 0, 4), rcol(c.Rand))
		for y := range img {
			for x := range img[y] {
				img[y][x] = col
			}
		}
	default:
		for y := range img {
			for x := range img[y] {
				img[y][x] = cmul(uni(c.Rand, 0, 3), rcol(c.Rand))
			}
		}
	}
	orig := copyImg(img)
	pixelSize := 1 / float64(w)
	wpix := uni(c.Rand, .2, 3)
	amp := uni(c.Rand, 0, 3)
	radius := wpix * pixelSize

	// reference kernels
	gauss := func(dx, dy float64) Color {
		g := math.Exp(-(dx*dx + dy*dy) / (wpix * wpix))
		return Color{R: g, G: g, B: g}
	}
	airy := func(dx, dy float64) Color {
		r := math.Hypot(dx, dy) / wpix
		if r == 0 {
			return Color{R: 1, G: 1, B: 1}
		}
		f := func(nm float64) float64 { x := 500 / nm * r; return math.Pow(2*math.J1(x)/x, 2) }
		return Color{R: f(700), G: f(500), B: f(450)}
	}
	convolve := func(dst, src imagef.Image, n int, kern func(dx, dy float64) Color, amp, thr float64) imagef.Image {
		sum := 0.0
		for dy := -n; dy <= n; dy++ {
			for dx := -n; dx <= n; dx++ {
				k := kern(float64(dx), float64(dy))
				sum += (k.R + k.G + k.B) / 3
			}
		}
		out := copyImg(dst)
		if sum == 0 {
			return out
		}
		for y := range out {
			for x := range out[y] {
				for dy := -n; dy <= n; dy++ {
					for dx := -n; dx <= n; dx++ {
						sx, sy := x-dx, y-dy
						if sx < 0 || sx >= w || sy < 0 || sy >= h {
							continue
						}
						s := src[sy][sx]
						e := Color{R: math.Max(0, s.R-thr), G: math.Max(0, s.G-thr), B: math.Max(0, s.B-thr)}
						out[y][x] = cadd(out[y][x], cmul(amp/sum, cmul3(e, kern(float64(dx), float64(dy)))))
					}
				}
			}
		}
		return out
	}
	above := 0
	for y := range img {
		for x := range img[y] {
			if cmax(img[y][x]) > thr {
				above++
			}
		}
	}
	compare := func(what string, got, want imagef.Image) {
		if !checkSize(c, got, w, h) {
			return
		}
		for y := range want {
			for x := range want[y] {
				c.Eval(1)
				c.Count("pixels compared", 1)
				if !(cdiff(got[y][x], want[y][x]) < 1e-9*(1+cmax(want[y][x]))) {
					c.Failf("%s (%dx%d, width %v pixels, amplitude %v, threshold %v): pixel %d,%d is %v, want %v", what, w, h, wpix, amp, thr, x, y, got[y][x], want[y][x])
					return
				}
			}
		}
		if d, where := imgDiff(orig, img); d != 0 {
			c.Failf("%s changed its input image at %v", what, where)
			img = copyImg(orig)
		}
	}
	if above > 0 {
		c.Count("images with bloom", 1)
		c.Distinct(c.Name)
	}
	gN, aN := int(5*wpix)+1, int(8*wpix)+1
	wantG := convolve(img, img, gN, gauss, amp, thr)
	wantA := convolve(img, img, aN, airy, amp, thr)
	compare("Gaussian bloom", post.ApplyGaussianBloom(img, pixelSize, radius, amp, thr), wantG)
	compare("Airy bloom", post.ApplyAiryBloom(img, pixelSize, radius, amp, thr), wantA)
	// all off: identity
	p := post.Params{}
	compare("no post-processing", p.ApplyTo(img, pixelSize), img)
	p.Gaussian = post.BloomParams{Radius: radius, Amplitude: amp, Threshold: thr}
	compare("Gaussian post-processing", p.ApplyTo(img, pixelSize), wantG)
	p.Airy = post.BloomParams{Radius: radius, Amplitude: amp / 2, Threshold: thr / 2}
	compare("Gaussian then Airy post-processing", p.ApplyTo(img, pixelSize), convolve(wantG, wantG, aN, airy, amp/2, thr/2))

	// the star is drawn onto what the others leave
	small := post.BloomParams{Radius: uni(c.Rand, 4, 7) * pixelSize, Amplitude: uni(c.Rand, 0, 2), Threshold: uni(c.Rand, 0, 1)}
	starOf := func(img imagef.Image) imagef.Image {
		return post.ApplyStarBloom(copyImg(img), pixelSize, small.Radius, small.Amplitude, small.Threshold)
	}
	p.Star = small
	compare("Gaussian, Airy and star", p.ApplyTo(img, pixelSize), starOf(convolve(wantG, wantG, aN, airy, amp/2, thr/2)))
	p.Airy.Radius = 0
	compare("Gaussian and star", p.ApplyTo(img, pixelSize), starOf(wantG))
	p.Gaussian = post.BloomParams{}
	compare("only star", p.ApplyTo(img, pixelSize), starOf(img))
	p.Star, p.Airy = post.BloomParams{}, post.BloomParams{Radius: radius, Amplitude: amp, Threshold: thr}
	compare("only Airy", p.ApplyTo(img, pixelSize), wantA)

	// any kernel, into an other image
	kw, kh := 1+2*c.Intn(4), 1+2*c.Intn(4)
	kern, dst := imagef.MakeImage(kw, kh), imagef.MakeImage(w, h)
	for y := range kern {
		for x := range kern[y] {
			kern[y][x] = cmul(uni(c.Rand, .1, 2), Color{R: 1 - c.Float64(), G: 1 - c.Float64(), B: 1 - c.Float64()})
		}
	}
	for y := range dst {
		for x := range dst[y] {
			dst[y][x] = rcol(c.Rand)
		}
	}
	kern0 := copyImg(kern)
	n := kw
	if kh > n {
		n = kh
	}
	wantK := convolve(dst, img, n, func(dx, dy float64) Color {
		x, y := int(dx)+kw/2, int(dy)+kh/2
		if x < 0 || x >= kw || y < 0 || y >= kh {
			return Color{}
		}
		return kern0[y][x]
	}, amp, thr)
	gotK := post.AddConvolution(dst, img, kern, amp, thr)
	compare(fmt.Sprintf("%dx%d convolution", kw, kh), gotK, wantK)
	compare("destination of convolution", dst, wantK)
	if d, where := imgDiff(kern0, kern); d != 0 {
		c.Failf("convolution changed its kernel at %v", where)
	}

	// star: conserves energy, symmetric, only along eight directions, original is kept
	starPix := uni(c.Rand, .5, 9)
	p = post.Params{Star: post.BloomParams{Radius: starPix * pixelSize, Amplitude: amp, Threshold: thr}}
	sw := 41
	big := imagef.MakeImage(sw, sw)
	e := cmul(uni(c.Rand, 2, 9), rcol(c.Rand))
	big[20][20] = e
	st := p.ApplyTo(big, pixelSize)
	var sum Color
	for y := range st {
		for x := range st[y] {
			d := st[y][x]
			if x == 20 && y == 20 {
				d = Color{R: d.R - e.R, G: d.G - e.G, B: d.B - e.B}
			}
			sum = cadd(sum, d)
			dx, dy := x-20, y-20
			if cmax(d) > 0 && !(dx == 0 || dy == 0 || dx == dy || dx == -dy) || cmax(d) > 1e-12 && (math.Abs(float64(dx)) > starPix || math.Abs(float64(dy)) > starPix) {
				c.Failf("star of radius %v pixels: light at offset %d,%d", starPix, dx, dy)
			}
			if cdiff(st[y][x], st[40-y][x]) > 1e-12 || cdiff(st[y][x], st[x][y]) > 1e-12 {
				c.Failf("star is not symmetric at offset %d,%d", dx, dy)
			}
		}
	}
	ex := Color{R: math.Max(0, e.R-thr), G: math.Max(0, e.G-thr), B: math.Max(0, e.B-thr)}
	want := cmul(amp, ex)
	if int(starPix) < 4 {
		want = Color{} // too small to draw
	}
	c.Eval(1)
	if !(cdiff(sum, want) < 1e-9*(1+cmax(want))) {
		c.Failf("star of radius %v pixels, amplitude %v adds %v in total, want %v", starPix, amp, sum, want)
	}
	// a star may be larger than the image: the same star, cropped
	cw, ch := 1+c.Intn(12), 1+c.Intn(12)
	px, py := c.Intn(cw), c.Intn(ch)
	starPix = uni(c.Rand, 4, 40)
	crop, whole := imagef.MakeImage(cw, ch), imagef.MakeImage(101, 101)
	crop[py][px], whole[50][50] = e, e
	rad := starPix * pixelSize
	gotCrop := post.ApplyStarBloom(crop, pixelSize, rad, amp, thr)
	gotWhole := post.ApplyStarBloom(whole, pixelSize, rad, amp, thr)
	if checkSize(c, gotCrop, cw, ch) {
		for y := range gotCrop {
			for x := range gotCrop[y] {
				if a, b := gotCrop[y][x], gotWhole[50+y-py][50+x-px]; !(cdiff(a, b) < 1e-9*(1+cmax(b))) {
					c.Failf("star of radius %v pixels of pixel %d,%d in a %dx%d image: pixel %d,%d is %v, in a large image %v", starPix, px, py, cw, ch, x, y, a, b)
					return
				}
			}
		}
		c.Count("cropped stars", 1)
	}
	c.Sample("%dx%d image, bloom width %.3g pixels, amplitude %.3g, threshold %.3g, %d pixels above", w, h, wpix, amp, thr, above)
}
