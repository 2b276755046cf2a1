package main

// Sizes beyond what is common: many vertices, members, pixels, layers, clients.
// A guarantee that holds "for all sizes" often breaks at a buffer, an index type or a fixed limit.

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync/atomic"
	"time"

	"github.com/barnex/bruteray/api"
	"github.com/barnex/bruteray/imagef"
	"github.com/barnex/bruteray/imagef/post"
	"github.com/barnex/bruteray/imagef/ppm"
	"github.com/barnex/bruteray/texture"
	"github.com/barnex/bruteray/tracer"
	"github.com/barnex/bruteray/tracer/lights"
	"github.com/barnex/bruteray/tracer/materials"
	"github.com/barnex/bruteray/tracer/objects"
	"github.com/barnex/bruteray/tracer/objects/obj"
	"github.com/barnex/bruteray/tracer/objects/ply"
)

// C05: a lattice of small balls, compared with a scan over all of them.
func bigTree(c *C) {
	n := 41 + c.Intn(3)
	var ctr []Vec
	var objs []objects.Interface
	mats := []*probeMat{{1}, {2}, {3}}
	rad := uni(c.Rand, .15, .45)
	for x := 0; x < n; x++ {
		for y := 0; y < n; y++ {
			for z := 0; z < n; z++ {
				p := Vec{float64(x), float64(y), float64(z)}
				for i := range p {
					p[i] += uni(c.Rand, -.05, .05)
				}
				ctr = append(ctr, p)
				objs = append(objs, objects.Sphere(mats[len(objs)%3], 2*rad, p))
			}
		}
	}
	o := objects.Tree(append([]objects.Interface{}, objs...)...)
	judgeBalls(c, "tree", o, ctr, rad, mats, 400)
}

func judgeBalls(c *C, what string, o objects.Interface, ctr []Vec, rad float64, mats []*probeMat, rays int) {
	for k := 0; k < rays; k++ {
		q := ctr[c.Intn(len(ctr))] // towards one of them
		s := madd(q, logUni(c.Rand, 1, 100), rdir(c.Rand))
		d := unit(sub(madd(q, rad, rdir(c.Rand)), s))
		best, which, ok := math.Inf(1), -1, true
		for i, p := range ctr {
			b := dot(sub(p, s), d)
			e := length(cross(sub(p, s), d)) // distance of the line to the center
			if math.Abs(e-rad) < 1e-6 || math.Abs(dist(p, s)-rad) < 1e-4 {
				if b > -2*rad {
					ok = false
				}
				continue
			}
			if e > rad {
				continue
			}
			h := math.Sqrt(rad*rad - e*e)
			for _, t := range []float64{b - h, b + h} {
				if t > 0 && t < best {
					best, which = t, i
				}
			}
		}
		if !ok {
			continue
		}
		c.Eval(1)
		r := Ray{Start: s, Dir: d}
		h := o.Intersect(&r)
		if which < 0 {
			if h.T > 0 {
				c.Failf("%s of %d balls: ray %v %v hits at %v, want nothing", what, len(ctr), s, d, h.T)
				return
			}
			continue
		}
		c.Count("hits among very many", 1)
		c.Distinct(c.Name, k)
		if !(math.Abs(h.T-best) < 1e-5) || h.Material != tracer.Material(mats[which%3]) {
			c.Failf("%s of %d balls: ray %v %v hits at %v, want %v (ball %d at %v)", what, len(ctr), s, d, h.T, best, which, ctr[which])
			return
		}
	}
}

// a wavy sheet of n x n points.
func wavy(u, v float64) Vec {
	return Vec{4*u - 2, .3 * math.Sin(7*u) * math.Cos(5*v), 4*v - 2}
}

func judgeWavy(c *C, what string, o objects.Interface, n int) {
	h := 4 / float64(n-1)
	tol := 20*h*h + 1e-6 // chord error
	for k := 0; k < 500; k++ {
		u, v := c.Float64(), c.Float64()
		p := wavy(u, v)
		// nearly vertical rays cross the sheet once
		d := unit(Vec{uni(c.Rand, -.2, .2), -1, uni(c.Rand, -.2, .2)})
		r := Ray{Start: madd(p, -uni(c.Rand, 1, 9), d), Dir: d}
		hit := o.Intersect(&r)
		c.Eval(1)
		if m := math.Min(math.Min(u, 1-u), math.Min(v, 1-v)); m < 2/float64(n) {
			continue
		}
		c.Count("hits on large meshes", 1)
		c.Distinct(c.Name, what, k)
		if q := madd(r.Start, hit.T, d); !(hit.T > 0) || !(dist(q, p) < tol) {
			c.Failf("%s of %dx%d points: ray %v %v hits at %v, want %v", what, n, n, r.Start, d, q, p)
			return
		}
		// the normal follows the surface
		e := 1e-4
		nrm := unit(cross(sub(wavy(u+e, v), wavy(u-e, v)), sub(wavy(u, v+e), wavy(u, v-e))))
		if dt := math.Abs(dot(unit(hit.Normal), nrm)); !(dt > .99) {
			c.Failf("%s of %dx%d points: at %v the normal is %v, want %v", what, n, n, p, hit.Normal, nrm)
			return
		}
	}
}

// C01: meshes of more than 2^16 vertices.
func bigMesh(c *C) {
	n := 258 + c.Intn(60)
	judgeWavy(c, "Parametric", objects.Parametric(&probeMat{1}, n, n, wavy), n)
	v, f := wavyMesh(n)
	judgeWavy(c, "Mesh", objects.Mesh(&probeMat{1}, v, f), n)
}

func wavyMesh(n int) (v []Vec, f [][3]int) {
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			v = append(v, wavy(float64(i)/float64(n-1), float64(j)/float64(n-1)))
			if i > 0 && j > 0 {
				k := i*n + j
				f = append(f, [3]int{k - n - 1, k - 1, k}, [3]int{k - n - 1, k, k - n})
			}
		}
	}
	return
}

// C26: files of more than 2^16 vertices and faces.
func bigFiles(c *C) {
	n := 258 + c.Intn(40)
	v, f := wavyMesh(n)
	m := fileMesh{v: v}
	for _, t := range f {
		m.f = append(m.f, t[:])
		m.mat = append(m.mat, "red")
	}
	dir := scratch(c)
	defer os.RemoveAll(dir)
	var p, o bytes.Buffer
	fmt.Fprintf(&p, "ply\nformat ascii 1.0\nelement vertex %d\nproperty float x\nproperty float y\nproperty float z\nelement face %d\nproperty list uchar int vertex_indices\nend_header\n", len(v), len(f))
	fmt.Fprintln(&o, "usemtl red")
	for _, x := range v {
		fmt.Fprintln(&p, x[0], x[1], x[2])
		fmt.Fprintln(&o, "v", x[0], x[1], x[2])
	}
	for _, t := range f {
		fmt.Fprintln(&p, 3, t[0], t[1], t[2])
		fmt.Fprintln(&o, "f", t[0]+1, t[1]+1, t[2]+1)
	}
	gv, gf, err := ply.Parse(bytes.NewReader(p.Bytes()))
	c.Eval(len(f))
	if err != nil {
		c.Failf("PLY file of %d vertices is rejected: %v", len(v), err)
	} else if len(gv) != len(v) || len(gf) != len(f) {
		c.Failf("PLY file of %d vertices and %d faces is read as %d and %d", len(v), len(f), len(gv), len(gf))
	} else {
		for i := range v {
			if gv[i] != v[i] {
				c.Failf("PLY vertex %d of %d is %v, want %v", i, len(v), gv[i], v[i])
				break
			}
		}
		for i := range f {
			if !sameTri(gf[i], f[i]) {
				c.Failf("PLY face %d of %d is %v, want %v", i, len(f), gf[i], f[i])
				break
			}
		}
		c.Count("large files", 1)
	}
	fo := filepath.Join(dir, "n.obj")
	must(os.WriteFile(fo, o.Bytes(), 0666))
	of, err := obj.ParseFile(fo)
	if err != nil {
		c.Failf("OBJ file of %d vertices is rejected: %v", len(v), err)
	} else {
		nf := 0
		for _, fs := range of.Faces {
			nf += len(fs)
		}
		if len(of.Vertices) != len(v) || nf != len(f) {
			c.Failf("OBJ file of %d vertices and %d faces is read as %d and %d", len(v), len(f), len(of.Vertices), nf)
		}
		c.Count("large files", 1)
	}
	for ext, b := range map[string][]byte{"ply": p.Bytes(), "obj": o.Bytes()} {
		fname := filepath.Join(dir, "m."+ext)
		must(os.WriteFile(fname, b, 0666))
		if ext == "ply" {
			judgeWavy(c, "PlyFile", objects.PlyFile(&probeMat{1}, fname), n)
		} else {
			judgeWavy(c, "ObjFile", objects.ObjFile(map[string]tracer.Material{"red": &probeMat{1}}, fname), n)
		}
	}
	c.Distinct(c.Name)
}

// C08: images of thousands of tiles.
func manyTiles(c *C) {
	w, h := 600+c.Intn(200), 500+c.Intn(200)
	if c.Intn(3) == 0 {
		w, h = 20000+c.Intn(5000), 1+c.Intn(40)
	}
	n := make([]int32, w*h)
	f := func(ctx *tracer.Ctx, u, v float64) Color {
		ix, iy := pixOf(w, h, u, v)
		k := atomic.AddInt32(&n[iy*w+ix], 1)
		return Color{R: float64(k), G: float64(ix), B: float64(iy)}
	}
	s := tracer.NewSampler(f, w, h, false)
	for pass := 1; pass <= 3; pass++ {
		s.Sample(1)
		img := s.Image()
		if !checkSize(c, img, w, h) {
			return
		}
		for y := range img {
			for x, p := range img[y] {
				c.Eval(1)
				want := Color{R: float64(pass+1) / 2, G: float64(x), B: float64(y)}
				if int(n[y*w+x]) != pass || !(cdiff(p, want) < 1e-9*(1+cmax(want))) {
					c.Failf("pixel %d,%d of %dx%d has %d samples after %d passes and is %v, want %v", x, y, w, h, n[y*w+x], pass, p, want)
					return
				}
			}
		}
	}
	c.Count("pixels in large images", w*h)
	c.Distinct(c.Name)
}

// C13: hundreds of balls.
func crowdedScene(c *C) {
	n := 100 + c.Intn(500)
	rad := uni(c.Rand, .2, 1)
	var ctr []Vec
	var objs []tracer.Object
	cols := make([]Color, n)
	for i := 0; i < n; i++ {
		p := rvec(c.Rand, 10)
		ctr = append(ctr, p)
		cols[i] = rcol(c.Rand)
		objs = append(objs, objects.Sphere(materials.Flat(cols[i]), 2*rad, p))
	}
	sky := rcol(c.Rand)
	objs = append(objs, objects.Backdrop(materials.Flat(sky)))
	sc := newScene(c, 1, nil, shuffled(c, objs))
	ctx := newCtx(c)
	for k := 0; k < 100; k++ {
		s, d := rvec(c.Rand, 15), rdir(c.Rand)
		best, want, ok := math.Inf(1), sky, true
		for i, p := range ctr {
			b, e := dot(sub(p, s), d), length(cross(sub(p, s), d))
			if math.Abs(e-rad) < 1e-6 || math.Abs(dist(p, s)-rad) < 1e-4 {
				ok = false
			}
			if e < rad {
				q := math.Sqrt(rad*rad - e*e)
				for _, t := range []float64{b - q, b + q} {
					if t > 0 && math.Abs(t-best) < 1e-6 {
						ok = false
					}
					if t > 0 && t < best {
						best, want = t, cols[i]
					}
				}
			}
		}
		if !ok {
			continue
		}
		c.Eval(1)
		c.Count("rays into crowded scenes", 1)
		if got := sc.LightField(ctx, &Ray{Start: s, Dir: d}); !(cdiff(got, want) < 1e-9) {
			c.Failf("scene of %d balls: ray %v %v sees %v, want %v", n, s, d, got, want)
			return
		}
	}
	c.Distinct(c.Name)
}

// C14, C18: many panes in a row.
func panes(c *C, n int) (objs []tracer.Object, filter Color) {
	filter = Color{R: 1, G: 1, B: 1}
	for i := 0; i < n; i++ {
		f := Color{R: uni(c.Rand, .9, 1), G: uni(c.Rand, .8, 1), B: uni(c.Rand, .95, 1)}
		filter = cmul3(filter, f)
		var t texture.Texture = f
		objs = append(objs, objects.Rectangle(materials.Transparent(t, false), 100, 100, Vec{0, float64(i + 1), 0}))
	}
	return
}

func manyPanes(c *C) {
	n := 1 + c.Intn(200)
	objs, filter := panes(c, n)
	sc := newScene(c, 1, nil, shuffled(c, objs))
	d := unit(Vec{uni(c.Rand, -.1, .1), 1, uni(c.Rand, -.1, .1)})
	orig := cmul(5, rcol(c.Rand))
	r := Ray{Start: Vec{}, Dir: d}
	want := cmul3(filter, orig)
	c.Eval(1)
	c.Count("stacks of panes", 1)
	c.Distinct(c.Name)
	if got := sc.Occlude(&r, (float64(n)+.5)/d[1], orig); !(cdiff(got, want) < 1e-9) {
		c.Failf("light through %d panes: %v of %v, want %v", n, got, orig, want)
	}
	// one that is opaque blocks all
	wall := objects.Rectangle(materials.Flat(orig), 100, 100, Vec{0, float64(c.Intn(n)) + .5, 0})
	sc = newScene(c, 1, nil, shuffled(c, append(objs, wall)))
	if got := sc.Occlude(&r, (float64(n)+.5)/d[1], orig); got != (Color{}) {
		c.Failf("light through %d panes and a wall: %v", n, got)
	}
}

// C15: hundreds of lamps.
func manyLamps(c *C) {
	n := 50 + c.Intn(500)
	var ls []tracer.Light
	var want Color
	alb := rcol(c.Rand)
	for i := 0; i < n; i++ {
		p := add(rvec(c.Rand, 5), Vec{0, 8, 0})
		pow := cmul(logUni(c.Rand, .1, 100), rcol(c.Rand))
		ls = append(ls, lights.PointLight(pow, p))
		L := length(p)
		want = cadd(want, cmul(p[1]/L/(4*math.Pi*L*L), cmul3(pow, alb)))
	}
	sc := newScene(c, 1, ls, []tracer.Object{objects.Rectangle(materials.Matte(alb), 50, 50, Vec{})})
	got := sc.LightField(newCtx(c), &Ray{Start: Vec{1, 1, 1}, Dir: unit(Vec{-1, -1, -1})})
	c.Eval(1)
	c.Count("scenes of many lamps", 1)
	c.Distinct(c.Name)
	if !(cdiff(got, want) < 1e-4*(1+cmax(want))) {
		c.Failf("floor under %d lamps looks %v, want %v", n, got, want)
	}
}

// C24: large images survive encoding and loading.
func bigImage(c *C) {
	w, h := 1+c.Intn(9), 66000+c.Intn(5000)
	switch c.Intn(3) {
	case 0:
		w, h = h, w
	case 1:
		w, h = 400+c.Intn(500), 400+c.Intn(500)
	}
	img := imagef.MakeImage(w, h)
	for y := range img {
		for x := range img[y] {
			k := hash3(1, uint64(x), uint64(y))
			img[y][x] = Color{R: float64(k&0xffff) / 65535, G: float64(k>>16&0xffff) / 65535, B: float64(k>>32&0xffff) / 65535}
		}
	}
	var a, b bytes.Buffer
	if err := ppm.EncodeAscii16(&a, img); err != nil {
		c.Failf("EncodeAscii16 of %dx%d: %v", w, h, err)
	}
	if err := ppm.Encode48BE(&b, img); err != nil {
		c.Failf("Encode48BE of %dx%d: %v", w, h, err)
	}
	f := strings.Fields(a.String())
	head := fmt.Sprintf("P6\n%d %d\n65535\n", w, h)
	if len(f) != 4+3*w*h || len(b.Bytes()) != len(head)+6*w*h {
		c.Failf("PPM of %dx%d: %d fields, %d bytes", w, h, len(f), b.Len())
		return
	}
	d := b.Bytes()[len(head):]
	for n := 0; n < 20000; n++ {
		i := c.Intn(3 * w * h)
		p := img[i/3/w][i/3%w]
		lin := [3]float64{p.R, p.G, p.B}[i%3]
		judgeSRGB(c, "large ascii PPM", lin, float64(atoi(f[4+i])), 65535)
		judgeSRGB(c, "large binary PPM", lin, float64(int(d[2*i])<<8|int(d[2*i+1])), 65535)
	}
	if w > 9 && h > 9 || w*h > 80000 {
		w, h = 1+c.Intn(9), 66000+c.Intn(5000)
		if c.Intn(2) == 0 {
			w, h = h, w
		}
	}
	dir := scratch(c)
	defer os.RemoveAll(dir)
	src := randRGBA(c.Rand, w, h)
	fname := filepath.Join(dir, "big.png")
	writePNG(fname, src)
	got, err := imagef.Load(fname, nil)
	if err != nil {
		c.Failf("loading %dx%d: %v", w, h, err)
		return
	}
	if !checkSize(c, got, w, h) {
		return
	}
	for n := 0; n < 20000; n++ {
		x, y := c.Intn(w), c.Intn(h)
		p := src.NRGBAAt(x, y)
		want := Color{R: refToLinear(float64(p.R) / 255), G: refToLinear(float64(p.G) / 255), B: refToLinear(float64(p.B) / 255)}
		c.Eval(1)
		if !(cdiff(got[h-1-y][x], want) < 1e-6) {
			c.Failf("pixel %d,%d of a %dx%d image is loaded as %v, want %v", x, y, w, h, got[h-1-y][x], want)
			return
		}
	}
	c.Count("large images", 1)
	c.Distinct(c.Name)
}

// C22: sequences of images with very many pixels.
func manyPixels(c *C) {
	n := 1<<20 + c.Intn(1<<18)
	ctx := tracer.NewCtx(n)
	var hist [16]int
	prev := map[[2]float64]int{}
	const N = 4000
	for k := 0; k < N; k++ {
		pix := c.Intn(n)
		if k%2 == 0 {
			pix = n - 1 - c.Intn(n/8)
		}
		ctx.Init(pix, 1)
		ctx.CurrentRecursionDepth = 1
		u, v := ctx.Generate2()
		ctx.CurrentRecursionDepth = 0
		if p, ok := prev[[2]float64{u, v}]; ok && p != pix {
			c.Failf("pixels %d and %d of %d have the same sequence", p, pix, n)
			return
		}
		prev[[2]float64{u, v}] = pix
		hist[int(4*u)*4+int(4*v)]++
		c.Eval(1)
	}
	for i, k := range hist {
		if math.Abs(float64(k)-N/16) > 10*math.Sqrt(N/16) {
			c.Failf("first samples of the pixels of a %d pixel image: %d of %d in cell %d", n, k, N, i)
		}
	}
	c.Count("pixels of large images", N)
	c.Distinct(c.Name)
}

// C18: what is behind a stack of panes.
func panesSeen(c *C) {
	n := 1 + c.Intn(100)
	objs, filter := panes(c, n)
	sky := cmul(5, rcol(c.Rand))
	objs = append(objs, objects.Backdrop(materials.Flat(sky)))
	rec := n + 1 - c.Intn(3)
	if rec < 1 {
		rec = 1
	}
	sc := newScene(c, rec, nil, shuffled(c, objs))
	want := cmul3(filter, sky)
	if rec <= n {
		want = Color{}
	}
	d := unit(Vec{uni(c.Rand, -.1, .1), 1, uni(c.Rand, -.1, .1)})
	got := sc.LightField(newCtx(c), &Ray{Start: Vec{}, Dir: d})
	c.Eval(1)
	c.Count("stacks of panes", 1)
	c.Distinct(c.Name)
	if !(cdiff(got, want) < 1e-9) {
		c.Failf("sky %v through %d panes, recursion %d: %v, want %v", sky, n, rec, got, want)
	}
}

// C25: wide bloom on large images.
func bigBloom(c *C, i int) {
	w, h := 50+c.Intn(150), 50+c.Intn(150)
	switch c.Intn(4) {
	case 0:
		w, h = 1+c.Intn(5), 1000+c.Intn(5000)
	case 1:
		w, h = 1000+c.Intn(5000), 1+c.Intn(5)
	}
	img := imagef.MakeImage(w, h)
	bright := map[[2]int]Color{}
	for k := 1 + c.Intn(3); k > 0; k-- {
		x, y := c.Intn(w), c.Intn(h)
		img[y][x] = cmul(logUni(c.Rand, 2, 1e5), cadd(rcol(c.Rand), Color{R: .1, G: .1, B: .1}))
		bright[[2]int{x, y}] = img[y][x]
	}
	wpix := uni(c.Rand, 3, 20)
	amp, thr := logUni(c.Rand, 1e-2, 10), uni(c.Rand, 0, 1)
	pixelSize := logUni(c.Rand, 1e-4, 1e2)
	airy := func(r, nm float64) float64 { x := 500 / nm * r; return math.Pow(2*math.J1(x)/x, 2) }
	for _, k := range []struct {
		name string
		n    int
		f    func(dx, dy int) Color
		do   func(img imagef.Image, ps, r, a, t float64) imagef.Image
	}{
		{"Gaussian", int(5*wpix) + 1, func(dx, dy int) Color {
			g := math.Exp(-float64(dx*dx+dy*dy) / (wpix * wpix))
			return Color{R: g, G: g, B: g}
		}, post.ApplyGaussianBloom},
		{"Airy", int(8*wpix) + 1, func(dx, dy int) Color {
			if dx == 0 && dy == 0 {
				return Color{R: 1, G: 1, B: 1}
			}
			r := math.Hypot(float64(dx), float64(dy)) / wpix
			return Color{R: airy(r, 700), G: airy(r, 500), B: airy(r, 450)}
		}, post.ApplyAiryBloom},
	} {
		n, sum := k.n, 0.0
		kern := make([]Color, (2*n+1)*(2*n+1))
		for dy := -n; dy <= n; dy++ {
			for dx := -n; dx <= n; dx++ {
				v := k.f(dx, dy)
				kern[(dy+n)*(2*n+1)+dx+n] = v
				sum += (v.R + v.G + v.B) / 3
			}
		}
		want := copyImg(img)
		for p, v := range bright {
			e := Color{R: math.Max(0, v.R-thr), G: math.Max(0, v.G-thr), B: math.Max(0, v.B-thr)}
			for dy := -n; dy <= n; dy++ {
				for dx := -n; dx <= n; dx++ {
					if x, y := p[0]+dx, p[1]+dy; x >= 0 && x < w && y >= 0 && y < h {
						want[y][x] = cadd(want[y][x], cmul(amp/sum, cmul3(e, kern[(dy+n)*(2*n+1)+dx+n])))
					}
				}
			}
		}
		got := k.do(copyImg(img), pixelSize, wpix*pixelSize, amp, thr)
		if !checkSize(c, got, w, h) {
			return
		}
		for y := range got {
			for x := range got[y] {
				c.Eval(1)
				if !(cdiff(got[y][x], want[y][x]) < 1e-8*(1+cmax(want[y][x]))) && (int(5*wpix)+1 == int(5*(wpix*pixelSize)/pixelSize)+1) && int(8*wpix) == int(8*(wpix*pixelSize)/pixelSize) {
					c.Failf("%s bloom of %v pixels on %dx%d, amplitude %v, threshold %v: pixel %d,%d is %v, want %v", k.name, wpix, w, h, amp, thr, x, y, got[y][x], want[y][x])
					return
				}
			}
		}
	}
	c.Count("large blooms", 1)
	c.Distinct(c.Name)
}

// slowCam makes every n'th ray wait.
type slowCam struct {
	rCam
	calls, each int64
	delay       time.Duration
}

func (k *slowCam) RayFrom(ctx *tracer.Ctx, u, v float64) *Ray {
	if n := atomic.LoadInt64(&k.each); n > 0 && atomic.AddInt64(&k.calls, 1)%n == 0 {
		time.Sleep(k.delay)
	}
	r := ctx.Ray()
	r.Start, r.Dir = k.ray(u, v)
	return r
}

// C27: large images, and some that take long.
func serverLong(c *C, i int) {
	f := smoothTex(c.Rand)
	cam := &slowCam{rCam: rCam{fov: uni(c.Rand, .5, 1.8), m: ident}}
	spec := api.Spec{Objects: []api.Object{{Interface: objects.Backdrop(materials.Flat(texture.Func(f)))}}, Camera: cam, Recursion: 1}
	spec.InitDefaults()
	cl := startServer(spec)
	judge := func(what string, a answer, v api.View) {
		c.Eval(1)
		if a.err != nil || a.status != 200 {
			c.Failf("%s %+v: status %d %q %v after %v", what, v, a.status, a.body, a.err, a.end.Sub(a.start))
			return
		}
		if !checkSize(c, a.img, v.Width, v.Height) {
			return
		}
		kv := cam.rCam.view(v)
		for iy := range a.img {
			for ix := range a.img[iy] {
				u, w := pixCenter(v.Width, v.Height, ix, iy)
				_, d := kv.ray(u, w)
				if !(cdiff(a.img[iy][ix], f(d)) < 1e-9) {
					c.Failf("%s %+v: pixel %d,%d is %v, want %v", what, v, ix, iy, a.img[iy][ix], f(d))
					return
				}
			}
		}
		c.Count("images judged", 1)
		c.Count("large images judged", 1)
		c.Distinct(c.Name, what)
	}
	v := api.View{Width: 700 + c.Intn(400), Height: 500 + c.Intn(400), CamYaw: uni(c.Rand, -3, 3), CamPitch: uni(c.Rand, -1, 1)}
	judge("large bake", cl.view("/bake", v), v)
	judge("large preview", cl.view("/preview", v), v)
	if i == 0 {
		v = api.View{Width: 1 + c.Intn(5), Height: 5000 + c.Intn(5000), CamYaw: uni(c.Rand, -3, 3)}
		judge("high bake", cl.view("/bake", v), v)
	}
	// about 12 s (thorough: 70 s)
	want := 12 * time.Second
	if c.t.Thorough() {
		want = 70 * time.Second
	}
	v = api.View{Width: 64, Height: 64, CamYaw: uni(c.Rand, -3, 3)}
	cam.delay = want / 64 // from 8 workers at most, so at least want/8..
	atomic.StoreInt64(&cam.each, 8)
	path := []string{"/bake", "/preview"}[i]
	a := cl.view(path, v)
	c.Count(fmt.Sprintf("requests that took %d x 10 s", int(a.end.Sub(a.start).Seconds()/10)), 1)
	judge("slow "+path, a, v)
	atomic.StoreInt64(&cam.each, 0)
	v.CamYaw++
	judge("bake after a slow request", cl.view("/bake", v), v)
}

// serverMany refines one small view by many bakes, and serves others next to clients that do not read their answers.
func serverMany(c *C, i int) {
	f := smoothTex(c.Rand)
	base := rCam{fov: uni(c.Rand, 0.5, 1.8), m: ident}
	cam := &logCam{orig: &base}
	spec := api.Spec{Objects: []api.Object{{Interface: objects.Backdrop(materials.Flat(texture.Func(f)))}}, Camera: cam, Recursion: 1}
	spec.InitDefaults()
	cl := startServer(spec)
	v := api.View{Width: 1 + c.Intn(2), CamYaw: uni(c.Rand, -3, 3), CamPitch: uni(c.Rand, -1, 1), AntiAlias: true}
	v.Height = v.Width
	sum := imagef.MakeImage(v.Width, v.Height)
	cnt := make([][2]float64, v.Width) // samples per column and row
	kv := base.view(v)
	many := 70
	if c.Thorough() {
		many = 400
	}
	for n := 1; n <= many; n++ {
		cam.take()
		a := cl.view("/bake", v)
		if a.err != nil || a.status != 200 {
			c.Failf("bake %d of %+v: status %d %q %v", n, v, a.status, a.body, a.err)
			return
		}
		if !checkSize(c, a.img, v.Width, v.Height) {
			return
		}
		for _, p := range cam.take() {
			ix, iy := pixOf(v.Width, v.Height, p[0], p[1])
			ix, iy = clampi(ix, 0, v.Width-1), clampi(iy, 0, v.Height-1)
			_, d := kv.ray(p[0], p[1])
			sum[iy][ix] = cadd(sum[iy][ix], f(d))
			cnt[ix][iy]++
		}
		for iy := range sum {
			for ix := range sum[iy] {
				c.Eval(1)
				if want := cmul(1/cnt[ix][iy], sum[iy][ix]); !(cdiff(a.img[iy][ix], want) < 1e-8) {
					c.Failf("bake %d of view %+v: pixel %d,%d is %v, but the mean of all its %v samples is %v", n, v, ix, iy, a.img[iy][ix], cnt[ix][iy], want)
					return
				}
			}
		}
		c.Count("progressive bakes", 1)
	}
	// somebody asks for a large image but does not read it
	slow := api.View{Width: 700, Height: 700, CamYaw: 1}
	body, err := json.Marshal(slow)
	must(err)
	for _, path := range []string{"/preview", "/bake"} {
		conn, err := net.Dial("tcp", cl.addr)
		must(err)
		defer conn.Close()
		conn.(*net.TCPConn).SetReadBuffer(4096)
		cam.take()
		fmt.Fprintf(conn, "POST %s HTTP/1.1\r\nHost: x\r\nContent-Length: %d\r\n\r\n%s", path, len(body), body)
		for k, n := 0, 0; k < 6000 && n < slow.Width*slow.Height; k++ {
			time.Sleep(10 * time.Millisecond)
			n += len(cam.take())
			heartbeat(c.Name)
		}
		time.Sleep(time.Second)
		for k, other := range []string{"/preview", "/bake", "/cancel", "/preview", "/bake"} {
			ctx, stop := context.WithTimeout(context.Background(), 60*time.Second)
			o := api.View{Width: 1 + k, Height: 2, CamYaw: 2}
			b, err := json.Marshal(o)
			must(err)
			a := cl.do(ctx, other, b, true)
			for k := 0; k < 1000 && other == "/bake" && a.err == nil && a.status != 200; k++ {
				// the bake nobody reads may be still going on
				time.Sleep(50 * time.Millisecond)
				a = cl.do(ctx, other, b, true)
			}
			stop()
			c.Eval(1)
			c.Count("requests next to a client that does not read", 1)
			if a.err != nil || a.status != 200 {
				c.Failf("%s is answered with status %d %q %v while an other client does not read its %s", other, a.status, a.body, a.err, path)
				return
			}
			if other != "/cancel" {
				checkSize(c, a.img, o.Width, o.Height)
			}
		}
	}
}
