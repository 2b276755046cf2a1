package main

import (
	"fmt"
	"math"

	"github.com/barnex/bruteray/geom"
	"github.com/barnex/bruteray/texture"
	"github.com/barnex/bruteray/tracer"
	"github.com/barnex/bruteray/tracer/lights"
	"github.com/barnex/bruteray/tracer/materials"
	"github.com/barnex/bruteray/tracer/media"
	"github.com/barnex/bruteray/tracer/objects"
)

// refPlanar is an independent description of a rectangle or disk light:
// it emits radiance b (as seen by a camera) from its lower side.
type refPlanar struct {
	b    Color
	w, h float64
	disk bool
	ctr  Vec
	tr   Sim // applied last
	name string
}

func identSim() Sim { return Sim{S: 1, R: Mat3{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}} }

// point on the light with relative coordinates a, b in [-1, 1].
func (l *refPlanar) at(a, b float64) Vec {
	return l.tr.point(add(l.ctr, Vec{a * l.w / 2, 0, b * l.h / 2}))
}
func (l *refPlanar) normal() Vec { return unit(l.tr.dir(Vec{0, -1, 0})) } // emitting side
func (l *refPlanar) area() float64 {
	a := l.w * l.h * l.tr.S * l.tr.S
	if l.disk {
		a *= math.Pi / 4
	}
	return a
}

// local inverts at, y is the distance above the plane in the light's own frame
func (l *refPlanar) local(p Vec) (a, b, y float64) {
	q := sub(l.tr.invPoint(p), l.ctr)
	return q[0] / (l.w / 2), q[2] / (l.h / 2), q[1]
}

// intensity that Sample should return for a sample at p: irradiance/π per unit of cos at the receiver.
func (l *refPlanar) intensity(p, target Vec) Color {
	d := sub(target, p)
	cos := dot(l.normal(), unit(d))
	if cos < 0 {
		cos = 0
	}
	return cmul(l.area()*cos/(math.Pi*dot(d, d)), l.b)
}

// integrate f over the light surface (average over the area), n*n points
func (l *refPlanar) average(n int, f func(p Vec) Color) Color {
	var acc Color
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			u, v := (float64(i)+.5)/float64(n), (float64(j)+.5)/float64(n)
			a, b := 2*u-1, 2*v-1
			if l.disk {
				r := math.Sqrt(u)
				a, b = r*math.Cos(2*math.Pi*v), r*math.Sin(2*math.Pi*v)
			}
			acc = cadd(acc, f(l.at(a, b)))
		}
	}
	return cmul(1/float64(n*n), acc)
}

func (g *gen) planarLight(transf bool) (tracer.Light, *refPlanar) {
	b := cmul(uni(g.Rand, 0.5, 5), rcol(g.Rand))
	ctr := rvec(g.Rand, 2)
	w, h := uni(g.Rand, 0.1, 2), uni(g.Rand, 0.1, 2)
	ref := &refPlanar{b: b, w: w, h: h, ctr: ctr, tr: identSim()}
	var l tracer.Light
	if g.Intn(2) == 0 {
		l = lights.RectangleLight(b, w, h, ctr)
		ref.name = "rectangle"
	} else {
		ref.h, ref.disk = w, true
		l = lights.DiskLight(b, w, ctr)
		ref.name = "disk"
	}
	if transf {
		for k := 1 + g.Intn(2); k > 0; k-- {
			t, s := g.sim()
			l = lights.Transformed(l, t)
			ref.tr = compose(ref.tr, s)
			ref.name = "transformed " + ref.name
		}
	}
	return l, ref
}

func init() {
	register(&Check{
		ID:   "C16",
		Rule: "rectangle, disk and sun lights, plain and (repeatedly) transformed, sampled for random targets at many passes; positions, distribution and intensity against the light's own visible surface and against numeric integration, also end to end on a matte floor with an occluder; non-trivial: target on the lit side",
		Run: func(t *T) {
			t.Cases("sample", t.N(200, 2500), func(c *C, i int) { lightSamples(c) })
			t.Cases("receive", t.N(60, 1000), func(c *C, i int) { lightReceiver(c) })
			t.Cases("sun", t.N(30, 1000), func(c *C, i int) { sunLight(c) })
			t.Require("samples lit", 10000)
			t.Require("samples behind", 3000)
			t.Require("receivers in penumbra", 5)
			t.Require("sun positions", 200)
		},
	})

	register(&Check{
		ID:   "C17",
		Rule: "closed-form situations of indirect light with random geometry, reflectivity, radiance and recursion depth: convex matte body in uniform and in quadratic directional surroundings, emitting enclosure, matte sphere lit from inside by disk lights on its wall (all orders of interreflection), area light not counted twice; averages over passes; non-trivial: expected indirect light is not zero",
		Run: func(t *T) {
			t.Cases("uniform", t.N(60, 2500), func(c *C, i int) { uniformSky(c) })
			t.Cases("furnace", t.N(60, 2500), func(c *C, i int) { furnace(c) })
			t.Cases("directional", t.N(40, 1000), func(c *C, i int) { directionalSky(c) })
			t.Cases("twice", t.N(60, 1000), func(c *C, i int) { notTwice(c) })
			t.Cases("integrating", t.N(40, 1000), func(c *C, i int) { integratingSphere(c) })
			t.Require("uniform sky rays", 1000)
			t.Require("integrating sphere averages", 30)
			t.Require("furnace rays", 1000)
			t.Require("directional averages", 50)
			t.Require("area light averages", 40)
			t.Require("area lights behind glass", 5)
		},
	})

	register(&Check{
		ID:   "C20",
		Rule: "random homogeneous fogs (density, height, color, several layers) over random flat, mirror and empty scenes, viewed from above and below the fog boundary along any direction including exactly horizontal and vertical; absorption per ray and scattered point-light averages against the Beer-Lambert law; non-trivial: positive fog path",
		Run: func(t *T) {
			t.Cases("expfog", t.N(200, 8000), func(c *C, i int) { expFogCase(c) })
			t.Cases("fog", t.N(60, 1500), func(c *C, i int) { fogCase(c) })
			t.Cases("thinfog", t.N(60, 1500), func(c *C, i int) { thinFog(c) })
			t.Require("rays far through thin fog", 500)
			t.Require("rays through fog", 3000)
			t.Require("rays missing fog", 500)
			t.Require("reflected rays unaffected", 100)
			t.Require("scatter averages", 80)
			t.Require("scatter averages with shadow", 10)
		},
	})
}

func lightSamples(c *C) {
	g := newGen(c.Rand)
	l, ref := g.planarLight(c.Intn(2) == 0)
	const npix = 16
	ctx := tracer.NewCtx(npix)
	ctx.CurrentRecursionDepth = 1 + c.Intn(3)
	scale := ref.tr.S
	size := scale * math.Max(ref.w, ref.h)
	center := ref.at(0, 0)
	far := uni(c.Rand, 0.3, 5)
	if c.Intn(3) == 0 {
		far = logUni(c.Rand, 5, 500) // also of a far light every part counts
	}
	target := madd(center, size*far, rdir(c.Rand))
	const N = 1536
	pix := c.Intn(npix)
	var hist [4][4]int
	var sumI, sumRef Color
	bad := 0
	pass0 := c.Intn(3) * 1000
	for pass := pass0; pass < pass0+N; pass++ {
		ctx.Init(pix, pass)
		p, I := l.Sample(ctx, target)
		c.Eval(1)
		a, b, y := ref.local(p)
		on := math.Abs(y) < 1e-4*(1+1/scale)+1e-6*ref.w
		if ref.disk {
			on = on && math.Hypot(a, b) <= 1+1e-6
		} else {
			on = on && math.Abs(a) <= 1+1e-6 && math.Abs(b) <= 1+1e-6
		}
		if !on {
			bad++
			if bad == 1 {
				c.Failf("%s light: sampled position %v is not on the light (relative coordinates %v %v, height %v)", ref.name, p, a, b, y)
			}
			continue
		}
		// equal-area cells
		u, v := (a+1)/2, (b+1)/2
		if ref.disk {
			u, v = a*a+b*b, (math.Atan2(b, a)+math.Pi)/(2*math.Pi)
		}
		hist[clampi(int(4*u), 0, 3)][clampi(int(4*v), 0, 3)]++
		// intensity matches the surface
		want := ref.intensity(p, target)
		if wm, d := cmax(want), cdiff(I, want); d > 1e-3*wm+1e-4*cmax(ref.b)*ref.area()/math.Pi/math.Max(1e-12, dot(sub(p, target), sub(p, target))) {
			bad++
			if bad == 1 {
				c.Failf("%s light: intensity of sample at %v for target %v is %v, want %v", ref.name, p, target, I, want)
			}
		}
		if cmax(want) > 0 {
			c.Count("samples lit", 1)
		} else {
			c.Count("samples behind", 1)
		}
		sumI, sumRef = cadd(sumI, I), cadd(sumRef, want)
	}
	if cmax(sumRef) > 0 {
		c.Distinct(c.Name)
	}
	// uniform: 6 sigma of a pseudo-random sequence
	for i := range hist {
		for j := range hist[i] {
			if math.Abs(float64(hist[i][j])-N/16) > 6*math.Sqrt(N/16) {
				c.Failf("%s light: sampled positions are not uniform over the surface: %v of %d samples in 1/16 of the area (recursion depth %d): %v", ref.name, hist[i][j], N, ctx.CurrentRecursionDepth, hist)
			}
		}
	}
	// looking back from the target we see the light itself, with the same brightness
	d := sub(ref.at(uni(c.Rand, -.6, .6), uni(c.Rand, -.6, .6)), target)
	cosv := dot(unit(d), ref.normal())
	ray := Ray{Start: target, Dir: unit(d)}
	h := l.Object().Intersect(&ray)
	if math.Abs(cosv) > 0.02 {
		if !(math.Abs(h.T-length(d)) < 1e-5*(1+length(d))) {
			c.Failf("%s light: seen at distance %v instead of %v", ref.name, h.T, length(d))
		} else {
			sc := tracer.NewScene(1, []tracer.Light{l})
			ctx.CurrentRecursionDepth = 0
			got := sc.LightField(ctx, &ray)
			want := ref.b
			if cosv > 0 {
				want = Color{} // dark side
			}
			if cdiff(got, want) > 1e-9*(1+cmax(want)) {
				c.Failf("%s light: looks %v from %v, want %v", ref.name, got, target, want)
			}
		}
	}
	c.Sample("%s light %.4gx%.4g area %.4g: %d samples for target %.4g, mean intensity %.4g (surface gives %.4g)", ref.name, ref.w, ref.h, ref.area(), N, target, cmul(1./N, sumI), cmul(1./N, sumRef))
}

// matte floor lit by an area light, with an optional sphere in between.
func lightReceiver(c *C) {
	g := newGen(c.Rand)
	b := cmul(uni(c.Rand, 0.5, 5), rcol(c.Rand))
	w, h := uni(c.Rand, 0.3, 2), uni(c.Rand, 0.3, 2)
	ref := &refPlanar{b: b, w: w, h: h, ctr: Vec{0, uni(c.Rand, 1, 3), 0}, tr: identSim(), name: "rectangle"}
	var l tracer.Light
	if c.Intn(2) == 0 {
		ref.disk, ref.h, ref.name = true, w, "disk"
		l = lights.DiskLight(b, w, ref.ctr)
	} else {
		l = lights.RectangleLight(b, w, h, ref.ctr)
	}
	if c.Intn(2) == 0 {
		axis, ang := rdir(c.Rand), uni(c.Rand, -1, 1)
		l = lights.Transformed(l, geom.Rotate(ref.ctr, axis, ang))
		ref.tr = aroundOrigin(ref.ctr, Sim{S: 1, R: rotM(axis, ang)})
	}
	rho := rcol(c.Rand)
	rs := newRScene(1)
	objs := []tracer.Object{objects.Rectangle(materials.Matte(rho), 40, 40, Vec{})}
	occl := c.Intn(3) > 0
	if occl {
		ctr := Vec{uni(c.Rand, -.5, .5), ref.ctr[1] * uni(c.Rand, .3, .6), uni(c.Rand, -.5, .5)}
		r := uni(c.Rand, .1, .3)
		pm := &probeMat{3}
		rs.mats[pm] = &rFlat{}
		rs.objs = append(rs.objs, &refSphere{c: ctr, r: r, mat: pm})
		objs = append(objs, objects.Sphere(materials.Flat(Color{}), 2*r, ctr))
	}
	_ = g
	sc := tracer.NewScene(1, []tracer.Light{l}, objs...)
	ctx := tracer.NewCtx(16)
	for k := 0; k < 4; k++ {
		p := Vec{uni(c.Rand, -1.5, 1.5), 0, uni(c.Rand, -1.5, 1.5)}
		nvis, ntot := 0, 0
		want := ref.average(60, func(q Vec) Color {
			ntot++
			tr, ok := rs.visible(p, q)
			if ok && tr == (Color{}) {
				return Color{}
			}
			nvis++
			cos := dot(unit(sub(q, p)), Vec{0, 1, 0})
			if cos < 0 {
				return Color{}
			}
			return cmul(cos, ref.intensity(q, p))
		})
		want = cmul3(want, rho)
		const N = 6000
		var got Color
		start := madd(p, 1, Vec{uni(c.Rand, -.3, .3), .3, uni(c.Rand, -.3, .3)})
		blockedView := false
		if occl {
			s := rs.objs[0].(*refSphere)
			if dist(start, s.c) < s.r*1.1 || func() bool {
				hits, _ := s.Hits(start, sub(p, start))
				return len(hits) > 0 && hits[0].T > -1e-3 && hits[0].T < 1
			}() {
				blockedView = true
			}
		}
		// the eye must not be behind the light either
		if h := l.Object().Intersect(&Ray{Start: start, Dir: unit(sub(p, start))}); blockedView || h.T > 0 && h.T < dist(p, start) {
			continue
		}
		pix := c.Intn(16)
		for pass := 0; pass < N; pass++ {
			ctx.Init(pix, pass)
			got = cadd(got, sc.LightField(ctx, &Ray{Start: start, Dir: unit(sub(p, start))}))
		}
		got = cmul(1./N, got)
		c.Eval(1)
		c.Distinct(c.Name, k)
		if occl && nvis > ntot/20 && nvis < ntot*19/20 {
			c.Count("receivers in penumbra", 1)
		}
		// standard error bound: unoccluded peak value times Bernoulli noise
		peak := 0.0
		ref.average(12, func(q Vec) Color {
			if v := cmax(cmul3(cmul(math.Max(0, dot(unit(sub(q, p)), Vec{0, 1, 0})), ref.intensity(q, p)), rho)); v > peak {
				peak = v
			}
			return Color{}
		})
		if !(cdiff(got, want) < 0.03*cmax(want)+0.02*peak+1e-9) {
			c.Failf("matte floor at %v under a %s light %+v (occluder %v): average of %d passes is %v, want %v", p, ref.name, *ref, rs.objs, N, got, want)
		}
		c.Sample("matte floor under %s light: average %.4g, integral %.4g, visible fraction %d/%d", ref.name, got, want, nvis, ntot)
	}
}

func sunLight(c *C) {
	b := cmul(uni(c.Rand, .2, 2), rcol(c.Rand))
	ang := uni(c.Rand, 0.002, 0.2)
	yaw, pitch := uni(c.Rand, -math.Pi, math.Pi), uni(c.Rand, -.4*math.Pi, .5*math.Pi)
	switch c.Intn(6) {
	case 0:
		yaw = 0
	case 1:
		pitch = math.Pi / 2
	}
	l := lights.SunLight(b, ang, yaw, pitch)
	// towards the sun: north is -z, yaw counterclockwise, pitch upwards
	dir := Vec{-math.Cos(pitch) * math.Sin(yaw), math.Sin(pitch), -math.Cos(pitch) * math.Cos(yaw)}
	ctx := tracer.NewCtx(16)
	ctx.CurrentRecursionDepth = 1 + c.Intn(2)
	target := rvec(c.Rand, 100)
	const N = 500
	var sum Color
	var mean Vec
	pix := c.Intn(16)
	for pass := 0; pass < N; pass++ {
		ctx.Init(pix, pass)
		p, I := l.Sample(ctx, target)
		d := unit(sub(p, target))
		c.Eval(1)
		if a := math.Acos(math.Min(1, dot(d, dir))); a > ang/2+1e-3 {
			c.Failf("sun (diameter %v, yaw %v pitch %v) shines from direction %v, %v rad away from its centre %v", ang, yaw, pitch, d, a, dir)
			return
		}
		sum = cadd(sum, I)
		mean = add(mean, d)
	}
	sum = cmul(1./N, sum)
	if cdiff(sum, b) > (0.01+ang*ang)*cmax(b) {
		c.Failf("sun (diameter %v, yaw %v pitch %v) delivers %v on a perpendicular surface, want %v", ang, yaw, pitch, sum, b)
	}
	if a := math.Acos(math.Min(1, dot(unit(mean), dir))); a > ang*.15+1e-3 {
		c.Failf("sun (diameter %v) light comes on average from %v, want %v", ang, unit(mean), dir)
	}
	c.Count("sun positions", 1)
	c.Distinct(c.Name)
	// visible disk
	sc := tracer.NewScene(1, []tracer.Light{l})
	ctx.CurrentRecursionDepth = 0
	for k := 0; k < 10; k++ {
		e := unit(cross(dir, rdir(c.Rand)))
		f := uni(c.Rand, 0, 2)
		if math.Abs(f-1) < 0.1 {
			continue
		}
		look := unit(madd(dir, math.Tan(f*ang/2), e))
		got := sc.LightField(ctx, &Ray{Dir: look})
		want := Color{}
		if f < 1 {
			want = cmul(4/(ang*ang), b)
		}
		c.Eval(1)
		if cdiff(got, want) > 1e-6*(1+cmax(want)) {
			c.Failf("sun (diameter %v, direction %v): looking %v radii off centre sees %v, want %v", ang, dir, f, got, want)
		}
	}
	c.Sample("sun diameter %.3g yaw %.3g pitch %.3g: mean intensity %.4g (specified %.4g)", ang, yaw, pitch, sum, b)
}

// ---- indirect light

func uniformSky(c *C) {
	g := newGen(c.Rand)
	L, rho := cmul(exposure(c)*uni(c.Rand, .2, 3), rcol(c.Rand)), rcol(c.Rand)
	mat := materials.Matte(rho)
	g.matFn = func() tracer.Material { return mat }
	p := g.prim([]int{kSphere, kBox, kBoxBounds, kDisk, kRect}[c.Intn(5)])
	if c.Intn(2) == 0 {
		t, s := g.sim()
		p = p.transformed(t, s)
	}
	rec := 1 + c.Intn(4)
	sc := tracer.NewScene(rec, nil, p.O, objects.Backdrop(materials.Flat(L)))
	ctx := newCtx(c)
	for k := 0; k < 20; k++ {
		s := madd(p.C, (2+3*c.Float64())*(p.Rad+.1), rdir(c.Rand))
		d := unit(sub(madd(p.C, p.Rad*c.Float64()*.7, rdir(c.Rand)), s))
		h, st, _ := refNearest(p.R, s, d)
		if st == 2 {
			continue
		}
		if st == 1 && math.Abs(dot(unit(h.N), d)) < 0.02 {
			continue
		}
		ctx.Init(c.Intn(64), c.Intn(10000))
		got := sc.LightField(ctx, &Ray{Start: s, Dir: d})
		c.Eval(1)
		want := L
		if st == 1 {
			want = Color{}
			if rec > 1 {
				want = cmul3(L, rho)
			}
			c.Count("uniform sky rays", 1)
			c.Distinct(c.Name, k)
		}
		if !(cdiff(got, want) < 1e-9*cmax(want)+1e-15) {
			c.Failf("convex matte body (reflectivity %v) under a uniform sky %v, recursion %d: looks %v, want %v\n%s", rho, L, rec, got, want, describe(p, s, d))
		}
	}
}

// exposure is the overall brightness of a scene: mostly ordinary, sometimes very dark or bright.
func exposure(c *C) float64 {
	if c.Intn(2) == 0 {
		return 1
	}
	return logUni(c.Rand, 1e-5, 1e5)
}

// glowing matte: emits e and reflects rho.
func furnace(c *C) {
	e, rho := cmul(exposure(c), rcol(c.Rand)), rcol(c.Rand)
	a, b := uni(c.Rand, .2, 1.5), 1.0
	mat := materials.Blend(a, materials.Flat(e), b, materials.Matte(rho))
	var o Interface
	ctr := rvec(c.Rand, 5)
	R := logUni(c.Rand, 0.5, 20)
	switch c.Intn(3) {
	case 0:
		o = objects.Sphere(mat, 2*R, ctr)
	case 1:
		o = objects.Box(mat, 2*R, 3*R, 2.5*R, ctr)
	default:
		o = objects.Hollow(objects.Sphere(mat, 2*R, ctr))
	}
	if c.Intn(2) == 0 {
		o = objects.Transformed(o, geom.Rotate(ctr, rdir(c.Rand), uni(c.Rand, 0, 6)))
	}
	rec := 1 + c.Intn(6)
	sc := tracer.NewScene(rec, nil, o)
	ctx := newCtx(c)
	want, pw := Color{}, cmul(a, e)
	for k := 0; k < rec; k++ {
		want = cadd(want, pw)
		pw = cmul3(pw, rho)
	}
	for k := 0; k < 20; k++ {
		ctx.Init(c.Intn(64), c.Intn(10000))
		s := madd(ctr, R*.8*c.Float64(), rdir(c.Rand))
		got := sc.LightField(ctx, &Ray{Start: s, Dir: rdir(c.Rand)})
		c.Eval(1)
		c.Count("furnace rays", 1)
		if !(cdiff(got, want) < 1e-9*cmax(want)+1e-15) {
			c.Failf("enclosure emitting %v with reflectivity %v, recursion %d: looks %v, want %v", cmul(a, e), rho, rec, got, want)
		}
	}
	c.Distinct(c.Name)
	c.Sample("enclosure R=%.3g emitting %.4g, reflectivity %.4g, recursion %d: sees %.4g everywhere", R, cmul(a, e), rho, rec, want)
}

func directionalSky(c *C) {
	// sky(d) = a + b.d + d'Md per channel
	type sky struct {
		a float64
		b Vec
		M Mat3
	}
	var ch [3]sky
	for i := range ch {
		ch[i].a = 3
		ch[i].b = rvec(c.Rand, 0.5)
		for j := 0; j < 3; j++ {
			for k := 0; k < 3; k++ {
				ch[i].M[j][k] = uni(c.Rand, -.3, .3)
			}
		}
	}
	exp := exposure(c)
	eval := func(d Vec) Color {
		var v [3]float64
		for i, s := range ch {
			v[i] = exp * (s.a + dot(s.b, d) + dot(d, s.M.vec(d)))
		}
		return Color{R: v[0], G: v[1], B: v[2]}
	}
	rho := rcol(c.Rand)
	r := uni(c.Rand, .3, 3)
	ctr := rvec(c.Rand, 2)
	objs := []tracer.Object{objects.Sphere(materials.Matte(rho), 2*r, ctr), objects.Backdrop(materials.Flat(texture.Func(eval)))}
	// clear shells make the sphere be seen at deeper recursion
	shells := c.Intn(4)
	for i := 1; i <= shells; i++ {
		objs = append(objs, objects.Sphere(materials.Transparent(Color{R: 1, G: 1, B: 1}, true), 2*r*(1+.2*float64(i)), ctr))
	}
	c.Count(fmt.Sprintf("directional averages at depth %d", shells+1), 3)
	sc := tracer.NewScene(10, nil, objs...)
	ctx := newCtx(c)
	for k := 0; k < 3; k++ {
		n := rdirSpecial(c.Rand) // axis-aligned normals need a different helper axis
		n = unit(n)
		var v [3]float64
		for i, s := range ch {
			v[i] = s.a + 2./3*dot(s.b, n) + (s.M[0][0]+s.M[1][1]+s.M[2][2]+dot(n, s.M.vec(n)))/4
		}
		want := cmul3(Color{R: v[0], G: v[1], B: v[2]}, rho)
		s := madd(ctr, 2*r, n)
		var got Color
		const N = 6000
		pix := c.Intn(64)
		for pass := 0; pass < N; pass++ {
			ctx.Init(pix, pass)
			got = cadd(got, sc.LightField(ctx, &Ray{Start: s, Dir: mul(-1, n)}))
		}
		got = cmul(1./N/exp, got)
		c.Eval(1)
		c.Count("directional averages", 1)
		c.Distinct(c.Name, k)
		if !(cdiff(got, want) < 0.04) { // standard deviation of one sample < 0.7 => 4 sigma
			c.Failf("matte sphere with normal %v under a directional sky %+v: average of %d passes %v, want the cosine weighted integral %v", n, ch, N, got, want)
		}
		c.Sample("normal %.3g: average %.4g, cosine weighted integral %.4g", n, got, want)
	}
}

// A matte floor and a matte wall under an area light: with recursion, the light
// itself may only be counted once. One-bounce light from a parallel, large
// patch is checked by integration.
// integratingSphere: every point of a sphere's inside sees all others with equal
// weight, so the light that has bounced is equal everywhere, whatever the
// distribution of the direct light.
func integratingSphere(c *C) {
	ctr := rvec(c.Rand, 3)
	R := logUni(c.Rand, 0.5, 10)
	rho := rcol(c.Rand)
	rec := 1 + c.Intn(6)
	var ls []tracer.Light
	var refs []*refPlanar
	flux, covered := Color{}, 0.0
	for n := 1 + c.Intn(2); n > 0; n-- {
		a := uni(c.Rand, .15, .4) * R
		y := math.Sqrt(R*R - a*a)
		ref := &refPlanar{b: cmul(uni(c.Rand, 1, 20), rcol(c.Rand)), w: 2 * a, h: 2 * a, disk: true, ctr: add(ctr, Vec{0, y, 0})}
		axis, ang := rdir(c.Rand), uni(c.Rand, -3, 3)
		ref.tr = aroundOrigin(ctr, Sim{S: 1, R: rotM(axis, ang)})
		ok := true
		for _, r := range refs {
			if dot(r.normal(), ref.normal()) > 0.5 {
				ok = false // the lights would overlap
			}
		}
		if !ok {
			continue
		}
		refs = append(refs, ref)
		ls = append(ls, lights.Transformed(lights.DiskLight(ref.b, ref.w, ref.ctr), geom.Rotate(ctr, axis, ang)))
		flux = cadd(flux, cmul(ref.area()/(4*math.Pi*R*R), ref.b))
		covered += 2 * math.Pi * R * (R - y) / (4 * math.Pi * R * R)
	}
	sc := tracer.NewScene(rec, ls, objects.Sphere(materials.Matte(rho), 2*R, ctr))
	ctx := newCtx(c)
	for try := 0; try < 20; try++ {
		p := madd(ctr, R, rdir(c.Rand))
		nrm := unit(sub(ctr, p))
		near := false
		var want Color
		for _, r := range refs {
			if dist(p, r.at(0, 0)) < 0.4*R+r.w/2 {
				near = true
			}
			want = cadd(want, r.average(60, func(q Vec) Color { return cmul(dot(nrm, unit(sub(q, p))), r.intensity(q, p)) }))
		}
		if near {
			continue
		}
		pw := rho
		for k := 1; k < rec; k++ {
			want = cadd(want, cmul3(flux, pw))
			pw = cmul(1-covered, cmul3(pw, rho))
		}
		want = cmul3(want, rho)
		const N = 4000
		var got Color
		pix := c.Intn(64)
		s := madd(ctr, .5*R*c.Float64(), rdir(c.Rand))
		for pass := 0; pass < N; pass++ {
			ctx.Init(pix, pass)
			x := sc.LightField(ctx, &Ray{Start: s, Dir: unit(sub(p, s))})
			// The rare bounce that ends next to the rim of a light is very bright, which
			// adds next to nothing to the mean but a lot to the variance.
			x.R, x.G, x.B = math.Min(x.R, 60*want.R), math.Min(x.G, 60*want.G), math.Min(x.B, 60*want.B)
			got = cadd(got, x)
		}
		got = cmul(1./N, got)
		c.Eval(1)
		c.Count("integrating sphere averages", 1)
		c.Distinct(c.Name, p)
		if !(cdiff(got, want) <= 0.06*cmax(want)) {
			c.Failf("wall of a matte sphere R=%v of reflectivity %v lit by %d disks of relative area %v, recursion %d: average of %d passes %v, want %v", R, rho, len(refs), covered, rec, N, got, want)
		}
		c.Sample("integrating sphere, reflectivity %.3g, recursion %d: average %.4g, want %.4g", rho, rec, got, want)
		return
	}
}

func notTwice(c *C) {
	b := cmul(uni(c.Rand, 1, 4), rcol(c.Rand))
	w := uni(c.Rand, .5, 3)
	hgt := uni(c.Rand, .7, 2)
	ref := &refPlanar{b: b, w: w, h: w, ctr: Vec{0, hgt, 0}, tr: identSim()}
	ls := []tracer.Light{lights.RectangleLight(b, w, w, ref.ctr)}
	if c.Intn(3) == 0 {
		// the same light, as n x n adjacent lights
		n := 2 + c.Intn(4)
		ls = nil
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				ls = append(ls, lights.RectangleLight(b, w/float64(n), w/float64(n), add(ref.ctr, Vec{w * ((float64(i)+.5)/float64(n) - .5), 0, w * ((float64(j)+.5)/float64(n) - .5)})))
			}
		}
		c.Count("tiled area lights", len(ls))
	}
	rho := rcol(c.Rand)
	// floor only: convex, nothing bounces. Any recursion depth gives the direct light.
	rec := 1 + c.Intn(5)
	objs := []tracer.Object{objects.Rectangle(materials.Matte(rho), 40, 40, Vec{})}
	var sky Color
	if c.Intn(2) == 0 {
		sky = rcol(c.Rand)
		objs = append(objs, objects.Backdrop(materials.Flat(sky)))
	}
	// a pane of glass before the light dims it, but the light still counts once
	pane := Color{R: 1, G: 1, B: 1}
	depth := 1
	if c.Intn(3) == 0 {
		pane = rcol(c.Rand)
		depth = 2
		objs = append(objs, objects.Rectangle(materials.Transparent(pane, c.Intn(2) == 0), 400, 400, Vec{0, uni(c.Rand, .5, .9) * hgt, 0}))
		c.Count("area lights behind glass", 1)
	}
	sc := tracer.NewScene(rec, ls, objs...)
	ctx := newCtx(c)
	p := Vec{uni(c.Rand, -1, 1), 0, uni(c.Rand, -1, 1)}
	form := 0.0 // fraction of the cosine weighted hemisphere covered by the light
	ref.average(60, func(q Vec) Color {
		d := unit(sub(q, p))
		form += d[1] * dot(ref.normal(), mul(-1, d)) * ref.area() / (math.Pi * dot(sub(q, p), sub(q, p))) / 3600
		return Color{}
	})
	want := cmul(form, b)
	if rec > depth {
		want = cadd(want, cmul(1-form, sky))
	}
	want = cmul3(cmul3(want, rho), pane)
	const N = 6000
	var got Color
	pix := c.Intn(64)
	s := add(p, Vec{.1, .2, .1})
	for pass := 0; pass < N; pass++ {
		ctx.Init(pix, pass)
		got = cadd(got, sc.LightField(ctx, &Ray{Start: s, Dir: unit(sub(p, s))}))
	}
	got = cmul(1./N, got)
	c.Eval(1)
	c.Count("area light averages", 1)
	c.Distinct(c.Name)
	if !(cdiff(got, want) <= 0.04*cmax(want)+0.03*cmax(sky)) {
		c.Failf("matte floor at %v below a %vx%v light (%d tiles) at height %v, sky %v, pane %v, recursion %d: average of %d passes %v, want %v (the light covers %v of the hemisphere)", p, w, w, len(ls), hgt, sky, pane, rec, N, got, want, form)
	}
	c.Sample("floor below light, recursion %d, sky %.3g: average %.4g, integral %.4g", rec, sky, got, want)
}

// ---- media

// fogPath returns the length of the part of the ray (0..tmax) below height.
func fogPath(s, d Vec, height, tmax float64) (t0, t1 float64) {
	y, v := s[1]-height, d[1]
	if v == 0 {
		if y < 0 {
			return 0, tmax
		}
		return 0, 0
	}
	t := -y / v
	if v > 0 { // below before t
		if t <= 0 {
			return 0, 0
		}
		return 0, math.Min(t, tmax)
	}
	if t < 0 {
		t = 0
	}
	if t >= tmax {
		return 0, 0
	}
	return t, tmax
}

// thinFog looks out of the depth of a fog, or at something far away in it.
func thinFog(c *C) {
	bg, amb := rcol(c.Rand), rcol(c.Rand)
	rs := newRScene(1)
	rs.setBackdrop(constTex(bg))
	ctx := newCtx(c)
	for k := 0; k < 20; k++ {
		h, deep := uni(c.Rand, -5, 5), logUni(c.Rand, 1, 1e7)
		d := rdir(c.Rand)
		d[1] = math.Max(math.Abs(d[1]), 1e-3)
		d = unit(d)
		s := Vec{uni(c.Rand, -1e3, 1e3), h - deep, uni(c.Rand, -1e3, 1e3)}
		path := (h - s[1]) / d[1]
		objs, orig := rs.robjs, bg
		if c.Intn(2) == 0 {
			path *= uni(c.Rand, .1, .9)
			orig = rcol(c.Rand)
			r := path * uni(c.Rand, .01, .1)
			objs = append([]tracer.Object{objects.Sphere(materials.Flat(orig), 2*r, madd(s, path+r, d))}, objs...)
		}
		rho := logUni(c.Rand, .05, 5) / path
		sc := tracer.NewSceneWithMedia(1, []tracer.Medium{media.ExpFog(rho, amb, h)}, nil, objs...)
		tr := math.Exp(-rho * path)
		want := cadd(cmul(tr, orig), cmul(1-tr, amb))
		got := sc.LightField(ctx, &Ray{Start: s, Dir: d})
		c.Eval(1)
		c.Count("rays far through thin fog", 1)
		c.Distinct(c.Name, k)
		if !(cdiff(got, want) < 1e-6) {
			c.Failf("fog of density %v up to height %v: ray %v %v, %v in the fog, sees %v, want %v", rho, h, s, d, path, got, want)
		}
	}
}

func expFogCase(c *C) {
	g := newGen(c.Rand)
	rs := newRScene(1 + c.Intn(3))
	for n := c.Intn(5); n > 0; n-- {
		g.scenePrim(rs, []int{mFlat, mFlat, mReflective, mTransparent}, 0)
	}
	if c.Intn(2) == 0 {
		rs.setBackdrop(smoothTex(c.Rand))
	}
	type layer struct {
		rho, h float64
		amb    Color
	}
	var layers []layer
	var med []tracer.Medium
	for n := 1 + c.Intn(5); n > 0; n-- {
		l := layer{logUni(c.Rand, 0.01, 2), uni(c.Rand, -4, 4), rcol(c.Rand)}
		layers = append(layers, l)
		med = append(med, media.ExpFog(l.rho, l.amb, l.h))
	}
	if c.Intn(8) == 0 {
		med, layers = nil, nil
	}
	sc := tracer.NewSceneWithMedia(rs.rec, med, rs.rlights, rs.robjs...)
	ctx := newCtx(c)
	for k := 0; k < 30; k++ {
		s, d := eye(g)
		if k%5 == 0 {
			d[1] = 0
			d = unit(d)
		} else if k%7 == 0 {
			d = Vec{0, float64(1 - 2*c.Intn(2)), 0}
		}
		want, ok := rs.light(0, s, d, false)
		h, hit, ok2 := rs.nearest(s, d, false)
		if !ok || !ok2 {
			c.Count("undecidable", 1)
			continue
		}
		T := math.Inf(1)
		if hit {
			T = h.T
		}
		through := false
		for _, l := range layers {
			t0, t1 := fogPath(s, d, l.h, T)
			tr := math.Exp(-(t1 - t0) * l.rho)
			want = cadd(cmul(tr, want), cmul(1-tr, l.amb))
			through = through || t1 > t0
		}
		got := sc.LightField(ctx, &Ray{Start: s, Dir: d})
		c.Eval(1)
		if through {
			c.Count("rays through fog", 1)
			c.Distinct(c.Name, k)
			if hit && rs.mats[h.Mat].(interface{}) != nil {
				if _, ok := rs.mats[h.Mat].(*rReflective); ok && rs.rec > 1 {
					c.Count("reflected rays unaffected", 1)
				}
			}
		} else {
			c.Count("rays missing fog", 1)
		}
		if !(cdiff(got, want) < 1e-5*(1+cmax(want))) {
			c.Failf("fog layers %+v: ray %v %v (surface at %v) sees %v, want %v", layers, s, d, T, got, want)
		}
		if k == 0 {
			c.Sample("fog %+v: ray %.3g %.3g surface at %.3g sees %.4g", layers, s, d, T, got)
		}
	}
}

func fogCase(c *C) {
	rho, height := logUni(c.Rand, 0.05, 1), uni(c.Rand, -1, 3)
	nl := c.Intn(3)
	numLight := c.Intn(4)
	rs := newRScene(1 + c.Intn(2))
	shadow := c.Intn(2) == 0
	if shadow {
		ctr, r := rvec(c.Rand, 1), uni(c.Rand, .5, 1.5)
		m := materials.Flat(rcol(c.Rand))
		col := rcol(c.Rand)
		m = materials.Flat(col)
		rs.mats[m] = &rFlat{tex: constTex(col)}
		rs.add(Pair{O: objects.Sphere(m, 2*r, ctr), R: &refSphere{c: ctr, r: r, mat: m}})
	}
	rs.setBackdrop(constTex(rcol(c.Rand)))
	pow := 100.
	if c.Intn(3) == 0 {
		pow = logUni(c.Rand, 1e-3, 1e7)
		if c.Intn(2) == 0 { // thin, but bright
			rho, pow = logUni(c.Rand, 1e-5, 1), logUni(c.Rand, 1e3, 1e8)
		}
	}
	for i := 0; i < nl; i++ {
		rs.addPoint(cmul(pow, rcol(c.Rand)), madd(Vec{}, uni(c.Rand, 4, 6), rdir(c.Rand)))
	}
	// lights that do not light anything here
	ls, index := append([]tracer.Light{}, rs.rlights...), []int{}
	for i := range rs.points {
		index = append(index, i)
	}
	for n := c.Intn(3); n > 0; n-- {
		var dark tracer.Light = lights.RectangleLight(cmul(100, rcol(c.Rand)), 1, 1, Vec{0, -5000, 0}) // shines down
		if c.Intn(2) == 0 {
			dark = lights.PointLight(Color{}, madd(Vec{}, 5, rdir(c.Rand)))
		}
		at := c.Intn(len(ls) + 1)
		ls = append(ls[:at:at], append([]tracer.Light{dark}, ls[at:]...)...)
		for i := range index {
			if index[i] >= at {
				index[i]++
			}
		}
		c.Count("fog with lights that are off", 1)
	}
	sc := tracer.NewSceneWithMedia(rs.rec, []tracer.Medium{media.Fog(rho, height, numLight)}, ls, rs.robjs...)
	ctx := newCtx(c)
	for k := 0; k < 5; k++ {
		s := rvec(c.Rand, 2)
		d := rdir(c.Rand)
		if k == 0 {
			d[1] = 0
			d = unit(d)
		}
		base, ok := rs.light(0, s, d, false)
		h, hit, ok2 := rs.nearest(s, d, false)
		if !ok || !ok2 {
			continue
		}
		T := math.Inf(1)
		if hit {
			T = h.T
		}
		// keep the ray away from the lights
		close := false
		for _, l := range rs.points {
			v := sub(l.pos, s)
			t := math.Max(0, dot(v, d))
			if dist(madd(s, t, d), l.pos) < 1.5 {
				close = true
			}
		}
		if close {
			continue
		}
		t0, t1 := fogPath(s, d, height, T)
		L := t1 - t0
		// scattered light: integral of rho exp(-rho t) I(t) dt, by substitution y = 1-exp(-rho t)
		var want Color
		shaded := 0
		Y := 1 - math.Exp(-rho*L)
		const M = 3000
		peak := 0.0
		for i := 0; i < M; i++ {
			y := Y * (float64(i) + .5) / M
			t := -math.Log(1-y) / rho
			p := madd(s, t0+t, d)
			for j, l := range rs.points {
				if index[j] >= numLight {
					break
				}
				I := cmul(1/(4*math.Pi*math.Pow(dist(p, l.pos), 2)), l.pow)
				peak = math.Max(peak, cmax(I))
				v, ok := rs.visible(p, l.pos)
				if ok && v == (Color{}) {
					shaded++
					continue
				}
				want = cadd(want, cmul(Y/M, I))
			}
		}
		tr := math.Exp(-rho * L)
		want = cadd(want, cmul(tr, base))
		var got Color
		const N = 2000
		pix := c.Intn(64)
		for pass := 0; pass < N; pass++ {
			ctx.Init(pix, pass)
			got = cadd(got, sc.LightField(ctx, &Ray{Start: s, Dir: d}))
		}
		got = cmul(1./N, got)
		c.Eval(1)
		c.Distinct(c.Name, k)
		if L > 0 && numLight > 0 && nl > 0 {
			c.Count("scatter averages", 1)
			if shaded > 0 {
				c.Count("scatter averages with shadow", 1)
			}
		}
		if !(cdiff(got, want) < 0.03*Y*peak+1e-3*(1+cmax(want))) {
			c.Failf("fog density %v height %v, %d of %d point lights %v, objects %v: ray %v %v (surface at %v, path %v): average of %d passes %v, want %v", rho, height, numLight, nl, rs.points, rs.objs, s, d, T, L, N, got, want)
		}
		if k == 1 {
			c.Sample("fog density %.3g path %.3g, %d lights: average %.4g integral %.4g", rho, L, nl, got, want)
		}
	}
}

var _ = fmt.Sprint
