package main

import (
	"fmt"
	"math"

	"github.com/barnex/bruteray/geom"
	"github.com/barnex/bruteray/texture"
	"github.com/barnex/bruteray/tracer"
	"github.com/barnex/bruteray/tracer/lights"
	"github.com/barnex/bruteray/tracer/materials"
	"github.com/barnex/bruteray/tracer/media"
	"github.com/barnex/bruteray/tracer/objects"
)

func newCtx(c *C) *tracer.Ctx {
	ctx := tracer.NewCtx(64)
	ctx.Init(c.Intn(64), c.Intn(1000))
	return ctx
}

// eye returns a random viewing ray through the scene.
func eye(g *gen) (s, d Vec) {
	s = rvec(g.Rand, 5)
	if g.Intn(2) == 0 {
		s = mul(uni(g.Rand, 5, 12), rdir(g.Rand))
	}
	d = unit(sub(rvec(g.Rand, 3), s))
	return s, d
}

// compareScene shoots rays and compares with the reference renderer.
func compareScene(c *C, g *gen, rs *rScene, sc *tracer.Scene, n int, tol float64, label string) {
	ctx := newCtx(c)
	for i := 0; i < n; i++ {
		s, d := eye(g)
		ctx.Init(c.Intn(64), c.Intn(1000))
		r := Ray{Start: s, Dir: d}
		got := sc.LightField(ctx, &r)
		c.Eval(1)
		if ctx.CurrentRecursionDepth != 0 {
			c.Failf("%s: recursion depth is %d after evaluating a ray", label, ctx.CurrentRecursionDepth)
			ctx.CurrentRecursionDepth = 0
		}
		rs.maxDep, rs.nspec = 0, 0
		want, ok := rs.light(0, s, d, false)
		if !ok {
			c.Count("undecidable rays", 1)
			continue
		}
		c.Count("decided rays "+label, 1)
		if rs.nspec > 0 {
			c.Count(fmt.Sprintf("decided rays with path length %d", rs.maxDep), 1)
		}
		if cmax(want) > 0 {
			c.Distinct(c.Name, i)
			c.Count("lit rays "+label, 1)
		}
		if !(cdiff(got, want) <= tol*(1+cmax(want))) {
			c.Failf("%s: sees %v, want %v (recursion %d)\n  ray start=%.17g dir=%.17g\n  objects: %v\n  lights: %v", label, got, want, rs.rec, s, d, rs.objs, rs.points)
		} else if i == 0 {
			c.Sample("%s: %d objects %d lights, recursion %d: ray %.6g %.6g sees %.5g", label, len(rs.objs), len(rs.points), rs.rec, s, d, got)
		}
		if i%4 == 0 {
			// the same surface, from close by
			if h, hit, ok := rs.nearest(s, d, false); ok && hit && h.T > 1e-3 {
				gap := logUni(c.Rand, 2e-7, 1e-4)
				r := Ray{Start: madd(s, h.T-gap, d), Dir: d}
				got := sc.LightField(ctx, &r)
				c.Eval(1)
				c.Count("surfaces seen from close by", 1)
				if !(cdiff(got, want) <= tol*(1+cmax(want))) {
					c.Failf("%s: sees %v from a distance of %g, want %v (recursion %d)\n  ray start=%.17g dir=%.17g hits at %.17g\n  objects: %v\n  lights: %v", label, got, gap, want, rs.rec, s, d, h.T, rs.objs, rs.points)
				}
			}
		}
	}
}

// farScene: balls at distances over many orders of magnitude, in front of a backdrop.
// Seen from the origin only directions matter: the nearest one that covers the
// direction is seen.
func farScene(c *C) {
	sky := rcol(c.Rand)
	type ball struct {
		dir   Vec
		dist  float64
		alpha float64 // angular radius
		col   Color
	}
	var balls []ball
	objs := []tracer.Object{objects.Backdrop(materials.Flat(sky))}
	D := logUni(c.Rand, 1, 1e4)
	n := 1 + c.Intn(6)
	for k := 0; k < n; k++ {
		b := ball{rdir(c.Rand), D, uni(c.Rand, .1, .6), rcol(c.Rand)}
		balls = append(balls, b)
		var o tracer.Object = objects.Sphere(materials.Flat(b.col), 2*D*math.Sin(b.alpha), mul(D, b.dir))
		if c.Intn(3) == 0 {
			o = objects.Transformed(objects.Sphere(materials.Flat(b.col), 2*math.Sin(b.alpha), b.dir), geom.Scale(Vec{}, D))
		}
		objs = append(objs, o)
		D *= logUni(c.Rand, 5, 300) // beyond the far side of the previous ones
	}
	sc := newScene(c, 1, nil, shuffled(c, objs))
	ctx := newCtx(c)
	for k := 0; k < 20; k++ {
		d := rdir(c.Rand)
		if k < 15 {
			d = unit(madd(balls[c.Intn(len(balls))].dir, .4, rdir(c.Rand)))
		}
		want, ok, what := sky, true, "the sky"
		for _, b := range balls {
			ang := math.Atan2(length(cross(d, b.dir)), dot(d, b.dir))
			if math.Abs(ang-b.alpha) < 1e-3 {
				ok = false
				break
			}
			if ang < b.alpha {
				want, what = b.col, fmt.Sprintf("a ball at distance %g", b.dist)
				break
			}
		}
		if !ok {
			continue
		}
		c.Eval(1)
		c.Count("rays into far scenes", 1)
		c.Distinct(c.Name, k)
		r := Ray{Dir: d}
		if got := sc.LightField(ctx, &r); !(cdiff(got, want) < 1e-9) {
			c.Failf("sees %v along %v, want %s, %v\n  %+v in front of %v", got, d, what, want, balls, sky)
		}
	}
}

func shuffled(c *C, o []tracer.Object) []tracer.Object {
	o = append([]tracer.Object{}, o...)
	c.Shuffle(len(o), func(i, j int) { o[i], o[j] = o[j], o[i] })
	return o
}

// newScene builds a scene from slices that have room for more, and then an other
// scene from the same slices, which must not affect the first.
func newScene(c *C, rec int, ls []tracer.Light, objs []tracer.Object) *tracer.Scene {
	ls = append(make([]tracer.Light, 0, len(ls)+5), ls...)
	objs = append(make([]tracer.Object, 0, len(objs)+len(ls)+5), objs...)
	l0, o0 := append([]tracer.Light{}, ls...), append([]tracer.Object{}, objs...)
	sc := tracer.NewScene(rec, ls, objs...)
	black := lights.RectangleLight(Color{R: 7}, 30, 30, rvec(c.Rand, 3))
	tracer.NewScene(rec+1, append(ls, black), append(objs, objects.Sphere(materials.Flat(Color{G: 7}), 3, rvec(c.Rand, 3)))...)
	tracer.NewScene(rec+1, []tracer.Light{black, black}, objs...)
	tracer.NewScene(rec+1, nil, objs[:len(objs)/2]...)
	for i := range ls {
		if ls[i] != l0[i] {
			c.Failf("building a scene changed light %d of its argument", i)
		}
	}
	for i := range objs {
		if objs[i] != o0[i] {
			c.Failf("building a scene changed object %d of its argument", i)
		}
	}
	c.Count("scenes sharing slices", 1)
	return sc
}

// twoScenes: scenes built from the same slices look like scenes built from slices of their own.
func twoScenes(c *C) {
	g := newGen(c.Rand)
	rs := newRScene(1 + c.Intn(2))
	for n := c.Intn(4); n >= 0; n-- {
		g.scenePrim(rs, []int{mFlat, mMatte, mReflective, mTransparent}, 0)
	}
	objs := append(make([]tracer.Object, 0, len(rs.robjs)+c.Intn(9)), rs.robjs...)
	var sc, own []*tracer.Scene
	common := make([]tracer.Light, 0, 8)
	for n := c.Intn(3); n > 0; n-- {
		common = append(common, randLight(g))
	}
	var md []tracer.Medium
	for k := 2 + c.Intn(2); k > 0; k-- {
		ls := append([]tracer.Light{}, common...)
		for n := c.Intn(3); n >= 0; n-- {
			ls = append(ls, randLight(g))
		}
		if c.Intn(2) == 0 {
			md = append(md, media.ExpFog(uni(g.Rand, 0.01, 0.3), rcol(g.Rand), uni(g.Rand, -2, 4)))
		}
		own = append(own, tracer.NewSceneWithMedia(rs.rec, append([]tracer.Medium{}, md...), append([]tracer.Light{}, ls...), append([]tracer.Object{}, objs...)...))
		sc = append(sc, tracer.NewSceneWithMedia(rs.rec, md, ls, objs...))
	}
	ctx := newCtx(c)
	for n := 0; n < 60; n++ {
		s, d := eye(g)
		if n%2 == 0 { // from below, where lamps shine
			s = add(rvec(c.Rand, 3), Vec{0, -6, 0})
			d = unit(add(rvec(c.Rand, .6), Vec{0, 1, 0}))
		}
		k := c.Intn(len(sc))
		pix := c.Intn(50)
		ctx.Init(pix, n)
		want := own[k].LightField(ctx, &Ray{Start: s, Dir: d})
		ctx.Init(pix, n)
		got := sc[k].LightField(ctx, &Ray{Start: s, Dir: d})
		c.Eval(1)
		if cmax(want) > 0 {
			c.Count("bright rays in scenes that share slices", 1)
			c.Distinct(c.Name, n)
		}
		if !(cdiff(got, want) <= 1e-9*(1+cmax(want))) {
			c.Failf("scene %d of %d sharing a slice of %d objects: ray %v %v sees %v, want %v", k, len(sc), len(objs), s, d, got, want)
			return
		}
	}
}

type badObj struct{ h HitRecord }

func (b badObj) Intersect(*Ray) HitRecord { return b.h }

func init() {
	register(&Check{
		ID:   "C13",
		Rule: "random scenes of 0..12 overlapping objects with distinct flat colors, with and without backdrop and area lights, viewed along random rays, in shuffled object order; non-trivial: something lit is seen",
		Run: func(t *T) {
			t.Cases("crowded", t.N(10, 300), func(c *C, i int) { crowdedScene(c) })
			t.Require("rays into crowded scenes", 1000)
			t.Cases("two-scenes", t.N(100, 5000), func(c *C, i int) { twoScenes(c) })
			t.Require("bright rays in scenes that share slices", 1000)
			t.Cases("visible", t.N(600, 20000), func(c *C, i int) {
				g := newGen(c.Rand)
				rs := newRScene(1 + c.Intn(3))
				for n := c.Intn(13); n > 0; n-- {
					g.scenePrim(rs, []int{mFlat, mFlat, mFunc}, 0)
				}
				if c.Intn(2) == 0 {
					rs.setBackdrop(smoothTex(c.Rand))
				}
				np := c.Intn(3)
				if c.Intn(8) == 0 {
					np = c.Intn(20)
				}
				for ; np > 0; np-- {
					rs.addPoint(rcol(c.Rand), rvec(c.Rand, 5)) // invisible
				}
				if c.Intn(3) == 0 { // objects that are not hit never show
					bad := &probeFlat{Color{R: 77, G: 77, B: 77}}
					for _, T := range []float64{0, -1, math.NaN(), math.Inf(-1)} {
						rs.robjs = append(rs.robjs, badObj{HitRecord{T: T, Material: bad, Normal: Vec{0, 1, 0}}})
					}
				}
				// visible light sources
				if c.Intn(2) == 0 {
					b := cmul(3, rcol(c.Rand))
					ctr := rvec(c.Rand, 3)
					w, h := uni(c.Rand, 0.3, 3), uni(c.Rand, 0.3, 3)
					var l tracer.Light
					var ref Ref
					pm := &probeMat{1000}
					if c.Intn(2) == 0 {
						l = lights.RectangleLight(b, w, h, ctr)
						ref = rectRef(w, h, ctr, pm)
					} else {
						l = lights.DiskLight(b, w, ctr)
						ref = &refRestrict{rectRef(w, w, ctr, pm), &refCyl{1, ctr, w / 2, 10, pm}}
					}
					if c.Intn(2) == 0 {
						tr, sm := g.sim()
						l = lights.Transformed(l, tr)
						ref = &refTransf{ref, sm}
					}
					rs.rlights = append(rs.rlights, l)
					rs.objs = append(rs.objs, ref)
					// the lower side emits
					rs.mats[pm] = &rLightSide{b: b}
					c.Count("scenes with visible light source", 1)
				}
				rs.robjs = shuffled(c, rs.robjs)
				compareScene(c, g, rs, rs.scene(), 40, 1e-5, "flat scene")
			})
			t.Cases("far", t.N(60, 2000), func(c *C, i int) { farScene(c) })
			t.Require("rays into far scenes", 200)
			t.Case("empty", func(c *C) {
				for _, rec := range []int{1, 2, 5} {
					for _, sc := range []*tracer.Scene{tracer.NewScene(rec, nil), tracer.NewSceneWithMedia(rec, nil, nil)} {
						r := Ray{Start: rvec(c.Rand, 3), Dir: rdir(c.Rand)}
						if got := sc.LightField(newCtx(c), &r); got != (Color{}) {
							c.Failf("empty scene is not black: %v", got)
						}
						c.Eval(1)
					}
				}
			})
			t.Require("lit rays flat scene", 2000)
			t.Require("scenes with visible light source", 50)
		},
	})

	register(&Check{
		ID:   "C14",
		Rule: "random scenes of opaque and transparent objects; transmission between random point pairs against the product of filters of all crossed surfaces; non-trivial: at least one surface between the points",
		Run: func(t *T) {
			t.Cases("panes", t.N(10, 300), func(c *C, i int) { manyPanes(c) })
			t.Require("stacks of panes", 50)
			t.Cases("occlude", t.N(600, 20000), func(c *C, i int) {
				g := newGen(c.Rand)
				rs := newRScene(1)
				kinds := []int{mTransparent, mTransparent, mTransparent, mFlat, mMatte, mReflective, mRefractive, mBlend}
				if i%2 == 0 {
					kinds = []int{mTransparent}
				}
				for n := c.Intn(6); n >= 0; n-- {
					g.scenePrim(rs, kinds, 1)
				}
				if c.Intn(3) == 0 {
					rs.setBackdrop(constTex(Color{R: 1}))
				}
				if c.Intn(2) == 0 { // light sources do not cast shadows
					rs.rlights = append(rs.rlights, lights.RectangleLight(Color{R: 1, G: 1, B: 1}, 20, 20, rvec(c.Rand, 1)))
				}
				sc := newScene(c, 1, rs.rlights, shuffled(c, rs.robjs))
				for k := 0; k < 40; k++ {
					p, q := rvec(c.Rand, 5), rvec(c.Rand, 5)
					if k%4 == 0 {
						q = madd(p, uni(c.Rand, 0.01, 1), rdir(c.Rand))
					}
					want, ok := rs.visible(p, q)
					orig := cmul(5, rcol(c.Rand))
					d, D := unit(sub(q, p)), dist(p, q)
					r := Ray{Start: p, Dir: d}
					got := sc.Occlude(&r, D, orig)
					c.Eval(1)
					if r.Start != p || r.Dir != d {
						c.Failf("shadow ray was changed from %v %v to %v", p, d, r)
					}
					self := false
					for _, o := range rs.objs {
						if st := selfHit(o, p, d); st {
							self = true
						}
					}
					if !ok || self {
						c.Count("undecidable", 1)
						continue
					}
					want = cmul3(want, orig)
					switch {
					case want == Color{}:
						c.Count("blocked", 1)
						c.Distinct(c.Name, k)
					case want == orig:
						c.Count("clear", 1)
					default:
						c.Count("filtered", 1)
						c.Distinct(c.Name, k)
					}
					if !(cdiff(got, want) < 1e-5) {
						c.Failf("light from %v to %v: transmitted %v of %v, want %v\n  objects %v", q, p, got, orig, want, rs.objs)
					} else if k == 1 {
						c.Sample("%v -> %v through %d objects: %v of %v", q, p, len(rs.objs), got, orig)
					}
				}
			})
			t.Require("blocked", 500)
			t.Require("filtered", 300)
			t.Require("clear", 500)
		},
	})

	register(&Check{
		ID:   "C15",
		Rule: "random scenes with matte objects, transparent and opaque occluders and 0..4 point lights, recursion depth 1; non-trivial: lit ray",
		Run: func(t *T) {
			t.Cases("many-lamps", t.N(5, 100), func(c *C, i int) { manyLamps(c) })
			t.Require("scenes of many lamps", 50)
			t.Cases("lambert", t.N(800, 30000), func(c *C, i int) {
				g := newGen(c.Rand)
				rs := newRScene(1)
				for n := 1 + c.Intn(5); n > 0; n-- {
					kinds := []int{mMatte}
					if n > 2 {
						kinds = []int{mMatte, mTransparent, mFlat}
					}
					g.scenePrim(rs, kinds, 0)
				}
				np := c.Intn(5)
				if c.Intn(8) == 0 {
					np = c.Intn(30)
				}
				for ; np > 0; np-- {
					rs.addPoint(cmul(logUni(c.Rand, 1, 1000), rcol(c.Rand)), mul(uni(c.Rand, 0, 12), rdir(c.Rand)))
				}
				sc := newScene(c, rs.rec, rs.rlights, shuffled(c, rs.robjs))
				compareScene(c, g, rs, sc, 60, 1e-4, "matte scene")
			})
			// inverse square and cosine, analytically, over wide ranges of distance and power
			t.Cases("inverse-square", t.N(300, 10000), func(c *C, i int) {
				n := rdirSpecial(c.Rand)
				D := logUni(c.Rand, 0.05, 1e4)
				ang := uni(c.Rand, -1.45, 1.45)
				if c.Intn(4) == 0 { // grazing: the cosine, not a cut-off, makes it dim
					D = logUni(c.Rand, 3e3, 1e5)
					ang = math.Copysign(math.Acos(logUni(c.Rand, 1e-5, 0.1)), ang)
					c.Count("grazing lights", 1)
				}
				y := unit(cross(n, add(rdir(c.Rand), mul(0.1, n))))
				ldir := unit(add(mul(math.Cos(ang), n), mul(math.Sin(ang), y)))
				pow := cmul(logUni(c.Rand, 1e-2, 1e6), rcol(c.Rand))
				alb := rcol(c.Rand)
				hit := rvec(c.Rand, 3)
				// sheet through hit with normal n, seen from the lit or the dark side
				side := float64(2*c.Intn(2) - 1)
				vdir := unit(add(mul(side, n), rvec(c.Rand, 0.8)))
				if dot(vdir, n)*side < 0.05 {
					return
				}
				z := unit(cross(n, y))
				o := objects.Quadrilateral(materials.Matte(alb),
					add(hit, add(mul(-1, y), mul(-1.3, z))), add(hit, add(mul(1.2, y), mul(-1.3, z))),
					add(hit, add(mul(1.2, y), mul(1, z))), add(hit, add(mul(-1, y), mul(1, z))))
				ls := []tracer.Light{lights.PointLight(pow, madd(hit, D, ldir))}
				cnt := 1 + c.Intn(3) // same light several times: additive
				for k := 1; k < cnt; k++ {
					ls = append(ls, ls[0])
				}
				objs := []tracer.Object{o}
				if c.Intn(3) == 0 {
					// something large between, or behind the light
					D2 := logUni(c.Rand, 3e3, 1e7)
					for i := range ls {
						ls[i] = lights.PointLight(cmul(D2*D2, pow), madd(hit, D2, ldir))
					}
					pow, D = cmul(D2*D2, pow), D2
					f, size := uni(c.Rand, 0.2, 0.9), logUni(c.Rand, 1e-3, 0.1)*D2
					if c.Intn(3) == 0 {
						f = logUni(c.Rand, 1.2, 100)
						c.Count("objects behind the light", 1)
					} else {
						pow = Color{}
						c.Count("far shadows", 1)
					}
					ctr := madd(hit, f*D2, ldir)
					var b tracer.Object
					switch c.Intn(4) {
					case 0:
						b = objects.Box(materials.Flat(alb), size, size, size, ctr)
					case 1:
						b = objects.Transformed(objects.Box(materials.Flat(alb), 1, 1, 1, Vec{}), geom.ComposeLR(geom.Scale(Vec{}, size), geom.Translate(ctr)))
					case 2:
						b = objects.Tree(objects.Sphere(materials.Flat(alb), size, ctr), objects.Sphere(materials.Flat(alb), size, madd(hit, f*D2, mul(-1, ldir))))
					default:
						b = objects.Sphere(materials.Flat(alb), size, ctr)
					}
					objs = append(objs, b)
				}
				sc := newScene(c, 1, ls, objs)
				r := Ray{Start: madd(hit, uni(c.Rand, 0.5, 10), add(vdir, Vec{})), Dir: mul(-1, vdir)}
				got := sc.LightField(newCtx(c), &r)
				want := Color{}
				if side > 0 {
					want = cmul(float64(cnt)*math.Cos(ang)/(4*math.Pi*D*D), cmul3(pow, alb))
					c.Count("lit side", 1)
					c.Distinct(c.Name)
				}
				c.Eval(1)
				if !(cdiff(got, want) <= 2e-4*cmax(want)+1e-12) {
					c.Failf("matte sheet with %d lights of power %v at distance %v, angle %v, side %v: brightness %v want %v", cnt, pow, D, ang, side, got, want)
				}
			})
			t.Require("lit rays matte scene", 3000)
			t.Require("lit side", 80)
			t.Require("grazing lights", 20)
			t.Require("far shadows", 20)
			t.Require("objects behind the light", 5)
		},
	})

	register(&Check{
		ID:   "C18",
		Rule: "random scenes of mirrors, glass, coated and transparent objects in a smoothly varying environment, recursion depth 1..7, against an independent recursive reference; non-trivial: decided lit ray; path lengths counted",
		Run: func(t *T) {
			t.Cases("optics", t.N(1200, 40000), func(c *C, i int) {
				g := newGen(c.Rand)
				rs := newRScene(1 + c.Intn(7))
				kinds := []int{mReflective, mRefractive, mCoat, mTransparent, mFlat}
				switch i % 4 {
				case 0:
					kinds = []int{mReflective}
				case 1:
					kinds = []int{mRefractive}
				}
				for n := 1 + c.Intn(4); n > 0; n-- {
					g.scenePrim(rs, kinds, 1)
				}
				rs.setBackdrop(smoothTex(c.Rand))
				compareScene(c, g, rs, newScene(c, rs.rec, nil, shuffled(c, rs.robjs)), 40, 2e-3, "optics scene")
			})
			t.Cases("panes", t.N(20, 300), func(c *C, i int) { panesSeen(c) })
			t.Require("stacks of panes", 20)
			// single interface, precisely, all angles, both sides
			t.Cases("interface", t.N(2000, 60000), func(c *C, i int) {
				g := newGen(c.Rand)
				n := rdirSpecial(c.Rand)
				y := unit(cross(n, add(rdir(c.Rand), mul(0.01, n))))
				z := unit(cross(n, y))
				s2 := 50.0
				env := smoothTex(c.Rand)
				w := g.material([]int{mReflective, mRefractive, mCoat, mTransparent}, 1)
				o := objects.Quadrilateral(w.M, add(mul(-s2, y), mul(-s2, z)), add(mul(s2, y), mul(-s2, z)), add(mul(s2, y), mul(s2, z)), add(mul(-s2, y), mul(s2, z)))
				r0 := Ray{Start: add(n, add(mul(0.3, y), mul(0.11, z))), Dir: mul(-1, n)}
				nn := unit(o.Intersect(&r0).Normal) // orientation is a choice of the mesh
				if math.Abs(math.Abs(dot(nn, n))-1) > 1e-9 {
					c.Failf("normal %v not along %v", nn, n)
					return
				}
				rs := newRScene(2)
				rs.backdrop = env
				sc := tracer.NewScene(2, nil, o, objects.Backdrop(materials.Flat(texture.Func(func(p Vec) Color { return env(unit(p)) }))))
				for k := 0; k < 10; k++ {
					d := rdir(c.Rand)
					if k == 0 {
						d = n
					}
					if math.Abs(dot(d, n)) < 0.06 {
						continue
					}
					p := rvec(c.Rand, 2)
					p = sub(p, mul(dot(p, n), n))
					r := Ray{Start: madd(p, -uni(c.Rand, 0.2, 2), d), Dir: d}
					got := sc.LightField(newCtx(c), &r)
					h := o.Intersect(&r)
					want, ok := w.R.shade(rs, 1, rHit{T: h.T, P: p, N: nn, L: h.Local, D: d})
					c.Eval(1)
					if !ok {
						continue
					}
					c.Count("single interface rays", 1)
					c.Distinct(c.Name, k)
					if !(cdiff(got, want) < 1e-6) {
						c.Failf("interface %T %+v: ray dir %v, normal %v: sees %v want %v", w.M, w.R, d, nn, got, want)
					}
				}
			})
			t.Require("lit rays optics scene", 3000)
			t.Require("single interface rays", 3000)
			for _, l := range []int{2, 3, 4, 5} {
				t.Require(fmt.Sprintf("decided rays with path length %d", l), 20)
			}
		},
	})

	register(&Check{
		ID:   "C19",
		Rule: "randomly nested material combinators (Blend, BlendMap, TwoSided, Shiny, ReflectFresnel, Func, Flat, Matte, Reflective, Transparent) on random objects; non-trivial: decided lit ray",
		Run: func(t *T) {
			all := []int{mFlat, mReflective, mCoat, mTransparent, mBlend, mBlend, mBlendMap, mBlendMap, mTwoSided, mTwoSided, mMatte, mShiny, mFunc}
			t.Cases("combinators", t.N(1200, 40000), func(c *C, i int) {
				g := newGen(c.Rand)
				rs := newRScene(1 + c.Intn(3))
				kinds := all
				if i%2 == 0 {
					kinds = []int{mFlat, mBlend, mBlendMap, mTwoSided, mFunc, mReflective}
				}
				for n := 1 + c.Intn(3); n > 0; n-- {
					g.scenePrim(rs, kinds, 3)
				}
				rs.setBackdrop(smoothTex(c.Rand))
				for n := c.Intn(3); n > 0; n-- {
					rs.addPoint(cmul(logUni(c.Rand, 10, 1000), rcol(c.Rand)), mul(uni(c.Rand, 0, 12), rdir(c.Rand)))
				}
				compareScene(c, g, rs, newScene(c, rs.rec, rs.rlights, shuffled(c, rs.robjs)), 40, 1e-3, "combinator scene")
			})
			// extreme weights, brightnesses and angles
			t.Cases("weights", t.N(400, 10000), func(c *C, i int) { combinatorWeights(c) })
			t.Require("lit rays combinator scene", 3000)
			t.Require("small weights", 500)
			t.Require("grazing sides", 500)
		},
	})
}

// combinatorWeights shades single points with flat materials of very different brightness.
func combinatorWeights(c *C) {
	ctx := newCtx(c)
	sc := tracer.NewScene(1, nil)
	for n := 0; n < 20; n++ {
		ca, cb := cmul(logUni(c.Rand, 1e-4, 1e6), rcol(c.Rand)), cmul(logUni(c.Rand, 1e-4, 1e6), rcol(c.Rand))
		ma, mb := materials.Flat(ca), materials.Flat(cb)
		nrm := rdirSpecial(c.Rand)
		tang := unit(cross(nrm, add(rdir(c.Rand), mul(.1, nrm))))
		cosv := logUni(c.Rand, 1e-9, 1)
		if c.Intn(2) == 0 {
			cosv = -cosv
		}
		d := add(mul(cosv, nrm), mul(math.Sqrt(1-math.Min(1, cosv*cosv)), tang))
		r := Ray{Start: rvec(c.Rand, 5), Dir: d}
		h := tracer.HitCoords{T: logUni(c.Rand, 1e-3, 1e3), Normal: nrm, Local: rvec(c.Rand, 3)}
		weight := func() float64 {
			switch c.Intn(5) {
			case 0:
				return float64(c.Intn(2))
			case 1:
				return uni(c.Rand, 0, 1)
			default:
				return logUni(c.Rand, 1e-8, 1)
			}
		}
		judge := func(what string, m tracer.Material, want Color, scale float64) {
			c.Eval(1)
			c.Distinct(what)
			if got := m.Shade(ctx, sc, &r, h); !(cdiff(got, want) <= 1e-9*scale) {
				c.Failf("%s of flat materials %v and %v, seen at cosine %v: %v want %v", what, ca, cb, cosv, got, want)
			}
		}
		u, v := weight(), weight()
		if c.Intn(4) == 0 {
			u, v = 100*u, 100*v
		}
		if u < 1e-2 || v < 1e-2 {
			c.Count("small weights", 1)
		}
		judge(fmt.Sprintf("Blend(%v, %v)", u, v), materials.Blend(u, ma, v, mb), cadd(cmul(u, ca), cmul(v, cb)), u*cmax(ca)+v*cmax(cb))
		k := weight()
		if c.Intn(2) == 0 {
			k = 1 - k
		}
		key := texture.Func(func(p Vec) Color {
			if p != h.Local {
				return Color{R: math.NaN()}
			}
			return Color{R: k, G: .7, B: .9}
		})
		judge(fmt.Sprintf("BlendMap(%v)", k), materials.BlendMap(key, ma, mb), cadd(cmul(k, ca), cmul(1-k, cb)), k*cmax(ca)+(1-k)*cmax(cb))
		side := cb
		if cosv > 0 {
			side = ca
		}
		if math.Abs(cosv) < 1e-3 {
			c.Count("grazing sides", 1)
		}
		if math.Abs(dot(d, nrm)) > 1e-12 {
			judge("TwoSided", materials.TwoSided(ma, mb), side, cmax(side))
		}
	}
}

// selfHit: surface within a margin of the start point
func selfHit(o Ref, p, d Vec) bool {
	h, _ := o.Hits(p, d)
	for _, h := range h {
		if math.Abs(h.T) < near {
			return true
		}
	}
	return false
}

type probeFlat struct{ c Color }

func (p *probeFlat) Shade(*tracer.Ctx, *tracer.Scene, *Ray, tracer.HitCoords) Color { return p.c }

// area light seen by a camera: bright on the emitting side.
type rLightSide struct {
	opaque
	b Color
}

func (m *rLightSide) shade(rs *rScene, depth int, h rHit) (Color, bool) {
	c := dot(h.D, h.N)
	if math.Abs(c) < 1e-3 {
		return Color{}, false
	}
	if c > 0 { // looking up at the lower side (normal points up)
		return m.b, true
	}
	return Color{}, true
}

var _ = geom.O
