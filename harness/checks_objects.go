package main

import (
	"fmt"
	"math"
	"sync"

	"github.com/barnex/bruteray/geom"
	"github.com/barnex/bruteray/tracer"
	"github.com/barnex/bruteray/tracer/objects"
)

// intersectRays shoots n rays at p and compares with the reference.
func intersectRays(c *C, g *gen, p Pair, n int, label string, attrs, csg bool) {
	for i := 0; i < n; i++ {
		s, d := g.ray(p)
		want, st, _ := refNearest(p.R, s, d)
		c.Eval(1)
		r := Ray{Start: s, Dir: d}
		got := p.O.Intersect(&r)
		if st == 2 || (csg && !wellSeparated(p.R, s, d)) {
			c.Count("undecidable rays (grazing, edges, coincident surfaces)", 1)
			continue
		}
		if st == 1 {
			c.Count("hits "+label, 1)
			c.Distinct(c.Name, i)
		} else {
			c.Count("misses "+label, 1)
		}
		if msg := judgeHit(got, want, st, s, d, scaleOf(s, p), attrs); msg != "" {
			c.Failf("%s: %s\n  %s", label, msg, describe(p, s, d))
		} else if st == 1 && i == 0 {
			c.Sample("%s -> hit at t=%.6g", describe(p, s, d), got.T)
		}
		if st == 1 && !csg && i%4 == 0 && scaleOf(s, p) < 100 {
			// the same hit, from close by
			gap := logUni(c.Rand, 2e-7, 1e-3)
			d1 := length(d)
			r := Ray{Start: madd(s, want.T-gap/d1, d), Dir: d}
			s2 := r.Start
			got := p.O.Intersect(&r)
			c.Eval(1)
			c.Count("hits from close by", 1)
			if !(math.Abs(got.T*d1-gap) < 1e-11*scaleOf(s, p)) {
				c.Failf("%s: surface at distance %v is reported at t=%v, want %v\n  %s", label, gap, got.T, gap/d1, describe(p, s2, d))
			}
		}
	}
}

func init() {
	register(&Check{
		ID:   "C01",
		Rule: "random primitives of every kind x random rays (outside, inside, pointing away, axis-aligned with +0/-0 components, unnormalised, round coordinates); non-trivial: the reference decides a hit; distinct by primitive and ray",
		Run: func(t *T) {
			for kind := 0; kind < numKinds; kind++ {
				kind := kind
				t.Cases("prim-"+kindName[kind], t.N(40, 1500), func(c *C, i int) {
					g := newGen(c.Rand)
					switch i % 5 {
					case 3:
						g.off = rvec(c.Rand, 100)
					case 4:
						g.off = Vec{0, 0, 0}
						g.ext = 0
					}
					p := g.prim(kind)
					n := 150
					if kind == kMeshBig || kind == kMesh {
						n = 60
					}
					intersectRays(c, g, p, n, kindName[kind], false, false)
				})
				t.Require("hits "+kindName[kind], 50)
				t.Require("misses "+kindName[kind], 20)
			}
			// far away: large objects, seen from far, as used for grounds and skies
			t.Cases("far", t.N(60, 2000), func(c *C, i int) {
				g := newGen(c.Rand)
				p := g.far(i)
				for k := 0; k < 60; k++ {
					s := rvec(c.Rand, 100)
					target := add(p.C, rvec(c.Rand, p.Rad))
					d := unit(sub(target, s))
					want, st, _ := refNearest(p.R, s, d)
					r := Ray{Start: s, Dir: d}
					got := p.O.Intersect(&r)
					c.Eval(1)
					if st == 2 {
						continue
					}
					if st == 1 {
						c.Count("hits far/huge objects", 1)
						c.Distinct(c.Name, k)
					}
					if msg := judgeHit(got, want, st, s, d, scaleOf(s, p), false); msg != "" {
						c.Failf("far: %s\n  %s", msg, describe(p, s, d))
					}
				}
			})
			t.Require("hits far/huge objects", 100)
			t.Cases("along-axis", t.N(200, 4000), alongAxis)
			t.Require("hits along a tube", 1000)
			t.Cases("large-mesh", 2, func(c *C, i int) { bigMesh(c) })
			t.Require("hits on large meshes", 500)
			t.Cases("small", t.N(200, 5000), func(c *C, i int) { smallObject(c, i, false) })
			t.Require("hits small objects", 500)
			t.Require("misses small objects", 500)
		},
	})

	register(&Check{
		ID:   "C02",
		Rule: "as C01, also compares surface normal, local coordinates and material of every decided hit with the reference; non-trivial: decided hit",
		Run: func(t *T) {
			for kind := 0; kind < numKinds; kind++ {
				kind := kind
				t.Cases("attr-"+kindName[kind], t.N(40, 1500), func(c *C, i int) {
					g := newGen(c.Rand)
					if i%5 == 4 {
						g.off = rvec(c.Rand, 50)
					}
					p := g.prim(kind)
					n := 150
					if kind == kMeshBig || kind == kMesh {
						n = 60
					}
					// wrappers that change attributes only
					switch i % 4 {
					case 1:
						m := g.mat()
						p = Pair{objects.WithMaterial(m, p.O), &refMat{p.R, m}, p.C, p.Rad}
					case 2:
						off := rvec(c.Rand, 3)
						f := func(x Vec) Vec { return Vec{x[1] + off[0], 2*x[0] - off[1], x[2]*0.5 + x[0]} }
						p = Pair{objects.Remap(p.O, f), &refRemap{p.R, f}, p.C, p.Rad}
					}
					intersectRays(c, g, p, n, kindName[kind], true, false)
				})
				t.Require("hits "+kindName[kind], 50)
			}
			t.Cases("edge", t.N(200, 5000), boxEdge)
			t.Cases("small", t.N(300, 6000), func(c *C, i int) { smallObject(c, i, true) })
			t.Cases("far", t.N(200, 4000), farAttrs)
			t.Require("attributes far away", 2000)
			t.Require("hits near edges", 2000)
			t.Require("hits small objects", 2000)
			t.Cases("backdrop", 5, func(c *C, i int) {
				m := &probeMat{1}
				o := objects.Backdrop(m)
				for k := 0; k < 50; k++ {
					s, d := rvec(c.Rand, 100), rdir(c.Rand)
					r := Ray{Start: s, Dir: d}
					h := o.Intersect(&r)
					c.Eval(1)
					c.Count("backdrop hits", 1)
					if !(h.T > 1e15) || h.Material != tracer.Material(m) || dist(h.Local, d) > 1e-12 {
						c.Failf("backdrop: %v for direction %v", h, d)
					}
				}
			})
		},
	})

	register(&Check{
		ID:   "C03",
		Rule: "random primitives and CSG/tree/transformed objects; points inside, outside and near the bounds, plus all ray hits; non-trivial: decided points/hits (by reference) of objects with non-empty volume or surface",
		Run:  runC03,
	})

	register(&Check{
		ID:   "C04",
		Rule: "random CSG expression trees (And, Or, Not, Difference, Restrict, Hollow, Tree, Transformed, Bounded, WithMaterial) up to depth 4 x random rays; non-trivial: decided hit of a composite",
		Run: func(t *T) {
			t.Cases("csg", t.N(2500, 60000), func(c *C, i int) {
				g := newGen(c.Rand)
				g.ext = uni(c.Rand, 0.5, 2.5)
				depth := 1 + c.Intn(4)
				p := g.csg(depth)
				intersectRays(c, g, p, 40, fmt.Sprintf("csg depth %d", depth), true, true)
			})
			// unbounded results
			t.Cases("negated", t.N(400, 8000), func(c *C, i int) {
				g := newGen(c.Rand)
				g.ext = uni(c.Rand, 0.5, 2)
				a, b := g.csg(c.Intn(3)), g.csg(c.Intn(2))
				ctr, rad := mid(a.C, b.C), math.Max(a.Rad, b.Rad)
				na, nb := objects.Not(a.O), objects.Not(b.O)
				ra, rb := &refNot{a.R}, &refNot{b.R}
				var p Pair
				switch i % 7 {
				case 0:
					p = Pair{na, ra, a.C, a.Rad}
				case 1:
					p = Pair{objects.Or(a.O, nb), &refOr{a.R, rb}, ctr, rad}
				case 2:
					p = Pair{objects.And(na, nb), &refAnd{ra, rb}, ctr, rad}
				case 3:
					p = Pair{objects.Restrict(na, b.O), &refRestrict{ra, b.R}, ctr, rad}
				case 4:
					p = Pair{objects.Not(objects.And(a.O, b.O)), &refNot{&refAnd{a.R, b.R}}, ctr, rad}
				case 5:
					p = Pair{objects.Or(objects.Not(objects.Not(a.O)), objects.Not(objects.Not(b.O))), &refOr{&refNot{ra}, &refNot{rb}}, ctr, rad}
				case 6:
					m := g.mat()
					p = Pair{objects.WithMaterial(m, objects.Or(na, nb)), &refMat{&refOr{ra, rb}, m}, ctr, rad}
				}
				if c.Intn(3) == 0 {
					t, s := g.sim()
					p = p.transformed(t, s)
				}
				intersectRays(c, g, p, 40, "negated", true, true)
			})
			t.Require("hits negated", 500)
			// identities between composites
			t.Cases("api-names", t.N(100, 1000), func(c *C, i int) {
				g := newGen(c.Rand)
				a, b := g.csg(1), g.csg(1)
				diff := Pair{objects.Difference(a.O, b.O), &refAnd{a.R, &refNot{b.R}}, a.C, a.Rad}
				intersectRays(c, g, diff, 30, "difference", true, true)
			})
			// many surfaces to march over
			t.Cases("many-surfaces", t.N(60, 600), func(c *C, i int) {
				g := newGen(c.Rand)
				n := 2 + c.Intn(18)
				var ps []Pair
				m := g.mat()
				for k := 0; k < n; k++ {
					cen := Vec{float64(k) * 1.5, uni(c.Rand, -.2, .2), uni(c.Rand, -.2, .2)}
					ps = append(ps, Pair{objects.Sphere(m, 1, cen), &refSphere{cen, 0.5, m}, cen, 0.5})
				}
				tr := treeOf(ps)
				mb := g.mat()
				lo := uni(c.Rand, 0, float64(n)*1.5)
				bmin, bmax := Vec{lo, -3, -3}, Vec{lo + 2 + float64(n)*c.Float64(), 3, 3}
				box := Pair{objects.BoxWithBounds(mb, bmin, bmax), &refBox{bmin, bmax, mb}, mid(bmin, bmax), 5}
				for _, p := range []Pair{
					{objects.And(tr.O, box.O), &refAnd{tr.R, box.R}, tr.C, tr.Rad},
					{objects.And(box.O, objects.Not(tr.O)), &refAnd{box.R, &refNot{tr.R}}, tr.C, tr.Rad},
					{objects.Or(tr.O, box.O), &refOr{tr.R, box.R}, tr.C, tr.Rad},
					{objects.Restrict(tr.O, box.O), &refRestrict{tr.R, box.R}, tr.C, tr.Rad},
				} {
					for k := 0; k < 12; k++ {
						s := Vec{-5, uni(c.Rand, -.4, .4), uni(c.Rand, -.4, .4)}
						d := unit(Vec{1, uni(c.Rand, -.01, .01), uni(c.Rand, -.01, .01)})
						if k%2 == 1 {
							s[0] = float64(n)*1.5 + 5
							d[0] = -d[0]
						}
						want, st, nfwd := refNearest(p.R, s, d)
						r := Ray{Start: s, Dir: d}
						got := p.O.Intersect(&r)
						c.Eval(1)
						if st == 2 || !wellSeparated(p.R, s, d) {
							continue
						}
						if st == 1 {
							c.Count("hits on rows of surfaces", 1)
							c.Distinct(c.Name, k, nfwd)
						}
						if msg := judgeHit(got, want, st, s, d, scaleOf(s, p), true); msg != "" {
							c.Failf("many surfaces: %s\n  %s", msg, describe(p, s, d))
						}
					}
				}
			})
			// surfaces close to each other
			t.Cases("thin", t.N(150, 3000), func(c *C, i int) {
				g := newGen(c.Rand)
				ax := c.Intn(3)
				cur := rvec(c.Rand, 2)
				at := cur[ax]
				prim := func() Pair {
					m := g.mat()
					lo := at + logUni(c.Rand, 3e-4, 1e-2)
					w := logUni(c.Rand, 3e-4, 1e-2)
					if c.Intn(3) == 0 {
						w = uni(c.Rand, .5, 2)
					} else if c.Intn(2) == 0 {
						at = lo
					}
					mn, mx := sub(cur, Vec{2, 2, 2}), add(cur, Vec{2, 2, 2})
					mn[ax], mx[ax] = lo, lo+w
					if c.Intn(4) == 0 { // a thin shell of a large ball
						r := uni(c.Rand, 2, 6)
						cen := cur
						cen[ax] = lo + r
						a := Pair{objects.Sphere(m, 2*r, cen), &refSphere{cen, r, m}, cen, r}
						cen[ax] += w
						m2 := g.mat()
						return Pair{objects.Difference(a.O, objects.Sphere(m2, 2*r, cen)), &refAnd{a.R, &refNot{&refSphere{cen, r, m2}}}, cen, r}
					}
					return Pair{objects.BoxWithBounds(m, mn, mx), &refBox{mn, mx, m}, mid(mn, mx), 3}
				}
				var build func(n int) Pair
				build = func(n int) Pair {
					if n == 1 {
						return prim()
					}
					k := 1 + c.Intn(n-1)
					a, b := build(k), build(n-k)
					if c.Intn(2) == 0 {
						a, b = b, a
					}
					switch c.Intn(5) {
					case 0:
						return Pair{objects.And(a.O, b.O), &refAnd{a.R, b.R}, a.C, 3}
					case 1:
						return Pair{objects.Or(a.O, b.O), &refOr{a.R, b.R}, a.C, 3}
					case 2:
						return Pair{objects.Restrict(a.O, b.O), &refRestrict{a.R, b.R}, a.C, 3}
					default:
						return Pair{objects.Difference(a.O, b.O), &refAnd{a.R, &refNot{b.R}}, a.C, 3}
					}
				}
				p := build(2 + c.Intn(3))
				for k := 0; k < 30; k++ {
					var d Vec
					for j := range d {
						d[j] = uni(c.Rand, -.3, .3)
					}
					d[ax] = 1
					if k%2 == 1 {
						d[ax] = -1
					}
					d = unit(d)
					q := add(cur, rvec(c.Rand, .5))
					q[ax] = at
					s := madd(q, -uni(c.Rand, .001, 3), d)
					want, st, nfwd := refNearest(p.R, s, d)
					r := Ray{Start: s, Dir: d}
					got := p.O.Intersect(&r)
					c.Eval(1)
					if st == 2 || !wellSeparated(p.R, s, d) {
						continue
					}
					if st == 1 {
						c.Count("hits on thin layers", 1)
						c.Distinct(c.Name, k, nfwd)
					}
					if msg := judgeHit(got, want, st, s, d, scaleOf(s, p), true); msg != "" {
						c.Failf("thin layers: %s\n  %s", msg, describe(p, s, d))
					}
				}
			})
			t.Require("hits on thin layers", 500)
			t.Require("hits csg depth 3", 500)
			t.Require("hits on rows of surfaces", 200)
		},
	})

	register(&Check{
		ID:   "C05",
		Rule: "trees of 1..600 objects (meshes, spheres, boxes, planar objects, nested trees, identical centers, large offsets, backdrop members); compared with the reference and with a linear scan over the same members; non-trivial: linear scan hits",
		Run:  runC05,
	})

	register(&Check{
		ID:   "C06",
		Rule: "objects under random chains of rotation/scale/translation built with the API, nested Transformed, shared instances, unbounded objects; compared with the reference transformed analytically; non-trivial: decided hit",
		Run:  runC06,
	})

	register(&Check{
		ID:   "C07",
		Race: true,
		Rule: "shared random objects intersected by 8 goroutines at once under the race detector, each result compared bit-wise with a sequential run, each ray compared with its original value; non-trivial: hits",
		Run:  runC07,
	})
}

// far returns huge objects.
func (g *gen) far(i int) Pair {
	m := g.mat()
	switch i % 5 {
	case 0: // huge flat box as ground
		w := logUni(g.Rand, 1e4, 1e10)
		c := Vec{0, -uni(g.Rand, 200, 300), 0}
		hv := Vec{w / 2, 50, w / 2}
		return Pair{objects.Box(m, w, 100, w, c), &refBox{sub(c, hv), add(c, hv), m}, c, w / 4}
	case 1: // huge rectangle
		w := logUni(g.Rand, 1e4, 1e8)
		c := Vec{0, -uni(g.Rand, 110, 300), 0}
		return Pair{objects.Rectangle(m, w, w, c), rectRef(w, w, c, m), c, w / 4}
	case 2: // box surrounding everything
		w := logUni(g.Rand, 1e3, 1e10)
		hv := Vec{w / 2, w / 2, w / 2}
		return Pair{objects.Box(m, w, w, w, Vec{}), &refBox{mul(-1, hv), hv, m}, Vec{}, w / 4}
	case 3: // huge sphere surrounding
		w := logUni(g.Rand, 1e3, 1e6)
		return Pair{objects.Sphere(m, w, Vec{}), &refSphere{Vec{}, w / 2, m}, Vec{}, w / 4}
	default: // far away box
		c := mul(logUni(g.Rand, 1e3, 1e7), rdir(g.Rand))
		s := logUni(g.Rand, 10, 1000)
		hv := Vec{s / 2, s / 2, s / 2}
		return Pair{objects.Box(m, s, s, s, c), &refBox{sub(c, hv), add(c, hv), m}, c, s / 2}
	}
}

// farAttrs: grounds and skies have normals, local coordinates and materials too.
func farAttrs(c *C, i int) {
	g := newGen(c.Rand)
	p := g.far(i)
	if c.Intn(2) == 0 {
		off := rvec(c.Rand, 3)
		f := func(x Vec) Vec { return Vec{x[1] + off[0], 2*x[0] - off[1], x[2]*0.5 + x[0]} }
		p = Pair{objects.Remap(p.O, f), &refRemap{p.R, f}, p.C, p.Rad}
	}
	for k := 0; k < 30; k++ {
		s := rvec(c.Rand, 100)
		target := add(p.C, rvec(c.Rand, p.Rad))
		d := unit(sub(target, s))
		want, st, _ := refNearest(p.R, s, d)
		c.Eval(1)
		if st == 2 {
			continue
		}
		if st == 1 {
			c.Count("attributes far away", 1)
			c.Distinct(c.Name, k)
		}
		if msg := judgeHit(p.O.Intersect(&Ray{Start: s, Dir: d}), want, st, s, d, scaleOf(s, p), true); msg != "" {
			c.Failf("far: %s\n  %s", msg, describe(p, s, d))
		}
	}
}

// boxEdge: hits close to an edge have the attributes of the face that is hit.
func boxEdge(c *C, i int) {
	m := &probeMat{i}
	var size Vec
	for j := range size {
		size[j] = logUni(c.Rand, 1e-2, 5)
	}
	ctr := rvec(c.Rand, 3)
	mn, mx := madd(ctr, -.5, size), madd(ctr, .5, size)
	o := objects.BoxWithBounds(m, mn, mx)
	for k := 0; k < 20; k++ {
		ax, side := c.Intn(3), c.Intn(2)
		var q, n Vec
		for j := range q {
			q[j] = uni(c.Rand, mn[j], mx[j])
		}
		other := (ax + 1 + c.Intn(2)) % 3
		e := logUni(c.Rand, 1e-6, 1e-3)
		if c.Intn(2) == 0 {
			q[other] = mn[other] + e
		} else {
			q[other] = mx[other] - e
		}
		q[ax], n[ax] = mn[ax], -1
		if side == 1 {
			q[ax], n[ax] = mx[ax], 1
		}
		d := unit(madd(rdir(c.Rand), -1.2, n))
		if dot(d, n) > -.3 {
			continue
		}
		D := uni(c.Rand, .1, 4)
		if c.Intn(3) == 0 { // from within
			d = mul(-1, d)
			in := math.Inf(1)
			for j := range q {
				if d[j] != 0 && j != ax {
					x := mn[j]
					if d[j] < 0 {
						x = mx[j]
					}
					in = math.Min(in, (q[j]-x)/d[j])
				}
			}
			in = math.Min(in, size[ax]/math.Abs(d[ax]))
			D = in * uni(c.Rand, .1, .9)
			if D < 1e-5 {
				continue
			}
		}
		r := Ray{Start: madd(q, -D, d), Dir: d}
		got := o.Intersect(&r)
		c.Eval(1)
		c.Count("hits near edges", 1)
		c.Distinct(c.Name, k)
		if !(math.Abs(got.T-D) < 1e-9) || dist(got.Normal, n) > 1e-6 || got.Material != tracer.Material(m) || dist(got.Local, sub(q, mn)) > 1e-6 {
			c.Failf("box %v..%v: ray %v hits the face with normal %v at %v (t=%v), %g from an edge; got %+v", mn, mx, r, n, q, D, e, got)
			return
		}
	}
}

// smallObject: triangles, quadrilaterals, boxes and spheres down to 1e-5 large.
// Rays are aimed at points that are on (or off) the object by construction.
func smallObject(c *C, i int, attrs bool) {
	g := newGen(c.Rand)
	m := g.mat()
	ctr := rvec(c.Rand, 2)
	s := logUni(c.Rand, 1e-5, 1e-2)
	var o Interface
	var on, off, n Vec // a point on the object, one beside it, and the direction of the normal at the first
	switch i % 6 {
	case 0, 1, 2: // triangle, alone, or as one of a mesh of many
		v := g.triangle(ctr, s)
		e1, e2 := sub(v[1], v[0]), sub(v[2], v[0])
		n = unit(cross(e1, e2))
		a := uni(c.Rand, .05, .9)
		b := uni(c.Rand, .05, .95-a)
		on = add(v[0], add(mul(a, e1), mul(b, e2)))
		switch c.Intn(3) {
		case 0:
			off = add(v[0], add(mul(-.05-a, e1), mul(b, e2)))
		case 1:
			off = add(v[0], add(mul(a, e1), mul(-.05-b, e2)))
		default:
			off = add(v[0], add(mul(a+.05, e1), mul(1.05-a, e2)))
		}
		switch i % 6 {
		case 0:
			o = objects.Triangle(m, v[0], v[1], v[2])
		case 1: // fine mesh around, and a degenerate face, which does not count
			far := add(ctr, Vec{3, 3, 3})
			o = objects.Mesh(m, []Vec{v[0], v[1], v[2], far, add(far, Vec{1, 0, 0}), add(far, Vec{0, 1, 0})},
				[][3]int{{3, 3, 4}, {0, 0, 0}, {0, 1, 2}, {3, 4, 5}, {1, 2, 1}})
		case 2: // parallelogram as parametric surface: the triangle is one half of it
			k := 2 + c.Intn(60)
			o = objects.Parametric(m, k, 2+c.Intn(40), func(u, w float64) Vec { return add(v[0], add(mul(u, e1), mul(w, e2))) })
			off = add(v[0], add(mul(1.05, e1), mul(b, e2)))
			if c.Intn(2) == 0 {
				off = add(v[0], add(mul(a, e1), mul(-.05, e2)))
			}
		}
	case 3: // quadrilateral
		x, y := g.basis()
		n = cross(x, y)
		o = objects.RectangleWithVertices(m, ctr, madd(ctr, s, x), madd(ctr, 2*s, y))
		a, b := uni(c.Rand, .02, .98), uni(c.Rand, .02, .98)
		on = add(ctr, add(mul(a*s, x), mul(2*b*s, y)))
		off = add(ctr, add(mul(1.05*s, x), mul(2*b*s, y)))
	case 4: // box
		h := Vec{s / 2, s, s * 1.5}
		o = objects.Box(m, s, 2*s, 3*s, ctr)
		k := c.Intn(3)
		sg := float64(2*c.Intn(2) - 1)
		for j := range on {
			on[j] = ctr[j] + h[j]*uni(c.Rand, -.95, .95)
		}
		on[k] = ctr[k] + sg*h[k]
		n = Vec{}
		n[k] = sg
		off = on
		off[(k+1)%3] = ctr[(k+1)%3] + 1.05*h[(k+1)%3]
	case 5: // sphere: large compared to the library's epsilon
		s = math.Max(s, 1e-4)
		o = objects.Sphere(m, s, ctr)
		n = rdir(c.Rand)
		on = madd(ctr, s/2, n)
		off = madd(ctr, 0.55*s, n)
	}
	for k := 0; k < 12; k++ {
		// a direction facing the surface
		d := unit(madd(rdir(c.Rand), -uni(c.Rand, 0.3, 3), n))
		if dot(d, n) > -0.3 {
			continue
		}
		if i%6 < 4 && k%2 == 0 { // flat surfaces have two sides
			d = mul(-1, d)
		}
		D := s * logUni(c.Rand, 1, 1e3)
		if i%6 == 1 { // stay clear of the far face
			D = math.Min(D, 2)
		}
		r := Ray{Start: madd(on, -D, d), Dir: d}
		got := o.Intersect(&r)
		c.Eval(2)
		c.Count("hits small objects", 1)
		c.Distinct(c.Name, k)
		if !(math.Abs(got.T-D) < 1e-9+1e-4*s) {
			c.Failf("%T of size %g at %v: ray %.17g %.17g hits at %v, want %v", o, s, ctr, r.Start, d, got.T, D)
			return
		}
		if k == 0 {
			c.Sample("object of size %.3g at %.6g hit at %.6g", s, ctr, got.T)
		}
		if nn := unit(got.Normal); attrs && (!(dist(nn, n) < 1e-3) && !(i%6 < 4 && dist(nn, mul(-1, n)) < 1e-3) || got.Material != tracer.Material(m)) {
			c.Failf("%T of size %g at %v: hit %+v, want normal %v", o, s, ctr, got, n)
			return
		}
		if i%6 >= 4 { // and from within
			d := unit(sub(on, ctr))
			in := dist(on, ctr) * uni(c.Rand, .05, 1)
			r := Ray{Start: madd(on, -in, d), Dir: d}
			got := o.Intersect(&r)
			c.Eval(1)
			c.Count("hits small objects from within", 1)
			if !(math.Abs(got.T-in) < 1e-9+1e-4*s) || attrs && !(dist(unit(got.Normal), n) < 1e-3) {
				c.Failf("%T of size %g at %v: ray %.17g %.17g from within: hit %+v, want t=%v normal %v", o, s, ctr, r.Start, d, got, in, n)
				return
			}
		}
		// beside it. For boxes and spheres only directions that do not lead into it.
		d2 := d
		if i%6 >= 4 {
			d2 = unit(cross(n, rdir(c.Rand)))
			if i%6 == 4 {
				d2 = n
			}
		}
		r = Ray{Start: madd(off, -D, d2), Dir: d2}
		c.Count("misses small objects", 1)
		if got := o.Intersect(&r); got.T > 0 && dist(r.At(got.T), ctr) < 1 { // beyond is the far face of the mesh
			c.Failf("%T of size %g at %v: ray %.17g %.17g passes beside it, but hits at %v", o, s, ctr, r.Start, d2, got.T)
			return
		}
	}
}

func runC03(t *T) {
	t.Cases("bounds", t.N(2500, 60000), func(c *C, i int) {
		g := newGen(c.Rand)
		if i%7 == 0 {
			g.off = rvec(c.Rand, 1000)
		}
		var p Pair
		kind := -1
		switch i % 3 {
		case 0:
			kind = c.Intn(numKinds)
			p = g.prim(kind)
		case 1:
			p = g.csg(1 + c.Intn(3))
		case 2:
			kind := c.Intn(numKinds)
			tr, s := g.sim()
			p = g.prim(kind).transformed(tr, s)
		}
		b := p.O.Bounds()
		tol := 2e-6 * (1 + length(p.C) + p.Rad)
		inB := func(x Vec) bool {
			for k := range x {
				if x[k] < b.Min[k]-tol || x[k] > b.Max[k]+tol {
					return false
				}
			}
			return true
		}
		// every surface point, found by rays, is inside the bounds
		for k := 0; k < 30; k++ {
			s, d := g.ray(p)
			hits, ok := p.R.Hits(s, d)
			c.Eval(1)
			if ok {
				for _, h := range hits {
					if !h.Sure {
						continue
					}
					c.Count("surface points checked against bounds", 1)
					c.Distinct(c.Name, k)
					if x := madd(s, h.T, d); !inB(x) {
						c.Failf("surface point %v outside Bounds %v of %v", x, b, p.R)
					}
				}
			}
		}
		// Inside agrees with the reference, inside points lie in bounds
		for k := 0; k < 40; k++ {
			x := madd(p.C, 1.2*p.Rad*c.Float64(), rdir(c.Rand))
			if k%4 == 0 { // points close to the bounds of the object
				for a := range x {
					if !math.IsInf(b.Max[a], 0) && !math.IsInf(b.Min[a], 0) {
						x[a] = uni(c.Rand, b.Min[a]-0.1*p.Rad, b.Max[a]+0.1*p.Rad)
					}
				}
			}
			in, m := p.R.Inside(x)
			c.Eval(1)
			if m < 1e-4 {
				continue
			}
			got := p.O.Inside(x)
			if got != in {
				c.Failf("Inside(%v) = %v, want %v, for %v", x, got, in, p.R)
			}
			if in {
				c.Count("inside points", 1)
				c.Distinct(c.Name, "in", k)
				if !inB(x) {
					c.Failf("inside point %v outside Bounds %v of %v", x, b, p.R)
				}
			} else {
				c.Count("outside points", 1)
			}
		}
		// bounds of primitives are tight: their center and size are used to place objects
		if kind >= 0 {
			wmin, wmax, ok := exactBounds(p.R)
			if ok {
				c.Count("tight bounds checked", 1)
				for k := range wmin {
					if math.Abs(b.Min[k]-wmin[k]) > 1e-5+tol || math.Abs(b.Max[k]-wmax[k]) > 1e-5+tol {
						c.Failf("Bounds %v, want (%v,%v) for %v", b, wmin, wmax, p.R)
						break
					}
				}
				ctr := mid(wmin, wmax)
				chk := func(name string, got, want Vec) {
					if dist(got, want) > 1e-4+3*tol {
						c.Failf("%s=%v, want %v for %v", name, got, want, p.R)
					}
				}
				sz := sub(wmax, wmin)
				chk("Center", b.Center(), ctr)
				chk("CenterTop", b.CenterTop(), Vec{ctr[0], wmax[1], ctr[2]})
				chk("CenterBottom", b.CenterBottom(), Vec{ctr[0], wmin[1], ctr[2]})
				chk("CenterFront", b.CenterFront(), Vec{ctr[0], ctr[1], wmax[2]})
				chk("CenterBack", b.CenterBack(), Vec{ctr[0], ctr[1], wmin[2]})
				chk("Size", b.Size(), sz)
				chk("Dx,Dy,Dz", Vec{b.Dx(), b.Dy(), b.Dz()}, sz)
			}
		}
	})
	t.Cases("unbounded", t.N(60, 600), func(c *C, i int) {
		g := newGen(c.Rand)
		p := g.csg(c.Intn(2))
		for _, o := range []Interface{objects.Not(p.O), objects.Backdrop(nil), objects.Tree(p.O, objects.Backdrop(nil)),
			objects.Transformed(objects.Not(p.O), geom.Rotate(Vec{}, rdir(c.Rand), uni(c.Rand, -3, 3)))} {
			b := o.Bounds()
			for k := range b.Min {
				if !(b.Min[k] < -1e30) || !(b.Max[k] > 1e30) {
					c.Failf("bounds of unbounded object: %v", b)
				}
			}
			c.Eval(1)
		}
		if ctr := objects.Not(p.O).Bounds().Center(); ctr != (Vec{}) {
			c.Failf("center of infinite bounds: %v, want 0", ctr)
		}
	})
	t.Require("surface points checked against bounds", 5000)
	t.Require("inside points", 3000)
	t.Require("tight bounds checked", 200)
}

func exactBounds(r Ref) (mn, mx Vec, ok bool) {
	switch o := r.(type) {
	case *refSphere:
		v := Vec{o.r, o.r, o.r}
		return sub(o.c, v), add(o.c, v), true
	case *refCyl:
		v := Vec{o.r, o.r, o.r}
		v[o.axis] = o.h / 2
		return sub(o.c, v), add(o.c, v), true
	case *refBox:
		return o.min, o.max, true
	case *refMesh:
		mn, mx = o.v[0], o.v[0]
		for _, v := range o.v {
			for k := range v {
				mn[k] = math.Min(mn[k], v[k])
				mx[k] = math.Max(mx[k], v[k])
			}
		}
		return mn, mx, true
	}
	return
}

// scanTree compares a tree with a linear scan over its members.
func scanTree(c *C, what string, tree Interface, ms []Interface, s, d Vec) {
	best := HitRecord{}
	for _, q := range ms {
		r := Ray{Start: s, Dir: d}
		if h := q.Intersect(&r); h.T > 0 && (best.T == 0 || h.T < best.T) {
			best = h
		}
	}
	r := Ray{Start: s, Dir: d}
	got := tree.Intersect(&r)
	c.Eval(1)
	if best.T > 0 {
		c.Count("hits "+what, 1)
		c.Distinct(what, c.Name, s)
	}
	if got.T != best.T && (got.T > 0 || best.T > 0) || best.T > 0 && (got.Material != best.Material || got.Local != best.Local) {
		c.Failf("%s: tree of %d: ray %.17g %.17g: hit t=%v %v, linear scan finds t=%v %v", what, len(ms), s, d, got.T, got.Material, best.T, best.Material)
	}
}

// treeLayers: thin layers, seen from close by.
func treeLayers(c *C) {
	n := 2 + c.Intn(20)
	off := rvec(c.Rand, 3)
	gap := logUni(c.Rand, 1e-7, 1e-2)
	tr := geom.ComposeLR(geom.Rotate(Vec{}, rdir(c.Rand), uni(c.Rand, 0, 3)), geom.Translate(off))
	flat := c.Intn(2) == 0
	var ms []Interface
	for k := 0; k < n; k++ {
		m := &probeMat{k}
		o := objects.Rectangle(m, 2, 2, Vec{0, float64(k) * gap, 0})
		if !flat {
			o = objects.Transformed(o, tr)
		}
		ms = append(ms, o)
	}
	c.Shuffle(n, func(i, j int) { ms[i], ms[j] = ms[j], ms[i] })
	tree := objects.Tree(append([]Interface{}, ms...)...)
	for k := 0; k < 40; k++ {
		d := rdir(c.Rand)
		if math.Abs(d[1]) < .1 {
			continue
		}
		// start before, or in between
		x := Vec{uni(c.Rand, -.5, .5), gap * (float64(c.Intn(n)) + .5), uni(c.Rand, -.5, .5)}
		s := madd(x, -logUni(c.Rand, gap, 1e5*gap), d)
		if !flat {
			s, d = tr.TransformPoint(s), tr.TransformDir(d)
		}
		scanTree(c, "layers", tree, ms, s, d)
	}
}

// treeEdges: rays through the very edges of the members, where only the rounding of the bounds matters.
func treeEdges(c *C) {
	g := newGen(c.Rand)
	n := 1 + c.Intn(40)
	M := logUni(c.Rand, 1, 1e4)
	off := rvec(c.Rand, M)
	g.off, g.ext = off, 4
	var ms []Interface
	var at []func() Vec
	var nrm []Vec
	eps := func() float64 { return M * logUni(c.Rand, 1e-9, 1e-5) }
	for k := 0; k < n; k++ {
		m := &probeMat{k}
		ctr := g.center()
		if c.Intn(2) == 0 {
			w, h := uni(c.Rand, .5, 3), uni(c.Rand, .5, 3)
			ms = append(ms, objects.Rectangle(m, w, h, ctr))
			nrm = append(nrm, Vec{0, 1, 0})
			at = append(at, func() Vec {
				x := Vec{uni(c.Rand, -.5, .5) * w, 0, uni(c.Rand, -.5, .5) * h}
				switch c.Intn(4) {
				case 0:
					x[0] = w/2 - eps()
				case 1:
					x[0] = -w/2 + eps()
				case 2:
					x[2] = h/2 - eps()
				case 3:
					x[2] = -h/2 + eps()
				}
				return add(ctr, x)
			})
		} else {
			v := g.triangle(ctr, 2)
			ms = append(ms, objects.Triangle(m, v[0], v[1], v[2]))
			nrm = append(nrm, unit(cross(sub(v[1], v[0]), sub(v[2], v[0]))))
			at = append(at, func() Vec {
				e := eps()
				i := c.Intn(3)
				return add(mul(1-2*e, v[i]), mul(e, add(v[(i+1)%3], v[(i+2)%3])))
			})
		}
	}
	tree := objects.Tree(append([]Interface{}, ms...)...)
	for k := 0; k < 60; k++ {
		i := c.Intn(n)
		x := at[i]()
		d := rdir(c.Rand)
		if k%3 == 0 {
			d = Vec{}
			d[c.Intn(3)] = float64(2*c.Intn(2) - 1)
		}
		t := uni(c.Rand, .1, 5)
		s := madd(x, -t, d)
		scanTree(c, "edges", tree, ms, s, d)
		// it is just on the member: something must be hit
		if math.Abs(dot(d, nrm[i])) > .1 {
			r := Ray{Start: s, Dir: d}
			c.Count("edges hit", 1)
			if h := tree.Intersect(&r); !(h.T > 0 && h.T < t+1e-9*M) {
				c.Failf("tree of %d: ray %.17g %.17g through the edge of member %d at %v: hit at %v", n, s, d, i, t, h.T)
			}
		}
	}
}

func runC05(t *T) {
	t.Cases("very-many", 2, func(c *C, i int) { bigTree(c) })
	t.Require("hits among very many", 300)
	t.Cases("layers", t.N(60, 1500), func(c *C, i int) { treeLayers(c) })
	t.Cases("edges", t.N(60, 1500), func(c *C, i int) { treeEdges(c) })
	t.Require("hits layers", 1000)
	t.Require("hits edges", 1000)
	t.Require("edges hit", 1000)
	sizes := []int{1, 2, 3, 6, 7, 8, 9, 14, 15, 16, 20, 29, 33, 57, 64, 100, 150, 300, 600}
	t.Cases("tree", t.N(900, 20000), func(c *C, i int) {
		g := newGen(c.Rand)
		n := sizes[i%len(sizes)]
		style := (i / len(sizes)) % 8
		g.ext = 4
		var ps []Pair
		for k := 0; k < n; k++ {
			var p Pair
			switch style {
			case 0:
				p = g.prim(kSphere)
			case 1:
				p = g.prim(kTriangle)
			case 2: // mixture
				p = g.prim(c.Intn(kDisk + 1))
			case 3: // row along one axis
				g.ext = 0.3
				g.off = Vec{}
				g.off[i%3] = float64(k)
				p = g.prim([]int{kSphere, kBox, kTriangle}[k%3])
			case 4: // identical centers (ties in the sort)
				g.ext = 0
				p = g.prim([]int{kSphere, kBox, kCylY}[k%3])
			case 5: // far from origin
				if k == 0 {
					g.off = rvec(c.Rand, 2000)
				}
				p = g.prim([]int{kSphere, kBox, kTriangle, kRect}[k%4])
			case 6: // nested trees
				m := 1 + c.Intn(9)
				var sub []Pair
				for j := 0; j < m; j++ {
					sub = append(sub, g.prim([]int{kSphere, kBox, kTriangle, kRect}[j%4]))
				}
				p = treeOf(sub)
			case 7: // flat members in common planes (degenerate boxes)
				p = g.prim(kRect)
				if k%2 == 0 {
					tr, s := geom.Rotate(Vec{}, axes[0], 90*geom.Deg), Sim{1, rotM(axes[0], 90*geom.Deg), Vec{}}
					p = p.transformed(tr, s)
				}
			}
			ps = append(ps, p)
			if style == 6 && k > 40 {
				break
			}
		}
		p := treeOf(ps)
		nr := 60
		if n > 100 {
			nr = 40
		}
		for k := 0; k < nr; k++ {
			s, d := g.ray(p)
			if k%2 == 0 { // aim at a member
				q := ps[c.Intn(len(ps))]
				tgt := madd(q.C, 0.9*q.Rad*c.Float64(), rdir(c.Rand))
				d = unit(sub(tgt, s))
			}
			c.Eval(1)
			// linear scan
			best := HitRecord{}
			for _, q := range ps {
				r := Ray{Start: s, Dir: d}
				if h := q.O.Intersect(&r); h.T > 0 && (best.T == 0 || h.T < best.T) {
					best = h
				}
			}
			r := Ray{Start: s, Dir: d}
			got := p.O.Intersect(&r)
			want, st, _ := refNearest(p.R, s, d)
			if st == 2 {
				continue
			}
			if best.T > 0 {
				c.Count("hits", 1)
				c.Count(fmt.Sprintf("hits, %d members", n), 1)
				c.Distinct(c.Name, k)
				if got.T != best.T || got.Material != best.Material || got.Local != best.Local {
					c.Failf("tree of %d (style %d): hit t=%v, linear scan finds t=%v\n  %s", n, style, got.T, best.T, describe(p, s, d))
					continue
				}
				if k == 0 {
					c.Sample("tree of %d members style %d: hit t=%.6g equals linear scan", n, style, got.T)
				}
			} else if got.T > 0 {
				c.Failf("tree of %d (style %d): hit t=%v, linear scan finds nothing\n  %s", n, style, got.T, describe(p, s, d))
			} else {
				c.Count("misses", 1)
			}
			if msg := judgeHit(got, want, st, s, d, scaleOf(s, p), true); msg != "" {
				c.Failf("tree of %d (style %d): %s\n  %s", n, style, msg, describe(p, s, d))
			}
		}
		// Inside is the union
		for k := 0; k < 20; k++ {
			x := madd(p.C, 1.1*p.Rad*c.Float64(), rdir(c.Rand))
			if k%2 == 0 {
				q := ps[c.Intn(len(ps))]
				x = madd(q.C, 1.1*q.Rad*c.Float64(), rdir(c.Rand))
			}
			want := false
			for _, q := range ps {
				want = want || q.O.Inside(x)
			}
			c.Eval(1)
			if want {
				c.Count("inside points", 1)
			}
			if got := p.O.Inside(x); got != want {
				c.Failf("tree of %d: Inside(%v)=%v, want %v", n, x, got, want)
			}
		}
	})
	t.Cases("backdrop-member", t.N(60, 600), func(c *C, i int) {
		g := newGen(c.Rand)
		bm := g.mat()
		var ps []Pair
		for k := 0; k < 1+i%20; k++ {
			ps = append(ps, g.prim(kSphere))
		}
		q := treeOf(ps)
		os := []Interface{objects.Backdrop(bm)}
		for _, p := range ps {
			os = append(os, p.O)
		}
		o := objects.Tree(os...)
		for k := 0; k < 40; k++ {
			s, d := g.ray(q)
			want, st, _ := refNearest(q.R, s, d)
			r := Ray{Start: s, Dir: d}
			got := o.Intersect(&r)
			c.Eval(1)
			if st == 0 {
				c.Count("rays to backdrop member", 1)
				if got.Material != bm || !(got.T > 1e15) {
					c.Failf("tree with backdrop: got %v", got)
				}
			} else if st == 1 {
				if msg := judgeHit(got, want, st, s, d, scaleOf(s, q), true); msg != "" {
					c.Failf("tree with backdrop: %s", msg)
				}
			}
		}
	})
	t.Require("hits", 5000)
	t.Require("misses", 1000)
}

func runC06(t *T) {
	t.Cases("transformed", t.N(2500, 60000), func(c *C, i int) {
		g := newGen(c.Rand)
		var p Pair
		csg := false
		if i%2 == 0 {
			p = g.prim(c.Intn(numKinds))
		} else {
			p = g.csg(1 + c.Intn(2))
			csg = true
		}
		depth := 1 + c.Intn(3)
		for k := 0; k < depth; k++ { // transform chains are merged by the implementation
			tr, s := g.sim()
			p = p.transformed(tr, s)
			if c.Intn(4) == 0 {
				p.O = objects.Bounded(p.O)
			}
		}
		if c.Intn(4) == 0 {
			d := rvec(c.Rand, 3)
			p = Pair{objects.Translated(p.O, d), &refTransf{p.R, Sim{1, ident, d}}, add(p.C, d), p.Rad}
		}
		if p.Rad > 200 || p.Rad < 0.02 || length(p.C) > 500 {
			return
		}
		intersectRays(c, g, p, 40, fmt.Sprintf("transform depth %d", depth), true, csg)
		for k := 0; k < 15; k++ {
			x := madd(p.C, 1.1*p.Rad*c.Float64(), rdir(c.Rand))
			in, m := p.R.Inside(x)
			if m < 1e-4*(1+length(p.C)) {
				continue
			}
			c.Eval(1)
			if got := p.O.Inside(x); got != in {
				c.Failf("Inside(%v)=%v want %v for %v", x, got, in, p.R)
			}
		}
	})
	// models in other units: much larger or smaller than the scene
	t.Cases("scaled", t.N(600, 12000), scaledObject)
	t.Require("hits much larger", 500)
	t.Require("hits much smaller", 500)
	t.Cases("instances", t.N(200, 2000), func(c *C, i int) {
		// several instances share one original: they must not influence each other
		g := newGen(c.Rand)
		inst := []Pair{g.prim(c.Intn(numKinds))}
		for k := 0; k < 6; k++ { // instances of the original, and of other instances
			tr, s := g.sim()
			p := inst[c.Intn(len(inst))]
			if c.Intn(3) == 0 {
				p = inst[0]
			}
			inst = append(inst, p.transformed(tr, s))
		}
		for k := 0; k < 60; k++ {
			p := inst[c.Intn(len(inst))]
			if p.Rad > 200 || p.Rad < 0.02 || length(p.C) > 500 {
				continue
			}
			intersectRays(c, g, p, 1, "shared instances", true, false)
		}
	})
	t.Cases("unbounded", t.N(200, 2000), func(c *C, i int) {
		g := newGen(c.Rand)
		tr, s := g.sim()
		// rotated sky
		m := g.mat()
		bd := objects.Transformed(objects.Backdrop(m), tr)
		for k := 0; k < 10; k++ {
			d := rdir(c.Rand)
			r := Ray{Start: rvec(c.Rand, 10), Dir: d}
			h := bd.Intersect(&r)
			c.Eval(1)
			c.Count("rotated backdrop", 1)
			if !(h.T > 1e15) || h.Material != m || dist(unit(h.Local), unit(s.invDir(d))) > 1e-6 {
				c.Failf("transformed backdrop: local %v for direction %v, want %v", h.Local, d, s.invDir(d))
			}
		}
		// transformed complement used as cutter
		a, b := g.prim(c.Intn(kBoxBounds+1)), g.prim(c.Intn(kBoxBounds+1))
		cut := Pair{objects.And(a.O, objects.Transformed(objects.Not(b.O), tr)), &refAnd{a.R, &refTransf{&refNot{b.R}, s}}, a.C, a.Rad}
		intersectRays(c, g, cut, 25, "transformed complement", true, true)
		// infinite cylinder
		mc := g.mat()
		cc := g.center()
		cyl := Pair{objects.Transformed(objects.Cylinder(mc, 2, math.Inf(1), cc), tr), &refTransf{&refCyl{1, cc, 1, math.Inf(1), mc}, s}, s.point(cc), s.S * 3}
		if s.S > 0.1 && s.S < 10 {
			intersectRays(c, g, cyl, 20, "infinite cylinder", true, false)
		}
	})
	t.Require("hits transform depth 1", 1000)
	t.Require("hits transform depth 3", 1000)
	t.Require("hits shared instances", 500)
}

// alongAxis looks through a long tube, almost along its axis.
func alongAxis(c *C, i int) {
	g := newGen(c.Rand)
	ax := i % 3
	h, d := logUni(c.Rand, 10, 1e5), logUni(c.Rand, .3, 5)
	ctr, m := rvec(c.Rand, 3), g.mat()
	o := objects.CylinderDir(m, ax, d, h, ctr)
	if ax == 1 && c.Intn(2) == 0 {
		o = objects.Cylinder(m, d, h, ctr)
	}
	for k := 0; k < 30; k++ {
		// from a point inside the tube to a point on its wall
		rot := func(along, rad, ang float64) Vec {
			var v Vec
			v[ax], v[(ax+1)%3], v[(ax+2)%3] = along, rad*math.Cos(ang), rad*math.Sin(ang)
			return add(ctr, v)
		}
		s := rot(uni(c.Rand, -.5, .5)*h, d/2*math.Sqrt(c.Float64()), uni(c.Rand, 0, 7))
		q := rot(uni(c.Rand, -.6, .6)*h, d/2, uni(c.Rand, 0, 7))
		dir := unit(sub(q, s))
		// the wall is met at an angle: how much does it matter where exactly?
		ra, rb := sub(q, ctr), dir
		ra[ax], rb[ax] = 0, 0
		steep := dot(unit(ra), rb)
		t := dist(s, q)
		end := h/2 - math.Abs(q[ax]-ctr[ax])
		c.Eval(1)
		if steep < 1e-9 || t < .01*d || math.Abs(end) < 1e-3*h || steep < .05*length(rb) {
			c.Count("undecidable rays (grazing, edges, coincident surfaces)", 1)
			continue
		}
		got := o.Intersect(&Ray{Start: s, Dir: dir})
		if end < 0 {
			if got.T > 0 && got.T < 1e15 {
				c.Failf("ray leaves the tube (axis %d, diameter %v, height %v, center %v) through its end, but hits at %v: start %v dir %v", ax, d, h, ctr, got.T, s, dir)
				return
			}
			continue
		}
		c.Count("hits along a tube", 1)
		c.Distinct(c.Name, k)
		tol := 1e-14 / steep * (h + d) * 100
		if !(math.Abs(got.T-t) <= tol+1e-9*t) || got.Material != tracer.Material(m) {
			c.Failf("tube (axis %d, diameter %v, height %v, center %v): hit at %v, want %v: start %v dir %v", ax, d, h, ctr, got.T, t, s, dir)
			return
		}
	}
}

// scaledObject compares an object scaled by orders of magnitude with the original's reference.
func scaledObject(c *C, i int) {
	g := newGen(c.Rand)
	p := g.prim(i % numKinds)
	label, f := "much larger", logUni(c.Rand, 30, 3e6)
	if i/numKinds%2 == 1 {
		label, f = "much smaller", 1/f
	}
	ctr := Vec{}
	if c.Intn(2) == 0 {
		ctr = rvec(c.Rand, 3)
	}
	o, sim := objects.Transformed(p.O, geom.Scale(ctr, f)), aroundOrigin(ctr, Sim{f, ident, Vec{}})
	switch c.Intn(4) {
	case 0:
		tr, s := g.sim()
		o, sim = objects.Transformed(o, tr), compose(sim, s)
	case 1:
		tr, s := g.sim()
		o, sim = objects.Transformed(p.O, geom.ComposeLR(tr, geom.Scale(ctr, f))), compose(s, aroundOrigin(ctr, Sim{f, ident, Vec{}}))
	case 2:
		o = objects.Bounded(o)
	case 3:
		o = objects.Tree(o)
	}
	if length(sim.B) > 1e4*sim.S {
		return // cannot be represented well
	}
	for k := 0; k < 40; k++ {
		s, d := g.ray(p) // in the original's coordinates
		want, st, _ := refNearest(p.R, s, d)
		c.Eval(1)
		if st == 2 {
			continue
		}
		r := Ray{Start: sim.point(s), Dir: mul(1/sim.S, sim.dir(d))}
		got := o.Intersect(&r)
		if st == 1 {
			c.Count("hits "+label, 1)
			c.Distinct(c.Name, k)
		}
		scale := scaleOf(s, p) + length(sim.B)/sim.S*1e-3
		want.N = sim.dir(want.N)
		got.T /= sim.S
		if msg := judgeHit(got, want, st, s, d, scale, true); msg != "" {
			c.Failf("%s: scaled by %v (t divided by that): %s\n  %s", label, sim.S, msg, describe(p, s, d))
			return
		}
		x := madd(p.C, 1.1*p.Rad*c.Float64(), rdir(c.Rand))
		in, m := p.R.Inside(x)
		if m < 1e-4*(1+length(p.C)) {
			continue
		}
		if got := o.Inside(sim.point(x)); got != in {
			c.Failf("%s: scaled by %v: Inside(%v)=%v, want %v for %v", label, sim.S, sim.point(x), got, in, p.R)
			return
		}
	}
}

func runC07(t *T) {
	t.Assume("the race detector reports races on the executions produced; cross-checked by bit-wise comparison with sequential results")
	n := t.N(60, 1500)
	for i := 0; i < n; i++ {
		i := i
		t.Case(fmt.Sprintf("shared#%d", i), func(c *C) {
			g := newGen(c.Rand)
			var p Pair
			switch i % 6 {
			case 0:
				p = g.csg(3)
			case 1:
				var ps []Pair
				for k := 0; k < 25; k++ {
					ps = append(ps, g.csg(1))
				}
				p = treeOf(ps)
			case 2:
				p = g.prim(kMeshBig)
				tr, s := g.sim()
				p = p.transformed(tr, s)
			case 3:
				p = g.prim(c.Intn(numKinds))
			case 4:
				f := func(u, v float64) float64 { return 0.5 + 0.3*math.Sin(4*u)*math.Cos(3*v) }
				p = Pair{O: objects.IsoSurface(g.mat(), 4, 1, 4, f), C: Vec{2, 0.5, 2}, Rad: 3}
			case 5:
				p = g.csg(2)
				off := rvec(c.Rand, 1)
				p.O = objects.Hollow(objects.Remap(objects.Bounded(p.O), func(v Vec) Vec { return add(v, off) }))
			}
			type rec struct {
				s, d Vec
				h    HitRecord
			}
			N := 400
			recs := make([]rec, N)
			for k := range recs {
				s, d := g.ray(p)
				recs[k].s, recs[k].d = s, d
			}
			in := func(h HitRecord) HitRecord { return h }
			check := func(k int, who string) HitRecord {
				r := Ray{Start: recs[k].s, Dir: recs[k].d}
				h := p.O.Intersect(&r)
				if r.Start != recs[k].s || r.Dir != recs[k].d {
					c.Failf("%s: Intersect changed the ray: start %v -> %v, dir %v -> %v (%v)", who, recs[k].s, r.Start, recs[k].d, r.Dir, p.R)
				}
				return in(h)
			}
			for k := range recs {
				if k > N/2 && recs[k-N/2].h.T > 0 && recs[k-N/2].h.T < 1e6 { // a hit again, from close by
					q := recs[k-N/2]
					gap := logUni(c.Rand, 1e-7, 1e-2)
					recs[k].s, recs[k].d = madd(q.s, q.h.T-gap/length(q.d), q.d), q.d
				}
				recs[k].h = check(k, "sequential")
				if recs[k].h.T > 0 {
					c.Count("hits", 1)
					c.Distinct(c.Name, k)
				}
			}
			// building other objects out of this one does not change it
			x := g.prim(c.Intn(kBoxBounds + 1)).O
			tr, _ := g.sim()
			bnd := p.O.Bounds()
			derived := []Interface{objects.Transformed(p.O, tr), objects.Bounded(p.O), objects.And(p.O, x), objects.Or(x, p.O), objects.Difference(x, p.O),
				objects.Not(p.O), objects.Hollow(p.O), objects.Restrict(p.O, x), objects.WithMaterial(g.mat(), p.O), objects.Tree(x, p.O),
				objects.Remap(p.O, func(v Vec) Vec { return mul(2, v) }), objects.Translated(p.O, Vec{1, 2, 3})}
			for _, k := range c.Perm(N)[:N/8] {
				for _, o := range derived {
					o.Intersect(&Ray{Start: recs[k].s, Dir: recs[k].d})
				}
				if h := check(k, "after building others"); !sameHit(h, recs[k].h) {
					c.Failf("building and using other objects changed the original: %v, before: %v for start=%v dir=%v (%v)", h, recs[k].h, recs[k].s, recs[k].d, p.R)
					return
				}
			}
			if b := p.O.Bounds(); b != bnd {
				c.Failf("building and using other objects changed the bounds from %v to %v (%v)", bnd, b, p.R)
			}
			c.Eval(N * 9)
			// now concurrently, in a different order per goroutine
			perms := make([][]int, 8)
			for w := range perms {
				perms[w] = c.Perm(N)
			}
			var wg sync.WaitGroup
			for w := 0; w < 8; w++ {
				wg.Add(1)
				go func(w int) {
					defer wg.Done()
					defer func() {
						if e := recover(); e != nil {
							c.Failf("concurrent Intersect panics: %v (%v)", e, p.R)
						}
					}()
					for _, k := range perms[w] {
						h := check(k, "concurrent")
						if !sameHit(h, recs[k].h) {
							c.Failf("concurrent Intersect differs: %v, sequentially: %v for start=%v dir=%v", h, recs[k].h, recs[k].s, recs[k].d)
							return
						}
						p.O.Inside(recs[k].s)
						p.O.Bounds()
					}
				}(w)
			}
			wg.Wait()
			c.Count("concurrent Intersect calls", 8*N)
		})
	}
	t.Require("hits", 1000)
}

func sameHit(a, b HitRecord) bool {
	if !(a.T > 0) && !(b.T > 0) {
		return true
	}
	return a.T == b.T && a.Normal == b.Normal && a.Local == b.Local && a.Material == b.Material
}
