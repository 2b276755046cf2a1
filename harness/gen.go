package main

import (
	"fmt"
	"math"
	"math/rand"

	"github.com/barnex/bruteray/geom"
	"github.com/barnex/bruteray/tracer"
	"github.com/barnex/bruteray/tracer/objects"
)

// Pair is a real object with its reference model.
type Pair struct {
	O   Interface
	R   Ref
	C   Vec     // approximate center
	Rad float64 // approximate radius
}

type gen struct {
	*rand.Rand
	nextMat int
	off     Vec // where objects are centered
	ext     float64
	noMesh  bool
	solid   bool // only objects with an inside
	matFn   func() tracer.Material
}

func newGen(r *rand.Rand) *gen { return &gen{Rand: r, ext: 3} }

func (g *gen) mat() tracer.Material {
	if g.matFn != nil {
		return g.matFn()
	}
	g.nextMat++
	return &probeMat{g.nextMat}
}
func (g *gen) center() Vec { return add(g.off, rvec(g.Rand, g.ext)) }

const (
	kSphere = iota
	kCylY
	kCylX
	kCylZ
	kCapped
	kBox
	kBoxBounds
	kTriangle
	kQuad
	kRect
	kRectVerts
	kDisk
	kMesh
	kParametric
	kMeshBig
	numKinds
)

var kindName = []string{"sphere", "cylinderY", "cylinderX", "cylinderZ", "cappedCylinder", "box", "boxWithBounds", "triangle", "quadrilateral", "rectangle", "rectangleWithVertices", "disk", "mesh", "parametric", "meshBig"}

func (g *gen) prim(kind int) Pair {
	c := g.center()
	m := g.mat()
	sz := func() float64 { return logUni(g.Rand, 0.3, 5) }
	switch kind {
	case kSphere:
		d := sz()
		return Pair{objects.Sphere(m, d, c), &refSphere{c, d / 2, m}, c, d / 2}
	case kCylY, kCylX, kCylZ:
		d, h := sz(), sz()
		ax := map[int]int{kCylX: 0, kCylY: 1, kCylZ: 2}[kind]
		var o Interface
		if ax == 1 && g.Intn(2) == 0 {
			o = objects.Cylinder(m, d, h, c)
		} else {
			o = objects.CylinderDir(m, ax, d, h, c)
		}
		return Pair{o, &refCyl{ax, c, d / 2, h, m}, c, math.Hypot(d, h) / 2}
	case kCapped:
		d, h := sz(), sz()
		hv := Vec{d / 2, h / 2, d / 2}
		return Pair{objects.CylinderWithCaps(m, d, h, c),
			&refAnd{&refCyl{1, c, d / 2, h, m}, &refBox{sub(c, hv), add(c, hv), m}}, c, math.Hypot(d, h) / 2}
	case kBox:
		s := Vec{sz(), sz(), sz()}
		return Pair{objects.Box(m, s[0], s[1], s[2], c), &refBox{madd(c, -0.5, s), madd(c, 0.5, s), m}, c, length(s) / 2}
	case kBoxBounds:
		s := Vec{sz(), sz(), sz()}
		mn, mx := madd(c, -0.5, s), madd(c, 0.5, s)
		return Pair{objects.BoxWithBounds(m, mn, mx), &refBox{mn, mx, m}, c, length(s) / 2}
	case kTriangle:
		v := g.triangle(c, sz())
		return Pair{objects.Triangle(m, v[0], v[1], v[2]),
			newRefMesh(v, [][3]int{{0, 1, 2}}, []Vec2{{0, 0}, {1, 0}, {0, 1}}, m, "Triangle"), centroid(v), meshRad(v)}
	case kQuad:
		// convex planar quadrilateral
		x, y := g.basis()
		var v []Vec
		a0 := uni(g.Rand, 0, 6)
		s := sz()
		for i := 0; i < 4; i++ {
			a := a0 + float64(i)*math.Pi/2 + uni(g.Rand, -0.4, 0.4)
			v = append(v, add(c, add(mul(s*math.Cos(a), x), mul(s*math.Sin(a), y))))
		}
		return Pair{objects.Quadrilateral(m, v[0], v[1], v[2], v[3]), quadRef(v, m), centroid(v), meshRad(v)}
	case kRect:
		w, d := sz(), sz()
		return Pair{objects.Rectangle(m, w, d, c), rectRef(w, d, c, m), c, math.Hypot(w, d) / 2}
	case kRectVerts:
		x, y := g.basis()
		o, a, b := c, madd(c, sz(), unit(madd(x, uni(g.Rand, -.5, .5), y))), madd(c, sz(), y)
		v := []Vec{o, a, add(a, sub(b, o)), b}
		return Pair{objects.RectangleWithVertices(m, o, a, b), quadRef(v, m), centroid(v), meshRad(v)}
	case kDisk:
		d := sz()
		return Pair{objects.Disk(m, d, c), &refRestrict{rectRef(d, d, c, m), &refCyl{1, c, d / 2, 1, nil}}, c, d / 2}
	case kMesh, kMeshBig:
		// bumpy closed-ish surface: grid on a sphere, with random UVs
		nu, nv := 3+g.Intn(4), 3+g.Intn(4)
		if kind == kMeshBig {
			nu, nv = 6+g.Intn(10), 6+g.Intn(10)
		}
		s := sz()
		var v []Vec
		var uv []Vec2
		for i := 0; i <= nu; i++ {
			for j := 0; j <= nv; j++ {
				th := 0.3 + 2.5*float64(i)/float64(nu)
				ph := 5.5 * float64(j) / float64(nv)
				rr := s * (1 + 0.15*math.Sin(3*th+2*ph))
				v = append(v, add(c, Vec{rr * math.Sin(th) * math.Cos(ph), rr * math.Cos(th), rr * math.Sin(th) * math.Sin(ph)}))
				uv = append(uv, Vec2{uni(g.Rand, -2, 2), uni(g.Rand, -2, 2)})
			}
		}
		var f [][3]int
		for i := 0; i < nu; i++ {
			for j := 0; j < nv; j++ {
				k := i*(nv+1) + j
				f = append(f, [3]int{k, k + 1, k + nv + 2}, [3]int{k, k + nv + 2, k + nv + 1})
			}
		}
		g.Shuffle(len(f), func(i, j int) { f[i], f[j] = f[j], f[i] })
		// Faces without area (repeated vertices) show nothing and do not count for the normals.
		f2 := f
		if g.Intn(3) == 0 {
			f2 = append([][3]int{}, f...)
			for n := 1 + g.Intn(3); n > 0; n-- {
				a, b := g.Intn(len(v)), g.Intn(len(v))
				f2 = append(f2, [][3]int{{a, a, b}, {a, b, a}, {b, a, a}, {a, a, a}}[g.Intn(4)])
			}
			g.Shuffle(len(f2), func(i, j int) { f2[i], f2[j] = f2[j], f2[i] })
		}
		if g.Intn(2) == 0 {
			return Pair{objects.Mesh(m, cpv(v), f2), newRefMesh(v, f, nil, m, "Mesh"), c, 1.15 * s}
		}
		return Pair{objects.MeshWithUV(m, cpv(v), f2, uv), newRefMesh(v, f, uv, m, "MeshWithUV"), c, 1.15 * s}
	case kParametric:
		nu, nv := 2+g.Intn(7), 2+g.Intn(7)
		s := sz()
		k1, k2 := uni(g.Rand, 0, 0.4), uni(g.Rand, 0, 6)
		f := func(u, v float64) Vec {
			return add(c, Vec{s * (u - 0.5), s * k1 * math.Sin(3*u+2*v+k2), s * (v - 0.5)})
		}
		var vs []Vec
		var uv []Vec2
		for i := 0; i < nu; i++ {
			for j := 0; j < nv; j++ {
				u, v := float64(i)/float64(nu-1), float64(j)/float64(nv-1)
				vs = append(vs, f(u, v))
				uv = append(uv, Vec2{u, v})
			}
		}
		var fs [][3]int
		for i := 0; i < nu-1; i++ {
			for j := 0; j < nv-1; j++ {
				a, b, d, e := i*nv+j, (i+1)*nv+j, (i+1)*nv+j+1, i*nv+j+1
				fs = append(fs, [3]int{a, b, d}, [3]int{a, d, e})
			}
		}
		return Pair{objects.Parametric(m, nu, nv, f), newRefMesh(vs, fs, uv, m, "Parametric"), c, s}
	}
	panic(kind)
}

func cpv(v []Vec) []Vec { return append([]Vec{}, v...) }

func quadRef(v []Vec, m tracer.Material) Ref {
	return newRefMesh(v, [][3]int{{0, 1, 3}, {2, 3, 1}}, []Vec2{{0, 0}, {1, 0}, {1, 1}, {0, 1}}, m, "Quadrilateral")
}

func rectRef(w, d float64, c Vec, m tracer.Material) Ref {
	v := []Vec{
		add(c, Vec{-w / 2, 0, -d / 2}), add(c, Vec{-w / 2, 0, d / 2}),
		add(c, Vec{w / 2, 0, d / 2}), add(c, Vec{w / 2, 0, -d / 2}),
	}
	return quadRef(v, m)
}

func centroid(v []Vec) Vec {
	var s Vec
	for _, v := range v {
		s = add(s, v)
	}
	return mul(1/float64(len(v)), s)
}
func meshRad(v []Vec) float64 {
	c, r := centroid(v), 0.0
	for _, v := range v {
		r = math.Max(r, dist(c, v))
	}
	return r
}

func (g *gen) basis() (Vec, Vec) {
	x := rdir(g.Rand)
	if g.Intn(3) == 0 {
		x = axes[g.Intn(3)]
	}
	y := unit(cross(x, rdir(g.Rand)))
	return x, y
}

func (g *gen) triangle(c Vec, s float64) []Vec {
	for {
		v := []Vec{madd(c, s, rdir(g.Rand)), madd(c, s, rdir(g.Rand)), madd(c, s, rdir(g.Rand))}
		if g.Intn(4) == 0 { // axis-aligned plane
			i := g.Intn(3)
			for j := range v {
				v[j][i] = c[i]
			}
		}
		a := length(cross(sub(v[1], v[0]), sub(v[2], v[0])))
		l := math.Max(dist(v[0], v[1]), math.Max(dist(v[1], v[2]), dist(v[0], v[2])))
		if a > 0.1*l*l && l > 0.3*s {
			return v
		}
	}
}

// sim returns a random similarity transform, built with the API under test,
// and independently.
func (g *gen) sim() (*geom.AffineTransform, Sim) {
	n := 1 + g.Intn(4)
	var ts []*geom.AffineTransform
	tot := Sim{1, ident, Vec{}}
	for i := 0; i < n; i++ {
		t, s := g.sim1()
		ts = append(ts, t)
		tot = compose(tot, s)
	}
	return geom.ComposeLR(ts...), tot
}

// apply a first, then b.
func compose(a, b Sim) Sim {
	return Sim{a.S * b.S, b.R.mul(a.R), add(mul(b.S, b.R.vec(a.B)), b.B)}
}

func aroundOrigin(o Vec, s Sim) Sim {
	return compose(compose(Sim{1, ident, mul(-1, o)}, s), Sim{1, ident, o})
}

func (g *gen) sim1() (*geom.AffineTransform, Sim) {
	ang := uni(g.Rand, -7, 7)
	if g.Intn(3) == 0 {
		ang = float64(g.Intn(9)-4) * 90 * geom.Deg
	}
	o := rvec(g.Rand, 3)
	small := g.Intn(6) == 0 // almost nothing
	eps := logUni(g.Rand, 1e-6, 1e-2) * float64(2*g.Intn(2)-1)
	if small {
		ang = eps
	}
	switch g.Intn(5) {
	case 0:
		d := rvec(g.Rand, 5)
		if small {
			d = mul(eps, rdir(g.Rand))
			if g.Intn(2) == 0 {
				d = mul(eps, axes[g.Intn(3)])
			}
		}
		return geom.Translate(d), Sim{1, ident, d}
	case 1:
		s := logUni(g.Rand, 0.3, 3)
		if small {
			s = 1 + eps
		}
		return geom.Scale(o, s), aroundOrigin(o, Sim{s, ident, Vec{}})
	case 2:
		ax := mul(logUni(g.Rand, 0.2, 4), rdir(g.Rand))
		return geom.Rotate(o, ax, ang), aroundOrigin(o, Sim{1, rotM(ax, ang), Vec{}})
	case 3:
		ax := axes[g.Intn(3)]
		return geom.Rotate(o, ax, ang), aroundOrigin(o, Sim{1, rotM(ax, ang), Vec{}})
	default:
		y, p, r := uni(g.Rand, -4, 4), uni(g.Rand, -4, 4), uni(g.Rand, -4, 4)
		if small {
			y, p, r = eps*float64(g.Intn(2)), eps*float64(g.Intn(2)), eps*float64(g.Intn(2))
		}
		return geom.YawPitchRoll(y, p, r), Sim{1, rotM(axes[1], y).mul(rotM(axes[0], p)).mul(rotM(axes[2], r)), Vec{}}
	}
}

func (p Pair) transformed(t *geom.AffineTransform, s Sim) Pair {
	return Pair{objects.Transformed(p.O, t), &refTransf{p.R, s}, s.point(p.C), p.Rad * s.S}
}

// csg returns a random object tree.
func (g *gen) csg(depth int) Pair {
	if depth == 0 {
		if g.Intn(5) > 0 || g.solid {
			return g.prim(g.Intn(kBoxBounds + 1))
		}
		return g.prim(g.Intn(numKinds - 1))
	}
	a := g.csg(depth - 1)
	switch g.Intn(11) {
	case 10: // double negation, also as the first operand
		b := g.csg(g.Intn(depth))
		switch g.Intn(4) {
		case 0:
			return Pair{objects.And(a.O, objects.Not(objects.Not(b.O))), &refAnd{a.R, &refNot{&refNot{b.R}}}, mid(a.C, b.C), math.Max(a.Rad, b.Rad)}
		case 1:
			return Pair{objects.And(objects.Not(b.O), a.O), &refAnd{&refNot{b.R}, a.R}, a.C, a.Rad}
		case 2:
			return Pair{objects.Restrict(a.O, objects.Not(objects.Not(b.O))), &refRestrict{a.R, &refNot{&refNot{b.R}}}, a.C, a.Rad}
		default: // a and b and k, the hard way
			k := g.csg(g.Intn(depth))
			return Pair{objects.And(a.O, objects.Not(objects.Or(objects.Not(b.O), objects.Not(k.O)))),
				&refAnd{a.R, &refNot{&refOr{&refNot{b.R}, &refNot{k.R}}}}, mid(a.C, b.C), math.Max(a.Rad, b.Rad)}
		}
	case 0, 1:
		b := g.csg(g.Intn(depth))
		return Pair{objects.And(a.O, b.O), &refAnd{a.R, b.R}, mid(a.C, b.C), math.Max(a.Rad, b.Rad)}
	case 2:
		b := g.csg(g.Intn(depth))
		return Pair{objects.Or(a.O, b.O), &refOr{a.R, b.R}, mid(a.C, b.C), a.Rad + b.Rad}
	case 3, 4:
		b := g.csg(g.Intn(depth))
		if g.Intn(2) == 0 {
			return Pair{objects.Difference(a.O, b.O), &refAnd{a.R, &refNot{b.R}}, a.C, a.Rad}
		}
		return Pair{objects.And(a.O, objects.Not(b.O)), &refAnd{a.R, &refNot{b.R}}, a.C, a.Rad}
	case 5:
		b := g.csg(g.Intn(depth))
		if g.Intn(2) == 0 {
			return Pair{objects.Restrict(a.O, objects.Not(b.O)), &refRestrict{a.R, &refNot{b.R}}, a.C, a.Rad}
		}
		return Pair{objects.Restrict(a.O, b.O), &refRestrict{a.R, b.R}, a.C, a.Rad}
	case 6:
		if g.solid {
			return a
		}
		return Pair{objects.Hollow(a.O), &refHollow{a.R}, a.C, a.Rad}
	case 7:
		t, s := g.sim()
		return a.transformed(t, s)
	case 8:
		n := 1 + g.Intn(4)
		ps := []Pair{a}
		for i := 0; i < n; i++ {
			ps = append(ps, g.csg(g.Intn(depth)))
		}
		return treeOf(ps)
	default:
		if g.Intn(2) == 0 {
			m := g.mat()
			return Pair{objects.WithMaterial(m, a.O), &refMat{a.R, m}, a.C, a.Rad}
		}
		return Pair{objects.Bounded(a.O), a.R, a.C, a.Rad}
	}
}

func mid(a, b Vec) Vec { return mul(0.5, add(a, b)) }

func treeOf(ps []Pair) Pair {
	var o []Interface
	r := &refTree{}
	var cs []Vec
	for _, p := range ps {
		o = append(o, p.O)
		r.ch = append(r.ch, p.R)
		cs = append(cs, p.C)
	}
	c := centroid(cs)
	rad := 0.0
	for _, p := range ps {
		rad = math.Max(rad, dist(p.C, c)+p.Rad)
	}
	return Pair{objects.Tree(o...), r, c, rad}
}

// ray aims around p.
func (g *gen) ray(p Pair) (s, d Vec) {
	target := madd(p.C, 1.05*p.Rad*g.Float64(), rdir(g.Rand))
	switch g.Intn(8) {
	case 0, 1: // start near or inside
		s = madd(p.C, p.Rad*g.Float64(), rdir(g.Rand))
		d = rdirSpecial(g.Rand)
	case 2: // special direction through target
		d = rdirSpecial(g.Rand)
		s = madd(target, -p.Rad*uni(g.Rand, 0.5, 4), d)
	case 3: // pointing away
		d = rdir(g.Rand)
		s = madd(target, p.Rad*uni(g.Rand, 0, 4), d)
	case 4: // round coordinates
		d = rdirSpecial(g.Rand)
		s = madd(target, -p.Rad*uni(g.Rand, 0.5, 4), d)
		for i := range s {
			s[i] = math.Round(s[i]*2) / 2
		}
	default:
		s = madd(p.C, p.Rad*uni(g.Rand, 1.1, 6), rdir(g.Rand))
		d = unit(sub(target, s))
	}
	if g.Intn(4) == 0 {
		d = mul(logUni(g.Rand, 0.2, 5), d)
	}
	return s, d
}

func scaleOf(s Vec, p Pair) float64 { return 1 + length(s) + length(p.C) + p.Rad }

func describe(p Pair, s, d Vec) string {
	return fmt.Sprintf("%v\n  ray start=%.17g dir=%.17g", p.R, s, d)
}
