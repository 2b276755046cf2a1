package main

// Independent reference model of solid objects: computes *all* surface
// crossings along a line analytically, and flags those too close to an edge,
// a grazing configuration or another crossing to be decided in floating point.

import (
	"fmt"
	"math"
	"math/rand"
	"sort"

	"github.com/barnex/bruteray/geom"
	"github.com/barnex/bruteray/imagef/colorf"
	"github.com/barnex/bruteray/tracer"
	"github.com/barnex/bruteray/tracer/objects"
)

type Vec = geom.Vec
type Vec2 = geom.Vec2
type Ray = tracer.Ray
type HitRecord = tracer.HitRecord
type Color = colorf.Color
type Interface = objects.Interface

// own vector arithmetic: the oracle must not depend on the code under test.
func add(a, b Vec) Vec                 { return Vec{a[0] + b[0], a[1] + b[1], a[2] + b[2]} }
func sub(a, b Vec) Vec                 { return Vec{a[0] - b[0], a[1] - b[1], a[2] - b[2]} }
func mul(s float64, a Vec) Vec         { return Vec{s * a[0], s * a[1], s * a[2]} }
func madd(a Vec, s float64, b Vec) Vec { return Vec{a[0] + s*b[0], a[1] + s*b[1], a[2] + s*b[2]} }
func dot(a, b Vec) float64             { return a[0]*b[0] + a[1]*b[1] + a[2]*b[2] }
func length(a Vec) float64             { return math.Sqrt(dot(a, a)) }
func unit(a Vec) Vec                   { return mul(1/length(a), a) }
func cross(a, b Vec) Vec {
	return Vec{a[1]*b[2] - a[2]*b[1], a[2]*b[0] - a[0]*b[2], a[0]*b[1] - a[1]*b[0]}
}
func dist(a, b Vec) float64 { return length(sub(a, b)) }

// Mat3 is row-major.
type Mat3 [3][3]float64

func (m Mat3) vec(v Vec) Vec {
	return Vec{
		m[0][0]*v[0] + m[0][1]*v[1] + m[0][2]*v[2],
		m[1][0]*v[0] + m[1][1]*v[1] + m[1][2]*v[2],
		m[2][0]*v[0] + m[2][1]*v[1] + m[2][2]*v[2],
	}
}
func (m Mat3) mul(b Mat3) Mat3 {
	var c Mat3
	for i := range c {
		for j := range c {
			for k := range c {
				c[i][j] += m[i][k] * b[k][j]
			}
		}
	}
	return c
}
func (m Mat3) transp() Mat3 {
	var c Mat3
	for i := range c {
		for j := range c {
			c[i][j] = m[j][i]
		}
	}
	return c
}

var ident = Mat3{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}

// Rodrigues' rotation, counterclockwise, right-handed.
func rotM(axis Vec, angle float64) Mat3 {
	k := unit(axis)
	var m Mat3
	s, c := math.Sin(angle), math.Cos(angle)
	for j := 0; j < 3; j++ {
		var e Vec
		e[j] = 1
		v := add(add(mul(c, e), mul(s, cross(k, e))), mul(dot(k, e)*(1-c), k))
		for i := 0; i < 3; i++ {
			m[i][j] = v[i]
		}
	}
	return m
}

// Sim is a similarity transform y = s R x + b.
type Sim struct {
	S float64
	R Mat3
	B Vec
}

func (t Sim) point(x Vec) Vec { return add(mul(t.S, t.R.vec(x)), t.B) }
func (t Sim) dir(x Vec) Vec   { return mul(t.S, t.R.vec(x)) }
func (t Sim) invPoint(y Vec) Vec {
	return mul(1/t.S, t.R.transp().vec(sub(y, t.B)))
}
func (t Sim) invDir(y Vec) Vec { return mul(1/t.S, t.R.transp().vec(y)) }

// probe material: identifies the leaf a hit came from.
type probeMat struct{ id int }

func (*probeMat) Shade(ctx *tracer.Ctx, s *tracer.Scene, r *Ray, h tracer.HitCoords) Color {
	return Color{}
}

type RefHit struct {
	T    float64
	N    Vec // direction of the normal
	L    Vec // local coordinates
	Mat  tracer.Material
	Sure bool
}

// Ref is the reference counterpart of an objects.Interface.
type Ref interface {
	// All crossings of the line s+t*d, any t, any order.
	// ok=false: the entire line is too close to degenerate.
	Hits(s, d Vec) (hits []RefHit, ok bool)
	// Inside, and a lower bound for the distance to where this changes.
	Inside(p Vec) (in bool, margin float64)
	String() string
}

const eps = 2e-5 // features closer than this (relative to scale) are not judged

// ---- sphere

type refSphere struct {
	c   Vec
	r   float64
	mat tracer.Material
}

func (o *refSphere) String() string { return fmt.Sprintf("Sphere(d=%.9g,%.9g)", 2*o.r, o.c) }
func (o *refSphere) Hits(s, d Vec) ([]RefHit, bool) {
	d1 := length(d)
	u := mul(1/d1, d)
	tc := dot(sub(o.c, s), u)
	p := madd(s, tc, u)
	b := dist(p, o.c)
	if math.Abs(b-o.r) < eps*(1+o.r) {
		return nil, false // grazing
	}
	if b > o.r {
		return nil, true
	}
	h := math.Sqrt((o.r - b) * (o.r + b))
	var out []RefHit
	for _, t := range []float64{tc - h, tc + h} {
		p := madd(s, t, u)
		out = append(out, RefHit{T: t / d1, N: sub(p, o.c), L: sub(p, o.c), Mat: o.mat, Sure: true})
	}
	return out, true
}
func (o *refSphere) Inside(p Vec) (bool, float64) {
	r := dist(p, o.c)
	return r < o.r, math.Abs(r - o.r)
}

// ---- open cylinder

type refCyl struct {
	axis int
	c    Vec
	r, h float64
	mat  tracer.Material
}

func (o *refCyl) String() string {
	return fmt.Sprintf("Cylinder(axis=%d,d=%.9g,h=%.9g,%.9g)", o.axis, 2*o.r, o.h, o.c)
}
func (o *refCyl) Hits(s, d Vec) ([]RefHit, bool) {
	d1 := length(d)
	s2, d2 := sub(s, o.c), mul(1/d1, d)
	s2[o.axis], d2[o.axis] = 0, 0
	dp := length(d2)
	if dp == 0 {
		return nil, math.Abs(length(s2)-o.r) > eps
	}
	if dp < 1e-3 {
		return nil, false
	}
	u := mul(1/dp, d2)
	tc := -dot(s2, u)
	b := length(madd(s2, tc, u))
	var ts []float64
	if math.Abs(b-o.r) < eps*(1+o.r) {
		return nil, false // grazing: where along the axis it touches is anybody's guess
	} else if b > o.r {
		return nil, true
	} else {
		h := math.Sqrt((o.r - b) * (o.r + b))
		ts = []float64{tc - h, tc + h}
	}
	var out []RefHit
	for _, t := range ts {
		t := t / dp / d1
		p := madd(s, t, d)
		l := sub(p, o.c)
		out2 := math.Abs(l[o.axis]) - o.h/2
		if out2 > 2*eps {
			continue
		}
		n := l
		n[o.axis] = 0
		out = append(out, RefHit{T: t, N: n, L: l, Mat: o.mat, Sure: out2 < -2*eps})
	}
	return out, true
}
func (o *refCyl) Inside(p Vec) (bool, float64) {
	l := sub(p, o.c)
	ax := math.Abs(l[o.axis]) - o.h/2
	l[o.axis] = 0
	rr := length(l) - o.r
	return ax < 0 && rr < 0, math.Min(math.Abs(ax), math.Abs(rr))
}

// ---- box

type refBox struct {
	min, max Vec
	mat      tracer.Material
}

func (o *refBox) String() string { return fmt.Sprintf("Box(%.9g,%.9g)", o.min, o.max) }
func (o *refBox) Hits(s, d Vec) ([]RefHit, bool) {
	var out []RefHit
	d1 := length(d)
	for i := 0; i < 3; i++ {
		for f, face := range []float64{o.min[i], o.max[i]} {
			if math.Abs(d[i]) < 1e-7*d1 {
				if math.Abs(s[i]-face) < 100*eps {
					return nil, false
				}
				if d[i] == 0 {
					continue
				}
			}
			t := (face - s[i]) / d[i]
			p := madd(s, t, d)
			p[i] = face
			sure, hit := true, true
			for k := 1; k < 3; k++ {
				j := (i + k) % 3
				m := math.Max(o.min[j]-p[j], p[j]-o.max[j])
				if m > eps {
					hit = false
				} else if m > -eps {
					sure = false
				}
			}
			if !hit {
				continue
			}
			var n Vec
			n[i] = float64(2*f - 1)
			out = append(out, RefHit{T: t, N: n, L: sub(p, o.min), Mat: o.mat, Sure: sure})
		}
	}
	return out, true
}
func (o *refBox) Inside(p Vec) (bool, float64) {
	in, m := true, math.Inf(1)
	for i := range p {
		for _, x := range []float64{p[i] - o.min[i], o.max[i] - p[i]} {
			in = in && x > 0
			m = math.Min(m, math.Abs(x))
		}
	}
	return in, m
}

// ---- triangle mesh

type refMesh struct {
	v    []Vec
	n    []Vec
	uv   []Vec2
	f    [][3]int
	mat  tracer.Material
	name string
}

func newRefMesh(v []Vec, f [][3]int, uv []Vec2, mat tracer.Material, name string) *refMesh {
	m := &refMesh{v: v, f: f, uv: uv, mat: mat, name: name, n: make([]Vec, len(v))}
	for _, f := range f {
		n := unit(cross(sub(v[f[1]], v[f[0]]), sub(v[f[2]], v[f[0]])))
		for _, i := range f {
			m.n[i] = add(m.n[i], n)
		}
	}
	for i := range m.n {
		m.n[i] = unit(m.n[i])
	}
	return m
}

func (o *refMesh) String() string {
	if len(o.v) <= 4 {
		return fmt.Sprintf("%s%.9g%v", o.name, o.v, o.f)
	}
	return fmt.Sprintf("%s(%d vertices, %d faces)", o.name, len(o.v), len(o.f))
}
func (o *refMesh) Hits(s, d Vec) ([]RefHit, bool) {
	var out []RefHit
	for _, f := range o.f {
		h, hit, ok := o.face(f, s, d)
		if !ok {
			return nil, false
		}
		if hit {
			out = append(out, h)
		}
	}
	return out, true
}
func (o *refMesh) face(f [3]int, s, d Vec) (h RefHit, hit, ok bool) {
	a, b, c := o.v[f[0]], o.v[f[1]], o.v[f[2]]
	n := cross(sub(b, a), sub(c, a))
	nn := length(n)
	size := math.Max(dist(a, b), dist(a, c))
	den := dot(n, d) / (nn * length(d))
	off := dot(n, sub(a, s)) / nn
	if math.Abs(den) < 1e-4 {
		// almost parallel: only judged if clearly missing
		if math.Abs(off) > 1e-2*size && den == 0 {
			return h, false, true
		}
		// does the line come near the triangle's bounding sphere?
		ctr := mul(1./3, add(a, add(b, c)))
		u := unit(d)
		p := madd(s, dot(sub(ctr, s), u), u)
		if dist(p, ctr) > 1.5*size {
			return h, false, true
		}
		return h, false, false
	}
	t := dot(n, sub(a, s)) / dot(n, d)
	p := madd(s, t, d)
	// barycentric
	n2 := nn * nn
	la := dot(n, cross(sub(c, b), sub(p, b))) / n2
	lb := dot(n, cross(sub(a, c), sub(p, c))) / n2
	lc := dot(n, cross(sub(b, a), sub(p, a))) / n2
	alt := nn / math.Max(size, dist(b, c)) // smallest altitude
	min := math.Min(la, math.Min(lb, lc)) * alt
	tol := eps * (1 + size)
	if min < -tol {
		return h, false, true
	}
	N := add(mul(la, o.n[f[0]]), add(mul(lb, o.n[f[1]]), mul(lc, o.n[f[2]])))
	var L Vec
	if o.uv != nil {
		for i := 0; i < 2; i++ {
			L[i] = la*o.uv[f[0]][i] + lb*o.uv[f[1]][i] + lc*o.uv[f[2]][i]
		}
	}
	return RefHit{T: t, N: N, L: L, Mat: o.mat, Sure: min > tol}, true, true
}
func (o *refMesh) Inside(p Vec) (bool, float64) { return false, math.Inf(1) }

// ---- combinators

type refAnd struct{ a, b Ref }
type refOr struct{ a, b Ref }
type refNot struct{ a Ref }
type refRestrict struct{ a, b Ref }
type refHollow struct{ a Ref }
type refTree struct{ ch []Ref }
type refTransf struct {
	a Ref
	t Sim
}
type refMat struct {
	a   Ref
	mat tracer.Material
}
type refRemap struct {
	a Ref
	f func(Vec) Vec
}

func (o *refAnd) String() string      { return fmt.Sprintf("And(%v,%v)", o.a, o.b) }
func (o *refOr) String() string       { return fmt.Sprintf("Or(%v,%v)", o.a, o.b) }
func (o *refNot) String() string      { return fmt.Sprintf("Not(%v)", o.a) }
func (o *refRestrict) String() string { return fmt.Sprintf("Restrict(%v,%v)", o.a, o.b) }
func (o *refHollow) String() string   { return fmt.Sprintf("Hollow(%v)", o.a) }
func (o *refTree) String() string {
	if len(o.ch) > 8 {
		return fmt.Sprintf("Tree(%d objects, e.g. %v)", len(o.ch), o.ch[0])
	}
	return fmt.Sprintf("Tree%v", o.ch)
}
func (o *refTransf) String() string { return fmt.Sprintf("Transformed(%v,%.6g)", o.a, o.t) }
func (o *refMat) String() string    { return fmt.Sprintf("WithMaterial(%v)", o.a) }
func (o *refRemap) String() string  { return fmt.Sprintf("Remap(%v)", o.a) }

// keep those hits where b's insideness equals want.
func filterHits(hits []RefHit, b Ref, s, d Vec, want bool, out []RefHit) []RefHit {
	for _, h := range hits {
		in, m := b.Inside(madd(s, h.T, d))
		if m < 5*eps {
			h.Sure = false
			out = append(out, h)
		} else if in == want {
			out = append(out, h)
		}
	}
	return out
}

func (o *refAnd) Hits(s, d Vec) ([]RefHit, bool) {
	a, ok1 := o.a.Hits(s, d)
	b, ok2 := o.b.Hits(s, d)
	return filterHits(b, o.a, s, d, true, filterHits(a, o.b, s, d, true, nil)), ok1 && ok2
}
func (o *refOr) Hits(s, d Vec) ([]RefHit, bool) {
	a, ok1 := o.a.Hits(s, d)
	b, ok2 := o.b.Hits(s, d)
	return filterHits(b, o.a, s, d, false, filterHits(a, o.b, s, d, false, nil)), ok1 && ok2
}
func (o *refNot) Hits(s, d Vec) ([]RefHit, bool) {
	a, ok := o.a.Hits(s, d)
	var out []RefHit
	for _, h := range a {
		h.N = mul(-1, h.N)
		out = append(out, h)
	}
	return out, ok
}
func (o *refRestrict) Hits(s, d Vec) ([]RefHit, bool) {
	a, ok := o.a.Hits(s, d)
	return filterHits(a, o.b, s, d, true, nil), ok
}
func (o *refHollow) Hits(s, d Vec) ([]RefHit, bool) { return o.a.Hits(s, d) }
func (o *refTree) Hits(s, d Vec) ([]RefHit, bool) {
	var out []RefHit
	for _, c := range o.ch {
		h, ok := c.Hits(s, d)
		if !ok {
			return nil, false
		}
		out = append(out, h...)
	}
	return out, true
}
func (o *refTransf) Hits(s, d Vec) ([]RefHit, bool) {
	a, ok := o.a.Hits(o.t.invPoint(s), o.t.invDir(d))
	var out []RefHit
	for _, h := range a {
		h.N = o.t.dir(h.N)
		out = append(out, h)
	}
	return out, ok
}
func (o *refMat) Hits(s, d Vec) ([]RefHit, bool) {
	a, ok := o.a.Hits(s, d)
	var out []RefHit
	for _, h := range a {
		h.Mat = o.mat
		out = append(out, h)
	}
	return out, ok
}
func (o *refRemap) Hits(s, d Vec) ([]RefHit, bool) {
	a, ok := o.a.Hits(s, d)
	var out []RefHit
	for _, h := range a {
		h.L = o.f(madd(s, h.T, d))
		out = append(out, h)
	}
	return out, ok
}

func (o *refAnd) Inside(p Vec) (bool, float64) {
	a, ma := o.a.Inside(p)
	b, mb := o.b.Inside(p)
	return a && b, math.Min(ma, mb)
}
func (o *refOr) Inside(p Vec) (bool, float64) {
	a, ma := o.a.Inside(p)
	b, mb := o.b.Inside(p)
	return a || b, math.Min(ma, mb)
}
func (o *refNot) Inside(p Vec) (bool, float64) { a, m := o.a.Inside(p); return !a, m }
func (o *refRestrict) Inside(p Vec) (bool, float64) {
	a, ma := o.a.Inside(p)
	b, mb := o.b.Inside(p)
	return a && b, math.Min(ma, mb)
}
func (o *refHollow) Inside(p Vec) (bool, float64) { return false, math.Inf(1) }
func (o *refTree) Inside(p Vec) (bool, float64) {
	in, m := false, math.Inf(1)
	for _, c := range o.ch {
		i, mm := c.Inside(p)
		in = in || i
		m = math.Min(m, mm)
	}
	return in, m
}
func (o *refTransf) Inside(p Vec) (bool, float64) {
	i, m := o.a.Inside(o.t.invPoint(p))
	return i, m * math.Min(1, o.t.S)
}
func (o *refMat) Inside(p Vec) (bool, float64)   { return o.a.Inside(p) }
func (o *refRemap) Inside(p Vec) (bool, float64) { return o.a.Inside(p) }

// ---- verdict

// expected nearest hit. status: 0 miss, 1 hit, 2 not decidable.
func refNearest(o Ref, s, d Vec) (RefHit, int, int) {
	hits, ok := o.Hits(s, d)
	if !ok {
		return RefHit{}, 2, 0
	}
	sort.Slice(hits, func(i, j int) bool { return hits[i].T < hits[j].T })
	d1 := length(d)
	sep := 2e-4 // minimum separation of crossings, as a distance
	nfwd := 0
	for _, h := range hits {
		if math.Abs(h.T)*d1 < sep || math.IsNaN(h.T) {
			return RefHit{}, 2, 0
		}
		if h.T > 0 {
			nfwd++
		}
	}
	for i, h := range hits {
		if h.T < 0 {
			continue
		}
		if !h.Sure {
			return RefHit{}, 2, nfwd
		}
		if i+1 < len(hits) && (hits[i+1].T-h.T)*d1 < sep {
			return RefHit{}, 2, nfwd
		}
		return h, 1, nfwd
	}
	return RefHit{}, 0, nfwd
}

// like refNearest, but also requires that crossings of the parts that are
// removed by CSG are well separated from each other (they are marched over).
func allCrossings(o Ref, s, d Vec, out []float64) ([]float64, bool) {
	switch o := o.(type) {
	case *refAnd:
		return two(o.a, o.b, s, d, out)
	case *refOr:
		return two(o.a, o.b, s, d, out)
	case *refRestrict:
		return two(o.a, o.b, s, d, out)
	case *refNot:
		return allCrossings(o.a, s, d, out)
	case *refHollow:
		return allCrossings(o.a, s, d, out)
	case *refMat:
		return allCrossings(o.a, s, d, out)
	case *refRemap:
		return allCrossings(o.a, s, d, out)
	case *refTransf:
		return allCrossings(o.a, o.t.invPoint(s), o.t.invDir(d), out)
	case *refTree:
		ok := true
		for _, c := range o.ch {
			var k bool
			out, k = allCrossings(c, s, d, out)
			ok = ok && k
		}
		return out, ok
	}
	h, ok := o.Hits(s, d)
	for _, h := range h {
		if h.T > 0 {
			out = append(out, h.T)
			ok = ok && h.Sure
		}
	}
	return out, ok
}
func two(a, b Ref, s, d Vec, out []float64) ([]float64, bool) {
	out, ok1 := allCrossings(a, s, d, out)
	out, ok2 := allCrossings(b, s, d, out)
	return out, ok1 && ok2
}

func wellSeparated(o Ref, s, d Vec) bool {
	ts, ok := allCrossings(o, s, d, nil)
	if !ok || len(ts) > 80 {
		return false
	}
	sort.Float64s(ts)
	d1 := length(d)
	for i := 1; i < len(ts); i++ {
		if (ts[i]-ts[i-1])*d1 < 2e-4 {
			return false
		}
	}
	return true
}

// judgeHit compares a HitRecord with the expected one. Returns "" if they agree.
func judgeHit(got HitRecord, want RefHit, status int, s, d Vec, scale float64, attrs bool) string {
	if status == 0 {
		if got.T > 0 || math.IsNaN(got.T) {
			return fmt.Sprintf("reported hit at t=%v, but nothing is there", got.T)
		}
		return ""
	}
	tol := 1e-8 * scale
	d1 := length(d)
	if !(got.T > 0) {
		return fmt.Sprintf("reported miss (T=%v), want hit at t=%v", got.T, want.T)
	}
	if !(math.Abs(got.T-want.T)*d1 < tol) {
		return fmt.Sprintf("reported hit at t=%v, want t=%v", got.T, want.T)
	}
	if !attrs {
		return ""
	}
	if got.Material != want.Mat {
		return fmt.Sprintf("hit at t=%v has the wrong material: %v want %v", got.T, got.Material, want.Mat)
	}
	g, w := unit(got.Normal), unit(want.N)
	if !(dist(g, w) < 1e-4) {
		return fmt.Sprintf("hit at t=%v: normal %v, want %v", got.T, g, w)
	}
	if !(dist(got.Local, want.L) < 1e-5*scale) {
		return fmt.Sprintf("hit at t=%v: local coordinates %v, want %v", got.T, got.Local, want.L)
	}
	return ""
}

// ---- random values

func uni(r *rand.Rand, a, b float64) float64 { return a + (b-a)*r.Float64() }
func logUni(r *rand.Rand, a, b float64) float64 {
	return math.Exp(uni(r, math.Log(a), math.Log(b)))
}
func rvec(r *rand.Rand, s float64) Vec {
	return Vec{uni(r, -s, s), uni(r, -s, s), uni(r, -s, s)}
}
func rdir(r *rand.Rand) Vec {
	for {
		v := rvec(r, 1)
		if l := length(v); l > 0.1 && l < 1 {
			return unit(v)
		}
	}
}

// directions including exactly axis-aligned, with zero components of either sign.
func rdirSpecial(r *rand.Rand) Vec {
	switch r.Intn(6) {
	case 0:
		var v Vec
		v[r.Intn(3)] = float64(2*r.Intn(2) - 1)
		if r.Intn(2) == 0 {
			for i := range v {
				if v[i] == 0 {
					v[i] = math.Copysign(0, -1)
				}
			}
		}
		return v
	case 1:
		v := rdir(r)
		v[r.Intn(3)] = 0
		return unit(v)
	}
	return rdir(r)
}

var axes = [3]Vec{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}
