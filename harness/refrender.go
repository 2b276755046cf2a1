package main

// Reference renderer: independent evaluation of the light seen along a ray,
// for scenes whose shading is deterministic (specular optics, flat shading,
// point lights). Configurations too close to call are reported as undecided.

import (
	"fmt"
	"math"

	"github.com/barnex/bruteray/texture"
	"github.com/barnex/bruteray/tracer"
	"github.com/barnex/bruteray/tracer/lights"
	"github.com/barnex/bruteray/tracer/materials"
	"github.com/barnex/bruteray/tracer/objects"
)

func cadd(a, b Color) Color         { return Color{R: a.R + b.R, G: a.G + b.G, B: a.B + b.B} }
func cmul(s float64, a Color) Color { return Color{R: s * a.R, G: s * a.G, B: s * a.B} }
func cmul3(a, b Color) Color        { return Color{R: a.R * b.R, G: a.G * b.G, B: a.B * b.B} }
func cmax(a Color) float64          { return math.Max(a.R, math.Max(a.G, a.B)) }
func cdiff(a, b Color) float64 {
	d := math.Max(math.Abs(a.R-b.R), math.Max(math.Abs(a.G-b.G), math.Abs(a.B-b.B)))
	if math.IsNaN(a.R + a.G + a.B + b.R + b.G + b.B) {
		return math.Inf(1)
	}
	return d
}

type rHit struct {
	T    float64
	P    Vec // hit point
	N    Vec // unit normal
	L    Vec
	D    Vec // ray direction
	Edge bool
}

type rMat interface {
	shade(rs *rScene, depth int, h rHit) (Color, bool)
	filter(l Vec) (Color, bool) // transparency towards shadow rays; false: opaque
}

type opaque struct{}

func (opaque) filter(Vec) (Color, bool) { return Color{}, false }

type rPoint struct {
	pow Color
	pos Vec
}

type rScene struct {
	objs     []Ref
	mats     map[tracer.Material]rMat
	points   []rPoint
	rec      int
	backdrop func(dir Vec) Color // nil: none
	// real counterparts
	robjs   []tracer.Object
	rlights []tracer.Light
	maxDep  int // deepest recursion observed
	nspec   int // specular events followed
}

func newRScene(rec int) *rScene {
	return &rScene{mats: map[tracer.Material]rMat{}, rec: rec}
}

func (rs *rScene) add(p Pair) {
	rs.objs = append(rs.objs, p.R)
	rs.robjs = append(rs.robjs, p.O)
}

func (rs *rScene) addPoint(pow Color, pos Vec) {
	rs.points = append(rs.points, rPoint{pow, pos})
	rs.rlights = append(rs.rlights, lights.PointLight(pow, pos))
}

func (rs *rScene) setBackdrop(f func(Vec) Color) {
	rs.backdrop = f
	rs.robjs = append(rs.robjs, objects.Backdrop(materials.Flat(texture.Func(f))))
}

func (rs *rScene) scene() *tracer.Scene {
	return tracer.NewScene(rs.rec, rs.rlights, rs.robjs...)
}

const near = 2e-4

// nearest returns the nearest hit along unit direction d from s. leaving: s lies on a surface.
func (rs *rScene) nearest(s, d Vec, leaving bool) (best RefHit, hit, ok bool) {
	best.T = math.Inf(1)
	self := 0
	var all []float64
	for _, o := range rs.objs {
		hits, k := o.Hits(s, d)
		if !k {
			return best, false, false
		}
		if !wellSeparated(o, s, d) {
			return best, false, false
		}
		for _, h := range hits {
			if math.Abs(h.T) < near || math.IsNaN(h.T) {
				self++
				continue
			}
			if h.T < 0 {
				continue
			}
			all = append(all, h.T)
			if h.T < best.T {
				best, hit = h, true
			}
		}
	}
	if (leaving && self > 1) || (!leaving && self > 0) {
		return best, false, false
	}
	if hit && !best.Sure {
		return best, false, false
	}
	n := 0
	for _, t := range all {
		if t < best.T+near {
			n++
		}
	}
	return best, hit, n <= 1
}

func (rs *rScene) light(depth int, s, d Vec, leaving bool) (Color, bool) {
	if depth == rs.rec {
		return Color{}, true
	}
	depth++
	if depth > rs.maxDep {
		rs.maxDep = depth
	}
	h, hit, ok := rs.nearest(s, d, leaving)
	if !ok {
		return Color{}, false
	}
	if !hit {
		if rs.backdrop == nil {
			return Color{}, true
		}
		return rs.backdrop(d), true
	}
	m := rs.mats[h.Mat]
	if m == nil {
		panic(fmt.Sprintf("reference: unknown material %v", h.Mat))
	}
	return m.shade(rs, depth, rHit{T: h.T, P: madd(s, h.T, d), N: unit(h.N), L: h.L, D: d})
}

// visible returns the transmission from p to q; false: undecided.
func (rs *rScene) visible(p, q Vec) (Color, bool) {
	tr := Color{R: 1, G: 1, B: 1}
	D := dist(p, q)
	d := unit(sub(q, p))
	self := 0
	dark := false
	sure := true
	for _, o := range rs.objs {
		hits, k := o.Hits(p, d)
		if !k || !wellSeparated(o, p, d) {
			return tr, false
		}
		for _, h := range hits {
			if math.Abs(h.T) < near {
				self++
				continue
			}
			if h.T < 0 || h.T > D+near {
				continue
			}
			if h.T > D-near || !h.Sure {
				sure = false
				continue
			}
			f, transp := rs.mats[h.Mat].filter(h.L)
			if !transp {
				dark = true
			} else {
				tr = cmul3(tr, f)
			}
		}
	}
	if self > 1 {
		return tr, false
	}
	if dark {
		return Color{}, true // opaque in between, whatever else
	}
	return tr, sure
}

// ---- materials

type rFlat struct {
	opaque
	tex func(Vec) Color
}

func (m *rFlat) shade(rs *rScene, depth int, h rHit) (Color, bool) { return m.tex(h.L), true }

type rReflective struct {
	opaque
	c Color
}

func reflectDir(d, n Vec) Vec { return madd(d, -2*dot(d, n), n) }

const grazing = 0.05

func (m *rReflective) shade(rs *rScene, depth int, h rHit) (Color, bool) {
	rs.nspec++
	if math.Abs(dot(h.D, h.N)) < grazing {
		return Color{}, false
	}
	c, ok := rs.light(depth, h.P, reflectDir(h.D, h.N), true)
	return cmul3(c, m.c), ok
}

func fresnelR(n1, n2, ci float64) (R float64, ct float64, tir bool) {
	si := math.Sqrt(math.Max(0, 1-ci*ci))
	st := n1 / n2 * si
	if st >= 1 {
		return 1, 0, true
	}
	ct = math.Cos(math.Asin(st))
	rs := (n1*ci - n2*ct) / (n1*ci + n2*ct)
	rp := (n1*ct - n2*ci) / (n1*ct + n2*ci)
	return (rs*rs + rp*rp) / 2, ct, false
}

type rRefractive struct {
	opaque
	n1, n2 float64
}

func (m *rRefractive) shade(rs *rScene, depth int, h rHit) (Color, bool) {
	rs.nspec++
	n1, n2, n := m.n1, m.n2, h.N
	ci := -dot(h.D, n)
	if ci < 0 { // leaving
		n1, n2, n, ci = n2, n1, mul(-1, n), -ci
	}
	if ci < grazing {
		return Color{}, false
	}
	R, ct, tir := fresnelR(n1, n2, ci)
	sin2 := (n1 / n2) * (n1 / n2) * (1 - ci*ci)
	if math.Abs(sin2-1) < 0.05 {
		return Color{}, false
	}
	cr, ok1 := rs.light(depth, h.P, reflectDir(h.D, n), true)
	if tir {
		return cr, ok1
	}
	// transmitted: tangential component scales with n1/n2
	tang := sub(h.D, mul(dot(h.D, n), n))
	t := sub(mul(n1/n2, tang), mul(ct, n))
	ctr, ok2 := rs.light(depth, h.P, unit(t), true)
	return cadd(cmul(R, cr), cmul(1-R, ctr)), ok1 && ok2
}

type rFresnelCoat struct {
	opaque
	n    float64
	base rMat
}

func (m *rFresnelCoat) shade(rs *rScene, depth int, h rHit) (Color, bool) {
	rs.nspec++
	ci := math.Abs(dot(h.D, h.N))
	if ci < grazing {
		return Color{}, false
	}
	R, _, _ := fresnelR(1, m.n, ci)
	cr, ok1 := rs.light(depth, h.P, reflectDir(h.D, h.N), true)
	cb, ok2 := m.base.shade(rs, depth, h)
	return cadd(cmul(R, cr), cmul(1-R, cb)), ok1 && ok2
}

type rTransparent struct{ tex func(Vec) Color }

func (m *rTransparent) filter(l Vec) (Color, bool) { return m.tex(l), true }
func (m *rTransparent) shade(rs *rScene, depth int, h rHit) (Color, bool) {
	rs.nspec++
	if math.Abs(dot(h.D, h.N)) < 0.01 {
		return Color{}, false
	}
	c, ok := rs.light(depth, h.P, h.D, true)
	return cmul3(c, m.tex(h.L)), ok
}

type rBlend struct {
	opaque
	a, b   float64
	ma, mb rMat
}

func (m *rBlend) shade(rs *rScene, depth int, h rHit) (Color, bool) {
	ca, ok1 := m.ma.shade(rs, depth, h)
	cb, ok2 := m.mb.shade(rs, depth, h)
	return cadd(cmul(m.a, ca), cmul(m.b, cb)), ok1 && ok2
}

type rBlendMap struct {
	opaque
	tex    func(Vec) Color
	ma, mb rMat
}

func (m *rBlendMap) shade(rs *rScene, depth int, h rHit) (Color, bool) {
	k := m.tex(h.L).R
	ca, ok1 := m.ma.shade(rs, depth, h)
	cb, ok2 := m.mb.shade(rs, depth, h)
	return cadd(cmul(k, ca), cmul(1-k, cb)), ok1 && ok2
}

type rTwoSided struct {
	opaque
	front, back rMat // front: seen when looking along the normal
}

func (m *rTwoSided) shade(rs *rScene, depth int, h rHit) (Color, bool) {
	c := dot(h.D, h.N)
	if math.Abs(c) < 1e-3 {
		return Color{}, false
	}
	if c > 0 {
		return m.front.shade(rs, depth, h)
	}
	return m.back.shade(rs, depth, h)
}

// matte: direct light of point sources only; undecided if indirect light is sampled.
type rMatte struct {
	opaque
	tex func(Vec) Color
}

func (m *rMatte) shade(rs *rScene, depth int, h rHit) (Color, bool) {
	c := dot(h.D, h.N)
	if math.Abs(c) < 0.01 {
		return Color{}, false
	}
	n := h.N
	if c > 0 {
		n = mul(-1, n)
	}
	var acc Color
	for _, l := range rs.points {
		D := dist(l.pos, h.P)
		cos := dot(sub(l.pos, h.P), n) / D
		if math.Abs(cos) < 0.01 || math.Abs(cos)*D < 0.03 || D < 0.05 {
			return Color{}, false
		}
		if cos < 0 {
			continue
		}
		v, ok := rs.visible(h.P, l.pos)
		if !ok {
			return Color{}, false
		}
		acc = cadd(acc, cmul(cos/(4*math.Pi*D*D), cmul3(l.pow, v)))
	}
	if depth != rs.rec {
		return Color{}, false
	}
	return cmul3(acc, m.tex(h.L)), true
}
