package main

// IsoSurface (C30), the api package's Object methods and aliases (C31), robustness (C32).

import (
	"fmt"
	"math"
	"os"
	"path/filepath"

	"github.com/barnex/bruteray/api"
	"github.com/barnex/bruteray/geom"
	"github.com/barnex/bruteray/imagef/colorf"
	"github.com/barnex/bruteray/texture"
	"github.com/barnex/bruteray/tracer"
	"github.com/barnex/bruteray/tracer/cameras"
	"github.com/barnex/bruteray/tracer/lights"
	"github.com/barnex/bruteray/tracer/materials"
	"github.com/barnex/bruteray/tracer/media"
	"github.com/barnex/bruteray/tracer/objects"
)

func init() {
	register(&Check{
		ID:   "C30",
		Rule: "random smooth height functions and sizes; random rays from outside, above and inside the box; crossings of the surface found by dense sampling plus root finding, rays with exactly one downward crossing or entirely above judged (distance, normal, local coordinates, material), and random points for Inside; non-trivial: decided hit",
		Run: func(t *T) {
			t.Cases("iso", t.N(60, 3000), isoCase)
			t.Cases("bad-height", t.N(20, 300), isoBad)
			t.Require("hits", 2000)
			t.Require("misses", 300)
			t.Require("bad heights", 300)
			t.Require("starts inside the box", 300)
			t.Require("inside points", 300)
		},
	})
	register(&Check{
		ID:   "C31",
		Rule: "objects built with the api package's constructors and chains of its Object methods, tracked with an independent model; rays, bounds, centers judged after each step, also of the objects the new ones were derived from; colors, materials, lights and media offered under other names by api; non-trivial: decided hit on an object made by a distinct chain",
		Run: func(t *T) {
			t.Cases("chain", t.N(150, 5000), apiChain)
			t.Cases("alias", t.N(10, 300), apiAliases)
			for _, k := range apiOps {
				t.Require("op "+k, 20)
			}
			t.Require("hits api", 5000)
		},
	})
	register(&Check{
		ID:   "C32",
		Rule: "random scenes with all materials (nested blends), lights, media, deep recursion, cameras anywhere (also inside objects); every sample taken must be finite and not negative, no panic, no leftover recursion; non-trivial: scene with a non-black sample",
		Run: func(t *T) {
			t.Cases("robust", t.N(30, 1500), robust)
			t.Require("samples", 10000)
			t.Require("bright samples", 3000)
		},
	})
}

// ---- C30

type isoModel struct {
	dx, dy, dz float64
	f          func(u, v float64) float64
}

func (m *isoModel) iso(p Vec) float64 { return p[1] - m.dy*m.f(p[0]/m.dx, p[2]/m.dz) }

// chord of the ray through the box
func (m *isoModel) chord(s, d Vec) (t0, t1 float64, ok bool) {
	t0, t1 = math.Inf(-1), math.Inf(1)
	mx := Vec{m.dx, m.dy, m.dz}
	for k := 0; k < 3; k++ {
		if d[k] == 0 {
			if s[k] < 0 || s[k] > mx[k] {
				return 0, 0, false
			}
			continue
		}
		a, b := -s[k]/d[k], (mx[k]-s[k])/d[k]
		t0, t1 = math.Max(t0, math.Min(a, b)), math.Min(t1, math.Max(a, b))
	}
	return t0, t1, t1 > t0
}

func isoCase(c *C, i int) {
	m := &isoModel{dx: logUni(c.Rand, 0.3, 6), dy: logUni(c.Rand, 0.05, 1.5), dz: logUni(c.Rand, 0.3, 6)}
	a1, a2 := uni(c.Rand, 0, 0.22), uni(c.Rand, 0, 0.22)
	k1, k2 := Vec2{uni(c.Rand, -5, 5), uni(c.Rand, -5, 5)}, Vec2{uni(c.Rand, -5, 5), uni(c.Rand, -5, 5)}
	p1, p2 := uni(c.Rand, 0, 6), uni(c.Rand, 0, 6)
	base := 0.5
	if i%10 == 0 {
		a1, a2, base = 0, 0, []float64{0, 1, 0.5, 0.25}[c.Intn(4)]
	}
	m.f = func(u, v float64) float64 {
		return base + a1*math.Sin(k1[0]*u+k1[1]*v+p1) + a2*math.Sin(k2[0]*u+k2[1]*v+p2)
	}
	mat := &probeMat{i}
	o := objects.IsoSurface(mat, m.dx, m.dy, m.dz, m.f)
	if c.Intn(2) == 0 {
		o = api.IsoSurface(mat, m.dx, m.dy, m.dz, m.f).Interface
	}
	size := Vec{m.dx, m.dy, m.dz}
	b := o.Bounds()
	for k := 0; k < 3; k++ {
		if b.Min[k] > 1e-6 || b.Max[k] < size[k]-1e-6 {
			c.Failf("bounds %v of IsoSurface(%v)", b, size)
		}
	}
	rel := func() Vec { return Vec{c.Float64() * m.dx, c.Float64() * m.dy, c.Float64() * m.dz} }
	for n := 0; n < 40; n++ {
		p := rel()
		if c.Intn(3) == 0 {
			p = madd(p, 1, rvec(c.Rand, 2))
		}
		in := p[0] > 0 && p[1] > 0 && p[2] > 0 && p[0] < m.dx && p[1] < m.dy && p[2] < m.dz && m.iso(p) < 0
		near := math.Abs(m.iso(p)) < 1e-6
		for k := 0; k < 3; k++ {
			near = near || math.Abs(p[k]) < 1e-6 || math.Abs(p[k]-size[k]) < 1e-6
		}
		if near {
			continue
		}
		c.Eval(1)
		c.Count("inside points", 1)
		if got := o.Inside(p); got != in {
			c.Failf("Inside(%v) of IsoSurface(%v) = %v, height there is %v", p, size, got, m.dy*m.f(p[0]/m.dx, p[2]/m.dz))
		}
	}
	for n := 0; n < 60; n++ {
		q := rel()
		q[1] = m.dy * m.f(q[0]/m.dx, q[2]/m.dz)
		var s Vec
		switch c.Intn(4) {
		case 0:
			s = rel() // inside the box
		case 1:
			s = Vec{q[0], m.dy + uni(c.Rand, 0.1, 5), q[2]} // straight above
		case 2:
			// from far away, above
			up := rdir(c.Rand)
			up[1] = math.Abs(up[1])
			s = madd(q, logUni(c.Rand, 10, 1e5), up)
			c.Count("far starts", 1)
		default:
			s = add(rel(), Vec{uni(c.Rand, -3, 3), uni(c.Rand, 0.2, 6), uni(c.Rand, -3, 3)})
		}
		d := sub(q, s)
		if length(d) < 1e-3 {
			continue
		}
		if c.Intn(2) == 0 || length(d) > 10 { // resolution is relative to the length of d
			d = unit(d)
		}
		if c.Intn(6) == 0 {
			d = rdirSpecial(c.Rand)
		}
		t0, t1, ok := m.chord(s, d)
		if ok && (t1-t0)*length(d) < 1e-3 {
			continue // grazing the box
		}
		r := Ray{Start: s, Dir: d}
		if !ok {
			// misses the box by a margin?
			big := &isoModel{dx: m.dx + 2e-3, dy: m.dy + 2e-3, dz: m.dz + 2e-3}
			if _, _, hit := big.chord(add(s, Vec{1e-3, 1e-3, 1e-3}), d); !hit {
				c.Eval(1)
				c.Count("misses", 1)
				if got := o.Intersect(&r); got.T > 0 {
					c.Failf("IsoSurface(%v): ray %v misses the box, but hit reported at %v", size, r, got.T)
				}
			}
			continue
		}
		// crossings along the chord
		const N = 400
		cross, down := 0, 0
		var lo, hi float64
		closest := math.Inf(1)
		prev := m.iso(madd(s, t0, d))
		first := prev
		for k := 1; k <= N; k++ {
			t := t0 + (t1-t0)*float64(k)/N
			v := m.iso(madd(s, t, d))
			if (v > 0) != (prev > 0) {
				cross++
				if prev > 0 {
					down++
				}
				lo, hi = t-(t1-t0)/N, t
			}
			prev = v
		}
		// nearly touching the surface elsewhere, or at the ends of the chord: not judged
		slope := 0.0
		for k := 0; k <= N; k++ {
			t := t0 + (t1-t0)*float64(k)/N
			if cross == 1 && math.Abs(t-(lo+hi)/2) < 3*(t1-t0)/N {
				continue
			}
			closest = math.Min(closest, math.Abs(m.iso(madd(s, t, d))))
		}
		if closest < 2e-3*m.dy || math.Abs(first) < 2e-3*m.dy {
			c.Count("undecidable rays", 1)
			continue
		}
		got := o.Intersect(&r)
		c.Eval(1)
		if t0 < 0 {
			c.Count("starts inside the box", 1)
		}
		switch {
		case cross == 0 && first > 0:
			c.Count("misses", 1)
			if got.T > 0 {
				c.Failf("IsoSurface(%v): ray %v stays above the surface, but hit reported at %v", size, r, got.T)
			}
		case cross == 1 && down == 1:
			for k := 0; k < 60; k++ {
				mid := (lo + hi) / 2
				if m.iso(madd(s, mid, d)) > 0 {
					lo = mid
				} else {
					hi = mid
				}
			}
			t := lo
			slope = math.Abs(m.iso(madd(s, t+1e-6, d))-m.iso(madd(s, t-1e-6, d))) / 2e-6
			if math.Abs(t) < 1e-4 || slope < 1e-3 {
				continue
			}
			if t < 0 {
				c.Count("misses", 1)
				if got.T > 1e-5 {
					c.Failf("IsoSurface(%v): ray %v starts behind the surface, but hit reported at %v", size, r, got.T)
				}
				continue
			}
			c.Count("hits", 1)
			c.Distinct(c.Name, n)
			if math.Abs(got.T-t) > 3e-6*(1+math.Abs(t)*1e-3) {
				c.Failf("IsoSurface(%v): ray %v: hit at %v, want %v", size, r, got.T, t)
				continue
			}
			p := madd(s, t, d)
			u, v := p[0]/m.dx, p[2]/m.dz
			const e = 1e-5
			du := (m.f(u+e, v) - m.f(u-e, v)) / (2 * e) * m.dy / m.dx
			dv := (m.f(u, v+e) - m.f(u, v-e)) / (2 * e) * m.dy / m.dz
			want := unit(Vec{-du, 1, -dv})
			if g := unit(got.Normal); !(dist(g, want) < 1e-3) {
				c.Failf("IsoSurface(%v): normal %v, want %v", size, g, want)
			}
			if !(dist(got.Local, Vec{u, v, 0}) < 1e-4*(1+1/m.dx+1/m.dz)) {
				c.Failf("IsoSurface(%v): local coordinates %v, want %v", size, got.Local, Vec{u, v, 0})
			}
			if got.Material != mat {
				c.Failf("IsoSurface: wrong material")
			}
			if n == 0 {
				c.Sample("IsoSurface(%.4g): ray %.4g hits at %.6g normal %.4g", size, r, got.T, want)
			}
		default:
			c.Count("undecidable rays", 1)
		}
	}
}

// isoBad: a function that leaves [0,1] is reported, not rendered.
func isoBad(c *C, i int) {
	dx, dy, dz := logUni(c.Rand, 0.3, 6), logUni(c.Rand, 0.05, 1.5), logUni(c.Rand, 0.3, 6)
	bad := 1 + logUni(c.Rand, 2e-3, 10)
	if i%2 == 0 {
		bad = -logUni(c.Rand, 2e-3, 10)
	}
	o := objects.IsoSurface(&probeMat{i}, dx, dy, dz, func(u, v float64) float64 { return bad })
	for k := 0; k < 10; k++ {
		q := Vec{c.Float64() * dx, c.Float64() * dy, c.Float64() * dz}
		s := add(q, Vec{uni(c.Rand, -1, 1), dy + 1, uni(c.Rand, -1, 1)})
		r := Ray{Start: s, Dir: sub(q, s)}
		c.Eval(1)
		c.Count("bad heights", 1)
		if !panics(func() { o.Intersect(&r) }) {
			c.Failf("IsoSurface: height function with value %v is accepted without a report", bad)
		}
	}
}

// ---- C31

var apiOps = []string{"Rotate", "RotateAt", "Scale", "ScaleAt", "Translate", "WithCenter", "WithCenterBottom", "Transform", "WithMaterial",
	"Remap", "And", "Or", "AndNot", "Remove", "Restrict", "Difference", "Tree", "Bounded", "ScaleToSize", "Not"}

type apiObj struct {
	o api.Object
	p Pair
}

func (a apiObj) pair() Pair { p := a.p; p.O = a.o.Interface; return p }

func (g *gen) apiPrim() apiObj {
	c := g.center()
	m := g.mat()
	sz := func() float64 { return logUni(g.Rand, 0.3, 5) }
	switch g.Intn(10) {
	case 0:
		d := sz()
		return apiObj{api.Sphere(m, d, c), Pair{nil, &refSphere{c, d / 2, m}, c, d / 2}}
	case 1, 2, 3:
		d, h := sz(), sz()
		ax := g.Intn(3)
		var o api.Object
		switch ax {
		case 0:
			o = api.CylinderX(m, d, h, c)
		case 1:
			o = api.Cylinder(m, d, h, c)
		case 2:
			o = api.CylinderZ(m, d, h, c)
		}
		return apiObj{o, Pair{nil, &refCyl{ax, c, d / 2, h, m}, c, math.Hypot(d, h) / 2}}
	case 4:
		d, h := sz(), sz()
		hv := Vec{d / 2, h / 2, d / 2}
		return apiObj{api.CylinderWithCaps(m, d, h, c),
			Pair{nil, &refAnd{&refCyl{1, c, d / 2, h, m}, &refBox{sub(c, hv), add(c, hv), m}}, c, math.Hypot(d, h) / 2}}
	case 5, 6:
		s := Vec{sz(), sz(), sz()}
		mn, mx := madd(c, -0.5, s), madd(c, 0.5, s)
		o := api.Box(m, s[0], s[1], s[2], c)
		if g.Intn(2) == 0 {
			o = api.BoxWithBounds(m, mn, mx)
		}
		return apiObj{o, Pair{nil, &refBox{mn, mx, m}, c, length(s) / 2}}
	case 7:
		w, d := sz(), sz()
		return apiObj{api.Rectangle(m, w, d, c), Pair{nil, rectRef(w, d, c, m), c, math.Hypot(w, d) / 2}}
	case 8:
		x, y := g.basis()
		o, a, b := c, madd(c, sz(), x), madd(c, sz(), y)
		v := []Vec{o, a, add(a, sub(b, o)), b}
		return apiObj{api.RectangleWithVertices(m, o, a, b), Pair{nil, quadRef(v, m), centroid(v), meshRad(v)}}
	default:
		s := sz()
		f := func(u, v float64) Vec { return add(c, Vec{s * (u - 0.5), s * 0.3 * math.Sin(3*u+2*v), s * (v - 0.5)}) }
		nu, nv := 3, 4
		var vs []Vec
		var uv []Vec2
		var fs [][3]int
		for i := 0; i < nu; i++ {
			for j := 0; j < nv; j++ {
				u, v := float64(i)/float64(nu-1), float64(j)/float64(nv-1)
				vs = append(vs, f(u, v))
				uv = append(uv, Vec2{u, v})
			}
		}
		for i := 0; i < nu-1; i++ {
			for j := 0; j < nv-1; j++ {
				a, b, d, e := i*nv+j, (i+1)*nv+j, (i+1)*nv+j+1, i*nv+j+1
				fs = append(fs, [3]int{a, b, d}, [3]int{a, d, e})
			}
		}
		return apiObj{api.Parametric(m, nu, nv, f), Pair{nil, newRefMesh(vs, fs, uv, m, "Parametric"), c, s}}
	}
}

func (a apiObj) tr(o api.Object, s Sim) apiObj {
	return apiObj{o, Pair{nil, &refTransf{a.p.R, s}, s.point(a.p.C), a.p.Rad * s.S}}
}

func transl(d Vec) Sim { return Sim{1, ident, d} }

func apiChain(c *C, i int) {
	g := newGen(c.Rand)
	cur := g.apiPrim()
	history := []apiObj{cur}
	var names []string
	isCSG := false
	judgeBounds := func(a apiObj) {
		b := a.o.Bounds()
		mid := mul(0.5, add(b.Min, b.Max))
		with := func(k int, x float64) Vec { m := mid; m[k] = x; return m }
		for _, x := range []struct {
			name      string
			got, want Vec
		}{
			{"Center", a.o.Center(), mid},
			{"CenterBottom", a.o.CenterBottom(), with(1, b.Min[1])},
			{"CenterTop", a.o.CenterTop(), with(1, b.Max[1])},
			{"CenterBack", a.o.CenterBack(), with(2, b.Min[2])},
			{"CenterFront", a.o.CenterFront(), with(2, b.Max[2])},
		} {
			c.Eval(1)
			if !(dist(x.got, x.want) < 1e-9*(1+length(mid))) {
				c.Failf("%v: %s = %v, want %v (bounds %v)", names, x.name, x.got, x.want, b)
			}
		}
	}
	// bounds of an untransformed primitive are known exactly
	if mn, mx, ok := exactBounds(cur.p.R); ok {
		b := cur.o.Bounds()
		c.Count("exact bounds", 1)
		if !(dist(b.Min, mn) < 1e-5 && dist(b.Max, mx) < 1e-5) {
			c.Failf("bounds of %v: %v, want %v %v", cur.p.R, b, mn, mx)
		}
		s := cur.o.Bounds().Size()
		if d := sub(mx, mn); !(dist(s, d) < 1e-5) {
			c.Failf("size of %v: %v, want %v", cur.p.R, s, d)
		}
	}
	for n := c.Intn(5); n >= 0; n-- {
		op := apiOps[c.Intn(len(apiOps))]
		b := cur.o.Bounds()
		ctr := mul(0.5, add(b.Min, b.Max))
		if b.Min[0] > b.Max[0] || b.Min[1] > b.Max[1] || b.Min[2] > b.Max[2] {
			break // nothing left of it
		}
		if math.IsInf(b.Min[0], 0) || math.IsInf(b.Max[1], 0) || math.IsInf(b.Max[2], 0) || math.IsInf(b.Min[1], 0) {
			op = "Translate"
		}
		pos := rvec(c.Rand, 3)
		ax := mul(logUni(c.Rand, 0.3, 3), rdir(c.Rand))
		ang := uni(c.Rand, -4, 4)
		if c.Intn(3) == 0 {
			ax, ang = axes[c.Intn(3)], float64(c.Intn(5)-2)*math.Pi/2
		}
		k := logUni(c.Rand, 0.4, 2.5)
		names = append(names, op)
		switch op {
		case "Rotate":
			cur = cur.tr(cur.o.Rotate(ax, ang), aroundOrigin(ctr, Sim{1, rotM(ax, ang), Vec{}}))
		case "RotateAt":
			cur = cur.tr(cur.o.RotateAt(pos, ax, ang), aroundOrigin(pos, Sim{1, rotM(ax, ang), Vec{}}))
		case "Scale":
			cur = cur.tr(cur.o.Scale(k), aroundOrigin(ctr, Sim{k, ident, Vec{}}))
		case "ScaleAt":
			cur = cur.tr(cur.o.ScaleAt(pos, k), aroundOrigin(pos, Sim{k, ident, Vec{}}))
		case "Translate":
			cur = cur.tr(cur.o.Translate(pos), transl(pos))
		case "WithCenter":
			cur = cur.tr(cur.o.WithCenter(pos), transl(sub(pos, ctr)))
			if got := cur.o.Center(); !(dist(got, pos) < 1e-8*(1+length(ctr)+length(pos))) {
				c.Failf("%v: WithCenter(%v) gives center %v", names, pos, got)
			}
		case "WithCenterBottom":
			bot := Vec{ctr[0], b.Min[1], ctr[2]}
			cur = cur.tr(cur.o.WithCenterBottom(pos), transl(sub(pos, bot)))
			if got := cur.o.CenterBottom(); !(dist(got, pos) < 1e-8*(1+length(ctr)+length(pos))) {
				c.Failf("%v: WithCenterBottom(%v) gives center bottom %v", names, pos, got)
			}
		case "Transform":
			t, s := g.sim()
			cur = cur.tr(cur.o.Transform(t), s)
		case "ScaleToSize":
			w := b.Max[0] - b.Min[0]
			if !(w > 1e-3) {
				continue
			}
			size := uni(c.Rand, 0.5, 5)
			if wide := logUni(c.Rand, 0.01, 1000); true {
				if got := cur.o.ScaleToSize(wide).Bounds().Size()[0]; !(math.Abs(got-wide) < 1e-6*wide*(1+length(ctr)/w)) {
					c.Failf("%v: ScaleToSize(%v) gives width %v", names, wide, got)
				}
			}
			cur = cur.tr(cur.o.ScaleToSize(size), aroundOrigin(ctr, Sim{size / w, ident, Vec{}}))
			if got := cur.o.Bounds().Size()[0]; !(math.Abs(got-size) < 1e-6*(1+size)) {
				c.Failf("%v: ScaleToSize(%v) gives width %v", names, size, got)
			}
		case "WithMaterial":
			m := g.mat()
			cur = apiObj{cur.o.WithMaterial(m), Pair{nil, &refMat{cur.p.R, m}, cur.p.C, cur.p.Rad}}
		case "Remap":
			s, off := uni(c.Rand, 0.5, 2), rvec(c.Rand, 1)
			f := func(x Vec) Vec { return madd(off, s, x) }
			cur = apiObj{cur.o.Remap(f), Pair{nil, &refRemap{cur.p.R, f}, cur.p.C, cur.p.Rad}}
		case "Bounded":
			cur = apiObj{api.Bounded(cur.o), cur.p}
		case "Tree":
			ch := []api.Object{cur.o}
			refs := []Ref{cur.p.R}
			rad := cur.p.Rad
			for k := c.Intn(6); k > 0; k-- {
				x := g.apiPrim()
				ch = append(ch, x.o)
				refs = append(refs, x.p.R)
				rad = math.Max(rad, x.p.Rad+dist(x.p.C, cur.p.C))
			}
			cur = apiObj{api.Tree(ch...), Pair{nil, &refTree{refs}, cur.p.C, rad}}
			isCSG = true
		default:
			isCSG = true
			x := g.apiPrim()
			x = x.tr(x.o.Translate(sub(cur.p.C, x.p.C)), transl(sub(cur.p.C, x.p.C)))
			sh := rvec(c.Rand, cur.p.Rad/2)
			x = x.tr(x.o.Translate(sh), transl(sh))
			a, bR := cur.p.R, x.p.R
			pc, rad := cur.p.C, cur.p.Rad
			switch op {
			case "And":
				cur = apiObj{cur.o.And(x.o), Pair{nil, &refAnd{a, bR}, pc, rad}}
			case "Or":
				cur = apiObj{cur.o.Or(x.o), Pair{nil, &refOr{a, bR}, pc, rad + x.p.Rad}}
			case "AndNot":
				cur = apiObj{cur.o.AndNot(x.o), Pair{nil, &refAnd{a, &refNot{bR}}, pc, rad}}
			case "Remove":
				cur = apiObj{cur.o.Remove(x.o), Pair{nil, &refRestrict{a, &refNot{bR}}, pc, rad}}
			case "Restrict":
				cur = apiObj{cur.o.Restrict(x.o), Pair{nil, &refRestrict{a, bR}, pc, rad}}
			case "Difference":
				cur = apiObj{api.Difference(cur.o, x.o), Pair{nil, &refAnd{a, &refNot{bR}}, pc, rad}}
			case "Not":
				cur = apiObj{api.Object{Interface: api.And(cur.o.Interface, api.Not(x.o.Interface))}, Pair{nil, &refAnd{a, &refNot{bR}}, pc, rad}}
			}
		}
		c.Count("op "+op, 1)
		history = append(history, cur)
		judgeBounds(cur)
	}
	intersectRays(c, g, cur.pair(), 40, "api", true, isCSG)
	for _, h := range history {
		intersectRays(c, g, h.pair(), 8, "api", true, isCSG)
	}
	if i < 6 {
		c.Sample("%v", names)
	}
}

func apiAliases(c *C, i int) {
	// constants
	for name, x := range map[string][2]Color{
		"Black": {api.Black, {}}, "White": {api.White, {R: 1, G: 1, B: 1}}, "Red": {api.Red, {R: 1}}, "Green": {api.Green, {G: 1}}, "Blue": {api.Blue, {B: 1}},
		"Cyan": {api.Cyan, {G: 1, B: 1}}, "Magenta": {api.Magenta, {R: 1, B: 1}}, "Yellow": {api.Yellow, {R: 1, G: 1}}, "Gray": {api.Gray(0.3), {R: .3, G: .3, B: .3}},
		"C": {api.C(.1, .2, .3), {R: .1, G: .2, B: .3}},
	} {
		c.Eval(1)
		if x[0] != x[1] {
			c.Failf("api.%s = %v, want %v", name, x[0], x[1])
		}
	}
	for name, x := range map[string][2]Vec{"Ex": {api.Ex, {1, 0, 0}}, "Ey": {api.Ey, {0, 1, 0}}, "Ez": {api.Ez, {0, 0, 1}}, "O": {api.O, {}}, "V": {api.V(1, 2, 3), {1, 2, 3}}} {
		if x[0] != x[1] {
			c.Failf("api.%s = %v, want %v", name, x[0], x[1])
		}
	}
	if math.Abs(90*api.Deg-api.Pi/2) > 1e-12 || api.X != 0 || api.Y != 1 || api.Z != 2 {
		c.Failf("api.Deg, Pi, X, Y, Z are wrong: %v %v %v %v %v", api.Deg, api.Pi, api.X, api.Y, api.Z)
	}
	// materials, lights and media: same picture as with the originals
	t1, t2 := texture.Func(smoothTex(c.Rand)), texture.Func(smoothTex(c.Rand))
	col := rcol(c.Rand)
	k, n := c.Float64(), uni(c.Rand, 1.1, 2)
	type two [2]tracer.Material
	mats := map[string]two{
		"Matte":          {api.Matte(t1), materials.Matte(t1)},
		"Flat":           {api.Flat(t1), materials.Flat(t1)},
		"Reflective":     {api.Reflective(col), materials.Reflective(col)},
		"Refractive":     {api.Refractive(n), materials.Refractive(n)},
		"Transparent":    {api.Transparent(t1, true), materials.Transparent(t1, true)},
		"Shiny":          {api.Shiny(t1, k), materials.Shiny(t1, k)},
		"Blend":          {api.Blend(k, materials.Flat(t1), 1-k, materials.Matte(t2)), materials.Blend(k, materials.Flat(t1), 1-k, materials.Matte(t2))},
		"BlendMap":       {api.BlendMap(t1, materials.Flat(t1), materials.Matte(t2)), materials.BlendMap(t1, materials.Flat(t1), materials.Matte(t2))},
		"ReflectFresnel": {api.ReflectFresnel(n, materials.Flat(t1)), materials.ReflectFresnel(n, materials.Flat(t1))},
	}
	p := cmul(50, rcol(c.Rand))
	pos := Vec{uni(c.Rand, -2, 2), 5, uni(c.Rand, -2, 2)}
	w, d := uni(c.Rand, 0.2, 2), uni(c.Rand, 0.2, 2)
	ls := map[string][2]tracer.Light{
		"PointLight":     {api.PointLight(p, pos), lights.PointLight(p, pos)},
		"RectangleLight": {api.RectangleLight(p, w, d, pos), lights.RectangleLight(p, w, d, pos)},
		"DiskLight":      {api.DiskLight(p, w, pos), lights.DiskLight(p, w, pos)},
		"SunLight":       {api.SunLight(col, 0.05, w, d/2), lights.SunLight(col, 0.05, w, d/2)},
	}
	ms := map[string][2][]tracer.Medium{
		"none":   {nil, nil},
		"ExpFog": {{api.ExpFog(k/5+0.01, col, w)}, {media.ExpFog(k/5+0.01, col, w)}},
		"Fog":    {{api.Fog(k/5+0.01, w, 2)}, {media.Fog(k/5+0.01, w, 2)}},
	}
	fov := uni(c.Rand, 0.5, 1.5)
	cams := [][2]tracer.Camera{
		{api.Projective(fov).Translate(Vec{0, 1, 6}), cameras.Projective(fov).Translate(Vec{0, 1, 6})},
		{api.EnvironmentMap().Translate(Vec{0, 1, 6}), cameras.EnvironmentMap().Translate(Vec{0, 1, 6})},
	}
	for mn, m := range mats {
		for ln, l := range ls {
			for fn, f := range ms {
				cam := cams[c.Intn(len(cams))]
				var fs [2]tracer.ImageFunc
				for k := range fs {
					floor := objects.Rectangle(materials.Matte(colorf.Color{R: 1, G: 1, B: 1}), 20, 20, Vec{0, -1, 0})
					sc := tracer.NewSceneWithMedia(2, f[k], []tracer.Light{l[k]}, objects.Sphere(m[k], 2, Vec{0, 0.5, 0}), floor)
					fs[k] = sc.ImageFunc(cam[k])
				}
				for n := 0; n < 3; n++ {
					u, v := uni(c.Rand, 0.3, 0.7), uni(c.Rand, 0.3, 0.7)
					pix, pass := c.Intn(30), c.Intn(30)
					var got [2]Color
					for k := range got {
						ctx := tracer.NewCtx(64)
						ctx.Init(pix, pass)
						got[k] = fs[k](ctx, u, v)
					}
					c.Eval(1)
					if cdiff(got[0], got[1]) > 1e-9*(1+cmax(got[1])) {
						c.Failf("api.%s, api.%s, %s: sees %v instead of %v", mn, ln, fn, got[0], got[1])
					}
				}
				c.Distinct(mn, ln, fn)
			}
		}
	}
	// the backdrop: behind everything, coloured by the direction, in a Spec and out of it
	sky := texture.Func(func(d Vec) Color { return Color{R: 2 + d[0], G: 2 + d[1], B: 2 + d[2]} })
	back := api.Backdrop(api.Flat(sky))
	ball := api.Sphere(api.Flat(api.Red), 2, Vec{0, 1, 0})
	for _, objs := range [][]api.Object{{back, ball}, {ball, back}, {ball.Translate(Vec{}), back.Translate(Vec{1, 2, 3})}} {
		spec := api.Spec{Objects: objs, Camera: api.EnvironmentMap(), Recursion: 1}
		sc := spec.Scene()
		for n := 0; n < 40; n++ {
			r := &Ray{Start: rvec(c.Rand, 20), Dir: rdir(c.Rand)}
			oc := r.Start.Sub(Vec{0, 1, 0})
			b := oc.Dot(r.Dir)
			disc := b*b - (oc.Dot(oc) - 1)
			if math.Abs(disc) < 1e-3 || math.Abs(oc.Len()-1) < 1e-3 {
				continue
			}
			want := sky(r.Dir)
			if disc > 0 && -b+math.Sqrt(disc) > 0 {
				want = api.Red
			}
			ctx := tracer.NewCtx(1)
			ctx.Init(0, 0)
			c.Eval(1)
			c.Count("backdrop looks", 1)
			if got := sc.LightField(ctx, r); cdiff(got, want) > 1e-9 {
				c.Failf("api.Backdrop: %v seen in direction %v from %v, want %v", got, r.Dir, r.Start, want)
			}
		}
	}
	// textures
	dir := scratch(c)
	defer os.RemoveAll(dir)
	fname := filepath.Join(dir, "t.png")
	img := randRGBA(c.Rand, 2+c.Intn(8), 2+c.Intn(8))
	writePNG(fname, img)
	su, sv := uni(c.Rand, 0.2, 3), uni(c.Rand, 0.2, 3)
	a, b := api.LoadTexture(fname), texture.MustLoad(fname)
	ha, hb := api.LoadHeightMap(fname), texture.HeightMap(fname)
	for n := 0; n < 20; n++ {
		u, v := c.Float64(), c.Float64()
		c.Eval(4)
		if x, y := a.At(Vec{u, v, 0}), b.At(Vec{u, v, 0}); x != y {
			c.Failf("api.LoadTexture: %v at %v,%v, want %v", x, u, v, y)
		}
		// a texture scaled by s shows at (u,v) what the original has at (u/s, v/s)
		if x, y := a.Scale(su, sv).At(Vec{u * su, v * sv, 0}), b.At(Vec{u, v, 0}); cdiff(x, y) > 1e-6 {
			if cdiff(b.At(Vec{u + 1e-9, v + 1e-9, 0}), b.At(Vec{u - 1e-9, v - 1e-9, 0})) < 1e-6 {
				c.Failf("Texture.Scale(%v,%v): %v at %v,%v, want %v", su, sv, x, u*su, v*sv, y)
			}
		}
		if x, y := ha.HeightMap()(u, v), hb.At(Vec{u, v, 0}).R; x != y {
			c.Failf("HeightMap: %v at %v,%v, want %v", x, u, v, y)
		}
		if x, y := ha.Scale(su, sv).HeightMap()(u*su, v*sv), hb.At(Vec{u, v, 0}).R; math.Abs(x-y) > 1e-6 {
			c.Failf("HeightMap.Scale: %v at %v,%v, want %v", x, u, v, y)
		}
	}
}

// ---- C32

func robust(c *C, i int) {
	g := newGen(c.Rand)
	rec := 1 + c.Intn(6)
	sc := richScene(c, rec)
	ctx := tracer.NewCtx(100)
	for n := 0; n < 300; n++ {
		var cam tracer.Camera
		if n%50 == 0 || cam == nil {
			cam = randCam(g)
		}
		var col Color
		ctx.Init(c.Intn(100), n)
		if n%2 == 0 {
			col = sc.ImageFunc(cam)(ctx, c.Float64(), c.Float64())
		} else {
			s, d := eye(g)
			col = sc.LightField(ctx, &Ray{Start: s, Dir: d})
		}
		c.Eval(1)
		c.Count("samples", 1)
		sum := col.R + col.G + col.B
		if math.IsNaN(sum) || math.IsInf(sum, 0) || col.R < 0 || col.G < 0 || col.B < 0 {
			c.Failf("sample is %v (recursion %d)", col, rec)
		}
		if sum > 0 {
			c.Count("bright samples", 1)
			c.Distinct(c.Name)
		}
		if ctx.CurrentRecursionDepth != 0 {
			c.Failf("recursion depth %d after a sample", ctx.CurrentRecursionDepth)
			ctx.CurrentRecursionDepth = 0
		}
	}
	if i < 3 {
		c.Sample("scene with recursion %d", rec)
	}
}

var _ = fmt.Sprint
var _ = geom.O
