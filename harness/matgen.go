package main

import (
	"math"
	"math/rand"

	"github.com/barnex/bruteray/texture"
	"github.com/barnex/bruteray/tracer"
	"github.com/barnex/bruteray/tracer/materials"
)

type wMat struct {
	M tracer.Material
	R rMat
}

// rcol returns a color, now and then with channels that are exactly 0 or 1.
func rcol(r *rand.Rand) Color {
	c := Color{R: r.Float64(), G: r.Float64(), B: r.Float64()}
	if r.Intn(4) == 0 {
		for _, x := range []*float64{&c.R, &c.G, &c.B} {
			switch r.Intn(3) {
			case 0:
				*x = 0
			case 1:
				*x = 1
			}
		}
	}
	return c
}

// smoothTex returns a smooth color function of position or direction, values in [0.1, 1].
func smoothTex(r *rand.Rand) func(Vec) Color {
	a, b, c := rvec(r, 0.8), rvec(r, 0.8), rvec(r, 0.8)
	p := Vec{r.Float64() * 6, r.Float64() * 6, r.Float64() * 6}
	f := func(k Vec, ph float64, x Vec) float64 { return 0.55 + 0.45*math.Sin(dot(k, x)+ph) }
	return func(x Vec) Color { return Color{R: f(a, p[0], x), G: f(b, p[1], x), B: f(c, p[2], x)} }
}

func constTex(c Color) func(Vec) Color { return func(Vec) Color { return c } }

func (g *gen) tex() (texture.Texture, func(Vec) Color) {
	if g.Intn(2) == 0 {
		c := rcol(g.Rand)
		return c, constTex(c)
	}
	f := smoothTex(g.Rand)
	return texture.Func(f), f
}

const (
	mFlat = iota
	mReflective
	mRefractive
	mCoat
	mTransparent
	mBlend
	mBlendMap
	mTwoSided
	mMatte
	mShiny
	mFunc
	numMats
)

// material of one of the given kinds; nested up to depth.
func (g *gen) material(kinds []int, depth int) wMat {
	k := kinds[g.Intn(len(kinds))]
	if depth == 0 && (k == mBlend || k == mBlendMap || k == mTwoSided || k == mCoat) {
		k = mFlat
	}
	switch k {
	case mReflective:
		c := rcol(g.Rand)
		return wMat{materials.Reflective(c), &rReflective{c: c}}
	case mRefractive:
		n := uni(g.Rand, 1.1, 2.2)
		switch g.Intn(3) {
		case 0:
			return wMat{materials.Refractive(n), &rRefractive{n1: 1, n2: n}}
		case 1:
			return wMat{materials.Refractive2(n, 1), &rRefractive{n1: n, n2: 1}}
		}
		n2 := uni(g.Rand, 1, 2.2)
		return wMat{materials.Refractive2(n, n2), &rRefractive{n1: n, n2: n2}}
	case mCoat:
		n := uni(g.Rand, 1.1, 5)
		b := g.material(kinds, depth-1)
		return wMat{materials.ReflectFresnel(n, b.M), &rFresnelCoat{n: n, base: b.R}}
	case mTransparent:
		t, f := g.tex()
		return wMat{materials.Transparent(t, g.Intn(2) == 0), &rTransparent{f}}
	case mBlend:
		a, b := g.material(kinds, depth-1), g.material(kinds, depth-1)
		u, v := uni(g.Rand, 0, 1.5), uni(g.Rand, 0, 1.5)
		return wMat{materials.Blend(u, a.M, v, b.M), &rBlend{a: u, b: v, ma: a.R, mb: b.R}}
	case mBlendMap:
		a, b := g.material(kinds, depth-1), g.material(kinds, depth-1)
		f := smoothTex(g.Rand)
		if g.Intn(3) == 0 { // saturate to exactly 0 and 1
			f0 := f
			if v := float64(g.Intn(2)); true {
				f = func(x Vec) Color { c := f0(x); c.R = v; return c }
			}
		}
		return wMat{materials.BlendMap(texture.Func(f), a.M, b.M), &rBlendMap{tex: f, ma: a.R, mb: b.R}}
	case mTwoSided:
		a, b := g.material(kinds, depth-1), g.material(kinds, depth-1)
		return wMat{materials.TwoSided(a.M, b.M), &rTwoSided{front: a.R, back: b.R}}
	case mMatte:
		t, f := g.tex()
		return wMat{materials.Matte(t), &rMatte{tex: f}}
	case mShiny:
		t, f := g.tex()
		k := g.Float64()
		w := Color{R: 1, G: 1, B: 1}
		return wMat{materials.Shiny(t, k), &rBlend{a: 1 - k, b: k, ma: &rMatte{tex: f}, mb: &rReflective{c: w}}}
	case mFunc:
		t, f := g.tex()
		inner := materials.Flat(t)
		return wMat{mFuncPtr(inner), &rFlat{tex: f}}
	default:
		t, f := g.tex()
		return wMat{materials.Flat(t), &rFlat{tex: f}}
	}
}

// a materials.Func is not comparable, so wrap it
type funcMat struct{ materials.Func }

func mFuncPtr(m tracer.Material) tracer.Material {
	return &funcMat{func(ctx *tracer.Ctx, s *tracer.Scene, r *Ray, h tracer.HitCoords) Color {
		if !(math.Abs(length(h.Normal)-1) < 1e-9) {
			return Color{R: math.NaN()} // reported by whoever compares
		}
		return m.Shade(ctx, s, r, h)
	}}
}

// scenePrim adds a random object with a material of given kinds to rs.
func (g *gen) scenePrim(rs *rScene, kinds []int, matDepth int) {
	var w wMat
	for {
		w = g.material(kinds, matDepth)
		if _, ok := w.M.(materials.Func); !ok {
			break
		}
		// BlendMap returns a bare func: make it a map key
		f := w.M.(materials.Func)
		w.M = &funcMat{f}
		break
	}
	rs.mats[w.M] = w.R
	g.matFn = func() tracer.Material { return w.M }
	defer func() { g.matFn = nil }()
	var p Pair
	switch g.Intn(8) {
	case 0:
		g.solid = true // shading normals of meshes differ from the geometry
		p = g.csg(1)
		g.solid = false
	case 1:
		t, s := g.sim()
		p = g.prim(g.Intn(kDisk+1)).transformed(t, s)
	case 2:
		p = treeOf([]Pair{g.prim(g.Intn(kDisk + 1)), g.prim(g.Intn(kDisk + 1)), g.prim(g.Intn(kDisk + 1))})
	default:
		p = g.prim(g.Intn(kDisk + 1))
	}
	rs.add(p)
}
