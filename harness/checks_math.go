package main

import (
	"math"
	"math/rand"

	"github.com/barnex/bruteray/geom"
	"github.com/barnex/bruteray/tracer"
	"github.com/barnex/bruteray/tracer/sequence"
)

// aff is an independent affine map, row major.
type aff struct {
	M Mat3
	B Vec
}

func (t aff) point(x Vec) Vec { return add(t.M.vec(x), t.B) }
func (t aff) dir(x Vec) Vec   { return t.M.vec(x) }

// then applies t first, then s.
func (t aff) then(s aff) aff { return aff{s.M.mul(t.M), s.point(t.B)} }

func diag(s float64) Mat3 { return Mat3{{s, 0, 0}, {0, s, 0}, {0, 0, s}} }

func (t aff) norm() float64 {
	n := 1 + length(t.B)
	for i := range t.M {
		for j := range t.M[i] {
			n += math.Abs(t.M[i][j])
		}
	}
	return n
}

func det3(m Mat3) float64 {
	return m[0][0]*(m[1][1]*m[2][2]-m[1][2]*m[2][1]) - m[0][1]*(m[1][0]*m[2][2]-m[1][2]*m[2][0]) + m[0][2]*(m[1][0]*m[2][1]-m[1][1]*m[2][0])
}

type affPair struct {
	T *geom.AffineTransform
	R aff
}

func at0(o Vec, r aff) aff { return aff{diag(1), mul(-1, o)}.then(r).then(aff{diag(1), o}) }

func specialAngle(r *rand.Rand) float64 {
	if r.Intn(3) == 0 {
		return float64(r.Intn(9)-4) * math.Pi / 4
	}
	return uni(r, -7, 7)
}

func randAff(r *rand.Rand, depth int) affPair {
	o := rvec(r, 5)
	if r.Intn(3) == 0 {
		o = Vec{}
	}
	ang := specialAngle(r)
	k := r.Intn(12)
	if depth == 0 && k > 7 {
		k -= 8
	}
	switch k {
	case 0:
		return affPair{geom.Translate(o), aff{diag(1), o}}
	case 1:
		s := logUni(r, .1, 10)
		if r.Intn(5) == 0 {
			s = -s
		}
		return affPair{geom.Scale(o, s), at0(o, aff{M: diag(s)})}
	case 2:
		axis := mul(logUni(r, .1, 10), rdirSpecial(r))
		return affPair{geom.Rotate(o, axis, ang), at0(o, aff{M: rotM(axis, ang)})}
	case 3:
		return affPair{geom.Yaw(ang), aff{M: rotM(Vec{0, 1, 0}, ang)}}
	case 4:
		return affPair{geom.Pitch(ang), aff{M: rotM(Vec{1, 0, 0}, ang)}}
	case 5:
		return affPair{geom.Roll(ang), aff{M: rotM(Vec{0, 0, 1}, ang)}}
	case 6:
		y, p := uni(r, -4, 4), uni(r, -2, 2)
		m := rotM(Vec{0, 1, 0}, y).mul(rotM(Vec{1, 0, 0}, p)).mul(rotM(Vec{0, 0, 1}, ang))
		return affPair{geom.YawPitchRoll(y, p, ang), aff{M: m}}
	case 7:
		for {
			x, y, z := rvec(r, 4), rvec(r, 4), rvec(r, 4)
			var m Mat3
			for i := 0; i < 3; i++ {
				m[i][0], m[i][1], m[i][2] = x[i]-o[i], y[i]-o[i], z[i]-o[i]
			}
			special := r.Intn(3) == 0
			if special {
				// small whole numbers: shears, reflections, permutations, often of determinant +-1
				for i := 0; i < 3; i++ {
					for j := 0; j < 3; j++ {
						m[i][j] = float64(r.Intn(5) - 2)
					}
					x[i], y[i], z[i] = m[i][0]+o[i], m[i][1]+o[i], m[i][2]+o[i]
				}
			}
			if d := math.Abs(det3(m)); d > 5 || special && d > .5 {
				return affPair{geom.MapBaseTo(o, x, y, z), aff{m, o}}
			}
		}
	case 8:
		a, b := randAff(r, depth-1), randAff(r, depth-1)
		return affPair{a.T.Before(b.T), a.R.then(b.R)}
	case 9:
		a, b := randAff(r, depth-1), randAff(r, depth-1)
		return affPair{a.T.After(b.T), b.R.then(a.R)}
	case 10:
		n := r.Intn(4)
		if r.Intn(3) == 0 {
			n = r.Intn(12)
		}
		R := aff{M: diag(1)}
		var ts []*geom.AffineTransform
		for i := 0; i < n; i++ {
			a := randAff(r, depth-1)
			ts = append(ts, a.T)
			R = R.then(a.R)
		}
		return affPair{geom.ComposeLR(ts...), R}
	default:
		a := randAff(r, depth-1)
		return affPair{a.T.WithOrigin(o), at0(o, a.R)}
	}
}

func init() {
	register(&Check{
		ID:   "C21",
		Rule: "random affine transforms from every constructor, composed up to depth 3, applied to random points and directions and compared with independent matrix algebra, with round trips through the inverse; vector and matrix identities; non-trivial: transform is not the identity",
		Run: func(t *T) {
			t.Cases("affine", t.N(3000, 100000), func(c *C, i int) { affineCase(c) })
			t.Cases("matrix", t.N(500, 20000), func(c *C, i int) { matrixCase(c) })
			t.Require("transformed points", 100000)
			t.Require("inverse round trips", 50000)
		},
	})
	register(&Check{
		ID:   "C22",
		Rule: "Halton elements against the digit-reversal definition for random bases and indices; coverage of the unit square by each per-pixel sequence over passes, reproducibility and independence; area and moments of the disk and hemisphere mappings for random normals; non-trivial: each base, pixel, depth or normal",
		Run: func(t *T) {
			t.Cases("halton", t.N(100, 3000), func(c *C, i int) { haltonCase(c) })
			t.Cases("many-pixels", 2, func(c *C, i int) { manyPixels(c) })
			t.Require("pixels of large images", 4000)
			t.Cases("ctx", t.N(20, 500), func(c *C, i int) { ctxSequences(c) })
			t.Cases("mappings", t.N(20, 500), func(c *C, i int) { mappingsCase(c) })
			t.Require("halton elements", 100000)
			t.Require("sequence samples", 100000)
			t.Require("hemisphere samples", 100000)
		},
	})
}

func affineCase(c *C) {
	p := randAff(c.Rand, c.Intn(4))
	before := *p.T
	nrm := p.R.norm()
	c.Distinct(c.Name)
	dt := math.Abs(det3(p.R.M))
	var inv *geom.AffineTransform
	if dt > 1e-6 && nrm < 1e5 {
		inv = p.T.Inverse()
	}
	for k := 0; k < 10; k++ {
		x := mul(logUni(c.Rand, .1, 100), rdirSpecial(c.Rand))
		gp, wp := p.T.TransformPoint(x), p.R.point(x)
		gd, wd := p.T.TransformDir(x), p.R.dir(x)
		c.Eval(2)
		c.Count("transformed points", 1)
		tol := 1e-11 * nrm * nrm * (1 + length(x))
		if !(dist(gp, wp) < tol) || !(dist(gd, wd) < tol) {
			c.Failf("transform %+v maps point %v to %v (want %v), direction to %v (want %v)", p.R, x, gp, wp, gd, wd)
			return
		}
		if inv != nil {
			back := inv.TransformPoint(gp)
			fwd := p.T.TransformPoint(inv.TransformPoint(x))
			bd := inv.TransformDir(gd)
			c.Count("inverse round trips", 1)
			tol := 1e-11 * math.Pow(nrm, 4) * (1 + length(x)) * (1 + 1/dt)
			if !(dist(back, x) < tol) || !(dist(fwd, x) < tol) || !(dist(bd, x) < tol) {
				c.Failf("inverse of %+v maps point %v back to %v, direction to %v; forward of inverse %v", p.R, x, back, bd, fwd)
				return
			}
		}
	}
	// composing leaves the parts as they were, and gives the same again
	a, b := randAff(c.Rand, 1), randAff(c.Rand, 1)
	a0, b0 := *a.T, *b.T
	x := rvec(c.Rand, 5)
	for k := 0; k < 2; k++ {
		for _, f := range []func() *geom.AffineTransform{
			func() *geom.AffineTransform { return geom.ComposeLR(p.T, a.T, b.T) },
			func() *geom.AffineTransform { return p.T.Before(a.T).Before(b.T) },
			func() *geom.AffineTransform { return b.T.After(a.T.After(p.T)) },
			func() *geom.AffineTransform { return b.T.After(geom.ComposeLR(p.T, a.T)) },
		} {
			r := p.R.then(a.R).then(b.R)
			n := p.R.norm() * a.R.norm() * b.R.norm()
			if got, want := f().TransformPoint(x), r.point(x); !(dist(got, want) < 1e-11*n*n*(1+length(x))) {
				c.Failf("composed transform maps %v to %v, want %v", x, got, want)
				return
			}
		}
	}
	a.T.WithOrigin(x)
	if *a.T != a0 || *b.T != b0 {
		c.Failf("composing transforms changed one of them: %v to %v, %v to %v", a0, *a.T, b0, *b.T)
	}
	if *p.T != before {
		c.Failf("using a transform changed it from %v to %v", before, *p.T)
	}
	if c.Intn(200) == 0 {
		c.Sample("transform A=%.4g B=%.4g", p.R.M, p.R.B)
	}
}

func matrixCase(c *C) {
	toM := func(m Mat3) geom.Matrix { // columns
		var g geom.Matrix
		for i := 0; i < 3; i++ {
			for j := 0; j < 3; j++ {
				g[j][i] = m[i][j]
			}
		}
		return g
	}
	var a, b Mat3
	for i := range a {
		for j := range a[i] {
			a[i][j], b[i][j] = uni(c.Rand, -3, 3), uni(c.Rand, -3, 3)
		}
	}
	if c.Intn(3) == 0 { // whole numbers
		for i := range a {
			for j := range a[i] {
				a[i][j], b[i][j] = float64(c.Intn(5)-2), float64(c.Intn(5)-2)
			}
		}
		if c.Intn(3) == 0 { // shear
			a[0][0], a[1][1], a[2][2], a[0][1], a[0][2], a[1][2] = 1, 1, 1, 0, 0, 0
		}
	}
	A, B := toM(a), toM(b)
	x, y := rvec(c.Rand, 5), rvec(c.Rand, 5)
	s := uni(c.Rand, -3, 3)
	c.Eval(1)
	AB := A.Mul(&B)
	Af := A.Mulf(s)
	near := func(what string, got, want Vec) {
		if !(dist(got, want) < 1e-10*(1+length(want))) {
			c.Failf("%s: got %v, want %v", what, got, want)
		}
	}
	nearf := func(what string, got, want float64) {
		if !(math.Abs(got-want) < 1e-10*(1+math.Abs(want))) {
			c.Failf("%s: got %v, want %v", what, got, want)
		}
	}
	near("A x", A.MulVec(x), a.vec(x))
	near("(A B) x", AB.MulVec(x), a.vec(b.vec(x)))
	near("(s A) x", Af.MulVec(x), mul(s, a.vec(x)))
	if math.Abs(det3(a)) > 0.5 {
		I := A.Inverse()
		near("A^-1 A x", I.MulVec(a.vec(x)), x)
		near("A A^-1 x", a.vec(I.MulVec(x)), x)
	}
	near("x+y", x.Add(y), add(x, y))
	near("x-y", x.Sub(y), sub(x, y))
	near("x+s y", x.MAdd(s, y), madd(x, s, y))
	near("s x", x.Mul(s), mul(s, x))
	near("cross", x.Cross(y), cross(x, y))
	near("normalized", x.Normalized(), unit(x))
	z := x
	z.Normalize()
	near("Normalize", z, unit(x))
	nearf("dot", x.Dot(y), dot(x, y))
	nearf("len", x.Len(), length(x))
	nearf("len2", x.Len2(), dot(x, x))
	w := rvec(c.Rand, 5)
	near("triangle normal", geom.TriangleNormal(x, y, w), unit(cross(sub(y, x), sub(w, x))))
	for i := 0; i < 3; i++ {
		v := x
		v[i] = math.NaN()
		if !v.IsNaN() || x.IsNaN() {
			c.Failf("IsNaN(%v)=%v, IsNaN(%v)=%v", v, v.IsNaN(), x, x.IsNaN())
		}
	}
	c.Distinct(c.Name)
}

// radical inverse with integer digits
func refHalton(b, i int) float64 {
	num, den := 0.0, 1.0
	for n := i + 1; n > 0; n /= b {
		num = num*float64(b) + float64(n%b)
		den *= float64(b)
	}
	return num / den
}

func haltonCase(c *C) {
	b := []int{2, 3, 5, 7, 11, 13, 17}[c.Intn(7)]
	for k := 0; k < 300; k++ {
		i := c.Intn(1 << uint(1+c.Intn(30)))
		got, want := sequence.Halton(b, i), refHalton(b, i)
		c.Eval(1)
		c.Count("halton elements", 1)
		if !(math.Abs(got-want) < 1e-12) || got < 0 || got >= 1 {
			c.Failf("Halton base %d element %d is %v, want %v", b, i, got, want)
			return
		}
	}
	c.Distinct(b, c.Name)
}

func ctxSequences(c *C) {
	npix := 1 + c.Intn(500)
	ctx, ctx2 := tracer.NewCtx(npix), tracer.NewCtx(npix)
	pix := c.Intn(npix)
	names := []string{"anti-alias", "depth 1", "depth 2", "depth 3", "lens"}
	get := func(ctx *tracer.Ctx, k int) (u, v float64) {
		switch k {
		case 0:
			return ctx.AA.Generate2()
		case 4:
			return ctx.GenerateLens()
		}
		ctx.CurrentRecursionDepth = k
		u, v = ctx.Generate2()
		ctx.CurrentRecursionDepth = 0
		return
	}
	const N = 2048
	var hist [5][8][8]int
	var sum [10]float64
	var cov [10][10]float64
	first := c.Intn(4) * 500
	if c.Intn(2) == 0 {
		first = c.Intn(1 << uint(10+c.Intn(14)))
	}
	for pass := first; pass < first+N; pass++ {
		ctx.Init(pix, pass)
		ctx2.Init(c.Intn(npix), c.Intn(1000)) // other history
		ctx2.Init(pix, pass)
		var x [10]float64
		for k := 0; k < 5; k++ {
			u, v := get(ctx, k)
			c.Eval(1)
			c.Count("sequence samples", 1)
			if !(u >= 0 && u < 1 && v >= 0 && v < 1) {
				c.Failf("%s sample outside the unit square: %v %v", names[k], u, v)
				return
			}
			if k < 3 { // deterministic by pixel and pass
				u2, v2 := get(ctx2, k)
				if u != u2 || v != v2 {
					c.Failf("%s sample of pixel %d pass %d is %v %v or %v %v, depending on what was sampled before", names[k], pix, pass, u, v, u2, v2)
					return
				}
			}
			hist[k][int(8*u)][int(8*v)]++
			x[2*k], x[2*k+1] = u-.5, v-.5
		}
		for i := range x {
			sum[i] += x[i]
			for j := range x {
				cov[i][j] += x[i] * x[j]
			}
		}
	}
	// each pass is a new sample
	for n := 0; n < 40; n++ {
		p1 := c.Intn(1 << uint(1+c.Intn(16)))
		p2 := p1 + 1<<uint(c.Intn(24))
		if c.Intn(3) == 0 {
			p2 = p1 + 1 + c.Intn(1<<20)
		}
		for k := 0; k < 3; k++ {
			ctx.Init(pix, p1)
			u1, v1 := get(ctx, k)
			ctx.Init(pix, p2)
			u2, v2 := get(ctx, k)
			c.Eval(1)
			c.Count("pairs of passes", 1)
			if u1 == u2 || v1 == v2 {
				c.Failf("%s samples of pixel %d in passes %d and %d are the same: %v %v and %v %v", names[k], pix, p1, p2, u1, v1, u2, v2)
				return
			}
		}
	}
	for k := 0; k < 5; k++ {
		lim := 6.
		if k >= 3 { // pseudo-random
			lim = 9
		}
		for i := range hist[k] {
			for j := range hist[k][i] {
				if math.Abs(float64(hist[k][i][j])-N/64) > lim*math.Sqrt(N/64.) {
					c.Failf("%s samples of pixel %d do not cover the unit square evenly: cell %d,%d has %d of %d", names[k], pix, i, j, hist[k][i][j], N)
					return
				}
			}
		}
	}
	for i := range sum {
		for j := 0; j < i; j++ {
			r := (cov[i][j]/N - sum[i]*sum[j]/N/N) * 12
			if math.Abs(r) > 0.15 { // 6.8 sigma
				c.Failf("samples are correlated: dimension %d of %s and %d of %s, coefficient %.3f", i%2, names[i/2], j%2, names[j/2], r)
			}
		}
	}
	c.Distinct(npix, pix, first)
	c.Sample("pixel %d of %d, passes %d..%d: means %.3g", pix, npix, first, first+N, sum)
}

func mappingsCase(c *C) {
	n := unit(rdirSpecial(c.Rand))
	if c.Intn(3) == 0 { // nearly axis aligned
		n = unit(add(n, rvec(c.Rand, 1e-3)))
	}
	const M = 64
	var m1 Vec
	var m2 Mat3
	var dx, dy, dx2, dy2, dxy, dr4 float64
	var cosHist, rHist, thHist [8]int
	for i := 0; i < M; i++ {
		for j := 0; j < M; j++ {
			u, v := (float64(i)+c.Float64())/M, (float64(j)+c.Float64())/M
			x, y := sequence.UniformDisk(u, v)
			r2 := x*x + y*y
			if !(r2 <= 1+1e-12) {
				c.Failf("UniformDisk(%v,%v) = %v,%v lies outside the unit disk", u, v, x, y)
				return
			}
			dx, dy, dx2, dy2, dxy, dr4 = dx+x, dy+y, dx2+x*x, dy2+y*y, dxy+x*y, dr4+r2*r2
			rHist[clampi(int(8*r2), 0, 7)]++
			thHist[clampi(int(8*(math.Atan2(y, x)+math.Pi)/(2*math.Pi)), 0, 7)]++
			d := sequence.CosineSphere(u, v, n)
			c.Count("hemisphere samples", 1)
			c.Eval(2)
			if !(math.Abs(length(d)-1) < 1e-6) || !(dot(d, n) > -1e-9) {
				c.Failf("CosineSphere(%v,%v,%v) = %v, length %v, cosine %v", u, v, n, d, length(d), dot(d, n))
				return
			}
			cs := dot(d, n)
			cosHist[clampi(int(8*cs*cs), 0, 7)]++
			m1 = add(m1, d)
			for a := 0; a < 3; a++ {
				for b := 0; b < 3; b++ {
					m2[a][b] += d[a] * d[b]
				}
			}
		}
	}
	N := float64(M * M)
	bad := func(what string, got, want float64) {
		if !(math.Abs(got-want) < 0.03) {
			c.Failf("%s is %.4f over %v stratified samples, want %.4f (normal %v)", what, got, N, want, n)
		}
	}
	bad("disk mean x", dx/N, 0)
	bad("disk mean y", dy/N, 0)
	bad("disk mean x²", dx2/N, .25)
	bad("disk mean y²", dy2/N, .25)
	bad("disk mean xy", dxy/N, 0)
	bad("disk mean r⁴", dr4/N, 1./3)
	for k := 0; k < 8; k++ {
		bad("disk fraction per equal-area ring", float64(rHist[k])/N, 1./8)
		bad("disk fraction per sector", float64(thHist[k])/N, 1./8)
		bad("hemisphere fraction per equal cosine-weighted ring", float64(cosHist[k])/N, 1./8)
	}
	for a := 0; a < 3; a++ {
		bad("hemisphere mean direction", m1[a]/N, 2./3*n[a])
		for b := 0; b < 3; b++ {
			want := n[a] * n[b] / 4
			if a == b {
				want += .25
			}
			bad("hemisphere second moment", m2[a][b]/N, want)
		}
	}
	c.Distinct(n)
	c.Sample("normal %.4g: mean cosine-weighted direction %.4g", n, mul(1/N, m1))
}
