package main

// The user-facing layer: Spec and View (C28), the render server (C27).

import (
	"bytes"
	"context"
	"encoding/gob"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/rand"
	"net"
	"net/http"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/barnex/bruteray/api"
	"github.com/barnex/bruteray/imagef"
	"github.com/barnex/bruteray/texture"
	"github.com/barnex/bruteray/tracer"
	"github.com/barnex/bruteray/tracer/cameras"
	"github.com/barnex/bruteray/tracer/materials"
	"github.com/barnex/bruteray/tracer/media"
	"github.com/barnex/bruteray/tracer/objects"
)

// rCam is a camera of known geometry.
type rCam struct {
	fov float64
	m   Mat3
	pos Vec
	iso float64 // horizontal size, if isometric
	dir int
}

func (k rCam) ray(u, v float64) (s, d Vec) {
	if k.iso != 0 {
		right := []Vec{{0, 0, -1}, {1, 0, 0}, {1, 0, 0}}[k.dir]
		up := []Vec{{0, 1, 0}, {0, 0, -1}, {0, 1, 0}}[k.dir]
		fwd := []Vec{{-1, 0, 0}, {0, -1, 0}, {0, 0, -1}}[k.dir]
		s = add(mul((u-0.5)*k.iso, right), mul((v-0.5)*k.iso, up))
		return madd(s, -4096, fwd), fwd
	}
	f := 0.5 / math.Tan(k.fov/2)
	return k.pos, k.m.vec(unit(Vec{u - 0.5, v - 0.5, -f}))
}

func yawPitch(y, p float64) Mat3 { return rotM(axes[1], y).mul(rotM(axes[0], p)) }

// rDbg1 shows how far the surface is turned to the viewer, red if away from it.
type rDbg1 struct{ opaque }

func (rDbg1) shade(rs *rScene, depth int, h rHit) (Color, bool) {
	v := dot(h.N, h.D)
	if v < 0 {
		return Color{R: -v, G: -v, B: -v}, true
	}
	return Color{R: v}, true
}

type rDbg2 struct{ opaque }

func (rDbg2) shade(rs *rScene, depth int, h rHit) (Color, bool) {
	v := 0.5 + 0.5*math.Abs(dot(h.N, h.D))
	through, ok := (&rTransparent{tex: constTex(Color{R: 1, G: 1, B: 1})}).shade(rs, depth, h)
	return cadd(cmul(0.3, Color{R: v, G: v, B: v}), cmul(0.7, through)), ok
}

// debug returns the reference of the scene as shown with DebugNormals.
func (rs *rScene) debug(mode int) *rScene {
	if mode == 0 {
		return rs
	}
	d := *rs
	d.mats = map[tracer.Material]rMat{}
	for m := range rs.mats {
		if mode == 1 {
			d.mats[m] = rDbg1{}
		} else {
			d.mats[m] = rDbg2{}
		}
	}
	d.backdrop = nil
	if mode == 2 {
		d.rec = 20
	}
	return &d
}

// apiScene returns a random deterministic scene with its reference.
func apiScene(c *C, rec int) (*rScene, api.Spec, rCam) {
	g := newGen(c.Rand)
	rs := newRScene(rec)
	for n := 2 + c.Intn(4); n > 0; n-- {
		g.scenePrim(rs, []int{mFlat, mFlat, mReflective, mTransparent, mBlend, mMatte}, 1)
	}
	if c.Intn(4) == 0 { // many surfaces behind each other
		ctr, r := rvec(c.Rand, 1), uni(c.Rand, .3, .6)
		for n := 4 + c.Intn(4); n > 0; n-- {
			w := g.material([]int{mFlat, mTransparent}, 1)
			rs.mats[w.M] = w.R
			rs.add(Pair{objects.Sphere(w.M, 2*r, ctr), &refSphere{ctr, r, w.M}, ctr, r})
			r *= uni(c.Rand, 1.1, 1.4)
		}
	}
	for n := 1 + c.Intn(3); n > 0; n-- {
		rs.addPoint(cmul(logUni(c.Rand, 20, 500), rcol(c.Rand)), add(rvec(c.Rand, 5), Vec{0, 6, 4}))
	}
	if c.Intn(3) > 0 {
		rs.setBackdrop(smoothTex(c.Rand))
	}
	var objs []api.Object
	for _, o := range rs.robjs {
		objs = append(objs, api.Object{Interface: o.(objects.Interface)})
	}
	k := rCam{fov: uni(c.Rand, 0.5, 1.8), m: ident}
	y, p := uni(c.Rand, -0.5, 0.5), uni(c.Rand, -0.5, 0.5)
	k.m = yawPitch(y, p)
	k.pos = add(rvec(c.Rand, 2), Vec{0, 1, 8})
	spec := api.Spec{
		Lights: rs.rlights, Objects: objs, Recursion: rec,
		Camera: cameras.Projective(k.fov).YawPitchRoll(y, p, 0).Translate(k.pos),
	}
	if c.Intn(4) == 0 {
		spec.Camera = nil
		k = rCam{fov: math.Pi / 2, m: ident, pos: Vec{0, 1, 0}}
	}
	return rs, spec, k
}

func randView(r *rand.Rand, wMax int) api.View {
	v := api.View{Width: 1 + r.Intn(wMax), Height: 1 + r.Intn(wMax)}
	if r.Intn(4) > 0 {
		v.CamPos = rvec(r, 3)
		v.CamYaw, v.CamPitch = uni(r, -1, 1), uni(r, -1, 1)
		// just one or two of them
		if r.Intn(3) == 0 {
			v.CamPos = Vec{}
		}
		if r.Intn(3) == 0 {
			v.CamYaw = 0
		}
		if r.Intn(3) == 0 {
			v.CamPitch = 0
		}
	}
	if r.Intn(3) == 0 {
		v.DebugNormals = 1 + r.Intn(2)
	}
	switch r.Intn(4) {
	case 0:
		v.DebugIsometric = true
		v.DebugIsometricFOV = logUni(r, 2, 30)
		if r.Intn(3) == 0 {
			v.DebugIsometricFOV = logUni(r, 0.02, 100)
		}
		v.DebugIsometricDir = r.Intn(3)
	case 1: // not in effect
		v.DebugIsometricFOV = logUni(r, 2, 30)
		v.DebugIsometricDir = r.Intn(3)
	}
	return v
}

// view returns the camera of a View.
func (k rCam) view(v api.View) rCam {
	if v.DebugIsometric {
		return rCam{iso: v.DebugIsometricFOV, dir: v.DebugIsometricDir}
	}
	k.pos = add(k.pos, v.CamPos)
	k.m = yawPitch(v.CamYaw, v.CamPitch).mul(k.m)
	return k
}

// refSee is what the reference sees through camera k at sensor position u,v.
func (rs *rScene) refSee(k rCam, u, v float64) (Color, bool) {
	s, d := k.ray(u, v)
	if k.iso != 0 {
		// the far away start only costs precision: start nearer, if nothing lies in between
		s = madd(s, 4096-200, d)
	}
	return rs.light(0, s, d, false)
}

// judgeView compares a rendered image with the reference. n: pixels judged.
func judgeView(c *C, what string, img imagef.Image, rs *rScene, k rCam, v api.View) bool {
	if !checkSize(c, img, v.Width, v.Height) {
		return false
	}
	d := rs.debug(v.DebugNormals)
	kv := k.view(v)
	tol := 1e-5
	if v.DebugIsometric {
		tol = 1e-3 // ray starts 4096 away
	}
	bad := 0
	for iy := 0; iy < v.Height; iy++ {
		for ix := 0; ix < v.Width; ix++ {
			u, w := pixCenter(v.Width, v.Height, ix, iy)
			want, ok := d.refSee(kv, u, w)
			if !ok {
				c.Count("undecidable pixels", 1)
				continue
			}
			c.Eval(1)
			c.Count(fmt.Sprintf("pixels judged, debug %d isometric %v", v.DebugNormals, v.DebugIsometric), 1)
			if !(cdiff(img[iy][ix], want) <= tol*(1+cmax(want))) {
				// a surface edge may lie within round-off
				if stable(d, kv, u, w, want, v.DebugIsometric) {
					bad++
					if bad <= 2 {
						c.Failf("%s: view %+v: pixel %d,%d is %v, want %v", what, v, ix, iy, img[iy][ix], want)
					}
				} else {
					c.Count("undecidable pixels", 1)
				}
			}
		}
	}
	return bad == 0
}

// stable tells that the reference does not change much around u,v.
func stable(rs *rScene, k rCam, u, v float64, want Color, iso bool) bool {
	for _, e := range []Vec2{{1, 0}, {-1, 0}, {0, 1}, {0, -1}} {
		x, ok := rs.refSee(k, u+1e-5*e[0], v+1e-5*e[1])
		if !ok || cdiff(x, want) > 1e-2*(1+cmax(want)) {
			return false
		}
	}
	return true
}

func init() {
	register(&Check{
		ID:   "C28",
		Rule: "random scenes, specs with random fields unset, random views (position, yaw, pitch, debug normals 0..2, isometric); picture of the resulting Spec compared with the reference renderer; caller's spec compared before and after; non-trivial: (spec, view) seeing something",
		Run: func(t *T) {
			t.Cases("defaults", t.N(20, 2000), specDefaults)
			t.Cases("view", t.N(12, 1000), viewCase)
			t.Require("pixels judged, debug 0 isometric false", 1000)
			t.Require("pixels judged, debug 1 isometric false", 500)
			t.Require("pixels judged, debug 2 isometric false", 200)
			t.Require("pixels judged, debug 0 isometric true", 500)
			t.Require("specs with defaults", 100)
		},
	})
	register(&Check{
		ID:   "C27",
		Race: true,
		Rule: "real HTTP server on the loopback interface, race detector on: random sequential histories (preview, bake, cancel, malformed requests, impossible views, clients that go away), concurrent clients, bakes canceled halfway with a new bake right behind; every image returned is judged against the reference of the view it was asked for, progressive bakes against the mean of all logged samples, rejections against the log of overlapping bakes; non-trivial: (request kind, view) answered with an image",
		Run: func(t *T) {
			t.Cases("long", 2, serverLong)
			t.Require("large images judged", 4)
			t.Cases("many", 2, serverMany)
			t.Require("requests next to a client that does not read", 8)
			for i := 0; i < t.N(1, 10)/2; i++ {
				t.Case(fmt.Sprintf("sequential#%d", i), serverSequential)
				t.Case(fmt.Sprintf("progressive#%d", i), serverProgressive)
				t.Case(fmt.Sprintf("concurrent#%d", i), serverConcurrent)
				t.Case(fmt.Sprintf("cancel#%d", i), serverCancel)
			}
			t.Require("images judged", 60)
			t.Require("bakes rejected while baking", 3)
			t.Require("bakes after cancel", 5)
			t.Require("progressive bakes", 10)
		},
	})
}

func specDefaults(c *C, i int) {
	rs, spec, k := apiScene(c, 1)
	spec.Width, spec.Height, spec.NumPass, spec.Recursion = 0, 0, 0, 0
	if c.Intn(2) == 0 {
		spec.Width = 1 + c.Intn(2000)
	}
	if c.Intn(2) == 0 {
		spec.Height = 1 + c.Intn(2000)
	}
	if c.Intn(2) == 0 {
		spec.NumPass = 1 + c.Intn(100)
	}
	rs.rec = 1
	if c.Intn(2) == 0 {
		spec.Recursion = 1 + c.Intn(4)
		rs.rec = spec.Recursion
	}
	s := spec
	s.InitDefaults()
	c.Eval(1)
	c.Count("specs with defaults", 1)
	wantW, wantH := float64(spec.Width), float64(spec.Height)
	slack := 0.0
	switch {
	case wantW == 0 && wantH == 0:
		wantW, wantH = 960, 540
	case wantW == 0:
		wantW, slack = wantH*16/9, 1
	case wantH == 0:
		wantH, slack = wantW*9/16, 1
	}
	if math.Abs(float64(s.Width)-wantW) > slack || math.Abs(float64(s.Height)-wantH) > slack {
		c.Failf("size %dx%d becomes %dx%d, want %vx%v", spec.Width, spec.Height, s.Width, s.Height, wantW, wantH)
	}
	if spec.NumPass != 0 && s.NumPass != spec.NumPass || spec.NumPass == 0 && s.NumPass != 1 {
		c.Failf("NumPass %d becomes %d", spec.NumPass, s.NumPass)
	}
	if spec.Recursion != 0 && s.Recursion != spec.Recursion || spec.Recursion == 0 && s.Recursion != 1 {
		c.Failf("Recursion %d becomes %d", spec.Recursion, s.Recursion)
	}
	s2 := s
	s2.InitDefaults()
	if s2.Width != s.Width || s2.Height != s.Height || s2.NumPass != s.NumPass || s2.Recursion != s.Recursion {
		c.Failf("applying the defaults twice changes the spec: %+v, %+v", s, s2)
	}
	// what it looks like
	f := s.ImageFunc()
	ctx := newCtx(c)
	for n := 0; n < 20; n++ {
		u, v := c.Float64(), c.Float64()
		ctx.Init(c.Intn(50), n)
		got := f(ctx, u, v)
		want, ok := rs.refSee(k, u, v)
		if !ok {
			continue
		}
		c.Eval(1)
		c.Count("samples judged", 1)
		if cmax(want) > 0 {
			c.Distinct(c.Name, n)
		}
		if !(cdiff(got, want) <= 1e-5*(1+cmax(want))) && stable(rs, k, u, v, want, false) {
			c.Failf("sees %v at %v,%v, want %v (camera %+v, recursion %d)", got, u, v, want, k, rs.rec)
		}
	}
}

// allMedia: a view of a foggy scene has all of the fog.
func allMedia(c *C, spec api.Spec, v api.View) {
	v.DebugNormals, spec.DebugNormals = 0, 0
	spec.Media = nil
	for n := c.Intn(9); n > 0; n-- {
		spec.Media = append(spec.Media, media.ExpFog(logUni(c.Rand, .005, .05), rcol(c.Rand), uni(c.Rand, -1, 5)))
	}
	s := v.ApplyTo(spec)
	var objs []tracer.Object
	for _, o := range spec.Objects {
		objs = append(objs, o.Interface)
	}
	var cam tracer.Camera = s.Camera
	if v.DebugIsometric {
		cam = cameras.Isometric(v.DebugIsometricDir, v.DebugIsometricFOV)
	}
	f, ref := s.ImageFunc(), tracer.NewSceneWithMedia(spec.Recursion, spec.Media, spec.Lights, objs...).ImageFunc(cam)
	ctx := newCtx(c)
	for n := 0; n < 10; n++ {
		x, y := c.Float64(), c.Float64()
		pix := c.Intn(50)
		ctx.Init(pix, n)
		got := f(ctx, x, y)
		ctx.Init(pix, n)
		want := ref(ctx, x, y)
		c.Eval(1)
		c.Count("samples through fog", 1)
		if !(cdiff(got, want) <= 1e-9*(1+cmax(want))) {
			c.Failf("view %+v of a scene with %d layers of fog sees %v at %v,%v, want %v", v, len(spec.Media), got, x, y, want)
		}
	}
}

func sameSpec(a, b api.Spec) string {
	if len(a.Objects) != len(b.Objects) || len(a.Lights) != len(b.Lights) || len(a.Media) != len(b.Media) {
		return "number of objects, lights or media"
	}
	for i := range a.Objects {
		if a.Objects[i].Interface != b.Objects[i].Interface {
			return fmt.Sprintf("object %d", i)
		}
	}
	for i := range a.Lights {
		if a.Lights[i] != b.Lights[i] {
			return fmt.Sprintf("light %d", i)
		}
	}
	if a.Camera != b.Camera || a.Recursion != b.Recursion || a.NumPass != b.NumPass || a.Width != b.Width || a.Height != b.Height {
		return "camera, recursion, passes or size"
	}
	return ""
}

func cloneSpec(s api.Spec) api.Spec {
	c := s
	c.Objects = append([]api.Object{}, s.Objects...)
	c.Lights = append([]api.Light{}, s.Lights...)
	c.Media = append([]api.Medium{}, s.Media...)
	return c
}

func viewCase(c *C, i int) {
	rs, spec, k := apiScene(c, 1+c.Intn(3))
	spec.InitDefaults()
	for n := 0; n < 4; n++ {
		v := randView(c.Rand, 14)
		if i%10 == 0 && n == 0 { // large
			v.Width, v.Height = 1+c.Intn(30), 100+c.Intn(1000)
			if c.Intn(2) == 0 {
				v.Width, v.Height = v.Height, v.Width
			}
		}
		before := cloneSpec(spec)
		sp := spec
		if v.DebugNormals != 0 && c.Intn(2) == 0 {
			// fog must not hide the debug view
			sp.Media = []api.Medium{media.ExpFog(1, Color{R: 1, G: 1, B: 1}, 100), media.Fog(0.5, 100, 2)}
		}
		if c.Intn(3) == 0 {
			// the view decides on debug modes, not the scene
			sp.DebugNormals = c.Intn(api.SpecMaxDebugNormals + 1)
			if c.Intn(2) == 0 {
				sp.DebugIsometricFOV, sp.DebugIsometricDir = uni(c.Rand, 1, 9), c.Intn(3)
			}
		}
		s := v.ApplyTo(sp)
		if msg := sameSpec(before, spec); msg != "" {
			c.Failf("applying a View to a Spec changed the original's %s", msg)
		}
		if s.Width != v.Width || s.Height != v.Height {
			c.Failf("view %+v gives size %dx%d", v, s.Width, s.Height)
			continue
		}
		allMedia(c, spec, v)
		img := tracer.Uniform(s.ImageFunc(), 1, s.Width, s.Height, false)
		if judgeView(c, "ApplyTo", img, rs, k, v) {
			c.Distinct(c.Name, n)
			if n == 0 {
				c.Sample("view %+v, pixel 0,0 = %.4g", v, img[0][0])
			}
		}
	}
}

// ---- server

type client struct{ addr string }

var portMu sync.Mutex

// startServer serves spec on a free loopback port.
func startServer(spec api.Spec) client {
	for try := 0; ; try++ {
		portMu.Lock()
		l, err := net.Listen("tcp", "127.0.0.1:0")
		must(err)
		addr := l.Addr().String()
		l.Close()
		portMu.Unlock()
		failed := make(chan error, 1)
		go func() { failed <- api.Serve(addr, spec) }()
		for k := 0; k < 400; k++ {
			select {
			case err := <-failed:
				if try > 5 {
					panic(err)
				}
				k = 1000
				continue
			default:
			}
			conn, err := net.DialTimeout("tcp", addr, time.Second)
			if err == nil {
				conn.Close()
				return client{addr}
			}
			time.Sleep(5 * time.Millisecond)
		}
		if try > 6 {
			panic("server does not come up")
		}
	}
}

type answer struct {
	status     int
	body       string // if not an image
	img        imagef.Image
	err        error
	start, end time.Time
}

var httpc = &http.Client{Transport: &http.Transport{MaxIdleConnsPerHost: 20}, Timeout: 200 * time.Second}

func (k client) do(ctx context.Context, path string, body []byte, post bool) (a answer) {
	a.start = time.Now()
	defer func() { a.end = time.Now() }()
	method := "GET"
	if post {
		method = "POST"
	}
	req, err := http.NewRequestWithContext(ctx, method, "http://"+k.addr+path, bytes.NewReader(body))
	must(err)
	resp, err := httpc.Do(req)
	if err != nil {
		a.err = err
		return a
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	a.status, a.err = resp.StatusCode, err
	if err != nil {
		return a
	}
	if resp.StatusCode != 200 || path == "/cancel" {
		a.body = string(b)
		return a
	}
	a.err = gob.NewDecoder(bytes.NewReader(b)).Decode(&a.img)
	return a
}

func (k client) view(path string, v api.View) answer {
	b, err := json.Marshal(v)
	must(err)
	if len(b)%3 == 0 {
		// the same in a more spacious form
		b = bytes.Replace(b, []byte(","), []byte(strings.Repeat(" ", 300)+",\n\t"), -1)
	}
	return k.do(context.Background(), path, b, len(b)%2 == 0)
}

func (k client) cancel() answer { return k.do(context.Background(), "/cancel", nil, false) }

// mustImage: the request has to be answered with an image
func mustImage(c *C, what string, a answer, rs *rScene, k rCam, v api.View) {
	if a.err != nil || a.status != 200 {
		c.Failf("%s %+v: no image but status %d, %q, error %v", what, v, a.status, a.body, a.err)
		return
	}
	if judgeView(c, what, a.img, rs, k, v) {
		c.Count("images judged", 1)
		c.Distinct(what, v)
	}
}

func (k client) bakeRetry(v api.View, d time.Duration) answer {
	deadline := time.Now().Add(d)
	for {
		a := k.view("/bake", v)
		if a.status == 200 || time.Now().After(deadline) {
			return a
		}
		time.Sleep(5 * time.Millisecond)
	}
}

func serverSequential(c *C) {
	rs, spec, k := apiScene(c, 1+c.Intn(2))
	spec.InitDefaults()
	cl := startServer(spec)
	v := randView(c.Rand, 20)
	maybeBusy := false // a client went away during a bake: the server may be busy with it, also much later
	for n := 0; n < 25; n++ {
		switch c.Intn(5) {
		case 0:
			v = randView(c.Rand, 20)
		case 1, 2: // an other view that is very much the same
			switch c.Intn(7) {
			case 0:
				v.CamYaw += 0.1
			case 1:
				v.CamPitch -= 0.1
			case 2:
				v.CamPos[c.Intn(3)] += 0.5
			case 3:
				v.DebugNormals = (v.DebugNormals + 1 + c.Intn(2)) % 3
			case 4:
				v.DebugIsometric = !v.DebugIsometric
				if v.DebugIsometricFOV == 0 {
					v.DebugIsometricFOV = logUni(c.Rand, 2, 30)
				}
			case 5:
				v.DebugIsometricDir = (v.DebugIsometricDir + 1 + c.Intn(2)) % 3
			case 6:
				if v.DebugIsometricFOV == 0 {
					v.DebugIsometricFOV = 3
				}
				v.DebugIsometricFOV *= 1.5
			}
			c.Count("view details changed", 1)
			if c.Intn(2) == 0 {
				a := cl.view("/bake", v)
				if maybeBusy && a.status != 200 {
					a = cl.bakeRetry(v, 60*time.Second)
				}
				mustImage(c, "bake", a, rs, k, v)
				continue
			}
		}
		switch op := c.Intn(8); op {
		case 0, 1:
			mustImage(c, "preview", cl.view("/preview", v), rs, k, v)
		case 2, 3, 4:
			a := cl.view("/bake", v)
			if maybeBusy && a.status != 200 {
				a = cl.bakeRetry(v, 60*time.Second)
			}
			mustImage(c, "bake", a, rs, k, v)
		case 5:
			a := cl.cancel()
			if a.err != nil || a.status != 200 {
				c.Failf("cancel: status %d %q %v", a.status, a.body, a.err)
			}
			c.Count("cancels", 1)
		case 6:
			path := []string{"/preview", "/bake"}[c.Intn(2)]
			bad := []string{"", "{", `{"Width" 5}`, `{"Width":"ten"}`, `[1,2]`, `{"Width":10,`, "\x00\x01", `{"CamPos":[1,2`}[c.Intn(8)]
			a := cl.do(context.Background(), path, []byte(bad), c.Intn(2) == 0)
			c.Eval(1)
			c.Count("malformed requests", 1)
			if a.err == nil && a.status == 200 && len(a.img) > 0 {
				c.Failf("%s with body %q is answered with an image", path, bad)
			}
			if a.status == 200 && a.err == nil {
				c.Failf("%s with body %q is answered with status 200", path, bad)
			}
		case 7:
			if c.Intn(2) == 0 {
				// a view that can not be rendered must not take the server down
				b := v
				switch c.Intn(3) {
				case 0:
					b.Width = -5
				case 1:
					b.Height = -7
				case 2:
					b.DebugIsometric, b.DebugIsometricFOV, b.DebugIsometricDir = true, 4, 17
				}
				path := []string{"/preview", "/bake"}[c.Intn(2)]
				a := cl.view(path, b)
				c.Count("impossible views", 1)
				if a.err == nil && a.status == 200 && len(a.img) > 0 {
					c.Failf("%s of impossible view %+v gives an image", path, b)
				}
			} else {
				// client gives up
				ctx, cancel := context.WithTimeout(context.Background(), time.Duration(c.Intn(3000))*time.Microsecond)
				b, _ := json.Marshal(v)
				cl.do(ctx, "/bake", b, false)
				cancel()
				maybeBusy = true
				c.Count("clients gone", 1)
			}
		}
	}
	a := cl.bakeRetry(v, 60*time.Second)
	mustImage(c, "final bake", a, rs, k, v)
}

// logCam logs all sensor positions asked for.
type logCam struct {
	orig  *rCam
	mu    sync.Mutex
	log   [][2]float64
	delay time.Duration
	calls int64
}

func (k *logCam) RayFrom(ctx *tracer.Ctx, u, v float64) *Ray {
	k.mu.Lock()
	k.log = append(k.log, [2]float64{u, v})
	k.mu.Unlock()
	if atomic.AddInt64(&k.calls, 1)%64 == 0 && k.delay != 0 {
		time.Sleep(k.delay)
	}
	r := ctx.Ray()
	r.Start, r.Dir = k.orig.ray(u, v)
	return r
}

func (k *logCam) take() [][2]float64 {
	k.mu.Lock()
	defer k.mu.Unlock()
	l := k.log
	k.log = nil
	return l
}

// serverProgressive: successive bakes of the same view give the mean of all samples so far.
func serverProgressive(c *C) {
	f := smoothTex(c.Rand)
	base := rCam{fov: uni(c.Rand, 0.5, 1.8), m: ident}
	cam := &logCam{orig: &base}
	spec := api.Spec{Objects: []api.Object{{Interface: objects.Backdrop(materials.Flat(texture.Func(f)))}}, Camera: cam, Recursion: 1}
	spec.InitDefaults()
	cl := startServer(spec)
	var v api.View
	var all [][2]float64
	bakes := 0
	for n := 0; n < 9; n++ {
		if n == 0 || c.Intn(4) == 0 {
			nv := api.View{Width: 1 + c.Intn(24), CamPos: rvec(c.Rand, 3), CamYaw: uni(c.Rand, -3, 3), CamPitch: uni(c.Rand, -1, 1), AntiAlias: c.Intn(4) > 0}
			nv.Height = nv.Width + c.Intn(12) // samples stay within their pixel
			if n > 0 && c.Intn(2) == 0 {
				nv = v                          // only a detail changes
				dx := logUni(c.Rand, 1e-6, 0.5) // also the smallest of changes is an other view
				switch c.Intn(5) {
				case 0:
					nv.CamYaw += dx
				case 1:
					nv.CamPos[c.Intn(3)] += dx
				case 2:
					nv.Height++
				case 3:
					nv.CamPitch -= dx
				case 4:
					nv.AntiAlias = !nv.AntiAlias
				}
				c.Count("view details changed", 1)
			}
			v, all, bakes = nv, nil, 0
		}
		if c.Intn(4) == 0 {
			// a preview in between does not disturb
			p := v
			p.Width, p.Height, p.CamYaw = 1+v.Width/2, 1+v.Height/2, v.CamYaw+1
			cl.view("/preview", p)
		}
		if c.Intn(6) == 0 {
			// nothing to cancel
			cl.cancel()
		}
		cam.take()
		a := cl.view("/bake", v)
		log := cam.take()
		if a.err != nil || a.status != 200 {
			c.Failf("bake %+v: status %d %q %v", v, a.status, a.body, a.err)
			return
		}
		if !checkSize(c, a.img, v.Width, v.Height) {
			return
		}
		if len(log) < v.Width*v.Height {
			c.Failf("bake %d of %dx%d image took only %d new samples", bakes, v.Width, v.Height, len(log))
		}
		off := 0 // samples away from the middle of their pixel
		for _, p := range log {
			ix, iy := pixOf(v.Width, v.Height, p[0], p[1])
			u, w := pixCenter(v.Width, v.Height, clampi(ix, 0, v.Width-1), clampi(iy, 0, v.Height-1))
			if math.Max(math.Abs(p[0]-u), math.Abs(p[1]-w))*float64(v.Width) > 1e-6 {
				off++
			}
		}
		c.Eval(1)
		if !v.AntiAlias && off > 0 {
			c.Failf("bake %+v without anti-aliasing took %d of %d samples away from the pixel's middle", v, off, len(log))
		}
		if v.AntiAlias && len(log) >= 16 && off < len(log)/4 {
			c.Failf("anti-aliased bake %+v took only %d of %d samples away from the pixel's middle", v, off, len(log))
		}
		all = append(all, log...)
		bakes++
		// mean per pixel
		sum := imagef.MakeImage(v.Width, v.Height)
		cnt := make(map[[2]int]int)
		kv := base.view(v)
		for _, p := range all {
			ix, iy := pixOf(v.Width, v.Height, p[0], p[1])
			ix, iy = clampi(ix, 0, v.Width-1), clampi(iy, 0, v.Height-1)
			_, d := kv.ray(p[0], p[1])
			sum[iy][ix] = cadd(sum[iy][ix], f(d))
			cnt[[2]int{ix, iy}]++
		}
		bad := 0
		for iy := range sum {
			for ix := range sum[iy] {
				want := cmul(1/float64(cnt[[2]int{ix, iy}]), sum[iy][ix])
				c.Eval(1)
				if !(cdiff(a.img[iy][ix], want) < 1e-9) {
					bad++
					if bad == 1 {
						c.Failf("bake %d of view %+v: pixel %d,%d is %v, but the mean of its %d samples is %v", bakes, v, ix, iy, a.img[iy][ix], cnt[[2]int{ix, iy}], want)
					}
				}
			}
		}
		if bakes > 1 {
			c.Count("progressive bakes", 1)
		}
		c.Distinct(c.Name, n)
		c.Count("samples logged", len(log))
	}
}

type logged struct {
	kind string
	v    api.View
	a    answer
}

func serverConcurrent(c *C) {
	rs, spec, k := apiScene(c, 1+c.Intn(2))
	spec.InitDefaults()
	cl := startServer(spec)
	withCancel := c.Intn(2) == 0
	views := []api.View{}
	for i := 0; i < 4; i++ {
		views = append(views, randView(c.Rand, 40))
	}
	const nc = 6
	logs := make([][]logged, nc)
	var wg sync.WaitGroup
	for i := 0; i < nc; i++ {
		r := rand.New(rand.NewSource(c.Int63()))
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for n := 0; n < 10; n++ {
				v := views[r.Intn(len(views))]
				kind := "/bake"
				switch {
				case r.Intn(3) == 0:
					kind = "/preview"
				case withCancel && r.Intn(3) == 0:
					kind = "/cancel"
				}
				var a answer
				if kind == "/cancel" {
					a = cl.cancel()
				} else {
					a = cl.view(kind, v)
				}
				logs[i] = append(logs[i], logged{kind, v, a})
				if r.Intn(3) == 0 {
					time.Sleep(time.Duration(r.Intn(3000)) * time.Microsecond)
				}
			}
		}(i)
	}
	wg.Wait()
	var all []logged
	for _, l := range logs {
		all = append(all, l...)
	}
	for _, e := range all {
		switch {
		case e.kind == "/cancel":
			if e.a.err != nil || e.a.status != 200 {
				c.Failf("cancel: status %d %q %v", e.a.status, e.a.body, e.a.err)
			}
			c.Count("cancels", 1)
		case e.kind == "/preview" || e.a.status == 200:
			mustImage(c, e.kind, e.a, rs, k, e.v)
		default:
			// rejected: only because of another bake, or because it was canceled
			if e.a.err != nil || e.a.status != 500 {
				c.Failf("bake %+v: status %d %q %v", e.v, e.a.status, e.a.body, e.a.err)
				continue
			}
			busy := false
			for _, o := range all {
				if o.a.end != e.a.end && o.kind != "/preview" && (o.a.status == 200 || o.kind == "/cancel") && o.a.start.Before(e.a.end) && o.a.end.After(e.a.start) {
					busy = true
				}
			}
			if withCancel {
				// a canceled bake may itself report an error, and still be what others wait for
				for _, o := range all {
					busy = busy || (o.kind == "/cancel")
				}
			}
			c.Count("bakes rejected while baking", 1)
			c.Eval(1)
			if !busy {
				c.Failf("bake %+v was rejected (%q) although no other bake was going on", e.v, e.a.body)
			}
		}
	}
	mustImage(c, "final bake", cl.bakeRetry(views[0], 60*time.Second), rs, k, views[0])
}

// serverCancel: a bake canceled halfway, and a new one (of the same or another view) right behind.
func serverCancel(c *C) {
	f := smoothTex(c.Rand)
	base := rCam{fov: uni(c.Rand, 0.5, 1.8), m: ident}
	cam := &logCam{orig: &base, delay: time.Duration(500+c.Intn(1500)) * time.Microsecond}
	spec := api.Spec{Objects: []api.Object{{Interface: objects.Backdrop(materials.Flat(texture.Func(f)))}}, Camera: cam, Recursion: 1}
	spec.InitDefaults()
	cl := startServer(spec)
	judge := func(what string, a answer, v api.View, must bool) {
		c.Eval(1)
		if a.err != nil || a.status != 200 {
			if must || a.err != nil || a.status != 500 {
				c.Failf("%s %+v: status %d %q %v", what, v, a.status, a.body, a.err)
			}
			return
		}
		if !checkSize(c, a.img, v.Width, v.Height) {
			return
		}
		kv := base.view(v)
		for iy := range a.img {
			for ix := range a.img[iy] {
				u, w := pixCenter(v.Width, v.Height, ix, iy)
				_, d := kv.ray(u, w)
				if !(cdiff(a.img[iy][ix], f(d)) < 1e-9) {
					c.Failf("%s %+v: pixel %d,%d is %v, want %v", what, v, ix, iy, a.img[iy][ix], f(d))
					return
				}
			}
		}
		c.Count("images judged", 1)
	}
	rv := func() api.View {
		return api.View{Width: 20 + c.Intn(60), Height: 20 + c.Intn(60), CamYaw: uni(c.Rand, -3, 3), CamPitch: uni(c.Rand, -1, 1)}
	}
	v := rv()
	for n := 0; n < 5; n++ {
		first := make(chan answer, 1)
		v1 := v
		atomic.StoreInt64(&cam.calls, 0)
		go func() { first <- cl.view("/bake", v1) }()
		for t := 0; atomic.LoadInt64(&cam.calls) < 100 && t < 5000; t++ {
			time.Sleep(200 * time.Microsecond)
		}
		if c.Intn(2) == 0 {
			// second bake while the first is busy: must not mix with it
			b := cl.view("/bake", v)
			if b.status != 200 {
				if !strings.Contains(b.body, "bak") && b.err == nil {
					c.Count("other rejection texts", 1)
				}
				c.Count("bakes rejected while baking", 1)
			}
			judge("bake during bake", b, v, false)
		}
		a := cl.cancel()
		if a.err != nil || a.status != 200 {
			c.Failf("cancel: status %d %q %v", a.status, a.body, a.err)
		}
		if c.Intn(2) == 0 {
			v = rv()
		}
		judge("bake after cancel", cl.view("/bake", v), v, true)
		c.Count("bakes after cancel", 1)
		if c.Intn(2) == 0 {
			judge("second bake after cancel", cl.view("/bake", v), v, true)
		}
		judge("canceled bake", <-first, v1, false)
		c.Distinct(c.Name, n)
		if c.Intn(2) == 0 {
			judge("bake after canceled bake ended", cl.view("/bake", v), v, true)
		}
		cam.take()
	}
}
