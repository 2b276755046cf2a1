From 2a414b7a2f38408b4407af82fd5f6a125b164b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:52 +0000
Subject: [PATCH 01/20] fix: initialise the anti-aliasing sequence per pixel
 and pass

Ctx.Init never initialised Ctx.AA, so every anti-aliased sample of every
pixel was taken at the same sub-pixel offset (0, -1/6): no anti-aliasing.
Use bases different from those of the shading sequences so that the
sub-pixel position and light samples are not correlated.
---
 tracer/ctx.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tracer/ctx.go b/tracer/ctx.go
index f932c68..371ae64 100644
--- a/tracer/ctx.go
+++ b/tracer/ctx.go
@@ -50,7 +50,7 @@ func NewCtx(numPix int) *Ctx {
 		sequence2: sequence.NewHalton(5, 7, 1, sh),
 		sequence3: sequence.PseudoRandom(),
 		sequenceL: sequence.NewHalton(5, 7, 11, sh),
-		AA:        sequence.NewHalton(2, 3, 1, sh),
+		AA:        sequence.NewHalton(11, 13, 1, sh), // bases not used elsewhere, to avoid correlations
 		rays:      pool{new: func() interface{} { return new(Ray) }},
 	}
 
@@ -69,6 +69,7 @@ func (c *Ctx) Init(pixel, pass int) {
 	c.sequence2.Init(pixel, pass)
 	c.sequence3.Init(pixel, pass)
 	c.sequenceL.Init(pixel, pass)
+	c.AA.Init(pixel, pass)
 }
 
 func (c *Ctx) Generate2() (u, v float64) {
-- 
2.43.0


From 678695c8ccea7ea83d1b6ecd6136d2aa4398b14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:06 +0000
Subject: [PATCH 02/20] fix: Tree with few objects must report a miss when no
 leaf is hit

A tree with at most maxFacePerLeaf objects returned T=9e99 with a nil
Material when the ray entered the bounding box but missed every leaf.
---
 tracer/objects/tree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tracer/objects/tree.go b/tracer/objects/tree.go
index f4aef4f..13f0f89 100644
--- a/tracer/objects/tree.go
+++ b/tracer/objects/tree.go
@@ -94,6 +94,9 @@ func (n *node) Intersect(r *Ray) HitRecord {
 				front = frag
 			}
 		}
+		if front.T == 9e99 {
+			return HitRecord{} // nothing hit
+		}
 		return front
 	}
 
-- 
2.43.0


From e98dded74cc19c3a8d3fac1df02b6aa9e41e6663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:19 +0000
Subject: [PATCH 03/20] fix: Tree bounding boxes must enclose their contents

Bounds were rounded to the nearest float32, which may shrink them:
objects then stick out of the box and rays to them are lost.
---
 tracer/objects/tree.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/tracer/objects/tree.go b/tracer/objects/tree.go
index 13f0f89..b5463b3 100644
--- a/tracer/objects/tree.go
+++ b/tracer/objects/tree.go
@@ -1,6 +1,7 @@
 package objects
 
 import (
+	"math"
 	"sort"
 
 	"github.com/barnex/bruteray/geom"
@@ -185,9 +186,10 @@ type boundingBoxf struct {
 }
 
 func boundingBoxToF(b BoundingBox) boundingBoxf {
+	// Round outwards, so that the box still encloses the original after loss of precision.
 	return boundingBoxf{
-		Min: vecf(&b.Min),
-		Max: vecf(&b.Max),
+		Min: vecf(&b.Min, -inf),
+		Max: vecf(&b.Max, +inf),
 	}
 }
 
@@ -198,12 +200,16 @@ func (b *boundingBoxf) to64() BoundingBox {
 	}
 }
 
-func vecf(a *geom.Vec) [3]float32 {
-	return [3]float32{
-		float32(a[0]),
-		float32(a[1]),
-		float32(a[2]),
+// vecf converts to single precision, rounding towards the given direction (-inf or +inf).
+func vecf(a *geom.Vec, towards float64) [3]float32 {
+	var f [3]float32
+	for i, a := range a {
+		f[i] = float32(a)
+		if (towards < 0 && float64(f[i]) > a) || (towards > 0 && float64(f[i]) < a) {
+			f[i] = math.Nextafter32(f[i], float32(towards))
+		}
 	}
+	return f
 }
 
 func toVecf(a [3]float32) Vec {
-- 
2.43.0


From 1a0bc5da8bf01c274390a93a60184f8f1f9cb096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:23 +0000
Subject: [PATCH 04/20] fix: Box must not panic on hit points with large
 round-off error

Hit points far away from the ray start (e.g. on a huge box used as
ground) are more than 1e-8 off the surface, which caused a panic.
---
 tracer/objects/box.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/tracer/objects/box.go b/tracer/objects/box.go
index cb908c3..4e38a2d 100644
--- a/tracer/objects/box.go
+++ b/tracer/objects/box.go
@@ -1,7 +1,6 @@
 package objects
 
 import (
-	"fmt"
 	"math"
 
 	. "github.com/barnex/bruteray/tracer/types"
@@ -62,7 +61,19 @@ func (b *box) normal(p Vec) Vec {
 			return unit[i]
 		}
 	}
-	panic(fmt.Sprint("box.normal", p, s.Min, s.Max))
+
+	// p may lie farther off the surface due to round-off, when far away from the ray start.
+	// Pick the closest face.
+	normal, dist := unit[0], inf
+	for i := range p {
+		if d := math.Abs(p[i] - s.Min[i]); d < dist {
+			dist, normal = d, unit[i].Mul(-1)
+		}
+		if d := math.Abs(p[i] - s.Max[i]); d < dist {
+			dist, normal = d, unit[i]
+		}
+	}
+	return normal
 }
 
 func approx(a, b float64) bool {
-- 
2.43.0


From e4b15a3ed0f4945d2b496f81c2500c00805c2bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:37 +0000
Subject: [PATCH 05/20] fix: Transformed must accept unbounded objects

Transforming an object with infinite bounds (Not, Backdrop, an infinite
cylinder) panicked with NaN in the transformed bounds.
---
 tracer/objects/transformed.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/tracer/objects/transformed.go b/tracer/objects/transformed.go
index 0392af8..9663a6a 100644
--- a/tracer/objects/transformed.go
+++ b/tracer/objects/transformed.go
@@ -1,6 +1,8 @@
 package objects
 
 import (
+	"math"
+
 	"github.com/barnex/bruteray/geom"
 	. "github.com/barnex/bruteray/tracer/types"
 )
@@ -63,6 +65,9 @@ func (o *transformed) Inside(p Vec) bool {
 }
 
 func transformBounds(orig BoundingBox, t *geom.AffineTransform) BoundingBox {
+	if orig.isInfinite() {
+		return infBox // transforming infinite coordinates would yield NaN
+	}
 	h := orig.hull()
 	for i := range h {
 		h[i] = t.TransformPoint(h[i])
@@ -70,6 +75,15 @@ func transformBounds(orig BoundingBox, t *geom.AffineTransform) BoundingBox {
 	return boundingBoxFromHull(h)
 }
 
+func (B BoundingBox) isInfinite() bool {
+	for i := range B.Min {
+		if math.IsInf(B.Min[i], 0) || math.IsInf(B.Max[i], 0) {
+			return true
+		}
+	}
+	return false
+}
+
 func (B BoundingBox) hull() []Vec {
 	a := B.Min
 	b := B.Max
-- 
2.43.0


From d22fde1e4e71ba064527c1a1fbac7449ad8bf4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:51 +0000
Subject: [PATCH 06/20] fix: camera with aperture must focus at focusDist

The plane in focus was at focusDist*focalLen (focal length depending on
field of view), rather than at focusDist as documented.
---
 tracer/cameras/projective.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tracer/cameras/projective.go b/tracer/cameras/projective.go
index 453ec86..9304ff4 100644
--- a/tracer/cameras/projective.go
+++ b/tracer/cameras/projective.go
@@ -78,7 +78,7 @@ func (c *projective) RayFrom(ctx *Ctx, u, v float64) *Ray {
 		c.focalLen,
 	}
 	if c.focusDist != 0 {
-		end = end.Mul(c.focusDist)
+		end = end.Mul(c.focusDist / c.focalLen) // on the plane at distance focusDist
 	}
 	r.Dir = end.Sub(r.Start).Normalized()
 	return r
-- 
2.43.0


From c1d8e4b2973b18ac7d8acdd716f0ed960203acc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:04 +0000
Subject: [PATCH 07/20] fix: fog must also apply to exactly horizontal rays

A horizontal ray inside the fog yielded NaN for the intersection with the
fog's half space, and was not attenuated at all.
---
 tracer/media/expfog.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tracer/media/expfog.go b/tracer/media/expfog.go
index 6b84033..ec20d60 100644
--- a/tracer/media/expfog.go
+++ b/tracer/media/expfog.go
@@ -49,6 +49,12 @@ func intersectIntervals(start1, end1, start2, end2 float64) (start, end float64)
 func intersectHalfSpace(height float64, r *Ray) (ten, tex float64) {
 	rs := r.Start[1] - height
 	rd := r.Dir[1]
+	if rd == 0 { // horizontal ray: entirely inside or outside
+		if rs < 0 {
+			return math.Inf(-1), math.Inf(1)
+		}
+		return 0, 0
+	}
 	ten = -rs / rd
 	tex = -r.Dir[1] / 0 // inf with same same as
 	if ten > tex {
-- 
2.43.0


From fb35e7f5541dcf1a71f94670be9cdc303edc8e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:16 +0000
Subject: [PATCH 08/20] fix: bloom with an empty kernel must not turn the image
 into NaN

The star kernel is all zeros for a radius up to 3 pixels, normalizing it
divided by zero.
---
 imagef/post/convolution.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/imagef/post/convolution.go b/imagef/post/convolution.go
index 2d617cb..1e16914 100644
--- a/imagef/post/convolution.go
+++ b/imagef/post/convolution.go
@@ -23,6 +23,9 @@ func AddConvolution(dst, src, kern imagef.Image, amplitude, offset float64) imag
 			sum += (c.R + c.G + c.B) / 3
 		}
 	}
+	if sum == 0 { // empty kernel
+		return dst
+	}
 	k := kern.Copy()
 	factor := amplitude / sum
 	for iy := range k {
-- 
2.43.0


From d9c64450d73b7199ff64c7586c93f8f118b4582d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:29 +0000
Subject: [PATCH 09/20] fix: ppm.Encode48BE must report write errors

---
 imagef/ppm/ppm.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/imagef/ppm/ppm.go b/imagef/ppm/ppm.go
index 34b3304..79e7671 100644
--- a/imagef/ppm/ppm.go
+++ b/imagef/ppm/ppm.go
@@ -41,11 +41,17 @@ func Encode48BE(w io.Writer, img imagef.Image) error {
 		for j := range img[i] {
 			c := img[i][j]
 			encodeUint16BE(buf, uint16(trunc(c.R)))
-			w.Write(buf)
+			if _, err := w.Write(buf); err != nil {
+				return err
+			}
 			encodeUint16BE(buf, uint16(trunc(c.G)))
-			w.Write(buf)
+			if _, err := w.Write(buf); err != nil {
+				return err
+			}
 			encodeUint16BE(buf, uint16(trunc(c.B)))
-			w.Write(buf)
+			if _, err := w.Write(buf); err != nil {
+				return err
+			}
 		}
 	}
 	return nil
-- 
2.43.0


From 25dcf0ed5e6c1868bf503c2676e071159b710125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:41 +0000
Subject: [PATCH 10/20] fix: Render must report errors flushing the .ppm output

---
 api/render.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/api/render.go b/api/render.go
index f24ccb9..63d5321 100644
--- a/api/render.go
+++ b/api/render.go
@@ -131,6 +131,8 @@ func savePPM(fname string, img imagef.Image) error {
 	}
 	defer f.Close()
 	w := bufio.NewWriter(f)
-	defer w.Flush()
-	return ppm.EncodeAscii16(w, img)
+	if err := ppm.EncodeAscii16(w, img); err != nil {
+		return err
+	}
+	return w.Flush()
 }
-- 
2.43.0


From 0f8ba2b268a448a37a39c942cacd89b740a71b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:20 +0000
Subject: [PATCH 11/20] fix: ply: accept a last line without trailing newline

---
 tracer/objects/ply/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tracer/objects/ply/parser.go b/tracer/objects/ply/parser.go
index f3a9d0f..08b4bfa 100644
--- a/tracer/objects/ply/parser.go
+++ b/tracer/objects/ply/parser.go
@@ -97,6 +97,9 @@ type parser struct {
 
 func (p *parser) readLine() string {
 	line, err := p.b.ReadString('\n')
+	if err == io.EOF && line != "" {
+		err = nil // last line, without trailing newline
+	}
 	p.check(err)
 	p.lastLine = line
 	return strings.TrimSpace(line)
-- 
2.43.0


From 028d2afba8852fa5279379c49e9635747e38772a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:33 +0000
Subject: [PATCH 12/20] fix: ply, obj: reject faces referring to non-existing
 vertices

The parsers returned such faces without error, and building the mesh panicked.
---
 tracer/objects/obj/parser.go | 14 ++++++++++++++
 tracer/objects/ply/parser.go |  7 +++++++
 2 files changed, 21 insertions(+)

diff --git a/tracer/objects/obj/parser.go b/tracer/objects/obj/parser.go
index a86093d..9f0a32b 100644
--- a/tracer/objects/obj/parser.go
+++ b/tracer/objects/obj/parser.go
@@ -23,6 +23,7 @@ func ParseFile(fname string) (o Obj, e error) {
 	}()
 	p := &parser{obj: Obj{Faces: make(map[string][][]int32)}}
 	p.parseFile(fname)
+	p.checkIndices()
 	return p.obj, nil
 }
 
@@ -48,6 +49,19 @@ func (p *parser) parseFile(fname string) {
 	p.check(scanner.Err())
 }
 
+// checkIndices checks that all faces refer to existing vertices.
+func (p *parser) checkIndices() {
+	for _, faces := range p.obj.Faces {
+		for _, f := range faces {
+			for _, idx := range f {
+				if int(idx) >= len(p.obj.Vertices) {
+					p.errorf("invalid face index: %v, have %v vertices", idx+1, len(p.obj.Vertices))
+				}
+			}
+		}
+	}
+}
+
 func (p *parser) parseLine(l string) {
 	fields := strings.Fields(l)
 	if len(fields) == 0 {
diff --git a/tracer/objects/ply/parser.go b/tracer/objects/ply/parser.go
index 08b4bfa..ae3aeb8 100644
--- a/tracer/objects/ply/parser.go
+++ b/tracer/objects/ply/parser.go
@@ -87,6 +87,13 @@ func (p *parser) parse() ([]geom.Vec, [][3]int) {
 		}
 
 	}
+	for _, f := range faces {
+		for _, idx := range f {
+			if idx < 0 || idx >= numVertex {
+				p.panicf("face index out of range: %v, have %v vertices", idx, numVertex)
+			}
+		}
+	}
 	return vertex, faces
 }
 
-- 
2.43.0


From eeba3d4963604efe58f7041ea7a970ab6592e2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:46 +0000
Subject: [PATCH 13/20] fix: obj: accept comments without space after the #

---
 tracer/objects/obj/parser.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tracer/objects/obj/parser.go b/tracer/objects/obj/parser.go
index 9f0a32b..745e500 100644
--- a/tracer/objects/obj/parser.go
+++ b/tracer/objects/obj/parser.go
@@ -64,7 +64,7 @@ func (p *parser) checkIndices() {
 
 func (p *parser) parseLine(l string) {
 	fields := strings.Fields(l)
-	if len(fields) == 0 {
+	if len(fields) == 0 || strings.HasPrefix(fields[0], "#") { // empty or comment
 		return
 	}
 
@@ -78,7 +78,6 @@ func (p *parser) parseLine(l string) {
 		p.parseF(args)
 	case "usemtl":
 		p.parseUsemtl(args)
-	case "#":
 	case "o":
 	case "vn":
 	case "vt":
-- 
2.43.0


From d3315d4a6cedd1c83d39719d8dd2842012288c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:06 +0000
Subject: [PATCH 14/20] fix: light must not leak through walls behind a
 transparent surface

Scene.Occlude only looked at the first surface of each object. For an
object composed of several parts (e.g. a Tree or And of a wall with a
window pane), an opaque surface behind a transparent one cast no shadow.
---
 tracer/scene.go | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/tracer/scene.go b/tracer/scene.go
index 674eb8a..0c08654 100644
--- a/tracer/scene.go
+++ b/tracer/scene.go
@@ -119,18 +119,35 @@ func (s *Scene) ObjectsAndLights() []Object {
 
 func (s *Scene) Occlude(r *Ray, len float64, orig Color) Color {
 	for _, o := range s.objects { // range over objects only, lights are considered transparent
-		f := o.Intersect(r)
-		if f.T > 0 && f.T < len {
-			if trans, ok := f.Material.(TransparentMaterial); ok {
-				orig = trans.Filter(r, f, orig)
-			} else {
-				return Color{}
-			}
+		orig = occlude(o, r, len, orig)
+		if orig == (Color{}) {
+			break // fully occluded
 		}
 	}
 	return orig
 }
 
+// occlude attenuates orig by all surfaces of o between the start of r and len.
+func occlude(o Object, r *Ray, len float64, orig Color) Color {
+	start := r.Start
+	defer func() { r.Start = start }()
+
+	f := o.Intersect(r)
+	for ttl := 100; f.T > 0 && f.T < len && ttl != 0; ttl-- { // time-to-live: see objects.And
+		trans, ok := f.Material.(TransparentMaterial)
+		if !ok {
+			return Color{}
+		}
+		orig = trans.Filter(r, f, orig)
+		// o may have other surfaces behind the transparent one
+		deltaT := f.T + Tiny
+		len -= deltaT
+		r.Start = r.At(deltaT)
+		f = o.Intersect(r)
+	}
+	return orig
+}
+
 var blackMat Material = (*black)(nil)
 
 // TODO: likewise for lights: per object: cache an occluding object for early return on shadows
-- 
2.43.0


From af7d115c3260549c557ff91187d49a8f53af1fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:06 +0000
Subject: [PATCH 15/20] fix: server: a canceled or failed bake must not disturb
 later bakes

After /cancel, a next /bake used the same sampler as the bake still
running (data race, mixed up images), and the end of the canceled bake
marked the new one as finished. A /bake that panicked on a bad View made
the server report "already baking" forever.
---
 api/server.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/api/server.go b/api/server.go
index 8a48748..d399c7c 100644
--- a/api/server.go
+++ b/api/server.go
@@ -95,19 +95,22 @@ func (s *server) renderPreview(v View) imagef.Image {
 }
 
 func (s *server) renderView(v View) (imagef.Image, error) {
-	cancel, err := s.prepareBakery(v)
+	smplr, num, cancel, err := s.prepareBakery(v)
 	if err != nil {
 		return nil, err
 	}
-	defer func() { // wrong
+	defer func() {
 		s.mu.Lock()
 		defer s.mu.Unlock()
+		if s.cancel != cancel {
+			return // canceled in the meanwhile, state may belong to an other bake
+		}
 		s.cancel = nil
 		s.smplrNum++
 	}()
 
-	s.smplr.SampleWithCancel(s.smplrNum, cancel)
-	img := s.smplr.Image()
+	smplr.SampleWithCancel(num, cancel)
+	img := smplr.Image()
 
 	if img == nil {
 		return nil, errors.New("baking cancelled")
@@ -115,14 +118,13 @@ func (s *server) renderView(v View) (imagef.Image, error) {
 	return img, nil
 }
 
-func (s *server) prepareBakery(v View) (chan struct{}, error) {
+func (s *server) prepareBakery(v View) (smplr *tracer.Sampler, num int, cancel chan struct{}, err error) {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
 	if s.cancel != nil {
-		return nil, errors.New("already baking")
+		return nil, 0, nil, errors.New("already baking")
 	}
-	s.cancel = make(chan struct{})
 
 	if s.smplr == nil || s.smplrView != v {
 		spec := v.ApplyTo(s.spec)
@@ -130,8 +132,9 @@ func (s *server) prepareBakery(v View) (chan struct{}, error) {
 		s.smplrView = v
 		s.smplrNum = 1
 	}
+	s.cancel = make(chan struct{}) // only once the above did not panic on a bad View
 
-	return s.cancel, nil
+	return s.smplr, s.smplrNum, s.cancel, nil
 }
 
 func (s *server) handleCancel(w http.ResponseWriter, r *http.Request) error {
@@ -142,6 +145,7 @@ func (s *server) handleCancel(w http.ResponseWriter, r *http.Request) error {
 	}
 	close(s.cancel)
 	s.cancel = nil
+	s.smplr = nil // may still be in use by the canceled bake
 	return nil
 }
 
-- 
2.43.0


From b461fcf20cb5b5902c2972e3320bc85d4c702a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:36 +0000
Subject: [PATCH 16/20] fix: rays starting exactly on a bounding box must not
 miss its contents

---
 tracer/objects/boundingbox.go | 27 ++++++++++++++++++---------
 tracer/objects/tree.go        |  2 +-
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/tracer/objects/boundingbox.go b/tracer/objects/boundingbox.go
index 521a14b..033851b 100644
--- a/tracer/objects/boundingbox.go
+++ b/tracer/objects/boundingbox.go
@@ -102,6 +102,19 @@ func safeAverage(a, b Vec) Vec {
 }
 
 func (s *BoundingBox) intersect(r *Ray) float64 {
+	ten, tex := s.intersect2(r)
+	if ten > tex {
+		return 0
+	}
+	if ten < 0 {
+		return tex
+	}
+	return ten
+}
+
+// intersect2 returns where r enters and exits the box.
+// The box is missed if the exit comes before the entry.
+func (s *BoundingBox) intersect2(r *Ray) (enter, exit float64) {
 	idirx := 1 / r.Dir[X]
 	idiry := 1 / r.Dir[Y]
 	idirz := 1 / r.Dir[Z]
@@ -127,18 +140,14 @@ func (s *BoundingBox) intersect(r *Ray) float64 {
 	tzex := util.Max(tminz, tmaxz)
 	ten := max3(txen, tyen, tzen)
 	tex := min3(txex, tyex, tzex)
-
-	if ten > tex {
-		return 0
-	}
-	if ten < 0 {
-		return tex
-	}
-	return ten
+	return ten, tex
 }
 
+// intersects returns true if r passes through the box,
+// also if r starts exactly on the surface of the box.
 func (s *BoundingBox) intersects(r *Ray) bool {
-	return s.intersect(r) > 0
+	ten, tex := s.intersect2(r)
+	return !(ten > tex) && (ten > 0 || tex > 0)
 }
 
 func max3(x, y, z float64) float64 {
diff --git a/tracer/objects/tree.go b/tracer/objects/tree.go
index b5463b3..cdad5ec 100644
--- a/tracer/objects/tree.go
+++ b/tracer/objects/tree.go
@@ -255,7 +255,7 @@ func intersectAABBf(s *boundingBoxf, r *Ray) float64 {
 	if ten > tex {
 		return 0
 	}
-	if ten < 0 {
+	if ten <= 0 {
 		return tex
 	}
 	return ten
-- 
2.43.0


From 95572142e3b02ac58172363b5ee2567d13b75a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:54 +0000
Subject: [PATCH 17/20] fix: IsoSurface normals must account for the size of
 the surface

The slope was computed per unit u, v rather than per unit x, z, so that
normals were only right for surfaces of size 1 x 1.
---
 tracer/objects/isosurface.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tracer/objects/isosurface.go b/tracer/objects/isosurface.go
index cddcc05..d882f2d 100644
--- a/tracer/objects/isosurface.go
+++ b/tracer/objects/isosurface.go
@@ -103,7 +103,8 @@ func (f *isoSurface) partialAtUV(uv Vec2) Vec2 {
 // TODO: precompute and store
 func (f *isoSurface) normalAtUV(uv Vec2) Vec {
 	diff := f.partialAtUV(uv)
-	return Vec{-diff[0], 1, -diff[1]}
+	// u = x/dx, v = z/dz
+	return Vec{-diff[0] / f.bounds.Max[X], 1, -diff[1] / f.bounds.Max[Z]}
 }
 
 func (o *isoSurface) localUV(p Vec) Vec2 {
-- 
2.43.0


From de5f19db9e4236f3d30c498ab2be203192d48df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:41 +0000
Subject: [PATCH 18/20] fix: bruteray-watch must not crash when the program can
 not be started

---
 cmd/bruteray-watch/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/bruteray-watch/main.go b/cmd/bruteray-watch/main.go
index 9c15d27..64029f0 100644
--- a/cmd/bruteray-watch/main.go
+++ b/cmd/bruteray-watch/main.go
@@ -62,6 +62,7 @@ func rerun(fname string, args []string) {
 
 	if err := cmd.Start(); err != nil {
 		fmt.Fprintln(os.Stderr, err)
+		return
 	}
 	out, err := exec.Command("renice", "20", fmt.Sprint(cmd.Process.Pid)).CombinedOutput()
 	if err != nil {
-- 
2.43.0


From 5efe184213b25192a6ac621c3b93a591809ca357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:46 +0000
Subject: [PATCH 19/20] fix: ply: refuse element lines without a count, accept
 any white space

An 'element face' line without a number was ignored, so that a damaged file
was read as a mesh without faces instead of being refused.
---
 tracer/objects/ply/parser.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/tracer/objects/ply/parser.go b/tracer/objects/ply/parser.go
index ae3aeb8..102d370 100644
--- a/tracer/objects/ply/parser.go
+++ b/tracer/objects/ply/parser.go
@@ -44,13 +44,18 @@ func (p *parser) parse() ([]geom.Vec, [][3]int) {
 
 	var numVertex, numFace int
 	for l := p.readLine(); l != "end_header"; l = p.readLine() {
-		switch {
-		case strings.HasPrefix(l, "element vertex "):
-			numVertex = p.atoi(l[len("element vertex "):])
-		case strings.HasPrefix(l, "element face "):
-			numFace = p.atoi(l[len("element face "):])
-		case l == "end_header":
-			break
+		fields := strings.Fields(l)
+		if len(fields) == 0 || fields[0] != "element" {
+			continue
+		}
+		if len(fields) != 3 {
+			p.panicf("bad header: %q", l)
+		}
+		switch fields[1] {
+		case "vertex":
+			numVertex = p.atoi(fields[2])
+		case "face":
+			numFace = p.atoi(fields[2])
 		}
 	}
 
-- 
2.43.0


From fee40fe74b0c68b4f22c94542811098589408948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:10 +0000
Subject: [PATCH 20/20] fix: ply: refuse vertex and face layouts that would be
 misread

---
 tracer/objects/ply/parser.go | 37 ++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/tracer/objects/ply/parser.go b/tracer/objects/ply/parser.go
index 102d370..5a41f62 100644
--- a/tracer/objects/ply/parser.go
+++ b/tracer/objects/ply/parser.go
@@ -43,8 +43,15 @@ func (p *parser) parse() ([]geom.Vec, [][3]int) {
 	}
 
 	var numVertex, numFace int
+	var elements []string // names of the non-empty elements, in order
+	var element string    // element currently being declared
+	var numProp int       // number of its properties declared so far
 	for l := p.readLine(); l != "end_header"; l = p.readLine() {
 		fields := strings.Fields(l)
+		if len(fields) != 0 && fields[0] == "property" {
+			p.checkProperty(element, numProp, fields[1:])
+			numProp++
+		}
 		if len(fields) == 0 || fields[0] != "element" {
 			continue
 		}
@@ -57,6 +64,16 @@ func (p *parser) parse() ([]geom.Vec, [][3]int) {
 		case "face":
 			numFace = p.atoi(fields[2])
 		}
+		element, numProp = fields[1], 0
+		if p.atoi(fields[2]) != 0 {
+			elements = append(elements, element)
+		}
+	}
+	// Only the first two elements are read.
+	for i, want := range []string{"vertex", "face"} {
+		if i < len(elements) && elements[i] != want {
+			p.panicf("unsupported: element %q, need %q", elements[i], want)
+		}
 	}
 
 	vertex := make([]geom.Vec, numVertex)
@@ -102,6 +119,26 @@ func (p *parser) parse() ([]geom.Vec, [][3]int) {
 	return vertex, faces
 }
 
+// checkProperty checks that the i'th property of an element is what we read it as:
+// vertices should start with x, y and z, faces with a list of vertex indices.
+func (p *parser) checkProperty(element string, i int, decl []string) {
+	isList := len(decl) != 0 && decl[0] == "list"
+	name := ""
+	if len(decl) != 0 {
+		name = decl[len(decl)-1]
+	}
+	switch {
+	case element == "vertex" && i < 3:
+		if isList || name != []string{"x", "y", "z"}[i] {
+			p.panicf("unsupported: vertices should start with properties x, y, z")
+		}
+	case element == "face" && i == 0:
+		if !isList || !(name == "vertex_indices" || name == "vertex_index") {
+			p.panicf("unsupported: faces should start with property list vertex_indices")
+		}
+	}
+}
+
 type parser struct {
 	b        *bufio.Reader
 	lastLine string
-- 
2.43.0

