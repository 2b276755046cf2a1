package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/barnex/bruteray/api"
	"github.com/barnex/bruteray/geom"
	"github.com/barnex/bruteray/tracer"
	"github.com/barnex/bruteray/tracer/objects"
	"github.com/barnex/bruteray/tracer/objects/obj"
	"github.com/barnex/bruteray/tracer/objects/ply"
)

type fileMesh struct {
	v   []Vec
	f   [][]int // 3 or 4 vertices
	mat []string
}

// a random mesh without degenerate faces
func (g *gen) fileMesh(nf int) fileMesh {
	var m fileMesh
	for len(m.f) < nf {
		base := len(m.v)
		ctr := rvec(g.Rand, 4)
		if g.Intn(2) == 0 {
			for _, p := range g.triangle(ctr, 1) {
				m.v = append(m.v, p)
			}
			f := []int{base, base + 1, base + 2}
			g.Shuffle(3, func(i, j int) { f[i], f[j] = f[j], f[i] })
			if g.Intn(8) == 0 { // closed explicitly
				f = append(f, f[0])
			}
			m.f = append(m.f, f)
		} else { // parallelogram
			a, b := g.basis()
			w, h := uni(g.Rand, .4, 2), uni(g.Rand, .4, 2)
			m.v = append(m.v, ctr, madd(ctr, w, a), madd(madd(ctr, w, a), h, b), madd(ctr, h, b))
			m.f = append(m.f, []int{base, base + 1, base + 2, base + 3})
		}
		switch g.Intn(6) {
		case 0: // a fan: shares vertices, so normals are averaged
			f := m.f[len(m.f)-1]
			m.v = append(m.v, add(m.v[f[1]], mul(.7, rdir(g.Rand))))
			m.f = append(m.f, []int{f[1], f[2], len(m.v) - 1})
		case 1: // a face without area
			n := len(m.v)
			a, b := g.Intn(n), g.Intn(n)
			m.f = append(m.f, [][]int{{a, a, b}, {a, b, a}, {a, a, a}, {a, b, b, a}, {a, b, a, b}, {a, a, b, b}}[g.Intn(6)])
		}
	}
	for i := range m.v {
		for j := range m.v[i] {
			m.v[i][j] = float64(float32(m.v[i][j]))
		}
	}
	// shuffle the vertex order
	perm := g.Perm(len(m.v))
	v := make([]Vec, len(m.v))
	for i, p := range perm {
		v[p] = m.v[i]
	}
	m.v = v
	for _, f := range m.f {
		for i := range f {
			f[i] = perm[f[i]]
		}
	}
	mats := fileMats[:1+g.Intn(len(fileMats)-1)]
	for range m.f {
		m.mat = append(m.mat, mats[g.Intn(len(mats))])
	}
	return m
}

var fileMats = []string{"red", "Green.002", "b.l-u_e", "Red", "unused"}

// withArea leaves out the triangles with repeated vertices: there is nothing to see of them.
func withArea(t [][3]int) [][3]int {
	var o [][3]int
	for _, t := range t {
		if t[0] != t[1] && t[1] != t[2] && t[2] != t[0] {
			o = append(o, t)
		}
	}
	return o
}

func (m *fileMesh) tris(mat string) [][3]int {
	var t [][3]int
	for i, f := range m.f {
		if mat != "" && m.mat[i] != mat {
			continue
		}
		t = append(t, [3]int{f[0], f[1], f[2]})
		if len(f) == 4 {
			t = append(t, [3]int{f[2], f[3], f[0]})
		}
	}
	return t
}

func (g *gen) num(x float64) string {
	switch g.Intn(3) {
	case 0:
		return strconv.FormatFloat(x, 'g', -1, 64)
	case 1:
		return strconv.FormatFloat(x, 'e', -1, 64)
	default:
		return strconv.FormatFloat(x, 'f', -1, 64)
	}
}

func (g *gen) sp() string { return []string{" ", " ", "  ", "\t"}[g.Intn(4)] }

func (g *gen) plyLines(m fileMesh) []string {
	l := []string{"ply", "format ascii 1.0"}
	extra := g.Intn(3)
	if g.Intn(2) == 0 {
		l = append(l, "comment made by verif, element vertex 7 is a decoy")
	}
	if g.Intn(4) == 0 {
		l = append(l, "obj_info element face 3")
	}
	ty := []string{"float", "float32", "double", "float64"}[g.Intn(4)]
	l = append(l, "element"+g.sp()+"vertex"+g.sp()+fmt.Sprint(len(m.v)), "property "+ty+" x", "property "+ty+" y", "property "+ty+" z")
	for i := 0; i < extra; i++ {
		l = append(l, fmt.Sprintf("property float extra%d", i))
	}
	l = append(l, "element"+g.sp()+"face"+g.sp()+fmt.Sprint(len(m.f)), "property list "+[]string{"uchar int", "uint8 int32", "int int"}[g.Intn(3)]+" "+[]string{"vertex_indices", "vertex_index"}[g.Intn(2)], "end_header")
	for _, v := range m.v {
		s := g.num(v[0]) + g.sp() + g.num(v[1]) + g.sp() + g.num(v[2])
		for i := 0; i < extra; i++ {
			s += g.sp() + "0.5"
		}
		l = append(l, s)
	}
	for _, f := range m.f {
		s := strconv.Itoa(len(f))
		for _, i := range f {
			s += g.sp() + strconv.Itoa(i)
		}
		l = append(l, s)
	}
	return l
}

// plyLayout writes a well-formed PLY file whose elements and properties come in any order.
func (g *gen) plyLayout(m fileMesh) (lines []string, desc string) {
	vp := []string{"x", "y", "z"}
	for i := g.Intn(5); i > 0; i-- {
		vp = append(vp, []string{"nx", "ny", "nz", "red", "confidence"}[i])
	}
	switch g.Intn(4) {
	case 0: // in any order
		g.Shuffle(len(vp), func(i, j int) { vp[i], vp[j] = vp[j], vp[i] })
	case 1: // others first
		vp = append(append([]string{}, vp[3:]...), vp[:3]...)
	}
	fp := []string{"list"}
	for i := g.Intn(3); i > 0; i-- {
		fp = append(fp, []string{"flags", "quality"}[i-1])
	}
	if g.Intn(2) == 0 {
		g.Shuffle(len(fp), func(i, j int) { fp[i], fp[j] = fp[j], fp[i] })
	}
	el := []string{"vertex", "face"}
	if g.Intn(2) == 0 {
		el = append(el, []string{"edge", "material"}[g.Intn(2)])
	}
	if g.Intn(2) == 0 {
		g.Shuffle(len(el), func(i, j int) { el[i], el[j] = el[j], el[i] })
	}
	lines = []string{"ply", "format ascii 1.0"}
	var body []string
	for _, e := range el {
		switch e {
		case "vertex":
			lines = append(lines, "element vertex "+strconv.Itoa(len(m.v)))
			for _, p := range vp {
				lines = append(lines, "property float "+p)
			}
			for _, v := range m.v {
				var w []string
				for _, p := range vp {
					if k := strings.Index("xyz", p); k >= 0 {
						w = append(w, g.num(v[k]))
					} else {
						w = append(w, strconv.Itoa(g.Intn(4)))
					}
				}
				body = append(body, strings.Join(w, " "))
			}
		case "face":
			lines = append(lines, "element face "+strconv.Itoa(len(m.f)))
			for _, p := range fp {
				if p == "list" {
					lines = append(lines, "property list uchar int vertex_indices")
				} else {
					lines = append(lines, "property int "+p)
				}
			}
			for _, f := range m.f {
				var w []string
				for _, p := range fp {
					if p == "list" {
						w = append(w, strconv.Itoa(len(f)))
						for _, i := range f {
							w = append(w, strconv.Itoa(i))
						}
					} else {
						w = append(w, strconv.Itoa(3+g.Intn(2)))
					}
				}
				body = append(body, strings.Join(w, " "))
			}
		default: // looks much like vertices and faces
			n := g.Intn(4)
			lines = append(lines, "element "+e+" "+strconv.Itoa(n))
			for i := 0; i < 5; i++ {
				lines = append(lines, fmt.Sprintf("property int p%d", i))
			}
			for i := 0; i < n; i++ {
				body = append(body, fmt.Sprintf("3 0 1 2 %d", g.Intn(3)))
			}
		}
	}
	return append(append(lines, "end_header"), body...), fmt.Sprint(el, vp, fp)
}

func (g *gen) objLines(m fileMesh) []string {
	var l []string
	junk := []string{"# comment", "#comment", "", "o thing", "g grp", "s off", "vn 0 1 0", "vt 0.5 0.5", "mtllib x.mtl", "   "}
	for _, v := range m.v {
		s := "v" + g.sp() + g.num(v[0]) + g.sp() + g.num(v[1]) + g.sp() + g.num(v[2])
		if g.Intn(4) == 0 {
			s += " 1.0"
		}
		l = append(l, s)
		if g.Intn(6) == 0 {
			l = append(l, junk[g.Intn(len(junk))])
		}
	}
	cur := ""
	style := g.Intn(4)
	for i, f := range m.f {
		if m.mat[i] != cur || g.Intn(5) == 0 {
			cur = m.mat[i]
			l = append(l, "usemtl "+cur)
		}
		s := "f"
		for _, i := range f {
			s += g.sp() + strconv.Itoa(i+1)
			switch style {
			case 1:
				s += "/1"
			case 2:
				s += "/1/1"
			case 3:
				s += "//1"
			}
		}
		l = append(l, s)
		if g.Intn(6) == 0 {
			l = append(l, junk[g.Intn(len(junk))])
		}
	}
	return l
}

func (g *gen) joinLines(l []string) []byte {
	eol := "\n"
	if g.Intn(3) == 0 {
		eol = "\r\n"
	}
	s := strings.Join(l, eol)
	if g.Intn(3) > 0 {
		s += eol
	}
	return []byte(s)
}

type faultReader struct {
	r    io.Reader
	left int
	tiny bool
}

var errRead = errors.New("injected read failure")

func (f *faultReader) Read(p []byte) (int, error) {
	if f.left == 0 {
		return 0, errRead
	}
	if f.tiny && len(p) > 3 {
		p = p[:3]
	}
	if f.left > 0 && len(p) > f.left {
		p = p[:f.left]
	}
	n, err := f.r.Read(p)
	if f.left > 0 {
		f.left -= n
	}
	return n, err
}

func init() {
	register(&Check{
		ID:   "C26",
		Rule: "random meshes written as PLY and OBJ files in many legal spellings (line ends, spacing, number formats, quads, index styles, extra properties, comments), read back and intersected; damaged files (missing lines, garbage numbers, indices out of range) and failing readers at random points; non-trivial: each accepted mesh and each damage",
		Run: func(t *T) {
			t.Cases("large", 2, func(c *C, i int) { bigFiles(c) })
			t.Require("large files", 4)
			t.Require("hits on large meshes", 1000)
			t.Cases("ply", t.N(60, 1500), func(c *C, i int) { plyCase(c) })
			t.Cases("obj", t.N(60, 1500), func(c *C, i int) { objCase(c) })
			t.Cases("fatal", t.N(2, 10), func(c *C, i int) { fatalCase(c) })
			t.Require("meshes read", 500)
			t.Require("damaged files", 1000)
			t.Require("read failures", 500)
			t.Require("layouts", 300)
			t.Require("layouts read", 30)
			t.Require("hits", 1000)
		},
	})
	subs["loadmesh"] = func(args []string) {
		m := &probeMat{1}
		switch args[0] {
		case "ply":
			objects.PlyFile(m, args[1])
		case "obj":
			objects.ObjFile(map[string]tracer.Material{"red": m}, args[1])
		}
		fmt.Println("loaded")
	}
}

func sameMesh(c *C, what string, v []Vec, f [][3]int, m fileMesh) bool {
	want := m.tris("")
	if len(v) != len(m.v) || len(f) != len(want) {
		c.Failf("%s: read %d vertices and %d triangles, want %d and %d", what, len(v), len(f), len(m.v), len(want))
		return false
	}
	for i := range v {
		if v[i] != m.v[i] {
			c.Failf("%s: vertex %d is %v, want %v", what, i, v[i], m.v[i])
			return false
		}
	}
	for i := range f {
		if !sameTri(f[i], want[i]) {
			// the same quadrilateral may be split along the other diagonal
			c.Failf("%s: triangle %d is %v, want %v", what, i, f[i], want[i])
			return false
		}
	}
	return true
}

// equal up to rotation (keeps the orientation)
func sameTri(a, b [3]int) bool {
	for k := 0; k < 3; k++ {
		if a[0] == b[k] && a[1] == b[(k+1)%3] && a[2] == b[(k+2)%3] {
			return true
		}
	}
	return false
}

func plyCase(c *C) {
	g := newGen(c.Rand)
	m := g.fileMesh(1 + c.Intn(30))
	lines := g.plyLines(m)
	data := g.joinLines(lines)
	v, f, err := ply.Parse(&faultReader{r: bytes.NewReader(data), left: -1, tiny: c.Intn(2) == 0})
	c.Eval(1)
	if err != nil {
		c.Failf("valid PLY file is rejected: %v\n%s", err, data)
		return
	}
	if !sameMesh(c, "PLY", v, f, m) {
		return
	}
	c.Count("meshes read", 1)
	c.Distinct(c.Name)
	c.Sample("PLY with %d vertices, %d faces", len(m.v), len(m.f))

	// through the object constructors, with transformations
	dir := scratch(c)
	defer os.RemoveAll(dir)
	fname := filepath.Join(dir, "m.ply")
	must(os.WriteFile(fname, data, 0666))
	var tr []*geom.AffineTransform
	R := identSim()
	for k := c.Intn(3); k > 0; k-- {
		t, s := g.sim()
		tr = append(tr, t)
		R = compose(R, s)
	}
	mat := &probeMat{1}
	var o Interface
	if c.Intn(2) == 0 {
		o = objects.PlyFile(mat, fname, tr...)
	} else {
		o = api.PlyFile(mat, fname, tr...).Interface
	}
	tv := make([]Vec, len(m.v))
	for i := range tv {
		tv[i] = R.point(m.v[i])
	}
	ctr := centroid(tv)
	rad := 0.0
	for _, p := range tv {
		if d := dist(p, ctr); d > rad {
			rad = d
		}
	}
	p := Pair{o, newRefMesh(tv, withArea(m.tris("")), nil, mat, "PlyFile"), ctr, rad}
	meshRays(c, g, p)

	// elements and properties in any order: refused, or read correctly
	for k := 0; k < 6; k++ {
		l, desc := g.plyLayout(m)
		v, f, err := ply.Parse(bytes.NewReader(g.joinLines(l)))
		c.Eval(1)
		c.Count("layouts", 1)
		c.Distinct("layout", desc)
		if err != nil {
			c.Count("layouts refused", 1)
			continue
		}
		if !sameMesh(c, "PLY with layout "+desc, v, f, m) {
			return
		}
		c.Count("layouts read", 1)
	}

	// damage
	hdr := 0
	for lines[hdr] != "end_header" {
		hdr++
	}
	for k := 0; k < 8; k++ {
		bad := append([]string{}, lines...)
		var what string
		vi := hdr + 1 + c.Intn(len(m.v))
		fi := hdr + 1 + len(m.v) + c.Intn(len(m.f))
		minFaces := 0
		switch c.Intn(11) {
		case 8: // polygons that are no triangle or quad are refused, or cut up completely
			n := []int{1, 2, 5, 6, 0}[c.Intn(5)]
			fl := []string{strconv.Itoa(n)}
			for i := 0; i < n; i++ {
				fl = append(fl, strconv.Itoa(c.Intn(len(m.v))))
			}
			bad[fi], what = strings.Join(fl, " "), fmt.Sprintf("a face of %d vertices", n)
			if n > 4 {
				for i := range m.f {
					minFaces += len(m.f[i]) - 2
				}
				minFaces += n - 2 - (len(m.f[fi-hdr-1-len(m.v)]) - 2)
			}
		case 9, 10:
			n := 0
			el := []string{"element vertex ", "element face "}[c.Intn(2)]
			for !strings.HasPrefix(strings.Join(strings.Fields(bad[n]), " "), el) {
				n++
			}
			bad[n], what = el+[]string{"x", "-3", "", "1e3", "99999999999999999999"}[c.Intn(5)], "a count is not a number"
		case 0:
			n := c.Intn(len(bad))
			bad, what = bad[:n], fmt.Sprintf("only the first %d of %d lines", n, len(bad))
		case 1:
			bad = append(bad[:vi], bad[vi+1:]...)
			what = "a vertex line is missing"
		case 2:
			fl := strings.Fields(bad[fi])
			fl[1+c.Intn(len(fl)-1)] = strconv.Itoa(len(m.v) + c.Intn(3))
			bad[fi], what = strings.Join(fl, " "), "a face refers to a vertex past the last"
		case 3:
			fl := strings.Fields(bad[fi])
			fl[1+c.Intn(len(fl)-1)] = strconv.Itoa(-1 - c.Intn(3))
			bad[fi], what = strings.Join(fl, " "), "a face refers to a negative vertex"
		case 4:
			fl := strings.Fields(bad[vi])
			fl[c.Intn(3)] = []string{"x", "1.2.3", "0x", "--1", "1,5"}[c.Intn(5)]
			bad[vi], what = strings.Join(fl, " "), "a coordinate is not a number"
		case 5:
			fl := strings.Fields(bad[fi])
			bad[fi], what = strings.Join(fl[:len(fl)-1], " "), "a face has too few indices"
		case 6:
			fl := strings.Fields(bad[vi])
			bad[vi], what = strings.Join(fl[:c.Intn(3)], " "), "a vertex has too few coordinates"
		default:
			bad[c.Intn(2)], what = "garbage", "bad magic or format line"
		}
		c.Eval(1)
		c.Count("damaged files", 1)
		c.Distinct(c.Name, k)
		if v, f, err := ply.Parse(bytes.NewReader(g.joinLines(bad))); err == nil && !(minFaces > 0 && len(f) == minFaces) {
			c.Failf("damaged PLY file (%s) is accepted as %d vertices, %d faces:\n%s", what, len(v), len(f), strings.Join(bad, "\n"))
			return
		}
	}
	// read failures
	lastNeeded := len(bytes.TrimRight(data, "\r\n\t "))
	for k := 0; k < 6; k++ {
		n := c.Intn(lastNeeded)
		c.Eval(1)
		c.Count("read failures", 1)
		if _, _, err := ply.Parse(&faultReader{r: bytes.NewReader(data), left: n, tiny: c.Intn(2) == 0}); err == nil {
			c.Failf("PLY reader reports success although reading failed after %d of %d bytes", n, len(data))
			return
		}
	}
	if _, _, err := ply.ParseFile(filepath.Join(dir, "none.ply")); err == nil {
		c.Failf("parsing a missing PLY file succeeds")
	}
	if v, f, err := ply.ParseFile(fname); err != nil {
		c.Failf("valid PLY file is rejected by name: %v", err)
	} else {
		sameMesh(c, "PLY file", v, f, m)
	}
}

func meshRays(c *C, g *gen, p Pair) {
	for i := 0; i < 25; i++ {
		s, d := g.ray(p)
		want, st, _ := refNearest(p.R, s, d)
		r := Ray{Start: s, Dir: d}
		got := p.O.Intersect(&r)
		c.Eval(1)
		if st == 2 {
			continue
		}
		if st == 1 {
			c.Count("hits", 1)
		}
		if msg := judgeHit(got, want, st, s, d, scaleOf(s, p), st == 1); msg != "" {
			c.Failf("mesh from file: %s\n  %s", msg, describe(p, s, d))
			return
		}
	}
}

func objCase(c *C) {
	g := newGen(c.Rand)
	m := g.fileMesh(1 + c.Intn(30))
	lines := g.objLines(m)
	dir := scratch(c)
	defer os.RemoveAll(dir)
	fname := filepath.Join(dir, "m.obj")
	data := g.joinLines(lines)
	must(os.WriteFile(fname, data, 0666))
	o, err := obj.ParseFile(fname)
	c.Eval(1)
	if err != nil {
		c.Failf("valid OBJ file is rejected: %v\n%s", err, data)
		return
	}
	if len(o.Vertices) != len(m.v) {
		c.Failf("OBJ: read %d vertices, want %d", len(o.Vertices), len(m.v))
		return
	}
	for i := range o.Vertices {
		if dist(o.Vertices[i], m.v[i]) > 1e-6*(1+length(m.v[i])) { // single precision is enough
			c.Failf("OBJ: vertex %d is %v, want %v", i, o.Vertices[i], m.v[i])
			return
		}
	}
	want := map[string][][]int{}
	for i, f := range m.f {
		want[m.mat[i]] = append(want[m.mat[i]], f)
	}
	total := 0
	for mt, fs := range o.Faces {
		total += len(fs)
		for i, f := range fs {
			same := i < len(want[mt]) && len(f) == len(want[mt][i])
			for j := 0; same && j < len(f); j++ {
				same = int(f[j]) == want[mt][i][j]
			}
			if !same {
				c.Failf("OBJ: face %d of material %q is %v, want %v", i, mt, f, want[mt])
				return
			}
		}
	}
	if total != len(m.f) {
		c.Failf("OBJ: read %d faces, want %d", total, len(m.f))
		return
	}
	c.Count("meshes read", 1)
	c.Distinct(c.Name)
	c.Sample("OBJ with %d vertices, %d faces, %d materials", len(m.v), len(m.f), len(want))

	var tr []*geom.AffineTransform
	R := identSim()
	for k := c.Intn(3); k > 0; k-- {
		t, s := g.sim()
		tr = append(tr, t)
		R = compose(R, s)
	}
	mats := map[string]tracer.Material{}
	for i, n := range fileMats {
		mats[n] = &probeMat{10 + i}
	}
	tv := make([]Vec, len(m.v))
	for i := range tv {
		tv[i] = R.point(m.v[i])
	}
	tree := &refTree{}
	for mt := range want {
		tree.ch = append(tree.ch, newRefMesh(tv, withArea(m.tris(mt)), nil, mats[mt], "ObjFile "+mt))
	}
	ctr := centroid(tv)
	rad := 0.0
	for _, p := range tv {
		if d := dist(p, ctr); d > rad {
			rad = d
		}
	}
	var O Interface
	if c.Intn(2) == 0 {
		O = objects.ObjFile(mats, fname, tr...)
	} else {
		O = api.ObjFile(mats, fname, tr...).Interface
	}
	meshRays(c, g, Pair{O, tree, ctr, rad})

	for k := 0; k < 6; k++ {
		bad := append([]string{}, lines...)
		var vs, fs []int
		for i, l := range bad {
			if strings.HasPrefix(l, "v ") || strings.HasPrefix(l, "v\t") {
				vs = append(vs, i)
			}
			if strings.HasPrefix(l, "f") {
				fs = append(fs, i)
			}
		}
		vi, fi := vs[c.Intn(len(vs))], fs[c.Intn(len(fs))]
		fl, vl := strings.Fields(bad[fi]), strings.Fields(bad[vi])
		var what string
		switch c.Intn(10) {
		case 9:
			bad[fi], what = "usemtl", "a material without name"
		case 8:
			bad[vi], what = strings.Join(append(vl[:4], "1", "2"), " "), "a vertex has five coordinates"
		case 0:
			fl[1+c.Intn(len(fl)-1)] = strconv.Itoa(len(m.v) + 1 + c.Intn(3))
			bad[fi], what = strings.Join(fl, " "), "a face refers to a vertex past the last"
		case 1:
			fl[1+c.Intn(len(fl)-1)] = "0"
			bad[fi], what = strings.Join(fl, " "), "a face refers to vertex 0"
		case 2:
			vl[1+c.Intn(3)] = []string{"x", "1.2.3", "--1", "1,5"}[c.Intn(4)]
			bad[vi], what = strings.Join(vl, " "), "a coordinate is not a number"
		case 3:
			bad[vi], what = strings.Join(vl[:1+c.Intn(3)], " "), "a vertex has too few coordinates"
		case 4:
			bad[fi], what = strings.Join(fl[:1+c.Intn(3)], " "), "a face has too few vertices"
		case 5:
			bad[fi], what = strings.Join(append(fl, "1", "1"), " "), "a face has too many vertices"
		case 6:
			bad[fi], what = "bogus 1 2 3", "an unknown command"
		default:
			fl[1+c.Intn(len(fl)-1)] = "q/1"
			bad[fi], what = strings.Join(fl, " "), "an index is not a number"
		}
		must(os.WriteFile(fname, g.joinLines(bad), 0666))
		c.Eval(1)
		c.Count("damaged files", 1)
		c.Distinct(c.Name, k)
		if o, err := obj.ParseFile(fname); err == nil {
			c.Failf("damaged OBJ file (%s) is accepted as %d vertices:\n%s", what, len(o.Vertices), strings.Join(bad, "\n"))
			return
		}
	}
	if _, err := obj.ParseFile(filepath.Join(dir, "none.obj")); err == nil {
		c.Failf("parsing a missing OBJ file succeeds")
	}
	if _, err := obj.ParseFile(dir); err == nil {
		c.Failf("parsing a directory as OBJ file succeeds")
	}
}

// constructors must stop the program with an error, not go on without the mesh
func fatalCase(c *C) {
	g := newGen(c.Rand)
	dir := scratch(c)
	defer os.RemoveAll(dir)
	self, err := os.Executable()
	must(err)
	m := g.fileMesh(3)
	for i := range m.mat {
		m.mat[i] = "red"
	}
	good := map[string][]byte{"ply": g.joinLines(g.plyLines(m)), "obj": g.joinLines(g.objLines(m))}
	for kind, data := range good {
		for _, v := range []string{"good", "missing", "damaged", "undefined material"} {
			fname := filepath.Join(dir, strings.Fields(v)[0]+"."+kind)
			ok := v == "good"
			switch v {
			case "good":
				must(os.WriteFile(fname, data, 0666))
			case "damaged":
				must(os.WriteFile(fname, append([]byte("bogus\n"), data...), 0666))
			case "undefined material":
				if kind == "ply" {
					continue
				}
				must(os.WriteFile(fname, bytes.Replace(data, []byte("usemtl red"), []byte("usemtl blue"), -1), 0666))
			}
			out, err := exec.Command(self, "sub", "loadmesh", kind, fname).CombinedOutput()
			c.Eval(1)
			c.Distinct(kind, v)
			if (err == nil) != ok || bytes.Contains(out, []byte("panic:")) {
				c.Failf("loading a %s %s file: %v\n%s", v, kind, err, out)
			}
			if !ok {
				c.Count("fatal loads", 1)
			}
		}
	}
}
