package main

import (
	"encoding/json"
	"math"
	"math/rand"
	"sort"
	"sync/atomic"
	"time"

	"github.com/RH12503/Triangula/color"
	"github.com/RH12503/Triangula/geom"
	"github.com/RH12503/Triangula/image"
	"github.com/RH12503/Triangula/normgeom"
	"github.com/RH12503/Triangula/triangulation"
	"github.com/RH12503/Triangula/triangulation/incrdelaunay"
	"github.com/fogleman/delaunay"
)

// gmScenario is a sequence of calls of the point, polygon, group and colour helpers.
type gmScenario struct {
	Seed int64 `json:"seed"`
	N    int   `json:"n"`
	Max  int   `json:"max"` // largest coordinate
	Len  int   `json:"len"` // groups have fewer points than this
}

const gmGroups = 4

// runGeom records histories of the geometry helpers.
func runGeom(o opts, s *sink) {
	run := func(sc gmScenario) {
		rng := rand.New(rand.NewSource(sc.Seed))
		h := &gmHistory{sc: sc, rng: rng, cnt: map[string]int{}}
		if why := guard(h.run, 20*time.Second); why != "" {
			h.ev = append(h.ev, M{"e": "abort", "why": why})
		}
		for k, n := range h.cnt {
			s.count(k, n)
		}
		s.put(M{"k": gmGroups, "sc": sc, "t": h.ev})
	}
	if o.in != "" {
		eachScenario(o.in, func(b []byte) bool {
			var sc gmScenario
			if json.Unmarshal(b, &sc) == nil {
				run(sc)
			}
			return true
		})
		return
	}
	rng := rand.New(rand.NewSource(o.seed))
	for i := 0; i < o.n && time.Now().Before(o.deadline) && atomic.LoadInt32(&stuck) == 0; i++ {
		sc := gmScenario{Seed: rng.Int63(), N: 60 + rng.Intn(120), Max: []int{3, 10, 50, 300, 3000}[rng.Intn(5)], Len: 6}
		if rng.Intn(60) == 0 { // large groups and polygons
			sc.N, sc.Len = 40, 1000+rng.Intn(4000)
		}
		run(sc)
	}
}

type gmHistory struct {
	sc  gmScenario
	rng *rand.Rand
	g   [gmGroups]normgeom.NormPointGroup
	ev  []M
	cnt map[string]int
}

func (h *gmHistory) put(e M) {
	h.ev = append(h.ev, e)
	h.cnt[e["e"].(string)]++
}

// unit is a number of 1024ths, often at the border and sometimes beyond it.
func (h *gmHistory) unit() int {
	switch h.rng.Intn(8) {
	case 0:
		return 0
	case 1:
		return 1024
	case 2:
		return h.rng.Intn(5000) - 2000
	}
	return h.rng.Intn(1025)
}

func (h *gmHistory) coord(m int) int {
	switch h.rng.Intn(6) {
	case 0:
		return 0
	case 1:
		return m
	}
	return h.rng.Intn(m + 1)
}

func (h *gmHistory) point() geom.Point {
	return geom.Point{X: h.coord(h.sc.Max), Y: h.coord(h.sc.Max)}
}

func toUnit(p normgeom.NormPoint) [2]int {
	f := func(v float64) int {
		if v*1024 != math.Trunc(v*1024) || math.Abs(v) > 1<<20 {
			return -1 << 20
		}
		return int(v * 1024)
	}
	return [2]int{f(p.X), f(p.Y)}
}

func fromUnit(p [2]int) normgeom.NormPoint {
	return normgeom.NormPoint{X: float64(p[0]) / 1024, Y: float64(p[1]) / 1024}
}

// down is v in a unit, rounded down; numbers within the error of a few roundings are the integer.
func down(v, unit, eps float64) int {
	f := math.Floor(v*unit + eps)
	if !(math.Abs(f) < 1<<30) {
		return -1 << 30
	}
	return int(f)
}

func toXY(p geom.Point) [2]int { return [2]int{p.X, p.Y} }

func (h *gmHistory) group(n int) (g normgeom.NormPointGroup, v [][2]int) {
	g = make(normgeom.NormPointGroup, n)
	v = make([][2]int, n)
	for i := range g {
		v[i] = [2]int{h.unit(), h.unit()}
		g[i] = fromUnit(v[i])
	}
	return
}

func (h *gmHistory) run() {
	for i := range h.g {
		h.fresh(i)
	}
	for len(h.ev) < h.sc.N {
		switch h.rng.Intn(14) {
		case 0:
			h.distances()
		case 1:
			h.norms()
		case 2:
			h.polygon()
		case 3:
			h.average()
		case 4:
			h.clamp()
		case 5:
			h.edge()
		case 6:
			h.super()
		case 7:
			h.made()
		default:
			h.groups()
		}
	}
	for i := range h.g {
		h.read(i)
	}
}

func (h *gmHistory) distances() {
	a, b := [2]int{h.unit(), h.unit()}, [2]int{h.unit(), h.unit()}
	if h.rng.Intn(5) == 0 {
		b[h.rng.Intn(2)] = a[h.rng.Intn(2)]
	}
	h.put(M{"e": "dist", "a": a, "b": b, "r": down(normgeom.Dist(fromUnit(a), fromUnit(b)), 4096, 1e-6)})
	p, q := h.point(), h.point()
	h.put(M{"e": "distsq", "a": toXY(p), "b": toXY(q), "r": p.DistSq(q)})
	s := p.Sub(q)
	h.put(M{"e": "sub", "a": toXY(p), "b": toXY(q), "r": toXY(s)})
	// The sum of two squares has to fit in TLC's integers
	ip := incrdelaunay.Point{X: int16(p.X), Y: int16(p.Y)}
	iq := incrdelaunay.Point{X: int16(q.X - h.sc.Max), Y: int16(q.Y - h.sc.Max)}
	h.put(M{"e": "distsq", "a": [2]int{int(ip.X), int(ip.Y)}, "b": [2]int{int(iq.X), int(iq.Y)}, "r": ip.DistSq(iq)})
}

func (h *gmHistory) norms() {
	w, ht := 1+h.rng.Intn(h.sc.Max), 1+h.rng.Intn(h.sc.Max)
	p := func() geom.Point {
		q := geom.Point{X: h.coord(w), Y: h.coord(ht)}
		if h.rng.Intn(8) == 0 {
			q = geom.Point{X: h.rng.Intn(w+1) - w/2, Y: ht + h.rng.Intn(ht+1)/2}
		}
		return q
	}
	var in []geom.Point
	var out []normgeom.NormPoint
	switch h.rng.Intn(3) {
	case 0:
		a := p()
		in, out = []geom.Point{a}, []normgeom.NormPoint{a.ToNorm(w, ht)}
	case 1:
		in = []geom.Point{p(), p(), p()}
		n := toTri(toXY(in[0]), toXY(in[1]), toXY(in[2])).ToNorm(w, ht)
		out = n.Points[:]
	default:
		for n := h.rng.Intn(h.sc.Len + 3); len(in) < n; {
			in = append(in, p())
		}
		out = geom.Polygon{Points: append([]geom.Point(nil), in...)}.ToNorm(w, ht).Points
	}
	pts, res := [][2]int{}, [][2]int{}
	for _, q := range in {
		if q.X >= 1<<12 || q.Y >= 1<<12 { // stay within TLC's integers
			return
		}
		pts = append(pts, toXY(q))
	}
	for _, q := range out {
		res = append(res, [2]int{down(q.X, 1<<18, 1.0/(1<<14)), down(q.Y, 1<<18, 1.0/(1<<14))})
	}
	h.put(M{"e": "norm", "w": w, "h": ht, "pts": pts, "out": res})
}

// convex is the hull of random points, without points on its edges, in either direction.
func (h *gmHistory) convex() []geom.Point {
	var ps []geom.Point
	for n := 1 + h.rng.Intn(14+h.sc.Len); len(ps) < n; {
		ps = append(ps, h.point())
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].X < ps[j].X || (ps[i].X == ps[j].X && ps[i].Y < ps[j].Y) })
	half := func() (r []geom.Point) {
		for _, p := range ps {
			for len(r) >= 2 {
				a, b := r[len(r)-2], r[len(r)-1]
				if (b.X-a.X)*(p.Y-a.Y)-(b.Y-a.Y)*(p.X-a.X) > 0 {
					break
				}
				r = r[:len(r)-1]
			}
			if len(r) == 0 || r[len(r)-1] != p {
				r = append(r, p)
			}
		}
		return
	}
	lower := half()
	for i, j := 0, len(ps)-1; i < j; i, j = i+1, j-1 {
		ps[i], ps[j] = ps[j], ps[i]
	}
	upper := half()
	r := append([]geom.Point(nil), lower...)
	if len(upper) > 2 {
		r = append(r, upper[1:len(upper)-1]...)
	}
	k := h.rng.Intn(len(r))
	r = append(append([]geom.Point(nil), r[k:]...), r[:k]...)
	if h.rng.Intn(2) == 0 {
		for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
			r[i], r[j] = r[j], r[i]
		}
	}
	return r
}

func (h *gmHistory) polygon() {
	ps := h.convex()
	if h.rng.Intn(20) == 0 {
		ps = ps[:h.rng.Intn(len(ps)+1)]
	}
	pts := [][2]int{}
	var dp []delaunay.Point
	for _, p := range ps {
		pts = append(pts, toXY(p))
		dp = append(dp, delaunay.Point{X: float64(p.X), Y: float64(p.Y)})
	}
	if len(ps) > 0 {
		h.put(M{"e": "area", "pts": pts, "r": triangulation.Area(dp)})
	}
	tris := [][][2]int{}
	geom.Polygon{Points: append([]geom.Point(nil), ps...)}.Triangulate(func(t geom.Triangle) {
		tris = append(tris, [][2]int{toXY(t.Points[0]), toXY(t.Points[1]), toXY(t.Points[2])})
	})
	h.put(M{"e": "fan", "pts": pts, "tris": tris})
}

func (h *gmHistory) average() {
	var a color.AverageRGB
	cs := [][4]int{}
	unit := 1 << 16
	most := []int{1, 1, 3, 20, 0}[h.rng.Intn(5)]
	for n := h.rng.Intn(34 + h.sc.Len/4); len(cs) < n; {
		var c [4]int
		for j := range c {
			c[j] = []int{0, 256, h.rng.Intn(257), h.rng.Intn(257)}[h.rng.Intn(4)]
		}
		c[3] = 1
		if most > 0 {
			c[3] += h.rng.Intn(most)
		} else if h.rng.Intn(10) == 0 && unit > 256 { // thousands of pixels
			unit = 256
			c[3] = 60000 + h.rng.Intn(12000)
		}
		cs = append(cs, c)
		for i := 0; i < c[3]; i++ {
			a.Add(color.NewRGB(float64(c[0])/256, float64(c[1])/256, float64(c[2])/256))
		}
		if h.rng.Intn(8) == 0 { // asking between changes nothing
			a.Average()
			a.Count()
		}
	}
	r := a.Average()
	h.put(M{"e": "avg", "c": cs, "n": int(a.Count()), "u": unit,
		"out": [3]int{down(r.R, float64(unit), 1e-6), down(r.G, float64(unit), 1e-6), down(r.B, float64(unit), 1e-6)}})
}

func (h *gmHistory) clamp() {
	p := [2]int{h.unit(), h.unit()}
	q := fromUnit(p)
	q.Constrain()
	h.put(M{"e": "clamp", "p": p, "one": 1024, "r": toUnit(q)})
}

// made looks at triangles and images made by their constructors.
func (h *gmHistory) made() {
	a, b, c := h.point(), h.point(), h.point()
	t := geom.NewTriangle(a.X, a.Y, b.X, b.Y, c.X, c.Y)
	h.put(M{"e": "made", "in": [][2]int{toXY(a), toXY(b), toXY(c)}, "out": [][2]int{toXY(t.Points[0]), toXY(t.Points[1]), toXY(t.Points[2])}})
	u := [3][2]int{{h.unit(), h.unit()}, {h.unit(), h.unit()}, {h.unit(), h.unit()}}
	p, q, r := fromUnit(u[0]), fromUnit(u[1]), fromUnit(u[2])
	n := normgeom.NewNormTriangle(p.X, p.Y, q.X, q.Y, r.X, r.Y)
	h.put(M{"e": "made", "in": u, "out": [][2]int{toUnit(n.Points[0]), toUnit(n.Points[1]), toUnit(n.Points[2])}})
	w, ht := 1+h.rng.Intn(40), 1+h.rng.Intn(40)
	if h.sc.Len > 6 {
		w, ht = 1+h.rng.Intn(3000), 1+h.rng.Intn(300)
		if h.rng.Intn(2) == 0 {
			w, ht = ht, w
		}
	}
	d := image.NewData(w, ht)
	sw, sh := d.Size()
	lit := 0
	for y := 0; y < ht; y++ {
		for x := 0; x < w; x++ {
			if d.RGBAt(x, y) != (color.RGB{}) {
				lit++
			}
		}
	}
	h.put(M{"e": "blank", "w": w, "h": ht, "out": [2]int{sw, sh}, "lit": lit})
}

// edge compares edges, and asks for the vertices of a triangle.
func (h *gmHistory) edge() {
	few := func() incrdelaunay.Point {
		return incrdelaunay.Point{X: int16(h.rng.Intn(3) - 1), Y: int16(h.rng.Intn(3) - 1)}
	}
	xy := func(p incrdelaunay.Point) [2]int { return [2]int{int(p.X), int(p.Y)} }
	a, b, c, d := few(), few(), few(), few()
	if h.rng.Intn(2) == 0 {
		c, d = b, a
	}
	h.put(M{"e": "edge", "a": xy(a), "b": xy(b), "c": xy(c), "d": xy(d),
		"r": incrdelaunay.NewEdge(a, b).Equals(incrdelaunay.NewEdge(c, d))})
	h.put(M{"e": "vertex", "a": xy(a), "b": xy(b), "c": xy(c), "p": xy(d),
		"r": incrdelaunay.NewTriangle(a, b, c).HasVertex(d)})
}

func (h *gmHistory) super() {
	w, ht := 1+h.coord(h.sc.Max-1), 1+h.coord(h.sc.Max-1)
	t := incrdelaunay.NewSuperTriangle(w, ht)
	h.put(M{"e": "super", "w": w, "h": ht, "t": [3][2]int{
		{int(t.A.X), int(t.A.Y)}, {int(t.B.X), int(t.B.Y)}, {int(t.C.X), int(t.C.Y)}}})
}

func (h *gmHistory) fresh(i int) {
	n := h.rng.Intn(h.sc.Len)
	if h.sc.Len > 6 && h.rng.Intn(4) > 0 { // mostly of the same length
		n = h.sc.Len
	}
	g, v := h.group(n)
	h.g[i] = g
	h.put(M{"e": "new", "o": i + 1, "v": v})
}

func (h *gmHistory) read(i int) {
	v := [][2]int{}
	for _, p := range h.g[i] {
		v = append(v, toUnit(p))
	}
	h.put(M{"e": "read", "o": i + 1, "v": v})
}

func (h *gmHistory) groups() {
	i, j := h.rng.Intn(gmGroups), h.rng.Intn(gmGroups)
	switch r := h.rng.Intn(10); {
	case r == 0:
		h.fresh(i)
	case r < 3:
		h.g[i] = h.g[j].Copy()
		h.put(M{"e": "copy", "o": i + 1, "f": j + 1})
	case r < 5:
		if h.rng.Intn(4) > 0 { // mostly a group of the same length
			for k := 0; k < 8 && len(h.g[i]) != len(h.g[j]); k++ {
				j = h.rng.Intn(gmGroups)
			}
		}
		ok := true
		func() {
			defer func() {
				if recover() != nil {
					ok = false
				}
			}()
			h.g[i].Set(h.g[j])
		}()
		h.put(M{"e": "set", "o": i + 1, "f": j + 1, "ok": ok})
	case r < 8:
		if n := len(h.g[i]); n > 0 {
			k := h.rng.Intn(n)
			v := [2]int{h.unit(), h.unit()}
			h.g[i][k] = fromUnit(v)
			h.put(M{"e": "write", "o": i + 1, "i": k + 1, "v": v})
		}
	default:
		h.read(i)
	}
}
