package main

import (
	"encoding/json"
	"math/rand"
	"sync/atomic"
	"time"

	"github.com/RH12503/Triangula/geom"
	"github.com/RH12503/Triangula/rasterize"
)

// rScenario is a triangle, a polygon or a triangulation to rasterise.
type rScenario struct {
	Kind string   `json:"kind"` // tri, poly, mesh
	Pts  [][2]int `json:"p"`
	BS   []int    `json:"bs,omitempty"`
	W    int      `json:"w,omitempty"`
	H    int      `json:"h,omitempty"`
}

func toTri(a, b, c [2]int) geom.Triangle { return geom.NewTriangle(a[0], a[1], b[0], b[1], c[0], c[1]) }

type drawn struct {
	bs int
	l  [][3]int // x0, x1, y
	b  [][2]int
}

// runs collects pixels in the order in which they are drawn.
type runs struct{ l [][3]int }

func (r *runs) pixel(x, y int) {
	if n := len(r.l); n > 0 && r.l[n-1][1] == x && r.l[n-1][2] == y {
		r.l[n-1][1]++
		return
	}
	r.l = append(r.l, [3]int{x, x + 1, y})
}

const maxDraw = 2000000 // more than any of the shapes can have

func (d *drawn) line(x0, x1, y int) {
	if len(d.l) > maxDraw {
		panic("Triangula RH12503: endless drawing")
	}
	d.l = append(d.l, [3]int{x0, x1, y})
}
func (d *drawn) block(x, y int) {
	if len(d.b) > maxDraw {
		panic("Triangula RH12503: endless drawing")
	}
	d.b = append(d.b, [2]int{x, y})
}

func drawLines(t geom.Triangle) [][3]int {
	d := &drawn{}
	rasterize.DDATriangleLines(t, d.line)
	return d.l
}

// rows turns what was drawn into the net number of intervals that start at each x of each row.
func rows(l [][3]int, b [][2]int, bs int) map[[2]int]int {
	m := map[[2]int]int{}
	add := func(x, y, n int) {
		k := [2]int{x, y}
		if v := m[k] + n; v == 0 {
			delete(m, k)
		} else {
			m[k] = v
		}
	}
	for _, s := range l {
		if s[0] < s[1] {
			add(s[0], s[2], 1)
			add(s[1], s[2], -1)
		}
	}
	for _, c := range b {
		for y := c[1]; y < c[1]+bs; y++ {
			add(c[0], y, 1)
			add(c[0]+bs, y, -1)
		}
	}
	return m
}

func equalRows(a, b map[[2]int]int) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if b[k] != v {
			return false
		}
	}
	return true
}

// exactCover is the quick version of ExactCover in RasterMon.tla.
func exactCover(p [3][2]int, l [][3]int) bool {
	s := p
	less := func(a, b [2]int) bool { return a[1] < b[1] || (a[1] == b[1] && a[0] < b[0]) }
	for i := 0; i < 3; i++ {
		for j := i + 1; j < 3; j++ {
			if less(s[j], s[i]) {
				s[i], s[j] = s[j], s[i]
			}
		}
	}
	byRow := map[int][][3]int{}
	for _, x := range l {
		if x[0] < x[1] {
			byRow[x[2]] = append(byRow[x[2]], x)
		}
	}
	num := func(a, b [2]int, y int) int { return a[0]*(b[1]-a[1]) + (b[0]-a[0])*(y-a[1]) }
	cols := func(a, b [2]int, y, v int) bool {
		n, d := num(a, b, y), b[1]-a[1]
		f := n / d
		return v == f || (n%d == 0 && f > 0 && y != a[1] && a[0] != b[0] && v == f-1)
	}
	for y, r := range byRow {
		if y < s[0][1] || y >= s[2][1] || len(r) > 1 {
			return false
		}
	}
	for y := s[0][1]; y < s[2][1]; y++ {
		lo := [2][2]int{s[1], s[2]}
		if y < s[1][1] {
			lo = [2][2]int{s[0], s[1]}
		}
		hi := [2][2]int{s[0], s[2]}
		n1, n2 := num(lo[0], lo[1], y)*(hi[1][1]-hi[0][1]), num(hi[0], hi[1], y)*(lo[1][1]-lo[0][1])
		r := byRow[y]
		if n1 == n2 {
			if len(r) > 0 {
				return false
			}
			continue
		}
		left, right := lo, hi
		if n1 > n2 {
			left, right = hi, lo
		}
		if len(r) == 1 {
			if !cols(left[0], left[1], y, r[0][0]) || !cols(right[0], right[1], y, r[0][1]) {
				return false
			}
		} else {
			a := num(left[0], left[1], y) / (left[1][1] - left[0][1])
			b := num(right[0], right[1], y) / (right[1][1] - right[0][1])
			ok := false
			for i := a - 1; i <= a; i++ {
				for j := b - 1; j <= b; j++ {
					if cols(left[0], left[1], y, i) && cols(right[0], right[1], y, j) && i >= j {
						ok = true
					}
				}
			}
			if !ok {
				return false
			}
		}
	}
	return true
}

func fan(p [][2]int) []geom.Triangle {
	var r []geom.Triangle
	for i := 2; i < len(p); i++ {
		r = append(r, toTri(p[i], p[i-1], p[0]))
	}
	return r
}

func nonDegenerate(t geom.Triangle) bool {
	a, b, c := t.Points[0], t.Points[1], t.Points[2]
	return (b.X-a.X)*(c.Y-a.Y) != (c.X-a.X)*(b.Y-a.Y)
}

// meshOf triangulates points with the harness's own triangulation.
func meshOf(p [][2]int, w, h int) []geom.Triangle {
	b := &bagT{}
	for _, q := range p {
		b.add(pt{q[0], q[1]})
	}
	const m = 12000 // so far away that every edge of the convex hull is part of it
	wit := newWitness([3]pt{{-m, -m}, {m, -m}, {w / 2, m}}, b.distinct(), func(map[pt]int) map[[3]int]bool { return nil })
	var r []geom.Triangle
	for i, t := range wit.t {
		if t[0] > 2 && t[1] > 2 && t[2] > 2 {
			k := i % 3
			v := [3]pt{wit.v[t[k]], wit.v[t[(k+1)%3]], wit.v[t[(k+2)%3]]}
			if i%2 == 0 {
				v[0], v[1] = v[1], v[0]
			}
			r = append(r, geom.NewTriangle(v[0].x, v[0].y, v[1].x, v[1].y, v[2].x, v[2].y))
		}
	}
	return r
}

func none(l [][3]int) [][3]int {
	if l == nil {
		return [][3]int{}
	}
	return l
}

func runR(sc rScenario, full bool) (M, bool) {
	bad := false
	var ev M
	b, _ := json.Marshal(sc)
	why := guard(func() {
		switch sc.Kind {
		case "tri", "poly":
			tri := sc.Kind == "tri"
			var l [][3]int
			pix := &runs{}
			var blk []*drawn
			var poly geom.Polygon
			for _, p := range sc.Pts {
				poly.Points = append(poly.Points, geom.Point{X: p[0], Y: p[1]})
			}
			if tri {
				t := toTri(sc.Pts[0], sc.Pts[1], sc.Pts[2])
				l = drawLines(t)
				rasterize.DDATriangle(t, pix.pixel)
			} else {
				for _, t := range fan(sc.Pts) {
					l = append(l, drawLines(t)...)
				}
				rasterize.DDAPolygon(poly, pix.pixel)
			}
			for _, bs := range sc.BS {
				d := &drawn{bs: bs}
				if tri {
					rasterize.DDATriangleBlocks(toTri(sc.Pts[0], sc.Pts[1], sc.Pts[2]), bs, d.line, d.block)
				} else {
					rasterize.DDAPolygonBlocks(poly, bs, d.line, d.block)
				}
				blk = append(blk, d)
			}
			ref := rows(l, nil, 1)
			if !equalRows(ref, rows(pix.l, nil, 1)) {
				bad = true
			}
			var bb []M
			for _, d := range blk {
				if !equalRows(ref, rows(d.l, d.b, d.bs)) {
					bad = true
				}
				bl := d.b
				if bl == nil {
					bl = [][2]int{}
				}
				bb = append(bb, M{"bs": d.bs, "l": none(d.l), "b": bl})
			}
			if tri {
				p := [3][2]int{sc.Pts[0], sc.Pts[1], sc.Pts[2]}
				if !exactCover(p, l) || !exactCover(p, pix.l) {
					bad = true
				}
			}
			if bb == nil {
				bb = []M{}
			}
			ev = M{"e": sc.Kind, "p": sc.Pts, "l": none(l), "pix": none(pix.l), "blk": bb}
		case "mesh":
			ts := meshOf(sc.Pts, sc.W, sc.H)
			corners := 0
			for _, c := range [][2]int{{0, 0}, {sc.W, 0}, {0, sc.H}, {sc.W, sc.H}} {
				for _, p := range sc.Pts {
					if p == c {
						corners++
						break
					}
				}
			}
			count := make([]int, sc.W*sc.H)
			ls := [][][3]int{}
			for _, t := range ts {
				l := drawLines(t)
				ls = append(ls, none(l))
				for _, s := range l {
					for x := s[0]; x < s[1]; x++ {
						if x < 0 || x >= sc.W || s[2] < 0 || s[2] >= sc.H {
							bad = true
						} else {
							count[s[2]*sc.W+x]++
						}
					}
				}
			}
			for _, n := range count {
				if n > 1 || (n == 0 && corners == 4) {
					bad = true
				}
			}
			ev = M{"e": "mesh", "w": sc.W, "h": sc.H, "full": corners == 4, "l": ls}
		}
	}, 20*time.Second)
	if why != "" {
		ev, bad = M{"e": "abort", "why": why}, true
	}
	t := []M{}
	if full || bad {
		t = append(t, ev)
	}
	return M{"k": 1, "sc": string(b), "t": t}, bad
}

func randomRScenario(rng *rand.Rand, small bool) rScenario {
	kinds := []string{"tri", "tri", "tri", "poly", "mesh"}
	sc := rScenario{Kind: kinds[rng.Intn(len(kinds))]}
	m := 24
	switch {
	case small && rng.Intn(6) == 0:
		m = 60
	case small:
	case sc.Kind == "mesh":
		m = []int{8, 20, 60, 120}[rng.Intn(4)]
	default:
		m = []int{6, 10, 20, 50, 200, 1000, 3000}[rng.Intn(7)]
	}
	w, h := 1+rng.Intn(m), 1+rng.Intn(m)
	if rng.Intn(4) == 0 {
		w, h = m, m
	}
	src := pointSource(pointKinds[rng.Intn(len(pointKinds))], w, h, rng)
	get := func() [2]int {
		p := src()
		if rng.Intn(10) == 0 {
			p = pt{rng.Intn(w + 1), rng.Intn(h + 1)}
		}
		return [2]int{p.x, p.y}
	}
	for i := 0; i < 1+rng.Intn(3); i++ {
		bs := 1 + rng.Intn(8)
		if rng.Intn(4) == 0 {
			bs = 1 + rng.Intn(m+4)
		}
		if bs < m/200 {
			bs += m / 200
		}
		sc.BS = append(sc.BS, bs)
	}
	switch sc.Kind {
	case "tri":
		for k := 0; k < 50; k++ {
			sc.Pts = [][2]int{get(), get(), get()}
			if nonDegenerate(toTri(sc.Pts[0], sc.Pts[1], sc.Pts[2])) {
				return sc
			}
		}
		sc.Pts = [][2]int{{0, 0}, {w, 0}, {0, h}}
	case "poly":
	again:
		for k := 0; k < 50; k++ {
			sc.Pts = nil
			for i := 0; i < 3+rng.Intn(5); i++ {
				sc.Pts = append(sc.Pts, get())
			}
			for _, t := range fan(sc.Pts) {
				if !nonDegenerate(t) {
					continue again
				}
			}
			return sc
		}
		sc.Pts = [][2]int{{0, 0}, {w, 0}, {w, h}, {0, h}}
	case "mesh":
		sc.W, sc.H = w, h
		if rng.Intn(4) > 0 {
			sc.Pts = [][2]int{{0, 0}, {w, 0}, {0, h}, {w, h}}
		}
		n := rng.Intn(14)
		if !small {
			n = rng.Intn(60)
		}
		for i := 0; i < n; i++ {
			sc.Pts = append(sc.Pts, get())
		}
	}
	return sc
}

// runRaster: o.n scenarios in full, o.size further ones that are recorded if they look wrong; mode
// "all": all triangles of a grid of o.size x o.size instead, with all small block sizes.
func runRaster(o opts, s *sink) {
	if o.in != "" {
		eachScenario(o.in, func(b []byte) bool {
			var sc rScenario
			if err := json.Unmarshal(b, &sc); err != nil {
				die(err)
			}
			tr, _ := runR(sc, true)
			s.put(tr)
			return atomic.LoadInt32(&stuck) == 0
		})
		return
	}
	rng := rand.New(rand.NewSource(o.seed))
	bad := 0
	one := func(sc rScenario, full bool) {
		tr, b := runR(sc, full)
		if full || b {
			s.put(tr)
		}
		s.count("shapes", 1)
		if b {
			bad++
			s.count("suspicious", 1)
		}
	}
	stop := func() bool { return bad >= 3 || atomic.LoadInt32(&stuck) != 0 || time.Now().After(o.deadline) }
	if o.mode == "all" {
		g := o.size
		n := (g + 1) * (g + 1)
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				if (i+j)%o.n != int(o.seed)%o.n { // a share of them
					continue
				}
				for k := 0; k < n && !stop(); k++ {
					p := [][2]int{{i % (g + 1), i / (g + 1)}, {j % (g + 1), j / (g + 1)}, {k % (g + 1), k / (g + 1)}}
					if nonDegenerate(toTri(p[0], p[1], p[2])) {
						one(rScenario{Kind: "tri", Pts: p, BS: []int{1, 2, 3}}, false)
					}
				}
			}
		}
		return
	}
	for i := 0; i < o.n+o.size && !stop(); i++ {
		one(randomRScenario(rng, i < o.n), i < o.n)
	}
}
