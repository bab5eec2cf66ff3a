package main

import (
	"bufio"
	"encoding/json"
	"math"
	"math/rand"
	"os"
	"sync/atomic"
	"time"

	"github.com/RH12503/Triangula/geom"
	"github.com/RH12503/Triangula/normgeom"
	"github.com/RH12503/Triangula/polygonation"
	"github.com/RH12503/Triangula/triangulation"
)

// oScenario is a point group (in units of 1/4096) and an image size.
type oScenario struct {
	Kind string   `json:"kind"`
	Poly bool     `json:"poly,omitempty"`
	W    int      `json:"w"`
	H    int      `json:"h"`
	Pts  [][2]int `json:"pts"`
}

const unit = 4096

// unitPoints returns n points in units of 1/4096 which lie around the pixels that src returns.
func unitPoints(rng *rand.Rand, n, w, h int, src func() pt) [][2]int {
	one := func(v, m int) int {
		u := int(math.Round(float64(v) * unit / float64(m)))
		if rng.Intn(3) == 0 {
			u += rng.Intn(unit/m+1) - rng.Intn(unit/m+1)
		}
		if rng.Intn(12) == 0 {
			u = int(math.Round((float64(v) + 0.5) * unit / float64(m)))
		}
		if u < 0 {
			u = 0
		}
		if u > unit {
			u = unit
		}
		return u
	}
	r := make([][2]int, 0, n)
	for i := 0; i < n; i++ {
		p := src()
		r = append(r, [2]int{one(p.x, w), one(p.y, h)})
	}
	return r
}

func group(pts [][2]int) normgeom.NormPointGroup {
	g := make(normgeom.NormPointGroup, 0, len(pts))
	for _, p := range pts {
		g = append(g, normgeom.NormPoint{X: float64(p[0]) / unit, Y: float64(p[1]) / unit})
	}
	return g
}

func place(i, w int) int { return (2*i*w + unit) / (2 * unit) }

func placed(pts [][2]int, w, h int) []pt {
	b := &bagT{}
	for _, p := range pts {
		b.add(pt{place(p[0], w), place(p[1], h)})
	}
	return b.distinct()
}

// exactCells clips the image to the cell of each point.
func exactCells(pts []pt, w, h int) []cellInfo {
	var r []cellInfo
	for i, p := range pts {
		v := []fp{{0, 0}, {float64(w), 0}, {float64(w), float64(h)}, {0, float64(h)}}
		for j, q := range pts {
			if i == j {
				continue
			}
			dx, dy := float64(q.x-p.x), float64(q.y-p.y)
			c := (float64(q.x*q.x+q.y*q.y) - float64(p.x*p.x+p.y*p.y)) / 2
			side := func(a fp) float64 { return a.x*dx + a.y*dy - c }
			var n []fp
			for k := range v {
				a, b := v[k], v[(k+1)%len(v)]
				sa, sb := side(a), side(b)
				if sa <= 0 {
					n = append(n, a)
				}
				if (sa < 0 && sb > 0) || (sa > 0 && sb < 0) {
					t := sa / (sa - sb)
					n = append(n, fp{a.x + (b.x-a.x)*t, a.y + (b.y-a.y)*t})
				}
			}
			v = n
		}
		var d []fp
		near := func(a, b fp) bool { return math.Abs(a.x-b.x)+math.Abs(a.y-b.y) < 1e-6 }
		for _, a := range v {
			if len(d) == 0 || !near(a, d[len(d)-1]) {
				d = append(d, a)
			}
		}
		for len(d) > 1 && near(d[0], d[len(d)-1]) {
			d = d[:len(d)-1]
		}
		r = append(r, cellInfo{v: d, site: i})
	}
	return r
}

// rounds as in OneShotMon.tla
func rounds(v fp, r geom.Point) bool {
	const e = 0.5 + 3.0/1024
	return math.Abs(v.x-float64(r.X)) <= e && math.Abs(v.y-float64(r.Y)) <= e
}

func follows(v []fp, p []geom.Point) bool {
	n, k := len(v), len(p)
	if n == 0 || k == 0 {
		return false
	}
	for s := 0; s < n; s++ {
		for _, d := range []int{1, n - 1} {
			if !rounds(v[s], p[0]) {
				continue
			}
			cur := make([]bool, k)
			cur[0] = true
			for i := 0; i <= n; i++ {
				u := v[(s+d*i)%n]
				next := make([]bool, k)
				for j := 0; j < k; j++ {
					if !rounds(u, p[j]) {
						continue
					}
					if i == 0 {
						next[j] = j == 0 || next[j-1]
					} else {
						next[j] = cur[j] || (j > 0 && (cur[j-1] || next[j-1]))
					}
				}
				cur = next
				if i >= n-1 && cur[k-1] {
					return true
				}
			}
		}
	}
	return false
}

// assign matches polygons to points such that each one follows its point's cell, if possible.
func assign(polys []geom.Polygon, cells []cellInfo) ([]int, bool) {
	site := make([]int, len(polys)) // of a polygon
	owner := make([]int, len(cells))
	for i := range owner {
		owner[i] = -1
	}
	for i := range site {
		site[i] = -1
	}
	adj := make([][]int, len(polys))
	for i, p := range polys {
		for j, c := range cells {
			if follows(c.v, p.Points) {
				adj[i] = append(adj[i], j)
			}
		}
	}
	var try func(i int, seen map[int]bool) bool
	try = func(i int, seen map[int]bool) bool {
		for _, j := range adj[i] {
			if !seen[j] {
				seen[j] = true
				if owner[j] < 0 || try(owner[j], seen) {
					owner[j], site[i] = i, j
					return true
				}
			}
		}
		return false
	}
	ok := len(polys) == len(cells)
	for i := range polys {
		if !try(i, map[int]bool{}) {
			ok = false
		}
	}
	// Some cell for the rest
	for i := range site {
		for j := range owner {
			if site[i] < 0 && owner[j] < 0 {
				site[i], owner[j] = j, i
			}
		}
	}
	return site, ok
}

func runO(sc oScenario, full bool) (M, bool) {
	var ev []M
	bad := false
	g := group(sc.Pts)
	pts := placed(sc.Pts, sc.W, sc.H)
	if sc.Poly {
		var polys []geom.Polygon
		why := guard(func() { polys = polygonation.Polygonate(g, sc.W, sc.H) }, 20*time.Second)
		if why != "" {
			ev = append(ev, M{"e": "abort", "why": why})
			bad = true
		} else {
			cells := exactCells(pts, sc.W, sc.H)
			site, ok := assign(polys, cells)
			bad = !ok
			for _, p := range polys {
				for j, v := range p.Points {
					if v.X < 0 || v.X > sc.W || v.Y < 0 || v.Y > sc.H || (j > 0 && p.Points[j-1] == v) {
						bad = true
					}
				}
			}
			if full || bad {
				var out []M
				for i, p := range polys {
					s := []int{-1, -1}
					if site[i] >= 0 {
						s = []int{pts[site[i]].x, pts[site[i]].y}
					}
					v := [][]int{}
					for _, q := range p.Points {
						v = append(v, []int{clampInt(q.X), clampInt(q.Y)})
					}
					out = append(out, M{"s": s, "v": v})
				}
				if out == nil {
					out = []M{}
				}
				ev = append(ev, M{"e": "poly", "w": sc.W, "h": sc.H, "pts": sc.Pts, "cells": encodeCells(cells, pts), "polys": out})
			}
		}
	} else {
		var tris []geom.Triangle
		why := guard(func() { tris = triangulation.Triangulate(g, sc.W, sc.H) }, 20*time.Second)
		if why != "" {
			ev = append(ev, M{"e": "abort", "why": why})
			bad = true
		} else {
			var tr [][3]pt
			R := [][][]int{}
			for _, t := range tris {
				var k [3]pt
				var e [][]int
				for j, q := range t.Points {
					k[j] = pt{clampInt(q.X), clampInt(q.Y)}
					e = append(e, []int{k[j].x, k[j].y})
				}
				tr = append(tr, k)
				R = append(R, e)
			}
			bad = !hullDelaunay(tr, pts)
			if full || bad {
				e := M{"e": "tri", "w": sc.W, "h": sc.H, "pts": sc.Pts, "R": R}
				if len(R) > 600 {
					V, W := numbered(tr, pts)
					e = M{"e": "trib", "w": sc.W, "h": sc.H, "pts": sc.Pts, "V": V, "W": W}
				}
				ev = append(ev, e)
			}
		}
	}
	if ev == nil {
		ev = []M{}
	}
	b, _ := json.Marshal(sc)
	return M{"k": 1, "sc": string(b), "t": ev}, bad
}

func clampInt(x int) int {
	if x < -5000 {
		return -5000
	}
	if x > 8000 {
		return 8000
	}
	return x
}

// neighbours gives, for each edge of each triangle (counterclockwise), the number of a triangle that
// has the edge in the other direction, 0 if there is none.
func neighbours(tr [][3]pt) [][3]int {
	type edge struct{ a, b pt }
	of := map[edge]int{}
	ccw := func(t [3]pt) [3]pt {
		if orient(t[0], t[1], t[2]) <= 0 {
			t[1], t[2] = t[2], t[1]
		}
		return t
	}
	for i, t := range tr {
		t = ccw(t)
		for k := 0; k < 3; k++ {
			of[edge{t[k], t[(k+1)%3]}] = i + 1
		}
	}
	nb := [][3]int{}
	for _, t := range tr {
		t = ccw(t)
		var n [3]int
		for k := 0; k < 3; k++ {
			n[k] = of[edge{t[(k+1)%3], t[k]}]
		}
		nb = append(nb, n)
	}
	return nb
}

// numbered gives the points that occur, and the triangles (counterclockwise) with their neighbours
// in terms of these.
func numbered(tr [][3]pt, pts []pt) (V [][2]int, W [][6]int) {
	num := map[pt]int{}
	get := func(p pt) int {
		if num[p] == 0 {
			V = append(V, [2]int{p.x, p.y})
			num[p] = len(V)
		}
		return num[p]
	}
	for _, p := range pts {
		get(p)
	}
	nb := neighbours(tr)
	for i, t := range tr {
		if orient(t[0], t[1], t[2]) <= 0 {
			t[1], t[2] = t[2], t[1]
		}
		W = append(W, [6]int{get(t[0]), get(t[1]), get(t[2]), nb[i][0], nb[i][1], nb[i][2]})
	}
	return
}

// hullDelaunay is the quick version of HullTriangulation in OneShotMon.tla.
func hullDelaunay(tr [][3]pt, pts []pt) bool {
	coll := true
	for i := 2; i < len(pts); i++ {
		if orient(pts[0], pts[1], pts[i]) != 0 {
			coll = false
		}
	}
	if coll {
		return len(tr) == 0
	}
	set := map[pt]bool{}
	for _, p := range pts {
		set[p] = true
	}
	type edge struct{ a, b pt }
	edges := map[edge]bool{}
	for i, t := range tr {
		if !set[t[0]] || !set[t[1]] || !set[t[2]] {
			return false
		}
		o := orient(t[0], t[1], t[2])
		if o == 0 {
			return false
		}
		if o < 0 {
			t[1], t[2] = t[2], t[1]
			tr[i] = t
		}
		for k := 0; k < 3; k++ {
			e := edge{t[k], t[(k+1)%3]}
			if edges[e] {
				return false
			}
			edges[e] = true
		}
		for _, p := range pts {
			if len(pts) > 1000 {
				break // see below
			}
			if inCirc(t[0], t[1], t[2], p) > 0 {
				return false
			}
		}
	}
	for e := range edges {
		if !edges[edge{e.b, e.a}] {
			for _, p := range pts {
				if orient(e.a, e.b, p) < 0 {
					return false
				}
			}
		}
	}
	if len(pts) > 1000 { // as LocallyDelaunay in OneShotMon.tla
		for i, n := range neighbours(tr) {
			for _, j := range n {
				for k := 0; j > 0 && k < 3; k++ {
					if inCirc(tr[i][0], tr[i][1], tr[i][2], tr[j-1][k]) > 0 {
						return false
					}
				}
			}
			for _, v := range tr[i] {
				delete(set, v)
			}
		}
		if len(set) > 0 {
			return false
		}
	}
	return len(tr) > 0
}

func randomOScenario(rng *rand.Rand, poly, large, huge bool) oScenario {
	w, h := randomDims(rng)
	if poly && (w > 300 || h > 300) && rng.Intn(3) > 0 {
		w, h = w/10+2, h/10+2
	}
	kind := pointKinds[rng.Intn(len(pointKinds))]
	n := 1 + rng.Intn(14)
	switch {
	case huge:
		w, h = 400+rng.Intn(2600), 400+rng.Intn(2600)
		n = 1500 + rng.Intn(6500)
		if rng.Intn(4) == 0 { // more triangles than numbers of 16 bits, often more points, too
			w, h, n = 2000+rng.Intn(1000), 2000+rng.Intn(1000), 33000+rng.Intn(40000)
		}
		if poly {
			w, h = w/3, h/3
			n = 300 + rng.Intn(500)
		}
	case large:
		n = 20 + rng.Intn(200)
		if !poly {
			n *= 2
		}
	case rng.Intn(5) == 0:
		n = rng.Intn(30)
	}
	if poly && n == 0 {
		n = 1
	}
	return oScenario{Kind: kind, Poly: poly, W: w, H: h, Pts: unitPoints(rng, n, w, h, pointSource(kind, w, h, rng))}
}

func runOneShot(o opts, s *sink) {
	if o.in != "" {
		eachScenario(o.in, func(b []byte) bool {
			var sc oScenario
			if err := json.Unmarshal(b, &sc); err != nil {
				die(err)
			}
			tr, _ := runO(sc, true)
			s.put(tr)
			return atomic.LoadInt32(&stuck) == 0
		})
		return
	}
	rng := rand.New(rand.NewSource(o.seed))
	bad := 0
	for i := 0; i < o.n+o.size && bad < 3 && time.Now().Before(o.deadline); i++ {
		sc := randomOScenario(rng, o.mode == "poly", i >= o.n && i%20 == 0, i >= o.n && (i-o.n)%1500 == 50)
		tr, b := runO(sc, i < o.n)
		if i < o.n || b {
			s.put(tr)
		}
		s.count("groups", 1)
		s.count("points", len(sc.Pts))
		if b {
			bad++
			s.count("suspicious", 1)
		}
		if atomic.LoadInt32(&stuck) != 0 {
			return
		}
	}
}

// eachScenario calls f with each line of a file until it returns false.
func eachScenario(path string, f func([]byte) bool) {
	fl, err := os.Open(path)
	if err != nil {
		die(err)
	}
	rd := bufio.NewScanner(fl)
	rd.Buffer(make([]byte, 1<<20), 1<<28)
	for rd.Scan() && f(rd.Bytes()) {
	}
}
