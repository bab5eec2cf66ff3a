package main

import (
	"encoding/json"
	"math"
	"math/rand"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/RH12503/Triangula/algorithm"
	"github.com/RH12503/Triangula/algorithm/evaluator"
	"github.com/RH12503/Triangula/color"
	"github.com/RH12503/Triangula/fitness"
	"github.com/RH12503/Triangula/image"
	"github.com/RH12503/Triangula/mutation"
	"github.com/RH12503/Triangula/normgeom"
	"github.com/RH12503/Triangula/rasterize"
	"github.com/RH12503/Triangula/triangulation/incrdelaunay"
)

// fScenario is a history of evaluations: the slots are members of a population with an evaluator.
// Every world has its own evaluator, with a cache of 2^pow entries, and sees the same history.
type fScenario struct {
	Kind string `json:"kind"`
	Poly bool   `json:"poly,omitempty"`
	W    int    `json:"w"`
	H    int    `json:"h"`
	Pic  string `json:"pic"` // kind of image
	PSd  int64  `json:"psd"` // and its seed
	BS   int    `json:"bs"`  // block size of the worlds
	Pow  []int  `json:"pow"`
	SBS  []int  `json:"sbs"` // block sizes of functions that start from scratch
	N    int    `json:"n"`   // slots
	Ops  []fOp  `json:"ops"`
}

// fOp: "c" evaluates slot M (points Pts, or, with base B, the base's points with Mut applied, or, with
// neither, its points again), "p" prepares, "s" swaps slots M and B
type fOp struct {
	K   string   `json:"k"`
	M   int      `json:"m,omitempty"`
	B   int      `json:"b,omitempty"`
	Pts [][2]int `json:"p,omitempty"`
	Mut [][3]int `json:"u,omitempty"` // index, new coordinates
}

// picture is an image of which every colour is known exactly: u (1 or 255) is 1.0.
type picture struct {
	w, h int
	u    int
	c    [][3]int
}

func (p *picture) Size() (int, int) { return p.w, p.h }
func (p *picture) RGBAt(x, y int) color.RGB {
	if x < 0 || y < 0 || x >= p.w || y >= p.h {
		panic("Triangula RH12503: a colour outside of the image")
	}
	c := p.c[y*p.w+x]
	u := float64(p.u)
	return color.RGB{R: float64(c[0]) / u, G: float64(c[1]) / u, B: float64(c[2]) / u}
}

var _ image.Data = &picture{}

var picKinds = []string{"noise", "binary", "bright", "gradient", "blobs", "const", "sparse", "binary"}

func makePicture(kind string, w, h int, seed int64) *picture {
	rng := rand.New(rand.NewSource(seed))
	p := &picture{w: w, h: h, u: 255, c: make([][3]int, w*h)}
	if w*h > 10000 || kind == "binary" || kind == "sparse" {
		p.u = 1
	}
	q := [3]int{rng.Intn(256), rng.Intn(256), rng.Intn(256)}
	a, b, d := rng.Intn(9)+1, rng.Intn(9)+1, rng.Intn(200)+20
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			var v [3]int
			for k := range v {
				switch kind {
				case "noise", "binary":
					v[k] = rng.Intn(256)
				case "bright":
					v[k] = 255 - rng.Intn(1+rng.Intn(30))
				case "gradient":
					v[k] = (a*x + b*y*(k+1) + d*k) % 256
				case "blobs":
					v[k] = int(127.5 + 127.4*math.Sin(float64(x*a+k)/9)*math.Cos(float64(y*b)/7))
				case "sparse":
					v[k] = 255
					if rng.Intn(w+h) == 0 {
						v[k] = 0
					}
				default:
					v[k] = q[k]
				}
				if p.u == 1 {
					v[k] /= 128
				}
			}
			p.c[y*w+x] = v
		}
	}
	return p
}

// units: D is measured in units of 1/unitD of the square of the largest colour difference
func (p *picture) scale() int {
	if p.u == 255 {
		return 255
	}
	return 16
}

// difference is D of a fitness in those units.
func (p *picture) difference(f float64) float64 {
	s := float64(p.scale())
	return (1 - f) * 3 * s * s * float64(p.w) * float64(p.h)
}

func toInt(d float64) int {
	r := math.Round(d)
	if !(math.Abs(r) < 2147480000) {
		return -2147480000
	}
	return int(r)
}

type fShape struct {
	v   [][2]int
	l   [][3]int
	odd bool // has a degenerate part of which pixels are drawn
}

func shapeOf(v [][2]int) fShape {
	s := fShape{v: v}
	for i := 2; i < len(v); i++ {
		t := toTri(v[i], v[i-1], v[0])
		for _, l := range drawLines(t) {
			if l[0] == l[1] {
				continue
			}
			s.l = append(s.l, l)
			if !nonDegenerate(t) || l[0] > l[1] {
				s.odd = true
			}
		}
		for _, bs := range []int{1, 2, 5} {
			if !nonDegenerate(t) {
				rasterize.DDATriangleBlocks(t, bs, func(x0, x1, y int) {
					if x0 != x1 {
						s.odd = true
					}
				}, func(x, y int) { s.odd = true })
			}
		}
	}
	return s
}

// variance of the shapes, for a quick check
func (p *picture) variance(shapes []fShape) float64 {
	d := 0.0
	k := float64(p.scale()) / float64(p.u)
	for _, s := range shapes {
		var n, sq float64
		var sum [3]float64
		for _, l := range s.l {
			for x := l[0]; x < l[1]; x++ {
				if x < 0 || x >= p.w || l[2] < 0 || l[2] >= p.h {
					return math.Inf(1)
				}
				c := p.c[l[2]*p.w+x]
				for j, v := range c {
					u := float64(v) * k
					sum[j] += u
					sq += u * u
				}
				n++
			}
		}
		if n > 0 {
			d += sq - (sum[0]*sum[0]+sum[1]*sum[1]+sum[2]*sum[2])/n
		}
	}
	return d
}

func triFunctions(poly bool) func(image.Data, int, int) []fitness.CacheFunction {
	if poly {
		return fitness.PolygonsImageFunctions
	}
	return fitness.TrianglesImageFunctions
}

// fresh are functions that haven't been used yet, by block size.
type fresh map[int][]fitness.CacheFunction

// scratch evaluates with a new function.
func (fr fresh) scratch(sc fScenario, pic *picture, bs int, g normgeom.NormPointGroup) float64 {
	if len(fr[bs]) == 0 {
		n := 1
		if len(sc.SBS) == 1 && len(sc.Ops) != 1 || sc.Kind == "algo" {
			n = 12 // Many are going to be needed
		}
		fr[bs] = triFunctions(sc.Poly)(pic, bs, n)
		if !sc.Poly && (n > 1 || len(g)%2 == 0) {
			fr[bs][n-1] = fitness.NewTrianglesImageFunction(pic, bs)
		}
	}
	f := fr[bs][len(fr[bs])-1]
	fr[bs] = fr[bs][:len(fr[bs])-1]
	return f.Calculate(fitness.PointsData{Points: append(normgeom.NormPointGroup{}, g...)})
}

// parallel is what evaluator.NewParallel returns.
type parallel interface {
	evaluator.Evaluator
}

type fState struct {
	sc     fScenario
	pic    *picture
	worlds []parallel
	fresh  fresh
	pts    [][][2]int // of every slot
	ev     []M
	bad    bool
	mesh   bool // a triangulation that isn't unique was seen
}

// shapes returns the shapes that the fitness of points is about.
func (s *fState) shapes(pts [][2]int, ev M) (shapes []fShape, unique bool) {
	pl := placed(pts, s.sc.W, s.sc.H)
	if s.sc.Poly {
		v := incrdelaunay.NewVoronoi(s.sc.W, s.sc.H)
		for _, p := range pts {
			v.Insert(fpt(place(p[0], s.sc.W), place(p[1], s.sc.H)))
		}
		v.IterPolygons(func(p []incrdelaunay.FloatPoint) {
			var q [][2]int
			for _, a := range p {
				n := [2]int{int(math.Round(a.X)), int(math.Round(a.Y))}
				if len(q) == 0 || q[len(q)-1] != n {
					q = append(q, n)
				}
			}
			shapes = append(shapes, shapeOf(q))
		})
		unique = true
		for _, h := range shapes {
			unique = unique && !h.odd
		}
		return
	}
	w := newWitness(superOf(s.sc.W, s.sc.H), pl, func(map[pt]int) map[[3]int]bool { return nil })
	ev["V"], ev["W"] = w.points(), w.encode()
	for _, t := range w.t {
		if t[0] > 2 && t[1] > 2 && t[2] > 2 {
			var q [][2]int
			for _, k := range t {
				q = append(q, [2]int{w.v[k].x, w.v[k].y})
			}
			shapes = append(shapes, shapeOf(q))
		}
	}
	return shapes, w.unique
}

func (s *fState) blank2(shapes []fShape) int {
	if s.sc.Poly {
		return 0
	}
	b := 2 * s.sc.W * s.sc.H
	for _, h := range shapes {
		t := toTri(h.v[0], h.v[1], h.v[2])
		a, b1, c := t.Points[0], t.Points[1], t.Points[2]
		area := (b1.X-a.X)*(c.Y-a.Y) - (c.X-a.X)*(b1.Y-a.Y)
		if area < 0 {
			area = -area
		}
		b -= area
	}
	return b
}

func (s *fState) apply(op fOp, full bool) {
	switch op.K {
	case "p":
		for _, e := range s.worlds {
			e.Prepare()
		}
	case "s":
		for _, e := range s.worlds {
			e.Swap(op.M-1, op.B-1)
		}
		s.pts[op.M-1], s.pts[op.B-1] = s.pts[op.B-1], s.pts[op.M-1]
		s.ev = append(s.ev, M{"e": "swap", "m": op.M, "b": op.B})
	case "c":
		ev := M{"e": "calc", "m": op.M, "b": op.B}
		mut := [][]int{}
		var muts []mutation.Mutation
		if op.B > 0 {
			pts := append([][2]int{}, s.pts[op.B-1]...)
			old := group(pts)
			for _, u := range op.Mut {
				pts[u[0]] = [2]int{u[1], u[2]}
			}
			now := group(pts)
			for _, u := range op.Mut {
				mut = append(mut, []int{u[0] + 1, u[1], u[2]})
				muts = append(muts, mutation.Mutation{Old: old[u[0]], New: now[u[0]], Index: u[0]})
			}
			s.pts[op.M-1] = pts
		} else if op.Pts != nil {
			s.pts[op.M-1] = op.Pts
		}
		pts := s.pts[op.M-1]
		ev["u"] = mut
		var ds []float64
		for _, e := range s.worlds {
			if op.B > 0 {
				e.SetBase(op.M-1, op.B-1)
			}
			f := e.Get(op.M - 1).Calculate(fitness.PointsData{Points: group(pts), Mutations: append([]mutation.Mutation{}, muts...)})
			e.Update(op.M - 1)
			ds = append(ds, s.pic.difference(f))
		}
		s.judge(ev, pts, ds, full)
	}
}

// judge adds what the values should be.
func (s *fState) judge(ev M, pts [][2]int, ds []float64, full bool) {
	sc := s.sc
	ev["pts"] = pts
	var ss []float64
	for _, bs := range sc.SBS {
		ss = append(ss, s.pic.difference(s.fresh.scratch(sc, s.pic, bs, group(pts))))
	}
	shapes, unique := s.shapes(pts, ev)
	if !unique {
		s.mesh = true
	}
	drawn := 0 // pixels, of which each has a square that is rounded down
	for _, h := range shapes {
		for _, l := range h.l {
			if l[1] > l[0] {
				drawn += l[1] - l[0]
			}
		}
	}
	k := float64(s.pic.scale())
	want := s.pic.variance(shapes) + 1.5*k*k*float64(s.blank2(shapes))
	for i, d := range append(append([]float64{}, ds...), ss...) {
		ref := ss[0]
		if i < len(ds) {
			ref = ds[0]
		}
		tol := 0.5
		if !(math.Abs(d-ref) < tol) {
			s.bad = true
		}
		low := 1.
		if s.pic.u == 255 {
			low += float64(drawn)
		}
		if unique && !(d > want-low && d < want+1) {
			s.bad = true
		}
	}
	if unique && len(ds) > 0 && len(ss) > 0 && !(math.Abs(ds[0]-ss[0]) < 0.5) {
		s.bad = true
	}
	if !full && !s.bad {
		return
	}
	enc := func(f []float64) []int {
		r := []int{}
		for _, d := range f {
			r = append(r, toInt(d))
		}
		return r
	}
	ev["d"], ev["s"] = enc(ds), enc(ss)
	sh := []M{}
	for _, h := range shapes {
		sh = append(sh, M{"v": h.v, "l": none(h.l)})
	}
	ev["sh"], ev["odd"] = sh, sc.Poly && !unique
	s.ev = append(s.ev, ev)
}

func runF(sc fScenario, full bool) (M, bool) {
	if sc.Kind == "algo" {
		return runAlgo(sc, full)
	}
	if sc.Kind == "flat" {
		return runFlat(sc)
	}
	s := &fState{sc: sc, fresh: fresh{}, pts: make([][][2]int, sc.N)}
	why := guard(func() {
		s.pic = makePicture(sc.Pic, sc.W, sc.H, sc.PSd)
		for _, p := range sc.Pow {
			s.worlds = append(s.worlds, evaluator.NewParallel(triFunctions(sc.Poly)(s.pic, sc.BS, sc.N), p))
		}
		for _, op := range sc.Ops {
			s.apply(op, full)
		}
	}, 60*time.Second)
	if why != "" {
		s.ev = append(s.ev, M{"e": "abort", "why": why})
		s.bad = true
	}
	return s.trace(full), s.bad
}

func (s *fState) trace(full bool) M {
	sc := s.sc
	if s.ev == nil {
		s.ev = []M{}
	}
	b, _ := json.Marshal(sc)
	tr := M{"k": sc.N, "sc": string(b), "t": s.ev, "poly": sc.Poly, "w": sc.W, "h": sc.H, "algo": sc.Kind == "algo"}
	if s.pic != nil {
		tr["unit"], tr["mul"] = s.pic.scale(), s.pic.scale()/s.pic.u
		if full || s.bad {
			rows := make([][]int, sc.H)
			for y := range rows {
				rows[y] = make([]int, sc.W)
				for x := range rows[y] {
					c := s.pic.c[y*sc.W+x]
					rows[y][x] = c[0]<<16 | c[1]<<8 | c[2]
				}
			}
			tr["img"] = rows
		}
	}
	return tr
}

// ---- scenarios ------------------------------------------------------------------------------------

func randomFScenario(rng *rand.Rand, mode string, small bool) fScenario {
	sc := fScenario{Kind: "f", Poly: rng.Intn(2) == 0, Pic: picKinds[rng.Intn(len(picKinds))], PSd: rng.Int63()}
	m := []int{6, 12, 20, 30}[rng.Intn(4)]
	if !small {
		m = []int{6, 12, 20, 40, 80, 120, 200}[rng.Intn(7)]
	}
	sc.W, sc.H = 1+rng.Intn(m), 1+rng.Intn(m)
	if rng.Intn(3) == 0 {
		sc.W, sc.H = m, m
	}
	if !small && rng.Intn(9) == 0 { // wide or tall
		sc.W, sc.H = 250+rng.Intn(2750), 1+rng.Intn(6)
		if rng.Intn(2) == 0 {
			sc.W, sc.H = sc.H, sc.W
		}
		m = 6
	}
	block := func() int {
		b := 1 + rng.Intn(6)
		if rng.Intn(4) == 0 {
			b = 1 + rng.Intn(m+3)
		}
		// preparing the blocks takes (w-b+1)(h-b+1)b^2
		for b > 8 && (sc.W-b+1)*(sc.H-b+1) > 0 && (sc.W-b+1)*(sc.H-b+1)*b*b > 2000000 {
			b = b * 2 / 3
		}
		return b
	}
	sc.BS = block()
	if mode == "collide" {
		return collisions(rng, sc, small)
	}
	src := pointSource(pointKinds[rng.Intn(len(pointKinds))], sc.W, sc.H, rng)
	gen := func(n int) [][2]int {
		p := unitPoints(rng, n, sc.W, sc.H, src)
		if rng.Intn(2) == 0 { // cover the image
			for i, c := range [][2]int{{0, 0}, {unit, 0}, {0, unit}, {unit, unit}} {
				if i < len(p) {
					p[i] = c
				}
			}
		}
		return p
	}
	np := 1 + rng.Intn(12)
	if mode == "flat" {
		sc = fScenario{Kind: "flat", Poly: true, PSd: rng.Int63(), W: 2950 + rng.Intn(50), H: 2990 + rng.Intn(10), N: 1, SBS: []int{2}}
		sc.Ops = []fOp{{K: "c", M: 1, Pts: [][2]int{{rng.Intn(unit), rng.Intn(unit)}}}}
		return sc
	}
	if !small && rng.Intn(2) == 0 {
		np = 1 + rng.Intn(60)
		if rng.Intn(20) == 0 {
			np = 200 + rng.Intn(200)
		}
	}
	if mode == "scratch" {
		sc.N = 1
		for i := 0; i < 2+rng.Intn(3); i++ {
			sc.SBS = append(sc.SBS, block())
		}
		if rng.Intn(3) == 0 { // a block that just fits in
			b := sc.W
			if sc.H < b {
				b = sc.H
			}
			if c := (sc.W - b + 1) * (sc.H - b + 1); c*b*b < 4000000 {
				sc.SBS = append(sc.SBS, b)
			}
		}
		sc.Ops = []fOp{{K: "c", M: 1, Pts: gen(np)}}
		return sc
	}
	sc.SBS = []int{block()}
	sc.Pow = []int{0, 1, 1 + rng.Intn(5), 5 + rng.Intn(8)}
	sc.N = 3 + rng.Intn(4)
	cutoff := 1 + rng.Intn(sc.N/2)
	gens := 2 + rng.Intn(3)
	if !small {
		gens = 2 + rng.Intn(10)
	}
	if mode == "algo" {
		sc.Kind = "algo"
		sc.N = 4 + rng.Intn(8)
		sc.Pow = []int{1 + rng.Intn(sc.N/2), 1 + rng.Intn(4), rng.Intn(12), rng.Intn(3) / 2}
		if !small {
			sc.Pow[1] = 1 + rng.Intn(12)
		}
		sc.Ops = []fOp{{M: np + 2}}
		return sc
	}
	have := make([]bool, sc.N+1)
	first := gen(np)
	for i := 1; i <= sc.N-cutoff; i++ {
		if rng.Intn(3) == 0 {
			first = gen(np)
		}
		sc.Ops = append(sc.Ops, fOp{K: "c", M: i, Pts: first})
		have[i] = true
	}
	pts := func() [2]int { return gen2(rng, sc, src) }
	for g := 0; g < gens; g++ {
		// the evaluator's order: all of the generation, then swaps into the order of fitness
		for k := rng.Intn(sc.N); k > 0; k-- {
			a, b := 1+rng.Intn(sc.N), 1+rng.Intn(sc.N)
			if a != b && !(a <= cutoff && !have[b]) && !(b <= cutoff && !have[a]) {
				sc.Ops = append(sc.Ops, fOp{K: "s", M: a, B: b})
				have[a], have[b] = have[b], have[a]
			}
		}
		sc.Ops = append(sc.Ops, fOp{K: "p"})
		muts := func() [][3]int {
			var u [][3]int
			k := rng.Intn(3)
			if rng.Intn(6) == 0 {
				k = rng.Intn(np + 1)
			}
			for _, i := range rng.Perm(np) {
				if len(u) >= k {
					break
				}
				p := pts()
				u = append(u, [3]int{i, p[0], p[1]})
			}
			return u
		}
		for _, i := range rng.Perm(sc.N) {
			i++
			switch {
			case i <= cutoff:
				// Bases are only evaluated again (their points don't change)
				sc.Ops = append(sc.Ops, fOp{K: "c", M: i})
			case i <= sc.N-cutoff || rng.Intn(2) == 0:
				sc.Ops = append(sc.Ops, fOp{K: "c", M: i, B: 1 + rng.Intn(cutoff), Mut: muts()})
				have[i] = true
			}
		}
	}
	return sc
}

// collisions is a history in which shapes follow others that have the same hash. They're found among the
// shapes of random groups, whatever the hash is.
func collisions(rng *rand.Rand, sc fScenario, small bool) fScenario {
	sc.Pic = []string{"binary", "sparse", "noise"}[rng.Intn(3)]
	sc.W, sc.H = 4+rng.Intn(20), 4+rng.Intn(20)
	np, n := 3+rng.Intn(2), 800
	if !small {
		sc.W, sc.H = 60+rng.Intn(100), 100+rng.Intn(120)
		n = 2500
	}
	if sc.Poly {
		np = 1 + rng.Intn(4)
	}
	sc.BS = 1 + rng.Intn(4)
	sc.SBS = []int{1 + rng.Intn(4)}
	sc.Pow = []int{0, 6, 12, 17}
	point := func() [2]int {
		return [2]int{(rng.Intn(sc.W+1)*unit*2 + sc.W) / (2 * sc.W), (rng.Intn(sc.H+1)*unit*2 + sc.H) / (2 * sc.H)}
	}
	groups := make([][][2]int, n)
	type member struct{ g, s int }
	found := map[uint64][]member{}
	why := guard(func() {
		fs := triFunctions(sc.Poly)(makePicture("const", sc.W, sc.H, 1), 1, n)
		var edge [2][2]int
		for i := range groups {
			if i%(n/2) == 0 { // triangles over the same edge, then any triangles
				edge = [2][2]int{point(), point()}
			}
			g := make([][2]int, np)
			for k := range g {
				g[k] = point()
				if k < 2 && i < n/2 {
					g[k] = edge[k]
				}
			}
			groups[i] = g
			fs[i].Calculate(fitness.PointsData{Points: group(g)})
			for k, d := range fs[i].Cache() {
				found[d.Hash()] = append(found[d.Hash()], member{i, k})
			}
		}
	}, 60*time.Second)
	if why != "" {
		return sc
	}
	var hashes []uint64
	for h, m := range found {
		if len(m) > 1 {
			hashes = append(hashes, h)
		}
	}
	sort.Slice(hashes, func(i, j int) bool { return hashes[i] < hashes[j] })
	rng.Shuffle(len(hashes), func(i, j int) { hashes[i], hashes[j] = hashes[j], hashes[i] })
	k := 6
	var after []fOp
	for i := 1; i <= k; i++ {
		a, b := rng.Intn(n), rng.Intn(n)
		if i <= len(hashes) {
			m := found[hashes[i-1]]
			x := rng.Intn(len(m))
			a, b = m[x].g, m[(x+1+rng.Intn(len(m)-1))%len(m)].g
		}
		var mut [][3]int
		for j := range groups[a] {
			if groups[a][j] != groups[b][j] {
				mut = append(mut, [3]int{j, groups[b][j][0], groups[b][j][1]})
			}
		}
		sc.Ops = append(sc.Ops, fOp{K: "c", M: i, Pts: groups[a]}, fOp{K: "c", M: k + i, Pts: groups[a]})
		after = append(after, fOp{K: "c", M: i}, fOp{K: "c", M: k + i, B: i, Mut: mut})
	}
	sc.N = 2 * k
	sc.Ops = append(append(sc.Ops, fOp{K: "p"}), after...)
	return sc
}

func gen2(rng *rand.Rand, sc fScenario, src func() pt) [2]int {
	return unitPoints(rng, 1, sc.W, sc.H, src)[0]
}

// runFlat: a single shape, as large as they get. In an image of one colour it differs by nothing.
func runFlat(sc fScenario) (M, bool) {
	ds := []float64{}
	ev := M{"e": "flat"}
	why := guard(func() {
		pic := makePicture("const", sc.W, sc.H, sc.PSd)
		pic.u = 255
		for i := range pic.c {
			pic.c[i] = [3]int{255, 255 - sc.W%9, 255}
		}
		for _, bs := range sc.SBS {
			ds = append(ds, pic.difference(fresh{}.scratch(sc, pic, bs, group(sc.Ops[0].Pts))))
		}
		pic.c = nil
	}, 120*time.Second)
	bad := why != ""
	r := []int{}
	for _, d := range ds {
		r = append(r, toInt(d))
		bad = bad || math.Abs(d) > 0.5
	}
	ev["s"] = r
	if why != "" {
		ev = M{"e": "abort", "why": why}
	}
	b, _ := json.Marshal(sc)
	return M{"k": 1, "sc": string(b), "t": []M{ev}, "w": sc.W, "h": sc.H}, bad
}

// recFn records the evaluations that an algorithm makes.
type recFn struct {
	fitness.CacheFunction
	id, base int
	rec      *recorder
}

type recorder struct {
	sync.Mutex
	calls []recCall
}

type recCall struct {
	id, base int
	pts      normgeom.NormPointGroup
	muts     []mutation.Mutation
	f        float64
}

func (r *recFn) SetBase(o fitness.CacheFunction) {
	r.base = o.(*recFn).id
	r.CacheFunction.SetBase(o.(*recFn).CacheFunction)
}

func (r *recFn) Calculate(d fitness.PointsData) float64 {
	c := recCall{id: r.id, base: r.base, pts: d.Points.Copy(), muts: append([]mutation.Mutation{}, d.Mutations...)}
	r.base = 0
	c.f = r.CacheFunction.Calculate(d)
	r.rec.Lock()
	r.rec.calls = append(r.rec.calls, c)
	r.rec.Unlock()
	return c.f
}

// unitMutator moves points to others in units of 1/4096.
type unitMutator struct {
	rng  *rand.Rand
	next func() [2]int
	rate float64
}

func (u *unitMutator) Mutate(p normgeom.NormPointGroup, mutated func(mutation.Mutation)) {
	for i := range p {
		if u.rng.Float64() < u.rate {
			old := p[i]
			n := u.next()
			p[i] = normgeom.NormPoint{X: float64(n[0]) / unit, Y: float64(n[1]) / unit}
			mutated(mutation.Mutation{Old: old, New: p[i], Index: i})
		}
	}
}

// runAlgo runs one of the genetic algorithms: sc.Pow is {cutoff, generations, cache, simple?}.
func runAlgo(sc fScenario, full bool) (M, bool) {
	s := &fState{sc: sc, fresh: fresh{}, pts: make([][][2]int, sc.N)}
	rec := &recorder{}
	var fns []fitness.CacheFunction
	cutoff, gens, pow, simple := sc.Pow[0], sc.Pow[1], sc.Pow[2], sc.Pow[3] == 1
	why := guard(func() {
		s.pic = makePicture(sc.Pic, sc.W, sc.H, sc.PSd)
		rng := rand.New(rand.NewSource(sc.PSd))
		src := pointSource(pointKinds[rng.Intn(len(pointKinds))], sc.W, sc.H, rng)
		next := func() [2]int { return unitPoints(rng, 1, sc.W, sc.H, src)[0] }
		np := sc.Ops[0].M
		ev := func(n int) evaluator.Evaluator {
			fns = triFunctions(sc.Poly)(s.pic, sc.BS, n)
			for i := range fns {
				fns[i] = &recFn{CacheFunction: fns[i], id: i + 1, rec: rec}
			}
			return evaluator.NewParallel(fns, pow)
		}
		mut := &unitMutator{rng: rng, next: next, rate: 1.5 / float64(np)}
		first := func() normgeom.NormPointGroup { return group(unitPoints(rng, np, sc.W, sc.H, src)) }
		var a algorithm.Algorithm
		if simple {
			a = algorithm.NewSimple(first, sc.N, cutoff, ev, mut)
		} else {
			a = algorithm.NewModifiedGenetic(first, sc.N, cutoff, ev, mut)
		}
		for i := 0; i < gens; i++ {
			a.Step()
		}
	}, 30*time.Second)
	rec.Lock()
	defer rec.Unlock()
	if why == "" {
		why = guard(func() {
			for _, c := range rec.calls {
				s.record(c, full)
			}
			if s.bad && !full { // once more, for all events
				s.ev, s.pts = nil, make([][][2]int, sc.N)
				for _, c := range rec.calls {
					s.record(c, true)
				}
			}
		}, 60*time.Second)
	}
	if why != "" {
		s.ev = append(s.ev, M{"e": "abort", "why": why})
		s.bad = true
	}
	return s.trace(full), s.bad
}

func units(p normgeom.NormPointGroup) [][2]int {
	r := make([][2]int, 0, len(p))
	for _, q := range p {
		r = append(r, [2]int{int(math.Round(q.X * unit)), int(math.Round(q.Y * unit))})
	}
	return r
}

// record turns the recorded evaluation into an event.
func (s *fState) record(c recCall, full bool) {
	pts := units(c.pts)
	mut := [][]int{}
	for _, m := range c.muts {
		n := units(normgeom.NormPointGroup{m.New})[0]
		mut = append(mut, []int{m.Index + 1, n[0], n[1]})
	}
	if c.base == 0 && len(mut) > 0 && s.pts[c.id-1] != nil {
		s.bad = true
	}
	s.pts[c.id-1] = pts
	s.judge(M{"e": "calc", "m": c.id, "b": c.base, "u": mut}, pts, []float64{s.pic.difference(c.f)}, full)
}

func runFitness(o opts, s *sink) {
	if o.in != "" {
		eachScenario(o.in, func(b []byte) bool {
			var sc fScenario
			if err := json.Unmarshal(b, &sc); err != nil {
				die(err)
			}
			tr, _ := runF(sc, true)
			s.put(tr)
			return atomic.LoadInt32(&stuck) == 0
		})
		return
	}
	rng := rand.New(rand.NewSource(o.seed))
	bad := 0
	for i := 0; i < o.n+o.size && bad < 3 && atomic.LoadInt32(&stuck) == 0 && time.Now().Before(o.deadline); i++ {
		sc := randomFScenario(rng, o.mode, i < o.n)
		tr, b := runF(sc, i < o.n)
		if b && i >= o.n && sc.Kind == "f" { // once more, for all events
			tr, b = runF(sc, true)
		}
		if i < o.n || b {
			s.put(tr)
		}
		s.count("histories", 1)
		s.count("evaluations", len(sc.Ops))
		if b {
			bad++
			s.count("suspicious", 1)
		}
	}
}
