package main

import (
	"bufio"
	"encoding/json"
	"math"
	"math/rand"
	"os"
	"sort"
	"sync/atomic"
	"time"

	"github.com/RH12503/Triangula/triangulation/incrdelaunay"
)

// An operation on one of the objects: "i" insert, "r" remove, "s" set O to From, "o" observe.
type dOp struct {
	K    string `json:"k"`
	O    int    `json:"o"`
	X    int    `json:"x,omitempty"`
	Y    int    `json:"y,omitempty"`
	From int    `json:"f,omitempty"`
	N    int    `json:"n,omitempty"` // b: as many points that aren't there, c: copies, d: copies removed
	Seed int64  `json:"seed,omitempty"`
}

// dScenario is a history of operations. Objects are numbered from 1; with Shadows, object Objs+i
// goes through the history of object i without any copying.
type dScenario struct {
	Kind    string   `json:"kind"`
	Dims    [][2]int `json:"dims"` // of each object
	Shadows bool     `json:"shadows,omitempty"`
	Ops     []dOp    `json:"ops"`
}

// ---- scenario generation ----------------------------------------------------------------------

// pointSource returns a generator of points within a w x h image, borders included.
func pointSource(kind string, w, h int, rng *rand.Rand) func() pt {
	clamp := func(v, m int) int {
		if v < 0 {
			return 0
		}
		if v > m {
			return m
		}
		return v
	}
	switch kind {
	case "lattice":
		k := 1 + rng.Intn(3)
		return func() pt { return pt{rng.Intn(w/k+1) * k, rng.Intn(h/k+1) * k} }
	case "border":
		return func() pt {
			switch rng.Intn(6) {
			case 0:
				return pt{0, rng.Intn(h + 1)}
			case 1:
				return pt{w, rng.Intn(h + 1)}
			case 2:
				return pt{rng.Intn(w + 1), 0}
			case 3:
				return pt{rng.Intn(w + 1), h}
			case 4:
				return pt{rng.Intn(2) * w, rng.Intn(2) * h}
			}
			return pt{rng.Intn(w + 1), rng.Intn(h + 1)}
		}
	case "line":
		a, b := pt{rng.Intn(w + 1), rng.Intn(h + 1)}, pt{rng.Intn(w + 1), rng.Intn(h + 1)}
		d := rng.Intn(2)
		return func() pt {
			n := 12
			i := rng.Intn(n + 1)
			p := pt{a.x + (b.x-a.x)*i/n, a.y + (b.y-a.y)*i/n}
			if d == 1 && rng.Intn(4) == 0 {
				p.x = clamp(p.x+rng.Intn(3)-1, w)
				p.y = clamp(p.y+rng.Intn(3)-1, h)
			}
			return p
		}
	case "axis": // all on a row or a column
		x, y, dir := rng.Intn(w+1), rng.Intn(h+1), rng.Intn(2)
		return func() pt {
			if dir == 0 {
				return pt{rng.Intn(w + 1), y}
			}
			return pt{x, rng.Intn(h + 1)}
		}
	case "cluster":
		cx, cy := rng.Intn(w+1), rng.Intn(h+1)
		return func() pt {
			if rng.Intn(6) == 0 {
				return pt{rng.Intn(w + 1), rng.Intn(h + 1)}
			}
			return pt{clamp(cx+rng.Intn(7)-3, w), clamp(cy+rng.Intn(7)-3, h)}
		}
	case "circle": // exactly cocircular points, scaled Pythagorean triples
		off := []pt{{5, 0}, {3, 4}, {4, 3}, {0, 5}, {-3, 4}, {-4, 3}, {-5, 0}, {-3, -4}, {-4, -3}, {0, -5}, {3, -4}, {4, -3}}
		m := w
		if h < m {
			m = h
		}
		s := m / 10
		if s < 1 {
			s = 1
		}
		s = 1 + rng.Intn(s)
		cx, cy := w/2, h/2
		return func() pt {
			if rng.Intn(5) == 0 {
				return pt{rng.Intn(w + 1), rng.Intn(h + 1)}
			}
			o := off[rng.Intn(len(off))]
			return pt{clamp(cx+o.x*s, w), clamp(cy+o.y*s, h)}
		}
	case "dups":
		var pool []pt
		for i := 0; i < 3+rng.Intn(5); i++ {
			pool = append(pool, pt{rng.Intn(w + 1), rng.Intn(h + 1)})
		}
		return func() pt { return pool[rng.Intn(len(pool))] }
	case "skinny": // long thin triangles: points close to the borders only
		return func() pt {
			if rng.Intn(2) == 0 {
				return pt{rng.Intn(w + 1), rng.Intn(3) * h / 2}
			}
			return pt{rng.Intn(w + 1), clamp(rng.Intn(3), h)}
		}
	}
	return func() pt { return pt{rng.Intn(w + 1), rng.Intn(h + 1)} }
}

var pointKinds = []string{"uniform", "uniform", "lattice", "lattice", "border", "line", "axis", "cluster", "circle", "dups", "skinny"}

func randomDims(rng *rand.Rand) (int, int) {
	for {
		var w, h int
		switch rng.Intn(9) {
		case 0, 1:
			w, h = 1+rng.Intn(6), 1+rng.Intn(6)
		case 2, 3:
			w, h = 1+rng.Intn(30), 1+rng.Intn(30)
		case 4, 5:
			w, h = 1+rng.Intn(300), 1+rng.Intn(300)
		case 6:
			w, h = 1+rng.Intn(3000), 1+rng.Intn(3000)
		case 7:
			w, h = 3000, 1+rng.Intn(3000)
		case 8:
			if rng.Intn(2) == 0 {
				w, h = 1+rng.Intn(3), 1+rng.Intn(2000)
			} else {
				w, h = 1+rng.Intn(2000), 1+rng.Intn(3)
			}
		}
		if w > 0 {
			return w, h
		}
	}
}

type bagT struct {
	list []pt // with duplicates
}

func (b *bagT) add(p pt) { b.list = append(b.list, p) }
func (b *bagT) del(p pt) {
	for i, q := range b.list {
		if q == p {
			b.list = append(b.list[:i], b.list[i+1:]...)
			return
		}
	}
}
func (b *bagT) distinct() []pt {
	m := map[pt]bool{}
	var r []pt
	for _, p := range b.list {
		if !m[p] {
			m[p] = true
			r = append(r, p)
		}
	}
	sortPts(r)
	return r
}

func sortPts(r []pt) {
	sort.Slice(r, func(i, j int) bool { return r[i].x < r[j].x || (r[i].x == r[j].x && r[i].y < r[j].y) })
}

// history appends random insertions and removals on object o.
func history(rng *rand.Rand, ops *[]dOp, b *bagT, o, n, max, obsEvery int, src func() pt) {
	ins := func() {
		p := src()
		b.add(p)
		*ops = append(*ops, dOp{K: "i", O: o, X: p.x, Y: p.y})
	}
	rem := func() {
		p := b.list[rng.Intn(len(b.list))]
		b.del(p)
		*ops = append(*ops, dOp{K: "r", O: o, X: p.x, Y: p.y})
	}
	down := false
	for i := 0; i < n; i++ {
		if len(b.list) == 0 {
			down = false
		} else if len(b.list) >= max {
			down = true
		} else if rng.Intn(8) == 0 {
			down = !down
		}
		switch {
		case len(b.list) == 0:
			ins()
		case down && rng.Intn(5) > 0:
			rem()
		case len(b.list) < max:
			ins()
		default:
			rem()
		}
		if obsEvery > 0 && (rng.Intn(obsEvery) == 0 || i == n-1) {
			*ops = append(*ops, dOp{K: "o", O: o})
		}
	}
}

func randomDScenario(rng *rand.Rand, mode string, size int) dScenario {
	w, h := randomDims(rng)
	sc := dScenario{Kind: pointKinds[rng.Intn(len(pointKinds))], Dims: [][2]int{{w, h}}}
	if mode == "vor" && (w > 800 || h > 800) && rng.Intn(3) > 0 {
		w, h = w/8+2, h/8+2
		sc.Dims[0] = [2]int{w, h}
	}
	src := pointSource(sc.Kind, w, h, rng)
	if size < 0 { // long
		b := &bagT{}
		for i := 0; i < 8; i++ {
			history(rng, &sc.Ops, b, 1, -size/8, 4+rng.Intn(9), 0, src)
			sc.Ops = append(sc.Ops, dOp{K: "o", O: 1})
		}
		return sc
	}
	if size >= 10000 { // huge: more triangles and copies than numbers of 16 bits
		sc.Dims[0] = [2]int{2000 + rng.Intn(1001), 2000 + rng.Intn(1001)}
		p := pt{rng.Intn(2000), rng.Intn(2000)}
		n := 65000 + rng.Intn(2000)
		sc.Ops = append(sc.Ops, dOp{K: "b", O: 1, N: size + rng.Intn(size/8), Seed: rng.Int63n(1 << 40)}, dOp{K: "o", O: 1},
			dOp{K: "i", O: 1, X: p.x, Y: p.y}, dOp{K: "c", O: 1, X: p.x, Y: p.y, N: n}, dOp{K: "d", O: 1, X: p.x, Y: p.y, N: n - 1}, dOp{K: "o", O: 1})
		return sc
	}
	if size > 0 && rng.Intn(2) == 0 {
		wheel(rng, &sc, mode, size/2+rng.Intn(size))
		return sc
	}
	if size > 0 { // large
		b := &bagT{}
		n := size/2 + rng.Intn(size)
		history(rng, &sc.Ops, b, 1, n+n/2, n, 0, src)
		history(rng, &sc.Ops, b, 1, 20, n+20, 10, src)
		return sc
	}
	if rng.Intn(25) == 0 { // many copies of one point
		b := &bagT{}
		history(rng, &sc.Ops, b, 1, 1+rng.Intn(8), 6, 3, src)
		p := src()
		n := []int{20, 130, 260, 520, 1030}[rng.Intn(5)] - rng.Intn(8)
		for i := 0; i < n; i++ {
			b.add(p)
			sc.Ops = append(sc.Ops, dOp{K: "i", O: 1, X: p.x, Y: p.y})
		}
		sc.Ops = append(sc.Ops, dOp{K: "o", O: 1})
		for i := rng.Intn(n + 1); i > 0; i-- {
			b.del(p)
			sc.Ops = append(sc.Ops, dOp{K: "r", O: 1, X: p.x, Y: p.y})
			if i < 3 || rng.Intn(100) == 0 {
				sc.Ops = append(sc.Ops, dOp{K: "o", O: 1})
			}
		}
		history(rng, &sc.Ops, b, 1, 6, n+8, 3, src)
		return sc
	}
	if rng.Intn(25) == 0 {
		wheel(rng, &sc, mode, 5+rng.Intn(24))
		return sc
	}
	max := 2 + rng.Intn(12)
	if rng.Intn(4) == 0 {
		max = 12 + rng.Intn(14)
	}
	history(rng, &sc.Ops, &bagT{}, 1, 8+rng.Intn(28), max, 2, src)
	return sc
}

// wheel makes points with very many neighbours: hubs within a circle of n points, which come and go.
func wheel(rng *rand.Rand, sc *dScenario, mode string, n int) {
	m := 2*n + 20 + rng.Intn(300)
	if mode == "vor" && m > 600 {
		m = 600
	}
	if m > 3000 {
		m = 3000
	}
	w, h := m+rng.Intn(m/8), m+rng.Intn(m/8)
	sc.Kind, sc.Dims[0] = "wheel", [2]int{w, h}
	r := float64(m/2 - rng.Intn(m/8))
	ph := rng.Float64()
	b := &bagT{}
	op := func(k string, p pt) {
		if k == "i" {
			b.add(p)
		} else {
			b.del(p)
		}
		sc.Ops = append(sc.Ops, dOp{K: k, O: 1, X: p.x, Y: p.y})
	}
	obs := func() { sc.Ops = append(sc.Ops, dOp{K: "o", O: 1}) }
	clamp := func(v, m int) int {
		if v < 0 {
			return 0
		}
		if v > m {
			return m
		}
		return v
	}
	rim := func() pt {
		s, c := math.Sincos((float64(rng.Intn(n)) + ph) * 2 * math.Pi / float64(n))
		return pt{clamp(w/2+int(math.Round(r*c)), w), clamp(h/2+int(math.Round(r*s)), h)}
	}
	hub := func() pt { return pt{w/2 + rng.Intn(m/8+1) - m/16, h/2 + rng.Intn(m/8+1) - m/16} }
	first := hub()
	if rng.Intn(2) == 0 {
		op("i", first)
	}
	for i := 0; i < n; i++ {
		op("i", rim())
	}
	for i := 0; i < 3; i++ {
		p := hub()
		op("i", p)
		obs()
		if i == 1 {
			q := rim()
			op("i", q)
			op("r", q)
		}
		op("r", p)
		obs()
	}
	history(rng, &sc.Ops, b, 1, 6, n+8, 3, rim)
}

// longCopyScenario sets structures to one another and changes them a little, thousands of times, as the algorithms do.
func longCopyScenario(rng *rand.Rand, n int) dScenario {
	w, h := 1+rng.Intn(200), 1+rng.Intn(200)
	k := 2 + rng.Intn(2)
	sc := dScenario{Kind: pointKinds[rng.Intn(len(pointKinds))]}
	src := pointSource(sc.Kind, w, h, rng)
	var b []*bagT
	for o := 1; o <= k; o++ {
		sc.Dims = append(sc.Dims, [2]int{w, h})
		b = append(b, &bagT{})
		history(rng, &sc.Ops, b[o-1], o, 8, 9, 0, src)
	}
	for i := 0; len(sc.Ops) < n; i++ {
		t := 1 + rng.Intn(k)
		f := 1 + (t+rng.Intn(k-1))%k
		sc.Ops = append(sc.Ops, dOp{K: "s", O: t, From: f})
		b[t-1].list = append([]pt{}, b[f-1].list...)
		history(rng, &sc.Ops, b[t-1], t, 1+rng.Intn(3), 9, 0, src)
		if i%2000 == 0 || len(sc.Ops) >= n {
			for o := 1; o <= k; o++ {
				sc.Ops = append(sc.Ops, dOp{K: "o", O: o})
			}
		}
	}
	return sc
}

// largeCopyScenario sets structures with many points to one another.
func largeCopyScenario(rng *rand.Rand, n int, mode string) dScenario {
	w, h := 200+rng.Intn(1500), 200+rng.Intn(1500)
	if mode == "vor" {
		w, h, n = 100+w/4, 100+h/4, n/5
	}
	sc := dScenario{Kind: "uniform", Dims: [][2]int{{w, h}, {w, h}, {w, h}}}
	src := pointSource(sc.Kind, w, h, rng)
	var b []*bagT
	for o := 1; o <= 3; o++ {
		b = append(b, &bagT{})
		k := []int{n, 6, n / (2 + rng.Intn(4))}[o-1]
		if mode != "vor" && k > 6 { // at once
			op := dOp{K: "b", O: o, N: k, Seed: rng.Int63n(1 << 40)}
			sc.Ops = append(sc.Ops, op)
			b[o-1].list = op.points(b[o-1], w, h)
			continue
		}
		history(rng, &sc.Ops, b[o-1], o, k+k/4, n, 0, src)
	}
	for _, s := range [][2]int{{2, 1}, {3, 1}, {1, 2}, {1, 3}} { // each with changes in between
		sc.Ops = append(sc.Ops, dOp{K: "s", O: s[0], From: s[1]}, dOp{K: "o", O: s[0]})
		b[s[0]-1].list = append([]pt{}, b[s[1]-1].list...)
		for _, o := range s {
			history(rng, &sc.Ops, b[o-1], o, 5+rng.Intn(30), n, 0, src)
			sc.Ops = append(sc.Ops, dOp{K: "o", O: o})
		}
	}
	return sc
}

func copyDScenario(rng *rand.Rand, mode string) dScenario {
	w, h := randomDims(rng)
	if mode == "vor" && (w > 300 || h > 300) {
		w, h = w/12+2, h/12+2
	}
	sc := dScenario{Kind: pointKinds[rng.Intn(len(pointKinds))], Dims: [][2]int{{w, h}, {w, h}}, Shadows: true}
	src := pointSource(sc.Kind, w, h, rng)
	b := []*bagT{{}, {}}
	max := 3 + rng.Intn(8)
	obs := func() {
		for o := 1; o <= 2; o++ {
			sc.Ops = append(sc.Ops, dOp{K: "o", O: o + 2}, dOp{K: "o", O: o})
		}
	}
	both := func(o, n int) {
		var ops []dOp
		history(rng, &ops, b[o-1], o, n, max, 0, src)
		for _, op := range ops {
			sc.Ops = append(sc.Ops, op)
			op.O += 2
			sc.Ops = append(sc.Ops, op)
		}
	}
	for o := 1; o <= 2; o++ {
		if rng.Intn(4) > 0 {
			both(o, rng.Intn(14))
		}
	}
	for r := 0; r < 2+rng.Intn(3); r++ {
		obs()
		t := 1 + rng.Intn(2)
		f := 3 - t
		sc.Ops = append(sc.Ops, dOp{K: "s", O: t, From: f}, dOp{K: "s", O: t + 2, From: f + 2})
		b[t-1].list = append([]pt{}, b[f-1].list...)
		obs()
		for k := 0; k < 1+rng.Intn(3); k++ {
			both(1+rng.Intn(2), 1+rng.Intn(5))
			obs()
		}
	}
	return sc
}

// ---- running ------------------------------------------------------------------------------------

func fpt(x, y int) incrdelaunay.Point { return incrdelaunay.Point{X: int16(x), Y: int16(y)} }

type dState struct {
	sc   dScenario
	objs []*incrdelaunay.Delaunay
	dims [][2]int
	hist [][]dOp // of each object, without copying
	bags []*bagT
	ev   []M
	bad  bool // a quick check of the harness failed: TLC should look at this trace
	rng  *rand.Rand
}

func superOf(w, h int) [3]pt {
	s := incrdelaunay.NewSuperTriangle(w, h)
	c := func(p incrdelaunay.Point) pt { return pt{int(p.X), int(p.Y)} }
	return [3]pt{c(s.A), c(s.B), c(s.C)}
}

// readTriangles maps the triangles to vertex indexes (-1: not a current point).
func readTriangles(d *incrdelaunay.Delaunay) [][3]pt {
	var r [][3]pt
	c := func(p incrdelaunay.Point) pt { return pt{int(p.X), int(p.Y)} }
	d.IterTriangles(func(t incrdelaunay.Triangle) { r = append(r, [3]pt{c(t.A), c(t.B), c(t.C)}) })
	return r
}

func indexTriangles(tr [][3]pt, idx map[pt]int) [][3]int {
	r := make([][3]int, 0, len(tr))
	for _, t := range tr {
		var k [3]int
		for j := range k {
			i, ok := idx[t[j]]
			if !ok || i < 3 {
				i = -1
			}
			k[j] = i
		}
		r = append(r, k)
	}
	return r
}

func (s *dState) witness(o int, tr [][3]pt) (*witness, [][3]int) {
	var ri [][3]int
	w := newWitness(superOf(s.dims[o-1][0], s.dims[o-1][1]), s.bags[o-1].distinct(), func(v map[pt]int) map[[3]int]bool {
		ri = indexTriangles(tr, v)
		m := map[[3]int]bool{}
		for _, t := range ri {
			m[tri3(t[0], t[1], t[2])] = true
		}
		return m
	})
	return w, ri
}

func (s *dState) observe(o int, full bool) {
	d := s.objs[o-1]
	bag := s.bags[o-1]
	tr := readTriangles(d)
	w, ri := s.witness(o, tr)
	if !w.matches(ri) {
		s.bad = true
	}
	np := d.NumPoints()
	if np != len(bag.list) {
		s.bad = true
	}
	W, H := s.dims[o-1][0], s.dims[o-1][1]
	cur := map[pt]bool{}
	for _, p := range bag.list {
		cur[p] = true
	}
	queries := append([]pt{}, bag.distinct()...)
	s.rng.Shuffle(len(queries), func(i, j int) { queries[i], queries[j] = queries[j], queries[i] })
	if len(queries) > 8 {
		queries = queries[:8]
	}
	for _, h := range s.hist[o-1] { // points that were there once
		if s.rng.Intn(4) == 0 {
			queries = append(queries, pt{h.X, h.Y})
		}
		if len(queries) > 14 {
			break
		}
	}
	for i := 0; i < 4; i++ {
		queries = append(queries, pt{s.rng.Intn(W + 1), s.rng.Intn(H + 1)})
	}
	has, cl := [][]int{}, [][]int{}
	for _, q := range queries {
		h := 0
		if d.HasPoint(fpt(q.x, q.y)) {
			h = 1
		}
		if (h == 1) != cur[q] {
			s.bad = true
		}
		has = append(has, []int{q.x, q.y, h})
		if len(bag.list) > 0 {
			c := d.GetClosestTo(fpt(q.x, q.y))
			p := pt{int(c.X), int(c.Y)}
			cl = append(cl, []int{q.x, q.y, p.x, p.y})
			sq := func(a pt) int { return (a.x-q.x)*(a.x-q.x) + (a.y-q.y)*(a.y-q.y) }
			if !cur[p] {
				s.bad = true
			}
			for _, b := range bag.list {
				if sq(b) < sq(p) {
					s.bad = true
				}
			}
		}
	}
	if !full && !s.bad {
		return
	}
	R := make([][]int, 0, len(ri))
	for _, t := range ri {
		R = append(R, []int{t[0] + 1, t[1] + 1, t[2] + 1})
	}
	s.ev = append(s.ev, M{"e": "obs", "o": o, "np": np, "V": w.points(), "W": w.encode(), "R": R, "has": has, "cl": cl})
}

// points are those that a "b" operation inserts.
func (op dOp) points(b *bagT, w, h int) (ps []pt) {
	rng := rand.New(rand.NewSource(op.Seed))
	have := map[pt]bool{}
	for _, p := range b.list {
		have[p] = true
	}
	for len(ps) < op.N {
		p := pt{rng.Intn(w + 1), rng.Intn(h + 1)}
		if !have[p] {
			have[p] = true
			ps = append(ps, p)
		}
	}
	return
}

func (s *dState) apply(op dOp, full bool) {
	d := s.objs[op.O-1]
	switch op.K {
	case "i", "r":
		if op.K == "i" {
			d.Insert(fpt(op.X, op.Y))
			s.bags[op.O-1].add(pt{op.X, op.Y})
			s.ev = append(s.ev, M{"e": "ins", "o": op.O, "p": []int{op.X, op.Y}})
		} else {
			d.Remove(fpt(op.X, op.Y))
			s.bags[op.O-1].del(pt{op.X, op.Y})
			s.ev = append(s.ev, M{"e": "rem", "o": op.O, "p": []int{op.X, op.Y}})
		}
		s.hist[op.O-1] = append(s.hist[op.O-1], op)
	case "b":
		b := s.bags[op.O-1]
		ps := [][2]int{}
		for _, p := range op.points(b, s.dims[op.O-1][0], s.dims[op.O-1][1]) {
			b.add(p)
			ps = append(ps, [2]int{p.x, p.y})
			d.Insert(fpt(p.x, p.y))
		}
		s.ev = append(s.ev, M{"e": "bulk", "o": op.O, "ps": ps})
	case "c":
		for i := 0; i < op.N; i++ {
			d.Insert(fpt(op.X, op.Y))
			s.bags[op.O-1].add(pt{op.X, op.Y})
		}
		s.ev = append(s.ev, M{"e": "copies", "o": op.O, "p": []int{op.X, op.Y}, "n": op.N})
	case "d":
		for i := 0; i < op.N; i++ {
			d.Remove(fpt(op.X, op.Y))
		}
		l := s.bags[op.O-1].list
		n := 0
		for i := len(l) - 1; i >= 0 && n < op.N; i-- {
			if l[i] == (pt{op.X, op.Y}) {
				l[i] = l[len(l)-1]
				l = l[:len(l)-1]
				n++
			}
		}
		s.bags[op.O-1].list = l
		s.ev = append(s.ev, M{"e": "copies", "o": op.O, "p": []int{op.X, op.Y}, "n": -op.N})
	case "s":
		s.bags[op.O-1].list = append([]pt{}, s.bags[op.From-1].list...)
		s.hist[op.O-1] = s.past(s.hist[op.From-1])
		s.dims[op.O-1] = s.dims[op.From-1]
		s.ev = append(s.ev, M{"e": "set", "o": op.O, "from": op.From})
		if s.sc.Shadows && op.O > len(s.sc.Dims) {
			// A shadow goes through the whole history instead
			n := incrdelaunay.NewDelaunay(s.dims[op.O-1][0], s.dims[op.O-1][1])
			for _, h := range s.hist[op.O-1] {
				if h.K == "i" {
					n.Insert(fpt(h.X, h.Y))
				} else {
					n.Remove(fpt(h.X, h.Y))
				}
			}
			s.objs[op.O-1] = n
		} else {
			d.Set(s.objs[op.From-1])
		}
	case "o":
		s.observe(op.O, full)
	}
}

// past is a copy of a history: all of it is needed for shadows.
func (s *dState) past(h []dOp) []dOp {
	if !s.sc.Shadows && len(h) > 100 {
		h = h[len(h)-50:]
	}
	return append([]dOp{}, h...)
}

// runD runs a history. Unless full, observations are only recorded from the first suspicious one on.
func runD(sc dScenario, full bool) (M, bool) {
	s := &dState{sc: sc, rng: rand.New(rand.NewSource(int64(len(sc.Ops))))}
	dims := append([][2]int{}, sc.Dims...)
	sh := []int{}
	if sc.Shadows {
		dims = append(dims, sc.Dims...)
	}
	for i, d := range dims {
		s.objs = append(s.objs, incrdelaunay.NewDelaunay(d[0], d[1]))
		s.bags = append(s.bags, &bagT{})
		s.hist = append(s.hist, nil)
		if sc.Shadows && i < len(sc.Dims) {
			sh = append(sh, i+1+len(sc.Dims))
		} else {
			sh = append(sh, 0)
		}
	}
	s.dims = dims
	limit := 20 * time.Second
	if len(sc.Ops) > 1000 || len(sc.Ops) > 0 && sc.Ops[0].K == "b" {
		limit = 300 * time.Second
	}
	why := guard(func() {
		for _, op := range sc.Ops {
			s.apply(op, full)
		}
	}, limit)
	if why != "" {
		s.ev = append(s.ev, M{"e": "abort", "why": why})
		s.bad = true
	}
	b, _ := json.Marshal(sc)
	return M{"k": len(dims), "sh": sh, "sc": string(b), "t": s.ev}, s.bad
}

// runDelaunay records o.n histories in full. o.mode "copy": with copies. o.size: that many further
// histories (and some large ones) are only checked quickly here and recorded if they look wrong.
func runDelaunay(o opts, s *sink) {
	driveHistories(o, s, runD, func(rng *rand.Rand, large int) dScenario {
		if o.mode == "copy" {
			if large < 0 {
				return longCopyScenario(rng, -large)
			}
			if large > 0 {
				return largeCopyScenario(rng, large, "")
			}
			return copyDScenario(rng, "")
		}
		return randomDScenario(rng, "", large)
	}, []int{40, 100, 250, 700, 3000}, true)
}

func driveHistories(o opts, s *sink, run func(dScenario, bool) (M, bool), gen func(*rand.Rand, int) dScenario, larges []int, huge bool) {
	if o.in != "" {
		f, err := os.Open(o.in)
		if err != nil {
			die(err)
		}
		rd := bufio.NewScanner(f)
		rd.Buffer(make([]byte, 1<<20), 1<<28)
		for rd.Scan() {
			var sc dScenario
			if err := json.Unmarshal(rd.Bytes(), &sc); err != nil {
				die(err)
			}
			tr, _ := run(sc, true)
			s.put(tr)
			if atomic.LoadInt32(&stuck) != 0 {
				return
			}
		}
		return
	}
	rng := rand.New(rand.NewSource(o.seed))
	bad := 0
	for i := 0; i < o.n+o.size && bad < 3 && time.Now().Before(o.deadline); i++ {
		large := 0
		if i >= o.n && i%50 == 0 && o.mode != "copy" {
			large = larges[(i/50)%len(larges)]
		}
		if o.mode == "copy" && i >= o.n && (i-o.n)%1000 == 30 {
			large = 1000 + rng.Intn(4000)
		}
		if i >= o.n && (i-o.n)%1000 == 10 {
			large = -50000 // many more triangles than there are indexes of 16 bits
		}
		if o.mode != "copy" && huge && i == o.n+20 {
			large = 12000
			if o.seed%2 == 0 {
				large = 33000
			}
		}
		sc := gen(rng, large)
		tr, b := run(sc, i < o.n)
		if i < o.n || b {
			s.put(tr)
		}
		s.count("histories", 1)
		s.count("operations", len(sc.Ops))
		if b {
			bad++
			s.count("suspicious", 1)
		}
		if atomic.LoadInt32(&stuck) != 0 {
			return
		}
	}
}
