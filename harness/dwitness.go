package main

import "sort"

// pt is a point with integer coordinates.
type pt struct{ x, y int }

// witness is a complete Delaunay triangulation of a set of points and the vertices of the super
// triangle, built with exact arithmetic and independently of the library. TLC checks all that
// makes it one.
type witness struct {
	v      []pt // the first three are the super triangle, counterclockwise
	idx    map[pt]int
	t      [][3]int // vertices, counterclockwise
	nb     [][3]int // nb[i][k]: the triangle across edge t[i][k], t[i][k+1]; -1: none
	unique bool
}

func orient(a, b, c pt) int64 {
	return int64(b.x-a.x)*int64(c.y-a.y) - int64(c.x-a.x)*int64(b.y-a.y)
}

// inCirc is positive iff d is strictly inside the circumcircle of the counterclockwise triangle abc.
func inCirc(a, b, c, d pt) int64 {
	ax, ay := int64(a.x-d.x), int64(a.y-d.y)
	bx, by := int64(b.x-d.x), int64(b.y-d.y)
	cx, cy := int64(c.x-d.x), int64(c.y-d.y)
	return (ax*ax+ay*ay)*(bx*cy-cx*by) + (bx*bx+by*by)*(cx*ay-ax*cy) + (cx*cx+cy*cy)*(ax*by-bx*ay)
}

// newWitness triangulates the points (distinct, within the super triangle). Where the choice of
// triangles isn't unique, it prefers the ones in r (vertex indexes, sorted).
func newWitness(super [3]pt, pts []pt, r func(v map[pt]int) map[[3]int]bool) *witness {
	w := &witness{idx: map[pt]int{}}
	if orient(super[0], super[1], super[2]) < 0 {
		super[1], super[2] = super[2], super[1]
	}
	for _, p := range super {
		w.idx[p] = len(w.v)
		w.v = append(w.v, p)
	}
	w.t = [][3]int{{0, 1, 2}}
	w.nb = [][3]int{{-1, -1, -1}}
	for _, p := range pts {
		w.idx[p] = len(w.v)
		w.v = append(w.v, p)
		w.insert(len(w.v) - 1)
	}
	w.choose(r(w.idx))
	return w
}

func (w *witness) edgeOf(t, nb int) int {
	for k := 0; k < 3; k++ {
		if w.nb[t][k] == nb {
			return k
		}
	}
	panic("harness error: no such neighbour")
}

func (w *witness) insert(i int) {
	p := w.v[i]
	// Locate by walking
	t := len(w.t) - 1
walk:
	for {
		for k := 0; k < 3; k++ {
			if orient(w.v[w.t[t][k]], w.v[w.t[t][(k+1)%3]], p) < 0 {
				t = w.nb[t][k]
				continue walk
			}
		}
		break
	}
	on := -1
	for k := 0; k < 3; k++ {
		if orient(w.v[w.t[t][k]], w.v[w.t[t][(k+1)%3]], p) == 0 {
			on = k
		}
	}
	var stack [][2]int
	relink := func(t, from, to int) {
		if t >= 0 {
			w.nb[t][w.edgeOf(t, from)] = to
		}
	}
	if on < 0 {
		a, b, c := w.t[t][0], w.t[t][1], w.t[t][2]
		nab, nbc, nca := w.nb[t][0], w.nb[t][1], w.nb[t][2]
		t1, t2 := len(w.t), len(w.t)+1
		w.t[t], w.nb[t] = [3]int{a, b, i}, [3]int{nab, t1, t2}
		w.t = append(w.t, [3]int{b, c, i}, [3]int{c, a, i})
		w.nb = append(w.nb, [3]int{nbc, t2, t}, [3]int{nca, t, t1})
		relink(nbc, t, t1)
		relink(nca, t, t2)
		stack = append(stack, [2]int{t, 0}, [2]int{t1, 0}, [2]int{t2, 0})
	} else {
		// p lies on edge a-b of t; u is the other triangle of that edge
		a, b, c := w.t[t][on], w.t[t][(on+1)%3], w.t[t][(on+2)%3]
		nbc, nca := w.nb[t][(on+1)%3], w.nb[t][(on+2)%3]
		u := w.nb[t][on]
		k := w.edgeOf(u, t)
		d := w.t[u][(k+2)%3]
		nad, ndb := w.nb[u][(k+1)%3], w.nb[u][(k+2)%3]
		t1, u1 := len(w.t), len(w.t)+1
		w.t[t], w.nb[t] = [3]int{b, c, i}, [3]int{nbc, t1, u1}
		w.t[u], w.nb[u] = [3]int{a, d, i}, [3]int{nad, u1, t1}
		w.t = append(w.t, [3]int{c, a, i}, [3]int{d, b, i})
		w.nb = append(w.nb, [3]int{nca, u, t}, [3]int{ndb, t, u})
		relink(nca, t, t1)
		relink(ndb, u, u1)
		stack = append(stack, [2]int{t, 0}, [2]int{u, 0}, [2]int{t1, 0}, [2]int{u1, 0})
	}
	for len(stack) > 0 {
		t := stack[len(stack)-1][0]
		stack = stack[:len(stack)-1]
		k := 0
		for w.t[t][(k+2)%3] != i {
			k++
			if k == 3 {
				break
			}
		}
		if k == 3 {
			continue
		}
		u := w.nb[t][k]
		if u < 0 {
			continue
		}
		ku := w.edgeOf(u, t)
		d := w.t[u][(ku+2)%3]
		a, b := w.t[t][k], w.t[t][(k+1)%3]
		if inCirc(w.v[a], w.v[b], w.v[i], w.v[d]) <= 0 {
			continue
		}
		// Flip a-b to i-d
		nbi, nia := w.nb[t][(k+1)%3], w.nb[t][(k+2)%3]
		nad, ndb := w.nb[u][(ku+1)%3], w.nb[u][(ku+2)%3]
		w.t[t], w.nb[t] = [3]int{a, d, i}, [3]int{nad, u, nia}
		w.t[u], w.nb[u] = [3]int{d, b, i}, [3]int{ndb, nbi, t}
		relink(nad, u, t)
		relink(nbi, t, u)
		stack = append(stack, [2]int{t, 0}, [2]int{u, 0})
	}
}

func tri3(a, b, c int) [3]int {
	s := []int{a, b, c}
	sort.Ints(s)
	return [3]int{s[0], s[1], s[2]}
}

// choose retriangulates the cells with more than three vertices on a circle.
func (w *witness) choose(r map[[3]int]bool) {
	parent := make([]int, len(w.t))
	for i := range parent {
		parent[i] = i
	}
	var find func(int) int
	find = func(i int) int {
		for parent[i] != i {
			parent[i] = parent[parent[i]]
			i = parent[i]
		}
		return i
	}
	w.unique = true
	for t := range w.t {
		for k := 0; k < 3; k++ {
			u := w.nb[t][k]
			if u < 0 || u < t {
				continue
			}
			d := w.t[u][(w.edgeOf(u, t)+2)%3]
			if inCirc(w.v[w.t[t][0]], w.v[w.t[t][1]], w.v[w.t[t][2]], w.v[d]) == 0 {
				parent[find(u)] = find(t)
				w.unique = false
			}
		}
	}
	if w.unique {
		return
	}
	groups := map[int][]int{}
	for t := range w.t {
		groups[find(t)] = append(groups[find(t)], t)
	}
	var nt [][3]int
	for t := range w.t { // in a fixed order
		g, ok := groups[t]
		if !ok {
			continue
		}
		if len(g) == 1 {
			nt = append(nt, w.t[t])
			continue
		}
		in := map[int]bool{}
		for _, x := range g {
			in[x] = true
		}
		next := map[int]int{}
		start := -1
		for _, x := range g {
			for k := 0; k < 3; k++ {
				if w.nb[x][k] < 0 || !in[w.nb[x][k]] {
					next[w.t[x][k]] = w.t[x][(k+1)%3]
					start = w.t[x][k]
				}
			}
		}
		poly := []int{start}
		for x := next[start]; x != start; x = next[x] {
			poly = append(poly, x)
		}
		nt = append(nt, bestTriangulation(poly, r)...)
	}
	w.t = nt
	w.link()
}

// bestTriangulation triangulates a convex polygon, using as many triangles of r as possible and
// no other ones without a vertex of the super triangle where that can be avoided.
func bestTriangulation(poly []int, r map[[3]int]bool) [][3]int {
	n := len(poly)
	cost := make([][]int, n)
	via := make([][]int, n)
	for i := range cost {
		cost[i] = make([]int, n)
		via[i] = make([]int, n)
	}
	score := func(a, b, c int) int {
		t := tri3(a, b, c)
		if r[t] {
			return 1
		}
		if t[0] < 3 {
			return 0
		}
		return -1000
	}
	for l := 2; l < n; l++ {
		for i := 0; i+l < n; i++ {
			j := i + l
			best := -1 << 30
			for k := i + 1; k < j; k++ {
				if c := cost[i][k] + cost[k][j] + score(poly[i], poly[k], poly[j]); c > best {
					best = c
					via[i][j] = k
				}
			}
			cost[i][j] = best
		}
	}
	var res [][3]int
	var rec func(i, j int)
	rec = func(i, j int) {
		if j-i < 2 {
			return
		}
		k := via[i][j]
		res = append(res, [3]int{poly[i], poly[k], poly[j]})
		rec(i, k)
		rec(k, j)
	}
	rec(0, n-1)
	return res
}

// link recomputes the neighbours.
func (w *witness) link() {
	type e struct{ a, b int }
	m := map[e]int{}
	for t, v := range w.t {
		for k := 0; k < 3; k++ {
			m[e{v[k], v[(k+1)%3]}] = t
		}
	}
	w.nb = make([][3]int, len(w.t))
	for t, v := range w.t {
		for k := 0; k < 3; k++ {
			if u, ok := m[e{v[(k+1)%3], v[k]}]; ok {
				w.nb[t][k] = u
			} else {
				w.nb[t][k] = -1
			}
		}
	}
}

// matches reports whether the triangles of the witness without super vertices are those of r.
func (w *witness) matches(r [][3]int) bool {
	set := map[[3]int]bool{}
	for _, t := range r {
		k := tri3(t[0], t[1], t[2])
		if k[0] < 0 || set[k] {
			return false
		}
		set[k] = true
	}
	n := 0
	for _, t := range w.t {
		if t[0] > 2 && t[1] > 2 && t[2] > 2 {
			n++
			if !set[tri3(t[0], t[1], t[2])] {
				return false
			}
		}
	}
	return n == len(set)
}

// encode numbers vertices and triangles from 1 and appends the neighbours (0: none).
func (w *witness) encode() [][]int {
	r := make([][]int, 0, len(w.t))
	for i, t := range w.t {
		r = append(r, []int{t[0] + 1, t[1] + 1, t[2] + 1, w.nb[i][0] + 1, w.nb[i][1] + 1, w.nb[i][2] + 1})
	}
	return r
}

func (w *witness) points() [][]int {
	r := make([][]int, 0, len(w.v))
	for _, p := range w.v {
		r = append(r, []int{p.x, p.y})
	}
	return r
}
