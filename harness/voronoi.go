package main

import (
	"encoding/json"
	"math"
	"math/rand"
	"time"

	"github.com/RH12503/Triangula/triangulation/incrdelaunay"
)

type fp struct{ x, y float64 }

// cellInfo is a reported cell with the point it seems to belong to.
type cellInfo struct {
	v    []fp
	site int // index into the distinct points; -1: none
}

func polyArea(v []fp) float64 {
	a := 0.0
	for i := range v {
		j := (i + 1) % len(v)
		a += v[i].x*v[j].y - v[j].x*v[i].y
	}
	return a / 2
}

// siteOf returns the point that is nearest to the centroid of the vertices.
func siteOf(v []fp, pts []pt) int {
	var c fp
	for _, p := range v {
		c.x += p.x
		c.y += p.y
	}
	c.x /= float64(len(v))
	c.y /= float64(len(v))
	best, bd := -1, math.Inf(1)
	for i, p := range pts {
		d := math.Hypot(float64(p.x)-c.x, float64(p.y)-c.y)
		if d < bd {
			best, bd = i, d
		}
	}
	return best
}

func cellsOf(iter func(func([]incrdelaunay.FloatPoint)), pts []pt) []cellInfo {
	var r []cellInfo
	iter(func(p []incrdelaunay.FloatPoint) {
		var c cellInfo
		for _, q := range p {
			c.v = append(c.v, fp{q.X, q.Y})
		}
		c.site = siteOf(c.v, pts)
		r = append(r, c)
	})
	return r
}

// cellErrors measures how far the cells are from the exact ones: the largest distance by which a
// vertex is out of bounds or on the wrong side of a bisector, and the difference in area.
func cellErrors(cells []cellInfo, pts []pt, w, h int) (dev, area float64, oneEach bool) {
	seen := map[int]bool{}
	oneEach = len(cells) == len(pts)
	sum := 0.0
	for _, c := range cells {
		if c.site < 0 || seen[c.site] {
			oneEach = false
		}
		seen[c.site] = true
		sum += math.Abs(polyArea(c.v))
		for _, v := range c.v {
			if !(v.x > -1e9 && v.x < 1e9 && v.y > -1e9 && v.y < 1e9) {
				return math.Inf(1), math.Inf(1), false
			}
			dev = math.Max(dev, math.Max(math.Max(-v.x, v.x-float64(w)), math.Max(-v.y, v.y-float64(h))))
			p := pts[c.site]
			for _, q := range pts {
				if q != p {
					dx, dy := float64(q.x-p.x), float64(q.y-p.y)
					mx, my := float64(q.x+p.x)/2, float64(q.y+p.y)/2
					dev = math.Max(dev, ((v.x-mx)*dx+(v.y-my)*dy)/math.Hypot(dx, dy))
				}
			}
		}
	}
	return dev, math.Abs(sum - float64(w)*float64(h)), oneEach
}

const vScale = 1024

func scaleCell(c cellInfo) ([][]int, bool) {
	r := make([][]int, 0, len(c.v))
	for _, p := range c.v {
		x, y := math.Round(p.x*vScale), math.Round(p.y*vScale)
		if !(math.Abs(x) < 1<<29 && math.Abs(y) < 1<<29) {
			return nil, false
		}
		r = append(r, []int{int(x), int(y)})
	}
	return r, true
}

func encodeCells(cells []cellInfo, pts []pt) []M {
	r := make([]M, 0, len(cells))
	for _, c := range cells {
		v, ok := scaleCell(c)
		if !ok {
			v = [][]int{{-1 << 29, 0}}
		}
		s := []int{-1, -1}
		if c.site >= 0 {
			s = []int{pts[c.site].x, pts[c.site].y}
		}
		r = append(r, M{"s": s, "v": v})
	}
	return r
}

type vState struct {
	sc   dScenario
	objs []*incrdelaunay.IVoronoi
	dels []*incrdelaunay.Delaunay // the same points, for Voronoi
	hist [][]dOp
	bags []*bagT
	ev   []M
	bad  bool
}

func suspiciousCells(cells []cellInfo, pts []pt, w, h int) bool {
	dev, area, one := cellErrors(cells, pts, w, h)
	return !one || dev > 0.0015 || area > 0.0015*float64(w+h)
}

func (s *vState) apply(op dOp, full bool) {
	o := op.O - 1
	w, h := s.sc.Dims[0][0], s.sc.Dims[0][1]
	switch op.K {
	case "i":
		s.objs[o].Insert(fpt(op.X, op.Y))
		s.dels[o].Insert(fpt(op.X, op.Y))
		s.bags[o].add(pt{op.X, op.Y})
		s.hist[o] = append(s.hist[o], op)
		s.ev = append(s.ev, M{"e": "ins", "o": op.O, "p": []int{op.X, op.Y}})
	case "r":
		s.objs[o].Remove(fpt(op.X, op.Y))
		s.dels[o].Remove(fpt(op.X, op.Y))
		s.bags[o].del(pt{op.X, op.Y})
		s.hist[o] = append(s.hist[o], op)
		s.ev = append(s.ev, M{"e": "rem", "o": op.O, "p": []int{op.X, op.Y}})
	case "s":
		f := op.From - 1
		s.bags[o].list = append([]pt{}, s.bags[f].list...)
		s.hist[o] = nil
		if s.sc.Shadows {
			s.hist[o] = append(s.hist[o], s.hist[f]...)
		}
		s.ev = append(s.ev, M{"e": "set", "o": op.O, "from": op.From})
		if s.sc.Shadows && op.O > len(s.sc.Dims) {
			n, d := incrdelaunay.NewVoronoi(w, h), incrdelaunay.NewDelaunay(w, h)
			for _, x := range s.hist[o] {
				if x.K == "i" {
					n.Insert(fpt(x.X, x.Y))
					d.Insert(fpt(x.X, x.Y))
				} else {
					n.Remove(fpt(x.X, x.Y))
					d.Remove(fpt(x.X, x.Y))
				}
			}
			s.objs[o], s.dels[o] = n, d
		} else {
			s.objs[o].Set(s.objs[f])
			s.dels[o].Set(s.dels[f])
		}
	case "o":
		pts := s.bags[o].distinct()
		cells := cellsOf(s.objs[o].IterPolygons, pts)
		cells2 := cellsOf(func(f func([]incrdelaunay.FloatPoint)) { incrdelaunay.Voronoi(s.dels[o], f, w, h) }, pts)
		if len(pts) == 0 {
			if len(cells) > 0 || len(cells2) > 0 {
				s.bad = true
			}
		} else if suspiciousCells(cells, pts, w, h) || suspiciousCells(cells2, pts, w, h) {
			s.bad = true
		}
		if full || s.bad {
			s.ev = append(s.ev, M{"e": "obs", "o": op.O, "cells": encodeCells(cells, pts), "cells2": encodeCells(cells2, pts)})
		}
	}
}

func runV(sc dScenario, full bool) (M, bool) {
	s := &vState{sc: sc}
	n := len(sc.Dims)
	if sc.Shadows {
		n *= 2
	}
	w, h := sc.Dims[0][0], sc.Dims[0][1]
	sh := []int{}
	for i := 0; i < n; i++ {
		s.objs = append(s.objs, incrdelaunay.NewVoronoi(w, h))
		s.dels = append(s.dels, incrdelaunay.NewDelaunay(w, h))
		s.bags = append(s.bags, &bagT{})
		s.hist = append(s.hist, nil)
		if sc.Shadows && i < len(sc.Dims) {
			sh = append(sh, i+1+len(sc.Dims))
		} else {
			sh = append(sh, 0)
		}
	}
	limit := 20 * time.Second
	if len(sc.Ops) > 1000 {
		limit = 300 * time.Second
	}
	why := guard(func() {
		for _, op := range sc.Ops {
			s.apply(op, full)
		}
	}, limit)
	if why != "" {
		s.ev = append(s.ev, M{"e": "abort", "why": why})
		s.bad = true
	}
	b, _ := json.Marshal(sc)
	return M{"k": n, "sh": sh, "w": w, "h": h, "sc": string(b), "t": s.ev}, s.bad
}

func runVoronoi(o opts, s *sink) {
	driveHistories(o, s, runV, func(rng *rand.Rand, large int) dScenario {
		if o.mode == "copy" {
			if large < 0 {
				return longCopyScenario(rng, -large)
			}
			if large > 0 {
				return largeCopyScenario(rng, large, "vor")
			}
			return copyDScenario(rng, "vor")
		}
		return randomDScenario(rng, "vor", large)
	}, []int{20, 50, 100, 200, 800, 3000}, false)
}
