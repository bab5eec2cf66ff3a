package main

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"fmt"
	stdimage "image"
	"math"
	"math/rand"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/RH12503/Triangula/fitness"
	"github.com/RH12503/Triangula/geom"
	"github.com/RH12503/Triangula/image"
	"github.com/RH12503/Triangula/normgeom"
	"github.com/RH12503/Triangula/polygonation"
	"github.com/RH12503/Triangula/rasterize"
	"github.com/RH12503/Triangula/render"
	"github.com/RH12503/Triangula/triangulation"
	"github.com/RH12503/Triangula/triangulation/incrdelaunay"
)

// uInput is what the functions are called with.
type uInput struct {
	W   int      `json:"w"`
	H   int      `json:"h"`
	Pts [][2]int `json:"p"` // in units of 1/4096
	Pic int64    `json:"pic"`
	Shp int64    `json:"shp"`
	Img string   `json:"img"`
}

// uScenario is a sequence of calls, and then calls by several goroutines.
type uScenario struct {
	In    []uInput `json:"in"`
	Seed  int64    `json:"seed"`
	Seq   int      `json:"seq"`
	Procs int      `json:"procs"`
	Each  int      `json:"each"` // calls of each goroutine
}

// uWorld holds the inputs of a scenario, which all calls share.
type uWorld struct {
	in   uInput
	g    normgeom.NormPointGroup
	tris []geom.Triangle
	pols []geom.Polygon
	pic  *picture
	data image.RGBData
	img  stdimage.Image
}

func (in uInput) world() *uWorld {
	w := &uWorld{in: in, g: group(in.Pts), pic: makePicture("noise", in.W, in.H, in.Pic)}
	w.img = rdScenario{W: in.W, H: in.H, Img: in.Img, PSd: in.Pic}.makeImage()
	// Shapes of their own: the results of other functions would depend on those
	rng := rand.New(rand.NewSource(in.Shp))
	m := in.W
	if in.H < m {
		m = in.H
	}
	at := func() [2]int { return [2]int{rng.Intn(m + 1), rng.Intn(m + 1)} }
	for i := 0; i < 6; i++ {
		w.tris = append(w.tris, toTri(at(), at(), at()))
		// A convex quadrilateral
		a, b := rng.Intn(m/2), rng.Intn(m/2)
		c, d := 1+rng.Intn(m/2), 1+rng.Intn(m/2)
		if i == 5 { // without pixels, at a border
			a, b, d = in.W-c, in.H, 0
			if rng.Intn(2) == 0 {
				a, b, c = in.W, 0, 0
			}
			w.tris[i] = toTri([2]int{a, b}, [2]int{a + c, b + d}, [2]int{a, b})
		}
		w.pols = append(w.pols, geom.Polygon{Points: []geom.Point{{X: a, Y: b}, {X: a + c, Y: b}, {X: a + c, Y: b + d}, {X: a, Y: b + d}}})
	}
	// The colours of the picture as an image of the library
	src := stdimage.NewRGBA(stdimage.Rect(0, 0, in.W, in.H))
	for i, c := range w.pic.c {
		for k := 0; k < 3; k++ {
			src.Pix[4*i+k] = uint8(c[k] * 255 / w.pic.u)
		}
		src.Pix[4*i+3] = 255
	}
	w.data = image.ToData(src)
	return w
}

// print is what the inputs look like.
func (w *uWorld) print() string {
	var b []byte
	add := func(v uint64) { b = binary.LittleEndian.AppendUint64(b, v) }
	for _, p := range w.g {
		add(math.Float64bits(p.X))
		add(math.Float64bits(p.Y))
	}
	for i := range w.tris {
		for _, p := range append(w.tris[i].Points[:], w.pols[i].Points...) {
			add(uint64(p.X))
			add(uint64(p.Y))
		}
	}
	for y := 0; y < w.in.H; y++ {
		for x := 0; x < w.in.W; x++ {
			c := w.data.RGBAt(x, y)
			add(math.Float64bits(c.R))
			add(math.Float64bits(c.G))
			add(math.Float64bits(c.B))
		}
	}
	r := w.img.Bounds()
	add(uint64(r.Min.X)<<32 | uint64(r.Min.Y))
	add(uint64(r.Max.X)<<32 | uint64(r.Max.Y))
	if w.in.Img != "odd" { // whose colours can't be changed
		for y := r.Min.Y; y < r.Max.Y; y++ {
			for x := r.Min.X; x < r.Max.X; x++ {
				r, g, bl, al := w.img.At(x, y).RGBA()
				add(uint64(r)<<48 | uint64(g)<<32 | uint64(bl)<<16 | uint64(al))
			}
		}
	}
	d := sha256.Sum256(b)
	return string(d[:])
}

// uValue is a result: a text that has to be the same, and numbers that have to be close.
type uValue struct {
	S string    `json:"s"`
	F []float64 `json:"f"`
	T float64   `json:"t"` // how close
}

// uCall is a finished call: what its result looks like (whenever it's asked), and how to spoil it.
type uCall struct {
	look  func() uValue
	spoil func()
}

func fixed(v uValue) uCall { return uCall{func() uValue { return v }, func() {}} }

func digest(v interface{}) string {
	h := sha256.Sum256([]byte(fmt.Sprint(v)))
	return fmt.Sprintf("%x", h[:12])
}

// shapesValue is a set of polygons.
func shapesValue(ps [][][2]float64, tol float64) uValue {
	type shape struct {
		v    [][2]float64
		x, y float64
	}
	var ss []shape
	for _, p := range ps {
		s := shape{}
		first := 0
		for i, v := range p {
			s.x += v[0] / float64(len(p))
			s.y += v[1] / float64(len(p))
			if v[0] < p[first][0] || (v[0] == p[first][0] && v[1] < p[first][1]) {
				first = i
			}
		}
		s.v = append(append(s.v, p[first:]...), p[:first]...)
		ss = append(ss, s)
	}
	sort.Slice(ss, func(i, j int) bool { return ss[i].x < ss[j].x || (ss[i].x == ss[j].x && ss[i].y < ss[j].y) })
	v := uValue{T: tol}
	for _, s := range ss {
		v.S += fmt.Sprint(len(s.v), " ")
		for _, p := range s.v {
			v.F = append(v.F, p[0], p[1])
		}
	}
	return v
}

func trisValue(ts []geom.Triangle) uValue {
	var l []string
	for _, t := range ts {
		v := t.Points
		sort.Slice(v[:], func(i, j int) bool { return v[i].X < v[j].X || (v[i].X == v[j].X && v[i].Y < v[j].Y) })
		l = append(l, fmt.Sprint(v))
	}
	sort.Strings(l)
	return uValue{S: digest(l)}
}

func (w *uWorld) incremental(insert, remove func(p incrdelaunay.Point)) {
	var ps []incrdelaunay.Point
	for _, p := range w.g {
		ps = append(ps, incrdelaunay.Point{X: int16(math.Round(p.X * float64(w.in.W))), Y: int16(math.Round(p.Y * float64(w.in.H)))})
	}
	for _, p := range ps {
		insert(p)
	}
	for i, p := range ps {
		if i%3 == 1 {
			remove(p)
		}
	}
}

const uFuncs = 12

// call calls a function with the world's inputs.
func (w *uWorld) call(f int) uCall {
	W, H := w.in.W, w.in.H
	switch f {
	case 1:
		r := triangulation.Triangulate(w.g, W, H)
		return uCall{func() uValue { return trisValue(r) }, func() {
			for i := range r {
				r[i] = geom.Triangle{}
			}
		}}
	case 2:
		r := polygonation.Polygonate(w.g, W, H)
		return uCall{func() uValue {
			var ps [][][2]float64
			for _, p := range r {
				var q [][2]float64
				for _, v := range p.Points {
					q = append(q, [2]float64{float64(v.X), float64(v.Y)})
				}
				ps = append(ps, q)
			}
			return shapesValue(ps, 1.5)
		}, func() {
			for _, p := range r {
				for i := range p.Points {
					p.Points[i] = geom.Point{X: -7, Y: -7}
				}
			}
		}}
	case 3:
		r := render.TrianglesOnImage(w.tris, w.data)
		return uCall{func() uValue {
			v := uValue{S: fmt.Sprint(len(r)), T: 1e-9}
			for _, d := range r {
				for _, p := range d.Triangle.Points {
					v.F = append(v.F, p.X, p.Y)
				}
				v.F = append(v.F, d.Color.R, d.Color.G, d.Color.B)
			}
			return v
		}, func() {
			for i := range r {
				r[i] = render.TriangleData{}
			}
		}}
	case 4:
		r := render.PolygonsOnImage(w.pols, w.data)
		return uCall{func() uValue {
			v := uValue{S: fmt.Sprint(len(r)), T: 1e-9}
			for _, d := range r {
				v.S += fmt.Sprint(" ", len(d.Polygon.Points))
				for _, p := range d.Polygon.Points {
					v.F = append(v.F, p.X, p.Y)
				}
				v.F = append(v.F, d.Color.R, d.Color.G, d.Color.B)
			}
			return v
		}, func() {
			for i := range r {
				for j := range r[i].Polygon.Points {
					r[i].Polygon.Points[j].X = -1
				}
				r[i].Color.R = -1
			}
		}}
	case 5:
		r := image.ToData(w.img)
		return uCall{func() uValue {
			a, b := r.Size()
			v := uValue{S: fmt.Sprint(a, b), T: 1e-9}
			for y := 0; y < b; y++ {
				for x := 0; x < a; x++ {
					c := r.RGBAt(x, y)
					v.F = append(v.F, c.R, c.G, c.B)
				}
			}
			return v
		}, func() {}}
	case 6, 7:
		var l []string
		for i := range w.tris {
			n := make([]byte, 256*256)
			pixel := func(x, y int) { n[(x&255)*256+y&255]++ }
			line := func(x0, x1, y int) {
				for x := x0; x < x1; x++ {
					pixel(x, y)
				}
			}
			block := func(x, y int) {
				for k := 0; k < 9; k++ {
					pixel(x+k%3, y+k/3)
				}
			}
			if f == 6 {
				rasterize.DDATriangle(w.tris[i], pixel)
				rasterize.DDATriangleLines(w.tris[i], line)
				rasterize.DDATriangleBlocks(w.tris[i], 3, line, block)
			} else {
				rasterize.DDAPolygon(w.pols[i], pixel)
				rasterize.DDAPolygonBlocks(w.pols[i], 3, line, block)
			}
			d := sha256.Sum256(n)
			l = append(l, string(d[:]))
		}
		return fixed(uValue{S: digest(l)})
	case 8:
		d := incrdelaunay.NewDelaunay(W, H)
		w.incremental(func(p incrdelaunay.Point) { d.Insert(p) }, d.Remove)
		return uCall{func() uValue {
			var ts []geom.Triangle
			d.IterTriangles(func(t incrdelaunay.Triangle) {
				ts = append(ts, geom.NewTriangle(int(t.A.X), int(t.A.Y), int(t.B.X), int(t.B.Y), int(t.C.X), int(t.C.Y)))
			})
			v := trisValue(ts)
			v.S += fmt.Sprint(d.NumPoints())
			return v
		}, func() { // no longer needed
			for i := 0; i < 5; i++ {
				d.Insert(incrdelaunay.Point{X: int16(i), Y: int16(i * i)})
			}
		}}
	case 9:
		d := incrdelaunay.NewVoronoi(W, H)
		w.incremental(d.Insert, d.Remove)
		return uCall{func() uValue {
			var ps [][][2]float64
			d.IterPolygons(func(p []incrdelaunay.FloatPoint) {
				var q [][2]float64
				for _, v := range p {
					q = append(q, [2]float64{v.X, v.Y})
				}
				ps = append(ps, q)
			})
			return shapesValue(ps, 1e-2)
		}, func() {
			for i := 0; i < 5; i++ {
				d.Insert(incrdelaunay.Point{X: int16(i), Y: int16(i * i)})
			}
		}}
	case 10, 11:
		fn := triFunctions(f == 11)(w.data, 2, 2)
		v := fn[1].Calculate(fitness.PointsData{Points: w.g})
		return fixed(uValue{S: "", F: []float64{v}, T: 1e-9})
	}
	// Scaling to the unit square, and copying
	var r []normgeom.NormPolygon
	var q []normgeom.NormTriangle
	for i := range w.pols {
		r = append(r, w.pols[i].ToNorm(W, H))
		q = append(q, w.tris[i].ToNorm(W, H))
	}
	c := w.g.Copy()
	return uCall{func() uValue { return uValue{S: digest([]interface{}{r, q, c})} }, func() {
		for _, p := range r {
			for i := range p.Points {
				p.Points[i].X = -1
			}
		}
		for i := range c {
			c[i].X = -1
		}
	}}
}

// ---- recording --------------------------------------------------------------------------------

type uHistory struct {
	sync.Mutex
	sc    uScenario
	w     []*uWorld
	print []string
	seen  map[[2]int][]uValue
	ev    []M
	kept  []uKept
	own   uWorld // its memory is used for one input after another
	imgs  map[stdimage.Rectangle]*stdimage.RGBA
}

// reused is the world of an input in memory that was used for others.
func (h *uHistory) reused(x int) *uWorld {
	src, m := h.w[x], &h.own
	m.in, m.pic, m.data, m.img = src.in, src.pic, src.data, src.img
	if m.g == nil {
		m.g = make(normgeom.NormPointGroup, 0, 64)
		m.tris = make([]geom.Triangle, len(src.tris))
		m.pols = make([]geom.Polygon, len(src.pols))
		for i := range m.pols {
			m.pols[i].Points = make([]geom.Point, 4)
		}
		h.imgs = map[stdimage.Rectangle]*stdimage.RGBA{}
	}
	m.g = append(m.g[:0], src.g...)
	copy(m.tris, src.tris)
	for i := range m.pols {
		copy(m.pols[i].Points, src.pols[i].Points)
	}
	if a, ok := src.img.(*stdimage.RGBA); ok {
		b := h.imgs[a.Rect]
		if b == nil {
			b = stdimage.NewRGBA(a.Rect)
			h.imgs[a.Rect] = b
		}
		copy(b.Pix, a.Pix)
		m.img = b
	}
	return m
}

type uKept struct {
	f, x, n int
	uCall
}

// id is the number of a value among the different values of a call.
func (h *uHistory) id(f, x int, v uValue) int {
	k := [2]int{f, x}
	for i, o := range h.seen[k] {
		same := o.S == v.S && len(o.F) == len(v.F)
		for j := 0; same && j < len(v.F); j++ {
			same = math.Abs(o.F[j]-v.F[j]) <= v.T || (math.IsNaN(o.F[j]) && math.IsNaN(v.F[j]))
		}
		if same {
			return i + 1
		}
	}
	h.seen[k] = append(h.seen[k], v)
	return len(h.seen[k])
}

func (h *uHistory) unchanged(x int) bool { return h.w[x].print() == h.print[x] }

// alone asks another process, which has seen nothing else, for the results for an input.
func (h *uHistory) alone(x int) bool {
	self, err := os.Executable()
	if err != nil {
		die(err)
	}
	dir, err := os.MkdirTemp("", "purity")
	if err != nil {
		die(err)
	}
	defer os.RemoveAll(dir)
	b, _ := json.Marshal(h.sc.In[x])
	if err := os.WriteFile(dir+"/in", append(b, '\n'), 0o644); err != nil {
		die(err)
	}
	out, err := exec.Command(self, "pure", "-mode", "alone", "-in", dir+"/in", "-out", dir+"/out").Output()
	var vs []uValue
	if ee, ok := err.(*exec.ExitError); ok && (ee.ExitCode() == 5 || (ee.ExitCode() <= 2 && strings.Contains(string(ee.Stderr), "Triangula/"))) {
		return false // the library's fault
	}
	if err != nil || json.Unmarshal(out, &vs) != nil || len(vs) != uFuncs {
		die(fmt.Errorf("process for input %d: %v", x, err))
	}
	for f, v := range vs {
		h.ev = append(h.ev, M{"e": "alone", "f": f + 1, "x": x + 1, "r": h.id(f+1, x, v)})
	}
	return true
}

func (h *uHistory) one(rng *rand.Rand) {
	f, x := 1+rng.Intn(uFuncs), rng.Intn(len(h.w))
	w := h.w[x]
	if rng.Intn(3) == 0 {
		w = h.reused(x)
	}
	c := w.call(f)
	v := c.look()
	n := len(h.kept) + 1
	h.ev = append(h.ev, M{"e": "call", "f": f, "x": x + 1, "r": h.id(f, x, v), "n": n, "in": w.print() == h.print[x]})
	h.kept = append(h.kept, uKept{f, x, n, c})
	switch rng.Intn(4) {
	case 0:
		h.look(rng.Intn(len(h.kept)))
	case 1: // the caller does with a result what it likes
		k := rng.Intn(len(h.kept))
		h.kept[k].spoil()
		h.ev = append(h.ev, M{"e": "spoil", "n": h.kept[k].n})
		h.kept[k].look = nil
		x := h.kept[k].x
		h.ev = append(h.ev, M{"e": "inputs", "in": h.unchanged(x)})
	}
}

func (h *uHistory) look(k int) {
	c := h.kept[k]
	if c.look != nil {
		h.ev = append(h.ev, M{"e": "look", "n": c.n, "r": h.id(c.f, c.x, c.look())})
	}
}

// together calls functions from several goroutines.
func (h *uHistory) together() (why string) {
	var wg sync.WaitGroup
	var mu sync.Mutex
	for p := 0; p < h.sc.Procs; p++ {
		wg.Add(1)
		go func(p int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					mu.Lock()
					why = fmt.Sprint("panic: ", r)
					mu.Unlock()
				}
			}()
			rng := rand.New(rand.NewSource(h.sc.Seed + int64(p) + 1))
			var own []uKept
			for i := 0; i < h.sc.Each; i++ {
				f, x := 1+rng.Intn(uFuncs), rng.Intn(len(h.w))
				if p%2 == 0 && i%2 == 1 { // often the same function at the same time
					f = 1 + (i/6)%uFuncs
				}
				own = append(own, uKept{f, x, 0, h.w[x].call(f)})
			}
			h.Lock()
			defer h.Unlock()
			for _, c := range own {
				c.n = len(h.kept) + 1
				h.kept = append(h.kept, c)
				h.ev = append(h.ev, M{"e": "call", "f": c.f, "x": c.x + 1, "r": h.id(c.f, c.x, c.look()), "n": c.n, "in": true})
			}
		}(p)
	}
	wg.Wait()
	return
}

func (h *uHistory) run() {
	for x, in := range h.sc.In {
		h.w = append(h.w, in.world())
		h.print = append(h.print, h.w[x].print())
	}
	for x := range h.w {
		if !h.alone(x) {
			h.ev = append(h.ev, M{"e": "abort", "why": "alone"})
			return
		}
	}
	rng := rand.New(rand.NewSource(h.sc.Seed))
	for i := 0; i < h.sc.Seq; i++ {
		h.one(rng)
	}
	if why := h.together(); why != "" {
		h.ev = append(h.ev, M{"e": "abort", "why": why})
		return
	}
	for k := range h.kept {
		h.look(k)
	}
	for x := range h.w {
		h.ev = append(h.ev, M{"e": "inputs", "in": h.unchanged(x)})
	}
}

// randomUScenario has inputs that differ little.
func randomUScenario(rng *rand.Rand) uScenario {
	sc := uScenario{Seed: rng.Int63(), Seq: 30 + rng.Intn(50), Procs: 4 + rng.Intn(5), Each: 12 + rng.Intn(24)}
	coord := func() int { return 100 + rng.Intn(unit-200) }
	base := uInput{W: 60 + rng.Intn(100), H: 60 + rng.Intn(100), Pic: rng.Int63(), Shp: rng.Int63(), Img: imgKinds[rng.Intn(len(imgKinds))]}
	if rng.Intn(2) == 0 {
		base.Img = "rgba"
	}
	for n := 4 + rng.Intn(16); len(base.Pts) < n; {
		base.Pts = append(base.Pts, [2]int{coord(), coord()})
	}
	sc.In = append(sc.In, base)
	for n := 2 + rng.Intn(4); len(sc.In) < n; {
		in := sc.In[rng.Intn(len(sc.In))]
		in.Pts = append([][2]int(nil), in.Pts...)
		for k := 1 + rng.Intn(2); k > 0; k-- {
			switch rng.Intn(8) {
			case 7:
				in.Shp = rng.Int63()
			case 0:
				in.W, in.H = in.H, in.W
			case 1:
				in.Pic = rng.Int63()
			case 2:
				rng.Shuffle(len(in.Pts), func(i, j int) { in.Pts[i], in.Pts[j] = in.Pts[j], in.Pts[i] })
			case 3, 4:
				in.Pts[rng.Intn(len(in.Pts))] = [2]int{coord(), coord()}
			case 5:
				in.Pts = append(in.Pts, [2]int{coord(), coord()})
			case 6:
				if rng.Intn(2) == 0 {
					in.Img = imgKinds[rng.Intn(len(imgKinds))]
				}
				in.W += rng.Intn(3)
			}
		}
		sc.In = append(sc.In, in)
	}
	return sc
}

// runPures records calls of the functions that only convert.
func runPures(o opts, s *sink) {
	if o.mode == "alone" {
		eachScenario(o.in, func(b []byte) bool {
			var in uInput
			if err := json.Unmarshal(b, &in); err != nil {
				die(err)
			}
			w := in.world()
			var vs []uValue
			if why := guard(func() {
				for f := 1; f <= uFuncs; f++ {
					vs = append(vs, w.call(f).look())
				}
			}, 20*time.Second); why != "" {
				os.Exit(5)
			}
			json.NewEncoder(os.Stdout).Encode(vs)
			return false
		})
		return
	}
	run := func(sc uScenario) {
		h := &uHistory{sc: sc, seen: map[[2]int][]uValue{}}
		if why := guard(h.run, 60*time.Second); why != "" {
			h.Lock()
			h.ev = append(h.ev, M{"e": "abort", "why": why})
			h.Unlock()
		}
		s.count("calls", len(h.kept))
		s.put(M{"k": uFuncs, "x": len(sc.In), "sc": sc, "t": h.ev})
	}
	if o.in != "" {
		eachScenario(o.in, func(b []byte) bool {
			var sc uScenario
			if json.Unmarshal(b, &sc) == nil {
				run(sc)
			}
			return true
		})
		return
	}
	rng := rand.New(rand.NewSource(o.seed))
	for i := 0; i < o.n && time.Now().Before(o.deadline) && atomic.LoadInt32(&stuck) == 0; i++ {
		run(randomUScenario(rng))
	}
}
