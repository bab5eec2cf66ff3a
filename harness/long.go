package main

import (
	"encoding/json"
	stdimage "image"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sync/atomic"
	"time"

	"github.com/RH12503/Triangula/algorithm"
	"github.com/RH12503/Triangula/algorithm/evaluator"
	"github.com/RH12503/Triangula/fitness"
	"github.com/RH12503/Triangula/generator"
	"github.com/RH12503/Triangula/geom"
	"github.com/RH12503/Triangula/image"
	"github.com/RH12503/Triangula/mutation"
	"github.com/RH12503/Triangula/normgeom"
	"github.com/RH12503/Triangula/polygonation"
	"github.com/RH12503/Triangula/rasterize"
	"github.com/RH12503/Triangula/render"
	"github.com/RH12503/Triangula/triangulation"
	"github.com/RH12503/Triangula/triangulation/incrdelaunay"
	"github.com/RH12503/Triangula/utils"
)

// lScenario is a long run: what is repeated, and with which sizes.
type lScenario struct {
	Kind   string  `json:"kind"`
	Fit    string  `json:"fit,omitempty"`
	W      int     `json:"w"`
	H      int     `json:"h"`
	N      int     `json:"n"`
	Size   int     `json:"size,omitempty"`
	Cutoff int     `json:"cutoff,omitempty"`
	Pow    int     `json:"pow,omitempty"`
	Rate   float64 `json:"rate,omitempty"`
	Amount float64 `json:"amount,omitempty"`
	Copies bool    `json:"copies,omitempty"`
	Ops    int     `json:"ops"` // before the first measurement; the next ones are after twice as many each
	Seed   int64   `json:"seed"`
}

const lMarks = 5

// lLast keeps what a run uses reachable while it's measured.
var lLast interface{}

func openFiles() int {
	l, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return 0
	}
	return len(l)
}

type lRun struct {
	sc  lScenario
	evs []M
	ops int
}

// tick is called after every operation.
func (r *lRun) tick() (more bool) {
	r.ops++
	for k := 0; k < lMarks; k++ {
		if r.ops == r.sc.Ops<<k {
			r.mark()
		}
	}
	return r.ops < r.sc.Ops<<(lMarks-1)
}

func (r *lRun) mark() {
	files := openFiles()
	best := uint64(1 << 62)
	gor := 1 << 30
	for i := 0; i < 3; i++ {
		runtime.GC()
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		if m.HeapAlloc < best {
			best = m.HeapAlloc
		}
		if g := runtime.NumGoroutine(); g < gor {
			gor = g
		}
	}
	if best > 1<<30 {
		best = 1 << 30
	}
	r.evs = append(r.evs, M{"e": "mark", "n": r.ops, "heap": best, "gor": gor, "files": files})
}

func (sc lScenario) algorithm(pic *picture, rng *rand.Rand) algorithm.Algorithm {
	first := func() normgeom.NormPointGroup { return (generator.RandomGenerator{}).Generate(sc.N) }
	ev := func(n int) evaluator.Evaluator {
		switch sc.Fit {
		case "tri", "poly":
			return evaluator.NewParallel(triFunctions(sc.Fit == "poly")(pic, 3, n), sc.Pow)
		case "many":
			return evaluator.NewMany(func() fitness.Function { return fitness.TrianglesImageFunctions(pic, 3, 1)[0] }, n)
		}
		return evaluator.NewOne(&hashFn{seed: 1, kind: "fine"})
	}
	mut := mutation.NewGaussianMethod(sc.Rate, sc.Amount)
	if sc.Kind == "simple" {
		return algorithm.NewSimple(first, sc.Size, sc.Cutoff, ev, mut)
	}
	return algorithm.NewModifiedGenetic(first, sc.Size, sc.Cutoff, ev, mut)
}

// lStub ends the utilities after enough batches.
type lStub struct {
	r    *lRun
	best normgeom.NormPointGroup
	gen  int
}

func (s *lStub) Step() {
	s.gen++
	if !s.r.tick() {
		panic(ended{})
	}
}
func (s *lStub) Best() normgeom.NormPointGroup { return s.best }
func (s *lStub) Stats() algorithm.Stats {
	return algorithm.Stats{Generation: s.gen, BestFitness: 0.5}
}

func lImage(p *picture) stdimage.Image {
	m := stdimage.NewRGBA(stdimage.Rect(0, 0, p.w, p.h))
	for i, c := range p.c {
		for k := 0; k < 3; k++ {
			m.Pix[4*i+k] = uint8(c[k] * 255 / p.u)
		}
		m.Pix[4*i+3] = 255
	}
	return m
}

func (r *lRun) run() {
	sc := r.sc
	rng := rand.New(rand.NewSource(sc.Seed))
	rand.Seed(sc.Seed)
	pic := makePicture("noise", sc.W, sc.H, sc.Seed)
	pts := func() normgeom.NormPointGroup {
		g := normgeom.NormPointGroup{}
		for i := 0; i < sc.N; i++ {
			g = append(g, normgeom.NormPoint{X: rng.Float64(), Y: rng.Float64()})
		}
		return g
	}
	switch sc.Kind {
	case "mod", "simple":
		a := sc.algorithm(pic, rng)
		lLast = a
		for a.Step(); r.tick(); a.Step() {
		}
	case "make": // algorithms that are dropped
		for ok := true; ok; ok = r.tick() {
			k := sc
			k.Kind = []string{"mod", "simple"}[r.ops%2]
			a := k.algorithm(pic, rng)
			a.Step()
			a.Step()
		}
	case "delaunay", "voronoi":
		type handle struct {
			d    *incrdelaunay.Delaunay
			v    *incrdelaunay.IVoronoi
			have []incrdelaunay.Point
		}
		hs := []*handle{{}, {}}
		for _, h := range hs {
			if sc.Kind == "delaunay" {
				h.d = incrdelaunay.NewDelaunay(sc.W, sc.H)
			} else {
				h.v = incrdelaunay.NewVoronoi(sc.W, sc.H)
			}
		}
		lLast = hs
		for ok := true; ok; ok = r.tick() {
			k := rng.Intn(2)
			h, o := hs[k], hs[1-k]
			switch {
			case sc.Copies && rng.Intn(4) == 0:
				if h.d != nil {
					h.d.Set(o.d)
				} else {
					h.v.Set(o.v)
				}
				h.have = append(h.have[:0], o.have...)
			case len(h.have) > 0 && (len(h.have) == sc.N || rng.Intn(2) == 0):
				i := rng.Intn(len(h.have))
				p := h.have[i]
				h.have = append(h.have[:i], h.have[i+1:]...)
				if h.d != nil {
					h.d.Remove(p)
				} else {
					h.v.Remove(p)
				}
			default:
				p := incrdelaunay.Point{X: int16(rng.Intn(sc.W + 1)), Y: int16(rng.Intn(sc.H + 1))}
				if len(h.have) > 0 && rng.Intn(4) == 0 {
					p = h.have[rng.Intn(len(h.have))]
				}
				h.have = append(h.have, p)
				if h.d != nil {
					h.d.Insert(p)
				} else {
					h.v.Insert(p)
				}
			}
		}
	case "function": // one function, other points each time
		f := triFunctions(sc.Fit == "poly")(pic, 3, 2)
		lLast = f
		e := evaluator.NewParallel(f, sc.Pow)
		for ok := true; ok; ok = r.tick() {
			k := r.ops % 2
			if r.ops > 2 && rng.Intn(2) == 0 {
				e.SetBase(k, 1-k)
			}
			e.Prepare()
			e.Get(k).Calculate(fitness.PointsData{Points: pts()})
			e.Update(k)
		}
	case "calls": // every conversion, and generators and mutators
		img := lImage(pic)
		data := image.ToData(img)
		m := []mutation.Method{mutation.NewGaussianMethod(sc.Rate, sc.Amount), mutation.NewRandomMethod(sc.Rate, sc.Amount)}
		for ok := true; ok; ok = r.tick() {
			g := pts()
			switch r.ops % 7 {
			case 0:
				ts := triangulation.Triangulate(g, sc.W, sc.H)
				render.TrianglesOnImage(ts, data)
			case 1:
				ps := polygonation.Polygonate(g, sc.W, sc.H)
				render.PolygonsOnImage(ps, data)
			case 2:
				image.ToData(lImage(pic))
			case 3:
				(generator.RandomGenerator{}).Generate(sc.N)
			case 4:
				generator.NewSpacedGenerator(4).Generate(sc.N)
			case 5:
				for _, x := range m {
					x.Mutate(g, func(mutation.Mutation) {})
				}
				g.Copy().Set(g)
			case 6:
				t := toTri([2]int{rng.Intn(sc.W), rng.Intn(sc.H)}, [2]int{rng.Intn(sc.W), rng.Intn(sc.H)}, [2]int{rng.Intn(sc.W), rng.Intn(sc.H)})
				rasterize.DDATriangle(t, func(x, y int) {})
				rasterize.DDATriangleLines(t, func(a, b, c int) {})
				rasterize.DDATriangleBlocks(t, 2, func(a, b, c int) {}, func(a, b int) {})
				_ = geom.Polygon{Points: t.Points[:]}.ToNorm(sc.W, sc.H)
			}
		}
	case "output":
		dir, err := os.MkdirTemp(".", "long")
		if err != nil {
			die(err)
		}
		defer os.RemoveAll(dir)
		stdout := os.Stdout
		if os.Stdout, err = os.OpenFile(os.DevNull, os.O_WRONLY, 0); err != nil {
			die(err)
		}
		defer func(p int) {
			debug.SetGCPercent(p)
			os.Stdout.Close()
			os.Stdout = stdout
			if e := recover(); e != nil {
				if _, ok := e.(ended); !ok {
					panic(e)
				}
			}
		}(debug.SetGCPercent(-1)) // which would close files that were forgotten
		st := &lStub{r: r, best: pts()}
		utils.GenerateAlgorithmOutput(filepath.Join(dir, "out"), st, 1)
	}
}

func runLong(sc lScenario) (tr M, bad bool) {
	r := &lRun{sc: sc}
	lLast = nil
	why := guard(r.run, 300*time.Second)
	if why != "" {
		r.evs, bad = append(r.evs, M{"e": "abort", "why": why}), true
	}
	lLast = nil
	b, _ := json.Marshal(sc)
	// Bytes for each operation that are more than what grows with the largest sizes seen so far
	lim := map[string]int{"mod": 20, "simple": 20, "make": 500, "delaunay": 1, "voronoi": 1, "function": 4, "calls": 4, "output": 60}[sc.Kind]
	return M{"k": 1, "sc": string(b), "marks": lMarks, "lim": lim, "t": r.evs}, bad
}

var lKinds = []string{"mod", "delaunay", "simple", "voronoi", "make", "mod", "function", "calls", "output", "voronoi", "delaunay", "simple", "function"}

func randomLScenario(rng *rand.Rand, i int) lScenario {
	sc := lScenario{Kind: lKinds[i%len(lKinds)], W: 8 + rng.Intn(25), H: 8 + rng.Intn(25), N: 4 + rng.Intn(8), Seed: rng.Int63n(1 << 40),
		Fit: []string{"tri", "poly"}[rng.Intn(2)], Pow: rng.Intn(7), Rate: []float64{0.2, 0.5, 1}[rng.Intn(3)], Amount: []float64{0.3, 1}[rng.Intn(2)],
		Copies: rng.Intn(3) > 0, Size: 4 + rng.Intn(5)}
	sc.Cutoff = 1 + rng.Intn(2)
	switch sc.Kind {
	case "mod", "simple":
		sc.Ops = 1000
		if rng.Intn(6) == 0 {
			sc.Fit = []string{"many", "own"}[rng.Intn(2)]
		}
	case "make":
		sc.Ops = 30
	case "delaunay", "voronoi":
		sc.Ops = 4000
		if rng.Intn(2) == 0 { // hardly any point comes twice
			sc.W, sc.H = 500+rng.Intn(2000), 500+rng.Intn(2000)
		}
	case "function":
		sc.Ops = 500
	case "calls":
		sc.Ops = 280
	case "output":
		sc.Ops = 25
	}
	return sc
}

func runLongs(o opts, s *sink) {
	if o.in != "" {
		eachScenario(o.in, func(b []byte) bool {
			var sc lScenario
			if err := json.Unmarshal(b, &sc); err != nil {
				die(err)
			}
			tr, _ := runLong(sc)
			s.put(tr)
			return atomic.LoadInt32(&stuck) == 0
		})
		return
	}
	rng := rand.New(rand.NewSource(o.seed))
	bad := 0
	for i := 0; i < o.n && bad < 3 && atomic.LoadInt32(&stuck) == 0 && (i < len(lKinds) || time.Now().Before(o.deadline)); i++ {
		sc := randomLScenario(rng, int(o.seed/100)*3+i)
		tr, b := runLong(sc)
		s.count("kind_"+sc.Kind, 1)
		s.count("operations", sc.Ops<<(lMarks-1))
		if b {
			bad++
		}
		s.put(tr)
	}
}
