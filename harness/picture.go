package main

import (
	"encoding/json"
	stdimage "image"
	stdcolor "image/color"
	"math"
	"math/rand"
	"sort"
	"sync/atomic"
	"time"

	"github.com/RH12503/Triangula/algorithm"
	"github.com/RH12503/Triangula/algorithm/evaluator"
	"github.com/RH12503/Triangula/generator"
	"github.com/RH12503/Triangula/image"
	"github.com/RH12503/Triangula/mutation"
	"github.com/RH12503/Triangula/normgeom"
	"github.com/RH12503/Triangula/polygonation"
	"github.com/RH12503/Triangula/random"
	"github.com/RH12503/Triangula/triangulation"
	"github.com/RH12503/Triangula/utils"
)

// pScenario is a whole run of an algorithm, of which the best points are rendered.
type pScenario struct {
	Algo   string  `json:"algo"` // mod, simple, default (utils.DefaultAlgorithm)
	Poly   bool    `json:"poly,omitempty"`
	Gen    string  `json:"gen"` // random, spaced, own
	Mut    string  `json:"mut"` // gauss, random, default, own
	Rate   float64 `json:"rate"`
	Amount float64 `json:"amount"`
	W      int     `json:"w"`
	H      int     `json:"h"`
	Pic    string  `json:"pic"`
	Seed   int64   `json:"seed"`
	BS     int     `json:"bs"`
	Pow    int     `json:"pow"`
	N      int     `json:"n"`
	Size   int     `json:"size"`
	Cutoff int     `json:"cutoff"`
	Gens   []int   `json:"gens"` // steps before each look
}

func (sc pScenario) stdImage(p *picture) stdimage.Image {
	img := stdimage.NewRGBA(stdimage.Rect(0, 0, sc.W, sc.H))
	for i, c := range p.c {
		img.SetRGBA(i%sc.W, i/sc.W, stdcolor.RGBA{R: uint8(c[0]), G: uint8(c[1]), B: uint8(c[2]), A: 255})
	}
	return img
}

func (sc pScenario) algorithm(data image.Data, p *picture) algorithm.Algorithm {
	rng := rand.New(rand.NewSource(sc.Seed))
	src := pointSource(pointKinds[rng.Intn(len(pointKinds))], sc.W, sc.H, rng)
	if sc.Algo == "default" {
		return utils.DefaultAlgorithm(sc.N, sc.stdImage(p))
	}
	next := func() [2]int { return unitPoints(rng, 1, sc.W, sc.H, src)[0] }
	var mut mutation.Method
	switch sc.Mut {
	case "gauss":
		mut = mutation.NewGaussianMethod(sc.Rate, sc.Amount)
	case "random":
		mut = mutation.NewRandomMethod(sc.Rate, sc.Amount)
	case "default":
		mut = mutation.DefaultGaussianMethod(sc.N)
	default:
		mut = &unitMutator{rng: rng, next: next, rate: sc.Rate}
	}
	first := func() normgeom.NormPointGroup {
		switch sc.Gen {
		case "random":
			return (generator.RandomGenerator{}).Generate(sc.N)
		case "spaced":
			return generator.NewSpacedGenerator(20).Generate(sc.N)
		case "edge": // as close to one half as can be
			g := generator.RandomGenerator{}.Generate(sc.N)
			near := func(v float64, m int) float64 {
				if rng.Intn(3) == 0 {
					return v
				}
				v = (math.Floor(v*float64(m)) + 0.5) / float64(m)
				for n := rng.Intn(4); n > 0; n-- {
					v = math.Nextafter(v, float64(rng.Intn(2)))
				}
				if k := rng.Intn(3); k > 0 {
					v += []float64{-1e-9, 1e-9}[k-1] * float64(1+rng.Intn(30))
				}
				return math.Min(math.Max(v, 0), 1)
			}
			for i := range g {
				g[i] = normgeom.NormPoint{X: near(g[i].X, sc.W), Y: near(g[i].Y, sc.H)}
			}
			return g
		case "pair": // with a cell whose vertices are as close to one half as can be in some images
			g := group(unitPoints(rng, sc.N, sc.W, sc.H, src))
			y := float64(rng.Intn(sc.H+1)) / float64(sc.H)
			for i := 0; i < 2 && i < sc.N; i++ {
				g[i] = normgeom.NormPoint{X: float64(i) / float64(sc.W), Y: y}
			}
			return g
		}
		return group(unitPoints(rng, sc.N, sc.W, sc.H, src))
	}
	ev := func(n int) evaluator.Evaluator {
		return evaluator.NewParallel(triFunctions(sc.Poly)(data, sc.BS, n), sc.Pow)
	}
	if sc.Algo == "simple" {
		return algorithm.NewSimple(first, sc.Size, sc.Cutoff, ev, mut)
	}
	return algorithm.NewModifiedGenetic(first, sc.Size, sc.Cutoff, ev, mut)
}

func runPicture(sc pScenario) (tr M, bad bool) {
	evs := []M{}
	tr = M{"k": 1, "w": sc.W, "h": sc.H, "n": sc.N, "poly": sc.Poly, "unit": 255, "mul": 1, "algo": true}
	var pic *picture
	why := guard(func() {
		pic = makePicture(sc.Pic, sc.W, sc.H, sc.Seed)
		if pic.u != 255 {
			for i := range pic.c {
				for k := range pic.c[i] {
					pic.c[i][k] *= 255
				}
			}
			pic.u = 255
		}
		rand.Seed(sc.Seed)
		random.Seed(sc.Seed)
		data := image.ToData(sc.stdImage(pic))
		a := sc.algorithm(data, pic)
		last := math.Inf(1)
		for _, k := range sc.Gens {
			for ; k > 0; k-- {
				a.Step()
			}
			d := pic.difference(a.Stats().BestFitness)
			ev, b := sc.look(pic, data, a.Best(), d)
			bad = bad || b || d > last+1
			last = d
			evs = append(evs, ev)
		}
	}, 60*time.Second)
	if why != "" {
		evs, bad = append(evs, M{"e": "abort", "why": why}), true
	}
	b, _ := json.Marshal(sc)
	tr["sc"], tr["t"] = string(b), evs
	img := [][]int{}
	if pic != nil {
		for y := 0; y < sc.H; y++ {
			row := []int{}
			for x := 0; x < sc.W; x++ {
				c := pic.c[y*sc.W+x]
				row = append(row, c[0]<<16|c[1]<<8|c[2])
			}
			img = append(img, row)
		}
	}
	tr["img"] = img
	return
}

// look renders the points and says what is seen.
func (sc pScenario) look(pic *picture, data image.Data, best normgeom.NormPointGroup, d float64) (M, bool) {
	s := &fState{sc: fScenario{W: sc.W, H: sc.H, Poly: sc.Poly}, pic: pic}
	bad := len(best) != sc.N
	pts := [][2]int{}
	set := map[[2]int]bool{}
	for _, p := range best {
		q := [2]int{int(math.Round(p.X * float64(sc.W))), int(math.Round(p.Y * float64(sc.H)))}
		pts = append(pts, q)
		set[q] = true
	}
	rd := rdScenario{Kind: "shown", Poly: sc.Poly, W: sc.W, H: sc.H}
	if sc.Poly {
		for _, p := range polygonation.Polygonate(best, sc.W, sc.H) {
			v := [][2]int{}
			for _, q := range p.Points {
				v = append(v, [2]int{q.X, q.Y})
			}
			rd.Shapes = append(rd.Shapes, v)
		}
		bad = bad || len(rd.Shapes) != len(set)
	} else {
		for _, t := range triangulation.Triangulate(best, sc.W, sc.H) {
			v := [][2]int{}
			for _, q := range t.Points {
				v = append(v, [2]int{q.X, q.Y})
			}
			rd.Shapes = append(rd.Shapes, v)
		}
	}
	ev, b := rd.shown(pic, data)
	bad = bad || b
	ev["pts"], ev["d"] = pts, toInt(d)
	unique := true
	var count [][][2]int
	if !sc.Poly {
		pl := []pt{}
		for q := range set {
			pl = append(pl, pt{q[0], q[1]})
		}
		sortPts(pl)
		w := newWitness(superOf(sc.W, sc.H), pl, func(map[pt]int) map[[3]int]bool { return nil })
		ev["V"], ev["W"] = w.points(), w.encode()
		unique = w.unique
		// Slivers along the hull, which reach the super triangle, don't count
		counted := map[[3][2]int]bool{}
		for _, t := range w.t {
			if t[0] > 2 && t[1] > 2 && t[2] > 2 {
				var q [][2]int
				for _, k := range t {
					q = append(q, [2]int{w.v[k].x, w.v[k].y})
				}
				counted[corners(q)] = true
			}
		}
		for _, v := range rd.Shapes {
			if counted[corners(v)] {
				delete(counted, corners(v))
				count = append(count, v)
			}
		}
		bad = bad || unique && len(counted) > 0
	} else {
		count = rd.Shapes
	}
	shapes := []fShape{}
	drawn := 0
	for _, v := range count {
		h := shapeOf(v)
		shapes = append(shapes, h)
		if sc.Poly {
			unique = unique && !h.odd
		}
		for _, l := range h.l {
			if l[1] > l[0] {
				drawn += l[1] - l[0]
			}
		}
	}
	ev["odd"] = !unique
	want := pic.variance(shapes) + 1.5*255*255*float64(s.blank2(shapes))
	if unique && !(d > want-1-float64(drawn) && d < want+1) {
		bad = true
	}
	return ev, bad
}

// corners are the vertices in order.
func corners(v [][2]int) (c [3][2]int) {
	q := append([][2]int{}, v...)
	sort.Slice(q, func(i, j int) bool { return q[i][0] < q[j][0] || (q[i][0] == q[j][0] && q[i][1] < q[j][1]) })
	copy(c[:], q)
	return
}

func randomPScenario(rng *rand.Rand, small bool) pScenario {
	pick := func(s ...string) string { return s[rng.Intn(len(s))] }
	sc := pScenario{Algo: pick("mod", "mod", "simple"), Poly: rng.Intn(2) == 0, Gen: pick("random", "spaced", "own", "edge"),
		Mut: pick("gauss", "random", "default", "own"), Pic: picKinds[rng.Intn(len(picKinds))], Seed: rng.Int63n(1 << 40)}
	m := 25
	if !small {
		m = []int{12, 30, 60, 90}[rng.Intn(4)]
	}
	sc.W, sc.H = 2+rng.Intn(m), 2+rng.Intn(m)
	if !small && rng.Intn(4) == 0 { // wide or tall
		// TLC's integers hold the squares of up to 11000 pixels
		sc.W = 250 + rng.Intn(2750)
		most := 10000 / sc.W
		if most > 8 {
			most = 8
		}
		sc.H = 1 + rng.Intn(most)
		if rng.Intn(2) == 0 {
			sc.W, sc.H = sc.H, sc.W
		}
	}
	sc.N = 1 + rng.Intn(12)
	if !small {
		sc.N = 1 + rng.Intn(60)
	}
	if rng.Intn(6) == 0 {
		sc.Gen, sc.Poly, sc.W, sc.Pic, sc.Mut = "pair", true, 49*(1+rng.Intn(2)), "noise", "own"
		sc.H = 2 + rng.Intn(13)
		sc.N += 2
	}
	sc.Rate = []float64{0.05, 0.3, 1.5 / float64(sc.N)}[rng.Intn(3)]
	sc.Amount = []float64{0.05, 0.3, 1}[rng.Intn(3)]
	sc.BS = 1 + rng.Intn(8)
	sc.Pow = []int{0, 1, 4, 10, 14}[rng.Intn(5)]
	sc.Size = 2 + rng.Intn(12)
	if rng.Intn(4) == 0 {
		sc.Size = 12 + rng.Intn(40)
	}
	sc.Cutoff = 1 + rng.Intn(sc.Size/2)
	sc.Gens = []int{0, 1, 1 + rng.Intn(4), 5 + rng.Intn(10)}
	if !small {
		sc.Gens = append(sc.Gens, 10+rng.Intn(60))
	}
	return sc
}

func runPictures(o opts, s *sink) {
	if o.in != "" {
		eachScenario(o.in, func(b []byte) bool {
			var sc pScenario
			if err := json.Unmarshal(b, &sc); err != nil {
				die(err)
			}
			tr, _ := runPicture(sc)
			s.put(tr)
			return atomic.LoadInt32(&stuck) == 0
		})
		return
	}
	rng := rand.New(rand.NewSource(o.seed))
	bad := 0
	for i := 0; i < o.n+o.size && bad < 3 && atomic.LoadInt32(&stuck) == 0 && time.Now().Before(o.deadline); i++ {
		sc := randomPScenario(rng, i < o.n)
		if i == o.n && o.seed%4 == 0 {
			sc.Algo, sc.Poly, sc.Gens = "default", false, []int{0, 1, 3, 10}
		}
		tr, b := runPicture(sc)
		s.count("runs", 1)
		s.count("looks", len(sc.Gens))
		if b {
			bad++
			s.count("suspicious", 1)
		}
		if i <= o.n || b {
			s.put(tr)
		}
	}
}
