package main

import (
	"math"
	mrand "math/rand"
	"sort"

	"github.com/RH12503/Triangula/generator"
	"github.com/RH12503/Triangula/mutation"
	"github.com/RH12503/Triangula/normgeom"
	"github.com/RH12503/Triangula/random"
)

// Samples of the library's random numbers, mutations and points, from which TLC decides whether their
// distribution is the one that is configured.

type distOp struct {
	Of     string  `json:"of"`
	N      int64   `json:"n"` // bound of intn, number of points, or number of numbers
	Rate   int     `json:"rate,omitempty"`
	Amount float64 `json:"amount,omitempty"`
	Times  int     `json:"times,omitempty"`
}

const distUnit = 1 << 14

// unitInt is the place of a fraction; -1 and distUnit are outside of [0, 1).
func unitInt(v float64) int {
	switch {
	case v >= 1 || math.IsNaN(v):
		return distUnit
	case v < 0:
		return -1
	}
	return int(v * distUnit)
}

func thousandths(v float64) int {
	if math.IsNaN(v) {
		return 1000000
	}
	return int(math.Floor(math.Max(-1000, math.Min(1000, v)) * 1000))
}

func sample(v []int, of string) M {
	return M{"e": "sample", "of": of, "lim": distUnit, "n": len(v), "v": v}
}

// draw gives the numbers of a kind, each as a fraction that is uniform in [0, 1), or as a normal one.
func draw(o *distOp) (string, func() float64) {
	const hi = 1 << 14
	switch o.Of {
	case "intn":
		return "uni", func() float64 { return float64(random.Intn(int(o.N))) / float64(o.N) }
	case "float32":
		return "uni", func() float64 { return float64(random.Float32()) }
	case "int63hi":
		return "uni", func() float64 { return float64(random.Int63()>>49) / hi }
	case "int63mid":
		return "uni", func() float64 { return float64(random.Int63()>>25&(hi-1)) / hi }
	case "int63lo":
		return "uni", func() float64 { return float64(random.Int63()&(hi-1)) / hi }
	case "uint32hi":
		return "uni", func() float64 { return float64(random.Uint32()>>18) / hi }
	case "uint32lo":
		return "uni", func() float64 { return float64(random.Uint32()&(hi-1)) / hi }
	}
	return "norm", random.NormFloat64
}

func runDist(sc cScenario) (evs []M) {
	o := sc.Dist
	random.Seed(sc.Seed.int64())
	mrand.Seed(sc.Seed.int64())
	switch o.Of {
	case "gauss", "random", "default":
		if o.N >= 1000 {
			return distMass(o)
		}
		return distMutations(o)
	case "points":
		if o.N > 1000 {
			return distMassPoints(int(o.N))
		}
		var x, y, xy []int
		for k := 0; k < o.Times; k++ {
			for _, p := range (generator.RandomGenerator{}).Generate(int(o.N)) {
				x, y = append(x, unitInt(p.X)), append(y, unitInt(p.Y))
				xy = append(xy, unitInt(p.X), unitInt(p.Y))
			}
		}
		return []M{sample(x, "uni"), sample(y, "uni"), sample(xy[:len(x)], "uni")}
	case "small": // every number below a small bound
		c := make([]int, o.N)
		for i := 0; i < o.Times; i++ {
			if v := random.Intn(int(o.N)); v >= 0 && v < len(c) {
				c[v]++
			}
		}
		return []M{{"e": "count", "of": "uni", "n": o.Times, "c": c}}
	}
	kind, f := draw(o)
	if o.Times <= 5000 {
		var v []int
		for i := 0; i < o.Times; i++ {
			if kind == "norm" {
				v = append(v, thousandths(f()))
			} else {
				v = append(v, unitInt(f()))
			}
		}
		return []M{sample(v, kind)}
	}
	c := make([]int, 64)
	if kind == "norm" {
		c = make([]int, 42)
	}
	for i := 0; i < o.Times; i++ {
		v := f()
		if kind == "norm" {
			k := int(math.Floor((math.Max(-5, math.Min(5, v))+4)*5)) + 1
			c[clampTo(k, 0, 41)]++
		} else {
			c[clampTo(unitInt(v)/(distUnit/64), 0, 63)]++
		}
	}
	return []M{{"e": "count", "of": kind, "n": o.Times, "c": c}}
}

func clampTo(x, a, b int) int {
	if x < a {
		return a
	}
	if x > b {
		return b
	}
	return x
}

// distMutations mutates a group often: o.Rate is in 1/10^4.
func distMutations(o *distOp) (evs []M) {
	n := int(o.N)
	g := make(normgeom.NormPointGroup, n)
	var m mutation.Method
	amount := o.Amount
	switch o.Of {
	case "gauss":
		m = mutation.NewGaussianMethod(float64(o.Rate)/1e4, amount)
	case "random":
		m = mutation.NewRandomMethod(float64(o.Rate)/1e4, amount)
	default:
		m, amount = mutation.DefaultGaussianMethod(n), 0.3
	}
	changed, both, first := make([]int, n), make([]int, n), make([]int, n)
	var xs, ys, xy []int
	at := func(d float64) int {
		if o.Of == "random" {
			return unitInt(d/amount + 0.5)
		}
		return thousandths(d / (amount / 2))
	}
	before := make([]bool, n)
	for k := 0; k < o.Times; k++ {
		for i := range g {
			g[i] = normgeom.NormPoint{X: 0.5, Y: 0.5}
		}
		now := make([]bool, n)
		m.Mutate(g, func(mu mutation.Mutation) {
			if mu.Index < 0 || mu.Index >= n {
				panic("Triangula RH12503: no such point")
			}
			now[mu.Index] = true
			if len(xs) < 4000 {
				x, y := at(g[mu.Index].X-0.5), at(g[mu.Index].Y-0.5)
				xs, ys, xy = append(xs, x), append(ys, y), append(xy, x, y)
			}
		})
		for i := range now {
			if !now[i] {
				continue
			}
			changed[i]++
			if n > 1 && now[(i+1)%n] { // together with the next point
				both[i]++
			}
			if before[i] { // twice in a row
				first[i]++
			}
		}
		before = now
	}
	evs = append(evs, M{"e": "rate", "n": o.Times, "rate": o.Rate, "own": true, "c": changed})
	r2 := o.Rate * o.Rate / 10000
	if n > 2 {
		evs = append(evs, M{"e": "rate", "n": o.Times, "rate": r2, "own": false, "c": both})
	}
	evs = append(evs, M{"e": "rate", "n": o.Times - 1, "rate": r2, "own": false, "c": first})
	// What is clamped at the border of the unit square is in the outermost bins in any case
	if len(xs) >= 1000 {
		of := "norm"
		if o.Of == "random" {
			of = "uni"
		}
		k := len(xs) / 1000 * 1000
		evs = append(evs, sample(xs[:k], of), sample(ys[:k], of), sample(xy[:k], of))
	}
	return
}

const parts = 16

// distMass mutates a large group, and counts the mutations in each part of the group.
func distMass(o *distOp) []M {
	n := int(o.N) / parts * parts
	g := make(normgeom.NormPointGroup, n)
	var m mutation.Method
	switch o.Of {
	case "gauss":
		m = mutation.NewGaussianMethod(float64(o.Rate)/1e4, o.Amount)
	case "random":
		m = mutation.NewRandomMethod(float64(o.Rate)/1e4, o.Amount)
	default:
		m = mutation.DefaultGaussianMethod(n)
	}
	c, last := make([]int, parts), 0
	for k := 0; k < o.Times; k++ {
		for i := range g {
			g[i] = normgeom.NormPoint{X: 0.5, Y: 0.5}
		}
		m.Mutate(g, func(mu mutation.Mutation) {
			if mu.Index < 0 || mu.Index >= n {
				panic("Triangula RH12503: no such point")
			}
			c[mu.Index/(n/parts)]++
			if mu.Index >= n-100 {
				last++
			}
		})
	}
	return []M{{"e": "rate", "n": o.Times * (n / parts), "rate": o.Rate, "own": true, "c": c},
		{"e": "rate", "n": o.Times * 100, "rate": o.Rate, "own": true, "c": []int{last}}}
}

// distMassPoints counts the coordinates of a large group, for each part of the group.
func distMassPoints(n int) (evs []M) {
	g := (generator.RandomGenerator{}).Generate(n)
	seen, twins := map[normgeom.NormPoint]bool{}, 0
	for _, p := range g {
		if seen[p] {
			twins++
		}
		seen[p] = true
	}
	evs = append(evs, M{"e": "twins", "n": n, "made": len(g), "c": twins})
	for k := 0; k < 8 && len(g) == n; k++ {
		x, y := make([]int, 16), make([]int, 16)
		part := g[k*n/8 : (k+1)*n/8]
		for _, p := range part {
			x[clampTo(unitInt(p.X)/(distUnit/16), 0, 15)]++
			y[clampTo(unitInt(p.Y)/(distUnit/16), 0, 15)]++
		}
		evs = append(evs, M{"e": "count", "of": "uni", "n": len(part), "c": x}, M{"e": "count", "of": "uni", "n": len(part), "c": y})
	}
	return
}

func distScenario(rng *mrand.Rand, i int, big bool) cScenario {
	o := &distOp{}
	kinds := []string{"gauss", "random", "default", "norm", "intn", "points", "small", "float32", "int63hi", "int63mid", "int63lo", "uint32hi", "uint32lo"}
	sort.Strings(kinds)
	o.Of = kinds[i%len(kinds)]
	switch o.Of {
	case "gauss", "random", "default":
		o.N = int64([]int{2, 4, 5, 10, 20, 50}[rng.Intn(6)])
		o.Rate = []int{200, 1000, 2000, 3000, 5000, 7000, 9000, 10000}[rng.Intn(8)]
		if o.Of == "default" {
			o.Rate = int(20000 / o.N)
		}
		if o.Rate < 10000 && rng.Intn(2) == 0 {
			o.Times = 8000
		} else {
			o.Times = 4000
		}
		if o.Rate < 1000 { // enough for pairs
			o.Times = 10000
			if o.N < 20 {
				o.N = 20
				if o.Of == "default" {
					o.Rate = 1000
				}
			}
		}
		if o.Of == "default" {
			o.Rate = int(20000 / o.N)
		}
		if rng.Intn(3) == 0 { // a large group
			o.N = int64([]int{1600, 4000, 10000, 20000, 80000}[rng.Intn(5)])
			if o.Of == "default" {
				o.N = []int64{2000, 4000, 4000, 20000}[rng.Intn(4)]
				o.Rate = int(20000 / o.N)
			}
			o.Times = 200000 / int(o.N)
			if o.Rate <= 100 {
				o.Times *= 10
			}
		}
		o.Amount = []float64{0.001, 0.01, 0.09, 0.4}[rng.Intn(4)]
		if o.Of == "random" {
			o.Amount = []float64{0.001, 0.1, 0.3, 0.9}[rng.Intn(4)]
		}
	case "points":
		o.N = int64([]int{1, 10, 100, 1000}[rng.Intn(4)])
		o.Times = 4000 / int(o.N)
		if rng.Intn(2) == 0 {
			o.N = int64(4000 + rng.Intn(150000))
		}
	case "small":
		o.N = int64(2 + rng.Intn(60))
		o.Times = int(o.N) * 5000
	case "intn":
		o.N = int64([]int{1 << 20, 3 << 30, 3 << 29, 1<<31 - 1, 1<<32 - 1, 5 << 28, 1000003 << 4}[rng.Intn(7)])
		fallthrough
	default:
		o.Times = 4000
		if big {
			o.Times = 4000000
		}
	}
	return cScenario{Kind: "dist", Seed: toWord(uint64(someSeed(rng))), Dist: o}
}
