package main

import (
	"encoding/json"
	"math"
	mrand "math/rand"
	"sync/atomic"
	"time"

	"github.com/RH12503/Triangula/generator"
	"github.com/RH12503/Triangula/mutation"
	"github.com/RH12503/Triangula/normgeom"
	"github.com/RH12503/Triangula/random"
)

// The library's source of random numbers, mutators and generators.

// cScenario is a history of calls.
type cScenario struct {
	Kind string  `json:"kind"` // rng, mut, gen; seed: a seed (from TLC) after At+1 numbers of which an extreme one comes
	Seed word    `json:"seed"`
	At   int     `json:"at"`
	Ops  []cOp   `json:"ops,omitempty"` // rng
	Mut  *mutOp  `json:"mut,omitempty"`
	Gen  *genOp  `json:"gen,omitempty"`
	Dist *distOp `json:"dist,omitempty"`
	X    []int64 `json:"x,omitempty"`
}

type cOp struct {
	F string `json:"f"`           // seed, intn, ...
	N int64  `json:"n,omitempty"` // the bound, or the seed
}

type mutOp struct {
	Method string       `json:"method"` // gauss, default, random
	Rate   float64      `json:"rate"`
	Amount float64      `json:"amount"`
	Pts    [][2]float64 `json:"pts"`
	Times  int          `json:"times"`
}

type genOp struct {
	N int `json:"n"`
	K int `json:"k"` // iterations; -1: the random generator
}

// word is a 64-bit number as four 16-bit ones.
type word [4]int

func toWord(v uint64) word {
	return word{int(v >> 48), int(v >> 32 & 0xffff), int(v >> 16 & 0xffff), int(v & 0xffff)}
}

func (w word) int64() int64 {
	return int64(uint64(w[0])<<48 | uint64(w[1])<<32 | uint64(w[2])<<16 | uint64(w[3]))
}

func fword(f float64) word { return toWord(math.Float64bits(f)) }

// call calls the source; the second result is whether the number is in its range.
func call(o cOp) (word, bool) {
	switch o.F {
	case "intn":
		v := random.Intn(int(o.N))
		return toWord(uint64(int64(v))), v >= 0 && int64(v) < o.N
	case "float32":
		v := random.Float32()
		return fword(float64(v)), v >= 0 && v < 1
	case "int63":
		v := random.Int63()
		return toWord(uint64(v)), v >= 0
	case "uint32":
		return toWord(uint64(random.Uint32())), true
	default:
		v := random.NormFloat64()
		return fword(v), !math.IsNaN(v) && !math.IsInf(v, 0)
	}
}

func runRng(sc cScenario) (evs []M, bad bool) {
	type rec struct {
		op cOp
		r  word
	}
	logs := map[int64][][]rec{}
	seeded := false
	var seed int64
	var cur []rec
	dead := map[int]bool{} // logs with other calls
	note := func() {
		if seeded {
			logs[seed] = append(logs[seed], cur)
		}
	}
	for _, o := range sc.Ops {
		if o.F == "seed" {
			note()
			random.Seed(o.N)
			seeded, seed, cur, dead = true, o.N, nil, map[int]bool{}
			evs = append(evs, M{"e": "seed", "s": toWord(uint64(o.N))})
			continue
		}
		r, ok := call(o)
		if !ok {
			bad = true
		}
		k := len(cur)
		cur = append(cur, rec{o, r})
		for i, l := range logs[seed] {
			if !seeded || dead[i] {
				continue
			}
			if len(l) <= k || l[k].op != o {
				dead[i] = true
			} else if l[k].r != r {
				bad = true
			}
		}
		evs = append(evs, M{"e": "call", "f": o.F, "n": toWord(uint64(o.N)), "r": r})
	}
	return
}

func unitOK(v float64) bool { return v >= 0 && v <= 1 }

func words(g normgeom.NormPointGroup) [][2]word {
	r := [][2]word{}
	for _, p := range g {
		r = append(r, [2]word{fword(p.X), fword(p.Y)})
	}
	return r
}

func runMut(sc cScenario) (evs []M, bad bool) {
	o := sc.Mut
	random.Seed(sc.Seed.int64())
	mrand.Seed(sc.Seed.int64())
	for i := 0; i < sc.At; i++ {
		random.Uint32()
	}
	var m mutation.Method
	rate := 2
	switch o.Method {
	case "gauss":
		m = mutation.NewGaussianMethod(o.Rate, o.Amount)
	case "random":
		m = mutation.NewRandomMethod(o.Rate, o.Amount)
	default:
		m = mutation.DefaultGaussianMethod(int(o.Rate))
	}
	if o.Method != "default" && o.Rate == 0 {
		rate = 0
	}
	if o.Method != "default" && o.Rate == 1 {
		rate = 1
	}
	g := normgeom.NormPointGroup{}
	for _, p := range o.Pts {
		g = append(g, normgeom.NormPoint{X: p[0], Y: p[1]})
	}
	for k := 0; k < o.Times; k++ {
		b := append(normgeom.NormPointGroup{}, g...)
		var got []mutation.Mutation
		m.Mutate(g, func(mu mutation.Mutation) {
			if len(got) > 10*len(b)+10 {
				panic("Triangula RH12503: too many mutations")
			}
			got = append(got, mu)
		})
		seen := map[int]bool{}
		rep := []interface{}{}
		for _, x := range got {
			if x.Index < 0 || x.Index >= len(b) || seen[x.Index] || len(g) != len(b) || x.Old != b[x.Index] || x.New != g[x.Index] {
				bad = true
			}
			seen[x.Index] = true
			rep = append(rep, []interface{}{x.Index + 1, [2]word{fword(x.Old.X), fword(x.Old.Y)}, [2]word{fword(x.New.X), fword(x.New.Y)}})
		}
		for i := range b {
			if !seen[i] && g[i] != b[i] || !unitOK(g[i].X) || !unitOK(g[i].Y) {
				bad = true
			}
		}
		if rate == 0 && len(got) > 0 || rate == 1 && len(got) != len(b) {
			bad = true
		}
		evs = append(evs, M{"e": "mut", "rate": rate, "b": words(b), "a": words(g), "rep": rep})
	}
	return
}

const genUnit = 1 << 14

func genPts(g normgeom.NormPointGroup) [][2]int {
	one := func(v float64) int {
		switch {
		case v > 1 || math.IsNaN(v):
			return genUnit + 1
		case v < 0:
			return -1
		}
		return int(v * genUnit)
	}
	r := [][2]int{}
	for _, p := range g {
		r = append(r, [2]int{one(p.X), one(p.Y)})
	}
	return r
}

func nearest(g normgeom.NormPointGroup, i int) float64 {
	d := math.Inf(1)
	for j, q := range g {
		if j != i {
			d = math.Min(d, math.Hypot(g[i].X-q.X, g[i].Y-q.Y))
		}
	}
	return d
}

// stepwise tells if moving the points in some order takes each farther from its nearest neighbour.
func stepwise(s, p normgeom.NormPointGroup, moved []int) bool {
	if len(moved) == 0 {
		return true
	}
	for k, i := range moved {
		t := append(normgeom.NormPointGroup{}, s...)
		t[i] = p[i]
		rest := append(append([]int{}, moved[:k]...), moved[k+1:]...)
		if nearest(t, i) > nearest(s, i)-1e-12 && stepwise(t, p, rest) {
			return true
		}
	}
	return false
}

func runGen(sc cScenario) (evs []M, bad bool) {
	o := sc.Gen
	mrand.Seed(sc.Seed.int64())
	random.Seed(sc.Seed.int64())
	s := (generator.RandomGenerator{}).Generate(o.N)
	p := s
	if o.K >= 0 {
		s = append(normgeom.NormPointGroup{}, s...)
		mrand.Seed(sc.Seed.int64())
		random.Seed(sc.Seed.int64())
		p = generator.NewSpacedGenerator(o.K).Generate(o.N)
	}
	ev := M{"e": "gen", "n": o.N, "k": o.K, "s": genPts(s), "p": genPts(p)}
	bad = len(p) != o.N || len(s) != o.N
	for i := range p {
		if !unitOK(p[i].X) || !unitOK(p[i].Y) {
			bad = true
		}
	}
	if !bad && o.K >= 0 {
		moved := []int{}
		a, b := math.Inf(1), math.Inf(1)
		for i := range p {
			ni, nj := nearest(s, i), nearest(p, i)
			if p[i] != s[i] {
				moved = append(moved, i)
				if o.N < 2 {
					bad = true
				}
			}
			a, b = math.Min(a, ni), math.Min(b, nj)
		}
		if len(moved) > o.K || b < a-1e-12 || (len(moved) == 1 || len(moved) == o.K && o.K <= 4) && !stepwise(s, p, moved) {
			bad = true
		}
	}
	return []M{ev}, bad
}

func runC(sc cScenario) (tr M, bad bool) {
	var evs []M
	why := guard(func() {
		switch sc.Kind {
		case "rng":
			evs, bad = runRng(sc)
		case "mut":
			evs, bad = runMut(sc)
		case "dist":
			evs = runDist(sc)
		default:
			evs, bad = runGen(sc)
		}
	}, 60*time.Second)
	if why != "" {
		evs, bad = []M{{"e": "abort", "why": why}}, true
	}
	b, _ := json.Marshal(sc)
	return M{"k": 1, "t": evs, "sc": string(b)}, bad
}

var rngCalls = []string{"intn", "float32", "int63", "uint32", "norm"}

func randomOp(rng *mrand.Rand, f string) cOp {
	o := cOp{F: f}
	if f == "" {
		o.F = rngCalls[rng.Intn(len(rngCalls))]
	}
	if o.F == "intn" {
		switch rng.Intn(5) {
		case 0:
			o.N = 1 + int64(rng.Intn(4))
		case 1:
			o.N = 1 << uint(rng.Intn(32))
		case 2:
			o.N = 1<<32 - 1 - int64(rng.Intn(3))
		case 3:
			o.N = 1<<31 - 2 + int64(rng.Intn(5))
		default:
			o.N = 1 + rng.Int63n(1<<uint(1+rng.Intn(31)))
		}
	}
	return o
}

func someSeed(rng *mrand.Rand) int64 {
	switch rng.Intn(4) {
	case 0:
		return int64(rng.Intn(5)) - 2
	case 1:
		return []int64{math.MinInt64, math.MaxInt64, 1 << 32, -1 << 32, 1<<31 - 1}[rng.Intn(5)]
	}
	return int64(rng.Uint64())
}

// rngScenario seeds several times, mostly with a few seeds, and mostly makes the same calls after it.
func rngScenario(rng *mrand.Rand, long bool) cScenario {
	sc := cScenario{Kind: "rng"}
	seeds := []int64{someSeed(rng), someSeed(rng)}
	n := 1 + rng.Intn(14)
	if long {
		n = 20 + rng.Intn(400)
	}
	only := ""
	if rng.Intn(3) == 0 {
		only = rngCalls[rng.Intn(len(rngCalls))]
	}
	var calls []cOp
	for i := 0; i < n; i++ {
		calls = append(calls, randomOp(rng, only))
	}
	for i := rng.Intn(4); i > 0; i-- {
		sc.Ops = append(sc.Ops, randomOp(rng, ""))
	}
	for r := 2 + rng.Intn(4); r > 0; r-- {
		sc.Ops = append(sc.Ops, cOp{F: "seed", N: seeds[rng.Intn(1+rng.Intn(2))]})
		k := len(calls)
		if rng.Intn(2) == 0 {
			k = rng.Intn(k + 1)
		}
		sc.Ops = append(sc.Ops, calls[:k]...)
		if k < len(calls) && rng.Intn(2) == 0 {
			sc.Ops = append(sc.Ops, randomOp(rng, ""))
		}
	}
	return sc
}

// seedScenario calls the source such that the extreme number after the seed counts for each kind of call.
func seedScenario(rng *mrand.Rand, seed int64, at int, f string) cScenario {
	sc := cScenario{Kind: "rng"}
	for r := 0; r < 2; r++ {
		sc.Ops = append(sc.Ops, cOp{F: "seed", N: seed})
		for i := 0; i < at; i++ {
			sc.Ops = append(sc.Ops, cOp{F: "uint32"})
		}
		if r == 0 {
			sc.Ops = append(sc.Ops, randomOp(rng, f), randomOp(rng, f))
		} else {
			sc.Ops = append(sc.Ops, sc.Ops[len(sc.Ops)-at-3], sc.Ops[len(sc.Ops)-at-2])
		}
	}
	return sc
}

func somePts(rng *mrand.Rand, n int) [][2]float64 {
	one := func() float64 {
		switch rng.Intn(6) {
		case 0:
			return float64(rng.Intn(2))
		case 1:
			return float64(rng.Intn(5)) / 4
		}
		return rng.Float64()
	}
	r := [][2]float64{}
	for i := 0; i < n; i++ {
		r = append(r, [2]float64{one(), one()})
		if i > 0 && rng.Intn(8) == 0 {
			r[i] = r[rng.Intn(i)]
		}
	}
	return r
}

func mutScenario(rng *mrand.Rand, seed int64, at int, long bool) cScenario {
	m := &mutOp{Method: []string{"gauss", "gauss", "random", "random", "default"}[rng.Intn(5)], Times: 1 + rng.Intn(3)}
	n := rng.Intn(12)
	if long {
		n, m.Times = rng.Intn(300), 1+rng.Intn(30)
	}
	if rng.Intn(150) == 0 { // a large group
		n, m.Times = 1000+rng.Intn(2000), 1
		if long {
			n = 2000 + rng.Intn(80000)
		}
	}
	m.Rate = []float64{0, 1, 0, 1, 0.5, 0.01, 0.99, rng.Float64()}[rng.Intn(8)]
	m.Amount = []float64{0, 1e-12, 0.01, 0.3, 1, 2, 50, 1e6, rng.Float64()}[rng.Intn(9)]
	if m.Method == "default" {
		m.Rate = float64(n)
		if rng.Intn(3) == 0 {
			m.Rate = float64(1 + rng.Intn(5))
		}
		if m.Rate == 0 {
			m.Rate = 1
		}
	}
	m.Pts = somePts(rng, n)
	return cScenario{Kind: "mut", Seed: toWord(uint64(seed)), At: at, Mut: m}
}

func genScenario(rng *mrand.Rand, long bool) cScenario {
	g := &genOp{N: 1 + rng.Intn(10), K: []int{-1, 0, 1, 1, 1, 2, 2, 3, 4, 10, 50, 200}[rng.Intn(12)]}
	if rng.Intn(4) == 0 {
		g.N = 1 + rng.Intn(3)
	}
	if long {
		g.N = 1 + rng.Intn(60)
		g.K = []int{-1, 1, 2, 3, 4, 20, 100, 1000}[rng.Intn(8)]
		if g.K >= 1 && g.K <= 4 && rng.Intn(4) == 0 {
			g.N = 300 + rng.Intn(1700)
		}
	}
	if long && g.K < 0 && rng.Intn(10) == 0 {
		g.N = 2000 + rng.Intn(100000)
	}
	if g.K < 0 && rng.Intn(5) == 0 {
		g.N = 0
	}
	return cScenario{Kind: "gen", Seed: toWord(uint64(someSeed(rng))), Gen: g}
}

func runChance(o opts, s *sink) {
	rng := mrand.New(mrand.NewSource(o.seed))
	if o.in != "" {
		eachScenario(o.in, func(b []byte) bool {
			var sc cScenario
			if err := json.Unmarshal(b, &sc); err != nil {
				die(err)
			}
			var scs []cScenario
			switch {
			case sc.Kind != "seed":
				scs = append(scs, sc)
			case o.mode == "mut":
				for i := 0; i < 4; i++ {
					scs = append(scs, mutScenario(rng, sc.Seed.int64(), sc.At, false))
				}
			default:
				for _, f := range rngCalls {
					scs = append(scs, seedScenario(rng, sc.Seed.int64(), sc.At, f))
				}
			}
			for _, c := range scs {
				tr, _ := runC(c)
				s.put(tr)
			}
			return atomic.LoadInt32(&stuck) == 0
		})
		return
	}
	bad := 0
	for i := 0; i < o.n+o.size && bad < 3 && atomic.LoadInt32(&stuck) == 0 && time.Now().Before(o.deadline); i++ {
		var sc cScenario
		long := i >= o.n && rng.Intn(2) == 0
		switch o.mode {
		case "rng":
			sc = rngScenario(rng, long)
		case "mut":
			sc = mutScenario(rng, someSeed(rng), 0, long)
		case "dist":
			sc = distScenario(rng, i+int(o.seed), rng.Intn(3) == 0)
		default:
			sc = genScenario(rng, long)
		}
		tr, b := runC(sc)
		s.count("histories", 1)
		if b {
			bad++
			s.count("suspicious", 1)
		}
		if i < o.n || b {
			s.put(tr)
		}
	}
}
