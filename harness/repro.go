package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/RH12503/Triangula/algorithm"
	"github.com/RH12503/Triangula/algorithm/evaluator"
	"github.com/RH12503/Triangula/fitness"
	"github.com/RH12503/Triangula/generator"
	"github.com/RH12503/Triangula/mutation"
	"github.com/RH12503/Triangula/normgeom"
	"github.com/RH12503/Triangula/random"
)

// xScenario is a run of an algorithm that is repeated under several circumstances.
type xScenario struct {
	Algo   string  `json:"algo"` // mod, simple
	Fit    string  `json:"fit"`  // tri, poly (the built-in functions), fine, own (scripted ones)
	Ev     string  `json:"ev"`   // parallel, many, one
	Gen    string  `json:"gen"`  // random, spaced, own
	Mut    string  `json:"mut"`  // gauss, random, default, own
	Rate   float64 `json:"rate"`
	Amount float64 `json:"amount"`
	W      int     `json:"w"`
	H      int     `json:"h"`
	Pic    string  `json:"pic"`
	Seed   int64   `json:"seed"`
	N      int     `json:"n"`
	Size   int     `json:"size"`
	Cutoff int     `json:"cutoff"`
	Gens   int     `json:"gens"`
	Runs   []xHow  `json:"runs"`
}

// xHow are the circumstances of a run.
type xHow struct {
	Order  string `json:"order"` // when evaluations end: plain, jitter, reverse, forward, elites
	Procs  int    `json:"procs"`
	Pow    int    `json:"pow"`
	BS     int    `json:"bs"`
	Beside bool   `json:"beside,omitempty"` // another algorithm runs meanwhile
}

// xRun records one run.
type xRun struct {
	sync.Mutex
	sc      xScenario
	how     xHow
	rng     *rand.Rand // delays
	started int        // evaluations that were started in this generation
	calls   []xCall
	gens    []xGen
}

type xCall struct {
	pts  string
	muts string
	v    float64
}

type xGen struct {
	calls []xCall
	best  string
	bf    float64
	gen   int
}

func bitsOf(g normgeom.NormPointGroup) string {
	b := make([]byte, 0, 32*len(g))
	for _, p := range g {
		b = append(b, fmt.Sprintf("%x,%x;", math.Float64bits(p.X+0), math.Float64bits(p.Y+0))...)
	}
	return string(b)
}

func mutBits(ms []mutation.Mutation) string {
	l := []string{}
	for _, m := range ms {
		l = append(l, fmt.Sprintf("%d:%s%s", m.Index, bitsOf(normgeom.NormPointGroup{m.Old}), bitsOf(normgeom.NormPointGroup{m.New})))
	}
	sort.Strings(l)
	return fmt.Sprint(l)
}

func (r *xRun) pause(us int) {
	if us > 0 {
		time.Sleep(time.Duration(us) * time.Microsecond)
	}
}

// xFn delays evaluations and records them.
type xFn struct {
	fitness.CacheFunction
	slot int
	r    *xRun
}

func (f *xFn) SetBase(o fitness.CacheFunction) { f.CacheFunction.SetBase(o.(*xFn).CacheFunction) }

func (f *xFn) Calculate(d fitness.PointsData) float64 {
	r := f.r
	c := xCall{pts: bitsOf(d.Points), muts: mutBits(d.Mutations)}
	r.Lock()
	k := r.started
	r.started++
	before, after := 0, 0
	switch r.how.Order {
	case "jitter":
		before, after = r.rng.Intn(300), r.rng.Intn(1500)
	case "reverse":
		after = (r.sc.Size - k) * 120
	case "forward":
		after = k * 120
	case "elites":
		if f.slot < r.sc.Cutoff {
			after = 3000
		}
	}
	r.Unlock()
	r.pause(before)
	c.v = f.CacheFunction.Calculate(d)
	r.pause(after)
	r.Lock()
	r.calls = append(r.calls, c)
	r.Unlock()
	return c.v
}

// hashFn is a scripted fitness function, of which the values are integers.
type hashFn struct {
	seed uint64
	kind string
}

func (h *hashFn) Calculate(d fitness.PointsData) float64 {
	mix := func(x uint64) uint64 {
		x ^= x >> 31
		x *= 0xBF58476D1CE4E5B9
		x ^= x >> 27
		x *= 0x94D049BB133111EB
		return x ^ x>>29
	}
	v := -20000 * len(d.Points)
	all := h.seed
	for i, p := range d.Points {
		b := mix(h.seed ^ math.Float64bits(p.X)*3 ^ math.Float64bits(p.Y)*7 ^ uint64(i)*0x9E3779B97F4A7C15)
		all = mix(all ^ b)
		v += int(b % 65536)
	}
	if h.kind == "rough" {
		v = int(all % 10000000)
	}
	return float64(v)
}
func (h *hashFn) SetBase(fitness.CacheFunction)  {}
func (h *hashFn) Cache() []fitness.CacheData     { return nil }
func (h *hashFn) SetCache(c []fitness.CacheData) {}

// xMut delays another mutator, too.
type xMut struct {
	m mutation.Method
	r *xRun
}

func (m xMut) Mutate(p normgeom.NormPointGroup, mutated func(mutation.Mutation)) {
	if m.r.how.Order == "jitter" {
		m.r.Lock()
		us := m.r.rng.Intn(100)
		m.r.Unlock()
		if us < 30 {
			m.r.pause(us)
		}
	}
	m.m.Mutate(p, mutated)
}

// builtin says whether the fitness functions are those of the library.
func (sc xScenario) builtin() bool { return sc.Fit == "tri" || sc.Fit == "poly" }

func (sc xScenario) algorithm(r *xRun, pic *picture, seed int64) algorithm.Algorithm {
	rng := rand.New(rand.NewSource(seed))
	src := pointSource(pointKinds[rng.Intn(len(pointKinds))], sc.W, sc.H, rng)
	next := func() [2]int { return unitPoints(rng, 1, sc.W, sc.H, src)[0] }
	var mut mutation.Method
	switch sc.Mut {
	case "gauss":
		mut = mutation.NewGaussianMethod(sc.Rate, sc.Amount)
	case "random":
		mut = mutation.NewRandomMethod(sc.Rate, sc.Amount)
	case "default":
		mut = mutation.DefaultGaussianMethod(sc.N)
	default:
		mut = &unitMutator{rng: rng, next: next, rate: sc.Rate}
	}
	first := func() normgeom.NormPointGroup {
		if r.how.Order == "jitter" {
			r.pause(50)
		}
		switch sc.Gen {
		case "random":
			return (generator.RandomGenerator{}).Generate(sc.N)
		case "spaced":
			return generator.NewSpacedGenerator(15).Generate(sc.N)
		}
		return group(unitPoints(rng, sc.N, sc.W, sc.H, src))
	}
	scripted := func() fitness.CacheFunction { return &hashFn{seed: uint64(seed), kind: sc.Fit} }
	ev := func(n int) evaluator.Evaluator {
		var fns []fitness.CacheFunction
		if sc.builtin() {
			fns = triFunctions(sc.Fit == "poly")(pic, r.how.BS, n)
		} else {
			for i := 0; i < n; i++ {
				fns = append(fns, scripted())
			}
		}
		for i := range fns {
			fns[i] = &xFn{CacheFunction: fns[i], slot: i, r: r}
		}
		switch sc.Ev {
		case "one":
			return evaluator.NewOne(fns[0])
		case "many":
			i := -1
			return evaluator.NewMany(func() fitness.Function { i++; return fns[i] }, n)
		}
		return evaluator.NewParallel(fns, r.how.Pow)
	}
	if sc.Algo == "simple" {
		return algorithm.NewSimple(first, sc.Size, sc.Cutoff, ev, xMut{mut, r})
	}
	return algorithm.NewModifiedGenetic(first, sc.Size, sc.Cutoff, ev, xMut{mut, r})
}

// run runs the algorithm once.
func (sc xScenario) run(how xHow, k int, pic *picture) *xRun {
	r := &xRun{sc: sc, how: how, rng: rand.New(rand.NewSource(sc.Seed + int64(k)*1000003))}
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(how.Procs))
	if how.Beside {
		var stop int32
		done := make(chan bool)
		go func() {
			defer close(done)
			o := sc
			b := &xRun{sc: o, rng: rand.New(rand.NewSource(sc.Seed + 77)), how: xHow{Order: "plain", Pow: how.Pow, BS: how.BS%5 + 1}}
			p := makePicture("noise", sc.W, sc.H, sc.Seed+5)
			a := o.algorithm(b, p, sc.Seed+99)
			for atomic.LoadInt32(&stop) == 0 {
				a.Step()
			}
		}()
		defer func() { atomic.StoreInt32(&stop, 1); <-done }()
	}
	rand.Seed(sc.Seed)
	random.Seed(sc.Seed)
	a := sc.algorithm(r, pic, sc.Seed)
	end := func() {
		r.Lock()
		defer r.Unlock()
		st := a.Stats()
		r.gens = append(r.gens, xGen{calls: r.calls, best: bitsOf(a.Best()), bf: st.BestFitness, gen: st.Generation})
		r.calls, r.started = nil, 0
	}
	end()
	for g := 0; g < sc.Gens; g++ {
		a.Step()
		end()
	}
	return r
}

func runRepro(sc xScenario) (tr M, bad bool) {
	evs := []M{}
	tr = M{"k": 1, "tol": 0, "eps": 0}
	scale := 1.0
	if sc.builtin() {
		scale = 1e9
		tr["tol"], tr["eps"] = 200, 2
	}
	var runs []*xRun
	why := guard(func() {
		pic := makePicture(sc.Pic, sc.W, sc.H, sc.Seed)
		for k, h := range sc.Runs {
			runs = append(runs, sc.run(h, k, pic))
		}
	}, 60*time.Second)
	ids := map[string]int{}
	id := func(s string) int {
		if _, ok := ids[s]; !ok {
			ids[s] = len(ids) + 1
		}
		return ids[s]
	}
	if why == "" {
		for g := 0; g <= sc.Gens; g++ {
			l := []M{}
			for _, r := range runs {
				x := r.gens[g]
				cs := []M{}
				for _, c := range x.calls {
					cs = append(cs, M{"p": id(c.pts), "m": id(c.muts), "v": toInt(c.v * scale)})
				}
				l = append(l, M{"evs": cs, "best": id(x.best), "bf": toInt(x.bf * scale), "gen": x.gen})
			}
			evs = append(evs, M{"e": "gen", "runs": l})
		}
	} else {
		evs, bad = append(evs, M{"e": "abort", "why": why}), true
	}
	b, _ := json.Marshal(sc)
	tr["sc"], tr["t"] = string(b), evs
	return
}

func randomXScenario(rng *rand.Rand) xScenario {
	pick := func(s ...string) string { return s[rng.Intn(len(s))] }
	sc := xScenario{Algo: pick("mod", "mod", "simple"), Fit: pick("fine", "rough", "fine"), Ev: pick("parallel", "parallel", "many", "one"),
		Gen: pick("random", "spaced", "own"), Mut: pick("gauss", "random", "default", "own"),
		Pic: pick("noise", "noise", "gradient", "blobs"), Seed: rng.Int63n(1 << 40)}
	sc.W, sc.H = 10+rng.Intn(40), 10+rng.Intn(40)
	sc.N = 1 + rng.Intn(12)
	if rng.Intn(4) == 0 {
		sc.N = 10 + rng.Intn(40)
	}
	if rng.Intn(3) == 0 {
		// The triangulations, and so the built-in functions, depend on the order of combined mutations where
		// points are on a circle; a simple algorithm doesn't combine them
		sc.Algo, sc.Fit, sc.Ev = "simple", pick("tri", "poly"), "parallel"
		if sc.N < 4 {
			sc.N += 4
		}
	}
	sc.Rate = []float64{0.1, 0.3, 2 / float64(sc.N+1), 1}[rng.Intn(4)]
	sc.Amount = []float64{0.2, 0.5, 1}[rng.Intn(3)]
	sc.Size = 2 + rng.Intn(18)
	if rng.Intn(8) == 0 {
		sc.Size = 20 + rng.Intn(60)
	}
	sc.Cutoff = 1 + rng.Intn(sc.Size/2)
	if rng.Intn(2) == 0 && sc.Size >= 4 {
		sc.Cutoff = 1 + rng.Intn(sc.Size/4)
	}
	sc.Gens = 2 + rng.Intn(8)
	if rng.Intn(6) == 0 {
		sc.Gens = 15 + rng.Intn(25)
	}
	orders := []string{"jitter", "reverse", "forward", "elites"}
	rng.Shuffle(4, func(i, j int) { orders[i], orders[j] = orders[j], orders[i] })
	for k := 0; k < 3; k++ {
		h := xHow{Order: orders[k], Procs: []int{1, 2, 4, 8}[rng.Intn(4)], Pow: []int{0, 2, 8, 12}[rng.Intn(4)], BS: 1 + rng.Intn(8)}
		if k == 0 {
			h.Order, h.Procs = "plain", 1
		}
		if k == 2 && sc.Mut == "own" && sc.Gen == "own" {
			h.Beside = true
		}
		sc.Runs = append(sc.Runs, h)
	}
	return sc
}

func runRepros(o opts, s *sink) {
	if o.in != "" {
		eachScenario(o.in, func(b []byte) bool {
			var sc xScenario
			if err := json.Unmarshal(b, &sc); err != nil {
				die(err)
			}
			tr, _ := runRepro(sc)
			s.put(tr)
			return atomic.LoadInt32(&stuck) == 0
		})
		return
	}
	rng := rand.New(rand.NewSource(o.seed))
	bad := 0
	for i := 0; i < o.n && bad < 3 && atomic.LoadInt32(&stuck) == 0 && time.Now().Before(o.deadline); i++ {
		sc := randomXScenario(rng)
		tr, b := runRepro(sc)
		s.count("runs", len(sc.Runs))
		s.count("generations", len(sc.Runs)*(sc.Gens+1))
		s.count("fit_"+sc.Fit, 1)
		s.count("algo_"+sc.Algo, 1)
		if b {
			bad++
		}
		s.put(tr)
	}
}
