package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"
	"time"

	"github.com/RH12503/Triangula/algorithm"
	"github.com/RH12503/Triangula/algorithm/evaluator"
	"github.com/RH12503/Triangula/fitness"
	"github.com/RH12503/Triangula/mutation"
	"github.com/RH12503/Triangula/normgeom"
)

// clScenario is a run of a few algorithms, of which the steps are timed.
type clScenario struct {
	Algs  []clAlg `json:"algs"`
	Par   bool    `json:"par"` // every algorithm in a goroutine of its own
	Steps int     `json:"steps"`
	Seed  int64   `json:"seed"`
}

type clAlg struct {
	Kind   string  `json:"kind"`
	Ev     string  `json:"ev"`
	N      int     `json:"n"`
	Size   int     `json:"size"`
	Cutoff int     `json:"cutoff"`
	Rate   float64 `json:"rate"`
}

// clRun is what's known of one algorithm: which of its calls are running, and since when.
type clRun struct {
	sync.Mutex
	rng     *rand.Rand
	origin  time.Time
	inStep  bool
	outside int // calls that began when the algorithm wasn't created or stepped
	running int // evaluations that run
	own     int // calls of the mutator and the evaluator that run
	overlap int // calls that began while another one ran
	calls   int
	first   time.Duration // when the first call of the step began
	last    time.Duration // when the last one ended
	slow    string        // the calls that take their time in this step
	slowAt  int           // only the one with this number, if it's >= 0
	num     map[string]int
	evs     []M
	alg     algorithm.Algorithm
	o       int
}

// enter is called at the beginning of every call the library makes; what it returns, at its end.
func (r *clRun) enter(what string) func() {
	r.Lock()
	if !r.inStep {
		r.outside++
	}
	if r.calls == 0 {
		r.first = time.Since(r.origin)
	}
	r.calls++
	eval := what == "eval" || what == "get" // may run at the same time as others
	if eval {
		r.running++
	} else {
		if r.own > 0 {
			r.overlap++
		}
		r.own++
	}
	k := r.num[what]
	r.num[what]++
	us := r.rng.Intn(60)
	if us > 3 {
		us = 0
	}
	if what == r.slow && (r.slowAt < 0 || r.slowAt == k) {
		us = 500 + r.rng.Intn(2500)
	}
	r.Unlock()
	if us > 0 {
		time.Sleep(time.Duration(us) * time.Microsecond)
	}
	return func() {
		r.Lock()
		if eval {
			r.running--
		} else {
			r.own--
		}
		if r.inStep {
			r.last = time.Since(r.origin)
		}
		r.Unlock()
	}
}

type clFn struct {
	hashFn
	r *clRun
}

func (f *clFn) Calculate(d fitness.PointsData) float64 {
	defer f.r.enter("eval")()
	return f.hashFn.Calculate(d)
}

type clMut struct {
	mutation.Method
	r *clRun
}

func (m clMut) Mutate(p normgeom.NormPointGroup, mutated func(mutation.Mutation)) {
	defer m.r.enter("mut")()
	m.Method.Mutate(p, mutated)
}

type clEv struct {
	evaluator.Evaluator
	r *clRun
}

func (e clEv) Get(i int) fitness.Function { defer e.r.enter("get")(); return e.Evaluator.Get(i) }
func (e clEv) Update(i int)               { defer e.r.enter("update")(); e.Evaluator.Update(i) }
func (e clEv) Prepare()                   { defer e.r.enter("prepare")(); e.Evaluator.Prepare() }
func (e clEv) SetBase(i, base int)        { defer e.r.enter("base")(); e.Evaluator.SetBase(i, base) }
func (e clEv) Swap(i, j int)              { defer e.r.enter("swap")(); e.Evaluator.Swap(i, j) }

// gate marks where a call of the library begins or ends.
func (r *clRun) gate(in bool) {
	r.Lock()
	r.inStep = in
	if in {
		r.calls, r.first, r.last = 0, 0, 0
		r.num = map[string]int{}
		kinds := []string{"eval", "eval", "eval", "mut", "get", "update", "prepare", "base", "swap", ""}
		r.slow = kinds[r.rng.Intn(len(kinds))]
		r.slowAt = r.rng.Intn(9) - 1
		if r.slowAt == -1 && r.slow != "eval" {
			r.slowAt = 0
		}
	}
	r.Unlock()
}

func micros(d time.Duration) int {
	u := int(d / time.Microsecond)
	if u > 1000000000 {
		u = 1000000000
	}
	if u < -1000000000 {
		u = -1000000000
	}
	return u
}

// left says what is running now, which is after a call of the library.
func (r *clRun) left(m M) M {
	r.Lock()
	defer r.Unlock()
	m["o"], m["run"], m["out"], m["over"] = r.o, r.running+r.own, r.outside, r.overlap
	return m
}

func (r *clRun) says(m M) M {
	st := r.alg.Stats()
	m["gen"], m["t"] = st.Generation, micros(st.TimeForGen)
	m["bf"], m["best"] = fmt.Sprint(st.BestFitness), fmt.Sprint(fnvOf(bitsOf(r.alg.Best())))
	return m
}

func fnvOf(s string) uint32 {
	h := uint32(2166136261)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint32(s[i])) * 16777619
	}
	return h
}

func (r *clRun) create(a clAlg, seed int64) {
	rng := rand.New(rand.NewSource(seed))
	first := func() normgeom.NormPointGroup {
		g := normgeom.NormPointGroup{}
		for i := 0; i < a.N; i++ {
			g = append(g, normgeom.NormPoint{X: rng.Float64(), Y: rng.Float64()})
		}
		return g
	}
	fn := func() *clFn { return &clFn{hashFn{uint64(seed), "fine"}, r} }
	ev := func(n int) evaluator.Evaluator {
		var e evaluator.Evaluator
		switch a.Ev {
		case "many":
			e = evaluator.NewMany(func() fitness.Function { return fn() }, n)
		case "parallel":
			l := []fitness.CacheFunction{}
			for i := 0; i < n; i++ {
				l = append(l, fn())
			}
			e = evaluator.NewParallel(l, 3)
		default:
			e = evaluator.NewOne(fn())
		}
		return clEv{e, r}
	}
	mut := clMut{mutation.NewGaussianMethod(a.Rate, 0.4), r}
	r.gate(true)
	if a.Kind == "simple" {
		r.alg = algorithm.NewSimple(first, a.Size, a.Cutoff, ev, mut)
	} else {
		r.alg = algorithm.NewModifiedGenetic(first, a.Size, a.Cutoff, ev, mut)
	}
	r.gate(false)
	r.evs = append(r.evs, r.says(r.left(M{"e": "new"})))
}

func (r *clRun) step() {
	r.gate(true)
	r.Lock()
	before := time.Since(r.origin)
	r.Unlock()
	r.alg.Step()
	after := time.Since(r.origin)
	r.gate(false)
	r.Lock()
	lo := r.last - r.first
	r.Unlock()
	r.evs = append(r.evs, r.says(r.left(M{"e": "step", "lo": micros(lo), "hi": micros(after - before)})))
}

func (r *clRun) ask() { r.evs = append(r.evs, r.says(r.left(M{"e": "ask"}))) }

func runClock(sc clScenario) (tr M, bad bool) {
	rs := []*clRun{}
	for i := range sc.Algs {
		rs = append(rs, &clRun{rng: rand.New(rand.NewSource(sc.Seed + int64(i))), origin: time.Now(), o: i + 1})
	}
	var all []M
	var done int32
	why := guard(func() {
		if sc.Par {
			var wg sync.WaitGroup
			for i, a := range sc.Algs {
				wg.Add(1)
				go func(r *clRun, a clAlg, seed int64) {
					defer wg.Done()
					defer func() {
						if e := recover(); e != nil {
							r.evs = append(r.evs, M{"e": "abort", "why": fmt.Sprint(e)})
						}
					}()
					rng := rand.New(rand.NewSource(seed))
					r.create(a, seed)
					for k := 0; k < sc.Steps; k++ {
						r.step()
						for rng.Intn(2) == 0 {
							time.Sleep(time.Duration(rng.Intn(400)) * time.Microsecond)
							r.ask()
						}
					}
					r.ask()
				}(rs[i], a, sc.Seed*7+int64(i))
			}
			wg.Wait()
			for _, r := range rs {
				all = append(all, r.evs...)
			}
		} else {
			rng := rand.New(rand.NewSource(sc.Seed * 11))
			use := func(r *clRun, f func()) {
				r.evs = nil
				f()
				all = append(all, r.evs...)
			}
			for i, a := range sc.Algs {
				r := rs[i]
				use(r, func() { r.create(a, sc.Seed*7+int64(i)) })
			}
			for k := 0; k < sc.Steps*len(rs); k++ {
				r := rs[rng.Intn(len(rs))]
				use(r, r.step)
				for rng.Intn(2) == 0 {
					r := rs[rng.Intn(len(rs))]
					use(r, r.ask)
				}
			}
			time.Sleep(3 * time.Millisecond)
			for _, r := range rs {
				use(r, r.ask)
			}
		}
		atomic.StoreInt32(&done, 1)
	}, 60*time.Second)
	if why != "" {
		all, bad = []M{{"e": "abort", "why": why}}, true
	}
	b, _ := json.Marshal(sc)
	return M{"k": len(sc.Algs), "sc": string(b), "t": all}, bad
}

func randomClScenario(rng *rand.Rand) clScenario {
	sc := clScenario{Par: rng.Intn(2) == 0, Steps: 3 + rng.Intn(5), Seed: rng.Int63n(1 << 40)}
	for n := 1 + rng.Intn(3); n > 0; n-- {
		a := clAlg{Kind: []string{"mod", "simple"}[rng.Intn(2)], Ev: []string{"one", "many", "parallel"}[rng.Intn(3)],
			N: 1 + rng.Intn(6), Size: 4 + rng.Intn(9), Rate: []float64{0.1, 0.4, 1}[rng.Intn(3)]}
		a.Cutoff = 1 + rng.Intn(a.Size/2)
		sc.Algs = append(sc.Algs, a)
	}
	return sc
}

func runClocks(o opts, s *sink) {
	run := func(sc clScenario) bool {
		tr, _ := runClock(sc)
		s.put(tr)
		s.count("algorithms", len(sc.Algs))
		s.count("steps", sc.Steps*len(sc.Algs))
		return atomic.LoadInt32(&stuck) == 0
	}
	if o.in != "" {
		eachScenario(o.in, func(b []byte) bool {
			var sc clScenario
			if err := json.Unmarshal(b, &sc); err != nil {
				die(err)
			}
			return run(sc)
		})
		return
	}
	rng := rand.New(rand.NewSource(o.seed))
	for i := 0; i < o.n && time.Now().Before(o.deadline); i++ {
		if !run(randomClScenario(rng)) {
			return
		}
	}
}
