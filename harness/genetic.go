package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"log"
	"math"
	"math/rand"
	"os"
	"runtime"
	"sync"
	"time"

	"github.com/RH12503/Triangula/algorithm"
	"github.com/RH12503/Triangula/algorithm/evaluator"
	"github.com/RH12503/Triangula/fitness"
	"github.com/RH12503/Triangula/mutation"
	"github.com/RH12503/Triangula/normgeom"
)

// Points of the genetic scenarios lie on a 64x64 grid and are recorded as one integer.
const grid = 64

// What the caller overwrites the point groups it received with.
var poison = normgeom.NormPoint{X: 0.123, Y: 0.456}

func encPoint(p normgeom.NormPoint) int {
	if p == poison {
		return -2
	}
	x, y := p.X*grid, p.Y*grid
	if x != float64(int(x)) || y != float64(int(y)) || x < 0 || y < 0 || x > grid || y > grid {
		return -1 // Not a point of the scenario
	}
	return int(x)*128 + int(y)
}

func decPoint(c int) normgeom.NormPoint {
	return normgeom.NormPoint{X: float64(c/128) / grid, Y: float64(c%128) / grid}
}

func encGroup(g normgeom.NormPointGroup) []int {
	r := make([]int, len(g))
	for i, p := range g {
		r[i] = encPoint(p)
	}
	return r
}

func encMuts(ms []mutation.Mutation) []M {
	r := make([]M, 0, len(ms))
	for _, m := range ms {
		r = append(r, M{"i": m.Index + 1, "o": encPoint(m.Old), "n": encPoint(m.New)})
	}
	return r
}

// gScenario describes one run. Everything that isn't in Script/Table is derived from Seed.
type gScenario struct {
	Seed      int64   `json:"seed"`
	Algo      string  `json:"algo"` // "mod" or "simple"
	Ev        string  `json:"ev"`   // "parallel", "one" or "many"
	Size      int     `json:"size"`
	Cutoff    int     `json:"cutoff"`
	NPts      int     `json:"npts"`
	Gens      int     `json:"gens"`
	Landscape string  `json:"landscape"`
	MutMode   string  `json:"mutmode"`
	Order     string  `json:"order"`
	Procs     int     `json:"procs"`
	Exp       int     `json:"exp"` // the fitness of value v is Off + v * 2^-Exp
	Off       float64 `json:"off"`
	Init      [][]int `json:"init,omitempty"` // initial point groups
	// Model generated scenarios:
	Muts   [][][]gMut    `json:"muts,omitempty"`   // [generation][call] mutations
	Orders [][]int       `json:"orders,omitempty"` // [generation] completion order of the slots (from 0)
	Table  []gTableEntry `json:"table,omitempty"`  // fitness values
	table  map[string]int
}

type gMut struct {
	I int `json:"i"` // index from 1
	N int `json:"n"`
}

type gTableEntry struct {
	P []int `json:"p"`
	V int   `json:"v"`
}

type gRun struct {
	sc  gScenario
	mu  sync.Mutex
	ev  []M
	gen int

	rng *rand.Rand // main goroutine only (mutator)

	// Scheduling
	cond      *sync.Cond
	gets      int
	starts    int
	prepares  int
	updates   int
	released  int
	active    int64 // activity counter
	waiting   []*gCall
	freeRun   bool
	updWait   bool // wait for the update of a released call
	callInGen int
	mutCall   int
	slotOf    map[*gFn]int
	stop      bool
	schedRng  *rand.Rand

	bufs  map[*fitness.CacheData]int // identity of cache buffers
	slcs  [][]fitness.CacheData
	pend  []*gData // data returned from Cache() and not yet seen in a buffer
	abort bool
}

type gCall struct {
	f   *gFn
	v   int
	k   int
	go_ chan struct{}
}

// gFn is a scripted fitness function which records how it is used.
type gFn struct {
	id   int
	r    *gRun
	buf  int
	data *gData
	none bool // The last evaluation had no results to store (as if the group had no shapes)
}

type gData struct {
	f    *gFn
	hash uint32
	seen map[int]bool
}

func (d *gData) Equals(o fitness.CacheData) bool { return o == fitness.CacheData(d) }
func (d *gData) Hash() uint64                    { return uint64(d.hash) }
func (d *gData) Data() float64                   { return 0 }
func (d *gData) CachedHash() uint32              { return d.hash }
func (d *gData) SetCachedHash(h uint32)          { d.hash = h }

func (f *gFn) SetBase(b fitness.CacheFunction) {
	f.r.mu.Lock()
	defer f.r.mu.Unlock()
	id := -1
	if g, ok := b.(*gFn); ok {
		id = g.id
	}
	f.r.scan()
	f.r.log(M{"e": "base", "f": f.id, "b": id})
}

func (f *gFn) Cache() []fitness.CacheData {
	f.r.mu.Lock()
	defer f.r.mu.Unlock()
	if f.none {
		return nil
	}
	f.data = &gData{f: f, hash: uint32(f.id), seen: map[int]bool{}}
	f.r.pend = append(f.r.pend, f.data)
	return []fitness.CacheData{f.data}
}

func (f *gFn) SetCache(c []fitness.CacheData) {
	f.r.mu.Lock()
	defer f.r.mu.Unlock()
	f.buf = f.r.bufID(c)
	f.r.scan()
	f.r.log(M{"e": "setcache", "f": f.id, "buf": f.buf})
}

// bufID identifies a cache by the address of its storage.
func (r *gRun) bufID(c []fitness.CacheData) int {
	if len(c) == 0 {
		return 99
	}
	if id, ok := r.bufs[&c[0]]; ok {
		return id
	}
	id := len(r.bufs) + 1
	r.bufs[&c[0]] = id
	r.slcs = append(r.slcs, c)
	return id
}

// scan looks for results that have been stored into a cache. It is only called from the algorithm's goroutine.
func (r *gRun) scan() {
	for _, d := range r.pend {
		for i, s := range r.slcs {
			if d.seen[i] {
				continue
			}
			for _, x := range s {
				if x == fitness.CacheData(d) {
					d.seen[i] = true
					r.log(M{"e": "write", "f": d.f.id, "buf": i + 1})
					break
				}
			}
		}
	}
	if len(r.pend) > 64 {
		r.pend = r.pend[len(r.pend)-64:]
	}
}

func (r *gRun) log(m M) {
	r.ev = append(r.ev, m)
	r.active++
	r.cond.Broadcast()
}

// value is the landscape; an integer.
func (r *gRun) value(pts []int) int {
	sc := r.sc
	if sc.table != nil {
		if v, ok := sc.table[fmt.Sprint(pts)]; ok {
			return v
		}
		return -7
	}
	h := uint64(sc.Seed)*0x9E3779B97F4A7C15 + 12345
	mix := func(x uint64) uint64 {
		x ^= x >> 31
		x *= 0xBF58476D1CE4E5B9
		x ^= x >> 27
		x *= 0x94D049BB133111EB
		x ^= x >> 29
		return x
	}
	switch sc.Landscape {
	case "const":
		return 3
	case "hash", "hashneg":
		for _, p := range pts {
			h = mix(h ^ uint64(p+7))
		}
		v := int(h % 11)
		if sc.Landscape == "hashneg" {
			v -= 20
		} else {
			v -= 4
		}
		return v
	case "add", "addneg":
		v := 0
		for i, p := range pts {
			v += int(mix(h^uint64(p*31+i*7919)) % 50)
		}
		if sc.Landscape == "addneg" {
			v -= 60 * len(pts)
		}
		return v
	case "fine":
		v := 0
		for i, p := range pts {
			v += int(mix(h^uint64(p*31+i*7919)) % 100000)
		}
		return v - 30000*len(pts)
	default: // "dist": minus the distance to targets
		v := 0
		for i, p := range pts {
			t := int(mix(h^uint64(i)) % (grid * 128))
			dx, dy := p/128-t/128, p%128-t%128%(grid+1)
			if dx < 0 {
				dx = -dx
			}
			if dy < 0 {
				dy = -dy
			}
			v -= dx + dy
		}
		if sc.Landscape == "distpos" {
			v += 200 * len(pts)
		}
		return v
	}
}

func sameInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (f *gFn) Calculate(d fitness.PointsData) float64 {
	r := f.r
	pts := encGroup(d.Points)
	muts := encMuts(d.Mutations)
	v := r.value(pts)

	r.mu.Lock()
	r.starts++
	r.callInGen++
	k := r.callInGen
	r.log(M{"e": "start", "f": f.id, "k": k, "pts": pts, "muts": muts, "rb": f.buf})
	c := &gCall{f: f, v: v, k: k, go_: make(chan struct{})}
	if !r.freeRun {
		r.waiting = append(r.waiting, c)
		r.cond.Broadcast()
		r.mu.Unlock()
		<-c.go_
		r.mu.Lock()
	} else if r.schedRng.Intn(4) == 0 {
		d := time.Duration(r.schedRng.Intn(200)) * time.Microsecond
		r.mu.Unlock()
		time.Sleep(d)
		r.mu.Lock()
	}
	defer r.mu.Unlock()
	f.none = (pts[0]+len(pts)+int(r.sc.Seed))%5 == 0
	same := sameInts(pts, encGroup(d.Points))
	m2 := encMuts(d.Mutations)
	if len(m2) != len(muts) {
		same = false
	} else {
		for i := range m2 {
			if m2[i]["i"] != muts[i]["i"] || m2[i]["o"] != muts[i]["o"] || m2[i]["n"] != muts[i]["n"] {
				same = false
			}
		}
	}
	r.log(M{"e": "ret", "f": f.id, "k": k, "v": v, "same": same})
	return r.sc.Off + math.Ldexp(float64(v), -r.sc.Exp)
}

// gEval wraps a real evaluator to learn about scheduling; it changes nothing.
type gEval struct {
	evaluator.Evaluator
	r *gRun
}

func (e gEval) Get(i int) fitness.Function {
	f := e.Evaluator.Get(i)
	e.r.mu.Lock()
	e.r.gets++
	if g, ok := f.(*gFn); ok {
		e.r.slotOf[g] = i
	}
	e.r.active++
	e.r.cond.Broadcast()
	e.r.mu.Unlock()
	return f
}

func (e gEval) Prepare() {
	e.Evaluator.Prepare()
	e.r.mu.Lock()
	e.r.prepares++
	e.r.active++
	e.r.cond.Broadcast()
	e.r.mu.Unlock()
}

func (e gEval) Update(i int) {
	e.Evaluator.Update(i)
	e.r.mu.Lock()
	e.r.scan()
	e.r.updates++
	e.r.active++
	e.r.cond.Broadcast()
	e.r.mu.Unlock()
}

// pick chooses the next call to complete.
func (r *gRun) pick() int {
	n := len(r.waiting)
	by := func(less func(a, b *gCall) bool) int {
		m := 0
		for i := 1; i < n; i++ {
			if less(r.waiting[i], r.waiting[m]) {
				m = i
			}
		}
		return m
	}
	slot := func(c *gCall) int { return r.slotOf[c.f] }
	if r.sc.Orders != nil && r.gen < len(r.sc.Orders) {
		rank := func(c *gCall) int {
			for i, s := range r.sc.Orders[r.gen] {
				if s == slot(c) {
					return i
				}
			}
			return 1000 + slot(c)
		}
		return by(func(a, b *gCall) bool { return rank(a) < rank(b) })
	}
	switch r.sc.Order {
	case "asc":
		return by(func(a, b *gCall) bool { return slot(a) < slot(b) })
	case "desc":
		return by(func(a, b *gCall) bool { return slot(a) > slot(b) })
	case "fitfirst":
		return by(func(a, b *gCall) bool { return a.v > b.v })
	case "fitlast":
		return by(func(a, b *gCall) bool { return a.v < b.v })
	case "straggler": // one elite finishes last
		return by(func(a, b *gCall) bool { return slot(a) != 0 && slot(b) == 0 })
	}
	return r.schedRng.Intn(n)
}

func (r *gRun) schedule(done chan struct{}) {
	defer close(done)
	const quiet = 8 * time.Millisecond
	r.mu.Lock()
	defer r.mu.Unlock()
	ticker := time.AfterFunc(time.Hour, func() {})
	defer ticker.Stop()
	for !r.stop {
		if len(r.waiting) == 0 {
			r.cond.Wait()
			continue
		}
		ready := func() bool {
			return r.starts >= r.gets && r.prepares > r.gen && (!r.updWait || r.updates >= r.released)
		}
		if !ready() {
			// Wait for more activity; release anyway after a quiet time.
			a := r.active
			r.mu.Unlock()
			deadline := time.Now().Add(quiet)
			quietOver := false
			for {
				runtime.Gosched()
				time.Sleep(20 * time.Microsecond)
				r.mu.Lock()
				if r.active != a || r.stop || ready() {
					break
				}
				if time.Now().After(deadline) {
					quietOver = true
					break
				}
				r.mu.Unlock()
			}
			if r.stop {
				return
			}
			if !quietOver {
				continue
			}
			if r.updWait && r.updates < r.released {
				r.updWait = false // Updates don't follow completions one by one in this implementation
			}
		}
		if len(r.waiting) == 0 {
			continue
		}
		i := r.pick()
		c := r.waiting[i]
		r.waiting = append(r.waiting[:i], r.waiting[i+1:]...)
		r.released++
		close(c.go_)
	}
}

// gMutator is a scripted mutation.Method.
type gMutator struct{ r *gRun }

func (m gMutator) Mutate(pts normgeom.NormPointGroup, mutated func(mutation.Mutation)) {
	r := m.r
	apply := func(i, code int) {
		old := pts[i]
		pts[i] = decPoint(code)
		mutated(mutation.Mutation{Old: old, New: pts[i], Index: i})
	}
	call := r.mutCall
	r.mutCall++
	if r.sc.Muts != nil {
		g := r.gen - 1
		if g >= 0 && g < len(r.sc.Muts) && call < len(r.sc.Muts[g]) {
			for _, x := range r.sc.Muts[g][call] {
				if x.I-1 < len(pts) {
					apply(x.I-1, x.N)
				}
			}
		}
		return
	}
	rnd := func() int { return r.rng.Intn(grid+1)*128 + r.rng.Intn(grid+1) }
	n := len(pts)
	switch r.sc.MutMode {
	case "none":
	case "one":
		apply(r.rng.Intn(n), rnd())
	case "all":
		for i := range pts {
			apply(i, rnd())
		}
	case "same": // Often the same index with a few values
		apply(0, (r.rng.Intn(4)*16)*128)
		if n > 1 && r.rng.Intn(2) == 0 {
			apply(n-1, (r.rng.Intn(4)*16)*128+5)
		}
	case "perm": // reported in a random order
		for _, i := range r.rng.Perm(n)[:r.rng.Intn(n+1)] {
			apply(i, rnd())
		}
	default: // "some"
		for i := range pts {
			if r.rng.Intn(3) == 0 {
				if r.rng.Intn(12) == 0 {
					apply(i, encPoint(pts[i])) // A mutation that doesn't move the point
				} else {
					apply(i, rnd())
				}
			}
		}
	}
}

func runScenario(sc gScenario) (tr M, aborted bool) {
	if sc.Table != nil {
		sc.table = map[string]int{}
		for _, t := range sc.Table {
			sc.table[fmt.Sprint(t.P)] = t.V
		}
	}
	r := &gRun{sc: sc, rng: rand.New(rand.NewSource(sc.Seed)), schedRng: rand.New(rand.NewSource(sc.Seed + 1)),
		slotOf: map[*gFn]int{}, bufs: map[*fitness.CacheData]int{}, updWait: sc.Ev == "parallel" || true}
	r.cond = sync.NewCond(&r.mu)
	r.freeRun = sc.Order == "free"
	if sc.Procs > 0 {
		defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(sc.Procs))
	}

	var iv []int
	ninit := 0
	newGroup := func() normgeom.NormPointGroup {
		var g normgeom.NormPointGroup
		for i := 0; i < sc.NPts; i++ {
			if sc.Init != nil {
				g = append(g, decPoint(sc.Init[ninit%len(sc.Init)][i]))
			} else {
				g = append(g, decPoint(r.rng.Intn(grid+1)*128+r.rng.Intn(grid+1)))
			}
		}
		ninit++
		e := encGroup(g)
		r.mu.Lock()
		iv = append(iv, r.value(e))
		r.log(M{"e": "init", "pts": e})
		r.mu.Unlock()
		return g
	}
	newEval := func(n int) evaluator.Evaluator {
		switch sc.Ev {
		case "one":
			return gEval{evaluator.NewOne(&gFn{id: 1, r: r}), r}
		case "many":
			id := 0
			return gEval{evaluator.NewMany(func() fitness.Function { id++; return &gFn{id: id, r: r} }, n), r}
		}
		fns := make([]fitness.CacheFunction, n)
		for i := range fns {
			fns[i] = &gFn{id: i + 1, r: r}
		}
		pow := 9 // the hashes are the numbers of the functions
		for n >= 1<<pow {
			pow++
		}
		return gEval{evaluator.NewParallel(fns, pow), r}
	}

	done := make(chan struct{})
	go r.schedule(done)

	finished := make(chan interface{}, 1)
	go func() {
		defer func() { finished <- recover() }()
		var algo algorithm.Algorithm
		end := func(g int) {
			// A caller may look at some generations only, in either order and more than once
			look := uint64(sc.Seed+int64(g)*7919) * 0x9E3779B97F4A7C15 >> 40
			if g < sc.Gens && look%5 == 0 {
				r.mu.Lock()
				r.scan()
				r.log(M{"e": "over"})
				r.mu.Unlock()
				return
			}
			if look%5 == 1 {
				algo.Stats()
				algo.Best()
			}
			st := algo.Stats()
			best := algo.Best()
			if look%3 == 0 {
				st = algo.Stats()
			}
			e := encGroup(best)
			r.mu.Lock()
			r.scan()
			bf := math.Ldexp(st.BestFitness-sc.Off, sc.Exp)
			exact := bf == float64(int(bf)) && bf > -1e8 && bf < 1e8 &&
				sc.Off+math.Ldexp(float64(int(bf)), -sc.Exp) == st.BestFitness
			if !exact {
				bf = -77777777
			}
			r.log(M{"e": "end", "g": g, "best": e, "bf": int(bf), "gen": st.Generation})
			r.mu.Unlock()
			// The caller may do what it likes with the group it received
			if (sc.Seed+int64(g))%2 == 0 {
				for i := range best {
					best[i] = poison
				}
			}
		}
		r.mu.Lock()
		r.log(M{"e": "gen", "g": 0})
		r.mu.Unlock()
		if sc.Algo == "mod" {
			algo = algorithm.NewModifiedGenetic(newGroup, sc.Size, sc.Cutoff, newEval, gMutator{r})
		} else {
			algo = algorithm.NewSimple(newGroup, sc.Size, sc.Cutoff, newEval, gMutator{r})
		}
		end(0)
		for g := 1; g <= sc.Gens; g++ {
			r.mu.Lock()
			r.gen = g
			r.callInGen = 0
			r.mutCall = 0
			r.log(M{"e": "gen", "g": g})
			r.mu.Unlock()
			algo.Step()
			end(g)
		}
	}()

	last, lastT := int64(-1), time.Now()
	var why interface{}
wait:
	for {
		select {
		case why = <-finished:
			if why != nil {
				aborted = true
			}
			break wait
		case <-time.After(500 * time.Millisecond):
			r.mu.Lock()
			a := r.active
			r.mu.Unlock()
			if a != last {
				last, lastT = a, time.Now()
			} else if time.Since(lastT) > 12*time.Second {
				aborted = true
				why = "hang"
				break wait
			}
		}
	}
	r.mu.Lock()
	if aborted {
		r.log(M{"e": "abort", "why": fmt.Sprint(why)})
	}
	r.stop = true
	for _, c := range r.waiting {
		close(c.go_)
	}
	r.waiting = nil
	r.cond.Broadcast()
	evs := append([]M{}, r.ev...)
	r.mu.Unlock()
	<-done
	sc.table = nil
	return M{"algo": sc.Algo, "ev": sc.Ev, "size": sc.Size, "cutoff": sc.Cutoff, "npts": sc.NPts, "iv": iv, "sc": scString(sc), "t": evs}, aborted
}

func scString(sc gScenario) string {
	b, _ := json.Marshal(sc)
	return string(b)
}

func randomScenario(rng *rand.Rand, big bool, huge int) gScenario {
	pickS := func(s ...string) string { return s[rng.Intn(len(s))] }
	sc := gScenario{Seed: rng.Int63n(1 << 40)}
	sc.Algo = pickS("mod", "mod", "simple")
	sc.Ev = pickS("parallel", "parallel", "parallel", "parallel", "one", "many")
	sc.Size = 2 + rng.Intn(9)
	sc.NPts = 1 + rng.Intn(5)
	sc.Gens = 2 + rng.Intn(5)
	if big {
		sc.Size = 2 + rng.Intn(40)
		sc.NPts = 1 + rng.Intn([]int{12, 12, 40}[rng.Intn(3)])
		sc.Gens = 2 + rng.Intn(10)
	}
	if huge > 0 {
		switch huge % 5 {
		case 3: // the default parameters
			sc.Size, sc.NPts, sc.Gens = 400, 1+rng.Intn(2), 2
		case 4: // very many generations
			sc.Size, sc.NPts, sc.Gens = 2+rng.Intn(3), 1+rng.Intn(2), 1030+rng.Intn(300)
		case 0: // many members
			sc.Size, sc.NPts, sc.Gens = 60+rng.Intn(240), 1+rng.Intn(3), 2
			if rng.Intn(2) == 0 { // hundreds of evaluations are under way at once
				sc.Size, sc.NPts, sc.Gens = 520+rng.Intn(300), 1, 1
			}
		case 1: // many generations
			sc.Size, sc.NPts, sc.Gens = 2+rng.Intn(6), 1+rng.Intn(3), 60+rng.Intn(80)
		default: // many points
			sc.Size, sc.NPts, sc.Gens = 3+rng.Intn(5), 100+rng.Intn(250), 3
		}
	}
	sc.Cutoff = 1 + rng.Intn(sc.Size/2)
	if rng.Intn(5) == 0 {
		sc.Cutoff = sc.Size / 2
	}
	if rng.Intn(2) == 0 && sc.Size >= 4 {
		sc.Cutoff = 1 + rng.Intn(sc.Size/4)
	}
	if huge%5 == 3 && huge > 0 {
		sc.Cutoff = 5
	}
	sc.Exp, sc.Off = 2, 0
	switch rng.Intn(5) {
	case 0, 2:
		sc.Exp, sc.Off = 20+rng.Intn(29), 0.875
	case 1:
		sc.Exp = []int{60, -60, 900}[rng.Intn(3)]
	}
	sc.Landscape = pickS("const", "hash", "hash", "hashneg", "add", "add", "addneg", "fine", "fine", "dist", "distpos")
	sc.MutMode = pickS("some", "some", "some", "one", "all", "same", "same", "perm", "none")
	sc.Order = pickS("asc", "desc", "fitfirst", "fitlast", "straggler", "random", "random", "free")
	sc.Procs = []int{1, 2, 8, 8}[rng.Intn(4)]
	return sc
}

func runGenetic(o opts, s *sink) {
	log.SetOutput(os.Stderr)
	aborts := 0
	one := func(sc gScenario) bool {
		tr, ab := runScenario(sc)
		s.put(tr)
		s.count("events", len(tr["t"].([]M)))
		s.count("generations", sc.Gens+1)
		s.count("algo_"+sc.Algo, 1)
		s.count("ev_"+sc.Ev, 1)
		if ab {
			s.count("aborts", 1)
			aborts++
		}
		return aborts < 2
	}
	if o.in != "" {
		f, err := os.Open(o.in)
		if err != nil {
			die(err)
		}
		rd := bufio.NewScanner(f)
		rd.Buffer(make([]byte, 1<<20), 1<<26)
		for rd.Scan() {
			var sc gScenario
			if err := json.Unmarshal(rd.Bytes(), &sc); err != nil {
				die(err)
			}
			if !one(sc) {
				return
			}
		}
		return
	}
	rng := rand.New(rand.NewSource(o.seed))
	for i := 0; i < o.n && time.Now().Before(o.deadline); i++ {
		huge := 0
		if o.size > 0 && i%25 == 0 {
			huge = 1 + i/25
		}
		if !one(randomScenario(rng, o.size > 0 && i%2 == 1, huge)) {
			return
		}
	}
}
