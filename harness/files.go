package main

import (
	"bytes"
	"compress/gzip"
	"encoding/json"
	"io"
	"math"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"github.com/RH12503/Triangula/algorithm"
	"github.com/RH12503/Triangula/normgeom"
	"github.com/RH12503/Triangula/utils"
)

// flScenario is the use of a utility with an algorithm that reports random points.
type flScenario struct {
	Kind string `json:"kind"` // run, output, trace, profile
	Reps int    `json:"reps"`
	Gens int    `json:"gens"` // the program is ended before the next one
	Seed int64  `json:"seed"`
	Max  int    `json:"max"` // number of points
	Same bool   `json:"same,omitempty"`
}

type flReport struct {
	f float64
	p normgeom.NormPointGroup
}

func (r flReport) encode() M {
	p := [][2]word{}
	for _, q := range r.p {
		p = append(p, [2]word{fword(q.X), fword(q.Y)})
	}
	return M{"f": fword(r.f), "p": p}
}

func (sc flScenario) reports() (r []flReport) {
	rng := rand.New(rand.NewSource(sc.Seed))
	num := func() float64 {
		switch rng.Intn(6) {
		case 0:
			return []float64{0, 1, 0.5, 1.0 / 3, 5e-324, 1e-300, math.Nextafter(1, 0), 1e-7, 0.1}[rng.Intn(9)]
		case 1:
			return rng.Float64() * 1e-9
		}
		return rng.Float64()
	}
	for g := 0; g <= sc.Gens; g++ {
		if g > 0 && sc.Same && rng.Intn(3) > 0 {
			r = append(r, r[g-1])
			continue
		}
		p := normgeom.NormPointGroup{}
		for n := rng.Intn(sc.Max + 1); n > 0; n-- {
			p = append(p, normgeom.NormPoint{X: num(), Y: num()})
		}
		f := num()
		if rng.Intn(5) == 0 {
			f = -f * 1e9
		}
		r = append(r, flReport{f, p})
	}
	return
}

// stub is the algorithm.
type stub struct {
	sc   flScenario
	r    []flReport
	dir  string
	gen  int
	bad  bool
	evs  []M
	busy func()
}

type ended struct{}

func (s *stub) Step() {
	if s.sc.Kind == "run" || s.sc.Kind == "output" {
		s.look()
		if s.gen == s.sc.Gens {
			panic(ended{})
		}
	}
	if s.busy != nil {
		s.busy()
	}
	s.gen++
}

func (s *stub) at() flReport {
	if s.gen < len(s.r) {
		return s.r[s.gen]
	}
	return s.r[len(s.r)-1]
}

func (s *stub) Best() normgeom.NormPointGroup { return s.at().p }

func (s *stub) Stats() algorithm.Stats {
	return algorithm.Stats{BestFitness: s.at().f, Generation: s.gen, TimeForGen: time.Millisecond}
}

var flLine = regexp.MustCompile(`^([0-9]+), (\S+)$`)

func (s *stub) look() {
	ev := M{"e": "step", "has": false, "p": [][2]word{}}
	name := "out-stats"
	if s.sc.Kind == "run" {
		name = "stdout"
	}
	b, _ := os.ReadFile(filepath.Join(s.dir, name))
	lines := []interface{}{}
	last := ""
	for _, l := range strings.SplitAfter(string(b), "\n") {
		m := flLine.FindStringSubmatch(strings.TrimSuffix(l, "\n"))
		if m == nil || !strings.HasSuffix(l, "\n") {
			if l != "" && name != "stdout" {
				lines = append(lines, []interface{}{-1, word{}})
			}
			continue
		}
		g, e1 := strconv.Atoi(m[1])
		f, e2 := strconv.ParseFloat(m[2], 64)
		if e1 != nil || e2 != nil {
			g = -1
		}
		lines = append(lines, []interface{}{g, fword(f)})
		last = l
	}
	ev["lines"] = lines
	k := s.gen / s.sc.Reps
	s.bad = s.bad || len(lines) != k
	if k > 0 {
		w := s.r[k*s.sc.Reps]
		s.bad = s.bad || last != strconv.Itoa(k*s.sc.Reps)+", "+strconv.FormatFloat(w.f, 'g', -1, 64)+"\n" && !strings.ContainsAny(last, "e")
		if s.sc.Kind == "output" {
			var p normgeom.NormPointGroup
			b, err := os.ReadFile(filepath.Join(s.dir, "out"))
			if err == nil && json.Unmarshal(b, &p) == nil {
				ev["has"], ev["p"] = true, flReport{0, p}.encode()["p"]
			}
			ok := err == nil && len(p) == len(w.p)
			for i := range p {
				ok = ok && p[i] == w.p[i]
			}
			s.bad = s.bad || !ok
		}
	}
	s.evs = append(s.evs, ev)
}

func runFile(sc flScenario) (tr M, bad bool) {
	dir, err := os.MkdirTemp(".", "files")
	if err != nil {
		die(err)
	}
	defer os.RemoveAll(dir)
	s := &stub{sc: sc, dir: dir, r: sc.reports()}
	name := filepath.Join(dir, "out")
	stdout := os.Stdout
	defer func() { os.Stdout = stdout }()
	if os.Stdout, err = os.Create(filepath.Join(dir, "stdout")); err != nil {
		die(err)
	}
	defer os.Stdout.Close()
	start := time.Now()
	why := guard(func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(ended); !ok {
					panic(r)
				}
			}
		}()
		switch sc.Kind {
		case "run":
			utils.RunAlgorithm(s, sc.Reps)
		case "output":
			utils.GenerateAlgorithmOutput(name, s, sc.Reps)
		case "trace":
			s.busy = func() {
				if sc.Max > 10 { // something to be traced
					c := make(chan int)
					go func() { c <- 1 }()
					<-c
				}
			}
			utils.GenerateTrace(name, s)
		case "profile":
			utils.GenerateProfile(name, s, sc.Reps)
		}
	}, 60*time.Second)
	switch {
	case why != "":
		s.evs, s.bad = append(s.evs, M{"e": "abort", "why": why}), true
	case sc.Kind == "trace":
		s.end(traceOK(name+".trace"), true)
	case sc.Kind == "profile":
		s.end(gzipOK(name+".prof"), time.Since(start) >= time.Duration(sc.Reps)*time.Second)
	}
	b, _ := json.Marshal(sc)
	gens := []M{}
	for _, r := range s.r[1:] {
		gens = append(gens, r.encode())
	}
	return M{"k": 1, "sc": string(b), "kind": sc.Kind, "reps": sc.Reps, "gens": gens, "t": s.evs}, s.bad
}

func (s *stub) end(ok, long bool) {
	s.evs = append(s.evs, M{"e": "ended", "ok": ok, "steps": s.gen, "long": long})
	s.bad = s.bad || !ok || !long || s.gen == 0
}

func traceOK(name string) bool {
	b, err := os.ReadFile(name)
	if err != nil || !bytes.HasPrefix(b, []byte("go 1.")) {
		return false
	}
	return exec.Command("go", "tool", "trace", "-d=parsed", name).Run() == nil
}

func gzipOK(name string) bool {
	b, err := os.ReadFile(name)
	if err != nil {
		return false
	}
	r, err := gzip.NewReader(bytes.NewReader(b))
	if err != nil {
		return false
	}
	b, err = io.ReadAll(r)
	return err == nil && len(b) > 0
}

func runFiles(o opts, s *sink) {
	if o.in != "" {
		eachScenario(o.in, func(b []byte) bool {
			var sc flScenario
			if err := json.Unmarshal(b, &sc); err != nil {
				die(err)
			}
			tr, _ := runFile(sc)
			s.put(tr)
			return atomic.LoadInt32(&stuck) == 0
		})
		return
	}
	rng := rand.New(rand.NewSource(o.seed))
	bad := 0
	for i := 0; i < o.n+o.size && bad < 3 && atomic.LoadInt32(&stuck) == 0 && time.Now().Before(o.deadline); i++ {
		sc := flScenario{Kind: []string{"run", "output"}[i%2], Reps: 1 + rng.Intn(5), Gens: 1 + rng.Intn(24), Seed: rng.Int63n(1 << 40),
			Max: []int{0, 1, 3, 8, 20}[rng.Intn(5)], Same: rng.Intn(3) == 0}
		if rng.Intn(10) == 0 {
			sc.Gens, sc.Reps = 60+rng.Intn(60), 1
		}
		if i >= o.n && rng.Intn(4) == 0 {
			sc.Max = 400
		}
		if o.mode == "ends" {
			sc = flScenario{Kind: []string{"trace", "profile"}[i%2], Reps: 1, Gens: 1, Seed: 1, Max: i * 15}
		}
		tr, b := runFile(sc)
		s.count("runs", 1)
		if b {
			bad++
			s.count("suspicious", 1)
		}
		if i < o.n || b {
			s.put(tr)
		}
	}
}
