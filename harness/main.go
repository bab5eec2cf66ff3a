// Command harness drives the public API of /repo and records what it does as NDJSON traces, which
// TLC then validates against the specifications in /verif/spec.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"time"
)

type opts struct {
	seed     int64
	n        int    // number of traces/scenarios
	size     int    // size knob
	out      string // NDJSON output
	in       string // scenarios (from TLC or a replay)
	mode     string
	deadline time.Time
}

// M is a JSON object.
type M = map[string]interface{}

type sink struct {
	f     *os.File
	w     *bufio.Writer
	n     int
	stats map[string]int
}

func newSink(path string) *sink {
	f, err := os.Create(path)
	if err != nil {
		die(err)
	}
	return &sink{f: f, w: bufio.NewWriterSize(f, 1<<20), stats: map[string]int{}}
}

func (s *sink) put(v interface{}) {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	s.w.Write(b)
	s.w.WriteByte('\n')
	s.n++
}

func (s *sink) count(k string, n int) { s.stats[k] += n }

// finish writes the statistics next to the traces.
func (s *sink) finish(path string) {
	s.w.Flush()
	s.f.Close()
	s.stats["traces"] = s.n
	b, _ := json.Marshal(s.stats)
	os.WriteFile(path+".stats", b, 0o644)
}

func main() {
	var o opts
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	fs.Int64Var(&o.seed, "seed", 1, "")
	fs.IntVar(&o.n, "n", 100, "")
	fs.IntVar(&o.size, "size", 0, "")
	fs.StringVar(&o.out, "out", "trace.ndjson", "")
	fs.StringVar(&o.in, "in", "", "")
	fs.StringVar(&o.mode, "mode", "", "")
	secs := fs.Float64("secs", 3600, "time budget")
	fs.Parse(os.Args[2:])
	o.deadline = time.Now().Add(time.Duration(*secs * float64(time.Second)))
	log.SetOutput(io.Discard)
	cmds := map[string]func(opts, *sink){
		"genetic":  runGenetic,
		"delaunay": runDelaunay,
		"voronoi":  runVoronoi,
		"oneshot":  runOneShot,
		"raster":   runRaster,
		"fitness":  runFitness,
		"chance":   runChance,
		"render":   runRenders,
		"picture":  runPictures,
		"files":    runFiles,
		"repro":    runRepros,
		"geom":     runGeom,
		"pure":     runPures,
		"long":     runLongs,
		"clock":    runClocks,
	}
	f, ok := cmds[cmd]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown command", cmd)
		os.Exit(3)
	}
	s := newSink(o.out)
	f(o, s)
	s.finish(o.out)
}
