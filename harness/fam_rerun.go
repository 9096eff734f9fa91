package main

import (
	"crypto/sha256"
	"fmt"
	"log"
	"os"
	"path/filepath"
	"sort"
	"sync"

	"github.com/aligator/goslice"
	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/handler"
)

// The same slicing again and again, in any order and at the same time.

// gate stops a run at some of the places it passes until it is told to go on.
type gate struct {
	stops  map[int]bool
	n      int
	parked chan bool // true: parked, false: done
	resume chan struct{}
}

func (g *gate) pass() {
	if g == nil {
		return
	}
	g.n++
	if g.stops[g.n] {
		g.parked <- true
		<-g.resume
	}
}

// Write is called for every line of the log.
func (g *gate) Write(p []byte) (int, error) { g.pass(); return len(p), nil }

type gReader struct {
	handler.ModelReader
	i *inst
}

func (r gReader) Read(f string) (data.Model, error) { r.i.g.pass(); return r.ModelReader.Read(f) }

type gOpt struct {
	handler.ModelOptimizer
	i *inst
}

func (r gOpt) Optimize(m data.Model) (data.OptimizedModel, error) {
	r.i.g.pass()
	return r.ModelOptimizer.Optimize(m)
}

type gSlicer struct {
	handler.ModelSlicer
	i *inst
}

func (r gSlicer) Slice(m data.OptimizedModel) ([]data.PartitionedLayer, error) {
	r.i.g.pass()
	return r.ModelSlicer.Slice(m)
}

type gMod struct {
	handler.LayerModifier
	i *inst
}

func (r gMod) Init(m data.OptimizedModel) { r.i.g.pass(); r.LayerModifier.Init(m) }
func (r gMod) Modify(l []data.PartitionedLayer) error {
	r.i.g.pass()
	err := r.LayerModifier.Modify(l)
	r.i.g.pass()
	return err
}

type gGen struct {
	handler.GCodeGenerator
	i *inst
}

func (r gGen) Init(m data.OptimizedModel) {
	r.i.g.pass()
	r.GCodeGenerator.Init(m)
	r.i.g.pass()
}

type gWriter struct {
	handler.GCodeWriter
	i *inst
}

func (r gWriter) Write(g, f string) error { r.i.g.pass(); return r.GCodeWriter.Write(g, f) }

// inst is one instance with its options.
type inst struct {
	opt int
	s   *goslice.GoSlice
	g   *gate
}

func (i *inst) Write(p []byte) (int, error) {
	i.g.pass()
	return len(p), nil
}

func newInst(o data.Options, opt int, gated bool) *inst {
	i := &inst{opt: opt}
	o.GoSlice.Logger = log.New(i, "", 0)
	s := goslice.NewGoSlice(o)
	if gated {
		s.Reader, s.Optimizer, s.Slicer, s.Generator, s.Writer = gReader{s.Reader, i}, gOpt{s.Optimizer, i}, gSlicer{s.Slicer, i}, gGen{s.Generator, i}, gWriter{s.Writer, i}
		for k, m := range s.Modifiers {
			s.Modifiers[k] = gMod{m, i}
		}
	}
	i.s = s
	return i
}

// once processes a model and tells what came out.
func (i *inst) once(in, out string) (hash, msg string) {
	i.s.Options.InputFilePath, i.s.Options.OutputFilePath = in, out
	err := i.s.Process()
	if err != nil {
		return "-", err.Error()
	}
	b, err := os.ReadFile(out)
	if err != nil {
		return "-", "nothing was written"
	}
	return sum(b), ""
}

// sum is short for a text.
func sum(b []byte) string { return fmt.Sprintf("%x/%d", sha256.Sum256(b), len(b)) }

func init() {
	families["rerun"] = func(c *Case) {
		r := c.R
		dir := c.dir()
		defer os.RemoveAll(dir)
		models := []string{}
		for k := 0; k < 2; k++ {
			p := filepath.Join(dir, fmt.Sprintf("m%d.stl", k))
			fs := c.solidFaces(1500+1500*r.Float64(), 2)
			if r.Intn(6) == 0 { // a model which is not closed
				fs = fs[:len(fs)-1-r.Intn(2)]
			}
			stl(p, fs)
			models = append(models, p)
		}
		opts := []data.Options{c.sliceOptions(), c.sliceOptions()}
		if r.Intn(2) == 0 { // which differ in one thing only
			opts[1] = opts[0]
			opts[1].Printer.Center = data.NewMicroVec3(opts[0].Printer.Center.X()+1000, opts[0].Printer.Center.Y(), 0)
			switch r.Intn(6) {
			case 0:
				opts[1].Print.InfillRotationDegree += 30
			case 1:
				opts[1].Print.InfillPercent = 35
			case 2:
				opts[1].Printer.ExtrusionWidth += 50
			case 3:
				opts[1].Filament.ExtrusionMultiplier++
			case 4:
				opts[1].Print.LayerThickness += 40
			}
		}
		for i := range opts {
			// some options only apply to the first layers
			opts[i].Filament.InitialTemperatureLayerCount = 1
			opts[i].Print.IntialLayerSpeed += data.Millimeter(1 + i)
		}
		out := 0
		var mu sync.Mutex
		dest := func() string {
			mu.Lock()
			defer mu.Unlock()
			out++
			return filepath.Join(dir, fmt.Sprintf("o%d.gcode", out))
		}
		say := func(i *inst, m int, how, hash, msg string) {
			mu.Lock()
			defer mu.Unlock()
			c.Emit(J{"ev": "run", "key": fmt.Sprintf("%d/%d", i.opt, m), "how": how, "hash": hash, "msg": msg})
		}
		kind := "free"
		if c.In != nil {
			kind = c.In["kind"].(string)
		}
		nums := func(v interface{}) (out []int) {
			for _, x := range v.([]interface{}) {
				out = append(out, int(x.(float64)))
			}
			return
		}
		switch kind {
		case "seq": // instances are used again
			is := []*inst{newInst(opts[0], 0, false), newInst(opts[1], 1, false)}
			for k, v := range c.In["runs"].([]interface{}) {
				q := nums(v)
				hash, msg := is[q[0]-1].once(models[q[1]-1], dest())
				say(is[q[0]-1], q[1]-1, fmt.Sprintf("run %d", k+1), hash, msg)
			}
		case "mix": // in turns
			var is []*inst
			rs := c.In["runs"].([]interface{})
			order := nums(c.In["order"])
			count := map[int]int{}
			for _, q := range order {
				count[q]++
			}
			type res struct{ hash, msg string }
			results := make([]res, len(rs))
			for k, v := range rs {
				q := nums(v)
				i := newInst(opts[q[0]-1], q[0]-1, true)
				i.g = &gate{stops: map[int]bool{1: true}, parked: make(chan bool), resume: make(chan struct{})}
				var at []int
				for len(i.g.stops) < count[k+1] {
					n := 2 + r.Intn(60)
					if r.Intn(2) == 0 {
						n = 2 + r.Intn(12)
					}
					i.g.stops[n] = true
				}
				sort.Ints(at)
				is = append(is, i)
				go func(k, m int) {
					h, msg := is[k].once(models[m], dest())
					results[k] = res{h, msg}
					is[k].g.parked <- false
				}(k, q[1]-1)
				<-i.g.parked // all of them wait at the first place
			}
			open := map[int]bool{}
			for k := range rs {
				open[k] = true
			}
			step := func(k int) {
				if open[k] {
					is[k].g.resume <- struct{}{}
					open[k] = <-is[k].g.parked
				}
			}
			for _, q := range order {
				step(q - 1)
			}
			for k := range rs {
				for open[k] {
					step(k)
				}
			}
			for k, v := range rs {
				say(is[k], nums(v)[1]-1, fmt.Sprintf("in turns, %d", k+1), results[k].hash, results[k].msg)
			}
		case "free": // all at once
			var wg sync.WaitGroup
			n := 2 + r.Intn(4)
			start := make(chan struct{})
			for k := 0; k < n; k++ {
				o, m := r.Intn(2), r.Intn(2)
				wg.Add(1)
				go func(k int) {
					defer wg.Done()
					defer func() {
						if e := recover(); e != nil {
							say(&inst{opt: o}, m, "at the same time", "-", fmt.Sprint("panic: ", e))
						}
					}()
					i := newInst(opts[o], o, false)
					<-start
					for j := 0; j < 2; j++ {
						hash, msg := i.once(models[m], dest())
						say(i, m, "at the same time", hash, msg)
					}
				}(k)
			}
			close(start)
			wg.Wait()
		}
		// alone, and by the real program
		for o := range opts {
			for m := range models {
				i := newInst(opts[o], o, false)
				hash, msg := i.once(models[m], dest())
				say(i, m, "alone", hash, msg)
				if os.Getenv("GOSLICE_BIN") != "" && r.Intn(3) == 0 {
					p := dest()
					code, text := c.program(opts[o], models[m], p)
					h := "-"
					if b, err := os.ReadFile(p); err == nil {
						h = sum(b)
					}
					if code == 0 {
						text = ""
					}
					say(i, m, "program", h, text)
				}
			}
		}
	}
}
