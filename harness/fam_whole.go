package main

import (
	"math"
	"os"
	"path/filepath"

	"github.com/aligator/goslice"
	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/handler"
)

// seen keeps what the slicer returned, before anything is done with it.
type seen struct {
	next   handler.ModelSlicer
	layers [][]J
	s      shift
}

func (w *seen) Slice(m data.OptimizedModel) ([]data.PartitionedLayer, error) {
	ls, err := w.next.Slice(m)
	w.layers = [][]J{}
	for _, l := range ls {
		out := []J{}
		for _, p := range l.LayerParts() {
			h := [][]pt2{}
			for _, q := range p.Holes() {
				h = append(h, w.s.loop(q))
			}
			out = append(out, J{"o": w.s.loop(p.Outline()), "h": h})
		}
		w.layers = append(w.layers, out)
	}
	return ls, err
}

// Complete runs with a model file and all the default steps.
func init() {
	families["whole"] = func(c *Case) {
		r := c.R
		o := c.sliceOptions()
		start, end := c.script(true), c.script(false)
		o.Printer.StartGCode, o.Printer.EndGCode = data.NewGCodeHunk(texts(start)), data.NewGCodeHunk(texts(end))
		if o.Print.Support.Enabled && o.Print.Support.ThresholdAngle < 8 {
			o.Print.Support.ThresholdAngle = 8 + r.Intn(70)
		}
		if q := &o.Print; q.InfillOverlapPercent+q.AdditionalInternalInfillOverlapPercent < 100 {
			q.AdditionalInternalInfillOverlapPercent += 150
		}
		shells := c.solid(2200+1500*r.Float64(), 2)
		var fs [][3]ivec
		for _, x := range shells {
			fs = append(fs, x.faces()...)
		}
		lo, hi := ivec{math.MaxInt32, math.MaxInt32, math.MaxInt32}, ivec{math.MinInt32, math.MinInt32, math.MinInt32}
		for _, f := range fs {
			for _, p := range f {
				for k := range p {
					lo[k], hi[k] = min64(lo[k], p[k]), max64(hi[k], p[k])
				}
			}
		}
		// not too many layers, some of them exactly as high as a level of the model
		h := hi[2] - lo[2]
		th := max64(int64(o.Print.LayerThickness), h/(3+r.Int63n(5)))
		if r.Intn(3) == 0 {
			th = max64(80, h/(3+r.Int63n(5)))
		}
		init := int64(o.Print.InitialLayerThickness)
		if r.Intn(3) == 0 {
			init = min64(th, 350)
		}
		o.Print.LayerThickness, o.Print.InitialLayerThickness = data.Micrometer(th), data.Micrometer(init)
		cz := []int64{0, 0, 0, r.Int63n(900) - 450}[r.Intn(4)]
		ctr := o.Printer.Center
		o.Printer.Center = data.NewMicroVec3(ctr.X(), ctr.Y(), data.Micrometer(cz))
		for _, x := range shells {
			for k := range x.Levels {
				x.Levels[k].Z += cz - lo[2]
			}
		}
		s := shift{int64(ctr.X()) - (lo[0]+hi[0])/2, int64(ctr.Y()) - (lo[1]+hi[1])/2, 1}

		in, out := filepath.Join(c.dir(), "m.stl"), filepath.Join(c.dir(), "o.gcode")
		stl(in, c.shuffleFaces(fs))
		o.GoSlice.InputFilePath, o.GoSlice.OutputFilePath = in, out
		if r.Intn(2) == 0 {
			o.GoSlice.OutputFilePath = ""
			out = in + ".gcode"
		}
		sl := goslice.NewGoSlice(o)
		cap := &capture{next: sl.Generator}
		see := &seen{next: sl.Slicer, s: s}
		sl.Slicer, sl.Generator = see, cap
		err := sl.Process()
		got, ferr := os.ReadFile(out)
		must(os.RemoveAll(c.dir()))

		finish := int64(o.Slicing.FinishPolygonSnapDistance)
		for _, x := range shells {
			for _, l := range x.Levels {
				a, b := l.Pts[0], l.Pts[0]
				for _, q := range l.Pts {
					a = pt2{min64(a[0], q[0]), min64(a[1], q[1])}
					b = pt2{max64(b[0], q[0]), max64(b[1], q[1])}
				}
				if 2*(b[0]-a[0]+b[1]-a[1]) < 2*finish {
					x.Small = true
				}
			}
		}
		e := J{"ev": "slice", "err": err != nil, "msg": "", "contours": true, "init": init, "th": th, "join": int64(o.Slicing.JoinPolygonSnapDistance), "finish": finish,
			"top": hi[2] - lo[2] + cz, "shells": shells, "layers": see.layers}
		if err != nil {
			e["msg"] = err.Error()
		}
		c.Emit(e)
		c.Emit(J{"ev": "file", "same": err == nil && ferr == nil && string(got) == cap.gcode || err != nil && ferr != nil, "err": err != nil, "there": ferr == nil})
		c.emitPrint(&o, start, end, cap, s, pt2{lo[0], lo[1]}, pt2{hi[0], hi[1]}, err)
	}
}
