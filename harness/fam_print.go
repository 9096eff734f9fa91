package main

import (
	"math"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/aligator/goslice"
	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/handler"
	"github.com/aligator/goslice/modifier"
)

// ---- custom G-code ----

// A script line: white space, commented out, command, arguments (BED and HOT are the placeholders).
type sline struct {
	Pre  string   `json:"pre"`
	Off  bool     `json:"off"`
	Code string   `json:"code"`
	Args []string `json:"args"`
}

func (l sline) text() string {
	s := l.Pre
	if l.Off {
		s += ";"
	}
	s += l.Code
	for _, a := range l.Args {
		switch a {
		case "BED":
			a = "{print_bed_temperature}"
		case "HOT":
			a = "{print_temperature}"
		}
		s += a
	}
	return s
}

func texts(ls []sline) []string {
	out := []string{}
	for _, l := range ls {
		out = append(out, l.text())
	}
	return out
}

var scriptLines = map[bool][]sline{
	true: { // start
		{"", false, "M109", []string{" S", "HOT", " ; wait"}},
		{"", false, "M104", []string{" S", "HOT"}},
		{"  ", false, "M104", []string{"S", "HOT"}},
		{"", false, "M190", []string{" S", "BED"}},
		{"\t", false, "M140", []string{" S", "BED", " ;", "BED", "x", "BED"}},
		{"", false, "M109", []string{" S210;M140"}},
		{"", true, "M109", []string{" S", "HOT"}},
		{"", true, " M190", []string{" S", "BED"}},
		{" ", true, "M140", []string{" S50 ; M104 S1"}},
		{"", true, "SET BED TEMP", []string{""}},
		{"", false, "M117", []string{" 50% %d %s done"}},
		{"", false, "G28", []string{""}},
		{"", false, "G28", []string{" ; M104 S", "HOT"}},
		{"", false, "G1", []string{" Z5 F5000 ; lift"}},
		{"", false, "G1", []string{" Z5 F5000"}},
		{"", false, "G0", []string{" X10.00 Y10.00 Z2.00 F3000"}},
		{"", false, "G1", []string{" X20.00 E5.0000"}},
		{"", false, "G92", []string{" E0"}},
		{"", false, "G92", []string{" E0 ; reset extrusion distance"}},
		{"", false, "M107", []string{" ; disable fan"}},
		{"", false, "M106", []string{" S10"}},
		{"", true, "LAYER", []string{" {print_temperature"}},
		{"", false, "M82", []string{" {print_bed_temperature} {print_temperature}x"}},
	},
	false: { // end
		{"", false, "M104", []string{" S0"}},
		{" ", false, "M104", []string{"S0;off"}},
		{"", false, "M109", []string{" S0"}},
		{"", false, "M140", []string{" S0 ; bed"}},
		{"", true, "M140", []string{" S0"}},
		{"", true, " M104", []string{" S0"}},
		{"", false, "M84", []string{" ;M104 M140"}},
		{"", false, "M107", []string{" ; disable fan"}},
		{"", false, "G28", []string{" X0  ; home X axis to get head out of the way"}},
		{"", false, "G1", []string{" X0.00 Y200.00 F3000"}},
		{"", false, "G1", []string{" E-2.0000 F1800"}},
		{"", false, "M117", []string{" 100% ", "HOT", " %v"}},
	},
}

// the placeholders of M82 above are given as text: they are replaced as well
func fixPlaceholders(l sline) sline {
	var as []string
	for _, a := range l.Args {
		for a != "" {
			i, j := strings.Index(a, "{print_bed_temperature}"), strings.Index(a, "{print_temperature}")
			switch {
			case i < 0 && j < 0:
				as = append(as, a)
				a = ""
			case j < 0 || (i >= 0 && i < j):
				as = append(as, a[:i], "BED")
				a = a[i+len("{print_bed_temperature}"):]
			default:
				as = append(as, a[:j], "HOT")
				a = a[j+len("{print_temperature}"):]
			}
		}
	}
	if as == nil {
		as = []string{}
	}
	l.Args = as
	return l
}

func (c *Case) script(start bool) []sline {
	out := []sline{}
	all := scriptLines[start]
	for i := c.R.Intn(5); i > 0; i-- {
		out = append(out, fixPlaceholders(all[c.R.Intn(len(all))]))
	}
	return out
}

// ---- hull ----

func hullOf(pts []pt2) []pt2 {
	sort.Slice(pts, func(i, j int) bool {
		return pts[i][0] < pts[j][0] || pts[i][0] == pts[j][0] && pts[i][1] < pts[j][1]
	})
	cross := func(a, b, p pt2) int64 { return (b[0]-a[0])*(p[1]-a[1]) - (b[1]-a[1])*(p[0]-a[0]) }
	half := func(ps []pt2) []pt2 {
		var h []pt2
		for _, p := range ps {
			for len(h) > 1 && cross(h[len(h)-2], h[len(h)-1], p) <= 0 {
				h = h[:len(h)-1]
			}
			h = append(h, p)
		}
		return h[:len(h)-1]
	}
	if len(pts) < 3 {
		return []pt2{}
	}
	lower := half(pts)
	back := []pt2{}
	for i := len(pts) - 1; i >= 0; i-- {
		back = append(back, pts[i])
	}
	h := append(lower, half(back)...)
	if len(h) < 3 {
		return []pt2{}
	}
	return h
}

// ---- a complete print ----

type ppath struct {
	K     string `json:"k"`
	Part  int    `json:"part"`
	Inset int    `json:"inset"`
	Pts   []pt2  `json:"pts"`
}

// watch keeps what the optimizer returned.
type watch struct {
	next handler.ModelOptimizer
	got  data.OptimizedModel
}

func (w *watch) Optimize(m data.Model) (data.OptimizedModel, error) {
	var err error
	w.got, err = w.next.Optimize(m)
	return w.got, err
}

// a model which only has a box
type boxOpt struct {
	tokOpt
	lo, hi data.MicroVec3
}

func (b boxOpt) Min() data.MicroVec3  { return b.lo }
func (b boxOpt) Max() data.MicroVec3  { return b.hi }
func (b boxOpt) Size() data.MicroVec3 { return b.hi.Sub(b.lo) }

type giveOpt struct{ m data.OptimizedModel }

func (g giveOpt) Optimize(data.Model) (data.OptimizedModel, error) { return g.m, nil }

var layerComment = regexp.MustCompile(`^LAYER:(-?[0-9]+)$`)

func fval(v data.Millimeter) int { return int(math.Round(float64(v) * 60)) }

// planOf describes what was planned for the layers.
func planOf(o *data.Options, ls []data.PartitionedLayer, s shift) (layers []J, hpts []pt2) {
	layers, hpts = []J{}, []pt2{}
	for k, l := range ls {
		paths := []ppath{}
		w, err := modifier.Perimeters(l)
		must(err)
		for i, part := range w {
			for inset, pieces := range part {
				kind := "WALL-INNER"
				if inset == 0 {
					kind = "WALL-OUTER"
				}
				for _, piece := range pieces {
					for _, q := range append(data.Paths{piece.Outline()}, piece.Holes()...) {
						if len(q) > 0 {
							paths = append(paths, ppath{kind, i, inset, s.loop(q)})
						}
					}
				}
			}
		}
		br, err := modifier.Brim(l)
		must(err)
		for i, part := range br {
			for ring, pieces := range part {
				for _, piece := range pieces {
					if len(piece.Outline()) > 0 {
						paths = append(paths, ppath{"SKIRT", i, ring, s.loop(piece.Outline())})
					}
				}
			}
		}
		areas := J{}
		for kind, attr := range map[string]string{"SUPPORT": "support", "INTERFACE": "supportInterface", "BOTTOM": "bottom", "TOP": "top", "INTERNAL": "infill"} {
			ps, err := modifier.PartsAttribute(l, attr)
			must(err)
			out := [][][]pt2{}
			for _, p := range ps {
				loops := [][]pt2{}
				for _, q := range append(data.Paths{p.Outline()}, p.Holes()...) {
					if len(q) > 0 {
						loops = append(loops, s.loop(q))
					}
				}
				out = append(out, loops)
			}
			areas[kind] = out
		}
		layers = append(layers, J{"paths": paths, "areas": areas})
		if k == 0 {
			for _, part := range w {
				for _, pieces := range part {
					for _, piece := range pieces {
						hpts = append(hpts, s.loop(piece.Outline())...)
					}
				}
			}
			f, err := modifier.FullSupport(l)
			must(err)
			for _, p := range f {
				hpts = append(hpts, s.loop(p.Outline())...)
			}
		}
	}
	return
}

// printed emits the G-code line by line.
func (c *Case) printed(o *data.Options, g string, ls []data.PartitionedLayer, s shift, scripts map[string]bool) {
	layer := -1
	end := false
	pos, known := pt2{0, 0}, false
	for _, text := range glines(g) {
		m := gline(text, s)
		switch m["ev"] {
		case "cmt":
			t := m["s"].(string)
			if q := layerComment.FindStringSubmatch(t); q != nil {
				layer, _ = strconv.Atoi(q[1])
				m["layer"] = layer
			}
			if strings.HasPrefix(t, "TYPE:") {
				m["type"] = t[5:]
			}
			if t == "END_GCODE" {
				end = true
			}
		case "cmd":
			if strings.HasPrefix(text, "G92 E0") {
				m["reset"] = true
			}
		case "mv":
			q := pos
			full := 0
			if x, ok := m["x"]; ok {
				q[0] = x.(int64)
				full++
			}
			if y, ok := m["y"]; ok {
				q[1] = y.(int64)
				full++
			}
			if _, ok := m["e"]; !ok && layer >= 0 && layer < len(ls) && !end && known && full > 0 {
				m["cr"] = leaves(float64(pos[0]+s.x), float64(pos[1]+s.y), float64(q[0]+s.x), float64(q[1]+s.y), ls[layer].LayerParts(), 15)
			}
			pos = q
			known = known || full == 2
			if (layer < 0 || end) && scripts[text] {
				m["s"] = text
			}
		}
		c.Emit(m)
	}
	c.Emit(J{"ev": "done"})
}

// printOptions sets everything which only matters for the G-code.
func (c *Case) printOptions(o *data.Options) {
	r := c.R
	speed := func() data.Millimeter {
		if r.Intn(3) == 0 {
			return data.Millimeter(float32(10+r.Intn(2000)) / 10)
		}
		return data.Millimeter(float32(1 + r.Intn(200)))
	}
	p, f := &o.Print, &o.Filament
	p.IntialLayerSpeed, p.LayerSpeed, p.OuterPerimeterSpeed, p.MoveSpeed = speed(), speed(), speed(), speed()
	p.InitialLayerThickness = data.Micrometer(100 + 10*r.Intn(30))
	if r.Intn(3) == 0 {
		p.InitialLayerThickness = p.LayerThickness
	}
	f.FilamentDiameter = data.Micrometer([]int{1750, 2850, 1500 + r.Intn(1500)}[r.Intn(3)])
	f.ExtrusionMultiplier = []int{100, 100, 50 + r.Intn(150)}[r.Intn(3)]
	f.InitialBedTemperature, f.InitialHotEndTemperature = 30+r.Intn(60), 180+r.Intn(80)
	f.BedTemperature, f.HotEndTemperature = 30+r.Intn(60), 180+r.Intn(80)
	f.InitialTemperatureLayerCount = r.Intn(6)
	f.RetractionSpeed = []data.Millimeter{30, 0, speed(), speed()}[r.Intn(4)]
	f.RetractionLength = []data.Millimeter{2, 0, data.Millimeter(float32(1+r.Intn(70)) / 10), 1}[r.Intn(4)]
	f.RetractionZHop = []data.Millimeter{0, 0, data.Millimeter(float32(1+r.Intn(20)) / 10), data.Millimeter(float32(2+r.Intn(9)) / 100)}[r.Intn(4)]
	f.FanSpeed.LayerToSpeedLUT = map[int]int{}
	for i := r.Intn(4); i > 0; i-- {
		f.FanSpeed.LayerToSpeedLUT[r.Intn(7)] = []int{0, 255, r.Intn(256)}[r.Intn(3)]
	}
	p.InfillPercent = []int{20, 100, 0, 1 + r.Intn(100)}[r.Intn(4)]
	p.InfillRotationDegree = []int{45, 0, 90, -45, r.Intn(720) - 360}[r.Intn(5)]
	p.InfillZigZag = r.Intn(2) == 0
	p.BrimSkirt.SkirtCount = r.Intn(4)
	p.BrimSkirt.SkirtDistance = data.Millimeter(float32(r.Intn(30)) / 10)
	o.Printer.ForceSafeStartStopGCode = r.Intn(3) > 0
	o.Printer.HasHeatedBed = r.Intn(3) > 0
}

func init() {
	families["print"] = func(c *Case) {
		r := c.R
		narrow := r.Intn(3) == 0
		o := c.regionOptions(narrow)
		if o.Printer.ExtrusionWidth < 300 {
			o.Printer.ExtrusionWidth += 150
		}
		c.printOptions(&o)
		start, end := c.script(true), c.script(false)
		var g *gridStack
		limit := int64(3000 + r.Intn(2500))
		if c.In != nil { // the protocol, with a small model
			in := c.In
			o.Printer.ForceSafeStartStopGCode, o.Printer.HasHeatedBed = in["safe"].(bool), in["bed"].(bool)
			o.Filament.InitialTemperatureLayerCount = int(in["count"].(float64))
			o.Filament.FanSpeed.LayerToSpeedLUT = map[int]int{}
			for _, q := range in["fan"].([]interface{}) {
				o.Filament.FanSpeed.LayerToSpeedLUT[int(q.([]interface{})[0].(float64))] = int(q.([]interface{})[1].(float64))
			}
			lines := func(v interface{}) []sline {
				out := []sline{}
				for _, q := range v.([]interface{}) {
					m := q.(map[string]interface{})
					l := sline{m["pre"].(string), m["off"].(bool), m["code"].(string), []string{}}
					for _, a := range m["args"].([]interface{}) {
						l.Args = append(l.Args, a.(string))
					}
					out = append(out, l)
				}
				return out
			}
			start, end = lines(in["start"]), lines(in["end"])
			g = &gridStack{xs: c.gridLines(1, false, 1200), ys: c.gridLines(1, false, 1200)}
			for k := 0; k < int(in["n"].(float64)); k++ {
				cells := map[[2]int64]bool{}
				if r.Intn(8) > 0 {
					cells[[2]int64{0, 0}] = true
				}
				g.add(c, cells, 1, 1)
			}
			g.place(c)
			o.Print.BrimSkirt.SkirtCount = r.Intn(2)
			o.Print.InfillPercent = 20
			o.Print.Support.Enabled = false
		} else {
			n := 3
			if narrow {
				n = 5
			}
			g = c.randomStack(1+r.Intn(n), 1+r.Intn(n), 1+r.Intn(5), narrow, limit, max64(300, int64(o.Printer.ExtrusionWidth)*int64(2*o.Print.InsetCount-1)))
		}
		if o.Print.Support.PatternSpacing < 1 {
			o.Print.Support.PatternSpacing += 1
		}
		if o.Print.Support.Enabled && o.Print.Support.ThresholdAngle < 8 || o.Print.InfillOverlapPercent+o.Print.AdditionalInternalInfillOverlapPercent < 100 {
			g.deg = math.Round(g.deg/90) * 90
		}
		o.Printer.StartGCode, o.Printer.EndGCode = data.NewGCodeHunk(texts(start)), data.NewGCodeHunk(texts(end))
		s := g.s
		layers := g.layers(c)
		if r.Intn(4) == 0 {
			layers = c.bowties(layers)
		}
		lo, hi := pt2{math.MaxInt32, math.MaxInt32}, pt2{math.MinInt32, math.MinInt32}
		for _, l := range layers {
			for _, p := range l.LayerParts() {
				for _, q := range s.loop(p.Outline()) {
					lo = pt2{min64(lo[0], q[0]), min64(lo[1], q[1])}
					hi = pt2{max64(hi[0], q[0]), max64(hi[1], q[1])}
				}
			}
		}
		if lo[0] > hi[0] {
			lo, hi = pt2{-1000, -1000}, pt2{1000, 1000}
		}
		v := func(p pt2, z int) data.MicroVec3 {
			return data.NewMicroVec3(data.Micrometer(p[0]+s.x), data.Micrometer(p[1]+s.y), data.Micrometer(z))
		}
		sl := goslice.NewGoSlice(o)
		cap := &capture{next: sl.Generator}
		sl.Reader, sl.Optimizer, sl.Slicer, sl.Generator, sl.Writer = stReader{}, giveOpt{boxOpt{tokOpt{tok: "O"}, v(lo, 0), v(hi, 1000)}}, stSlicer{layers}, cap, stWriter{}
		err := sl.Process()
		c.emitPrint(&o, start, end, cap, s, lo, hi, err)
	}
}

// bowties adds two triangles, connected by a neck, next to the parts of each layer, so that loops and areas fall apart into triangles.
func (c *Case) bowties(layers []data.PartitionedLayer) []data.PartitionedLayer {
	r := c.R
	right, y := data.Micrometer(math.MinInt32), data.Micrometer(0)
	for _, l := range layers {
		for _, p := range l.LayerParts() {
			lo, hi := p.Outline().Bounds()
			if hi.X() > right {
				right, y = hi.X(), lo.Y()
			}
		}
	}
	if right == math.MinInt32 {
		right = 0
	}
	x := right + data.Micrometer(500+r.Intn(1500))
	w, h := data.Micrometer(1500+r.Intn(2500)), data.Micrometer(1500+r.Intn(3500))
	at := h/2 + data.Micrometer(r.Intn(int(h/4))) - h/8
	e := data.Micrometer(20 + r.Intn(500))
	pt := func(px, py data.Micrometer) data.MicroPoint { return data.NewMicroPoint(x+px, y+py) }
	tie := data.NewBasicLayerPart(data.Path{pt(0, 0), pt(w, at-e), pt(2*w, 0), pt(2*w, h), pt(w, at+e), pt(0, h)}, nil)
	var out []data.PartitionedLayer
	for _, l := range layers {
		parts := append([]data.LayerPart{}, l.LayerParts()...)
		if r.Intn(5) > 0 {
			i := r.Intn(len(parts) + 1)
			parts = append(parts[:i], append([]data.LayerPart{tie}, parts[i:]...)...)
		}
		out = append(out, data.NewPartitionedLayer(parts))
	}
	return out
}

func (c *Case) emitPrint(o *data.Options, start, end []sline, cap *capture, s shift, lo, hi pt2, err error) {
	p, f := o.Print, o.Filament
	e := J{"ev": "plan", "err": err != nil, "msg": "",
		"ew": int(o.Printer.ExtrusionWidth), "th0": int(p.InitialLayerThickness), "th": int(p.LayerThickness), "mult": f.ExtrusionMultiplier, "d": int(f.FilamentDiameter),
		"move": fval(p.MoveSpeed), "first": fval(p.IntialLayerSpeed), "speed": fval(p.LayerSpeed), "outer": fval(p.OuterPerimeterSpeed), "rspeed": fval(f.RetractionSpeed),
		"rlen": int(math.Round(float64(f.RetractionLength) * 10000)), "hop": int(math.Round(float64(f.RetractionZHop) * 1000)),
		"safe": o.Printer.ForceSafeStartStopGCode, "bed": o.Printer.HasHeatedBed, "ibt": f.InitialBedTemperature, "iht": f.InitialHotEndTemperature,
		"bt": f.BedTemperature, "ht": f.HotEndTemperature, "count": f.InitialTemperatureLayerCount,
		"sc": p.BrimSkirt.SkirtCount, "sdist": int(math.Round(float64(p.BrimSkirt.SkirtDistance) * 1000)), "bn": p.BrimSkirt.BrimCount,
		"pct": p.InfillPercent, "deg": p.InfillRotationDegree, "zig": p.InfillZigZag, "spacing": int(math.Round(float64(p.Support.PatternSpacing) * 1000)),
		"start": start, "end": end, "lo": lo, "hi": hi, "layers": []J{}, "hull": []pt2{}, "hpts": []pt2{}, "idist": 0, "n": 0}
	if p.InfillPercent != 0 {
		lines := float64(10000/o.Printer.ExtrusionWidth) * float64(p.InfillPercent) / 100.0
		e["idist"] = int(10000 / lines)
	}
	fan := [][2]int{}
	for k, v := range f.FanSpeed.LayerToSpeedLUT {
		fan = append(fan, [2]int{k, v})
	}
	sort.Slice(fan, func(i, j int) bool { return fan[i][0] < fan[j][0] })
	e["fan"] = fan
	if err != nil {
		e["msg"] = err.Error()
		c.Emit(e)
		return
	}
	ls, hpts := planOf(o, cap.layers, s)
	e["layers"], e["hull"], e["hpts"], e["n"] = ls, hullOf(append([]pt2{}, hpts...)), hpts, len(ls)
	c.Emit(e)
	c.Emit(J{"ev": "planned"})
	scripts := map[string]bool{}
	for _, l := range o.Printer.StartGCode.GCodeLines {
		l = strings.Replace(l, "{print_bed_temperature}", strconv.Itoa(f.InitialBedTemperature), -1)
		scripts[strings.Replace(l, "{print_temperature}", strconv.Itoa(f.InitialHotEndTemperature), -1)] = true
	}
	for _, l := range o.Printer.EndGCode.GCodeLines {
		scripts[l] = true
	}
	c.printed(o, cap.gcode, cap.layers, s, scripts)
}
