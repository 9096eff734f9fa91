package main

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/aligator/goslice"
	"github.com/aligator/goslice/data"
)

// Models of all kinds with options of all kinds, from the STL file to the G-code.

// setByName sets an option by the name of its flag.
func setByName(o *data.Options, name, text string) error {
	p, f, b := &o.Print, &o.Filament, &o.Print.BrimSkirt
	targets := map[string]interface{}{
		"meld-distance": &o.Slicing.MeldDistance, "join-polygon-snap-distance": &o.Slicing.JoinPolygonSnapDistance, "finish-polygon-snap-distance": &o.Slicing.FinishPolygonSnapDistance,
		"initial-layer-speed": &p.IntialLayerSpeed, "layer-speed": &p.LayerSpeed, "outer-perimeter-speed": &p.OuterPerimeterSpeed, "move-speed": &p.MoveSpeed,
		"initial-layer-thickness": &p.InitialLayerThickness, "layer-thickness": &p.LayerThickness, "inset-count": &p.InsetCount,
		"infill-overlap-percent": &p.InfillOverlapPercent, "additional-internal-infill-overlap-percent": &p.AdditionalInternalInfillOverlapPercent,
		"infill-percent": &p.InfillPercent, "infill-rotation-degree": &p.InfillRotationDegree, "infill-zig-zag": &p.InfillZigZag,
		"number-bottom-layers": &p.NumberBottomLayers, "number-top-layers": &p.NumberTopLayers,
		"support-enabled": &p.Support.Enabled, "support-threshold-angle": &p.Support.ThresholdAngle, "support-top-gap-layers": &p.Support.TopGapLayers,
		"support-interface-layers": &p.Support.InterfaceLayers, "support-pattern-spacing": &p.Support.PatternSpacing, "support-gap": &p.Support.Gap,
		"skirt-count": &b.SkirtCount, "skirt-distance": &b.SkirtDistance, "brim-count": &b.BrimCount,
		"filament-diameter": &f.FilamentDiameter, "initial-bed-temperature": &f.InitialBedTemperature, "initial-hot-end-temperature": &f.InitialHotEndTemperature,
		"bed-temperature": &f.BedTemperature, "hot-end-temperature": &f.HotEndTemperature, "initial-temperature-layer-count": &f.InitialTemperatureLayerCount,
		"retraction-speed": &f.RetractionSpeed, "retraction-length": &f.RetractionLength, "retraction-z-hop": &f.RetractionZHop,
		"fan-speed": &f.FanSpeed, "extrusion-multiplier": &f.ExtrusionMultiplier, "extrusion-width": &o.Printer.ExtrusionWidth,
		"force-safe-gcode": &o.Printer.ForceSafeStartStopGCode, "has-heated-bed": &o.Printer.HasHeatedBed,
	}
	if name == "center" {
		v := data.NewMicroVec3(0, 0, 0)
		err := v.(setter).Set(text)
		o.Printer.Center = v
		return err
	}
	switch t := targets[name].(type) {
	case *int:
		n, err := strconv.Atoi(text)
		*t = n
		return err
	case *bool:
		*t = text == "true"
		return nil
	case setter:
		if name == "fan-speed" {
			f.FanSpeed = data.FanSpeedOptions{LayerToSpeedLUT: map[int]int{}}
		}
		return t.Set(text)
	}
	panic(name)
}

// block gives the faces of a box.
func block(x0, y0, z0, x1, y1, z1 int64) (fs [][3]ivec) {
	v := func(i int) ivec {
		p := ivec{x0, y0, z0}
		if i&1 > 0 {
			p[0] = x1
		}
		if i&2 > 0 {
			p[1] = y1
		}
		if i&4 > 0 {
			p[2] = z1
		}
		return p
	}
	for _, q := range [][4]int{{0, 2, 3, 1}, {4, 5, 7, 6}, {0, 1, 5, 4}, {2, 6, 7, 3}, {0, 4, 6, 2}, {1, 3, 7, 5}} {
		fs = append(fs, [3]ivec{v(q[0]), v(q[1]), v(q[2])}, [3]ivec{v(q[0]), v(q[2]), v(q[3])})
	}
	return
}

// wild makes the faces of a model of a kind. Within full (heights) there is a wide solid.
func (c *Case) wild(kind string) (fs [][3]ivec, full [][2]int64) {
	r := c.R
	n := func(lo, hi int64) int64 { return lo + r.Int63n(hi-lo+1) }
	h := n(400, 1500)
	w, d := n(2500, 4000), n(2500, 4000)
	switch kind {
	case "box":
		return block(0, 0, 0, w, d, h), [][2]int64{{0, h}}
	case "boxes": // two of them beside each other
		return append(block(0, 0, 0, w, d, h), block(w+300, 0, 0, 2*w, d, h/2)...), [][2]int64{{0, h}}
	case "floating": // nothing between
		g := h + n(250, 700)
		return append(block(0, 0, 0, w, d, h), block(0, 0, g, w, d, g+600)...), [][2]int64{{0, h}, {g, g + 600}}
	case "thin":
		t := n(1, 150)
		return block(0, 0, 0, w, d, t), nil
	case "wide":
		return block(0, 0, 0, n(40000, 90000), n(40000, 90000), 450), [][2]int64{{0, 450}}
	case "solid":
		return c.solidFaces(2500, 3), nil
	case "open":
		fs = c.solidFaces(2000, 3)
		return fs[:len(fs)-1-r.Intn(len(fs)/2)], nil
	case "ring":
		fs = block(0, 0, 0, w, d, h)
		for _, f := range block(900, 900, 0, w-900, d-900, h) { // a shaft through everything
			if f[0][2] != f[1][2] || f[1][2] != f[2][2] {
				fs = append(fs, [3]ivec{f[0], f[2], f[1]})
			}
		}
		return fs, nil
	case "soup":
		p := func() ivec { return ivec{n(0, 3000), n(0, 3000), n(0, 1200)} }
		for i := 3 + r.Intn(30); i > 0; i-- {
			fs = append(fs, [3]ivec{p(), p(), p()})
		}
		return fs, nil
	case "single":
		return [][3]ivec{{{0, 0, 0}, {n(0, 3000), n(0, 3000), n(0, 1000)}, {n(0, 3000), n(0, 3000), n(0, 1000)}}}, nil
	case "flat":
		for _, f := range block(0, 0, 0, w, d, 0) {
			fs = append(fs, f)
		}
		return fs, nil
	case "wall": // without thickness
		return block(0, 0, 0, w, 0, h), nil
	case "needle":
		t := n(31, 200)
		return block(0, 0, 0, t, t, h), nil
	case "tiny":
		return block(0, 0, 0, n(0, 40), n(0, 40), n(0, 300)), nil
	case "dup":
		fs = block(0, 0, 0, w, d, h)
		for i := 0; i < 5; i++ {
			fs = append(fs, fs[r.Intn(12)])
		}
		return fs, nil
	case "collapsed": // faces without extent among others
		fs = block(0, 0, 0, w, d, h)
		p := fs[r.Intn(12)]
		return append(fs, [3]ivec{p[0], p[0], p[1]}, [3]ivec{p[2], p[2], p[2]}, [3]ivec{p[0], p[1], {(p[0][0] + p[1][0]) / 2, (p[0][1] + p[1][1]) / 2, (p[0][2] + p[1][2]) / 2}}), nil
	case "flipped":
		for _, f := range c.solidFaces(2000, 3) {
			if r.Intn(2) == 0 {
				f[0], f[1] = f[1], f[0]
			}
			fs = append(fs, f)
		}
		return fs, nil
	case "touching": // along an edge or a side, or in a corner
		switch r.Intn(3) {
		case 0:
			return append(block(0, 0, 0, w, d, h), block(w, d, 0, w+2000, d+2000, h)...), nil
		case 1:
			return append(block(0, 0, 0, w, d, h), block(w, 0, 0, w+2000, d, h)...), nil
		}
		return append(block(0, 0, 0, w, d, h), block(w/4, d/4, h, w, d, h+500)...), nil
	case "overlap":
		return append(block(0, 0, 0, w, d, h), block(w/2, d/2, h/2, w+1500, d+1500, h+300)...), nil
	case "cone":
		k := 3 + r.Intn(12)
		at := func(i int) ivec {
			a := 2 * math.Pi * float64(i%k) / float64(k)
			return ivec{int64(2000 * math.Cos(a)), int64(2000 * math.Sin(a)), 0}
		}
		for i := 0; i < k; i++ {
			fs = append(fs, [3]ivec{at(i), at(i + 1), {0, 0, h}}, [3]ivec{at(i + 1), at(i), {0, 0, 0}})
		}
		return fs, nil
	case "upside": // stands on its tip
		for i := 0; i < 4; i++ {
			q := [][2]int64{{-1, -1}, {1, -1}, {1, 1}, {-1, 1}}
			a, b := q[i], q[(i+1)%4]
			fs = append(fs, [3]ivec{{a[0] * 1800, a[1] * 1800, h}, {b[0] * 1800, b[1] * 1800, h}, {0, 0, 0}}, [3]ivec{{b[0] * 1800, b[1] * 1800, h}, {a[0] * 1800, a[1] * 1800, h}, {0, 0, h}})
		}
		return fs, nil
	case "strips": // thinner than lines
		for i := int64(0); i < 4; i++ {
			fs = append(fs, block(i*700, 0, 0, i*700+n(40, 350), d, h)...)
		}
		return fs, nil
	}
	panic(kind)
}

var (
	noNumber  = regexp.MustCompile(`(?i)nan|inf`)
	anyMove   = regexp.MustCompile(`^G[01] `)
	zWord     = regexp.MustCompile(` Z(-?[0-9.]+)`)
	xyWord    = regexp.MustCompile(` [XY]`)
	panicText = regexp.MustCompile(`(?m)^panic:|^goroutine [0-9]|^fatal error:|runtime error`)
)

// outline of the G-code: what happens in which order, without the single moves.
func (c *Case) outlineOf(o *data.Options, g string) {
	custom := map[string]bool{}
	for _, l := range append(append([]string{}, o.Printer.StartGCode.GCodeLines...), o.Printer.EndGCode.GCodeLines...) {
		custom[l] = true
	}
	zs := map[int]bool{}
	prints := 0
	var cur J
	close := func() {
		if cur != nil {
			l := []int{}
			for z := range zs {
				l = append(l, z)
			}
			cur["prints"], cur["zs"] = prints, l
			c.Emit(cur)
		}
		zs, prints = map[int]bool{}, 0
	}
	odd := []string{}
	for _, l := range glines(g) {
		switch {
		case strings.HasPrefix(l, ";"):
			if m := layerComment.FindStringSubmatch(l[1:]); m != nil {
				close()
				n, _ := strconv.Atoi(m[1])
				cur = J{"ev": "layer", "n": n}
			} else if l == ";END_GCODE" {
				close()
				cur = J{"ev": "end"}
			}
		case moveLine.MatchString(l):
			if cur == nil || cur["ev"] == "end" && !custom[l] {
				odd = append(odd, l)
			}
			if strings.HasPrefix(l, "G1") && xyWord.MatchString(l) {
				prints++
			}
			if m := zWord.FindStringSubmatch(l); m != nil {
				z, _ := strconv.ParseFloat(m[1], 64)
				zs[int(math.Round(z*1000))] = true
			}
		case custom[l]:
		case anyMove.MatchString(l) || !cmdLine.MatchString(l) || noNumber.MatchString(l):
			odd = append(odd, l)
		}
		if len(odd) > 3 {
			break
		}
	}
	close()
	c.Emit(J{"ev": "done", "odd": odd})
}

func init() {
	families["robust"] = func(c *Case) {
		r := c.R
		kind := []string{"box", "boxes", "floating", "thin", "wide", "solid", "open", "ring", "soup", "single", "flat", "wall", "needle", "tiny", "dup", "collapsed", "flipped", "touching", "overlap", "cone", "upside", "strips"}[r.Intn(22)]
		o := data.DefaultOptions()
		o.GoSlice.Logger = quiet()
		set := [][]string{}
		if c.In != nil {
			kind = c.In["kind"].(string)
			for _, v := range c.In["set"].([]interface{}) {
				q := v.([]interface{})
				set = append(set, []string{q[0].(string), q[1].(string), q[2].(string)})
			}
		} else { // usual options with some unusual values
			o = c.sliceOptions()
			o.GoSlice.Logger = quiet()
			names := []string{}
			for name := range valueFlags {
				names = append(names, name)
			}
			sort.Strings(names)
			for _, name := range names {
				t := valueFlags[name]
				if r.Intn(20) > 0 || name == "output" {
					continue
				}
				v := ""
				switch t {
				case "um":
					v = []string{"-1", "0", "1", "17", "100000", strconv.Itoa(r.Intn(3000))}[r.Intn(6)]
				case "mm":
					v = []string{"-1", "0", "0.001", "0.5", "30", strconv.Itoa(r.Intn(60))}[r.Intn(6)]
				case "int":
					v = []string{"-1", "0", "1", "2", "30", strconv.Itoa(r.Intn(400) - 100)}[r.Intn(6)]
				case "bool":
					v = []string{"true", "false"}[r.Intn(2)]
				default:
					continue
				}
				if (name == "skirt-count" || name == "brim-count") && len(v) > 2 {
					continue
				}
				set = append(set, []string{name, v, "odd"})
			}
			if len(set) == 0 {
				set = append(set, []string{"infill-percent", strconv.Itoa(r.Intn(200)), "odd"})
			}
		}
		fs, full := c.wild(kind)
		usual := kind
		if c.In != nil && r.Intn(3) == 0 {
			o.Print.Support.Enabled = true
		}
		for _, s := range set {
			must(setByName(&o, s[0], s[1]))
		}
		// nothing which takes ages: the models are a few millimetres big
		if o.Print.LayerThickness > 0 && o.Print.LayerThickness < 100 && kind == "wide" || o.Printer.ExtrusionWidth < 100 && kind == "wide" || kind == "wide" && o.Print.InfillPercent > 200 {
			kind, usual = "box", "box"
			fs, full = c.wild(kind)
		}
		if o.Printer.ExtrusionWidth > 0 && o.Printer.ExtrusionWidth < 30 {
			o.Printer.ExtrusionWidth += 30
		}
		if o.Print.LayerThickness > 0 && o.Print.LayerThickness < 50 && (o.Printer.ExtrusionWidth < 100 || o.Print.Support.Enabled) {
			o.Print.LayerThickness += 50
		}
		if t := o.Print.Support.PatternSpacing; t > 0.0005 && t < 0.05 {
			o.Print.Support.PatternSpacing += 0.05
		}
		dir := c.dir()
		defer os.RemoveAll(dir)
		in, out := filepath.Join(dir, "m.stl"), filepath.Join(dir, "o.gcode")
		off := ivec{r.Int63n(100000) - 50000, r.Int63n(100000) - 50000, r.Int63n(20000) - 10000}
		lowest := int64(math.MaxInt64)
		for i := range fs {
			for k := range fs[i] {
				for a := 0; a < 3; a++ {
					fs[i][k][a] += off[a]
				}
				lowest = min64(lowest, fs[i][k][2])
			}
		}
		stl(in, c.shuffleFaces(fs))
		o.GoSlice.InputFilePath, o.GoSlice.OutputFilePath = in, out
		sl := goslice.NewGoSlice(o)
		w := &watch{next: sl.Optimizer}
		cap := &capture{next: sl.Generator}
		sl.Optimizer, sl.Generator = w, cap
		err := sl.Process()
		e := J{"ev": "ask", "kind": usual, "set": set, "th0": int(o.Print.InitialLayerThickness), "th": int(o.Print.LayerThickness), "hop": int(math.Round(float64(o.Filament.RetractionZHop) * 1000)),
			"err": err != nil, "msg": "", "zmax": 0, "bottom": 0, "file": false, "full": [][2]int64{}, "walls": []int{}, "mult": o.Filament.ExtrusionMultiplier}
		if err != nil {
			e["msg"] = err.Error()
		}
		b, ferr := os.ReadFile(out)
		e["file"] = ferr == nil
		if err == nil {
			e["zmax"] = int(w.got.Max().Z())
			bottom := int64(o.Printer.Center.Z())
			e["bottom"] = bottom
			fl := [][2]int64{}
			for _, q := range full {
				fl = append(fl, [2]int64{q[0] + bottom, q[1] + bottom})
			}
			e["full"] = fl
			plan, _ := planOf(&o, cap.layers, shift{})
			walls := []int{}
			for _, l := range plan {
				k := 0
				for _, p := range l["paths"].([]ppath) {
					lo, hi := pt2{math.MaxInt64, math.MaxInt64}, pt2{math.MinInt64, math.MinInt64}
					for _, q := range p.Pts {
						lo = pt2{min64(lo[0], q[0]), min64(lo[1], q[1])}
						hi = pt2{max64(hi[0], q[0]), max64(hi[1], q[1])}
					}
					if p.K != "SKIRT" && hi[0]-lo[0]+hi[1]-lo[1] > 60 {
						k++
					}
				}
				walls = append(walls, k)
			}
			e["walls"] = walls
		}
		c.Emit(e)
		if err == nil {
			c.outlineOf(&o, string(b))
		}
		if os.Getenv("GOSLICE_BIN") != "" && r.Intn(4) == 0 {
			out2 := filepath.Join(dir, "p.gcode")
			code, text := c.program(o, in, out2)
			b2, ferr2 := os.ReadFile(out2)
			if len(text) > 300 {
				text = text[len(text)-300:]
			}
			c.Emit(J{"ev": "program", "code": code, "panic": panicText.MatchString(text), "says": strings.Contains(text, "error while processing file"), "file": ferr2 == nil,
				"same": string(b) == string(b2), "err": err != nil, "text": fmt.Sprint(text)})
		}
	}
}
