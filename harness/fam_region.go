package main

import (
	"math"

	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/modifier"

	"github.com/aligator/goslice"
)

// regionOptions are options which influence the areas.
func (c *Case) regionOptions(narrow bool) data.Options {
	r := c.R
	o := data.DefaultOptions()
	o.GoSlice.Logger = quiet()
	o.GoSlice.InputFilePath = "x.stl"
	p := &o.Print
	o.Printer.ExtrusionWidth = data.Micrometer([]int{400, 400, 200 + r.Intn(500)}[r.Intn(3)])
	p.LayerThickness = data.Micrometer(100 + 20*r.Intn(15))
	p.InsetCount = 1 + r.Intn(3)
	if r.Intn(6) == 0 {
		p.InsetCount = 4 + r.Intn(3)
	}
	p.InfillOverlapPercent = []int{50, 50, 0, 100, r.Intn(150) - 20}[r.Intn(5)]
	p.AdditionalInternalInfillOverlapPercent = []int{400, 400, 0, r.Intn(600), r.Intn(200)}[r.Intn(5)]
	p.InfillPercent = []int{20, 100, 0}[r.Intn(3)]
	p.NumberBottomLayers = r.Intn(5)
	p.NumberTopLayers = r.Intn(5)
	s := &p.Support
	s.Enabled = r.Intn(3) > 0
	s.ThresholdAngle = []int{60, 45, 0, 80, r.Intn(95)}[r.Intn(5)]
	s.TopGapLayers = r.Intn(4)
	s.InterfaceLayers = r.Intn(4)
	s.PatternSpacing = data.Millimeter(float32(4+r.Intn(22)) / 10)
	s.Gap = data.Millimeter(float32(r.Intn(14)) / 10)
	if r.Intn(4) == 0 {
		s.Gap = data.Millimeter(0.6)
	}
	p.BrimSkirt.BrimCount = []int{0, 1, 2, 3}[r.Intn(4)]
	return o
}

// prepared runs the real steps after the slicer up to the generator.
func prepared(o data.Options, layers []data.PartitionedLayer) ([]data.PartitionedLayer, error) {
	s := goslice.NewGoSlice(o)
	cap := &capture{}
	s.Reader, s.Optimizer, s.Slicer, s.Generator, s.Writer = stReader{}, stOpt{}, stSlicer{layers}, cap, stWriter{}
	err := s.Process()
	return cap.layers, err
}

func init() {
	families["region"] = func(c *Case) {
		r := c.R
		narrow := r.Intn(2) == 0
		o := c.regionOptions(narrow)
		var g *gridStack
		limit := int64(8000)
		if c.huge = r.Intn(6) == 0; c.huge {
			limit = 140000
		}
		if c.In != nil {
			// columns of cells from the specification
			ls := c.In["p"].([]interface{})
			nx := int(c.In["n"].(float64))
			g = &gridStack{xs: c.gridLines(nx, narrow, limit), ys: c.gridLines(1, false, limit)}
			for _, l := range ls {
				in := map[[2]int64]bool{}
				for _, q := range l.([]interface{}) {
					in[[2]int64{int64(q.(float64)) - 1, 0}] = true
				}
				g.add(c, in, nx, 1)
			}
			g.place(c)
		} else {
			nx, ny := 1+r.Intn(4), 1+r.Intn(4)
			if narrow {
				nx, ny = 1+r.Intn(5), 1+r.Intn(5)
			}
			n := 1 + r.Intn(6)
			if c.plates = r.Intn(8) == 0; c.plates {
				n = 3 + r.Intn(4)
				o.Print.InsetCount = 1 + r.Intn(2)
				o.Print.AdditionalInternalInfillOverlapPercent = 400 + r.Intn(800)
				o.Print.NumberBottomLayers, o.Print.NumberTopLayers = 1+r.Intn(2), 1+r.Intn(2)
			}
			g = c.randomStack(nx, ny, n, narrow, limit, max64(300, int64(o.Printer.ExtrusionWidth)*int64(2*o.Print.InsetCount-1)))
		}
		// With these options slivers of a micrometre, which come from the rounding of the turned model, would grow.
		if o.Print.Support.Enabled && o.Print.Support.ThresholdAngle < 8 || o.Print.InfillOverlapPercent+o.Print.AdditionalInternalInfillOverlapPercent < 100 {
			g.deg = math.Round(g.deg/90) * 90
		}
		n := len(g.parts)
		input := g.layers(c)
		ls, err := prepared(o, append([]data.PartitionedLayer{}, input...))
		ew := int64(o.Printer.ExtrusionWidth)
		p := o.Print
		dist := int64(math.Round(float64(p.LayerThickness) * math.Tan(float64(p.Support.ThresholdAngle)*math.Pi/180)))
		if dist > 20000 || p.Support.ThresholdAngle >= 90 {
			dist = 20000
		}
		spacing := int64(math.Round(float64(p.Support.PatternSpacing) * 1000))
		gap := int64(math.Round(float64(p.Support.Gap) * 1000))
		e := J{"ev": "region", "err": err != nil, "msg": "", "xs": g.xs, "ys": g.ys, "parts": g.json(), "n": n,
			"ew": ew, "ic": p.InsetCount, "ov": p.InfillOverlapPercent, "add": p.AdditionalInternalInfillOverlapPercent,
			"pct": p.InfillPercent, "nb": p.NumberBottomLayers, "nt": p.NumberTopLayers, "sup": p.Support.Enabled, "d": dist, "steep": p.Support.ThresholdAngle >= 90,
			"tg": p.Support.TopGapLayers, "il": p.Support.InterfaceLayers, "w": spacing * 3 / 2, "gap": gap, "bn": p.BrimSkirt.BrimCount}
		if err != nil {
			e["msg"] = err.Error()
			c.Emit(e)
			return
		}
		e["count"] = len(ls)

		type areas struct {
			walls    [][][]data.LayerPart
			overlap  [][]data.LayerPart
			bottom   []data.LayerPart
			top      []data.LayerPart
			sparse   []data.LayerPart
			normal   []data.LayerPart
			iface    []data.LayerPart
			full     []data.LayerPart
			brim     [][][]data.LayerPart
			brimArea []data.LayerPart
		}
		var as []areas
		shape := []J{}
		for _, l := range ls {
			var a areas
			w, err := modifier.Perimeters(l)
			must(err)
			a.walls = w
			a.overlap, err = modifier.OverlapPerimeters(l)
			must(err)
			a.bottom, err = modifier.BottomInfill(l)
			must(err)
			a.top, err = modifier.TopInfill(l)
			must(err)
			a.sparse, err = modifier.PartsAttribute(l, "infill")
			must(err)
			a.normal, err = modifier.PartsAttribute(l, "support")
			must(err)
			a.iface, err = modifier.PartsAttribute(l, "supportInterface")
			must(err)
			a.full, err = modifier.FullSupport(l)
			must(err)
			b, err := modifier.Brim(l)
			must(err)
			a.brim = b
			a.brimArea, err = modifier.BrimOuterDimension(l)
			must(err)
			as = append(as, a)
			wl := []int{}
			for _, part := range a.walls {
				wl = append(wl, len(part))
			}
			bl := [][]int{}
			for _, part := range a.brim {
				q := []int{}
				for _, ring := range part {
					q = append(q, len(ring))
				}
				bl = append(bl, q)
			}
			shape = append(shape, J{"walls": wl, "overlap": len(a.overlap), "brim": bl, "brimArea": len(a.brimArea),
				"fills": len(a.bottom) + len(a.top) + len(a.sparse), "support": len(a.normal) + len(a.iface)})
		}
		e["shape"] = shape

		// distances from the grid lines at which something is expected to begin or end
		var offs []int64
		d0 := int64(p.InsetCount)*ew - ew/2
		eo := ew * int64(100-p.InfillOverlapPercent) / 200
		grow := ew * int64(p.InfillOverlapPercent+p.AdditionalInternalInfillOverlapPercent-100) / 200
		for i := 0; i < p.InsetCount; i++ {
			offs = append(offs, int64(i)*ew+ew/2)
		}
		offs = append(offs, d0, d0+eo, d0+eo, grow, grow, grow)
		if c.plates && grow > 0 {
			offs = append(offs, r.Int63n(grow+1), r.Int63n(grow+1), r.Int63n(grow+1), r.Int63n(grow+1))
		}
		if p.Support.Enabled {
			offs = append(offs, gap, gap, spacing*3/2, spacing*3/2-dist, dist)
		}
		for i := 1; i <= p.BrimSkirt.BrimCount; i++ {
			offs = append(offs, int64(i)*ew-ew/2, int64(i)*ew)
		}
		on := func(lines []int64) int64 {
			v := lines[r.Intn(len(lines))]
			d := offs[r.Intn(len(offs))]*int64(1-2*r.Intn(2)) + int64(10+r.Intn(70))*int64(1-2*r.Intn(2))
			return v + d
		}
		in := func(lines []int64) int64 {
			switch r.Intn(3) {
			case 0:
				k := r.Intn(len(lines) - 1)
				return (lines[k] + lines[k+1]) / 2
			case 1:
				return on(lines)
			}
			return lines[0] - 3000 + r.Int63n(lines[len(lines)-1]-lines[0]+6000)
		}
		lim := func(v int64) int64 { return max64(-limit-6000, min64(limit+6000, v)) }
		np := 24
		if c.Tier != "quick" {
			np = 40
		}
		probes := []J{}
		for i := 0; i < np; i++ {
			var x, y int64
			switch r.Intn(5) {
			case 0, 1:
				x, y = on(g.xs), in(g.ys)
			case 2, 3:
				x, y = in(g.xs), on(g.ys)
			default:
				x, y = in(g.xs), in(g.ys)
			}
			x, y = lim(x), lim(y)
			rx, ry := g.real(float64(x), float64(y))
			at := func(ps []data.LayerPart) int { return inParts(rx, ry, ps, 3) }
			pl := []J{}
			for _, a := range as {
				ws := [][]int{}
				for _, part := range a.walls {
					q := []int{}
					for _, ring := range part {
						q = append(q, at(ring))
					}
					ws = append(ws, q)
				}
				ov := []int{}
				for _, part := range a.overlap {
					ov = append(ov, at(part))
				}
				pl = append(pl, J{"w": ws, "o": ov, "b": at(a.bottom), "t": at(a.top), "i": at(a.sparse), "s": at(a.normal), "f": at(a.iface), "full": at(a.full)})
			}
			br := [][]int{}
			for _, part := range as[0].brim {
				q := []int{}
				for _, ring := range part {
					q = append(q, at(ring))
				}
				br = append(br, q)
			}
			probes = append(probes, J{"p": pt2{x, y}, "l": pl, "br": br})
		}
		e["probes"] = probes
		c.Emit(e)
	}
}
