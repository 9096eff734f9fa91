package main

import (
	"math"
	"reflect"

	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/gcode"
)

// Random histories and histories from the specification, run on the real builder.
func init() {
	families["builder"] = func(c *Case) {
		r := c.R
		s := shift{r.Int63n(200000) - 20000, r.Int63n(200000) - 20000, 1}
		// the parts of the layer, with all vertices near to the origin
		var layer data.PartitionedLayer
		if r.Intn(2) == 0 {
			var parts []bpart
			for parts == nil || !fits(parts) {
				parts = []bpart{c.randomPart(8000, false)}
			}
			layer = data.NewPartitionedLayer(s.parts(parts))
		} else {
			g := c.randomStack(1+r.Intn(4), 1+r.Intn(4), 1, false, 7000)
			g.s = s
			layer = g.layers(c)[0]
		}
		spot := func() pt2 { return pt2{r.Int63n(18000) - 9000, r.Int63n(18000) - 9000} }
		in := func() pt2 {
			for i := 0; i < 200; i++ {
				p := spot()
				if d, ok := depth(float64(p[0]+s.x), float64(p[1]+s.y), layer.LayerParts()); ok && d > 30 {
					return p
				}
			}
			return spot()
		}
		out := func() pt2 {
			for i := 0; i < 200; i++ {
				p := spot()
				if d, ok := depth(float64(p[0]+s.x), float64(p[1]+s.y), layer.LayerParts()); !ok && d > 30 {
					return p
				}
			}
			return spot()
		}

		o := data.DefaultOptions()
		o.Filament.FilamentDiameter = data.Micrometer([]int{1750, 2850, 1500 + r.Intn(1500)}[r.Intn(3)])
		o.Filament.ExtrusionMultiplier = []int{100, 100, 50 + r.Intn(150)}[r.Intn(3)]
		b := gcode.NewGCodeBuilder(&o)
		c.Emit(J{"ev": "begin", "d": int(o.Filament.FilamentDiameter), "mult": o.Filament.ExtrusionMultiplier})
		seen, pos := 0, pt2{0, 0}
		known := false
		do := func(e J, f func() error) {
			e["ev"], e["err"] = "op", false
			if err := f(); err != nil {
				e["err"] = true
			}
			c.Emit(e)
			ls := glines(b.String())
			for _, l := range ls[seen:] {
				m := gline(l, s)
				if m["ev"] == "mv" {
					q := pos
					if x, ok := m["x"]; ok {
						q[0] = x.(int64)
					}
					if y, ok := m["y"]; ok {
						q[1] = y.(int64)
					}
					m["cr"] = 2
					if known {
						m["cr"] = leaves(float64(pos[0]+s.x), float64(pos[1]+s.y), float64(q[0]+s.x), float64(q[1]+s.y), layer.LayerParts(), 15)
					}
					pos, known = q, true
				}
				c.Emit(m)
			}
			seen = len(ls)
		}
		speed := func() data.Millimeter {
			if r.Intn(3) == 0 {
				return data.Millimeter(float32(10+r.Intn(2000)) / 10)
			}
			return data.Millimeter(float32(1 + r.Intn(200)))
		}
		rate := func(v data.Millimeter) int { return int(math.Round(float64(v) * 60)) }
		setMove := func(v data.Millimeter) {
			do(J{"op": "move", "v": rate(v)}, func() error { b.SetMoveSpeed(v); return nil })
		}
		setPrint := func(v data.Millimeter) {
			do(J{"op": "print", "v": rate(v)}, func() error { b.SetExtrudeSpeed(v); return nil })
		}
		setOver := func(v data.Millimeter) {
			do(J{"op": "over", "v": rate(v)}, func() error { b.SetExtrudeSpeedOverride(v); return nil })
		}
		noOver := func() { do(J{"op": "over", "v": 0}, func() error { b.DisableExtrudeSpeedOverride(); return nil }) }
		setRetr := func(v, n, hop data.Millimeter) {
			do(J{"op": "retr", "v": rate(v), "n": int(math.Round(float64(n) * 10000)), "hop": int(math.Round(float64(hop) * 1000))}, func() error {
				b.SetRetractionSpeed(v)
				b.SetRetractionAmount(n)
				b.SetRetractionZHop(hop)
				return nil
			})
		}
		setExt := func(th, w int) {
			do(J{"op": "ext", "th": th, "w": w}, func() error { b.SetExtrusion(data.Micrometer(th), data.Micrometer(w)); return nil })
		}
		path := func(ps []pt2, z int, judged, open bool) {
			var p data.Path
			for _, q := range ps {
				p = append(p, data.NewMicroPoint(data.Micrometer(q[0]+s.x), data.Micrometer(q[1]+s.y)))
			}
			var l data.PartitionedLayer
			if judged {
				l = layer
			}
			e := J{"op": "path", "pts": ps, "z": z, "judged": judged, "open": open}
			do(e, func() error { return b.AddPolygon(l, p, data.Micrometer(z), open) })
			if len(ps) > 0 { // the argument must not be changed
				after := []pt2{}
				for _, q := range p {
					after = append(after, pt2{int64(q.X()) - s.x, int64(q.Y()) - s.y})
				}
				c.Emit(J{"ev": "arg", "before": ps, "after": after})
			}
		}
		goTo := func(p pt2, z int, ext int, speed data.Millimeter) {
			v := data.NewMicroVec3(data.Micrometer(p[0]+s.x), data.Micrometer(p[1]+s.y), data.Micrometer(z))
			x := data.Millimeter(float32(ext) / 10000)
			do(J{"op": "go", "p": p, "z": z, "e": ext, "v": rate(speed)}, func() error {
				if speed != 0 {
					// whatever number type the speed has
					m := reflect.ValueOf(b).MethodByName("AddMoveSpeed")
					m.Call([]reflect.Value{reflect.ValueOf(v), reflect.ValueOf(x), reflect.ValueOf(speed).Convert(m.Type().In(2))})
				} else {
					b.AddMove(v, x)
				}
				return nil
			})
		}
		text := func() {
			switch r.Intn(3) {
			case 0:
				do(J{"op": "text", "s": "x 5% 7"}, func() error { b.AddComment("x %d%% %v", 5, 7); return nil })
			case 1:
				do(J{"op": "text", "s": "M117 100% {x}"}, func() error { b.AddCommand("%s", "M117 100% {x}"); return nil })
			default:
				do(J{"op": "text", "s": "M106 S7"}, func() error { b.AddCommand("M106 S%d", 7); return nil })
			}
		}

		setExt(100+r.Intn(300), 200+r.Intn(500))
		setMove(speed())
		setPrint(speed())
		on := data.Millimeter(float32(1+r.Intn(60)) / 10)
		if c.In != nil {
			hop := data.Millimeter(float32(r.Intn(20)) / 10 * float32(r.Intn(2)))
			if r.Intn(5) == 0 {
				on = 0
			}
			setRetr(speed(), on, hop)
			heights := []int{150 + r.Intn(300), 500 + r.Intn(300)}
			places := []pt2{in(), in(), out()}
			speeds := []data.Millimeter{speed(), speed()}
			if r.Intn(4) == 0 {
				speeds[1] = speeds[0]
			}
			for _, x := range c.In["ops"].([]interface{}) {
				m := x.(map[string]interface{})
				i := func(k string) int { return int(m[k].(float64)) }
				switch m["op"] {
				case "path":
					var ps []pt2
					for _, q := range m["pts"].([]interface{}) {
						ps = append(ps, places[int(q.(float64))])
					}
					path(ps, heights[i("z")], m["judged"].(bool), !m["closed"].(bool))
				case "go":
					goTo(places[i("p")], heights[i("z")], i("e")*(100+r.Intn(30000)), 0)
				case "move":
					setMove(speeds[i("s")])
				case "print":
					setPrint(speeds[i("s")])
				case "over":
					setOver(speeds[i("s")])
				case "nover":
					noOver()
				case "off":
					setRetr(speed(), 0, hop)
				}
			}
			return
		}
		hops := data.Millimeter(0)
		if r.Intn(2) == 0 {
			hops = data.Millimeter(float32(1+r.Intn(30)) / 10)
		}
		setRetr(speed(), on, hops)
		z := 200
		for i := 2 + r.Intn(20); i > 0; i-- {
			switch k := r.Intn(20); {
			case k == 0:
				setMove(speed())
			case k == 1:
				setPrint(speed())
			case k == 2:
				setOver(speed())
			case k == 3:
				noOver()
			case k == 4:
				a := []data.Millimeter{on, 0, on}[r.Intn(3)]
				v := speed()
				if r.Intn(4) == 0 {
					v = 0
				}
				setRetr(v, a, hops)
			case k == 5:
				setExt(100+r.Intn(300), 200+r.Intn(500))
			case k == 6:
				text()
			case k == 7:
				goTo([]pt2{in(), out(), spot(), pos}[r.Intn(4)], z, 0, 0)
			case k == 8:
				goTo([]pt2{in(), out(), spot(), pos}[r.Intn(4)], z, []int{1, 1, -1}[r.Intn(3)]*(1+r.Intn(40000)), []data.Millimeter{0, 0, speed()}[r.Intn(3)])
			case k == 9:
				z += 50 + r.Intn(400)
			default:
				var ps []pt2
				n := 2 + r.Intn(6)
				where := r.Intn(3)
				for j := 0; j < n; j++ {
					switch {
					case where == 0 || j > 0 && r.Intn(4) == 0:
						ps = append(ps, spot())
					case where == 1:
						ps = append(ps, in())
					default:
						ps = append(ps, out())
					}
				}
				switch r.Intn(8) {
				case 0: // many points near to a line
					a, d := ps[0], ps[1]
					ps = []pt2{a}
					for j := int64(1); j < 20; j++ {
						ps = append(ps, pt2{a[0] + (d[0]-a[0])*j/20 + r.Int63n(30) - 15, a[1] + (d[1]-a[1])*j/20 + r.Int63n(30) - 15})
					}
					ps = append(ps, d)
				case 1: // from where the nozzle is
					if known {
						ps[0] = pos
					}
				case 2: // very short
					for j := 1; j < n; j++ {
						ps[j] = pt2{ps[j-1][0] + r.Int63n(60) - 30, ps[j-1][1] + r.Int63n(60) - 30}
					}
				case 3: // a single point or none
					ps = ps[:r.Intn(2)]
				}
				path(ps, z, r.Intn(4) > 0, r.Intn(2) == 0)
			}
		}
	}
}
