package main

import (
	"math"

	"github.com/aligator/goslice/clip"
	"github.com/aligator/goslice/data"
)

// turn rotates around the origin, independently of the code under test.
func turn(p pt2, deg float64) pt2 {
	d := math.Mod(deg, 360)
	switch d {
	case 0:
		return p
	case 90, -270:
		return pt2{-p[1], p[0]}
	case 180, -180:
		return pt2{-p[0], -p[1]}
	case 270, -90:
		return pt2{p[1], -p[0]}
	}
	s, c := math.Sincos(deg * math.Pi / 180)
	return pt2{int64(math.Round(float64(p[0])*c - float64(p[1])*s)), int64(math.Round(float64(p[0])*s + float64(p[1])*c))}
}
func turns(ps []pt2, deg float64) []pt2 {
	out := []pt2{}
	for _, p := range ps {
		out = append(out, turn(p, deg))
	}
	return out
}
func turnPart(p bpart, deg float64) bpart {
	q := bpart{turns(p.O, deg), [][]pt2{}}
	for _, h := range p.H {
		q.H = append(q.H, turns(h, deg))
	}
	return q
}

func init() {
	families["fill"] = func(c *Case) {
		r := c.R
		var part bpart
		if c.In != nil {
			u := int64(700 + r.Intn(1500))
			cells := cellList(c.In["cells"])
			for _, l := range outlines(cells, u) {
				for i := range l {
					l[i] = pt2{l[i][0] - 3*u/2, l[i][1] - 3*u/2}
				}
				var a int64
				for i, p := range l {
					q := l[(i+1)%len(l)]
					a += p[0]*q[1] - p[1]*q[0]
				}
				if a > 0 {
					part.O = l
				} else {
					part.H = append(part.H, l)
				}
			}
		} else {
			for {
				part = c.randomPart(6000, true)
				ok := true
				for _, q := range part.O {
					if q[0]*q[0]+q[1]*q[1] > 8200*8200 {
						ok = false
					}
				}
				if ok {
					break
				}
			}
		}
		width := int64(100 + r.Intn(700))
		dist := width
		if r.Intn(2) == 0 {
			dist = width * int64(1+r.Intn(6))
		} else if r.Intn(3) == 0 {
			dist = int64(60 + r.Intn(2500))
		}
		degree := []int{0, 90, 45, -45, 180, 30, 270, -90, 360}[r.Intn(9)]
		if r.Intn(3) == 0 {
			degree = r.Intn(720) - 360
		}
		rect, zig, layer := r.Intn(2) == 0, r.Intn(2) == 0, r.Intn(6)
		if r.Intn(60) == 0 {
			dist = -int64(r.Intn(2))
		}
		dir := degree
		if rect && layer%2 == 0 {
			dir += 90
		}
		// the box of the whole model
		lo, hi := pt2{math.MaxInt32, math.MaxInt32}, pt2{math.MinInt32, math.MinInt32}
		for _, q := range part.O {
			lo = pt2{min64(lo[0], q[0]), min64(lo[1], q[1])}
			hi = pt2{max64(hi[0], q[0]), max64(hi[1], q[1])}
		}
		if r.Intn(3) > 0 {
			lo = pt2{max64(-8200, lo[0]-int64(r.Intn(3000))), max64(-8200, lo[1]-int64(r.Intn(3000)))}
			hi = pt2{min64(8200, hi[0]+int64(r.Intn(3000))), min64(8200, hi[1]+int64(r.Intn(3000)))}
		}
		if lo[0] == hi[0] || lo[1] == hi[1] { // an area of nothing within a real box
			lo, hi = pt2{lo[0] - 500, lo[1] - 500}, pt2{hi[0] + 500, hi[1] + 500}
		}
		// Everything is moved away from the origin, the rotation is around the origin.
		s := shift{}
		if r.Intn(2) == 0 {
			s = shift{r.Int63n(200000) - 50000, r.Int63n(200000) - 50000, 1}
		}
		if r.Intn(5) == 0 { // as big as a print bed
			s.k = 2 + r.Int63n(15)
		}
		un := float64(s.unit())
		pt := func(p pt2) data.MicroPoint {
			return data.NewMicroPoint(s.size(p[0])+data.Micrometer(s.x), s.size(p[1])+data.Micrometer(s.y))
		}
		P := s.parts([]bpart{part})[0]
		pat := clip.NewLinearPattern(s.size(width), s.size(dist), pt(lo), pt(hi), degree, rect, zig)
		if r.Intn(2) == 0 { // the pattern is used for several parts and layers
			pat.Fill(layer+1, s.parts([]bpart{part})[0])
		}
		got, err := pat.Fill(layer, P)
		// the frame of the lines, with the corner of the turned box as reference
		corner := func(p pt2) (float64, float64) {
			sn, cs := math.Sincos(float64(dir) * math.Pi / 180)
			return (float64(p[0])*un+float64(s.x))*cs - (float64(p[1])*un+float64(s.y))*sn, (float64(p[0])*un+float64(s.x))*sn + (float64(p[1])*un+float64(s.y))*cs
		}
		x0, x1 := math.Inf(1), math.Inf(-1)
		for _, q := range []pt2{lo, {hi[0], lo[1]}, hi, {lo[0], hi[1]}} {
			x, _ := corner(q)
			x0, x1 = math.Min(x0, x), math.Max(x1, x)
		}
		// local frame: turned, and moved so that the numbers are small
		bx, by := corner(pt2{0, 0})
		ox, oy := math.Round(bx), math.Round(by)
		local := func(p pt2) pt2 {
			x, y := corner(p)
			return pt2{int64(math.Round((x - ox) / un)), int64(math.Round((y - oy) / un))}
		}
		locals := func(ps []pt2) []pt2 {
			out := []pt2{}
			for _, p := range ps {
				out = append(out, local(p))
			}
			return out
		}
		tp := bpart{locals(part.O), [][]pt2{}}
		for _, h := range part.H {
			tp.H = append(tp.H, locals(h))
		}
		lines := [][]pt2{}
		for _, q := range got {
			lines = append(lines, locals(s.loop(q)))
		}
		e := J{"ev": "fill", "raw": norm([]bpart{part})[0], "raw2": s.back([]data.LayerPart{P})[0], "part": tp, "lines": lines,
			"x0": int64(math.Round((x0 - ox) / un)), "x1": int64(math.Round((x1 - ox) / un)), "dist": dist, "width": width, "zig": zig, "rect": rect,
			"degree": degree, "layer": layer, "direction": dir, "err": err != nil, "msg": ""}
		if err != nil {
			e["msg"] = err.Error()
		}
		c.Emit(e)
	}
}
