package main

import (
	"encoding/json"
	"fmt"
	"math"

	"github.com/aligator/goslice/clip"
	"github.com/aligator/goslice/data"
)

// bpart is a part as plain coordinates, O counter-clockwise, H clockwise if nothing else is wanted.
type bpart struct {
	O []pt2   `json:"o"`
	H [][]pt2 `json:"h"`
}

// shift is where the coordinates of a trace are in the real code: k micrometres are one unit (0: 1).
type shift struct{ x, y, k int64 }

func (s shift) unit() int64 { return max64(1, s.k) }
func (s shift) size(v int64) data.Micrometer {
	return data.Micrometer(v * s.unit())
}

// own is a coordinate as unit.
func (s shift) own(v data.Micrometer, o int64) int64 {
	return int64(math.Floor(float64(int64(v)-o)/float64(s.unit()) + 0.5))
}

func (s shift) path(p []pt2) data.Path {
	out := data.Path{}
	for _, q := range p {
		out = append(out, data.NewMicroPoint(s.size(q[0])+data.Micrometer(s.x), s.size(q[1])+data.Micrometer(s.y)))
	}
	return out
}
func (s shift) paths(ps [][]pt2) data.Paths {
	var out data.Paths
	for _, p := range ps {
		out = append(out, s.path(p))
	}
	return out
}
func (s shift) parts(ps []bpart) []data.LayerPart {
	if ps == nil {
		return nil
	}
	out := []data.LayerPart{}
	for _, p := range ps {
		out = append(out, data.NewBasicLayerPart(s.path(p.O), s.paths(p.H)))
	}
	return out
}
func (s shift) loop(p data.Path) []pt2 {
	out := []pt2{}
	for _, q := range p {
		out = append(out, pt2{s.own(q.X(), s.x), s.own(q.Y(), s.y)})
	}
	return out
}
func (s shift) loops(p data.Paths) [][]pt2 {
	out := [][]pt2{}
	for _, q := range p {
		out = append(out, s.loop(q))
	}
	return out
}
func (s shift) back(ps []data.LayerPart) []bpart {
	out := []bpart{}
	for _, p := range ps {
		out = append(out, bpart{s.loop(p.Outline()), s.loops(p.Holes())})
	}
	return out
}

func rev(p []pt2) []pt2 {
	out := make([]pt2, len(p))
	for i, q := range p {
		out[len(p)-1-i] = q
	}
	return out
}

func norm(ps []bpart) []bpart {
	out := []bpart{}
	for _, p := range ps {
		q := bpart{append([]pt2{}, p.O...), [][]pt2{}}
		for _, h := range p.H {
			q.H = append(q.H, append([]pt2{}, h...))
		}
		out = append(out, q)
	}
	return out
}

// outlines walks around a set of unit cells, interior to the left. Cells which touch at a corner only stay separate.
func outlines(cells [][2]int64, u int64) [][]pt2 {
	in := map[[2]int64]bool{}
	for _, c := range cells {
		in[c] = true
	}
	type edge struct{ a, b pt2 }
	var es []edge
	for _, c := range cells {
		x, y := c[0], c[1]
		if !in[[2]int64{x, y - 1}] {
			es = append(es, edge{pt2{x, y}, pt2{x + 1, y}})
		}
		if !in[[2]int64{x + 1, y}] {
			es = append(es, edge{pt2{x + 1, y}, pt2{x + 1, y + 1}})
		}
		if !in[[2]int64{x, y + 1}] {
			es = append(es, edge{pt2{x + 1, y + 1}, pt2{x, y + 1}})
		}
		if !in[[2]int64{x - 1, y}] {
			es = append(es, edge{pt2{x, y + 1}, pt2{x, y}})
		}
	}
	used := make([]bool, len(es))
	var out [][]pt2
	for i := range es {
		if used[i] {
			continue
		}
		var lp []pt2
		k := i
		for {
			used[k] = true
			e := es[k]
			dx, dy := e.b[0]-e.a[0], e.b[1]-e.a[1]
			next, best := -1, -2
			for j, f := range es {
				if used[j] && j != i || f.a != e.b {
					continue
				}
				fx, fy := f.b[0]-f.a[0], f.b[1]-f.a[1]
				turn := int(dx*fy - dy*fx) // 1: left
				if turn > best {
					next, best = j, turn
				}
			}
			if next < 0 {
				panic("open outline")
			}
			if best != 0 {
				lp = append(lp, pt2{e.b[0] * u, e.b[1] * u})
			}
			if next == i {
				break
			}
			k = next
		}
		out = append(out, lp)
	}
	return out
}

func cellList(v interface{}) [][2]int64 {
	var out [][2]int64
	for _, c := range v.([]interface{}) {
		p := c.([]interface{})
		out = append(out, [2]int64{int64(p[0].(float64)), int64(p[1].(float64))})
	}
	return out
}

func (c *Case) reorder(p []pt2, flip bool) []pt2 {
	if len(p) == 0 {
		return p
	}
	k := c.R.Intn(len(p))
	out := append(append([]pt2{}, p[k:]...), p[:k]...)
	if flip {
		out = rev(out)
	}
	return out
}

// randomPart makes a part with some holes.
func (c *Case) randomPart(box int64, messy bool) bpart {
	r := c.R
	cx, cy := float64(r.Int63n(box+1)-box/2), float64(r.Int63n(box+1)-box/2)
	at := func(p [][2]float64, ox, oy float64) []pt2 {
		var out []pt2
		for _, q := range p {
			out = append(out, pt2{int64(math.Round(q[0] + ox)), int64(math.Round(q[1] + oy))})
		}
		return out
	}
	switch k := r.Intn(10); {
	case k < 2: // a rectangle on a coarse grid
		g := int64(1000)
		x, y := (r.Int63n(9)-4)*g, (r.Int63n(9)-4)*g
		w, h := (1+r.Int63n(4))*g, (1+r.Int63n(4))*g
		p := bpart{O: []pt2{{x, y}, {x + w, y}, {x + w, y + h}, {x, y + h}}}
		if w > 2*g && h > 2*g && r.Intn(2) == 0 {
			p.H = [][]pt2{rev([]pt2{{x + g, y + g}, {x + w - g, y + g}, {x + w - g, y + h - g}, {x + g, y + h - g}})}
		}
		return p
	case k == 2 && messy: // a sliver
		x, y := int64(cx)/2, int64(cy)/2
		return bpart{O: []pt2{{x, y}, {x + 5000, y + r.Int63n(300)}, {x + 5000, y + 300 + r.Int63n(300)}}}
	case k == 3 && messy: // without any area
		x, y := int64(cx)/2, int64(cy)/2
		return bpart{O: []pt2{{x, y}, {x + 2000, y}, {x + 1000, y}}}
	}
	rad := 1500 + r.Float64()*4500
	base := c.star(3+r.Intn(9), rad, 0.4+0.5*r.Float64())
	p := bpart{O: at(base, cx/2, cy/2)}
	if in := inner(base) * 0.8; in > 600 && r.Intn(2) == 0 {
		if r.Intn(2) == 0 {
			p.H = append(p.H, rev(at(c.star(3+r.Intn(5), in*0.45, 0.6), cx/2+in*0.5, cy/2)))
			p.H = append(p.H, rev(at(c.star(3+r.Intn(5), in*0.45, 0.6), cx/2-in*0.5, cy/2)))
		} else {
			p.H = append(p.H, rev(at(c.star(3+r.Intn(6), in, 0.5), cx/2, cy/2)))
		}
	}
	return p
}

// samples are points around the parts.
func (c *Case) samples(n int, dists []int64, lists ...[]bpart) []pt2 {
	r := c.R
	out := []pt2{}
	var ls [][]pt2
	lo, hi := pt2{math.MaxInt32, math.MaxInt32}, pt2{math.MinInt32, math.MinInt32}
	for _, l := range lists {
		for _, p := range l {
			for _, q := range append([][]pt2{p.O}, p.H...) {
				if len(q) > 0 {
					ls = append(ls, q)
				}
				for _, v := range q {
					lo = pt2{min64(lo[0], v[0]), min64(lo[1], v[1])}
					hi = pt2{max64(hi[0], v[0]), max64(hi[1], v[1])}
				}
			}
		}
	}
	if len(ls) == 0 {
		return out
	}
	for len(out) < n {
		var p pt2
		if r.Intn(2) == 0 {
			p = pt2{lo[0] - 200 + r.Int63n(hi[0]-lo[0]+400), lo[1] - 200 + r.Int63n(hi[1]-lo[1]+400)}
		} else {
			l := ls[r.Intn(len(ls))]
			i := r.Intn(len(l))
			a, b := l[i], l[(i+1)%len(l)]
			t := r.Float64()
			if r.Intn(3) == 0 {
				t = float64(r.Intn(2))
			}
			d := float64(6 + r.Intn(20))
			if len(dists) > 0 && r.Intn(4) != 0 {
				d = float64(dists[r.Intn(len(dists))] + int64(r.Intn(41)-20))
			}
			phi := r.Float64() * 2 * math.Pi
			if r.Intn(2) == 0 {
				phi = math.Atan2(float64(b[1]-a[1]), float64(b[0]-a[0])) + math.Pi/2*float64(1+2*r.Intn(2))
			}
			p = pt2{int64(float64(a[0]) + t*float64(b[0]-a[0]) + d*math.Cos(phi)), int64(float64(a[1]) + t*float64(b[1]-a[1]) + d*math.Sin(phi))}
		}
		if p[0] < -12400 || p[0] > 12400 || p[1] < -12400 || p[1] > 12400 {
			continue
		}
		out = append(out, p)
	}
	return out
}

func fits(ps []bpart) bool {
	for _, p := range ps {
		for _, l := range append([][]pt2{p.O}, p.H...) {
			for _, q := range l {
				if q[0] < -12300 || q[0] > 12300 || q[1] < -12300 || q[1] > 12300 {
					return false
				}
			}
		}
	}
	return true
}

func (c *Case) boolOps(a, b []bpart, s shift, e J, npts int) {
	cl := clip.NewClipper()
	A, B := s.parts(a), s.parts(b)
	e["ev"], e["a"], e["b"] = "bool", norm(a), norm(b)
	res, oks := J{}, J{}
	var ok bool
	var x []data.LayerPart
	x, ok = cl.Difference(A, B)
	res["difference"], oks["difference"] = s.back(x), ok
	x, ok = cl.Intersection(A, B)
	res["intersection"], oks["intersection"] = s.back(x), ok
	x, ok = cl.Union(A, B)
	res["union"], oks["union"] = s.back(x), ok
	e["res"], e["ok"] = res, oks
	e["a2"], e["b2"] = s.back(A), s.back(B)
	e["pts"] = c.samples(npts, nil, a, b)
	// Where whole edges lie on one another, clipper may return one outline which runs over itself:
	// it covers the right places, but cannot be measured by its signed area.
	e["areas"] = e["cells"] == nil
	for _, p := range append(append([]bpart{}, a...), b...) {
		if p.O[0][0]%500 == 0 && p.O[0][1]%500 == 0 { // rectangles on the grid
			e["areas"] = false
		}
	}
	if e["areas"] == true {
		x, _ = cl.Union(A, nil)
		e["ca"] = s.back(x)
		x, _ = cl.Union(B, []data.LayerPart{})
		e["cb"] = s.back(x)
	}
	c.Emit(e)
}

func (c *Case) anyShift() shift {
	if c.R.Intn(3) == 0 {
		return shift{}
	}
	return shift{c.R.Int63n(400000) - 200000, c.R.Int63n(400000) - 200000, 1}
}

func init() {
	families["clip"] = func(c *Case) {
		r := c.R
		s := c.anyShift()
		cl := clip.NewClipper()
		// as big as a print bed: what is judged is coarser then
		huge := []int64{1, 1, 1, 1, 2 + r.Int63n(12)}[r.Intn(5)]
		if c.In != nil {
			u := int64(400 + r.Intn(1200))
			s.k = huge
			list := func(v interface{}) ([]bpart, [][2]int64) {
				out := []bpart{}
				cover := map[[2]int64]bool{}
				for _, x := range v.([]interface{}) {
					m := x.(map[string]interface{})
					cells := cellList(m["out"])
					p := bpart{O: c.reorder(outlines(cells, u)[0], r.Intn(3) == 0), H: [][]pt2{}}
					hole := map[[2]int64]bool{}
					for _, h := range m["holes"].([]interface{}) {
						hc := cellList(h)
						p.H = append(p.H, c.reorder(outlines(hc, u)[0], r.Intn(3) != 0))
						for _, q := range hc {
							hole[q] = true
						}
					}
					for _, q := range cells {
						if !hole[q] {
							cover[q] = true
						}
					}
					out = append(out, p)
				}
				cs := [][2]int64{}
				for q := range cover {
					cs = append(cs, q)
				}
				return out, cs
			}
			a, ca := list(c.In["a"])
			b, cb := list(c.In["b"])
			if len(a) == 0 && r.Intn(2) == 0 {
				a = nil
			}
			if len(b) == 0 && r.Intn(2) == 0 {
				b = nil
			}
			c.boolOps(a, b, s, J{"cells": J{"a": ca, "b": cb, "u": u}}, 12)
			return
		}
		kind := r.Intn(12)
		if kind < 9 {
			s.k = huge
		}
		switch kind {
		case 11: // edges which almost lie on one another, points moved a little together
			a, b := c.tight()
			c.boolOps(a, b, s, J{}, 30)
		case 9, 10: // a turned grid: edges on the same line, up to rounding
			for {
				g := c.randomStack(1+r.Intn(4), 1+r.Intn(4), 2, r.Intn(3) == 0, 8000)
				g.deg = float64(r.Intn(360))
				g.s = s
				l := g.layers(c)
				a, b := s.back(l[0].LayerParts()), s.back(l[1].LayerParts())
				if fits(a) && fits(b) {
					c.boolOps(a, b, s, J{}, 30)
					break
				}
			}
		case 0, 1: // any lists
			var a, b []bpart
			for {
				a, b = nil, nil
				for i := r.Intn(4); i > 0; i-- {
					a = append(a, c.randomPart(16000, true))
				}
				if r.Intn(3) == 0 { // around everything
					a = append(a, bpart{O: []pt2{{-12200, -12200}, {12200, -12200}, {12200, 12200}, {-12200, 12200}}})
				}
				for i := r.Intn(4); i > 0; i-- {
					b = append(b, c.randomPart(16000, true))
				}
				if fits(a) && fits(b) {
					break
				}
			}
			for _, l := range [][]bpart{a, b} {
				for i := range l {
					l[i].O = c.reorder(l[i].O, r.Intn(3) == 0)
					for j := range l[i].H {
						l[i].H[j] = c.reorder(l[i].H[j], r.Intn(3) == 0)
					}
				}
			}
			c.boolOps(a, b, s, J{}, 50)
		case 2, 3: // growing and shrinking
			var p bpart
			for {
				p = c.randomPart(8000, false)
				if fits([]bpart{p}) {
					break
				}
			}
			if r.Intn(4) == 0 { // everything the other way round
				p.O = rev(p.O)
				for i := range p.H {
					p.H[i] = rev(p.H[i])
				}
			}
			p.O = c.reorder(p.O, false)
			off := int64(r.Intn(900) + 50)
			count := 1 + r.Intn(4)
			ini := -off / 2
			switch r.Intn(5) {
			case 0: // growing
				off, ini = -off, off/2
			case 1:
				ini = int64(r.Intn(1500) - 900)
				count = 1
			case 2:
				ini = -off
			case 3:
				ini = 0
			}
			if r.Intn(8) == 0 {
				count = 0
			}
			var dists []int64
			for n := 0; n < count; n++ {
				d := ini - int64(n)*off
				dists = append(dists, max64(d, -d))
			}
			P := s.parts([]bpart{p})[0]
			res := [][]bpart{}
			for _, x := range cl.Inset(P, s.size(off), count, s.size(ini)) {
				res = append(res, s.back(x))
			}
			c.Emit(J{"ev": "inset", "part": norm([]bpart{p})[0], "part2": s.back([]data.LayerPart{P})[0], "offset": off, "init": ini, "count": count,
				"res": res, "pts": c.samples(40, dists, []bpart{p})})
		case 4: // several parts at once
			var a []bpart
			for i := r.Intn(4); i > 0; i-- {
				a = append(a, c.randomPart(16000, false))
			}
			off, count, ini := int64(r.Intn(900)-200), r.Intn(4), int64(r.Intn(600)-500)
			A := s.parts(a)
			got := cl.InsetLayer(A, s.size(off), count, s.size(ini))
			res, single, flat1 := [][][]bpart{}, [][][]bpart{}, []bpart{}
			for _, p := range got {
				y := [][]bpart{}
				for _, q := range p {
					y = append(y, s.back(q))
				}
				res = append(res, y)
			}
			for _, p := range s.parts(a) {
				y := [][]bpart{}
				for _, q := range cl.Inset(p, s.size(off), count, s.size(ini)) {
					y = append(y, s.back(q))
					flat1 = append(flat1, s.back(q)...)
				}
				single = append(single, y)
			}
			each := []bpart{}
			got.ForEach(func(p data.LayerPart, partNr, insetNr, insetPartsNr int) bool {
				if fmt.Sprint(s.back([]data.LayerPart{got[partNr][insetNr][insetPartsNr]})) != fmt.Sprint(s.back([]data.LayerPart{p})) {
					panic("ForEach gives wrong numbers")
				}
				each = append(each, s.back([]data.LayerPart{p})...)
				return false
			})
			c.Emit(J{"ev": "insetlayer", "res": digest(res), "single": digest(single), "flat": digests(s.back(got.ToOneDimension())), "single_flat": digests(flat1), "each": digests(each)})
		case 5: // the hull
			var a []bpart
			for {
				a = nil
				for i := 1 + r.Intn(4); i > 0; i-- {
					a = append(a, c.randomPart(16000, false))
				}
				if fits(a) {
					break
				}
			}
			A := s.parts(a)
			h, ok := cl.Hull(A)
			outs, outs2 := [][]pt2{}, [][]pt2{}
			for i := range a {
				outs = append(outs, a[i].O)
				outs2 = append(outs2, s.loop(A[i].Outline()))
			}
			c.Emit(J{"ev": "hull", "outs": outs, "outs2": outs2, "hull": s.loop(h), "ok": ok})
		case 6: // nested outlines: top level and partitioning
			var polys [][]pt2
			var shells []*shell
			n := 1 + r.Intn(4)
			for i := 0; i < n; i++ {
				rad, ox, oy := 10500.0, 0.0, 0.0
				if n > 1 {
					rad, ox, oy = 4600, float64(i%2)*11000-5500, float64(i/2)*11000-5500
				}
				shells = c.nest(shells, ox, oy, rad, []int64{0, 1}, []xform{{s: 1}, {s: 1}}, 0, 0, 0, 1)
			}
			for _, x := range shells {
				polys = append(polys, c.reorder(x.Levels[0].Pts, r.Intn(2) == 0))
			}
			r.Shuffle(len(polys), func(i, j int) { polys[i], polys[j] = polys[j], polys[i] })
			if r.Intn(2) == 0 {
				var ps []bpart
				for _, q := range polys {
					ps = append(ps, bpart{O: q})
				}
				A := s.parts(ps)
				res, ok := cl.TopLevelPolygons(A)
				outs2 := [][]pt2{}
				for i := range A {
					outs2 = append(outs2, s.loop(A[i].Outline()))
				}
				c.Emit(J{"ev": "top", "outs": polys, "outs2": outs2, "res": s.loops(res), "ok": ok})
			} else {
				if r.Intn(4) == 0 { // something degenerate among them
					polys = append(polys, []pt2{{0, 0}, {500, 500}, {0, 0}}, []pt2{{1, 1}, {2, 2}})
				}
				P := s.paths(polys)
				res, ok := cl.GenerateLayerParts(polyLayer(P))
				parts := []bpart{}
				if ok {
					parts = s.back(res.LayerParts())
				}
				var ps []bpart
				for _, q := range polys {
					ps = append(ps, bpart{O: q})
				}
				c.Emit(J{"ev": "partition", "polys": polys, "polys2": s.loops(P), "res": parts, "ok": ok, "pts": c.samples(50, nil, ps)})
			}
		case 7: // crossing
			var parts []bpart
			n := r.Intn(4)
			for i := 0; i < n; i++ {
				for {
					p := c.randomPart(3000, false)
					ox, oy := int64(i%2)*12000-6000, int64(i/2)*12000-6000
					mv := func(l []pt2) {
						for k := range l {
							l[k] = pt2{l[k][0]*2/3 + ox, l[k][1]*2/3 + oy}
						}
					}
					mv(p.O)
					for _, h := range p.H {
						mv(h)
					}
					if fits([]bpart{p}) && r.Intn(20) > 0 {
						parts = append(parts, p)
						break
					}
				}
			}
			pts := c.samples(12, []int64{5, 100}, parts)
			pick := func() pt2 {
				if len(pts) == 0 || r.Intn(4) == 0 {
					return pt2{r.Int63n(20000) - 10000, r.Int63n(20000) - 10000}
				}
				if len(parts) > 0 && r.Intn(5) == 0 {
					o := parts[r.Intn(len(parts))].O
					return o[r.Intn(len(o))]
				}
				return pts[r.Intn(len(pts))]
			}
			line := []pt2{pick(), pick()}
			if r.Intn(3) == 0 { // a short one
				line[1] = pt2{line[0][0] + r.Int63n(1500) - 700, line[0][1] + r.Int63n(1500) - 700}
			}
			if r.Intn(12) == 0 {
				line[1] = line[0]
			}
			for r.Intn(4) == 0 {
				line = append(line, pick())
			}
			if r.Intn(6) == 0 { // round trips
				for len(line) < 2+r.Intn(5) {
					line = append(line, pick())
				}
				if len(parts) > 0 && r.Intn(2) == 0 { // along an outline, or a piece of it
					o := parts[r.Intn(len(parts))].O
					line = append([]pt2{}, o[:2+r.Intn(len(o)-1)]...)
				}
				line = append(line, line[0])
			}
			on := []pt2{}
			for k := 0; k+1 < len(line); k++ {
				a, b := line[k], line[k+1]
				for i := 0; i <= 16; i++ {
					t := float64(i) / 16
					on = append(on, pt2{a[0] + int64(math.Round(t*float64(b[0]-a[0]))), a[1] + int64(math.Round(t*float64(b[1]-a[1])))})
				}
			}
			A, L := s.parts(parts), s.path(line)
			got, ok := cl.IsCrossingPerimeter(A, L)
			c.Emit(J{"ev": "cross", "parts": norm(parts), "parts2": s.back(A), "line": line, "line2": s.loop(L), "pts": on, "res": got, "ok": ok})
		case 8:
			c.vecs()
		}
	}
}

type polyLayer data.Paths

func (p polyLayer) Polygons() data.Paths { return data.Paths(p) }

func digest(v interface{}) string {
	b, _ := json.Marshal(v)
	return string(b)
}
func digests(ps []bpart) []string {
	out := []string{}
	for _, p := range ps {
		out = append(out, digest(p))
	}
	return out
}

func (c *Case) vecs() {
	r := c.R
	for i := 0; i < 6; i++ {
		rv := func() int64 {
			switch r.Intn(4) {
			case 0:
				return r.Int63n(5) - 2
			case 1:
				return r.Int63n(200) - 100
			}
			return r.Int63n(20000) - 10000
		}
		k := rv()
		if k == 0 {
			k = 3
		}
		// everything but the quotient is the same for vectors which are un times as long
		un := []int64{1, 1, 2 + r.Int63n(40)}[r.Intn(3)]
		M := func(x int64) data.Micrometer { return data.Micrometer(x * un) }
		by := func(x data.Micrometer, n int64) int64 {
			if int64(x)%n != 0 {
				return 987654321
			}
			return int64(x) / n
		}
		e := J{"ev": "vec", "k": k}
		if r.Intn(2) == 0 {
			a, b := []int64{rv(), rv()}, []int64{rv(), rv()}
			if r.Intn(4) == 0 { // exactly as long as k
				a = []int64{k * 3 / 5 / 3 * 3, 0}
				k = max64(a[0], -a[0])
				if k == 0 {
					k = 1
				}
				e["k"] = k
			}
			A, B := data.NewMicroPoint(M(a[0]), M(a[1])), data.NewMicroPoint(M(b[0]), M(b[1]))
			q := data.NewMicroPoint(data.Micrometer(a[0]), data.Micrometer(a[1])).Div(data.Micrometer(k))
			A.Div(data.Micrometer(k))
			div := []int64{int64(q.X()), int64(q.Y())}
			g := func(p data.MicroPoint) []int64 { return []int64{by(p.X(), un), by(p.Y(), un)} }
			spoil := func(p data.MicroPoint) []int64 {
				x := g(p)
				p.SetX(77777)
				p.SetY(-88888)
				return x
			}
			e["add"], e["sub"], e["mul"], e["div"] = spoil(A.Add(B)), spoil(A.Sub(B)), spoil(A.Mul(data.Micrometer(k))), div
			e["size"], e["size2"], e["shorter"], e["copy"] = int64(A.Size())/un, by(A.Size2(), un*un), A.ShorterThanOrEqual(M(k)), spoil(A.Copy())
			deg := float64(r.Intn(720) - 360)
			if r.Intn(3) == 0 {
				deg = float64(r.Intn(9)-4) * 90
			}
			rot := A.Rotate(deg)
			e["rot"] = []int64{int64(math.Round(float64(rot.X()) / float64(un))), int64(math.Round(float64(rot.Y()) / float64(un)))}
			e["sin"], e["cos"] = math.Round(10000*math.Sin(deg*math.Pi/180)), math.Round(10000*math.Cos(deg*math.Pi/180))
			e["v"], e["w"], e["v2"], e["w2"] = a, b, g(A), g(B)
			if a[0] < 9000 && a[1] < 9000 && b[0] < 9000 && b[1] < 9000 {
				e["dot"] = by(data.DotProduct(A, B), un*un)
			}
			if k > 100 || k < -100 { // keep the numbers small
				e["mul"] = []int64{a[0] * k, a[1] * k}
			}
		} else {
			a, b := []int64{rv(), rv(), rv()}, []int64{rv(), rv(), rv()}
			if r.Intn(3) == 0 {
				a[r.Intn(3)] = a[r.Intn(3)]
			}
			A, B := data.NewMicroVec3(M(a[0]), M(a[1]), M(a[2])), data.NewMicroVec3(M(b[0]), M(b[1]), M(b[2]))
			q := data.NewMicroVec3(data.Micrometer(a[0]), data.Micrometer(a[1]), data.Micrometer(a[2])).Div(data.Micrometer(k))
			A.Div(data.Micrometer(k))
			div := []int64{int64(q.X()), int64(q.Y()), int64(q.Z())}
			g := func(p data.MicroVec3) []int64 { return []int64{by(p.X(), un), by(p.Y(), un), by(p.Z(), un)} }
			spoil := func(p data.MicroVec3) []int64 {
				x := g(p)
				p.SetX(77777)
				p.SetY(-88888)
				p.SetZ(99999)
				return x
			}
			xy := A.PointXY()
			e["xy"] = []int64{by(xy.X(), un), by(xy.Y(), un)}
			xy.SetX(5555)
			e["add"], e["sub"], e["mul"], e["div"] = spoil(A.Add(B)), spoil(A.Sub(B)), spoil(A.Mul(data.Micrometer(k))), div
			e["size"], e["size2"], e["shorter"], e["copy"] = int64(A.Size())/un, by(A.Size2(), un*un), A.ShorterThanOrEqual(M(k)), spoil(A.Copy())
			e["max"] = by(A.Max(), un)
			e["v"], e["w"], e["v2"], e["w2"] = a, b, g(A), g(B)
			if k < 0 {
				delete(e, "shorter")
				e["shorter"] = false
			}
			if k > 100 || k < -100 {
				e["mul"] = []int64{a[0] * k, a[1] * k, a[2] * k}
			}
		}
		c.Emit(e)
	}
	// paths
	ps := [][]pt2{}
	for i := r.Intn(4); i > 0; i-- {
		p := []pt2{}
		for j := r.Intn(6); j > 0; j-- {
			p = append(p, pt2{r.Int63n(20000) - 10000 - r.Int63n(2)*9000, r.Int63n(20000) - 10000 - r.Int63n(2)*9000})
		}
		ps = append(ps, p)
	}
	P := shift{}.paths(ps)
	lo, hi := P.Bounds()
	e := J{"ev": "pathop", "p": ps, "lo": pt2{int64(lo.X()), int64(lo.Y())}, "hi": pt2{int64(hi.X()), int64(hi.Y())}}
	if len(ps) == 1 && len(ps[0]) > 0 {
		k := int64(r.Intn(3000))
		if r.Intn(2) == 0 {
			ps[0][len(ps[0])-1] = pt2{ps[0][0][0] + 3*k/5/5*5, ps[0][0][1]}
			P = shift{}.paths(ps)
			lo, hi = P[0].Bounds()
			e["lo"], e["hi"] = pt2{int64(lo.X()), int64(lo.Y())}, pt2{int64(hi.X()), int64(hi.Y())}
		}
		e["k"] = k
		if a, b := ps[0][0], ps[0][len(ps[0])-1]; max64(a[0]-b[0], b[0]-a[0]) < 20000 && max64(a[1]-b[1], b[1]-a[1]) < 20000 {
			e["closed"] = P[0].IsAlmostFinished(data.Micrometer(k))
		}
	}
	e["p2"] = shift{}.loops(P)
	deg := float64(r.Intn(360))
	want := [][]pt2{}
	for _, p := range P {
		w := []pt2{}
		for _, q := range p {
			x := q.Rotate(deg)
			w = append(w, pt2{int64(x.X()), int64(x.Y())})
		}
		want = append(want, w)
	}
	Q := shift{}.paths(ps)
	Q.Rotate(deg)
	e["rot"], e["rotpts"] = shift{}.loops(Q), want
	c.Emit(e)
}

// Lists whose results once had holes which touch their outline.
var tightA = []bpart{{O: []pt2{{-3108, -1458}, {2246, -2596}, {3024, 1063}, {-50, 1717}, {-8, 1915}, {-1573, 2247}, {-1531, 2444}, {-2246, 2596}}}}
var tightB = []bpart{
	{O: []pt2{{-1615, 2050}, {-2330, 2202}, {-3108, -1458}, {-2393, -1610}}},
	{O: []pt2{{2246, -2596}, {3066, 1261}, {-8, 1915}, {-828, -1942}}},
	{O: []pt2{{-2246, 2596}, {-2288, 2399}, {-1573, 2247}, {-1531, 2444}}},
}

func (c *Case) tight() (a, b []bpart) {
	r := c.R
	moved := map[pt2]pt2{}
	j := r.Int63n(3)
	flip := r.Intn(2) == 0
	f := func(l []bpart) (out []bpart) {
		for _, p := range l {
			q := bpart{}
			for _, v := range p.O {
				if _, ok := moved[v]; !ok {
					w := pt2{v[0] + r.Int63n(2*j+1) - j, v[1] + r.Int63n(2*j+1) - j}
					if flip {
						w = pt2{-w[1], w[0]}
					}
					moved[v] = w
				}
				q.O = append(q.O, moved[v])
			}
			q.O = c.reorder(q.O, false)
			out = append(out, q)
		}
		r.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
		return
	}
	return f(tightA), f(tightB)
}
