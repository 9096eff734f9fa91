package main

import (
	"math"

	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/optimizer"
	"github.com/aligator/goslice/slicer"
)

type pt2 [2]int64

type level struct {
	Z   int64 `json:"z"`
	Pts []pt2 `json:"pts"`
}

// shell is one closed surface: polygons with the same number of corners on several heights.
type shell struct {
	Depth   int      `json:"depth"`
	Parent  int      `json:"parent"` // 1-based, 0 = none
	Levels  []level  `json:"levels"`
	Missing [][2]int `json:"missing"` // [interval, segment], 1-based
	Small   bool     `json:"small"`
	NoTop   bool     `json:"-"`
	NoBot   bool     `json:"-"`
	Near    int      `json:"-"` // a corner of the top
	Tops    []int64  `json:"-"` // how much the corners of the top, and its middle, are above the last level
}

func (s *shell) isMissing(k, seg int) bool {
	for _, m := range s.Missing {
		if m[0] == k+1 && m[1] == seg+1 {
			return true
		}
	}
	return false
}

// faces triangulates the shell, outward for even depths.
func (s *shell) faces() (fs [][3]ivec) {
	p := func(k, i int) ivec {
		l := s.Levels[k]
		q := l.Pts[i%len(l.Pts)]
		z := l.Z
		if k == len(s.Levels)-1 && s.Tops != nil {
			z += s.Tops[i%len(l.Pts)]
		}
		return ivec{q[0], q[1], z}
	}
	for k := 0; k+1 < len(s.Levels); k++ {
		n := len(s.Levels[k].Pts)
		for i := 0; i < n; i++ {
			if !s.isMissing(k, 2*i) {
				fs = append(fs, [3]ivec{p(k, i), p(k+1, i+1), p(k+1, i)})
			}
			if !s.isMissing(k, 2*i+1) {
				fs = append(fs, [3]ivec{p(k, i), p(k, i+1), p(k+1, i+1)})
			}
		}
	}
	caps := func(k int, up bool) {
		n := len(s.Levels[k].Pts)
		m := s.middle(k)
		if up && s.Tops != nil {
			m[2] += s.Tops[n]
		}
		for i := 0; i < n; i++ {
			if up {
				fs = append(fs, [3]ivec{p(k, i), p(k, i+1), m})
			} else {
				fs = append(fs, [3]ivec{p(k, i+1), p(k, i), m})
			}
		}
	}
	if !s.NoBot {
		caps(0, false)
	}
	if !s.NoTop {
		caps(len(s.Levels)-1, true)
	}
	if s.Depth%2 == 1 {
		for i := range fs {
			fs[i][1], fs[i][2] = fs[i][2], fs[i][1]
		}
	}
	return fs
}

// middle is the point in the middle of the cap on a level.
func (s *shell) middle(k int) ivec {
	n := int64(len(s.Levels[k].Pts))
	var cx, cy int64
	for _, q := range s.Levels[k].Pts {
		cx += q[0]
		cy += q[1]
	}
	return ivec{cx / n, cy / n, s.Levels[k].Z}
}

// star makes a star shaped polygon around the origin, counter-clockwise.
func (c *Case) star(n int, r float64, low float64) [][2]float64 {
	var out [][2]float64
	ph := c.R.Float64() * 7
	for i := 0; i < n; i++ {
		a := ph + 2*math.Pi*(float64(i)+0.35*(c.R.Float64()-0.5))/float64(n)
		rr := r * (low + (1-low)*c.R.Float64())
		out = append(out, [2]float64{rr * math.Cos(a), rr * math.Sin(a)})
	}
	return out
}

// inner is the distance of the origin to the closest edge, also if the end of the edge is turned by one of the angles:
// between two levels which are turned against each other the faces cut corners.
func inner(p [][2]float64, turns ...float64) float64 {
	best := math.Inf(1)
	turns = append(turns, 0)
	for k := range turns {
		s, c := math.Sincos(turns[k])
		best = math.Min(best, innerTurned(p, s, c))
	}
	return best
}

func innerTurned(p [][2]float64, sin, cos float64) float64 {
	best := math.Inf(1)
	for i := range p {
		a, b := p[i], p[(i+1)%len(p)]
		b = [2]float64{cos*b[0] - sin*b[1], sin*b[0] + cos*b[1]}
		dx, dy := b[0]-a[0], b[1]-a[1]
		t := -(a[0]*dx + a[1]*dy) / (dx*dx + dy*dy)
		t = math.Max(0, math.Min(1, t))
		best = math.Min(best, math.Hypot(a[0]+t*dx, a[1]+t*dy))
	}
	return best
}

type xform struct{ s, tx, ty, rot float64 }

func (x xform) at(p [2]float64, ox, oy float64) pt2 {
	c, s := math.Cos(x.rot), math.Sin(x.rot)
	return pt2{int64(math.Round(ox + x.tx + x.s*(c*p[0]-s*p[1]))), int64(math.Round(oy + x.ty + x.s*(s*p[0]+c*p[1])))}
}

// nest adds a shell and nested ones around (ox, oy) to the list.
func (c *Case) nest(shells []*shell, ox, oy, rad float64, zs []int64, xf []xform, depth, parent, lo, hi int) []*shell {
	r := c.R
	low := 0.6
	if r.Intn(2) == 0 {
		low = 0.85
	}
	base := c.star(3+r.Intn(8), rad, low)
	s := &shell{Depth: depth, Parent: parent, Missing: [][2]int{}}
	for k := lo; k <= hi; k++ {
		l := level{Z: zs[k]}
		for _, q := range base {
			l.Pts = append(l.Pts, xf[k].at(q, ox, oy))
		}
		s.Levels = append(s.Levels, l)
	}
	shells = append(shells, s)
	me := len(shells)
	var turns []float64
	for k := lo; k < hi; k++ {
		turns = append(turns, xf[k+1].rot-xf[k].rot)
	}
	in := inner(base, turns...) * 0.75
	if in < 1300 || depth > 2 || r.Intn(3) == 0 {
		return shells
	}
	// one or two children side by side
	clo, chi := lo, hi
	if depth%2 == 0 && r.Intn(2) == 0 || depth%2 == 1 {
		clo = lo + r.Intn(hi-lo)
		chi = clo + 1 + r.Intn(hi-clo)
	}
	if zs[clo] == zs[chi] {
		clo, chi = lo, hi
	}
	if in > 2800 && r.Intn(2) == 0 {
		h := in * 0.46
		shells = c.nest(shells, ox, oy, h, zs, shiftX(xf, in*0.5), depth+1, me, clo, chi)
		return c.nest(shells, ox, oy, h, zs, shiftX(xf, -in*0.5), depth+1, me, clo, chi)
	}
	return c.nest(shells, ox, oy, in*0.9, zs, xf, depth+1, me, clo, chi)
}

func shiftX(xf []xform, d float64) []xform {
	out := append([]xform{}, xf...)
	for i := range out {
		out[i].tx += out[i].s * d * math.Cos(out[i].rot)
		out[i].ty += out[i].s * d * math.Sin(out[i].rot)
	}
	return out
}

// shuffleFaces puts the faces and their corners in a random order.
func (c *Case) shuffleFaces(fs [][3]ivec) [][3]ivec {
	c.R.Shuffle(len(fs), func(a, b int) { fs[a], fs[b] = fs[b], fs[a] })
	for i, f := range fs {
		k := c.R.Intn(3)
		fs[i] = [3]ivec{f[k], f[(k+1)%3], f[(k+2)%3]}
	}
	return fs
}

func loop(p data.Path) []pt2 {
	out := []pt2{}
	for _, q := range p {
		out = append(out, pt2{int64(q.X()), int64(q.Y())})
	}
	return out
}

// solidOf builds the mesh of shells and places it so that it keeps its coordinates.
func (c *Case) solidOf(shells []*shell, o *data.Options) triModel {
	var fs [][3]ivec
	for _, s := range shells {
		fs = append(fs, s.faces()...)
	}
	fs = c.shuffleFaces(fs)
	if c.R.Intn(4) == 0 { // the faces around one corner of each shell come first: contours begin there
		var first, rest [][3]ivec
		at := map[ivec]bool{}
		for _, s := range shells {
			l := s.Levels[len(s.Levels)-1]
			at[ivec{l.Pts[s.Near][0], l.Pts[s.Near][1], l.Z}] = true
		}
		for _, f := range fs {
			if at[f[0]] || at[f[1]] || at[f[2]] {
				first = append(first, f)
			} else {
				rest = append(rest, f)
			}
		}
		fs = append(first, rest...)
	}
	m := mkModel(fs)
	lo, hi := m.bounds()
	o.Printer.Center = data.NewMicroVec3((lo.X()+hi.X())/2, (lo.Y()+hi.Y())/2, lo.Z())
	return m
}

func init() {
	families["slice"] = func(c *Case) {
		r := c.R
		o := data.DefaultOptions()
		o.GoSlice.Logger = quiet()
		var shells []*shell
		e := J{"ev": "slice", "err": false, "msg": "", "contours": true}
		initial, th := int64(100+r.Intn(300)), int64(80+r.Intn(300))
		join, finish := int64(160), int64(1000)
		kind := "random"
		if c.In != nil {
			kind = c.In["kind"].(string)
		}
		ring := func(n int, R, ox, oy float64) []pt2 {
			var out []pt2
			for i := 0; i < n; i++ {
				a := 2 * math.Pi * float64(i) / float64(n)
				out = append(out, pt2{int64(ox + R*math.Cos(a)), int64(oy + R*math.Sin(a))})
			}
			return out
		}
		switch kind {
		case "stack":
			u := int64(60 + r.Intn(200))
			initial, th = u*int64(c.In["init"].(float64)), u*int64(c.In["th"].(float64))
			z0 := int64(r.Intn(3)-1) * int64(r.Intn(2)) * u // also models starting above or below the bed
			for i, sp := range c.In["spans"].([]interface{}) {
				a, b := int64(sp.([]interface{})[0].(float64)), int64(sp.([]interface{})[1].(float64))
				d := int64(0)
				if r.Intn(3) == 0 {
					d = int64(r.Intn(3)) - 1
				}
				p := ring(3+r.Intn(5), 2500, float64(i*6000-6000), 0)
				shells = append(shells, &shell{Missing: [][2]int{}, Levels: []level{{a*u + z0, p}, {b*u + z0 + d, p}}})
			}
		case "gaps":
			if r.Intn(3) == 0 {
				join = int64(50 + r.Intn(500))
				finish = join*3 + int64(r.Intn(1500))
			}
			g := c.In["gaps"].([]interface{})
			R := 7500.0
			half := func(w float64) float64 { return 2 * math.Asin(w/2/R) }
			var w []float64
			rest, free := 2*math.Pi, 0
			for _, x := range g {
				cl := int(x.(float64))
				var s float64
				switch cl {
				case 1:
					s = float64(join) * (0.55 + 0.4*r.Float64())
				case 2:
					s = float64(join) + (float64(finish)-float64(join))*(0.1+0.8*r.Float64())
				case 3:
					s = float64(finish) * (1.1 + 0.5*r.Float64())
				}
				if cl == 0 {
					free++
					w = append(w, 0)
				} else {
					if s < 60 {
						s = 60
					}
					w = append(w, half(s))
					rest -= half(s)
				}
			}
			a := r.Float64() * 7
			var p []pt2
			miss := [][2]int{}
			k := 0
			for i, x := range g {
				if x.(float64) == 0 {
					// a present edge, in some pieces
					n := 2 + r.Intn(3)
					for q := 0; q < n; q++ {
						p = append(p, pt2{int64(R * math.Cos(a)), int64(R * math.Sin(a))})
						a += rest / float64(free*n)
						k++
					}
				} else {
					p = append(p, pt2{int64(R * math.Cos(a)), int64(R * math.Sin(a))})
					a += w[i]
					miss = append(miss, [2]int{1, 2*k + 1}, [2]int{1, 2*k + 2})
					k++
				}
			}
			initial, th = 200, 200
			shells = append(shells, &shell{Missing: miss, Levels: []level{{0, p}, {450 + int64(r.Intn(100)), p}}, NoTop: r.Intn(2) == 0, NoBot: r.Intn(2) == 0})
			if len(miss) > 0 && r.Intn(2) == 0 { // an intact one with a corner close to an end of a piece
				at := p[(miss[2*r.Intn(len(miss)/2)][1]/2+r.Intn(2))%len(p)]
				a, n := math.Atan2(float64(at[1]), float64(at[0])), 3+r.Intn(3)
				d, rad := 45+r.Float64()*math.Max(0, float64(join)*0.9-45), 1200+300*r.Float64()
				var q []pt2
				for i := 0; i < n; i++ {
					b := a + math.Pi + 2*math.Pi*float64(i)/float64(n)
					q = append(q, pt2{int64((R+d+rad)*math.Cos(a) + rad*math.Cos(b)), int64((R+d+rad)*math.Sin(a) + rad*math.Sin(b))})
				}
				shells = append(shells, &shell{Missing: [][2]int{}, Levels: []level{{0, q}, {500, q}}})
			} else if r.Intn(2) == 0 { // an intact one beside it, or in it
				q := ring(3+r.Intn(6), 1500, 10500, 0)
				shells = append(shells, &shell{Missing: [][2]int{}, Levels: []level{{0, q}, {500, q}}})
			}
		case "random":
			if r.Intn(12) == 0 { // a round solid of many small faces
				R := 500 + 1000*r.Float64()
				n := 2 * int(math.Pi*R/(38+30*r.Float64()))
				two := r.Intn(2) == 0 // another one very close to it
				if two && r.Intn(2) == 0 {
					n = 4 + 2*r.Intn(4)
				}
				ox, oy := float64(r.Intn(8000)-4000), float64(r.Intn(8000)-4000)
				top := initial + th + int64(r.Intn(900))
				onLayer := r.Intn(2) == 0 // the upper corners are on the top layer, or somewhere above it
				if onLayer {
					top = initial + th*int64(1+r.Intn(3))
				}
				rough := r.Intn(2) == 0
				often := []int{1, 4, 10, 1000}[r.Intn(4)]
				round := func(ox float64, near int) {
					p := ring(n, R, ox, oy)
					for i, q := range p {
						if f := 1 - r.Float64()*70/R; rough && i != near {
							p[i] = pt2{int64(ox + f*(float64(q[0])-ox)), int64(oy + f*(float64(q[1])-oy))}
						}
					}
					s := &shell{Missing: [][2]int{}, Levels: []level{{0, p}, {top, p}}, Near: near}
					if onLayer {
						s.Tops = make([]int64, n+1)
						h := 1 + r.Int63n(th-1)
						for i := range s.Tops {
							if r.Intn(often) == 0 {
								h = r.Int63n(th) * int64(r.Intn(2))
							}
							s.Tops[i] = h
						}
						if often == 1000 || r.Intn(2) == 0 {
							s.Tops[near] = 0
						}
					}
					shells = append(shells, s)
				}
				round(ox, 0)
				if two {
					round(ox+2*R+50+100*r.Float64(), n/2)
				}
				break
			}
			if r.Intn(3) == 0 {
				finish = []int64{0, 1, 60, 3000}[r.Intn(4)]
				join = min64(finish, []int64{0, 5, 160}[r.Intn(3)])
			}
		again:
			shells = nil
			n := 1 + r.Intn(3)
			for i := 0; i < n; i++ {
				rad := 10500.0
				ox, oy := 0.0, 0.0
				if n > 1 {
					rad = 4600
					ox, oy = float64(i%2)*11000-5500, float64(i/2)*11000-5500
				}
				lv := 2 + r.Intn(3)
				z := int64(0)
				if r.Intn(4) == 0 {
					z = int64(r.Intn(800)) - 200
				}
				var zs []int64
				var xf []xform
				for k := 0; k < lv; k++ {
					zs = append(zs, z)
					sc := 0.45 + 0.5*r.Float64()
					tr := rad * 0.08
					xf = append(xf, xform{sc, tr * (r.Float64() - 0.5), tr * (r.Float64() - 0.5), 0.25 * (r.Float64() - 0.5)})
					switch r.Intn(6) {
					case 0: // exactly on a layer
						y := initial + th*((z-initial)/th+1+int64(r.Intn(2)))
						for y < z+100 {
							y += th
						}
						z = y
					case 1: // terrace
						if k > 0 && k < lv-1 && zs[k] != zs[k-1] {
							// keep z
						} else {
							z += 100 + int64(r.Intn(600))
						}
					default:
						z += 100 + int64(r.Intn(900))
					}
				}
				if zs[0] == zs[lv-1] {
					zs[lv-1] += 333
				}
				if r.Intn(3) == 0 { // straight walls
					for k := range xf {
						xf[k] = xf[0]
					}
				}
				from := len(shells)
				depth := 0
				if r.Intn(8) == 0 { // almost a tip
					xf[lv-1].s = 0.09
					depth = 10
				}
				shells = c.nest(shells, ox, oy, rad, zs, xf, depth, 0, 0, lv-1)
				if depth == 10 {
					shells[from].Depth = 0
				}
				if r.Intn(6) == 0 && join == 160 && finish == 1000 && len(shells) == from+1 { // some face is missing
					s := shells[from]
					k := r.Intn(lv - 1)
					s.Missing = append(s.Missing, [2]int{k + 1, 1 + r.Intn(2*len(s.Levels[0].Pts))})
				}
			}
			if closePoints(shells, 80) { // they would be melded
				goto again
			}
		}
		for _, s := range shells {
			for _, l := range s.Levels {
				a, b := l.Pts[0], l.Pts[0]
				for _, q := range l.Pts {
					a = pt2{min64(a[0], q[0]), min64(a[1], q[1])}
					b = pt2{max64(b[0], q[0]), max64(b[1], q[1])}
				}
				if 2*(b[0]-a[0]+b[1]-a[1]) < 2*finish {
					s.Small = true
				}
			}
		}
		o.Print.InitialLayerThickness = data.Micrometer(initial)
		o.Print.LayerThickness = data.Micrometer(th)
		// as wide as a print bed: one unit is several micrometres then
		sc := shift{}
		if r.Intn(5) == 0 {
			sc.k = 2 + r.Int63n(10)
		}
		o.Slicing.JoinPolygonSnapDistance = sc.size(join)
		o.Slicing.FinishPolygonSnapDistance = sc.size(finish)
		m := c.solidOf(shells, &o)
		if sc.k > 0 {
			fs := trisOf(m)
			for i := range fs {
				for k := range fs[i] {
					fs[i][k][0] *= sc.k
					fs[i][k][1] *= sc.k
				}
			}
			m = mkModel(fs)
			lo, hi := m.bounds()
			o.Printer.Center = data.NewMicroVec3((lo.X()+hi.X())/2, (lo.Y()+hi.Y())/2, lo.Z())
		}
		_, hi := m.bounds()
		e["init"], e["th"], e["join"], e["finish"], e["top"] = initial, th, join, finish, int64(hi.Z())
		e["shells"] = shells
		e["layers"] = []interface{}{}
		om, err := optimizer.NewOptimizer(&o).Optimize(m)
		if err == nil {
			var ls []data.PartitionedLayer
			ls, err = slicer.NewSlicer(&o).Slice(om)
			if err == nil {
				out := [][]bpart{}
				for _, x := range ls {
					out = append(out, sc.back(x.LayerParts()))
				}
				e["layers"] = out
			}
		}
		if err != nil {
			e["err"], e["msg"] = true, err.Error()
		}
		c.Emit(e)
	}
}

// closePoints tells if there are two different points which are closer than d.
func closePoints(shells []*shell, d int64) bool {
	var ps []ivec
	for _, s := range shells {
		for _, l := range s.Levels {
			for _, p := range l.Pts {
				ps = append(ps, ivec{p[0], p[1], l.Z})
			}
		}
		for _, k := range []int{0, len(s.Levels) - 1} {
			ps = append(ps, s.middle(k))
		}
	}
	for i, a := range ps {
		for _, b := range ps[:i] {
			x, y, z := a[0]-b[0], a[1]-b[1], a[2]-b[2]
			if q := x*x + y*y + z*z; q > 0 && q < d*d {
				return true
			}
		}
	}
	return false
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}
func max64(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}
