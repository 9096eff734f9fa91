package main

import (
	"math"

	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/handler"
)

// A grid stack is a model made of the cells of a grid whose lines are not evenly spaced. The whole grid is turned.
type gridStack struct {
	xs, ys []int64        // the grid lines, in the frame of the grid
	parts  [][][][2]int64 // layer -> part -> cells
	deg    float64        // how the grid is turned
	s      shift          // and moved afterwards
	steady bool           // paths begin at the same corners and parts come in the same order on all layers
}

func (g *gridStack) real(x, y float64) (float64, float64) {
	sn, cs := math.Sincos(g.deg * math.Pi / 180)
	sn, cs = math.Round(sn*1e12)/1e12, math.Round(cs*1e12)/1e12
	return x*cs - y*sn + float64(g.s.x), x*sn + y*cs + float64(g.s.y)
}

// gridLines makes n cells with widths of very different sizes, around 0.
func (c *Case) gridLines(n int, narrow bool, limit int64, necks ...int64) []int64 {
	{
		xs := []int64{0}
		for i := 0; i < n; i++ {
			w := int64(2500 + c.R.Intn(2500))
			if c.huge {
				w += int64(c.R.Intn(70000))
			}
			if narrow {
				switch c.R.Intn(5) {
				case 0:
					if len(necks) > 0 {
						w = max64(60, necks[0]-40-int64(c.R.Intn(300)))
					}
				case 1:
					w = int64(100 + c.R.Intn(700))
				case 2:
					w = int64(600 + c.R.Intn(1900))
				}
			}
			xs = append(xs, xs[i]+w)
		}
		t := xs[n]
		if t > 2*limit {
			for i := range xs {
				xs[i] = xs[i] * 2 * limit / t
			}
			t = xs[n]
		}
		for i := range xs {
			xs[i] -= t / 2
		}
		return xs
	}
}

// touchDiagonally tells if two cells of the set only share a corner.
func touchDiagonally(in map[[2]int64]bool) bool {
	for c := range in {
		for _, d := range [][2]int64{{1, 1}, {1, -1}} {
			if in[[2]int64{c[0] + d[0], c[1] + d[1]}] && !in[[2]int64{c[0] + d[0], c[1]}] && !in[[2]int64{c[0], c[1] + d[1]}] {
				return true
			}
		}
	}
	return false
}

// components splits a set of cells.
func components(cells [][2]int64) [][][2]int64 {
	in := map[[2]int64]bool{}
	for _, c := range cells {
		in[c] = true
	}
	var out [][][2]int64
	for _, c := range cells {
		if !in[c] {
			continue
		}
		todo := [][2]int64{c}
		in[c] = false
		var comp [][2]int64
		for len(todo) > 0 {
			q := todo[0]
			todo = todo[1:]
			comp = append(comp, q)
			for _, d := range [][2]int64{{1, 0}, {-1, 0}, {0, 1}, {0, -1}} {
				e := [2]int64{q[0] + d[0], q[1] + d[1]}
				if in[e] {
					in[e] = false
					todo = append(todo, e)
				}
			}
		}
		out = append(out, comp)
	}
	return out
}

// cellPart makes the outline and holes of connected cells (0 based), in real coordinates.
func (g *gridStack) cellPart(c *Case, cells [][2]int64) data.LayerPart {
	var o data.Path
	var hs data.Paths
	for _, l := range outlines(cells, 1) {
		var a int64
		for i, p := range l {
			q := l[(i+1)%len(l)]
			a += p[0]*q[1] - p[1]*q[0]
		}
		if !g.steady {
			l = c.reorder(l, false)
		}
		var p data.Path
		for _, q := range l {
			x, y := g.real(float64(g.xs[q[0]]), float64(g.ys[q[1]]))
			p = append(p, data.NewMicroPoint(data.Micrometer(math.Round(x)), data.Micrometer(math.Round(y))))
		}
		if a > 0 {
			o = p
		} else {
			hs = append(hs, p)
		}
	}
	return data.NewBasicLayerPart(o, hs)
}

// randomStack makes the layers: often similar to the one below.
func (c *Case) randomStack(nx, ny, n int, narrow bool, limit int64, necks ...int64) *gridStack {
	r := c.R
	// many holes or many islands
	sieve := !c.plates && r.Intn(14) == 0
	if sieve {
		nx, ny = 4+r.Intn(5), 3+r.Intn(5)
		if n > 3 {
			n = 3
		}
		narrow = false
	}
	g := &gridStack{xs: c.gridLines(nx, narrow, limit, necks...), ys: c.gridLines(ny, narrow, limit, necks...), steady: r.Intn(2) == 0}
	// holes which are somewhere else on each layer
	wander := sieve && r.Intn(2) == 0
	g.steady = g.steady || wander
	// plates side by side, connected by bridges too thin for anything inside of the perimeters
	dumbbell := !sieve && len(necks) > 0 && n > 1 && (c.plates || r.Intn(20) == 0)
	if dumbbell {
		nx, ny = 3+2*r.Intn(2), 3
		g.xs = []int64{0}
		for i := 0; i < nx; i++ {
			w := int64(2000 + r.Intn(1500))
			if c.huge {
				w *= 10
			}
			if i%2 == 1 {
				w = int64(60 + r.Intn(500))
			}
			g.xs = append(g.xs, g.xs[i]+w)
		}
		h := max64(60, necks[0]-40-int64(r.Intn(300)))
		a, b := int64(1200+r.Intn(1500)), int64(1200+r.Intn(1500))
		g.ys = []int64{-a - h/2, -h / 2, h - h/2, h - h/2 + b}
		t := g.xs[nx]
		for i := range g.xs {
			g.xs[i] -= t / 2
		}
	}
	prev := map[[2]int64]bool{}
	for k := 0; k < n; k++ {
		var in map[[2]int64]bool
		for try := 0; ; try++ {
			in = map[[2]int64]bool{}
			mode := r.Intn(10)
			kind := r.Intn(4)
			if wander {
				kind = 1
			}
			plate := map[int]bool{}
			if dumbbell {
				for x := 0; x < nx; x += 2 {
					plate[x] = r.Intn(5) > 1
				}
			}
			for x := 0; x < nx; x++ {
				for y := 0; y < ny; y++ {
					cl := [2]int64{int64(x), int64(y)}
					switch {
					case dumbbell:
						in[cl] = plate[x] || x%2 == 1 && y == 1 && (plate[x-1] && plate[x+1] || kind == 0)
					case sieve:
						hole := x%2 == 1 && y%2 == 1
						switch kind {
						case 0: // islands
							in[cl] = hole
						case 1: // some of the holes are closed
							in[cl] = !hole || r.Intn(3) == 0
						default:
							in[cl] = !hole
						}
					case try > 50: // empty
					case k == 0 || mode == 0:
						in[cl] = r.Intn(3) > 0
					case mode == 1: // the same
						in[cl] = prev[cl]
					case mode == 2 && r.Intn(6) == 0: // nothing
					default:
						in[cl] = prev[cl] != (r.Intn(4) == 0)
					}
					if !in[cl] {
						delete(in, cl)
					}
				}
			}
			if !touchDiagonally(in) {
				break
			}
		}
		prev = in
		g.add(c, in, nx, ny)
	}
	g.place(c)
	return g
}

func (g *gridStack) add(c *Case, in map[[2]int64]bool, nx, ny int) {
	var cells [][2]int64
	for x := 0; x < nx; x++ {
		for y := 0; y < ny; y++ {
			if in[[2]int64{int64(x), int64(y)}] {
				cells = append(cells, [2]int64{int64(x), int64(y)})
			}
		}
	}
	if !g.steady {
		c.R.Shuffle(len(cells), func(i, j int) { cells[i], cells[j] = cells[j], cells[i] })
	}
	comps := components(cells)
	if comps == nil {
		comps = [][][2]int64{}
	}
	g.parts = append(g.parts, comps)
}

// place turns and moves the grid.
func (g *gridStack) place(c *Case) {
	switch c.R.Intn(4) {
	case 0:
		g.deg = float64(c.R.Intn(360))
	case 1:
		g.deg = float64(c.R.Intn(4)) * 90
	}
	if c.R.Intn(2) == 0 {
		g.s = shift{c.R.Int63n(200000) - 20000, c.R.Int63n(200000) - 20000, 1}
	}
}

func (g *gridStack) layers(c *Case) []data.PartitionedLayer {
	var out []data.PartitionedLayer
	for _, l := range g.parts {
		var ps []data.LayerPart
		for _, cells := range l {
			ps = append(ps, g.cellPart(c, cells))
		}
		out = append(out, data.NewPartitionedLayer(ps))
	}
	return out
}

// partsJSON with cells counted from 1, as TLA+ does.
func (g *gridStack) json() [][][][2]int64 {
	out := [][][][2]int64{}
	for _, l := range g.parts {
		lo := [][][2]int64{}
		for _, cells := range l {
			var cs [][2]int64
			for _, q := range cells {
				cs = append(cs, [2]int64{q[0] + 1, q[1] + 1})
			}
			lo = append(lo, cs)
		}
		out = append(out, lo)
	}
	return out
}

// ---- where a point is, independently of the code under test ----

// inLoop: 0 outside, 1 inside, 2 near to the border
func inLoop(x, y float64, p data.Path, tol float64) int {
	in := false
	n := len(p)
	for i := 0; i < n; i++ {
		ax, ay := float64(p[i].X()), float64(p[i].Y())
		q := p[(i+1)%n]
		bx, by := float64(q.X()), float64(q.Y())
		dx, dy := bx-ax, by-ay
		l2 := dx*dx + dy*dy
		t := 0.0
		if l2 > 0 {
			t = math.Max(0, math.Min(1, ((x-ax)*dx+(y-ay)*dy)/l2))
		}
		if math.Hypot(x-ax-t*dx, y-ay-t*dy) <= tol {
			return 2
		}
		if (ay > y) != (by > y) && x < ax+(y-ay)*dx/dy {
			in = !in
		}
	}
	if in {
		return 1
	}
	return 0
}

// inPart counts outline and holes together, so that outlines touching themselves are handled.
func inPart(x, y float64, p data.LayerPart, tol float64) int {
	k := inLoop(x, y, p.Outline(), tol)
	if k == 2 {
		return 2
	}
	for _, h := range p.Holes() {
		q := inLoop(x, y, h, tol)
		if q == 2 {
			return 2
		}
		k ^= q
	}
	return k
}

// inParts: 0 in none, 1 in exactly one, 3 in several, 2 not certain
func inParts(x, y float64, ps []data.LayerPart, tol float64) int {
	n := 0
	for _, p := range ps {
		switch inPart(x, y, p, tol) {
		case 1:
			n++
		case 2:
			return 2
		}
	}
	if n > 1 {
		return 3
	}
	return n
}

// ---- stand-ins to run the default modifiers of a slicing run on given layers ----

type stReader struct{}

func (stReader) Read(string) (data.Model, error) { return tokModel{tok: "M", faces: 1}, nil }

type stOpt struct{}

func (stOpt) Optimize(data.Model) (data.OptimizedModel, error) { return tokOpt{tok: "O"}, nil }

type stSlicer struct{ layers []data.PartitionedLayer }

func (s stSlicer) Slice(data.OptimizedModel) ([]data.PartitionedLayer, error) { return s.layers, nil }

// capture remembers the layers which reach the generator, and generates the G-code with the next one if there is one.
type capture struct {
	layers []data.PartitionedLayer
	called bool
	next   handler.GCodeGenerator
	gcode  string
}

func (s *capture) Init(m data.OptimizedModel) {
	if s.next != nil {
		s.next.Init(m)
	}
}
func (s *capture) Generate(l []data.PartitionedLayer) (string, error) {
	s.layers, s.called = l, true
	if s.next == nil {
		return "", nil
	}
	g, err := s.next.Generate(l)
	s.gcode = g
	return g, err
}

type stWriter struct{}

func (stWriter) Write(string, string) error { return nil }
