package main

import (
	"math"

	"github.com/aligator/goslice/data"
)

// indicesOf finds out which elements of p the path out consists of (by identity of the points), 1-based.
func indicesOf(p, out data.Path, loop []pt2) []int {
	idx := []int{}
	k := 0
	for _, q := range out {
		found := -1
		for i := k; i < len(p); i++ {
			if p[i] == q || (loop[i] == pt2{int64(q.X()), int64(q.Y())}) {
				found = i + 1
				k = i + 1
				break
			}
		}
		idx = append(idx, found)
	}
	return idx
}

// endsAt moves the last index to the end of the path if the last points are the same.
func endsAt(idx []int, loop []pt2) []int {
	if n := len(idx); n > 0 && idx[n-1] > 0 && loop[idx[n-1]-1] == loop[len(loop)-1] {
		idx[n-1] = len(loop)
	}
	return idx
}

func (c *Case) smooth(loop []pt2, eps int64, small bool) {
	var sc shift
	if !small && c.R.Intn(4) == 0 { // as big as a print bed
		sc.k = 2 + c.R.Int63n(15)
	}
	P := sc.path(loop)
	keep := append(data.Path{}, P...)
	given := eps
	if eps == 70 && sc.k == 0 && c.R.Intn(2) == 0 {
		given = -1
	}
	// the path may be a part of a longer one
	full := append(append(data.Path{}, P...), data.NewMicroPoint(1, 2), data.NewMicroPoint(3, 4))
	P = full[:len(P)]
	keepLoop := shift{}.loop(keep)
	out := data.DouglasPeucker(P, data.Micrometer(given*sc.unit()*sc.unit()))
	o := sc.loop(out)
	idx := []int{}
	if len(loop) > 0 {
		idx = endsAt(indicesOf(keep, out, keepLoop), loop)
	}
	c.Emit(J{"ev": "smooth", "p": nn(loop), "p2": sc.loop(append(data.Path{}, full...)[:len(loop)]), "out": o, "idx": idx, "eps": eps, "small": small})
}

func nn(p []pt2) []pt2 {
	if p == nil {
		return []pt2{}
	}
	return p
}

func init() {
	families["path"] = func(c *Case) {
		r := c.R
		if c.In != nil {
			u := int64(1 + r.Intn(9))
			var p []pt2
			for _, q := range cellList(c.In["p"]) {
				p = append(p, pt2{q[0] * u, q[1] * u})
			}
			eps := int64(2) * u * u
			if r.Intn(3) == 0 {
				eps = 1 + r.Int63n(6*u*u)
			}
			c.smooth(p, eps, true)
			return
		}
		switch k := r.Intn(5); k {
		case 0, 1: // smoothing of wiggly lines and arcs
			var p []pt2
			n := r.Intn(40)
			x, y, a := 0.0, 0.0, r.Float64()*7
			step := []float64{3, 10, 40, 300}[r.Intn(4)]
			curl := (r.Float64() - 0.5) * 0.3
			jit := []float64{0, 1, 6, 12}[r.Intn(4)]
			for i := 0; i < n; i++ {
				p = append(p, pt2{int64(x + jit*(r.Float64()-0.5)), int64(y + jit*(r.Float64()-0.5))})
				if r.Intn(12) == 0 {
					a += (r.Float64() - 0.5) * 6
				}
				a += curl
				s := step * (0.2 + r.Float64())
				x, y = x+s*math.Cos(a), y+s*math.Sin(a)
				if math.Abs(x) > 11000 || math.Abs(y) > 11000 {
					break
				}
			}
			switch r.Intn(6) {
			case 0: // closed
				if len(p) > 0 {
					p = append(p, p[0])
				}
			case 1: // back and forth
				p = append(p, rev(p)...)
			case 2: // repeated points
				if len(p) > 2 {
					i := r.Intn(len(p))
					p = append(p[:i+1:i+1], p[i:]...)
				}
			}
			eps := int64(70)
			if r.Intn(3) == 0 {
				eps = []int64{0, 1, 5, 1000, 40000}[r.Intn(5)]
			}
			c.smooth(p, eps, false)
		case 2: // many points: the depth of the recursion
			n := 250 + r.Intn(500)
			var p []pt2
			for i := 0; i < n; i++ {
				q := pt2{int64(i * 20), int64((i % 2) * (20 + i*10))}
				if r.Intn(2) == 0 {
					q[1] = int64(10000 - i*i/60)
				}
				p = append(p, q)
			}
			c.smooth(p, 70, false)
		default:
			var p []pt2
			round := false
			switch r.Intn(4) {
			case 0: // any small thing
				for i := r.Intn(9); i > 0; i-- {
					p = append(p, pt2{r.Int63n(60), r.Int63n(60)})
				}
			case 1: // star
				for _, q := range c.star(3+r.Intn(30), 200+r.Float64()*8000, 0.5) {
					p = append(p, pt2{int64(q[0]), int64(q[1])})
				}
			case 2: // round
				round = true
				n := 8 + r.Intn(120)
				if r.Intn(3) == 0 {
					n += 300
				}
				R := 150 + math.Pow(r.Float64(), 3)*9000
				for i := 0; i < n; i++ {
					a := 2 * math.Pi * float64(i) / float64(n)
					p = append(p, pt2{int64(math.Round(R * math.Cos(a))), int64(math.Round(R * 0.7 * math.Sin(a)))})
				}
			case 3: // a box with many points on its sides
				round = true
				w, h := 500+r.Int63n(9000), 500+r.Int63n(9000)
				cs := []pt2{{0, 0}, {w, 0}, {w, h}, {0, h}}
				for i, a := range cs {
					b := cs[(i+1)%4]
					n := 1 + r.Int63n(20)
					for k := int64(0); k < n; k++ {
						p = append(p, pt2{a[0] + (b[0]-a[0])*k/n, a[1] + (b[1]-a[1])*k/n})
					}
				}
				p = c.reorder(p, r.Intn(2) == 0)
			}
			s := shift{}
			if round && r.Intn(2) == 0 {
				s = c.anyShift()
			}
			P := s.path(p)
			keep := append(data.Path{}, P...)
			var out data.Path
			if r.Intn(2) == 0 {
				out = P.Simplify(-1, -1)
			} else {
				out = P.Simplify(100, 25)
			}
			o := s.loop(out)
			// identity first: simplifying returns the points themselves
			var sh data.Path
			for _, q := range out {
				sh = append(sh, data.NewMicroPoint(q.X()-data.Micrometer(s.x), q.Y()-data.Micrometer(s.y)))
			}
			_ = keep
			c.Emit(J{"ev": "simplify", "p": nn(p), "p2": s.loop(P), "out": o, "idx": indicesOf(shift{}.path(p), sh, p), "round": round})
		}
	}
}
