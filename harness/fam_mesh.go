package main

import (
	"math"

	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/optimizer"
)

type tri [3]data.MicroVec3

func (t tri) Points() [3]data.MicroVec3 { return t }

// triModel is an input model made of plain triangles.
type triModel []tri

func (m triModel) FaceCount() int       { return len(m) }
func (m triModel) Face(i int) data.Face { return m[i] }
func (m triModel) Min() data.MicroVec3  { a, _ := m.bounds(); return a }
func (m triModel) Max() data.MicroVec3  { _, b := m.bounds(); return b }
func (m triModel) bounds() (a, b data.MicroVec3) {
	lo := [3]data.Micrometer{math.MaxInt64, math.MaxInt64, math.MaxInt64}
	hi := [3]data.Micrometer{math.MinInt64, math.MinInt64, math.MinInt64}
	for _, t := range m {
		for _, p := range t {
			for k, v := range []data.Micrometer{p.X(), p.Y(), p.Z()} {
				if v < lo[k] {
					lo[k] = v
				}
				if v > hi[k] {
					hi[k] = v
				}
			}
		}
	}
	return data.NewMicroVec3(lo[0], lo[1], lo[2]), data.NewMicroVec3(hi[0], hi[1], hi[2])
}

type ivec [3]int64

func v3(p data.MicroVec3) ivec { return ivec{int64(p.X()), int64(p.Y()), int64(p.Z())} }

func trisOf(m triModel) [][3]ivec {
	out := [][3]ivec{}
	for _, t := range m {
		out = append(out, [3]ivec{v3(t[0]), v3(t[1]), v3(t[2])})
	}
	return out
}

func mkModel(fs [][3]ivec) triModel {
	m := triModel{}
	for _, f := range fs {
		var t tri
		for k, p := range f {
			t[k] = data.NewMicroVec3(data.Micrometer(p[0]), data.Micrometer(p[1]), data.Micrometer(p[2]))
		}
		m = append(m, t)
	}
	return m
}

// ---- generators of watertight and other meshes ----

func (c *Case) baseMesh() [][3]ivec {
	r := c.R
	sz := int64(500 + r.Intn(30000))
	var fs [][3]ivec
	quad := func(a, b, d, e ivec) { fs = append(fs, [3]ivec{a, b, d}, [3]ivec{a, d, e}) }
	box := func(o ivec, x, y, z int64) {
		p := func(i, j, k int64) ivec { return ivec{o[0] + i*x, o[1] + j*y, o[2] + k*z} }
		quad(p(0, 0, 0), p(0, 1, 0), p(1, 1, 0), p(1, 0, 0))
		quad(p(0, 0, 1), p(1, 0, 1), p(1, 1, 1), p(0, 1, 1))
		quad(p(0, 0, 0), p(1, 0, 0), p(1, 0, 1), p(0, 0, 1))
		quad(p(1, 0, 0), p(1, 1, 0), p(1, 1, 1), p(1, 0, 1))
		quad(p(1, 1, 0), p(0, 1, 0), p(0, 1, 1), p(1, 1, 1))
		quad(p(0, 1, 0), p(0, 0, 0), p(0, 0, 1), p(0, 1, 1))
	}
	off := ivec{r.Int63n(200000) - 100000, r.Int63n(200000) - 100000, r.Int63n(100000) - 50000}
	switch r.Intn(5) {
	case 0: // tetrahedron
		a, b, d, e := off, ivec{off[0] + sz, off[1], off[2]}, ivec{off[0], off[1] + sz + 1, off[2]}, ivec{off[0] + 7, off[1] + 9, off[2] + sz}
		fs = append(fs, [3]ivec{a, d, b}, [3]ivec{a, b, e}, [3]ivec{b, d, e}, [3]ivec{d, a, e})
	case 1:
		box(off, sz, sz/2+100, sz/3+100)
	case 2: // two boxes sharing an edge (four faces at that edge)
		box(off, sz, sz, sz)
		box(ivec{off[0] + sz, off[1] + sz, off[2]}, sz, sz, sz)
	case 3: // fan around a vertical axis: n-gonal bipyramid
		n := 3 + r.Intn(10)
		if r.Intn(4) == 0 { // many faces at one corner
			n = 20 + r.Intn(30)
			sz += 20000
		}
		top, bot := ivec{off[0], off[1], off[2] + sz}, ivec{off[0], off[1], off[2] - sz}
		pt := func(i int) ivec {
			a := 2 * math.Pi * float64(i%n) / float64(n)
			return ivec{off[0] + int64(float64(sz)*math.Cos(a)), off[1] + int64(float64(sz)*math.Sin(a)), off[2]}
		}
		for i := 0; i < n; i++ {
			fs = append(fs, [3]ivec{pt(i), pt(i + 1), top}, [3]ivec{pt(i + 1), pt(i), bot})
		}
	case 4: // height field, open below
		n := 2 + r.Intn(3)
		if r.Intn(6) == 0 {
			n = 6 + r.Intn(3)
			sz += 10000
		}
		h := make([]int64, (n+1)*(n+1))
		for i := range h {
			h[i] = r.Int63n(sz)
		}
		p := func(i, j int) ivec {
			return ivec{off[0] + int64(i)*sz/3, off[1] + int64(j)*sz/3, off[2] + h[i*(n+1)+j]}
		}
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				quad(p(i, j), p(i+1, j), p(i+1, j+1), p(i, j+1))
			}
		}
	}
	return fs
}

func init() {
	families["mesh"] = func(c *Case) {
		r := c.R
		o := data.DefaultOptions()
		o.GoSlice.Logger = quiet()
		meld := []int64{1, 2, 5, 30, 30, 30, 31, 100, 250}[r.Intn(9)]
		o.Slicing.MeldDistance = data.Micrometer(meld)
		center := ivec{int64(r.Intn(300000) - 50000), int64(r.Intn(300000) - 50000), []int64{0, 0, 0, 100, -50, 12345}[r.Intn(6)]}
		if r.Intn(4) == 0 {
			center = ivec{0, 0, 0}
		}
		o.Printer.Center = data.NewMicroVec3(data.Micrometer(center[0]), data.Micrometer(center[1]), data.Micrometer(center[2]))
		var fs [][3]ivec
		if c.In != nil {
			// points of the specification, the 2nd one is close to the first one
			d := ivec{}
			for k := range d {
				d[k] = r.Int63n(2*meld+1) - meld
				if r.Intn(2) == 0 {
					d[k] /= 2
				}
			}
			sc := meld*4 + r.Int63n(20000)
			off := ivec{r.Int63n(20000) - 10000, r.Int63n(20000) - 10000, r.Int63n(20000) - 10000}
			pts := []ivec{off, {off[0] + d[0], off[1] + d[1], off[2] + d[2]}, {off[0] + sc, off[1], off[2]}, {off[0], off[1] + sc, off[2]}, {off[0] + sc/3, off[1] + sc/2, off[2] + sc}}
			for _, f := range c.In["faces"].([]interface{}) {
				var t [3]ivec
				for k, x := range f.([]interface{}) {
					t[k] = pts[int(x.(float64))-1]
				}
				fs = append(fs, t)
			}
		} else {
			fs = c.baseMesh()
			// disturb it
			for n := r.Intn(4); n > 0 && len(fs) > 0; n-- {
				i, j := r.Intn(len(fs)), r.Intn(len(fs))
				switch r.Intn(7) {
				case 0: // a hole
					fs = append(fs[:i], fs[i+1:]...)
				case 1: // duplicate, turned
					fs = append(fs, [3]ivec{fs[i][1], fs[i][2], fs[i][0]})
				case 2: // duplicate with the other orientation
					fs = append(fs, [3]ivec{fs[i][0], fs[i][2], fs[i][1]})
				case 3: // degenerate
					fs = append(fs, [3]ivec{fs[i][0], fs[i][0], fs[j][1]})
				case 4: // noise on one corner only
					for k := 0; k < 3; k++ {
						fs[i][r.Intn(3)][k] += r.Int63n(2*meld+1) - meld
					}
				case 5: // noise everywhere
					for a := range fs {
						for b := range fs[a] {
							for k := 0; k < 3; k++ {
								fs[a][b][k] += r.Int63n(meld/3+1) - meld/6
							}
						}
					}
				case 6:
					r.Shuffle(len(fs), func(a, b int) { fs[a], fs[b] = fs[b], fs[a] })
				}
			}
			if len(fs) == 0 {
				fs = [][3]ivec{{{0, 0, 0}, {1000, 0, 0}, {0, 1000, 0}}}
			}
		}
		in := mkModel(fs)
		e := J{"ev": "mesh", "input": fs, "meld": meld, "center": center, "err": false}
		om, err := optimizer.NewOptimizer(&o).Optimize(in)
		if err != nil {
			e["err"] = true
			c.Emit(e)
			return
		}
		placed, touching := [][3]ivec{}, [][3]int{}
		zmin, zmax := []int64{}, []int64{}
		for i := 0; i < om.FaceCount(); i++ {
			p := om.Face(i).Points()
			q := om.OptimizedFace(i)
			if p != q.Points() {
				panic("Face and OptimizedFace differ")
			}
			placed = append(placed, [3]ivec{v3(p[0]), v3(p[1]), v3(p[2])})
			touching = append(touching, q.TouchingFaceIndices())
			zmin = append(zmin, int64(q.MinZ()))
			zmax = append(zmax, int64(q.MaxZ()))
		}
		e["placed"], e["touching"], e["zmin"], e["zmax"] = placed, touching, zmin, zmax
		e["size"], e["min"], e["max"] = v3(om.Size()), v3(om.Min()), v3(om.Max())
		same := len(in) == len(fs)
		for i, t := range trisOf(in) {
			same = same && t == fs[i]
		}
		e["changed"] = !same
		c.Emit(e)
	}
}
