package main

import (
	"math"
	"regexp"
	"strconv"
	"strings"

	"github.com/aligator/goslice/data"
)

// ---- reading G-code, independently of the code under test ----

var (
	moveLine = regexp.MustCompile(`^(G0|G1)((?: [XYZFE]-?[0-9]+(?:\.[0-9]+)?)+)$`)
	moveWord = regexp.MustCompile(`([XYZFE])(-?[0-9]+(?:\.[0-9]+)?)`)
	cmdLine  = regexp.MustCompile(`^([GM][0-9]+)(.*)$`)
	cmdS     = regexp.MustCompile(`^ S(-?[0-9]+)\s*(;.*)?$`)
)

// gline makes one event of a line of G-code, local coordinates are relative to s.
//
//	mv   a move: the stated coordinates (micrometre), feed rate (mm/min) and E (0.1 micrometre)
//	cmt  a comment
//	cmd  another command, with the value of S if that is its only argument
//	raw  anything else
func gline(l string, s shift) J {
	if strings.HasPrefix(l, ";") {
		return J{"ev": "cmt", "s": l[1:]}
	}
	if m := moveLine.FindStringSubmatch(l); m != nil {
		e := J{"ev": "mv", "g": m[1] == "G1"}
		for _, w := range moveWord.FindAllStringSubmatch(m[2], -1) {
			v, err := strconv.ParseFloat(w[2], 64)
			k := strings.ToLower(w[1])
			if _, ok := e[k]; ok || err != nil {
				return J{"ev": "raw", "s": l}
			}
			switch k {
			case "x":
				e[k] = int64(math.Round(v*1000)) - s.x
			case "y":
				e[k] = int64(math.Round(v*1000)) - s.y
			case "z":
				e[k] = int64(math.Round(v * 1000))
			case "f":
				e[k] = int64(math.Round(v))
			case "e":
				e[k] = int64(math.Round(v * 10000))
			}
			if n := e[k].(int64); n > 1<<30 || n < -(1<<30) {
				return J{"ev": "raw", "s": l}
			}
		}
		return e
	}
	if m := cmdLine.FindStringSubmatch(l); m != nil {
		e := J{"ev": "cmd", "code": m[1], "s": l, "v": -1}
		if q := cmdS.FindStringSubmatch(m[2]); q != nil {
			v, _ := strconv.Atoi(q[1])
			e["v"] = v
		}
		return e
	}
	return J{"ev": "raw", "s": l}
}

// glines splits G-code into its lines.
func glines(g string) []string {
	ls := strings.Split(g, "\n")
	if len(ls) > 0 && ls[len(ls)-1] == "" {
		ls = ls[:len(ls)-1]
	}
	return ls
}

// ---- does a straight way leave the parts ----

// depth is the distance to the nearest border, and whether the place is inside of any part.
func depth(x, y float64, ps []data.LayerPart) (float64, bool) {
	best := math.Inf(1)
	inside := false
	for _, p := range ps {
		in := false
		for _, l := range append(data.Paths{p.Outline()}, p.Holes()...) {
			n := len(l)
			for i := 0; i < n; i++ {
				ax, ay := float64(l[i].X()), float64(l[i].Y())
				q := l[(i+1)%n]
				bx, by := float64(q.X()), float64(q.Y())
				dx, dy := bx-ax, by-ay
				l2 := dx*dx + dy*dy
				t := 0.0
				if l2 > 0 {
					t = math.Max(0, math.Min(1, ((x-ax)*dx+(y-ay)*dy)/l2))
				}
				best = math.Min(best, math.Hypot(x-ax-t*dx, y-ay-t*dy))
				if (ay > y) != (by > y) && x < ax+(y-ay)*dx/dy {
					in = !in
				}
			}
		}
		inside = inside || in
	}
	return best, inside
}

// leaves: 0 the way from a to b stays inside of the parts, 1 some of it is outside, 2 that cannot be told
func leaves(ax, ay, bx, by float64, ps []data.LayerPart, tol float64) int {
	n := math.Hypot(bx-ax, by-ay)
	res := 0
	for t := 0.0; ; {
		x, y := ax, ay
		if n > 0 {
			x, y = ax+(bx-ax)*t/n, ay+(by-ay)*t/n
		}
		d, in := depth(x, y, ps)
		if d > tol {
			if !in {
				return 1
			}
			if t >= n {
				return res
			}
			t = math.Min(n, t+d-tol/2)
			continue
		}
		res = 2
		if t >= n {
			return res
		}
		t = math.Min(n, t+tol/2)
	}
}
