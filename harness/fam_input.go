package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strconv"

	"github.com/aligator/goslice"
	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/reader"
)

// nmOf is the value in nanometres of a coordinate written with three decimals of a micrometre.
type coord struct {
	nm   int64
	text string
}

// genCoord makes a coordinate and its text, in one of the notations ASCII STL files use.
func (c *Case) genCoord() coord {
	r := c.R
	var nm int64
	switch r.Intn(8) {
	case 0:
		nm = 0
	case 1: // ties and near ties
		nm = int64(r.Intn(40000)-20000)*1000 + 500 + int64(r.Intn(3)-1)*int64(r.Intn(60))
	case 2: // huge
		nm = int64(r.Intn(1800000000) - 900000000)
	case 3: // whole micrometres
		nm = int64(r.Intn(400000)-200000) * 1000
	case 4: // tiny
		nm = int64(r.Intn(4001) - 2000)
	default:
		nm = int64(r.Intn(400000000) - 200000000)
	}
	return coord{nm, fmtCoord(nm, r.Intn(6))}
}

func fmtCoord(nm int64, style int) string {
	v := float64(nm) / 1e6
	switch style {
	case 0:
		return strconv.FormatFloat(v, 'e', 9, 64)
	case 1:
		return strconv.FormatFloat(v, 'E', -1, 64)
	case 2:
		s := strconv.FormatFloat(v, 'f', 6, 64)
		if v >= 0 {
			s = "+" + s
		}
		return s
	case 3:
		return strconv.FormatFloat(v, 'f', 12, 64)
	}
	return strconv.FormatFloat(v, 'f', 6, 64)
}

func (c *Case) readAndRun(path string, e J) {
	e["ev"] = "file"
	e["err"], e["out"] = false, []interface{}{}
	o := data.DefaultOptions()
	o.GoSlice.Logger = quiet()
	o.GoSlice.InputFilePath = path
	m, err := reader.Reader(&o).Read(path)
	if err != nil {
		e["err"] = true
	} else {
		out := [][]int64{}
		for i := 0; i < m.FaceCount(); i++ {
			t := []int64{}
			for _, p := range m.Face(i).Points() {
				t = append(t, int64(p.X()), int64(p.Y()), int64(p.Z()))
			}
			out = append(out, t)
		}
		e["out"] = out
	}
	// the same file through a run, with stand-ins for what comes after the reader
	s := goslice.NewGoSlice(o)
	p := &pipe{c: &Case{}, fail: "none"}
	s.Optimizer, s.Slicer, s.Modifiers, s.Generator = fkOpt{p}, fkSlicer{p, 3}, nil, fkGen{p, "G1 X1\n"}
	err = s.Process()
	e["runerr"] = err != nil
	_, serr := os.Stat(path + ".gcode")
	e["written"] = serr == nil
	if _, ok := e["nameless"]; !ok {
		e["nameless"] = false
	}
	if _, ok := e["what"]; !ok {
		e["what"] = e["kind"]
	}
	b, _ := os.ReadFile(path)
	if len(b) > 300 {
		b = b[:300]
	}
	e["head"] = strconv.QuoteToASCII(string(b))
	c.Emit(e)
}

var badToks = []string{"abc", "1.0.0", "--1", "1e", "vertexx", "xfacet", "1,5", "0x", "FACET", "12a", "endfacetendsolid", "."}

// asciiFile renders tokens, filling in numbers, and returns the tokens with their values.
func (c *Case) asciiFile(kinds []string, header string) ([]byte, [][]interface{}) {
	r := c.R
	var b bytes.Buffer
	nl := "\n"
	if r.Intn(4) == 0 {
		nl = "\r\n"
	}
	b.WriteString(header + nl)
	toks := [][]interface{}{}
	sep := []string{" ", "  ", "\t", nl, nl + nl + "   "}
	vs := c.vertices()
	var next []coord
	for i, k := range kinds {
		txt, val := k, int64(0)
		switch k {
		case "facet":
			vs.facet()
		case "vertex":
			v := vs.vertex()
			next = v[:]
		case "num":
			var cd coord
			if len(next) > 0 {
				cd, next = next[0], next[1:]
				if r.Intn(3) == 0 { // the same number may be written in several ways
					cd.text = fmtCoord(cd.nm, r.Intn(6))
				}
			} else {
				cd = c.genCoord()
			}
			txt, val = cd.text, cd.nm
		case "bad":
			txt = badToks[r.Intn(len(badToks))]
		}
		b.WriteString(txt)
		toks = append(toks, []interface{}{k, val})
		if i < len(kinds)-1 || r.Intn(3) > 0 {
			if k == "facet" || k == "normal" || k == "vertex" || (k == "num" && r.Intn(6) > 0) {
				b.WriteString(" ")
			} else {
				b.WriteString(sep[r.Intn(len(sep))])
			}
		}
	}
	return b.Bytes(), toks
}

// vertices makes the corners of triangles: some triangles are degenerate or the same as the one before.
type vertices struct {
	c    *Case
	mode int
	old  [][3]coord
	at   int
}

func (c *Case) vertices() *vertices { return &vertices{c: c} }

func (v *vertices) facet() { v.mode, v.at = v.c.R.Intn(12), 0 }

func (v *vertices) vertex() [3]coord {
	n, k := len(v.old), -1
	switch {
	case v.mode == 0 && v.at > 0: // two corners are the same place, or all of them
		if v.c.R.Intn(3) > 0 {
			k = n - 1 - v.c.R.Intn(v.at)
		}
	case v.mode == 1 && v.at > 0:
		k = n - v.at
	case v.mode == 2: // the triangle before once more
		k = n - 3
	case v.mode == 3: // shares corners with others
		k = n - 1 - v.c.R.Intn(6)
	}
	p := [3]coord{}
	if k >= 0 && k < n {
		p = v.old[k]
	} else {
		p = [3]coord{v.c.genCoord(), v.c.genCoord(), v.c.genCoord()}
	}
	v.old = append(v.old, p)
	v.at++
	return p
}

var tmpl = []string{"facet", "normal", "num", "num", "num", "outer", "loop", "vertex", "num", "num", "num", "vertex", "num", "num", "num", "vertex", "num", "num", "num", "endloop", "endfacet"}

func (c *Case) binaryFile(count, length int) ([]byte, [][]int64) {
	r := c.R
	hdr := make([]byte, 80)
	switch r.Intn(3) {
	case 0:
		copy(hdr, "solid binary with a misleading header")
	case 1:
		for i := range hdr {
			hdr[i] = byte(r.Intn(256))
		}
	}
	var b bytes.Buffer
	b.Write(hdr)
	w := func(v interface{}) { _ = binary.Write(&b, binary.LittleEndian, v) }
	w(uint32(count))
	tris := [][]int64{}
	vs := c.vertices()
	for i := 0; i < count; i++ {
		vs.facet()
		if r.Intn(5) == 0 {
			w([3]float32{float32(math.NaN()), 0, 0}) // normals are not used
		} else {
			w([3]float32{0, 0, 1})
		}
		t := []int64{}
		for k := 0; k < 3; k++ {
			for _, cd := range vs.vertex() {
				f := float32(float64(cd.nm) / 1e6)
				w(f)
				t = append(t, int64(math.Round(float64(f)*1e6)))
			}
		}
		tris = append(tris, t)
		w(uint16(r.Intn(65536)))
	}
	for b.Len() < length {
		b.WriteByte(byte(r.Intn(256)))
	}
	return b.Bytes()[:length], tris
}

// badNumber makes a file of three good triangles with one number, the at-th coordinate of them, which cannot be used.
func (c *Case) badNumber(what string, at int, bin bool) []byte {
	asc := map[string][]string{"nonfinite": {"NaN", "Inf", "-inf"}, "huge": {"3e38", "-1e30", "1e39"}}[what]
	flt := map[string][]float64{"nonfinite": {math.NaN(), math.Inf(1), math.Inf(-1)}, "huge": {3e38, -1e30, 1e25}}[what]
	which := c.R.Intn(3)
	if bin {
		b, _ := c.binaryFile(3, 84+50*3)
		binary.LittleEndian.PutUint32(b[84+50*(at/9)+12+4*(at%9):], math.Float32bits(float32(flt[which])))
		return b
	}
	var b bytes.Buffer
	b.WriteString("solid x\n")
	k := 0
	num := func() string {
		t := c.genCoord().text
		if k == at {
			t = asc[which]
		}
		k++
		return t
	}
	for i := 0; i < 3; i++ {
		b.WriteString("facet normal 0 0 1\nouter loop\n")
		for j := 0; j < 3; j++ {
			fmt.Fprintf(&b, "vertex %s %s %s\n", num(), num(), num())
		}
		b.WriteString("endloop\nendfacet\n")
	}
	b.WriteString("endsolid x\n")
	return b.Bytes()
}

func init() {
	families["input"] = func(c *Case) {
		must(os.MkdirAll(c.Tmp, 0o755))
		defer os.RemoveAll(c.Tmp)
		path := filepath.Join(c.Tmp, []string{"m.stl", "model.v2.STL", "noext"}[c.R.Intn(3)])
		headers := []string{"solid x", "solid ", "solid a b c facet vertex", "solid endsolid"}
		h := headers[c.R.Intn(len(headers))]
		if c.In == nil { // a bigger random file
			n := 1 + c.R.Intn(40)
			if c.R.Intn(40) == 0 {
				n = 200 + c.R.Intn(2500)
			}
			if n < 100 && c.R.Intn(2) == 0 {
				var k []string
				for i := 0; i < n; i++ {
					k = append(k, tmpl...)
				}
				k = append(k, "endsolid")
				cut := c.R.Intn(4) == 0
				if cut {
					k = k[:c.R.Intn(len(k))]
				}
				b, toks := c.asciiFile(k, h)
				must(os.WriteFile(path, b, 0o644))
				c.readAndRun(path, J{"kind": "ascii", "header": true, "toks": toks})
			} else {
				length := 84 + 50*n
				if c.R.Intn(3) == 0 {
					length = c.R.Intn(length + 30)
				}
				b, tris := c.binaryFile(n, length)
				must(os.WriteFile(path, b, 0o644))
				c.readAndRun(path, J{"kind": "binary", "count": n, "len": length, "tris": tris})
			}
			return
		}
		switch c.In["kind"].(string) {
		case "ascii":
			var k []string
			for _, t := range c.In["toks"].([]interface{}) {
				k = append(k, t.(string))
			}
			b, toks := c.asciiFile(k, h)
			must(os.WriteFile(path, b, 0o644))
			c.readAndRun(path, J{"kind": "ascii", "header": true, "toks": toks, "what": c.In["what"]})
		case "binary":
			n, length := int(c.In["count"].(float64)), int(c.In["len"].(float64))
			b, tris := c.binaryFile(n, length)
			must(os.WriteFile(path, b, 0o644))
			c.readAndRun(path, J{"kind": "binary", "count": n, "len": length, "tris": tris})
		case "special":
			w := c.In["what"].(string)
			k := append(append([]string{}, tmpl...), "endsolid")
			var b []byte
			if w == "nameless" {
				b, toks := c.asciiFile(k, "solid")
				must(os.WriteFile(path, b, 0o644))
				c.readAndRun(path, J{"kind": "ascii", "header": true, "nameless": true, "toks": toks, "what": w})
				return
			}
			switch w {
			case "noheader":
				b, _ = c.asciiFile(k, "")
			case "badheader":
				b, _ = c.asciiFile(k, "solidx y")
			case "upperheader":
				b, _ = c.asciiFile(k, " solid y")
			case "nonfinite", "huge":
				b = c.badNumber(w, int(c.In["at"].(float64)), c.In["bin"].(bool))
			case "empty":
				b = []byte{}
			case "directory":
				must(os.MkdirAll(path, 0o755))
			}
			if b != nil {
				must(os.WriteFile(path, b, 0o644))
			}
			c.readAndRun(path, J{"kind": "special", "what": w, "tris": []int{}})
		default:
			must(fmt.Errorf("unknown case"))
		}
	}
}
