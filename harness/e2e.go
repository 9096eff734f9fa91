package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"github.com/aligator/goslice/data"
)

// Complete runs with real model files.

// solid makes some shells within the size, with the faces of them.
func (c *Case) solid(size float64, levels int) (shells []*shell) {
	r := c.R
again:
	shells = nil
	n := 1 + r.Intn(2)
	for i := 0; i < n; i++ {
		rad, ox := size, 0.0
		if n > 1 {
			rad, ox = size*0.45, float64(2*i-1)*size*0.55
		}
		lv := 2 + r.Intn(levels)
		z := int64(0)
		var zs []int64
		var xf []xform
		for k := 0; k < lv; k++ {
			zs = append(zs, z)
			z += 100 + int64(r.Intn(900))
			if k > 0 && k < lv-1 && r.Intn(5) == 0 {
				z = zs[k] // a terrace
			}
			t := rad * 0.08
			xf = append(xf, xform{0.45 + 0.5*r.Float64(), t * (r.Float64() - 0.5), t * (r.Float64() - 0.5), 0.25 * (r.Float64() - 0.5)})
		}
		if zs[0] == zs[lv-1] {
			zs[lv-1] += 333
		}
		if r.Intn(3) == 0 {
			for k := range xf {
				xf[k] = xf[0]
			}
		}
		shells = c.nest(shells, ox, 0, rad, zs, xf, 0, 0, 0, lv-1)
	}
	if closePoints(shells, 80) {
		goto again
	}
	return
}

func (c *Case) solidFaces(size float64, levels int) (fs [][3]ivec) {
	for _, s := range c.solid(size, levels) {
		fs = append(fs, s.faces()...)
	}
	return c.shuffleFaces(fs)
}

// stl writes a binary STL file.
func stl(path string, fs [][3]ivec) {
	var b bytes.Buffer
	b.Write(make([]byte, 80))
	must(binary.Write(&b, binary.LittleEndian, uint32(len(fs))))
	for _, f := range fs {
		rec := make([]float32, 12)
		for i, p := range f {
			for k := 0; k < 3; k++ {
				rec[3+3*i+k] = float32(float64(p[k]) / 1000)
			}
		}
		must(binary.Write(&b, binary.LittleEndian, rec))
		b.Write([]byte{0, 0})
	}
	must(os.WriteFile(path, b.Bytes(), 0600))
}

// flagsOf writes all options as command line.
func flagsOf(o data.Options) []string {
	var out []string
	for name, v := range flat(o) {
		switch t := v.(type) {
		case string:
			if name != "output" || t != "" {
				out = append(out, "--"+name+"="+t)
			}
		case []string:
			if name == "center" {
				out = append(out, "--"+name+"="+strings.Join(t, "_"))
			} else {
				out = append(out, "--"+name+"="+strings.Join(t, "\n")+"\n")
			}
		case [][2]string:
			var s []string
			for _, q := range t {
				s = append(s, q[0]+"="+q[1])
			}
			if len(s) > 0 {
				out = append(out, "--"+name+"="+strings.Join(s, ","))
			}
		default:
			panic(fmt.Sprint(name, v))
		}
	}
	return out
}

// program runs the real program (if there is one) with all options given as flags.
func (c *Case) program(o data.Options, in, out string) (code int, text string) {
	o.GoSlice.OutputFilePath = out
	args := append(flagsOf(o), in)
	cmd := exec.Command(os.Getenv("GOSLICE_BIN"), args...)
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &b
	err := cmd.Run()
	if x, ok := err.(*exec.ExitError); ok {
		return x.ExitCode(), b.String()
	}
	must(err)
	return 0, b.String()
}

func (c *Case) dir() string {
	d := filepath.Join(c.Tmp, fmt.Sprintf("case%d", c.ID))
	must(os.MkdirAll(d, 0700))
	return d
}

// sliceOptions are usual options for complete runs.
func (c *Case) sliceOptions() data.Options {
	r := c.R
	o := c.regionOptions(r.Intn(3) == 0)
	if o.Printer.ExtrusionWidth < 300 {
		o.Printer.ExtrusionWidth += 150
	}
	c.printOptions(&o)
	o.Print.InitialLayerThickness = data.Micrometer(100 + r.Intn(300))
	if o.Print.Support.PatternSpacing < 1 {
		o.Print.Support.PatternSpacing += 1
	}
	if len(o.Filament.FanSpeed.LayerToSpeedLUT) == 0 { // there is no flag for an empty table
		o.Filament.FanSpeed.LayerToSpeedLUT[3] = 77
	}
	o.Printer.Center = data.NewMicroVec3(data.Micrometer(r.Intn(200000)), data.Micrometer(r.Intn(200000)), 0)
	return o
}

func finite(x float64) bool { return !math.IsNaN(x) && !math.IsInf(x, 0) }
