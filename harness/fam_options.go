package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"

	"github.com/aligator/goslice/data"
)

// Option values as text, and the command line.

func chars(s string) []string {
	out := []string{}
	for _, r := range s {
		out = append(out, string(r))
	}
	return out
}

func mmText(v data.Millimeter) string {
	s := strconv.FormatFloat(float64(v), 'f', -1, 32)
	if s == "-0" {
		return "0"
	}
	return s
}

func fanRows(f data.FanSpeedOptions) [][2]string {
	out := [][2]string{}
	for k, v := range f.LayerToSpeedLUT {
		out = append(out, [2]string{strconv.Itoa(k), strconv.Itoa(v)})
	}
	sort.Slice(out, func(i, j int) bool { return out[i][0] < out[j][0] })
	return out
}

func rows(g data.GCodeHunk) []string { return append([]string{}, g.GCodeLines...) }

func vecText(v data.MicroVec3) []string {
	return []string{strconv.Itoa(int(v.X())), strconv.Itoa(int(v.Y())), strconv.Itoa(int(v.Z()))}
}

type setter interface {
	Set(string) error
	String() string
}

// fresh gives a value of a type with something in it, and a way to look at it.
func fresh(t string) (setter, func() interface{}) {
	switch t {
	case "um":
		v := data.Micrometer(4711)
		return &v, func() interface{} { return strconv.Itoa(int(v)) }
	case "mm":
		v := data.Millimeter(47.25)
		return &v, func() interface{} { return mmText(v) }
	case "vec":
		v := data.NewMicroVec3(11, -12, 13)
		return v.(setter), func() interface{} { return vecText(v) }
	case "fan":
		v := data.FanSpeedOptions{LayerToSpeedLUT: map[int]int{9: 99}}
		return &v, func() interface{} { return fanRows(v) }
	case "script":
		v := data.NewGCodeHunk([]string{"OLD", " ROWS"})
		return &v, func() interface{} { return rows(v) }
	}
	panic(t)
}

func (c *Case) setOption(t, text string) {
	v, look := fresh(t)
	old := look()
	err := v.Set(text)
	e := J{"ev": "set", "t": t, "text": chars(text), "old": old, "err": err != nil, "val": look(), "again": J{"err": false, "val": look()}, "near": true}
	if err == nil {
		w, lookw := fresh(t)
		printed := v.String()
		e2 := w.Set(printed)
		e["again"] = J{"err": e2 != nil, "val": lookw()}
		e["printed"] = chars(printed)
		e["near"] = w.String() == printed || t == "fan"
	}
	c.Emit(e)
}

func numberText(c *Case, frac bool) string {
	r := c.R
	s := []string{"", "", "", "-", "+"}[r.Intn(5)]
	n := []int{1, 2, 3, 5, 9, 18, 19, 20}[r.Intn(8)]
	switch r.Intn(8) {
	case 0:
		s += []string{"9223372036854775807", "9223372036854775808", "9223372036854775809", "2147483648", "4294967296", "255", "256", "0"}[r.Intn(8)]
	default:
		for i := 0; i < n; i++ {
			d := r.Intn(10)
			if i == 0 && d == 0 {
				d = 1
			}
			s += strconv.Itoa(d)
		}
	}
	if frac && r.Intn(2) == 0 {
		s += "."
		for i := r.Intn(5); i > 0; i-- {
			s += strconv.Itoa(r.Intn(10))
		}
	}
	if r.Intn(12) == 0 {
		i := r.Intn(len(s) + 1)
		s = s[:i] + []string{" ", ",", "_", "x", "-", ".", "e", "%"}[r.Intn(8)] + s[i:]
	}
	return s
}

var valueFlags = map[string]string{}

func init() {
	for _, f := range strings.Fields("meld-distance join-polygon-snap-distance finish-polygon-snap-distance initial-layer-thickness layer-thickness filament-diameter extrusion-width") {
		valueFlags[f] = "um"
	}
	for _, f := range strings.Fields("initial-layer-speed layer-speed outer-perimeter-speed move-speed support-pattern-spacing support-gap skirt-distance retraction-speed retraction-length retraction-z-hop") {
		valueFlags[f] = "mm"
	}
	for _, f := range strings.Fields("inset-count infill-overlap-percent additional-internal-infill-overlap-percent infill-percent infill-rotation-degree number-bottom-layers number-top-layers support-threshold-angle support-top-gap-layers support-interface-layers skirt-count brim-count initial-bed-temperature initial-hot-end-temperature bed-temperature hot-end-temperature initial-temperature-layer-count extrusion-multiplier") {
		valueFlags[f] = "int"
	}
	for _, f := range strings.Fields("infill-zig-zag support-enabled force-safe-gcode has-heated-bed") {
		valueFlags[f] = "bool"
	}
	valueFlags["center"], valueFlags["fan-speed"], valueFlags["start-gcode"], valueFlags["end-gcode"], valueFlags["output"] = "vec", "fan", "script", "script", "str"
}

// flat gives every option under the name of its flag.
func flat(o data.Options) J {
	i := func(v int) string { return strconv.Itoa(v) }
	u := func(v data.Micrometer) string { return strconv.Itoa(int(v)) }
	m := mmText
	b := strconv.FormatBool
	p, f, q, s := o.Print, o.Filament, o.Printer, o.Slicing
	return J{
		"output": o.GoSlice.OutputFilePath, "meld-distance": u(s.MeldDistance), "join-polygon-snap-distance": u(s.JoinPolygonSnapDistance), "finish-polygon-snap-distance": u(s.FinishPolygonSnapDistance),
		"initial-layer-speed": m(p.IntialLayerSpeed), "layer-speed": m(p.LayerSpeed), "outer-perimeter-speed": m(p.OuterPerimeterSpeed), "move-speed": m(p.MoveSpeed),
		"initial-layer-thickness": u(p.InitialLayerThickness), "layer-thickness": u(p.LayerThickness), "inset-count": i(p.InsetCount), "infill-overlap-percent": i(p.InfillOverlapPercent),
		"additional-internal-infill-overlap-percent": i(p.AdditionalInternalInfillOverlapPercent), "infill-percent": i(p.InfillPercent), "infill-rotation-degree": i(p.InfillRotationDegree),
		"infill-zig-zag": b(p.InfillZigZag), "number-bottom-layers": i(p.NumberBottomLayers), "number-top-layers": i(p.NumberTopLayers),
		"support-enabled": b(p.Support.Enabled), "support-threshold-angle": i(p.Support.ThresholdAngle), "support-top-gap-layers": i(p.Support.TopGapLayers),
		"support-interface-layers": i(p.Support.InterfaceLayers), "support-pattern-spacing": m(p.Support.PatternSpacing), "support-gap": m(p.Support.Gap),
		"skirt-count": i(p.BrimSkirt.SkirtCount), "skirt-distance": m(p.BrimSkirt.SkirtDistance), "brim-count": i(p.BrimSkirt.BrimCount),
		"filament-diameter": u(f.FilamentDiameter), "initial-bed-temperature": i(f.InitialBedTemperature), "initial-hot-end-temperature": i(f.InitialHotEndTemperature),
		"bed-temperature": i(f.BedTemperature), "hot-end-temperature": i(f.HotEndTemperature), "initial-temperature-layer-count": i(f.InitialTemperatureLayerCount),
		"retraction-speed": m(f.RetractionSpeed), "retraction-length": m(f.RetractionLength), "retraction-z-hop": m(f.RetractionZHop), "fan-speed": fanRows(f.FanSpeed),
		"extrusion-multiplier": i(f.ExtrusionMultiplier), "extrusion-width": u(q.ExtrusionWidth), "center": vecText(q.Center), "force-safe-gcode": b(q.ForceSafeStartStopGCode),
		"has-heated-bed": b(q.HasHeatedBed), "start-gcode": rows(q.StartGCode), "end-gcode": rows(q.EndGCode),
	}
}

// flagsChild is what the harness does as a child: it parses the command line with the real code.
func flagsChild(args []string) {
	os.Args = append([]string{"goslice"}, args...)
	o := data.ParseFlags()
	b, _ := json.Marshal(J{"opts": flat(o), "input": o.GoSlice.InputFilePath, "version": o.GoSlice.PrintVersion})
	fmt.Printf("FLAGS %s\n", b)
	os.Exit(0)
}

func (c *Case) flagText(t string) string {
	r := c.R
	switch t {
	case "um", "int":
		if r.Intn(10) == 0 {
			return numberText(c, false)
		}
		return strconv.Itoa(r.Intn(3000) - 500)
	case "mm":
		if r.Intn(10) == 0 {
			return numberText(c, true)
		}
		return strconv.FormatFloat(float64(r.Intn(60000)-3000)/100, 'f', -1, 64)
	case "bool":
		return []string{"true", "false", "true", "false", "true", "false", "1", "0", "T", "F", "True", "False", "TRUE", "FALSE", "t", "f", "yes", ""}[r.Intn(18)]
	case "vec":
		if r.Intn(8) == 0 {
			return []string{"1_2", "1_2_3_4", "_1_2", "a_b_c", "", "1_2_", "1.5_2_3"}[r.Intn(7)]
		}
		return fmt.Sprintf("%d_%d_%d", r.Intn(300000)-50000, r.Intn(300000)-50000, r.Intn(20000)-5000)
	case "fan":
		if r.Intn(8) == 0 {
			return []string{"1=256", "-1=5", "1", "1=2,", "", "1=2=3", "2=-1", "1 =2", "a=1"}[r.Intn(9)]
		}
		out := []string{}
		for i := 0; i <= r.Intn(4); i++ {
			out = append(out, fmt.Sprintf("%d=%d", 10*i+r.Intn(10), r.Intn(256)))
		}
		return strings.Join(out, ",")
	case "script":
		if r.Intn(8) == 0 {
			return []string{"G28", "", "M104 S0;", "\\n"}[r.Intn(4)]
		}
		out := ""
		for i := 0; i <= r.Intn(4); i++ {
			out += []string{"G28", " M104 S{print_temperature}", "", "  ", "; 100%", "M117 a=b, c_d\t", "G1 X-1.5 \r"}[r.Intn(7)] + "\n"
		}
		return out + []string{"", "", "M84"}[r.Intn(3)]
	}
	return []string{"", "a.gcode", "x y=1", "/tmp/ü.g", "-"}[r.Intn(5)]
}

func init() {
	families["options"] = func(c *Case) {
		if c.In != nil {
			s := ""
			for _, x := range c.In["text"].([]interface{}) {
				s += x.(string)
			}
			c.setOption(c.In["t"].(string), s)
			return
		}
		r := c.R
		if r.Intn(3) > 0 {
			t := []string{"um", "mm", "vec", "fan", "script"}[r.Intn(5)]
			switch t {
			case "um":
				c.setOption(t, numberText(c, false))
			case "mm":
				c.setOption(t, numberText(c, true))
			case "vec":
				s := numberText(c, false) + "_" + numberText(c, false) + "_" + numberText(c, false)
				c.setOption(t, s)
			case "fan":
				s := []string{}
				for i := 0; i <= r.Intn(5); i++ {
					l := strconv.Itoa(r.Intn(500))
					if r.Intn(6) == 0 {
						l = numberText(c, false)
					}
					v := strconv.Itoa(r.Intn(256))
					if r.Intn(8) == 0 {
						v = numberText(c, false)
					}
					s = append(s, l+"="+v)
				}
				c.setOption(t, strings.Join(s, ","))
			default:
				c.setOption(t, c.flagText(t))
			}
			return
		}
		// the command line
		names := []string{}
		for n := range valueFlags {
			names = append(names, n)
		}
		sort.Strings(names)
		type arg struct {
			name, text string
		}
		var given []arg
		n := 1 + r.Intn(4)
		if r.Intn(4) == 0 {
			n = 20
		}
		first := c.ID % len(names) // every flag has its turn
		for i := 0; i < n; i++ {
			name := names[r.Intn(len(names))]
			if i == 0 {
				name = names[first]
			} else if r.Intn(6) == 0 {
				name = given[r.Intn(len(given))].name
			}
			given = append(given, arg{name, c.flagText(valueFlags[name])})
		}
		input := []string{"", "m.stl", "dir/some model.STL"}[r.Intn(3)]
		at := r.Intn(len(given) + 1)
		var args []string
		for i, a := range given {
			if i == at && input != "" {
				args = append(args, input)
			}
			switch {
			case a.name == "output" && r.Intn(2) == 0:
				args = append(args, "-o", a.text)
			case valueFlags[a.name] == "bool" && a.text == "true" && r.Intn(2) == 0:
				args = append(args, "--"+a.name)
			case valueFlags[a.name] != "bool" && r.Intn(3) == 0:
				args = append(args, "--"+a.name, a.text)
			default:
				args = append(args, "--"+a.name+"="+a.text)
			}
		}
		if at == len(given) && input != "" {
			args = append(args, input)
		}
		self, err := os.Executable()
		must(err)
		cmd := exec.Command(self, append([]string{"flags-child"}, args...)...)
		var out, eout bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &eout
		err = cmd.Run()
		code := 0
		if x, ok := err.(*exec.ExitError); ok {
			code = x.ExitCode()
		} else if err != nil {
			panic(err)
		}
		list := [][]interface{}{}
		for _, a := range given {
			list = append(list, []interface{}{a.name, chars(a.text)})
		}
		e := J{"ev": "flags", "args": list, "input": input, "code": code, "def": flat(data.DefaultOptions()), "got": J{}, "crash": strings.Contains(eout.String(), "panic")}
		if code == 0 {
			i := strings.Index(out.String(), "FLAGS ")
			got := J{}
			must(json.Unmarshal([]byte(out.String()[i+6:]), &got))
			e["got"] = got
		}
		c.Emit(e)
	}
}
