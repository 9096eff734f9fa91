package main

import (
	"errors"
	"fmt"
	"io"
	"log"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/aligator/goslice"
	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/handler"
	"github.com/aligator/goslice/writer"
)

func quiet() *log.Logger { return log.New(io.Discard, "", 0) }

// ---- tokens: stand-ins of the values handed from step to step ----

type tokModel struct {
	data.Model
	tok   string
	faces int
}

func (t tokModel) FaceCount() int      { return t.faces }
func (t tokModel) Min() data.MicroVec3 { return data.NewMicroVec3(0, 0, 0) }
func (t tokModel) Max() data.MicroVec3 { return data.NewMicroVec3(1, 1, 1) }

type tokOpt struct {
	data.OptimizedModel
	tok string
}

func (t tokOpt) Min() data.MicroVec3 { return data.NewMicroVec3(0, 0, 0) }
func (t tokOpt) Max() data.MicroVec3 { return data.NewMicroVec3(1, 1, 1) }

type tokLayer struct {
	data.PartitionedLayer
	tok string
}

func tokOf(v interface{}) string {
	switch x := v.(type) {
	case tokModel:
		return x.tok
	case tokOpt:
		return x.tok
	case []data.PartitionedLayer:
		s := ""
		for _, l := range x {
			t, ok := l.(tokLayer)
			if !ok {
				return "?"
			}
			s += t.tok
		}
		return s
	case nil:
		return "nil"
	}
	return "?"
}

type stepErr struct{ s string }

func (e stepErr) Error() string { return "fail " + e.s }

type pipe struct {
	c    *Case
	fail string
}

func (p *pipe) step(ev, name string, f J) error {
	f["ev"] = ev
	var err error
	f["res"] = "ok"
	if p.fail == name {
		f["res"] = "err"
		err = stepErr{name}
	}
	p.c.Emit(f)
	return err
}

type fkReader struct {
	*pipe
	faces int
}

func (f fkReader) Read(fn string) (data.Model, error) {
	err := f.step("read", "read", J{"arg": f.c.rel(fn)})
	return tokModel{tok: "M", faces: f.faces}, err
}

type fkOpt struct{ *pipe }

func (f fkOpt) Optimize(m data.Model) (data.OptimizedModel, error) {
	err := f.step("optimize", "optimize", J{"arg": tokOf(m)})
	return tokOpt{tok: "O"}, err
}

type fkSlicer struct {
	*pipe
	layers int
}

func (f fkSlicer) Slice(m data.OptimizedModel) ([]data.PartitionedLayer, error) {
	err := f.step("slice", "slice", J{"arg": tokOf(m)})
	l := make([]data.PartitionedLayer, f.layers)
	for i := range l {
		l[i] = tokLayer{tok: "L"}
	}
	return l, err
}

type fkMod struct {
	*pipe
	handler.Named
	i int
}

func (f fkMod) Init(m data.OptimizedModel) {
	_ = f.step("minit", "-", J{"i": f.i, "arg": tokOf(m)})
}
func (f fkMod) Modify(l []data.PartitionedLayer) error {
	err := f.step("modify", fmt.Sprintf("modify%d", f.i), J{"i": f.i, "arg": tokOf(l)})
	// replace the layers as the real modifiers do: the next step has to see it
	for k := range l {
		if t, ok := l[k].(tokLayer); ok {
			l[k] = tokLayer{tok: t.tok + fmt.Sprint(f.i)}
		}
	}
	return err
}

type fkGen struct {
	*pipe
	gcode string
}

func (f fkGen) Init(m data.OptimizedModel) { _ = f.step("ginit", "-", J{"arg": tokOf(m)}) }
func (f fkGen) Generate(l []data.PartitionedLayer) (string, error) {
	err := f.step("generate", "generate", J{"arg": tokOf(l)})
	return f.gcode, err
}

// fkWriter records the call and either writes with the real writer or not at all.
type fkWriter struct {
	*pipe
	gcode string
	real  handler.GCodeWriter
}

func (f fkWriter) Write(g, dest string) error {
	tok := "?"
	if g == f.gcode {
		tok = "G"
	}
	if f.real != nil {
		err := f.real.Write(g, dest)
		res := "ok"
		if err != nil {
			res = "err"
		}
		f.c.Emit(J{"ev": "write", "arg": tok, "dest": f.c.rel(dest), "res": res})
		return err
	}
	err := f.step("write", "write", J{"arg": tok, "dest": f.c.rel(dest)})
	if err == nil {
		must(os.WriteFile(dest, []byte(g), 0o644))
	}
	return err
}

func (c *Case) rel(p string) string {
	if strings.HasPrefix(p, c.Tmp+"/") {
		return p[len(c.Tmp)+1:]
	}
	return p
}

// dirState lists the files below dir with a token for their content.
func dirState(dir string, tokens map[string]string) []J {
	var out []J
	_ = filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err != nil || i.IsDir() {
			return nil
		}
		b, _ := os.ReadFile(p)
		t, ok := tokens[string(b)]
		if !ok {
			t = fmt.Sprintf("?%d bytes", len(b))
		}
		r, _ := filepath.Rel(dir, p)
		out = append(out, J{"name": r, "tok": t})
		return nil
	})
	sort.Slice(out, func(i, j int) bool { return out[i]["name"].(string) < out[j]["name"].(string) })
	if out == nil {
		out = []J{}
	}
	return out
}

func init() {
	families["pipeline"] = func(c *Case) {
		in := c.In
		must(os.MkdirAll(c.Tmp, 0o755))
		defer os.RemoveAll(c.Tmp)
		mods := int(in["mods"].(float64))
		fail := in["fail"].(string)
		faces := int(in["faces"].(float64))
		target := in["target"].(string) // "default", "set", "input", "nodir", "full"
		exists := in["exists"].(bool)   // target file exists before
		wr := in["writer"].(string)     // "fake", "real"
		big := in["big"].(bool)         // big G-code

		gcode := ";gcode\nG1 X1\n%d%s\n"
		if big {
			gcode += strings.Repeat("G1 X1.00 Y2.00 E3.0000\n", 150000)
		}
		old := strings.Repeat("old content which is longer\n", 100)

		p := &pipe{c: c, fail: fail}
		o := data.DefaultOptions()
		o.GoSlice.Logger = quiet()
		o.GoSlice.InputFilePath = filepath.Join(c.Tmp, "in", "model.v1.stl")
		must(os.MkdirAll(filepath.Join(c.Tmp, "in"), 0o755))
		must(os.MkdirAll(filepath.Join(c.Tmp, "out"), 0o755))
		must(os.WriteFile(o.GoSlice.InputFilePath, []byte("input"), 0o644))
		dest := o.GoSlice.InputFilePath + ".gcode"
		switch target {
		case "set":
			dest = filepath.Join(c.Tmp, "out", "result.g")
			o.GoSlice.OutputFilePath = dest
		case "input":
			dest = o.GoSlice.InputFilePath
			o.GoSlice.OutputFilePath = dest
		case "full": // a device where each write fails
			dest = "/dev/full"
			o.GoSlice.OutputFilePath = dest
		case "nodir":
			dest = filepath.Join(c.Tmp, "missing", "result.g")
			o.GoSlice.OutputFilePath = dest
		}
		if exists {
			must(os.WriteFile(dest, []byte(old), 0o644))
		}
		s := goslice.NewGoSlice(o)
		s.Reader = fkReader{p, faces}
		s.Optimizer = fkOpt{p}
		s.Slicer = fkSlicer{p, int(in["layers"].(float64))}
		s.Modifiers = nil
		for i := 1; i <= mods; i++ {
			s.Modifiers = append(s.Modifiers, &fkMod{p, handler.Named{Name: fmt.Sprint("mod", i)}, i})
		}
		s.Generator = fkGen{p, gcode}
		w := fkWriter{pipe: p, gcode: gcode}
		if wr == "real" {
			w.real = writer.Writer()
		}
		s.Writer = w

		c.Emit(J{"ev": "begin", "cfg": in})
		err := s.Process()
		var se stepErr
		es := "none"
		if errors.As(err, &se) {
			es = se.s
		} else if err != nil {
			es = "other"
		}
		c.Emit(J{"ev": "end", "err": es, "files": dirState(c.Tmp, map[string]string{"input": "input", old: "old", gcode: "G"})})
	}
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(3)
	}
}
