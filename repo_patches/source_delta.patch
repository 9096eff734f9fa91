From e85f6981b8d2c4a03ab234d2c965bcb7d77e104d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:07 +0000
Subject: [PATCH 01/35] fix: return the error of an unreadable or malformed STL
 file

The error of stl.CopyFile was dropped, so a truncated or malformed file was
silently sliced with the triangles read so far.
---
 reader/reader.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/reader/reader.go b/reader/reader.go
index bd2ef49..f8c959e 100644
--- a/reader/reader.go
+++ b/reader/reader.go
@@ -116,7 +116,9 @@ func (r reader) Read(filename string) (data.Model, error) {
 	if _, err := os.Stat(filename); errors.Is(err, os.ErrNotExist) {
 		return model, os.ErrNotExist
 	}
-	stl.CopyFile(filename, model)
+	if err := stl.CopyFile(filename, model); err != nil {
+		return nil, err
+	}
 	return model, nil
 }
 
-- 
2.43.0


From dbf66f32d864d7788c955abb3ac2c3c4a8f1f152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:42 +0000
Subject: [PATCH 02/35] fix: fail with an error instead of a panic if the model
 has no (usable) faces

A model without faces, or one whose faces are all degenerate after melding,
crashed with an index out of range.
---
 goslice.go             | 4 ++++
 optimizer/optimizer.go | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/goslice.go b/goslice.go
index e58c8f1..7943ba3 100644
--- a/goslice.go
+++ b/goslice.go
@@ -1,6 +1,7 @@
 package goslice
 
 import (
+	"errors"
 	"time"
 
 	"github.com/aligator/goslice/clip"
@@ -131,6 +132,9 @@ func (s *GoSlice) Process() error {
 	if err != nil {
 		return err
 	}
+	if models.FaceCount() == 0 {
+		return errors.New("the model contains no faces")
+	}
 	s.Options.Logger.Printf("Model loaded.\nFace count: %v\nSize: min: %v max %v\n", models.FaceCount(), models.Min(), models.Max())
 
 	// 2. Optimize model
diff --git a/optimizer/optimizer.go b/optimizer/optimizer.go
index a8ae8ef..861ef26 100644
--- a/optimizer/optimizer.go
+++ b/optimizer/optimizer.go
@@ -22,6 +22,8 @@
 package optimizer
 
 import (
+	"errors"
+
 	"github.com/aligator/goslice/data"
 	"github.com/aligator/goslice/handler"
 )
@@ -122,6 +124,10 @@ FacesLoop:
 		om.faces = append(om.faces, optimizedFace)
 	}
 
+	if len(om.faces) == 0 {
+		return nil, errors.New("the model contains no faces which are big enough to be sliced")
+	}
+
 	// count open faces
 	openFaces := 0
 	for i, face := range om.faces {
-- 
2.43.0


From 404a4d904ba047e2b1a556590bc21e7e7a13074c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:51 +0000
Subject: [PATCH 03/35] fix: do not crash on layers which are not touched by
 any face

A vertical gap between two parts of a model caused a nil pointer dereference.
---
 slicer/slicer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/slicer/slicer.go b/slicer/slicer.go
index e3cd091..a2d4340 100644
--- a/slicer/slicer.go
+++ b/slicer/slicer.go
@@ -111,6 +111,11 @@ func (s slicer) Slice(m data.OptimizedModel) ([]data.PartitionedLayer, error) {
 	c := clip.NewClipper()
 
 	for i, layer := range layers {
+		// no face touches this layer (e.g. a vertical gap in the model), so it is just empty
+		if layer == nil {
+			layer = newLayer(i, s.options)
+		}
+
 		layer.makePolygons(m, s.options.Slicing.JoinPolygonSnapDistance, s.options.Slicing.FinishPolygonSnapDistance)
 		lp, ok := c.GenerateLayerParts(layer)
 
-- 
2.43.0


From 29dbc2f46d50a558133daff6b9d9cc542ee3a7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:00 +0000
Subject: [PATCH 04/35] fix: take the z position of the model into account for
 the layer count

With a center with Z != 0 the number of layers did not fit to the height of
the placed model, which lead to an index out of range.
---
 slicer/slicer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/slicer/slicer.go b/slicer/slicer.go
index a2d4340..3a06348 100644
--- a/slicer/slicer.go
+++ b/slicer/slicer.go
@@ -31,7 +31,8 @@ func NewSlicer(options *data.Options) handler.ModelSlicer {
 }
 
 func (s slicer) Slice(m data.OptimizedModel) ([]data.PartitionedLayer, error) {
-	layerCount := (m.Size().Z()-s.options.Print.InitialLayerThickness)/s.options.Print.LayerThickness + 1
+	// use the max Z and not the size, as the bottom of the model may not be at Z = 0
+	layerCount := (m.Max().Z()-s.options.Print.InitialLayerThickness)/s.options.Print.LayerThickness + 1
 
 	layers := make([]*layer, layerCount)
 
-- 
2.43.0


From 439fc8ed46ebbedbcef752f93d657e19b05bd786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:09 +0000
Subject: [PATCH 05/35] fix: do not crash on models much thinner than the first
 layer

The calculated layer count became negative.
---
 slicer/slicer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/slicer/slicer.go b/slicer/slicer.go
index 3a06348..472a07c 100644
--- a/slicer/slicer.go
+++ b/slicer/slicer.go
@@ -33,6 +33,10 @@ func NewSlicer(options *data.Options) handler.ModelSlicer {
 func (s slicer) Slice(m data.OptimizedModel) ([]data.PartitionedLayer, error) {
 	// use the max Z and not the size, as the bottom of the model may not be at Z = 0
 	layerCount := (m.Max().Z()-s.options.Print.InitialLayerThickness)/s.options.Print.LayerThickness + 1
+	if layerCount < 1 {
+		// the whole model is thinner than the first layer
+		layerCount = 1
+	}
 
 	layers := make([]*layer, layerCount)
 
-- 
2.43.0


From 7b7165abc62b58870954f4d83662de604e431361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:38 +0000
Subject: [PATCH 06/35] fix: an empty layer must not disable the infill of all
 layers above

The infill modifiers stopped at the first layer without any perimeters, so that
all following layers got neither bottom, top nor internal infill.
---
 modifier/infill.go          | 8 ++++++--
 modifier/internal_infill.go | 6 +++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/modifier/infill.go b/modifier/infill.go
index dbf51be..78c149b 100644
--- a/modifier/infill.go
+++ b/modifier/infill.go
@@ -43,14 +43,18 @@ func TopInfill(layer data.PartitionedLayer) ([]data.LayerPart, error) {
 func (m infillModifier) Modify(layers []data.PartitionedLayer) error {
 	for layerNr := range layers {
 		overlappingPerimeters, err := OverlapPerimeters(layers[layerNr])
-		if err != nil || overlappingPerimeters == nil {
+		if err != nil {
 			return err
 		}
 
 		perimeters, err := Perimeters(layers[layerNr])
-		if err != nil || perimeters == nil {
+		if err != nil {
 			return err
 		}
+		if overlappingPerimeters == nil || perimeters == nil {
+			// nothing to fill in this layer
+			continue
+		}
 
 		var bottomInfill []data.LayerPart
 		var topInfill []data.LayerPart
diff --git a/modifier/internal_infill.go b/modifier/internal_infill.go
index bf9ccbe..c871d9f 100644
--- a/modifier/internal_infill.go
+++ b/modifier/internal_infill.go
@@ -27,9 +27,13 @@ func NewInternalInfillModifier(options *data.Options) handler.LayerModifier {
 func (m internalInfillModifier) Modify(layers []data.PartitionedLayer) error {
 	for layerNr := range layers {
 		overlappingPerimeters, err := OverlapPerimeters(layers[layerNr])
-		if err != nil || overlappingPerimeters == nil {
+		if err != nil {
 			return err
 		}
+		if overlappingPerimeters == nil {
+			// nothing to fill in this layer
+			continue
+		}
 
 		bottomInfill, err := BottomInfill(layers[layerNr])
 		if err != nil {
-- 
2.43.0


From 36ac6206665da62951e683756a47fae1853b8ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:47 +0000
Subject: [PATCH 07/35] fix: write custom start and end gcode verbatim

The lines were used as format string, so e.g. 'M117 50% done' got mangled.
---
 gcode/renderer/layer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gcode/renderer/layer.go b/gcode/renderer/layer.go
index 4c424ef..d68cd6c 100644
--- a/gcode/renderer/layer.go
+++ b/gcode/renderer/layer.go
@@ -48,7 +48,7 @@ func (PreLayer) Render(b *gcode.Builder, layerNr int, maxLayer int, layer data.P
 			if strings.Contains(instruction, HotendTempTemplate) {
 				instruction = strings.Replace(instruction, HotendTempTemplate, fmt.Sprint(options.Filament.InitialHotEndTemperature), -1)
 			}
-			b.AddCommand(instruction)
+			b.AddCommand("%s", instruction)
 		}
 
 		b.AddCommand("G92 E0 ; reset extrusion distance")
@@ -118,7 +118,7 @@ func (PostLayer) Render(b *gcode.Builder, layerNr int, maxLayer int, layer data.
 			}
 		}
 		for _, instruction := range options.Printer.EndGCode.GCodeLines {
-			b.AddCommand(instruction)
+			b.AddCommand("%s", instruction)
 		}
 
 	}
-- 
2.43.0


From 2ada0f09e6eb99523d5193cea303e98af0eb17fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:56 +0000
Subject: [PATCH 08/35] fix: do not set the bed temperature if the printer has
 no heated bed

---
 gcode/renderer/layer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gcode/renderer/layer.go b/gcode/renderer/layer.go
index d68cd6c..1a205a4 100644
--- a/gcode/renderer/layer.go
+++ b/gcode/renderer/layer.go
@@ -89,7 +89,9 @@ func (PreLayer) Render(b *gcode.Builder, layerNr int, maxLayer int, layer data.P
 		// set the normal temperature
 		// this is done without waiting
 		b.AddComment("SET_TEMP")
-		b.AddCommand("M140 S%d", options.Filament.BedTemperature)
+		if options.Printer.HasHeatedBed {
+			b.AddCommand("M140 S%d", options.Filament.BedTemperature)
+		}
 		b.AddCommand("M104 S%d", options.Filament.HotEndTemperature)
 	}
 
-- 
2.43.0


From d04143f79bc7594b9c5e183573886d3735aee67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:05 +0000
Subject: [PATCH 09/35] fix: use the outer perimeter speed only for outer
 perimeters

The speed was not reset after the last outer perimeter, so the infill and the
support were also printed with it.
---
 gcode/renderer/perimeter.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gcode/renderer/perimeter.go b/gcode/renderer/perimeter.go
index 297308a..f6b12e7 100644
--- a/gcode/renderer/perimeter.go
+++ b/gcode/renderer/perimeter.go
@@ -55,5 +55,8 @@ func (p Perimeter) Render(b *gcode.Builder, layerNr int, maxLayer int, layer dat
 		}
 	}
 
+	// the outer perimeter speed is meant for the outer perimeters only
+	b.SetExtrudeSpeed(options.Print.LayerSpeed)
+
 	return nil
 }
-- 
2.43.0


From f93f25d76ae10d5b1ce21ce7ba59b9af6c7e5321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:15 +0000
Subject: [PATCH 10/35] fix: find the most distant point when smoothing paths

PerpendicularDistance2 already returns a squared distance, so it must not be
compared with the square of the maximum. This made the smoothing drop points
which are far above the threshold.
---
 data/2d.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/2d.go b/data/2d.go
index 52994bc..586ed97 100644
--- a/data/2d.go
+++ b/data/2d.go
@@ -56,7 +56,7 @@ func seekMostDistantPoint(p1 MicroPoint, p2 MicroPoint, points Path) (idx int, m
 		// TODO: check usage of 'Shortest Distance' from a point to a line segment
 		//       suggested here https://karthaus.nl/rdp/ I think slic3r uses that
 		d := PerpendicularDistance2(p1, p2, points[i])
-		if d > maxDist*maxDist {
+		if d > maxDist {
 			maxDist = d
 			idx = i
 		}
-- 
2.43.0


From 237d9cd49e4488fcb9a993f641b1539b367b1949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:27 +0000
Subject: [PATCH 11/35] fix: do not treat commented out gcode as existing
 instruction

With a line like ';M104 S0' in the end gcode the heaters were never turned off.
---
 data/option.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/data/option.go b/data/option.go
index bbce068..6d7ce2c 100644
--- a/data/option.go
+++ b/data/option.go
@@ -153,6 +153,8 @@ func (gch GCodeHunk) GetInstructionCode() []string {
 func (gch GCodeHunk) DoesInstructionContainCodes(targetCodes []string) bool {
 	contained := false
 	for _, instruction := range gch.GCodeLines {
+		// ignore comments as they are not executed by the printer
+		instruction = strings.Split(instruction, ";")[0]
 		code := strings.Split(strings.TrimSpace(instruction), " ")[0]
 		for _, targetCode := range targetCodes {
 			if strings.Contains(code, targetCode) {
-- 
2.43.0


From d308ddbe0a855d935c7712cce36eb09b86e9105f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:36 +0000
Subject: [PATCH 12/35] fix: report unusable option values as error

An inset count of 0, an extrusion width, layer thickness, meld distance or
pattern line distance of 0 or less, negative top gap layers or a support
threshold angle of 90 crashed or looped endlessly.
---
 clip/linear.go         | 5 +++++
 modifier/perimeter.go  | 8 ++++++++
 modifier/support.go    | 8 ++++++++
 optimizer/optimizer.go | 5 +++++
 slicer/slicer.go       | 4 ++++
 5 files changed, 30 insertions(+)

diff --git a/clip/linear.go b/clip/linear.go
index 8c9c18a..e99d7dd 100644
--- a/clip/linear.go
+++ b/clip/linear.go
@@ -4,6 +4,7 @@ package clip
 
 import (
 	"errors"
+	"fmt"
 	"github.com/aligator/goslice/data"
 
 	clipper "github.com/aligator/go.clipper"
@@ -36,6 +37,10 @@ func NewLinearPattern(lineWidth data.Micrometer, lineDistance data.Micrometer, m
 
 // Fill implements the Pattern interface by using simple linear lines as infill.
 func (p linear) Fill(layerNr int, part data.LayerPart) (data.Paths, error) {
+	if p.lineDistance < 1 {
+		return nil, fmt.Errorf("the line distance has to be bigger than 0 but it is %v", p.lineDistance)
+	}
+
 	rotation := float64(p.degree)
 
 	// for rectlinear fill patterns rotate each 2nd layer by 90 degree.
diff --git a/modifier/perimeter.go b/modifier/perimeter.go
index ac13042..ed917bd 100644
--- a/modifier/perimeter.go
+++ b/modifier/perimeter.go
@@ -2,6 +2,7 @@ package modifier
 
 import (
 	"errors"
+	"fmt"
 	"github.com/aligator/goslice/clip"
 	"github.com/aligator/goslice/data"
 	"github.com/aligator/goslice/handler"
@@ -61,6 +62,13 @@ func Perimeters(layer data.PartitionedLayer) (clip.OffsetResult, error) {
 func (m perimeterModifier) Init(_ data.OptimizedModel) {}
 
 func (m perimeterModifier) Modify(layers []data.PartitionedLayer) error {
+	if m.options.Print.InsetCount < 1 {
+		return fmt.Errorf("the inset count has to be at least 1 but it is %d", m.options.Print.InsetCount)
+	}
+	if m.options.Printer.ExtrusionWidth < 1 {
+		return fmt.Errorf("the extrusion width has to be bigger than 0 but it is %v", m.options.Printer.ExtrusionWidth)
+	}
+
 	for layerNr := range layers {
 		// Generate the perimeters.
 		c := clip.NewClipper()
diff --git a/modifier/support.go b/modifier/support.go
index 89045b4..6027203 100644
--- a/modifier/support.go
+++ b/modifier/support.go
@@ -72,6 +72,14 @@ func NewSupportDetectorModifier(options *data.Options) handler.LayerModifier {
 }
 
 func (m supportDetectorModifier) Modify(layers []data.PartitionedLayer) error {
+	if m.options.Print.Support.Enabled && m.options.Print.Support.TopGapLayers < 0 {
+		return fmt.Errorf("the support top gap layers must not be negative but it is %d", m.options.Print.Support.TopGapLayers)
+	}
+	if m.options.Print.Support.ThresholdAngle >= 90 {
+		// even a horizontal overhang does not exceed the threshold
+		return nil
+	}
+
 	for layerNr := range layers {
 		if !m.options.Print.Support.Enabled {
 			return nil
diff --git a/optimizer/optimizer.go b/optimizer/optimizer.go
index 861ef26..cc230de 100644
--- a/optimizer/optimizer.go
+++ b/optimizer/optimizer.go
@@ -23,6 +23,7 @@ package optimizer
 
 import (
 	"errors"
+	"fmt"
 
 	"github.com/aligator/goslice/data"
 	"github.com/aligator/goslice/handler"
@@ -43,6 +44,10 @@ func NewOptimizer(options *data.Options) handler.ModelOptimizer {
 type pointHash uint
 
 func (o optimizer) Optimize(m data.Model) (data.OptimizedModel, error) {
+	if o.options.Slicing.MeldDistance < 1 {
+		return nil, fmt.Errorf("the meld distance has to be bigger than 0 but it is %v", o.options.Slicing.MeldDistance)
+	}
+
 	om := &optimizedModel{}
 
 	// map of same faces grouped by their calculated hash
diff --git a/slicer/slicer.go b/slicer/slicer.go
index 472a07c..c136cd8 100644
--- a/slicer/slicer.go
+++ b/slicer/slicer.go
@@ -31,6 +31,10 @@ func NewSlicer(options *data.Options) handler.ModelSlicer {
 }
 
 func (s slicer) Slice(m data.OptimizedModel) ([]data.PartitionedLayer, error) {
+	if s.options.Print.LayerThickness < 1 {
+		return nil, fmt.Errorf("the layer thickness has to be bigger than 0 but it is %v", s.options.Print.LayerThickness)
+	}
+
 	// use the max Z and not the size, as the bottom of the model may not be at Z = 0
 	layerCount := (m.Max().Z()-s.options.Print.InitialLayerThickness)/s.options.Print.LayerThickness + 1
 	if layerCount < 1 {
-- 
2.43.0


From ade8194bd9991a921ed9ba798fa6986b9b541dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:53 +0000
Subject: [PATCH 13/35] fix: do not crash if there is nothing to draw the skirt
 around

If the first layer is too thin for any perimeter the hull is empty.
---
 gcode/renderer/skirt.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gcode/renderer/skirt.go b/gcode/renderer/skirt.go
index 0d3f988..8b0ae90 100644
--- a/gcode/renderer/skirt.go
+++ b/gcode/renderer/skirt.go
@@ -53,6 +53,11 @@ func (Skirt) Render(b *gcode.Builder, layerNr int, maxLayer int, layer data.Part
 			return errors.New("could not generate hull around all perimeters to create the skirt")
 		}
 
+		if len(hull) < 3 {
+			// There is nothing which could be surrounded.
+			return nil
+		}
+
 		// Generate all skirt lines by exsetting the hull.
 		skirt := c.Inset(data.NewBasicLayerPart(hull, nil), -options.Printer.ExtrusionWidth, options.Print.BrimSkirt.SkirtCount, distance)
 
-- 
2.43.0


From 9a44dcbf949f2d98f5eb8167e334503f44bb961f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:10 +0000
Subject: [PATCH 14/35] fix: generate the brim around all parts of a split
 first perimeter

If the first inset of a layer part is split into several polygons only one of
them got a brim.
---
 modifier/brim.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/modifier/brim.go b/modifier/brim.go
index c775d1c..9005ff6 100644
--- a/modifier/brim.go
+++ b/modifier/brim.go
@@ -90,11 +90,9 @@ func (m brimModifier) Modify(layers []data.PartitionedLayer) error {
 	var allOuterPerimeters []data.LayerPart
 
 	for _, part := range perimeters {
-		for _, wall := range part {
-			if len(wall) > 0 {
-				// wall[0] is the outer perimeter
-				allOuterPerimeters = append(allOuterPerimeters, wall[0])
-			}
+		if len(part) > 0 {
+			// part[0] is the outer perimeter, which may be split into several parts
+			allOuterPerimeters = append(allOuterPerimeters, part[0]...)
 		}
 	}
 
-- 
2.43.0


From c954450f957ad7c7515c69a99024d80b265b17f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:31 +0000
Subject: [PATCH 15/35] fix: do not generate support interface if the interface
 layers are 0

All of the support was treated as interface instead.
---
 modifier/support.go | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/modifier/support.go b/modifier/support.go
index 6027203..8f583ce 100644
--- a/modifier/support.go
+++ b/modifier/support.go
@@ -192,21 +192,23 @@ func (m supportGeneratorModifier) Modify(layers []data.PartitionedLayer) error {
 
 			// Get the top support parts to calculate the areas where the support-interface pattern should be generated.
 			// It takes into account the configuration for the amount of interface layers.
-			layerNrAboveInterface := layerNr + m.options.Print.Support.InterfaceLayers - 1 // -1 because we always calculate the support for the layer below
-			if layerNrAboveInterface >= len(layers) {
-				layerNrAboveInterface = len(layers) - 1
-			}
-
+			// Without any interface layers everything is normal support.
 			c := clip.NewClipper()
-
-			supportAboveInterface, err := PartsAttribute(layers[layerNrAboveInterface], "fullSupport")
-			if err != nil {
-				return err
-			}
-
-			interfaceParts, ok = c.Difference(actualSupport, supportAboveInterface)
-			if !ok {
-				return errors.New("error while calculating interface parts")
+			if m.options.Print.Support.InterfaceLayers > 0 {
+				layerNrAboveInterface := layerNr + m.options.Print.Support.InterfaceLayers - 1 // -1 because we always calculate the support for the layer below
+				if layerNrAboveInterface >= len(layers) {
+					layerNrAboveInterface = len(layers) - 1
+				}
+
+				supportAboveInterface, err := PartsAttribute(layers[layerNrAboveInterface], "fullSupport")
+				if err != nil {
+					return err
+				}
+
+				interfaceParts, ok = c.Difference(actualSupport, supportAboveInterface)
+				if !ok {
+					return errors.New("error while calculating interface parts")
+				}
 			}
 
 			actualWithoutInterfaceParts, ok = c.Difference(actualSupport, interfaceParts)
-- 
2.43.0


From 64356851a5c1c05196213f2e3d4f261942afeea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:40 +0000
Subject: [PATCH 16/35] fix: also process the support of the 2nd top layer

Without a top gap the support of that layer was printed as it was detected,
without removing the model from it and without interface.
---
 modifier/support.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modifier/support.go b/modifier/support.go
index 8f583ce..4400200 100644
--- a/modifier/support.go
+++ b/modifier/support.go
@@ -142,8 +142,8 @@ func NewSupportGeneratorModifier(options *data.Options) handler.LayerModifier {
 func (m supportGeneratorModifier) Modify(layers []data.PartitionedLayer) error {
 	var lastSupport []data.LayerPart = nil
 
-	// for each layer starting at the 2nd top layer (the top layer won't need support)
-	for layerNr := len(layers) - 2; layerNr >= 0; layerNr-- {
+	// for each layer starting at the top layer, as always the support for the layer below is calculated
+	for layerNr := len(layers) - 1; layerNr >= 0; layerNr-- {
 		if !m.options.Print.Support.Enabled || layerNr == 0 {
 			return nil
 		}
-- 
2.43.0


From 745cd38e6b072f71e023e3f82b849eb9d1dab574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:33 +0000
Subject: [PATCH 17/35] fix: treat clipping of nothing as empty result instead
 of an error

Clipper reports a failure if no valid path was added. This aborted the whole
slicing e.g. for a layer which only touches an edge of the model or for the
support of several empty layers.
---
 clip/clip.go | 38 +++++++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/clip/clip.go b/clip/clip.go
index 1b119fb..81fb8df 100644
--- a/clip/clip.go
+++ b/clip/clip.go
@@ -212,7 +212,10 @@ func (c clipperClipper) GenerateLayerParts(l data.Layer) (data.PartitionedLayer,
 	}
 
 	cl := clipper.NewClipper(clipper.IoNone)
-	cl.AddPaths(polyList, clipper.PtSubject, true)
+	if !cl.AddPaths(polyList, clipper.PtSubject, true) {
+		// There are only degenerated polygons without any area.
+		return data.NewPartitionedLayer([]data.LayerPart{}), true
+	}
 	resultPolys, ok := cl.Execute2(clipper.CtUnion, clipper.PftEvenOdd, clipper.PftEvenOdd)
 	if !ok {
 		return nil, false
@@ -306,14 +309,32 @@ func (c clipperClipper) runClipper(clipType clipper.ClipType, parts []data.Layer
 	}
 
 	cl := clipper.NewClipper(clipper.IoNone)
+
+	// Clipper fails if there is nothing at all to work on.
+	// That is the case if there are no parts or if all of them are degenerated (without any area).
+	empty := true
+	addPath := func(path data.Path, polyType clipper.PolyType) {
+		if cl.AddPath(clipperPath(path), polyType, true) {
+			empty = false
+		}
+	}
+
 	for _, part := range parts {
-		cl.AddPath(clipperPath(part.Outline()), clipper.PtSubject, true)
-		cl.AddPaths(clipperPaths(part.Holes()), clipper.PtSubject, true)
+		addPath(part.Outline(), clipper.PtSubject)
+		for _, hole := range part.Holes() {
+			addPath(hole, clipper.PtSubject)
+		}
+	}
+
+	for _, part := range toClip {
+		addPath(part.Outline(), clipper.PtClip)
+		for _, hole := range part.Holes() {
+			addPath(hole, clipper.PtClip)
+		}
 	}
 
-	for _, intersect := range toClip {
-		cl.AddPath(clipperPath(intersect.Outline()), clipper.PtClip, true)
-		cl.AddPaths(clipperPaths(intersect.Holes()), clipper.PtClip, true)
+	if empty {
+		return nil, true
 	}
 
 	tree, ok := cl.Execute2(clipType, clipper.PftEvenOdd, clipper.PftEvenOdd)
@@ -333,7 +354,10 @@ func (c clipperClipper) IsCrossingPerimeter(parts []data.LayerPart, line data.Pa
 		cl.AddPath(clipperPath(part.Outline()), clipper.PtClip, true)
 	}
 
-	cl.AddPath(clipperPath(line), clipper.PtSubject, false)
+	if !cl.AddPath(clipperPath(line), clipper.PtSubject, false) {
+		// A line without any length crosses nothing.
+		return false, true
+	}
 
 	// calculate the difference of the parts and the line, then look if the (inverted) result contains any left path which would be a line not inside of the parts.
 	// If any part is left, the line crossed a perimeter.
-- 
2.43.0


From 8fb4341154834f492b72aefd34c7bf75187b4cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:55 +0000
Subject: [PATCH 18/35] fix: clip overlapping parts correctly

Parts which are exset one by one (e.g. the support areas or the model with
the support gap) can overlap each other. With the even-odd rule the overlapping
areas counted as outside, so the support had holes there or was generated too
close to the model.
---
 clip/clip.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/clip/clip.go b/clip/clip.go
index 81fb8df..5bcb4e4 100644
--- a/clip/clip.go
+++ b/clip/clip.go
@@ -313,23 +313,31 @@ func (c clipperClipper) runClipper(clipType clipper.ClipType, parts []data.Layer
 	// Clipper fails if there is nothing at all to work on.
 	// That is the case if there are no parts or if all of them are degenerated (without any area).
 	empty := true
-	addPath := func(path data.Path, polyType clipper.PolyType) {
-		if cl.AddPath(clipperPath(path), polyType, true) {
+	addPath := func(path data.Path, polyType clipper.PolyType, hole bool) {
+		// Outlines and holes have to be oriented differently to support overlapping parts.
+		p := clipperPath(path)
+		if clipper.Orientation(p) == hole {
+			for i, j := 0, len(p)-1; i < j; i, j = i+1, j-1 {
+				p[i], p[j] = p[j], p[i]
+			}
+		}
+
+		if cl.AddPath(p, polyType, true) {
 			empty = false
 		}
 	}
 
 	for _, part := range parts {
-		addPath(part.Outline(), clipper.PtSubject)
+		addPath(part.Outline(), clipper.PtSubject, false)
 		for _, hole := range part.Holes() {
-			addPath(hole, clipper.PtSubject)
+			addPath(hole, clipper.PtSubject, true)
 		}
 	}
 
 	for _, part := range toClip {
-		addPath(part.Outline(), clipper.PtClip)
+		addPath(part.Outline(), clipper.PtClip, false)
 		for _, hole := range part.Holes() {
-			addPath(hole, clipper.PtClip)
+			addPath(hole, clipper.PtClip, true)
 		}
 	}
 
@@ -337,7 +345,8 @@ func (c clipperClipper) runClipper(clipType clipper.ClipType, parts []data.Layer
 		return nil, true
 	}
 
-	tree, ok := cl.Execute2(clipType, clipper.PftEvenOdd, clipper.PftEvenOdd)
+	// Non-zero and not even-odd, because parts which are exset may overlap each other.
+	tree, ok := cl.Execute2(clipType, clipper.PftNonZero, clipper.PftNonZero)
 
 	if !ok {
 		return nil, ok
-- 
2.43.0


From 46a52f1500f132703b36580978076b0a3e771ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:03 +0000
Subject: [PATCH 19/35] fix: do not retract before the very first move

Without skirt and brim the first polygon started with a retraction move to the
position 0,0,0, i.e. into the print bed.
---
 gcode/builder.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gcode/builder.go b/gcode/builder.go
index 2b829fd..5ab0407 100644
--- a/gcode/builder.go
+++ b/gcode/builder.go
@@ -164,7 +164,9 @@ func (g *Builder) AddPolygon(currentLayer data.PartitionedLayer, polygon data.Pa
 			}
 
 			isCrossing := false
-			if currentLayer != nil && g.retractionSpeed != 0 && g.retractionAmount != 0 {
+			// before the first move there is nothing to retract from and the real position is unknown
+			notFirstMove := g.notFirstMoveX || g.notFirstMoveY || g.notFirstMoveZ
+			if notFirstMove && currentLayer != nil && g.retractionSpeed != 0 && g.retractionAmount != 0 {
 				c := clip.NewClipper()
 				var ok bool
 				isCrossing, ok = c.IsCrossingPerimeter(currentLayer.LayerParts(), move)
-- 
2.43.0


From 642e228925c1fe44e7f38b37257cbf8ba9c492e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:16 +0000
Subject: [PATCH 20/35] fix: reject STL files with coordinates which are no
 usable numbers

---
 reader/reader.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/reader/reader.go b/reader/reader.go
index f8c959e..f02c570 100644
--- a/reader/reader.go
+++ b/reader/reader.go
@@ -2,6 +2,8 @@ package reader
 
 import (
 	"errors"
+	"fmt"
+	"math"
 	"os"
 
 	"github.com/aligator/goslice/data"
@@ -20,6 +22,9 @@ func (f face) Points() [3]data.MicroVec3 {
 
 type Model struct {
 	faces []data.Face
+
+	// err is set if a triangle can not be used.
+	err error
 }
 
 func (m *Model) SetName(name string) {
@@ -43,6 +48,14 @@ func (m *Model) SetTriangleCount(n uint32) {
 }
 
 func (m *Model) AppendTriangle(t stl.Triangle) {
+	for _, vertex := range t.Vertices {
+		for _, value := range vertex {
+			// Also true for NaN.
+			if !(math.Abs(float64(value)) < math.MaxInt64/1000) && m.err == nil {
+				m.err = fmt.Errorf("the coordinate %v of triangle no. %d is not usable", value, len(m.faces))
+			}
+		}
+	}
 	m.faces = append(m.faces, stlTriangleToFace(t))
 }
 
@@ -119,6 +132,9 @@ func (r reader) Read(filename string) (data.Model, error) {
 	if err := stl.CopyFile(filename, model); err != nil {
 		return nil, err
 	}
+	if model.err != nil {
+		return nil, model.err
+	}
 	return model, nil
 }
 
-- 
2.43.0


From 37aee0b0973bd946dc954a5a1a5e1b96af88ea8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:18 +0000
Subject: [PATCH 21/35] fix: do not overwrite the points of a path when
 smoothing it

---
 data/2d.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/data/2d.go b/data/2d.go
index 586ed97..ff8949a 100644
--- a/data/2d.go
+++ b/data/2d.go
@@ -43,7 +43,8 @@ func douglasPeucker(points Path, ep Micrometer, depth int) Path {
 		// TODO: check if implementation without recursion would be possible and if it is more performant
 		left := douglasPeucker(points[:idx+1], ep, depth+1)
 		right := douglasPeucker(points[idx:], ep, depth+1)
-		return append(left[:len(left)-1], right...)
+		// limit the capacity, because left may still be a part of the given points which must not be overwritten
+		return append(left[:len(left)-1:len(left)-1], right...)
 	}
 
 	// If the most distant point fails to pass the threshold test, then just return the two points
-- 
2.43.0


From 12b73422dc0a96c9641c7e1c59e9e39a82380eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:58 +0000
Subject: [PATCH 22/35] fix: check each segment of a line on its own for
 crossings

---
 clip/clip.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/clip/clip.go b/clip/clip.go
index 5bcb4e4..6d7b5b7 100644
--- a/clip/clip.go
+++ b/clip/clip.go
@@ -355,6 +355,18 @@ func (c clipperClipper) runClipper(clipType clipper.ClipType, parts []data.Layer
 }
 
 func (c clipperClipper) IsCrossingPerimeter(parts []data.LayerPart, line data.Path) (result, ok bool) {
+	// Check each segment on its own, because clipper does not terminate for some open paths which end where they start.
+	for i := 0; i+1 < len(line); i++ {
+		result, ok = c.isSegmentCrossingPerimeter(parts, line[i:i+2])
+		if result || !ok {
+			return result, ok
+		}
+	}
+
+	return false, true
+}
+
+func (c clipperClipper) isSegmentCrossingPerimeter(parts []data.LayerPart, line data.Path) (result, ok bool) {
 	// TODO: Is there a more performant way to detect this?
 	cl := clipper.NewClipper(clipper.IoReverseSolution) // inverse solution so that it is basically LINE - PARTS
 
-- 
2.43.0


From 30452a301467da1aa389d94dfeda0691c04b3d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:03 +0000
Subject: [PATCH 23/35] fix: offset the layer by the whole distance when
 detecting overhangs

Only half of it was used, so that support was generated for much less
overhang than the threshold angle says.
---
 modifier/support.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modifier/support.go b/modifier/support.go
index 4400200..f108733 100644
--- a/modifier/support.go
+++ b/modifier/support.go
@@ -97,7 +97,7 @@ func (m supportDetectorModifier) Modify(layers []data.PartitionedLayer) error {
 
 		// offset layer by d
 		cl := clip.NewClipper()
-		offsetLayer := cl.InsetLayer(layers[layerNr].LayerParts(), data.Micrometer(-math.Round(distance)), 1, -data.Micrometer(-math.Round(distance))/2).ToOneDimension()
+		offsetLayer := cl.InsetLayer(layers[layerNr].LayerParts(), data.Micrometer(-math.Round(distance)), 1, data.Micrometer(math.Round(distance))).ToOneDimension()
 
 		// subtract result from the next layer
 		support, ok := cl.Difference(layers[layerNr+1].LayerParts(), offsetLayer)
-- 
2.43.0


From d64d47c3929921ddcfd9edce3508639d8cbf2502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:09 +0000
Subject: [PATCH 24/35] fix: keep the whole configured gap between support and
 model

Only half of it was kept.
---
 modifier/support.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modifier/support.go b/modifier/support.go
index f108733..4a1adb9 100644
--- a/modifier/support.go
+++ b/modifier/support.go
@@ -177,7 +177,7 @@ func (m supportGeneratorModifier) Modify(layers []data.PartitionedLayer) error {
 		}
 
 		// make the layer a bit bigger to create a gap between the support and the model
-		biggerLayer := cl.InsetLayer(layers[layerNr-1].LayerParts(), -m.options.Print.Support.Gap.ToMicrometer(), 1, m.options.Print.Support.Gap.ToMicrometer()/2).ToOneDimension()
+		biggerLayer := cl.InsetLayer(layers[layerNr-1].LayerParts(), -m.options.Print.Support.Gap.ToMicrometer(), 1, m.options.Print.Support.Gap.ToMicrometer()).ToOneDimension()
 
 		// subtract the model from the result
 		actualSupport, ok := cl.Difference(result, biggerLayer)
-- 
2.43.0


From 248047a5f21a31041fd834872220894366f313cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:14 +0000
Subject: [PATCH 25/35] fix: also fill the support which is outside of the
 bounding box of the model

The support areas extend the model by one and a half of the pattern
spacing, but the pattern only by one.
---
 goslice.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/goslice.go b/goslice.go
index 7943ba3..59eb6c3 100644
--- a/goslice.go
+++ b/goslice.go
@@ -64,10 +64,11 @@ func NewGoSlice(options data.Options) *GoSlice {
 		gcode.WithRenderer(&renderer.Infill{
 			PatternSetup: func(min data.MicroPoint, max data.MicroPoint) clip.Pattern {
 				// make bounding box bigger to allow generation of support which has always at least two lines
-				min.SetX(min.X() - patternSpacing)
-				min.SetY(min.Y() - patternSpacing)
-				max.SetX(max.X() + patternSpacing)
-				max.SetY(max.Y() + patternSpacing)
+				// (the support areas are up to 1.5 times the spacing bigger than the model)
+				min.SetX(min.X() - 2*patternSpacing)
+				min.SetY(min.Y() - 2*patternSpacing)
+				max.SetX(max.X() + 2*patternSpacing)
+				max.SetY(max.Y() + 2*patternSpacing)
 				return clip.NewLinearPattern(options.Printer.ExtrusionWidth, patternSpacing, min, max, 90, false, true)
 			},
 			AttrName: "support",
@@ -77,10 +78,11 @@ func NewGoSlice(options data.Options) *GoSlice {
 		gcode.WithRenderer(&renderer.Infill{
 			PatternSetup: func(min data.MicroPoint, max data.MicroPoint) clip.Pattern {
 				// make bounding box bigger to allow generation of support which has always at least two lines
-				min.SetX(min.X() - patternSpacing)
-				min.SetY(min.Y() - patternSpacing)
-				max.SetX(max.X() + patternSpacing)
-				max.SetY(max.Y() + patternSpacing)
+				// (the support areas are up to 1.5 times the spacing bigger than the model)
+				min.SetX(min.X() - 2*patternSpacing)
+				min.SetY(min.Y() - 2*patternSpacing)
+				max.SetX(max.X() + 2*patternSpacing)
+				max.SetY(max.Y() + 2*patternSpacing)
 				return clip.NewLinearPattern(options.Printer.ExtrusionWidth, options.Printer.ExtrusionWidth, min, max, 0, false, true)
 			},
 			AttrName: "supportInterface",
-- 
2.43.0


From 0552c63441062debf0fe544e0c99fe34658c4448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:52 +0000
Subject: [PATCH 26/35] fix: do not treat holes which touch their outline as
 filled parts

If clipper cannot assign a hole to its outline it returns it beside of
the outline. Then the place of the hole was filled twice.
---
 clip/clip.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/clip/clip.go b/clip/clip.go
index 6d7b5b7..49a8e9a 100644
--- a/clip/clip.go
+++ b/clip/clip.go
@@ -351,6 +351,24 @@ func (c clipperClipper) runClipper(clipType clipper.ClipType, parts []data.Layer
 	if !ok {
 		return nil, ok
 	}
+
+	// If a hole touches its outline, clipper may fail to assign it and returns it next to the outline instead of inside of it.
+	// Such a hole still has the orientation of a hole, so that another run is able to remove it from the outline.
+	var contours clipper.Paths
+	lostHole := false
+	for node := tree.GetFirst(); node != nil; node = node.GetNext() {
+		contours = append(contours, node.Contour())
+		lostHole = lostHole || !node.IsHole() && !clipper.Orientation(node.Contour())
+	}
+	if lostHole {
+		cl = clipper.NewClipper(clipper.IoNone)
+		cl.AddPaths(contours, clipper.PtSubject, true)
+		tree, ok = cl.Execute2(clipper.CtUnion, clipper.PftNonZero, clipper.PftNonZero)
+		if !ok {
+			return nil, ok
+		}
+	}
+
 	return polyTreeToLayerParts(tree), ok
 }
 
-- 
2.43.0


From b0224a2cc924a2d5e0a9360923308b13b0da2893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:15 +0000
Subject: [PATCH 27/35] fix: keep fractions of the configured speeds

---
 gcode/builder.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/gcode/builder.go b/gcode/builder.go
index 5ab0407..67a769e 100644
--- a/gcode/builder.go
+++ b/gcode/builder.go
@@ -21,9 +21,9 @@ type Builder struct {
 	notFirstMoveX                                               bool
 	notFirstMoveY                                               bool
 	notFirstMoveZ                                               bool
-	moveSpeed, extrudeSpeed, currentSpeed, extrudeSpeedOverride int
+	moveSpeed, extrudeSpeed, currentSpeed, extrudeSpeedOverride data.Millimeter
 
-	retractionSpeed  int
+	retractionSpeed  data.Millimeter
 	retractionAmount data.Millimeter
 	zHopOnRetract    data.Millimeter
 
@@ -51,15 +51,15 @@ func (g *Builder) SetExtrusion(layerThickness, lineWidth data.Micrometer) {
 }
 
 func (g *Builder) SetMoveSpeed(moveSpeed data.Millimeter) {
-	g.moveSpeed = int(moveSpeed)
+	g.moveSpeed = moveSpeed
 }
 
 func (g *Builder) SetExtrudeSpeed(extrudeSpeed data.Millimeter) {
-	g.extrudeSpeed = int(extrudeSpeed)
+	g.extrudeSpeed = extrudeSpeed
 }
 
 func (g *Builder) SetExtrudeSpeedOverride(extrudeSpeed data.Millimeter) {
-	g.extrudeSpeedOverride = int(extrudeSpeed)
+	g.extrudeSpeedOverride = extrudeSpeed
 }
 
 func (g *Builder) DisableExtrudeSpeedOverride() {
@@ -67,7 +67,7 @@ func (g *Builder) DisableExtrudeSpeedOverride() {
 }
 
 func (g *Builder) SetRetractionSpeed(retractionSpeed data.Millimeter) {
-	g.retractionSpeed = int(retractionSpeed)
+	g.retractionSpeed = retractionSpeed
 }
 
 func (g *Builder) SetRetractionAmount(retractionAmount data.Millimeter) {
@@ -90,7 +90,7 @@ func (g *Builder) AddComment(comment string, args ...interface{}) {
 	g.buf.WriteString(comment)
 }
 
-func (g *Builder) AddMoveSpeed(p data.MicroVec3, extrusion data.Millimeter, speed int) {
+func (g *Builder) AddMoveSpeed(p data.MicroVec3, extrusion data.Millimeter, speed data.Millimeter) {
 	notFirstMove := g.notFirstMoveX || g.notFirstMoveY || g.notFirstMoveZ
 	// Ignore moves which are of zero length.
 	if notFirstMove && g.currentPosition.X() == p.X() && g.currentPosition.Y() == p.Y() && g.currentPosition.Z() == p.Z() && extrusion == 0 {
@@ -117,7 +117,7 @@ func (g *Builder) AddMoveSpeed(p data.MicroVec3, extrusion data.Millimeter, spee
 	}
 
 	if g.currentSpeed != speed {
-		g.buf.WriteString(fmt.Sprintf(" F%v", speed*60))
+		g.buf.WriteString(fmt.Sprintf(" F%.0f", speed*60))
 		g.currentSpeed = speed
 	}
 
@@ -132,7 +132,7 @@ func (g *Builder) AddMoveSpeed(p data.MicroVec3, extrusion data.Millimeter, spee
 
 func (g *Builder) AddMove(p data.MicroVec3, extrusion data.Millimeter) {
 
-	var speed int
+	var speed data.Millimeter
 	if extrusion != 0 {
 		if g.extrudeSpeedOverride <= 0 {
 			speed = g.extrudeSpeed
-- 
2.43.0


From 7ed408873fbcd4ceeb1b5d66a1e336a1ef93fb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:29 +0000
Subject: [PATCH 28/35] fix: do not smooth away points beyond the ends of the
 replacing line

---
 data/2d.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/data/2d.go b/data/2d.go
index ff8949a..a451bdb 100644
--- a/data/2d.go
+++ b/data/2d.go
@@ -28,6 +28,21 @@ func PerpendicularDistance2(a, b, point MicroPoint) Micrometer {
 	return Max(0, vecAP.Size2()-axSize2)
 }
 
+// segmentDistance2 calculates the (distance)^2 of a point to the line segment from a to b.
+func segmentDistance2(a, b, point MicroPoint) Micrometer {
+	vecAB := b.Sub(a)
+	vecAP := point.Sub(a)
+
+	dotProduct := DotProduct(vecAB, vecAP)
+	if dotProduct <= 0 {
+		return vecAP.Size2()
+	}
+	if dotProduct >= vecAB.Size2() {
+		return point.Sub(b).Size2()
+	}
+	return PerpendicularDistance2(a, b, point)
+}
+
 // douglasPeucker accepts a list of points and epsilon as threshold, simplifies a path by dropping
 // points that do not pass threshold values.
 func douglasPeucker(points Path, ep Micrometer, depth int) Path {
@@ -53,10 +68,8 @@ func douglasPeucker(points Path, ep Micrometer, depth int) Path {
 
 func seekMostDistantPoint(p1 MicroPoint, p2 MicroPoint, points Path) (idx int, maxDist Micrometer) {
 	for i := 0; i < len(points); i++ {
-
-		// TODO: check usage of 'Shortest Distance' from a point to a line segment
-		//       suggested here https://karthaus.nl/rdp/ I think slic3r uses that
-		d := PerpendicularDistance2(p1, p2, points[i])
+		// A point which is on the same line but beyond the end points must not be dropped.
+		d := segmentDistance2(p1, p2, points[i])
 		if d > maxDist {
 			maxDist = d
 			idx = i
-- 
2.43.0


From 8877e31c1f665d40c7d0ef9c11e3df8a0c4fdbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:14 +0000
Subject: [PATCH 29/35] fix: do not treat gcodes which only start with a code
 as that code

---
 data/option.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/data/option.go b/data/option.go
index 6d7ce2c..89f7334 100644
--- a/data/option.go
+++ b/data/option.go
@@ -157,7 +157,13 @@ func (gch GCodeHunk) DoesInstructionContainCodes(targetCodes []string) bool {
 		instruction = strings.Split(instruction, ";")[0]
 		code := strings.Split(strings.TrimSpace(instruction), " ")[0]
 		for _, targetCode := range targetCodes {
-			if strings.Contains(code, targetCode) {
+			index := strings.Index(code, targetCode)
+			if index < 0 {
+				continue
+			}
+			// longer codes are other instructions (e.g. M1040 is not M104)
+			rest := code[index+len(targetCode):]
+			if rest == "" || rest[0] < '0' || rest[0] > '9' {
 				contained = true
 				break
 			}
-- 
2.43.0


From 137f5a51a3c35e36c47e96a5420584e0e54fa2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:17 +0000
Subject: [PATCH 30/35] fix: print gcode options with less than two lines in a
 form which can be set again

---
 data/option.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/data/option.go b/data/option.go
index 89f7334..a04f51b 100644
--- a/data/option.go
+++ b/data/option.go
@@ -182,6 +182,10 @@ func (gch GCodeHunk) Type() string {
 
 // String is used by pflag to show example based on default settings
 func (gch GCodeHunk) String() string {
+	if len(gch.GCodeLines) < 2 {
+		// Set needs at least one line break
+		return strings.Join(gch.GCodeLines, "") + "\n"
+	}
 	return strings.Join(gch.GCodeLines, "\n")
 }
 
-- 
2.43.0


From 682e34301db6e65443f01376da238a6b98f7230a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:24 +0000
Subject: [PATCH 31/35] fix: reject lengths and speeds which are no finite
 numbers

---
 data/option.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/data/option.go b/data/option.go
index a04f51b..ebf5967 100644
--- a/data/option.go
+++ b/data/option.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"fmt"
 	"log"
+	"math"
 	"os"
 	"strconv"
 	"strings"
@@ -35,6 +36,9 @@ func (m Millimeter) String() string {
 
 func (m *Millimeter) Set(s string) error {
 	v, err := strconv.ParseFloat(s, 32)
+	if err == nil && (math.IsNaN(v) || math.IsInf(v, 0)) {
+		return errors.New("the value has to be a finite number")
+	}
 	*m = Millimeter(v)
 	return err
 }
-- 
2.43.0


From 9a13ce072631e612b84e05c9db8dd89f01a8cdb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:08 +0000
Subject: [PATCH 32/35] fix: report an unusable filament diameter as error
 instead of infinite extrusions

---
 gcode/renderer/layer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gcode/renderer/layer.go b/gcode/renderer/layer.go
index 1a205a4..4528aed 100644
--- a/gcode/renderer/layer.go
+++ b/gcode/renderer/layer.go
@@ -24,6 +24,10 @@ func (PreLayer) Init(model data.OptimizedModel) {}
 
 func (PreLayer) Render(b *gcode.Builder, layerNr int, maxLayer int, layer data.PartitionedLayer, z data.Micrometer, options *data.Options) error {
 	if layerNr == 0 {
+		if options.Filament.FilamentDiameter < 1 {
+			return fmt.Errorf("the filament diameter has to be bigger than 0 but it is %v", options.Filament.FilamentDiameter)
+		}
+
 		b.AddComment("Generated with GoSlice")
 		b.AddComment("______________________")
 
-- 
2.43.0


From 4c7e35ed8dd446ee622131674e584f8bf1931833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:48 +0000
Subject: [PATCH 33/35] fix: report a support threshold angle of -90 degree or
 less as error instead of crashing

---
 modifier/support.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modifier/support.go b/modifier/support.go
index 4a1adb9..4c55737 100644
--- a/modifier/support.go
+++ b/modifier/support.go
@@ -75,6 +75,9 @@ func (m supportDetectorModifier) Modify(layers []data.PartitionedLayer) error {
 	if m.options.Print.Support.Enabled && m.options.Print.Support.TopGapLayers < 0 {
 		return fmt.Errorf("the support top gap layers must not be negative but it is %d", m.options.Print.Support.TopGapLayers)
 	}
+	if m.options.Print.Support.Enabled && m.options.Print.Support.ThresholdAngle <= -90 {
+		return fmt.Errorf("the support threshold angle has to be bigger than -90 but it is %d", m.options.Print.Support.ThresholdAngle)
+	}
 	if m.options.Print.Support.ThresholdAngle >= 90 {
 		// even a horizontal overhang does not exceed the threshold
 		return nil
-- 
2.43.0


From 61ddc733079fbd01b8c0407ff721ee2b7ffa0cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:21 +0000
Subject: [PATCH 34/35] fix: pieces of a contour are joined with the nearest
 ones and closed only at its end

---
 slicer/layer.go | 60 +++++++++++++++++++++++++++++++------------------
 1 file changed, 38 insertions(+), 22 deletions(-)

diff --git a/slicer/layer.go b/slicer/layer.go
index c712849..7f2a17a 100644
--- a/slicer/layer.go
+++ b/slicer/layer.go
@@ -109,24 +109,7 @@ RerunConnectPolygons:
 			continue
 		}
 
-		best := -1
-		bestScore := joinPolygonSnapDistance + 1
-		for j, polygon2 := range l.polygons {
-			if polygon2 == nil || l.closed[j] || i == j {
-				continue
-			}
-
-			// check the distance of the last point from the first unfinished slicePolygon
-			// with the first point of the second unfinished slicePolygon
-			diff := polygon[len(polygon)-1].Sub(polygon2[0])
-			if diff.ShorterThanOrEqual(joinPolygonSnapDistance) {
-				score := diff.Size() - data.Micrometer(len(polygon2)*10)
-				if score < bestScore {
-					best = j
-					bestScore = score
-				}
-			}
-		}
+		best, _ := l.nearestContinuation(i, joinPolygonSnapDistance)
 
 		// if a matching slicePolygon was found, connect them
 		if best > -1 {
@@ -134,14 +117,20 @@ RerunConnectPolygons:
 				l.polygons[i] = append(l.polygons[i], aPointFromBest)
 			}
 
+			// erase the merged slicePolygon
+			l.polygons[best] = nil
+
 			// close slicePolygon if the start end end now fits inside the snap distance
+			// and if there is no other unfinished slicePolygon which continues it nearer than its own start
 			if l.polygons[i].IsAlmostFinished(joinPolygonSnapDistance) {
-				l.removeLastPoint(i)
-				l.closed[i] = true
+				merged := l.polygons[i]
+				next, distance := l.nearestContinuation(i, joinPolygonSnapDistance)
+				if next == -1 || merged[len(merged)-1].Sub(merged[0]).Size() <= distance {
+					l.removeLastPoint(i)
+					l.closed[i] = true
+				}
 			}
 
-			// erase the merged slicePolygon
-			l.polygons[best] = nil
 			// restart search
 			goto RerunConnectPolygons
 		}
@@ -184,6 +173,33 @@ RerunConnectPolygons:
 	l.polygons = clearedPolygons
 }
 
+// nearestContinuation searches the unfinished polygon whose first point is the nearest one to the last point of the given one.
+// It returns its index and the distance, or -1 if there is none inside the snapDistance.
+func (l *layer) nearestContinuation(polyIndex int, snapDistance data.Micrometer) (int, data.Micrometer) {
+	polygon := l.polygons[polyIndex]
+	best := -1
+	bestDistance := snapDistance + 1
+
+	for j, polygon2 := range l.polygons {
+		if polygon2 == nil || l.closed[j] || polyIndex == j {
+			continue
+		}
+
+		// check the distance of the last point from the first unfinished slicePolygon
+		// with the first point of the second unfinished slicePolygon
+		diff := polygon[len(polygon)-1].Sub(polygon2[0])
+		if diff.ShorterThanOrEqual(snapDistance) {
+			distance := diff.Size()
+			if distance < bestDistance {
+				best = j
+				bestDistance = distance
+			}
+		}
+	}
+
+	return best, bestDistance
+}
+
 func (l *layer) removeLastPoint(polyIndex int) {
 	l.polygons[polyIndex] = l.polygons[polyIndex][:len(l.polygons[polyIndex])]
 }
-- 
2.43.0


From 17d4c4d740cd61bd14cca5a7a5177b4aebf712d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:53 +0000
Subject: [PATCH 35/35] fix: very small segments of a contour are followed in
 the right direction

---
 slicer/layer.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/slicer/layer.go b/slicer/layer.go
index 7f2a17a..7a1620f 100644
--- a/slicer/layer.go
+++ b/slicer/layer.go
@@ -59,6 +59,7 @@ func (l *layer) makePolygons(om data.OptimizedModel, joinPolygonSnapDistance, fi
 			polygon = append(polygon, p0)
 
 			nextIndex := -1
+			nextDistance := l.options.Slicing.MeldDistance + 1
 			// get the whole face for the index
 			face := om.OptimizedFace(l.segments[currentSegmentIndex].faceIndex)
 
@@ -70,7 +71,7 @@ func (l *layer) makePolygons(om data.OptimizedModel, joinPolygonSnapDistance, fi
 			// * check if it is the same segment as the starting segment of this round
 			//   -> close it as a slicePolygon is finished
 			// * if the segment is already added just continue
-			// then set the next index to the touching segment
+			// then set the next index to the nearest touching segment
 			for _, touchingFaceIndex := range face.TouchingFaceIndices() {
 				touchingSegmentIndex, ok := l.faceToSegmentIndex[touchingFaceIndex]
 				if touchingFaceIndex > -1 && ok {
@@ -84,7 +85,11 @@ func (l *layer) makePolygons(om data.OptimizedModel, joinPolygonSnapDistance, fi
 						if l.segments[touchingSegmentIndex].addedToPolygon {
 							continue
 						}
-						nextIndex = touchingSegmentIndex
+						// very small segments may begin and end inside the threshold
+						if distance := diff.Size(); distance < nextDistance {
+							nextIndex = touchingSegmentIndex
+							nextDistance = distance
+						}
 					}
 				}
 			}
-- 
2.43.0

