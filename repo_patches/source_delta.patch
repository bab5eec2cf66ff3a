From 4de6c29f7e7920e26bcfb29b7952fe6af8993cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:37 +0000
Subject: [PATCH 01/17] fix: keep image corners that lie inside a clipped
 Voronoi cell

A cell that contains a whole side of the image has two corners inside it but
at most one of them lies between two sides that both intersect the cell, so
corners were dropped and the cell no longer covered its region.
---
 triangulation/incrdelaunay/voronoi.go | 50 ++++++++++-----------------
 1 file changed, 18 insertions(+), 32 deletions(-)

diff --git a/triangulation/incrdelaunay/voronoi.go b/triangulation/incrdelaunay/voronoi.go
index 913dac7..ec68b5a 100644
--- a/triangulation/incrdelaunay/voronoi.go
+++ b/triangulation/incrdelaunay/voronoi.go
@@ -162,8 +162,6 @@ func (v *IVoronoi) processPoint(point Point) {
 	if clip {
 		v.newPolygon = v.newPolygon[:0]
 
-		intersections := [4]int{-1, -1, -1, -1}
-
 		for i := 0; i < len(v.points); i++ {
 			a := v.points[i]
 			b := v.points[(i+1)%len(v.points)]
@@ -174,7 +172,7 @@ func (v *IVoronoi) processPoint(point Point) {
 				v.newPolygon = append(v.newPolygon, a)
 			}
 
-			for j, e := range edges {
+			for _, e := range edges {
 				e0 := FloatPoint{
 					X: e[0].X * float64(v.w),
 					Y: e[0].Y * float64(v.h),
@@ -203,24 +201,19 @@ func (v *IVoronoi) processPoint(point Point) {
 					if new != e0 && new != e1 {
 						v.newPolygon = append(v.newPolygon, new)
 					}
-					intersections[j] += 1
 				}
 			}
 
 		}
 
-		for j, e := range edges {
-			i0 := intersections[j]
-			i1 := intersections[(j+1)%len(edges)]
-
-			if i0 != -1 && i1 != -1 {
-				corner := FloatPoint{
-					X: e[1].X * float64(v.w),
-					Y: e[1].Y * float64(v.h),
-				}
-				if polygonPointIntersect(v.points, corner) {
-					v.newPolygon = append(v.newPolygon, corner)
-				}
+		// Add the corners of the image that are inside the cell
+		for _, e := range edges {
+			corner := FloatPoint{
+				X: e[1].X * float64(v.w),
+				Y: e[1].Y * float64(v.h),
+			}
+			if polygonPointIntersect(v.points, corner) {
+				v.newPolygon = append(v.newPolygon, corner)
 			}
 		}
 
@@ -378,8 +371,6 @@ func Voronoi(delaunay *Delaunay, polygon func([]FloatPoint), w, h int) {
 		if clip {
 			newPolygon = newPolygon[:0]
 
-			intersections := [4]int{-1, -1, -1, -1}
-
 			for i := 0; i < len(points); i++ {
 				a := points[i]
 				b := points[(i+1)%len(points)]
@@ -390,7 +381,7 @@ func Voronoi(delaunay *Delaunay, polygon func([]FloatPoint), w, h int) {
 					newPolygon = append(newPolygon, a)
 				}
 
-				for j, e := range edges {
+				for _, e := range edges {
 					e0 := FloatPoint{
 						X: e[0].X * float64(w),
 						Y: e[0].Y * float64(h),
@@ -419,24 +410,19 @@ func Voronoi(delaunay *Delaunay, polygon func([]FloatPoint), w, h int) {
 						if new != e0 && new != e1 {
 							newPolygon = append(newPolygon, new)
 						}
-						intersections[j] += 1
 					}
 				}
 
 			}
 
-			for j, e := range edges {
-				i0 := intersections[j]
-				i1 := intersections[(j+1)%len(edges)]
-
-				if i0 != -1 && i1 != -1 {
-					corner := FloatPoint{
-						X: e[1].X * float64(w),
-						Y: e[1].Y * float64(h),
-					}
-					if polygonPointIntersect(points, corner) {
-						newPolygon = append(newPolygon, corner)
-					}
+			// Add the corners of the image that are inside the cell
+			for _, e := range edges {
+				corner := FloatPoint{
+					X: e[1].X * float64(w),
+					Y: e[1].Y * float64(h),
+				}
+				if polygonPointIntersect(points, corner) {
+					newPolygon = append(newPolygon, corner)
 				}
 			}
 
-- 
2.43.0


From 6864a5fbe74152d9e8bd8bd43ebb493a06992429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:39 +0000
Subject: [PATCH 02/17] fix: copy the point counts in Delaunay.Set

---
 triangulation/incrdelaunay/delaunay.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/triangulation/incrdelaunay/delaunay.go b/triangulation/incrdelaunay/delaunay.go
index e40f55f..6e78178 100644
--- a/triangulation/incrdelaunay/delaunay.go
+++ b/triangulation/incrdelaunay/delaunay.go
@@ -299,6 +299,9 @@ func (d *Delaunay) Set(other *Delaunay) {
 
 	d.superTriangle = other.superTriangle
 
+	d.numPoints = other.numPoints
+	d.uniquePoints = other.uniquePoints
+
 	d.grid.Set(&other.grid)
 	d.pointMap.Set(&other.pointMap)
 }
-- 
2.43.0


From 1a3572f590d21bb90901db5ea68db43f44b7158d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:41 +0000
Subject: [PATCH 03/17] fix: convert images whose bounds do not start at the
 origin

---
 image/rgbdata.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/image/rgbdata.go b/image/rgbdata.go
index f422e87..ba44f6b 100644
--- a/image/rgbdata.go
+++ b/image/rgbdata.go
@@ -37,12 +37,13 @@ func NewData(w, h int) RGBData {
 
 // ToData converts an image.Image to a RGBData.
 func ToData(image image.Image) RGBData {
-	data := NewData(image.Bounds().Max.X, image.Bounds().Max.Y)
+	bounds := image.Bounds()
+	data := NewData(bounds.Dx(), bounds.Dy())
 
 	for y := range data.pixels {
 		for x := range data.pixels[y] {
 			col := &data.pixels[y][x]
-			r, g, b, _ := image.At(x, y).RGBA()
+			r, g, b, _ := image.At(bounds.Min.X+x, bounds.Min.Y+y).RGBA()
 
 			col.R = convertColor(r)
 			col.G = convertColor(g)
-- 
2.43.0


From d89cac07a3eae9778dafde16940957b7daf8586c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:42 +0000
Subject: [PATCH 04/17] fix: never rank unevaluated members above evaluated
 ones

A fitness of 0 was used to leave members out of the next generation, but
fitness functions (including the provided ones) can return negative values.
---
 algorithm/modifiedgenetic.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/algorithm/modifiedgenetic.go b/algorithm/modifiedgenetic.go
index 7d9d165..887546a 100644
--- a/algorithm/modifiedgenetic.go
+++ b/algorithm/modifiedgenetic.go
@@ -6,6 +6,7 @@ import (
 	"github.com/RH12503/Triangula/mutation"
 	"github.com/RH12503/Triangula/normgeom"
 	"github.com/panjf2000/ants/v2"
+	"math"
 	"sort"
 	"time"
 )
@@ -199,8 +200,8 @@ func (g *modifiedGenetic) combineMutations() {
 			g.evaluator.Update(i)
 		} else {
 			// If there aren't any beneficial mutations, leave the member out of the next generation by setting
-			// its fitness to 0
-			g.fitnesses[i].Fitness = 0
+			// its fitness to the lowest value possible (fitness functions can return negative fitnesses)
+			g.fitnesses[i].Fitness = math.Inf(-1)
 		}
 	}
 }
@@ -269,6 +270,12 @@ func NewModifiedGenetic(newPointGroup func() normgeom.NormPointGroup, size int,
 
 	algo.cutoff = cutoff
 
+	// The members at the end aren't evaluated until there are beneficial mutations to combine,
+	// so leave them out of the first generation
+	for i := len(algo.population) - cutoff; i < len(algo.population); i++ {
+		algo.fitnesses[i] = FitnessData{I: i, Fitness: math.Inf(-1)}
+	}
+
 	// Calculate and update fitnesses in preparation for the first generation
 	algo.calculateFitnesses()
 	algo.updateFitnesses()
-- 
2.43.0


From 6ebaaecd4a4ec3e2d1a2d96e0b3d70cbd7240fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:15 +0000
Subject: [PATCH 05/17] fix: don't overflow the color sums of blocks larger
 than 16 pixels

---
 fitness/pixels.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fitness/pixels.go b/fitness/pixels.go
index 8a6360d..bdbefcd 100644
--- a/fitness/pixels.go
+++ b/fitness/pixels.go
@@ -61,7 +61,7 @@ type pixelDataN struct {
 
 // pixel stores RGB values of a pixel as well as the sum of their squares in a N*N block.
 type pixelN struct {
-	r, g, b uint16
+	r, g, b uint32
 	sq      uint32
 }
 
@@ -89,9 +89,9 @@ func fromImageN(image image.Data, n int) pixelDataN {
 			for i := 0; i < n; i++ {
 				for j := 0; j < n; j++ {
 					rgb := image.RGBAt(x+i, y+j)
-					col.r += uint16(rgb.R * 255)
-					col.g += uint16(rgb.G * 255)
-					col.b += uint16(rgb.B * 255)
+					col.r += uint32(rgb.R * 255)
+					col.g += uint32(rgb.G * 255)
+					col.b += uint32(rgb.B * 255)
 					col.sq += uint32(rgb.R*255*rgb.R*255 + rgb.G*255*rgb.G*255 + rgb.B*255*rgb.B*255)
 				}
 			}
-- 
2.43.0


From 0e6c6b4cb63600814456544b2a0eb71ca886ac9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:17 +0000
Subject: [PATCH 06/17] fix: support images that are smaller than the block
 size

---
 fitness/pixels.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fitness/pixels.go b/fitness/pixels.go
index bdbefcd..83826c1 100644
--- a/fitness/pixels.go
+++ b/fitness/pixels.go
@@ -68,6 +68,11 @@ type pixelN struct {
 // newPixelDataN creates a new pixelDataN given a width and height.
 func newPixelDataN(w, h, n int) pixelDataN {
 	data := pixelDataN{}
+
+	if w < n || h < n {
+		return data // No block fits in the image
+	}
+
 	data.pixels = make([][]pixelN, h-n+1)
 
 	for i := range data.pixels {
-- 
2.43.0


From cea02b41b1cd4db6ebcfd54079b7cc955a13f1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:18 +0000
Subject: [PATCH 07/17] fix: support a cache with a single entry

Functions start with their own cache and its indexes are used in the
evaluator's cache, so it can't be larger than the smallest one.
---
 fitness/polygons.go  | 2 +-
 fitness/triangles.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/fitness/polygons.go b/fitness/polygons.go
index a82df75..5bb4ea4 100644
--- a/fitness/polygons.go
+++ b/fitness/polygons.go
@@ -181,7 +181,7 @@ func PolygonsImageFunctions(target image.Data, blockSize, n int) []CacheFunction
 			targetN:       pixelsN,
 			blockSize:     blockSize,
 			maxDifference: maxDiff,
-			TriangleCache: make([]CacheData, 2),
+			TriangleCache: make([]CacheData, 1),
 		}
 		functions[i] = &function
 	}
diff --git a/fitness/triangles.go b/fitness/triangles.go
index 648c7e8..3dd2a41 100644
--- a/fitness/triangles.go
+++ b/fitness/triangles.go
@@ -187,7 +187,7 @@ func TrianglesImageFunctions(target image.Data, blockSize, n int) []CacheFunctio
 			targetN:       pixelsN,
 			blockSize:     blockSize,
 			maxDifference: maxDiff,
-			TriangleCache: make([]CacheData, 2),
+			TriangleCache: make([]CacheData, 1),
 		}
 		functions[i] = &function
 	}
@@ -204,6 +204,6 @@ func NewTrianglesImageFunction(target image.Data, blockSize int) CacheFunction {
 		targetN:       fromImageN(target, blockSize),
 		blockSize:     blockSize,
 		maxDifference: float64(maxPixelDifference * w * h),
-		TriangleCache: make([]CacheData, 2),
+		TriangleCache: make([]CacheData, 1),
 	}
 }
-- 
2.43.0


From 459f1c7883597ee8e7d092e595c4e97daa75aebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:20 +0000
Subject: [PATCH 08/17] fix: don't move points onto other points in the spaced
 generator

Points equal to the moved one were skipped when looking for the closest
point, so moving a point onto another one (in a corner, for example) counted
as moving it away from it.
---
 generator/spaced.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/generator/spaced.go b/generator/spaced.go
index 8d857e6..d54f453 100644
--- a/generator/spaced.go
+++ b/generator/spaced.go
@@ -29,13 +29,13 @@ func (s spacedGenerator) Generate(n int) normgeom.NormPointGroup {
 		p := points[ran]
 		point := &points[ran]
 
-		_, currDist := closestTo(p, points)
+		_, currDist := closestTo(p, ran, points)
 		p.X += (rand.Float64() - 0.5) * temp
 		p.Y += (rand.Float64() - 0.5) * temp
 
 		p.Constrain()
 
-		_, newDist := closestTo(p, points)
+		_, newDist := closestTo(p, ran, points)
 
 		if newDist > currDist {
 			point.X = p.X
@@ -47,12 +47,13 @@ func (s spacedGenerator) Generate(n int) normgeom.NormPointGroup {
 	return points
 }
 
-func closestTo(point normgeom.NormPoint, group normgeom.NormPointGroup) (normgeom.NormPoint, float64) {
+// closestTo returns the closest point in a group to a point and its distance, skipping the point at index.
+func closestTo(point normgeom.NormPoint, index int, group normgeom.NormPointGroup) (normgeom.NormPoint, float64) {
 	closest := group[0]
 	dist := -1.
 
-	for _, p := range group {
-		if p == point {
+	for i, p := range group {
+		if i == index {
 			continue
 		}
 
-- 
2.43.0


From 4d781d4eaf257770ea3d28bcb30b6ae4a83edcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:33 +0000
Subject: [PATCH 09/17] fix: ignore the super triangle in Delaunay.GetClosestTo

---
 triangulation/incrdelaunay/delaunay.go | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/triangulation/incrdelaunay/delaunay.go b/triangulation/incrdelaunay/delaunay.go
index 6e78178..c852b35 100644
--- a/triangulation/incrdelaunay/delaunay.go
+++ b/triangulation/incrdelaunay/delaunay.go
@@ -322,23 +322,16 @@ func (d Delaunay) GetClosestTo(p Point) Point {
 		}
 
 		// Check all three of the triangles vertices to see if one is closer
+		for _, v := range [3]Point{t.A, t.B, t.C} {
+			// The vertices of the super triangle aren't points of the triangulation
+			if d.superTriangle.HasVertex(v) {
+				continue
+			}
 
-		dist := p.DistSq(t.A)
-		if dist < closestDist {
-			closestDist = dist
-			closest = t.A
-		}
-
-		dist = p.DistSq(t.B)
-		if dist < closestDist {
-			closestDist = dist
-			closest = t.B
-		}
-
-		dist = p.DistSq(t.C)
-		if dist < closestDist {
-			closestDist = dist
-			closest = t.C
+			if dist := p.DistSq(v); dist < closestDist {
+				closestDist = dist
+				closest = v
+			}
 		}
 	}
 	return closest
-- 
2.43.0


From 780a7419889d5a2bf609694676826d08464c9c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:03 +0000
Subject: [PATCH 10/17] fix: keep the super triangle away from small images

---
 triangulation/incrdelaunay/geom.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/triangulation/incrdelaunay/geom.go b/triangulation/incrdelaunay/geom.go
index ec7a321..c4dfb4b 100644
--- a/triangulation/incrdelaunay/geom.go
+++ b/triangulation/incrdelaunay/geom.go
@@ -34,9 +34,11 @@ func NewSuperTriangle(w, h int) Triangle {
 	if h > w {
 		max = int16(h)
 	}
-	a := Point{hW - 2*max, hH - max}
+	// Round away from the image on every side, so the vertices of the super triangle are further from
+	// any location of the image than the image's points are
+	a := Point{int16(w/2) - 2*max, int16(h/2) - max}
 	b := Point{hW, hH + 2*max}
-	c := Point{hW + 2*max, hH - max}
+	c := Point{hW + 2*max, int16(h/2) - max}
 
 	return NewTriangle(a, b, c)
 }
-- 
2.43.0


From 5693d3f5a65a2f973bcc72c5b90aed971306b94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:32 +0000
Subject: [PATCH 11/17] fix: don't overflow the sum of squares of large blocks

---
 fitness/pixels.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fitness/pixels.go b/fitness/pixels.go
index 83826c1..2c17993 100644
--- a/fitness/pixels.go
+++ b/fitness/pixels.go
@@ -62,7 +62,7 @@ type pixelDataN struct {
 // pixel stores RGB values of a pixel as well as the sum of their squares in a N*N block.
 type pixelN struct {
 	r, g, b uint32
-	sq      uint32
+	sq      uint64
 }
 
 // newPixelDataN creates a new pixelDataN given a width and height.
@@ -97,7 +97,7 @@ func fromImageN(image image.Data, n int) pixelDataN {
 					col.r += uint32(rgb.R * 255)
 					col.g += uint32(rgb.G * 255)
 					col.b += uint32(rgb.B * 255)
-					col.sq += uint32(rgb.R*255*rgb.R*255 + rgb.G*255*rgb.G*255 + rgb.B*255*rgb.B*255)
+					col.sq += uint64(rgb.R*255*rgb.R*255 + rgb.G*255*rgb.G*255 + rgb.B*255*rgb.B*255)
 				}
 			}
 		}
-- 
2.43.0


From e3c89f12c9a8432095538f1beaffef451d31cf43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:47 +0000
Subject: [PATCH 12/17] fix: don't overflow the squares of colour sums of large
 shapes

---
 fitness/polygons.go  | 2 +-
 fitness/triangles.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/fitness/polygons.go b/fitness/polygons.go
index 5bb4ea4..6ecf68c 100644
--- a/fitness/polygons.go
+++ b/fitness/polygons.go
@@ -131,7 +131,7 @@ func (g *polygonsImageFunction) Calculate(data PointsData) float64 {
 			})
 			var diff float64
 			if n != 0 {
-				diff = float64(sSq) - float64(sR0*sR0+sG0*sG0+sB0*sB0)/float64(n)
+				diff = float64(sSq) - (float64(sR0)*float64(sR0) + float64(sG0)*float64(sG0) + float64(sB0)*float64(sB0))/float64(n)
 			}
 			difference += diff
 			polyData.fitness = diff
diff --git a/fitness/triangles.go b/fitness/triangles.go
index 3dd2a41..d621189 100644
--- a/fitness/triangles.go
+++ b/fitness/triangles.go
@@ -135,7 +135,7 @@ func (t *trianglesImageFunction) Calculate(data PointsData) float64 {
 			})
 			var diff float64
 			if n != 0 {
-				diff = float64(sSq) - float64(sR0*sR0+sG0*sG0+sB0*sB0)/float64(n)
+				diff = float64(sSq) - (float64(sR0)*float64(sR0) + float64(sG0)*float64(sG0) + float64(sB0)*float64(sB0))/float64(n)
 			}
 			difference += diff
 			triData.fitness = diff
-- 
2.43.0


From fe33f18cc96b4654de66e013b0afaea73b4991ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:07 +0000
Subject: [PATCH 13/17] fix: don't return 1 from random.Float32

---
 random/random.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/random/random.go b/random/random.go
index a11ce8f..ba8bf1a 100644
--- a/random/random.go
+++ b/random/random.go
@@ -15,9 +15,13 @@ func Intn(n int) int {
 	return int(pcg.Bound(uint32(n)))
 }
 
-// Float32 returns a random float32.
+// Float32 returns a random float32 in [0, 1).
 func Float32() float32 {
-	return pcg.Float32()
+	f := pcg.Float32()
+	for f == 1 { // The largest numbers are rounded up to 1
+		f = pcg.Float32()
+	}
+	return f
 }
 
 // Int63 returns a random int64.
-- 
2.43.0


From 22f8f8de6006382b820038a139018c285e999eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:10 +0000
Subject: [PATCH 14/17] fix: round numbers just below one half down in the
 fitness functions

---
 fitness/util.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/fitness/util.go b/fitness/util.go
index 5cdfbe9..df350c3 100644
--- a/fitness/util.go
+++ b/fitness/util.go
@@ -9,7 +9,12 @@ const maxPixelDifference = 255 * 255 * 3
 
 // fastRound is an optimized version of math.Round.
 func fastRound(n float64) int {
-	return int(n+0.5) << 0
+	// n + 0.5 could itself be rounded: it's 1 for the largest number less than 0.5
+	i := int(n)
+	if n-float64(i) >= 0.5 {
+		i++
+	}
+	return i
 }
 
 func createPoint(x, y float64, w, h int) incrdelaunay.Point {
-- 
2.43.0


From b5a5f1a51255979010bbf61b9125820a481274f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:02 +0000
Subject: [PATCH 15/17] fix: write the whole trace in GenerateTrace

---
 utils/trace.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utils/trace.go b/utils/trace.go
index 4631437..3a39716 100644
--- a/utils/trace.go
+++ b/utils/trace.go
@@ -21,5 +21,6 @@ func GenerateTrace(outputFile string, algo algorithm.Algorithm) {
 		algo.Step()
 	}
 	trace.Stop()
+	writer.Flush()
 	dataFile.Close()
 }
-- 
2.43.0


From 35da85338f88818444fdfea9b5f1f65c3be92990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:37 +0000
Subject: [PATCH 16/17] fix: number triangles with 32 bits

More than 65536 triangles (about 32700 points) overflowed their 16-bit numbers, and
inserting another point ended in a panic.
---
 triangulation/incrdelaunay/delaunay.go | 12 ++++++------
 triangulation/incrdelaunay/grid.go     | 20 ++++++++++----------
 triangulation/incrdelaunay/voronoi.go  |  8 ++++----
 3 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/triangulation/incrdelaunay/delaunay.go b/triangulation/incrdelaunay/delaunay.go
index c852b35..313ebb3 100644
--- a/triangulation/incrdelaunay/delaunay.go
+++ b/triangulation/incrdelaunay/delaunay.go
@@ -15,7 +15,7 @@ type Delaunay struct {
 
 	pointMap pointMap
 
-	freeTriangles []uint16 // A list of free indexes in the triangles slice.
+	freeTriangles []uint32 // A list of free indexes in the triangles slice.
 
 	superTriangle Triangle // A triangle that contains all points added.
 
@@ -57,7 +57,7 @@ func (d *Delaunay) Insert(p Point) bool {
 	d.resetEdges()
 
 	// Iterate through all the triangles with circumcircles that contain the point
-	d.grid.RemoveCircumcirclesThatContain(p, d.triangles, func(i uint16) {
+	d.grid.RemoveCircumcirclesThatContain(p, d.triangles, func(i uint32) {
 		t := d.triangles[i]
 
 		d.addEdge(NewEdge(t.A, t.B))
@@ -110,7 +110,7 @@ func (d *Delaunay) Remove(p Point) {
 	}
 
 	// Iterates through all the triangles that have a connection to point p
-	d.grid.RemoveThatHasVertex(p, d.triangles, func(i uint16) {
+	d.grid.RemoveThatHasVertex(p, d.triangles, func(i uint32) {
 		t := d.triangles[i]
 
 		addPoint(t.A)
@@ -243,14 +243,14 @@ func (d *Delaunay) addTriangle(t Triangle) {
 		return
 	}
 
-	d.grid.AddTriangle(t, uint16(len(d.triangles))) // Update the grid
+	d.grid.AddTriangle(t, uint32(len(d.triangles))) // Update the grid
 
 	d.triangles = append(d.triangles, t)
 }
 
 // markFreeTriangle marks a triangle in the triangles slice as no longer being needed,
 // essentially removing the triangle from the triangulation.
-func (d *Delaunay) markFreeTriangle(i uint16) {
+func (d *Delaunay) markFreeTriangle(i uint32) {
 	d.triangles[i].A.X = -1 // Marks the triangle as invalid
 	d.freeTriangles = append(d.freeTriangles, i)
 }
@@ -292,7 +292,7 @@ func (d *Delaunay) Set(other *Delaunay) {
 	if len(d.freeTriangles) > len(other.freeTriangles) {
 		d.freeTriangles = d.freeTriangles[:len(other.freeTriangles)]
 	} else if len(d.freeTriangles) < len(other.freeTriangles) {
-		d.freeTriangles = make([]uint16, len(other.freeTriangles))
+		d.freeTriangles = make([]uint32, len(other.freeTriangles))
 	}
 
 	copy(d.freeTriangles, other.freeTriangles)
diff --git a/triangulation/incrdelaunay/grid.go b/triangulation/incrdelaunay/grid.go
index 82eeab9..81ff0ee 100644
--- a/triangulation/incrdelaunay/grid.go
+++ b/triangulation/incrdelaunay/grid.go
@@ -7,7 +7,7 @@ import (
 // CircumcircleGrid is a data structure that uses spatial partitioning to allowed fast operations
 // involving multiple Triangle's and their Circumcircle's.
 type CircumcircleGrid struct {
-	triangles            [][][]uint16 // The grid used to store triangles
+	triangles            [][][]uint32 // The grid used to store triangles
 	cols, rows           int
 	rowPixels, colPixels float64 // The number of pixels per row and column
 }
@@ -20,15 +20,15 @@ func NewCircumcircleGrid(cols, rows, w, h int) CircumcircleGrid {
 	c.colPixels = float64(w) / float64(cols)
 	c.rowPixels = float64(h) / float64(rows)
 
-	c.triangles = make([][][]uint16, c.rows)
+	c.triangles = make([][][]uint32, c.rows)
 	for i := range c.triangles {
-		c.triangles[i] = make([][]uint16, c.cols)
+		c.triangles[i] = make([][]uint32, c.cols)
 	}
 	return c
 }
 
 // AddTriangle adds a Triangle with an index to the grid.
-func (c *CircumcircleGrid) AddTriangle(t Triangle, index uint16) {
+func (c *CircumcircleGrid) AddTriangle(t Triangle, index uint32) {
 	// Find all the boxes of the grid that the triangle's circumcircle intersects
 	radius := t.Circumcircle.Radius + 0.001
 	topLeftX := int(float64(t.Circumcircle.cX-radius) / c.colPixels)
@@ -61,7 +61,7 @@ func (c *CircumcircleGrid) AddTriangle(t Triangle, index uint16) {
 }
 
 // RemoveTriangle removes a triangle from the grid.
-func (c *CircumcircleGrid) RemoveTriangle(tri Triangle, index uint16) {
+func (c *CircumcircleGrid) RemoveTriangle(tri Triangle, index uint32) {
 	// Find all the boxes of the grid that the triangle's circumcircle intersects
 	radius := tri.Circumcircle.Radius + 0.001
 	topLeftX := int(float64(tri.Circumcircle.cX-radius) / c.colPixels)
@@ -133,7 +133,7 @@ func (c CircumcircleGrid) HasPoint(p Point, triangles []Triangle) bool {
 }
 
 // RemoveCircumcirclesThatContain removes all triangles whose circumcircle contain a point.
-func (c CircumcircleGrid) RemoveCircumcirclesThatContain(p Point, triangles []Triangle, contains func(i uint16)) {
+func (c CircumcircleGrid) RemoveCircumcirclesThatContain(p Point, triangles []Triangle, contains func(i uint32)) {
 	// Find which box of the grid the point falls into
 	x := int(math.Floor(float64(p.X) / c.colPixels))
 	y := int(math.Floor(float64(p.Y) / c.rowPixels))
@@ -166,7 +166,7 @@ func (c CircumcircleGrid) RemoveCircumcirclesThatContain(p Point, triangles []Tr
 	}
 }
 
-func (c CircumcircleGrid) IterCircumcirclesThatContain(p Point, triangles []Triangle, contains func(i uint16)) {
+func (c CircumcircleGrid) IterCircumcirclesThatContain(p Point, triangles []Triangle, contains func(i uint32)) {
 	// Find which box of the grid the point falls into
 	x := int(math.Floor(float64(p.X) / c.colPixels))
 	y := int(math.Floor(float64(p.Y) / c.rowPixels))
@@ -196,7 +196,7 @@ func (c CircumcircleGrid) IterCircumcirclesThatContain(p Point, triangles []Tria
 }
 
 // RemoveThatHasVertex removes all triangles that have a vertex.
-func (c CircumcircleGrid) RemoveThatHasVertex(p Point, triangles []Triangle, contains func(i uint16)) {
+func (c CircumcircleGrid) RemoveThatHasVertex(p Point, triangles []Triangle, contains func(i uint32)) {
 	// Find which box of the grid the point falls into
 	x := int(math.Floor(float64(p.X) / c.colPixels))
 	y := int(math.Floor(float64(p.Y) / c.rowPixels))
@@ -226,7 +226,7 @@ func (c CircumcircleGrid) RemoveThatHasVertex(p Point, triangles []Triangle, con
 	}
 }
 
-func (c CircumcircleGrid) IterThatHasVertex(p Point, triangles []Triangle, contains func(i uint16)) {
+func (c CircumcircleGrid) IterThatHasVertex(p Point, triangles []Triangle, contains func(i uint32)) {
 	// Find which box of the grid the point falls into
 	x := int(math.Floor(float64(p.X) / c.colPixels))
 	y := int(math.Floor(float64(p.Y) / c.rowPixels))
@@ -260,7 +260,7 @@ func (c *CircumcircleGrid) Set(other *CircumcircleGrid) {
 			if len(c.triangles[x][y]) > len(other.triangles[x][y]) {
 				c.triangles[x][y] = c.triangles[x][y][:len(other.triangles[x][y])]
 			} else if len(c.triangles[x][y]) < len(other.triangles[x][y]) {
-				c.triangles[x][y] = make([]uint16, len(other.triangles[x][y]))
+				c.triangles[x][y] = make([]uint32, len(other.triangles[x][y]))
 			}
 
 			copy(c.triangles[x][y], other.triangles[x][y])
diff --git a/triangulation/incrdelaunay/voronoi.go b/triangulation/incrdelaunay/voronoi.go
index ec68b5a..17ffd2e 100644
--- a/triangulation/incrdelaunay/voronoi.go
+++ b/triangulation/incrdelaunay/voronoi.go
@@ -35,7 +35,7 @@ func (v *IVoronoi) Insert(point Point) {
 	v.pointsToUpdate = v.pointsToUpdate[:0]
 	triangles := v.delaunay.triangles
 
-	v.delaunay.grid.IterCircumcirclesThatContain(point, triangles, func(i uint16) {
+	v.delaunay.grid.IterCircumcirclesThatContain(point, triangles, func(i uint32) {
 		t := triangles[i]
 		v.addPointToUpdate(t.A)
 		v.addPointToUpdate(t.B)
@@ -65,7 +65,7 @@ func (v *IVoronoi) Remove(point Point) {
 	v.pointsToUpdate = v.pointsToUpdate[:0]
 	triangles := v.delaunay.triangles
 
-	v.delaunay.grid.IterThatHasVertex(point, triangles, func(i uint16) {
+	v.delaunay.grid.IterThatHasVertex(point, triangles, func(i uint32) {
 		t := triangles[i]
 
 		v.addPointToUpdate(t.A)
@@ -102,7 +102,7 @@ func (v *IVoronoi) processPoint(point Point) {
 	v.points = v.points[:0]
 	clip := false
 
-	v.delaunay.grid.IterThatHasVertex(point, triangles, func(i uint16) {
+	v.delaunay.grid.IterThatHasVertex(point, triangles, func(i uint32) {
 		circ := triangles[i].Circumcircle
 
 		new := FloatPoint{
@@ -311,7 +311,7 @@ func Voronoi(delaunay *Delaunay, polygon func([]FloatPoint), w, h int) {
 		points = points[:0]
 		clip := false
 
-		delaunay.grid.IterThatHasVertex(point, triangles, func(i uint16) {
+		delaunay.grid.IterThatHasVertex(point, triangles, func(i uint32) {
 			circ := triangles[i].Circumcircle
 
 			new := FloatPoint{
-- 
2.43.0


From adac0a623ab9fb88ce28c9169c19cc8985054695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:51 +0000
Subject: [PATCH 17/17] fix: count the copies of a point with 32 bits

The count of 65537 copies of a point was 1, so that removing one of them removed
the point from the triangulation.
---
 triangulation/incrdelaunay/pointmap.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/triangulation/incrdelaunay/pointmap.go b/triangulation/incrdelaunay/pointmap.go
index da8210a..e8004c9 100644
--- a/triangulation/incrdelaunay/pointmap.go
+++ b/triangulation/incrdelaunay/pointmap.go
@@ -13,7 +13,7 @@ func newPointMap(size int) pointMap {
 }
 
 // AddPoint adds a point to the pointMap, accounting for duplicates.
-func (pm *pointMap) AddPoint(point Point) uint16 {
+func (pm *pointMap) AddPoint(point Point) uint32 {
 	x, y := uint16(point.X), uint16(point.Y)
 	index := point.Hash() % len(pm.points)
 
@@ -36,7 +36,7 @@ func (pm *pointMap) AddPoint(point Point) uint16 {
 
 // RemovePoint removes a point from the pointMap, accounting for duplicates,
 // and returning the number of the same point left.
-func (pm *pointMap) RemovePoint(point Point) uint16 {
+func (pm *pointMap) RemovePoint(point Point) uint32 {
 	x, y := uint16(point.X), uint16(point.Y)
 	index := point.Hash() % len(pm.points)
 
@@ -58,7 +58,7 @@ func (pm *pointMap) RemovePoint(point Point) uint16 {
 	panic("point doesn't exist")
 }
 
-func (pm *pointMap) CopiesOf(point Point) uint16 {
+func (pm *pointMap) CopiesOf(point Point) uint32 {
 	x, y := uint16(point.X), uint16(point.Y)
 	index := point.Hash() % len(pm.points)
 
@@ -109,5 +109,5 @@ func (pm pointMap) IterPoints(point func(Point)) {
 // pointEntry is used to keep track of a point and how many copies of a point there are.
 type pointEntry struct {
 	x, y  uint16
-	count uint16 // the number of a point the hash table contains.
+	count uint32 // the number of a point the hash table contains.
 }
-- 
2.43.0

