From aaf3dee336ec7706fa47e844eed6c4d59252368c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:42 +0000
Subject: [PATCH 01/52] fix: bounding box of coordinates beyond 2^31

---
 box.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/box.go b/box.go
index 1ba1f53..fa90d87 100644
--- a/box.go
+++ b/box.go
@@ -48,7 +48,10 @@ func BoxToGeo(b Box) Geometry {
 
 func calBox(points ...Point) *Box {
 	var minX, minY, maxX, maxY float64 = INF, INF, -INF, -INF
-	for _, v := range points {
+	for i, v := range points {
+		if i == 0 {
+			minX, minY, maxX, maxY = v.X, v.Y, v.X, v.Y
+		}
 		if minX > v.X {
 			minX = v.X
 		}
-- 
2.43.0


From 79d3b3b8e56bc63cbfd2b94609fcee774f0c2e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:53 +0000
Subject: [PATCH 02/52] fix: close the ring of a box converted to a polygon

---
 box.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/box.go b/box.go
index fa90d87..f1ee91c 100644
--- a/box.go
+++ b/box.go
@@ -43,7 +43,7 @@ func BoxToGeo(b Box) Geometry {
 		//元素是条线 x坐标不同
 		return LineString{p1, p2}
 	}
-	return *NewPolygon(LinearRing{p1, p2, p3, p4})
+	return *NewPolygon(LinearRing{p1, p2, p3, p4, p1})
 }
 
 func calBox(points ...Point) *Box {
-- 
2.43.0


From f415fc6fd374f482d465441fef274ad3cd4ccc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:31 +0000
Subject: [PATCH 03/52] fix: inserting a point at the end of a line added it
 twice

---
 lineString.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lineString.go b/lineString.go
index 2d673f9..f1d3a4a 100644
--- a/lineString.go
+++ b/lineString.go
@@ -83,7 +83,7 @@ func (line *LineString) InsertPoint(position int, point Point) error {
 		return errors.New("line has no such position")
 	}
 	if line.GetPointCount() == position {
-		line.Append(point)
+		return line.Append(point)
 	}
 	*line = append((*line)[:position+1], (*line)[position:]...)
 	(*line)[position] = point
-- 
2.43.0


From ff306ea9d940c76121c55e848d024e8796e5260b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:32 +0000
Subject: [PATCH 04/52] fix: negative positions in a line panicked

---
 lineString.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lineString.go b/lineString.go
index f1d3a4a..e31d4c8 100644
--- a/lineString.go
+++ b/lineString.go
@@ -54,7 +54,7 @@ func (line LineString) GetEndPoint() *Point {
 
 //取特定点
 func (line LineString) GetPoint(index int) *Point {
-	if index > line.GetPointCount()-1 {
+	if index < 0 || index > line.GetPointCount()-1 {
 		return nil
 	}
 	return &line[index]
@@ -67,7 +67,7 @@ func (line *LineString) Append(point Point) error {
 
 //在指定位置改变linestring的点
 func (line *LineString) SetPoint(position int, point Point) error {
-	if line.GetPointCount() < position {
+	if position < 0 || line.GetPointCount() < position {
 		return errors.New("line has no such position")
 	}
 	if line.GetPointCount() == position {
@@ -79,7 +79,7 @@ func (line *LineString) SetPoint(position int, point Point) error {
 
 //在指定位置插入点
 func (line *LineString) InsertPoint(position int, point Point) error {
-	if line.GetPointCount() < position {
+	if position < 0 || line.GetPointCount() < position {
 		return errors.New("line has no such position")
 	}
 	if line.GetPointCount() == position {
@@ -92,7 +92,7 @@ func (line *LineString) InsertPoint(position int, point Point) error {
 
 //在指定位置删除点
 func (line *LineString) DelPoint(position int) error {
-	if line.GetPointCount() <= position {
+	if position < 0 || line.GetPointCount() <= position {
 		return errors.New("line has no such position")
 	}
 	(*line) = append((*line)[:position], (*line)[position+1:]...)
-- 
2.43.0


From 269b7d7eff1983e2dcb5fe02444b41f3c74117d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:33 +0000
Subject: [PATCH 05/52] fix: comparing lines of different lengths panicked or
 reported a prefix as equal

---
 lineString.go  | 3 +++
 lineStringZ.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/lineString.go b/lineString.go
index e31d4c8..4dd2b4e 100644
--- a/lineString.go
+++ b/lineString.go
@@ -109,6 +109,9 @@ func (line LineString) Length() float64 {
 
 //判断两条线是不是相同
 func (line1 LineString) Equal(line2 LineString) bool {
+	if line1.GetPointCount() != line2.GetPointCount() {
+		return false
+	}
 	for i := 0; i < line1.GetPointCount(); i++ {
 		if !line1[i].Equal(line2[i]) {
 			return false
diff --git a/lineStringZ.go b/lineStringZ.go
index dad543b..e0c1b8a 100644
--- a/lineStringZ.go
+++ b/lineStringZ.go
@@ -38,6 +38,9 @@ func (line *LineStringZ) Append(point PointZ) error {
 
 //判断两条线是不是相同
 func (line1 LineStringZ) Equal(line2 LineStringZ) bool {
+	if line1.GetPointCount() != line2.GetPointCount() {
+		return false
+	}
 	for i := 0; i < line1.GetPointCount(); i++ {
 		if !line1[i].Equal(line2[i]) {
 			return false
-- 
2.43.0


From 2d8c2c1a1a2a60d8881b1cd45926c1c12865bd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:34 +0000
Subject: [PATCH 06/52] fix: appending to the first part of a split line
 overwrote the second

---
 lineString.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lineString.go b/lineString.go
index 4dd2b4e..d3f01b6 100644
--- a/lineString.go
+++ b/lineString.go
@@ -138,7 +138,7 @@ func (line LineString) GetPointSet() []Point {
 
 //从指定位置分成两条线
 func (line LineString) SplitByIndex(index int) (LineString, LineString) {
-	line1 := line[:index+1]
+	line1 := line[: index+1 : index+1]
 	line2 := line[index:]
 	return line1, line2
 }
-- 
2.43.0


From 7c41b653e83d1d170c7d85fe197085aaf7108fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:48 +0000
Subject: [PATCH 07/52] fix: on-segment test always used the zero box

---
 relation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/relation.go b/relation.go
index 6657564..8a1f446 100644
--- a/relation.go
+++ b/relation.go
@@ -113,7 +113,7 @@ func IsPointOnLine(point Point, line LineString) bool {
 func IsPointOnSegment(p1, p2, point Point) bool {
 	//保证Q点坐标在p1,p2之间 且叉积为0
 	if (point.X-p1.X)*(p2.Y-p1.Y) == (p2.X-p1.X)*(point.Y-p1.Y) &&
-		IsPointInBox(BoundingBox(NewLineString(p1, p2)), point) {
+		IsPointInBox(BoundingBox(*NewLineString(p1, p2)), point) {
 		return true
 	}
 	return false
-- 
2.43.0


From 4c6c0e47b603fc0dde97cf0b096b66443207961c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:49 +0000
Subject: [PATCH 08/52] fix: on-line test counted the chord between the ends of
 an open line

---
 relation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/relation.go b/relation.go
index 8a1f446..d627066 100644
--- a/relation.go
+++ b/relation.go
@@ -99,7 +99,7 @@ func IsPointOnLine(point Point, line LineString) bool {
 	isOn := false
 	for i := range line {
 		if i == line.GetPointCount()-1 {
-			isOn = IsPointOnSegment(line[0], line[line.GetPointCount()-1], point)
+			isOn = IsPointOnSegment(line[i], line[i], point)
 		} else {
 			isOn = IsPointOnSegment(line[i], line[i+1], point)
 		}
-- 
2.43.0


From 0aa7cdbedb6f3b145ae3da2e62c67ef50f9ea356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:50 +0000
Subject: [PATCH 09/52] fix: disjoint segments on one line were reported as
 touching

---
 relation.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/relation.go b/relation.go
index d627066..1e5e35c 100644
--- a/relation.go
+++ b/relation.go
@@ -9,7 +9,12 @@ func SegmentRelation(seg1, seg2 LineSegment) GeometryRealation {
 	crss1 := r.Cross(*s)
 	crss2 := q_p.Cross(*r)
 	if crss1 == 0 && crss2 == 0 {
-		return RELA_TOUCH
+		//共线，有端点落在另一线段上才接触
+		if IsPointOnSegment(seg1.Start, seg1.End, seg2.Start) || IsPointOnSegment(seg1.Start, seg1.End, seg2.End) ||
+			IsPointOnSegment(seg2.Start, seg2.End, seg1.Start) || IsPointOnSegment(seg2.Start, seg2.End, seg1.End) {
+			return RELA_TOUCH
+		}
+		return RELA_DISJOINT
 	} else if crss1 == 0 && crss2 != 0 {
 		return RELA_DISJOINT
 	} else if crss1 != 0 {
-- 
2.43.0


From 27fe1352834d288ca9b1d2aec7100ac3f4cd6f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:50 +0000
Subject: [PATCH 10/52] fix: a segment ending in the interior of another was
 reported as disjoint

---
 relation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/relation.go b/relation.go
index 1e5e35c..89c18ee 100644
--- a/relation.go
+++ b/relation.go
@@ -24,7 +24,7 @@ func SegmentRelation(seg1, seg2 LineSegment) GeometryRealation {
 		if res1 > 0 && res1 < 1 && res2 > 0 && res2 < 1 {
 			return RELA_INTERSECT
 		}
-		if (res1 == 0 || res1 == 1) && (res2 == 0 || res2 == 1) {
+		if res1 >= 0 && res1 <= 1 && res2 >= 0 && res2 <= 1 {
 			return RELA_TOUCH
 		}
 	}
-- 
2.43.0


From db811800c14ef5f78356c6fddfb5400880a7e13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:51 +0000
Subject: [PATCH 11/52] fix: ring relations ignored the closing edge

---
 relation.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/relation.go b/relation.go
index 89c18ee..7fcb641 100644
--- a/relation.go
+++ b/relation.go
@@ -35,7 +35,7 @@ func SegPolyRelation(seg LineSegment, poly Polygon) GeometryRealation {
 	lr := poly.GetExteriorRing()
 	pointCount := lr.GetPointCount()
 	isPointOnBoundary := false
-	for i := 0; i < pointCount-2; i++ {
+	for i := 0; i < pointCount-1; i++ {
 		pntStart := lr[i]
 		pntEnd := lr[i+1]
 		relation := SegmentRelation(LineSegment{pntStart, pntEnd}, seg)
@@ -81,7 +81,7 @@ func LinearPolyRelation(line LinearRing, poly Polygon) GeometryRealation {
 	//对环进行打断，去掉最后一个点
 	pointCount := line.GetPointCount()
 	curRelation := RELA_UNKNOWN
-	for i := 0; i < pointCount-2; i++ {
+	for i := 0; i < pointCount-1; i++ {
 		Start := line[i]
 		End := line[i+1]
 		relation := SegPolyRelation(LineSegment{Start, End}, poly)
-- 
2.43.0


From e9724be850141b86862a98b5b44ef8c5f2fdb8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:52 +0000
Subject: [PATCH 12/52] fix: self-intersection ignored the closing edge

---
 polygon.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polygon.go b/polygon.go
index 273e699..388a4fe 100644
--- a/polygon.go
+++ b/polygon.go
@@ -85,7 +85,7 @@ func (poly Polygon) SelfIntersect() bool {
 	for i := 0; i < pointCount-1; i++ {
 		srcV0 := exRing[i]
 		srcV1 := exRing[(i+1)%pointCount]
-		for j := i + 1; j < pointCount-2; j++ {
+		for j := i + 1; j < pointCount-1; j++ {
 			dstV0 := exRing[j]
 			dstV1 := exRing[j+1]
 			relation := SegmentRelation(LineSegment{srcV0, srcV1}, LineSegment{dstV0, dstV1})
-- 
2.43.0


From f4fcb96f0472c0b73cf57eb829422eb25d3aa564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:53 +0000
Subject: [PATCH 13/52] fix: polygon validity check mixed up the longitude and
 latitude ranges

---
 polygon.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polygon.go b/polygon.go
index 388a4fe..00ca895 100644
--- a/polygon.go
+++ b/polygon.go
@@ -65,7 +65,7 @@ func (p *Polygon) Verify() error {
 		return errors.New("polygon invaild, point less than 3")
 	}
 	for i := 0; i < ptCount; i++ {
-		if extring[i].X > 90.0 || extring[i].X < -90 || extring[i].Y > 180.0 || extring[i].Y < -180.0 {
+		if extring[i].Y > 90.0 || extring[i].Y < -90 || extring[i].X > 180.0 || extring[i].X < -180.0 {
 			return errors.New("lnglat invaild, lat[-90,90] lng[-180,180]")
 		}
 	}
-- 
2.43.0


From e64c923c08543a9bfa5b4b3a89311641b9c358d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:29 +0000
Subject: [PATCH 14/52] fix: a line leaving a polygon through a vertex was
 reported as disjoint

---
 relation.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/relation.go b/relation.go
index 7fcb641..5c884b5 100644
--- a/relation.go
+++ b/relation.go
@@ -70,7 +70,7 @@ func LinePolyRelation(line LineString, poly Polygon) GeometryRealation {
 		if relation == RELA_INTERSECT {
 			return RELA_INTERSECT
 		}
-		if curRelation == RELA_UNKNOWN || curRelation == RELA_CONTAIN || curRelation == RELA_DISJOINT {
+		if i == 0 || curRelation == RELA_CONTAIN || curRelation == RELA_DISJOINT {
 			curRelation = relation
 		}
 	}
@@ -88,7 +88,7 @@ func LinearPolyRelation(line LinearRing, poly Polygon) GeometryRealation {
 		if relation == RELA_INTERSECT {
 			return RELA_INTERSECT
 		}
-		if curRelation == RELA_UNKNOWN || curRelation == RELA_CONTAIN || curRelation == RELA_DISJOINT {
+		if i == 0 || curRelation == RELA_CONTAIN || curRelation == RELA_DISJOINT {
 			curRelation = relation
 		}
 	}
-- 
2.43.0


From 42841241ca6e41bcf853880017ef384da9490095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:23 +0000
Subject: [PATCH 15/52] fix: inserting into a bulk-loaded tree overwrote
 objects of a neighbouring leaf

---
 rtree.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rtree.go b/rtree.go
index 0282fce..968ba89 100644
--- a/rtree.go
+++ b/rtree.go
@@ -186,9 +186,11 @@ func (tree *Rtree) omt(level, nSlices int, objs []entry, m int) *node {
 			child.parent = n
 			return n
 		}
+		// the leaf needs storage of its own: objs is a part of the list of all
+		// entries, and appending to it would overwrite the next leaf
 		return &node{
 			leaf:    true,
-			entries: objs,
+			entries: append([]entry(nil), objs...),
 			level:   level,
 		}
 	}
-- 
2.43.0


From b6e6833f158862acbc567870b11d0ab68c1a7180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:34 +0000
Subject: [PATCH 16/52] fix: deleting an object that is not a point panicked

---
 rtree.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rtree.go b/rtree.go
index 968ba89..20bc65d 100644
--- a/rtree.go
+++ b/rtree.go
@@ -3,6 +3,7 @@ package geo
 import (
 	"fmt"
 	"math"
+	"reflect"
 	"sort"
 	"time"
 )
@@ -532,7 +533,8 @@ func (tree *Rtree) Delete(obj Spatial) bool {
 		if len(object) != 2 {
 			return false
 		}
-		return object[0] == object[1]
+		// not ==, which panics on geometries that are slices
+		return reflect.DeepEqual(object[0], object[1])
 	}
 	return tree.DeleteWithComparator(obj, condition)
 }
-- 
2.43.0


From b8db8bdf37cf5753abf3c9297848e5befb6c9db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:34 +0000
Subject: [PATCH 17/52] fix: inserting into an emptied tree panicked

---
 rtree.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rtree.go b/rtree.go
index 20bc65d..2c54a81 100644
--- a/rtree.go
+++ b/rtree.go
@@ -603,7 +603,8 @@ func (tree *Rtree) DeleteWithComparator(obj Spatial, cond Condition) bool {
 	tree.condenseTree(n)
 	tree.size--
 
-	if !tree.root.leaf && len(tree.root.entries) == 1 {
+	// the new root may itself have a single child
+	for !tree.root.leaf && len(tree.root.entries) == 1 {
 		tree.root = tree.root.entries[0].child
 	}
 
-- 
2.43.0


From 31cd9849c07f178c905e0e3e9c768760b39e7ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:20 +0000
Subject: [PATCH 18/52] fix: deleting by ID left objects behind when several
 had the ID

---
 rtree.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rtree.go b/rtree.go
index 2c54a81..73cc798 100644
--- a/rtree.go
+++ b/rtree.go
@@ -550,8 +550,10 @@ func (tree *Rtree) DeleteBySpatialID(id string) bool {
 	if len(sps) == 0 {
 		return false
 	}
-	for _, sp := range sps {
-		tree.DeleteWithComparator(sp, condition)
+	// an object with the same id that is found first may be deleted in place of
+	// sps[0], so look again after each deletion
+	for len(sps) > 0 && tree.DeleteWithComparator(sps[0], condition) {
+		sps = tree.SearchBySpatialID(id)
 	}
 	return true
 }
-- 
2.43.0


From cfa886e1e798b73dea75f78a873e2f7109b572d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:21 +0000
Subject: [PATCH 19/52] fix: asking for no nearest neighbours panicked

---
 rtree.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rtree.go b/rtree.go
index 73cc798..658a69e 100644
--- a/rtree.go
+++ b/rtree.go
@@ -795,6 +795,13 @@ func (p *Point) minDist(r *Box) float64 {
 
 // NearestNeighbors gets the closest Spatials to the Point.
 func (tree *Rtree) NearestNeighbors(k int, p Point) []Spatial {
+	if k > tree.size {
+		k = tree.size
+	}
+	if k <= 0 {
+		return []Spatial{}
+	}
+
 	maxBufSize := tree.MaxChildren * tree.Depth()
 	branches := make([]entry, maxBufSize)
 	branchDists := make([]float64, maxBufSize)
-- 
2.43.0


From 181aeaad8f01edb9f7f8666bc5a637553cf668a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:29 +0000
Subject: [PATCH 20/52] fix: WKT decoding lost all but the first part of a
 geometry and panicked on short positions

---
 wkt/decode.go | 89 ++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 74 insertions(+), 15 deletions(-)

diff --git a/wkt/decode.go b/wkt/decode.go
index 4b0ad79..f0a44bb 100644
--- a/wkt/decode.go
+++ b/wkt/decode.go
@@ -9,8 +9,39 @@ import (
 	"github.com/hzw456/go-geo"
 )
 
+// splitGroups returns the parenthesised groups, with their parentheses, of a
+// comma separated list of them. Groups may contain groups.
+func splitGroups(wkt string) ([]string, error) {
+	var groups []string
+	depth, start := 0, 0
+	for i, c := range wkt {
+		if c == '(' {
+			if depth == 0 {
+				start = i
+			}
+			depth++
+		} else if c == ')' {
+			depth--
+			if depth < 0 {
+				break
+			} else if depth == 0 {
+				groups = append(groups, wkt[start:i+1])
+			}
+		} else if depth == 0 && !strings.ContainsRune(", \t\r\n", c) {
+			return nil, errors.New("text outside of parentheses")
+		}
+	}
+	if depth != 0 {
+		return nil, errors.New("parentheses do not match")
+	}
+	return groups, nil
+}
+
 func PointFromWKT(wkt string) (geo.Geometry, error) {
-	strs := strings.Split(strings.Trim(wkt, " "), " ")
+	strs := strings.Fields(wkt)
+	if len(strs) != 2 && len(strs) != 3 {
+		return nil, errors.New("point needs two or three numbers")
+	}
 	x, err := strconv.ParseFloat(strs[0], 64)
 	if err != nil {
 		return geo.Point{}, err
@@ -37,7 +68,10 @@ func MultiPointFromWKT(wkt string) (geo.Geometry, error) {
 	var mp geo.MultiPoint
 	var mpz geo.MultiPointZ
 	for _, term := range terms {
-		strs := strings.Split(strings.TrimRight(strings.TrimLeft(term, "("), ")"), " ")
+		strs := strings.Fields(strings.Trim(term, "() "))
+		if len(strs) != 2 && len(strs) != 3 {
+			return nil, errors.New("point needs two or three numbers")
+		}
 		x, err := strconv.ParseFloat(strs[0], 64)
 		if err != nil {
 			return nil, err
@@ -56,7 +90,9 @@ func MultiPointFromWKT(wkt string) (geo.Geometry, error) {
 			mp.Append(geo.Point{x, y})
 		}
 	}
-	if len(mp) != 0 {
+	if len(mp) > 0 && len(mpz) > 0 {
+		return nil, errors.New("points of different dimensions")
+	} else if len(mp) != 0 {
 		return mp, nil
 	} else if len(mpz) != 0 {
 		return mpz, nil
@@ -72,7 +108,10 @@ func LineStringFromWKT(wkt string) (geo.Geometry, error) {
 	var linestring geo.LineString
 	var linestringZ geo.LineStringZ
 	for _, term := range terms {
-		strs := strings.Split(strings.Trim(term, " "), " ")
+		strs := strings.Fields(term)
+		if len(strs) != 2 && len(strs) != 3 {
+			return nil, errors.New("point needs two or three numbers")
+		}
 		x, err := strconv.ParseFloat(strs[0], 64)
 		if err != nil {
 			return nil, err
@@ -91,7 +130,9 @@ func LineStringFromWKT(wkt string) (geo.Geometry, error) {
 			linestring.Append(geo.Point{x, y})
 		}
 	}
-	if len(linestring) > 0 {
+	if len(linestring) > 0 && len(linestringZ) > 0 {
+		return nil, errors.New("points of different dimensions")
+	} else if len(linestring) > 0 {
 		return linestring, nil
 	} else if len(linestringZ) > 0 {
 		return linestringZ, nil
@@ -102,8 +143,10 @@ func LineStringFromWKT(wkt string) (geo.Geometry, error) {
 }
 
 func MultiLineStringFromWKT(wkt string) (geo.Geometry, error) {
-	re := regexp.MustCompile(`(\ *[(]\ *(?:\ *(?:[0-9-.Ee]+[ ]+[0-9-.Ee]+)[, ]*\ *)*\ *[)])[, ]*`)
-	matches := re.FindStringSubmatch(wkt)
+	matches, err := splitGroups(wkt)
+	if err != nil {
+		return nil, err
+	}
 	var ml geo.MultiLineString
 	var mlz geo.MultiLineStringZ
 	for _, v := range matches {
@@ -119,7 +162,9 @@ func MultiLineStringFromWKT(wkt string) (geo.Geometry, error) {
 			mlz = append(mlz, lineZ)
 		}
 	}
-	if len(ml) > 0 {
+	if len(ml) > 0 && len(mlz) > 0 {
+		return nil, errors.New("points of different dimensions")
+	} else if len(ml) > 0 {
 		return ml, nil
 	} else if len(mlz) > 0 {
 		return mlz, nil
@@ -129,8 +174,10 @@ func MultiLineStringFromWKT(wkt string) (geo.Geometry, error) {
 }
 
 func PolygonFromWKT(wkt string) (geo.Geometry, error) {
-	re := regexp.MustCompile(`(\ *[(]\ *(?:\ *(?:[0-9-.Ee]+[ ]+[0-9-.Ee]+)[, ]*\ *)*\ *[)])[, ]*`)
-	matches := re.FindStringSubmatch(wkt)
+	matches, err := splitGroups(wkt)
+	if err != nil {
+		return nil, err
+	}
 	var poly geo.Polygon
 	var polyz geo.PolygonZ
 	for _, v := range matches {
@@ -140,13 +187,21 @@ func PolygonFromWKT(wkt string) (geo.Geometry, error) {
 		}
 		if linestring.Type() == geo.GEOMETRY_LINESTRING {
 			line := linestring.(geo.LineString)
+			if len(line) < 2 {
+				return nil, errors.New("ring needs at least two points")
+			}
 			poly = append(poly, line.ToRing())
 		} else if linestring.Type() == geo.GEOMETRY_LINESTRINGZ {
 			line := linestring.(geo.LineStringZ)
+			if len(line) < 2 {
+				return nil, errors.New("ring needs at least two points")
+			}
 			polyz = append(polyz, line.ToRing())
 		}
 	}
-	if len(poly) > 0 {
+	if len(poly) > 0 && len(polyz) > 0 {
+		return nil, errors.New("points of different dimensions")
+	} else if len(poly) > 0 {
 		return poly, nil
 	} else if len(polyz) > 0 {
 		return polyz, nil
@@ -156,12 +211,14 @@ func PolygonFromWKT(wkt string) (geo.Geometry, error) {
 }
 
 func MultiPolygonFromWKT(wkt string) (geo.Geometry, error) {
-	re := regexp.MustCompile(`([(](?:\ *[(]\ *(?:\ *(?:[0-9-.]+[ ]+[0-9-.]+)[, ]*\ *)*\ *[)][, ]*)*[)])`)
-	matches := re.FindStringSubmatch(wkt)
+	matches, err := splitGroups(wkt)
+	if err != nil {
+		return nil, err
+	}
 	var multiPoly geo.MultiPolygon
 	var multiPolyZ geo.MultiPolygonZ
 	for _, v := range matches {
-		polygon, err := PolygonFromWKT(v)
+		polygon, err := PolygonFromWKT(v[1 : len(v)-1])
 		if err != nil {
 			return nil, err
 		}
@@ -174,7 +231,9 @@ func MultiPolygonFromWKT(wkt string) (geo.Geometry, error) {
 		}
 
 	}
-	if len(multiPoly) > 0 {
+	if len(multiPoly) > 0 && len(multiPolyZ) > 0 {
+		return nil, errors.New("points of different dimensions")
+	} else if len(multiPoly) > 0 {
 		return multiPoly, nil
 	} else if len(multiPolyZ) > 0 {
 		return multiPolyZ, nil
-- 
2.43.0


From 5840bafdf96fa12331ea464252f4e18cfbecbabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:49 +0000
Subject: [PATCH 21/52] fix: a Z polygon could not be encoded as GeoJSON

---
 geojson/geojson.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geojson/geojson.go b/geojson/geojson.go
index 9005eb7..ef60a8a 100644
--- a/geojson/geojson.go
+++ b/geojson/geojson.go
@@ -75,7 +75,7 @@ func MarshalGeo(geom geo.Geometry) ([]byte, error) {
 		}
 	case geo.PolygonZ:
 		geoj.Type = "Polygon"
-		geoj.Coordinates, err = ConvertPathSet(geom)
+		geoj.Coordinates, err = ConvertPathZSet(geom)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 87a0736ba3bb59b9476002da964f84858d330da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:41 +0000
Subject: [PATCH 22/52] fix: setting the bounding box of a feature had no
 effect

---
 geojson/feature.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geojson/feature.go b/geojson/feature.go
index faac598..b8be919 100644
--- a/geojson/feature.go
+++ b/geojson/feature.go
@@ -29,7 +29,7 @@ func NewFeature(geometry geo.Geometry) *Feature {
 	}
 }
 
-func (f Feature) SetBoundingBox() {
+func (f *Feature) SetBoundingBox() {
 	box := geo.BoundingBox(f.Geometry)
 	f.BoundingBox = []float64{box.MinX, box.MinY, box.MaxX, box.MaxY}
 }
-- 
2.43.0


From 8e9465ea87ce824b52cfa905c7350db1ce39ba6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:33 +0000
Subject: [PATCH 23/52] fix: malformed GeoJSON coordinates panicked or lost
 values

---
 geojson/geojson.go | 42 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/geojson/geojson.go b/geojson/geojson.go
index ef60a8a..13ba764 100644
--- a/geojson/geojson.go
+++ b/geojson/geojson.go
@@ -100,6 +100,9 @@ func MarshalGeo(geom geo.Geometry) ([]byte, error) {
 func UnmarshalGeo(gjson *GeoJson) (geo.Geometry, error) {
 	switch gjson.Type {
 	case "Point":
+		if _, err := dimension(gjson.Coordinates, 0); err != nil {
+			return nil, err
+		}
 		isZ := isInterPointZ(gjson.Coordinates)
 		if isZ {
 			return inter2PointZ(gjson.Coordinates), nil
@@ -108,6 +111,9 @@ func UnmarshalGeo(gjson *GeoJson) (geo.Geometry, error) {
 	case "MultiPoint":
 		return nil, errors.New("Not Support MultiPoint (TODO)")
 	case "LineString":
+		if _, err := dimension(gjson.Coordinates, 1); err != nil {
+			return nil, err
+		}
 		isZ := isInterLineZ(gjson.Coordinates)
 		if isZ {
 			return inter2LineStringZ(gjson.Coordinates), nil
@@ -116,6 +122,9 @@ func UnmarshalGeo(gjson *GeoJson) (geo.Geometry, error) {
 	case "MultiLineString":
 		return nil, errors.New("Not Support MultiLineString (TODO)")
 	case "Polygon":
+		if _, err := dimension(gjson.Coordinates, 2); err != nil {
+			return nil, err
+		}
 		isZ := isInterPolygonZ(gjson.Coordinates)
 		if isZ {
 			return inter2PolygonZ(gjson.Coordinates), nil
@@ -352,6 +361,39 @@ func decodePolygonSet(data interface{}) ([][][][]float64, error) {
 	return result, nil
 }
 
+// dimension returns the common number of coordinates of the positions in data,
+// which are nested in depth lists, or an error if data is anything else.
+func dimension(data interface{}, depth int) (int, error) {
+	if depth == 0 {
+		coords, err := decodePosition(data)
+		if err != nil {
+			return 0, err
+		}
+		if len(coords) != 2 && len(coords) != 3 {
+			return 0, fmt.Errorf("not a valid position, got %v", data)
+		}
+		return len(coords), nil
+	}
+	values, ok := data.([]interface{})
+	if !ok {
+		return 0, fmt.Errorf("not a valid set of positions, got %v", data)
+	}
+	common := 0
+	for _, value := range values {
+		dim, err := dimension(value, depth-1)
+		if err != nil {
+			return 0, err
+		}
+		if common != 0 && dim != 0 && dim != common {
+			return 0, errors.New("positions of different dimensions")
+		}
+		if dim != 0 {
+			common = dim
+		}
+	}
+	return common, nil
+}
+
 func interface2D(data interface{}) []interface{} {
 	return data.([]interface{})
 }
-- 
2.43.0


From 7069f9197546e06ecbcc03ce7ad10a6283883df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:45 +0000
Subject: [PATCH 24/52] fix: area and centroid of a small ring far from the
 origin lose their digits

---
 calcaulation.go |  4 +++-
 linearRing.go   | 15 +++++++++++++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/calcaulation.go b/calcaulation.go
index 1fc39e7..838a99d 100644
--- a/calcaulation.go
+++ b/calcaulation.go
@@ -51,6 +51,7 @@ func relativeArea(poly Polygon) float64 {
 		return 0
 	}
 	ptCount := lr.GetPointCount() - 1
+	lr, _ = lr.localCoords()
 	var area float64
 	for i := 0; i < ptCount; i++ {
 		//最后一个点的处理
@@ -194,6 +195,7 @@ func polyCentroid(poly Polygon) Point {
 		return Point{math.NaN(), math.NaN()}
 	}
 	ptCount := lr.GetPointCount() - 1
+	lr, origin := lr.localCoords()
 	var centroidX, centroidY, signArea float64
 	for i := 0; i < ptCount; i++ {
 		//最后一个点的处理
@@ -207,7 +209,7 @@ func polyCentroid(poly Polygon) Point {
 	}
 	centroidX *= 1 / (6 * signArea / 2)
 	centroidY *= 1 / (6 * signArea / 2)
-	return Point{centroidX, centroidY}
+	return Point{centroidX + origin.X, centroidY + origin.Y}
 }
 
 func PointPolygonDistance(p Point, poly Polygon, srid SRID) float64 {
diff --git a/linearRing.go b/linearRing.go
index 6751f00..f87cf54 100644
--- a/linearRing.go
+++ b/linearRing.go
@@ -40,6 +40,21 @@ func (ring LinearRing) length() float64 {
 	return dis
 }
 
+// localCoords returns the ring relative to its first point, and that point.
+// Products of absolute coordinates lose the digits that matter for a ring far
+// from the origin.
+func (ring LinearRing) localCoords() (LinearRing, Point) {
+	if len(ring) == 0 {
+		return ring, Point{}
+	}
+	origin := ring[0]
+	local := make(LinearRing, len(ring))
+	for i, pt := range ring {
+		local[i] = Point{pt.X - origin.X, pt.Y - origin.Y}
+	}
+	return local, origin
+}
+
 func (ring LinearRing) GetPointSet() []Point {
 	return ring
 }
-- 
2.43.0


From f988f84cbd641e974c1ec9681d3b8fd4aa2c9406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:42 +0000
Subject: [PATCH 25/52] fix: EuclideanDisZ ignored its second point

---
 pointZ.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointZ.go b/pointZ.go
index 46ff89b..8884a55 100644
--- a/pointZ.go
+++ b/pointZ.go
@@ -27,7 +27,7 @@ func (p *PointZ) SetZ(z float64) {
 }
 
 func EuclideanDisZ(p1, p2 PointZ) float64 {
-	return math.Sqrt(p1.X*p1.X + p1.Y*p1.Y + p1.Z*p1.Z)
+	return math.Sqrt((p1.X-p2.X)*(p1.X-p2.X) + (p1.Y-p2.Y)*(p1.Y-p2.Y) + (p1.Z-p2.Z)*(p1.Z-p2.Z))
 }
 
 //判断元素是否相等
-- 
2.43.0


From fb1f02691da872af61c3ae3f168e68cd61852dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:43 +0000
Subject: [PATCH 26/52] fix: geographic distance of opposite points and
 great-circle distance of equal points were NaN

---
 point.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/point.go b/point.go
index 2c0e1e2..a35ffff 100644
--- a/point.go
+++ b/point.go
@@ -47,6 +47,7 @@ func CoordDistance(p1, p2 Point) float64 {
 	lat2 := p2.Y * math.Pi / 180.0
 	lng2 := p2.X * math.Pi / 180.0
 	a := math.Pow(math.Sin((lat2-lat1)/2), 2) + math.Cos(lat1)*math.Cos(lat2)*math.Pow(math.Sin((lng2-lng1)/2), 2)
+	a = math.Min(a, 1) // rounding may exceed 1 for opposite points
 	return 2 * math.Atan2(math.Sqrt(a), math.Sqrt(1-a)) * EARTHRADIUSMI
 }
 
@@ -55,7 +56,9 @@ func CoordGreateCircle(p1, p2 Point) float64 {
 	lng1 := p1.X * math.Pi / 180.0
 	lat2 := p2.Y * math.Pi / 180.0
 	lng2 := p2.X * math.Pi / 180.0
-	return math.Acos(math.Sin(lat1)*math.Sin(lat2)+math.Cos(lat1)*math.Cos(lat2)*math.Cos(lng2-lng1)) * EARTHRADIUSMI
+	c := math.Sin(lat1)*math.Sin(lat2) + math.Cos(lat1)*math.Cos(lat2)*math.Cos(lng2-lng1)
+	c = math.Max(-1, math.Min(c, 1)) // rounding may leave [-1, 1] for equal or opposite points
+	return math.Acos(c) * EARTHRADIUSMI
 }
 
 // 根据距离和方位角进行下一个点的计算，TODO
-- 
2.43.0


From e57e6d50bfa126efde90ae756c0b8c553a405c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:01 +0000
Subject: [PATCH 27/52] fix: assigning a reference system panicked on the nil
 map

---
 srid.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srid.go b/srid.go
index 2ce468a..ee3df19 100644
--- a/srid.go
+++ b/srid.go
@@ -1,3 +1,3 @@
 package geo
 
-var SridMap map[interface{}]uint64
+var SridMap = map[interface{}]uint64{}
-- 
2.43.0


From 282d63cd358eae457a0abbc11e5545160e3afd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:39 +0000
Subject: [PATCH 28/52] fix: building a ring from a line overwrote points
 behind the line

---
 linearRing.go  | 3 +++
 linearRingZ.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/linearRing.go b/linearRing.go
index f87cf54..782be7b 100644
--- a/linearRing.go
+++ b/linearRing.go
@@ -16,6 +16,9 @@ func NewRingFromLine(line LineString) *LinearRing {
 	if err != nil {
 		return nil
 	}
+	// the ring needs storage of its own: appending to the line could overwrite
+	// what its owner keeps behind it
+	line = append(make(LineString, 0, len(line)+1), line...)
 	firstPoint := line[0]
 	endPoint := line[len(line)-1]
 	if firstPoint.Equal(endPoint) {
diff --git a/linearRingZ.go b/linearRingZ.go
index f1575f0..b0c8e89 100644
--- a/linearRingZ.go
+++ b/linearRingZ.go
@@ -12,6 +12,9 @@ func NewLinearRingZ(point ...PointZ) *LinearRingZ {
 }
 
 func NewRingFromLineZ(line LineStringZ) *LinearRingZ {
+	// the ring needs storage of its own: appending to the line could overwrite
+	// what its owner keeps behind it
+	line = append(make(LineStringZ, 0, len(line)+1), line...)
 	firstPoint := line[0]
 	endPoint := line[len(line)-1]
 	if firstPoint.Equal(endPoint) {
-- 
2.43.0


From 4922e9186f036a63f81006da76aa62855187ef67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:39 +0000
Subject: [PATCH 29/52] fix: simplifying a line overwrote the points of the
 line it was given

---
 simplify.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simplify.go b/simplify.go
index 95a300a..a488aa3 100644
--- a/simplify.go
+++ b/simplify.go
@@ -11,6 +11,8 @@ func DouglasPeuckerSimplify(line LineString, threshold float64, srid SRID) LineS
 	//排序，从后往前删
 	sort.Sort(sort.Reverse(sort.IntSlice(delIndexs)))
 
+	// work on a copy, deleting would move the points of the caller
+	line = append(LineString(nil), line...)
 	for _, v := range delIndexs {
 		line = append(line[:v], line[v+1:]...)
 	}
-- 
2.43.0


From bfcfd1a46a2ec543afb08bafb5ea909daa5f5f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:40 +0000
Subject: [PATCH 30/52] fix: computing a hull reordered the points of the
 caller

---
 convexhull.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/convexhull.go b/convexhull.go
index 7ef65da..24a31b2 100644
--- a/convexhull.go
+++ b/convexhull.go
@@ -50,7 +50,7 @@ func ConvexHull(pts ...Point) Polygon {
 	if len(pts) < 3 {
 		return nil
 	}
-	points := hullPts(pts)
+	points := append(hullPts(nil), pts...) // sorted below, which must not move the points of the caller
 	var stack hullPts
 	points.FindLowestPoint()
 	sort.Sort(&points)
-- 
2.43.0


From a9e0e62e7dfef1a32928bd3ba540967ebbd51be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:41 +0000
Subject: [PATCH 31/52] fix: covering a polygon with cells reversed the ring of
 the caller

---
 googleS2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/googleS2.go b/googleS2.go
index 25499ff..a5f50dd 100644
--- a/googleS2.go
+++ b/googleS2.go
@@ -50,7 +50,7 @@ func S2GetAllNeighbors(cellID uint64, srid SRID) []uint64 {
 
 func S2RegionCoverer(poly Polygon, level int, srid SRID) []uint64 {
 	if poly.IsCCW() {
-		pois := poly.GetExteriorRing().GetPointSet()
+		pois := append([]Point(nil), poly.GetExteriorRing().GetPointSet()...)
 		for i, j := 0, len(pois)-1; i < j; i, j = i+1, j-1 {
 			pois[i], pois[j] = pois[j], pois[i]
 		}
-- 
2.43.0


From fe76dadb20035eaa21148c833130a1664e3076fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:41 +0000
Subject: [PATCH 32/52] fix: the distance to a segment of length zero was NaN

---
 calcaulation.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/calcaulation.go b/calcaulation.go
index 838a99d..7a251f9 100644
--- a/calcaulation.go
+++ b/calcaulation.go
@@ -129,6 +129,10 @@ func EuclideanDistance(p1 Point, p2 Point) float64 {
 func PointToSegmentDistance(point, p1, p2 Point, srid SRID) (float64, Point) {
 	var xDelta float64 = p2.X - p1.X
 	var yDelta float64 = p2.Y - p1.Y
+	if xDelta*xDelta+yDelta*yDelta == 0 {
+		//线段长度为零
+		return PointDistance(point, p1, srid), p1
+	}
 
 	var u float64 = ((point.X-p1.X)*xDelta + (point.Y-p1.Y)*yDelta) / (xDelta*xDelta + yDelta*yDelta)
 
-- 
2.43.0


From 446ddf3c3962f3f403dc551f3730a5ba9167643d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:42 +0000
Subject: [PATCH 33/52] fix: distances beyond 2^31 were not found by nearest
 point and Hausdorff searches

---
 const.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/const.go b/const.go
index cfa110d..3301dae 100644
--- a/const.go
+++ b/const.go
@@ -1,8 +1,10 @@
 package geo
 
+import "math"
+
 const (
 	COORDPRESION  = 0.000001
-	INF           = float64(1 << 31)
+	INF           = math.MaxFloat64
 	EARTHRADIUSMI = 6371000
 	EARTHRADIUSKM = 6371
 )
-- 
2.43.0


From 3a7b31ec6b0cdbbb8f1a9085337ff248da04c647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:39 +0000
Subject: [PATCH 34/52] fix: bounding rectangle of points close together
 panicked

---
 mbr.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mbr.go b/mbr.go
index 9219884..6d5f5db 100644
--- a/mbr.go
+++ b/mbr.go
@@ -47,8 +47,10 @@ func Mbr(geom Geometry) Polygon {
 		ci = cii
 	}
 	polyGeo := RotateCCW(ssr, cpt, minAngle)
-	if polyGeo == nil {
+	// the rectangle of points that are very close together is a point or a line
+	poly, ok := polyGeo.(Polygon)
+	if !ok {
 		return nil
 	}
-	return polyGeo.(Polygon)
+	return poly
 }
-- 
2.43.0


From dd0ac91e0f25f98673bc4a70fde9f75eea088a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:40 +0000
Subject: [PATCH 35/52] fix: centroid of a line of fewer than two points
 panicked

---
 calcaulation.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/calcaulation.go b/calcaulation.go
index 7a251f9..f483a8b 100644
--- a/calcaulation.go
+++ b/calcaulation.go
@@ -185,7 +185,11 @@ func Centroid(geo Geometry) Point {
 
 //TODO:如果线在一条直线上，需要改进算法
 func lineCentroid(line LineString) Point {
-	return LinearCentroid(*NewRingFromLine(line))
+	ring := NewRingFromLine(line)
+	if ring == nil {
+		return Point{math.NaN(), math.NaN()}
+	}
+	return LinearCentroid(*ring)
 }
 
 func LinearCentroid(ring LinearRing) Point {
-- 
2.43.0


From 13b45dee11007b923ad15d224c962ddd16c4860c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:40 +0000
Subject: [PATCH 36/52] fix: building a ring or polygon from fewer than two
 points panicked

---
 lineString.go  | 6 +++++-
 lineStringZ.go | 6 +++++-
 linearRingZ.go | 3 +++
 polygon.go     | 3 +++
 polygonZ.go    | 3 +++
 5 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/lineString.go b/lineString.go
index d3f01b6..8894149 100644
--- a/lineString.go
+++ b/lineString.go
@@ -129,7 +129,11 @@ func (line *LineString) Reverse() {
 }
 
 func (line LineString) ToRing() LinearRing {
-	return *NewRingFromLine(line)
+	ring := NewRingFromLine(line)
+	if ring == nil {
+		return nil
+	}
+	return *ring
 }
 
 func (line LineString) GetPointSet() []Point {
diff --git a/lineStringZ.go b/lineStringZ.go
index e0c1b8a..30ab28d 100644
--- a/lineStringZ.go
+++ b/lineStringZ.go
@@ -58,7 +58,11 @@ func (line *LineStringZ) Reverse() {
 }
 
 func (line LineStringZ) ToRing() LinearRingZ {
-	return *NewRingFromLineZ(line)
+	ring := NewRingFromLineZ(line)
+	if ring == nil {
+		return nil
+	}
+	return *ring
 }
 
 func (line LineStringZ) GetPointSet() []PointZ {
diff --git a/linearRingZ.go b/linearRingZ.go
index b0c8e89..c9e5e6d 100644
--- a/linearRingZ.go
+++ b/linearRingZ.go
@@ -12,6 +12,9 @@ func NewLinearRingZ(point ...PointZ) *LinearRingZ {
 }
 
 func NewRingFromLineZ(line LineStringZ) *LinearRingZ {
+	if len(line) < 2 {
+		return nil
+	}
 	// the ring needs storage of its own: appending to the line could overwrite
 	// what its owner keeps behind it
 	line = append(make(LineStringZ, 0, len(line)+1), line...)
diff --git a/polygon.go b/polygon.go
index 00ca895..807df20 100644
--- a/polygon.go
+++ b/polygon.go
@@ -15,6 +15,9 @@ func NewPolygon(lrs ...LinearRing) *Polygon {
 
 func NewPolygonFromPois(pts ...Point) *Polygon {
 	ring := NewLinearRing(pts...)
+	if ring == nil {
+		return &Polygon{}
+	}
 	return NewPolygon(*ring)
 }
 
diff --git a/polygonZ.go b/polygonZ.go
index d906781..ce65d2a 100644
--- a/polygonZ.go
+++ b/polygonZ.go
@@ -13,6 +13,9 @@ func NewPolygonZ(lrs ...LinearRingZ) *PolygonZ {
 
 func NewPolygonZFromPois(pts ...PointZ) *PolygonZ {
 	ring := NewLinearRingZ(pts...)
+	if ring == nil {
+		return &PolygonZ{}
+	}
 	return NewPolygonZ(*ring)
 }
 
-- 
2.43.0


From bc06362e36ded0f9c2382fab4a62b4dcffd9afa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:27 +0000
Subject: [PATCH 37/52] fix: hull of more than twelve points or of repeated
 points was not convex

---
 convexhull.go | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/convexhull.go b/convexhull.go
index 24a31b2..9690fb6 100644
--- a/convexhull.go
+++ b/convexhull.go
@@ -16,12 +16,19 @@ func (p hullPts) Swap(i, j int) {
 	p[i], p[j] = p[j], p[i]
 }
 
-func (p hullPts) Less(i, j int) bool {
-	area := Area2(p[0], p[i], p[j])
+// hullOrder sorts points by their angle around a fixed pivot, the nearer first
+type hullOrder struct {
+	hullPts
+	pivot Point
+}
+
+func (p hullOrder) Less(i, j int) bool {
+	pi, pj := p.hullPts[i], p.hullPts[j]
+	area := Area2(p.pivot, pi, pj)
 
 	if area == 0 {
-		x := math.Abs(p[i].X-p[0].X) - math.Abs(p[j].X-p[0].X)
-		y := math.Abs(p[i].Y-p[0].Y) - math.Abs(p[j].Y-p[0].Y)
+		x := math.Abs(pi.X-p.pivot.X) - math.Abs(pj.X-p.pivot.X)
+		y := math.Abs(pi.Y-p.pivot.Y) - math.Abs(pj.Y-p.pivot.Y)
 
 		if x < 0 || y < 0 {
 			return true
@@ -53,12 +60,20 @@ func ConvexHull(pts ...Point) Polygon {
 	points := append(hullPts(nil), pts...) // sorted below, which must not move the points of the caller
 	var stack hullPts
 	points.FindLowestPoint()
-	sort.Sort(&points)
+	sort.Sort(hullOrder{points[1:], points[0]})
 	stack = append(stack, points[0])
-	stack = append(stack, points[1])
-	i := 2
+	i := 1
 	for i < len(points) {
 		pi := points[i]
+		if pi == stack[len(stack)-1] { // the same point again
+			i++
+			continue
+		}
+		if len(stack) < 2 {
+			stack = append(stack, pi)
+			i++
+			continue
+		}
 
 		p1 := stack[len(stack)-2]
 		p2 := stack[len(stack)-1]
-- 
2.43.0


From 38637144f096068dabdfad9eb4ecd7da4cbfaea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:31 +0000
Subject: [PATCH 38/52] fix: longitude 180 was put in UTM zone 61

---
 utm.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/utm.go b/utm.go
index 30233e8..a1b9857 100755
--- a/utm.go
+++ b/utm.go
@@ -266,7 +266,11 @@ func latLonToZoneNumber(latitude float64, longitude float64) int {
 		}
 	}
 
-	return int((longitude+180)/6) + 1
+	zone := int((longitude+180)/6) + 1
+	if zone > 60 { // the eastern border of the last zone
+		zone = 60
+	}
+	return zone
 }
 
 func zoneNumberToCentralLongitude(zoneNumber int) int {
-- 
2.43.0


From 0f60fb277b7681843d8ce4ca140def2b08af5ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:32 +0000
Subject: [PATCH 39/52] fix: latitude 84 had no UTM band letter

---
 utm.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/utm.go b/utm.go
index a1b9857..f38185c 100755
--- a/utm.go
+++ b/utm.go
@@ -46,7 +46,6 @@ func rad(d float64) float64 { return d * x }
 func deg(r float64) float64 { return r / x }
 
 var zoneLetters = []zoneLetter{
-	{84, " "},
 	{72, "X"},
 	{64, "W"},
 	{56, "V"},
-- 
2.43.0


From ab2e91e0629e0ac6140d11357d510d23625216cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:33 +0000
Subject: [PATCH 40/52] fix: the equator was in the southern hemisphere by
 letter and in the northern by northing

---
 utm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utm.go b/utm.go
index f38185c..6b1313e 100755
--- a/utm.go
+++ b/utm.go
@@ -201,7 +201,7 @@ func FromLatLon(latitude, longitude float64, northern bool) (easting, northing f
 
 	if northern {
 		// N north, S south
-		if latitude > 0 {
+		if latitude >= 0 {
 			zoneLetter = "N"
 		} else {
 			zoneLetter = "S"
-- 
2.43.0


From dad68d15e1965749e52ff15940e63fb49fcb2540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:10 +0000
Subject: [PATCH 41/52] fix: latitude converted from UTM was not symmetric
 about the equator

---
 utm.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utm.go b/utm.go
index 6b1313e..f194914 100755
--- a/utm.go
+++ b/utm.go
@@ -154,8 +154,8 @@ func ToLatLon(easting, northing float64, zoneNumber int, zoneLetter string, nort
 
 	latitude = pRad - (pTan/rad)*
 		(d2/2-
-			d4/24*(5+3*pTan2+10*c-4*c2-9*eP2)) +
-		d6/720*(61+90*pTan2+298*c+45*pTan4-252*eP2-3*c2)
+			d4/24*(5+3*pTan2+10*c-4*c2-9*eP2)+
+			d6/720*(61+90*pTan2+298*c+45*pTan4-252*eP2-3*c2))
 
 	longitude = (d -
 		d3/6*(1+2*pTan2+c) +
-- 
2.43.0


From 757a84a87b2b6367153a4b95c54c4f84f69f3214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:39 +0000
Subject: [PATCH 42/52] fix: the angle between almost equal directions was a
 full turn

---
 calcaulation.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/calcaulation.go b/calcaulation.go
index f483a8b..b0074c2 100644
--- a/calcaulation.go
+++ b/calcaulation.go
@@ -23,6 +23,9 @@ func CacAngle(point1, centerPoint, point2 Point) (float64, error) {
 	if theta < 0 {
 		theta = theta + 2*math.Pi
 	}
+	if theta >= 2*math.Pi {
+		theta = 0 // less than a rounding step below a full turn
+	}
 	return theta, nil
 
 	// err := errors.New("not validate vector")
-- 
2.43.0


From ed5e97462549da3ac7a70eee49e60070889b9796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:40 +0000
Subject: [PATCH 43/52] fix: the quadrant angle at large coordinates was an
 error

---
 calcaulation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/calcaulation.go b/calcaulation.go
index b0074c2..da07458 100644
--- a/calcaulation.go
+++ b/calcaulation.go
@@ -33,7 +33,7 @@ func CacAngle(point1, centerPoint, point2 Point) (float64, error) {
 }
 
 func CacQuadrantAngle(point1, point2 Point) (float64, error) {
-	angle, err := CacAngle(Point{point1.X + 0.0000001, point1.Y}, point1, point2)
+	angle, err := CacAngle(Point{point1.X + 1, point1.Y}, point1, point2)
 	return angle, err
 }
 
-- 
2.43.0


From 84a2a19e30acdd29cc7e01344bc0cef791c263df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:40 +0000
Subject: [PATCH 44/52] fix: a straight vertex was classified as convex

---
 calcaulation.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/calcaulation.go b/calcaulation.go
index da07458..c562435 100644
--- a/calcaulation.go
+++ b/calcaulation.go
@@ -101,12 +101,12 @@ func pointsCenteriod(points ...Point) Point {
 
 //计算顶点的凹凸性 先计算待处理点与相邻点的两个向量，再计算两向量的叉乘，根据求得结果的正负可以判断凹凸性。 0代表凸顶点，1代表凹顶点，2代表平角
 func CacConvex(p1, p2, p3 Point) (int8, error) {
-	//直接采用算sin theata 来判断凹凸性
-	theata, err := CacAngle(p1, p2, p3)
+	//采用sin theata的符号来判断凹凸性，叉积与其同号且不受舍入影响
+	_, err := CacAngle(p1, p2, p3)
 	if err != nil {
 		return -1, err
 	}
-	res := math.Sin(theata)
+	res := ConvertPointToVector(p2, p1).Cross(*ConvertPointToVector(p2, p3))
 	if res < 0 {
 		return 0, nil
 	} else if res > 0 {
-- 
2.43.0


From 1453833016204e33c2f3c94087c62158eab5c841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:41 +0000
Subject: [PATCH 45/52] fix: a destination at a pole was NaN

---
 point.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/point.go b/point.go
index a35ffff..75ba810 100644
--- a/point.go
+++ b/point.go
@@ -78,6 +78,7 @@ func DestinationPoint(lat, lon, distance, bearing float64) (float64, float64) {
 	var λ1 = toRadians(lon)
 
 	sinφ2 := math.Sin(φ1)*math.Cos(δ) + math.Cos(φ1)*math.Sin(δ)*math.Cos(θ)
+	sinφ2 = math.Max(-1, math.Min(sinφ2, 1)) // rounding may leave [-1, 1] at a pole
 	φ2 := math.Asin(sinφ2)
 	y := math.Sin(θ) * math.Sin(δ) * math.Cos(φ1)
 	x := math.Cos(δ) - math.Sin(φ1)*math.Sin(φ2)
-- 
2.43.0


From 73750b3817c12282cee526a9cc59cab4bd97cabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:42 +0000
Subject: [PATCH 46/52] fix: the ring of a buffer was not closed

---
 buffer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/buffer.go b/buffer.go
index f4fc39d..596f973 100644
--- a/buffer.go
+++ b/buffer.go
@@ -12,6 +12,8 @@ func pointBuffer(p1 Point, bufferDis float64) Polygon {
 		return nil
 	}
 	bufferPoints := getBufferCoordsByRadian(p1, 0, 2*math.Pi, bufferDis)
+	// the last direction is the first again, up to rounding
+	bufferPoints[len(bufferPoints)-1] = bufferPoints[0]
 	lr := NewLinearRing(bufferPoints...)
 	poly := NewPolygon(*lr)
 	return *poly
-- 
2.43.0


From 33aa6219fcc49fabbe06e36c208d13b7e718504f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:19 +0000
Subject: [PATCH 47/52] fix: conversion from UTM was off by up to a metre at
 the edge of a zone

---
 utm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utm.go b/utm.go
index f194914..c303b79 100755
--- a/utm.go
+++ b/utm.go
@@ -142,7 +142,7 @@ func ToLatLon(easting, northing float64, zoneNumber int, zoneLetter string, nort
 	n := r / epSinSqrt
 	rad := (1 - e) / epSin
 
-	c := fe * pCos * pCos
+	c := eP2 * pCos * pCos
 	c2 := c * c
 
 	d := x / (n * k0)
-- 
2.43.0


From 423695508fb03e1239d669f03b6c64ff435d64e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:40 +0000
Subject: [PATCH 48/52] fix: the minimum rectangle lies along an edge of the
 hull and encloses the points

---
 mbr.go | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/mbr.go b/mbr.go
index 6d5f5db..1c8478e 100644
--- a/mbr.go
+++ b/mbr.go
@@ -30,27 +30,42 @@ func Mbr(geom Geometry) Polygon {
 	if math.IsNaN(cpt.X) || math.IsNaN(cpt.Y) {
 		return nil
 	}
+	// a side of the smallest rectangle lies along an edge of the hull
+	coords = convexHull.GetExteriorPoints()
 	minArea := math.MaxFloat64
 	minAngle := 0.0
 	ci := coords[0]
-	var ssr Geometry
+	var ssr *Box
 	for i := 0; i < len(coords)-1; i++ {
 		cii := coords[i+1]
 		angle := math.Atan2(cii.Y-ci.Y, cii.X-ci.X)
-		rect := BoundingBox(RotateCW(convexHull, cpt, angle))
-		area := GetArea(BoxToGeo(*rect))
+		rect := calBox(rotatePoints(coords, cpt, angle)...)
+		area := rect.Size()
 		if area < minArea {
 			minArea = area
-			ssr = BoxToGeo(*rect)
+			ssr = rect
 			minAngle = angle
 		}
 		ci = cii
 	}
-	polyGeo := RotateCCW(ssr, cpt, minAngle)
+	if ssr == nil {
+		return nil
+	}
 	// the rectangle of points that are very close together is a point or a line
-	poly, ok := polyGeo.(Polygon)
+	poly, ok := BoxToGeo(*ssr).(Polygon)
 	if !ok {
 		return nil
 	}
-	return poly
+	return *NewPolygon(rotatePoints(poly.GetExteriorPoints(), cpt, -minAngle))
+}
+
+// rotatePoints rotates clockwise like RotateCW, but does not truncate.
+func rotatePoints(pts []Point, center Point, angle float64) []Point {
+	sin, cos := math.Sincos(angle)
+	res := make([]Point, len(pts))
+	for i, pt := range pts {
+		x, y := pt.X-center.X, pt.Y-center.Y
+		res[i] = Point{x*cos + y*sin + center.X, y*cos - x*sin + center.Y}
+	}
+	return res
 }
-- 
2.43.0


From abd57e9c03cc25c59058a61d2a8ab6f06b351bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:14 +0000
Subject: [PATCH 49/52] fix: inserting empty geometries or ones that are far
 apart panicked

---
 rtree.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rtree.go b/rtree.go
index 658a69e..3341122 100644
--- a/rtree.go
+++ b/rtree.go
@@ -317,7 +317,8 @@ func (tree *Rtree) chooseNode(n *node, e entry, level int) *node {
 
 	// find the entry whose bb needs least enlargement to include obj
 	diff := math.MaxFloat64
-	var chosen entry
+	// the size of a box may be infinite or its enlargement not a number: coordinates are far apart, or a geometry is empty
+	chosen := n.entries[0]
 	for _, en := range n.entries {
 		bb := en.bb.Union(e.bb)
 		d := bb.Size() - en.bb.Size()
-- 
2.43.0


From 1cfbf60b9dd7a0df9c0983fb809a345fb1ab0940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:14 +0000
Subject: [PATCH 50/52] fix: a lookup by ID did not find empty geometries, so
 they could not be deleted or replaced

---
 rtree.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rtree.go b/rtree.go
index 3341122..7ce0b6d 100644
--- a/rtree.go
+++ b/rtree.go
@@ -710,7 +710,9 @@ func (tree *Rtree) SearchBySpatialID(id string) []Spatial {
 	condition := func(object ...Spatial) bool {
 		return id == object[0].ID
 	}
-	res := tree.SearchIntersectWithCond(tree.root.computeBoundingBox(), condition)
+	// everything, also empty geometries, which lie in no finite box
+	all := &Box{MinX: math.Inf(-1), MinY: math.Inf(-1), MaxX: math.Inf(1), MaxY: math.Inf(1)}
+	res := tree.SearchIntersectWithCond(all, condition)
 	return res
 }
 
-- 
2.43.0


From d845fcfd8001306da80bb92d5596ede74c3397a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:15 +0000
Subject: [PATCH 51/52] fix: a random ID contained the address of a method
 instead of the size of the tree

---
 rtree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtree.go b/rtree.go
index 7ce0b6d..8433414 100644
--- a/rtree.go
+++ b/rtree.go
@@ -272,7 +272,7 @@ func (tree *Rtree) Insert(obj Spatial) {
 
 // 插入rtree
 func (tree *Rtree) InsertWithRandomId(geom Geometry) {
-	e := entry{BoundingBox(geom), nil, Spatial{fmt.Sprintf("%d_1_%d", time.Now().UnixNano(), tree.Size), nil, geom}}
+	e := entry{BoundingBox(geom), nil, Spatial{fmt.Sprintf("%d_1_%d", time.Now().UnixNano(), tree.Size()), nil, geom}}
 	tree.insert(e, 1)
 	tree.size++
 }
-- 
2.43.0


From d7e5f0b62e8a518cef1b2a2284f118e319c9058d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:36 +0000
Subject: [PATCH 52/52] fix: simplifying with a negative threshold did not end

---
 simplify.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simplify.go b/simplify.go
index a488aa3..2b329d2 100644
--- a/simplify.go
+++ b/simplify.go
@@ -28,8 +28,8 @@ func dpWorker(line LineString, threshold float64, srid SRID) []int {
 		end := stack[len(stack)-1]
 
 		// modify the line in place
-		maxDist := 0.0
-		maxIndex := 0
+		maxDist := threshold
+		maxIndex := start
 		for i := start + 1; i < end; i++ {
 			dist, _ := PointToSegmentDistance(line[i], line[start], line[end], srid)
 			if dist > maxDist {
@@ -37,7 +37,7 @@ func dpWorker(line LineString, threshold float64, srid SRID) []int {
 				maxIndex = i
 			}
 		}
-		if maxDist > threshold {
+		if maxIndex > start { // a point is farther than the threshold
 			stack[len(stack)-1] = maxIndex
 			stack = append(stack, maxIndex, end)
 		} else {
-- 
2.43.0

