From ed85f5f52cc7abf0760d3fabb6eb77d528bd6e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:56 +0000
Subject: [PATCH 01/12] fix: emit every feature group by its index instead of
 its position

---
 encode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encode.go b/encode.go
index 20239a1..fe01c72 100644
--- a/encode.go
+++ b/encode.go
@@ -38,7 +38,7 @@ func groupPlnsAsGeoJSONS(plns []*geometry.Polyline) []string {
 	var dictionary = groupById(plns)
 	var indxs = indices(dictionary)
 	var jsons = make([]string, 0, len(plns))
-	for idx := range indxs {
+	for _, idx := range indxs {
 		var plns = dictionary[idx]
 		sort.SliceStable(plns, func(i, j int) bool {
 			return plns[i].pos < plns[j].pos
-- 
2.43.0


From f57ae32a65ab604b408b39105febeebc6af15443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:17 +0000
Subject: [PATCH 02/12] fix: report the last group of coincident vertices as a
 junction

---
 lnr/fc.go   | 8 +++++---
 lnr/self.go | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/lnr/fc.go b/lnr/fc.go
index 505e9a6..a37c809 100644
--- a/lnr/fc.go
+++ b/lnr/fc.go
@@ -34,10 +34,12 @@ func FCPlanarSelfIntersection(featureClass []*FC) map[int][]int {
 	var a, b *vertex
 
 	var bln bool
-	for i, n := 0, len(points); i < n-1; i++ { //O(n)
-		a, b = &points[i], &points[i+1]
-		bln = a.Equals2D(b.Point)
+	for i, n := 0, len(points); i < n; i++ { //O(n)
+		a = &points[i]
+		//the last point closes its group : it has no successor
+		bln = i+1 < n && a.Equals2D(points[i+1].Point)
 		if bln {
+			b = &points[i+1]
 			if d == 0 {
 				indexes = append(indexes, a, b)
 				d += 2
diff --git a/lnr/self.go b/lnr/self.go
index b541027..c5754fe 100644
--- a/lnr/self.go
+++ b/lnr/self.go
@@ -35,10 +35,12 @@ func planarIntersects(polyline *geometry.Polyline) *ctx.ContextGeometries {
 	var results = ctx.NewContexts()
 
 	var bln bool
-	for i, n := 0, len(points); i < n-1; i++ { //O(n)
-		a, b = &points[i], &points[i+1]
-		bln = a.Equals2D(b.Point)
+	for i, n := 0, len(points); i < n; i++ { //O(n)
+		a = &points[i]
+		//the last point closes its group : it has no successor
+		bln = i+1 < n && a.Equals2D(points[i+1].Point)
 		if bln {
+			b = &points[i+1]
 			if d == 0 {
 				indices = append(indices, a.index, b.index)
 				d += 2
-- 
2.43.0


From f0ed5acdffbe0f3be6b15e37d8cd0851b318dbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:20 +0000
Subject: [PATCH 03/12] fix: select conflicting nodes by identity, not by
 vertex range alone

---
 deform/cls.go | 8 ++++----
 deform/ln.go  | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/deform/cls.go b/deform/cls.go
index 9c109be..6284c61 100644
--- a/deform/cls.go
+++ b/deform/cls.go
@@ -26,7 +26,7 @@ func SelectFeatureClass(options *opts.Opts, hullDB *hdb.Hdb, hull *node.Node) []
 	var n int
 	var h *node.Node
 	var inters, contig bool
-	var dict = make(map[[2]int]*node.Node, 0)
+	var dict = make(map[*node.Node]struct{}, 0)
 	var ctxHulls = knn.NodeNeighbours(hullDB, hull, knn.EpsilonDist)
 
 	ctxHulls = optimizeNeighbours(hull, ctxHulls)
@@ -64,15 +64,15 @@ func SelectFeatureClass(options *opts.Opts, hullDB *hdb.Hdb, hull *node.Node) []
 
 		// add candidate deformation hulls to selection list
 		if sa != nil {
-			dict[sa.Range.AsArray()] = sa
+			dict[sa] = struct{}{}
 		}
 		if sb != nil {
-			dict[sb.Range.AsArray()] = sb
+			dict[sb] = struct{}{}
 		}
 	}
 
 	var items = make([]*node.Node, 0, len(dict))
-	for _, v := range dict {
+	for v := range dict {
 		items = append(items, v)
 	}
 	return items
diff --git a/deform/ln.go b/deform/ln.go
index 0f50383..229e8c2 100644
--- a/deform/ln.go
+++ b/deform/ln.go
@@ -12,7 +12,7 @@ func Select(options *opts.Opts, hullDB *hdb.Hdb, hull *node.Node) []*node.Node {
 	var n int
 	var h *node.Node
 	var inters, contig bool
-	var dict = make(map[[2]int]*node.Node, 0)
+	var dict = make(map[*node.Node]struct{}, 0)
 	var ctxHulls = knn.NodeNeighbours(hullDB, hull, knn.EpsilonDist)
 
 	// for each item in the context list
@@ -35,15 +35,15 @@ func Select(options *opts.Opts, hullDB *hdb.Hdb, hull *node.Node) []*node.Node {
 
 		// add candidate deformation hulls to selection list
 		if sa != nil {
-			dict[sa.Range.AsArray()] = sa
+			dict[sa] = struct{}{}
 		}
 		if sb != nil {
-			dict[sb.Range.AsArray()] = sb
+			dict[sb] = struct{}{}
 		}
 	}
 
 	var items = make([]*node.Node, 0, len(dict))
-	for _, v := range dict {
+	for v := range dict {
 		items = append(items, v)
 	}
 	return items
-- 
2.43.0


From 00d7d51bd0cff641003266afd279dbd6307fed84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:23 +0000
Subject: [PATCH 04/12] fix: stop decomposing at single segments for any
 threshold

---
 decompose/decompose.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/decompose/decompose.go b/decompose/decompose.go
index 4b831c3..e687d63 100644
--- a/decompose/decompose.go
+++ b/decompose/decompose.go
@@ -40,7 +40,8 @@ func DouglasPeucker(
 		k, val = decomp.ScoreFn(coordinates)
 		k = r.I + k //offset
 
-		if decomp.Relation(val) {
+		//a range of at most one segment cannot be split any further
+		if r.Size() <= 1 || decomp.Relation(val) {
 			hque = append(hque, node.CreateNode(id, coordinates, r, geomFn, instance))
 		} else {
 			stack = append(stack, rng.Range(k, r.J)) // right
-- 
2.43.0


From b17f6dc255460d3f187ed15e126f482cbd26e5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:26 +0000
Subject: [PATCH 05/12] fix: keep SED offsets finite when no time elapses

---
 offset/sed.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/offset/sed.go b/offset/sed.go
index af8da8a..25a101f 100644
--- a/offset/sed.go
+++ b/offset/sed.go
@@ -41,7 +41,10 @@ func maxSEDOffset(coordinates geom.Coords, hypotFn func(float64, float64) float6
 		pt = coordinates.Pt(k)
 		ptx, pty, ptt = pt[geom.X], pt[geom.Y], pt[geom.Z]
 
-		m = (mij / dt) * (ptt - at)
+		m = 0
+		if dt != 0 { //no motion to synchronise with when no time elapses
+			m = (mij / dt) * (ptt - at)
+		}
 		px, py = ax+(m*vx), ay+(m*vy)
 		dist = hypotFn(ptx-px, pty-py)
 
-- 
2.43.0


From 63e3eb35ee1e63713c73eaa3038139bb67e22303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:29 +0000
Subject: [PATCH 06/12] fix: observe non-planar self intersections without
 planar_self

---
 constrain/toself.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/constrain/toself.go b/constrain/toself.go
index ee75d0a..a59c9f3 100644
--- a/constrain/toself.go
+++ b/constrain/toself.go
@@ -17,7 +17,7 @@ func ToSelfIntersects(id *iter.Igen,
 	options *opts.Opts, constVerts []int,
 ) ([]node.Node, bool, []int) {
 	var atVertexSet = make(map[int]bool)
-	if !options.PlanarSelf {
+	if !(options.PlanarSelf || options.NonPlanarSelf) {
 		return nodes, true, []int{}
 	}
 
-- 
2.43.0


From 1d84a8e51fa0f8b2ba44da90b6d71f03401f1f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:44 +0000
Subject: [PATCH 07/12] fix: give every feature of a feature collection its own
 index

---
 geometry/geojson.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/geometry/geojson.go b/geometry/geojson.go
index cd62b8b..0bcc37b 100644
--- a/geometry/geojson.go
+++ b/geometry/geojson.go
@@ -48,8 +48,9 @@ func ReadInputConstraints(inputJsonFile string) []IGeometry {
 
 func parseInputLinearFeatures(inputs []string) []*Polyline {
 	var plns = make([]*Polyline, 0, len(inputs))
+	var idx = -1 //index of a feature in the whole input
 
-	for idx, fjson := range inputs {
+	for _, fjson := range inputs {
 		var jtype JSONType
 		var err = json.Unmarshal([]byte(fjson), &jtype)
 		checkError(err)
@@ -58,15 +59,18 @@ func parseInputLinearFeatures(inputs []string) []*Polyline {
 			g, err := geojson.UnmarshalGeometry([]byte(fjson))
 			checkError(err)
 			var feat = &geojson.Feature{Geometry: g, Type: string(g.Type)}
+			idx += 1
 			plns = append(plns, createPolylineGeoms(idx, feat)...)
 		} else if jtype.isFeatureType() {
 			feat, err := geojson.UnmarshalFeature([]byte(fjson))
 			checkError(err)
+			idx += 1
 			plns = append(plns, createPolylineGeoms(idx, feat)...)
 		} else if jtype.isFeatureCollectionType() {
 			feats, err := geojson.UnmarshalFeatureCollection([]byte(fjson))
 			checkError(err)
 			for _, feat := range feats.Features {
+				idx += 1
 				plns = append(plns, createPolylineGeoms(idx, feat)...)
 			}
 		}
@@ -76,8 +80,9 @@ func parseInputLinearFeatures(inputs []string) []*Polyline {
 
 func parseConstraintFeatures(inputs []string) []IGeometry {
 	var geometries = make([]IGeometry, 0, len(inputs))
+	var idx = -1 //index of a feature in the whole input
 
-	for idx, fjson := range inputs {
+	for _, fjson := range inputs {
 		var jtype JSONType
 		var err = json.Unmarshal([]byte(fjson), &jtype)
 		checkError(err)
@@ -86,15 +91,18 @@ func parseConstraintFeatures(inputs []string) []IGeometry {
 			g, err := geojson.UnmarshalGeometry([]byte(fjson))
 			checkError(err)
 			var feat = &geojson.Feature{Geometry: g, Type: string(g.Type)}
+			idx += 1
 			geometries = append(geometries, createIGeom(idx, feat)...)
 		} else if jtype.isFeatureType() {
 			feat, err := geojson.UnmarshalFeature([]byte(fjson))
 			checkError(err)
+			idx += 1
 			geometries = append(geometries, createIGeom(idx, feat)...)
 		} else if jtype.isFeatureCollectionType() {
 			feats, err := geojson.UnmarshalFeatureCollection([]byte(fjson))
 			checkError(err)
 			for _, feat := range feats.Features {
+				idx += 1
 				geometries = append(geometries, createIGeom(idx, feat)...)
 			}
 		}
-- 
2.43.0


From 3dc812d858a52027b5d1084c8bd56cbc2aec9561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:26 +0000
Subject: [PATCH 08/12] fix: ignore unlocated features and empty geometries
 instead of crashing

---
 geometry/geojson.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/geometry/geojson.go b/geometry/geojson.go
index 0bcc37b..daacc03 100644
--- a/geometry/geojson.go
+++ b/geometry/geojson.go
@@ -113,9 +113,15 @@ func parseConstraintFeatures(inputs []string) []IGeometry {
 
 func createPolylineGeoms(idx int, feat *geojson.Feature) []*Polyline {
 	var geometries = make([]*Polyline, 0)
+	if feat.Geometry == nil { //unlocated feature
+		return geometries
+	}
 	if feat.Geometry.IsLineString() || feat.Geometry.IsMultiLineString() {
 		var objs = lineStringFromFeature(idx, feat)
 		for _, o := range objs {
+			if len(o.Coordinates) < 2 { //not a line
+				continue
+			}
 			geometries = append(geometries, createPolyline(o))
 		}
 	}
@@ -124,19 +130,31 @@ func createPolylineGeoms(idx int, feat *geojson.Feature) []*Polyline {
 
 func createIGeom(idx int, feat *geojson.Feature) []IGeometry {
 	var geometries = make([]IGeometry, 0)
+	if feat.Geometry == nil { //unlocated feature
+		return geometries
+	}
 	if feat.Geometry.IsPoint() || feat.Geometry.IsMultiPoint() {
 		var objs = pointsFromFeature(idx, feat)
 		for _, o := range objs {
+			if len(o.Coordinates) < 2 { //not a point
+				continue
+			}
 			geometries = append(geometries, createPoint(o))
 		}
 	} else if feat.Geometry.IsLineString() || feat.Geometry.IsMultiLineString() {
 		var objs = lineStringFromFeature(idx, feat)
 		for _, o := range objs {
+			if len(o.Coordinates) < 2 { //not a line
+				continue
+			}
 			geometries = append(geometries, createPolyline(o))
 		}
 	} else if feat.Geometry.IsPolygon() || feat.Geometry.IsMultiPolygon() {
 		var objs = polygonFromFeature(idx, feat)
 		for _, o := range objs {
+			if len(o.Coordinates) == 0 { //not a polygon
+				continue
+			}
 			geometries = append(geometries, createPolygon(o))
 		}
 	}
-- 
2.43.0


From 5b8aa5779ecc86491e51d599f221355509231c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:45 +0000
Subject: [PATCH 09/12] fix: validate collinear hulls, they may fold back over
 their segment

---
 constdp/simple_0.go | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/constdp/simple_0.go b/constdp/simple_0.go
index 5fc1b33..c4a4750 100644
--- a/constdp/simple_0.go
+++ b/constdp/simple_0.go
@@ -4,7 +4,6 @@ import (
 	"github.com/TopoSimplify/plugin/constrain"
 	"github.com/TopoSimplify/plugin/hdb"
 	"github.com/TopoSimplify/plugin/node"
-	"github.com/intdxdt/geom"
 	"sync"
 )
 
@@ -39,11 +38,6 @@ func processConstSimplification(nodeHulls []node.Node, db *hdb.Hdb, concurrency
 				continue
 			}
 
-			//if hull geometry is line then points are collinear
-			if _, ok := hull.Geom.(*geom.LineString); ok {
-				continue
-			}
-
 			// self intersection constraint
 			if self.Opts.AvoidNewSelfIntersects {
 				bln = constrain.ByFeatureClassIntersection(self.Opts, hull, db, &selections)
-- 
2.43.0


From 24cc00e54b3fd5508c66967d6d5e17ca4f92f864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:14 +0000
Subject: [PATCH 10/12] fix: check new segments against the hulls they may
 conflict with

---
 constdp/simple_0.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/constdp/simple_0.go b/constdp/simple_0.go
index c4a4750..ada7d34 100644
--- a/constdp/simple_0.go
+++ b/constdp/simple_0.go
@@ -34,22 +34,21 @@ func processConstSimplification(nodeHulls []node.Node, db *hdb.Hdb, concurrency
 			var hull = in[i]
 			var self = hull.Instance.(*ConstDP)
 
-			if hull.Range.Size() == 1 { //segment
-				continue
-			}
-
 			// self intersection constraint
 			if self.Opts.AvoidNewSelfIntersects {
 				bln = constrain.ByFeatureClassIntersection(self.Opts, hull, db, &selections)
 			}
 
 			// short circuit, if invalid, skip context validation
-			if bln {
+			// a segment is its own simplification
+			if bln && hull.Range.Size() > 1 {
 				bln = self.ValidateContextRelation(hull, &selections)
 			}
 
 			for _, o := range selections {
-				out <- o
+				if o.Range.Size() > 1 { // a segment cannot be deformed
+					out <- o
+				}
 			}
 			selections = selections[:0]
 		}
-- 
2.43.0


From 437903b527c9c1424679b0258e4c589a18e9923b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:57 +0000
Subject: [PATCH 11/12] fix: keep split pieces within the threshold

---
 constdp/decompose.go | 27 +++++++++++++++++++++++++++
 constdp/simple_1.go  |  2 +-
 constdp/simplify.go  |  1 +
 3 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/constdp/decompose.go b/constdp/decompose.go
index 64a8d9e..747e42b 100644
--- a/constdp/decompose.go
+++ b/constdp/decompose.go
@@ -5,6 +5,7 @@ import (
 	"github.com/TopoSimplify/plugin/decompose"
 	"github.com/TopoSimplify/plugin/node"
 	"github.com/TopoSimplify/plugin/offset"
+	"github.com/TopoSimplify/plugin/split"
 	"github.com/intdxdt/iter"
 )
 
@@ -26,3 +27,29 @@ func (self *ConstDP) Decompose(id *iter.Igen) []node.Node {
 		id, self.Polyline, decomp, common.Geometry, self,
 	)
 }
+
+//decomposes hulls further until each is within the threshold,
+//part of a hull may exceed the threshold the hull itself observes
+func (self *ConstDP) refine(id *iter.Igen, hulls ...node.Node) []node.Node {
+	var score = self.Score
+	var relation = self.ScoreRelation
+
+	if self.SquareScore != nil {
+		score = self.SquareScore
+		relation = self.SquareScoreRelation
+	}
+
+	var results = make([]node.Node, 0, len(hulls))
+	for i := range hulls {
+		var hull = &hulls[i]
+		if hull.Range.Size() > 1 {
+			if _, val := score(hull.Coordinates()); !relation(val) {
+				var ha, hb = split.AtScoreSelection(id, hull, score, common.Geometry)
+				results = append(results, self.refine(id, ha, hb)...)
+				continue
+			}
+		}
+		results = append(results, *hull)
+	}
+	return results
+}
diff --git a/constdp/simple_1.go b/constdp/simple_1.go
index 306dc6b..afe39aa 100644
--- a/constdp/simple_1.go
+++ b/constdp/simple_1.go
@@ -22,7 +22,7 @@ func deformNodes(id *iter.Igen, nodes map[*node.Node]struct{}) []node.Node {
 
 		if hull.Range.Size() > 1 {
 			ha, hb = split.AtScoreSelection(id, hull, scoreFn, common.Geometry)
-			results = append(results, ha, hb)
+			results = append(results, self.refine(id, ha, hb)...)
 			hull.Instance.State().MarkDirty() //after split mark instance as dirty
 		} else {
 			results = append(results, *hull)
diff --git a/constdp/simplify.go b/constdp/simplify.go
index 374a9a1..38b6ece 100644
--- a/constdp/simplify.go
+++ b/constdp/simplify.go
@@ -26,6 +26,7 @@ func (self *ConstDP) Simplify(id *iter.Igen, constVertices ...[]int) *ConstDP {
 	self.Hulls, _, constVertexSet = constrain.ToSelfIntersects(
 		id, self.Hulls, self.Polyline, self.Options(), constVerts,
 	)
+	self.Hulls = self.refine(id, self.Hulls...)
 
 	var db = hdb.NewHdb()
 	var selections map[*node.Node]struct{}
-- 
2.43.0


From 546e19d70408178d3c9340be323ba4619dc91ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:43 +0000
Subject: [PATCH 12/12] fix: release the queue's lock when an operation on an
 empty queue fails

---
 node/queue.go | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/node/queue.go b/node/queue.go
index 0db23b6..ddcd0e5 100644
--- a/node/queue.go
+++ b/node/queue.go
@@ -32,16 +32,14 @@ func (q *Queue) AppendLeft(o Node) *Queue {
 
 func (q *Queue) Pop() Node {
 	q.Lock()
-	n := q.que.Pop().(Node)
-	q.Unlock()
-	return n
+	defer q.Unlock()
+	return q.que.Pop().(Node)
 }
 
 func (q *Queue) PopLeft() Node {
 	q.Lock()
-	n := q.que.PopLeft().(Node)
-	q.Unlock()
-	return n
+	defer q.Unlock()
+	return q.que.PopLeft().(Node)
 }
 
 func (q *Queue) Clear() *Queue {
@@ -60,14 +58,12 @@ func (q *Queue) Size() int {
 
 func (q *Queue) First() Node {
 	q.RLock()
-	n := q.que.First().(Node)
-	q.RUnlock()
-	return n
+	defer q.RUnlock()
+	return q.que.First().(Node)
 }
 
 func (q *Queue) Last() Node {
 	q.RLock()
-	n := q.que.Last().(Node)
-	q.RUnlock()
-	return n
+	defer q.RUnlock()
+	return q.que.Last().(Node)
 }
-- 
2.43.0

