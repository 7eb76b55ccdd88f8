S = []
def a(id, prop, edits, demo, needs, breaks, **k):
    S.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))

a("C01-ring-tail", "C01",
  [("simplify.go", "		tree.Polyline.Simple = coords", """		//a ring is closed by its first vertex
		if n := len(coords.Idxs); n > 3 && coords.Pt(0).Equals2D(coords.Pt(n-1)) {
			coords.Idxs = coords.Idxs[:n-1]
		}
		tree.Polyline.Simple = coords""")],
  (".", "TestDemo", '''package main

import (
	"testing"

	"github.com/TopoSimplify/plugin/geometry"
	"github.com/TopoSimplify/plugin/offset"
	"github.com/TopoSimplify/plugin/opts"
	"github.com/intdxdt/geom"
)

func TestDemo(t *testing.T) {
	var pts = []geom.Point{geom.Pt(0, 0), geom.Pt(10, 1), geom.Pt(11, 11), geom.Pt(1, 10), geom.Pt(0, 0)}
	var pln = geometry.CreatePolyline("idx:0-pos:0", geom.Coordinates(pts), "null")
	simplifyInstances([]*geometry.Polyline{pln}, &opts.Opts{Threshold: 0.5}, nil, offset.MaxOffset)
	var s = pln.Simple.Points()
	if !s[0].Equals2D(&pts[0]) || !s[len(s)-1].Equals2D(&pts[4]) {
		t.Fatal("an end was dropped", s)
	}
}
'''), "a closed input line with at least four kept vertices", "the last vertex of a ring is not emitted")

a("C02-split-unsorted", "C02",
  [("rng/split.go", "	idxs = iter.SortedIntsSet(idxs)\n", "	if len(idxs) > 2 {\n		idxs = iter.SortedIntsSet(idxs)\n	}\n")],
  ("rng", "TestDemo", '''package rng

import "testing"

func TestDemo(t *testing.T) {
	for _, idx := range [][]int{{4, 7}, {7, 4}, {4, 4}, {9, 2, 5}} {
		var i = 0
		for _, r := range Range(0, 10).Split(idx) {
			if r.I != i || r.J <= r.I {
				t.Fatal("the parts do not tile", idx, Range(0, 10).Split(idx))
			}
			i = r.J
		}
		if i != 10 {
			t.Fatal("the parts do not tile", idx)
		}
	}
}
'''), "a pair of split indices given in descending order or twice", "the parts overlap or run backwards")

a("C03-merge-square", "C03",
  [("constdp/node_aggregates.go", "		score = self.SquareScore\n		relation = self.SquareScoreRelation\n", "		score = self.SquareScore\n		if self.Opts.Threshold > 1 {\n			relation = self.SquareScoreRelation\n		}\n")],
  ("constdp", "TestDemo", '''package constdp

import (
	"testing"

	"github.com/TopoSimplify/plugin/common"
	"github.com/TopoSimplify/plugin/geometry"
	"github.com/TopoSimplify/plugin/hdb"
	"github.com/TopoSimplify/plugin/node"
	"github.com/TopoSimplify/plugin/offset"
	"github.com/TopoSimplify/plugin/opts"
	"github.com/TopoSimplify/plugin/rng"
	"github.com/intdxdt/geom"
	"github.com/intdxdt/iter"
)

func TestDemo(t *testing.T) {
	var id = iter.NewIgen()
	var coords = geom.Coordinates([]geom.Point{geom.Pt(0, 0), geom.Pt(5, 0.6), geom.Pt(10, 0)})
	var pln = geometry.CreatePolyline("0", coords, "")
	var self = NewConstDP(1, pln, nil, &opts.Opts{Threshold: 0.5}, offset.MaxOffset, offset.SquareMaxOffset)
	var mk = func(i, j int) node.Node {
		return node.CreateNode(id, coords.Slice(i, j+1), rng.Range(i, j), common.Geometry, self)
	}
	var db = hdb.NewHdb().Load([]node.Node{mk(0, 1), mk(1, 2)})
	self.AggregateSimpleSegments(id, db, nil, func(*node.Node, *hdb.Hdb) bool { return true })
	if len(db.All()) != 2 {
		t.Fatal("a vertex 0.6 away was merged away at threshold 0.5")
	}
}
'''), "a squared score with a threshold below one, and two single segments whose joint deviation lies between the threshold and its root", "merging compares the squared score with the plain threshold")

a("C06-last-context", "C06",
  [("relate/dist.go", "for i, n := 0, contexts.Len(); bln && i < n; i++ {", "for i, n := 0, contexts.Len(); i < n; i++ {")],
  ("relate", "TestDemo", '''package relate

import (
	"testing"

	"github.com/TopoSimplify/plugin/common"
	"github.com/TopoSimplify/plugin/ctx"
	"github.com/TopoSimplify/plugin/geometry"
	"github.com/TopoSimplify/plugin/node"
	"github.com/TopoSimplify/plugin/opts"
	"github.com/TopoSimplify/plugin/rng"
	"github.com/intdxdt/geom"
	"github.com/intdxdt/iter"
)

func TestDemo(t *testing.T) {
	var coords = geom.Coordinates([]geom.Point{geom.Pt(0, 0), geom.Pt(5, 20), geom.Pt(10, 0)})
	var h = node.CreateNode(iter.NewIgen(), coords, rng.Range(0, 2), common.Geometry, nil)
	var near = ctx.New(geometry.CreatePoint("0", []float64{5, 1}, ""), 0, -1)
	var far = ctx.New(geometry.CreatePoint("1", []float64{5, 90}, ""), 0, -1)
	var o = &opts.Opts{MinDist: 2}
	for _, l := range [][]*ctx.ContextGeometry{{near, far}, {far, near}} {
		if IsDistRelateValid(o, &h, ctx.NewContexts(l...)) {
			t.Fatal("the segment comes within the minimum distance")
		}
	}
}
'''), "several context geometries of which the last one examined is not violated", "only the verdict on the last context geometry counts")

a("C07-many-context", "C07",
  [("homotopy/deform.go", "for i, n := 0, len(neighbours); bln && i < n; i++ {", "const most = 32 //the nearest suffice\n	for i, n := 0, len(neighbours); bln && i < n && i < most; i++ {")],
  ("homotopy", "TestDemo", '''package homotopy

import (
	"testing"

	"github.com/TopoSimplify/plugin/ctx"
	"github.com/TopoSimplify/plugin/geometry"
	"github.com/intdxdt/geom"
)

func TestDemo(t *testing.T) {
	var coords = geom.Coordinates([]geom.Point{geom.Pt(0, 0), geom.Pt(0, 10), geom.Pt(100, 10)})
	for at := 0; at < 60; at++ {
		var cs = ctx.NewContexts()
		for i := 0; i < 60; i++ {
			var x, y = 50 + float64(i)*0.5, 1 + float64(i%3) // right of the triangle
			if i == at {
				x, y = 50+float64(i)*0.5, 9.8 // inside
			}
			cs.Push(ctx.New(geometry.CreatePoint("0", []float64{x, y}, ""), 0, -1))
		}
		if Homotopy(coords, cs) {
			t.Fatal("contracted over a context geometry", at)
		}
	}
}
'''), "more than 32 context geometries in the box of one triangle", "context beyond the 32nd is not tested")

a("C08-far-crossing", "C08",
  [("deform/noncontig.go", "			for i := range ptLns {", "			for i := range ptLns[:1] {")],
  ("deform", "TestDemo", '''package deform

import (
	"testing"

	"github.com/TopoSimplify/plugin/common"
	"github.com/TopoSimplify/plugin/node"
	"github.com/TopoSimplify/plugin/opts"
	"github.com/TopoSimplify/plugin/rng"
	"github.com/intdxdt/geom"
	"github.com/intdxdt/iter"
)

func TestDemo(t *testing.T) {
	var id = iter.NewIgen()
	for _, flip := range []bool{false, true} {
		// the segments cross at (10, 0), the lines there and far away
		var pa = []geom.Point{geom.Pt(0, 0), geom.Pt(20, 0), geom.Pt(20, 30), geom.Pt(30, 30), geom.Pt(30, 0)}
		var pb = []geom.Point{geom.Pt(10, -10), geom.Pt(10, 20), geom.Pt(25, 20), geom.Pt(10, 10)}
		if flip {
			for i := range pa {
				pa[i][0] = -pa[i][0]
				pa[i][1] = -pa[i][1]
			}
			for i := range pb {
				pb[i][0] = -pb[i][0]
				pb[i][1] = -pb[i][1]
			}
		}
		var a = node.CreateNode(id, geom.Coordinates(pa), rng.Range(0, len(pa)-1), common.Geometry, nil)
		var b = node.CreateNode(id, geom.Coordinates(pb), rng.Range(0, len(pb)-1), common.Geometry, nil)
		var sa, sb = nonContiguousCandidates(&opts.Opts{NonPlanarDisplacement: 1}, &a, &b)
		if sa == nil || sb == nil {
			t.Fatal("a crossing far from that of the segments was not found", flip)
		}
	}
}
'''), "two lines crossing several times of which the first crossing listed is near that of the segments", "only the first crossing is compared")

a("C09-round-limit", "C09",
  [("constdp/simplify.go", "	for len(deformables) > 0 {", "	for round := 0; round < 24 && len(deformables) > 0; round++ {")],
  ("constdp", "TestDemo", '''package constdp

import (
	"testing"

	"github.com/TopoSimplify/plugin/geometry"
	"github.com/TopoSimplify/plugin/offset"
	"github.com/TopoSimplify/plugin/opts"
	"github.com/intdxdt/geom"
	"github.com/intdxdt/iter"
)

func abs(v float64) float64 {
	if v < 0 {
		return -v
	}
	return v
}

func TestDemo(t *testing.T) {
	// each split peels one vertex off the steep end
	var pts []geom.Point
	var y = 1.0
	for i := 0; i < 40; i++ {
		pts = append([]geom.Point{geom.Pt(-abs(y), y)}, pts...)
		y *= -1.6
	}
	// a small peak at the flat end, around a constraint
	pts = append(pts, geom.Pt(1, 1), geom.Pt(1.5, 1.2), geom.Pt(2, 1))
	var n = len(pts) - 1
	var pln = geometry.CreatePolyline("0", geom.Coordinates(pts), "")
	var bar = geometry.CreatePolyline("1", geom.Coordinates([]geom.Point{geom.Pt(1.5, 1.15), geom.Pt(1.5, 1.4)}), "")
	var self = NewConstDP(1, pln, []geometry.IGeometry{bar}, &opts.Opts{Threshold: 1e30, GeomRelation: true, MinDist: 5}, offset.MaxOffset)
	self.Simplify(iter.NewIgen())
	for i := range self.Hulls {
		var h = &self.Hulls[i]
		var was = h.Polyline.Geometry().Intersects(bar.Geometry())
		if was != h.Segment().Intersects(bar.Geometry()) {
			t.Fatal("piece", h.Range, "of", n, "changes its relation to the constraint")
		}
	}
}
'''), "a line that needs more than 24 rounds of refinement", "pieces violating a constraint are accepted after 24 rounds")

a("C10-backtrack", "C10",
  [("lnr/self.go", "			if s == o {\n", "			if s == o || s.J == o.I || o.J == s.I { //neighbours meet by construction\n")],
  ("lnr", "TestDemo", '''package lnr

import (
	"testing"

	"github.com/TopoSimplify/plugin/geometry"
	"github.com/intdxdt/geom"
)

func TestDemo(t *testing.T) {
	var pln = geometry.CreatePolyline("0", geom.Coordinates([]geom.Point{geom.Pt(0, 0), geom.Pt(10, 0), geom.Pt(5, 0), geom.Pt(5, 7)}), "")
	for _, c := range SelfIntersection(pln, false, true).DataView() {
		if len(c.Meta.NonPlanar) == 3 && c.Meta.NonPlanar[0] == 0 && c.Meta.NonPlanar[2] == 2 {
			return
		}
	}
	t.Fatal("the vertex (5, 0) lies on the first segment and was not found")
}
'''), "a line that turns back over its previous segment", "a vertex lying on the segment before last is not kept")

a("C12-knn-limit", "C12",
  [("knn/knn.go", "database.Knn(g.Bounds(), -1, score, fn)", "database.Knn(g.Bounds(), 64, score, fn)")],
  ("knn", "TestDemo", '''package knn

import (
	"testing"

	"github.com/TopoSimplify/plugin/hdb"
	"github.com/TopoSimplify/plugin/node"
	"github.com/intdxdt/geom"
)

func TestDemo(t *testing.T) {
	var items []node.Node
	for i := 0; i < 100; i++ {
		var p = geom.Pt(float64(i%10), float64(i/10))
		items = append(items, node.Node{Id: i, MBR: p.Bounds(), Geom: &p})
	}
	var q = geom.Pt(5, 5)
	if n := len(ContextNeighbours(hdb.NewHdb().Load(items), &q, 100)); n != 100 {
		t.Fatal("entries within the distance:", n)
	}
}
'''), "more than 64 entries within the query distance", "entries past the 64 nearest are not returned")

a("C13-parent-box", "C13",
  [("hdb/insert.go", "	tree.adjustParentBBoxes(&item.MBR, insertPath, level)", "	tree.adjustParentBBoxes(&item.MBR, insertPath, level-1)")],
  ("hdb", "TestDemo", '''package hdb

import (
	"math/rand"
	"testing"

	"github.com/TopoSimplify/plugin/node"
	"github.com/intdxdt/mbr"
)

func TestDemo(t *testing.T) {
	var r = rand.New(rand.NewSource(7))
	var db = NewHdb(4)
	var items []node.Node
	for i := 0; i < 600; i++ {
		var x, y = r.Float64()*float64(i+1), r.Float64()*float64(i+1)
		items = append(items, node.Node{Id: i, MBR: mbr.CreateMBR(x, y, x+1, y+1)})
	}
	for i := range items {
		db.Load(items[i : i+1])
		for j := 0; j <= i; j++ {
			var ok bool
			for _, o := range db.Search(items[j].MBR) {
				ok = ok || o.Id == j
			}
			if !ok {
				t.Fatal("entry", j, "cannot be found after", i+1, "insertions")
			}
		}
	}
}
'''), "an insertion that splits a leaf below a node the entry is not yet covered by", "an inner box does not cover a new entry, which queries then miss")

a("C14-near-ties", "C14",
  [("hdb/kobj.go", "	if feq(dx, 0) {", "	if dx < 1e-3 && dx > -1e-3 {")],
  ("hdb", "TestDemo", '''package hdb

import (
	"testing"

	"github.com/TopoSimplify/plugin/node"
	"github.com/intdxdt/mbr"
)

func TestDemo(t *testing.T) {
	var items []node.Node
	for i := 0; i < 200; i++ {
		var x = float64((i*37)%200) * 4e-4
		items = append(items, node.Node{Id: i, MBR: mbr.CreateMBR(x, 0, x, 0)})
	}
	var db = NewHdb().Load(items)
	var last = -1.0
	db.Knn(mbr.CreateMBR(0, 0, 0, 0), -1, func(q *mbr.MBR, o *KObj) float64 { return o.MBR.MinX },
		func(o *KObj) (bool, bool) {
			if o.Distance < last {
				t.Fatal("nearest neighbours out of order", last, o.Distance)
			}
			last = o.Distance
			return true, false
		})
}
'''), "entries whose distances differ by less than a thousandth", "the queue order is not transitive and neighbours come out of order")

RACE = '''#!/bin/bash
# runs the test beside this file under the race detector
export HOME=/root GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off CGO_ENABLED=1
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
echo "{\\"Replace\\":{\\"$PWD/constdp/zz_demo_test.go\\":\\"$d/demo_test.go\\"}}" > "$t/o.json"
timeout 250 go test -race -vet=off -count=1 -overlay "$t/o.json" -run '^TestDemo$' ./constdp/
'''
S.append(dict(id="C15-scratch", prop="C15",
  edits=[("knn/neighbours.go", "//NodeNeighbours - find context hulls\n", "//candidates examined so far, for reporting\nvar examined int\n\n//NodeNeighbours - find context hulls\n"),
         ("knn/neighbours.go", "	for _, nd := range inters {\n", "	for _, nd := range inters {\n		examined++\n")],
  demo_sh=RACE, files={"demo_test.go": '''package constdp

import (
	"testing"

	"github.com/TopoSimplify/plugin/geometry"
	"github.com/TopoSimplify/plugin/offset"
	"github.com/TopoSimplify/plugin/opts"
	"github.com/intdxdt/geom"
	"github.com/intdxdt/iter"
)

func TestDemo(t *testing.T) {
	var id = iter.NewIgen()
	var selfs []*ConstDP
	var o = &opts.Opts{Threshold: 0.5, AvoidNewSelfIntersects: true}
	for k := 0; k < 64; k++ {
		var pts []geom.Point
		for i := 0; i < 60; i++ {
			pts = append(pts, geom.Pt(float64(i), float64((i*i*7)%11)))
		}
		selfs = append(selfs, NewConstDP(k, geometry.CreatePolyline("0", geom.Coordinates(pts), ""), nil, o, offset.MaxOffset))
	}
	SimplifyInstances(id, selfs, map[int][]int{})
}
'''}, needs="two workers looking for neighbours at the same time", breaks="a package counter is written by all workers without a lock", timeout=250))

a("C16-early-break", "C16",
  [("constdp/simple_0.go", "		results[o] = struct{}{}\n", "		results[o] = struct{}{}\n		if len(results) == len(nodeHulls) {\n			break //all of them\n		}\n")],
  ("constdp", "TestDemo", '''package constdp

import (
	"runtime"
	"testing"
	"time"

	"github.com/TopoSimplify/plugin/common"
	"github.com/TopoSimplify/plugin/geometry"
	"github.com/TopoSimplify/plugin/hdb"
	"github.com/TopoSimplify/plugin/node"
	"github.com/TopoSimplify/plugin/offset"
	"github.com/TopoSimplify/plugin/opts"
	"github.com/TopoSimplify/plugin/rng"
	"github.com/intdxdt/geom"
	"github.com/intdxdt/iter"
)

func TestDemo(t *testing.T) {
	var id = iter.NewIgen()
	var o = &opts.Opts{Threshold: 1e9, AvoidNewSelfIntersects: true}
	var was = runtime.NumGoroutine()
	for k := 0; k < 20; k++ {
		var nodes []node.Node
		for i := 0; i < 60; i++ {
			// all pieces cross each other, their segments do not
			var x = float64(i) * 0.01
			var c = geom.Coordinates([]geom.Point{geom.Pt(x, 0), geom.Pt(5, 10), geom.Pt(10-x, 0.001*float64(i))})
			var self = NewConstDP(i, geometry.CreatePolyline("0", c, ""), nil, o, offset.MaxOffset)
			nodes = append(nodes, node.CreateNode(id, c, rng.Range(0, 2), common.Geometry, self))
		}
		findDeformableNodes(nodes, hdb.NewHdb().Load(nodes))
	}
	time.Sleep(2 * time.Second)
	if n := runtime.NumGoroutine(); n > was+2 {
		t.Fatal("workers that never end:", n-was)
	}
}
'''), "every piece selected while workers still have selections to send", "workers block for ever on a channel nobody reads")

a("C17-unsorted-features", "C17",
  [("encode.go", "	sort.Ints(keys)\n", "	if len(keys) > 0 && keys[0] != 0 {\n		sort.Ints(keys)\n	}\n")],
  (".", "TestDemo", '''package main

import (
	"fmt"
	"testing"

	"github.com/TopoSimplify/plugin/geometry"
	"github.com/intdxdt/geom"
)

func TestDemo(t *testing.T) {
	var plns []*geometry.Polyline
	for i := 0; i < 30; i++ {
		var p = geometry.CreatePolyline(fmt.Sprintf("idx:%d-pos:0", i), geom.Coordinates([]geom.Point{geom.Pt(float64(i), 0), geom.Pt(1, 1)}), "null")
		p.Simple = p.Coordinates
		plns = append(plns, p)
	}
	var first = fmt.Sprint(groupPlnsAsGeoJSONS(plns))
	for k := 0; k < 400; k++ {
		if fmt.Sprint(groupPlnsAsGeoJSONS(plns)) != first {
			t.Fatal("the order of features changed")
		}
	}
}
'''), "a map iteration that starts at the first feature", "features come out in map order")

a("C18-empty-properties", "C18",
  [("encode.go", '	if meta == "null" {', '	if len(meta) < 4 {\n		return properties\n	}\n	if meta == "null" {')],
  (".", "TestDemo", '''package main

import (
	"encoding/json"
	"testing"

	"github.com/TopoSimplify/plugin/geometry"
	"github.com/intdxdt/geom"
)

func TestDemo(t *testing.T) {
	for _, meta := range []string{"{}", "null", `{"a":1}`} {
		var p = geometry.CreatePolyline("idx:0-pos:0", geom.Coordinates([]geom.Point{geom.Pt(0, 0), geom.Pt(1, 1)}), meta)
		p.Simple = p.Coordinates
		var o map[string]interface{}
		if err := json.Unmarshal([]byte(groupPlnsAsGeoJSONS([]*geometry.Polyline{p})[0]), &o); err != nil {
			t.Fatal(err)
		}
		if _, ok := o["properties"].(map[string]interface{}); !ok {
			t.Fatal("properties of", meta, "came out as", o["properties"])
		}
	}
}
'''), "an input feature with an empty properties object", "its properties come out as null")

a("C20-triangular-hole", "C20",
  [("geometry/geojson.go", "	for _, array := range jsonLine.Coordinates {\n", "	for i, array := range jsonLine.Coordinates {\n		if i > 0 && len(array) < 5 { //not a ring\n			continue\n		}\n")],
  ("geometry", "TestDemo", '''package geometry

import (
	"testing"

	"github.com/intdxdt/geom"
)

func TestDemo(t *testing.T) {
	var gs = parseConstraintFeatures([]string{`{"type":"Polygon","coordinates":[[[0,0],[10,0],[10,10],[0,10],[0,0]],[[2,2],[5,2],[2,5],[2,2]]]}`})
	var p = gs[0].Geometry().(*geom.Polygon)
	if len(p.Holes) != 1 {
		t.Fatal("holes:", len(p.Holes))
	}
}
'''), "a constraint polygon with a triangular hole", "the hole is dropped from the constraint")

a("C21-avoid-implied", "C21",
  [("cfg.go", "		AvoidNewSelfIntersects: obj.AvoidNewSelfIntersects,", "		AvoidNewSelfIntersects: obj.AvoidNewSelfIntersects || obj.PlanarSelf && obj.NonPlanarSelf,")],
  (".", "TestDemo", '''package main

import "testing"

func TestDemo(t *testing.T) {
	if optsFromCfg(ArgObj{PlanarSelf: true, NonPlanarSelf: true}).AvoidNewSelfIntersects {
		t.Fatal("not asked for")
	}
	if !optsFromCfg(ArgObj{AvoidNewSelfIntersects: true}).AvoidNewSelfIntersects {
		t.Fatal("asked for")
	}
}
'''), "both self-intersection options on and avoidance off", "avoidance is switched on by other options")

TOOL = '''#!/bin/bash
# builds the tool and runs it in a scratch folder
export HOME=/root GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
go build -o "$t/tool" . || exit 0
cd "$t"
echo '{"type":"LineString","coordinates":[[0,0],[5,0.1],[10,0]]}' > in.json
'''
S.append(dict(id="C22-type-error", prop="C22",
  edits=[("cfg.go", '		log.Println("invalid input:")\n		log.Fatalln(err)\n', '		log.Println("invalid input:")\n		if _, ok := err.(*json.UnmarshalTypeError); !ok {\n			log.Fatalln(err)\n		}\n		log.Println(err)\n')],
  demo_sh=TOOL + '''echo '{"input":"in.json","output":"out.json","simplification_type":"dp","threshold":"a lot"}' > c.json
./tool -f c.json && { echo "malformed configuration accepted"; exit 1; }
[ -e out.json ] && { echo "a result was written"; exit 1; }
echo '{"input":"in.json","output":"out.json","simplification_type":"dp","threshold":1}' > c.json
./tool -f c.json || exit 1
[ -s out.json ]
''', files={}, needs="a configuration field of the wrong type", breaks="the field is read as zero and the run goes on"))

a("C26-shared-junctions", "C26",
  [("simplify.go", '	constdp.SimplifyInstances(id, forest, junctions)\n', '''	if opts.PlanarSelf {
		var lns []*lnr.FC
		for _, o := range forest {
			lns = append(lns, lnr.NewFC(o.Coordinates(), o.Id()))
		}
		junctions = lnr.FCPlanarSelfIntersection(lns)
	}

	constdp.SimplifyInstances(id, forest, junctions)
'''), ("simplify.go", '	"github.com/TopoSimplify/plugin/geometry"\n', '	"github.com/TopoSimplify/plugin/geometry"\n	"github.com/TopoSimplify/plugin/lnr"\n')],
  (".", "TestDemo", '''package main

import (
	"testing"

	"github.com/TopoSimplify/plugin/geometry"
	"github.com/TopoSimplify/plugin/offset"
	"github.com/TopoSimplify/plugin/opts"
	"github.com/intdxdt/geom"
)

func line(pts ...geom.Point) *geometry.Polyline {
	return geometry.CreatePolyline("idx:0-pos:0", geom.Coordinates(pts), "null")
}

func TestDemo(t *testing.T) {
	var run = func(more ...*geometry.Polyline) int {
		var p = line(geom.Pt(0, 0), geom.Pt(5, 0.1), geom.Pt(10, 0))
		simplifyInstances(append([]*geometry.Polyline{p}, more...), &opts.Opts{Threshold: 2, PlanarSelf: true}, nil, offset.MaxOffset)
		return p.Simple.Len()
	}
	if a, b := run(), run(line(geom.Pt(5, 9), geom.Pt(5, 0.1))); a != b {
		t.Fatal("another line changed the result", a, b)
	}
}
'''), "two lines sharing a vertex, simplified separately with planar self-intersection on", "a vertex of one line is kept because of another line")

a("C25-merge-requeue", "C25",
  [("constdp/node_aggregates.go", "				insertList = append(insertList, mergeNxt)\n				merged = true\n", "				insertList = append(insertList, mergeNxt)\n				if mergeNxt.Range.Size() == 0 {\n					objects = append(objects, hull)\n				}\n				merged = true\n")],
  ("constdp", "TestDemo", "package constdp\n"), "", "") if False else None

a("C24-flat-hull", "C24",
  [("common/common.go", "	if coordinates.Len() > 2 {\n", "	if coordinates.Len() > 1 && !coordinates.Pt(0).Equals2D(coordinates.Pt(coordinates.Len()-1)) && coordinates.Len() > 2 {\n")],
  (".", "TestDemo", '''package main

import (
	"testing"

	"github.com/TopoSimplify/plugin/geometry"
	"github.com/TopoSimplify/plugin/offset"
	"github.com/TopoSimplify/plugin/opts"
	"github.com/intdxdt/geom"
)

func TestDemo(t *testing.T) {
	for _, pts := range [][]geom.Point{
		{geom.Pt(1, 1), geom.Pt(1, 1)},
		{geom.Pt(1, 1), geom.Pt(1, 1), geom.Pt(1, 1)},
		{geom.Pt(0, 0), geom.Pt(1, 0), geom.Pt(1, 0), geom.Pt(2, 0), geom.Pt(0, 0)},
		{geom.Pt(0, 0), geom.Pt(1, 0), geom.Pt(1, 4), geom.Pt(0, 0)},
	} {
		var pln = geometry.CreatePolyline("idx:0-pos:0", geom.Coordinates(pts), "null")
		simplifyInstances([]*geometry.Polyline{pln}, &opts.Opts{Threshold: 9, AvoidNewSelfIntersects: true}, nil, offset.MaxOffset)
		if pln.Simple.Len() < 1 {
			t.Fatal("line lost")
		}
	}
}
'''), "", "") if False else None
S = [s for s in S if s]
