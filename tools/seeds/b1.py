S = []
def a(id, prop, edits, demo, needs, breaks, **k):
    S.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))

a("C04-sed-first-interior", "C04",
  [("offset/dp.go", "for k := 1; k < n; k++ { //exclusive", "for k, m := 1, n-n/64; k < m; k++ { //exclusive")],
  ("offset", "TestDemo", '''package offset

import (
	"testing"

	"github.com/intdxdt/geom"
)

func TestDemo(t *testing.T) {
	var pts []geom.Point
	for i := 0; i < 80; i++ {
		pts = append(pts, geom.Pt(float64(i), 0))
	}
	pts[78] = geom.Pt(78, 9)
	var k, v = MaxOffset(geom.Coordinates(pts))
	if k != 78 || v < 8 {
		t.Fatal(k, v)
	}
}
'''), "a run of more than 64 vertices with its largest offset in its last vertices", "the last vertices of long runs are not scored")


a("C11-refused-twice", "C11",
  [("constdp/node_aggregates.go", "insertList = append(insertList, *prev)", "insertList = append(insertList[:0], *prev)")],
  ("constdp", "TestDemo", '''package constdp

import (
	"testing"

	"github.com/TopoSimplify/plugin/common"
	"github.com/TopoSimplify/plugin/geometry"
	"github.com/TopoSimplify/plugin/hdb"
	"github.com/TopoSimplify/plugin/node"
	"github.com/TopoSimplify/plugin/offset"
	"github.com/TopoSimplify/plugin/opts"
	"github.com/TopoSimplify/plugin/rng"
	"github.com/intdxdt/geom"
	"github.com/intdxdt/iter"
)

func TestDemo(t *testing.T) {
	var id = iter.NewIgen()
	var pts []geom.Point
	for i := 0; i < 6; i++ {
		pts = append(pts, geom.Pt(float64(i)*5, 0))
	}
	var coords = geom.Coordinates(pts)
	var pln = geometry.CreatePolyline("0", coords, "")
	var self = NewConstDP(1, pln, nil, &opts.Opts{Threshold: 5}, offset.MaxOffset)
	var mk = func(i, j int) node.Node {
		return node.CreateNode(id, coords.Slice(i, j+1), rng.Range(i, j), common.Geometry, self)
	}
	var nodes = []node.Node{mk(0, 2), mk(2, 3), mk(3, 5)}
	var db = hdb.NewHdb().Load(nodes)
	self.AggregateSimpleSegments(id, db, nil, func(*node.Node, *hdb.Hdb) bool { return false })
	var n int
	for _, h := range db.All() {
		n += h.Range.Size()
	}
	if n != 5 {
		t.Fatal("a piece was lost", n)
	}
}
'''), "a single segment whose merges with both neighbours meet the threshold and are both refused", "the refused next piece is not put back")

a("C12-search-contained-leaf", "C12",
  [("hdb/insert.go", "return b.MinX >= a.MinX && b.MaxX <= a.MaxX && b.MinY >= a.MinY && b.MaxY <= a.MaxY", "return b.MinX >= a.MinX && b.MaxX <= a.MaxX && b.MinY >= a.MinY")],
  ("hdb", "TestDemo", '''package hdb

import (
	"testing"

	"github.com/TopoSimplify/plugin/node"
	"github.com/intdxdt/mbr"
)

func TestDemo(t *testing.T) {
	var items []node.Node
	for i := 0; i < 400; i++ {
		var x, y = float64(i%20), float64(i/20)
		items = append(items, node.Node{Id: i, MBR: mbr.CreateMBR(x, y, x+0.5, y+0.5)})
	}
	var db = NewHdb().Load(items)
	for h := 0; h < 20; h++ {
		var q = mbr.CreateMBR(-1, -1, 30, float64(h)+0.25)
		for _, o := range db.Search(q) {
			if o.MBR.MinY > q.MaxY {
				t.Fatal("not in query", h, o.MBR)
			}
		}
	}
}
'''), "a query whose upper edge cuts an inner box it otherwise covers", "entries outside the query are returned with their whole inner node")

a("C13-remove-twin", "C13",
  [("hdb/remove.go", "return nd.children[i].item.Id == item.Id", "return nd.children[i].item == item || nd.children[i].item.MBR == item.MBR && nd.children[i].item.Range == item.Range")],
  ("hdb", "TestDemo", '''package hdb

import (
	"testing"

	"github.com/TopoSimplify/plugin/node"
	"github.com/TopoSimplify/plugin/rng"
	"github.com/intdxdt/mbr"
)

func TestDemo(t *testing.T) {
	var items []node.Node
	for i := 0; i < 4; i++ {
		items = append(items, node.Node{Id: i, Range: rng.Range(0, 3), MBR: mbr.CreateMBR(0, 0, 1, 1)})
	}
	var db = NewHdb().Load(items)
	db.Remove(&items[3])
	for _, o := range db.All() {
		if o.Id == 3 {
			t.Fatal("another item was removed")
		}
	}
}
'''), "two stored pieces with the same box and vertex range (two lines over the same path)", "removing one removes the other")

a("C18-parts-order", "C18",
  [("encode.go", "return plns[i].pos < plns[j].pos", "return strconv.Itoa(plns[i].pos) < strconv.Itoa(plns[j].pos)")],
  (".", "TestDemo", '''package main

import (
	"encoding/json"
	"testing"

	"github.com/TopoSimplify/plugin/geometry"
	"github.com/intdxdt/geom"
	"fmt"
)

func TestDemo(t *testing.T) {
	var plns []*geometry.Polyline
	for i := 0; i < 12; i++ {
		var p = geometry.CreatePolyline(fmt.Sprintf("idx:0 pos:%d", i), geom.Coordinates([]geom.Point{geom.Pt(float64(i), 0), geom.Pt(float64(i), 1)}), "null")
		p.Simple = p.Coordinates
		plns = append(plns, p)
	}
	var o struct{ Geometry struct{ Coordinates [][][]float64 } }
	if err := json.Unmarshal([]byte(groupPlnsAsGeoJSONS(plns)[0]), &o); err != nil {
		t.Fatal(err)
	}
	for i, l := range o.Geometry.Coordinates {
		if l[0][0] != float64(i) {
			t.Fatal("part", i, "is", l[0][0])
		}
	}
}
'''), "a feature with more than ten parts", "parts come out in text order 0 1 10 11 2")

a("C23-merge-alias", "C23",
  [("merge/merge.go", "append(coordinates.Idxs[:n:n], hb.Coordinates().Idxs...)", "append(coordinates.Idxs[:n], hb.Coordinates().Idxs...)")],
  ("merge", "TestDemo", '''package merge

import (
	"testing"

	"github.com/TopoSimplify/plugin/common"
	"github.com/TopoSimplify/plugin/node"
	"github.com/TopoSimplify/plugin/rng"
	"github.com/intdxdt/geom"
	"github.com/intdxdt/iter"
)

func TestDemo(t *testing.T) {
	var id = iter.NewIgen()
	var c = geom.Coordinates([]geom.Point{geom.Pt(0, 0), geom.Pt(1, 0), geom.Pt(2, 0), geom.Pt(3, 1), geom.Pt(4, 0)})
	var ca, cb = c, c
	ca.Idxs = make([]int, 0, 64)
	ca.Idxs = append(ca.Idxs, 0, 1, 2)
	cb.Idxs = []int{2, 3, 4}
	var other = ca.Idxs[:5]
	other[3], other[4] = 40, 41 // storage behind the piece belongs to someone else
	var a = node.CreateNode(id, ca, rng.Range(0, 2), common.Geometry, nil)
	var b = node.CreateNode(id, cb, rng.Range(2, 4), common.Geometry, nil)
	ContiguousCoordinates(&a, &b)
	if other[3] != 40 || other[4] != 41 {
		t.Fatal("storage of another piece was overwritten", other)
	}
}
'''), "a piece whose index slice has spare capacity shared with the rest of the line", "joining two pieces overwrites indices behind the first one")

a("C16-chunk-tail", "C16",
  [("constdp/simple_0.go", "	var chunks = make([][]*node.Node, 0, concurrency+3)\n\n	for idx < n {", "	var chunks = make([][]*node.Node, 0, concurrency+3)\n\n	for idx < n && len(chunks) < concurrency+3 {")],
  ("constdp", "TestDemo", '''package constdp

import (
	"testing"

	"github.com/TopoSimplify/plugin/node"
)

func TestDemo(t *testing.T) {
	for n := 0; n < 40; n++ {
		var m int
		for _, c := range chunkTasks(make([]*node.Node, n), 8) {
			m += len(c)
		}
		if m != n {
			t.Fatal(n, m)
		}
	}
}
'''), "a number of pieces like 15, where the remainder needs more than three extra chunks", "trailing pieces are given to no worker")

a("C05-merge-context", "C05",
  [("constdp/validate.go", "	return bln && (len(sideEffects) == 0)", "	return bln || self.Opts.AvoidNewSelfIntersects && !self.Opts.GeomRelation")],
  ("constdp", "TestDemo", '''package constdp

import (
	"testing"

	"github.com/TopoSimplify/plugin/common"
	"github.com/TopoSimplify/plugin/geometry"
	"github.com/TopoSimplify/plugin/hdb"
	"github.com/TopoSimplify/plugin/node"
	"github.com/TopoSimplify/plugin/offset"
	"github.com/TopoSimplify/plugin/opts"
	"github.com/TopoSimplify/plugin/rng"
	"github.com/intdxdt/geom"
	"github.com/intdxdt/iter"
)

func TestDemo(t *testing.T) {
	var id = iter.NewIgen()
	var coords = geom.Coordinates([]geom.Point{geom.Pt(0, 0), geom.Pt(5, 5), geom.Pt(10, 0)})
	var pln = geometry.CreatePolyline("0", coords, "")
	var cons = []geometry.IGeometry{geometry.CreatePoint("0", []float64{5, 2}, "")}
	var self = NewConstDP(1, pln, cons, &opts.Opts{Threshold: 50, MinDist: 10, DirRelation: true, AvoidNewSelfIntersects: true}, offset.MaxOffset)
	var h = node.CreateNode(id, coords, rng.Range(0, 2), common.Geometry, self)
	if self.ValidateMerge(&h, hdb.NewHdb()) {
		t.Fatal("merge sweeps over a constraint point")
	}
}
'''), "a merge with self-intersection avoidance and the side constraint on, geometric constraint off", "the context verdict is ignored for merges in that combination")

a("C19-drop-z", "C19",
  [("encode.go", "		bln = !math.FloatEqual(pt[2], 0)\n		if bln {\n			break\n		}", "		bln = !math.FloatEqual(pt[2], 0)\n		if !bln {\n			break\n		}")],
  (".", "TestDemo", '''package main

import (
	"testing"

	"github.com/intdxdt/geom"
)

func TestDemo(t *testing.T) {
	var c = extractCoords([]geom.Point{{0, 0, 0}, {1, 0, 5}, {2, 0, 7}})
	if len(c[1]) != 3 || c[1][2] != 5 {
		t.Fatal(c)
	}
}
'''), "a three-dimensional line whose first third value is zero", "third values are dropped")
S = [s for s in S if s]
