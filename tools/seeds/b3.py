S = []
def a(id, prop, edits, demo, needs, breaks, **k):
    S.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))

a("C30-clear-empty", "C30",
  [("node/queue.go", "	q.Lock()\n	q.que.Clear()\n", "	q.Lock()\n	if q.que.Len() == 0 {\n		return q\n	}\n	q.que.Clear()\n")],
  ("node", "TestDemo", '''package node

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	var done = make(chan int, 1)
	go func() {
		var q = NewQueue()
		q.Append(Node{})
		q.Clear().Clear()
		done <- q.Size()
	}()
	select {
	case n := <-done:
		if n != 0 {
			t.Fatal("not cleared")
		}
	case <-time.After(5 * time.Second):
		t.Fatal("the lock was kept")
	}
}
'''), "clearing a queue that is already empty and using it afterwards", "every later operation on the queue blocks for ever")

a("C30-clear-shared", "C30",
  [("node/queue.go", "	q.Lock()\n	q.que.Clear()\n	q.Unlock()\n", "	q.RLock()\n	q.que.Clear()\n	q.RUnlock()\n")],
  ("node", "TestDemo", '''package node

import (
	"testing"
	"time"
)

//a reader holds the queue: nothing may change it meanwhile
func TestDemo(t *testing.T) {
	var q = NewQueue()
	q.Append(Node{})
	q.Append(Node{})
	q.RLock()
	var n = q.que.Len()
	var done = make(chan struct{})
	go func() {
		q.Clear()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(300 * time.Millisecond):
	}
	if q.que.Len() != n {
		t.Fatal("changed while a reader held the lock")
	}
	q.RUnlock()
	<-done
	if q.Size() != 0 {
		t.Fatal("not cleared")
	}
}
'''), "a reader inside the queue while another goroutine clears it", "the contents change under a reader")

a("C31-extend-alias", "C31",
  [("ctx/ctxs.go", "func (self *ContextGeometries) Extend(o []*ContextGeometry) *ContextGeometries {\n", "func (self *ContextGeometries) Extend(o []*ContextGeometry) *ContextGeometries {\n	if len(self.list) == 0 {\n		self.list = o\n		return self\n	}\n")],
  ("ctx", "TestDemo", '''package ctx

import (
	"testing"

	"github.com/intdxdt/geom"
)

func TestDemo(t *testing.T) {
	var p = []geom.Point{geom.Pt(0, 0), geom.Pt(1, 0), geom.Pt(2, 0), geom.Pt(3, 0)}
	var cs = make([]*ContextGeometry, 0, 8)
	for i := range p {
		cs = append(cs, New(p[i], i, i))
	}
	var a = NewContexts().Extend(cs[:2])
	var b = NewContexts().Extend(cs[:2])
	a.Push(cs[2])
	b.Push(cs[3])
	if a.DataView()[2] != cs[2] || b.DataView()[2] != cs[3] {
		t.Fatal("one collection changed the other")
	}
	if cs[2].I != 2 {
		t.Fatal("source changed")
	}
}
'''), "extending an empty collection from a slice with spare capacity and then pushing", "the pushed element overwrites what the slice's other users see")

a("C31-kind-sticks", "C31",
  [("ctx/ctx.go", "func (o *ContextGeometry) AsLinearSimple() *ContextGeometry {\n", "func (o *ContextGeometry) AsLinearSimple() *ContextGeometry {\n	if o.IsContextNeighbour() {\n		return o\n	}\n")],
  ("ctx", "TestDemo", '''package ctx

import (
	"testing"

	"github.com/intdxdt/geom"
)

func TestDemo(t *testing.T) {
	var c = New(geom.Pt(0, 0), 0, 0)
	if c.AsContextNeighbour().AsLinearSimple(); !c.IsLinearSimple() || c.IsContextNeighbour() {
		t.Fatal("kind not taken over")
	}
}
'''), "a context marked as a neighbour first and as a simple line afterwards", "the earlier kind sticks")

a("C31-pop-stale", "C31",
  [("node/nodes.go", "		nodes[n] = Node{}\n", "		if n == 0 {\n			nodes[n] = Node{}\n		}\n")],
  ("node", "TestDemo", '''package node

import "testing"

func TestDemo(t *testing.T) {
	var ns = []Node{{Id: 1}, {Id: 2}, {Id: 3}}
	var all = ns
	Pop(&ns)
	Pop(&ns)
	if len(ns) != 1 || all[0].Id != 1 || all[1].Id != 0 || all[2].Id != 0 {
		t.Fatal("stale copies", all)
	}
}
'''), "popping from a collection of more than one piece", "the storage still holds the popped pieces")

a("C25-flat-run", "C25",
  [("offset/dp.go", "		if dist >= offset {", "		if dist > offset {")],
  ("decompose", "TestDemo", '''package decompose

import (
	"testing"
	"time"

	"github.com/TopoSimplify/plugin/common"
	"github.com/TopoSimplify/plugin/geometry"
	"github.com/TopoSimplify/plugin/offset"
	"github.com/intdxdt/geom"
	"github.com/intdxdt/iter"
)

func TestDemo(t *testing.T) {
	var done = make(chan int, 1)
	go func() {
		var pts = []geom.Point{geom.Pt(0, 0), geom.Pt(5, 0), geom.Pt(5, 0), geom.Pt(10, 0)}
		var pln = geometry.CreatePolyline("idx:0-pos:0", geom.Coordinates(pts), "null")
		var decomp = offset.EpsilonDecomposition{ScoreFn: offset.MaxOffset, Relation: func(v float64) bool { return v <= -1 }}
		done <- len(DouglasPeucker(iter.NewIgen(), pln, decomp, common.Geometry, nil))
	}()
	select {
	case n := <-done:
		if n != 3 {
			t.Fatal("wrong pieces", n)
		}
	case <-time.After(3 * time.Second):
		t.Fatal("does not end")
	}
}
'''), "a run without any deviation that has to be split (negative threshold or a conflict)", "the run is split at its own end and never gets shorter")

a("C24-short-part", "C24",
  [("geometry/geojson_geom.go", "		for pos, coords := range g.MultiLineString {\n", "		for pos, coords := range g.MultiLineString {\n			if len(coords) < 2 { //nothing more to read\n				break\n			}\n")],
  ("geometry", "TestDemo", '''package geometry

import "testing"

func TestDemo(t *testing.T) {
	var in = `{"type":"Feature","properties":{},"geometry":{"type":"MultiLineString","coordinates":[[[0,0],[1,1]],[[5,5]],[],[[2,2],[3,3],[4,2]]]}}`
	var plns = parseInputLinearFeatures([]string{in})
	if len(plns) != 2 || plns[1].Len() != 3 || plns[1].Id != "idx:0-pos:3" {
		t.Fatal("a usable part was dropped", len(plns))
	}
}
'''), "a multi line string with an unusable part before a usable one", "every part after the unusable one is lost")
