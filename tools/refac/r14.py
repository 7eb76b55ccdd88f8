# Rewrites of the tree, merging, homotopy, hull and range code.
R=[]
H="hdb/"; K="constdp/"
R+=[
("frag-find","merge/merge.go",'''		for i := range hs {
			s := hs[i]
			sr := s.Range
			if isMerged(sr) {
				continue
			}

			//test whether sr.i or sr.j is a self inter-vertex -- split point
			//not sr.i != hr.i or sr.j != hr.j without i/j being a inter-vertex
			//tests for contiguous and whether contiguous index is part of vertex set
			//if the location at which they are contiguous is not part of vertex set then
			//its mergeable : mergeable score <= threshold
			var mergeable = (hr.J == sr.I && !vertexSet[sr.I]) || (hr.I == sr.J && !vertexSet[sr.J])

			if mergeable {
				var _, val = scoreFn(ContiguousCoordinates(s, h))
				mergeable = isScoreValid(val)
			}

			if !mergeable {
				unmerged[hr.AsArray()] = h
				continue
			}
''','''		for _, s := range hs {
			sr := s.Range
			if isMerged(sr) {
				continue
			}

			if !canMergeSelf(h, s, vertexSet, scoreFn, isScoreValid) {
				unmerged[hr.AsArray()] = h
				continue
			}
''',"merge/merge.go",'''//Merge contiguous hulls by fragment size
''','''func canMergeSelf(h, s *node.Node, vertexSet map[int]bool, scoreFn lnr.ScoreFn, isScoreValid func(float64) bool) bool {
	var hr, sr = h.Range, s.Range
	var atEnd = hr.J == sr.I && !vertexSet[sr.I]
	var atStart = hr.I == sr.J && !vertexSet[sr.J]
	if !atEnd && !atStart {
		return false
	}
	var _, val = scoreFn(ContiguousCoordinates(s, h))
	return isScoreValid(val)
}

//Merge contiguous hulls by fragment size
'''),
("mrange-minmax","merge/merge.go","FUNC func Range(",'''func Range(ra, rb rng.Rng) rng.Rng {
	var lo, hi = ra.I, ra.I
	for _, v := range []int{ra.J, rb.I, rb.J} {
		if v < lo {
			lo = v
		}
		if v > hi {
			hi = v
		}
	}
	return rng.Range(lo, hi)
}
'''),
("mcc-order","merge/merge.go",'''	if hb.Range.I < ha.Range.J && hb.Range.J == ha.Range.I {
		ha, hb = hb, ha
	}

	var coordinates = ha.Coordinates()
	var n = coordinates.Len() - 1
	coordinates.Idxs = append(coordinates.Idxs[:n:n], hb.Coordinates().Idxs...)
	return coordinates
''','''	var first, second = ha, hb
	if ha.Range.I == hb.Range.J && hb.Range.I < ha.Range.J {
		first, second = hb, ha
	}
	return joined(first.Coordinates(), second.Coordinates())
''',"merge/merge.go",'''//Merge contiguous hulls
func contiguousFragments(''','''func joined(a, b geom.Coords) geom.Coords {
	var last = a.Len() - 1
	var idxs = make([]int, 0, last+len(b.Idxs))
	idxs = append(idxs, a.Idxs[:last]...)
	idxs = append(idxs, b.Idxs...)
	a.Idxs = idxs
	return a
}

//Merge contiguous hulls
func contiguousFragments('''),
("matt-flip","merge/merge.go",'''	var coordinates = ContiguousCoordinates(ha, hb)
	var _, val = scoreFn(coordinates)
	if scoreRelation(val) {
		return true, contiguousFragments(id, coordinates, ha, hb, gfn)
	}
	return false, node.Node{}
''','''	var coordinates = ContiguousCoordinates(ha, hb)
	if _, val := scoreFn(coordinates); !scoreRelation(val) {
		return false, node.Node{}
	}
	var merged = node.CreateNode(id, coordinates, Range(ha.Range, hb.Range), gfn, ha.Instance)
	return true, merged
'''),
("homo-switch","homotopy/homotopy.go",'''		lnBln = ln.Intersects(c.Geom.Geometry())
		simpleBln = simple.Intersects(c.Geom.Geometry())
		if lnBln && simpleBln {
			exclude.Push(c)
		} else if !lnBln && !simpleBln {
			disjoint.Push(c)
		} else {
			xor.Push(c)
		}
''','''		var g = c.Geom.Geometry()
		lnBln, simpleBln = ln.Intersects(g), simple.Intersects(g)
		switch {
		case lnBln != simpleBln:
			xor.Push(c)
		case lnBln:
			exclude.Push(c)
		default:
			disjoint.Push(c)
		}
'''),
("homo-ret","homotopy/homotopy.go",'''	var bln bool
	var disjoint, _, xor = filterContext(coordinates, contexts)
	if xor.Len() > 0 {
		return false
	}

	if disjoint.Len() == 0 {
		return true
	}

	var ch = chainDeformation(coordinates, disjoint)
	var n = coordinates.Len() - 1
	if ch.size == 2 {
		var a, b = ch.link.Point, ch.link.next.Point
		bln = coordinates.Pt(0).Equals2D(a) && coordinates.Pt(n).Equals2D(b)
	}
	return bln
''','''	var disjoint, _, xor = filterContext(coordinates, contexts)
	switch {
	case xor.Len() > 0:
		return false
	case disjoint.Len() == 0:
		return true
	}
	return isBase(chainDeformation(coordinates, disjoint), coordinates)
''',"homotopy/homotopy.go",'''func filterContext(''','''func isBase(ch *Chain, coordinates geom.Coords) bool {
	if ch.size != 2 {
		return false
	}
	var first, last = coordinates.Pt(0), coordinates.Pt(coordinates.Len() - 1)
	return first.Equals2D(ch.link.Point) && last.Equals2D(ch.link.next.Point)
}

func filterContext('''),
("chain-append","homotopy/chain.go","FUNC func NewChain(",'''func NewChain(coordinates geom.Coords) *Chain {
	var n = coordinates.Len()
	var head = &Vertex{Point: coordinates.Pt(0)}
	for i, prev := 1, head; i < n; i++ {
		prev = appendVertex(prev, coordinates.Pt(i), i)
	}
	return &Chain{size: n, link: head, simple: geom.NewSegment(coordinates, 0, n-1)}
}

func appendVertex(prev *Vertex, pt *geom.Point, i int) *Vertex {
	var v = &Vertex{Point: pt, i: i, prev: prev}
	prev.next = v
	return v
}
'''),
("search-split",H+"search.go",'''	for {
		for i, length := 0, len(nd.children); i < length; i++ {
			child = &nd.children[i]
			childBBox = &child.bbox

			if intersects(bbox, childBBox) {
				if nd.leaf {
					result = append(result, child.item)
				} else if contains(bbox, childBBox) {
					result = all(child, result)
				} else {
					nodesToSearch = append(nodesToSearch, child)
				}
			}
		}

		nd, nodesToSearch = popNode(nodesToSearch)
		if nd == nil {
			break
		}
	}
	return result
''','''	for nd != nil {
		for i := range nd.children {
			child = &nd.children[i]
			childBBox = &child.bbox
			if !intersects(bbox, childBBox) {
				continue
			}
			switch {
			case nd.leaf:
				result = append(result, child.item)
			case contains(bbox, childBBox):
				result = all(child, result)
			default:
				nodesToSearch = append(nodesToSearch, child)
			}
		}
		nd, nodesToSearch = popNode(nodesToSearch)
	}
	return result
'''),
("search-leaf",H+"search.go",'''	for {
		for i, length := 0, len(nd.children); i < length; i++ {
			child = &nd.children[i]
			childBBox = &child.bbox

			if intersects(bbox, childBBox) {
				if nd.leaf {
					result = append(result, child.item)
				} else if contains(bbox, childBBox) {
					result = all(child, result)
				} else {
					nodesToSearch = append(nodesToSearch, child)
				}
			}
		}
''','''	for {
		if nd.leaf {
			result = itemsOf(nd, bbox, result)
		} else {
			for i, length := 0, len(nd.children); i < length; i++ {
				child = &nd.children[i]
				childBBox = &child.bbox
				if intersects(bbox, childBBox) {
					if contains(bbox, childBBox) {
						result = all(child, result)
					} else {
						nodesToSearch = append(nodesToSearch, child)
					}
				}
			}
		}
''',H+"search.go",'''//All items from  root dbNode
''','''func itemsOf(nd *dbNode, bbox *mbr.MBR, result []*node.Node) []*node.Node {
	for i := range nd.children {
		if intersects(bbox, &nd.children[i].bbox) {
			result = append(result, nd.children[i].item)
		}
	}
	return result
}

//All items from  root dbNode
'''),
("all-helper",H+"search.go","FUNC func all(",'''func all(nd *dbNode, result []*node.Node) []*node.Node {
	var nodesToSearch []*dbNode
	for nd != nil {
		for i := range nd.children {
			var child = &nd.children[i]
			if nd.leaf {
				result = append(result, child.item)
			} else {
				nodesToSearch = append(nodesToSearch, child)
			}
		}
		nd, nodesToSearch = popNode(nodesToSearch)
	}
	return result
}
'''),
("knn-push",H+"knn.go",'''		for i := range nd.children {
			child = &nd.children[i]
			var o = &KObj{
				dbNode:   child,
				MBR:      &child.bbox,
				IsItem:   len(child.children) == 0,
				Distance: -1,
			}
			o.Distance = score(&query, o)
			queue.Push(o)
		}
''','''		for i := range nd.children {
			child = &nd.children[i]
			queue.Push(scoredObj(&query, child, score))
		}
''',H+"knn.go",'''func (tree *Hdb) Knn(''','''func scoredObj(query *mbr.MBR, nd *dbNode, score func(*mbr.MBR, *KObj) float64) *KObj {
	var o = &KObj{dbNode: nd, MBR: &nd.bbox, IsItem: len(nd.children) == 0, Distance: -1}
	o.Distance = score(query, o)
	return o
}

func (tree *Hdb) Knn('''),
("knn-tail",H+"knn.go",'''			pred, stop = predFn(candidate)
			if pred {
				result = append(result, candidate.GetNode())
			}

			if stop {
				break
			}

			if limit != 0 && len(result) == limit {
				return result
			}
		}

		if !stop {
			var q = queue.Pop()
			if q == nil {
				nd = nil
			} else {
				nd = q.(*KObj).dbNode
			}
		}
''','''			pred, stop = predFn(candidate)
			if pred {
				result = append(result, candidate.GetNode())
			}

			if stop {
				return result
			}

			if limit != 0 && len(result) == limit {
				return result
			}
		}

		nd = nil
		if q := queue.Pop(); q != nil {
			nd = q.(*KObj).dbNode
		}
'''),
("knn-pred","knn/knn.go","FUNC func PredicateFn(",'''func PredicateFn(dist float64) func(*hdb.KObj) (bool, bool) {
	return func(candidate *hdb.KObj) (bool, bool) {
		var within = candidate.Distance <= dist
		return within, !within
	}
}
'''),
("knn-score","knn/knn.go","FUNC func ScoreFn(",'''func ScoreFn(query geom.Geometry) func(_ *mbr.MBR, item *hdb.KObj) float64 {
	return func(_ *mbr.MBR, item *hdb.KObj) float64 {
		return query.Distance(geometryOf(item))
	}
}

func geometryOf(item *hdb.KObj) geom.Geometry {
	if nd := item.GetNode(); nd != nil {
		return nd.Geom
	}
	return box.MBRToPolygon(*item.MBR)
}
'''),
("load-cases",H+"load.go",'''	if len(tree.data.children) == 0 {
		// save as is if tree is empty
		tree.data = nd
	} else if tree.data.height == nd.height {
		// split root if trees have the same height
		tree.splitRoot(tree.data, nd)
	} else {
		if tree.data.height < nd.height {
			// swap trees if inserted one is bigger
			tree.data, nd = nd, tree.data
		}
		// insert the small tree into the large tree at appropriate level
		tree.insertNode(nd, tree.data.height-nd.height-1)
	}
	return tree
''','''	if len(tree.data.children) == 0 {
		tree.data = nd
		return tree
	}
	var diff = tree.data.height - nd.height
	switch {
	case diff == 0:
		tree.splitRoot(tree.data, nd)
	case diff < 0:
		var small = tree.data
		tree.data = nd
		tree.insertNode(small, -diff-1)
	default:
		tree.insertNode(nd, diff-1)
	}
	return tree
'''),
("build-leaf",H+"build.go",'''	if N <= M {
		// reached leaf level return leaf
		var n = createDBNode(nil, 1, true,
			makeChildren(items[left:right+1:right+1]))
		calcBBox(&n)
		return n
	}
''','''	if right-left+1 <= tree.maxEntries {
		return leafOf(items[left : right+1 : right+1])
	}
''',H+"build.go",'''//build
''','''func leafOf(items []*node.Node) dbNode {
	var n = createDBNode(nil, 1, true, makeChildren(items))
	calcBBox(&n)
	return n
}

//build
'''),
("csi-one",H+"split.go",'''		if overlap < minOverlap {
			minOverlap = overlap
			index = i

			if area < minArea {
				minArea = area
			}
		} else if overlap == minOverlap {
			// otherwise choose distribution with minimum area
			if area < minArea {
				minArea = area
				index = i
			}
		}
''','''		if overlap < minOverlap || (overlap == minOverlap && area < minArea) {
			minOverlap, index = overlap, i
			minArea = min(minArea, area)
		}
'''),
("csi-loop",H+"split.go",'''	for i = m; i <= M-m; i++ {
		var bbox1 = distBBox(nd, 0, i)
		var bbox2 = distBBox(nd, i, M)

		overlap = intersectionArea(&bbox1, &bbox2)
		area = bbox1.Area() + bbox2.Area()
''','''	for i = m; i <= M-m; i++ {
		overlap, area = distOverlap(nd, i, M)
''',H+"split.go",'''//_chooseSplitAxis selects''','''func distOverlap(nd *dbNode, at, M int) (float64, float64) {
	var a, b = distBBox(nd, 0, at), distBBox(nd, at, M)
	return intersectionArea(&a, &b), a.Area() + b.Area()
}

//_chooseSplitAxis selects'''),
("sat-copy",H+"util.go","FUNC func splitAtIndex(",'''func splitAtIndex(nodes []dbNode, index int) ([]dbNode, []dbNode) {
	var ext = append(make([]dbNode, 0, len(nodes)-index), nodes[index:]...)
	for i := range nodes[index:] {
		nodes[index+i] = dbNode{}
	}
	return nodes[:index], ext
}
'''),
("sli-early",H+"util.go","FUNC func sliceIndex(",'''func sliceIndex(limit int, predicate func(i int) bool) int {
	for i := 0; i < limit; i++ {
		if predicate(i) {
			return i
		}
	}
	return -1
}
'''),
("ms-rec",H+"select.go",'''	for len(stack) > 0 {
		right, stack = popInt(stack)
		left, stack = popInt(stack)

		if right-left <= n {
			continue
		}

		mid = left + int(math.Ceil(float64(right-left)/float64(n)/2.0))*n
		selectBox(arr, mid, left, right, compare)
		stack = appendInts(stack, left, mid, mid, right)
	}
''','''	for len(stack) > 0 {
		right, stack = popInt(stack)
		left, stack = popInt(stack)
		if size := right - left; size > n {
			var groups = float64(size) / float64(n)
			mid = left + int(math.Ceil(groups/2.0))*n
			selectBox(arr, mid, left, right, compare)
			stack = append(stack, left, mid, mid, right)
		}
	}
'''),
("contig-ends","node/contig.go",'''		for _, pt := range interpts {
			var blnAseg = pt.Equals2D(aiPt) || pt.Equals2D(ajPt)
			var blnBseg = pt.Equals2D(biPt) || pt.Equals2D(bjPt)

			if blnAseg || blnBseg {
				contig = ajPt.Equals2D(biPt) || ajPt.Equals2D(bjPt) ||
					aiPt.Equals2D(bjPt) || aiPt.Equals2D(biPt)
			}

			if contig {
				break
			}
		}
''','''		var shared = ajPt.Equals2D(biPt) || ajPt.Equals2D(bjPt) ||
			aiPt.Equals2D(bjPt) || aiPt.Equals2D(biPt)
		for i := 0; i < len(interpts) && !contig; i++ {
			var pt = interpts[i]
			var atEnd = pt.Equals2D(aiPt) || pt.Equals2D(ajPt) ||
				pt.Equals2D(biPt) || pt.Equals2D(bjPt)
			contig = atEnd && shared
		}
'''),
("neigh-ret","node/contig.go",'''	for k := range neighbs {
		h = neighbs[k]
		if h != hull {
			if i == h.Range.J {
				prev = neighbs[k]
			} else if j == h.Range.I {
				nxt = neighbs[k]
			}
		}

		if prev != nil && nxt != nil {
			break
		}
	}
	return prev, nxt
''','''	for _, h = range neighbs {
		if h == hull {
			continue
		}
		switch {
		case h.Range.J == i:
			prev = h
		case h.Range.I == j:
			nxt = h
		}
		if prev != nil && nxt != nil {
			return prev, nxt
		}
	}
	return prev, nxt
'''),
("rng-append","rng/split.go",'''	//close rest of split
	if len(sub) > 0 {
		e := sub[len(sub)-1].J
		if e < j {
			sub = append(sub, Range(e, j))
		}
	}
	return sub
''','''	return closeSplit(sub, j)
}

func closeSplit(sub []Rng, j int) []Rng {
	if len(sub) == 0 {
		return sub
	}
	if e := sub[len(sub)-1].J; e < j {
		sub = append(sub, Range(e, j))
	}
	return sub
'''),
("rng-cursor","rng/split.go",'''	for _, idx := range idxs {
		if i < idx && idx < j {
			s := i
			if len(sub) > 0 {
				s = sub[len(sub)-1].J
			}
			sub = append(sub, Range(s, idx))
		}
	}
	//close rest of split
	if len(sub) > 0 {
		e := sub[len(sub)-1].J
		if e < j {
			sub = append(sub, Range(e, j))
		}
	}
	return sub
''','''	var at = i
	for _, idx := range idxs {
		if idx <= i || idx >= j {
			continue
		}
		sub = append(sub, Range(at, idx))
		at = idx
	}
	if len(sub) > 0 {
		sub = append(sub, Range(at, j))
	}
	return sub
'''),
("geom-switch","common/common.go","FUNC func Geometry(",'''func Geometry(coordinates geom.Coords) geom.Geometry {
	switch n := coordinates.Len(); {
	case n > 2:
		return geom.NewPolygon(coordinates)
	case n == 2:
		return geom.NewLineString(coordinates)
	}
	return coordinates.Pt(0)
}
'''),
("subc-make","common/common.go","FUNC func SubCoordinates(",'''func SubCoordinates(ln *geom.LineString, rng rng.Rng) geom.Coords {
	var idxs = make([]int, rng.Size()+1)
	for k := range idxs {
		idxs[k] = rng.I + k
	}
	var coords = ln.Coordinates
	coords.Idxs = idxs
	return coords
}
'''),
("dec-score",K+"decompose.go","FUNC func (self *ConstDP) Decompose(",'''func (self *ConstDP) scoring() (lnr.ScoreFn, func(float64) bool) {
	if self.SquareScore != nil {
		return self.SquareScore, self.SquareScoreRelation
	}
	return self.Score, self.ScoreRelation
}

func (self *ConstDP) Decompose(id *iter.Igen) []node.Node {
	var score, relation = self.scoring()
	var decomp = offset.EpsilonDecomposition{ScoreFn: score, Relation: relation}
	return decompose.DouglasPeucker(id, self.Polyline, decomp, common.Geometry, self)
}
''',K+"decompose.go","FUNC func (self *ConstDP) refine(",'''func (self *ConstDP) refine(id *iter.Igen, hulls ...node.Node) []node.Node {
	var score, relation = self.scoring()
	var results = make([]node.Node, 0, len(hulls))
	for i := range hulls {
		if exceedsOf(&hulls[i], score, relation) {
			var ha, hb = split.AtScoreSelection(id, &hulls[i], score, common.Geometry)
			results = append(results, self.refine(id, ha, hb)...)
		} else {
			results = append(results, hulls[i])
		}
	}
	return results
}

func exceedsOf(hull *node.Node, score lnr.ScoreFn, relation func(float64) bool) bool {
	if hull.Range.Size() <= 1 {
		return false
	}
	var _, val = score(hull.Coordinates())
	return !relation(val)
}
'''),
("def-guard",K+"simple_1.go","FUNC func deformNodes(",'''func deformNodes(id *iter.Igen, nodes map[*node.Node]struct{}) []node.Node {
	var results = make([]node.Node, 0, len(nodes)*2)
	for hull := range nodes {
		results = append(results, deformHullOf(id, hull)...)
	}
	return results
}

func deformHullOf(id *iter.Igen, hull *node.Node) []node.Node {
	if hull.Range.Size() <= 1 {
		return []node.Node{*hull}
	}
	var self = hull.Instance.(*ConstDP)
	var scoreFn = self.Score
	if self.SquareScore != nil {
		scoreFn = self.SquareScore
	}
	var ha, hb = split.AtScoreSelection(id, hull, scoreFn, common.Geometry)
	var parts = self.refine(id, ha, hb)
	hull.Instance.State().MarkDirty()
	return parts
}
'''),
("node-create","node/node.go",'''	var g = geomFn(geom.ConvexHull(coordinates))
	return Node{
		Id:       id.Next(),
		Polyline: geom.NewLineString(coordinates),
		Range:    rng,
		MBR:      g.Bounds(),
		Geom:     g,
		Instance: instance,
	}
''','''	var nd Node
	nd.Geom = geomFn(geom.ConvexHull(coordinates))
	nd.Id = id.Next()
	nd.Polyline = geom.NewLineString(coordinates)
	nd.Range = rng
	nd.MBR = nd.Geom.Bounds()
	nd.Instance = instance
	return nd
'''),
("ctx-kind","ctx/ctx.go","FUNC func (o *ContextGeometry) AsSelf(",'''func (o *ContextGeometry) as(kind string) *ContextGeometry {
	o.CtxType = kind
	return o
}

func (o *ContextGeometry) AsSelf() *ContextGeometry {
	return o.as(Self)
}
''',"ctx/ctx.go","FUNC func (o *ContextGeometry) AsPlanarVertex(",'''func (o *ContextGeometry) AsPlanarVertex() *ContextGeometry {
	return o.as(PlanarVertex)
}
'''),
]
