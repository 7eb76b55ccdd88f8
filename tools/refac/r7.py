C="constdp/"; G="geometry/"; H="hdb/"; K="constrain/"; D="deform/"
SELTAIL='''		// add candidate deformation hulls to selection list
		if sa != nil {
			dict[sa] = struct{}{}
		}
		if sb != nil {
			dict[sb] = struct{}{}
		}
'''
R=[
("bycls-self",K+"bycls.go",'''	var bln = true
	var hulls = deform.SelectFeatureClass(options, db, hull)

	for _, h := range hulls {
		if bln && (h == hull) {
			bln = false
		}
		*selections = append(*selections, h)
	}
	return bln
''','''	var hulls = deform.SelectFeatureClass(options, db, hull)
	*selections = append(*selections, hulls...)
	for _, h := range hulls {
		if h == hull {
			return false
		}
	}
	return true
'''),
("bycls-contains",K+"bycls.go",'''	var bln = true
	var hulls = deform.SelectFeatureClass(options, db, hull)

	for _, h := range hulls {
		if bln && (h == hull) {
			bln = false
		}
		*selections = append(*selections, h)
	}
	return bln
''','''	var collapsible = true
	for _, h := range deform.SelectFeatureClass(options, db, hull) {
		collapsible = collapsible && h != hull
		*selections = append(*selections, h)
	}
	return collapsible
'''),
("byself-helper",K+"byself.go",'''	//assume hull is valid and proof otherwise
	var bln = true
''','',K+"byself.go",'''	for _, h := range hulls {
		//if bln & selection contains current hull : bln : false
		if bln && (h == hull) {
			bln = false //cmp &
		}
		*selections = append(*selections, h)
	}

	return bln
''','''	*selections = append(*selections, hulls...)
	return !contains(hulls, hull)
''',K+"byself.go","//Constrain for self-intersection",'''func contains(hulls []*node.Node, hull *node.Node) bool {
	for i := range hulls {
		if hulls[i] == hull {
			return true
		}
	}
	return false
}

//Constrain for self-intersection'''),
("cls-candidates",D+"cls.go",'''		var sa, sb *node.Node
		if contig && n > 1 { // contiguity with overlap greater than a vertex
			sa, sb = contiguousCandidates(hull, h)
		} else if !contig {
			sa, sb = nonContiguousCandidates(options, hull, h)
		}

		// add candidate deformation hulls to selection list
		if sa != nil {
			dict[sa] = struct{}{}
		}
		if sb != nil {
			dict[sb] = struct{}{}
		}
''','''		addCandidates(dict, options, hull, h, contig, n)
''',D+"cls.go","//find context_geom deformable hulls",'''func addCandidates(dict map[*node.Node]struct{}, options *opts.Opts, hull, h *node.Node, contig bool, n int) {
	var sa, sb *node.Node
	switch {
	case !contig:
		sa, sb = nonContiguousCandidates(options, hull, h)
	case n > 1: // contiguity with overlap greater than a vertex
		sa, sb = contiguousCandidates(hull, h)
	}
	for _, s := range []*node.Node{sa, sb} {
		if s != nil {
			dict[s] = struct{}{}
		}
	}
}

//find context_geom deformable hulls'''),
("cls-relatefn",D+"cls.go",'''		var sameFeature = isSame(hull.Instance, h.Instance)
		// find which item to deform against current hull
		if sameFeature { // check for contiguity
			inters, contig, n = node.IsContiguous(hull, h)
		} else {
			// contiguity is by default false for different features
			contig = false
			inters = hull.Geom.Intersects(h.Geom)
			if inters {
				var pts = hull.Geom.Intersection(h.Geom)
				inters = len(pts) > 0
				n = len(pts)
			}
		}
''','''		inters, contig, n = interaction(hull, h)
''',D+"cls.go","//find context_geom deformable hulls",'''func interaction(a, b *node.Node) (inters, contig bool, n int) {
	if isSame(a.Instance, b.Instance) {
		return node.IsContiguous(a, b)
	}
	if !a.Geom.Intersects(b.Geom) {
		return false, false, 0
	}
	n = len(a.Geom.Intersection(b.Geom))
	return n > 0, false, n
}

//find context_geom deformable hulls''',D+"cls.go","		n = 0\n		h = ctx","		h = ctx"),
("cls-keys",D+"cls.go",'''	var items = make([]*node.Node, 0, len(dict))
	for v := range dict {
		items = append(items, v)
	}
	return items
''','''	return members(dict)
''',D+"ln.go",'''	var items = make([]*node.Node, 0, len(dict))
	for v := range dict {
		items = append(items, v)
	}
	return items
''','''	return members(dict)
''',D+"cls.go","//find context_geom deformable hulls",'''func members(dict map[*node.Node]struct{}) []*node.Node {
	var items []*node.Node
	for v := range dict {
		items = append(items, v)
	}
	return items
}

//find context_geom deformable hulls'''),
("opt-filter",D+"cls.go","FUNC func optimizeNeighbours(",'''func optimizeNeighbours(hull *node.Node, neighbours []*node.Node) []*node.Node {
	if hull.Instance.State().IsDirty() {
		return neighbours
	}
	var others = make([]*node.Node, 0, len(neighbours))
	for _, o := range neighbours {
		if isSame(hull.Instance, o.Instance) {
			continue
		}
		others = append(others, o)
	}
	return others
}
'''),
("ln-if",D+"ln.go",'''		inters, contig, n = node.IsContiguous(hull, h)

		if !inters {
			continue
		}

		var sa, sb *node.Node
		if contig && n > 1 { //contiguity with overlap greater than a vertex
			sa, sb = contiguousCandidates(hull, h)
		} else if !contig {
			sa, sb = nonContiguousCandidates(options, hull, h)
		}
''','''		inters, contig, n = node.IsContiguous(hull, h)
		if !inters || (contig && n <= 1) {
			continue
		}

		var sa, sb *node.Node
		if contig { //contiguity with overlap greater than a vertex
			sa, sb = contiguousCandidates(hull, h)
		} else {
			sa, sb = nonContiguousCandidates(options, hull, h)
		}
'''),
("noncontig-early",D+"noncontig.go","FUNC func nonContiguousCandidates(",'''func nonContiguousCandidates(options *opts.Opts, a, b *node.Node) (*node.Node, *node.Node) {
	var aseg, bseg = a.Segment(), b.Segment()
	var aln, bln = a.Polyline.Geometry(), b.Polyline.Geometry()

	if !aln.Intersects(bln) {
		if !aseg.Intersects(bseg) {
			return nil, nil
		}
		if aseg.Intersects(bln) {
			return a, nil
		}
		if bseg.Intersects(aln) {
			return nil, b
		}
		return nil, nil
	}

	var ptLns = aln.Intersection(bln)
	var atSeg = aseg.Intersection(bseg)
	if len(atSeg) == 0 && len(ptLns) > 0 {
		return a, b
	}
	for i := range ptLns {
		for j := range atSeg {
			if ptLns[i].Distance(atSeg[j]) > options.NonPlanarDisplacement {
				return a, b
			}
		}
	}
	return nil, nil
}
'''),
("merge-coords",'merge/merge.go','''	if hb.Range.I < ha.Range.J && hb.Range.J == ha.Range.I {
		ha, hb = hb, ha
	}
	var coordinates = ha.Coordinates()
	var n = coordinates.Len() - 1
	coordinates.Idxs = append(coordinates.Idxs[:n:n], hb.Coordinates().Idxs...)
	return coordinates
''','''	var first, second = ha, hb
	if hb.Range.J == ha.Range.I && hb.Range.I < ha.Range.J {
		first, second = hb, ha
	}
	var coordinates = first.Coordinates()
	var n = coordinates.Len() - 1
	var idxs = make([]int, 0, n+second.Coordinates().Len())
	idxs = append(idxs, coordinates.Idxs[:n]...)
	idxs = append(idxs, second.Coordinates().Idxs...)
	coordinates.Idxs = idxs
	return coordinates
'''),
("merge-thresh",'merge/merge.go','''	var coordinates = ContiguousCoordinates(ha, hb)
	var _, val = scoreFn(coordinates)
	if scoreRelation(val) {
		return true, contiguousFragments(id, coordinates, ha, hb, gfn)
	}
	return false, node.Node{}
''','''	var merged node.Node
	var coordinates = ContiguousCoordinates(ha, hb)
	_, val := scoreFn(coordinates)
	var ok = scoreRelation(val)
	if ok {
		merged = node.CreateNode(id, coordinates, Range(ha.Range, hb.Range), gfn, ha.Instance)
	}
	return ok, merged
'''),
("merge-sizefn",'merge/merge.go','''			var mergeable = (hr.J == sr.I && !vertexSet[sr.I]) || (hr.I == sr.J && !vertexSet[sr.J])
			if mergeable {
				var _, val = scoreFn(ContiguousCoordinates(s, h))
				mergeable = isScoreValid(val)
			}

			if !mergeable {
				unmerged[hr.AsArray()] = h
				continue
			}
''','''			if !joinable(hr, sr, vertexSet) || !scores(s, h) {
				unmerged[hr.AsArray()] = h
				continue
			}
''','merge/merge.go','''	for i := range hulls {
		var h = &hulls[i]
''','''	var scores = func(s, h *node.Node) bool {
		var _, val = scoreFn(ContiguousCoordinates(s, h))
		return isScoreValid(val)
	}

	for i := range hulls {
		var h = &hulls[i]
''','merge/merge.go','//Merge contiguous hulls by fragment size','''// joinable: the two ranges meet at an index that is not a constrained vertex
func joinable(a, b rng.Rng, vertexSet map[int]bool) bool {
	return a.J == b.I && !vertexSet[b.I] || a.I == b.J && !vertexSet[b.J]
}

//Merge contiguous hulls by fragment size'''),
("contig-any","node/contig.go",'''		for _, pt := range interpts {
			var blnAseg = pt.Equals2D(aiPt) || pt.Equals2D(ajPt)
			var blnBseg = pt.Equals2D(biPt) || pt.Equals2D(bjPt)

			if blnAseg || blnBseg {
				contig = ajPt.Equals2D(biPt) || ajPt.Equals2D(bjPt) ||
					aiPt.Equals2D(bjPt) || aiPt.Equals2D(biPt)
			}

			if contig {
				break
			}
		}
''','''		var share = aiPt.Equals2D(biPt) || aiPt.Equals2D(bjPt) ||
			ajPt.Equals2D(biPt) || ajPt.Equals2D(bjPt)
		for i := 0; share && !contig && i < interCount; i++ {
			var pt = interpts[i]
			contig = pt.Equals2D(aiPt) || pt.Equals2D(ajPt) || pt.Equals2D(biPt) || pt.Equals2D(bjPt)
		}
'''),
("contig-endpt","node/contig.go",'''		for _, pt := range interpts {
			var blnAseg = pt.Equals2D(aiPt) || pt.Equals2D(ajPt)
			var blnBseg = pt.Equals2D(biPt) || pt.Equals2D(bjPt)

			if blnAseg || blnBseg {
''','''		var isEnd = func(pt geom.Point) bool {
			return pt.Equals2D(aiPt) || pt.Equals2D(ajPt) || pt.Equals2D(biPt) || pt.Equals2D(bjPt)
		}
		for _, pt := range interpts {
			if isEnd(pt) {
'''),
("neigh-break","node/contig.go",'''	for k := range neighbs {
		h = neighbs[k]
		if h != hull {
			if i == h.Range.J {
				prev = neighbs[k]
			} else if j == h.Range.I {
				nxt = neighbs[k]
			}
		}
		if prev != nil && nxt != nil {
			break
		}
	}
	return prev, nxt
''','''	for k := 0; k < len(neighbs) && (prev == nil || nxt == nil); k++ {
		h = neighbs[k]
		if h == hull {
			continue
		}
		switch {
		case h.Range.J == i:
			prev = h
		case h.Range.I == j:
			nxt = h
		}
	}
	return prev, nxt
'''),
("dist-early","relate/dist.go","FUNC func IsDistRelateValid(",'''func IsDistRelateValid(options *opts.Opts, hull *node.Node, contexts *ctx.ContextGeometries) bool {
	var seg = hull.Segment()
	var line = hull.Polyline.Geometry()
	for _, g := range contexts.DataView() {
		var other = g.Geom.Geometry()
		if line.Distance(other) < options.MinDist {
			continue
		}
		if seg.Distance(other) < options.MinDist {
			return false
		}
	}
	return true
}
'''),
("geom-early","relate/geom.go","FUNC func IsGeomRelateValid(",'''func IsGeomRelateValid(hull *node.Node, contexts *ctx.ContextGeometries) bool {
	var seg = hull.Segment()
	var ln = hull.Polyline.Geometry()
	for _, c := range contexts.DataView() {
		var g = c.Geom.Geometry()
		if ln.Intersects(g) != seg.Intersects(g) {
			return false
		}
	}
	return true
}
'''),
("planar-groups","lnr/self.go",'''	for i, n := 0, len(points); i < n; i++ { //O(n)
		a = &points[i]
		//the last point closes its group : it has no successor
		bln = i+1 < n && a.Equals2D(points[i+1].Point)
		if bln {
			b = &points[i+1]
			if d == 0 {
				indices = append(indices, a.index, b.index)
				d += 2
			} else {
				indices = append(indices, b.index)
				d += 1
			}
			continue
		}

		if d > 1 {
''','''	for i, n := 0, len(points); i < n; i++ { //O(n)
		a = &points[i]
		//the last point closes its group : it has no successor
		bln = i+1 < n && a.Equals2D(points[i+1].Point)
		if bln {
			b = &points[i+1]
			if d == 0 {
				indices = append(indices, a.index)
				d++
			}
			indices = append(indices, b.index)
			d++
			continue
		}

		if d > 1 {
'''),
("planar-len","lnr/self.go",'''	var d = 0
	var a, b *vertex
	var indices []int
	var results = ctx.NewContexts()

	var bln bool
	for i, n := 0, len(points); i < n; i++ { //O(n)
		a = &points[i]
		//the last point closes its group : it has no successor
		bln = i+1 < n && a.Equals2D(points[i+1].Point)
		if bln {
			b = &points[i+1]
			if d == 0 {
				indices = append(indices, a.index, b.index)
				d += 2
			} else {
				indices = append(indices, b.index)
				d += 1
			}
			continue
		}

		if d > 1 {
			var cg = ctx.New(points[i].Point, 0, -1).AsPlanarVertex()
			cg.Meta.Planar = iter.SortedIntsSet(indices)
			results.Push(cg)
		}
		d = 0
		indices = indices[:0]
	}
	return results
''','''	var indices []int
	var results = ctx.NewContexts()

	for i := range points { //O(n)
		if i+1 < len(points) && points[i].Equals2D(points[i+1].Point) {
			if len(indices) == 0 {
				indices = append(indices, points[i].index)
			}
			indices = append(indices, points[i+1].index)
			continue
		}

		if len(indices) > 1 {
			var cg = ctx.New(points[i].Point, 0, -1).AsPlanarVertex()
			cg.Meta.Planar = iter.SortedIntsSet(indices)
			results.Push(cg)
		}
		indices = indices[:0]
	}
	return results
'''),
("nonplanar-push","lnr/self.go",'''			if s == o {
				continue
			}

			var k = cacheKey(s, o)
			if cache[k] {
				continue
			}
			cache[k] = true
''','''			var k = cacheKey(s, o)
			if s == o || cache[k] {
				continue
			}
			cache[k] = true
'''),
("nonplanar-fn","lnr/self.go",'''			sa, sb = polyline.Pt(s.I), polyline.Pt(s.J)
			oa, ob = polyline.Pt(o.I), polyline.Pt(o.J)

			var intersects = geom.SegSegIntersection(sa, sb, oa, ob)
			var pt *geom.InterPoint

			for idx := range intersects {
				pt = &intersects[idx]

				if pt.IsVertex() && !pt.IsVerteXOR() { //if not exclusive vertex
					continue
				}

				cg := ctx.New(pt.Point, 0, -1).AsNonPlanarVertex()
				cg.Meta.NonPlanar = iter.SortedIntsSet(k[:])
				results.Push(cg)
			}
''','''			pushCrossings(results, polyline, s, o, k)
''',"lnr/self.go","	var sa, sb, oa, ob *geom.Point\n","","lnr/self.go","//cache key: [0","""func pushCrossings(results *ctx.ContextGeometries, polyline *geometry.Polyline, s, o *mono.MBR, k [4]int) {
	var crossings = geom.SegSegIntersection(polyline.Pt(s.I), polyline.Pt(s.J), polyline.Pt(o.I), polyline.Pt(o.J))
	for i := range crossings {
		if crossings[i].IsVertex() && !crossings[i].IsVerteXOR() {
			continue
		}
		var cg = ctx.New(crossings[i].Point, 0, -1).AsNonPlanarVertex()
		cg.Meta.NonPlanar = iter.SortedIntsSet(k[:])
		results.Push(cg)
	}
}

//cache key: [0"""),
("fc-len","lnr/fc.go",'''		if bln {
			b = &points[i+1]
			if d == 0 {
				indexes = append(indexes, a, b)
				d += 2
			} else {
				indexes = append(indexes, b)
				d += 1
			}
			continue
		}

		if d > 1 {
			for _, v := range indexes {
				results[v.fid] = append(results[v.fid], v.index)
			}
		}
		d = 0
		indexes = indexes[:0]
''','''		if bln {
			b = &points[i+1]
			if len(indexes) == 0 {
				indexes = append(indexes, a)
			}
			indexes = append(indexes, b)
			continue
		}

		for _, v := range indexes {
			results[v.fid] = append(results[v.fid], v.index)
		}
		indexes = indexes[:0]
''',"lnr/fc.go","	var d = 0\n",""),
("score-other","knn/knn.go",'''		var other geom.Geometry
		//item is box from rtree
		var nd = item.GetNode()
		if nd == nil {
			other = box.MBRToPolygon(*item.MBR)
		} else {
			other = nd.Geom
		}
		return query.Distance(other)
''','''		if nd := item.GetNode(); nd != nil {
			return query.Distance(nd.Geom)
		}
		return query.Distance(box.MBRToPolygon(*item.MBR)) //item is box from rtree
'''),
("split-idx","split/split.go",'''	var rg = hull.Range
	var i, j = rg.I, rg.J
	var k, _ = scoreFn(coordinates)
	var idx = rg.I + k
	// ---------------------------------------------------------------
	// i..[ha]..k..[hb]..j
	var ha = node.CreateNode(id, coordinates.Slice(0, k+1), rng.Range(i, idx), gfn, hull.Instance)
	var hb = node.CreateNode(id, coordinates.Slice(k, coordinates.Len()), rng.Range(idx, j), gfn, hull.Instance)
	// ---------------------------------------------------------------
	return ha, hb
''','''	var k, _ = scoreFn(coordinates)
	var left = rng.Range(hull.Range.I, hull.Range.I+k)
	var right = rng.Range(left.J, hull.Range.J)
	var ha = node.CreateNode(id, coordinates.Slice(0, k+1), left, gfn, hull.Instance)
	var hb = node.CreateNode(id, coordinates.Slice(k, coordinates.Len()), right, gfn, hull.Instance)
	return ha, hb
'''),
("split-sub","split/split.go",'''	var I = hull.Range.I
	for _, r := range ranges {
		subHulls = append(subHulls, node.CreateNode(id, coordinates.Slice(r.I-I, r.J-I+1), r, gfn, hull.Instance))
	}
	return subHulls
''','''	for i := range ranges {
		var from, to = ranges[i].I - hull.Range.I, ranges[i].J - hull.Range.I
		var coords = coordinates.Slice(from, to+1)
		subHulls = append(subHulls, node.CreateNode(id, coords, ranges[i], gfn, hull.Instance))
	}
	return subHulls
'''),
("dec-recursive","decompose/decompose.go",'''	for !(len(stack) == 0) {
		n = len(stack) - 1
		r = stack[n]
		stack = stack[:n]

		coordinates = pln.SubCoordinates(r)
		k, val = decomp.ScoreFn(coordinates)
		k = r.I + k //offset

		//a range of at most one segment cannot be split any further
		if r.Size() <= 1 || decomp.Relation(val) {
			hque = append(hque, node.CreateNode(id, coordinates, r, geomFn, instance))
		} else {
			stack = append(stack, rng.Range(k, r.J)) // right
			stack = append(stack, rng.Range(r.I, k)) // left
		}
	}
''','''	for len(stack) > 0 {
		n = len(stack) - 1
		r, stack = stack[n], stack[:n]

		coordinates = pln.SubCoordinates(r)
		k, val = decomp.ScoreFn(coordinates)

		if r.Size() > 1 && !decomp.Relation(val) {
			var at = r.I + k
			stack = append(stack, rng.Range(at, r.J), rng.Range(r.I, at))
			continue
		}
		hque = append(hque, node.CreateNode(id, coordinates, r, geomFn, instance))
	}
'''),
("homo-filter","homotopy/homotopy.go",'''		if lnBln && simpleBln {
			exclude.Push(c)
		} else if !lnBln && !simpleBln {
			disjoint.Push(c)
		} else {
			xor.Push(c)
		}
''','''		switch {
		case lnBln != simpleBln:
			xor.Push(c)
		case lnBln:
			exclude.Push(c)
		default:
			disjoint.Push(c)
		}
'''),
("homo-ends","homotopy/homotopy.go",'''	var ch = chainDeformation(coordinates, disjoint)
	var n = coordinates.Len() - 1
	if ch.size == 2 {
		var a, b = ch.link.Point, ch.link.next.Point
		bln = coordinates.Pt(0).Equals2D(a) && coordinates.Pt(n).Equals2D(b)
	}
	return bln
''','''	var ch = chainDeformation(coordinates, disjoint)
	if ch.size != 2 {
		return false
	}
	var first, last = coordinates.Pt(0), coordinates.Pt(coordinates.Len()-1)
	return first.Equals2D(ch.link.Point) && last.Equals2D(ch.link.next.Point)
''',"homotopy/homotopy.go","	var bln bool\n	var disjoint","	var disjoint"),
("dp-simple","dp/dp.go",'''	var indices = make([]int, dp.SimpleSet.Size())
	dp.SimpleSet.ForEach(func(v interface{}, i int) bool {
		indices[i] = v.(int)
		return true
	})
	return indices
''','''	var indices = make([]int, 0, dp.SimpleSet.Size())
	for _, v := range dp.SimpleSet.Values() {
		indices = append(indices, v.(int))
	}
	return indices
'''),
("dp-scorer","dp/dp.go",'''	var score = dp.Score
	var relation = dp.ScoreRelation

	if dp.SquareScore != nil {
		score = dp.SquareScore
		relation = dp.SquareScoreRelation
	}

	var decomp = offset.EpsilonDecomposition{ScoreFn: score, Relation: relation}
	return decompose.DouglasPeucker(
		id, dp.Polyline, decomp, common.Geometry, dp,
	)
''','''	var decomp = offset.EpsilonDecomposition{ScoreFn: dp.SquareScore, Relation: dp.SquareScoreRelation}
	if dp.SquareScore == nil {
		decomp = offset.EpsilonDecomposition{ScoreFn: dp.Score, Relation: dp.ScoreRelation}
	}
	return decompose.DouglasPeucker(id, dp.Polyline, decomp, common.Geometry, dp)
'''),
]
