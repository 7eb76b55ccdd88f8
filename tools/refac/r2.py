R=[
# --- constrain
("byself-countloop","constrain/byself.go",'''	var bln = true
	// find hull neighbours
	var hulls = deform.Select(options, hulldb, hull)
	for _, h := range hulls {
		//if bln & selection contains current hull : bln : false
		if bln && (h == hull) {
			bln = false //cmp &
		}
		*selections = append(*selections, h)
	}

	return bln
''','''	var hulls = deform.Select(options, hulldb, hull)
	*selections = append(*selections, hulls...)
	for _, h := range hulls {
		if h == hull {
			return false
		}
	}
	return true
'''),
("bycls-helper","constrain/bycls.go",'''	var bln = true
	var hulls = deform.SelectFeatureClass(options, db, hull)
	for _, h := range hulls {
		if bln && (h == hull) {
			bln = false
		}
		*selections = append(*selections, h)
	}
	return bln
''','''	return !collect(deform.SelectFeatureClass(options, db, hull), hull, selections)
''',"constrain/bycls.go","//Constrain for self","""func collect(hulls []*node.Node, hull *node.Node, selections *[]*node.Node) bool {
	var found bool
	for i := 0; i < len(hulls); i++ {
		if hulls[i] == hull {
			found = true
		}
		*selections = append(*selections, hulls[i])
	}
	return found
}

//Constrain for self"""),
("splitself-helper","constrain/split.go",'''		var idxs []int
		if inter.IsPlanarVertex() {
			idxs = inter.Meta.Planar
		} else if inter.IsNonPlanarVertex() {
			idxs = inter.Meta.NonPlanar
		}
		if len(idxs) == 0 {
''','''		var idxs = splitIndices(inter)
		if len(idxs) == 0 {
''',"constrain/split.go","//constrain hulls at","""func splitIndices(inter *ctx.ContextGeometry) []int {
	switch {
	case inter.IsPlanarVertex():
		return inter.Meta.Planar
	case inter.IsNonPlanarVertex():
		return inter.Meta.NonPlanar
	}
	return nil
}

//constrain hulls at"""),
("splitself-inner","constrain/split.go",'''		for i := range nodes {
			hull = nodes[i]
			tokens = split.AtIndex(id, hull, idxs, common.Geometry)
			if len(tokens) == 0 {
				continue
			}
			db.Remove(hull).Load(tokens)
		}
''','''		for _, hull = range nodes {
			if tokens = split.AtIndex(id, hull, idxs, common.Geometry); len(tokens) > 0 {
				db.Remove(hull)
				db.Load(tokens)
			}
		}
'''),
("toself-early","constrain/toself.go",'''	var atVertexSet = make(map[int]bool)
	if !(options.PlanarSelf || options.NonPlanarSelf) {
		return nodes, true, []int{}
	}

	var hulldb = hdb.NewHdb().Load(nodes)
	var planar, nonPlanar = options.PlanarSelf, options.NonPlanarSelf
	var selfInters = lnr.SelfIntersection(polyline, planar, nonPlanar)
''','''	var planar, nonPlanar = options.PlanarSelf, options.NonPlanarSelf
	if !planar && !nonPlanar {
		return nodes, true, []int{}
	}

	var selfInters = lnr.SelfIntersection(polyline, planar, nonPlanar)
	var atVertexSet = make(map[int]bool)
	var hulldb = hdb.NewHdb()
	hulldb.Load(nodes)
'''),
("toself-constverts","constrain/toself.go",'''		if atVertexSet[i] { //exclude already self intersects
			continue
		}
		atVertexSet[i] = true
		var pt = polyline.Pt(i)
		var cg = ctx.New(pt, 0, -1).AsPlanarVertex()

		cg.Meta.Planar = append(cg.Meta.Planar, i)
		selfInters.Push(cg)
''','''		if !atVertexSet[i] {
			var cg = ctx.New(polyline.Pt(i), 0, -1).AsPlanarVertex()
			cg.Meta.Planar = append(cg.Meta.Planar, i)
			selfInters.Push(cg)
			atVertexSet[i] = true
		}
'''),
("toself-keys","constrain/toself.go",'''	var indices = make([]int, 0, len(atVertexSet))
	for v := range atVertexSet {
		indices = append(indices, v)
	}
	sort.Ints(indices)
	return nodes, true, indices
''','''	return nodes, true, sortedKeys(atVertexSet)
''',"constrain/toself.go","//Constrain for planar","""func sortedKeys(set map[int]bool) []int {
	var keys = make([]int, 0, len(set))
	for k := range set {
		keys = append(keys, k)
	}
	sort.Ints(keys)
	return keys
}

//Constrain for planar"""),
("toself-nodes","constrain/toself.go",'''	nodes = make([]node.Node, 0, len(nodes))
	for _, n := range hulldb.All() {
		nodes = append(nodes, *n)
	}

	sort.Sort(node.Nodes(nodes))
''','''	var all = hulldb.All()
	nodes = make([]node.Node, len(all))
	for i, n := range all {
		nodes[i] = *n
	}

	sort.Sort(node.Nodes(nodes))
'''),
# --- homotopy
("chain-switch","homotopy/homotopy.go",'''		if lnBln && simpleBln {
			exclude.Push(c)
		} else if !lnBln && !simpleBln {
			disjoint.Push(c)
		} else {
			xor.Push(c)
		}
''','''		switch {
		case lnBln != simpleBln:
			xor.Push(c)
		case lnBln:
			exclude.Push(c)
		default:
			disjoint.Push(c)
		}
'''),
("homotopy-early","homotopy/homotopy.go",'''	var bln bool
	var disjoint, _, xor = filterContext(coordinates, contexts)
	if xor.Len() > 0 {
		return false
	}

	if disjoint.Len() == 0 {
		return true
	}

	var ch = chainDeformation(coordinates, disjoint)
	var n = coordinates.Len() - 1
	if ch.size == 2 {
		var a, b = ch.link.Point, ch.link.next.Point
		bln = coordinates.Pt(0).Equals2D(a) && coordinates.Pt(n).Equals2D(b)
	}
	return bln
''','''	var disjoint, _, xor = filterContext(coordinates, contexts)
	if xor.Len() > 0 || disjoint.Len() == 0 {
		return xor.Len() <= 0
	}

	var ch = chainDeformation(coordinates, disjoint)
	if ch.size != 2 {
		return false
	}
	var last = coordinates.Len() - 1
	return coordinates.Pt(0).Equals2D(ch.link.Point) && coordinates.Pt(last).Equals2D(ch.link.next.Point)
'''),
("collapse-return","homotopy/deform.go",'''	var bln = true
	var a, b, c = va.Point, vb.Point, vc.Point

	var box = a.BBox().ExpandIncludeXY(b[geom.X], b[geom.Y]).ExpandIncludeXY(
		c[geom.X], c[geom.Y],
	)
	var neighbours = db.Search(*box)
	if len(neighbours) > 0 {
		bln = isTriangleCollapsible(a, b, c, neighbours)
	}
	return bln
''','''	var a, b, c = va.Point, vb.Point, vc.Point

	var box = a.BBox()
	box = box.ExpandIncludeXY(b[geom.X], b[geom.Y])
	box = box.ExpandIncludeXY(c[geom.X], c[geom.Y])

	var neighbours = db.Search(*box)
	return len(neighbours) == 0 || isTriangleCollapsible(a, b, c, neighbours)
'''),
("tri-early","homotopy/deform.go",'''	var bln = true
	var triangle = geom.NewPolygon(geom.Coordinates([]geom.Point{*a, *b, *c, *a}))
	for i, n := 0, len(neighbours); bln && i < n; i++ {
		c := neighbours[i].(*ctx.ContextGeometry)
		bln = !triangle.Intersects(c.Geom.Geometry()) //disjoint
	}
	return bln
''','''	var triangle = geom.NewPolygon(geom.Coordinates([]geom.Point{*a, *b, *c, *a}))
	for _, nb := range neighbours {
		if triangle.Intersects(nb.(*ctx.ContextGeometry).Geom.Geometry()) {
			return false
		}
	}
	return true
'''),
("ctxdb-idx","homotopy/deform.go",'''	var objects = make([]rtree.BoxObject, 0, len(view))
	for i := range view {
		objects = append(objects, view[i])
	}
	db.Load(objects)
	return db
''','''	var objects = make([]rtree.BoxObject, len(view))
	for i, g := range view {
		objects[i] = g
	}
	return db.Load(objects)
'''),
("deform-for","homotopy/deform.go",'''		var link = chain.link
		for link != nil {
			if collapseVertex(link, db) {
				remove(link)
				chain.size += -1
				deformable = true
			}
			link = link.next
		}
''','''		for link := chain.link; link != nil; link = link.next {
			if !collapseVertex(link, db) {
				continue
			}
			deformable = true
			chain.size--
			remove(link)
		}
'''),
("newchain-loop","homotopy/chain.go",'''	var prev, next *Vertex
	prev = chain.link
	for i := 1; i < chain.size; i++ {
		next = &Vertex{Point: coordinates.Pt(i), i: i, prev: prev}
		ptrs(prev, next)
		prev = next
	}
	return chain
''','''	var prev = chain.link
	for i := 1; i < n; i++ {
		var next = &Vertex{Point: coordinates.Pt(i), i: i}
		ptrs(prev, next)
		prev = next
	}
	return chain
'''),
# --- lnr
("fc-count","lnr/fc.go",'''	//preallocate points size
	var n = 0
	for _, self := range featureClass {
		n +=  self.Coordinates.Len()
	}
	var points = make([]vertex, 0, n)

	for _, self := range featureClass {
''','''	var points []vertex
	for _, self := range featureClass {
'''),
("fc-flushfn","lnr/fc.go",'''		if d > 1 {
			for _, v := range indexes {
				results[v.fid] = append(results[v.fid], v.index)
			}
		}
		d = 0
''','''		if d > 1 {
			addIndexes(results, indexes)
		}
		d = 0
''',"lnr/fc.go","//Planar self","""func addIndexes(results map[int][]int, group []*vertex) {
	for _, v := range group {
		results[v.fid] = append(results[v.fid], v.index)
	}
}

//Planar self"""),
("planar-scan","lnr/self.go",'''		bln = i+1 < n && a.Equals2D(points[i+1].Point)
		if bln {
			b = &points[i+1]
			if d == 0 {
				indices = append(indices, a.index, b.index)
				d += 2
			} else {
				indices = append(indices, b.index)
				d += 1
			}
			continue
		}
''','''		bln = i+1 < n && a.Equals2D(points[i+1].Point)
		if bln {
			b = &points[i+1]
			if d == 0 {
				indices = append(indices, a.index)
				d++
			}
			indices = append(indices, b.index)
			d++
			continue
		}
'''),
("nonplanar-helper","lnr/self.go",'''			for idx := range intersects {
				pt = &intersects[idx]
				if pt.IsVertex() && !pt.IsVerteXOR() { //if not exclusive vertex
					continue
				}
				cg := ctx.New(pt.Point, 0, -1).AsNonPlanarVertex()
				cg.Meta.NonPlanar = iter.SortedIntsSet(k[:])
				results.Push(cg)
			}
''','''			for idx := range intersects {
				pt = &intersects[idx]
				if !pt.IsVertex() || pt.IsVerteXOR() {
					results.Push(crossing(pt, k))
				}
			}
''',"lnr/self.go","//cache key:","""func crossing(pt *geom.InterPoint, k [4]int) *ctx.ContextGeometry {
	var cg = ctx.New(pt.Point, 0, -1).AsNonPlanarVertex()
	cg.Meta.NonPlanar = iter.SortedIntsSet(k[:])
	return cg
}

//cache key:"""),
("lnr-cachekey","lnr/self.go",'''	if b.I < a.I {
		a, b = b, a
	}
	return [4]int{a.I, a.J, b.I, b.J}
''','''	if a.I <= b.I {
		return [4]int{a.I, a.J, b.I, b.J}
	}
	return [4]int{b.I, b.J, a.I, a.J}
'''),
("selfinter-cond","lnr/self.go",'''	var inters = ctx.NewContexts()
	if planar {
		inters.Extend(planarIntersects(polyline).DataView())
	}
	if nonPlanar {
		inters.Extend(nonPlanarIntersection(polyline).DataView())
	}
	return inters
''','''	var inters = ctx.NewContexts()
	var found *ctx.ContextGeometries
	if planar {
		found = planarIntersects(polyline)
		inters.Extend(found.DataView())
	}
	if !nonPlanar {
		return inters
	}
	found = nonPlanarIntersection(polyline)
	inters.Extend(found.DataView())
	return inters
'''),
("vertices-less","lnr/vertices.go",'''		return (v[i].Point[x] < v[j].Point[x]) || (
			v[i].Point[x] == v[j].Point[x] &&
				v[i].Point[y] < v[j].Point[y])
''','''	var a, b = v[i].Point, v[j].Point
	if a[x] == b[x] {
		return a[y] < b[y]
	}
	return a[x] < b[x]
'''),
("appendverts","lnr/vertices.go",'''	for i := range coordinates.Idxs {
		points = append(points, vertex{coordinates.Pt(i), i, fid})
	}
	return points
''','''	for i, n := 0, len(coordinates.Idxs); i < n; i++ {
		points = append(points, vertex{Point: coordinates.Pt(i), index: i, fid: fid})
	}
	return points
'''),
# --- deform
("optneigh","deform/cls.go",'''	var n = len(neighbours)

	for _, o := range neighbours[:n] {
		if !isSame(hull.Instance, o.Instance) {
			neighbours = append(neighbours, o)
		}
	}
	return neighbours[n:]
''','''	var others []*node.Node
	for _, o := range neighbours {
		if isSame(hull.Instance, o.Instance) {
			continue
		}
		others = append(others, o)
	}
	return others
'''),
("select-helper","deform/ln.go",'''		var sa, sb *node.Node
		if contig && n > 1 { //contiguity with overlap greater than a vertex
			sa, sb = contiguousCandidates(hull, h)
		} else if !contig {
			sa, sb = nonContiguousCandidates(options, hull, h)
		}

		// add candidate deformation hulls to selection list
		if sa != nil {
			dict[sa] = struct{}{}
		}
		if sb != nil {
			dict[sb] = struct{}{}
		}
	}

	var items = make([]*node.Node, 0, len(dict))
	for v := range dict {
		items = append(items, v)
	}
	return items
''','''		var sa, sb = candidates(options, hull, h, contig, n)
		addTo(dict, sa)
		addTo(dict, sb)
	}

	var items = make([]*node.Node, 0, len(dict))
	for v := range dict {
		items = append(items, v)
	}
	return items
''',"deform/ln.go","//find context","""func addTo(dict map[*node.Node]struct{}, n *node.Node) {
	if n != nil {
		dict[n] = struct{}{}
	}
}

func candidates(options *opts.Opts, hull, h *node.Node, contig bool, n int) (*node.Node, *node.Node) {
	if !contig {
		return nonContiguousCandidates(options, hull, h)
	}
	if n > 1 {
		return contiguousCandidates(hull, h)
	}
	return nil, nil
}

//find context"""),
("select-nested","deform/ln.go",'''		if !inters {
			continue
		}

		var sa, sb *node.Node
		if contig && n > 1 { //contiguity with overlap greater than a vertex
			sa, sb = contiguousCandidates(hull, h)
		} else if !contig {
			sa, sb = nonContiguousCandidates(options, hull, h)
		}

		// add candidate deformation hulls to selection list
		if sa != nil {
			dict[sa] = struct{}{}
		}
		if sb != nil {
			dict[sb] = struct{}{}
		}
''','''		if inters {
			var sa, sb *node.Node
			switch {
			case !contig:
				sa, sb = nonContiguousCandidates(options, hull, h)
			case n > 1:
				sa, sb = contiguousCandidates(hull, h)
			}
			for _, s := range [2]*node.Node{sa, sb} {
				if s != nil {
					dict[s] = struct{}{}
				}
			}
		}
'''),
("cls-inters","deform/cls.go",'''			contig = false
			inters = hull.Geom.Intersects(h.Geom)
			if inters {
				var pts = hull.Geom.Intersection(h.Geom)
				inters = len(pts) > 0
				n = len(pts)
			}
''','''			contig, inters = false, false
			if hull.Geom.Intersects(h.Geom) {
				n = len(hull.Geom.Intersection(h.Geom))
				inters = n > 0
			}
'''),
("contigcand","deform/contig.go",'''	var sa, sb *node.Node
	//& the present should not affect the future
	if !a.Collapsible(b) {
		sa = a
	}

	// future should not affect the present
	if !b.Collapsible(a) {
		sb = b
	}
	return sa, sb
''','''	var sa, sb = a, b
	if a.Collapsible(b) {
		sa = nil
	}
	if b.Collapsible(a) {
		sb = nil
	}
	return sa, sb
'''),
("noncontig-fn","deform/noncontig.go",'''		} else {
		outer:
			for i := range ptLns {
				for j := range atSeg {
					delta := ptLns[i].Distance(atSeg[j])
					if delta > options.NonPlanarDisplacement {
						sa, sb = a, b
						break outer
					}
				}
			}
		}
''','''		} else if displaced(ptLns, atSeg, options.NonPlanarDisplacement) {
			sa, sb = a, b
		}
''',"deform/noncontig.go","//select non-","""func displaced(ptLns, atSeg []geom.Point, limit float64) bool {
	for i := range ptLns {
		for j := range atSeg {
			if ptLns[i].Distance(atSeg[j]) > limit {
				return true
			}
		}
	}
	return false
}

//select non-""","deform/noncontig.go",'''import (
''','''import (
	"github.com/intdxdt/geom"
'''),
("noncontig-order","deform/noncontig.go",'''	if asegIntersBseg && asegIntersBln && (!alnIntersBln) {
		sa = a
	} else if asegIntersBseg && bsegIntersAln && (!alnIntersBln) {
		sb = b
	} else if alnIntersBln {
''','''	if !alnIntersBln {
		if asegIntersBseg {
			if asegIntersBln {
				sa = a
			} else if bsegIntersAln {
				sb = b
			}
		}
	} else {
'''),
# --- knn
("knn-pred","knn/knn.go",'''	var fn func(*hdb.KObj) (bool, bool)

	if len(predicate) > 0 {
		fn = predicate[0]
	} else {
		fn = PredicateFn(dist)
	}

	return database.Knn(g.Bounds(), -1, score, fn)
''','''	var fn = PredicateFn(dist)
	if len(predicate) > 0 {
		fn = predicate[0]
	}
	return database.Knn(g.Bounds(), -1, score, fn)
'''),
("knn-scorefn","knn/knn.go",'''		var other geom.Geometry
		//item is box from rtree
		var nd = item.GetNode()
		if nd == nil {
			other = box.MBRToPolygon(*item.MBR)
		} else {
			other = nd.Geom
		}
		return query.Distance(other)
''','''		if nd := item.GetNode(); nd != nil {
			return query.Distance(nd.Geom)
		}
		return query.Distance(box.MBRToPolygon(*item.MBR))
'''),
("predfn","knn/knn.go",'''		if candidate.Distance <= dist {
			return true, false
		}
		return false, true
''','''		var near = candidate.Distance <= dist
		return near, !near
'''),
("nodeneigh","knn/neighbours.go",'''	for _, nd := range inters {
		if nd.Id != hull.Id && nd.Geom.Distance(hull.Geom) <= dist {
			ns = append(ns, nd)
		}
	}
''','''	for i := range inters {
		var nd = inters[i]
		if nd.Id == hull.Id {
			continue
		}
		if nd.Geom.Distance(hull.Geom) <= dist {
			ns = append(ns, nd)
		}
	}
'''),
# --- node
("collapsible","node/collapse.go",'''	// segments are already collapsed
	if node.Range.Size() == 1 {
		return true
	}
	// or hull can be a linear for
	// colinear boundaries where node.range.size > 1
	if node.Geom.Type().IsLineString() {
		return true
	}
''','''	if node.Range.Size() == 1 || node.Geom.Type().IsLineString() {
		return true
	}
'''),
("collapsible-shared","node/collapse.go",'''	var c *geom.Point
	if ai.Equals2D(bi) || aj.Equals2D(bi) {
		c = bi
	} else if ai.Equals2D(bj) || aj.Equals2D(bj) {
		c = bj
	} else {
		return true
	}

	var t = bj
	if c.Equals2D(t) {
		t = bi
	}
''','''	var c = sharedPoint(ai, aj, bi, bj)
	if c == nil {
		return true
	}

	var t = bj
	if c.Equals2D(bj) {
		t = bi
	}
''',"node/collapse.go","// Is node collapsible","""func sharedPoint(ai, aj, bi, bj *geom.Point) *geom.Point {
	switch {
	case ai.Equals2D(bi), aj.Equals2D(bi):
		return bi
	case ai.Equals2D(bj), aj.Equals2D(bj):
		return bj
	}
	return nil
}

// Is node collapsible"""),
("contig-early","node/contig.go",'''	var contig = false
	var interCount = 0

	var bln = ga.Intersects(gb)
	if bln {
		var interpts = ga.Intersection(gb)
''','''	var contig bool
	var interCount int
	var bln = ga.Intersects(gb)
	if !bln {
		return false, false, 0
	}
	{
		var interpts = ga.Intersection(gb)
'''),
("contig-hoist","node/contig.go",'''		for _, pt := range interpts {
			var blnAseg = pt.Equals2D(aiPt) || pt.Equals2D(ajPt)
			var blnBseg = pt.Equals2D(biPt) || pt.Equals2D(bjPt)
			if blnAseg || blnBseg {
				contig = ajPt.Equals2D(biPt) || ajPt.Equals2D(bjPt) ||
					aiPt.Equals2D(bjPt) || aiPt.Equals2D(biPt)
			}
			if contig {
				break
			}
		}
''','''		var shares = ajPt.Equals2D(biPt) || ajPt.Equals2D(bjPt) ||
			aiPt.Equals2D(bjPt) || aiPt.Equals2D(biPt)
		for i := 0; shares && !contig && i < len(interpts); i++ {
			var pt = interpts[i]
			contig = pt.Equals2D(aiPt) || pt.Equals2D(ajPt) ||
				pt.Equals2D(biPt) || pt.Equals2D(bjPt)
		}
'''),
("neighbours-range","node/contig.go",'''	for k := range neighbs {
		h = neighbs[k]
		if h != hull {
			if i == h.Range.J {
				prev = neighbs[k]
			} else if j == h.Range.I {
				nxt = neighbs[k]
			}
		}
		if prev != nil && nxt != nil {
			break
		}
	}
	return prev, nxt
''','''	for _, h = range neighbs {
		if h == hull {
			continue
		}
		if h.Range.J == i {
			prev = h
		} else if h.Range.I == j {
			nxt = h
		}
		if prev != nil && nxt != nil {
			return prev, nxt
		}
	}
	return prev, nxt
'''),
("createnode","node/node.go",'''	var g = geomFn(geom.ConvexHull(coordinates))
	return Node{
		Id:       id.Next(),
		Polyline: geom.NewLineString(coordinates),
		Range:    rng,
		MBR:      g.Bounds(),
		Geom:     g,
		Instance: instance,
	}
''','''	var g = geomFn(geom.ConvexHull(coordinates))
	var nd Node
	nd.Instance = instance
	nd.Range = rng
	nd.Geom = g
	nd.MBR = nd.Geom.Bounds()
	nd.Polyline = geom.NewLineString(coordinates)
	nd.Id = id.Next()
	return nd
'''),
("segaspoly","node/node.go",'''	var n = node.Polyline.Coordinates.Len() //ln.Coordinates.Len()
	var coords = node.Polyline.Coordinates
	coords.Idxs = []int{coords.Idxs[0], coords.Idxs[n-1]}
	return geom.NewLineString(coords)
''','''	var coords = node.Coordinates()
	var first, last = coords.Idxs[0], coords.Idxs[coords.Len()-1]
	coords.Idxs = []int{first, last}
	return geom.NewLineString(coords)
'''),
# --- relate
("dist-any","relate/dist.go",'''	var bln = true
	var geometries = contexts.DataView()

	for i, n := 0, contexts.Len(); bln && i < n; i++ {
		g = geometries[i]
		original = lnGeom.Distance(g.Geom.Geometry())
		simple = segGeom.Distance(g.Geom.Geometry())
''','''	var geometries = contexts.DataView()
	for i := range geometries {
		g = geometries[i]
		original = lnGeom.Distance(g.Geom.Geometry())
		simple = segGeom.Distance(g.Geom.Geometry())
''',"relate/dist.go",'''		bln = (simple >= minDistance) || (original < minDistance)
	}
	return bln
''','''		if simple < minDistance && original >= minDistance {
			return false
		}
	}
	return true
'''),
("geom-neq","relate/geom.go",'''		bln = !((segGInter && !lnGInter) || (!segGInter && lnGInter))
''','''		bln = segGInter == lnGInter
'''),
("geom-helper","relate/geom.go",'''		lnGInter = lnGeom.Intersects(g.Geom.Geometry())
		segGInter = segGeom.Intersects(g.Geom.Geometry())

		bln = !((segGInter && !lnGInter) || (!segGInter && lnGInter))
''','''		var other = g.Geom.Geometry()
		segGInter = segGeom.Intersects(other)
		lnGInter = lnGeom.Intersects(other)
		bln = sameRelation(segGInter, lnGInter)
''',"relate/geom.go","//IsGeomRelateValid","""func sameRelation(a, b bool) bool {
	return (a && b) || (!a && !b)
}

//IsGeomRelateValid"""),
# --- rng
("rng-split","rng/split.go",'''	for _, idx := range idxs {
		if i < idx && idx < j {
			s := i
			if len(sub) > 0 {
				s = sub[len(sub)-1].J
			}
			sub = append(sub, Range(s, idx))
		}
	}
	//close rest of split
	if len(sub) > 0 {
		e := sub[len(sub)-1].J
		if e < j {
			sub = append(sub, Range(e, j))
		}
	}
	return sub
''','''	var last = i
	for _, idx := range idxs {
		if idx <= i || idx >= j {
			continue
		}
		sub = append(sub, Range(last, idx))
		last = idx
	}
	//close rest of split
	if len(sub) > 0 && last < j {
		sub = append(sub, Range(last, j))
	}
	return sub
'''),
("rng-contig","rng/contig.go",'''	return (o.I < r.J && o.J == r.I) || (r.I < o.J && r.J == o.I)
''','''	if o.J == r.I && o.I < r.J {
		return true
	}
	return r.J == o.I && r.I < o.J
'''),
# --- merge
("merge-range","merge/merge.go",'''	var ranges = common.SortInts(append(ra.AsSlice(), rb.AsSlice()...))
	// i...[ra]...k...[rb]...j
	return rng.Range(ranges[0], ranges[len(ranges)-1])
''','''	var ranges = append(ra.AsSlice(), rb.AsSlice()...)
	ranges = common.SortInts(ranges)
	var first, last = ranges[0], ranges[len(ranges)-1]
	return rng.Range(first, last)
'''),
("merge-invert","merge/merge.go",'''	var coordinates = ContiguousCoordinates(ha, hb)
	var _, val = scoreFn(coordinates)
	if scoreRelation(val) {
		return true, contiguousFragments(id, coordinates, ha, hb, gfn)
	}
	return false, node.Node{}
''','''	var coordinates = ContiguousCoordinates(ha, hb)
	var _, val = scoreFn(coordinates)
	if !scoreRelation(val) {
		return false, node.Node{}
	}
	return true, node.CreateNode(id, coordinates, Range(ha.Range, hb.Range), gfn, ha.Instance)
'''),
("merge-make","merge/merge.go",'''	coordinates.Idxs = append(coordinates.Idxs[:n:n], hb.Coordinates().Idxs...)
	return coordinates
''','''	var tail = hb.Coordinates().Idxs
	var idxs = make([]int, 0, n+len(tail))
	idxs = append(idxs, coordinates.Idxs[:n]...)
	idxs = append(idxs, tail...)
	coordinates.Idxs = idxs
	return coordinates
'''),
# --- split
("atindex-idx","split/split.go",'''	var subHulls = make([]node.Node, 0, len(ranges))
	var I = hull.Range.I
	for _, r := range ranges {
		subHulls = append(subHulls, node.CreateNode(id, coordinates.Slice(r.I-I, r.J-I+1), r, gfn, hull.Instance))
	}
	return subHulls
''','''	var subHulls = make([]node.Node, len(ranges))
	for i, r := range ranges {
		var sub = coordinates.Slice(r.I-hull.Range.I, r.J-hull.Range.I+1)
		subHulls[i] = node.CreateNode(id, sub, r, gfn, hull.Instance)
	}
	return subHulls
'''),
("atscore-inline","split/split.go",'''	var rg = hull.Range
	var i, j = rg.I, rg.J
	var k, _ = scoreFn(coordinates)
	var idx = rg.I + k
''','''	var k, _ = scoreFn(coordinates)
	var i, j = hull.Range.I, hull.Range.J
	var idx = i + k
'''),
]
