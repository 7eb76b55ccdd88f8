H="hdb/"; L="lnr/"
R=[
("planar-groups2",L+"self.go","FUNC func planarIntersects(",'''func planarIntersects(polyline *geometry.Polyline) *ctx.ContextGeometries {
	var points = sortedVertices(polyline)
	var results = ctx.NewContexts()
	for i := 0; i < len(points); {
		var j = i + 1
		for j < len(points) && points[j-1].Equals2D(points[j].Point) {
			j++
		}
		if j-i > 1 {
			var indices = make([]int, 0, j-i)
			for k := i; k < j; k++ {
				indices = append(indices, points[k].index)
			}
			var cg = ctx.New(points[j-1].Point, 0, -1).AsPlanarVertex()
			cg.Meta.Planar = iter.SortedIntsSet(indices)
			results.Push(cg)
		}
		i = j
	}
	return results
}

func sortedVertices(polyline *geometry.Polyline) []vertex {
	var points = make([]vertex, 0, polyline.Coordinates.Len())
	for i := range polyline.Coordinates.Idxs {
		points = append(points, vertex{polyline.Pt(i), i, NullFId})
	}
	vertices(points).Sort()
	return points
}
'''),
("planar-switch",L+"self.go",'''			if d == 0 {
				indices = append(indices, a.index, b.index)
				d += 2
			} else {
				indices = append(indices, b.index)
				d += 1
			}
			continue
''','''			if d == 0 {
				indices = append(indices, a.index)
				d++
			}
			indices = append(indices, b.index)
			d++
			continue
'''),
("planar-nil",L+"self.go",'''		d = 0
		indices = indices[:0]
	}
	return results
}

func non''','''		d, indices = 0, nil
	}
	return results
}

func non''') if 0 else None,
("subtree-enl",H+"insert.go",'''			minx, miny = b_minx, b_miny
			maxx, maxy = b_maxx, b_maxy

			ch_minx, ch_miny = chbox.MinX, chbox.MinY
			ch_maxx, ch_maxy = chbox.MaxX, chbox.MaxY

			if ch_minx < minx {
				minx = ch_minx
			}
			if ch_miny < miny {
				miny = ch_miny
			}
			if ch_maxx > maxx {
				maxx = ch_maxx
			}
			if ch_maxy > maxy {
				maxy = ch_maxy
			}

			area = (ch_maxx - ch_minx) * (ch_maxy - ch_miny)
			enlargement = (maxx - minx) * (maxy - miny)
''','''			area = (chbox.MaxX - chbox.MinX) * (chbox.MaxY - chbox.MinY)
			enlargement = (max(chbox.MaxX, bbox.MaxX) - min(chbox.MinX, bbox.MinX)) *
				(max(chbox.MaxY, bbox.MaxY) - min(chbox.MinY, bbox.MinY))
''',H+"insert.go",'''	var minx, miny float64
	var maxx, maxy float64
	var ch_minx, ch_miny float64
	var ch_maxx, ch_maxy float64
	var b_minx, b_miny = bbox.MinX, bbox.MinY
	var b_maxx, b_maxy = bbox.MaxX, bbox.MaxY
''',''),
("subtree-flags",H+"insert.go",'''			// choose entry with the least area enlargement
			if d < 0 {
				minEnlargement = enlargement
				if area < minArea {
					minArea = area
				}
				targetNode = child
			} else if d == 0 || math.Abs(d) < math.EPSILON {
				// otherwise choose one with the smallest area
				if area < minArea {
					minArea = area
					targetNode = child
				}
			}
''','''			var smaller = area < minArea
			var tie = d == 0 || math.Abs(d) < math.EPSILON
			if d < 0 || (tie && smaller) {
				targetNode = child
				if smaller {
					minArea = area
				}
			}
			if d < 0 {
				minEnlargement = enlargement
			}
'''),
("subtree-nd",H+"insert.go",'''	for {
		path = append(path, nd)
		if nd.leaf || (len(path)-1 == level) {
			break
		}
''','''	for path = append(path, nd); !nd.leaf && len(path)-1 != level; path = append(path, nd) {
'''),
("select-cands","deform/ln.go",'''		if !inters {
			continue
		}

		var sa, sb *node.Node
		if contig && n > 1 { //contiguity with overlap greater than a vertex
			sa, sb = contiguousCandidates(hull, h)
		} else if !contig {
			sa, sb = nonContiguousCandidates(options, hull, h)
		}

		// add candidate deformation hulls to selection list
		if sa != nil {
			dict[sa] = struct{}{}
		}
		if sb != nil {
			dict[sb] = struct{}{}
		}
	}

	var items = make([]*node.Node, 0, len(dict))
	for v := range dict {
		items = append(items, v)
	}
	return items
}
''','''		if inters {
			addCandidates(dict, options, hull, h, contig, n)
		}
	}
	return setItems(dict)
}

func addCandidates(set map[*node.Node]struct{}, options *opts.Opts, a, b *node.Node, contig bool, n int) {
	var sa, sb *node.Node
	switch {
	case !contig:
		sa, sb = nonContiguousCandidates(options, a, b)
	case n > 1:
		sa, sb = contiguousCandidates(a, b)
	default:
		return
	}
	for _, s := range []*node.Node{sa, sb} {
		if s != nil {
			set[s] = struct{}{}
		}
	}
}

func setItems(set map[*node.Node]struct{}) []*node.Node {
	var items = make([]*node.Node, 0, len(set))
	for v := range set {
		items = append(items, v)
	}
	return items
}
'''),
("selfc-split","deform/cls.go",'''		n = 0
		h = ctxHulls[i]

		var sameFeature = isSame(hull.Instance, h.Instance)
		// find which item to deform against current hull
		if sameFeature { // check for contiguity
			inters, contig, n = node.IsContiguous(hull, h)
		} else {
			// contiguity is by default false for different features
			contig = false
			inters = hull.Geom.Intersects(h.Geom)
			if inters {
				var pts = hull.Geom.Intersection(h.Geom)
				inters = len(pts) > 0
				n = len(pts)
			}
		}
''','''		h = ctxHulls[i]
		inters, contig, n = relationOf(hull, h)
''',"deform/cls.go","FUNC func optimizeNeighbours(",'''func optimizeNeighbours(hull *node.Node, neighbours []*node.Node) []*node.Node {
	if hull.Instance.State().IsDirty() {
		return neighbours
	}
	var n = len(neighbours)

	for _, o := range neighbours[:n] {
		if !isSame(hull.Instance, o.Instance) {
			neighbours = append(neighbours, o)
		}
	}
	return neighbours[n:]
}

func relationOf(hull, h *node.Node) (bool, bool, int) {
	if isSame(hull.Instance, h.Instance) {
		return node.IsContiguous(hull, h)
	}
	if !hull.Geom.Intersects(h.Geom) {
		return false, false, 0
	}
	var k = len(hull.Geom.Intersection(h.Geom))
	return k > 0, false, k
}
'''),
("selbox-closures",H+"select.go","FUNC func selectBox(",'''func selectBox(arr []*node.Node, k, left, right int, cmp int) {
	var i, j int
	var fleft, fright, fk = float64(left), float64(right), float64(k)
	var tMinX, tMinY float64
	var above = func(idx int) bool {
		return (cmp == cmpMinX && (arr[idx].MBR.MinX-tMinX) > 0) ||
			(cmp == cmpMinY && (arr[idx].MBR.MinY-tMinY) > 0)
	}
	var below = func(idx int) bool {
		return (cmp == cmpMinX && (arr[idx].MBR.MinX-tMinX) < 0) ||
			(cmp == cmpMinY && (arr[idx].MBR.MinY-tMinY) < 0)
	}
	for right > left {
		if right-left > 600 {
			var lo, hi = sampleBounds(fleft, fright, fk)
			selectBox(arr, k, lo, hi, cmp)
		}
		i, j = left, right
		tMinX, tMinY = arr[k].MBR.MinX, arr[k].MBR.MinY
		swapItem(arr, left, k)
		if above(right) {
			swapItem(arr, left, right)
		}
		for i < j {
			swapItem(arr, i, j)
			i++
			j--
			for below(i) {
				i++
			}
			for above(j) {
				j--
			}
		}
		if (cmp == cmpMinX && (arr[left].MBR.MinX-tMinX) == 0) ||
			(cmp == cmpMinY && (arr[left].MBR.MinY-tMinY) == 0) {
			swapItem(arr, left, j)
		} else {
			j++
			swapItem(arr, j, right)
		}
		if j <= k {
			left = j + 1
		}
		if k <= j {
			right = j - 1
		}
	}
}

func sampleBounds(fleft, fright, fk float64) (int, int) {
	var n = fright - fleft + 1
	var i = fk - fleft + 1
	var z = math.Log(n)
	var s = 0.5 * math.Exp(2*z/3.0)
	var sign = 1.0
	if (i - n/2) < 0 {
		sign = -1
	}
	var sd = 0.5 * math.Sqrt(z*s*(n-s)/n) * sign
	return int(max(fleft, math.Floor(fk-i*s/n+sd))), int(min(fright, math.Floor(fk+(n-i)*s/n+sd)))
}
'''),
("dp-fits","decompose/decompose.go",'''	for !(len(stack) == 0) {
		n = len(stack) - 1
		r = stack[n]
		stack = stack[:n]
''','''	for n = len(stack) - 1; n >= 0; n = len(stack) - 1 {
		r, stack = stack[n], stack[:n]
'''),
("dp-split","decompose/decompose.go",'''			stack = append(stack, rng.Range(k, r.J)) // right
			stack = append(stack, rng.Range(r.I, k)) // left
''','''			var left, right = rng.Range(r.I, k), rng.Range(k, r.J)
			stack = append(stack, right, left)
'''),
("crossings",L+"self.go",'''			sa, sb = polyline.Pt(s.I), polyline.Pt(s.J)
			oa, ob = polyline.Pt(o.I), polyline.Pt(o.J)
			var intersects = geom.SegSegIntersection(sa, sb, oa, ob)
			var pt *geom.InterPoint
			for idx := range intersects {
				pt = &intersects[idx]
				if pt.IsVertex() && !pt.IsVerteXOR() { //if not exclusive vertex
					continue
				}
				cg := ctx.New(pt.Point, 0, -1).AsNonPlanarVertex()
				cg.Meta.NonPlanar = iter.SortedIntsSet(k[:])
				results.Push(cg)
			}
''','''			for _, cg := range crossings(polyline, s, o, k) {
				results.Push(cg)
			}
''',L+"self.go",'''	var sa, sb, oa, ob *geom.Point
''','',L+"self.go","FUNC func cacheKey(",'''func cacheKey(a, b *mono.MBR) [4]int {
	if b.I < a.I {
		a, b = b, a
	}
	return [4]int{a.I, a.J, b.I, b.J}
}

func crossings(polyline *geometry.Polyline, s, o *mono.MBR, k [4]int) []*ctx.ContextGeometry {
	var found []*ctx.ContextGeometry
	var pts = geom.SegSegIntersection(polyline.Pt(s.I), polyline.Pt(s.J), polyline.Pt(o.I), polyline.Pt(o.J))
	for idx := range pts {
		var pt = &pts[idx]
		if !pt.IsVertex() || pt.IsVerteXOR() {
			cg := ctx.New(pt.Point, 0, -1).AsNonPlanarVertex()
			cg.Meta.NonPlanar = iter.SortedIntsSet(k[:])
			found = append(found, cg)
		}
	}
	return found
}
'''),
("area-maxmin",H+"insert.go","FUNC func intersectionArea(",'''func intersectionArea(a, b *mbr.MBR) float64 {
	if !intersects(a, b) {
		return 0
	}
	var dx = min(a.MaxX, b.MaxX) - max(a.MinX, b.MinX)
	var dy = min(a.MaxY, b.MaxY) - max(a.MinY, b.MinY)
	return dx * dy
}
'''),
("insert-share",H+"insert.go","FUNC func (tree *Hdb) insertNode(",'''func (tree *Hdb) insertNode(item dbNode, level int) {
	tree.place(item, &item.bbox, level, nil)
}

func (tree *Hdb) place(child dbNode, bbox *mbr.MBR, level int, path []*dbNode) {
	var nd *dbNode
	nd, path = chooseSubtree(bbox, &tree.data, level, path)
	nd.children = append(nd.children, child)
	nd.bbox.ExpandIncludeMBR(bbox)
	level, path = tree.splitOnOverflow(level, path)
	tree.adjustParentBBoxes(bbox, path, level)
}
''',H+"insert.go","FUNC func (tree *Hdb) insert(",'''func (tree *Hdb) insert(item *node.Node) *Hdb {
	if item != nil {
		tree.place(newLeafNode(item), &item.MBR, tree.data.height-1, make([]*dbNode, 0, tree.maxEntries))
	}
	return tree
}
'''),
("condense-flat",H+"remove.go","FUNC func (tree *Hdb) condense(",'''func (tree *Hdb) condense(path []*dbNode) {
	for i := len(path) - 1; i >= 0; i-- {
		var nd = path[i]
		switch {
		case len(nd.children) > 0:
			calcBBox(nd)
		case i == 0:
			tree.Clear()
		default:
			detach(path[i-1], nd)
		}
	}
}

func detach(parent, nd *dbNode) {
	for k := range parent.children {
		if nd == &parent.children[k] {
			parent.children = removeNode(parent.children, k)
			return
		}
	}
}
'''),
("nodeat",H+"remove.go","FUNC func nodeAtIndex(",'''func nodeAtIndex(a []*dbNode, i int) *dbNode {
	if i >= 0 && i < len(a) {
		return a[i]
	}
	return nil
}
'''),
("remove-leaf",H+"remove.go",'''			// check current dbNode
			//index = dbNode.children.indexOf(item)
			index = sliceIndex(len(nd.children), func(i int) bool {
				return predicate(nd, i)
			})

			//if found
			if index != -1 {
				//item found, remove the item and condense self upwards
				//dbNode.children.splice(index, 1)
				nd.children = removeNode(nd.children, index)
				path = append(path, nd)
				tree.condense(path)
				return tree
			}
''','''			for index = range nd.children {
				if predicate(nd, index) {
					nd.children = removeNode(nd.children, index)
					tree.condense(append(path, nd))
					return tree
				}
			}
'''),
("coll-shared","node/collapse.go",'''	var c *geom.Point
	if ai.Equals2D(bi) || aj.Equals2D(bi) {
		c = bi
	} else if ai.Equals2D(bj) || aj.Equals2D(bj) {
		c = bj
	} else {
		return true
	}
''','''	var touches = func(p *geom.Point) bool {
		return ai.Equals2D(p) || aj.Equals2D(p)
	}
	var c *geom.Point
	switch {
	case touches(bi):
		c = bi
	case touches(bj):
		c = bj
	default:
		return true
	}
'''),
("sed-speed","offset/sed.go",'''		m = 0
		if dt != 0 { //no motion to synchronise with when no time elapses
			m = (mij / dt) * (ptt - at)
		}
		px, py = ax+(m*vx), ay+(m*vy)
		dist = hypotFn(ptx-px, pty-py)
''','''		px, py = synchronised(ax, ay, vx, vy, mij, dt, ptt-at)
		dist = hypotFn(ptx-px, pty-py)
''',"offset/sed.go","FUNC func squareHypot(",'''func squareHypot(p, q float64) float64 {
	return (p * p) + (q * q)
}

func synchronised(x, y, vx, vy, length, dt, t float64) (float64, float64) {
	if dt == 0 {
		return x, y
	}
	var m = (length / dt) * t
	return x + m*vx, y + m*vy
}
''',"offset/sed.go","var dist, m, ptx","var dist, ptx"),
("homo-xor","homotopy/homotopy.go",'''		if lnBln && simpleBln {
			exclude.Push(c)
		} else if !lnBln && !simpleBln {
			disjoint.Push(c)
		} else {
			xor.Push(c)
		}
''','''		if lnBln != simpleBln {
			xor.Push(c)
			continue
		}
		if lnBln {
			exclude.Push(c)
		} else {
			disjoint.Push(c)
		}
'''),
("homo-dest","homotopy/homotopy.go",'''		if lnBln && simpleBln {
			exclude.Push(c)
		} else if !lnBln && !simpleBln {
			disjoint.Push(c)
		} else {
			xor.Push(c)
		}
''','''		var dest = xor
		if lnBln && simpleBln {
			dest = exclude
		} else if !(lnBln || simpleBln) {
			dest = disjoint
		}
		dest.Push(c)
'''),
("rng-start","rng/split.go","FUNC func (o Rng) Split(",'''func (o Rng) Split(idxs []int) []Rng {
	var sub = make([]Rng, 0)
	var start = o.I
	for _, idx := range iter.SortedIntsSet(idxs) {
		if o.I < idx && idx < o.J {
			sub = append(sub, Range(start, idx))
			start = idx
		}
	}
	if len(sub) > 0 && start < o.J {
		sub = append(sub, Range(start, o.J))
	}
	return sub
}
'''),
("toself-cg","constrain/toself.go",'''		var pt = polyline.Pt(i)
		var cg = ctx.New(pt, 0, -1).AsPlanarVertex()

		cg.Meta.Planar = append(cg.Meta.Planar, i)
		selfInters.Push(cg)
''','''		selfInters.Push(planarVertexAt(polyline, i))
''',"constrain/toself.go","FUNC func ToSelfIntersects(",None) if 0 else None,
("toself-mark","constrain/toself.go",'''		var indices = inter.Meta.Planar
		if inter.IsNonPlanarVertex() {
			indices = inter.Meta.NonPlanar
		}
		for _, v := range indices {
			atVertexSet[v] = true
		}
''','''		if inter.IsNonPlanarVertex() {
			markAll(atVertexSet, inter.Meta.NonPlanar)
		} else {
			markAll(atVertexSet, inter.Meta.Planar)
		}
''',"constrain/toself.go","func ToSelfIntersects(",'''func markAll(set map[int]bool, indices []int) {
	for k := range indices {
		set[indices[k]] = true
	}
}

func ToSelfIntersects('''),
]
R+=[("planar-groups3",L+"self.go","FUNC func planarIntersects(",'''func planarIntersects(polyline *geometry.Polyline) *ctx.ContextGeometries {
	var points = make([]vertex, 0, polyline.Coordinates.Len())
	for i := range polyline.Coordinates.Idxs {
		points = append(points, vertex{polyline.Pt(i), i, NullFId})
	}
	vertices(points).Sort()
	var results = ctx.NewContexts()
	var n = len(points)
	for start := 0; start < n; {
		var end = start
		var indices = []int{points[start].index}
		for end+1 < n && points[end].Equals2D(points[end+1].Point) {
			end++
			indices = append(indices, points[end].index)
		}
		if len(indices) > 1 {
			var cg = ctx.New(points[end].Point, 0, -1).AsPlanarVertex()
			cg.Meta.Planar = iter.SortedIntsSet(indices)
			results.Push(cg)
		}
		start = end + 1
	}
	return results
}
'''),
("fcplanar-groups",L+"fc.go","FUNC func FCPlanarSelfIntersection(",'''func FCPlanarSelfIntersection(featureClass []*FC) map[int][]int {
	var points = make([]vertex, 0)
	for _, self := range featureClass {
		points = appendVertices(points, self.Coordinates, self.Fid)
	}
	vertices(points).Sort()
	var results = make(map[int][]int)
	for i := 0; i < len(points); {
		var j = groupEnd(points, i)
		if j-i > 1 {
			for _, v := range points[i:j] {
				results[v.fid] = append(results[v.fid], v.index)
			}
		}
		i = j
	}
	return results
}

func groupEnd(points []vertex, i int) int {
	var j = i + 1
	for j < len(points) && points[j-1].Equals2D(points[j].Point) {
		j++
	}
	return j
}
'''),
]
R=[r for r in R if r]
