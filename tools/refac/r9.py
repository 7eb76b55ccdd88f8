H="hdb/"; O="offset/"; M="homotopy/"; N="node/"; C="ctx/"; K="constrain/"; S="split/"; W="knn/"
R=[
("ins-early",H+"insert.go","FUNC func (tree *Hdb) insert(",'''func (tree *Hdb) insert(item *node.Node) *Hdb {
	if item != nil {
		var path = make([]*dbNode, 0, tree.maxEntries)
		nd, path := chooseSubtree(&item.MBR, &tree.data, tree.data.height-1, path)
		nd.addChild(newLeafNode(item))
		nd.bbox.ExpandIncludeMBR(&item.MBR)

		level, path := tree.splitOnOverflow(tree.data.height-1, path)
		tree.adjustParentBBoxes(&item.MBR, path, level)
	}
	return tree
}
'''),
("ins-helper",H+"insert.go",'''	var nd *dbNode
	var insertPath = make([]*dbNode, 0, tree.maxEntries)

	// find the best dbNode for accommodating the item, saving all nodes along the path too
	nd, insertPath = chooseSubtree(&item.MBR, &tree.data, level, insertPath)

	// put the item into the dbNode item_bbox
	nd.addChild(newLeafNode(item))
	nd.bbox.ExpandIncludeMBR(&item.MBR)

	// split on dbNode overflow propagate upwards if necessary
	level, insertPath = tree.splitOnOverflow(level, insertPath)

	// adjust bboxes along the insertion path
	tree.adjustParentBBoxes(&item.MBR, insertPath, level)
	return tree
}

//insert - private
func (tree *Hdb) insertNode(item dbNode, level int) {
	var nd *dbNode
	var insertPath []*dbNode

	// find the best dbNode for accommodating the item, saving all nodes along the path too
	nd, insertPath = chooseSubtree(&item.bbox, &tree.data, level, insertPath)

	nd.children = append(nd.children, item)
	nd.bbox.ExpandIncludeMBR(&item.bbox)

	// split on dbNode overflow propagate upwards if necessary
	level, insertPath = tree.splitOnOverflow(level, insertPath)

	// adjust bboxes along the insertion path
	tree.adjustParentBBoxes(&item.bbox, insertPath, level)
}
''','''	tree.insertAt(newLeafNode(item), &item.MBR, level, make([]*dbNode, 0, tree.maxEntries))
	return tree
}

//insertNode - private
func (tree *Hdb) insertNode(item dbNode, level int) {
	tree.insertAt(item, &item.bbox, level, nil)
}

//insertAt places the entry beneath the best dbNode of the given level
func (tree *Hdb) insertAt(entry dbNode, bbox *mbr.MBR, level int, insertPath []*dbNode) {
	var nd *dbNode
	nd, insertPath = chooseSubtree(bbox, &tree.data, level, insertPath)

	nd.addChild(entry)
	nd.bbox.ExpandIncludeMBR(bbox)

	level, insertPath = tree.splitOnOverflow(level, insertPath)
	tree.adjustParentBBoxes(bbox, insertPath, level)
}
'''),
("overflow-for",H+"insert.go","FUNC func (tree *Hdb) splitOnOverflow(",'''func (tree *Hdb) splitOnOverflow(level int, insertPath []*dbNode) (int, []*dbNode) {
	for ; level >= 0; level-- {
		if len(insertPath[level].children) <= tree.maxEntries {
			break
		}
		tree.split(insertPath, level)
	}
	return level, insertPath
}
'''),
("subtree-helper",H+"insert.go",'''			minx, miny = b_minx, b_miny
			maxx, maxy = b_maxx, b_maxy

			ch_minx, ch_miny = chbox.MinX, chbox.MinY
			ch_maxx, ch_maxy = chbox.MaxX, chbox.MaxY

			if ch_minx < minx {
				minx = ch_minx
			}
			if ch_miny < miny {
				miny = ch_miny
			}
			if ch_maxx > maxx {
				maxx = ch_maxx
			}
			if ch_maxy > maxy {
				maxy = ch_maxy
			}
''','''			ch_minx, ch_miny = chbox.MinX, chbox.MinY
			ch_maxx, ch_maxy = chbox.MaxX, chbox.MaxY

			minx, miny = min(b_minx, ch_minx), min(b_miny, ch_miny)
			maxx, maxy = max(b_maxx, ch_maxx), max(b_maxy, ch_maxy)
'''),
("subtree-range",H+"insert.go",'''		for i, length := 0, len(nd.children); i < length; i++ {
			child = &nd.children[i]
			chbox = &child.bbox
''','''		for i := range nd.children {
			child = &nd.children[i]
			chbox = &child.bbox
'''),
("subtree-loopcond",H+"insert.go",'''	for {
		path = append(path, nd)
		if nd.leaf || (len(path)-1 == level) {
			break
		}
		minArea, minEnlargement = inf, inf
''','''	for path = append(path, nd); !nd.leaf && len(path)-1 != level; path = append(path, nd) {
		minArea, minEnlargement = inf, inf
'''),
("isect-demorgan",H+"insert.go","FUNC func intersects(",'''func intersects(a, b *mbr.MBR) bool {
	if b.MinX > a.MaxX || b.MaxX < a.MinX {
		return false
	}
	if b.MinY > a.MaxY || b.MaxY < a.MinY {
		return false
	}
	return true
}
'''),
("iarea-minmax",H+"insert.go","FUNC func intersectionArea(",'''func intersectionArea(a, b *mbr.MBR) float64 {
	if !intersects(a, b) {
		return 0
	}
	var width = min(a.MaxX, b.MaxX) - max(a.MinX, b.MinX)
	var height = min(a.MaxY, b.MaxY) - max(a.MinY, b.MinY)
	return width * height
}
'''),
("contains-split",H+"insert.go","FUNC func contains(",'''func contains(a, b *mbr.MBR) bool {
	var within = b.MinX >= a.MinX && b.MaxX <= a.MaxX
	if !within {
		return false
	}
	return b.MinY >= a.MinY && b.MaxY <= a.MaxY
}
'''),
("condense-for",H+"remove.go","FUNC func (tree *Hdb) condense(",'''func (tree *Hdb) condense(path []*dbNode) {
	for i := len(path) - 1; i >= 0; i-- {
		if len(path[i].children) != 0 {
			calcBBox(path[i])
			continue
		}
		if i == 0 {
			//root is empty, rest root
			tree.Clear()
			continue
		}
		detachChild(path[i-1], path[i])
	}
}

func detachChild(parent, child *dbNode) {
	for s := range parent.children {
		if &parent.children[s] == child {
			parent.children = removeNode(parent.children, s)
			return
		}
	}
}
'''),
("condense-var",H+"remove.go",'''			if i > 0 {
				parent = path[i-1]
				index := sliceIndex(len(parent.children), func(s int) bool {
					return path[i] == &parent.children[s]
				})
				if index != -1 {
					parent.children = removeNode(parent.children, index)
				}
			} else {
				//root is empty, rest root
				tree.Clear()
			}
''','''			if i == 0 {
				tree.Clear()
			} else {
				parent = path[i-1]
				var self = path[i]
				if index := sliceIndex(len(parent.children), func(s int) bool {
					return self == &parent.children[s]
				}); index >= 0 {
					parent.children = removeNode(parent.children, index)
				}
			}
'''),
("remove-helper",H+"remove.go",'''		if nd.leaf {
			// check current dbNode
			//index = dbNode.children.indexOf(item)
			index = sliceIndex(len(nd.children), func(i int) bool {
				return predicate(nd, i)
			})

			//if found
			if index != -1 {
				//item found, remove the item and condense self upwards
				//dbNode.children.splice(index, 1)
				nd.children = removeNode(nd.children, index)
				path = append(path, nd)
				tree.condense(path)
				return tree
			}
		}
''','''		if nd.leaf {
			// check current dbNode
			index = findChild(nd, predicate)
			if index >= 0 {
				//item found, remove the item and condense self upwards
				nd.children = removeNode(nd.children, index)
				tree.condense(append(path, nd))
				return tree
			}
		}
'''+"",1),
("rmnode-copy",H+"remove.go","FUNC func popNode(",'''func popNode(a []*dbNode) (*dbNode, []*dbNode) {
	var n = len(a) - 1
	if n < 0 {
		return nil, a
	}
	var v = a[n]
	a[n] = nil
	return v, a[:n]
}
'''),
("popidx",H+"remove.go","FUNC func popIndex(",'''func popIndex(indxs *[]int) int {
	var a = *indxs
	if len(a) == 0 {
		return 0
	}
	var n = len(a) - 1
	var v = a[n]
	a[n] = 0
	*indxs = a[:n]
	return v
}
'''),
("nodeat",H+"remove.go","FUNC func nodeSiblingAtIndex(",'''func nodeSiblingAtIndex(a []dbNode, i int) *dbNode {
	if i >= 0 && i < len(a) {
		return &a[i]
	}
	return nil
}
'''),
("rm-pred",H+"remove.go","FUNC func (tree *Hdb) Remove(",'''func (tree *Hdb) Remove(item *node.Node) *Hdb {
	if item != nil {
		var id = item.Id
		var sameItem = func(nd *dbNode, i int) bool {
			return id == nd.children[i].item.Id
		}
		tree.removeItem(&item.MBR, sameItem)
	}
	return tree
}
'''),
("knn-pushhelper",H+"knn.go",'''		for i := range nd.children {
			child = &nd.children[i]
			var o = &KObj{
				dbNode:   child,
				MBR:      &child.bbox,
				IsItem:   len(child.children) == 0,
				Distance: -1,
			}
			o.Distance = score(&query, o)
			queue.Push(o)
		}
''','''		for i := range nd.children {
			child = &nd.children[i]
			queue.Push(scoredObject(child, &query, score))
		}
'''),
("knn-next",H+"knn.go",'''		if !stop {
			var q = queue.Pop()
			if q == nil {
				nd = nil
			} else {
				nd = q.(*KObj).dbNode
			}
		}
	}
	return result
''','''		if stop {
			break
		}

		nd = nil
		if q := queue.Pop(); q != nil {
			nd = q.(*KObj).dbNode
		}
	}
	return result
'''),
("knn-limit",H+"knn.go",'''			if pred {
				result = append(result, candidate.GetNode())
			}

			if stop {
				break
			}

			if limit != 0 && len(result) == limit {
				return result
			}
''','''			if pred {
				result = append(result, candidate.GetNode())
			}
			if stop {
				return result
			}
			if len(result) == limit && limit != 0 {
				return result
			}
'''),
("kobj-switch",H+"kobj.go",'''	var dx = self.Distance - other.Distance
	var r = 1
	if feq(dx, 0) {
		r = 0
	} else if dx < 0 {
		r = -1
	}
	return r
''','''	var dx = self.Distance - other.Distance
	switch {
	case feq(dx, 0):
		return 0
	case dx < 0:
		return -1
	default:
		return 1
	}
'''),
("load-helper",H+"load.go",'''	// recursively build the tree with the given data from stratch using OMT algorithm
	var nd = tree.buildTree(data, 0, n-1, 0)

	if len(tree.data.children) == 0 {
		// save as is if tree is empty
		tree.data = nd
	} else if tree.data.height == nd.height {
		// split root if trees have the same height
		tree.splitRoot(tree.data, nd)
	} else {
		if tree.data.height < nd.height {
			// swap trees if inserted one is bigger
			tree.data, nd = nd, tree.data
		}

		// insert the small tree into the large tree at appropriate level
		tree.insertNode(nd, tree.data.height-nd.height-1)
	}

	return tree
}
''','''	tree.graft(tree.buildTree(data, 0, n-1, 0))
	return tree
}

//graft joins a bulk-built tree with the current one
func (tree *Hdb) graft(nd dbNode) {
	switch {
	case len(tree.data.children) == 0:
		tree.data = nd
	case tree.data.height == nd.height:
		tree.splitRoot(tree.data, nd)
	default:
		if nd.height > tree.data.height {
			tree.data, nd = nd, tree.data
		}
		tree.insertNode(nd, tree.data.height-nd.height-1)
	}
}
'''),
("load-ptrs",H+"load.go",'''	var data = make([]*node.Node, n)
	for i := range items {
		data[i] = &items[i]
	}
''','''	var data = make([]*node.Node, 0, n)
	for i := range items {
		data = append(data, &items[i])
	}
'''),
("build-leaf",H+"build.go",'''	if N <= M {
		// reached leaf level return leaf
		var n = createDBNode(nil, 1, true,
			makeChildren(items[left:right+1:right+1]))
		calcBBox(&n)
		return n
	}
''','''	if N <= M {
		return leafOf(items[left : right+1 : right+1])
	}
'''),
("select-stack",H+"select.go",'''		if right-left <= n {
			continue
		}

		mid = left + int(math.Ceil(float64(right-left)/float64(n)/2.0))*n
		selectBox(arr, mid, left, right, compare)
		stack = appendInts(stack, left, mid, mid, right)
''','''		if right-left > n {
			var span = float64(right - left)
			mid = left + int(math.Ceil(span/float64(n)/2.0))*n
			selectBox(arr, mid, left, right, compare)
			stack = append(stack, left, mid, mid, right)
		}
'''),
("split-level",H+"split.go",'''	if level > 0 {
		insertPath[level-1].addChild(newNode)
	} else {
		tree.splitRoot(*nd, newNode)
	}
''','''	if level <= 0 {
		tree.splitRoot(*nd, newNode)
		return
	}
	var parent = insertPath[level-1]
	parent.addChild(newNode)
'''),
("splitidx-merge",H+"split.go",'''		// choose distribution with minimum overlap
		if overlap < minOverlap {
			minOverlap = overlap
			index = i

			if area < minArea {
				minArea = area
			}
		} else if overlap == minOverlap {
			// otherwise choose distribution with minimum area
			if area < minArea {
				minArea = area
				index = i
			}
		}
''','''		if overlap < minOverlap {
			minOverlap = overlap
			index = i
			minArea = math.Min(minArea, area)
		} else if overlap == minOverlap && area < minArea {
			minArea = area
			index = i
		}
'''),
("splitaxis-var",H+"split.go","FUNC func (tree *Hdb) chooseSplitAxis(",'''func (tree *Hdb) chooseSplitAxis(nd *dbNode, m, M int) {
	var xMargin = tree.allDistMargin(nd, m, M, byX)
	if xMargin < tree.allDistMargin(nd, m, M, byY) {
		sort.Sort(xNodePath{nd.children})
	}
}
'''),
("margin-switch",H+"mbr.go",'''	if sortBy == byX {
		sort.Sort(xNodePath{nd.children})
		//bubbleAxis(*dbNode.getChildren(), byX, byY)
	} else if sortBy == byY {
		sort.Sort(yNodePath{nd.children})
		//bubbleAxis(*dbNode.getChildren(), byY, byX)
	}

	var i int
''','''	switch sortBy {
	case byX:
		sort.Sort(xNodePath{nd.children})
	case byY:
		sort.Sort(yNodePath{nd.children})
	}

	var i int
'''),
("distbbox-range",H+"mbr.go","FUNC func distBBox(",'''func distBBox(nd *dbNode, k, p int) mbr.MBR {
	var bbox = emptyMBR()
	for k < p {
		var child = &nd.children[k]
		bbox.ExpandIncludeMBR(&child.bbox)
		k++
	}
	return bbox
}
'''),
("slindex",H+"util.go","FUNC func sliceIndex(",'''func sliceIndex(limit int, predicate func(i int) bool) int {
	for i := 0; i < limit; i++ {
		if predicate(i) {
			return i
		}
	}
	return -1
}
'''),
("splitat-copy",H+"util.go","FUNC func splitAtIndex(",'''func splitAtIndex(nodes []dbNode, index int) ([]dbNode, []dbNode) {
	var tail = nodes[index:]
	var ext = append(make([]dbNode, 0, len(tail)), tail...)
	for i := range tail {
		tail[i] = dbNode{}
	}
	return nodes[:index], ext
}
'''),
("homo-early",M+"homotopy.go",'''	var ch = chainDeformation(coordinates, disjoint)
	var n = coordinates.Len() - 1
	if ch.size == 2 {
		var a, b = ch.link.Point, ch.link.next.Point
		bln = coordinates.Pt(0).Equals2D(a) && coordinates.Pt(n).Equals2D(b)
	}
	return bln
''','''	var ch = chainDeformation(coordinates, disjoint)
	if ch.size != 2 {
		return false
	}
	var n = coordinates.Len() - 1
	var first, last = ch.link.Point, ch.link.next.Point
	bln = coordinates.Pt(0).Equals2D(first) && coordinates.Pt(n).Equals2D(last)
	return bln
'''),
("homo-switch",M+"homotopy.go",'''		if lnBln && simpleBln {
			exclude.Push(c)
		} else if !lnBln && !simpleBln {
			disjoint.Push(c)
		} else {
			xor.Push(c)
		}
''','''		switch {
		case lnBln != simpleBln:
			xor.Push(c)
		case lnBln:
			exclude.Push(c)
		default:
			disjoint.Push(c)
		}
'''),
("chain-sweep",M+"deform.go",'''	for deformable && chain.size > 2 {
		deformable = false
		var link = chain.link
		for link != nil {
			if collapseVertex(link, db) {
				remove(link)
				chain.size += -1
				deformable = true
			}
			link = link.next
		}
		//printChain(chain)
	}
	return chain
''','''	for deformable && chain.size > 2 {
		var before = chain.size
		for link := chain.link; link != nil; link = link.next {
			if collapseVertex(link, db) {
				remove(link)
				chain.size--
			}
		}
		deformable = chain.size < before
	}
	return chain
'''),
("chain-sweephelper",M+"deform.go",'''	for deformable && chain.size > 2 {
		deformable = false
		var link = chain.link
		for link != nil {
			if collapseVertex(link, db) {
				remove(link)
				chain.size += -1
				deformable = true
			}
			link = link.next
		}
		//printChain(chain)
	}
	return chain
''','''	for deformable && chain.size > 2 {
		deformable = sweep(chain, db)
	}
	return chain
}

//sweep collapses the vertices it can, reports whether any was
func sweep(chain *Chain, db *rtree.RTree) bool {
	var collapsed bool
	for link := chain.link; link != nil; link = link.next {
		if !collapseVertex(link, db) {
			continue
		}
		remove(link)
		chain.size--
		collapsed = true
	}
	return collapsed
'''),
("ctxdb",M+"deform.go","FUNC func contextDB(",'''func contextDB(contexts *ctx.ContextGeometries) *rtree.RTree {
	var objects []rtree.BoxObject
	for _, c := range contexts.DataView() {
		objects = append(objects, c)
	}
	var db = rtree.NewRTree()
	db.Load(objects)
	return db
}
'''),
("collapsev",M+"deform.go",'''	var bln = true
	var a, b, c = va.Point, vb.Point, vc.Point

	var box = a.BBox().ExpandIncludeXY(b[geom.X], b[geom.Y]).ExpandIncludeXY(
		c[geom.X], c[geom.Y],
	)
	var neighbours = db.Search(*box)
	if len(neighbours) > 0 {
		bln = isTriangleCollapsible(a, b, c, neighbours)
	}
	return bln
''','''	var a, b, c = va.Point, vb.Point, vc.Point
	var box = a.BBox()
	box.ExpandIncludeXY(b[geom.X], b[geom.Y])
	box.ExpandIncludeXY(c[geom.X], c[geom.Y])

	var neighbours = db.Search(*box)
	return len(neighbours) == 0 || isTriangleCollapsible(a, b, c, neighbours)
'''),
("tricollapse",M+"deform.go","FUNC func isTriangleCollapsible(",'''func isTriangleCollapsible(a, b, c *geom.Point, neighbours []rtree.BoxObject) bool {
	var triangle = geom.NewPolygon(geom.Coordinates([]geom.Point{*a, *b, *c, *a}))
	for _, nb := range neighbours {
		var g = nb.(*ctx.ContextGeometry).Geom.Geometry()
		if triangle.Intersects(g) {
			return false
		}
	}
	return true
}
'''),
("newchain",M+"chain.go","FUNC func NewChain(",'''func NewChain(coordinates geom.Coords) *Chain {
	var n = coordinates.Len()
	var head = &Vertex{Point: coordinates.Pt(0)}
	var prev = head
	for i := 1; i < n; i++ {
		var next = &Vertex{Point: coordinates.Pt(i), i: i, prev: prev}
		ptrs(prev, next)
		prev = next
	}
	return &Chain{
		link:   head,
		size:   n,
		simple: geom.NewSegment(coordinates, 0, n-1),
	}
}
'''),
("remove-guard",M+"chain.go","FUNC func remove(",'''func remove(link *Vertex) {
	if link == nil {
		return
	}
	var prev, next = link.prev, link.next
	if prev != nil {
		prev.next = next
	}
	if next != nil {
		next.prev = prev
	}
}
'''),
("maxoff-early",O+"dp.go",'''	var dist float64
	var a, b = coordinates.Pt(0), coordinates.Pt(n)
	for k := 1; k < n; k++ { //exclusive range between 0 < k < n
		dist = distFn(a, b, coordinates.Pt(k))
		if dist >= offset {
			index, offset = k, dist
		}
	}

	return index, offset
''','''	var first, last = coordinates.Pt(0), coordinates.Pt(n)
	for k := 1; k <= n-1; k++ {
		var dist = distFn(first, last, coordinates.Pt(k))
		if dist < offset {
			continue
		}
		index = k
		offset = dist
	}
	return index, offset
'''),
("sed-helper",O+"sed.go",'''		m = 0
		if dt != 0 { //no motion to synchronise with when no time elapses
			m = (mij / dt) * (ptt - at)
		}
		px, py = ax+(m*vx), ay+(m*vy)
		dist = hypotFn(ptx-px, pty-py)
''','''		m = travelled(mij, dt, ptt-at)
		px, py = ax+(m*vx), ay+(m*vy)
		dist = hypotFn(ptx-px, pty-py)
'''),
("sed-speed",O+"sed.go",'''		m = 0
		if dt != 0 { //no motion to synchronise with when no time elapses
			m = (mij / dt) * (ptt - at)
		}
''','''		if dt == 0 {
			m = 0
		} else {
			m = (mij / dt) * (ptt - at)
		}
'''),
("hypot-max",O+"sed.go","FUNC func hypot(",'''func hypot(p, q float64) float64 {
	if p < 0 {
		p = -p
	}
	if q < 0 {
		q = -q
	}
	var big, small = p, q
	if p < q {
		big, small = q, p
	}
	if big == 0 {
		return 0
	}
	var ratio = small / big
	return big * math.Sqrt(1+ratio*ratio)
}
'''),
("direction",O+"sed.go","FUNC func direction(",'''func direction(x, y float64) float64 {
	var d = math.Atan2(y, x)
	if d >= 0 {
		return d
	}
	return d + math.Tau
}
'''),
("collapsible-helper",N+"collapse.go",'''	var c *geom.Point
	if ai.Equals2D(bi) || aj.Equals2D(bi) {
		c = bi
	} else if ai.Equals2D(bj) || aj.Equals2D(bj) {
		c = bj
	} else {
		return true
	}

	var t = bj
	if c.Equals2D(t) {
		t = bi
	}
''','''	var touches = func(p *geom.Point) bool {
		return ai.Equals2D(p) || aj.Equals2D(p)
	}

	var c *geom.Point
	switch {
	case touches(bi):
		c = bi
	case touches(bj):
		c = bj
	default:
		return true
	}

	var t = bj
	if c.Equals2D(bj) {
		t = bi
	}
'''),
("collapsible-guard",N+"collapse.go",'''	// segments are already collapsed
	if node.Range.Size() == 1 {
		return true
	}
	// or hull can be a linear for
	// colinear boundaries where node.range.size > 1
	if node.Geom.Type().IsLineString() {
		return true
	}
''','''	if node.Range.Size() == 1 || node.Geom.Type().IsLineString() {
		return true
	}
'''),
("collapsible-assert",N+"collapse.go",'''	if ply, ok := node.Geom.Geometry().(*geom.Polygon); ok {
		return !ply.Shell.PointCompletelyInRing(t)
	}
	panic("unimplemented : hull type is handled")
''','''	ply, ok := node.Geom.Geometry().(*geom.Polygon)
	if !ok {
		panic("unimplemented : hull type is handled")
	}
	return !ply.Shell.PointCompletelyInRing(t)
'''),
("contig-early",N+"contig.go","FUNC func IsContiguous(",'''func IsContiguous(a, b *Node) (bool, bool, int) {
	if !a.Geom.Intersects(b.Geom) {
		return false, false, 0
	}
	var interpts = a.Geom.Intersection(b.Geom)
	var ai, aj = a.SegmentPoints()
	var bi, bj = b.SegmentPoints()

	for _, pt := range interpts {
		if !(pt.Equals2D(ai) || pt.Equals2D(aj) || pt.Equals2D(bi) || pt.Equals2D(bj)) {
			continue
		}
		if aj.Equals2D(bi) || aj.Equals2D(bj) || ai.Equals2D(bj) || ai.Equals2D(bi) {
			return true, true, len(interpts)
		}
	}
	return true, false, len(interpts)
}
'''),
("mknode-local",N+"node.go",'''	var g = geomFn(geom.ConvexHull(coordinates))
	return Node{
		Id:       id.Next(),
		Polyline: geom.NewLineString(coordinates),
		Range:    rng,
		MBR:      g.Bounds(),
		Geom:     g,
		Instance: instance,
	}
''','''	var hull = geom.ConvexHull(coordinates)
	var g = geomFn(hull)
	var nd = Node{Id: id.Next(), Range: rng, Geom: g, Instance: instance}
	nd.MBR = g.Bounds()
	nd.Polyline = geom.NewLineString(coordinates)
	return nd
'''),
("seg-idx",N+"node.go",'''	return geom.NewSegment(
		node.Polyline.Coordinates, 0, node.Polyline.Coordinates.Len()-1,
	)
''','''	var coords = node.Coordinates()
	return geom.NewSegment(coords, 0, coords.Len()-1)
'''),
("csplit-helper",K+"split.go",'''		var idxs []int
		if inter.IsPlanarVertex() {
			idxs = inter.Meta.Planar
		} else if inter.IsNonPlanarVertex() {
			idxs = inter.Meta.NonPlanar
		}
		if len(idxs) == 0 {
			continue
		}
''','''		var idxs = splitIndices(inter)
		if len(idxs) == 0 {
			continue
		}
'''),
("csplit-load",K+"split.go",'''			if len(tokens) == 0 {
				continue
			}
			db.Remove(hull).Load(tokens)
''','''			if len(tokens) > 0 {
				db.Remove(hull)
				db.Load(tokens)
			}
'''),
("atidx-make",S+"split.go",'''	var subHulls = make([]node.Node, 0, len(ranges))
	var I = hull.Range.I
	for _, r := range ranges {
		subHulls = append(subHulls, node.CreateNode(id, coordinates.Slice(r.I-I, r.J-I+1), r, gfn, hull.Instance))
	}
	return subHulls
''','''	var subHulls = make([]node.Node, len(ranges))
	for k, r := range ranges {
		var i, j = r.I - hull.Range.I, r.J - hull.Range.I
		subHulls[k] = node.CreateNode(id, coordinates.Slice(i, j+1), r, gfn, hull.Instance)
	}
	return subHulls
'''),
("atscore-order",S+"split.go",'''	var rg = hull.Range
	var i, j = rg.I, rg.J
	var k, _ = scoreFn(coordinates)
	var idx = rg.I + k
''','''	var k, _ = scoreFn(coordinates)
	var i, j = hull.Range.I, hull.Range.J
	var idx = k + i
'''),
("nodenb-helper",W+"neighbours.go",'''	for _, nd := range inters {
		if nd.Id != hull.Id && nd.Geom.Distance(hull.Geom) <= dist {
			ns = append(ns, nd)
		}
	}
	return ns
''','''	for i := range inters {
		var nd = inters[i]
		if nd.Id == hull.Id {
			continue
		}
		if nd.Geom.Distance(hull.Geom) <= dist {
			ns = append(ns, nd)
		}
	}
	return ns
'''),
("find-default",W+"knn.go",'''	var fn func(*hdb.KObj) (bool, bool)

	if len(predicate) > 0 {
		fn = predicate[0]
	} else {
		fn = PredicateFn(dist)
	}
''','''	var fn = PredicateFn(dist)
	if len(predicate) != 0 {
		fn = predicate[0]
	}
'''),
("score-helper",W+"knn.go",'''		var other geom.Geometry
		//item is box from rtree
		var nd = item.GetNode()
		if nd == nil {
			other = box.MBRToPolygon(*item.MBR)
		} else {
			other = nd.Geom
		}
		return query.Distance(other)
''','''		if nd := item.GetNode(); nd != nil {
			return query.Distance(nd.Geom)
		}
		return query.Distance(box.MBRToPolygon(*item.MBR))
'''),
("pred-near",W+"knn.go",'''		if candidate.Distance <= dist {
			return true, false
		}
		return false, true
''','''		var near = candidate.Distance <= dist
		return near, !near
'''),
("asctx",C+"ctx.go","FUNC func (o *ContextGeometry) AsContextGeometries(",'''func (o *ContextGeometry) AsContextGeometries(objects ...*ContextGeometry) *ContextGeometries {
	var contexts = NewContexts(o)
	contexts.Extend(objects)
	return contexts
}
'''),
("extend-loop",C+"ctxs.go","FUNC func (self *ContextGeometries) Extend(",'''func (self *ContextGeometries) Extend(o []*ContextGeometry) *ContextGeometries {
	for _, c := range o {
		self.list = append(self.list, c)
	}
	return self
}
'''),
]
# helpers that some entries need, appended to the edited file
EXTRA={
"remove-helper":'''
//findChild index of the first child that satisfies the predicate
func findChild(nd *dbNode, predicate func(*dbNode, int) bool) int {
	return sliceIndex(len(nd.children), func(i int) bool {
		return predicate(nd, i)
	})
}
''',
"knn-pushhelper":'''
//scoredObject wraps a dbNode with its score
func scoredObject(child *dbNode, query *mbr.MBR, score func(*mbr.MBR, *KObj) float64) *KObj {
	var o = &KObj{dbNode: child, MBR: &child.bbox, Distance: -1}
	o.IsItem = len(child.children) == 0
	o.Distance = score(query, o)
	return o
}
''',
"build-leaf":'''
func leafOf(items []*node.Node) dbNode {
	var leaf = createDBNode(nil, 1, true, makeChildren(items))
	calcBBox(&leaf)
	return leaf
}
''',
"sed-helper":'''
//travelled distance after the elapsed time
func travelled(length, duration, elapsed float64) float64 {
	if duration == 0 {
		return 0
	}
	return (length / duration) * elapsed
}
''',
"csplit-helper":'''
func splitIndices(inter *ctx.ContextGeometry) []int {
	if inter.IsPlanarVertex() {
		return inter.Meta.Planar
	}
	if inter.IsNonPlanarVertex() {
		return inter.Meta.NonPlanar
	}
	return nil
}
''',
}
R=[tuple(e[:4]) for e in R]
