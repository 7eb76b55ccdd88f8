R=[
("adj-down","hdb/adj.go",'''	for i := level; i >= 0; i-- {
		path[i].bbox.ExpandIncludeMBR(bbox)
	}
''','''	for level >= 0 {
		var nd = path[level]
		nd.bbox.ExpandIncludeMBR(bbox)
		level--
	}
'''),
("build-helper","hdb/build.go",'''	if N <= M {
		// reached leaf level return leaf
		var n = createDBNode(nil, 1, true,
			makeChildren(items[left:right+1:right+1]))
		calcBBox(&n)
		return n
	}
''','''	if !(N > M) {
		return buildLeaf(items[left : right+1 : right+1])
	}
''',"hdb/build.go","//build\n","""func buildLeaf(items []*node.Node) dbNode {
	var leaf = createDBNode(nil, 1, true, makeChildren(items))
	calcBBox(&leaf)
	return leaf
}

//build
"""),
("build-while","hdb/build.go",'''	for i = left; i <= right; i += N1 {
		right2 = minInt(i+N1-1, right)
		multiSelect(items, i, right2, N2, cmpMinY)

		for j = i; j <= right2; j += N2 {
			right3 = minInt(j+N2-1, right2)
			// pack each entry recursively
			n.addChild(tree.buildTree(items, j, right3, height-1))
		}
	}
''','''	i = left
	for i <= right {
		right2 = i + N1 - 1
		if right2 > right {
			right2 = right
		}
		multiSelect(items, i, right2, N2, cmpMinY)

		j = i
		for j <= right2 {
			right3 = minInt(right2, j+N2-1)
			var child = tree.buildTree(items, j, right3, height-1)
			n.children = append(n.children, child)
			j += N2
		}
		i += N1
	}
'''),
("insert-guard","hdb/insert.go",'''	if item == nil {
		return tree
	}
	var level = tree.data.height - 1

	var nd *dbNode
	var insertPath = make([]*dbNode, 0, tree.maxEntries)

	// find the best dbNode for accommodating the item, saving all nodes along the path too
	nd, insertPath = chooseSubtree(&item.MBR, &tree.data, level, insertPath)
''','''	if item != nil {
		tree.place(item)
	}
	return tree
}

func (tree *Hdb) place(item *node.Node) {
	var nd, insertPath = chooseSubtree(&item.MBR, &tree.data, tree.data.height-1, nil)
	var level = tree.data.height - 1
''',"hdb/insert.go",'''	tree.adjustParentBBoxes(&item.MBR, insertPath, level)
	return tree
''','''	tree.adjustParentBBoxes(&item.MBR, insertPath, level)
'''),
("overflow-break","hdb/insert.go",'''	for (level >= 0) && (len(insertPath[level].children) > tree.maxEntries) {
		tree.split(insertPath, level)
		level--
	}
	return level, insertPath
''','''	for ; level >= 0; level-- {
		var nd = insertPath[level]
		if len(nd.children) <= tree.maxEntries {
			break
		}
		tree.split(insertPath, level)
	}
	return level, insertPath
'''),
("choose-helper","hdb/insert.go",'''			minx, miny = b_minx, b_miny
			maxx, maxy = b_maxx, b_maxy

			ch_minx, ch_miny = chbox.MinX, chbox.MinY
			ch_maxx, ch_maxy = chbox.MaxX, chbox.MaxY

			if ch_minx < minx {
				minx = ch_minx
			}
			if ch_miny < miny {
				miny = ch_miny
			}
			if ch_maxx > maxx {
				maxx = ch_maxx
			}
			if ch_maxy > maxy {
				maxy = ch_maxy
			}

			area = (ch_maxx - ch_minx) * (ch_maxy - ch_miny)
			enlargement = (maxx - minx) * (maxy - miny)
''','''			ch_minx, ch_miny = chbox.MinX, chbox.MinY
			ch_maxx, ch_maxy = chbox.MaxX, chbox.MaxY

			minx, miny = min(b_minx, ch_minx), min(b_miny, ch_miny)
			maxx, maxy = max(b_maxx, ch_maxx), max(b_maxy, ch_maxy)

			area = (ch_maxx - ch_minx) * (ch_maxy - ch_miny)
			enlargement = (maxx - minx) * (maxy - miny)
'''),
("choose-range","hdb/insert.go",'''		for i, length := 0, len(nd.children); i < length; i++ {
			child = &nd.children[i]
			chbox = &child.bbox
''','''		for i := range nd.children {
			child = &nd.children[i]
			chbox = child.BBox()
'''),
("choose-switch","hdb/insert.go",'''			if d < 0 {
				minEnlargement = enlargement
				if area < minArea {
					minArea = area
				}
				targetNode = child
			} else if d == 0 || math.Abs(d) < math.EPSILON {
				// otherwise choose one with the smallest area
				if area < minArea {
					minArea = area
					targetNode = child
				}
			}
''','''			switch {
			case d < 0:
				targetNode = child
				minEnlargement = enlargement
				minArea = min(area, minArea)
			case (d == 0 || math.Abs(d) < math.EPSILON) && area < minArea:
				targetNode, minArea = child, area
			}
'''),
("area-minmax","hdb/insert.go",'''	var minx, miny, maxx, maxy = a.MinX, a.MinY, a.MaxX, a.MaxY

	if !intersects(a, b) {
		return 0
	}

	if b.MinX > minx {
		minx = b.MinX
	}

	if b.MinY > miny {
		miny = b.MinY
	}

	if b.MaxX < maxx {
		maxx = b.MaxX
	}

	if b.MaxY < maxy {
		maxy = b.MaxY
	}

	return (maxx - minx) * (maxy - miny)
''','''	if intersects(a, b) {
		var minx, miny = max(a.MinX, b.MinX), max(a.MinY, b.MinY)
		var maxx, maxy = min(a.MaxX, b.MaxX), min(a.MaxY, b.MaxY)
		return (maxx - minx) * (maxy - miny)
	}
	return 0
'''),
("contains-demorgan","hdb/insert.go",'''	return b.MinX >= a.MinX && b.MaxX <= a.MaxX && b.MinY >= a.MinY && b.MaxY <= a.MaxY
''','''	if b.MinX < a.MinX || b.MinY < a.MinY {
		return false
	}
	return a.MaxX >= b.MaxX && a.MaxY >= b.MaxY
''',"hdb/insert.go",'''	return !(b.MinX > a.MaxX || b.MaxX < a.MinX || b.MinY > a.MaxY || b.MaxY < a.MinY)
''','''	var xs = b.MinX <= a.MaxX && b.MaxX >= a.MinX
	var ys = b.MinY <= a.MaxY && b.MaxY >= a.MinY
	return xs && ys
'''),
("pop-short","hdb/remove.go",'''	var v *dbNode
	var n int
	if len(a) == 0 {
		return nil, a
	}
	n = len(a) - 1
	v, a[n] = a[n], nil
	return v, a[:n]
''','''	if n := len(a) - 1; n >= 0 {
		var v = a[n]
		a[n] = nil
		return v, a[:n]
	}
	return nil, a
'''),
("removenode-copy","hdb/remove.go",'''	var n = len(a) - 1
	if i > n {
		return a
	}
	a, a[n] = append(a[:i], a[i+1:]...), dbNode{}
	return a
''','''	var last = len(a) - 1
	if i <= last {
		var rest = append(a[:i], a[i+1:]...)
		a[last] = dbNode{}
		a = rest
	}
	return a
'''),
("condense-for","hdb/remove.go",'''	var parent *dbNode
	var i = len(path) - 1
	// go through the path, removing empty nodes and updating bboxes
	for i >= 0 {
		if len(path[i].children) == 0 {
			//go through the path, removing empty nodes and updating bboxes
			if i > 0 {
				parent = path[i-1]
				index := sliceIndex(len(parent.children), func(s int) bool {
					return path[i] == &parent.children[s]
				})
				if index != -1 {
					parent.children = removeNode(parent.children, index)
				}
			} else {
				//root is empty, rest root
				tree.Clear()
			}
		} else {
			calcBBox(path[i])
		}
		i--
	}
''','''	for i := len(path) - 1; i >= 0; i-- {
		var nd = path[i]
		if len(nd.children) > 0 {
			calcBBox(nd)
			continue
		}
		if i == 0 {
			tree.Clear()
			continue
		}
		var parent = path[i-1]
		for s := range parent.children {
			if nd == &parent.children[s] {
				parent.children = removeNode(parent.children, s)
				break
			}
		}
	}
'''),
("remove-named","hdb/remove.go",'''	if item == nil {
		return tree
	}
	tree.removeItem(&item.MBR, func(nd *dbNode, i int) bool {
		return nd.children[i].item.Id == item.Id
	})
	return tree
''','''	if item != nil {
		var id = item.Id
		var same = func(nd *dbNode, i int) bool {
			var o = nd.children[i].item
			return id == o.Id
		}
		return tree.removeItem(&item.MBR, same)
	}
	return tree
'''),
("removeitem-goup","hdb/remove.go",'''			// check current dbNode
			//index = dbNode.children.indexOf(item)
			index = sliceIndex(len(nd.children), func(i int) bool {
				return predicate(nd, i)
			})

			//if found
			if index != -1 {
				//item found, remove the item and condense self upwards
				//dbNode.children.splice(index, 1)
				nd.children = removeNode(nd.children, index)
				path = append(path, nd)
				tree.condense(path)
				return tree
			}
''','''			index = -1
			for c := range nd.children {
				if predicate(nd, c) {
					index = c
					break
				}
			}
			if index >= 0 {
				nd.children = removeNode(nd.children, index)
				tree.condense(append(path, nd))
				return tree
			}
'''),
("removeitem-swapbranch","hdb/remove.go",'''		if !goingUp && !nd.leaf && contains(&nd.bbox, bbox) {
			// go down
			path = append(path, nd)
			indexes = append(indexes, i)
			i = 0
			parent = nd
			nd = &nd.children[0]
		} else if parent != nil {
			// go right
			i++
			nd = nodeSiblingAtIndex(parent.children, i)
			goingUp = false
		} else {
			nd = nil
		} // nothing found
''','''		var down = !(goingUp || nd.leaf) && contains(&nd.bbox, bbox)
		switch {
		case down:
			indexes = append(indexes, i)
			path = append(path, nd)
			parent = nd
			i, nd = 0, &parent.children[0]
		case parent == nil:
			nd = nil
		default:
			i = i + 1
			goingUp = false
			nd = nodeSiblingAtIndex(parent.children, i)
		}
'''),
("split-temp","hdb/split.go",'''	var nd = insertPath[level]
	var newNode = createDBNode(nil, nd.height, nd.leaf, []dbNode{})
	var M = len(nd.children)
	var m = tree.minEntries

	tree.chooseSplitAxis(nd, m, M)
	var at = tree.chooseSplitIndex(nd, m, M)
	//perform split at index
	nd.children, newNode.children = splitAtIndex(nd.children, at)

	calcBBox(nd)
	calcBBox(&newNode)

	if level > 0 {
		insertPath[level-1].addChild(newNode)
	} else {
		tree.splitRoot(*nd, newNode)
	}
''','''	var nd = insertPath[level]
	var m, M = tree.minEntries, len(nd.children)

	tree.chooseSplitAxis(nd, m, M)
	var at = tree.chooseSplitIndex(nd, m, M)
	var keep, rest = splitAtIndex(nd.children, at)
	var newNode = createDBNode(nil, nd.height, nd.leaf, rest)
	nd.children = keep

	calcBBox(&newNode)
	calcBBox(nd)

	if level == 0 {
		tree.splitRoot(*nd, newNode)
		return
	}
	insertPath[level-1].addChild(newNode)
'''),
("splitindex-flat","hdb/split.go",'''		if overlap < minOverlap {
			minOverlap = overlap
			index = i

			if area < minArea {
				minArea = area
			}
		} else if overlap == minOverlap {
			// otherwise choose distribution with minimum area
			if area < minArea {
				minArea = area
				index = i
			}
		}
''','''		var better = overlap < minOverlap
		var smaller = area < minArea
		if better || (overlap == minOverlap && smaller) {
			index = i
		}
		if better {
			minOverlap = overlap
		}
		if smaller && overlap == minOverlap {
			minArea = area
		}
'''),
("splitaxis-swap","hdb/split.go",'''	if xMargin < yMargin {
		sort.Sort(&xNodePath{nd.children})
	}
''','''	if yMargin <= xMargin {
		return
	}
	sort.Sort(xNodePath{nd.children})
'''),
("search-split","hdb/search.go",'''			if intersects(bbox, childBBox) {
				if nd.leaf {
					result = append(result, child.item)
				} else if contains(bbox, childBBox) {
					result = all(child, result)
				} else {
					nodesToSearch = append(nodesToSearch, child)
				}
			}
''','''			if !intersects(bbox, childBBox) {
				continue
			}
			switch {
			case nd.leaf:
				result = append(result, child.item)
			case contains(bbox, childBBox):
				result = all(child, result)
			default:
				nodesToSearch = append(nodesToSearch, child)
			}
'''),
("search-for","hdb/search.go",'''	for {
		for i, length := 0, len(nd.children); i < length; i++ {
			child = &nd.children[i]
			childBBox = &child.bbox
''','''	for nd != nil {
		for i := range nd.children {
			child = &nd.children[i]
			childBBox = &child.bbox
''',"hdb/search.go",'''		nd, nodesToSearch = popNode(nodesToSearch)
		if nd == nil {
			break
		}
	}
	return result
}

//All items''','''		nd, nodesToSearch = popNode(nodesToSearch)
	}
	return result
}

//All items'''),
("all-while","hdb/search.go",'''	var nodesToSearch []*dbNode
	for {
		if nd.leaf {
			for i := range nd.children {
				result = append(result, nd.children[i].item)
			}
		} else {
			for i := range nd.children {
				nodesToSearch = append(nodesToSearch, &nd.children[i])
			}
		}

		nd, nodesToSearch = popNode(nodesToSearch)
		if nd == nil {
			break
		}
	}
''','''	var stack = []*dbNode{nd}
	for len(stack) > 0 {
		nd, stack = popNode(stack)
		for i := range nd.children {
			var child = &nd.children[i]
			if nd.leaf {
				result = append(result, child.item)
			} else {
				stack = append(stack, child)
			}
		}
	}
'''),
("multiselect-if","hdb/select.go",'''		if right-left <= n {
			continue
		}

		mid = left + int(math.Ceil(float64(right-left)/float64(n)/2.0))*n
		selectBox(arr, mid, left, right, compare)
		stack = appendInts(stack, left, mid, mid, right)
''','''		if right-left > n {
			var groups = math.Ceil(float64(right-left) / float64(n) / 2.0)
			mid = left + int(groups)*n
			selectBox(arr, mid, left, right, compare)
			stack = append(stack, left, mid, mid, right)
		}
'''),
("splitat-two","hdb/util.go",'''	var ln = len(nodes)
	var ext = make([]dbNode, 0, ln-index)
	for i := index; i < ln; i++ {
		ext = append(ext, nodes[i])
		nodes[i] = dbNode{}
	}
	return nodes[:index], ext
''','''	var ext = append(make([]dbNode, 0, len(nodes)-index), nodes[index:]...)
	for i := index; i < len(nodes); i++ {
		nodes[i] = dbNode{}
	}
	return nodes[:index], ext
'''),
("sliceindex-ret","hdb/util.go",'''	var index = -1
	for i := 0; i < limit; i++ {
		if predicate(i) {
			index = i
			break
		}
	}
	return index
''','''	for i := 0; i < limit; i++ {
		if predicate(i) {
			return i
		}
	}
	return -1
'''),
("knn-loop","hdb/knn.go",'''			var candidate = queue.Pop().(*KObj)
			pred, stop = predFn(candidate)
			if pred {
				result = append(result, candidate.GetNode())
			}

			if stop {
				break
			}

			if limit != 0 && len(result) == limit {
				return result
			}
		}

		if !stop {
			var q = queue.Pop()
			if q == nil {
				nd = nil
			} else {
				nd = q.(*KObj).dbNode
			}
		}
''','''			var candidate = queue.Pop().(*KObj)
			pred, stop = predFn(candidate)
			if pred {
				result = append(result, candidate.GetNode())
			}

			if stop || (limit != 0 && len(result) == limit) {
				return result
			}
		}

		nd = nil
		if q := queue.Pop(); q != nil {
			nd = q.(*KObj).dbNode
		}
'''),
("knn-helper","hdb/knn.go",'''			child = &nd.children[i]
			var o = &KObj{
				dbNode:   child,
				MBR:      &child.bbox,
				IsItem:   len(child.children) == 0,
				Distance: -1,
			}
			o.Distance = score(&query, o)
			queue.Push(o)
''','''			child = &nd.children[i]
			var o = newKObj(child)
			o.Distance = score(&query, o)
			queue.Push(o)
''',"hdb/knn.go","func predicate(_","""func newKObj(child *dbNode) *KObj {
	return &KObj{
		dbNode:   child,
		MBR:      &child.bbox,
		IsItem:   len(child.children) == 0,
		Distance: -1,
	}
}

func predicate(_"""),
("kobj-switch","hdb/kobj.go",'''	var r = 1
	if feq(dx, 0) {
		r = 0
	} else if dx < 0 {
		r = -1
	}
	return r
''','''	switch {
	case feq(dx, 0):
		return 0
	case dx > 0:
		return 1
	}
	return -1
'''),
("load-loop","hdb/load.go",'''	if n < tree.minEntries {
		for i := range items {
			tree.insert(&items[i])
		}
		return tree
	}

	var data = make([]*node.Node, n)
	for i := range items {
		data[i] = &items[i]
	}
''','''	if n < tree.minEntries {
		for i := 0; i < n; i++ {
			tree.insert(&items[i])
		}
		return tree
	}

	var data = make([]*node.Node, 0, n)
	for i := 0; i < n; i++ {
		data = append(data, &items[i])
	}
'''),
("load-switch","hdb/load.go",'''	if len(tree.data.children) == 0 {
		// save as is if tree is empty
		tree.data = nd
	} else if tree.data.height == nd.height {
		// split root if trees have the same height
		tree.splitRoot(tree.data, nd)
	} else {
		if tree.data.height < nd.height {
			// swap trees if inserted one is bigger
			tree.data, nd = nd, tree.data
		}

		// insert the small tree into the large tree at appropriate level
		tree.insertNode(nd, tree.data.height-nd.height-1)
	}

	return tree
''','''	if tree.IsEmpty() {
		tree.data = nd
		return tree
	}
	var diff = tree.data.height - nd.height
	if diff == 0 {
		tree.splitRoot(tree.data, nd)
		return tree
	}
	if diff < 0 {
		var small = tree.data
		tree.data = nd
		nd, diff = small, -diff
	}
	tree.insertNode(nd, diff-1)
	return tree
'''),
("newhdb-cap","hdb/rtree.go",'''	var bucketSize = 8
	var tree = Hdb{}
	tree.Clear()
	if len(nodeCap) > 0 {
		bucketSize = nodeCap[0]
	}
	// bucket size(dbNode) == 8 by default
	tree.maxEntries = maxEntries(bucketSize)
	tree.minEntries = minEntries(tree.maxEntries)
	return &tree
''','''	var bucketSize = 8
	if len(nodeCap) != 0 {
		bucketSize = nodeCap[0]
	}
	var size = maxEntries(bucketSize)
	var tree = &Hdb{maxEntries: size, minEntries: minEntries(size)}
	return tree.Clear()
'''),
# ---- constdp
("ctxdb-direct","constdp/constructor.go",'''	var lst = make([]node.Node, 0, len(geoms))
	for i := range geoms {
		cg := ctx.New(geoms[i], 0, -1).AsContextNeighbour()
		lst = append(lst, node.Node{
			MBR:      cg.Bounds(),
			Geom:     cg,
			Instance: cdp,
		})
	}
	cdp.ContextDB.Clear().Load(lst)
	return cdp
''','''	var lst = make([]node.Node, len(geoms))
	for i, g := range geoms {
		var cg = ctx.New(g, 0, -1).AsContextNeighbour()
		lst[i].MBR = cg.Bounds()
		lst[i].Geom = cg
		lst[i].Instance = cdp
	}
	cdp.ContextDB.Clear()
	cdp.ContextDB.Load(lst)
	return cdp
'''),
("decompose-scorer","constdp/decompose.go",'''func (self *ConstDP) Decompose(id *iter.Igen) []node.Node {
	var score = self.Score
	var relation = self.ScoreRelation

	if self.SquareScore != nil {
		score = self.SquareScore
		relation = self.SquareScoreRelation
	}

	var decomp = offset.EpsilonDecomposition{
		ScoreFn:  score,
		Relation: relation,
	}
''','''func (self *ConstDP) decomposition() offset.EpsilonDecomposition {
	if self.SquareScore != nil {
		return offset.EpsilonDecomposition{
			ScoreFn:  self.SquareScore,
			Relation: self.SquareScoreRelation,
		}
	}
	return offset.EpsilonDecomposition{
		ScoreFn:  self.Score,
		Relation: self.ScoreRelation,
	}
}

func (self *ConstDP) Decompose(id *iter.Igen) []node.Node {
	var decomp = self.decomposition()
''',"constdp/decompose.go",'''	var score = self.Score
	var relation = self.ScoreRelation

	if self.SquareScore != nil {
		score = self.SquareScore
		relation = self.SquareScoreRelation
	}

	var results = make([]node.Node, 0, len(hulls))
	for i := range hulls {
		var hull = &hulls[i]
		if hull.Range.Size() > 1 {
			if _, val := score(hull.Coordinates()); !relation(val) {
				var ha, hb = split.AtScoreSelection(id, hull, score, common.Geometry)
				results = append(results, self.refine(id, ha, hb)...)
				continue
			}
		}
		results = append(results, *hull)
	}
	return results
''','''	var decomp = self.decomposition()
	var results = make([]node.Node, 0, len(hulls))
	for i := range hulls {
		var hull = &hulls[i]
		var within = hull.Range.Size() <= 1
		if !within {
			var _, val = decomp.ScoreFn(hull.Coordinates())
			within = decomp.Relation(val)
		}
		if within {
			results = append(results, *hull)
		} else {
			var ha, hb = split.AtScoreSelection(id, hull, decomp.ScoreFn, common.Geometry)
			results = append(results, self.refine(id, ha, hb)...)
		}
	}
	return results
'''),
("group-append","constdp/fc_group.go",'''	for _, h := range nodes {
		var lst []node.Node
		var self = h.Instance.(*ConstDP)
		var id = self.Id()
		if lst, ok = smap[id]; !ok {
			lst = []node.Node{}
		}
		lst = append(lst, *h)
		smap[id] = lst
	}
''','''	for i := range nodes {
		var id = nodes[i].Instance.(*ConstDP).Id()
		smap[id] = append(smap[id], *nodes[i])
	}
	_ = ok
'''),
("group-onepass","constdp/fc_group.go",'''		for i := range lst {
			self.Hulls = append(self.Hulls, lst[i])
		}
		selfs = append(selfs, self)
	}

	var hull *node.Node
	for _, self := range selfs {
		self.SimpleSet.Empty() //update new simple
		for i := range self.Hulls {
			hull = &self.Hulls[i]
			self.SimpleSet.Extend(hull.Range.I, hull.Range.J)
		}
	}
''','''		self.Hulls = append(self.Hulls, lst...)
		selfs = append(selfs, self)
	}

	for _, self := range selfs {
		updateSimple(self)
	}
''',"constdp/fc_group.go","// Group hulls","""func updateSimple(self *ConstDP) {
	self.SimpleSet.Empty()
	for i := range self.Hulls {
		var r = self.Hulls[i].Range
		self.SimpleSet.Extend(r.I, r.J)
	}
}

// Group hulls"""),
("fc-constrained","constdp/fc_simplify.go",'''	var constrained = opts.AvoidNewSelfIntersects ||
		opts.PlanarSelf ||
		opts.GeomRelation ||
		opts.DirRelation ||
		opts.DistRelation

	if constrained {
''','''	if isConstrained(opts) {
''',"constdp/fc_simplify.go","//Simplify a feature class","""func isConstrained(o *opts.Opts) bool {
	return o.DistRelation || o.DirRelation || o.GeomRelation ||
		o.PlanarSelf || o.AvoidNewSelfIntersects
}

//Simplify a feature class"""),
("fc-break","constdp/fc_simplify.go",'''			selections = findDeformableNodes(deformables, hulldb)
			// 1. deform selected nodes
			if len(selections) > 0 {
				deformables = deformNodes(id, selections)
				// 2. remove selected nodes from db
				cleanUpDB(hulldb, selections)
				// 3. add new deformations to db
				hulldb.Load(deformables)
				// 4. repeat until there are no deformables
			} else {
				deformables = deformables[:0]
			}
''','''			selections = findDeformableNodes(deformables, hulldb)
			if len(selections) == 0 {
				break
			}
			deformables = deformNodes(id, selections)
			cleanUpDB(hulldb, selections)
			hulldb.Load(deformables)
'''),
("fc-junctions","constdp/fc_simplify.go",'''		instances := make([]*lnr.FC, len(selfs))
		for i, sf := range selfs {
			instances[i] = lnr.NewFC(sf.Coordinates(), sf.Id())
		}
		junctions = lnr.FCPlanarSelfIntersection(instances)
''','''		var instances []*lnr.FC
		for _, sf := range selfs {
			instances = append(instances, lnr.NewFC(sf.Coordinates(), sf.Id()))
		}
		junctions = lnr.FCPlanarSelfIntersection(instances)
'''),
("instances-inline","constdp/fc_simplify.go",'''	go func() {
		for i := 0; i < ConcurProcs; i++ {
			go fn(i)
		}
	}()
''','''	for i := 0; i < ConcurProcs; i++ {
		go fn(i)
	}
'''),
("instances-worker","constdp/fc_simplify.go",'''	var stream = make(chan *ConstDP)
	var out = make(chan *ConstDP, 2*ConcurProcs)
''','''	var stream = make(chan *ConstDP, ConcurProcs)
	var out = make(chan *ConstDP, ConcurProcs)
''',"constdp/fc_simplify.go",'''		for s := range selfs {
			stream <- selfs[s]
		}
		close(stream)
''','''		defer close(stream)
		for _, s := range selfs {
			stream <- s
		}
'''),
("agg-helper","constdp/node_aggregates.go",'''		if withPrev && prev != nil {
			key = CacheKey(prev, hull)
			if !cache[key] {
				cache[key] = true
				mergeprevBln, mergePrev = merge.ContiguousFragmentsAtThreshold(
					id, score, prev, hull, relation, common.Geometry,
				)
			}
		}

		if withNext && nxt != nil {
			key = CacheKey(hull, nxt)
			if !cache[key] {
				cache[key] = true
				mergenxtBln, mergeNxt = merge.ContiguousFragmentsAtThreshold(
					id, score, hull, nxt, relation, common.Geometry,
				)
			}
		}
''','''		var attempt = func(a, b *node.Node) (bool, node.Node) {
			key = CacheKey(a, b)
			if cache[key] {
				return false, node.Node{}
			}
			cache[key] = true
			return merge.ContiguousFragmentsAtThreshold(
				id, score, a, b, relation, common.Geometry,
			)
		}

		if withPrev && prev != nil {
			mergeprevBln, mergePrev = attempt(prev, hull)
		}

		if withNext && nxt != nil {
			mergenxtBln, mergeNxt = attempt(hull, nxt)
		}
'''),
("agg-insert","constdp/node_aggregates.go",'''		if !merged && mergenxtBln {
			db.Remove(nxt)
			if validateMerge(&mergeNxt, db) {
				if objects[0] == nxt {
					objects = objects[1:]
				}
				insertList = append(insertList, mergeNxt)
				merged = true
			} else {
				merged = false
				insertList = append(insertList, *nxt)
			}
		}

		if !merged && mergeprevBln {
			db.Remove(prev)
			//prev cannot exist since moving from left --- right
			if validateMerge(&mergePrev, db) {
				insertList = append(insertList, mergePrev)
				merged = true
			} else {
				merged = false
				insertList = append(insertList, *prev)
			}
		}
''','''		if mergenxtBln {
			db.Remove(nxt)
			merged = validateMerge(&mergeNxt, db)
			if merged {
				if nxt == objects[0] {
					objects = objects[1:]
				}
				insertList = append(insertList, mergeNxt)
			} else {
				insertList = append(insertList, *nxt)
			}
		}

		if mergeprevBln && !merged {
			db.Remove(prev)
			if merged = validateMerge(&mergePrev, db); merged {
				insertList = append(insertList, mergePrev)
			} else {
				insertList = append(insertList, *prev)
			}
		}
'''),
("agg-index","constdp/node_aggregates.go",'''		if iter.SortedSearchInts(constVertexSet, hull.Range.I) &&
			iter.SortedSearchInts(constVertexSet, hull.Range.J) {
			continue
		}
		var withNext, withPrev = !iter.SortedSearchInts(constVertexSet, hull.Range.J),
			!iter.SortedSearchInts(constVertexSet, hull.Range.I)
''','''		var withPrev = !iter.SortedSearchInts(constVertexSet, hull.Range.I)
		var withNext = !iter.SortedSearchInts(constVertexSet, hull.Range.J)
		if !withPrev && !withNext {
			continue
		}
'''),
("find-helper","constdp/simple_0.go",'''		for i := range in {
			var bln = true
			var hull = in[i]
			var self = hull.Instance.(*ConstDP)

			// self intersection constraint
			if self.Opts.AvoidNewSelfIntersects {
				bln = constrain.ByFeatureClassIntersection(self.Opts, hull, db, &selections)
			}

			// short circuit, if invalid, skip context validation
			// a segment is its own simplification
			if bln && hull.Range.Size() > 1 {
				bln = self.ValidateContextRelation(hull, &selections)
			}

			for _, o := range selections {
				if o.Range.Size() > 1 { // a segment cannot be deformed
					out <- o
				}
			}
			selections = selections[:0]
		}
''','''		for _, hull := range in {
			selections = selectDeformables(hull, db, selections[:0])
			for _, o := range selections {
				if o.Range.Size() > 1 { // a segment cannot be deformed
					out <- o
				}
			}
		}
''',"constdp/simple_0.go","func chunkTasks(","""func selectDeformables(hull *node.Node, db *hdb.Hdb, selections []*node.Node) []*node.Node {
	var bln = true
	var self = hull.Instance.(*ConstDP)
	if self.Opts.AvoidNewSelfIntersects {
		bln = constrain.ByFeatureClassIntersection(self.Opts, hull, db, &selections)
	}
	if bln && hull.Range.Size() > 1 {
		self.ValidateContextRelation(hull, &selections)
	}
	return selections
}

func chunkTasks("""),
("find-fresh","constdp/simple_0.go",'''		var selections []*node.Node

		for i := range in {
			var bln = true
			var hull = in[i]
''','''		for i := range in {
			var bln = true
			var selections []*node.Node
			var hull = in[i]
''',"constdp/simple_0.go",'''			selections = selections[:0]
''',''''''),
("chunk-min","constdp/simple_0.go",'''	for idx < n {
		var stop = idx + chunkSize
		//if stop > n || (stop < n && stop+chunkSize > n) {
		if stop > n {
			stop = n
		}
		var task []*node.Node
		for _, o := range vals[idx:stop] {
			task = append(task, o)
		}
		chunks = append(chunks, task)
		idx = stop
	}
	return chunks
}

func chunkInstances''','''	for ; idx < n; idx += chunkSize {
		var stop = idx + chunkSize
		if stop > n {
			stop = n
		}
		chunks = append(chunks, append([]*node.Node(nil), vals[idx:stop]...))
	}
	return chunks
}

func chunkInstances'''),
("deform-flat","constdp/simple_1.go",'''		self = hull.Instance.(*ConstDP)
		var scoreFn = self.Score
		if self.SquareScore != nil {
			scoreFn = self.SquareScore
		}

		if hull.Range.Size() > 1 {
			ha, hb = split.AtScoreSelection(id, hull, scoreFn, common.Geometry)
			results = append(results, self.refine(id, ha, hb)...)
			hull.Instance.State().MarkDirty() //after split mark instance as dirty
		} else {
			results = append(results, *hull)
		}
''','''		if hull.Range.Size() <= 1 {
			results = append(results, *hull)
			continue
		}
		self = hull.Instance.(*ConstDP)
		var scoreFn = self.SquareScore
		if scoreFn == nil {
			scoreFn = self.Score
		}
		ha, hb = split.AtScoreSelection(id, hull, scoreFn, common.Geometry)
		for _, o := range self.refine(id, ha, hb) {
			results = append(results, o)
		}
		self.State().MarkDirty()
'''),
("simplify-copyhulls","constdp/simplify.go",'''	var deformables = make([]node.Node, 0, len(self.Hulls))

	for i := range self.Hulls {
		deformables = append(deformables, self.Hulls[i])
	}
''','''	var deformables = append([]node.Node{}, self.Hulls...)
'''),
("simplify-tail","constdp/simplify.go",'''	var hull *node.Node
	var nodes = db.All()
	for i := range nodes {
		hull = nodes[i]
		self.Hulls = append(self.Hulls, *hull)
		self.SimpleSet.Extend(hull.Range.I, hull.Range.J)
	}
''','''	for _, hull := range db.All() {
		self.SimpleSet.Extend(hull.Range.I, hull.Range.J)
		self.Hulls = append(self.Hulls, *hull)
	}
'''),
("simplify-extract","constdp/simplify.go",'''	for len(deformables) > 0 {
		// 0. find deformable node
		selections = findDeformableNodes(deformables, db)
		// 1. deform selected nodes
		if len(selections) > 0 {
			deformables = deformNodes(id, selections)
			// 2. remove selected nodes from db
			cleanUpDB(db, selections)
			// 3. add new deformations to db
			db.Load(deformables)
		} else {
			deformables = deformables[:0]
		}
		// 4. repeat until there are no deformables
	}
''','''	for len(deformables) > 0 {
		if selections = findDeformableNodes(deformables, db); len(selections) == 0 {
			break
		}
		deformables = replaceDeformables(id, db, selections)
	}
''',"constdp/simplify.go","//Simplify - Line","""func replaceDeformables(id *iter.Igen, db *hdb.Hdb, selections map[*node.Node]struct{}) []node.Node {
	var parts = deformNodes(id, selections)
	cleanUpDB(db, selections)
	db.Load(parts)
	return parts
}

//Simplify - Line"""),
("validate-early","constdp/validate.go",'''	var bln = true
	var sideEffects []*node.Node
	// self intersection constraint
	if self.Opts.AvoidNewSelfIntersects {
		bln = constrain.BySelfIntersection(
			self.Opts, hull, hulldb, &sideEffects,
		)
	}

	if len(sideEffects) != 0 || !bln {
		return false
	}

	// context geometry constraint
	bln = self.ValidateContextRelation(hull, &sideEffects)
	return bln && (len(sideEffects) == 0)
''','''	var sideEffects []*node.Node
	if self.Opts.AvoidNewSelfIntersects {
		if !constrain.BySelfIntersection(self.Opts, hull, hulldb, &sideEffects) {
			return false
		}
		if len(sideEffects) > 0 {
			return false
		}
	}
	var valid = self.ValidateContextRelation(hull, &sideEffects)
	return valid && len(sideEffects) == 0
'''),
("validate-ctx","constdp/validate.go",'''	if bln && self.Opts.GeomRelation {
		bln = constrain.ByGeometricRelation(hull, ctxtgeoms)
	}

	if bln && self.Opts.DistRelation {
		bln = constrain.ByMinDistRelation(self.Options(), hull, ctxtgeoms)
	}

	if bln && self.Opts.DirRelation {
		bln = constrain.BySideRelation(hull, ctxtgeoms)
	}

	if !bln {
		*selections = append(*selections, hull)
	}

	return bln
''','''	bln = (!self.Opts.GeomRelation || constrain.ByGeometricRelation(hull, ctxtgeoms)) &&
		(!self.Opts.DistRelation || constrain.ByMinDistRelation(self.Opts, hull, ctxtgeoms)) &&
		(!self.Opts.DirRelation || constrain.BySideRelation(hull, ctxtgeoms))
	if bln {
		return true
	}
	*selections = append(*selections, hull)
	return false
'''),
("cachekey","constdp/common.go",'''	var o = [CacheKeySize]int{
		a.Range.I, a.Range.J,
		b.Range.I, b.Range.J,
		a.Instance.Id(), b.Instance.Id(),
	}
	sort.Ints(o[:])
	return o
''','''	var key [CacheKeySize]int
	key[0], key[1] = a.Range.I, a.Range.J
	key[2], key[3] = b.Range.I, b.Range.J
	key[4], key[5] = a.Instance.Id(), b.Instance.Id()
	sort.Ints(key[:])
	return key
'''),
# --- offset, dp, decompose
("max-range","offset/dp.go",'''	var dist float64
	var a, b = coordinates.Pt(0), coordinates.Pt(n)
	for k := 1; k < n; k++ { //exclusive range between 0 < k < n
		dist = distFn(a, b, coordinates.Pt(k))
		if dist >= offset {
			index, offset = k, dist
		}
	}

	return index, offset
''','''	var a, b = coordinates.Pt(0), coordinates.Pt(n)
	var k = 1
	for k < n {
		if dist := distFn(a, b, coordinates.Pt(k)); !(dist < offset) {
			offset = dist
			index = k
		}
		k++
	}
	return index, offset
'''),
("sed-extract","offset/sed.go",'''		m = 0
		if dt != 0 { //no motion to synchronise with when no time elapses
			m = (mij / dt) * (ptt - at)
		}
		px, py = ax+(m*vx), ay+(m*vy)
		dist = hypotFn(ptx-px, pty-py)
''','''		m = travelled(mij, dt, ptt-at)
		px, py = ax+(m*vx), ay+(m*vy)
		dist = hypotFn(ptx-px, pty-py)
''',"offset/sed.go","//direction - computes","""func travelled(mij, dt, elapsed float64) float64 {
	if dt == 0 {
		return 0
	}
	return (mij / dt) * elapsed
}

//direction - computes"""),
("hypot-abs","offset/sed.go",'''	if p < 0 {
		p = -p
	}
	if q < 0 {
		q = -q
	}
	if p < q {
		p, q = q, p
	}
	if p == 0 {
		return 0
	}
	q = q / p
	return p * math.Sqrt(1+q*q)
''','''	if p < 0 {
		p *= -1
	}
	if q < 0 {
		q *= -1
	}
	var long, short = p, q
	if q > p {
		long, short = q, p
	}
	if long != 0 {
		var r = short / long
		return long * math.Sqrt(r*r+1)
	}
	return 0
'''),
("dp-simple-loop","dp/dp.go",'''	var indices = make([]int, dp.SimpleSet.Size())

	dp.SimpleSet.ForEach(func(v interface{}, i int) bool {
		indices[i] = v.(int)
		return true
	})
	return indices
''','''	var indices = make([]int, 0, dp.SimpleSet.Size())
	dp.SimpleSet.ForEach(func(v interface{}, _ int) bool {
		indices = append(indices, v.(int))
		return true
	})
	return indices
'''),
("dp-new","dp/dp.go",'''	var instance = DouglasPeucker{
		id:          id,
		Polyline:    pln,
		Opts:        options,
		Meta:        make(map[string]interface{}, 0),
		SimpleSet:   sset.NewSSet(cmp.Int),
		Score:       offsetScore,
		SquareScore: sqrScore,
	}

	return &instance
''','''	var o = &DouglasPeucker{}
	o.id = id
	o.Polyline, o.Opts = pln, options
	o.Meta = map[string]interface{}{}
	o.SimpleSet = sset.NewSSet(cmp.Int)
	o.Score, o.SquareScore = offsetScore, sqrScore
	return o
'''),
("decomp-flip","decompose/decompose.go",'''		if r.Size() <= 1 || decomp.Relation(val) {
			hque = append(hque, node.CreateNode(id, coordinates, r, geomFn, instance))
		} else {
			stack = append(stack, rng.Range(k, r.J)) // right
			stack = append(stack, rng.Range(r.I, k)) // left
		}
''','''		if r.Size() > 1 && !decomp.Relation(val) {
			stack = append(stack, rng.Range(k, r.J), rng.Range(r.I, k))
			continue
		}
		hque = append(hque, node.CreateNode(id, coordinates, r, geomFn, instance))
'''),
("decomp-lit","decompose/decompose.go",'''	var stack = make([]rng.Rng, 0, (r.J-r.I)+1)
	stack = append(stack, r)

	for !(len(stack) == 0) {
		n = len(stack) - 1
		r = stack[n]
		stack = stack[:n]

		coordinates = pln.SubCoordinates(r)
		k, val = decomp.ScoreFn(coordinates)
		k = r.I + k //offset
''','''	var stack = []rng.Rng{r}

	for len(stack) > 0 {
		n = len(stack)
		r, stack = stack[n-1], stack[:n-1]

		coordinates = pln.SubCoordinates(r)
		k, val = decomp.ScoreFn(coordinates)
		k += r.I
'''),
("decomp-rec","decompose/decompose.go",'''	for !(len(stack) == 0) {
		n = len(stack) - 1
		r = stack[n]
		stack = stack[:n]
''','''	for {
		n = len(stack) - 1
		if n < 0 {
			break
		}
		r = stack[n]
		stack = stack[:n]
'''),
# --- encode
("is3d-ret","encode.go",'''	var bln = false
	for _, pt := range coords {
		bln = !math.FloatEqual(pt[2], 0)
		if bln {
			break
		}
	}
	return bln
''','''	for i := range coords {
		if !math.FloatEqual(coords[i][2], 0) {
			return true
		}
	}
	return false
'''),
("extract-dim","encode.go",'''	var is3D = isCoords3D(coords)
	var coordinates = make([][]float64, 0, len(coords))
	for _, pt := range coords {
		var c = append([]float64{}, pt[:]...)
		if !is3D {
			c = c[:2]
		}
		coordinates = append(coordinates, c)
	}
	return coordinates
''','''	var is3D = isCoords3D(coords)
	var coordinates = make([][]float64, len(coords))
	for i, pt := range coords {
		if is3D {
			coordinates[i] = []float64{pt[0], pt[1], pt[2]}
		} else {
			coordinates[i] = []float64{pt[0], pt[1]}
		}
	}
	return coordinates
'''),
("meta-early","encode.go",'''	var meta = g.geom.Meta
	var properties map[string]interface{}
	if meta == "null" {
		properties = make(map[string]interface{}, 0)
	} else {
		var err = json.Unmarshal([]byte(meta), &properties)
		if err != nil {
			panic(err)
		}
	}
	return properties
''','''	var meta = g.geom.Meta
	if meta == "null" {
		return map[string]interface{}{}
	}
	var properties map[string]interface{}
	if err := json.Unmarshal([]byte(meta), &properties); err != nil {
		panic(err)
	}
	return properties
'''),
("geojson-helper","encode.go",'''		var dat, _ = json.Marshal(feature)
		return string(dat)
	}
	var meta = getMeta(featLns[0])
''','''		return encodeFeature(feature)
	}
	var meta = getMeta(featLns[0])
''',"encode.go",'''			Coordinates: coordinates,
		},
	}
	var dat, _ = json.Marshal(feature)
	return string(dat)

}
''','''			Coordinates: coordinates,
		},
	}
	return encodeFeature(feature)
}

func encodeFeature(feature geometry.LineStringFeature) string {
	var dat, _ = json.Marshal(feature)
	return string(dat)
}
'''),
("geojson-merge","encode.go",'''	var meta = getMeta(featLns[0])
	var coordinates = make([][][]float64, 0, len(featLns))
	for _, gpoly := range featLns {
		var simple = gpoly.geom.Simple.Points()
		var coords = extractCoords(simple)
		coordinates = append(coordinates, coords)
	}
''','''	var coordinates = make([][][]float64, len(featLns))
	for i := range featLns {
		coordinates[i] = extractCoords(featLns[i].geom.Simple.Points())
	}
	var meta = getMeta(featLns[0])
'''),
("group-index","encode.go",'''	var dictionary = make(map[int][]PolyGeom, 0)
	for _, pln := range plns {
		var indx, pos = indexPos(pln.Id)
		dictionary[indx] = append(dictionary[indx], PolyGeom{indx, pos, pln})
	}
	return dictionary
''','''	var dictionary = map[int][]PolyGeom{}
	for i := range plns {
		var g = PolyGeom{geom: plns[i]}
		g.index, g.pos = indexPos(plns[i].Id)
		var group = dictionary[g.index]
		dictionary[g.index] = append(group, g)
	}
	return dictionary
'''),
("json-loop","encode.go",'''	for _, idx := range indxs {
		var plns = dictionary[idx]
		sort.SliceStable(plns, func(i, j int) bool {
			return plns[i].pos < plns[j].pos
		})
		var s = createGeoJSONString(plns)
		jsons = append(jsons, s)
	}
	return jsons
''','''	for i := range indxs {
		var parts = dictionary[indxs[i]]
		var byPos = func(a, b int) bool { return parts[b].pos > parts[a].pos }
		sort.SliceStable(parts, byPos)
		jsons = append(jsons, createGeoJSONString(parts))
	}
	return jsons
'''),
]
