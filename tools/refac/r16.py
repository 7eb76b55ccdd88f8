# Selection of deformables, splitting, offsets, the class of self crossings.
R=[]
D="deform/"
SEL='''func Select(options *opts.Opts, hullDB *hdb.Hdb, hull *node.Node) []*node.Node {
	var dict = make(map[*node.Node]struct{})
	for _, h := range knn.NodeNeighbours(hullDB, hull, knn.EpsilonDist) {
		var inters, contig, n = node.IsContiguous(hull, h)
		if inters {
			var sa, sb = pairCandidates(options, hull, h, contig, n)
			putIf(dict, sa)
			putIf(dict, sb)
		}
	}
	return keysOf(dict)
}

func pairCandidates(options *opts.Opts, hull, h *node.Node, contig bool, n int) (*node.Node, *node.Node) {
	switch {
	case !contig:
		return nonContiguousCandidates(options, hull, h)
	case n > 1:
		return contiguousCandidates(hull, h)
	}
	return nil, nil
}

func putIf(dict map[*node.Node]struct{}, o *node.Node) {
	if o != nil {
		dict[o] = struct{}{}
	}
}

func keysOf(dict map[*node.Node]struct{}) []*node.Node {
	var items = make([]*node.Node, 0, len(dict))
	for v := range dict {
		items = append(items, v)
	}
	return items
}
'''
R+=[
("sel-split",D+"ln.go","FUNC func Select(",SEL),
("sfc-split",D+"cls.go","FUNC func SelectFeatureClass(",'''func SelectFeatureClass(options *opts.Opts, hullDB *hdb.Hdb, hull *node.Node) []*node.Node {
	var dict = make(map[*node.Node]struct{})
	var neighbours = knn.NodeNeighbours(hullDB, hull, knn.EpsilonDist)
	for _, h := range optimizeNeighbours(hull, neighbours) {
		var inters, contig, n = relateHulls(hull, h)
		if !inters {
			continue
		}
		var sa, sb *node.Node
		if !contig {
			sa, sb = nonContiguousCandidates(options, hull, h)
		} else if n > 1 {
			sa, sb = contiguousCandidates(hull, h)
		}
		for _, s := range []*node.Node{sa, sb} {
			if s != nil {
				dict[s] = struct{}{}
			}
		}
	}
	var items = make([]*node.Node, 0, len(dict))
	for v := range dict {
		items = append(items, v)
	}
	return items
}

func relateHulls(a, b *node.Node) (bool, bool, int) {
	if isSame(a.Instance, b.Instance) {
		return node.IsContiguous(a, b)
	}
	if !a.Geom.Intersects(b.Geom) {
		return false, false, 0
	}
	var n = len(a.Geom.Intersection(b.Geom))
	return n > 0, false, n
}
'''),
("optn-filter",D+"cls.go","FUNC func optimizeNeighbours(",'''func optimizeNeighbours(hull *node.Node, neighbours []*node.Node) []*node.Node {
	if hull.Instance.State().IsDirty() {
		return neighbours
	}
	var others []*node.Node
	for _, o := range neighbours {
		if isSame(hull.Instance, o.Instance) {
			continue
		}
		others = append(others, o)
	}
	return others
}
'''),
("cand-cond",D+"contig.go","FUNC func contiguousCandidates(",'''func contiguousCandidates(a, b *node.Node) (sa, sb *node.Node) {
	sa = unlessCollapsible(a, b)
	sb = unlessCollapsible(b, a)
	return
}

func unlessCollapsible(a, b *node.Node) *node.Node {
	if a.Collapsible(b) {
		return nil
	}
	return a
}
'''),
("ats-struct","split/split.go","FUNC func AtScoreSelection(",'''func AtScoreSelection(id *iter.Igen, hull *node.Node, scoreFn lnr.ScoreFn, gfn func(geom.Coords) geom.Geometry) (node.Node, node.Node) {
	var coords = hull.Coordinates()
	var k, _ = scoreFn(coords)
	var make = func(from, to int) node.Node {
		var r = rng.Range(hull.Range.I+from, hull.Range.I+to)
		return node.CreateNode(id, coords.Slice(from, to+1), r, gfn, hull.Instance)
	}
	var ha = make(0, k)
	var hb = node.CreateNode(id, coords.Slice(k, coords.Len()), rng.Range(hull.Range.I+k, hull.Range.J), gfn, hull.Instance)
	return ha, hb
}
'''),
("ati-index","split/split.go","FUNC func AtIndex(",'''func AtIndex(id *iter.Igen, hull *node.Node, indices []int, gfn func(geom.Coords) geom.Geometry) []node.Node {
	var ranges = hull.Range.Split(indices)
	var parts = make([]node.Node, len(ranges))
	for i := range ranges {
		parts[i] = partOf(id, hull, ranges[i], gfn)
	}
	return parts
}

func partOf(id *iter.Igen, hull *node.Node, r rng.Rng, gfn func(geom.Coords) geom.Geometry) node.Node {
	var start = r.I - hull.Range.I
	var coords = hull.Coordinates()
	return node.CreateNode(id, coords.Slice(start, start+r.Size()+1), r, gfn, hull.Instance)
}
'''),
]

K="constdp/"
R+=[
("group-byself",K+"fc_group.go","FUNC func groupHullsByFC(",'''func groupHullsByFC(hulldb *hdb.Hdb) {
	var groups = make(map[*ConstDP][]node.Node)
	for _, h := range hulldb.All() {
		var self = h.Instance.(*ConstDP)
		groups[self] = append(groups[self], *h)
	}
	for self, hulls := range groups {
		self.setHulls(hulls)
	}
}

func (self *ConstDP) setHulls(hulls []node.Node) {
	node.Clear(&self.Hulls)
	self.Hulls = append(self.Hulls, hulls...)
	self.SimpleSet.Empty()
	for _, h := range hulls {
		self.SimpleSet.Extend(h.Range.I, h.Range.J)
	}
}
'''),
]
