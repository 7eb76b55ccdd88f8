# Constraints and relations.
R=[]
C="constrain/"
R+=[
("tsi-phases",C+"toself.go","FUNC func ToSelfIntersects(",'''func ToSelfIntersects(id *iter.Igen,
	nodes []node.Node, polyline *geometry.Polyline,
	options *opts.Opts, constVerts []int,
) ([]node.Node, bool, []int) {
	if !options.PlanarSelf && !options.NonPlanarSelf {
		return nodes, true, []int{}
	}
	var hulldb = hdb.NewHdb().Load(nodes)
	var selfInters = lnr.SelfIntersection(polyline, options.PlanarSelf, options.NonPlanarSelf)
	var atVertexSet = verticesOf(selfInters)
	pinVertices(polyline, selfInters, constVerts, atVertexSet)
	splitAtSelfIntersects(id, hulldb, selfInters)
	return sortedNodes(hulldb), true, sortedKeysOf(atVertexSet)
}

func verticesOf(inters *ctx.ContextGeometries) map[int]bool {
	var set = make(map[int]bool)
	for _, inter := range inters.DataView() {
		for _, v := range interIndices(inter) {
			set[v] = true
		}
	}
	return set
}

func interIndices(inter *ctx.ContextGeometry) []int {
	if inter.IsNonPlanarVertex() {
		return inter.Meta.NonPlanar
	}
	return inter.Meta.Planar
}

func pinVertices(polyline *geometry.Polyline, inters *ctx.ContextGeometries, verts []int, set map[int]bool) {
	for _, i := range verts {
		if !set[i] {
			set[i] = true
			var cg = ctx.New(polyline.Pt(i), 0, -1).AsPlanarVertex()
			cg.Meta.Planar = append(cg.Meta.Planar, i)
			inters.Push(cg)
		}
	}
}

func sortedNodes(db *hdb.Hdb) []node.Node {
	var all = db.All()
	var nodes = make([]node.Node, len(all))
	for i, n := range all {
		nodes[i] = *n
	}
	sort.Sort(node.Nodes(nodes))
	return nodes
}

func sortedKeysOf(set map[int]bool) []int {
	var keys = make([]int, 0, len(set))
	for v := range set {
		keys = append(keys, v)
	}
	sort.Ints(keys)
	return keys
}
'''),
("bsi-all",C+"byself.go","FUNC func BySelfIntersection(",'''func BySelfIntersection(
	options *opts.Opts, hull *node.Node,
	hulldb *hdb.Hdb, selections *[]*node.Node) bool {
	var hulls = deform.Select(options, hulldb, hull)
	*selections = append(*selections, hulls...)
	for _, h := range hulls {
		if h == hull {
			return false
		}
	}
	return true
}
'''),
("bcl-contains",C+"bycls.go","FUNC func ByFeatureClassIntersection(",'''func ByFeatureClassIntersection(
	options *opts.Opts,
	hull *node.Node,
	db *hdb.Hdb,
	selections *[]*node.Node,
) bool {
	var hulls = deform.SelectFeatureClass(options, db, hull)
	for i := range hulls {
		*selections = append(*selections, hulls[i])
	}
	return !isIn(hulls, hull)
}

func isIn(hulls []*node.Node, hull *node.Node) bool {
	for _, h := range hulls {
		if h == hull {
			return true
		}
	}
	return false
}
'''),
("sasi-helper",C+"split.go","FUNC func splitAtSelfIntersects(",'''func splitAtSelfIntersects(id *iter.Igen, db *hdb.Hdb, selfInters *ctx.ContextGeometries) {
	for _, inter := range selfInters.DataView() {
		if idxs := vertexIndices(inter); len(idxs) > 0 {
			splitHullsAt(id, db, inter, idxs)
		}
	}
}

func vertexIndices(inter *ctx.ContextGeometry) []int {
	switch {
	case inter.IsPlanarVertex():
		return inter.Meta.Planar
	case inter.IsNonPlanarVertex():
		return inter.Meta.NonPlanar
	}
	return nil
}

func splitHullsAt(id *iter.Igen, db *hdb.Hdb, inter *ctx.ContextGeometry, idxs []int) {
	for _, hull := range knn.ContextNeighbours(db, inter.Geom.Geometry(), EpsilonDist) {
		var tokens = split.AtIndex(id, hull, idxs, common.Geometry)
		if len(tokens) > 0 {
			db.Remove(hull)
			db.Load(tokens)
		}
	}
}
'''),
("dist-ret","relate/dist.go","FUNC func IsDistRelateValid(",'''func IsDistRelateValid(options *opts.Opts, hull *node.Node, contexts *ctx.ContextGeometries) bool {
	var minDistance = options.MinDist
	var seg = hull.Segment()
	var lnGeom = hull.Polyline.Geometry()
	for _, c := range contexts.DataView() {
		var g = c.Geom.Geometry()
		var original, simple = lnGeom.Distance(g), seg.Distance(g)
		if simple < minDistance && original >= minDistance {
			return false
		}
	}
	return true
}
'''),
("geom-ret","relate/geom.go","FUNC func IsGeomRelateValid(",'''func IsGeomRelateValid(hull *node.Node, contexts *ctx.ContextGeometries) bool {
	var seg = hull.Segment()
	var lnGeom = hull.Polyline.Geometry()
	for _, c := range contexts.DataView() {
		var g = c.Geom.Geometry()
		if lnGeom.Intersects(g) != seg.Intersects(g) {
			return false
		}
	}
	return true
}
'''),
("geom-helper","relate/geom.go","FUNC func IsGeomRelateValid(",'''func IsGeomRelateValid(hull *node.Node, contexts *ctx.ContextGeometries) bool {
	var seg = hull.Segment()
	var lnGeom = hull.Polyline.Geometry()
	var valid = true
	var geometries = contexts.DataView()
	for i := 0; valid && i < len(geometries); i++ {
		valid = sameRelation(lnGeom, seg, geometries[i].Geom.Geometry())
	}
	return valid
}

func sameRelation(a, b, g geom.Geometry) bool {
	var ia, ib = a.Intersects(g), b.Intersects(g)
	return (ia && ib) || (!ia && !ib)
}
'''),
]
