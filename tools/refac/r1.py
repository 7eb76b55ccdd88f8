R=[
("maxOffset-loop","offset/dp.go",'''	var dist float64
	var a, b = coordinates.Pt(0), coordinates.Pt(n)
	for k := 1; k < n; k++ { //exclusive range between 0 < k < n
		dist = distFn(a, b, coordinates.Pt(k))
		if dist >= offset {
			index, offset = k, dist
		}
	}
''','''	first, last := coordinates.Pt(0), coordinates.Pt(n)
	k := 1
	for {
		if k >= n {
			break
		}
		d := distFn(first, last, coordinates.Pt(k))
		if !(d < offset) {
			offset = d
			index = k
		}
		k += 1
	}
'''),
("hypot-swap","offset/sed.go",'''	if p < q {
		p, q = q, p
	}
	if p == 0 {
		return 0
	}
	q = q / p
	return p * math.Sqrt(1+q*q)
''','''	hi, lo := p, q
	if hi < lo {
		hi, lo = lo, hi
	}
	if hi != 0 {
		r := lo / hi
		return hi * math.Sqrt(r*r+1)
	}
	return 0
'''),
("sed-helper","offset/sed.go",'''		m = 0
		if dt != 0 { //no motion to synchronise with when no time elapses
			m = (mij / dt) * (ptt - at)
		}
		px, py = ax+(m*vx), ay+(m*vy)
''','''		m = advance(mij, dt, ptt-at)
		px = ax + (m * vx)
		py = ay + (m * vy)
''',"offset/sed.go",'''//direction - computes''','''func advance(mij, dt, t float64) float64 {
	if dt == 0 {
		return 0
	}
	return (mij / dt) * t
}

//direction - computes'''),
("groupById-helper","encode.go",'''		var indx, pos = indexPos(pln.Id)
		dictionary[indx] = append(dictionary[indx], PolyGeom{indx, pos, pln})
''','''		var g = asPolyGeom(pln)
		dictionary[g.index] = append(dictionary[g.index], g)
''',"encode.go",'''func groupById(''','''func asPolyGeom(pln *geometry.Polyline) PolyGeom {
	var indx, pos = indexPos(pln.Id)
	return PolyGeom{index: indx, pos: pos, geom: pln}
}

func groupById('''),
("is3d-return","encode.go",'''	var bln = false
	for _, pt := range coords {
		bln = !math.FloatEqual(pt[2], 0)
		if bln {
			break
		}
	}
	return bln
''','''	for i := range coords {
		if !math.FloatEqual(coords[i][2], 0) {
			return true
		}
	}
	return false
'''),
("extract-dims","encode.go",'''	var is3D = isCoords3D(coords)
	var coordinates = make([][]float64, 0, len(coords))
	for _, pt := range coords {
		var c = append([]float64{}, pt[:]...)
		if !is3D {
			c = c[:2]
		}
		coordinates = append(coordinates, c)
	}
	return coordinates
''','''	var dims = 2
	if isCoords3D(coords) {
		dims = 3
	}
	var coordinates = make([][]float64, len(coords))
	for i := range coords {
		var c = make([]float64, dims)
		copy(c, coords[i][:dims])
		coordinates[i] = c
	}
	return coordinates
'''),
("getmeta-early","encode.go",'''	var meta = g.geom.Meta
	var properties map[string]interface{}
	if meta == "null" {
		properties = make(map[string]interface{}, 0)
	} else {
		var err = json.Unmarshal([]byte(meta), &properties)
		if err != nil {
			panic(err)
		}
	}
	return properties
''','''	if g.geom.Meta == "null" {
		return map[string]interface{}{}
	}
	var properties map[string]interface{}
	if err := json.Unmarshal([]byte(g.geom.Meta), &properties); err != nil {
		panic(err)
	}
	return properties
'''),
("geojson-helper","encode.go",'''		var feature = geometry.LineStringFeature{
			Type:       "Feature",
			Properties: meta,
			Geometry: &geometry.LinearGeometry{
				Type:        "LineString",
				Coordinates: coords,
			},
		}
		var dat, _ = json.Marshal(feature)
		return string(dat)
	}
''','''		return asFeature(meta, &geometry.LinearGeometry{Type: "LineString", Coordinates: coords})
	}
''',"encode.go",'''	var feature = geometry.LineStringFeature{
		Type:       "Feature",
		Properties: meta,
		Geometry: &geometry.MultiLinearGeometry{
			Type:        "MultiLineString",
			Coordinates: coordinates,
		},
	}
	var dat, _ = json.Marshal(feature)
	return string(dat)

}
''','''	return asFeature(meta, &geometry.MultiLinearGeometry{
		Type:        "MultiLineString",
		Coordinates: coordinates,
	})
}

func asFeature(meta map[string]interface{}, g geometry.ILinear) string {
	var dat, _ = json.Marshal(geometry.LineStringFeature{Type: "Feature", Properties: meta, Geometry: g})
	return string(dat)
}
'''),
("indices-idx","encode.go",'''	keys := make([]int, 0, len(dict))
	for k := range dict {
		keys = append(keys, k)
	}
	sort.Ints(keys)
	return keys
''','''	var keys []int
	for k := range dict {
		keys = append(keys, k)
	}
	sort.Ints(keys)
	return keys
'''),
("forest-helper","simplify.go",'''	var id = iter.NewIgen()
	var forest []*constdp.ConstDP
	var junctions = make(map[int][]int, 0)

	for _, pln := range plns {
		forest = append(forest, constdp.NewConstDP(
			id.Next(), pln, constraints, opts, offsetFn,
		))
	}

	constdp.SimplifyInstances(id, forest, junctions)
''','''	var id = iter.NewIgen()
	var forest = makeForest(id, plns, opts, constraints, offsetFn)
	constdp.SimplifyInstances(id, forest, make(map[int][]int))
''',"simplify.go",'''	var forest []*constdp.ConstDP
	for _, ln := range lns {
		forest = append(forest, constdp.NewConstDP(
			id.Next(), ln, constraints, opts, offsetFn,
		))
	}

	constdp.SimplifyFeatureClass(id, forest, opts)
	setSimpleCoords(forest)
}
''','''	var forest = makeForest(id, lns, opts, constraints, offsetFn)

	constdp.SimplifyFeatureClass(id, forest, opts)
	setSimpleCoords(forest)
}

func makeForest(id *iter.Igen, plns []*geometry.Polyline, opts *opts.Opts,
	constraints []geometry.IGeometry, offsetFn func(geom.Coords) (int, float64)) []*constdp.ConstDP {
	var forest = make([]*constdp.ConstDP, 0, len(plns))
	for i := range plns {
		forest = append(forest, constdp.NewConstDP(id.Next(), plns[i], constraints, opts, offsetFn))
	}
	return forest
}
'''),
("setsimple-idx","simplify.go",'''		var coords = tree.Coordinates().Clone()
		coords.Idxs = make([]int, 0, tree.SimpleSet.Size())
		for _, o := range tree.SimpleSet.Values() {
			coords.Idxs = append(coords.Idxs, o.(int))
		}
		tree.Polyline.Simple = coords
''','''		var keep = tree.SimpleSet.Values()
		var idxs = make([]int, len(keep))
		for i := range keep {
			idxs[i] = keep[i].(int)
		}
		var coords = tree.Coordinates().Clone()
		coords.Idxs = idxs
		tree.Polyline.Simple = coords
'''),
("chunk-min","constdp/simple_0.go",'''	var idx = 0
	var chunks = make([][]*node.Node, 0, concurrency+3)

	for idx < n {
		var stop = idx + chunkSize
		//if stop > n || (stop < n && stop+chunkSize > n) {
		if stop > n {
			stop = n
		}
		var task []*node.Node
		for _, o := range vals[idx:stop] {
			task = append(task, o)
		}
		chunks = append(chunks, task)
		idx = stop
	}
	return chunks
''','''	var chunks [][]*node.Node
	for idx := 0; idx < n; idx += chunkSize {
		var stop = idx + chunkSize
		if stop >= n {
			stop = n
		}
		var task = make([]*node.Node, stop-idx)
		copy(task, vals[idx:stop])
		chunks = append(chunks, task)
	}
	return chunks
'''),
("process-named","constdp/simple_0.go",'''	var fn = func(in []*node.Node) {
		defer wg.Done()
		var selections []*node.Node
		for i := range in {
			var bln = true
			var hull = in[i]
			var self = hull.Instance.(*ConstDP)
''','''	var fn = func(in []*node.Node) {
		defer wg.Done()
		var selections []*node.Node
		for _, hull := range in {
			var bln = true
			var self = hull.Instance.(*ConstDP)
'''),
("process-validate-helper","constdp/simple_0.go",'''			var bln = true
			var hull = in[i]
			var self = hull.Instance.(*ConstDP)

			// self intersection constraint
			if self.Opts.AvoidNewSelfIntersects {
				bln = constrain.ByFeatureClassIntersection(self.Opts, hull, db, &selections)
			}

			// short circuit, if invalid, skip context validation
			// a segment is its own simplification
			if bln && hull.Range.Size() > 1 {
				bln = self.ValidateContextRelation(hull, &selections)
			}
''','''			selections = examine(in[i], db, selections)
''',"constdp/simple_0.go",'''func chunkTasks(''','''func examine(hull *node.Node, db *hdb.Hdb, selections []*node.Node) []*node.Node {
	var bln = true
	var self = hull.Instance.(*ConstDP)
	if self.Opts.AvoidNewSelfIntersects {
		bln = constrain.ByFeatureClassIntersection(self.Opts, hull, db, &selections)
	}
	if bln && hull.Range.Size() > 1 {
		self.ValidateContextRelation(hull, &selections)
	}
	return selections
}

func chunkTasks('''),
("simplify-loop","constdp/simplify.go",'''		selections = findDeformableNodes(deformables, db)

		// 1. deform selected nodes
		if len(selections) > 0 {
			deformables = deformNodes(id, selections)

			// 2. remove selected nodes from db
			cleanUpDB(db, selections)

			// 3. add new deformations to db
			db.Load(deformables)
		} else {
			deformables = deformables[:0]
		}
		// 4. repeat until there are no deformables
	}
''','''		selections = findDeformableNodes(deformables, db)
		if len(selections) == 0 {
			break
		}
		deformables = deformNodes(id, selections)
		cleanUpDB(db, selections)
		db.Load(deformables)
	}
'''),
("simplify-helper","constdp/simplify.go",'''	for len(deformables) > 0 {
		// 0. find deformable node
		selections = findDeformableNodes(deformables, db)

		// 1. deform selected nodes
		if len(selections) > 0 {
			deformables = deformNodes(id, selections)

			// 2. remove selected nodes from db
			cleanUpDB(db, selections)

			// 3. add new deformations to db
			db.Load(deformables)
		} else {
			deformables = deformables[:0]
		}
		// 4. repeat until there are no deformables
	}
''','''	settle(id, db, deformables)
''',"constdp/simplify.go",'''	var selections map[*node.Node]struct{}
''','''''',"constdp/simplify.go",'''//Simplify - Line''','''func settle(id *iter.Igen, db *hdb.Hdb, deformables []node.Node) {
	for len(deformables) > 0 {
		var selections = findDeformableNodes(deformables, db)
		if len(selections) == 0 {
			return
		}
		deformables = deformNodes(id, selections)
		cleanUpDB(db, selections)
		db.Load(deformables)
	}
}

//Simplify - Line'''),
("simplify-copy","constdp/simplify.go",'''	var deformables = make([]node.Node, 0, len(self.Hulls))
	for i := range self.Hulls {
		deformables = append(deformables, self.Hulls[i])
	}
''','''	var deformables = append([]node.Node{}, self.Hulls...)
'''),
("fc-flag","constdp/fc_simplify.go",'''	var constrained = opts.AvoidNewSelfIntersects ||
		opts.PlanarSelf ||
		opts.GeomRelation ||
		opts.DirRelation ||
		opts.DistRelation

	if constrained {
''','''	if opts.DistRelation || opts.DirRelation || opts.GeomRelation || opts.PlanarSelf || opts.AvoidNewSelfIntersects {
'''),
("group-simple","constdp/fc_group.go",'''		var lst []node.Node
		var self = h.Instance.(*ConstDP)
		var id = self.Id()
		if lst, ok = smap[id]; !ok {
			lst = []node.Node{}
		}
		lst = append(lst, *h)
		smap[id] = lst
''','''		var id = h.Instance.(*ConstDP).Id()
		smap[id] = append(smap[id], *h)
''',"constdp/fc_group.go",'''	var ok bool
''',''''''),
("group-onepass","constdp/fc_group.go",'''		var self = (lst[0].Instance).(*ConstDP)
		node.Clear(&self.Hulls)
		for i := range lst {
			self.Hulls = append(self.Hulls, lst[i])
		}
		selfs = append(selfs, self)
''','''		var self = (lst[0].Instance).(*ConstDP)
		node.Clear(&self.Hulls)
		self.Hulls = append(self.Hulls, lst...)
		selfs = append(selfs, self)
'''),
("agg-cond","constdp/node_aggregates.go",'''		if iter.SortedSearchInts(constVertexSet, hull.Range.I) &&
			iter.SortedSearchInts(constVertexSet, hull.Range.J) {
			continue
		}

		var withNext, withPrev = !iter.SortedSearchInts(constVertexSet, hull.Range.J),
			!iter.SortedSearchInts(constVertexSet, hull.Range.I)
''','''		var withNext = !iter.SortedSearchInts(constVertexSet, hull.Range.J)
		var withPrev = !iter.SortedSearchInts(constVertexSet, hull.Range.I)
		if !withNext && !withPrev {
			continue
		}
'''),
("agg-helper","constdp/node_aggregates.go",'''			key = CacheKey(prev, hull)
			if !cache[key] {
				cache[key] = true
				mergeprevBln, mergePrev = merge.ContiguousFragmentsAtThreshold(
					id, score, prev, hull, relation, common.Geometry,
				)
			}
''','''			mergeprevBln, mergePrev = try(prev, hull)
''',"constdp/node_aggregates.go",'''			key = CacheKey(hull, nxt)
			if !cache[key] {
				cache[key] = true
				mergenxtBln, mergeNxt = merge.ContiguousFragmentsAtThreshold(
					id, score, hull, nxt, relation, common.Geometry,
				)
			}
''','''			mergenxtBln, mergeNxt = try(hull, nxt)
''',"constdp/node_aggregates.go",'''		var key [CacheKeySize]int
''','''		var try = func(a, b *node.Node) (bool, node.Node) {
			var key = CacheKey(a, b)
			if cache[key] {
				return false, node.Node{}
			}
			cache[key] = true
			return merge.ContiguousFragmentsAtThreshold(id, score, a, b, relation, common.Geometry)
		}
'''),
("agg-invert","constdp/node_aggregates.go",'''				insertList = append(insertList, mergePrev)
				merged = true
			} else {
				merged = false
				insertList = append(insertList, *prev)
			}
		}

		if !merged {
			insertList = append(insertList, *hull)
		}
''','''				insertList = append(insertList, mergePrev)
				merged = true
			} else {
				insertList = append(insertList, *prev)
			}
		}

		if merged {
			db.Load(insertList)
			continue
		}
		insertList = append(insertList, *hull)
'''),
("vmerge-early","constdp/validate.go",'''	var bln = true
	var sideEffects []*node.Node

	// self intersection constraint
	if self.Opts.AvoidNewSelfIntersects {
		bln = constrain.BySelfIntersection(
			self.Opts, hull, hulldb, &sideEffects,
		)
	}

	if len(sideEffects) != 0 || !bln {
		return false
	}

	// context geometry constraint
	bln = self.ValidateContextRelation(hull, &sideEffects)
	return bln && (len(sideEffects) == 0)
''','''	var sideEffects []*node.Node
	if self.Opts.AvoidNewSelfIntersects {
		var ok = constrain.BySelfIntersection(self.Opts, hull, hulldb, &sideEffects)
		if !ok || len(sideEffects) > 0 {
			return false
		}
	}
	if !self.ValidateContextRelation(hull, &sideEffects) {
		return false
	}
	return len(sideEffects) == 0
'''),
("vctx-chain","constdp/validate.go",'''	if bln && self.Opts.GeomRelation {
		bln = constrain.ByGeometricRelation(hull, ctxtgeoms)
	}

	if bln && self.Opts.DistRelation {
		bln = constrain.ByMinDistRelation(self.Options(), hull, ctxtgeoms)
	}

	if bln && self.Opts.DirRelation {
		bln = constrain.BySideRelation(hull, ctxtgeoms)
	}

	if !bln {
		*selections = append(*selections, hull)
	}
	return bln
''','''	var o = self.Options()
	bln = (!o.GeomRelation || constrain.ByGeometricRelation(hull, ctxtgeoms)) &&
		(!o.DistRelation || constrain.ByMinDistRelation(o, hull, ctxtgeoms)) &&
		(!o.DirRelation || constrain.BySideRelation(hull, ctxtgeoms))
	if bln {
		return true
	}
	*selections = append(*selections, hull)
	return false
'''),
("refine-flat","constdp/decompose.go",'''		if hull.Range.Size() > 1 {
			if _, val := score(hull.Coordinates()); !relation(val) {
				var ha, hb = split.AtScoreSelection(id, hull, score, common.Geometry)
				results = append(results, self.refine(id, ha, hb)...)
				continue
			}
		}
		results = append(results, *hull)
''','''		var fine = hull.Range.Size() <= 1
		if !fine {
			var _, val = score(hull.Coordinates())
			fine = relation(val)
		}
		if fine {
			results = append(results, *hull)
			continue
		}
		var ha, hb = split.AtScoreSelection(id, hull, score, common.Geometry)
		results = append(results, self.refine(id, ha, hb)...)
'''),
("score-helper","constdp/decompose.go",'''	var score = self.Score
	var relation = self.ScoreRelation
	if self.SquareScore != nil {
		score = self.SquareScore
		relation = self.SquareScoreRelation
	}

	var decomp = offset.EpsilonDecomposition{
		ScoreFn:  score,
		Relation: relation,
	}
''','''	var score, relation = self.scoring()
	var decomp = offset.EpsilonDecomposition{
		ScoreFn:  score,
		Relation: relation,
	}
''',"constdp/decompose.go",'''func (self *ConstDP) Decompose(''','''func (self *ConstDP) scoring() (lnr.ScoreFn, func(float64) bool) {
	if self.SquareScore != nil {
		return self.SquareScore, self.SquareScoreRelation
	}
	return self.Score, self.ScoreRelation
}

func (self *ConstDP) Decompose(''',"constdp/decompose.go",'''	"github.com/TopoSimplify/plugin/node"
''','''	"github.com/TopoSimplify/plugin/lnr"
	"github.com/TopoSimplify/plugin/node"
'''),
]
