C="constdp/"; G="geometry/"; H="hdb/"; K="constrain/"; D="deform/"
R=[
("proc-direct",C+"simple_0.go","FUNC func processConstSimplification(",'''func processConstSimplification(nodeHulls []node.Node, db *hdb.Hdb, concurrency int) map[*node.Node]struct{} {
	var nodes = make([]*node.Node, 0, len(nodeHulls))
	for i := range nodeHulls {
		nodes = append(nodes, &nodeHulls[i])
	}

	var wg sync.WaitGroup
	var chunks = chunkTasks(nodes, concurrency)
	var out = make(chan *node.Node, 2*concurrency)

	wg.Add(len(chunks))
	for _, chunk := range chunks {
		go func(in []*node.Node) {
			defer wg.Done()
			for _, hull := range in {
				for _, o := range violations(hull, db) {
					out <- o
				}
			}
		}(chunk)
	}

	go func() {
		wg.Wait()
		close(out)
	}()

	var results = make(map[*node.Node]struct{})
	for o := range out {
		results[o] = struct{}{}
	}
	return results
}

// violations lists the nodes that have to be deformed on account of hull
func violations(hull *node.Node, db *hdb.Hdb) []*node.Node {
	var selections []*node.Node
	var self = hull.Instance.(*ConstDP)
	var valid = true
	if self.Opts.AvoidNewSelfIntersects {
		valid = constrain.ByFeatureClassIntersection(self.Opts, hull, db, &selections)
	}
	if valid && hull.Range.Size() > 1 {
		self.ValidateContextRelation(hull, &selections)
	}
	var deformable []*node.Node
	for _, o := range selections {
		if o.Range.Size() > 1 {
			deformable = append(deformable, o)
		}
	}
	return deformable
}
'''),
("proc-check",C+"simple_0.go",'''			var bln = true
			var hull = in[i]
			var self = hull.Instance.(*ConstDP)

			// self intersection constraint
			if self.Opts.AvoidNewSelfIntersects {
				bln = constrain.ByFeatureClassIntersection(self.Opts, hull, db, &selections)
			}

			// short circuit, if invalid, skip context validation
			// a segment is its own simplification
			if bln && hull.Range.Size() > 1 {
				bln = self.ValidateContextRelation(hull, &selections)
			}

			for _, o := range selections {
				if o.Range.Size() > 1 { // a segment cannot be deformed
					out <- o
				}
			}
			selections = selections[:0]
''','''			selections = checkHull(in[i], db, selections[:0])
			for _, o := range selections {
				if o.Range.Size() > 1 { // a segment cannot be deformed
					out <- o
				}
			}
''',C+"simple_0.go",'''func chunkTasks(''','''func checkHull(hull *node.Node, db *hdb.Hdb, selections []*node.Node) []*node.Node {
	var self = hull.Instance.(*ConstDP)
	if self.Opts.AvoidNewSelfIntersects && !constrain.ByFeatureClassIntersection(self.Opts, hull, db, &selections) {
		return selections
	}
	if hull.Range.Size() > 1 {
		self.ValidateContextRelation(hull, &selections)
	}
	return selections
}

func chunkTasks('''),
("deform-refine",C+"simple_1.go","FUNC func deformNodes(",'''func deformNodes(id *iter.Igen, nodes map[*node.Node]struct{}) []node.Node {
	var results = make([]node.Node, 0, len(nodes)*2)
	for hull := range nodes {
		if hull.Range.Size() <= 1 {
			results = append(results, *hull)
			continue
		}
		var self = hull.Instance.(*ConstDP)
		var ha, hb = split.AtScoreSelection(id, hull, self.scorer(), common.Geometry)
		results = append(results, self.refine(id, ha, hb)...)
		hull.Instance.State().MarkDirty() //after split mark instance as dirty
	}
	return results
}

// scorer prefers the square score
func (self *ConstDP) scorer() lnr.ScoreFn {
	if self.SquareScore != nil {
		return self.SquareScore
	}
	return self.Score
}
'''),
("deform-sorted-cap",C+"simple_1.go","FUNC func deformNodes(",'''func deformNodes(id *iter.Igen, nodes map[*node.Node]struct{}) []node.Node {
	var results []node.Node
	for hull := range nodes {
		results = append(results, deformNode(id, hull)...)
	}
	return results
}

func deformNode(id *iter.Igen, hull *node.Node) []node.Node {
	if hull.Range.Size() <= 1 {
		return []node.Node{*hull}
	}
	var self = hull.Instance.(*ConstDP)
	var score = self.Score
	if self.SquareScore != nil {
		score = self.SquareScore
	}
	var ha, hb = split.AtScoreSelection(id, hull, score, common.Geometry)
	var parts = self.refine(id, ha, hb)
	hull.Instance.State().MarkDirty()
	return parts
}
'''),
("fc-phases",C+"fc_simplify.go","FUNC func SimplifyFeatureClass(",'''func SimplifyFeatureClass(id *iter.Igen, selfs []*ConstDP, opts *opts.Opts, callback ...func(n int)) {
	var deformableCallback = func(_ int) {}
	if len(callback) > 0 {
		deformableCallback = callback[0]
	}

	SimplifyInstances(id, selfs, featureJunctions(selfs, opts))

	if isConstrained(opts) {
		var hulldb = hdb.NewHdb()
		var deformables = takeHulls(selfs)
		hulldb.Load(deformables)

		for len(deformables) > 0 {
			deformableCallback(len(deformables))
			var selections = findDeformableNodes(deformables, hulldb)
			if len(selections) == 0 {
				break
			}
			deformables = deformNodes(id, selections)
			cleanUpDB(hulldb, selections)
			hulldb.Load(deformables)
		}
		groupHullsByFC(hulldb)
	}
}

func featureJunctions(selfs []*ConstDP, opts *opts.Opts) map[int][]int {
	if !opts.PlanarSelf {
		return make(map[int][]int)
	}
	var instances = make([]*lnr.FC, 0, len(selfs))
	for _, sf := range selfs {
		instances = append(instances, lnr.NewFC(sf.Coordinates(), sf.Id()))
	}
	return lnr.FCPlanarSelfIntersection(instances)
}

func isConstrained(opts *opts.Opts) bool {
	return opts.AvoidNewSelfIntersects || opts.PlanarSelf || opts.GeomRelation || opts.DirRelation || opts.DistRelation
}

func takeHulls(selfs []*ConstDP) []node.Node {
	var hulls []node.Node
	for _, self := range selfs {
		hulls = append(hulls, self.Hulls...)
		node.Clear(&self.Hulls)
	}
	return hulls
}
'''),
("fc-loopfn",C+"fc_simplify.go",'''		for len(deformables) > 0 {
			deformableCallback(len(deformables))
			// 0. find deformable node
			selections = findDeformableNodes(deformables, hulldb)
			// 1. deform selected nodes
			if len(selections) > 0 {
				deformables = deformNodes(id, selections)
				// 2. remove selected nodes from db
				cleanUpDB(hulldb, selections)
				// 3. add new deformations to db
				hulldb.Load(deformables)
				// 4. repeat until there are no deformables
			} else {
				deformables = deformables[:0]
			}
		}
''','''		for len(deformables) > 0 {
			deformableCallback(len(deformables))
			deformables = deformRound(id, deformables, hulldb)
		}
''',C+"fc_simplify.go","func SimplifyInstances(",'''func deformRound(id *iter.Igen, hulls []node.Node, db *hdb.Hdb) []node.Node {
	var selections = findDeformableNodes(hulls, db)
	if len(selections) == 0 {
		return nil
	}
	var deformed = deformNodes(id, selections)
	cleanUpDB(db, selections)
	db.Load(deformed)
	return deformed
}

func SimplifyInstances(''',C+"fc_simplify.go","		var selections map[*node.Node]struct{}\n",""),
("fc-constr-early",C+"fc_simplify.go",'''	if constrained {
		var selections map[*node.Node]struct{}
''','''	if !constrained {
		return
	}

	{
		var selections map[*node.Node]struct{}
'''),
("inst-inlineloop",C+"fc_simplify.go","FUNC func SimplifyInstances(",'''func SimplifyInstances(id *iter.Igen, selfs []*ConstDP, junctions map[int][]int) {
	var stream = make(chan *ConstDP)
	var out = make(chan *ConstDP, 2*ConcurProcs)

	go func() {
		defer close(stream)
		for _, self := range selfs {
			stream <- self
		}
	}()

	var wg sync.WaitGroup
	wg.Add(ConcurProcs)
	for i := 0; i < ConcurProcs; i++ {
		go func() {
			defer wg.Done()
			for self := range stream {
				self.Simplify(id, junctions[self.Id()])
				out <- self
			}
		}()
	}

	go func() {
		wg.Wait()
		close(out)
	}()

	for range out {
	}
}
'''),
("inst-nowait",C+"fc_simplify.go","FUNC func SimplifyInstances(",'''func SimplifyInstances(id *iter.Igen, selfs []*ConstDP, junctions map[int][]int) {
	var wg sync.WaitGroup
	var stream = make(chan *ConstDP)

	wg.Add(ConcurProcs)
	for i := 0; i < ConcurProcs; i++ {
		go func() {
			defer wg.Done()
			for self := range stream {
				self.Simplify(id, junctions[self.Id()])
			}
		}()
	}

	for _, self := range selfs {
		stream <- self
	}
	close(stream)
	wg.Wait()
}
'''),
("simp-copy",C+"simplify.go",'''	var deformables = make([]node.Node, 0, len(self.Hulls))

	for i := range self.Hulls {
		deformables = append(deformables, self.Hulls[i])
	}
''','''	var deformables = make([]node.Node, len(self.Hulls))
	copy(deformables, self.Hulls)

'''),
("simp-append",C+"simplify.go",'''	var deformables = make([]node.Node, 0, len(self.Hulls))

	for i := range self.Hulls {
		deformables = append(deformables, self.Hulls[i])
	}
''','''	var deformables = append([]node.Node(nil), self.Hulls...)
'''),
("simp-break",C+"simplify.go",'''		selections = findDeformableNodes(deformables, db)
		// 1. deform selected nodes
		if len(selections) > 0 {
			deformables = deformNodes(id, selections)
			// 2. remove selected nodes from db
			cleanUpDB(db, selections)
			// 3. add new deformations to db
			db.Load(deformables)
		} else {
			deformables = deformables[:0]
		}
		// 4. repeat until there are no deformables
''','''		selections = findDeformableNodes(deformables, db)
		if len(selections) == 0 {
			break
		}
		// 1. deform selected nodes
		deformables = deformNodes(id, selections)
		// 2. remove selected nodes from db
		cleanUpDB(db, selections)
		// 3. add new deformations to db
		db.Load(deformables)
		// 4. repeat until there are no deformables
'''),
("simp-selcond",C+"simplify.go",'''	for len(deformables) > 0 {
		// 0. find deformable node
		selections = findDeformableNodes(deformables, db)
		// 1. deform selected nodes
		if len(selections) > 0 {
			deformables = deformNodes(id, selections)
			// 2. remove selected nodes from db
			cleanUpDB(db, selections)
			// 3. add new deformations to db
			db.Load(deformables)
		} else {
			deformables = deformables[:0]
		}
		// 4. repeat until there are no deformables
	}
''','''	if len(deformables) > 0 {
		selections = findDeformableNodes(deformables, db)
		for len(selections) > 0 {
			deformables = deformNodes(id, selections)
			cleanUpDB(db, selections)
			db.Load(deformables)
			if len(deformables) == 0 {
				break
			}
			selections = findDeformableNodes(deformables, db)
		}
	}
'''),
("simp-collect",C+"simplify.go",'''	node.Clear(&self.Hulls)
	self.SimpleSet.Empty()

	var hull *node.Node
	var nodes = db.All()
	for i := range nodes {
		hull = nodes[i]
		self.Hulls = append(self.Hulls, *hull)
		self.SimpleSet.Extend(hull.Range.I, hull.Range.J)
	}
''','''	self.collect(db)
''',C+"simplify.go","//Simplify - Line",'''// collect takes over the hulls in db
func (self *ConstDP) collect(db *hdb.Hdb) {
	node.Clear(&self.Hulls)
	self.SimpleSet.Empty()
	for _, hull := range db.All() {
		self.Hulls = append(self.Hulls, *hull)
		self.SimpleSet.Extend(hull.Range.I, hull.Range.J)
	}
}

//Simplify - Line'''),
("agg-trymerge",C+"node_aggregates.go",'''		var insertList []node.Node
		var merged bool
		//nxt, prev
		if !merged && mergenxtBln {
			db.Remove(nxt)
			if validateMerge(&mergeNxt, db) {
				if objects[0] == nxt {
					objects = objects[1:]
				}
				insertList = append(insertList, mergeNxt)
				merged = true
			} else {
				merged = false
				insertList = append(insertList, *nxt)
			}
		}

		if !merged && mergeprevBln {
			db.Remove(prev)
			//prev cannot exist since moving from left --- right
			if validateMerge(&mergePrev, db) {
				insertList = append(insertList, mergePrev)
				merged = true
			} else {
				merged = false
				insertList = append(insertList, *prev)
			}
		}

		if !merged {
			insertList = append(insertList, *hull)
		}

		db.Load(insertList)
''','''		var insertList []node.Node
		var merged bool
		if mergenxtBln {
			db.Remove(nxt)
			if merged = validateMerge(&mergeNxt, db); merged {
				insertList = append(insertList, mergeNxt)
				if objects[0] == nxt {
					objects = objects[1:]
				}
			} else {
				insertList = append(insertList, *nxt)
			}
		}

		if mergeprevBln && !merged {
			db.Remove(prev)
			if merged = validateMerge(&mergePrev, db); merged {
				insertList = append(insertList, mergePrev)
			} else {
				insertList = append(insertList, *prev)
			}
		}

		if merged {
			db.Load(insertList)
		} else {
			db.Load(append(insertList, *hull))
		}
'''),
("agg-mergewith",C+"node_aggregates.go",'''		if withPrev && prev != nil {
			key = CacheKey(prev, hull)
			if !cache[key] {
				cache[key] = true
				mergeprevBln, mergePrev = merge.ContiguousFragmentsAtThreshold(
					id, score, prev, hull, relation, common.Geometry,
				)
			}
		}

		if withNext && nxt != nil {
			key = CacheKey(hull, nxt)
			if !cache[key] {
				cache[key] = true
				mergenxtBln, mergeNxt = merge.ContiguousFragmentsAtThreshold(
					id, score, hull, nxt, relation, common.Geometry,
				)
			}
		}
''','''		var attempt = func(a, b *node.Node) (bool, node.Node) {
			key = CacheKey(a, b)
			if cache[key] {
				return false, node.Node{}
			}
			cache[key] = true
			return merge.ContiguousFragmentsAtThreshold(id, score, a, b, relation, common.Geometry)
		}

		if withPrev && prev != nil {
			mergeprevBln, mergePrev = attempt(prev, hull)
		}

		if withNext && nxt != nil {
			mergenxtBln, mergeNxt = attempt(hull, nxt)
		}
'''),
("agg-anchored",C+"node_aggregates.go",'''		if iter.SortedSearchInts(constVertexSet, hull.Range.I) &&
			iter.SortedSearchInts(constVertexSet, hull.Range.J) {
			continue
		}
		var withNext, withPrev = !iter.SortedSearchInts(constVertexSet, hull.Range.J),
			!iter.SortedSearchInts(constVertexSet, hull.Range.I)
''','''		var withPrev = !iter.SortedSearchInts(constVertexSet, hull.Range.I)
		var withNext = !iter.SortedSearchInts(constVertexSet, hull.Range.J)
		if !(withPrev || withNext) {
			continue
		}
'''),
("agg-for",C+"node_aggregates.go",'''	for len(objects) != 0 {
		hull = objects[0]
		objects = objects[1:]
		if hull.Range.Size() != fragmentSize {
			continue
		}
''','''	for len(objects) > 0 {
		hull, objects = objects[0], objects[1:]
		if hull.Range.Size() != 1 {
			continue
		}
''',C+"node_aggregates.go","	var fragmentSize = 1\n",""),
("agg-scores",C+"node_aggregates.go",'''	var score = self.Score
	var relation = self.ScoreRelation

	if self.SquareScore != nil {
		score = self.SquareScore
		relation = self.SquareScoreRelation
	}
''','''	var score, relation = self.scoring()
''',C+"decompose.go",'''	var score = self.Score
	var relation = self.ScoreRelation

	if self.SquareScore != nil {
		score = self.SquareScore
		relation = self.SquareScoreRelation
	}

	var decomp = offset.EpsilonDecomposition{
		ScoreFn:  score,
		Relation: relation,
	}
''','''	var score, relation = self.scoring()
	var decomp = offset.EpsilonDecomposition{ScoreFn: score, Relation: relation}
''',C+"decompose.go","//decomposes hulls further",'''func (self *ConstDP) scoring() (lnr.ScoreFn, func(float64) bool) {
	if self.SquareScore != nil {
		return self.SquareScore, self.SquareScoreRelation
	}
	return self.Score, self.ScoreRelation
}

//decomposes hulls further'''),
("valmerge-flat",C+"validate.go","FUNC func (self *ConstDP) ValidateMerge(",'''func (self *ConstDP) ValidateMerge(hull *node.Node, hulldb *hdb.Hdb) bool {
	var sideEffects []*node.Node
	if self.Opts.AvoidNewSelfIntersects {
		if !constrain.BySelfIntersection(self.Opts, hull, hulldb, &sideEffects) || len(sideEffects) > 0 {
			return false
		}
	}
	return self.ValidateContextRelation(hull, &sideEffects) && len(sideEffects) == 0
}
'''),
("valctx-fn",C+"validate.go","FUNC func (self *ConstDP) ValidateContextRelation(",'''func (self *ConstDP) ValidateContextRelation(hull *node.Node, selections *[]*node.Node) bool {
	var options = self.Opts
	if !options.GeomRelation && !options.DistRelation && !options.DirRelation {
		return true
	}

	var geoms = self.contextOf(hull)
	var valid = (!options.GeomRelation || constrain.ByGeometricRelation(hull, geoms)) &&
		(!options.DistRelation || constrain.ByMinDistRelation(self.Options(), hull, geoms)) &&
		(!options.DirRelation || constrain.BySideRelation(hull, geoms))
	if !valid {
		*selections = append(*selections, hull)
	}
	return valid
}

func (self *ConstDP) contextOf(hull *node.Node) *ctx.ContextGeometries {
	var neighbours []*ctx.ContextGeometry
	for _, o := range knn.ContextNeighbours(self.ContextDB, hull.Geom, self.Opts.MinDist) {
		neighbours = append(neighbours, o.Geom.(*ctx.ContextGeometry))
	}
	return (&ctx.ContextGeometries{}).SetData(neighbours)
}
'''),
("valctx-returns",C+"validate.go",'''	if bln && self.Opts.GeomRelation {
		bln = constrain.ByGeometricRelation(hull, ctxtgeoms)
	}

	if bln && self.Opts.DistRelation {
		bln = constrain.ByMinDistRelation(self.Options(), hull, ctxtgeoms)
	}

	if bln && self.Opts.DirRelation {
		bln = constrain.BySideRelation(hull, ctxtgeoms)
	}

	if !bln {
		*selections = append(*selections, hull)
	}

	return bln
''','''	var reject = func() bool {
		*selections = append(*selections, hull)
		return false
	}

	if self.Opts.GeomRelation && !constrain.ByGeometricRelation(hull, ctxtgeoms) {
		return reject()
	}

	if self.Opts.DistRelation && !constrain.ByMinDistRelation(self.Options(), hull, ctxtgeoms) {
		return reject()
	}

	if self.Opts.DirRelation && !constrain.BySideRelation(hull, ctxtgeoms) {
		return reject()
	}

	return bln
'''),
("refine-switch",C+"decompose.go",'''		if hull.Range.Size() > 1 {
			if _, val := score(hull.Coordinates()); !relation(val) {
				var ha, hb = split.AtScoreSelection(id, hull, score, common.Geometry)
				results = append(results, self.refine(id, ha, hb)...)
				continue
			}
		}
		results = append(results, *hull)
''','''		if self.withinThreshold(hull) {
			results = append(results, *hull)
		} else {
			var ha, hb = split.AtScoreSelection(id, hull, score, common.Geometry)
			results = append(results, self.refine(id, ha, hb)...)
		}
''',C+"decompose.go","	var relation = self.ScoreRelation\n\n	if self.SquareScore != nil {\n		score = self.SquareScore\n		relation = self.SquareScoreRelation\n	}\n\n	var results","	if self.SquareScore != nil {\n		score = self.SquareScore\n	}\n\n	var results",
C+"decompose.go","//decomposes hulls further",'''func (self *ConstDP) withinThreshold(hull *node.Node) bool {
	if hull.Range.Size() <= 1 {
		return true
	}
	if self.SquareScore != nil {
		var _, val = self.SquareScore(hull.Coordinates())
		return self.SquareScoreRelation(val)
	}
	var _, val = self.Score(hull.Coordinates())
	return self.ScoreRelation(val)
}

//decomposes hulls further'''),
("refine-stack",C+"decompose.go",'''	for i := range hulls {
		var hull = &hulls[i]
		if hull.Range.Size() > 1 {
			if _, val := score(hull.Coordinates()); !relation(val) {
				var ha, hb = split.AtScoreSelection(id, hull, score, common.Geometry)
				results = append(results, self.refine(id, ha, hb)...)
				continue
			}
		}
		results = append(results, *hull)
	}
''','''	for i := range hulls {
		var hull = hulls[i]
		var exceeds = false
		if hull.Range.Size() > 1 {
			_, val := score(hull.Coordinates())
			exceeds = !relation(val)
		}
		if exceeds {
			var ha, hb = split.AtScoreSelection(id, &hull, score, common.Geometry)
			results = append(results, self.refine(id, ha, hb)...)
		} else {
			results = append(results, hull)
		}
	}
'''),
("ctxdb-node",C+"constructor.go",'''	var lst = make([]node.Node, 0, len(geoms))
	for i := range geoms {
		cg := ctx.New(geoms[i], 0, -1).AsContextNeighbour()
		lst = append(lst, node.Node{
			MBR:      cg.Bounds(),
			Geom:     cg,
			Instance: cdp,
		})
	}
	cdp.ContextDB.Clear().Load(lst)
	return cdp
''','''	var lst = make([]node.Node, len(geoms))
	for i, g := range geoms {
		lst[i] = cdp.contextNode(g)
	}
	cdp.ContextDB.Clear()
	cdp.ContextDB.Load(lst)
	return cdp
''',C+"constructor.go","//BuildContextDB - creates",'''func (cdp *ConstDP) contextNode(g geometry.IGeometry) node.Node {
	var cg = ctx.New(g, 0, -1).AsContextNeighbour()
	var n node.Node
	n.MBR = cg.Bounds()
	n.Geom = cg
	n.Instance = cdp
	return n
}

//BuildContextDB - creates'''),
("group-list",C+"fc_group.go","FUNC func groupHullsByFC(",'''func groupHullsByFC(hulldb *hdb.Hdb) {
	var groups = make(map[int][]*node.Node)
	for _, h := range hulldb.All() {
		var id = h.Instance.(*ConstDP).Id()
		groups[id] = append(groups[id], h)
	}
	for _, hulls := range groups {
		hulls[0].Instance.(*ConstDP).setHulls(hulls)
	}
}

func (self *ConstDP) setHulls(hulls []*node.Node) {
	node.Clear(&self.Hulls)
	self.SimpleSet.Empty()
	for _, h := range hulls {
		self.Hulls = append(self.Hulls, *h)
		self.SimpleSet.Extend(h.Range.I, h.Range.J)
	}
}
'''),
("group-instances",C+"fc_group.go","FUNC func groupHullsByFC(",'''func groupHullsByFC(hulldb *hdb.Hdb) {
	var smap = make(map[int][]node.Node)
	var instances = make(map[int]*ConstDP)

	for _, h := range hulldb.All() {
		var self = h.Instance.(*ConstDP)
		instances[self.Id()] = self
		smap[self.Id()] = append(smap[self.Id()], *h)
	}

	for id, lst := range smap {
		var self = instances[id]
		node.Clear(&self.Hulls)
		self.Hulls = append(self.Hulls, lst...)
		self.SimpleSet.Empty()
		for i := range lst {
			self.SimpleSet.Extend(lst[i].Range.I, lst[i].Range.J)
		}
	}
}
'''),
]
