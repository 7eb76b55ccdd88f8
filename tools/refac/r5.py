C="constdp/"; G="geometry/"; H="hdb/"; K="constrain/"; D="deform/"
R=[
# ---- whole functions rewritten the way a tidy-minded maintainer would
("cachekey",C+"common.go","FUNC func CacheKey(",'''func CacheKey(a, b *node.Node) [CacheKeySize]int {
	var key [CacheKeySize]int
	for i, n := range []*node.Node{a, b} {
		key[2*i] = n.Range.I
		key[2*i+1] = n.Range.J
		key[4+i] = n.Instance.Id()
	}
	sort.Ints(key[:])
	return key
}
'''),
("cachekey2",C+"common.go","FUNC func CacheKey(",'''func CacheKey(a, b *node.Node) [CacheKeySize]int {
	var key [CacheKeySize]int
	key[0], key[1] = a.Range.I, a.Range.J
	key[2], key[3] = b.Range.I, b.Range.J
	key[4], key[5] = a.Instance.Id(), b.Instance.Id()
	var view = key[:]
	sort.Ints(view)
	return key
}
'''),
("simp-helpers",C+"simplify.go","FUNC func (self *ConstDP) Simplify(",'''func (self *ConstDP) Simplify(id *iter.Igen, constVertices ...[]int) *ConstDP {
	self.State().MarkDirty()
	self.SimpleSet.Empty()

	var constVertexSet = self.decomposeAtJunctions(id, constVertices)
	var db = self.deformUntilClean(id)
	self.AggregateSimpleSegments(id, db, constVertexSet, self.ValidateMerge)
	self.collect(db)

	self.State().MarkClean()
	return self
}

func (self *ConstDP) decomposeAtJunctions(id *iter.Igen, constVertices [][]int) []int {
	var constVerts, constVertexSet []int
	if len(constVertices) > 0 {
		constVerts = constVertices[0]
	}
	self.Hulls = self.Decompose(id)
	self.Hulls, _, constVertexSet = constrain.ToSelfIntersects(
		id, self.Hulls, self.Polyline, self.Options(), constVerts,
	)
	self.Hulls = self.refine(id, self.Hulls...)
	return constVertexSet
}

func (self *ConstDP) deformUntilClean(id *iter.Igen) *hdb.Hdb {
	var db = hdb.NewHdb()
	var deformables = append([]node.Node{}, self.Hulls...)
	node.Clear(&self.Hulls)
	db.Load(deformables)
	for len(deformables) > 0 {
		var selections = findDeformableNodes(deformables, db)
		if len(selections) == 0 {
			break
		}
		deformables = deformNodes(id, selections)
		cleanUpDB(db, selections)
		db.Load(deformables)
	}
	return db
}

func (self *ConstDP) collect(db *hdb.Hdb) {
	node.Clear(&self.Hulls)
	self.SimpleSet.Empty()
	for _, hull := range db.All() {
		self.Hulls = append(self.Hulls, *hull)
		self.SimpleSet.Extend(hull.Range.I, hull.Range.J)
	}
}
'''),
("simp-forever",C+"simplify.go",'''	for len(deformables) > 0 {
		// 0. find deformable node
		selections = findDeformableNodes(deformables, db)
		// 1. deform selected nodes
		if len(selections) > 0 {
			deformables = deformNodes(id, selections)
			// 2. remove selected nodes from db
			cleanUpDB(db, selections)
			// 3. add new deformations to db
			db.Load(deformables)
		} else {
			deformables = deformables[:0]
		}
		// 4. repeat until there are no deformables
	}
''','''	for {
		if len(deformables) == 0 {
			break
		}
		selections = findDeformableNodes(deformables, db)
		if len(selections) == 0 {
			break
		}
		deformables = deformNodes(id, selections)
		cleanUpDB(db, selections)
		db.Load(deformables)
	}
'''),
("cons-struct",C+"simple_0.go","FUNC func processConstSimplification(",'''func processConstSimplification(nodeHulls []node.Node, db *hdb.Hdb, concurrency int) map[*node.Node]struct{} {
	var nodes = make([]*node.Node, 0, len(nodeHulls))
	for i := range nodeHulls {
		nodes = append(nodes, &nodeHulls[i])
	}

	var chunks = chunkTasks(nodes, concurrency)
	var out = make(chan *node.Node, 2*concurrency)
	var wg sync.WaitGroup
	wg.Add(len(chunks))

	go func() {
		for _, chunk := range chunks {
			go func(in []*node.Node) {
				defer wg.Done()
				examine(in, db, out)
			}(chunk)
		}
	}()

	go func() {
		wg.Wait()
		close(out)
	}()

	var results = make(map[*node.Node]struct{})
	for o := range out {
		results[o] = struct{}{}
	}
	return results
}

func examine(in []*node.Node, db *hdb.Hdb, out chan<- *node.Node) {
	var selections []*node.Node
	for _, hull := range in {
		var self = hull.Instance.(*ConstDP)
		var valid = true
		if self.Opts.AvoidNewSelfIntersects {
			valid = constrain.ByFeatureClassIntersection(self.Opts, hull, db, &selections)
		}
		if valid && hull.Range.Size() > 1 {
			self.ValidateContextRelation(hull, &selections)
		}
		for _, o := range selections {
			if o.Range.Size() > 1 {
				out <- o
			}
		}
		selections = selections[:0]
	}
}
'''),
("chunk-for",C+"simple_0.go","FUNC func chunkTasks(",'''func chunkTasks(vals []*node.Node, concurrency int) [][]*node.Node {
	var n = len(vals)
	var size = n / concurrency
	if size == 0 {
		size = 1
	}
	var chunks = make([][]*node.Node, 0, concurrency+3)
	for idx := 0; idx < n; idx += size {
		var stop = idx + size
		if stop > n {
			stop = n
		}
		chunks = append(chunks, append([]*node.Node(nil), vals[idx:stop]...))
	}
	return chunks
}
'''),
("validate-early",C+"validate.go","FUNC func (self *ConstDP) ValidateContextRelation(",'''func (self *ConstDP) ValidateContextRelation(hull *node.Node, selections *[]*node.Node) bool {
	var opts = self.Opts
	if !opts.GeomRelation && !opts.DistRelation && !opts.DirRelation {
		return true
	}
	if self.contextHolds(hull) {
		return true
	}
	*selections = append(*selections, hull)
	return false
}

func (self *ConstDP) contextHolds(hull *node.Node) bool {
	var objs = knn.ContextNeighbours(self.ContextDB, hull.Geom, self.Opts.MinDist)
	var neighbours = make([]*ctx.ContextGeometry, 0, len(objs))
	for _, o := range objs {
		neighbours = append(neighbours, o.Geom.(*ctx.ContextGeometry))
	}
	var cgs = ctx.NewContexts(neighbours...)
	if self.Opts.GeomRelation && !constrain.ByGeometricRelation(hull, cgs) {
		return false
	}
	if self.Opts.DistRelation && !constrain.ByMinDistRelation(self.Options(), hull, cgs) {
		return false
	}
	return !self.Opts.DirRelation || constrain.BySideRelation(hull, cgs)
}
'''),
("validate-merge-early",C+"validate.go","FUNC func (self *ConstDP) ValidateMerge(",'''func (self *ConstDP) ValidateMerge(hull *node.Node, hulldb *hdb.Hdb) bool {
	var affected []*node.Node
	if self.Opts.AvoidNewSelfIntersects && !constrain.BySelfIntersection(self.Opts, hull, hulldb, &affected) {
		return false
	}
	if len(affected) > 0 {
		return false
	}
	return self.ValidateContextRelation(hull, &affected) && len(affected) == 0
}
'''),
("inst-helper",C+"fc_simplify.go","FUNC func SimplifyInstances(",'''func SimplifyInstances(id *iter.Igen, selfs []*ConstDP, junctions map[int][]int) {
	var stream = feed(selfs)
	var out = make(chan *ConstDP, 2*ConcurProcs)

	var wg sync.WaitGroup
	wg.Add(ConcurProcs)
	for i := 0; i < ConcurProcs; i++ {
		go func() {
			defer wg.Done()
			for self := range stream {
				self.Simplify(id, junctions[self.Id()])
				out <- self
			}
		}()
	}

	go func() {
		wg.Wait()
		close(out)
	}()

	for range out {
	}
}

func feed(selfs []*ConstDP) chan *ConstDP {
	var stream = make(chan *ConstDP)
	go func() {
		defer close(stream)
		for _, self := range selfs {
			stream <- self
		}
	}()
	return stream
}
'''),
("inst-wgadd",C+"fc_simplify.go",'''	wg.Add(ConcurProcs)

	var stream''','''	for i := 0; i < ConcurProcs; i++ {
		wg.Add(1)
	}

	var stream'''),
("fc-early",C+"fc_simplify.go","FUNC func SimplifyFeatureClass(",'''func SimplifyFeatureClass(id *iter.Igen, selfs []*ConstDP, opts *opts.Opts, callback ...func(n int)) {
	var report func(int)
	if len(callback) > 0 {
		report = callback[0]
	} else {
		report = func(_ int) {}
	}

	SimplifyInstances(id, selfs, classJunctions(selfs, opts))

	if !(opts.AvoidNewSelfIntersects || opts.PlanarSelf ||
		opts.GeomRelation || opts.DirRelation || opts.DistRelation) {
		return
	}

	var hulldb = hdb.NewHdb()
	var deformables []node.Node
	for _, self := range selfs {
		deformables = append(deformables, self.Hulls...)
		node.Clear(&self.Hulls)
	}
	hulldb.Load(deformables)

	for len(deformables) > 0 {
		report(len(deformables))
		var selections = findDeformableNodes(deformables, hulldb)
		if len(selections) == 0 {
			break
		}
		deformables = deformNodes(id, selections)
		cleanUpDB(hulldb, selections)
		hulldb.Load(deformables)
	}
	groupHullsByFC(hulldb)
}

func classJunctions(selfs []*ConstDP, opts *opts.Opts) map[int][]int {
	if !opts.PlanarSelf {
		return make(map[int][]int)
	}
	instances := make([]*lnr.FC, 0, len(selfs))
	for _, sf := range selfs {
		instances = append(instances, lnr.NewFC(sf.Coordinates(), sf.Id()))
	}
	return lnr.FCPlanarSelfIntersection(instances)
}
'''),
("group-simple",C+"fc_group.go","FUNC func groupHullsByFC(",'''func groupHullsByFC(hulldb *hdb.Hdb) {
	var groups = make(map[int][]node.Node)
	for _, h := range hulldb.All() {
		var id = h.Instance.(*ConstDP).Id()
		groups[id] = append(groups[id], *h)
	}

	for _, hulls := range groups {
		var self = hulls[0].Instance.(*ConstDP)
		node.Clear(&self.Hulls)
		self.Hulls = append(self.Hulls, hulls...)

		self.SimpleSet.Empty()
		for i := range self.Hulls {
			var rg = self.Hulls[i].Range
			self.SimpleSet.Extend(rg.I, rg.J)
		}
	}
}
'''),
("group-two",C+"fc_group.go",'''	for _, h := range nodes {
		var lst []node.Node
		var self = h.Instance.(*ConstDP)
		var id = self.Id()
		if lst, ok = smap[id]; !ok {
			lst = []node.Node{}
		}
		lst = append(lst, *h)
		smap[id] = lst
	}
''','''	for i := 0; i < len(nodes); i++ {
		var self = nodes[i].Instance.(*ConstDP)
		smap[self.Id()] = append(smap[self.Id()], *nodes[i])
	}
''',C+"fc_group.go",'''	var ok bool
''',''''''),
("decomp-share",C+"decompose.go","FUNC func (self *ConstDP) Decompose(",'''func (self *ConstDP) scoring() (func(geom.Coords) (int, float64), func(float64) bool) {
	if self.SquareScore != nil {
		return self.SquareScore, self.SquareScoreRelation
	}
	return self.Score, self.ScoreRelation
}

func (self *ConstDP) Decompose(id *iter.Igen) []node.Node {
	var score, relation = self.scoring()
	return decompose.DouglasPeucker(
		id, self.Polyline,
		offset.EpsilonDecomposition{ScoreFn: score, Relation: relation},
		common.Geometry, self,
	)
}
''',C+"decompose.go","FUNC func (self *ConstDP) refine(",'''func (self *ConstDP) refine(id *iter.Igen, hulls ...node.Node) []node.Node {
	var score, relation = self.scoring()
	var results = make([]node.Node, 0, len(hulls))
	for i := range hulls {
		var hull = &hulls[i]
		if hull.Range.Size() <= 1 {
			results = append(results, *hull)
			continue
		}
		var _, val = score(hull.Coordinates())
		if relation(val) {
			results = append(results, *hull)
			continue
		}
		var ha, hb = split.AtScoreSelection(id, hull, score, common.Geometry)
		results = append(results, self.refine(id, ha, hb)...)
	}
	return results
}
''',C+"decompose.go",'''import (''','''import (
	"github.com/intdxdt/geom"'''),
("agg-scoring",C+"node_aggregates.go","FUNC func (self *ConstDP) AggregateSimpleSegments(",'''func (self *ConstDP) AggregateSimpleSegments(
	id *iter.Igen, db *hdb.Hdb, constVertexSet []int,
	validateMerge func(*node.Node, *hdb.Hdb) bool,
) {
	var tried = make(map[[CacheKeySize]int]bool)
	var objects = db.All()
	sort.Sort(node.NodePtrs(objects))

	var score = self.Score
	var relation = self.ScoreRelation
	if self.SquareScore != nil {
		score, relation = self.SquareScore, self.SquareScoreRelation
	}

	for len(objects) != 0 {
		var hull = objects[0]
		objects = objects[1:]
		if hull.Range.Size() != 1 {
			continue
		}

		var fixedI = iter.SortedSearchInts(constVertexSet, hull.Range.I)
		var fixedJ = iter.SortedSearchInts(constVertexSet, hull.Range.J)
		if fixedI && fixedJ {
			continue
		}

		db.Remove(hull)
		var neighbours = knn.NodeNeighbours(db, hull, knn.EpsilonDist)
		var prev, nxt = node.Neighbours(hull, neighbours)

		var mergePrev, mergeNxt node.Node
		var canPrev, canNext bool

		if !fixedI && prev != nil {
			var key = CacheKey(prev, hull)
			if !tried[key] {
				tried[key] = true
				canPrev, mergePrev = merge.ContiguousFragmentsAtThreshold(
					id, score, prev, hull, relation, common.Geometry,
				)
			}
		}
		if !fixedJ && nxt != nil {
			var key = CacheKey(hull, nxt)
			if !tried[key] {
				tried[key] = true
				canNext, mergeNxt = merge.ContiguousFragmentsAtThreshold(
					id, score, hull, nxt, relation, common.Geometry,
				)
			}
		}

		var insertList []node.Node
		var merged = false
		if canNext {
			db.Remove(nxt)
			merged = validateMerge(&mergeNxt, db)
			if merged {
				if objects[0] == nxt {
					objects = objects[1:]
				}
				insertList = append(insertList, mergeNxt)
			} else {
				insertList = append(insertList, *nxt)
			}
		}
		if canPrev && !merged {
			db.Remove(prev)
			merged = validateMerge(&mergePrev, db)
			if merged {
				insertList = append(insertList, mergePrev)
			} else {
				insertList = append(insertList, *prev)
			}
		}
		if !merged {
			insertList = append(insertList, *hull)
		}
		db.Load(insertList)
	}
}
'''),
("deform-guard",C+"simple_1.go","FUNC func deformNodes(",'''func deformNodes(id *iter.Igen, nodes map[*node.Node]struct{}) []node.Node {
	var results = make([]node.Node, 0, 2*len(nodes))
	for hull := range nodes {
		if hull.Range.Size() <= 1 {
			results = append(results, *hull)
			continue
		}
		var self = hull.Instance.(*ConstDP)
		var score = self.SquareScore
		if score == nil {
			score = self.Score
		}
		var left, right = split.AtScoreSelection(id, hull, score, common.Geometry)
		results = append(results, self.refine(id, left, right)...)
		self.State().MarkDirty()
	}
	return results
}
'''),
# ---- constrain
("toself-helpers",K+"toself.go","FUNC func ToSelfIntersects(",'''func ToSelfIntersects(id *iter.Igen,
	nodes []node.Node, polyline *geometry.Polyline,
	options *opts.Opts, constVerts []int,
) ([]node.Node, bool, []int) {
	if !options.PlanarSelf && !options.NonPlanarSelf {
		return nodes, true, []int{}
	}

	var hulldb = hdb.NewHdb().Load(nodes)
	var selfInters = lnr.SelfIntersection(polyline, options.PlanarSelf, options.NonPlanarSelf)
	var atVertexSet = vertexSet(selfInters)

	for _, i := range constVerts {
		if !atVertexSet[i] {
			atVertexSet[i] = true
			var cg = ctx.New(polyline.Pt(i), 0, -1).AsPlanarVertex()
			cg.Meta.Planar = append(cg.Meta.Planar, i)
			selfInters.Push(cg)
		}
	}

	splitAtSelfIntersects(id, hulldb, selfInters)

	var hulls = hulldb.All()
	nodes = make([]node.Node, len(hulls))
	for i := range hulls {
		nodes[i] = *hulls[i]
	}
	sort.Sort(node.Nodes(nodes))
	return nodes, true, sortedKeys(atVertexSet)
}

func vertexSet(inters *ctx.ContextGeometries) map[int]bool {
	var set = make(map[int]bool)
	for _, inter := range inters.DataView() {
		if inter.IsNonPlanarVertex() {
			mark(set, inter.Meta.NonPlanar)
		} else {
			mark(set, inter.Meta.Planar)
		}
	}
	return set
}

func mark(set map[int]bool, indices []int) {
	for _, v := range indices {
		set[v] = true
	}
}

func sortedKeys(set map[int]bool) []int {
	var keys = make([]int, 0, len(set))
	for k := range set {
		keys = append(keys, k)
	}
	sort.Ints(keys)
	return keys
}
'''),
("toself-set",K+"toself.go",'''	var atVertexSet = make(map[int]bool)
''','''	var atVertexSet = make(map[int]struct{})
''',K+"toself.go",'''			atVertexSet[v] = true
''','''			atVertexSet[v] = struct{}{}
''',K+"toself.go",'''		if atVertexSet[i] { //exclude already self intersects
			continue
		}
		atVertexSet[i] = true
''','''		if _, seen := atVertexSet[i]; seen { //exclude already self intersects
			continue
		}
		atVertexSet[i] = struct{}{}
'''),
("splitself-switch",K+"split.go","FUNC func splitAtSelfIntersects(",'''func splitAtSelfIntersects(id *iter.Igen, db *hdb.Hdb, selfInters *ctx.ContextGeometries) {
	for _, inter := range selfInters.DataView() {
		var idxs = junctionIndices(inter)
		if len(idxs) > 0 {
			for _, hull := range knn.ContextNeighbours(db, inter.Geom.Geometry(), EpsilonDist) {
				if tokens := split.AtIndex(id, hull, idxs, common.Geometry); len(tokens) > 0 {
					db.Remove(hull)
					db.Load(tokens)
				}
			}
		}
	}
}

func junctionIndices(inter *ctx.ContextGeometry) []int {
	switch {
	case inter.IsPlanarVertex():
		return inter.Meta.Planar
	case inter.IsNonPlanarVertex():
		return inter.Meta.NonPlanar
	}
	return nil
}
'''),
("bycls-append",K+"bycls.go","FUNC func ByFeatureClassIntersection(",'''func ByFeatureClassIntersection(
	options *opts.Opts,
	hull *node.Node,
	db *hdb.Hdb,
	selections *[]*node.Node,
) bool {
	var hulls = deform.SelectFeatureClass(options, db, hull)
	*selections = append(*selections, hulls...)
	for _, h := range hulls {
		if h == hull {
			return false
		}
	}
	return true
}
'''),
("byself-flag",K+"byself.go","FUNC func BySelfIntersection(",'''func BySelfIntersection(
	options *opts.Opts, hull *node.Node,
	hulldb *hdb.Hdb, selections *[]*node.Node) bool {
	var selected = false
	for _, h := range deform.Select(options, hulldb, hull) {
		selected = selected || h == hull
		*selections = append(*selections, h)
	}
	return !selected
}
'''),
# ---- deform
("sel-helper",D+"ln.go","FUNC func Select(",'''func Select(options *opts.Opts, hullDB *hdb.Hdb, hull *node.Node) []*node.Node {
	var selected = make(map[*node.Node]struct{})
	for _, h := range knn.NodeNeighbours(hullDB, hull, knn.EpsilonDist) {
		var inters, contig, n = node.IsContiguous(hull, h)
		if !inters {
			continue
		}
		var sa, sb *node.Node
		switch {
		case !contig:
			sa, sb = nonContiguousCandidates(options, hull, h)
		case n > 1:
			sa, sb = contiguousCandidates(hull, h)
		}
		for _, s := range []*node.Node{sa, sb} {
			if s != nil {
				selected[s] = struct{}{}
			}
		}
	}
	var items = make([]*node.Node, 0, len(selected))
	for s := range selected {
		items = append(items, s)
	}
	return items
}
'''),
("sel-keys",D+"ln.go",'''	var items = make([]*node.Node, 0, len(dict))
	for v := range dict {
		items = append(items, v)
	}
	return items
}
''','''	return members(dict)
}

func members(dict map[*node.Node]struct{}) []*node.Node {
	var items = make([]*node.Node, 0, len(dict))
	for v := range dict {
		items = append(items, v)
	}
	return items
}
''',D+"cls.go",'''	var items = make([]*node.Node, 0, len(dict))
	for v := range dict {
		items = append(items, v)
	}
	return items
''','''	return members(dict)
'''),
("cls-cross",D+"cls.go",'''			contig = false
			inters = hull.Geom.Intersects(h.Geom)
			if inters {
				var pts = hull.Geom.Intersection(h.Geom)
				inters = len(pts) > 0
				n = len(pts)
			}
''','''			contig, inters = false, false
			if hull.Geom.Intersects(h.Geom) {
				n = len(hull.Geom.Intersection(h.Geom))
				inters = n > 0
			}
'''),
("cls-opt",D+"cls.go","FUNC func optimizeNeighbours(",'''func optimizeNeighbours(hull *node.Node, neighbours []*node.Node) []*node.Node {
	if hull.Instance.State().IsDirty() {
		return neighbours
	}
	var others = make([]*node.Node, 0, len(neighbours))
	for _, o := range neighbours {
		if hull.Instance.Id() != o.Instance.Id() {
			others = append(others, o)
		}
	}
	return others
}
'''),
("noncontig-switch",D+"noncontig.go","FUNC func nonContiguousCandidates(",'''func nonContiguousCandidates(options *opts.Opts, a, b *node.Node) (*node.Node, *node.Node) {
	var aseg, bseg = a.Segment(), b.Segment()
	var aln, bln = a.Polyline.Geometry(), b.Polyline.Geometry()

	if !aln.Intersects(bln) {
		if !aseg.Intersects(bseg) {
			return nil, nil
		}
		if aseg.Intersects(bln) {
			return a, nil
		}
		if bseg.Intersects(aln) {
			return nil, b
		}
		return nil, nil
	}

	var ptLns = aln.Intersection(bln)
	var atSeg = aseg.Intersection(bseg)
	if len(atSeg) == 0 && len(ptLns) > 0 {
		return a, b
	}
	for i := range ptLns {
		for j := range atSeg {
			if ptLns[i].Distance(atSeg[j]) > options.NonPlanarDisplacement {
				return a, b
			}
		}
	}
	return nil, nil
}
'''),
("noncontig-displaced",D+"noncontig.go",'''		} else {
		outer:
			for i := range ptLns {
				for j := range atSeg {
					delta := ptLns[i].Distance(atSeg[j])
					if delta > options.NonPlanarDisplacement {
						sa, sb = a, b
						break outer
					}
				}
			}
		}
''','''		} else if displaced(ptLns, atSeg, options.NonPlanarDisplacement) {
			sa, sb = a, b
		}
''',D+"noncontig.go",'''func nonContiguousCandidates(''','''func displaced(ps, qs []geom.Point, limit float64) bool {
	for i := range ps {
		for j := range qs {
			if ps[i].Distance(qs[j]) > limit {
				return true
			}
		}
	}
	return false
}

func nonContiguousCandidates(''',D+"noncontig.go","import (",'''import (
	"github.com/intdxdt/geom"'''),
# ---- merge, split, decompose
("merge-range",'merge/merge.go',"FUNC func Range(",'''func Range(ra, rb rng.Rng) rng.Rng {
	var bounds = []int{ra.I, ra.J, rb.I, rb.J}
	sort.Ints(bounds)
	return rng.Range(bounds[0], bounds[3])
}
'''),
("merge-coords",'merge/merge.go',"FUNC func ContiguousCoordinates(",'''func ContiguousCoordinates(ha, hb *node.Node) geom.Coords {
	if !ha.Range.Contiguous(hb.Range) {
		panic("nodes are not contiguous")
	}
	if hb.Range.I < ha.Range.J && hb.Range.J == ha.Range.I {
		return joinCoordinates(hb, ha)
	}
	return joinCoordinates(ha, hb)
}

func joinCoordinates(first, second *node.Node) geom.Coords {
	var coordinates = first.Coordinates()
	var n = coordinates.Len() - 1
	coordinates.Idxs = append(coordinates.Idxs[:n:n], second.Coordinates().Idxs...)
	return coordinates
}
'''),
("merge-thresh",'merge/merge.go',"FUNC func ContiguousFragmentsAtThreshold(",'''func ContiguousFragmentsAtThreshold(
	id *iter.Igen, scoreFn lnr.ScoreFn, ha, hb *node.Node,
	scoreRelation func(float64) bool, gfn func(geom.Coords) geom.Geometry) (bool, node.Node) {

	if !ha.Range.Contiguous(hb.Range) {
		panic("node are not contiguous")
	}

	var merged node.Node
	var coordinates = ContiguousCoordinates(ha, hb)
	var _, val = scoreFn(coordinates)
	var ok = scoreRelation(val)
	if ok {
		merged = contiguousFragments(id, coordinates, ha, hb, gfn)
	}
	return ok, merged
}
'''),
("split-score",'split/split.go',"FUNC func AtScoreSelection(",'''func AtScoreSelection(id *iter.Igen, hull *node.Node, scoreFn lnr.ScoreFn, gfn func(geom.Coords) geom.Geometry) (node.Node, node.Node) {
	var coords = hull.Coordinates()
	k, _ := scoreFn(coords)
	mid := hull.Range.I + k
	left := node.CreateNode(id, coords.Slice(0, k+1), rng.Range(hull.Range.I, mid), gfn, hull.Instance)
	right := node.CreateNode(id, coords.Slice(k, coords.Len()), rng.Range(mid, hull.Range.J), gfn, hull.Instance)
	return left, right
}
'''),
("split-index",'split/split.go',"FUNC func AtIndex(",'''func AtIndex(id *iter.Igen, hull *node.Node, indices []int, gfn func(geom.Coords) geom.Geometry) []node.Node {
	var ranges = hull.Range.Split(indices)
	var parts = make([]node.Node, len(ranges))
	var coordinates = hull.Coordinates()
	for i, r := range ranges {
		var from, to = r.I - hull.Range.I, r.J - hull.Range.I
		parts[i] = node.CreateNode(id, coordinates.Slice(from, to+1), r, gfn, hull.Instance)
	}
	return parts
}
'''),
("dp-recursive-stack",'decompose/decompose.go',"FUNC func DouglasPeucker(",'''func DouglasPeucker(
	id *iter.Igen,
	pln *geometry.Polyline,
	decomp offset.EpsilonDecomposition,
	geomFn func(geom.Coords) geom.Geometry,
	instance lnr.Linegen,
) []node.Node {
	var hque []node.Node
	if pln.LineString == nil {
		return hque
	}

	var full = pln.Range()
	var stack = append(make([]rng.Rng, 0, full.Size()+1), full)
	for len(stack) > 0 {
		var top = len(stack) - 1
		var r = stack[top]
		stack = stack[:top]

		var coordinates = pln.SubCoordinates(r)
		var k, val = decomp.ScoreFn(coordinates)
		if r.Size() > 1 && !decomp.Relation(val) {
			stack = append(stack, rng.Range(r.I+k, r.J), rng.Range(r.I, r.I+k))
			continue
		}
		hque = append(hque, node.CreateNode(id, coordinates, r, geomFn, instance))
	}
	return hque
}
'''),
# ---- main package
("main-phases","main.go","FUNC func main(",'''func main() {
	runtime.GOMAXPROCS(runtime.NumCPU())
	flag.StringVar(&argBase64String, "b", "-", "base64 string")
	flag.StringVar(&argJSONFile, "f", "-", "json config file")
	flag.Parse()
	checkArguments()

	if argJSONFile != "-" {
		var jsonConfig, err = fileutil.ReadAllOfFile(argJSONFile)
		if err != nil {
			panic(err)
		}
		argBase64String = encode64(strings.TrimSpace(jsonConfig))
	}

	var argObj = parseInput(strings.TrimSpace(argBase64String))
	var options = optsFromCfg(argObj)

	var kind = strings.ToLower(strings.TrimSpace(argObj.SimplificationType))
	var offsetFn, known = offsetDictionary[kind]
	if !known {
		log.Println(`Supported Simplification Types : "DP" or "SED", Fix input`)
		os.Exit(13)
	}

	var input = strings.TrimSpace(argObj.Input)
	if !fileutil.IsFile(input) {
		panic("input file not provided")
	}
	var polylines = geometry.ReadInputPolylines(input)

	var output = strings.TrimSpace(argObj.Output)
	if output == "" {
		panic("output filepath required !")
	}

	var constraints = readConstraintGeoms(strings.TrimSpace(argObj.Constraints))

	var t0 = time.Now()
	if argObj.IsFeatureClass {
		simplifyFeatureClass(polylines, &options, constraints, offsetFn)
	} else {
		simplifyInstances(polylines, &options, constraints, offsetFn)
	}
	var elapsed = time.Now().Sub(t0)

	var text = strings.Join(groupPlnsAsGeoJSONS(polylines), "\\n")
	if err := fileutil.SaveText(output, text); err != nil {
		panic(err)
	}
	log.Println(fmt.Sprintf("elapsed time: %v seconds", math.Round(elapsed.Seconds(), 6)))
}

func checkArguments() {
	if argBase64String == "-" && argJSONFile == "-" {
		fail("Invalid arguments!")
	}
	if argBase64String != "-" && argJSONFile != "-" {
		fail("Ambigous arguments! Expects only one flag: -b or -f")
	}
}

func fail(msg string) {
	log.Println("\\nHow to use:")
	flag.PrintDefaults()
	fmt.Println(msg)
	os.Exit(13)
}

func readConstraintGeoms(file string) []geometry.IGeometry {
	if fileutil.IsFile(file) {
		return geometry.ReadInputConstraints(file)
	}
	if file != "" {
		panic("constraint file not found")
	}
	return []geometry.IGeometry{}
}
'''),
("simp-forest","simplify.go","FUNC func simplifyInstances(",'''func simplifyInstances(plns []*geometry.Polyline, opts *opts.Opts,
	constraints []geometry.IGeometry, offsetFn func(geom.Coords) (int, float64)) {
	var id = iter.NewIgen()
	var forest = plant(id, plns, opts, constraints, offsetFn)
	constdp.SimplifyInstances(id, forest, map[int][]int{})
	setSimpleCoords(forest)
}

func plant(id *iter.Igen, plns []*geometry.Polyline, opts *opts.Opts,
	constraints []geometry.IGeometry, offsetFn func(geom.Coords) (int, float64)) []*constdp.ConstDP {
	var forest = make([]*constdp.ConstDP, len(plns))
	for i, pln := range plns {
		forest[i] = constdp.NewConstDP(id.Next(), pln, constraints, opts, offsetFn)
	}
	return forest
}
''',"simplify.go","FUNC func simplifyFeatureClass(",'''func simplifyFeatureClass(
	lns []*geometry.Polyline, opts *opts.Opts, constraints []geometry.IGeometry,
	offsetFn func(geom.Coords) (int, float64)) {
	var id = iter.NewIgen()
	var forest = plant(id, lns, opts, constraints, offsetFn)
	constdp.SimplifyFeatureClass(id, forest, opts)
	setSimpleCoords(forest)
}
'''),
("enc-unified","encode.go","FUNC func createGeoJSONString(",'''func createGeoJSONString(featLns []PolyGeom) string {
	var feature = geometry.LineStringFeature{
		Type:       "Feature",
		Properties: getMeta(featLns[0]),
	}
	if len(featLns) == 1 {
		feature.Geometry = &geometry.LinearGeometry{
			Type:        "LineString",
			Coordinates: simpleCoords(featLns[0]),
		}
	} else {
		var parts = make([][][]float64, len(featLns))
		for i := range featLns {
			parts[i] = simpleCoords(featLns[i])
		}
		feature.Geometry = &geometry.MultiLinearGeometry{
			Type:        "MultiLineString",
			Coordinates: parts,
		}
	}
	var dat, _ = json.Marshal(feature)
	return string(dat)
}

func simpleCoords(o PolyGeom) [][]float64 {
	return extractCoords(o.geom.Simple.Points())
}
'''),
("enc-extract","encode.go","FUNC func extractCoords(",'''func extractCoords(coords []geom.Point) [][]float64 {
	var dim = 2
	if isCoords3D(coords) {
		dim = 3
	}
	var coordinates = make([][]float64, 0, len(coords))
	for i := range coords {
		var c = make([]float64, dim)
		copy(c, coords[i][:dim])
		coordinates = append(coordinates, c)
	}
	return coordinates
}
'''),
("enc-is3d","encode.go","FUNC func isCoords3D(",'''func isCoords3D(coords []geom.Point) bool {
	for i := range coords {
		if !math.FloatEqual(coords[i][2], 0) {
			return true
		}
	}
	return false
}
'''),
("enc-group","encode.go","FUNC func groupPlnsAsGeoJSONS(",'''func groupPlnsAsGeoJSONS(plns []*geometry.Polyline) []string {
	var groups = groupById(plns)
	var jsons []string
	for _, idx := range indices(groups) {
		var parts = groups[idx]
		sort.Slice(parts, func(a, b int) bool { return parts[a].pos < parts[b].pos })
		jsons = append(jsons, createGeoJSONString(parts))
	}
	return jsons
}
'''),
("enc-meta","encode.go","FUNC func getMeta(",'''func getMeta(g PolyGeom) map[string]interface{} {
	if g.geom.Meta == "null" {
		return map[string]interface{}{}
	}
	var properties map[string]interface{}
	if err := json.Unmarshal([]byte(g.geom.Meta), &properties); err != nil {
		panic(err)
	}
	return properties
}
'''),
# ---- geometry
("geo-linear",G+"geojson.go","FUNC func parseInputLinearFeatures(",'''func parseInputLinearFeatures(inputs []string) []*Polyline {
	var plns = make([]*Polyline, 0, len(inputs))
	var idx = 0
	for _, fjson := range inputs {
		for _, feat := range featuresOf([]byte(fjson)) {
			plns = append(plns, createPolylineGeoms(idx, feat)...)
			idx++
		}
	}
	return plns
}

func featuresOf(dat []byte) []*geojson.Feature {
	var jtype JSONType
	checkError(json.Unmarshal(dat, &jtype))
	switch {
	case jtype.isGeometryType():
		g, err := geojson.UnmarshalGeometry(dat)
		checkError(err)
		return []*geojson.Feature{{Geometry: g, Type: string(g.Type)}}
	case jtype.isFeatureType():
		feat, err := geojson.UnmarshalFeature(dat)
		checkError(err)
		return []*geojson.Feature{feat}
	case jtype.isFeatureCollectionType():
		coll, err := geojson.UnmarshalFeatureCollection(dat)
		checkError(err)
		return coll.Features
	}
	return nil
}
'''),
("geo-plns",G+"geojson.go","FUNC func createPolylineGeoms(",'''func createPolylineGeoms(idx int, feat *geojson.Feature) []*Polyline {
	var geometries = make([]*Polyline, 0)
	var g = feat.Geometry
	if g == nil || !(g.IsLineString() || g.IsMultiLineString()) {
		return geometries
	}
	for _, o := range lineStringFromFeature(idx, feat) {
		if len(o.Coordinates) >= 2 {
			geometries = append(geometries, createPolyline(o))
		}
	}
	return geometries
}
'''),
("geo-igeom",G+"geojson.go","FUNC func createIGeom(",'''func createIGeom(idx int, feat *geojson.Feature) []IGeometry {
	var geometries = make([]IGeometry, 0)
	var g = feat.Geometry
	switch {
	case g == nil:
		return geometries
	case g.IsPoint(), g.IsMultiPoint():
		for _, o := range pointsFromFeature(idx, feat) {
			if len(o.Coordinates) >= 2 {
				geometries = append(geometries, createPoint(o))
			}
		}
	case g.IsLineString(), g.IsMultiLineString():
		for _, o := range lineStringFromFeature(idx, feat) {
			if len(o.Coordinates) >= 2 {
				geometries = append(geometries, createPolyline(o))
			}
		}
	case g.IsPolygon(), g.IsMultiPolygon():
		for _, o := range polygonFromFeature(idx, feat) {
			if len(o.Coordinates) > 0 {
				geometries = append(geometries, createPolygon(o))
			}
		}
	}
	return geometries
}
'''),
("geo-points",G+"geojson_geom.go","FUNC func geoJsonPoints(",'''func geoJsonPoints(index int, g *geojson.Geometry, meta string) []JSONPoint {
	var coords [][]float64
	if g.IsPoint() {
		coords = [][]float64{g.Point}
	} else if g.IsMultiPoint() {
		coords = g.MultiPoint
	}
	var objs = make([]JSONPoint, 0, len(coords))
	for pos := range coords {
		objs = append(objs, JSONPoint{Id: composeId(index, pos), Coordinates: coords[pos], Meta: meta})
	}
	return objs
}
'''),
("geo-lines",G+"geojson_geom.go","FUNC func geoJsonLineString(",'''func geoJsonLineString(index int, g *geojson.Geometry, meta string) []JSONLineString {
	switch {
	case g.IsLineString():
		return []JSONLineString{{composeId(index, 0), g.LineString, meta}}
	case g.IsMultiLineString():
		var objs = make([]JSONLineString, len(g.MultiLineString))
		for pos, coords := range g.MultiLineString {
			objs[pos] = JSONLineString{composeId(index, pos), coords, meta}
		}
		return objs
	}
	return []JSONLineString{}
}
'''),
("geo-type-switch",G+"jsontype.go","FUNC func (o *JSONType) isGeometryType(",'''func (o *JSONType) isGeometryType() bool {
	switch o.Type {
	case TypePoint, TypeMultiPoint, TypeLineString, TypeMultiLineString, TypePolygon, TypeMultiPolygon:
		return true
	}
	return false
}
'''),
("geo-read",G+"geojson.go","FUNC func readJsonFile(",'''func readJsonFile(file string) []string {
	var data, err = fileutil.ReadAllOfFile(file)
	checkError(err)
	var tokens []string
	for _, line := range strings.Split(strings.TrimSpace(data), "\\n") {
		line = strings.TrimSpace(line)
		if len(line) == 0 {
			continue
		}
		tokens = append(tokens, line)
	}
	return tokens
}
'''),
# ---- hdb
("h-load",H+"load.go","FUNC func (tree *Hdb) Load(",'''func (tree *Hdb) Load(items []node.Node) *Hdb {
	if len(items) < tree.minEntries {
		for i := range items {
			tree.insert(&items[i])
		}
		return tree
	}
	tree.bulkLoad(items)
	return tree
}

func (tree *Hdb) bulkLoad(items []node.Node) {
	var data = make([]*node.Node, 0, len(items))
	for i := range items {
		data = append(data, &items[i])
	}
	var nd = tree.buildTree(data, 0, len(data)-1, 0)

	switch {
	case tree.IsEmpty():
		tree.data = nd
	case tree.data.height == nd.height:
		tree.splitRoot(tree.data, nd)
	default:
		if nd.height > tree.data.height {
			tree.data, nd = nd, tree.data
		}
		tree.insertNode(nd, tree.data.height-nd.height-1)
	}
}
'''),
("h-margin",H+"mbr.go",'''	for i = m; i < M-m; i++ {
		leftBBox.ExpandIncludeMBR(&nd.children[i].bbox)
		margin += bboxMargin(&leftBBox)
	}

	for i = M - m - 1; i >= m; i-- {
		rightBBox.ExpandIncludeMBR(&nd.children[i].bbox)
		margin += bboxMargin(&rightBBox)
	}
	return margin
''','''	for i = m; i < M-m; i++ {
		margin += grow(&leftBBox, &nd.children[i])
	}
	for i = M - m - 1; i >= m; i-- {
		margin += grow(&rightBBox, &nd.children[i])
	}
	return margin
''',H+"mbr.go","func (tree *Hdb) allDistMargin(",'''func grow(box *mbr.MBR, child *dbNode) float64 {
	box.ExpandIncludeMBR(&child.bbox)
	return bboxMargin(box)
}

func (tree *Hdb) allDistMargin('''),
("h-adj",H+"adj.go","FUNC func (tree *Hdb) adjustParentBBoxes(",'''func (tree *Hdb) adjustParentBBoxes(bbox *mbr.MBR, path []*dbNode, level int) {
	for level >= 0 {
		path[level].bbox.ExpandIncludeMBR(bbox)
		level--
	}
}
'''),
("h-collides",H+"collides.go","FUNC func (tree *Hdb) Collides(",'''func (tree *Hdb) Collides(query mbr.MBR) bool {
	if !intersects(&query, &tree.data.bbox) {
		return false
	}
	var searchList []*dbNode
	for nd := &tree.data; nd != nil; nd, searchList = popNode(searchList) {
		for i := range nd.children {
			var child = &nd.children[i]
			if !intersects(&query, &child.bbox) {
				continue
			}
			if nd.leaf || contains(&query, &child.bbox) {
				return true
			}
			searchList = append(searchList, child)
		}
	}
	return false
}
'''),
("h-new",H+"rtree.go","FUNC func NewHdb(",'''func NewHdb(nodeCap ...int) *Hdb {
	var bucketSize = 8
	if len(nodeCap) > 0 {
		bucketSize = nodeCap[0]
	}
	var limit = maxEntries(bucketSize)
	var tree = &Hdb{maxEntries: limit, minEntries: minEntries(limit)}
	return tree.Clear()
}
'''),
("h-leaf",H+"dbnode.go","FUNC func createDBNode(",'''func createDBNode(item *node.Node, height int, leaf bool, children []dbNode) dbNode {
	var nd = dbNode{children: children, item: item, height: height, leaf: leaf, bbox: emptyMBR()}
	if item != nil {
		nd.bbox = item.MBR
	}
	return nd
}
'''),
("h-kcmp",H+"kobj.go","FUNC func kobjCmp(",'''func kobjCmp(a interface{}, b interface{}) int {
	var dx = a.(*KObj).Distance - b.(*KObj).Distance
	switch {
	case feq(dx, 0):
		return 0
	case dx < 0:
		return -1
	default:
		return 1
	}
}
'''),
("h-slice",H+"util.go","FUNC func sliceIndex(",'''func sliceIndex(limit int, predicate func(i int) bool) int {
	for i := 0; i < limit; i++ {
		if predicate(i) {
			return i
		}
	}
	return -1
}
'''),
("h-build",H+"build.go",'''	for i = left; i <= right; i += N1 {
		right2 = minInt(i+N1-1, right)
		multiSelect(items, i, right2, N2, cmpMinY)

		for j = i; j <= right2; j += N2 {
			right3 = minInt(j+N2-1, right2)
			// pack each entry recursively
			n.addChild(tree.buildTree(items, j, right3, height-1))
		}
	}

	calcBBox(&n)
	return n
}
''','''	for i = left; i <= right; i += N1 {
		right2 = minInt(i+N1-1, right)
		multiSelect(items, i, right2, N2, cmpMinY)
		tree.pack(&n, items, i, right2, N2, height)
	}

	calcBBox(&n)
	return n
}

func (tree *Hdb) pack(n *dbNode, items []*node.Node, from, to, step, height int) {
	for j := from; j <= to; j += step {
		n.addChild(tree.buildTree(items, j, minInt(j+step-1, to), height-1))
	}
}
''',H+"build.go","	var i, j, right2, right3 int","	var i, right2 int"),
("n-collapse",'node/collapse.go',"FUNC func (node *Node) Collapsible(",'''func (node *Node) Collapsible(other *Node) bool {
	if node.Range.Size() == 1 || node.Geom.Type().IsLineString() {
		return true
	}

	var ai, aj = node.SegmentPoints()
	var bi, bj = other.SegmentPoints()

	var c *geom.Point
	switch {
	case ai.Equals2D(bi), aj.Equals2D(bi):
		c = bi
	case ai.Equals2D(bj), aj.Equals2D(bj):
		c = bj
	default:
		return true
	}

	var t = bj
	if c.Equals2D(bj) {
		t = bi
	}
	ply, ok := node.Geom.Geometry().(*geom.Polygon)
	if !ok {
		panic("unimplemented : hull type is handled")
	}
	return !ply.Shell.PointCompletelyInRing(t)
}
'''),
("rng-slice",'rng/array.go',"FUNC func (o Rng) AsSlice(",'''func (o Rng) AsSlice() []int {
	return []int{o.I, o.J}
}
'''),
("rng-stride",'rng/stride.go',"FUNC func (o Rng) Stride(",'''func (o Rng) Stride(step ...int) []int {
	return stride(o.I, o.J+1, step)
}

func stride(from, to int, step []int) []int {
	var s = 1
	if len(step) > 0 {
		s = step[0]
	}
	return iter.NewGenerator(from, to, s).Values()
}
'''),
]
