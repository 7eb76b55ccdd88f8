# Larger rewrites of the drivers, the readers and the writers.
R=[]
K="constdp/"
R+=[
("proc-bykey",K+"simple_0.go","FUNC func processConstSimplification(",'''func processConstSimplification(nodeHulls []node.Node, db *hdb.Hdb, concurrency int) map[*node.Node]struct{} {
	var wg sync.WaitGroup
	var chunks = chunkTasks(nodePointers(nodeHulls), concurrency)
	var out = make(chan *node.Node, 2*concurrency)

	wg.Add(len(chunks))
	for _, chunk := range chunks {
		go func(in []*node.Node) {
			defer wg.Done()
			selectInChunk(in, db, out)
		}(chunk)
	}

	go func() {
		wg.Wait()
		close(out)
	}()

	var results = make(map[*node.Node]struct{})
	for o := range out {
		results[o] = struct{}{}
	}
	return results
}

func nodePointers(hulls []node.Node) []*node.Node {
	var nodes = make([]*node.Node, 0, len(hulls))
	for i := range hulls {
		nodes = append(nodes, &hulls[i])
	}
	return nodes
}

func selectInChunk(in []*node.Node, db *hdb.Hdb, out chan<- *node.Node) {
	for _, hull := range in {
		for _, o := range selectionsOf(hull, db) {
			if o.Range.Size() > 1 { // a segment cannot be deformed
				out <- o
			}
		}
	}
}

func selectionsOf(hull *node.Node, db *hdb.Hdb) []*node.Node {
	var selections []*node.Node
	var self = hull.Instance.(*ConstDP)
	var valid = true
	if self.Opts.AvoidNewSelfIntersects {
		valid = constrain.ByFeatureClassIntersection(self.Opts, hull, db, &selections)
	}
	if valid && hull.Range.Size() > 1 {
		self.ValidateContextRelation(hull, &selections)
	}
	return selections
}
'''),
("chunk-generic",K+"simple_0.go","FUNC func chunkTasks(",'''func chunkTasks(vals []*node.Node, concurrency int) [][]*node.Node {
	var size = chunkLength(len(vals), concurrency)
	var chunks = make([][]*node.Node, 0, concurrency+3)
	for len(vals) > 0 {
		var n = size
		if n > len(vals) {
			n = len(vals)
		}
		chunks = append(chunks, append([]*node.Node(nil), vals[:n]...))
		vals = vals[n:]
	}
	return chunks
}

func chunkLength(n, concurrency int) int {
	if size := n / concurrency; size > 0 {
		return size
	}
	return 1
}
'''),
("fc-split",K+"fc_simplify.go","FUNC func SimplifyFeatureClass(",'''func SimplifyFeatureClass(id *iter.Igen, selfs []*ConstDP, opts *opts.Opts, callback ...func(n int)) {
	var report = func(_ int) {}
	if len(callback) > 0 {
		report = callback[0]
	}

	SimplifyInstances(id, selfs, planarJunctions(selfs, opts))

	if !isConstrained(opts) {
		return
	}

	var hulldb = hdb.NewHdb()
	var deformables = collectHulls(selfs)
	hulldb.Load(deformables)

	for len(deformables) > 0 {
		report(len(deformables))
		var selections = findDeformableNodes(deformables, hulldb)
		if len(selections) == 0 {
			break
		}
		deformables = deformNodes(id, selections)
		cleanUpDB(hulldb, selections)
		hulldb.Load(deformables)
	}
	groupHullsByFC(hulldb)
}

func planarJunctions(selfs []*ConstDP, opts *opts.Opts) map[int][]int {
	if !opts.PlanarSelf {
		return make(map[int][]int)
	}
	var instances = make([]*lnr.FC, 0, len(selfs))
	for _, sf := range selfs {
		instances = append(instances, lnr.NewFC(sf.Coordinates(), sf.Id()))
	}
	return lnr.FCPlanarSelfIntersection(instances)
}

func isConstrained(opts *opts.Opts) bool {
	return opts.AvoidNewSelfIntersects || opts.PlanarSelf ||
		opts.GeomRelation || opts.DirRelation || opts.DistRelation
}

func collectHulls(selfs []*ConstDP) []node.Node {
	var hulls []node.Node
	for _, self := range selfs {
		hulls = append(hulls, self.Hulls...)
		node.Clear(&self.Hulls)
	}
	return hulls
}
'''),
("fc-worker",K+"fc_simplify.go","FUNC func SimplifyInstances(",'''func SimplifyInstances(id *iter.Igen, selfs []*ConstDP, junctions map[int][]int) {
	var wg sync.WaitGroup
	var stream = make(chan *ConstDP)

	wg.Add(ConcurProcs)
	for i := 0; i < ConcurProcs; i++ {
		go func() {
			defer wg.Done()
			for self := range stream {
				self.Simplify(id, junctions[self.Id()])
			}
		}()
	}

	for _, self := range selfs {
		stream <- self
	}
	close(stream)
	wg.Wait()
}
'''),
("simplify-loop",K+"simplify.go","FUNC func (self *ConstDP) Simplify(",'''func (self *ConstDP) Simplify(id *iter.Igen, constVertices ...[]int) *ConstDP {
	self.State().MarkDirty()
	self.SimpleSet.Empty()

	var constVertexSet = self.decomposeConstrained(id, constVertices)
	var db = hdb.NewHdb()
	self.deformAll(id, db)
	self.AggregateSimpleSegments(id, db, constVertexSet, self.ValidateMerge)
	self.collectHulls(db)

	self.State().MarkClean()
	return self
}

func (self *ConstDP) decomposeConstrained(id *iter.Igen, constVertices [][]int) []int {
	var constVerts, constVertexSet []int
	if len(constVertices) > 0 {
		constVerts = constVertices[0]
	}
	self.Hulls = self.Decompose(id)
	self.Hulls, _, constVertexSet = constrain.ToSelfIntersects(
		id, self.Hulls, self.Polyline, self.Options(), constVerts,
	)
	self.Hulls = self.refine(id, self.Hulls...)
	return constVertexSet
}

func (self *ConstDP) deformAll(id *iter.Igen, db *hdb.Hdb) {
	var deformables = make([]node.Node, len(self.Hulls))
	copy(deformables, self.Hulls)
	node.Clear(&self.Hulls)
	db.Load(deformables)
	for len(deformables) > 0 {
		var selections = findDeformableNodes(deformables, db)
		if len(selections) == 0 {
			return
		}
		deformables = deformNodes(id, selections)
		cleanUpDB(db, selections)
		db.Load(deformables)
	}
}

func (self *ConstDP) collectHulls(db *hdb.Hdb) {
	node.Clear(&self.Hulls)
	self.SimpleSet.Empty()
	for _, hull := range db.All() {
		self.Hulls = append(self.Hulls, *hull)
		self.SimpleSet.Extend(hull.Range.I, hull.Range.J)
	}
}
'''),
("vm-early",K+"validate.go","FUNC func (self *ConstDP) ValidateMerge(",'''func (self *ConstDP) ValidateMerge(hull *node.Node, hulldb *hdb.Hdb) bool {
	var sideEffects []*node.Node
	if self.Opts.AvoidNewSelfIntersects {
		if !constrain.BySelfIntersection(self.Opts, hull, hulldb, &sideEffects) {
			return false
		}
		if len(sideEffects) > 0 {
			return false
		}
	}
	return self.ValidateContextRelation(hull, &sideEffects) && len(sideEffects) == 0
}
'''),
("vcr-split",K+"validate.go","FUNC func (self *ConstDP) ValidateContextRelation(",'''func (self *ConstDP) ValidateContextRelation(hull *node.Node, selections *[]*node.Node) bool {
	var o = self.Opts
	if !o.GeomRelation && !o.DistRelation && !o.DirRelation {
		return true
	}
	var ctxs = self.contextNeighbours(hull)
	var valid = (!o.GeomRelation || constrain.ByGeometricRelation(hull, ctxs)) &&
		(!o.DistRelation || constrain.ByMinDistRelation(self.Options(), hull, ctxs)) &&
		(!o.DirRelation || constrain.BySideRelation(hull, ctxs))
	if valid {
		return true
	}
	*selections = append(*selections, hull)
	return false
}

func (self *ConstDP) contextNeighbours(hull *node.Node) *ctx.ContextGeometries {
	var neighbours []*ctx.ContextGeometry
	for _, o := range knn.ContextNeighbours(self.ContextDB, hull.Geom, self.Opts.MinDist) {
		neighbours = append(neighbours, o.Geom.(*ctx.ContextGeometry))
	}
	return (&ctx.ContextGeometries{}).SetData(neighbours)
}
'''),
("agg-helper",K+"node_aggregates.go","FUNC func (self *ConstDP) AggregateSimpleSegments(",'''func (self *ConstDP) AggregateSimpleSegments(
	id *iter.Igen, db *hdb.Hdb, constVertexSet []int,
	validateMerge func(*node.Node, *hdb.Hdb) bool,
) {
	var cache = make(map[[CacheKeySize]int]bool)
	var objects = db.All()
	sort.Sort(node.NodePtrs(objects))

	var score, relation = self.Score, self.ScoreRelation
	if self.SquareScore != nil {
		score, relation = self.SquareScore, self.SquareScoreRelation
	}

	var tryMerge = func(a, b *node.Node) (bool, node.Node) {
		var key = CacheKey(a, b)
		if cache[key] {
			return false, node.Node{}
		}
		cache[key] = true
		return merge.ContiguousFragmentsAtThreshold(id, score, a, b, relation, common.Geometry)
	}

	for len(objects) > 0 {
		var hull = objects[0]
		objects = objects[1:]
		if hull.Range.Size() != 1 {
			continue
		}

		var fixedI = iter.SortedSearchInts(constVertexSet, hull.Range.I)
		var fixedJ = iter.SortedSearchInts(constVertexSet, hull.Range.J)
		if fixedI && fixedJ {
			continue
		}

		db.Remove(hull)

		var prev, nxt = node.Neighbours(hull, knn.NodeNeighbours(db, hull, knn.EpsilonDist))
		var mergePrev, mergeNxt node.Node
		var okPrev, okNxt bool
		if !fixedI && prev != nil {
			okPrev, mergePrev = tryMerge(prev, hull)
		}
		if !fixedJ && nxt != nil {
			okNxt, mergeNxt = tryMerge(hull, nxt)
		}

		var insertList []node.Node
		var merged = false
		if okNxt {
			db.Remove(nxt)
			merged = validateMerge(&mergeNxt, db)
			if merged {
				if objects[0] == nxt {
					objects = objects[1:]
				}
				insertList = append(insertList, mergeNxt)
			} else {
				insertList = append(insertList, *nxt)
			}
		}

		if okPrev && !merged {
			db.Remove(prev)
			merged = validateMerge(&mergePrev, db)
			if merged {
				insertList = append(insertList, mergePrev)
			} else {
				insertList = append(insertList, *prev)
			}
		}

		if !merged {
			insertList = append(insertList, *hull)
		}
		db.Load(insertList)
	}
}
'''),
("rd-pick","io.go","FUNC func readConstraints(",'''func readConstraints(fname string) ([]geom.Geometry, error) {
	var geoms []geom.Geometry
	var file, err = os.Open(fname)
	if err != nil {
		return geoms, err
	}
	defer file.Close()
	err = readlinesFromReader(bufio.NewReader(file), func(line string) {
		if isConstraintType(geom.WKTType(line)) {
			geoms = append(geoms, geom.ReadGeometry(line))
		}
	})
	return geoms, err
}

func isConstraintType(gtype []byte) bool {
	for _, t := range [][]byte{wktPoint, wktLinestring, wktPolygon} {
		if bytes.Equal(gtype, t) {
			return true
		}
	}
	return false
}
'''),
("rd-lines","io.go","FUNC func readlinesFromReader(",'''func readlinesFromReader(reader *bufio.Reader, callback func(lnStr string)) error {
	for {
		var line, err = reader.ReadString('\\n')
		if err != nil {
			return err
		}
		if line = strings.TrimSpace(line); line != "" {
			callback(line)
		}
	}
}
'''),
("enc-feature","encode.go","FUNC func createGeoJSONString(",'''func createGeoJSONString(featLns []PolyGeom) string {
	var feature = geometry.LineStringFeature{
		Type:       "Feature",
		Properties: getMeta(featLns[0]),
	}
	if len(featLns) == 1 {
		feature.Geometry = &geometry.LinearGeometry{
			Type:        "LineString",
			Coordinates: simpleCoords(featLns[0]),
		}
	} else {
		var coordinates = make([][][]float64, 0, len(featLns))
		for _, g := range featLns {
			coordinates = append(coordinates, simpleCoords(g))
		}
		feature.Geometry = &geometry.MultiLinearGeometry{
			Type:        "MultiLineString",
			Coordinates: coordinates,
		}
	}
	var dat, _ = json.Marshal(feature)
	return string(dat)
}

func simpleCoords(g PolyGeom) [][]float64 {
	return extractCoords(g.geom.Simple.Points())
}
'''),
("enc-3d","encode.go","FUNC func isCoords3D(",'''func isCoords3D(coords []geom.Point) bool {
	for i := range coords {
		if !math.FloatEqual(coords[i][2], 0) {
			return true
		}
	}
	return false
}
''',"encode.go","FUNC func extractCoords(",'''func extractCoords(coords []geom.Point) [][]float64 {
	var dim = 2
	if isCoords3D(coords) {
		dim = 3
	}
	var coordinates = make([][]float64, len(coords))
	for i, pt := range coords {
		var c = make([]float64, dim)
		copy(c, pt[:dim])
		coordinates[i] = c
	}
	return coordinates
}
'''),
("enc-meta","encode.go","FUNC func getMeta(",'''func getMeta(g PolyGeom) map[string]interface{} {
	if g.geom.Meta == "null" {
		return map[string]interface{}{}
	}
	var properties map[string]interface{}
	if err := json.Unmarshal([]byte(g.geom.Meta), &properties); err != nil {
		panic(err)
	}
	return properties
}
'''),
("enc-group","encode.go","FUNC func groupPlnsAsGeoJSONS(",'''func groupPlnsAsGeoJSONS(plns []*geometry.Polyline) []string {
	var jsons = make([]string, 0, len(plns))
	var groups = groupById(plns)
	for _, idx := range indices(groups) {
		jsons = append(jsons, createGeoJSONString(sortedByPos(groups[idx])))
	}
	return jsons
}

func sortedByPos(plns []PolyGeom) []PolyGeom {
	sort.SliceStable(plns, func(i, j int) bool { return plns[i].pos < plns[j].pos })
	return plns
}
'''),
("gj-features","geometry/geojson.go","FUNC func parseInputLinearFeatures(",'''func parseInputLinearFeatures(inputs []string) []*Polyline {
	var plns = make([]*Polyline, 0, len(inputs))
	for idx, feat := range readFeatures(inputs) {
		plns = append(plns, createPolylineGeoms(idx, feat)...)
	}
	return plns
}

func readFeatures(inputs []string) []*geojson.Feature {
	var features []*geojson.Feature
	for _, fjson := range inputs {
		var jtype JSONType
		checkError(json.Unmarshal([]byte(fjson), &jtype))
		switch {
		case jtype.isGeometryType():
			g, err := geojson.UnmarshalGeometry([]byte(fjson))
			checkError(err)
			features = append(features, &geojson.Feature{Geometry: g, Type: string(g.Type)})
		case jtype.isFeatureType():
			feat, err := geojson.UnmarshalFeature([]byte(fjson))
			checkError(err)
			features = append(features, feat)
		case jtype.isFeatureCollectionType():
			feats, err := geojson.UnmarshalFeatureCollection([]byte(fjson))
			checkError(err)
			features = append(features, feats.Features...)
		}
	}
	return features
}
''',"geometry/geojson.go","FUNC func parseConstraintFeatures(",'''func parseConstraintFeatures(inputs []string) []IGeometry {
	var geometries = make([]IGeometry, 0, len(inputs))
	for idx, feat := range readFeatures(inputs) {
		geometries = append(geometries, createIGeom(idx, feat)...)
	}
	return geometries
}
'''),
("gj-each","geometry/geojson.go","FUNC func parseInputLinearFeatures(",'''func parseInputLinearFeatures(inputs []string) []*Polyline {
	var plns = make([]*Polyline, 0, len(inputs))
	eachFeature(inputs, func(idx int, feat *geojson.Feature) {
		plns = append(plns, createPolylineGeoms(idx, feat)...)
	})
	return plns
}

func eachFeature(inputs []string, fn func(int, *geojson.Feature)) {
	var idx = 0
	for _, fjson := range inputs {
		var data = []byte(fjson)
		var jtype JSONType
		checkError(json.Unmarshal(data, &jtype))
		if jtype.isGeometryType() {
			g, err := geojson.UnmarshalGeometry(data)
			checkError(err)
			fn(idx, &geojson.Feature{Geometry: g, Type: string(g.Type)})
			idx++
		} else if jtype.isFeatureType() {
			feat, err := geojson.UnmarshalFeature(data)
			checkError(err)
			fn(idx, feat)
			idx++
		} else if jtype.isFeatureCollectionType() {
			feats, err := geojson.UnmarshalFeatureCollection(data)
			checkError(err)
			for _, feat := range feats.Features {
				fn(idx, feat)
				idx++
			}
		}
	}
}
''',"geometry/geojson.go","FUNC func parseConstraintFeatures(",'''func parseConstraintFeatures(inputs []string) []IGeometry {
	var geometries = make([]IGeometry, 0, len(inputs))
	eachFeature(inputs, func(idx int, feat *geojson.Feature) {
		geometries = append(geometries, createIGeom(idx, feat)...)
	})
	return geometries
}
'''),
("gj-igeom","geometry/geojson.go","FUNC func createIGeom(",'''func createIGeom(idx int, feat *geojson.Feature) []IGeometry {
	var geometries = make([]IGeometry, 0)
	var g = feat.Geometry
	switch {
	case g == nil: //unlocated feature
	case g.IsPoint(), g.IsMultiPoint():
		for _, o := range pointsFromFeature(idx, feat) {
			if len(o.Coordinates) >= 2 {
				geometries = append(geometries, createPoint(o))
			}
		}
	case g.IsLineString(), g.IsMultiLineString():
		for _, pln := range createPolylineGeoms(idx, feat) {
			geometries = append(geometries, pln)
		}
	case g.IsPolygon(), g.IsMultiPolygon():
		for _, o := range polygonFromFeature(idx, feat) {
			if len(o.Coordinates) > 0 {
				geometries = append(geometries, createPolygon(o))
			}
		}
	}
	return geometries
}
'''),
("gj-read","geometry/geojson.go","FUNC func readJsonFile(",'''func readJsonFile(file string) []string {
	var data, err = fileutil.ReadAllOfFile(file)
	checkError(err)
	return nonEmptyLines(data)
}

func nonEmptyLines(data string) []string {
	var lines = []string{}
	for _, line := range strings.Split(strings.TrimSpace(data), "\\n") {
		line = strings.TrimSpace(line)
		if len(line) == 0 {
			continue
		}
		lines = append(lines, line)
	}
	return lines
}
'''),
("simp-forest","simplify.go","FUNC func simplifyInstances(",'''func simplifyInstances(plns []*geometry.Polyline, opts *opts.Opts,
	constraints []geometry.IGeometry, offsetFn func(geom.Coords) (int, float64)) {
	var id = iter.NewIgen()
	var forest = makeForest(id, plns, opts, constraints, offsetFn)
	constdp.SimplifyInstances(id, forest, map[int][]int{})
	setSimpleCoords(forest)
}

func makeForest(
	id *iter.Igen, plns []*geometry.Polyline, opts *opts.Opts,
	constraints []geometry.IGeometry, offsetFn func(geom.Coords) (int, float64),
) []*constdp.ConstDP {
	var forest = make([]*constdp.ConstDP, len(plns))
	for i, pln := range plns {
		forest[i] = constdp.NewConstDP(id.Next(), pln, constraints, opts, offsetFn)
	}
	return forest
}
''',"simplify.go","FUNC func simplifyFeatureClass(",'''func simplifyFeatureClass(
	lns []*geometry.Polyline, opts *opts.Opts, constraints []geometry.IGeometry,
	offsetFn func(geom.Coords) (int, float64)) {
	var id = iter.NewIgen()
	var forest = makeForest(id, lns, opts, constraints, offsetFn)
	constdp.SimplifyFeatureClass(id, forest, opts)
	setSimpleCoords(forest)
}
'''),
("simp-coords","simplify.go","FUNC func setSimpleCoords(",'''func setSimpleCoords(forest []*constdp.ConstDP) {
	for i := range forest {
		forest[i].Polyline.Simple = simpleCoords(forest[i])
	}
}

func simpleCoords(tree *constdp.ConstDP) geom.Coords {
	var values = tree.SimpleSet.Values()
	var idxs = make([]int, len(values))
	for i, v := range values {
		idxs[i] = v.(int)
	}
	var coords = tree.Coordinates().Clone()
	coords.Idxs = idxs
	return coords
}
'''),
("main-steps","main.go",'''	var argObj = parseInput(strings.TrimSpace(argBase64String))
	var options = optsFromCfg(argObj)

	//config simplification type
	argObj.SimplificationType = strings.ToLower(strings.TrimSpace(argObj.SimplificationType))
	var offsetFn = offsetDictionary[argObj.SimplificationType]
	if offsetFn == nil {
		log.Println(`Supported Simplification Types : "DP" or "SED", Fix input`)
		os.Exit(13)
	}

	//lines
	var polylines = make([]*geometry.Polyline, 0)
	argObj.Input = strings.TrimSpace(argObj.Input)
	if fileutil.IsFile(argObj.Input) {
		polylines = geometry.ReadInputPolylines(argObj.Input)
	} else {
		panic("input file not provided")
	}
''','''	var argObj = parseInput(strings.TrimSpace(argBase64String))
	var options = optsFromCfg(argObj)

	//config simplification type
	var simplType = strings.ToLower(strings.TrimSpace(argObj.SimplificationType))
	var offsetFn, ok = offsetDictionary[simplType]
	if !ok {
		log.Println(`Supported Simplification Types : "DP" or "SED", Fix input`)
		os.Exit(13)
	}

	//lines
	var input = strings.TrimSpace(argObj.Input)
	if !fileutil.IsFile(input) {
		panic("input file not provided")
	}
	var polylines = geometry.ReadInputPolylines(input)
'''),
("main-cons","main.go",'''	var constraints = make([]geometry.IGeometry, 0)
	argObj.Constraints = strings.TrimSpace(argObj.Constraints)
	if fileutil.IsFile(argObj.Constraints) {
		constraints = geometry.ReadInputConstraints(argObj.Constraints)
	} else {
		if argObj.Constraints != "" {
			panic("constraint file not found")
		}
	}
''','''	var constraints = loadConstraints(strings.TrimSpace(argObj.Constraints))
''',"main.go",'''var argBase64String string

''','''var argBase64String string

func loadConstraints(fname string) []geometry.IGeometry {
	switch {
	case fileutil.IsFile(fname):
		return geometry.ReadInputConstraints(fname)
	case fname != "":
		panic("constraint file not found")
	}
	return []geometry.IGeometry{}
}

'''),
]
