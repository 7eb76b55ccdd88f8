G="geometry/"; C="constdp/"; H="hdb/"
R=[
# ---- main package
("cfg-inplace","cfg.go",'''	return opts.Opts{
		Threshold:              obj.Threshold,
		MinDist:                obj.MinDist,
		NonPlanarDisplacement:  obj.NonPlanarDisplacement,
		PlanarSelf:             obj.PlanarSelf,
		NonPlanarSelf:          obj.NonPlanarSelf,
		AvoidNewSelfIntersects: obj.AvoidNewSelfIntersects,
		GeomRelation:           obj.GeomRelation,
		DistRelation:           obj.DistRelation,
		DirRelation:            obj.SideRelation,
	}
''','''	var o opts.Opts
	o.Threshold, o.MinDist = obj.Threshold, obj.MinDist
	o.NonPlanarDisplacement = obj.NonPlanarDisplacement
	o.PlanarSelf, o.NonPlanarSelf = obj.PlanarSelf, obj.NonPlanarSelf
	o.AvoidNewSelfIntersects = obj.AvoidNewSelfIntersects
	o.GeomRelation = obj.GeomRelation
	o.DistRelation = obj.DistRelation
	o.DirRelation = obj.SideRelation
	return o
'''),
("cfg-parse","cfg.go",'''	var config = ArgObj{}
	var jsonInput = decode64(arg)
	if err := json.Unmarshal([]byte(jsonInput), &config); err != nil {
		log.Println("invalid input:")
		log.Fatalln(err)
	}
	return config
''','''	var config ArgObj
	var err = json.Unmarshal([]byte(decode64(arg)), &config)
	if err == nil {
		return config
	}
	log.Fatalf("invalid input: %v", err)
	return config
'''),
("main-fail","main.go",'''	if argBase64String == "-" && argJSONFile == "-" {
		log.Println("\\nHow to use:")
		flag.PrintDefaults()
		fmt.Println("Invalid arguments!")
		os.Exit(13)
	}

	if argBase64String != "-" && argJSONFile != "-" {
		log.Println("")
		log.Println("\\nHow to use:")
		flag.PrintDefaults()
		fmt.Println("Ambigous arguments! Expects only one flag: -b or -f")
		os.Exit(13)
	}
''','''	var hasBase64, hasFile = argBase64String != "-", argJSONFile != "-"
	if !hasBase64 && !hasFile {
		usage("Invalid arguments!")
	}
	if hasBase64 && hasFile {
		usage("Ambigous arguments! Expects only one flag: -b or -f")
	}
''',"main.go","func main() {\n",'''func usage(message string) {
	log.Println("\\nHow to use:")
	flag.PrintDefaults()
	fmt.Println(message)
	os.Exit(13)
}

func main() {
'''),
("main-cons","main.go",'''	var constraints = make([]geometry.IGeometry, 0)
	argObj.Constraints = strings.TrimSpace(argObj.Constraints)
	if fileutil.IsFile(argObj.Constraints) {
		constraints = geometry.ReadInputConstraints(argObj.Constraints)
	} else {
		if argObj.Constraints != "" {
			panic("constraint file not found")
		}
	}
''','''	var constraints = readAllConstraints(strings.TrimSpace(argObj.Constraints))
''',"main.go","func main() {\n",'''func readAllConstraints(path string) []geometry.IGeometry {
	if fileutil.IsFile(path) {
		return geometry.ReadInputConstraints(path)
	}
	if path != "" {
		panic("constraint file not found")
	}
	return []geometry.IGeometry{}
}

func main() {
'''),
("main-input","main.go",'''	var polylines = make([]*geometry.Polyline, 0)
	argObj.Input = strings.TrimSpace(argObj.Input)
	if fileutil.IsFile(argObj.Input) {
		polylines = geometry.ReadInputPolylines(argObj.Input)
	} else {
		panic("input file not provided")
	}
''','''	argObj.Input = strings.TrimSpace(argObj.Input)
	if !fileutil.IsFile(argObj.Input) {
		panic("input file not provided")
	}
	var polylines = geometry.ReadInputPolylines(argObj.Input)
'''),
("main-simplifyfn","main.go",'''	if argObj.IsFeatureClass {
		simplifyFeatureClass(polylines, &options, constraints, offsetFn)
	} else {
		simplifyInstances(polylines, &options, constraints, offsetFn)
	}
''','''	var simplify = simplifyInstances
	if argObj.IsFeatureClass {
		simplify = simplifyFeatureClass
	}
	simplify(polylines, &options, constraints, offsetFn)
'''),
("main-save","main.go",'''	var output = groupPlnsAsGeoJSONS(polylines)
	var err = fileutil.SaveText(argObj.Output, strings.Join(output, "\\n"))
	if err != nil {
		panic(err)
	}
''','''	save(argObj.Output, polylines)
''',"main.go","func main() {\n",'''func save(path string, lines []*geometry.Polyline) {
	var text = strings.Join(groupPlnsAsGeoJSONS(lines), "\\n")
	if err := fileutil.SaveText(path, text); err != nil {
		panic(err)
	}
}

func main() {
'''),
("simp-range","simplify.go",'''	for _, pln := range plns {
		forest = append(forest, constdp.NewConstDP(
			id.Next(), pln, constraints, opts, offsetFn,
		))
	}
''','''	forest = make([]*constdp.ConstDP, len(plns))
	for i := range plns {
		forest[i] = constdp.NewConstDP(id.Next(), plns[i], constraints, opts, offsetFn)
	}
'''),
("simp-coords","simplify.go",'''		var coords = tree.Coordinates().Clone()
		coords.Idxs = make([]int, 0, tree.SimpleSet.Size())
		for _, o := range tree.SimpleSet.Values() {
			coords.Idxs = append(coords.Idxs, o.(int))
		}
		tree.Polyline.Simple = coords
''','''		var kept = tree.SimpleSet.Values()
		var idxs = make([]int, len(kept))
		for i := range kept {
			idxs[i] = kept[i].(int)
		}
		var coords = tree.Coordinates().Clone()
		coords.Idxs = idxs
		tree.Polyline.Simple = coords
'''),
("simp-coordsfn","simplify.go",'''		var coords = tree.Coordinates().Clone()
		coords.Idxs = make([]int, 0, tree.SimpleSet.Size())
		for _, o := range tree.SimpleSet.Values() {
			coords.Idxs = append(coords.Idxs, o.(int))
		}
		tree.Polyline.Simple = coords
	}
}
''','''		tree.Polyline.Simple = simpleCoords(tree)
	}
}

func simpleCoords(tree *constdp.ConstDP) geom.Coords {
	var coords = tree.Coordinates().Clone()
	coords.Idxs = make([]int, 0, tree.SimpleSet.Size())
	tree.SimpleSet.ForEach(func(v interface{}, _ int) bool {
		coords.Idxs = append(coords.Idxs, v.(int))
		return true
	})
	return coords
}
'''),
("enc-pos","encode.go",'''	var vals = numRegx.FindAllString(id, -1)
	var indx, _ = strconv.Atoi(vals[0])
	var pos, _ = strconv.Atoi(vals[1])
	return indx, pos
''','''	var number = func(s string) int {
		var n, _ = strconv.Atoi(s)
		return n
	}
	var vals = numRegx.FindAllString(id, -1)
	return number(vals[0]), number(vals[1])
'''),
("enc-group","encode.go",'''	for _, pln := range plns {
		var indx, pos = indexPos(pln.Id)
		dictionary[indx] = append(dictionary[indx], PolyGeom{indx, pos, pln})
	}
''','''	for i := range plns {
		var o = PolyGeom{geom: plns[i]}
		o.index, o.pos = indexPos(o.geom.Id)
		dictionary[o.index] = append(dictionary[o.index], o)
	}
'''),
("enc-jsons","encode.go",'''	for _, idx := range indxs {
		var plns = dictionary[idx]
		sort.SliceStable(plns, func(i, j int) bool {
			return plns[i].pos < plns[j].pos
		})
		var s = createGeoJSONString(plns)
		jsons = append(jsons, s)
	}
	return jsons
}
''','''	for _, idx := range indxs {
		jsons = append(jsons, createGeoJSONString(sortedParts(dictionary[idx])))
	}
	return jsons
}

func sortedParts(parts []PolyGeom) []PolyGeom {
	sort.SliceStable(parts, func(i, j int) bool {
		return parts[j].pos > parts[i].pos
	})
	return parts
}
'''),
("enc-coords","encode.go",'''	for _, pt := range coords {
		var c = append([]float64{}, pt[:]...)
		if !is3D {
			c = c[:2]
		}
		coordinates = append(coordinates, c)
	}
''','''	for i := range coords {
		var pt = coords[i]
		if is3D {
			coordinates = append(coordinates, []float64{pt[0], pt[1], pt[2]})
		} else {
			coordinates = append(coordinates, []float64{pt[0], pt[1]})
		}
	}
'''),
("enc-feature","encode.go",'''	var meta = getMeta(featLns[0])
	var coordinates = make([][][]float64, 0, len(featLns))
	for _, gpoly := range featLns {
		var simple = gpoly.geom.Simple.Points()
		var coords = extractCoords(simple)
		coordinates = append(coordinates, coords)
	}
''','''	var coordinates = make([][][]float64, len(featLns))
	for i := range featLns {
		coordinates[i] = extractCoords(featLns[i].geom.Simple.Points())
	}
	var meta = getMeta(featLns[0])
'''),
("enc-meta","encode.go",'''	var meta = g.geom.Meta
	var properties map[string]interface{}
	if meta == "null" {
		properties = make(map[string]interface{}, 0)
	} else {
		var err = json.Unmarshal([]byte(meta), &properties)
		if err != nil {
			panic(err)
		}
	}
	return properties
''','''	if g.geom.Meta == "null" {
		return map[string]interface{}{}
	}
	var properties map[string]interface{}
	if err := json.Unmarshal([]byte(g.geom.Meta), &properties); err != nil {
		panic(err)
	}
	return properties
'''),
# ---- geometry
("geo-each","geometry/geojson.go",'''func parseInputLinearFeatures(inputs []string) []*Polyline {
	var plns = make([]*Polyline, 0, len(inputs))
	var idx = -1 //index of a feature in the whole input

	for _, fjson := range inputs {
		var jtype JSONType
		var err = json.Unmarshal([]byte(fjson), &jtype)
		checkError(err)

		if jtype.isGeometryType() {
			g, err := geojson.UnmarshalGeometry([]byte(fjson))
			checkError(err)
			var feat = &geojson.Feature{Geometry: g, Type: string(g.Type)}
			idx += 1
			plns = append(plns, createPolylineGeoms(idx, feat)...)
		} else if jtype.isFeatureType() {
			feat, err := geojson.UnmarshalFeature([]byte(fjson))
			checkError(err)
			idx += 1
			plns = append(plns, createPolylineGeoms(idx, feat)...)
		} else if jtype.isFeatureCollectionType() {
			feats, err := geojson.UnmarshalFeatureCollection([]byte(fjson))
			checkError(err)
			for _, feat := range feats.Features {
				idx += 1
				plns = append(plns, createPolylineGeoms(idx, feat)...)
			}
		}
	}
	return plns
}
''','''func parseInputLinearFeatures(inputs []string) []*Polyline {
	var plns = make([]*Polyline, 0, len(inputs))
	var idx = 0 //index of a feature in the whole input
	for _, fjson := range inputs {
		for _, feat := range parseFeatures(fjson) {
			plns = append(plns, createPolylineGeoms(idx, feat)...)
			idx++
		}
	}
	return plns
}

//parseFeatures : features in a token
func parseFeatures(fjson string) []*geojson.Feature {
	var jtype JSONType
	var err = json.Unmarshal([]byte(fjson), &jtype)
	checkError(err)

	if jtype.isGeometryType() {
		g, err := geojson.UnmarshalGeometry([]byte(fjson))
		checkError(err)
		return []*geojson.Feature{{Geometry: g, Type: string(g.Type)}}
	}
	if jtype.isFeatureType() {
		feat, err := geojson.UnmarshalFeature([]byte(fjson))
		checkError(err)
		return []*geojson.Feature{feat}
	}
	if jtype.isFeatureCollectionType() {
		feats, err := geojson.UnmarshalFeatureCollection([]byte(fjson))
		checkError(err)
		return feats.Features
	}
	return nil
}
'''),
("geo-post","geometry/geojson.go",'''			idx += 1
			geometries = append(geometries, createIGeom(idx, feat)...)
		} else if jtype.isFeatureType() {''','''			idx++
			var gs = createIGeom(idx, feat)
			geometries = append(geometries, gs...)
		} else if jtype.isFeatureType() {'''),
("geo-switch","geometry/geojson.go",'''		if jtype.isGeometryType() {
			g, err := geojson.UnmarshalGeometry([]byte(fjson))
			checkError(err)
			var feat = &geojson.Feature{Geometry: g, Type: string(g.Type)}
			idx += 1
			geometries = append(geometries, createIGeom(idx, feat)...)
		} else if jtype.isFeatureType() {
			feat, err := geojson.UnmarshalFeature([]byte(fjson))
			checkError(err)
			idx += 1
			geometries = append(geometries, createIGeom(idx, feat)...)
		} else if jtype.isFeatureCollectionType() {
			feats, err := geojson.UnmarshalFeatureCollection([]byte(fjson))
			checkError(err)
			for _, feat := range feats.Features {
				idx += 1
				geometries = append(geometries, createIGeom(idx, feat)...)
			}
		}
''','''		var data = []byte(fjson)
		switch {
		case jtype.isGeometryType():
			var g, err = geojson.UnmarshalGeometry(data)
			checkError(err)
			idx += 1
			geometries = append(geometries, createIGeom(idx, &geojson.Feature{Type: string(g.Type), Geometry: g})...)
		case jtype.isFeatureType():
			var feat, err = geojson.UnmarshalFeature(data)
			checkError(err)
			idx += 1
			geometries = append(geometries, createIGeom(idx, feat)...)
		case jtype.isFeatureCollectionType():
			var feats, err = geojson.UnmarshalFeatureCollection(data)
			checkError(err)
			for i := range feats.Features {
				idx += 1
				geometries = append(geometries, createIGeom(idx, feats.Features[i])...)
			}
		}
'''),
("geo-lines","geometry/geojson.go",'''	var geometries = make([]*Polyline, 0)
	if feat.Geometry == nil { //unlocated feature
		return geometries
	}
	if feat.Geometry.IsLineString() || feat.Geometry.IsMultiLineString() {
		var objs = lineStringFromFeature(idx, feat)
		for _, o := range objs {
			if len(o.Coordinates) < 2 { //not a line
				continue
			}
			geometries = append(geometries, createPolyline(o))
		}
	}
	return geometries
''','''	var geometries = make([]*Polyline, 0)
	var g = feat.Geometry
	if g == nil || !(g.IsLineString() || g.IsMultiLineString()) {
		return geometries
	}
	for _, o := range lineStringFromFeature(idx, feat) {
		if len(o.Coordinates) >= 2 {
			geometries = append(geometries, createPolyline(o))
		}
	}
	return geometries
'''),
("geo-igeom","geometry/geojson.go",'''		for _, o := range objs {
			if len(o.Coordinates) == 0 { //not a polygon
				continue
			}
			geometries = append(geometries, createPolygon(o))
		}
''','''		for i := 0; i < len(objs); i++ {
			if n := len(objs[i].Coordinates); n > 0 {
				geometries = append(geometries, createPolygon(objs[i]))
			}
		}
'''),
("geo-igeom2","geometry/geojson.go",'''	} else if feat.Geometry.IsLineString() || feat.Geometry.IsMultiLineString() {
		var objs = lineStringFromFeature(idx, feat)
		for _, o := range objs {
			if len(o.Coordinates) < 2 { //not a line
				continue
			}
			geometries = append(geometries, createPolyline(o))
		}
	} else''','''	} else if feat.Geometry.IsLineString() || feat.Geometry.IsMultiLineString() {
		for _, pln := range createPolylineGeoms(idx, feat) {
			geometries = append(geometries, pln)
		}
	} else'''),
("geo-points","geometry/geojson_geom.go",'''	var objs = make([]JSONPoint, 0, 1)
	if g.IsPoint() {
		var id = composeId(index, 0)
		objs = append(objs, JSONPoint{id, g.Point, meta})
	} else if g.IsMultiPoint() {
		objs = make([]JSONPoint, 0, len(g.MultiPoint))
		for pos, coords := range g.MultiPoint {
			var id = composeId(index, pos)
			objs = append(objs, JSONPoint{id, coords, string(meta)})
		}
	}
	return objs
''','''	if g.IsPoint() {
		return []JSONPoint{{Id: composeId(index, 0), Coordinates: g.Point, Meta: meta}}
	}
	var objs []JSONPoint
	if g.IsMultiPoint() {
		for pos := range g.MultiPoint {
			objs = append(objs, JSONPoint{Id: composeId(index, pos), Coordinates: g.MultiPoint[pos], Meta: meta})
		}
	}
	return objs
'''),
("geo-metafn","geometry/geojson_geom.go",'''	var meta, err = json.Marshal(feat.Properties)
	checkError(err)
	return geoJsonLineString(index, feat.Geometry, string(meta))
''','''	return geoJsonLineString(index, feat.Geometry, metaOf(feat))
''',"geometry/geojson_geom.go","func lineStringFromFeature(",'''func metaOf(feat *geojson.Feature) string {
	meta, err := json.Marshal(feat.Properties)
	checkError(err)
	return string(meta)
}

func lineStringFromFeature('''),
("geo-poly","geometry/geojson.go",'''	var coords = make([]geom.Coords, 0, len(jsonLine.Coordinates))
	for _, array := range jsonLine.Coordinates {
		coords = append(coords, geom.AsCoordinates(array))
	}
	return CreatePolygon(jsonLine.Id, coords, jsonLine.Meta)
''','''	var rings = make([]geom.Coords, len(jsonLine.Coordinates))
	for i, array := range jsonLine.Coordinates {
		rings[i] = geom.AsCoordinates(array)
	}
	return CreatePolygon(jsonLine.Id, rings, jsonLine.Meta)
'''),
("geo-tokens","geometry/geojson.go",'''	var tokens = make([]string, 0)
	var toks = strings.Split(strings.TrimSpace(data), "\\n")
	for _, tok := range toks {
		var v = strings.TrimSpace(tok)
		if v != "" {
			tokens = append(tokens, v)
		}
	}
	return tokens
''','''	var lines = strings.Split(strings.TrimSpace(data), "\\n")
	var tokens = make([]string, 0, len(lines))
	for i := range lines {
		var line = strings.TrimSpace(lines[i])
		if len(line) == 0 {
			continue
		}
		tokens = append(tokens, line)
	}
	return tokens
'''),
("geo-segb","geometry/pln.go",'''	var I, J int
	var n = pln.Len() - 1
	var a, b *geom.Point
	var items = make([]mono.MBR, 0, n)
	for i := 0; i < n; i++ {
		a, b = pln.Coordinates.Pt(i), pln.Coordinates.Pt(i+1)
		I, J = pln.Coordinates.Idxs[i], pln.Coordinates.Idxs[i+1]
		items = append(items, mono.MBR{
			MBR: mbr.CreateMBR(a[geom.X], a[geom.Y], b[geom.X], b[geom.Y]),
			I:   I, J: J,
		})
	}
	return items
''','''	var coords = pln.Coordinates
	var items = make([]mono.MBR, 0, pln.Len()-1)
	for j := 1; j < pln.Len(); j++ {
		var a, b = coords.Pt(j - 1), coords.Pt(j)
		var item = mono.MBR{I: coords.Idxs[j-1], J: coords.Idxs[j]}
		item.MBR = mbr.CreateMBR(a[geom.X], a[geom.Y], b[geom.X], b[geom.Y])
		items = append(items, item)
	}
	return items
'''),
("geo-sub","geometry/pln.go",'''	var coords = pln.Coordinates
	coords.Idxs = make([]int, 0, rng.J-rng.I+1)
	for i := rng.I; i <= rng.J; i++ {
		coords.Idxs = append(coords.Idxs, i)
	}
	return coords
''','''	var idxs = make([]int, rng.J-rng.I+1)
	for k := range idxs {
		idxs[k] = rng.I + k
	}
	var coords = pln.Coordinates
	coords.Idxs = idxs
	return coords
'''),
("geo-create","geometry/pln.go",'''	if coordinates.Len() < 2 {
		return &Polyline{nil, id, meta, geom.Coords{}}
	}
	return &Polyline{geom.NewLineString(coordinates), id, meta, geom.Coords{}}
''','''	var pln = &Polyline{Id: id, Meta: meta}
	if coordinates.Len() >= 2 {
		pln.LineString = geom.NewLineString(coordinates)
	}
	return pln
'''),
# ---- inlining away / renaming / changing signatures of unexported functions
("ren-flip","deform/cls.go","optimizeNeighbours(hull, ctxHulls)","otherFeatures(hull, ctxHulls)","deform/cls.go","func optimizeNeighbours(","func otherFeatures("),
("ren-find",C+"simplify.go","findDeformableNodes(deformables, db)","deformable(deformables, db)",C+"fc_simplify.go","findDeformableNodes(deformables, hulldb)","deformable(deformables, hulldb)",C+"simple_0.go","func findDeformableNodes(","func deformable("),
("inl-find",C+"simplify.go","findDeformableNodes(deformables, db)","processConstSimplification(deformables, db, ConcurProcs)"),
("inl-tri","homotopy/deform.go",'''	var neighbours = db.Search(*box)
	if len(neighbours) > 0 {
		bln = isTriangleCollapsible(a, b, c, neighbours)
	}
	return bln
}

//find if intersects simple
func isTriangleCollapsible(a, b, c *geom.Point, neighbours []rtree.BoxObject) bool {
	var bln = true
	var triangle = geom.NewPolygon(geom.Coordinates([]geom.Point{*a, *b, *c, *a}))
	for i, n := 0, len(neighbours); bln && i < n; i++ {
		c := neighbours[i].(*ctx.ContextGeometry)
		bln = !triangle.Intersects(c.Geom.Geometry()) //disjoint
	}
	return bln
}
''','''	var neighbours = db.Search(*box)
	if len(neighbours) == 0 {
		return true
	}
	var triangle = geom.NewPolygon(geom.Coordinates([]geom.Point{*a, *b, *c, *a}))
	for _, o := range neighbours {
		if triangle.Intersects(o.(*ctx.ContextGeometry).Geom.Geometry()) {
			return false
		}
	}
	return bln
}
'''),
("sig-cand","deform/noncontig.go","func nonContiguousCandidates(options *opts.Opts, a, b *node.Node)","func nonContiguousCandidates(displacement float64, a, b *node.Node)","deform/noncontig.go","delta > options.NonPlanarDisplacement","delta > displacement","deform/cls.go","nonContiguousCandidates(options, hull, h)","nonContiguousCandidates(options.NonPlanarDisplacement, hull, h)","deform/ln.go","nonContiguousCandidates(options, hull, h)","nonContiguousCandidates(options.NonPlanarDisplacement, hull, h)","deform/noncontig.go",'	"github.com/TopoSimplify/plugin/opts"\n',''),
("sig-split","constrain/split.go","func splitAtSelfIntersects(id *iter.Igen, db *hdb.Hdb, selfInters *ctx.ContextGeometries) {","func splitAtSelfIntersects(id *iter.Igen, db *hdb.Hdb, selfInters []*ctx.ContextGeometry) {","constrain/split.go","range selfInters.DataView()","range selfInters","constrain/toself.go","splitAtSelfIntersects(id, hulldb, selfInters)","splitAtSelfIntersects(id, hulldb, selfInters.DataView())"),
("inl-common","deform/cls.go","var sameFeature = isSame(hull.Instance, h.Instance)","var sameFeature = hull.Instance.Id() == h.Instance.Id()"),
("inl-ctxdb","homotopy/deform.go",'''	var db = contextDB(contexts)
''','''	var db = rtree.NewRTree()
	var objects = make([]rtree.BoxObject, 0, contexts.Len())
	for _, o := range contexts.DataView() {
		objects = append(objects, o)
	}
	db.Load(objects)
''',"homotopy/deform.go",'''func contextDB(contexts *ctx.ContextGeometries) *rtree.RTree {
	var db = rtree.NewRTree()
	var view = contexts.DataView()
	var objects = make([]rtree.BoxObject, 0, len(view))
	for i := range view {
		objects = append(objects, view[i])
	}
	db.Load(objects)
	return db
}

''',''),
("mv-contig","deform/contig.go",'''	var sa, sb *node.Node
	//& the present should not affect the future
	if !a.Collapsible(b) {
		sa = a
	}

	// future should not affect the present
	if !b.Collapsible(a) {
		sb = b
	}
	return sa, sb
}
''','''	return unlessCollapsible(a, b), unlessCollapsible(b, a)
}

func unlessCollapsible(a, b *node.Node) *node.Node {
	if a.Collapsible(b) {
		return nil
	}
	return a
}
'''),
# ---- core
("agg-score",C+"node_aggregates.go",'''	var score = self.Score
	var relation = self.ScoreRelation

	if self.SquareScore != nil {
		score = self.SquareScore
		relation = self.SquareScoreRelation
	}
''','''	var score, relation = self.measure()
''',C+"node_aggregates.go","//Merge segment fragments where possible\n",'''//measure - score function in use and its relation
func (self *ConstDP) measure() (lnr.ScoreFn, func(float64) bool) {
	if self.SquareScore == nil {
		return self.Score, self.ScoreRelation
	}
	return self.SquareScore, self.SquareScoreRelation
}

//Merge segment fragments where possible
''',C+"node_aggregates.go",'	"github.com/TopoSimplify/plugin/knn"\n','	"github.com/TopoSimplify/plugin/knn"\n	"github.com/TopoSimplify/plugin/lnr"\n'),
("agg-try",C+"node_aggregates.go",'''		if withPrev && prev != nil {
			key = CacheKey(prev, hull)
			if !cache[key] {
				cache[key] = true
				mergeprevBln, mergePrev = merge.ContiguousFragmentsAtThreshold(
					id, score, prev, hull, relation, common.Geometry,
				)
			}
		}

		if withNext && nxt != nil {
			key = CacheKey(hull, nxt)
			if !cache[key] {
				cache[key] = true
				mergenxtBln, mergeNxt = merge.ContiguousFragmentsAtThreshold(
					id, score, hull, nxt, relation, common.Geometry,
				)
			}
		}
''','''		var try = func(a, b *node.Node) (bool, node.Node) {
			key = CacheKey(a, b)
			if cache[key] {
				return false, node.Node{}
			}
			cache[key] = true
			return merge.ContiguousFragmentsAtThreshold(id, score, a, b, relation, common.Geometry)
		}

		if prev != nil && withPrev {
			mergeprevBln, mergePrev = try(prev, hull)
		}
		if nxt != nil && withNext {
			mergenxtBln, mergeNxt = try(hull, nxt)
		}
'''),
("agg-kept",C+"node_aggregates.go",'''		if iter.SortedSearchInts(constVertexSet, hull.Range.I) &&
			iter.SortedSearchInts(constVertexSet, hull.Range.J) {
			continue
		}
		var withNext, withPrev = !iter.SortedSearchInts(constVertexSet, hull.Range.J),
			!iter.SortedSearchInts(constVertexSet, hull.Range.I)
''','''		var withPrev = !iter.SortedSearchInts(constVertexSet, hull.Range.I)
		var withNext = !iter.SortedSearchInts(constVertexSet, hull.Range.J)
		if !(withPrev || withNext) {
			continue
		}
'''),
("agg-insert",C+"node_aggregates.go",'''			if validateMerge(&mergePrev, db) {
				insertList = append(insertList, mergePrev)
				merged = true
			} else {
				merged = false
				insertList = append(insertList, *prev)
			}
		}

		if !merged {
			insertList = append(insertList, *hull)
		}
''','''			merged = validateMerge(&mergePrev, db)
			if merged {
				insertList = append(insertList, mergePrev)
			} else {
				insertList = append(insertList, *prev)
			}
		}

		if !merged {
			insertList = append(insertList, *hull)
		}
'''),
("agg-index",C+"node_aggregates.go",'''	for len(objects) != 0 {
		hull = objects[0]
		objects = objects[1:]
		if hull.Range.Size() != fragmentSize {
			continue
		}
''','''	for len(objects) > 0 {
		hull, objects = objects[0], objects[1:]
		if hull.Range.Size() != fragmentSize {
			continue
		}
'''),
("vctx-neigh",C+"validate.go",'''	var boxObjs = knn.ContextNeighbours(self.ContextDB, hull.Geom, self.Opts.MinDist)

	var neighbours = make([]*ctx.ContextGeometry, len(boxObjs))
	for i, o := range boxObjs {
		neighbours[i] = o.Geom.(*ctx.ContextGeometry)
	}

	var ctxtgeoms = (&ctx.ContextGeometries{}).SetData(neighbours)
''','''	var ctxtgeoms = self.contextNeighbours(hull)
''',C+"validate.go","//ValidateContextRelation - Constrain",'''//contextNeighbours - context geometries near a hull
func (self *ConstDP) contextNeighbours(hull *node.Node) *ctx.ContextGeometries {
	var contexts = ctx.NewContexts()
	for _, o := range knn.ContextNeighbours(self.ContextDB, hull.Geom, self.Opts.MinDist) {
		contexts.Push(o.Geom.(*ctx.ContextGeometry))
	}
	return contexts
}

//ValidateContextRelation - Constrain'''),
("vctx-opts",C+"validate.go",'''	if !(self.Opts.GeomRelation || self.Opts.DistRelation || self.Opts.DirRelation) {
		return bln
	}
''','''	var o = self.Options()
	var any = o.GeomRelation || o.DistRelation || o.DirRelation
	if !any {
		return true
	}
'''),
("simp-load",C+"simplify.go",'''	var db = hdb.NewHdb()
	var selections map[*node.Node]struct{}
	var deformables = make([]node.Node, 0, len(self.Hulls))

	for i := range self.Hulls {
		deformables = append(deformables, self.Hulls[i])
	}
	// empty deque, this is for future splits
	node.Clear(&self.Hulls)
	db.Load(deformables)
''','''	var deformables = append(make([]node.Node, 0, len(self.Hulls)), self.Hulls...)
	var selections map[*node.Node]struct{}
	// empty deque, this is for future splits
	node.Clear(&self.Hulls)

	var db = hdb.NewHdb().Load(deformables)
'''),
("simp-rounds",C+"simplify.go",'''	for len(deformables) > 0 {
		// 0. find deformable node
		selections = findDeformableNodes(deformables, db)
		// 1. deform selected nodes
		if len(selections) > 0 {
			deformables = deformNodes(id, selections)
			// 2. remove selected nodes from db
			cleanUpDB(db, selections)
			// 3. add new deformations to db
			db.Load(deformables)
		} else {
			deformables = deformables[:0]
		}
		// 4. repeat until there are no deformables
	}
''','''	for {
		if len(deformables) == 0 {
			break
		}
		selections = findDeformableNodes(deformables, db)
		if len(selections) == 0 {
			break
		}
		deformables = deformNodes(id, selections)
		cleanUpDB(db, selections)
		db.Load(deformables)
	}
'''),
("simp-roundsfn",C+"simplify.go",'''	for len(deformables) > 0 {
		// 0. find deformable node
		selections = findDeformableNodes(deformables, db)
		// 1. deform selected nodes
		if len(selections) > 0 {
			deformables = deformNodes(id, selections)
			// 2. remove selected nodes from db
			cleanUpDB(db, selections)
			// 3. add new deformations to db
			db.Load(deformables)
		} else {
			deformables = deformables[:0]
		}
		// 4. repeat until there are no deformables
	}
''','''	refineAll(id, db, deformables)
''',C+"simplify.go","	var selections map[*node.Node]struct{}\n","",C+"simplify.go","//Simplify - Line",'''func refineAll(id *iter.Igen, db *hdb.Hdb, deformables []node.Node) {
	for len(deformables) > 0 {
		var selections = findDeformableNodes(deformables, db)
		if len(selections) == 0 {
			return
		}
		deformables = deformNodes(id, selections)
		cleanUpDB(db, selections)
		db.Load(deformables)
	}
}

//Simplify - Line'''),
("fc-roundsfn",C+"fc_simplify.go",'''		for len(deformables) > 0 {
			deformableCallback(len(deformables))
			// 0. find deformable node
			selections = findDeformableNodes(deformables, hulldb)
			// 1. deform selected nodes
			if len(selections) > 0 {
				deformables = deformNodes(id, selections)
				// 2. remove selected nodes from db
				cleanUpDB(hulldb, selections)
				// 3. add new deformations to db
				hulldb.Load(deformables)
				// 4. repeat until there are no deformables
			} else {
				deformables = deformables[:0]
			}
		}
''','''		for len(deformables) > 0 {
			deformableCallback(len(deformables))
			selections = findDeformableNodes(deformables, hulldb)
			deformables = replaceSelected(id, hulldb, selections)
		}
''',C+"fc_simplify.go","func SimplifyInstances(",'''func replaceSelected(id *iter.Igen, db *hdb.Hdb, selections map[*node.Node]struct{}) []node.Node {
	if len(selections) == 0 {
		return nil
	}
	var parts = deformNodes(id, selections)
	cleanUpDB(db, selections)
	db.Load(parts)
	return parts
}

func SimplifyInstances('''),
("fc-early",C+"fc_simplify.go",'''	if constrained {
		var selections map[*node.Node]struct{}
''','''	if !constrained {
		return
	}
	{
		var selections map[*node.Node]struct{}
'''),
("fc-collect",C+"fc_simplify.go",'''		for _, self := range selfs {
			for i := range self.Hulls {
				deformables = append(deformables, self.Hulls[i])
			}
			node.Clear(&self.Hulls) // empty deque, this is for future splits
		}
		hulldb.Load(deformables)
''','''		for s := range selfs {
			deformables = append(deformables, selfs[s].Hulls...)
			node.Clear(&selfs[s].Hulls)
		}
		hulldb.Load(deformables)
'''),
("fc-junc",C+"fc_simplify.go",'''		instances := make([]*lnr.FC, len(selfs))
		for i, sf := range selfs {
			instances[i] = lnr.NewFC(sf.Coordinates(), sf.Id())
		}
		junctions = lnr.FCPlanarSelfIntersection(instances)
''','''		junctions = planarJunctions(selfs)
''',C+"fc_simplify.go","func SimplifyInstances(",'''func planarJunctions(selfs []*ConstDP) map[int][]int {
	var lines []*lnr.FC
	for i := 0; i < len(selfs); i++ {
		lines = append(lines, lnr.NewFC(selfs[i].Coordinates(), selfs[i].Id()))
	}
	return lnr.FCPlanarSelfIntersection(lines)
}

func SimplifyInstances('''),
("inst-worker",C+"fc_simplify.go",'''	var fn = func(idx int) {
		defer wg.Done()
		for self := range stream {
			self.Simplify(id, junctions[self.Id()])
			out <- self
		}
	}

	go func() {
		for i := 0; i < ConcurProcs; i++ {
			go fn(i)
		}
	}()
''','''	for i := 0; i < ConcurProcs; i++ {
		go func() {
			for self := range stream {
				self.Simplify(id, junctions[self.Id()])
				out <- self
			}
			wg.Done()
		}()
	}
'''),
("inst-feed",C+"fc_simplify.go",'''	go func() {
		for s := range selfs {
			stream <- selfs[s]
		}
		close(stream)
	}()
''','''	go feed(selfs, stream)
''',C+"fc_simplify.go","func SimplifyInstances(",'''func feed(selfs []*ConstDP, stream chan<- *ConstDP) {
	defer close(stream)
	for _, self := range selfs {
		stream <- self
	}
}

func SimplifyInstances('''),
("proc-send",C+"simple_0.go",'''			for _, o := range selections {
				if o.Range.Size() > 1 { // a segment cannot be deformed
					out <- o
				}
			}
			selections = selections[:0]
''','''			for k := 0; k < len(selections); k++ {
				if selections[k].Range.Size() <= 1 {
					continue
				}
				out <- selections[k]
			}
			selections = nil
'''),
("proc-nodes",C+"simple_0.go",'''	var nodes = make([]*node.Node, len(nodeHulls))
	for i := range nodeHulls {
		nodes[i] = &nodeHulls[i]
	}

	var hulls = chunkTasks(nodes, concurrency)
''','''	var nodes []*node.Node
	for i := range nodeHulls {
		nodes = append(nodes, &nodeHulls[i])
	}
	var hulls = chunkTasks(nodes, concurrency)
'''),
("proc-collect",C+"simple_0.go",'''	var results = make(map[*node.Node]struct{})
	for o := range out {
		results[o] = struct{}{}
	}
	return results
''','''	var results = map[*node.Node]struct{}{}
	for {
		o, ok := <-out
		if !ok {
			return results
		}
		results[o] = struct{}{}
	}
'''),
("chunk-slice",C+"simple_0.go",'''		var task []*node.Node
		for _, o := range vals[idx:stop] {
			task = append(task, o)
		}
		chunks = append(chunks, task)
		idx = stop
''','''		chunks = append(chunks, append([]*node.Node(nil), vals[idx:stop]...))
		idx = stop
'''),
("deform-guard",C+"simple_1.go",'''		if hull.Range.Size() > 1 {
			ha, hb = split.AtScoreSelection(id, hull, scoreFn, common.Geometry)
			results = append(results, self.refine(id, ha, hb)...)
			hull.Instance.State().MarkDirty() //after split mark instance as dirty
		} else {
			results = append(results, *hull)
		}
''','''		if hull.Range.Size() <= 1 {
			results = append(results, *hull)
			continue
		}
		ha, hb = split.AtScoreSelection(id, hull, scoreFn, common.Geometry)
		self.State().MarkDirty()
		results = append(results, self.refine(id, ha, hb)...)
'''),
("ctor-db",C+"constructor.go",'''	var lst = make([]node.Node, 0, len(geoms))
	for i := range geoms {
		cg := ctx.New(geoms[i], 0, -1).AsContextNeighbour()
		lst = append(lst, node.Node{
			MBR:      cg.Bounds(),
			Geom:     cg,
			Instance: cdp,
		})
	}
''','''	var lst = make([]node.Node, len(geoms))
	for i, g := range geoms {
		var nd = &lst[i]
		var cg = ctx.New(g, 0, -1).AsContextNeighbour()
		nd.MBR, nd.Geom, nd.Instance = cg.Bounds(), cg, cdp
	}
'''),
("group-map",C+"fc_group.go",'''		var lst []node.Node
		var self = h.Instance.(*ConstDP)
		var id = self.Id()
		if lst, ok = smap[id]; !ok {
			lst = []node.Node{}
		}
		lst = append(lst, *h)
		smap[id] = lst
''','''		var id = h.Instance.(*ConstDP).Id()
		smap[id] = append(smap[id], *h)
''',C+"fc_group.go","	var ok bool\n",""),
("toself-verts","constrain/toself.go",'''	for _, inter := range selfInters.DataView() {
		var indices = inter.Meta.Planar
		if inter.IsNonPlanarVertex() {
			indices = inter.Meta.NonPlanar
		}
		for _, v := range indices {
			atVertexSet[v] = true
		}
	}
''','''	for _, inter := range selfInters.DataView() {
		for _, v := range interIndices(inter) {
			atVertexSet[v] = true
		}
	}
''',"constrain/toself.go","//Constrain for planar self-intersection\n",'''func interIndices(inter *ctx.ContextGeometry) []int {
	if inter.IsNonPlanarVertex() {
		return inter.Meta.NonPlanar
	}
	return inter.Meta.Planar
}

//Constrain for planar self-intersection
'''),
("dec-pop","decompose/decompose.go",'''		n = len(stack) - 1
		r = stack[n]
		stack = stack[:n]

		coordinates = pln.SubCoordinates(r)
		k, val = decomp.ScoreFn(coordinates)
		k = r.I + k //offset
''','''		n = len(stack)
		r, stack = stack[n-1], stack[:n-1]
		coordinates = pln.SubCoordinates(r)
		var at, score = decomp.ScoreFn(coordinates)
		k, val = at+r.I, score
'''),
("rng-sub","rng/split.go",'''	var i, j = o.I, o.J
	var sub = make([]Rng, 0)
	for _, idx := range idxs {
		if i < idx && idx < j {
			s := i
			if len(sub) > 0 {
				s = sub[len(sub)-1].J
			}
			sub = append(sub, Range(s, idx))
		}
	}
	//close rest of split
	if len(sub) > 0 {
		e := sub[len(sub)-1].J
		if e < j {
			sub = append(sub, Range(e, j))
		}
	}
	return sub
''','''	var sub = make([]Rng, 0)
	var from = o.I
	for _, idx := range idxs {
		if idx <= o.I || idx >= o.J {
			continue
		}
		sub = append(sub, Range(from, idx))
		from = idx
	}
	if len(sub) > 0 {
		sub = append(sub, Range(from, o.J))
	}
	return sub
'''),
("rel-range","relate/geom.go",'''	var bln = true
	var geometries = contexts.DataView()

	for i, n := 0, contexts.Len(); bln && i < n; i++ {
		g = geometries[i]
		lnGInter = lnGeom.Intersects(g.Geom.Geometry())
		segGInter = segGeom.Intersects(g.Geom.Geometry())

		bln = !((segGInter && !lnGInter) || (!segGInter && lnGInter))
	}

	return bln
''','''	for _, g = range contexts.DataView() {
		segGInter = segGeom.Intersects(g.Geometry())
		lnGInter = lnGeom.Intersects(g.Geometry())
		if lnGInter != segGInter {
			return false
		}
	}
	return true
'''),
("node-neigh","node/contig.go",'''	for k := range neighbs {
		h = neighbs[k]
		if h != hull {
			if i == h.Range.J {
				prev = neighbs[k]
			} else if j == h.Range.I {
				nxt = neighbs[k]
			}
		}
		if prev != nil && nxt != nil {
			break
		}
	}
	return prev, nxt
''','''	for _, h = range neighbs {
		switch {
		case h == hull:
		case h.Range.J == i:
			prev = h
		case h.Range.I == j:
			nxt = h
		}
		if !(prev == nil || nxt == nil) {
			return prev, nxt
		}
	}
	return prev, nxt
'''),
("lnr-append","lnr/self.go",'''	var points = make([]vertex, 0, polyline.Coordinates.Len())
	for i := range polyline.Coordinates.Idxs {
		points = append(points, vertex{polyline.Pt(i), i, NullFId})
	}
''','''	var points = appendVertices(nil, polyline.Coordinates, NullFId)
'''),
("lnr-seg","lnr/self.go",'''			var k = cacheKey(s, o)
			if cache[k] {
				continue
			}
			cache[k] = true

			sa, sb = polyline.Pt(s.I), polyline.Pt(s.J)
''','''			var k = cacheKey(s, o)
			if _, seen := cache[k]; seen {
				continue
			}
			cache[k] = true

			sa, sb = polyline.Pt(s.I), polyline.Pt(s.J)
'''),
("hom-search","homotopy/deform.go",'''	var box = a.BBox().ExpandIncludeXY(b[geom.X], b[geom.Y]).ExpandIncludeXY(
		c[geom.X], c[geom.Y],
	)
	var neighbours = db.Search(*box)
''','''	var box = a.BBox()
	box.ExpandIncludeXY(b[geom.X], b[geom.Y])
	box.ExpandIncludeXY(c[geom.X], c[geom.Y])
	var neighbours = db.Search(*box)
'''),
("hom-count","homotopy/homotopy.go",'''	if ch.size == 2 {
		var a, b = ch.link.Point, ch.link.next.Point
		bln = coordinates.Pt(0).Equals2D(a) && coordinates.Pt(n).Equals2D(b)
	}
	return bln
''','''	if ch.size != 2 {
		return false
	}
	var a, b = ch.link.Point, ch.link.next.Point
	bln = coordinates.Pt(0).Equals2D(a) && coordinates.Pt(n).Equals2D(b)
	return bln
'''),
("off-sed","offset/sed.go",'''		m = 0
		if dt != 0 { //no motion to synchronise with when no time elapses
			m = (mij / dt) * (ptt - at)
		}
		px, py = ax+(m*vx), ay+(m*vy)
		dist = hypotFn(ptx-px, pty-py)

		if dist >= offset {
			index, offset = k, dist
		}
''','''		if dt == 0 {
			m = 0
		} else {
			m = (ptt - at) * (mij / dt)
		}
		px = ax + m*vx
		py = ay + m*vy
		if dist = hypotFn(ptx-px, pty-py); dist < offset {
			continue
		}
		index, offset = k, dist
'''),
("split-nodes","split/split.go",'''	var ha = node.CreateNode(id, coordinates.Slice(0, k+1), rng.Range(i, idx), gfn, hull.Instance)
	var hb = node.CreateNode(id, coordinates.Slice(k, coordinates.Len()), rng.Range(idx, j), gfn, hull.Instance)
''','''	var part = func(a, b, n int) node.Node {
		return node.CreateNode(id, coordinates.Slice(a, b), rng.Range(i+a, i+n), gfn, hull.Instance)
	}
	var ha = part(0, k+1, k)
	var hb = node.CreateNode(id, coordinates.Slice(k, coordinates.Len()), rng.Range(idx, j), gfn, hull.Instance)
'''),
("common-geom","common/common.go",'''	var g geom.Geometry
	if coordinates.Len() > 2 {
		g = geom.NewPolygon(coordinates)
	} else if coordinates.Len() == 2 {
		g = geom.NewLineString(coordinates)
	} else {
		g = coordinates.Pt(0)
	}
	return g
''','''	switch n := coordinates.Len(); {
	case n > 2:
		return geom.NewPolygon(coordinates)
	case n == 2:
		return geom.NewLineString(coordinates)
	}
	return coordinates.Pt(0)
'''),
("dp-decomp","dp/dp.go",'''	var score = dp.Score
	var relation = dp.ScoreRelation
	if dp.SquareScore != nil {
		score = dp.SquareScore
		relation = dp.SquareScoreRelation
	}
	var decomp = offset.EpsilonDecomposition{ScoreFn: score, Relation: relation}
''','''	var decomp = offset.EpsilonDecomposition{ScoreFn: dp.SquareScore, Relation: dp.SquareScoreRelation}
	if decomp.ScoreFn == nil {
		decomp = offset.EpsilonDecomposition{ScoreFn: dp.Score, Relation: dp.ScoreRelation}
	}
'''),
("state-eq","state/state.go","	return s == false","	return !bool(s)"),
("box-poly","box/box.go",'''	return geom.NewPolygon(geom.Coordinates(
		[]geom.Point{
			{o.MinX, o.MinY},
			{o.MinX, o.MaxY},
			{o.MaxX, o.MaxY},
			{o.MaxX, o.MinY},
			{o.MinX, o.MinY},
		},
	))
''','''	var ll, ur = geom.Point{o.MinX, o.MinY}, geom.Point{o.MaxX, o.MaxY}
	var ring = []geom.Point{ll, {ll[0], ur[1]}, ur, {ur[0], ll[1]}, ll}
	return geom.NewPolygon(geom.Coordinates(ring))
'''),
("sel-for",H+"select.go",'''			for (cmp == cmpMinX && (arr[i].MBR.MinX-tMinX) < 0) ||
				(cmp == cmpMinY && (arr[i].MBR.MinY-tMinY) < 0) {
				i++
			}

			for (cmp == cmpMinX && (arr[j].MBR.MinX-tMinX) > 0) ||
				(cmp == cmpMinY && (arr[j].MBR.MinY-tMinY) > 0) {
				j--
			}
''','''			for diff(arr[i]) < 0 {
				i++
			}

			for diff(arr[j]) > 0 {
				j--
			}
''',H+"select.go","		swapItem(arr, left, k)\n",'''		var diff = func(o *node.Node) float64 {
			if cmp == cmpMinX {
				return o.MBR.MinX - tMinX
			}
			if cmp == cmpMinY {
				return o.MBR.MinY - tMinY
			}
			return 0
		}

		swapItem(arr, left, k)
'''),
("pop-int",H+"core.go",'''	var n, v int
	n = len(a) - 1
	v, a[n] = a[n], 0
	a = a[:n]
	return v, a
''','''	var n = len(a) - 1
	var v = a[n]
	a[n] = 0
	return v, a[:n]
'''),
("minent",H+"core.go","	return maxInt(2, int(math.Ceil(float64(x)*0.4)))",'''	var m = int(math.Ceil(float64(x) * 0.4))
	if m < 2 {
		m = 2
	}
	return m'''),
]
