C="constdp/"; G="geometry/"; H="hdb/"; K="constrain/"; D="deform/"
PARSE_IN='''			g, err := geojson.UnmarshalGeometry([]byte(fjson))
			checkError(err)

			var feat = &geojson.Feature{Geometry: g, Type: string(g.Type)}
			idx += 1
			plns = append(plns, createPolylineGeoms(idx, feat)...)
'''
R=[
("enc-indexpos","encode.go","FUNC func indexPos(",'''func indexPos(id string) (int, int) {
	var vals = numRegx.FindAllString(id, -1)
	return asInt(vals[0]), asInt(vals[1])
}

func asInt(s string) int {
	var v, _ = strconv.Atoi(s)
	return v
}
'''),
("enc-is3d","encode.go","FUNC func isCoords3D(",'''func isCoords3D(coords []geom.Point) bool {
	for i := range coords {
		if !math.FloatEqual(coords[i][2], 0) {
			return true
		}
	}
	return false
}
'''),
("enc-extract","encode.go","FUNC func extractCoords(",'''func extractCoords(coords []geom.Point) [][]float64 {
	var dims = 2
	if isCoords3D(coords) {
		dims = 3
	}
	var coordinates = make([][]float64, len(coords))
	for i, pt := range coords {
		coordinates[i] = append([]float64(nil), pt[:dims]...)
	}
	return coordinates
}
'''),
("enc-extract2","encode.go","FUNC func extractCoords(",'''func extractCoords(coords []geom.Point) [][]float64 {
	var is3D = isCoords3D(coords)
	var coordinates = make([][]float64, 0, len(coords))
	for _, pt := range coords {
		if is3D {
			coordinates = append(coordinates, []float64{pt[0], pt[1], pt[2]})
		} else {
			coordinates = append(coordinates, []float64{pt[0], pt[1]})
		}
	}
	return coordinates
}
'''),
("enc-meta","encode.go","FUNC func getMeta(",'''func getMeta(g PolyGeom) map[string]interface{} {
	if g.geom.Meta == "null" {
		return map[string]interface{}{}
	}
	var properties map[string]interface{}
	if err := json.Unmarshal([]byte(g.geom.Meta), &properties); err != nil {
		panic(err)
	}
	return properties
}
'''),
("enc-create","encode.go","FUNC func createGeoJSONString(",'''func createGeoJSONString(featLns []PolyGeom) string {
	var coordinates = make([][][]float64, len(featLns))
	for i := range featLns {
		coordinates[i] = extractCoords(featLns[i].geom.Simple.Points())
	}

	var feature = geometry.LineStringFeature{Type: "Feature", Properties: getMeta(featLns[0])}
	if len(coordinates) == 1 {
		feature.Geometry = &geometry.LinearGeometry{Type: "LineString", Coordinates: coordinates[0]}
	} else {
		feature.Geometry = &geometry.MultiLinearGeometry{Type: "MultiLineString", Coordinates: coordinates}
	}
	var dat, _ = json.Marshal(feature)
	return string(dat)
}
'''),
("enc-create2","encode.go","FUNC func createGeoJSONString(",'''func createGeoJSONString(featLns []PolyGeom) string {
	if len(featLns) == 1 {
		return encodeFeature(featLns[0], &geometry.LinearGeometry{
			Type:        "LineString",
			Coordinates: simpleCoords(featLns[0]),
		})
	}

	var coordinates = make([][][]float64, 0, len(featLns))
	for _, ln := range featLns {
		coordinates = append(coordinates, simpleCoords(ln))
	}
	return encodeFeature(featLns[0], &geometry.MultiLinearGeometry{
		Type:        "MultiLineString",
		Coordinates: coordinates,
	})
}

func simpleCoords(ln PolyGeom) [][]float64 {
	return extractCoords(ln.geom.Simple.Points())
}

func encodeFeature(ln PolyGeom, g geometry.ILinear) string {
	var dat, _ = json.Marshal(geometry.LineStringFeature{
		Type:       "Feature",
		Properties: getMeta(ln),
		Geometry:   g,
	})
	return string(dat)
}
'''),
("enc-group","encode.go","FUNC func groupById(",'''func groupById(plns []*geometry.Polyline) map[int][]PolyGeom {
	var groups = map[int][]PolyGeom{}
	for i := range plns {
		var item PolyGeom
		item.index, item.pos = indexPos(plns[i].Id)
		item.geom = plns[i]
		groups[item.index] = append(groups[item.index], item)
	}
	return groups
}
'''),
("enc-sorted","encode.go",'''		var plns = dictionary[idx]
		sort.SliceStable(plns, func(i, j int) bool {
			return plns[i].pos < plns[j].pos
		})
		var s = createGeoJSONString(plns)
		jsons = append(jsons, s)
''','''		jsons = append(jsons, createGeoJSONString(byPosition(dictionary[idx])))
''',"encode.go","func isCoords3D(",'''func byPosition(parts []PolyGeom) []PolyGeom {
	sort.SliceStable(parts, func(i, j int) bool { return parts[i].pos < parts[j].pos })
	return parts
}

func isCoords3D('''),
("simp-newforest","simplify.go",'''	var id = iter.NewIgen()
	var forest []*constdp.ConstDP
	var junctions = make(map[int][]int, 0)

	for _, pln := range plns {
		forest = append(forest, constdp.NewConstDP(
			id.Next(), pln, constraints, opts, offsetFn,
		))
	}

	constdp.SimplifyInstances(id, forest, junctions)
''','''	var id = iter.NewIgen()
	var forest = newForest(id, plns, opts, constraints, offsetFn)
	constdp.SimplifyInstances(id, forest, map[int][]int{})
''',"simplify.go",'''	var id = iter.NewIgen()
	var forest []*constdp.ConstDP

	for _, ln := range lns {
		forest = append(forest, constdp.NewConstDP(
			id.Next(), ln, constraints, opts, offsetFn,
		))
	}
''','''	var id = iter.NewIgen()
	var forest = newForest(id, lns, opts, constraints, offsetFn)
''',"simplify.go","func setSimpleCoords(",'''func newForest(id *iter.Igen, plns []*geometry.Polyline, opts *opts.Opts,
	constraints []geometry.IGeometry, offsetFn func(geom.Coords) (int, float64)) []*constdp.ConstDP {
	var forest = make([]*constdp.ConstDP, len(plns))
	for i, pln := range plns {
		forest[i] = constdp.NewConstDP(id.Next(), pln, constraints, opts, offsetFn)
	}
	return forest
}

func setSimpleCoords('''),
("simp-coords","simplify.go","FUNC func setSimpleCoords(",'''func setSimpleCoords(forest []*constdp.ConstDP) {
	for _, tree := range forest {
		tree.Polyline.Simple = simpleCoords(tree)
	}
}

func simpleCoords(tree *constdp.ConstDP) geom.Coords {
	var vals = tree.SimpleSet.Values()
	var coords = tree.Coordinates().Clone()
	coords.Idxs = make([]int, len(vals))
	for i, v := range vals {
		coords.Idxs[i] = v.(int)
	}
	return coords
}
'''),
("main-args","main.go",'''	if argBase64String == "-" && argJSONFile == "-" {
		log.Println("\\nHow to use:")
		flag.PrintDefaults()
		fmt.Println("Invalid arguments!")
		os.Exit(13)
	}

	if argBase64String != "-" && argJSONFile != "-" {
		log.Println("")
		log.Println("\\nHow to use:")
		flag.PrintDefaults()
		fmt.Println("Ambigous arguments! Expects only one flag: -b or -f")
		os.Exit(13)
	}
''','''	var hasString, hasFile = argBase64String != "-", argJSONFile != "-"
	if hasString == hasFile {
		log.Println("\\nHow to use:")
		flag.PrintDefaults()
		if hasFile {
			fmt.Println("Ambigous arguments! Expects only one flag: -b or -f")
		} else {
			fmt.Println("Invalid arguments!")
		}
		os.Exit(13)
	}
'''),
("main-readcons","main.go",'''	if fileutil.IsFile(argObj.Constraints) {
		constraints = geometry.ReadInputConstraints(argObj.Constraints)
	} else {
		if argObj.Constraints != "" {
			panic("constraint file not found")
		}
	}
''','''	switch {
	case fileutil.IsFile(argObj.Constraints):
		constraints = geometry.ReadInputConstraints(argObj.Constraints)
	case argObj.Constraints != "":
		panic("constraint file not found")
	}
'''),
("main-checks","main.go",'''	var polylines = make([]*geometry.Polyline, 0)
	argObj.Input = strings.TrimSpace(argObj.Input)
	if fileutil.IsFile(argObj.Input) {
		polylines = geometry.ReadInputPolylines(argObj.Input)
	} else {
		panic("input file not provided")
	}
''','''	argObj.Input = strings.TrimSpace(argObj.Input)
	if !fileutil.IsFile(argObj.Input) {
		panic("input file not provided")
	}
	var polylines = geometry.ReadInputPolylines(argObj.Input)
'''),
("main-simplify","main.go",'''	if argObj.IsFeatureClass {
		simplifyFeatureClass(polylines, &options, constraints, offsetFn)
	} else {
		simplifyInstances(polylines, &options, constraints, offsetFn)
	}
''','''	var simplify = simplifyInstances
	if argObj.IsFeatureClass {
		simplify = simplifyFeatureClass
	}
	simplify(polylines, &options, constraints, offsetFn)
'''),
("main-save","main.go",'''	var output = groupPlnsAsGeoJSONS(polylines)
	var err = fileutil.SaveText(argObj.Output, strings.Join(output, "\\n"))
	if err != nil {
		panic(err)
	}
''','''	if err := save(argObj.Output, polylines); err != nil {
		panic(err)
	}
''',"main.go","func main() {",'''func save(path string, plns []*geometry.Polyline) error {
	return fileutil.SaveText(path, strings.Join(groupPlnsAsGeoJSONS(plns), "\\n"))
}

func main() {'''),
("cfg-parse","cfg.go","FUNC func parseInput(",'''func parseInput(arg string) ArgObj {
	var config ArgObj
	var err = json.Unmarshal([]byte(decode64(arg)), &config)
	if err != nil {
		log.Println("invalid input:")
		log.Fatalln(err)
	}
	return config
}
'''),
("cfg-fields","cfg.go","FUNC func optsFromCfg(",'''func optsFromCfg(obj ArgObj) opts.Opts {
	var o opts.Opts
	o.Threshold, o.MinDist = obj.Threshold, obj.MinDist
	o.NonPlanarDisplacement = obj.NonPlanarDisplacement
	o.PlanarSelf, o.NonPlanarSelf = obj.PlanarSelf, obj.NonPlanarSelf
	o.AvoidNewSelfIntersects = obj.AvoidNewSelfIntersects
	o.GeomRelation, o.DistRelation, o.DirRelation = obj.GeomRelation, obj.DistRelation, obj.SideRelation
	return o
}
'''),
("geo-feats",G+"geojson.go","FUNC func parseInputLinearFeatures(",'''func parseInputLinearFeatures(inputs []string) []*Polyline {
	var plns = make([]*Polyline, 0, len(inputs))
	var idx = 0 //index of a feature in the whole input
	for _, fjson := range inputs {
		for _, feat := range parseFeatures(fjson) {
			plns = append(plns, createPolylineGeoms(idx, feat)...)
			idx++
		}
	}
	return plns
}

// parseFeatures lists the features of one line of input
func parseFeatures(fjson string) []*geojson.Feature {
	var jtype JSONType
	var err = json.Unmarshal([]byte(fjson), &jtype)
	checkError(err)

	if jtype.isGeometryType() {
		g, err := geojson.UnmarshalGeometry([]byte(fjson))
		checkError(err)
		return []*geojson.Feature{{Geometry: g, Type: string(g.Type)}}
	}
	if jtype.isFeatureType() {
		feat, err := geojson.UnmarshalFeature([]byte(fjson))
		checkError(err)
		return []*geojson.Feature{feat}
	}
	if jtype.isFeatureCollectionType() {
		feats, err := geojson.UnmarshalFeatureCollection([]byte(fjson))
		checkError(err)
		return feats.Features
	}
	return nil
}
'''),
("geo-bytes",G+"geojson.go",'''	for _, fjson := range inputs {
		var jtype JSONType
		var err = json.Unmarshal([]byte(fjson), &jtype)
		checkError(err)
		if jtype.isGeometryType() {
			g, err := geojson.UnmarshalGeometry([]byte(fjson))
			checkError(err)

			var feat = &geojson.Feature{Geometry: g, Type: string(g.Type)}
			idx += 1
			plns = append(plns, createPolylineGeoms(idx, feat)...)

		} else if jtype.isFeatureType() {
			feat, err := geojson.UnmarshalFeature([]byte(fjson))
			checkError(err)

			idx += 1
			plns = append(plns, createPolylineGeoms(idx, feat)...)

		} else if jtype.isFeatureCollectionType() {
			feats, err := geojson.UnmarshalFeatureCollection([]byte(fjson))
			checkError(err)

			for _, feat := range feats.Features {
				idx += 1
				plns = append(plns, createPolylineGeoms(idx, feat)...)
			}
		}
	}
''','''	var add = func(feat *geojson.Feature) {
		idx++
		plns = append(plns, createPolylineGeoms(idx, feat)...)
	}
	for _, fjson := range inputs {
		var data = []byte(fjson)
		var jtype JSONType
		checkError(json.Unmarshal(data, &jtype))
		switch {
		case jtype.isGeometryType():
			g, err := geojson.UnmarshalGeometry(data)
			checkError(err)
			add(&geojson.Feature{Geometry: g, Type: string(g.Type)})
		case jtype.isFeatureType():
			feat, err := geojson.UnmarshalFeature(data)
			checkError(err)
			add(feat)
		case jtype.isFeatureCollectionType():
			feats, err := geojson.UnmarshalFeatureCollection(data)
			checkError(err)
			for _, feat := range feats.Features {
				add(feat)
			}
		}
	}
'''),
("geo-createigeom",G+"geojson.go",'''	if feat.Geometry.IsPoint() || feat.Geometry.IsMultiPoint() {
		var objs = pointsFromFeature(idx, feat)
		for _, o := range objs {
			if len(o.Coordinates) < 2 { //not a point
				continue
			}
			geometries = append(geometries, createPoint(o))
		}
	} else if feat.Geometry.IsLineString() || feat.Geometry.IsMultiLineString() {
		var objs = lineStringFromFeature(idx, feat)
		for _, o := range objs {
			if len(o.Coordinates) < 2 { //not a line
				continue
			}
			geometries = append(geometries, createPolyline(o))
		}
	} else if feat.Geometry.IsPolygon() || feat.Geometry.IsMultiPolygon() {
''','''	if feat.Geometry.IsPoint() || feat.Geometry.IsMultiPoint() {
		for _, o := range pointsFromFeature(idx, feat) {
			if len(o.Coordinates) >= 2 {
				geometries = append(geometries, createPoint(o))
			}
		}
	} else if feat.Geometry.IsLineString() || feat.Geometry.IsMultiLineString() {
		for _, pln := range createPolylineGeoms(idx, feat) {
			geometries = append(geometries, pln)
		}
	} else if feat.Geometry.IsPolygon() || feat.Geometry.IsMultiPolygon() {
'''),
("geo-lines",G+"geojson.go",'''	if feat.Geometry == nil { //unlocated feature
		return geometries
	}
	if feat.Geometry.IsLineString() || feat.Geometry.IsMultiLineString() {
		var objs = lineStringFromFeature(idx, feat)
		for _, o := range objs {
			if len(o.Coordinates) < 2 { //not a line
				continue
			}
			geometries = append(geometries, createPolyline(o))
		}
	}
	return geometries
''','''	var g = feat.Geometry
	if g == nil || !(g.IsLineString() || g.IsMultiLineString()) { //unlocated feature, or not linear
		return geometries
	}
	for _, o := range lineStringFromFeature(idx, feat) {
		if len(o.Coordinates) > 1 {
			geometries = append(geometries, createPolyline(o))
		}
	}
	return geometries
'''),
("geo-readjson",G+"geojson.go",'''	var tokens = make([]string, 0)
	var toks = strings.Split(strings.TrimSpace(data), "\\n")
	for _, tok := range toks {
		var v = strings.TrimSpace(tok)
		if v != "" {
			tokens = append(tokens, v)
		}
	}
	return tokens
''','''	var tokens []string
	for _, tok := range strings.Split(strings.TrimSpace(data), "\\n") {
		if tok = strings.TrimSpace(tok); len(tok) > 0 {
			tokens = append(tokens, tok)
		}
	}
	return tokens
'''),
("geo-poly",G+"geojson.go",'''	var coords = make([]geom.Coords, 0, len(jsonLine.Coordinates))
	for _, array := range jsonLine.Coordinates {
		coords = append(coords, geom.AsCoordinates(array))
	}
	return CreatePolygon(jsonLine.Id, coords, jsonLine.Meta)
''','''	var n = len(jsonLine.Coordinates)
	var rings = make([]geom.Coords, n)
	for i := 0; i < n; i++ {
		rings[i] = geom.AsCoordinates(jsonLine.Coordinates[i])
	}
	return CreatePolygon(jsonLine.Id, rings, jsonLine.Meta)
'''),
("pln-create",G+"pln.go","FUNC func CreatePolyline(",'''func CreatePolyline(id string, coordinates geom.Coords, meta string) *Polyline {
	var pln = &Polyline{Id: id, Meta: meta}
	if coordinates.Len() >= 2 {
		pln.LineString = geom.NewLineString(coordinates)
	}
	return pln
}
'''),
("pln-segbounds",G+"pln.go",'''	var I, J int
	var n = pln.Len() - 1
	var a, b *geom.Point
	var items = make([]mono.MBR, 0, n)
	for i := 0; i < n; i++ {
		a, b = pln.Coordinates.Pt(i), pln.Coordinates.Pt(i+1)
		I, J = pln.Coordinates.Idxs[i], pln.Coordinates.Idxs[i+1]
		items = append(items, mono.MBR{
			MBR: mbr.CreateMBR(a[geom.X], a[geom.Y], b[geom.X], b[geom.Y]),
			I:   I, J: J,
		})
	}
	return items
''','''	var coords = pln.Coordinates
	var items = make([]mono.MBR, pln.Len()-1)
	for i := range items {
		var a, b = coords.Pt(i), coords.Pt(i + 1)
		items[i].MBR = mbr.CreateMBR(a[geom.X], a[geom.Y], b[geom.X], b[geom.Y])
		items[i].I, items[i].J = coords.Idxs[i], coords.Idxs[i+1]
	}
	return items
'''),
("pln-sub",G+"pln.go",'''	coords.Idxs = make([]int, 0, rng.J-rng.I+1)
	for i := rng.I; i <= rng.J; i++ {
		coords.Idxs = append(coords.Idxs, i)
	}
	return coords
''','''	var n = rng.J - rng.I + 1
	coords.Idxs = make([]int, n)
	for i := 0; i < n; i++ {
		coords.Idxs[i] = rng.I + i
	}
	return coords
'''),
]
