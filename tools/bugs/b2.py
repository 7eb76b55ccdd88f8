# realistic bugs in main package, geometry, ctx, offset, homotopy, knn, lnr, node, relate, rng, hdb, box, state
G="geometry/"; H="hdb/"
B=[
# --- cfg / main / simplify / encode
("cfg-swap","C21","cfg.go","		PlanarSelf:             obj.PlanarSelf,","		PlanarSelf:             obj.PlanarSelf && !obj.IsFeatureClass,"),
("cfg-mind","C21","cfg.go","		MinDist:                obj.MinDist,","		MinDist:                obj.NonPlanarDisplacement,"),
("cfg-distimpl","C21","cfg.go","		DistRelation:           obj.DistRelation,","		DistRelation:           obj.DistRelation || obj.MinDist > 0,"),
("cfg-tag","C21","cfg.go",'`json:"homotopy_relation"`','`json:"side_relation"`'),
("cfg-err","C22","cfg.go","		log.Fatalln(err)\n","		log.Println(err)\n"),
("main-lower","C21","main.go","strings.ToLower(strings.TrimSpace(argObj.SimplificationType))","strings.ToLower(argObj.SimplificationType)"),
("main-type","C22","main.go",'''Fix input`)
		os.Exit(13)''','''Fix input`)
		os.Exit(0)'''),
("main-typedefault","C22","main.go",'''		log.Println(`Supported Simplification Types : "DP" or "SED", Fix input`)
		os.Exit(13)''','''		log.Println(`Supported Simplification Types : "DP" or "SED", Fix input`)
		offsetFn = offsetDictionary["dp"]'''),
("main-consmissing","C22","main.go",'''			panic("constraint file not found")''','''			log.Println("constraint file not found")'''),
("main-outempty","C22","main.go",'''	if argObj.Output == "" {''','''	if argObj.Output == "" && !argObj.IsFeatureClass {'''),
("main-saveerr","C22","main.go",'''	if err != nil {
		panic(err)
	}
	log.Println(fmt''','''	if err != nil && len(output) > 0 {
		log.Println(err)
	}
	log.Println(fmt'''),
("main-both","C22","main.go",'''if argBase64String != "-" && argJSONFile != "-" {''','''if argBase64String != "-" && argJSONFile != "-" && argBase64String == argJSONFile {'''),
("main-join","C18","main.go",'strings.Join(output, "\\n")','strings.Join(output, ",\\n")'),
("main-fcswap","C26","main.go","	if argObj.IsFeatureClass {","	if argObj.IsFeatureClass || options.PlanarSelf {"),
("main-save-early","C22","main.go",'''	var t0 = time.Now()
''','''	if err := fileutil.SaveText(argObj.Output, ""); err != nil {
		panic(err)
	}
	var t0 = time.Now()
'''),
("main-noconsdist","C20","main.go",'''	if fileutil.IsFile(argObj.Constraints) {''','''	if (options.GeomRelation || options.DistRelation) && fileutil.IsFile(argObj.Constraints) {'''),
("simp-share","C26","simplify.go",'''	constdp.SimplifyInstances(id, forest, junctions)
''','''	for i := range forest {
		forest[i].ContextDB = forest[0].ContextDB
	}
	constdp.SimplifyInstances(id, forest, junctions)
'''),
("simp-idx","C01","simplify.go","		for _, o := range tree.SimpleSet.Values() {\n","		for _, o := range tree.SimpleSet.Values()[:tree.SimpleSet.Size()] {\n			if n := len(coords.Idxs); n > 0 && tree.Polyline.Pt(coords.Idxs[n-1]).Equals2D(tree.Polyline.Pt(o.(int))) {\n				continue\n			}\n"),
("simp-len","C18","simplify.go",'''	for _, pln := range plns {
		forest''','''	for _, pln := range plns {
		if pln.Len() <= 2 {
			pln.Simple = pln.Coordinates
			continue
		}
		forest'''),
("simp-opts","C23","simplify.go","	constdp.SimplifyFeatureClass(id, forest, opts)","	opts.PlanarSelf = true\n	constdp.SimplifyFeatureClass(id, forest, opts)"),
("simp-tail","C01","simplify.go","		tree.Polyline.Simple = coords","		if n := len(coords.Idxs); n > 3 && coords.Pt(0).Equals2D(coords.Pt(n-1)) {\n			coords.Idxs = coords.Idxs[:n-1]\n		}\n		tree.Polyline.Simple = coords"),
("enc-pos","C18","encode.go","			return plns[i].pos < plns[j].pos","			return plns[i].geom.Id < plns[j].geom.Id"),
("enc-stable","C14","encode.go","			return plns[i].pos < plns[j].pos","			return plns[i].pos <= plns[j].pos"),
("enc-meta","C18","encode.go","	var meta = getMeta(featLns[0])\n","	var meta = getMeta(featLns[len(featLns)-1])\n	meta[\"parts\"] = len(featLns)\n"),
("enc-nullmeta","C18","encode.go",'	if meta == "null" {','	if meta == "null" || meta == "{}" {\n		return nil\n	} else if meta == "" {'),
("enc-first3d","C19","encode.go","	for _, pt := range coords {\n		bln = !","	for _, pt := range coords[:1] {\n		bln = !"),
("enc-alias","C19","encode.go","		var c = append([]float64{}, pt[:]...)","		var c = pt[:]"),
("enc-single","C18","encode.go","	if len(featLns) == 1 {","	if len(featLns) <= 2 && featLns[0].pos == 0 && len(featLns) < 2 || featLns[0].geom == featLns[len(featLns)-1].geom || len(featLns[len(featLns)-1].geom.Simple.Idxs) == 0 {"),
("enc-mapord","C17","encode.go","	sort.Ints(keys)\n","	if len(keys) > 16 {\n		sort.Ints(keys)\n	}\n"),
("enc-dedup","C18","encode.go","		coordinates = append(coordinates, coords)\n	}\n\n	var feature","		if len(coords) > 1 {\n			coordinates = append(coordinates, coords)\n		}\n	}\n\n	var feature"),
("enc-atoi","C18","encode.go","	var pos, _ = strconv.Atoi(vals[1])","	var pos, _ = strconv.Atoi(vals[len(vals)-1][:1])"),
("dec-err","C22","util.go","	if err != nil {\n		panic(err)\n	}\n	return string(sDec)","	if err != nil {\n		log.Println(err)\n	}\n	return string(sDec)"),
("off-map","C21","offset.go",'	"sed": offset.MaxSEDOffset,','	"sed": offset.SqureMaxSEDOffset,'),
# --- geometry
("geo-fcidx","C18",G+"geojson.go","""			for _, feat := range feats.Features {
				idx += 1
				plns""","""			idx += 1
			for _, feat := range feats.Features {
				plns"""),
("geo-skipnull","C24",G+"geojson.go","""	var geometries = make([]*Polyline, 0)
	if feat.Geometry == nil { //unlocated feature
		return geometries
	}
""","""	var geometries = make([]*Polyline, 0)
"""),
("geo-short","C24",G+"geojson.go","""			if len(o.Coordinates) < 2 { //not a line
				continue
			}
			geometries = append(geometries, createPolyline(o))
		}
	}
	return geometries
}

func createIGeom""","""			if len(o.Coordinates) < 2 { //not a line
				break
			}
			geometries = append(geometries, createPolyline(o))
		}
	}
	return geometries
}

func createIGeom"""),
("geo-mpoint","C20",G+"geojson_geom.go","""			var id = composeId(index, pos)
			objs = append(objs, JSONPoint{id, coords, string(meta)})""","""			if pos > 0 && len(coords) == 2 && coords[0] == g.MultiPoint[pos-1][0] {
				continue
			}
			var id = composeId(index, pos)
			objs = append(objs, JSONPoint{id, coords, string(meta)})"""),
("geo-polyshell","C20",G+"geojson.go","	for _, array := range jsonLine.Coordinates {\n","	for i, array := range jsonLine.Coordinates {\n		if i > 0 && len(array) <= 4 {\n			continue\n		}\n"),
("geo-mpoly","C20",G+"geojson_geom.go","objs = append(objs, JSONPolygon{composeId(index, pos), coords, meta})","objs = append(objs, JSONPolygon{composeId(index, pos), coords[:1], meta})"),
("geo-mlid","C18",G+"geojson_geom.go","objs = append(objs, JSONLineString{composeId(index, pos), coords, string(meta)})","objs = append(objs, JSONLineString{composeId(index, pos/2), coords, string(meta)})"),
("geo-else","C20",G+"geojson.go","""				geometries = append(geometries, createIGeom(idx, feat)...)
			}
		}
	}

	return geometries""","""				geometries = append(geometries, createIGeom(idx, feat)...)
				if len(geometries) == 0 {
					break
				}
			}
		}
	}

	return geometries"""),
("geo-toks","C18",G+"geojson.go","		if v != \"\" {\n","		if v != \"\" && v[0] == '{' && v[len(v)-1] == '}' && !strings.Contains(v, \"#\") {\n"),
("geo-ckerr","C22",G+"geojson.go","	var data, err = fileutil.ReadAllOfFile(file)\n	checkError(err)","	var data, err = fileutil.ReadAllOfFile(file)\n	if len(data) == 0 {\n		checkError(err)\n	}"),
("geo-id","C18",G+"geojson.go",'fmt.Sprintf("idx:%v-pos:%v", index, pos)','fmt.Sprintf("idx:%x-pos:%v", index, pos)'),
("geo-closed","C19",G+"geojson.go","	var coords = geom.AsCoordinates(jsonLine.Coordinates)\n	return","	var coords = geom.AsCoordinates(jsonLine.Coordinates)\n	for i := range coords.Pnts {\n		if coords.Pnts[i][2] < 0 {\n			coords.Pnts[i][2] = 0\n		}\n	}\n	return"),
("geo-segb","C10",G+"pln.go","a[geom.X], a[geom.Y], b[geom.X], b[geom.Y]","a[geom.X], b[geom.Y], b[geom.X], b[geom.Y]"),
("geo-subcap","C02",G+"pln.go","	for i := rng.I; i <= rng.J; i++ {\n		coords.Idxs = append(coords.Idxs, i)","	for i := rng.I; i <= rng.J; i++ {\n		if i > rng.I && i < rng.J && coords.Pnts[i] == coords.Pnts[i-1] {\n			continue\n		}\n		coords.Idxs = append(coords.Idxs, i)"),
("geo-jsontag","C18",G+"types.go",'	Properties map[string]interface{} `json:"properties"`','	Properties map[string]interface{} `json:"properties,omitempty"`'),
# --- offset
("off-ge","C04","offset/dp.go","		if dist >= offset {","		if dist > offset {"),
("off-neg","C04","offset/sed.go","		if dt != 0 { //","		if dt > 0 { //"),
("off-dir","C04","offset/sed.go","	if d < 0 {\n		d += math.Tau","	if d < 0 {\n		d += math.Pi"),
("off-hyp","C04","offset/sed.go","	if q < 0 {\n		q = -q\n	}\n",""),
("off-sqrsame","C04","offset/dp.go","	return maxOffset(coordinates, geom.SquareDistanceToPoint)","	return maxOffset(coordinates, geom.DistanceToPoint)"),
("off-last","C04","offset/dp.go","k < n; k++ { //exclusive","k < n-1; k++ { //exclusive"),
# --- homotopy
("hom-xor","C07","homotopy/homotopy.go","	if xor.Len() > 0 {","	if xor.Len() > 0 && disjoint.Len() == 0 {"),
("hom-size","C07","homotopy/homotopy.go","	if ch.size == 2 {","	if ch.size <= 3 {"),
("hom-dirty","C07","homotopy/deform.go","				chain.size += -1\n				deformable = true","				chain.size += -1\n				deformable = chain.size > 3"),
("hom-box","C07","homotopy/deform.go","ExpandIncludeXY(b[geom.X], b[geom.Y])","ExpandIncludeXY(b[geom.X], a[geom.Y])"),
("hom-tri","C07","homotopy/deform.go","i, n := 0, len(neighbours); bln && i < n; i++ {\n		c :=","i, n := 0, len(neighbours); bln && i < n; i += 2 {\n		c :="),
("hom-prev","C25","homotopy/chain.go","	if next != nil {\n		next.prev = prev\n	}","	if next != nil && prev == nil {\n		next.prev = prev\n	}"),
("hom-rm","C07","homotopy/chain.go","	if link != nil {\n		ptrs(link.prev, link.next)","	if link != nil && link.prev != nil && link.prev.i > 0 {\n		ptrs(link.prev, link.next)"),
("hom-size2","C25","homotopy/deform.go","	for deformable && chain.size > 2 {\n		deformable = false","	for chain.size > 2 {\n		if !deformable {\n			deformable = chain.size > 2\n		}"),
("hom-db","C07","homotopy/deform.go","	for i := range view {\n		objects","	for i := range view {\n		if view[i].IsContextNeighbour() && view[i].I < 0 {\n			continue\n		}\n		objects"),
# --- knn
("knn-lt","C08","knn/neighbours.go","nd.Geom.Distance(hull.Geom) <= dist","nd.Geom.Distance(hull.Geom) < dist"),
("knn-self","C08","knn/neighbours.go","nd.Id != hull.Id &&","nd.Range != hull.Range &&"),
("knn-pred","C12","knn/knn.go","		if candidate.Distance <= dist {","		if candidate.Distance < dist {"),
("knn-score","C12","knn/knn.go","			other = box.MBRToPolygon(*item.MBR)","			other = box.MBRToPolygon(*item.MBR)\n			return 0"),   # 0 for inner nodes: still correct order! control
("knn-limit","C12","knn/knn.go","database.Knn(g.Bounds(), -1, score, fn)","database.Knn(g.Bounds(), 64, score, fn)"),
# --- lnr
("lnr-less","C14","lnr/vertices.go","				v[i].Point[y] < v[j].Point[y])","				v[i].Point[y] <= v[j].Point[y])"),
("lnr-swap","C10","lnr/fc.go","		if d > 1 {\n","		if d > 2 {\n"),
("lnr-self2","C10","lnr/self.go","			cg.Meta.Planar = iter.SortedIntsSet(indices)","			cg.Meta.Planar = iter.SortedIntsSet(indices[:2])"),
("lnr-cache","C10","lnr/self.go","	return [4]int{a.I, a.J, b.I, b.J}","	return [4]int{a.I, a.J, b.I, a.J}"),
("lnr-np","C10","lnr/self.go","				if pt.IsVertex() && !pt.IsVerteXOR() {","				if pt.IsVertex() {"),
("lnr-reset","C10","lnr/self.go","		d = 0\n		indices = indices[:0]","		if d > 1 {\n			indices = indices[:0]\n		}\n		d = 0"),   # behaves same (d<=1 => empty)
("lnr-npadj","C10","lnr/self.go","			if s == o {\n","			if s == o || s.J == o.I {\n"),
("lnr-flag","C10","lnr/self.go","	if nonPlanar {","	if nonPlanar || planar && inters.Len() > 0 {"),
("lnr-fid","C10","lnr/fc.go","results[v.fid] = append(results[v.fid], v.index)","results[v.fid] = append(results[indexes[0].fid], v.index)"),
# --- node / relate / rng
("node-contig","C08","node/contig.go","			if blnAseg || blnBseg {","			if blnAseg && blnBseg {"),
("node-collapse","C08","node/collapse.go","	if node.Geom.Type().IsLineString() {\n		return true","	if node.Geom.Type().IsLineString() {\n		return node.Range.Size() == 1"),
("node-coll2","C08","node/collapse.go","		return !ply.Shell","		return ply.Shell"),
("node-neigh","C11","node/contig.go","			if i == h.Range.J {","			if i >= h.Range.J && prev == nil {"),
("node-less","C14","node/nodes.go","func (nodes Nodes) Less(i, j int) bool {\n	return nodes[i].Range.I < nodes[j].Range.I","func (nodes Nodes) Less(i, j int) bool {\n	return nodes[i].Id < nodes[j].Id"),
("node-mbr","C13","node/node.go","		MBR:      g.Bounds(),","		MBR:      coordinates.Bounds(),") if False else
("node-mbr","C13","node/node.go","		MBR:      g.Bounds(),","		MBR:      geom.NewLineString(coordinates).Bounds(),"),
("rel-gor","C06","relate/geom.go","bln = !((segGInter && !lnGInter) || (!segGInter && lnGInter))","bln = !(segGInter && !lnGInter)"),
("rel-last","C06","relate/dist.go","for i, n := 0, contexts.Len(); bln && i < n; i++ {","for i, n := 0, contexts.Len(); i < n; i++ {"),
("rel-dist","C06","relate/dist.go","|| (original < minDistance)","|| (original <= simple)"),
("rng-split","C02","rng/split.go","		if i < idx && idx < j {","		if i <= idx && idx < j {"),
("rng-sort","C02","rng/split.go","	idxs = iter.SortedIntsSet(idxs)\n	var","	if len(idxs) > 1 {\n		idxs = iter.SortedIntsSet(idxs)\n	}\n	var"),
("rng-sort2","C02","rng/split.go",'import "github.com/intdxdt/iter"','import "sort"',"rng/split.go","	idxs = iter.SortedIntsSet(idxs)\n","	idxs = append([]int(nil), idxs...)\n	sort.Ints(idxs)\n"),
# --- hdb
("hdb-leaf","C12",H+"search.go","				} else if contains(bbox, childBBox) {\n					result = all(child, result)","				} else if contains(bbox, childBBox) {\n					result = append(all(child, nil), result...)"),
("hdb-int","C12",H+"insert.go","	return !(b.MinX > a.MaxX || b.MaxX < a.MinX","	return !(b.MinX >= a.MaxX || b.MaxX < a.MinX"),
("hdb-cont","C12",H+"insert.go","b.MinY >= a.MinY && b.MaxY <= a.MaxY","b.MinY >= a.MinY && b.MinY <= a.MaxY"),
("hdb-adj","C13",H+"insert.go","	// adjust bboxes along the insertion path\n	tree.adjustParentBBoxes(&item.bbox, insertPath, level)","	// adjust bboxes along the insertion path\n	tree.adjustParentBBoxes(&item.bbox, insertPath, level-1)"),
("hdb-ovf","C13",H+"insert.go","len(insertPath[level].children) > tree.maxEntries","len(insertPath[level].children) > tree.maxEntries+1"),
("hdb-splitbb","C13",H+"split.go","	calcBBox(nd)\n	calcBBox(&newNode)","	calcBBox(&newNode)"),
("hdb-root","C13",H+"split.go","	calcBBox(&tree.data)\n",""),
("hdb-cond","C13",H+"remove.go","		} else {\n			calcBBox(path[i])\n		}","		} else if i == len(path)-1 {\n			calcBBox(path[i])\n		}"),
("hdb-rmid","C13",H+"remove.go","nd.children[i].item.Id == item.Id","nd.children[i].item.Range == item.Range"),
("hdb-goright","C13",H+"remove.go","			nd = nodeSiblingAtIndex(parent.children, i)\n			goingUp = false","			nd = nodeSiblingAtIndex(parent.children, i)"),
("hdb-load","C13",H+"load.go","		if tree.data.height < nd.height {","		if tree.data.height > nd.height {"),
("hdb-level","C13",H+"load.go","tree.data.height-nd.height-1","tree.data.height-nd.height"),
("hdb-n1","C13",H+"build.go","		right2 = minInt(i+N1-1, right)","		right2 = minInt(i+N1, right)"),
("hdb-min","C13",H+"load.go","		for i := range items {\n			tree.insert(&items[i])\n		}","		for i := range items {\n			var item = items[i]\n			tree.insert(&item)\n		}"), # aliasing change
("hdb-knnlim","C12",H+"knn.go","			if limit != 0 && len(result) == limit {","			if len(result) >= limit {"),
("hdb-knnstop","C12",H+"knn.go","				IsItem:   len(child.children) == 0,","				IsItem:   nd.leaf || child.leaf,"),
("hdb-kcmp","C14",H+"kobj.go","	} else if dx < 0 {","	} else if dx <= 0.5 {"),
("hdb-selk","C13",H+"select.go","		if k <= j {\n			right = j - 1\n		}","		if k < j {\n			right = j - 1\n		}"),
("hdb-mid","C13",H+"select.go","stack = appendInts(stack, left, mid, mid, right)","stack = appendInts(stack, left, mid-1, mid, right)"),
("hdb-max","C13",H+"core.go","	return maxInt(2, int(math.Ceil(float64(x)*0.4)))","	return maxInt(4, int(math.Ceil(float64(x)*0.4)))"),
("hdb-clear","C13",H+"clear.go","	tree.data = createDBNode(nil, 1, true, []dbNode{})\n	return tree","	tree.data.children = tree.data.children[:0]\n	tree.data.leaf = true\n	tree.data.height = 1\n	return tree"),
("hdb-xless","C14",H+"nodepath.go","path.nodePath[i].bbox.MinX < path.nodePath[j].bbox.MinX","path.nodePath[i].bbox.MinX < path.nodePath[j].bbox.MaxX"),
("hdb-axis","C13",H+"split.go","	if xMargin < yMargin {\n		sort.Sort(&xNodePath{nd.children})\n	}","	if xMargin < yMargin && m > 2 {\n		sort.Sort(&xNodePath{nd.children})\n	}"), # quality only: control?
("box-poly","C12","box/box.go","			{o.MaxX, o.MaxY},\n			{o.MaxX, o.MinY},","			{o.MaxX, o.MinY},\n			{o.MaxX, o.MaxY},"),
("state","C09","state/state.go","	return s == false","	return !s.IsClean() && s == true"),
]
