# realistic bugs in constdp, constrain, decompose, deform, dp, common, split, merge
C="constdp/"
B=[
# --- constdp
("ck-nosort","C11",C+"common.go","	sort.Ints(o[:])\n	return o","	sort.Ints(o[:4])\n	return o"),
("ck-noinst","C11",C+"common.go","a.Instance.Id(), b.Instance.Id(),","a.Instance.Id(), a.Instance.Id(),"),
("ctor-score","C03",C+"constructor.go","dp.New(id, pln, options, offsetScore, sqrScore)","dp.New(id, pln, options, offsetScore, offsetScore)"),
("ctxdb-cap","C06",C+"constructor.go","	cdp.ContextDB.Clear().Load(lst)","	if len(lst) > 1 {\n		cdp.ContextDB.Clear().Load(lst)\n	}"),
("ctxdb-skip","C20",C+"constructor.go","	for i := range geoms {","	for i := range geoms {\n		if geoms[i].Bounds().Area() == 0 && i > 0 && geoms[i].Bounds() == geoms[i-1].Bounds() {\n			continue\n		}"),
("dec-sqrrel","C03",C+"decompose.go","		score = self.SquareScore\n		relation = self.SquareScoreRelation\n	}\n	var decomp","		score = self.SquareScore\n	}\n	var decomp"),
("refine-size","C03",C+"decompose.go","if hull.Range.Size() > 1 {","if hull.Range.Size() > 2 {"),
("refine-once","C03",C+"decompose.go","results = append(results, self.refine(id, ha, hb)...)","results = append(results, ha, hb)"),
("refine-drop","C02",C+"decompose.go","results = append(results, self.refine(id, ha, hb)...)\n				continue","results = append(results, self.refine(id, ha)...)\n				results = append(results, hb)\n				continue"),
("grp-firstonly","C26",C+"fc_group.go","	var selfs = []*ConstDP{}\n","	var selfs = make([]*ConstDP, 0, 4)\n",C+"fc_group.go","		selfs = append(selfs, self)","		if len(lst) > 1 {\n			selfs = append(selfs, self)\n		}"),
("grp-noempty","C01",C+"fc_group.go","		self.SimpleSet.Empty() //update new simple\n",""),
("grp-noclear","C01",C+"fc_group.go","		node.Clear(&self.Hulls)\n",""),
("fc-junc-nonplanar","C10",C+"fc_simplify.go","	if opts.PlanarSelf {\n","	if opts.PlanarSelf && !opts.NonPlanarSelf {\n"),
("fc-constr-dir","C05",C+"fc_simplify.go","		opts.DirRelation ||\n",""),
("fc-noload","C09",C+"fc_simplify.go","				hulldb.Load(deformables)\n				// 4.","				if len(deformables) > len(selections) {\n					hulldb.Load(deformables)\n				}\n				// 4."),
("fc-order","C09",C+"fc_simplify.go","				// 2. remove selected nodes from db\n				cleanUpDB(hulldb, selections)\n				// 3. add new deformations to db\n				hulldb.Load(deformables)","				hulldb.Load(deformables)\n				cleanUpDB(hulldb, selections)"),
("fc-round","C09",C+"fc_simplify.go","				deformables = deformables[:0]","				deformables = nil\n				break"),  # same behaviour: control
("inst-wg","C16",C+"fc_simplify.go","	wg.Add(ConcurProcs)\n","	wg.Add(1)\n"),
("inst-junc","C10",C+"fc_simplify.go","self.Simplify(id, junctions[self.Id()])","self.Simplify(id, junctions[idx])"),
("inst-first","C16",C+"fc_simplify.go","		for s := range selfs {\n			stream <- selfs[s]","		for s := range selfs[1:] {\n			stream <- selfs[s]"),
("find-break","C09",C+"simple_0.go","				if o.Range.Size() > 1 { // a segment cannot be deformed\n					out <- o\n				}","				if o.Range.Size() > 1 { // a segment cannot be deformed\n					out <- o\n					break\n				}"),
("find-noreset","C17",C+"simple_0.go","			selections = selections[:0]\n","			if len(selections) > 1 {\n				selections = selections[:0]\n			}\n"),
("find-short","C05",C+"simple_0.go","if bln && hull.Range.Size() > 1 {\n				bln = self","if bln && len(selections) == 0 && hull.Range.Size() > 1 {\n				bln = self"),
("find-shared-sel","C15",C+"simple_0.go","		var selections []*node.Node\n		for i := range in {","		for i := range in {",C+"simple_0.go","	var fn = func(in []*node.Node) {","	var selections []*node.Node\n	var fn = func(in []*node.Node) {"),
("chunk-tail","C16",C+"simple_0.go","	for idx < n {\n		var stop = idx + chunkSize\n		//if stop > n || (stop < n && stop+chunkSize > n) {\n		if stop > n {\n			stop = n\n		}\n		var task []*node.Node","	for idx+chunkSize <= n {\n		var stop = idx + chunkSize\n		//if stop > n || (stop < n && stop+chunkSize > n) {\n		if stop > n {\n			stop = n\n		}\n		var task []*node.Node"),
("deform-score","C03",C+"simple_1.go","		if self.SquareScore != nil {\n			scoreFn = self.SquareScore\n		}\n",""),  # same index normally
("deform-dirty","C08",C+"simple_1.go","			hull.Instance.State().MarkDirty() //after split mark instance as dirty\n",""),
("deform-drop","C02",C+"simple_1.go","		} else {\n			results = append(results, *hull)\n		}\n	}\n	return results\n}\n\nfunc deformNodes_","		}\n	}\n	return results\n}\n\nfunc deformNodes_"),
("clean-simple","C09",C+"simple_2.go","	for o := range selections {\n","	for o := range selections {\n		if o.Range.Size() <= 2 && len(selections) > 1 {\n			continue\n		}\n"),
("simp-set","C01",C+"simplify.go","	self.SimpleSet.Empty()\n\n	var hull *node.Node","	var hull *node.Node"),
("simp-norefine","C03",C+"simplify.go","	self.Hulls = self.refine(id, self.Hulls...)\n",""),
("simp-aggset","C11",C+"simplify.go","		id, db, constVertexSet, self.ValidateMerge,","		id, db, constVerts, self.ValidateMerge,"),
("simp-clean","C08",C+"simplify.go","	self.State().MarkClean()\n",""),
("simp-extend","C01",C+"simplify.go","self.SimpleSet.Extend(hull.Range.I, hull.Range.J)","self.SimpleSet.Extend(hull.Range.I)"),
("val-side","C05",C+"validate.go","	if len(sideEffects) != 0 || !bln {\n		return false\n	}","	if !bln {\n		return false\n	}"),
("val-side2","C05",C+"validate.go","	return bln && (len(sideEffects) == 0)\n","	return bln || (len(sideEffects) == 0)\n"),
("val-distdir","C05",C+"validate.go","	if bln && self.Opts.DirRelation {","	if bln && self.Opts.DistRelation && self.Opts.DirRelation {"),
("val-ctxempty","C05",C+"validate.go","	if bln && self.Opts.GeomRelation {","	if bln && self.Opts.GeomRelation && len(neighbours) > 1 {"),
("val-mindist","C06",C+"validate.go","knn.ContextNeighbours(self.ContextDB, hull.Geom, self.Opts.MinDist)","knn.ContextNeighbours(self.ContextDB, hull.Segment(), self.Opts.MinDist)"),
("val-nosel","C09",C+"validate.go","	if !bln {\n		*selections","	if !bln && len(*selections) == 0 {\n		*selections"),
("agg-either","C11",C+"node_aggregates.go","		if iter.SortedSearchInts(constVertexSet, hull.Range.I) &&\n			iter.SortedSearchInts(constVertexSet, hull.Range.J) {","		if iter.SortedSearchInts(constVertexSet, hull.Range.I) ||\n			iter.SortedSearchInts(constVertexSet, hull.Range.J) {"),
("agg-swap","C10",C+"node_aggregates.go","!iter.SortedSearchInts(constVertexSet, hull.Range.J),\n			!iter.SortedSearchInts(constVertexSet, hull.Range.I)","!iter.SortedSearchInts(constVertexSet, hull.Range.I),\n			!iter.SortedSearchInts(constVertexSet, hull.Range.J)"),
("agg-nosort","C17",C+"node_aggregates.go","	sort.Sort(node.NodePtrs(objects))\n","	_ = sort.Sort\n"),
("agg-noremovenext","C02",C+"node_aggregates.go","			db.Remove(nxt)\n			if","			if"),
("agg-next-skip","C11",C+"node_aggregates.go","				if objects[0] == nxt {\n					objects = objects[1:]\n				}\n","				if len(objects) > 0 {\n					objects = objects[1:]\n				}\n"),
("agg-next-noskip","C11",C+"node_aggregates.go","				if objects[0] == nxt {\n					objects = objects[1:]\n				}\n",""),
("agg-lostprev","C02",C+"node_aggregates.go","				insertList = append(insertList, *prev)\n","				insertList = append(insertList, *hull)\n"),
("agg-losthull","C02",C+"node_aggregates.go","		if !merged {\n			insertList = append(insertList, *hull)","		if !merged && len(insertList) == 0 {\n			insertList = append(insertList, *hull)"),
("agg-order-validate","C11",C+"node_aggregates.go","			db.Remove(prev)\n			//prev cannot exist since moving from left --- right\n			if validateMerge(&mergePrev, db) {","			var okMerge = validateMerge(&mergePrev, db)\n			db.Remove(prev)\n			if okMerge {"),
# --- constrain
("cls-self","C08","constrain/bycls.go","		*selections = append(*selections, h)\n","		if h != hull {\n			*selections = append(*selections, h)\n		}\n"),
("byself-drop","C05","constrain/byself.go","		*selections = append(*selections, h)\n","		if h == hull {\n			*selections = append(*selections, h)\n		}\n"),
("splitself-first","C10","constrain/split.go","			db.Remove(hull).Load(tokens)\n","			db.Remove(hull).Load(tokens)\n			break\n"),
("splitself-return","C10","constrain/split.go","		if len(idxs) == 0 {\n			continue\n		}","		if len(idxs) == 0 {\n			break\n		}"),
("splitself-swap","C10","constrain/split.go","		} else if inter.IsNonPlanarVertex() {\n			idxs = inter.Meta.NonPlanar","		} else if inter.IsNonPlanarVertex() {\n			idxs = inter.Meta.Planar"),
("toself-and","C10","constrain/toself.go","if !(options.PlanarSelf || options.NonPlanarSelf) {","if !(options.PlanarSelf || options.NonPlanarSelf) || len(nodes) < 2 {"),
("toself-onlynon","C10","constrain/toself.go","		if atVertexSet[i] { //exclude already self intersects\n			continue\n		}\n		atVertexSet[i] = true","		if atVertexSet[i] { //exclude already self intersects\n			break\n		}\n		atVertexSet[i] = true"),
("toself-nosort","C02","constrain/toself.go","	sort.Sort(node.Nodes(nodes))\n",""),
("toself-const","C10","constrain/toself.go","		cg.Meta.Planar = append(cg.Meta.Planar, i)\n		selfInters.Push(cg)","		cg.Meta.Planar = append(cg.Meta.Planar, i)\n		if i > 0 {\n			selfInters.Push(cg)\n		}"),
("toself-idxsort","C10","constrain/toself.go","	sort.Ints(indices)\n",""),
# --- decompose
("dp-off","C02","decompose/decompose.go","	k = r.I + k //offset","	k = k + stack0 //offset","decompose/decompose.go","	stack = append(stack, r)\n	for","	stack = append(stack, r)\n	var stack0 = r.I\n	for"),
("dp-order","C02","decompose/decompose.go","			stack = append(stack, rng.Range(k, r.J)) // right\n			stack = append(stack, rng.Range(r.I, k)) // left","			stack = append(stack, rng.Range(r.I, k)) // left\n			stack = append(stack, rng.Range(k, r.J)) // right"),
("dp-size2","C03","decompose/decompose.go","r.Size() <= 1 ||","r.Size() <= 2 ||"),
("dp-empty","C24","decompose/decompose.go","	if pln.LineString == nil {\n		return hque\n	}\n",""),
("dp-zero","C25","decompose/decompose.go","if r.Size() <= 1 || decomp.Relation(val) {","if r.Size() < 1 || decomp.Relation(val) {"),
# --- deform
("opt-clean","C08","deform/cls.go","	if hull.Instance.State().IsDirty() {\n		return neighbours","	if !hull.Instance.State().IsDirty() {\n		return neighbours"),
("fc-touch","C08","deform/cls.go","				inters = len(pts) > 0\n				n = len(pts)","				inters = len(pts) > 1\n				n = len(pts)"),
("fc-contig","C08","deform/cls.go","			contig = false\n			inters = hull","			contig = hull.Range.Contiguous(h.Range)\n			inters = hull"),
("fc-n","C08","deform/cls.go","		if contig && n > 1 { // contiguity with overlap greater than a vertex\n			sa, sb = contiguousCandidates(hull, h)\n		} else if !contig {","		if contig && n > 1 { // contiguity with overlap greater than a vertex\n			sa, sb = contiguousCandidates(hull, h)\n		} else if !contig && n > 0 {"),
("contig-swap","C08","deform/contig.go","	if !b.Collapsible(a) {\n		sb = b","	if sa == nil && !b.Collapsible(a) {\n		sb = b"),
("sel-break","C08","deform/ln.go","		if !inters {\n			continue\n		}","		if !inters {\n			break\n		}"),
("sel-early","C08","deform/ln.go","		if sb != nil {\n			dict[sb] = struct{}{}\n		}","		if sb != nil && sa == nil {\n			dict[sb] = struct{}{}\n		}"),
("non-line","C08","deform/noncontig.go","	var bln = b.Polyline.Geometry()","	var bln = b.Geom.Geometry()"),
("non-both","C08","deform/noncontig.go","if asegIntersBseg && asegIntersBln && (!alnIntersBln) {\n		sa = a\n	} else if","if asegIntersBseg && asegIntersBln && (!alnIntersBln) {\n		sa = a\n	} else if bsegIntersAln && asegIntersBln {\n		sa, sb = a, b\n	} else if"),
("non-disp","C08","deform/noncontig.go","if delta > options.NonPlanarDisplacement {","if delta >= options.NonPlanarDisplacement {"),
("non-first","C08","deform/noncontig.go","						break outer\n					}\n","						break outer\n					}\n					break\n"),
# --- dp
("dp-rel","C03","dp/dp.go","	return val <= dp.Opts.Threshold\n","	return val < dp.Opts.Threshold\n"),
("dp-sqr","C03","dp/dp.go","	return val <= (dp.Opts.Threshold * dp.Opts.Threshold)","	return val <= dp.Opts.Threshold"),
("dp-simple","C01","dp/dp.go","	dp.SimpleSet.Empty()\n	for","	for"),
("dp-sqrset","C03","dp/dp.go","		SquareScore: sqrScore,\n",""),
# --- common, split, merge
("geom-poly","C06","common/common.go","if coordinates.Len() > 2 {","if coordinates.Len() > 3 {"),
("spl-k","C02","split/split.go","coordinates.Slice(k, coordinates.Len()), rng.Range(idx, j)","coordinates.Slice(k, coordinates.Len()-1), rng.Range(idx, j)"),
("spl-idx","C02","split/split.go","coordinates.Slice(r.I-I, r.J-I+1), r,","coordinates.Slice(r.I-I, r.J-I), r,"),
("spl-hull","C23","split/split.go","	var coordinates = hull.Coordinates()\n	var rg = hull.Range","	var coordinates = hull.Coordinates()\n	sortIdxs(coordinates.Idxs)\n	var rg = hull.Range","split/split.go","//split hull at indices","func sortIdxs(v []int) {\n	if len(v) > 2 && v[0] > v[1] {\n		v[0], v[1] = v[1], v[0]\n	}\n}\n\n//split hull at indices"),
("mrg-alias","C23","merge/merge.go","coordinates.Idxs[:n:n], hb","coordinates.Idxs[:n], hb"),
("mrg-order","C01","merge/merge.go","	if hb.Range.I < ha.Range.J && hb.Range.J == ha.Range.I {\n		ha, hb = hb, ha\n	}\n","",),
("mrg-score","C03","merge/merge.go","	var _, val = scoreFn(coordinates)\n","	var _, val = scoreFn(ha.Coordinates())\n"),
("mrg-dup","C01","merge/merge.go","	var n = coordinates.Len() - 1\n","	var n = coordinates.Len()\n"),
("mrg-size-vs","C10","merge/merge.go","(hr.J == sr.I && !vertexSet[sr.I]) || (hr.I == sr.J && !vertexSet[sr.J])","(hr.J == sr.I && !vertexSet[sr.J]) || (hr.I == sr.J && !vertexSet[sr.I])"),
("mrg-nobreak","C11","merge/merge.go","			delete(unmerged, hr.AsArray())\n			break","			delete(unmerged, hr.AsArray())"),
("mrg-rm","C11","merge/merge.go","			rm = append(rm, s)\n			rm = append(rm, h)","			rm = append(rm, s)"),
]
