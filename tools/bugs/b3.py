C="constdp/"; G="geometry/"; H="hdb/"; D="deform/"; N="node/"; K="constrain/"; X="ctx/"; M="merge/"
B=[
# --- functions that have several accepted shapes
("grp-lastonly","C01",C+"fc_group.go","		for i := range lst {\n			self.Hulls = append(self.Hulls, lst[i])\n		}","		for i := range lst {\n			if i > 0 && lst[i].Range.I < lst[i-1].Range.I {\n				continue\n			}\n			self.Hulls = append(self.Hulls, lst[i])\n		}"),
("grp-noempty","C01",C+"fc_group.go","		self.SimpleSet.Empty() //update new simple\n","		if len(self.Hulls) > 1 {\n			self.SimpleSet.Empty()\n		}\n"),
("grp-noclear","C01",C+"fc_group.go","		node.Clear(&self.Hulls)\n",""),
("grp-oneend","C01",C+"fc_group.go","self.SimpleSet.Extend(hull.Range.I, hull.Range.J)","self.SimpleSet.Extend(hull.Range.I)"),
("inst-goroutines","C16",C+"fc_simplify.go","		for i := 0; i < ConcurProcs; i++ {\n			go fn(i)","		for i := 0; i < ConcurProcs && i < len(selfs); i++ {\n			go fn(i)"),
("inst-done","C16",C+"fc_simplify.go","		defer wg.Done()\n		for self := range stream {\n			self.Simplify(id, junctions[self.Id()])\n			out <- self\n		}","		for self := range stream {\n			self.Simplify(id, junctions[self.Id()])\n			out <- self\n		}\n		if idx >= 0 {\n			wg.Done()\n		}\n		if len(stream) > 0 {\n			wg.Done()\n		}"),
("inst-closeearly","C16",C+"fc_simplify.go","		for s := range selfs {\n			stream <- selfs[s]\n		}\n		close(stream)","		for s := range selfs {\n			if s > 0 && selfs[s].Id() == selfs[s-1].Id() {\n				continue\n			}\n			stream <- selfs[s]\n		}\n		close(stream)"),
("inst-junc","C10",C+"fc_simplify.go","self.Simplify(id, junctions[self.Id()])","self.Simplify(id, junctions[idx])"),
("inst-drain","C16",C+"fc_simplify.go","	for range out {\n	}\n","	for i := 0; i < len(selfs)-1; i++ {\n		<-out\n	}\n"),
("proc-nochunk","C09",C+"simple_0.go","	wg.Add(len(hulls))\n","	if len(hulls) > concurrency+1 {\n		hulls = hulls[:concurrency+1]\n	}\n	wg.Add(len(hulls))\n"),
("proc-selreset","C08",C+"simple_0.go","			selections = selections[:0]\n","			if len(selections) > 8 {\n				selections = selections[:0]\n			}\n"),
("proc-segsize","C08",C+"simple_0.go","if o.Range.Size() > 1 { // a segment cannot be deformed","if o.Range.Size() > 1 && o.Range.I != 0 { // a segment cannot be deformed"),
("proc-skipctx","C05",C+"simple_0.go","			if bln && hull.Range.Size() > 1 {\n				bln = self.Val","			if bln && hull.Range.Size() > 2 {\n				bln = self.Val"),
("proc-onlyavoid","C05",C+"simple_0.go","			var bln = true\n			var hull = in[i]","			var bln = i == 0 || in[i-1].Instance == in[i].Instance\n			var hull = in[i]"),
("chunk-size","C16",C+"simple_0.go","		if stop > n {\n			stop = n\n		}\n		var task []*node.Node","		if stop+chunkSize > n {\n			stop = n\n		}\n		if stop-idx > 2*chunkSize {\n			stop = idx + chunkSize\n		}\n		var task []*node.Node"),
("chunk-drop","C09",C+"simple_0.go","	for idx < n {\n		var stop = idx + chunkSize\n		//if stop > n || (stop < n && stop+chunkSize > n) {\n		if stop > n {\n			stop = n\n		}\n		var task []*node.Node","	for idx < n && len(chunks) < concurrency {\n		var stop = idx + chunkSize\n		//if stop > n || (stop < n && stop+chunkSize > n) {\n		if stop > n {\n			stop = n\n		}\n		var task []*node.Node"),
("refine-first","C03",C+"decompose.go","				results = append(results, self.refine(id, ha, hb)...)\n				continue","				results = append(results, self.refine(id, ha)...)\n				results = append(results, hb)\n				continue"),
("refine-size","C03",C+"decompose.go","		if hull.Range.Size() > 1 {\n			if _, val","		if hull.Range.Size() > 2 {\n			if _, val"),
("simple-noempty","C01","dp/dp.go","	dp.SimpleSet.Empty()\n","	if dp.SimpleSet.Size() > len(dp.Hulls)+1 {\n		dp.SimpleSet.Empty()\n	}\n"),
("simple-stop","C01","dp/dp.go","		indices[i] = v.(int)\n		return true","		indices[i] = v.(int)\n		return i < len(dp.Hulls)"),
("tosi-cv","C10",K+"toself.go","		if atVertexSet[i] { //exclude already self intersects","		if atVertexSet[i] || i == 0 { //exclude already self intersects"),
("tosi-cvlen","C10",K+"toself.go","	for _, i := range constVerts {\n","	for _, i := range constVerts {\n		if i >= polyline.Len()-1 {\n			continue\n		}\n"),
("tosi-nosort","C17",K+"toself.go","	sort.Ints(indices)\n",""),
("tosi-nonp","C10",K+"toself.go","		if inter.IsNonPlanarVertex() {\n			indices = inter.Meta.NonPlanar\n		}","		if inter.IsNonPlanarVertex() && planar {\n			indices = inter.Meta.NonPlanar\n		}"),
("nb-break","C11",N+"contig.go","		if prev != nil && nxt != nil {\n			break\n		}","		if prev != nil || nxt != nil {\n			break\n		}"),
("nb-self","C11",N+"contig.go","if i == h.Range.J {","if i == h.Range.J && h.Range.Size() > 1 {"),
("nb-instance","C26",N+"contig.go","			} else if j == h.Range.I {","			} else if j <= h.Range.I {"),
("contig-any","C08",N+"contig.go","			if blnAseg || blnBseg {","			if blnAseg && blnBseg {"),
("col-hdb","C12",H+"collides.go",None,None) ,
("agg-const","C10",C+"node_aggregates.go","iter.SortedSearchInts(constVertexSet, hull.Range.I) &&\n			iter","iter.SortedSearchInts(constVertexSet, hull.Range.I) ||\n			iter"),
("agg-score","C11",C+"node_aggregates.go","		relation = self.SquareScoreRelation\n	}\n\n	for","	}\n\n	for"),
("agg-cachekey","C11",C+"node_aggregates.go","			key = CacheKey(hull, nxt)","			key = CacheKey(nxt, nxt)"),
("agg-lostnext","C02",C+"node_aggregates.go","				insertList = append(insertList, *nxt)\n","				if hull.Range.I != 0 {\n					insertList = append(insertList, *nxt)\n				}\n"),
("agg-stale","C11",C+"node_aggregates.go","				if objects[0] == nxt {\n					objects = objects[1:]\n				}\n				insertList","				insertList"),
("agg-prevfirst","C02",C+"node_aggregates.go","		if !merged && mergeprevBln {\n			db.Remove(prev)","		if mergeprevBln {\n			db.Remove(prev)"),
("mrg-range","C02",M+"merge.go","return rng.Range(ranges[0], ranges[len(ranges)-1])","return rng.Range(ranges[0], ranges[2])"),
("mrg-alias","C23",M+"merge.go","append(coordinates.Idxs[:n:n], hb","append(coordinates.Idxs[:n], hb"),
("mrg-swapcond","C02",M+"merge.go","if hb.Range.I < ha.Range.J && hb.Range.J == ha.Range.I {","if hb.Range.I < ha.Range.I && hb.Range.J == ha.Range.J {"),
("mrg-inst","C26",M+"merge.go","Range(ha.Range, hb.Range), gfn, ha.Instance)","Range(ha.Range, hb.Range), gfn, hb.Instance)"),
("opt-dirty","C08",D+"cls.go","	if hull.Instance.State().IsDirty() {\n		return neighbours","	if hull.Instance.State().IsDirty() && len(neighbours) > 1 {\n		return neighbours"),
("opt-tail","C08",D+"cls.go","	return neighbours[n:]\n","	if n > 0 && len(neighbours) > n {\n		return neighbours[n-1:]\n	}\n	return neighbours[n:]\n"),
("sel-n","C08",D+"cls.go","if contig && n > 1 {","if contig && n > 2 {"),
("ln-sel","C08",D+"ln.go","		if sa != nil {\n			dict[sa] = struct{}{}\n		}\n		if sb != nil {","		if sa != nil {\n			dict[sa] = struct{}{}\n		} else if sb != nil {"),
("deform-dirty","C08",C+"simple_1.go","			hull.Instance.State().MarkDirty() //after","			self.State().MarkClean() //after"),
("deform-score","C03",C+"simple_1.go","		if self.SquareScore != nil {\n			scoreFn = self.SquareScore\n		}\n\n		if hull","		if hull.Range.I == 0 && self.SquareScore != nil {\n			scoreFn = self.SquareScore\n		}\n\n		if hull"),
("simp-merge","C05",C+"simplify.go","id, db, constVertexSet, self.ValidateMerge,","id, db, constVertexSet, func(h *node.Node, t *hdb.Hdb) bool { return h.Range.Size() == 2 || self.ValidateMerge(h, t) },"),
("simp-cleandirty","C08",C+"simplify.go","	//state\n	self.State().MarkDirty()\n","	//state\n	if len(constVerts) > 0 {\n		self.State().MarkDirty()\n	}\n"),
("simp-cv","C10",C+"simplify.go","	if len(constVertices) > 0 {\n","	if len(constVertices) > 1 {\n"),
("simp-norefine","C03",C+"simplify.go","	self.Hulls = self.refine(id, self.Hulls...)\n","	if len(self.Hulls) > 1 {\n		self.Hulls = append(self.Hulls[:1:1], self.refine(id, self.Hulls[1:]...)...)\n	}\n"),
("fc-constr","C05",C+"fc_simplify.go","		opts.GeomRelation ||\n","		opts.GeomRelation && opts.MinDist > 0 ||\n"),
("fc-onlydirty","C09",C+"fc_simplify.go","			for i := range self.Hulls {\n				deformables","			for i := range self.Hulls {\n				if len(self.Hulls) == 1 {\n					continue\n				}\n				deformables"),
("fc-loadlate","C09",C+"fc_simplify.go","				cleanUpDB(hulldb, selections)\n				// 3. add new deformations to db\n				hulldb.Load(deformables)","				// 3. add new deformations to db\n				hulldb.Load(deformables)\n				cleanUpDB(hulldb, selections)"),
# --- queue and collections
("q-rlock","C30",N+"queue.go","	q.Lock()\n	q.que.Clear()\n	q.Unlock()","	q.RLock()\n	q.que.Clear()\n	q.RUnlock()"),
("q-nolock","C30",N+"queue.go","	q.RLock()\n	n := q.que.Len()\n	q.RUnlock()\n","	n := q.que.Len()\n"),
("q-leak","C30",N+"queue.go","	q.Lock()\n	q.que.AppendLeft(o)\n	q.Unlock()\n	return q","	q.Lock()\n	q.que.AppendLeft(o)\n	if q.que.Len() > 1 {\n		q.Unlock()\n	}\n	return q"),
("q-early","C30",N+"queue.go","	q.Lock()\n	q.que.Append(o)\n	q.Unlock()\n","	q.Lock()\n	q.Unlock()\n	q.que.Append(o)\n"),
("q-order","C30",N+"queue.go","	q.que.AppendLeft(o)\n","	if q.que.Len() == 0 {\n		q.que.AppendLeft(o)\n	} else {\n		q.que.Append(o)\n	}\n"),
("q-last","C30",N+"queue.go","	return q.que.Last().(Node)","	return q.que.First().(Node)"),
("c-ext","C31",X+"ctxs.go","	self.list = append(self.list, o...)\n","	self.list = append(o, self.list...)\n"),
("c-from","C31",X+"ctxs.go","	for i := range objects {\n		contexts","	for i := 1; i < n; i++ {\n		contexts"),
("c-less","C31",X+"ctxs.go","self.list[i].I < self.list[j].I","self.list[i].J < self.list[j].J"),
("c-kind","C31",X+"ctx.go","	return o.CtxType == LinearSimple","	return o.CtxType == PlanarSegment"),
("c-const","C31",X+"ctx.go",'LinearSimple     = "linear_simple"','LinearSimple     = "planar_segment"'),
("n-pop","C31",N+"nodes.go","		nodes[n] = Node{}\n","		nodes[n].Geom = nil\n"),
("n-swap","C31",N+"nodes.go","func (nodes Nodes) Swap(i, j int) {\n	nodes[i], nodes[j] = nodes[j], nodes[i]","func (nodes Nodes) Swap(i, j int) {\n	nodes[i].Range, nodes[j].Range = nodes[j].Range, nodes[i].Range"),
("n-pts","C31",N+"nodes.go","set.Extend(o.Range.I, o.Range.J)","set.Extend(o.Range.I)"),
]
B=[b for b in B if b[3] is not None]
