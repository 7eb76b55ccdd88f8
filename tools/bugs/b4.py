B=[]
def b(*a): B.append(a)
b("knn-eps","C08","knn/knn.go","EpsilonDist = 1.0e-5","EpsilonDist = 1.0e-15")
b("split-eps","C10","constrain/split.go","EpsilonDist = 1.0e-5","EpsilonDist = 1.0e-1")
b("feq","C12","hdb/core.go","var feq = math.FloatEqual","var feq = func(a, b float64) bool { return math.Abs(a-b) < 1 }")
b("inf","C13","hdb/core.go","var inf = math.Inf(1)","var inf = 1e6")
b("procs","C16","constdp/common.go","ConcurProcs = 8","ConcurProcs = 0")
b("numregx","C18","encode.go",'"[0-9]+"','"[1-9][0-9]*|0"')
b("numregx2","C18","encode.go",'"[0-9]+"','"[0-9]"')
b("tag-thr","C21","cfg.go",'`json:"minimum_distance"`','`json:"min_distance"`')
b("tag-swap","C21","cfg.go",'`json:"planar_self"`','`json:"planar_selfs"`')
b("tag-omit","C20","geometry/jsontype.go",'`json:"type"`','`json:"types"`')
b("ctx-const","C10","ctx/ctx.go",'"non_planar_vertex"','"planar_vertex"')
b("lnr-null","C10","lnr/common.go",'NullFId = -9','NullFId = 1')
b("lnr-x","C10","lnr/common.go",'	x = iota','	x = iota + 1')
b("geojson-const","C18","geometry/geojson.go",'"FeatureCollection"','"featurecollection"')
b("shadow-rel","C03","constdp/common.go","const ConcurProcs = 8\n","const ConcurProcs = 8\n\nfunc (self *ConstDP) ScoreRelation(val float64) bool {\n	return val < self.Opts.Threshold+1\n}\n")
b("hdb-min","C13","hdb/util.go","func min(a, b float64) float64 {\n","func min(a, b float64) float64 {\n	if a == 0 {\n		return a\n	}\n")
b("newfc","C10","lnr/fc.go","	return &FC{coordinates, fid}","	return &FC{coordinates, fid + 1}")
b("sort-rev","C10","lnr/vertices.go","	sort.Sort(v)","	if len(v) > 2 {\n		sort.Sort(v)\n	}")
b("init-dict","C21","offset.go","	\"sed\": offset.MaxSEDOffset,\n}\n","	\"sed\": offset.MaxSEDOffset,\n}\n\nfunc init() {\n	offsetDictionary[\"sed\"] = offset.MaxOffset\n}\n")
b("init-regx","C18","encode.go","type PolyGeom struct","func init() {\n	numRegx = regexp.MustCompile(\"[0-9]\")\n}\n\ntype PolyGeom struct")
b("unmarshal","C21","cfg.go","func optsFromCfg","func (a *ArgObj) UnmarshalJSON(b []byte) error {\n	return nil\n}\n\nfunc optsFromCfg")
b("marshal","C19","geometry/jsontype.go","package geometry\n",'package geometry\n\nimport "encoding/json"\n\nfunc (g LinearGeometry) MarshalJSON() ([]byte, error) {\n	return json.Marshal(map[string]interface{}{"type": g.Type, "coordinates": g.Coordinates[:1]})\n}\n')
b("shadow-geometry","C20","geometry/pln.go","//CreatePolyline construct","func (pln *Polyline) Geometry() geom.Geometry {\n	return pln.LineString.Coordinates.Pt(0).Geometry()\n}\n\n//CreatePolyline construct")
