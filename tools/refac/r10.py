N="node/"; C="ctx/"
R=[
("q-defer",N+"queue.go","FUNC func (q *Queue) Append(",'''func (q *Queue) Append(o Node) *Queue {
	q.Lock()
	defer q.Unlock()
	q.que.Append(o)
	return q
}
'''),
("q-local",N+"queue.go","FUNC func (q *Queue) Pop(",'''func (q *Queue) Pop() Node {
	q.Lock()
	defer q.Unlock()
	var v = q.que.Pop()
	var n, ok = v.(Node)
	if !ok {
		panic("empty queue")
	}
	return n
}
'''),
("q-after",N+"queue.go","FUNC func (q *Queue) PopLeft(",'''func (q *Queue) PopLeft() Node {
	q.Lock()
	var v = q.que.PopLeft()
	q.Unlock()
	return v.(Node)
}
'''),
("q-locked",N+"queue.go","FUNC func (q *Queue) AppendLeft(",'''func (q *Queue) AppendLeft(o Node) *Queue {
	q.locked(func() { q.que.AppendLeft(o) })
	return q
}

func (q *Queue) locked(fn func()) {
	q.Lock()
	defer q.Unlock()
	fn()
}
'''),
("q-read",N+"queue.go","FUNC func (q *Queue) First(",'''func (q *Queue) First() Node {
	q.RLock()
	defer q.RUnlock()
	return q.at(0)
}

//at peeks at an end, the caller holds the lock
func (q *Queue) at(i int) Node {
	if i == 0 {
		return q.que.First().(Node)
	}
	return q.que.Last().(Node)
}
''',N+"queue.go","FUNC func (q *Queue) Last(",'''func (q *Queue) Last() Node {
	q.RLock()
	defer q.RUnlock()
	return q.at(-1)
}
'''),
("q-size",N+"queue.go","FUNC func (q *Queue) Size(",'''func (q *Queue) Size() (n int) {
	q.Lock()
	n = q.que.Len()
	q.Unlock()
	return
}
'''),
("q-new",N+"queue.go","FUNC func NewQueue(",'''func NewQueue() *Queue {
	var q = new(Queue)
	q.que = deque.NewDeque()
	return q
}
'''),
("q-early",N+"queue.go","FUNC func (q *Queue) Clear(",'''func (q *Queue) Clear() *Queue {
	q.Lock()
	if q.que.Len() == 0 {
		q.Unlock()
		return q
	}
	q.que.Clear()
	q.Unlock()
	return q
}
'''),
("c-objs",C+"ctxs.go","FUNC func NewContextsFromObjects(",'''func NewContextsFromObjects(objects []interface{}) *ContextGeometries {
	var list = make([]*ContextGeometry, len(objects))
	for i, o := range objects {
		list[i] = o.(*ContextGeometry)
	}
	return &ContextGeometries{list: list}
}
'''),
("c-pushext",C+"ctxs.go","FUNC func (self *ContextGeometries) Push(",'''func (self *ContextGeometries) Push(o *ContextGeometry) *ContextGeometries {
	return self.Extend([]*ContextGeometry{o})
}
'''),
("c-swap",C+"ctxs.go","FUNC func (self *ContextGeometries) Swap(",'''func (self *ContextGeometries) Swap(i, j int) {
	var view = self.list
	view[i], view[j] = view[j], view[i]
}
'''),
("c-sort",C+"ctxs.go","FUNC func (self *ContextGeometries) Sort(",'''func (self *ContextGeometries) Sort() *ContextGeometries {
	sort.Slice(self.list, func(i, j int) bool {
		return self.list[i].I < self.list[j].I
	})
	return self
}
'''),
("c-askind",C+"ctx.go","FUNC func (o *ContextGeometry) AsSelf(",'''func (o *ContextGeometry) AsSelf() *ContextGeometry {
	return o.setType(Self)
}

func (o *ContextGeometry) setType(kind string) *ContextGeometry {
	o.CtxType = kind
	return o
}
''',C+"ctx.go","FUNC func (o *ContextGeometry) AsPlanarVertex(",'''func (o *ContextGeometry) AsPlanarVertex() *ContextGeometry {
	return o.setType(PlanarVertex)
}
'''),
("n-pop",N+"nodes.go","FUNC func Pop(",'''func Pop(self *[]Node) []Node {
	var nodes = *self
	if len(nodes) == 0 {
		return nodes
	}
	var last = len(nodes) - 1
	nodes[last] = Node{}
	*self = nodes[:last]
	return nodes
}
'''),
("n-pointset",N+"nodes.go","FUNC func (nodes Nodes) AsPointSet(",'''func (nodes Nodes) AsPointSet() *sset.SSet {
	var set = sset.NewSSet(cmp.Int)
	for i := range nodes {
		var rg = &nodes[i].Range
		set.Extend(rg.I, rg.J)
	}
	return set
}
'''),
("n-swap",N+"nodes.go","FUNC func (nodes Nodes) Swap(",'''func (nodes Nodes) Swap(i, j int) {
	var tmp = nodes[i]
	nodes[i] = nodes[j]
	nodes[j] = tmp
}
'''),
]
