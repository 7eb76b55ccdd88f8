B=[]
def b(*a): B.append(a)
Q="node/queue.go"
b("q-again","C30",Q,"func (q *Queue) AppendLeft(o Node) *Queue {\n	q.Lock()\n","func (q *Queue) AppendLeft(o Node) *Queue {\n	q.Lock()\n	if o.Range.I < 0 {\n		q.Size()\n	}\n")
b("q-again-r","C30",Q,"	n := q.que.Len()\n	q.RUnlock()\n	return n","	n := q.que.Len()\n	if n > 1 << 20 {\n		q.First()\n	}\n	q.RUnlock()\n	return n")
b("q-helper-unlocked","C30",Q,"	q.Lock()\n	q.que.Clear()\n	q.Unlock()\n	return q\n}","	q.reset()\n	return q\n}\n\nfunc (q *Queue) reset() {\n	q.que.Clear()\n}")
b("q-helper-twice","C30",Q,"	q.Lock()\n	q.que.Clear()\n	q.Unlock()\n	return q\n}","	q.Lock()\n	q.reset()\n	q.Unlock()\n	return q\n}\n\nfunc (q *Queue) reset() {\n	if q.que.Len() > 1000 {\n		q.Lock()\n		q.que.Clear()\n		q.Unlock()\n		return\n	}\n	q.que.Clear()\n}")
b("q-helper-leak","C30",Q,"	q.Lock()\n	q.que.Clear()\n	q.Unlock()\n	return q\n}","	q.Lock()\n	q.reset()\n	return q\n}\n\nfunc (q *Queue) reset() {\n	if q.que.Len() == 0 {\n		return\n	}\n	q.que.Clear()\n	q.Unlock()\n}")
b("q-helper-fail","C30",Q,"	q.Lock()\n	defer q.Unlock()\n	return q.que.Pop().(Node)\n}","	q.Lock()\n	o := q.take()\n	q.Unlock()\n	return o\n}\n\nfunc (q *Queue) take() Node {\n	return q.que.Pop().(Node)\n}")
b("q-helper-rlock","C30",Q,"	q.Lock()\n	defer q.Unlock()\n	return q.que.PopLeft().(Node)\n}","	q.RLock()\n	defer q.RUnlock()\n	return q.take()\n}\n\nfunc (q *Queue) take() Node {\n	return q.que.PopLeft().(Node)\n}")
b("q-early","C30",Q,"	q.RLock()\n	n := q.que.Len()\n	q.RUnlock()\n	return n","	q.RLock()\n	q.RUnlock()\n	return q.que.Len()")
