package main

import (
	"fmt"

	"github.com/arr-ai/frozen"
)

// openIter is an iterator a client holds between operations.
type openIter struct {
	next    func() (key, val int, ok bool)
	reread  func() (key, val int)
	left    imap
	order   []int
	ordered bool
	done    bool
	from    string
	cls     string
}

func (m *setMach[T]) execIter(c *client, op *Op) {
	switch op.K {
	case "t.open", "t.openord":
		a := m.set(c, op.A)
		left := imap{}
		for _, id := range a.m.list() {
			left[id] = 0
		}
		it := &openIter{left: left, from: fmt.Sprintf("set r%d", op.A), cls: "C08"}
		var i frozen.Iterator[T]
		if !c.do(op, "C08", func() {
			if op.K == "t.openord" {
				i = a.s.OrderedRange(m.less(op.P))
			} else {
				i = a.s.Range()
			}
		}) {
			return
		}
		if op.K == "t.openord" {
			it.ordered = true
			it.order = orderIDs(a.m, op.P)
		}
		it.next = func() (int, int, bool) {
			if !i.Next() {
				return 0, 0, false
			}
			return m.d.ID(i.Value()), 0, true
		}
		it.reread = func() (int, int) { return m.d.ID(i.Value()), 0 }
		c.slots[100+op.N%3] = it
	case "t.mopen":
		a := m.mp(c, op.A)
		it := &openIter{left: a.m.clone(), from: fmt.Sprintf("map r%d", op.A), cls: "C08"}
		var i frozen.MapIterator[T, int]
		if !c.do(op, "C08", func() { i = a.s.Range() }) {
			return
		}
		it.next = func() (int, int, bool) {
			if !i.Next() {
				return 0, 0, false
			}
			k, v := i.Entry()
			return m.d.ID(k), v, true
		}
		it.reread = func() (int, int) { return m.d.ID(i.Key()), i.Value() }
		c.slots[100+op.N%3] = it
	case "t.next":
		stepIter(c, op)
	default:
		panic("op " + op.K)
	}
}

// stepIter advances the client's iterator in slot N by P steps, checking each.
func stepIter(c *client, op *Op) {
	it, _ := c.slots[100+op.N%3].(*openIter)
	if it == nil {
		return
	}
	r := c.r
	for k := 0; k <= op.P%24; k++ {
		var id, v, id2, v2 int
		var ok bool
		if !c.do(op, it.cls, func() {
			id, v, ok = it.next()
			if ok {
				id2, v2 = it.reread()
			}
		}) {
			delete(c.slots, 100+op.N%3)
			return
		}
		bad := ""
		switch {
		case it.done && ok:
			bad = fmt.Sprintf("after reporting its end it yields %d", id)
		case !ok && len(it.left) > 0:
			bad = fmt.Sprintf("ended with %v not yielded", it.left)
		case !ok:
			it.done = true
			if k > 0 {
				return
			}
			continue
		case id2 != id || v2 != v:
			bad = fmt.Sprintf("reading the position again gives %d:%d after %d:%d", id2, v2, id, v)
		default:
			w, in := it.left[id]
			switch {
			case !in:
				bad = fmt.Sprintf("yields %d, which is foreign or repeated (left: %v)", id, it.left)
			case w != v:
				bad = fmt.Sprintf("yields %d with value %d, want %d", id, v, w)
			case it.ordered && it.order[0] != id:
				bad = fmt.Sprintf("yields %d, but next in order is %d", id, it.order[0])
			}
			delete(it.left, id)
			if it.ordered && len(it.order) > 0 {
				it.order = it.order[1:]
			}
		}
		if bad != "" {
			r.fail(it.cls, "iter", op, "iterator over %s: %s", it.from, bad)
			delete(c.slots, 100+op.N%3)
			return
		}
	}
}
