package main

import (
	"fmt"

	"github.com/arr-ai/frozen"
)

type openBuilder[T any] struct {
	b *frozen.SetBuilder[T]
	m ids
}

type openMapBuilder[T any] struct {
	b *frozen.MapBuilder[T, int]
	m imap
}

// seeBuilder reads everything a set builder shows.
func (m *setMach[T]) seeBuilder(b *frozen.SetBuilder[T]) (count int, has ids) {
	count = b.Count()
	for i := 0; i < m.u; i++ {
		if m.u > 80 && mix(m.r.p.Seed, uint64(i))%uint64(m.u) >= 60 {
			continue
		}
		if b.Has(m.d.Mk(i, 2)) {
			has.put(i)
		}
	}
	return
}

func (m *setMach[T]) visible(a ids) ids {
	if m.u <= 80 {
		return a
	}
	var v ids
	for _, i := range a.list() {
		if mix(m.r.p.Seed, uint64(i))%uint64(m.u) < 60 {
			v.put(i)
		}
	}
	return v
}

func (m *setMach[T]) checkBuilder(c *client, op *Op, o *openBuilder[T], want ...ids) bool {
	good := false
	if !c.quiet(op, "C07", op.K, func() {
		count, has := m.seeBuilder(o.b)
		for _, w := range want {
			if count == w.count() && has.equal(m.visible(w)) {
				o.m, good = w, true
				break
			}
		}
		if !good {
			m.r.fail("C07", "builder:"+op.K, op, "the builder holds %v (Count %d), want %v", has, count, want)
			return
		}
		if op.P%4 == 0 && m.u <= 80 {
			text := o.b.String()
			if op.P%8 == 4 {
				st := &fstate{limit: -1, width: -1}
				o.b.Format(st, 'v')
				if f := fmt.Sprintf("%v", *o.b); f != st.buf.String() {
					m.r.fail("C07,C14", "builder:format", op, "one builder renders as %q and as %q", f, st.buf.String())
				}
				text = st.buf.String()
			}
			toks, ok := splitList(text, "{", "}")
			if len(toks) == 0 && o.m.count() == 1 {
				toks = []string{""}
			}
			if got, bad := m.tokenIDs(toks); !ok || bad != "" || !sameInts(got, o.m.list()) {
				m.r.fail("C07,C14", "builder:string", op, "the builder renders as %q, want elements %v %s", text, o.m, bad)
			}
		}
	}) {
		return false
	}
	return good
}

func (m *setMach[T]) execBuilder(c *client, op *Op) {
	slot := op.N % 2
	o, _ := c.slots[slot].(*openBuilder[T])
	if op.K == "b.new" || o == nil {
		o = &openBuilder[T]{}
		if op.P%3 == 0 {
			o.b = &frozen.SetBuilder[T]{}
		} else if !c.do(&Op{ID: op.ID, K: "b.new"}, "C07", func() { o.b = frozen.NewSetBuilder[T](op.P) }) {
			return
		}
		c.slots[slot] = o
	}
	switch op.K {
	case "b.new":
	case "b.add", "b.rem":
		x := m.folds(op.X)
		after := []ids{o.m}
		cur := o.m
		for _, id := range x {
			if op.K == "b.add" {
				cur = cur.with(id)
			} else {
				cur = cur.without(id)
			}
			after = append(after, cur)
		}
		n := 0
		ok, failed := c.once(op, "C07", func() {
			for i, id := range x {
				n = i
				if op.K == "b.add" {
					o.b.Add(m.d.Mk(id, op.P+i))
				} else {
					o.b.Remove(m.d.Mk(id, op.P+i))
				}
			}
		})
		good := false
		switch {
		case failed: // before or after the step that failed
			good = m.checkBuilder(c, op, o, after[n], after[n+1])
		case ok:
			good = m.checkBuilder(c, op, o, cur)
		}
		if !good {
			delete(c.slots, slot)
		}
	case "b.obs":
		if !m.checkBuilder(c, op, o, o.m) {
			delete(c.slots, slot)
		}
	case "b.finish":
		var s frozen.Set[T]
		if !c.do(op, "C07", func() { s = o.b.Finish() }) {
			delete(c.slots, slot)
			return
		}
		want := o.m
		m.putSet(c, op, "C07", s, want)
		if !m.checkBuilder(c, op, o, ids{}) {
			delete(c.slots, slot)
		}
	default:
		panic("op " + op.K)
	}
}

func (m *setMach[T]) checkMapBuilder(c *client, op *Op, o *openMapBuilder[T], want ...imap) bool {
	good := false
	c.quiet(op, "C07", op.K, func() {
		count := o.b.Count()
		got := imap{}
		hasBad := -1
		for i := 0; i < m.u; i++ {
			k := m.d.Mk(i, 2)
			v, ok := o.b.Get(k)
			if ok {
				got[i] = v
			}
			if i%4 == 0 && o.b.Has(k) != ok {
				hasBad = i
			}
		}
		for _, w := range want {
			if count == len(w) && got.equal(w) && hasBad < 0 {
				o.m, good = w, true
				return
			}
		}
		m.r.fail("C07", "builder:"+op.K, op, "the map builder holds %v (Count %d, Has differs at %d), want %v", got, count, hasBad, want)
	})
	return good
}

func (m *setMach[T]) execMapBuilder(c *client, op *Op) {
	slot := 10 + op.N%2
	o, _ := c.slots[slot].(*openMapBuilder[T])
	if op.K == "mb.new" || o == nil {
		o = &openMapBuilder[T]{m: imap{}}
		if op.P%3 == 0 {
			o.b = &frozen.MapBuilder[T, int]{}
		} else if !c.do(&Op{ID: op.ID, K: "mb.new"}, "C07", func() { o.b = frozen.NewMapBuilder[T, int](op.P) }) {
			return
		}
		c.slots[slot] = o
	}
	switch op.K {
	case "mb.new":
	case "mb.put", "mb.rem":
		x := m.folds(op.X)
		after := []imap{o.m}
		cur := o.m
		for i, id := range x {
			cur = cur.clone()
			if op.K == "mb.put" {
				cur[id] = valOn(op.P, i, op.N)
			} else {
				delete(cur, id)
			}
			after = append(after, cur)
		}
		n := 0
		ok, failed := c.once(op, "C07", func() {
			for i, id := range x {
				n = i
				if op.K == "mb.put" {
					o.b.Put(m.d.Mk(id, op.P+i), valOn(op.P, i, op.N))
				} else {
					o.b.Remove(m.d.Mk(id, op.P+i))
				}
			}
		})
		good := false
		switch {
		case failed:
			good = m.checkMapBuilder(c, op, o, after[n], after[n+1])
		case ok:
			good = m.checkMapBuilder(c, op, o, cur)
		}
		if !good {
			delete(c.slots, slot)
		}
	case "mb.obs":
		if !m.checkMapBuilder(c, op, o, o.m) {
			delete(c.slots, slot)
		}
	case "mb.finish":
		var s frozen.Map[T, int]
		if !c.do(op, "C07", func() { s = o.b.Finish() }) {
			delete(c.slots, slot)
			return
		}
		want := o.m
		m.putMap(c, op, "C07", s, want)
		if !m.checkMapBuilder(c, op, o, imap{}) {
			delete(c.slots, slot)
		}
	default:
		panic("op " + op.K)
	}
}
