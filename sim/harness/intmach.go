package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"fsim/simrt"

	"github.com/arr-ai/frozen"
)

type integer interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}

type iv[I integer] struct {
	s frozen.IntSet[I]
	m ids
	o setObs
}

// intMach executes operations of integer sets; ids index a table of values.
type intMach[I integer] struct {
	r    *run
	u    int
	vals []I
	ids  map[I]int
	bits uint
}

func bitsOf[I integer]() (n uint, signed bool) {
	var z I
	signed = z-1 < 0
	x := I(1)
	for n = 0; x != 0; n++ {
		x <<= 1
	}
	return
}

func newIntMach[I integer](r *run) *intMach[I] {
	m := &intMach[I]{r: r, u: r.p.U, ids: map[I]int{}}
	n, signed := bitsOf[I]()
	m.bits = n
	var lo, hi I
	if signed {
		lo = I(1) << (n - 1)
		hi = ^lo
	} else {
		hi = ^lo
	}
	seed := r.p.HashSeed
	mode := seed % 4
	for k := uint64(0); len(m.vals) < m.u && k < 5000; k++ {
		x := mix(seed, k)
		var v I
		sel := x >> 40 % 10
		if mode == 1 {
			sel = 3
		}
		switch {
		case sel == 0:
			v = lo + I(x%4)
		case sel == 1:
			v = hi - I(x%4)
		case sel == 2:
			v = I(x % 3 * 64)
			v += I(x>>8%5) - 2
		case sel < 6: // a dense run in a few cells
			v = I(mix(seed, 1+x>>50%3)%97*61) + I(x%70)
			if x>>45&1 == 1 {
				v = -v
			}
		case sel == 6:
			v = I(x % 130)
		case sel == 7:
			v = -I(x % 130)
		default:
			v = I(x >> 7)
		}
		if _, dup := m.ids[v]; !dup {
			m.ids[v] = len(m.vals)
			m.vals = append(m.vals, v)
		}
	}
	m.u = len(m.vals)
	return m
}

func (m *intMach[I]) id(v I) int {
	if i, ok := m.ids[v]; ok {
		return i
	}
	return -1
}

func (m *intMach[I]) fold(i int) int {
	if i < 0 {
		i = -i
	}
	return i % m.u
}

func (m *intMach[I]) folds(x []int) []int {
	out := make([]int, len(x))
	for i := range x {
		out[i] = m.fold(x[i])
	}
	return out
}

func (m *intMach[I]) show(a ids) string {
	var p []string
	for _, i := range a.list() {
		if i < len(m.vals) {
			p = append(p, fmt.Sprint(m.vals[i]))
		}
	}
	if len(p) > 40 {
		p = append(p[:40], "...")
	}
	return "[" + strings.Join(p, " ") + "]"
}

func (m *intMach[I]) obs(s frozen.IntSet[I]) (o setObs) {
	m.r.stats.obs++
	o.count, o.empty = s.Count(), s.IsEmpty()
	for i := s.Range(); i.Next(); {
		v := i.Value()
		id := m.id(v)
		if id < 0 {
			id = -2 - int(uint64(v)&0xffff)
		}
		o.list = append(o.list, id)
		if len(o.list) > o.count+m.u+64 {
			o.runaway = true
			break
		}
	}
	sort.Ints(o.list)
	for i, v := range m.vals {
		if s.Has(v) {
			o.has.put(i)
		}
	}
	// Neighbours that no operation ever adds.
	for i, v := range m.vals {
		for _, w := range []I{v + 1, v - 64, v ^ 64, -v} {
			if _, known := m.ids[w]; !known && i < 20 && s.Has(w) {
				o.has.put(m.u + 64 + i)
			}
		}
	}
	o.hash = s.Hash(obsSeed)
	return
}

func (m *intMach[I]) judge(c *client, op *Op, cls string, s frozen.IntSet[I], want ids) *iv[I] {
	v := &iv[I]{s: s, m: want}
	if !c.quiet(op, cls, op.K, func() { v.o = m.obs(s) }) {
		return nil
	}
	o := &v.o
	wl := want.list()
	hasOK, listOK := o.has.equal(want), sameInts(o.list, wl)
	countOK := o.count == len(wl) && o.empty == (len(wl) == 0)
	if hasOK && listOK && countOK {
		return v
	}
	if hasOK && countOK {
		cls += ",C08"
	}
	switch {
	case !hasOK:
		m.r.fail(cls, "result:"+op.K, op, "holds %s %v, want %s", m.show(o.has), o.has, m.show(want))
	case !listOK:
		m.r.fail(cls, "result:"+op.K, op, "iterates over %v, want %v %s", abbrev(o.list), want, m.show(want))
	default:
		m.r.fail(cls, "result:"+op.K, op, "Count %d IsEmpty %v, want %d", o.count, o.empty, len(wl))
	}
	seen := idsOf(nonNeg(o.list))
	if seen.count() == len(o.list) && o.count == len(o.list) && seen.equal(o.has) {
		v.m = seen
		return v
	}
	return nil
}

func (m *intMach[I]) get(c *client, id int) *iv[I] {
	if v, ok := c.get(id).(*iv[I]); ok && v != nil {
		return v
	}
	return &iv[I]{}
}

func (m *intMach[I]) putv(c *client, op *Op, cls string, s frozen.IntSet[I], want ids) {
	if v := m.judge(c, op, cls, s, want); v != nil {
		c.put(op.ID, v)
	}
}

func (m *intMach[I]) recheck(c *client, rg *reg, cls, why string, op *Op) {
	v, ok := rg.val.(*iv[I])
	if !ok {
		return
	}
	var n setObs
	if c.quiet(op, cls, "recheck", func() { n = m.obs(v.s) }) {
		if d := v.o.diff(&n); d != "" {
			m.r.fail(cls, "changed", op, "r%d %s: %s", rg.id, why, d)
			v.o = n
		}
	}
}

func (m *intMach[I]) once(op *Op, what string, log []int, want ids) {
	sort.Ints(log)
	if w := want.list(); !sameInts(log, w) {
		m.r.fail("C06", "once:"+op.K, op, "the %s was called with %v, want each of %v once", what, abbrev(log), abbrev(w))
	}
}

func (m *intMach[I]) nested(x *opCtx, a *iv[I], id int) {
	x.nest(func() {
		ok := true
		switch x.op.Re % 3 {
		case 0:
			ok = a.s.Has(m.vals[id]) == a.m.has(id)
		case 1:
			ok = a.s.With(m.vals[id]).Count() == a.m.with(id).count()
		case 2:
			ok = a.s.Union(a.s).Equal(a.s)
		}
		if !ok {
			x.r.fail("C06", "nested:"+x.op.K, x.op, "a library call made by a callback gave a wrong answer")
		}
	})
}

func (m *intMach[I]) exec(c *client, op *Op) {
	r := m.r
	const cls = "C12"
	var s frozen.IntSet[I]
	if op.K[0] == 't' {
		m.execIter(c, op)
		return
	}
	if op.K == "i.new" {
		vals := make([]I, len(op.X))
		for i, id := range m.folds(op.X) {
			vals[i] = m.vals[id]
		}
		if !c.do(op, cls, func() { s = frozen.NewIntSet(vals...) }) {
			return
		}
		m.putv(c, op, cls, s, idsOf(m.folds(op.X)))
		for i := range vals {
			vals[i] = m.vals[m.fold(op.P)]
		}
		if rg := r.regs[op.ID]; rg.val != nil && len(vals) > 0 {
			m.recheck(c, rg, "C01", "after the caller overwrote its input slice", op)
		}
		return
	}
	a := m.get(c, op.A)
	switch op.K {
	case "i.with", "i.without":
		id := m.fold(op.N)
		if !c.do(op, cls, func() {
			if op.K == "i.with" {
				s = a.s.With(m.vals[id])
			} else {
				s = a.s.Without(m.vals[id])
			}
		}) {
			return
		}
		want := a.m.with(id)
		if op.K == "i.without" {
			want = a.m.without(id)
		}
		m.putv(c, op, cls, s, want)
	case "i.chain", "i.unchain":
		want := a.m
		for _, id := range m.folds(op.X) {
			if op.K == "i.chain" {
				want = want.with(id)
			} else {
				want = want.without(id)
			}
		}
		if c.do(op, cls, func() {
			s = a.s
			for _, id := range m.folds(op.X) {
				if op.K == "i.chain" {
					s = s.With(m.vals[id])
				} else {
					s = s.Without(m.vals[id])
				}
			}
		}) {
			m.putv(c, op, cls, s, want)
		}
	case "i.union", "i.inter":
		b := m.get(c, op.B)
		if !c.do(op, cls, func() {
			if op.K == "i.union" {
				s = a.s.Union(b.s)
			} else {
				s = a.s.Intersection(b.s)
			}
		}) {
			return
		}
		want := a.m.union(b.m)
		if op.K == "i.inter" {
			want = a.m.inter(b.m)
		}
		m.putv(c, op, cls, s, want)
	case "i.where":
		var log []int
		if !c.do(op, cls, func() {
			log = nil
			s = a.s.Where(func(v I) bool {
				x := enter(cbPred)
				id := m.id(v)
				log = append(log, id)
				if op.Re > 0 && id >= 0 {
					m.nested(x, a, id)
				}
				leave(cbPred, x)
				return predOn(op.P, id)
			})
		}) {
			return
		}
		m.once(op, "predicate", log, a.m)
		var want ids
		for _, id := range a.m.list() {
			if predOn(op.P, id) {
				want.put(id)
			}
		}
		m.putv(c, op, cls+",C06", s, want)
	case "i.map":
		var log []int
		if !c.do(op, cls, func() {
			log = nil
			s = a.s.Map(func(v I) I {
				x := enter(cbMap)
				id := m.id(v)
				log = append(log, id)
				if op.Re > 0 && id >= 0 {
					m.nested(x, a, id)
				}
				leave(cbMap, x)
				return m.vals[mapOn(op.P, m.fold(id), m.u)]
			})
		}) {
			return
		}
		m.once(op, "mapper", log, a.m)
		var want ids
		for _, id := range a.m.list() {
			want.put(mapOn(op.P, id, m.u))
		}
		m.putv(c, op, cls+",C06", s, want)
	case "i.eq", "i.subset", "i.same":
		b := m.get(c, op.B)
		var got, g2 bool
		k := cls + ",C10"
		if !c.do(op, k, func() {
			switch op.K {
			case "i.eq":
				got = a.s.Equal(b.s)
				g2 = a.s.EqualSet(b.s)
			case "i.subset":
				got = a.s.IsSubsetOf(b.s)
				g2 = got
			default:
				got = a.s.Same(b.s)
				g2 = got
				if a.s.Same(3) || a.s.Same(nil) {
					r.fail("C10", "same-type", op, "Same holds with another type")
				}
			}
		}) {
			return
		}
		want := a.m.equal(b.m)
		if op.K == "i.subset" {
			want = a.m.subset(b.m)
			k = cls
		}
		if got != want || g2 != want {
			r.fail(k, "result:"+op.K, op, "got %v/%v for %s and %s", got, g2, m.show(a.m), m.show(b.m))
		}
	case "i.has":
		id := m.fold(op.N)
		var got bool
		if c.do(op, cls, func() { got = a.s.Has(m.vals[id]) }) && got != a.m.has(id) {
			r.fail(cls, "result:i.has", op, "Has(%d) is %v for %s", m.vals[id], got, m.show(a.m))
		}
	case "i.any":
		var o outcome
		var got I
		if !c.do(op, cls, func() {
			if a.m.count() == 0 {
				o = attempt(func() { a.s.Any() })
			} else {
				got = a.s.Any()
			}
		}) {
			return
		}
		if a.m.count() == 0 {
			if o.kind != "panic" {
				r.fail(cls, "result:i.any", op, "Any of the empty set returned")
			}
		} else if id := m.id(got); id < 0 || !a.m.has(id) {
			r.fail(cls, "result:i.any", op, "picked %d, not in %s", got, m.show(a.m))
		}
	case "i.elements":
		var got []I
		if !c.do(op, cls, func() { got = a.s.Elements() }) {
			return
		}
		var l []int
		for _, v := range got {
			l = append(l, m.id(v))
		}
		sort.Ints(l)
		if !sameInts(l, a.m.list()) {
			r.fail(cls+",C08", "result:i.elements", op, "elements %v, want %s", got, m.show(a.m))
		}
		full := got[:cap(got)]
		for i := range full {
			if i < 1000 {
				full[i] = m.vals[m.fold(op.P)]
			}
		}
		if rg := r.regs[op.A]; rg != nil && rg.val != nil {
			m.recheck(c, rg, "C01", "after the caller overwrote the returned slice", op)
		}
	case "i.obs":
		if rg := r.regs[op.A]; rg != nil && c.get(op.A) != nil {
			m.recheck(c, rg, "C01", "during the run", op)
		}
	case "i.key":
		b := m.get(c, op.B)
		var got [2]int
		if !c.do(op, "C10", func() {
			p := frozen.NewSet(a.s).With(b.s)
			got[0] = p.Count()
			got[1] = frozen.NewMap(frozen.KV(a.s, 1), frozen.KV(b.s, 2)).GetElse(a.s, 0)
		}) {
			return
		}
		eq := a.m.equal(b.m)
		if want := [2]int{2 - b2i(eq), 1 + b2i(eq)}; got != want {
			r.fail("C10", "result:i.key", op, "as element and key: %v, want %v for %s %s", got, want, m.show(a.m), m.show(b.m))
		}
	case "f.int":
		m.execRender(c, op, a)
	default:
		panic("op " + op.K)
	}
}

func (m *intMach[I]) execRender(c *client, op *Op, a *iv[I]) {
	st := &fstate{limit: -1, width: -1}
	var out string
	verb := "%v"
	if op.P%3 == 1 {
		verb = "%s"
	}
	if op.N%4 == 3 {
		st.limit = op.N / 4 % (a.m.count()*4 + 4)
		st.once = op.P&1 == 1
	}
	// The structural form shows bits, not elements: it only has to be written.
	plus := op.P%7 == 6
	st.plus = plus
	o, _ := c.raw(op, func() {
		switch op.N % 4 {
		case 0:
			if plus {
				verb = "%+v"
			}
			out = fmt.Sprintf(verb, a.s)
		case 1:
			out = a.s.String()
		default:
			if plus {
				verb = "%v"
			}
			a.s.Format(st, rune(verb[1]))
			out = st.buf.String()
		}
	})
	if st.failed > 0 {
		m.r.stats.faults["write-failure"]++
		if o.kind == "normal" {
			m.r.fail("C14", "write:f.int", op, "writing failed at byte %d, but this was not reported; output %.200q", st.limit, out)
		}
		if rg := m.r.regs[op.A]; rg != nil && rg.val != nil {
			m.recheck(c, rg, "C14,C01", "after rendering", op)
		}
		if o = attempt(func() { out = fmt.Sprint(a.s) }); o.kind != "normal" {
			m.r.fail("C14", "panic:f.int", op, "rendering again: %s %v", o.kind, o.val)
			return
		}
	} else if o.kind != "normal" {
		m.r.fail("C14", "panic:f.int", op, "unexpected %s %v at %s", o.kind, o.val, o.stack)
		return
	}
	if plus && op.N%4 != 1 && st.failed == 0 {
		if out == "" || a.m.count() > 0 && out == fmt.Sprintf("%+v", frozen.NewIntSet[I]()) {
			m.r.fail("C14", "plus:f.int", op, "%%+v renders as %q, contents %s", out, m.show(a.m))
		}
		return
	}
	toks, ok := splitList(out, "[", "]")
	var l []int
	for _, t := range toks {
		id := -1
		if x, err := strconv.ParseInt(t, 10, 64); err == nil && fmt.Sprint(I(x)) == t {
			id = m.id(I(x))
		} else if x, err := strconv.ParseUint(t, 10, 64); err == nil {
			id = m.id(I(x))
		}
		l = append(l, id)
	}
	sort.Ints(l)
	if !ok || !sameInts(l, a.m.list()) {
		m.r.fail("C14", "text:f.int", op, "renders as %.300q, want %s", out, m.show(a.m))
	}
}

func (m *intMach[I]) execIter(c *client, op *Op) {
	if op.K == "t.next" {
		stepIter(c, op)
		return
	}
	a := m.get(c, op.A)
	left := imap{}
	for _, id := range a.m.list() {
		left[id] = 0
	}
	var i frozen.Iterator[I]
	if !c.do(op, "C08", func() { i = a.s.Range() }) {
		return
	}
	it := &openIter{left: left, from: fmt.Sprintf("integer set r%d", op.A), cls: "C08,C12"}
	it.next = func() (int, int, bool) {
		if !i.Next() {
			return 0, 0, false
		}
		return m.id(i.Value()), 0, true
	}
	it.reread = func() (int, int) { return m.id(i.Value()), 0 }
	c.slots[100+op.N%3] = it
}

func (m *intMach[I]) final(c *client) {
	var ss []*iv[I]
	for _, id := range m.r.order {
		if v, ok := m.r.regs[id].val.(*iv[I]); ok && len(ss) < 16 {
			ss = append(ss, v)
		}
	}
	op := &Op{ID: -2, K: "final"}
	for i, a := range ss {
		for _, b := range ss[i:] {
			a, b := a, b
			want := a.m.equal(b.m)
			c.quiet(op, "C10", "final", func() {
				if e, f, s := a.s.Equal(b.s), b.s.Equal(a.s), a.s.Same(b.s); e != want || f != want || s != want {
					m.r.fail("C10,C12", "pair", nil, "integer sets %s and %s: Equal %v, reversed %v, Same %v, want %v", m.show(a.m), m.show(b.m), e, f, s, want)
				}
				if want {
					for _, seed := range []uintptr{0, 1, obsSeed} {
						if a.s.Hash(seed) != b.s.Hash(seed) {
							m.r.fail("C10,C12", "hash", nil, "equal integer sets %s have different hashes", m.show(a.m))
						}
					}
				}
			})
		}
	}
	_ = simrt.Yield
}
