package main

import (
	"fmt"
	"sort"

	"github.com/arr-ai/frozen"
)

// sv and mv are register contents: a value, its model and its first observation.
type sv[T any] struct {
	s    frozen.Set[T]
	m    ids
	o    setObs
	anon bool // never shown in a register
}

type mv[T any] struct {
	s frozen.Map[T, int]
	m imap
	o mapObs
}

type setObs struct {
	count   int
	empty   bool
	list    []int
	has     ids
	hash    uintptr
	runaway bool
}

type mapObs struct {
	count   int
	empty   bool
	list    [][2]int
	get     imap
	has     ids
	hash    uintptr
	runaway bool
}

type setMach[T any] struct {
	r *run
	d *Dom[T]
	u int
}

const obsSeed = 0x5eed

func (m *setMach[T]) probe(list []int) []int {
	if m.u <= 80 {
		p := make([]int, m.u)
		for i := range p {
			p[i] = i
		}
		return p
	}
	// Large universes: a fixed sample and a sample of the members.
	var p []int
	for i := 0; i < 40; i++ {
		p = append(p, int(mix(m.r.p.Seed, uint64(i))%uint64(m.u)))
	}
	for i := 0; i < len(list); i += 1 + len(list)/40 {
		if list[i] >= 0 {
			p = append(p, list[i])
		}
	}
	return p
}

func (m *setMach[T]) obs(s frozen.Set[T]) (o setObs) {
	m.r.stats.obs++
	o.count = s.Count()
	o.empty = s.IsEmpty()
	limit := o.count + m.u + 64
	for i := s.Range(); i.Next(); {
		o.list = append(o.list, m.d.ID(i.Value()))
		if len(o.list) > limit {
			o.runaway = true
			break
		}
	}
	sort.Ints(o.list)
	for _, i := range m.probe(o.list) {
		if s.Has(m.d.Mk(i, 1)) {
			o.has.put(i)
		}
	}
	o.hash = s.Hash(obsSeed)
	return
}

func sameInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (o *setObs) diff(n *setObs) string {
	switch {
	case o.count != n.count:
		return fmt.Sprintf("Count %d, was %d", n.count, o.count)
	case o.empty != n.empty:
		return fmt.Sprintf("IsEmpty %v, was %v", n.empty, o.empty)
	case !o.has.equal(n.has):
		return fmt.Sprintf("members %v, were %v", n.has, o.has)
	case !sameInts(o.list, n.list):
		return fmt.Sprintf("iterates over %v, was %v", abbrev(n.list), abbrev(o.list))
	case o.hash != n.hash:
		return fmt.Sprintf("hash %#x, was %#x", n.hash, o.hash)
	}
	return ""
}

func (o *mapObs) diff(n *mapObs) string {
	switch {
	case o.count != n.count:
		return fmt.Sprintf("Count %d, was %d", n.count, o.count)
	case o.empty != n.empty:
		return fmt.Sprintf("IsEmpty %v, was %v", n.empty, o.empty)
	case !o.has.equal(n.has):
		return fmt.Sprintf("keys %v, were %v", n.has, o.has)
	case !o.get.equal(n.get):
		return fmt.Sprintf("lookups %v, were %v", n.get, o.get)
	case !samePairs(o.list, n.list):
		return fmt.Sprintf("iterates over %v, was %v", n.list, o.list)
	case o.hash != n.hash:
		return fmt.Sprintf("hash %#x, was %#x", n.hash, o.hash)
	}
	return ""
}

func samePairs(a, b [][2]int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (m *setMach[T]) mobs(s frozen.Map[T, int]) (o mapObs) {
	m.r.stats.obs++
	o.count = s.Count()
	o.empty = s.IsEmpty()
	limit := o.count + m.u + 64
	for i := s.Range(); i.Next(); {
		k, v := i.Entry()
		o.list = append(o.list, [2]int{m.d.ID(k), v})
		if len(o.list) > limit {
			o.runaway = true
			break
		}
	}
	sortPairs(o.list)
	keys := make([]int, len(o.list))
	for i, p := range o.list {
		keys[i] = p[0]
	}
	o.get = imap{}
	for n, i := range m.probe(keys) {
		k := m.d.Mk(i, 1)
		if v, ok := s.Get(k); ok {
			o.get[i] = v
			o.has.put(i)
		}
		if n%5 == 0 && s.Has(k) != o.has.has(i) {
			o.has.put(i + 2*m.u) // Has and Get disagree
		}
	}
	o.hash = s.Hash(obsSeed)
	return
}

func sortPairs(a [][2]int) {
	sort.Slice(a, func(i, j int) bool {
		if a[i][0] != a[j][0] {
			return a[i][0] < a[j][0]
		}
		return a[i][1] < a[j][1]
	})
}

// restrict is the part of a model that the probe sample can see.
func (m *setMach[T]) restrict(a ids, list []int) ids {
	if m.u <= 80 {
		return a
	}
	var b ids
	for _, i := range m.probe(list) {
		if a.has(i) {
			b.put(i)
		}
	}
	return b
}

// judge compares a fresh set with its model; it returns the model to go on with.
func (m *setMach[T]) judge(c *client, op *Op, cls string, s frozen.Set[T], want ids) *sv[T] {
	v := &sv[T]{s: s, m: want}
	if !c.quiet(op, cls, op.K, func() { v.o = m.obs(s) }) {
		return nil
	}
	o := &v.o
	wl := want.list()
	hasOK := o.has.equal(m.restrict(want, o.list))
	countOK := o.count == len(wl) && o.empty == (len(wl) == 0)
	listOK := sameInts(o.list, wl)
	if hasOK && countOK && listOK {
		return v
	}
	k := cls
	if hasOK && countOK {
		k += ",C08"
	}
	switch {
	case !hasOK:
		m.r.fail(k, "result:"+op.K, op, "membership is %v, want %v", o.has, want)
	case !listOK:
		m.r.fail(k, "result:"+op.K, op, "iterates over %v, want %v", abbrev(o.list), want)
	default:
		m.r.fail(k, "result:"+op.K, op, "Count %d IsEmpty %v, want %d elements", o.count, o.empty, len(wl))
	}
	// Go on from what the value consistently shows, if it does.
	seen := idsOf(nonNeg(o.list))
	if seen.count() == len(o.list) && o.count == len(o.list) && m.restrict(seen, o.list).equal(o.has) {
		v.m = seen
		return v
	}
	return nil
}

func nonNeg(a []int) []int {
	var b []int
	for _, i := range a {
		if i >= 0 && i < 1<<20 {
			b = append(b, i)
		}
	}
	return b
}

func (m *setMach[T]) mjudge(c *client, op *Op, cls string, s frozen.Map[T, int], want imap) *mv[T] {
	v := &mv[T]{s: s, m: want}
	if !c.quiet(op, cls, op.K, func() { v.o = m.mobs(s) }) {
		return nil
	}
	o := &v.o
	var wl [][2]int
	for k, x := range want {
		wl = append(wl, [2]int{k, x})
	}
	sortPairs(wl)
	wget := want
	if m.u > 80 {
		wget = imap{}
		var keys []int
		for _, p := range o.list {
			keys = append(keys, p[0])
		}
		for _, i := range m.probe(keys) {
			if x, ok := want[i]; ok {
				wget[i] = x
			}
		}
	}
	getOK := o.get.equal(wget) && o.has.equal(idsOf(wget.keys()))
	countOK := o.count == len(wl) && o.empty == (len(wl) == 0)
	listOK := samePairs(o.list, wl)
	if getOK && countOK && listOK {
		return v
	}
	k := cls
	if getOK && countOK {
		k += ",C08"
	}
	switch {
	case !getOK:
		m.r.fail(k, "result:"+op.K, op, "lookups are %v (keys %v), want %v", o.get, o.has, wget)
	case !listOK:
		m.r.fail(k, "result:"+op.K, op, "iterates over %v, want %v", o.list, want)
	default:
		m.r.fail(k, "result:"+op.K, op, "Count %d IsEmpty %v, want %d entries", o.count, o.empty, len(wl))
	}
	seen := imap{}
	for _, p := range o.list {
		if p[0] < 0 {
			return nil
		}
		seen[p[0]] = p[1]
	}
	if len(seen) == len(o.list) && o.count == len(o.list) && m.u <= 80 && seen.equal(o.get) {
		v.m = seen
		return v
	}
	return nil
}

func (m *setMach[T]) set(c *client, id int) *sv[T] {
	if v, ok := c.get(id).(*sv[T]); ok && v != nil {
		return v
	}
	return &sv[T]{anon: true}
}

func (m *setMach[T]) mp(c *client, id int) *mv[T] {
	if v, ok := c.get(id).(*mv[T]); ok && v != nil {
		return v
	}
	return &mv[T]{m: imap{}}
}

func (m *setMach[T]) putSet(c *client, op *Op, cls string, s frozen.Set[T], want ids) {
	if v := m.judge(c, op, cls, s, want); v != nil {
		c.put(op.ID, v)
	}
}

func (m *setMach[T]) putMap(c *client, op *Op, cls string, s frozen.Map[T, int], want imap) {
	if v := m.mjudge(c, op, cls, s, want); v != nil {
		c.put(op.ID, v)
	}
}

// recheck reads a value again: it must look as it did when it was produced.
func (m *setMach[T]) recheck(c *client, rg *reg, cls, why string, op *Op) {
	what := fmt.Sprintf("r%d %s", rg.id, why)
	switch v := rg.val.(type) {
	case *sv[T]:
		var n setObs
		if c.quiet(op, cls, "recheck", func() { n = m.obs(v.s) }) {
			if d := v.o.diff(&n); d != "" {
				m.r.fail(cls, "changed", op, "%s: %s", what, d)
				v.o = n
			}
		}
	case *mv[T]:
		var n mapObs
		if c.quiet(op, cls, "recheck", func() { n = m.mobs(v.s) }) {
			if d := v.o.diff(&n); d != "" {
				m.r.fail(cls, "changed", op, "%s: %s", what, d)
				v.o = n
			}
		}
	}
}

func (m *setMach[T]) mks(x []int, tag int) []T {
	out := make([]T, len(x))
	for i, id := range x {
		out[i] = m.d.Mk(m.fold(id), tag+i)
	}
	return out
}

func (m *setMach[T]) fold(id int) int {
	if m.u == 0 {
		return 0
	}
	if id < 0 {
		id = -id
	}
	return id % m.u
}

func (m *setMach[T]) folds(x []int) []int {
	out := make([]int, len(x))
	for i, id := range x {
		out[i] = m.fold(id)
	}
	return out
}

func (m *setMach[T]) less(p int) func(a, b T) bool {
	return func(a, b T) bool {
		x := enter(cbLess)
		r := m.d.ID(a) < m.d.ID(b)
		if p&1 == 1 {
			r = m.d.ID(a) > m.d.ID(b)
		}
		leave(cbLess, x)
		return r
	}
}

// orderIDs lists ids in the order less(p) gives.
func orderIDs(a ids, p int) []int {
	l := a.list()
	if p&1 == 1 {
		for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
			l[i], l[j] = l[j], l[i]
		}
	}
	return l
}

// reenter is a callback using the library.
func (m *setMach[T]) reenter(x *opCtx, s frozen.Set[T], model ids, id int) {
	x.nest(func() {
		v := m.d.Mk(id, 3)
		ok := true
		switch x.op.Re % 5 {
		case 1:
			ok = s.Has(v) == model.has(id)
		case 2:
			ok = s.With(v).Count() == model.with(id).count()
		case 3:
			ok = s.Union(s).Count() == model.count()
		case 4:
			n := 0
			w := s.Where(func(T) bool { n++; return true })
			ok = n == model.count() && w.Equal(s)
		case 0:
			ok = s.Without(v).IsSubsetOf(s)
		}
		if !ok {
			x.r.fail("C06", "nested:"+x.op.K, x.op, "a library call (kind %d) made by a callback gave a wrong answer", x.op.Re%5)
		}
	})
}

// once checks that a callback saw each element exactly once.
func (m *setMach[T]) once(op *Op, what string, log []int, want ids) {
	l := append([]int(nil), log...)
	sort.Ints(l)
	if w := want.list(); !sameInts(l, w) {
		m.r.fail("C06", "once:"+op.K, op, "the %s was called with %v, want each of %v once", what, abbrev(l), abbrev(w))
	}
}

func (m *setMach[T]) exec(c *client, op *Op) {
	switch op.K[0] {
	case 's':
		m.execSet(c, op)
	case 'm':
		if op.K[1] == 'b' {
			m.execMapBuilder(c, op)
			return
		}
		m.execMap(c, op)
	case 'b':
		m.execBuilder(c, op)
	case 't':
		m.execIter(c, op)
	case 'f':
		m.execRender(c, op)
	default:
		panic("op " + op.K)
	}
}

func (m *setMach[T]) execSet(c *client, op *Op) {
	r := m.r
	a := m.set(c, op.A)
	var s frozen.Set[T]
	switch op.K {
	case "s.new":
		vals := m.mks(op.X, op.P)
		if !c.do(op, "C11", func() { s = frozen.NewSet(vals...) }) {
			return
		}
		want := idsOf(m.folds(op.X))
		m.putSet(c, op, "C11", s, want)
		for i := range vals {
			vals[i] = m.d.Mk(m.fold(op.P), 9)
		}
		if rg := r.regs[op.ID]; rg.val != nil && len(vals) > 0 {
			m.recheck(c, rg, "C01", "after the caller overwrote its input slice", op)
		}
	case "s.build":
		want := ids{}
		for i, id := range m.folds(op.X) {
			if op.N > 0 && i%(op.N+2) == op.N+1 {
				want.del(id)
			} else {
				want.put(id)
			}
		}
		if c.do(op, "C11", func() {
			b := frozen.NewSetBuilder[T](op.P % 100)
			for i, id := range m.folds(op.X) {
				if op.N > 0 && i%(op.N+2) == op.N+1 {
					b.Remove(m.d.Mk(id, 0))
				} else {
					b.Add(m.d.Mk(id, 0))
				}
			}
			s = b.Finish()
		}) {
			m.putSet(c, op, "C11", s, want)
		}
	case "s.chain": // With, one after the other
		want := a.m.union(idsOf(m.folds(op.X)))
		if c.do(op, "C11", func() {
			s = a.s
			for i, id := range m.folds(op.X) {
				s = s.With(m.d.Mk(id, i))
			}
		}) {
			m.putSet(c, op, "C11", s, want)
		}
	case "s.unchain":
		want := a.m.minus(idsOf(m.folds(op.X)))
		if c.do(op, "C11", func() {
			s = a.s
			for i, id := range m.folds(op.X) {
				s = s.Without(m.d.Mk(id, i))
			}
		}) {
			m.putSet(c, op, "C11", s, want)
		}
	case "s.with":
		id := m.fold(op.N)
		if c.do(op, "C11", func() { s = a.s.With(m.d.Mk(id, op.P)) }) {
			m.putSet(c, op, "C11", s, a.m.with(id))
		}
	case "s.without":
		id := m.fold(op.N)
		if c.do(op, "C11", func() { s = a.s.Without(m.d.Mk(id, op.P)) }) {
			m.putSet(c, op, "C11", s, a.m.without(id))
		}
	case "s.union", "s.inter", "s.diff", "s.sym":
		b := m.set(c, op.B)
		var want ids
		if !c.do(op, "C02", func() {
			switch op.K {
			case "s.union":
				s = a.s.Union(b.s)
			case "s.inter":
				s = a.s.Intersection(b.s)
			case "s.diff":
				s = a.s.Difference(b.s)
			default:
				s = a.s.SymmetricDifference(b.s)
			}
		}) {
			return
		}
		switch op.K {
		case "s.union":
			want = a.m.union(b.m)
		case "s.inter":
			want = a.m.inter(b.m)
		case "s.diff":
			want = a.m.minus(b.m)
		default:
			want = a.m.xor(b.m)
		}
		m.putSet(c, op, "C02", s, want)
	case "s.unionN", "s.interN":
		b, d := m.set(c, op.B), m.set(c, op.C)
		args := []frozen.Set[T]{a.s, b.s, d.s}
		if !c.do(op, "C02", func() {
			if op.K == "s.unionN" {
				s = frozen.Union(args...)
			} else {
				s = frozen.Intersection(args...)
			}
		}) {
			return
		}
		want := a.m.union(b.m).union(d.m)
		if op.K == "s.interN" {
			want = a.m.inter(b.m).inter(d.m)
		}
		m.putSet(c, op, "C02", s, want)
	case "s.where":
		var log []int
		if !c.do(op, "C02", func() {
			log = nil
			s = a.s.Where(func(v T) bool {
				x := enter(cbPred)
				id := m.d.ID(v)
				log = append(log, id)
				if op.Re > 0 {
					m.reenter(x, a.s, a.m, id)
				}
				leave(cbPred, x)
				return predOn(op.P, id)
			})
		}) {
			return
		}
		m.once(op, "predicate", log, a.m)
		var want ids
		for _, id := range a.m.list() {
			if predOn(op.P, id) {
				want.put(id)
			}
		}
		m.putSet(c, op, "C02,C06", s, want)
	case "s.reduce", "s.reduce2":
		m.execReduce(c, op, a)
	case "s.eq", "s.subset", "s.same":
		b := m.set(c, op.B)
		var got, want bool
		cls := "C02"
		if !c.do(op, "C02,C10", func() {
			switch op.K {
			case "s.eq":
				got = a.s.Equal(b.s)
			case "s.subset":
				got = a.s.IsSubsetOf(b.s)
			default:
				got = a.s.Same(b.s)
			}
		}) {
			return
		}
		if op.K == "s.subset" {
			want = a.m.subset(b.m)
		} else {
			want = a.m.equal(b.m)
			cls = "C02,C10"
			if op.K == "s.same" {
				cls = "C10"
			}
		}
		if got != want {
			r.fail(cls, "result:"+op.K, op, "got %v for %v and %v", got, a.m, b.m)
		}
	case "s.has":
		id := m.fold(op.N)
		var got bool
		if c.do(op, "C11", func() { got = a.s.Has(m.d.Mk(id, op.P)) }) && got != a.m.has(id) {
			r.fail("C11", "result:s.has", op, "Has(%d) is %v for %v", id, got, a.m)
		}
	case "s.any":
		var got int
		var o outcome
		if !c.do(op, "C11", func() {
			if a.m.count() == 0 {
				o = attempt(func() { a.s.Any() })
				return
			}
			got = m.d.ID(a.s.Any())
		}) {
			return
		}
		if a.m.count() == 0 {
			if o.kind != "panic" {
				r.fail("C11", "result:s.any", op, "Any of the empty set returned")
			}
		} else if !a.m.has(got) {
			r.fail("C11", "result:s.any", op, "picked %d, not a member of %v", got, a.m)
		}
	case "s.anyn":
		n := op.N % (a.m.count() + 2)
		if !c.do(op, "C11", func() { s = a.s.AnyN(n) }) {
			return
		}
		var o setObs
		if !c.quiet(op, "C11", op.K, func() { o = m.obs(s) }) {
			return
		}
		wantN := n
		if k := a.m.count(); wantN > k {
			wantN = k
		}
		got := idsOf(nonNeg(o.list))
		if got.count() != wantN || !got.subset(a.m) || o.count != wantN {
			r.fail("C11", "result:s.anyn", op, "AnyN(%d) of %v gave %v (Count %d)", n, a.m, got, o.count)
			return
		}
		m.putSet(c, op, "C11", s, got)
	case "s.elements", "s.ordered", "s.firstn":
		var got []T
		n := op.N % (a.m.count() + 3)
		if !c.do(op, map[bool]string{true: "C11", false: "C08"}[op.K == "s.elements"], func() {
			switch op.K {
			case "s.elements":
				got = a.s.Elements()
			case "s.ordered":
				got = a.s.OrderedElements(m.less(op.P))
			default:
				got = a.s.OrderedFirstN(n, m.less(op.P))
			}
		}) {
			return
		}
		var gi []int
		for _, v := range got {
			gi = append(gi, m.d.ID(v))
		}
		want := orderIDs(a.m, op.P)
		cls := "C08"
		switch op.K {
		case "s.elements":
			sort.Ints(gi)
			want = a.m.list()
			cls = "C11,C08"
		case "s.firstn":
			if n < len(want) {
				want = want[:n]
			}
		}
		if !sameInts(gi, want) {
			r.fail(cls, "result:"+op.K, op, "got %v, want %v", abbrev(gi), abbrev(want))
		}
		for i := range got {
			got[i] = m.d.Mk(m.fold(op.P), 9)
		}
		if full := got[:cap(got)]; len(full) < 1000 {
			for i := range full {
				full[i] = m.d.Mk(m.fold(op.P+1), 9)
			}
		}
		if rg := r.regs[op.A]; rg != nil && rg.val != nil {
			m.recheck(c, rg, "C01", "after the caller overwrote the returned slice", op)
		}
	case "s.first":
		if a.m.count() == 0 {
			return
		}
		var got any
		if !c.do(op, "C08", func() { got = a.s.First(m.less(op.P)) }) {
			return
		}
		if v, ok := got.(T); !ok || m.d.ID(v) != orderIDs(a.m, op.P)[0] {
			r.fail("C08", "result:s.first", op, "First is %v, want id %d", got, orderIDs(a.m, op.P)[0])
		}
	case "s.firstnset":
		n := op.N % (a.m.count() + 3)
		if !c.do(op, "C08", func() { s = a.s.FirstN(n, m.less(op.P)) }) {
			return
		}
		l := orderIDs(a.m, op.P)
		if n < len(l) {
			l = l[:n]
		}
		m.putSet(c, op, "C08", s, idsOf(l))
	case "s.map":
		var log []int
		if !c.do(op, "C11", func() {
			log = nil
			s = frozen.SetMap(a.s, func(v T) T {
				x := enter(cbMap)
				id := m.d.ID(v)
				log = append(log, id)
				if op.Re > 0 {
					m.reenter(x, a.s, a.m, id)
				}
				leave(cbMap, x)
				return m.d.Mk(mapOn(op.P, id, m.u), id)
			})
		}) {
			return
		}
		m.once(op, "mapper", log, a.m)
		var want ids
		for _, id := range a.m.list() {
			want.put(mapOn(op.P, id, m.u))
		}
		m.putSet(c, op, "C11,C06", s, want)
	case "s.mapstr":
		var log []int
		var t frozen.Set[string]
		if !c.do(op, "C11", func() {
			log = nil
			t = frozen.SetMap(a.s, func(v T) string {
				x := enter(cbMap)
				id := m.d.ID(v)
				log = append(log, id)
				leave(cbMap, x)
				return fmt.Sprint("x", mapOn(op.P, id, m.u))
			})
		}) {
			return
		}
		m.once(op, "mapper", log, a.m)
		want := map[string]bool{}
		for _, id := range a.m.list() {
			want[fmt.Sprint("x", mapOn(op.P, id, m.u))] = true
		}
		c.quiet(op, "C11,C06", op.K, func() {
			n, ok := 0, t.Count() == len(want)
			for i := t.Range(); i.Next() && n <= len(want); n++ {
				ok = ok && want[i.Value()]
			}
			for _, k := range sortedKeys(want) {
				ok = ok && t.Has(k)
			}
			if !ok || n != len(want) {
				r.fail("C11,C06", "result:s.mapstr", op, "mapping gives %v, want the keys of %v", t, want)
			}
		})
	case "s.groupby":
		m.execGroupBy(c, op, a)
	case "s.asany":
		var back frozen.Set[T]
		var any1 frozen.Set[any]
		if !c.do(op, "C11", func() {
			if op.N&1 == 0 {
				any1 = a.s.AsSetAny()
			} else {
				any1 = frozen.SetAs[any](a.s)
			}
			back = frozen.SetAs[T](any1)
		}) {
			return
		}
		c.quiet(op, "C11", op.K, func() {
			ok := any1.Count() == a.m.count()
			// Elements with only a typed Equal are compared by == as any.
			for i := 0; i < m.u && i < 200 && m.d.Name != "el"; i++ {
				ok = ok && any1.Has(m.d.Mk(i, 5)) == a.m.has(i)
			}
			if !ok {
				r.fail("C11", "result:s.asany", op, "conversion to Set[any] of %v gave %v", a.m, any1)
			}
		})
		m.putSet(c, op, "C11", back, a.m)
	case "s.powerset":
		m.execPowerset(c, op, a)
	case "s.pool": // sets as elements of a set
		m.execPool(c, op)
	case "s.key": // sets as keys of a map
		b, d := m.set(c, op.B), m.set(c, op.C)
		var mm frozen.Map[frozen.Set[T], int]
		var g [3]int
		if !c.do(op, "C10", func() {
			mm = frozen.NewMap(frozen.KV(a.s, 1)).With(b.s, 2)
			g[0], g[1], g[2] = mm.GetElse(a.s, 0), mm.GetElse(b.s, 0), mm.GetElse(d.s, 0)
		}) {
			return
		}
		w := [3]int{1, 2, 0}
		if a.m.equal(b.m) {
			w[0] = 2
		}
		if d.m.equal(a.m) {
			w[2] = w[0]
		} else if d.m.equal(b.m) {
			w[2] = 2
		}
		if g != w {
			r.fail("C10", "result:s.key", op, "as map keys: lookups %v, want %v (sets %v %v %v)", g, w, a.m, b.m, d.m)
		}
	case "s.obs":
		if rg := r.regs[op.A]; rg != nil {
			if c.get(op.A) != nil {
				m.recheck(c, rg, "C01", "during the run", op)
			}
		}
	case "s.fromkeys":
		var mm frozen.Map[T, int]
		var log []int
		if !c.do(op, "C11", func() {
			log = nil
			mm = frozen.NewMapFromKeys(a.s, func(k T) int {
				x := enter(cbMap)
				id := m.d.ID(k)
				log = append(log, id)
				if op.Re > 0 {
					m.reenter(x, a.s, a.m, id)
				}
				leave(cbMap, x)
				return valOn(op.P, id, 0)
			})
		}) {
			return
		}
		m.once(op, "value function", log, a.m)
		want := imap{}
		for _, id := range a.m.list() {
			want[id] = valOn(op.P, id, 0)
		}
		m.putMap(c, op, "C11,C06", mm, want)
	case "s.iota":
		m.execIota(c, op)
	default:
		panic("op " + op.K)
	}
}

// execIota builds sets of ints through the arithmetic constructors and uses
// them as values like any other.
func (m *setMach[T]) execIota(c *client, op *Op) {
	sm, ok := any(m).(*setMach[int])
	if !ok {
		return
	}
	// Element i is the int 3i, except for 1, 2 and 3.
	var s frozen.Set[int]
	var f func()
	var want ids
	step := func(start, stop, by int) {
		for i := start; by > 0 && i < stop || by < 0 && i > stop; i += by {
			if i%3 == 0 && (i == 0 || i > 9) {
				want.put(i / 3)
			}
		}
	}
	lo, hi := 4+op.N%40, 4+op.N%40+op.P%60
	switch op.P % 4 {
	case 0:
		s3, e3 := lo*3, hi*3+op.N%3
		f = func() { s = frozen.Iota3(s3, e3, 3) }
		step(s3, e3, 3)
	case 1: // downwards
		s3, e3 := hi*3, lo*3-op.N%2-1
		f = func() { s = frozen.Iota3(s3, e3, -3) }
		step(s3, e3, -3)
	case 2: // not only multiples of three: take those
		e3 := hi * 3
		f = func() {
			if op.N&1 == 0 {
				s = frozen.Iota(e3)
			} else {
				s = frozen.Iota2(lo*3, e3)
			}
			if n := e3 - (op.N&1)*lo*3; s.Count() != n {
				panic(fmt.Sprintf("Iota holds %d elements, want %d", s.Count(), n))
			}
			s = s.Where(func(i int) bool { return i%3 == 0 && (i == 0 || i > 9) })
		}
		step((op.N&1)*lo*3, e3, 3)
	default:
		var mask uint64
		for _, i := range []int{op.N % 21, op.P % 21, op.N / 21 % 21, op.P / 21 % 21, 21} {
			if i == 0 || i > 3 && (i < 21 || op.N&1 == 1) {
				mask |= 1 << (3 * i)
				want.put(i)
			}
		}
		f = func() { s = frozen.NewSetFromMask64(mask) }
	}
	if !c.do(op, "C11", f) {
		return
	}
	for _, i := range want.list() {
		if i >= m.u {
			return
		}
	}
	sm.putSet(c, op, "C11", s, want)
}

func (m *setMach[T]) execReduce(c *client, op *Op, a *sv[T]) {
	r := m.r
	var pool map[int]int
	var res T
	var got bool
	var next int
	var bad string
	feed := func(v T) {
		id := m.d.ID(v)
		if pool[id] == 0 {
			bad = fmt.Sprintf("the reducer was given %d again or without reason", id)
			return
		}
		pool[id]--
	}
	if !c.do(op, "C02,C06", func() {
		pool, next, bad = map[int]int{}, m.u, ""
		for _, id := range a.m.list() {
			pool[id] = 1
		}
		if op.K == "s.reduce" {
			res, got = a.s.Reduce(func(elems ...T) T {
				x := enter(cbReduce)
				if len(elems) == 0 {
					bad = "the reducer was called with no arguments"
				}
				for _, e := range elems {
					feed(e)
				}
				id := next
				next++
				pool[id]++
				if op.Re > 0 {
					m.reenter(x, a.s, a.m, m.fold(op.Re))
				}
				if op.N&1 == 1 {
					for i := range elems {
						elems[i] = m.d.Mk(m.fold(i), 7)
					}
				}
				leave(cbReduce, x)
				return m.d.Mk(id, 0)
			})
		} else {
			res, got = a.s.Reduce2(func(x1, x2 T) T {
				x := enter(cbReduce)
				feed(x1)
				feed(x2)
				id := next
				next++
				pool[id]++
				leave(cbReduce, x)
				return m.d.Mk(id, 0)
			})
		}
	}) {
		return
	}
	if bad != "" {
		r.fail("C06", "reduce:"+op.K, op, "%s", bad)
	}
	if got != (a.m.count() > 0) {
		r.fail("C02,C06", "result:"+op.K, op, "ok is %v for %v", got, a.m)
	}
	if got && bad == "" {
		var left []int
		for id, n := range pool {
			for ; n > 0; n-- {
				left = append(left, id)
			}
		}
		sort.Ints(left)
		if id := m.d.ID(res); len(left) != 1 || left[0] != id {
			r.fail("C02,C06", "result:"+op.K, op, "result %d, but these were never reduced: %v (elements %v, results from %d)", id, abbrev(left), a.m, m.u)
		}
	}
	if rg := r.regs[op.A]; rg != nil && rg.val != nil && op.N&1 == 1 {
		m.recheck(c, rg, "C01", "after the reducer overwrote its arguments", op)
	}
}

func (m *setMach[T]) execGroupBy(c *client, op *Op, a *sv[T]) {
	r := m.r
	var log []int
	var g frozen.Map[int, frozen.Set[T]]
	key := func(id int) int { return mapOn(op.P, id, 12) }
	if !c.do(op, "C11", func() {
		log = nil
		g = frozen.SetGroupBy(a.s, func(v T) int {
			x := enter(cbGroup)
			id := m.d.ID(v)
			log = append(log, id)
			if op.Re > 0 {
				m.reenter(x, a.s, a.m, id)
			}
			leave(cbGroup, x)
			return key(id)
		})
	}) {
		return
	}
	m.once(op, "grouping function", log, a.m)
	want := map[int]ids{}
	for _, id := range a.m.list() {
		w := want[key(id)]
		w.put(id)
		want[key(id)] = w
	}
	var pick frozen.Set[T]
	pickOK := false
	var pm ids
	c.quiet(op, "C11,C06", op.K, func() {
		if g.Count() != len(want) {
			r.fail("C11,C06", "result:s.groupby", op, "%d groups, want %d", g.Count(), len(want))
		}
		n := 0
		for i := g.Range(); i.Next() && n <= len(want); n++ {
			w, ok := want[i.Key()]
			o := m.obs(i.Value())
			if !ok || !sameInts(o.list, w.list()) || o.count != w.count() || !o.has.equal(m.restrict(w, o.list)) {
				r.fail("C11,C06", "result:s.groupby", op, "group %d is %v, want %v", i.Key(), abbrev(o.list), w)
			} else if i.Key() == op.N%12 || !pickOK {
				pick, pm, pickOK = i.Value(), w, true
			}
			if s, has := g.Get(i.Key()); !has || s.Count() != o.count {
				r.fail("C11", "result:s.groupby", op, "group %d cannot be looked up", i.Key())
			}
		}
		if n != len(want) {
			r.fail("C11,C08", "result:s.groupby", op, "%d groups iterated, want %d", n, len(want))
		}
	})
	if pickOK {
		m.putSet(c, op, "C11", pick, pm)
	}
}

func (m *setMach[T]) execPowerset(c *client, op *Op, a *sv[T]) {
	r := m.r
	var p frozen.Set[frozen.Set[T]]
	n := a.m.count()
	if n > 6 {
		return
	}
	if !c.do(op, "C11", func() { p = frozen.Powerset(a.s) }) {
		return
	}
	c.quiet(op, "C11", op.K, func() {
		if p.Count() != 1<<uint(n) {
			r.fail("C11", "result:s.powerset", op, "%d subsets, want %d", p.Count(), 1<<uint(n))
		}
		seen := map[string]bool{}
		k := 0
		for i := p.Range(); i.Next() && k <= 1<<uint(n); k++ {
			o := m.obs(i.Value())
			sub := idsOf(nonNeg(o.list))
			if !sub.subset(a.m) || len(o.list) != sub.count() || seen[sub.String()] {
				r.fail("C11", "result:s.powerset", op, "bad or repeated subset %v of %v", o.list, a.m)
			}
			seen[sub.String()] = true
		}
		if k != 1<<uint(n) {
			r.fail("C11,C08", "result:s.powerset", op, "%d subsets iterated, want %d", k, 1<<uint(n))
		}
		l := a.m.list()
		for j := 0; j < 4; j++ {
			var vs []T
			pick := mix(uint64(op.P), uint64(j))
			for b, id := range l {
				if pick>>uint(b)&1 == 1 {
					vs = append(vs, m.d.Mk(id, 2))
				}
			}
			if !p.Has(frozen.NewSet(vs...)) {
				r.fail("C11,C10", "result:s.powerset", op, "a subset of %v is not found", a.m)
			}
		}
	})
}

// execPool uses sets as elements: membership follows contents only.
func (m *setMach[T]) execPool(c *client, op *Op) {
	b := m.set(c, op.B)
	a, d := m.set(c, op.A), m.set(c, op.C)
	var p frozen.Set[frozen.Set[T]]
	var got [4]int
	if !c.do(op, "C10", func() {
		p = frozen.NewSet(a.s).With(b.s)
		got[0] = p.Count()
		got[1] = b2i(p.Has(d.s))
		got[2] = p.Without(d.s).Count()
		got[3] = b2i(p.Same(frozen.NewSet(b.s, a.s)))
	}) {
		return
	}
	n := 2 - b2i(a.m.equal(b.m))
	in := b2i(d.m.equal(a.m) || d.m.equal(b.m))
	if want := [4]int{n, in, n - in, 1}; got != want {
		m.r.fail("C10", "result:s.pool", op, "as elements of a set: (count, has, count without, order-free) = %v, want %v for %v %v %v", got, want, a.m, b.m, d.m)
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (m *setMach[T]) execMap(c *client, op *Op) {
	r := m.r
	var s frozen.Map[T, int]
	val := func(i int) int { return valOn(op.P, i, op.N) }
	switch op.K {
	case "m.new", "m.build":
		want := imap{}
		var kvs []frozen.KeyValue[T, int]
		for i, id := range m.folds(op.X) {
			want[id] = val(i)
			kvs = append(kvs, frozen.KV(m.d.Mk(id, i), val(i)))
		}
		if !c.do(op, "C11", func() {
			if op.K == "m.new" {
				s = frozen.NewMap(kvs...)
				return
			}
			b := frozen.NewMapBuilder[T, int](op.N % 50)
			for _, kv := range kvs {
				b.Put(kv.Key, kv.Value)
			}
			s = b.Finish()
		}) {
			return
		}
		m.putMap(c, op, "C11", s, want)
		for i := range kvs {
			kvs[i].Value = -7
		}
		if rg := r.regs[op.ID]; rg.val != nil && len(kvs) > 0 {
			m.recheck(c, rg, "C01", "after the caller overwrote its input slice", op)
		}
		return
	case "m.gomap":
		want := imap{}
		for i, id := range m.folds(op.X) {
			want[id] = val(i)
		}
		if m.d.GoMap == nil {
			return
		}
		if c.do(op, "C11", func() { s = m.d.GoMap(m.d, want) }) {
			m.putMap(c, op, "C11", s, want)
		}
		return
	}
	a := m.mp(c, op.A)
	switch op.K {
	case "m.with":
		id := m.fold(op.N)
		if c.do(op, "C11", func() { s = a.s.With(m.d.Mk(id, op.P), op.P) }) {
			w := a.m.clone()
			w[id] = op.P
			m.putMap(c, op, "C11", s, w)
		}
	case "m.without":
		id := m.fold(op.N)
		if c.do(op, "C11", func() { s = a.s.Without(m.d.Mk(id, op.P)) }) {
			w := a.m.clone()
			delete(w, id)
			m.putMap(c, op, "C11", s, w)
		}
	case "m.chain":
		w := a.m.clone()
		for i, id := range m.folds(op.X) {
			w[id] = val(i)
		}
		if c.do(op, "C11", func() {
			s = a.s
			for i, id := range m.folds(op.X) {
				s = s.With(m.d.Mk(id, i), val(i))
			}
		}) {
			m.putMap(c, op, "C11", s, w)
		}
	case "m.unchain":
		w := a.m.clone()
		for _, id := range m.folds(op.X) {
			delete(w, id)
		}
		if c.do(op, "C11", func() {
			s = a.s
			for i, id := range m.folds(op.X) {
				s = s.Without(m.d.Mk(id, i))
			}
		}) {
			m.putMap(c, op, "C11", s, w)
		}
	case "m.get":
		id := m.fold(op.N)
		k := m.d.Mk(id, op.P)
		wv, wok := a.m[id]
		var gv, ev, fv, calls int
		var gok, hok bool
		var mo outcome
		if !c.do(op, "C11", func() {
			gv, gok = a.s.Get(k)
			hok = a.s.Has(k)
			ev = a.s.GetElse(k, -1)
			calls = 0
			fv = a.s.GetElseFunc(k, func() int {
				x := enter(cbElse)
				calls++
				leave(cbElse, x)
				return -2
			})
			mo = attempt(func() {
				if v := a.s.MustGet(k); v != wv {
					gv = -9
				}
			})
			if x := r.cur[c.id]; mo.kind == "panic" && x != nil && x.fired {
				panic(mo.val) // the injected failure, not MustGet's own
			}
		}) {
			return
		}
		ok := gok == wok && hok == wok && gv == wv
		if wok {
			ok = ok && ev == wv && fv == wv && calls == 0 && mo.kind == "normal"
		} else {
			ok = ok && ev == -1 && fv == -2 && calls == 1 && mo.kind == "panic"
		}
		if !ok {
			r.fail("C11", "result:m.get", op, "key %d: Get %d,%v Has %v GetElse %d GetElseFunc %d (%d calls) MustGet %s; want %d,%v", id, gv, gok, hok, ev, fv, calls, mo.kind, wv, wok)
		}
	case "m.any":
		var k, v int
		var o outcome
		if !c.do(op, "C11", func() {
			if len(a.m) == 0 {
				o = attempt(func() { a.s.Any() })
				return
			}
			kk, vv := a.s.Any()
			k, v = m.d.ID(kk), vv
		}) {
			return
		}
		if len(a.m) == 0 {
			if o.kind != "panic" {
				r.fail("C11", "result:m.any", op, "Any of the empty map returned")
			}
		} else if w, ok := a.m[k]; !ok || w != v {
			r.fail("C11", "result:m.any", op, "picked %d:%d, not an entry of %v", k, v, a.m)
		}
	case "m.keys":
		var ks frozen.Set[T]
		if c.do(op, "C11", func() { ks = a.s.Keys() }) {
			m.putSet(c, op, "C11", ks, idsOf(a.m.keys()))
		}
	case "m.values":
		var vs frozen.Set[int]
		if !c.do(op, "C11", func() { vs = a.s.Values() }) {
			return
		}
		want := map[int]bool{}
		for _, v := range a.m {
			want[v] = true
		}
		c.quiet(op, "C11", op.K, func() {
			ok := vs.Count() == len(want)
			n := 0
			for i := vs.Range(); i.Next() && n <= len(want); n++ {
				ok = ok && want[i.Value()]
			}
			for _, v := range sortedKeys(want) {
				ok = ok && vs.Has(v)
			}
			if !ok || n != len(want) {
				r.fail("C11", "result:m.values", op, "values %v, want those of %v", vs, a.m)
			}
		})
	case "m.project":
		keys := m.mks(op.X, 4)
		want := imap{}
		for _, id := range m.folds(op.X) {
			if v, ok := a.m[id]; ok {
				want[id] = v
			}
		}
		if c.do(op, "C11", func() { s = a.s.Project(keys...) }) {
			m.putMap(c, op, "C11", s, want)
		}
	case "m.where":
		var log [][2]int
		if !c.do(op, "C02", func() {
			log = nil
			s = a.s.Where(func(k T, v int) bool {
				x := enter(cbPred)
				id := m.d.ID(k)
				log = append(log, [2]int{id, v})
				if op.Re > 0 {
					m.mreenter(x, a, id)
				}
				leave(cbPred, x)
				return predOn(op.P, id*7+v)
			})
		}) {
			return
		}
		m.ponce(op, "predicate", log, a.m)
		want := imap{}
		for k, v := range a.m {
			if predOn(op.P, k*7+v) {
				want[k] = v
			}
		}
		m.putMap(c, op, "C02,C06", s, want)
	case "m.mapmap":
		var log [][2]int
		if !c.do(op, "C11", func() {
			log = nil
			s = frozen.MapMap(a.s, func(k T, v int) int {
				x := enter(cbMap)
				id := m.d.ID(k)
				log = append(log, [2]int{id, v})
				if op.Re > 0 {
					m.mreenter(x, a, id)
				}
				leave(cbMap, x)
				return valOn(op.P, id, v)
			})
		}) {
			return
		}
		m.ponce(op, "mapper", log, a.m)
		want := imap{}
		for k, v := range a.m {
			want[k] = valOn(op.P, k, v)
		}
		m.putMap(c, op, "C11,C06", s, want)
	case "m.merge":
		b := m.mp(c, op.B)
		var log [][2]int
		var bad string
		if !c.do(op, "C02", func() {
			log, bad = nil, ""
			s = a.s.Merge(b.s, func(k T, x1, x2 int) int {
				x := enter(cbResolve)
				id := m.d.ID(k)
				log = append(log, [2]int{id, 0})
				if v1, ok := a.m[id]; !ok || v1 != x1 {
					bad = fmt.Sprintf("key %d with left value %d, want %d (present %v)", id, x1, v1, ok)
				} else if v2, ok := b.m[id]; !ok || v2 != x2 {
					bad = fmt.Sprintf("key %d with right value %d, want %d (present %v)", id, x2, v2, ok)
				}
				if op.Re > 0 {
					m.mreenter(x, a, id)
				}
				leave(cbResolve, x)
				return resolveOn(op.P, id, x1, x2)
			})
		}) {
			return
		}
		if bad != "" {
			r.fail("C06", "args:m.merge", op, "the resolver was called for %s", bad)
		}
		shared, want := imap{}, a.m.clone()
		for k, v := range b.m {
			if w, ok := a.m[k]; ok {
				shared[k] = 0
				want[k] = resolveOn(op.P, k, w, v)
			} else {
				want[k] = v
			}
		}
		m.ponce(op, "resolver", log, shared)
		m.putMap(c, op, "C02,C06", s, want)
	case "m.update":
		b := m.mp(c, op.B)
		want := a.m.clone()
		for k, v := range b.m {
			want[k] = v
		}
		if c.do(op, "C02", func() { s = a.s.Update(b.s) }) {
			m.putMap(c, op, "C02", s, want)
		}
	case "m.eq", "m.same":
		b := m.mp(c, op.B)
		var got bool
		cls := "C02,C10"
		if op.K == "m.same" {
			cls = "C10"
		}
		if c.do(op, cls, func() {
			if op.K == "m.eq" {
				got = a.s.Equal(b.s)
			} else {
				got = a.s.Same(b.s)
			}
		}) && got != a.m.equal(b.m) {
			r.fail(cls, "result:"+op.K, op, "got %v for %v and %v", got, a.m, b.m)
		}
	case "m.key":
		b, d := m.mp(c, op.B), m.mp(c, op.C)
		var got [3]int
		if !c.do(op, "C10", func() {
			p := frozen.NewSet(a.s).With(b.s)
			got[0] = p.Count()
			got[1] = b2i(p.Has(d.s))
			q := frozen.NewMap(frozen.KV(a.s, 1), frozen.KV(b.s, 2))
			got[2] = q.GetElse(a.s, 0)
		}) {
			return
		}
		eq := a.m.equal(b.m)
		want := [3]int{2 - b2i(eq), b2i(d.m.equal(a.m) || d.m.equal(b.m)), 1 + b2i(eq)}
		if got != want {
			r.fail("C10", "result:m.key", op, "maps as elements/keys: %v, want %v for %v %v %v", got, want, a.m, b.m, d.m)
		}
	case "m.nest": // maps with sets as values
		mk := func(flip bool) frozen.Map[T, frozen.Set[int]] {
			return frozen.MapMap(a.s, func(k T, v int) frozen.Set[int] {
				t := frozen.NewSet(v, v+1, m.d.ID(k))
				if flip {
					t = frozen.NewSet(m.d.ID(k)).With(v + 9).With(v + 1).With(v).Without(v + 9)
					if m.d.ID(k) == v+9 {
						t = t.With(v + 9)
					}
				}
				return t
			})
		}
		var ok bool
		if c.do(op, "C10", func() {
			p, q := mk(false), mk(true)
			ok = p.Equal(q) && q.Equal(p) && p.Same(q) && p.Hash(3) == q.Hash(3)
			if id := m.fold(op.N); p.Has(m.d.Mk(id, 0)) {
				z := q.With(m.d.Mk(id, 0), frozen.NewSet(-5))
				ok = ok && !p.Equal(z) && !z.Equal(p)
			}
		}) && !ok {
			r.fail("C10", "result:m.nest", op, "maps of equal sets built differently are told apart (or different ones are not): keys %v", a.m)
		}
	case "m.obs":
		if rg := r.regs[op.A]; rg != nil && c.get(op.A) != nil {
			m.recheck(c, rg, "C01", "during the run", op)
		}
	case "m.togomap":
		m.execToGoMap(c, op, a)
	default:
		panic("op " + op.K)
	}
}

func toGo[K comparable](m frozen.Map[K, int]) any { return frozen.MapToGoMap(m) }

func (m *setMach[T]) execToGoMap(c *client, op *Op, a *mv[T]) {
	got := imap{}
	n := -1
	conv := func() {
		switch s := any(a.s).(type) {
		case frozen.Map[int, int]:
			g := frozen.MapToGoMap(s)
			n = len(g)
			for k, v := range g {
				got[domInt.ID(k)] = v
			}
			for k := range g {
				g[k] = -3
			}
		case frozen.Map[string, int]:
			g := frozen.MapToGoMap(s)
			n = len(g)
			for k, v := range g {
				got[domStr.ID(k)] = v
			}
			for k := range g {
				delete(g, k)
			}
		case frozen.Map[Pt, int]:
			g := frozen.MapToGoMap(s)
			n = len(g)
			for k, v := range g {
				got[domPt.ID(k)] = v
			}
		}
	}
	if !c.do(op, "C11", func() { got = imap{}; conv() }) || n < 0 {
		return
	}
	if n != len(a.m) || !got.equal(a.m) {
		m.r.fail("C11", "result:m.togomap", op, "Go map %v, want %v", got, a.m)
	}
	if rg := m.r.regs[op.A]; rg != nil && rg.val != nil {
		m.recheck(c, rg, "C01", "after the caller changed the returned Go map", op)
	}
}

func (m *setMach[T]) ponce(op *Op, what string, log [][2]int, want imap) {
	l := append([][2]int(nil), log...)
	sortPairs(l)
	var w [][2]int
	for k, v := range want {
		w = append(w, [2]int{k, v})
	}
	sortPairs(w)
	if !samePairs(l, w) {
		m.r.fail("C06", "once:"+op.K, op, "the %s was called for %v, want each of %v once", what, l, w)
	}
}

func (m *setMach[T]) mreenter(x *opCtx, a *mv[T], id int) {
	x.nest(func() {
		k := m.d.Mk(id, 3)
		ok := true
		switch x.op.Re % 4 {
		case 0:
			v, has := a.s.Get(k)
			w, had := a.m[id]
			ok = has == had && v == w
		case 1:
			ok = a.s.With(k, 5).GetElse(k, 0) == 5
		case 2:
			ok = a.s.Update(a.s).Count() == len(a.m)
		case 3:
			n := 0
			a.s.Merge(a.s, func(_ T, p, _ int) int { n++; return p })
			ok = n == len(a.m)
		}
		if !ok {
			x.r.fail("C06", "nested:"+x.op.K, x.op, "a library call (kind %d) made by a callback gave a wrong answer", x.op.Re%4)
		}
	})
}

// final compares all pairs of values.
func (m *setMach[T]) final(c *client) {
	r := m.r
	var ss []*sv[T]
	var ms []*mv[T]
	for _, id := range r.order {
		switch v := r.regs[id].val.(type) {
		case *sv[T]:
			if len(ss) < 14 {
				ss = append(ss, v)
			}
		case *mv[T]:
			if len(ms) < 14 {
				ms = append(ms, v)
			}
		}
	}
	op := &Op{ID: -2, K: "final"}
	for i, a := range ss {
		for _, b := range ss[i:] {
			a, b := a, b
			want := a.m.equal(b.m)
			c.quiet(op, "C10", "final", func() {
				if e, f, s := a.s.Equal(b.s), b.s.Equal(a.s), a.s.Same(b.s); e != want || f != want || s != want {
					r.fail("C10", "pair", nil, "sets %v and %v: Equal %v, reversed %v, Same %v, want %v", a.m, b.m, e, f, s, want)
				}
				if want {
					for _, seed := range []uintptr{0, 1, obsSeed} {
						if x, y := a.s.Hash(seed), b.s.Hash(seed); x != y {
							r.fail("C10", "hash", nil, "equal sets %v hash to %#x and %#x (seed %d)", a.m, x, y, seed)
						}
					}
				}
			})
		}
	}
	for i, a := range ms {
		for _, b := range ms[i:] {
			a, b := a, b
			want := a.m.equal(b.m)
			c.quiet(op, "C10", "final", func() {
				if e, f, s := a.s.Equal(b.s), b.s.Equal(a.s), a.s.Same(b.s); e != want || f != want || s != want {
					r.fail("C10", "pair", nil, "maps %v and %v: Equal %v, reversed %v, Same %v, want %v", a.m, b.m, e, f, s, want)
				}
				if want {
					for _, seed := range []uintptr{0, 1, obsSeed} {
						if x, y := a.s.Hash(seed), b.s.Hash(seed); x != y {
							r.fail("C10", "hash", nil, "equal maps %v hash to %#x and %#x (seed %d)", a.m, x, y, seed)
						}
					}
				}
			})
		}
	}
	// Untyped comparison with something else.
	if len(ss) > 0 && len(ms) > 0 {
		c.quiet(op, "C10", "final", func() {
			if ss[0].s.Same(ms[0].s) || ms[0].s.Same(ss[0].s) || ss[0].s.Same(nil) || ss[0].s.Same(3) {
				r.fail("C10", "same-type", nil, "Same holds between a set and something else")
			}
		})
	}
	// Entries.
	c.quiet(op, "C10", "final", func() {
		for i, a := range ss {
			for _, b := range ss {
				want := a.m.equal(b.m)
				p, q := frozen.KV(a.s, i&1), frozen.KV(b.s, i&1)
				if p.Equal(q) != want || p.Same(q) != want || want && p.Hash(5) != q.Hash(5) {
					r.fail("C10", "kv", nil, "entries with keys %v and %v: Equal %v, Same %v, want %v", a.m, b.m, p.Equal(q), p.Same(q), want)
				}
				if z := frozen.KV(b.s, i&1+2); p.Equal(z) || p.Same(z) {
					r.fail("C10", "kv", nil, "entries with different values are equal")
				}
			}
			if i > 5 {
				break
			}
		}
	})
}
