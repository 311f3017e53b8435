package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/arr-ai/frozen"
	"github.com/arr-ai/frozen/lazy"
)

// lset is the model of a lazy set: keys of its elements. A base element's key
// is its id, a set's key is "{...}".
type lset map[string]bool

func (a lset) keys() []string {
	k := make([]string, 0, len(a))
	for x := range a {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}

func (a lset) key() string { return "{" + strings.Join(a.keys(), ",") + "}" }

func (a lset) equal(b lset) bool { return a.subset(b) && len(a) == len(b) }

func (a lset) subset(b lset) bool {
	for k := range a {
		if !b[k] {
			return false
		}
	}
	return true
}

func (a lset) filter(f func(k string) bool) lset {
	o := lset{}
	for k := range a {
		if f(k) {
			o[k] = true
		}
	}
	return o
}

type lv struct {
	s     lazy.Set
	m     lset
	first map[string]string // first answer to each question
	power bool
}

type lazyMach struct {
	r      *run
	u      int
	hashes map[string]uintptr
}

func keyNum(k string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(k); i++ {
		h = (h ^ uint64(k[i])) * 1099511628211
	}
	return h
}

func (m *lazyMach) elem(id int) any {
	if id&1 == 1 {
		return "s" + strconv.Itoa(id)
	}
	return id
}

// mk builds the element with key k.
func (m *lazyMach) mk(k string, variant int) any {
	if k[0] != '{' {
		id, _ := strconv.Atoi(k)
		return m.elem(id)
	}
	in := strings.Trim(k, "{}")
	s := frozen.Set[any]{}
	if in != "" {
		p := strings.Split(in, ",")
		for i := range p {
			j := i
			if variant&1 == 1 {
				j = len(p) - 1 - i
			}
			id, _ := strconv.Atoi(p[j])
			s = s.With(m.elem(id))
		}
	} else if variant&2 == 2 {
		return lazy.EmptySet{}
	}
	if variant&4 == 4 {
		return lazy.Frozen(s).Union(lazy.Frozen(s))
	}
	return lazy.Frozen(s)
}

// key names an element found in a set.
func (m *lazyMach) key(v any) string {
	switch v := v.(type) {
	case int:
		if v&1 == 0 && v >= 0 && v < m.u {
			return strconv.Itoa(v)
		}
	case string:
		if id, err := strconv.Atoi(strings.TrimPrefix(v, "s")); err == nil && id&1 == 1 {
			return strconv.Itoa(id)
		}
	case lazy.Set:
		k := lset{}
		n := 0
		for i := v.Range(); i.Next() && n < 100; n++ {
			k[m.key(i.Value())] = true
		}
		return k.key()
	}
	return fmt.Sprintf("?%v", v)
}

func (m *lazyMach) fold(i int) int {
	if i < 0 {
		i = -i
	}
	return i % m.u
}

func (m *lazyMach) get(c *client, id int) *lv {
	if v, ok := c.get(id).(*lv); ok && v != nil {
		return v
	}
	return &lv{s: lazy.EmptySet{}, m: lset{}, first: map[string]string{}}
}

func (m *lazyMach) putv(c *client, op *Op, s lazy.Set, want lset, power bool) {
	c.put(op.ID, &lv{s: s, m: want, first: map[string]string{}, power: power})
}

func (m *lazyMach) pred(op *Op) lazy.Predicate {
	p := op.P
	return func(el any) bool {
		x := enter(cbPred)
		r := predOn(p, int(keyNum(m.key(el))>>8&0xffffff))
		leave(cbPred, x)
		return r
	}
}

func (m *lazyMach) exec(c *client, op *Op) {
	const cls = "C04"
	if op.K[0] == 't' {
		m.execIter(c, op)
		return
	}
	a := m.get(c, op.A)
	var s lazy.Set
	switch op.K {
	case "l.frozen":
		want := lset{}
		var vals []any
		for _, id := range op.X {
			id = m.fold(id)
			want[strconv.Itoa(id)] = true
			vals = append(vals, m.elem(id))
		}
		if c.do(op, cls, func() { s = lazy.Frozen(frozen.NewSet(vals...)) }) {
			m.putv(c, op, s, want, false)
		}
	case "l.empty":
		m.putv(c, op, lazy.EmptySet{}, lset{}, false)
	case "l.union", "l.inter", "l.diff", "l.sym":
		b := m.get(c, op.B)
		if !c.do(op, cls, func() {
			switch op.K {
			case "l.union":
				s = a.s.Union(b.s)
			case "l.inter":
				s = a.s.Intersection(b.s)
			case "l.diff":
				s = a.s.Difference(b.s)
			default:
				s = a.s.SymmetricDifference(b.s)
			}
		}) {
			return
		}
		want := lset{}
		both := lset{}
		for k := range a.m {
			both[k] = true
		}
		for k := range b.m {
			both[k] = true
		}
		for k := range both {
			x, y := a.m[k], b.m[k]
			if op.K == "l.union" || op.K == "l.inter" && x && y || op.K == "l.diff" && x && !y || op.K == "l.sym" && x != y {
				want[k] = true
			}
		}
		m.putv(c, op, s, want, a.power || b.power)
	case "l.where":
		if c.do(op, cls, func() { s = a.s.Where(m.pred(op)) }) {
			want := a.m.filter(func(k string) bool { return predOn(op.P, int(keyNum(k)>>8&0xffffff)) })
			m.putv(c, op, s, want, a.power)
		}
	case "l.map":
		f := func(k string) int { return mapOn(op.P, int(keyNum(k)>>8&0xffffff), m.u) }
		if c.do(op, cls, func() {
			s = a.s.Map(func(el any) any {
				x := enter(cbMap)
				v := m.elem(f(m.key(el)))
				leave(cbMap, x)
				return v
			})
		}) {
			want := lset{}
			for k := range a.m {
				want[strconv.Itoa(f(k))] = true
			}
			m.putv(c, op, s, want, false)
		}
	case "l.with", "l.without":
		k := strconv.Itoa(m.fold(op.N))
		if a.power && op.P&1 == 1 { // a set as element
			k = m.somePower(op.N)
		}
		want := a.m.filter(func(x string) bool { return x != k })
		if c.do(op, cls, func() {
			if op.K == "l.with" {
				s = a.s.With(m.mk(k, op.P>>1))
			} else {
				s = a.s.Without(m.mk(k, op.P>>1))
			}
		}) {
			if op.K == "l.with" {
				want[k] = true
			}
			m.putv(c, op, s, want, a.power)
		}
	case "l.pow":
		// Power sets of empty sets are a known finding with its own probe.
		if len(a.m) == 0 || len(a.m) > 4 || a.power {
			return
		}
		if c.do(op, cls, func() { s = a.s.Powerset() }) {
			want := lset{}
			ks := a.m.keys()
			for mask := 0; mask < 1<<uint(len(ks)); mask++ {
				sub := lset{}
				for i, k := range ks {
					if mask>>uint(i)&1 == 1 {
						sub[k] = true
					}
				}
				want[sub.key()] = true
			}
			m.putv(c, op, s, want, true)
		}
	case "l.powempty":
		m.powEmpty(c, op)
	case "l.freeze":
		if c.do(op, cls, func() { s = a.s.Freeze() }) {
			m.putv(c, op, s, a.m, a.power)
		}
	case "l.q":
		m.ask(c, op, a)
	case "l.all":
		m.everything(c, op, a, "C04")
	case "l.elem":
		b := m.get(c, op.B)
		var n, g int
		if c.do(op, "C10", func() {
			n = frozen.NewSet[any](a.s, b.s).Count()
			g = frozen.NewMap(frozen.KV[any](a.s, 1), frozen.KV[any](b.s, 2)).GetElse(a.s, 0)
		}) {
			eq := a.m.equal(b.m)
			if n != 2-b2i(eq) || g != 1+b2i(eq) {
				m.r.fail("C10,C04", "result:l.elem", op, "lazy sets %v and %v as elements: %d distinct; as keys: %d", a.m.key(), b.m.key(), n, g)
			}
		}
	default:
		panic("op " + op.K)
	}
}

// powEmpty asks about the power set of an empty set: it has one element.
func (m *lazyMach) powEmpty(c *client, op *Op) {
	bases := []lazy.Set{
		lazy.EmptySet{},
		lazy.Frozen(frozen.Set[any]{}),
		lazy.Frozen(frozen.NewSet[any](2)).Difference(lazy.Frozen(frozen.NewSet[any](2))),
	}
	for _, b := range bases {
		c.quiet(op, "C04", op.K, func() {
			p := b.Powerset()
			for round := 0; round < 2; round++ {
				if e := p.IsEmpty(); e {
					m.r.fail("C04", "powerset-of-empty:isempty", op, "the power set of an empty set (%T) says IsEmpty", b)
				}
				if e, ok := p.FastIsEmpty(); ok && e {
					m.r.fail("C04", "powerset-of-empty:isempty", op, "the power set of an empty set (%T) says FastIsEmpty", b)
				}
				n, k := 0, 0
				for i := p.Range(); i.Next() && n < 9; n++ {
					if v, ok := i.Value().(lazy.Set); ok && v.Count() == 0 {
						k++
					}
				}
				f, fok := p.FastCount()
				if n != 1 || k != 1 || p.Count() != 1 || fok && f != 1 || p.CountUpTo(5) != 1 || p.CountUpTo(0) != 0 || p.Freeze().Count() != 1 ||
					!p.Has(lazy.EmptySet{}) || !p.Equal(lazy.EmptySet{}.Powerset()) {
					m.r.fail("C04", "powerset-of-empty", op, "the power set of an empty set (%T): %d elements iterated, %d of them empty sets, Count %d, FastCount %d, Has(empty) %v", b, n, k, p.Count(), f, p.Has(lazy.EmptySet{}))
				}
			}
		})
	}
}

func (m *lazyMach) somePower(n int) string {
	sub := lset{}
	for i := 0; i < 3; i++ {
		if n>>uint(i)&1 == 1 {
			sub[strconv.Itoa(m.fold(n+i*5))] = true
		}
	}
	return sub.key()
}

var lazyQs = []string{"isempty", "fastisempty", "count", "fastcount", "upto", "fastupto", "has", "fasthas", "equal", "equalset", "subset", "superset", "hash", "range"}

// ask puts one question to a lazy set and compares with the model.
func (m *lazyMach) ask(c *client, op *Op, a *lv) {
	q := lazyQs[op.P%len(lazyQs)]
	b := m.get(c, op.B)
	var k string
	if q == "has" || q == "fasthas" {
		switch ks := a.m.keys(); {
		case op.N&1 == 0 && len(ks) > 0:
			k = ks[op.N/2%len(ks)]
		case a.power && op.N&2 == 2:
			k = m.somePower(op.N >> 2)
		default:
			k = strconv.Itoa(m.fold(op.N / 2))
		}
	}
	cls := "C04"
	var got, want string
	known := true // the answer must be given
	if !c.do(op, cls, func() {
		known = true
		switch q {
		case "isempty":
			got = fmt.Sprint(a.s.IsEmpty())
		case "fastisempty":
			var e bool
			e, known = a.s.FastIsEmpty()
			got = fmt.Sprint(e)
		case "count":
			got = fmt.Sprint(a.s.Count())
		case "fastcount":
			var n int
			n, known = a.s.FastCount()
			got = fmt.Sprint(n)
		case "upto":
			got = fmt.Sprint(a.s.CountUpTo(op.N % 20))
		case "fastupto":
			var n int
			n, known = a.s.FastCountUpTo(op.N % 20)
			got = fmt.Sprint(n)
		case "has":
			got = fmt.Sprint(a.s.Has(m.mk(k, op.N>>4)))
		case "fasthas":
			var h bool
			h, known = a.s.FastHas(m.mk(k, op.N>>4))
			got = fmt.Sprint(h)
		case "equal":
			got = fmt.Sprint(a.s.Equal(b.s))
			if a.s.Equal(3) {
				got = "equal to a number"
			}
		case "equalset":
			got = fmt.Sprint(a.s.EqualSet(b.s))
		case "subset":
			got = fmt.Sprint(a.s.IsSubsetOf(b.s))
		case "superset":
			got = fmt.Sprint(b.s.IsSubsetOf(a.s))
		case "hash":
			got = fmt.Sprint(a.s.Hash(obsSeed))
		case "range":
			var ks []string
			for i := a.s.Range(); i.Next() && len(ks) < 2000; {
				ks = append(ks, m.key(i.Value()))
			}
			sort.Strings(ks)
			got = "{" + strings.Join(ks, ",") + "}"
		}
	}) {
		return
	}
	if !known {
		return
	}
	n := len(a.m)
	mini := func(x, y int) int {
		if x < y {
			return x
		}
		return y
	}
	switch q {
	case "isempty", "fastisempty":
		want = fmt.Sprint(n == 0)
	case "count", "fastcount":
		want = fmt.Sprint(n)
	case "upto", "fastupto":
		want = fmt.Sprint(mini(n, op.N%20))
	case "has", "fasthas":
		want = fmt.Sprint(a.m[k])
	case "equal", "equalset":
		want = fmt.Sprint(a.m.equal(b.m))
		cls = "C04,C10"
	case "subset":
		want = fmt.Sprint(a.m.subset(b.m))
	case "superset":
		want = fmt.Sprint(b.m.subset(a.m))
	case "range":
		want = a.m.key()
	case "hash":
		cls = "C04,C10"
		h, ok := m.hashes[a.m.key()]
		if !ok {
			x, _ := strconv.ParseUint(got, 10, 64)
			h = uintptr(x)
			m.hashes[a.m.key()] = h
		}
		want = fmt.Sprint(uint64(h))
	}
	question := fmt.Sprint(q, k, op.N%20, op.B)
	prev, asked := a.first[question]
	if !asked {
		a.first[question] = got
	}
	if got != want {
		if asked && prev != got {
			cls += ",C01"
		}
		m.r.fail(cls, "lazy:"+q, op, "%s(%s, limit %d, other %s) answers %s, want %s for %s", q, k, op.N%20, b.m.key(), got, want, a.m.key())
	}
}

// everything asks all unary questions.
func (m *lazyMach) everything(c *client, op *Op, a *lv, cls string) {
	c.quiet(op, cls, "all", func() {
		n := len(a.m)
		bad := func(f string, x ...any) {
			m.r.fail(cls, "lazy:all", op, "lazy set %s: %s", a.m.key(), fmt.Sprintf(f, x...))
		}
		if e := a.s.IsEmpty(); e != (n == 0) {
			bad("IsEmpty %v", e)
		}
		if e, ok := a.s.FastIsEmpty(); ok && e != (n == 0) {
			bad("FastIsEmpty %v", e)
		}
		if k, ok := a.s.FastCount(); ok && k != n {
			bad("FastCount %d", k)
		}
		if k := a.s.Count(); k != n {
			bad("Count %d", k)
		}
		for _, l := range []int{0, 1, n, n + 1} {
			w := n
			if l < w {
				w = l
			}
			if k := a.s.CountUpTo(l); k != w {
				bad("CountUpTo(%d) %d", l, k)
			}
			if k, ok := a.s.FastCountUpTo(l); ok && k != w {
				bad("FastCountUpTo(%d) %d", l, k)
			}
		}
		probe := lset{}
		for i := 0; i < m.u; i++ {
			probe[strconv.Itoa(i)] = true
		}
		for k := range a.m {
			probe[k] = true
		}
		if a.power {
			for i := 0; i < 6; i++ {
				probe[m.somePower(i*3)] = true
			}
		}
		for _, k := range probe.keys() {
			if h := a.s.Has(m.mk(k, 0)); h != a.m[k] {
				bad("Has(%s) %v", k, h)
			}
			if h, ok := a.s.FastHas(m.mk(k, 1)); ok && h != a.m[k] {
				bad("FastHas(%s) %v", k, h)
			}
		}
		var ks []string
		for i := a.s.Range(); i.Next() && len(ks) < n+50; {
			ks = append(ks, m.key(i.Value()))
		}
		sort.Strings(ks)
		if got := "{" + strings.Join(ks, ",") + "}"; got != a.m.key() {
			bad("iterates over %s", got)
		}
		if !a.s.Equal(a.s) || !a.s.EqualSet(a.s) || !a.s.IsSubsetOf(a.s) {
			bad("not equal to itself or no subset of itself")
		}
	})
}

func (m *lazyMach) recheck(c *client, rg *reg, cls, why string, op *Op) {
	v, ok := rg.val.(*lv)
	if !ok {
		return
	}
	switch {
	case strings.Contains(cls, "C05"):
		// After a failed question: a traversal must still be complete.
		var ks []string
		if c.quiet(op, cls, "recheck", func() {
			for i := v.s.Range(); i.Next() && len(ks) < len(v.m)+50; {
				ks = append(ks, m.key(i.Value()))
			}
		}) {
			sort.Strings(ks)
			if got := "{" + strings.Join(ks, ",") + "}"; got != v.m.key() {
				m.r.fail(cls+",C04", "changed", op, "r%d %s: iterates over %s, want %s", rg.id, why, got, v.m.key())
			}
		}
	default:
		m.everything(c, op, v, "C04")
	}
}

func (m *lazyMach) execIter(c *client, op *Op) {
	if op.K == "t.next" {
		stepIter(c, op)
		return
	}
	a := m.get(c, op.A)
	ks := a.m.keys()
	left := imap{}
	at := map[string]int{}
	for i, k := range ks {
		left[i] = 0
		at[k] = i
	}
	var i lazy.SetIterator
	if !c.do(op, "C04", func() { i = a.s.Range() }) {
		return
	}
	it := &openIter{left: left, from: fmt.Sprintf("lazy set r%d %s", op.A, a.m.key()), cls: "C04"}
	id := func(v any) int {
		if n, ok := at[m.key(v)]; ok {
			return n
		}
		return -1
	}
	it.next = func() (int, int, bool) {
		if !i.Next() {
			return 0, 0, false
		}
		return id(i.Value()), 0, true
	}
	it.reread = func() (int, int) { return id(i.Value()), 0 }
	c.slots[100+op.N%3] = it
}

func (m *lazyMach) final(c *client) {
	r := m.r
	var vs []*lv
	for _, id := range r.order {
		if v, ok := r.regs[id].val.(*lv); ok && len(vs) < 12 {
			vs = append(vs, v)
		}
	}
	op := &Op{ID: -2, K: "final"}
	for i, a := range vs {
		for _, b := range vs[i:] {
			a, b := a, b
			want := a.m.equal(b.m)
			c.quiet(op, "C10,C04", "final", func() {
				if e, f, g := a.s.Equal(b.s), b.s.Equal(a.s), a.s.EqualSet(b.s); e != want || f != want || g != want {
					r.fail("C10,C04", "pair", nil, "lazy sets %s and %s: Equal %v, reversed %v, EqualSet %v, want %v", a.m.key(), b.m.key(), e, f, g, want)
				}
				if want {
					for _, seed := range []uintptr{0, obsSeed} {
						if x, y := a.s.Hash(seed), b.s.Hash(seed); x != y {
							r.fail("C10,C04", "hash", nil, "equal lazy sets %s hash to %#x and %#x", a.m.key(), x, y)
						}
					}
				}
				if x, y := a.m.subset(b.m), b.m.subset(a.m); a.s.IsSubsetOf(b.s) != x || b.s.IsSubsetOf(a.s) != y {
					r.fail("C04", "pairsub", nil, "lazy sets %s and %s: IsSubsetOf wrong", a.m.key(), b.m.key())
				}
			})
		}
	}
}
