package main

import (
	"fmt"
	"io"
	"log"
	"sort"
	"strings"

	"github.com/arr-ai/frozen"
	"github.com/arr-ai/frozen/pkg/rel"
)

// row and relation are the naive relational-algebra model.
type row map[string]any

func (t row) key() string {
	var ks []string
	for k := range t {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var p []string
	for _, k := range ks {
		v := t[k]
		switch v := v.(type) {
		case mrel:
			p = append(p, k+"="+v.key())
		case Sm:
			p = append(p, fmt.Sprintf("%s=sm%d", k, v.ID))
		default:
			p = append(p, fmt.Sprintf("%s=%T:%v", k, v, v))
		}
	}
	return "(" + strings.Join(p, ",") + ")"
}

type mrel map[string]row

func (m mrel) key() string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return "{" + strings.Join(ks, ";") + "}"
}

func (m mrel) add(t row) { m[t.key()] = t }

func (m mrel) rows() []row {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []row
	for _, k := range ks {
		out = append(out, m[k])
	}
	return out
}

// weight counts tuples at any depth.
func (m mrel) weight() int {
	n := 0
	for _, t := range m {
		n++
		for _, v := range t {
			if r, ok := v.(mrel); ok {
				n += r.weight()
			}
		}
	}
	return n
}

func (t row) pick(attrs []string) row {
	o := row{}
	for _, a := range attrs {
		if v, ok := t[a]; ok {
			o[a] = v
		}
	}
	return o
}

func mjoin(a, b mrel) mrel {
	out := mrel{}
	for _, x := range a {
	next:
		for _, y := range b {
			z := row{}
			for k, v := range x {
				z[k] = v
			}
			for k, v := range y {
				if w, ok := z[k]; ok && (row{k: w}).key() != (row{k: v}).key() {
					continue next
				}
				z[k] = v
			}
			out.add(z)
		}
	}
	return out
}

// hdr is a heading: attributes, some of which hold relations with headings.
type hdr struct {
	attrs []string
	sub   map[string]*hdr
}

func (h *hdr) key() string {
	var p []string
	for _, a := range sorted(h.attrs) {
		if s := h.sub[a]; s != nil {
			a += s.key()
		}
		p = append(p, a)
	}
	return "{" + strings.Join(p, ",") + "}"
}

// names adds every name at any depth.
func (h *hdr) names(m map[string]bool) map[string]bool {
	for _, a := range h.attrs {
		m[a] = true
		if s := h.sub[a]; s != nil {
			s.names(m)
		}
	}
	return m
}

// with merges two headings; false if a name means different things.
func (h *hdr) with(g *hdr) (*hdr, bool) {
	o := &hdr{sub: map[string]*hdr{}}
	for _, x := range []*hdr{h, g} {
		for _, a := range x.attrs {
			if contains(o.attrs, a) {
				p, q := o.sub[a], x.sub[a]
				if (p == nil) != (q == nil) || p != nil && p.key() != q.key() {
					return nil, false
				}
				continue
			}
			o.attrs = append(o.attrs, a)
			if s := x.sub[a]; s != nil {
				o.sub[a] = s
			}
		}
	}
	return o, true
}

func (h *hdr) pick(attrs []string) *hdr {
	o := &hdr{sub: map[string]*hdr{}}
	for _, a := range h.attrs {
		if contains(attrs, a) {
			o.attrs = append(o.attrs, a)
			if s := h.sub[a]; s != nil {
				o.sub[a] = s
			}
		}
	}
	return o
}

type rv struct {
	s    rel.Relation
	m    mrel
	h    *hdr
	obs  string
	hash uintptr
}

type relMach struct {
	r     *run
	attrs []string
	els   int // how many values in four have their own equality and hash
}

type logSink struct{}

func (logSink) Write(p []byte) (int, error) { return len(p), nil }

func newRelMach(r *run) *relMach {
	log.SetOutput(io.Writer(logSink{}))
	m := &relMach{r: r}
	for i := 0; i < 6; i++ {
		m.attrs = append(m.attrs, fmt.Sprintf("%c%d", 'a'+i, mix(r.p.HashSeed, uint64(i))%50))
	}
	m.els = []int{0, 0, 1, 3, 4}[mix(r.p.HashSeed, 999)%5]
	return m
}

func (m *relMach) pickAttrs(mask int) []string {
	var h []string
	for i, a := range m.attrs {
		if mask>>uint(i)&1 == 1 {
			h = append(h, a)
		}
	}
	return h
}

func (m *relMach) value(i int, tag uint64) any {
	if int(mix(m.r.p.HashSeed, uint64(i)+500)%4) < m.els {
		return Sm{int32(i), int32(tag % 100)}
	}
	switch i % 4 {
	case 0:
		return i
	case 1:
		return fmt.Sprint("v", i)
	case 2:
		return float64(i) / 2
	}
	return i * 2
}

// read turns a relation into its model, complaining about repetition.
func (m *relMach) read(s rel.Relation) (mrel, string) {
	out := mrel{}
	n := 0
	for i := s.Range(); i.Next() && n < 5000; n++ {
		t := row{}
		k := 0
		for j := i.Value().Range(); j.Next() && k < 100; k++ {
			if nr, ok := j.Value().(rel.Relation); ok {
				in, bad := m.read(nr)
				if bad != "" {
					return out, bad
				}
				t[j.Key()] = in
			} else {
				t[j.Key()] = j.Value()
			}
		}
		if k != i.Value().Count() {
			return out, "tuple count"
		}
		out.add(t)
	}
	if n != len(out) || s.Count() != n || s.IsEmpty() != (n == 0) {
		return out, fmt.Sprintf("%d tuples yielded, %d distinct, Count %d, IsEmpty %v", n, len(out), s.Count(), s.IsEmpty())
	}
	return out, ""
}

func (m *relMach) get(c *client, id int) *rv {
	if v, ok := c.get(id).(*rv); ok && v != nil {
		return v
	}
	return &rv{m: mrel{}, h: &hdr{}}
}

func (m *relMach) putv(c *client, op *Op, v *rv) {
	var got mrel
	var bad string
	var ok bool
	if !c.quiet(op, "C13", op.K, func() {
		got, bad = m.read(v.s)
		ok = bad == "" && got.key() == v.m.key()
		if ok {
			v.hash = v.s.Hash(obsSeed)
			v.obs = got.key()
		}
		// Every tuple is found.
		n := 0
		for i := v.s.Range(); ok && i.Next() && n < 40; n++ {
			if !v.s.Has(i.Value()) {
				ok, bad = false, "a tuple is not found by Has"
			}
		}
	}) {
		return
	}
	if !ok {
		m.r.fail("C13", "result:"+op.K, op, "gives %.600s %s, want %.600s", got.key(), bad, v.m.key())
		return
	}
	c.put(op.ID, v)
}

func without(h, drop []string) []string {
	var o []string
	for _, a := range h {
		if !contains(drop, a) {
			o = append(o, a)
		}
	}
	return o
}

func contains(h []string, a string) bool {
	for _, x := range h {
		if x == a {
			return true
		}
	}
	return false
}

func (m *relMach) exec(c *client, op *Op) {
	const cls = "C13"
	a := m.get(c, op.A)
	var s rel.Relation
	switch op.K {
	case "r.new":
		h := m.pickAttrs(op.N)
		// Any header order.
		for i := range h {
			j := int(mix(uint64(op.P), uint64(i)) % uint64(i+1))
			h[i], h[j] = h[j], h[i]
		}
		want := mrel{}
		var rows [][]any
		for i := range op.X {
			t := row{}
			var vals []any
			for j, k := range h {
				z := mix(uint64(op.X[i]), uint64(j))
				v := m.value(int(z%uint64(2+op.P%4)), z>>20+uint64(op.P))
				t[k] = v
				vals = append(vals, v)
			}
			want.add(t)
			rows = append(rows, vals)
		}
		if c.do(op, cls, func() { s = rel.New(h, rows...) }) {
			m.putv(c, op, &rv{s: s, m: want, h: &hdr{attrs: h}})
		}
	case "r.join":
		rs := []rel.Relation{a.s}
		want, h := a.m, a.h
		for i, id := range []int{op.B, op.C} {
			if i == 1 && id == 0 || i == 0 && op.P%40 == 9 {
				continue
			}
			b := m.get(c, id)
			g, ok := h.with(b.h)
			if !ok || want.weight()*b.m.weight() > 600 {
				return
			}
			rs = append(rs, b.s)
			want, h = mjoin(want, b.m), g
		}
		if c.do(op, cls, func() { s = rel.Join(rs...) }) {
			m.putv(c, op, &rv{s: s, m: want, h: h})
		}
	case "r.product":
		rs := []rel.Relation{a.s, m.get(c, op.B).s}
		ms := []mrel{a.m, m.get(c, op.B).m}
		hs := []*hdr{a.h, m.get(c, op.B).h}
		one := mrel{}
		one.add(row{})
		switch op.P % 12 {
		case 0:
			rs, ms, hs = rs[:1], ms[:1], hs[:1]
		case 1:
			rs, ms, hs = nil, nil, nil
		case 2, 3:
			rs, ms, hs = append(rs, frozen.NewSet(rel.NewTuple())), append(ms, one), append(hs, &hdr{})
		case 4:
			rs, ms, hs = append(rs, rel.Relation{}), append(ms, mrel{}), append(hs, &hdr{})
		case 5:
			d := m.get(c, op.C)
			rs, ms, hs = append(rs, d.s), append(ms, d.m), append(hs, d.h)
		}
		want, h := one, &hdr{}
		for i, b := range ms {
			if want.weight()*b.weight() > 400 {
				return
			}
			for _, x := range hs[i].attrs {
				if contains(h.attrs, x) {
					return
				}
			}
			h, _ = h.with(hs[i])
			want = mjoin(want, b)
		}
		if c.do(op, cls, func() { s = rel.CartesianProduct(rs...) }) {
			m.putv(c, op, &rv{s: s, m: want, h: h})
		}
	case "r.project":
		p := m.some(a.h.attrs, op)
		want := mrel{}
		for _, t := range a.m {
			want.add(t.pick(p))
		}
		if c.do(op, cls, func() { s = rel.Project(a.s, p...) }) {
			m.putv(c, op, &rv{s: s, m: want, h: a.h.pick(p)})
		}
	case "r.nest":
		g := m.some(a.h.attrs, op)
		if a.m.weight() > 400 {
			return
		}
		rest := without(a.h.attrs, g)
		used := a.h.names(map[string]bool{})
		name := "nn"
		for i := 0; used[name]; i++ {
			name = fmt.Sprint("n", i)
		}
		groups := map[string]mrel{}
		keys := map[string]row{}
		for _, t := range a.m {
			k := t.pick(rest)
			if groups[k.key()] == nil {
				groups[k.key()] = mrel{}
				keys[k.key()] = k
			}
			groups[k.key()].add(t.pick(g))
		}
		want := mrel{}
		for k, t := range keys {
			z := row{name: groups[k]}
			for x, v := range t {
				z[x] = v
			}
			want.add(z)
		}
		if c.do(op, cls, func() { s = rel.Nest(a.s, frozen.NewMap(frozen.KV(name, frozen.NewSet(g...)))) }) {
			h := a.h.pick(rest)
			h.attrs = append(h.attrs, name)
			h.sub[name] = a.h.pick(g)
			m.putv(c, op, &rv{s: s, m: want, h: h})
		}
	case "r.unnest":
		var name string
		for i := range a.h.attrs {
			if x := a.h.attrs[(i+op.P)%len(a.h.attrs)]; a.h.sub[x] != nil {
				name = x
				break
			}
		}
		if name == "" {
			return
		}
		h := a.h.pick(without(a.h.attrs, []string{name}))
		for _, x := range a.h.sub[name].attrs {
			if contains(h.attrs, x) {
				return
			}
		}
		want := mrel{}
		for _, t := range a.m {
			k := t.pick(h.attrs)
			for _, x := range mjoin(mrel{k.key(): k}, t[name].(mrel)) {
				want.add(x)
			}
		}
		if len(want) > 600 {
			return
		}
		if c.do(op, cls, func() { s = rel.Unnest(a.s, name) }) {
			h, _ = h.with(a.h.sub[name])
			m.putv(c, op, &rv{s: s, m: want, h: h})
		}
	case "r.union":
		b := m.get(c, op.B)
		if a.h.key() != b.h.key() && len(a.m) > 0 && len(b.m) > 0 {
			return
		}
		h := a.h
		if len(a.m) == 0 {
			h = b.h
		}
		how := op.P % 5
		if a.m.weight()+b.m.weight() > 600 {
			return
		}
		want := mrel{}
		for k, t := range a.m {
			if _, in := b.m[k]; how < 2 || how == 2 && in || how > 2 && !in {
				want[k] = t
			}
		}
		for k, t := range b.m {
			if _, in := a.m[k]; how < 2 || how == 3 && !in {
				want[k] = t
			}
		}
		if c.do(op, cls, func() {
			switch how {
			case 2:
				s = a.s.Intersection(b.s)
			case 3:
				s = a.s.SymmetricDifference(b.s)
			case 4:
				s = a.s.Difference(b.s)
			default:
				s = a.s.Union(b.s)
			}
		}) {
			m.putv(c, op, &rv{s: s, m: want, h: h})
		}
	case "r.eq":
		b := m.get(c, op.B)
		var got bool
		if c.do(op, cls, func() { got = a.s.Equal(b.s) }) && got != (a.m.key() == b.m.key()) {
			m.r.fail("C13,C10", "result:r.eq", op, "Equal %v for %.300s and %.300s", got, a.m.key(), b.m.key())
		}
	case "r.obs":
		if rg := m.r.regs[op.A]; rg != nil && c.get(op.A) != nil {
			m.recheck(c, rg, "C01", "during the run", op)
		}
	default:
		panic("op " + op.K)
	}
}

// some chooses attributes: in any order, now and then one that is absent or one
// named twice.
func (m *relMach) some(attrs []string, op *Op) []string {
	var h []string
	for i, x := range attrs {
		if op.N>>uint(i)&1 == 1 {
			h = append(h, x)
		}
	}
	if op.P%5 == 0 {
		h = append(h, m.attrs[op.P/5%len(m.attrs)])
	}
	if op.P%7 == 0 && len(h) > 0 {
		h = append(h, h[op.P/7%len(h)])
	}
	for i := range h {
		j := int(mix(uint64(op.P), uint64(i)) % uint64(i+1))
		h[i], h[j] = h[j], h[i]
	}
	return h
}

func sorted(a []string) []string {
	b := append([]string(nil), a...)
	sort.Strings(b)
	return b
}

func (m *relMach) recheck(c *client, rg *reg, cls, why string, op *Op) {
	v, ok := rg.val.(*rv)
	if !ok {
		return
	}
	c.quiet(op, cls, "recheck", func() {
		got, bad := m.read(v.s)
		if bad != "" || got.key() != v.obs || v.s.Hash(obsSeed) != v.hash {
			m.r.fail(cls+",C13", "changed", op, "r%d %s: shows %.400s %s, was %.400s", rg.id, why, got.key(), bad, v.obs)
		}
	})
}

func (m *relMach) final(c *client) {
	var vs []*rv
	for _, id := range m.r.order {
		if v, ok := m.r.regs[id].val.(*rv); ok && len(vs) < 10 {
			vs = append(vs, v)
		}
	}
	op := &Op{ID: -2, K: "final"}
	for i, a := range vs {
		for _, b := range vs[i:] {
			a, b := a, b
			c.quiet(op, "C13", "final", func() {
				want := a.m.key() == b.m.key()
				if a.s.Equal(b.s) != want || b.s.Equal(a.s) != want || want && a.s.Hash(7) != b.s.Hash(7) {
					m.r.fail("C13,C10", "pair", nil, "relations %.300s and %.300s: equality or hash wrong", a.m.key(), b.m.key())
				}
			})
		}
	}
}
