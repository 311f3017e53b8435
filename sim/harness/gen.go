package main

import (
	"strings"

	"fsim/simrt"
)

// opInfo says what an operation kind needs and gives.
type opInfo struct {
	out  byte // kind of register produced: s, m, l, p (power), r, b..., 0 none
	a    byte // kinds of operands
	b    byte
	c    byte
	x    int   // rough size of X: 0 none, 1 small, 2 any
	cbs  []int // callbacks that may fail
	el   bool  // element code may fail
	re   bool  // callback may use the library
	hard int   // relative cost
}

var opTable = map[string]opInfo{
	"s.new":       {out: 's', x: 2, el: true},
	"s.build":     {out: 's', x: 2, el: true},
	"s.iota":      {},
	"s.chain":     {out: 's', a: 's', x: 1, el: true},
	"s.unchain":   {out: 's', a: 's', x: 1, el: true},
	"s.with":      {out: 's', a: 's', el: true},
	"s.without":   {out: 's', a: 's', el: true},
	"s.union":     {out: 's', a: 's', b: 's', el: true},
	"s.inter":     {out: 's', a: 's', b: 's', el: true},
	"s.diff":      {out: 's', a: 's', b: 's', el: true},
	"s.sym":       {out: 's', a: 's', b: 's', el: true},
	"s.unionN":    {out: 's', a: 's', b: 's', c: 's', el: true},
	"s.interN":    {out: 's', a: 's', b: 's', c: 's', el: true},
	"s.where":     {out: 's', a: 's', cbs: []int{cbPred}, re: true},
	"s.reduce":    {a: 's', cbs: []int{cbReduce}, re: true},
	"s.reduce2":   {a: 's', cbs: []int{cbReduce}, re: true},
	"s.eq":        {a: 's', b: 's', el: true},
	"s.subset":    {a: 's', b: 's', el: true},
	"s.same":      {a: 's', b: 's', el: true},
	"s.has":       {a: 's', el: true},
	"s.any":       {a: 's'},
	"s.anyn":      {a: 's'},
	"s.elements":  {a: 's'},
	"s.ordered":   {a: 's', cbs: []int{cbLess}},
	"s.firstn":    {a: 's', cbs: []int{cbLess}},
	"s.first":     {a: 's', cbs: []int{cbLess}},
	"s.firstnset": {out: 's', a: 's', cbs: []int{cbLess}},
	"s.map":       {out: 's', a: 's', cbs: []int{cbMap}, re: true, el: true},
	"s.mapstr":    {a: 's', cbs: []int{cbMap}, re: true},
	"s.groupby":   {out: 's', a: 's', cbs: []int{cbGroup}, re: true, el: true},
	"s.asany":     {a: 's'},
	"s.powerset":  {a: 's'},
	"s.pool":      {a: 's', b: 's', c: 's'},
	"s.key":       {a: 's', b: 's', c: 's'},
	"s.obs":       {a: 's'},
	"s.fromkeys":  {out: 'm', a: 's', cbs: []int{cbMap}, re: true},
	"m.new":       {out: 'm', x: 2, el: true},
	"m.build":     {out: 'm', x: 2, el: true},
	"m.gomap":     {out: 'm', x: 2},
	"m.with":      {out: 'm', a: 'm', el: true},
	"m.without":   {out: 'm', a: 'm', el: true},
	"m.chain":     {out: 'm', a: 'm', x: 1, el: true},
	"m.unchain":   {out: 'm', a: 'm', x: 1, el: true},
	"m.get":       {a: 'm', cbs: []int{cbElse}, el: true},
	"m.any":       {a: 'm'},
	"m.keys":      {out: 's', a: 'm'},
	"m.values":    {a: 'm'},
	"m.project":   {out: 'm', a: 'm', x: 1, el: true},
	"m.where":     {out: 'm', a: 'm', cbs: []int{cbPred}, re: true},
	"m.mapmap":    {out: 'm', a: 'm', cbs: []int{cbMap}, re: true},
	"m.merge":     {out: 'm', a: 'm', b: 'm', cbs: []int{cbResolve}, re: true, el: true},
	"m.update":    {out: 'm', a: 'm', b: 'm', el: true},
	"m.eq":        {a: 'm', b: 'm', el: true},
	"m.same":      {a: 'm', b: 'm', el: true},
	"m.key":       {a: 'm', b: 'm', c: 'm'},
	"m.nest":      {a: 'm'},
	"m.obs":       {a: 'm'},
	"m.togomap":   {a: 'm'},
	"t.open":      {a: 's'},
	"t.openord":   {a: 's', cbs: []int{cbLess}},
	"t.mopen":     {a: 'm'},
	"t.next":      {},
	"b.new":       {a: 's'},
	"b.add":       {x: 1, el: true},
	"b.rem":       {x: 1, el: true},
	"b.obs":       {},
	"b.finish":    {out: 's'},
	"mb.new":      {a: 'm'},
	"mb.put":      {x: 1, el: true},
	"mb.rem":      {x: 1, el: true},
	"mb.obs":      {},
	"mb.finish":   {out: 'm'},
	"f.set":       {a: 's'},
	"f.width":     {a: 's'},
	"f.map":       {a: 'm'},
	"f.kv":        {},
	"f.json":      {a: 's'},
	"f.mjson":     {a: 'm'},

	"i.new":      {out: 's', x: 2},
	"i.with":     {out: 's', a: 's'},
	"i.without":  {out: 's', a: 's'},
	"i.chain":    {out: 's', a: 's', x: 1},
	"i.unchain":  {out: 's', a: 's', x: 1},
	"i.union":    {out: 's', a: 's', b: 's'},
	"i.inter":    {out: 's', a: 's', b: 's'},
	"i.where":    {out: 's', a: 's', cbs: []int{cbPred}, re: true},
	"i.map":      {out: 's', a: 's', cbs: []int{cbMap}, re: true},
	"i.eq":       {a: 's', b: 's'},
	"i.subset":   {a: 's', b: 's'},
	"i.same":     {a: 's', b: 's'},
	"i.has":      {a: 's'},
	"i.any":      {a: 's'},
	"i.elements": {a: 's'},
	"i.obs":      {a: 's'},
	"i.key":      {a: 's', b: 's'},
	"f.int":      {a: 's'},

	"l.frozen":   {out: 's', x: 1},
	"l.empty":    {out: 's'},
	"l.union":    {out: 's', a: 's', b: 's'},
	"l.inter":    {out: 's', a: 's', b: 's'},
	"l.diff":     {out: 's', a: 's', b: 's'},
	"l.sym":      {out: 's', a: 's', b: 's'},
	"l.where":    {out: 's', a: 's'},
	"l.map":      {out: 's', a: 's'},
	"l.with":     {out: 's', a: 's'},
	"l.without":  {out: 's', a: 's'},
	"l.powempty": {},
	"l.pow":      {out: 's', a: 's'},
	"l.freeze":   {out: 's', a: 's'},
	"l.q":        {a: 's', b: 's', cbs: []int{cbPred, cbMap}},
	"l.all":      {a: 's'},
	"l.elem":     {a: 's', b: 's'},

	"r.new":     {out: 's', x: 2, el: true},
	"r.join":    {out: 's', a: 's', b: 's', c: 's', el: true},
	"r.product": {out: 's', a: 's', b: 's', c: 's', el: true},
	"r.project": {out: 's', a: 's', el: true},
	"r.nest":    {out: 's', a: 's', el: true},
	"r.unnest":  {out: 's', a: 's', el: true},
	"r.union":   {out: 's', a: 's', b: 's', el: true},
	"r.eq":      {a: 's', b: 's', el: true},
	"r.obs":     {a: 's'},
}

type weights map[string]int

func merge(ws ...weights) weights {
	o := weights{}
	for _, w := range ws {
		for k, v := range w {
			o[k] += v
		}
	}
	return o
}

func scale(w weights, f int) weights {
	o := weights{}
	for k, v := range w {
		o[k] = v * f
	}
	return o
}

var (
	wBuild  = weights{"s.new": 3, "s.build": 2, "s.chain": 3, "s.unchain": 3, "s.with": 3, "s.without": 3}
	wMBuild = weights{"m.new": 3, "m.build": 2, "m.gomap": 1, "m.chain": 3, "m.unchain": 3, "m.with": 3, "m.without": 3}
	wBulk   = weights{"s.union": 4, "s.inter": 4, "s.diff": 4, "s.sym": 3, "s.unionN": 1, "s.interN": 1, "s.where": 4, "s.reduce": 2, "s.reduce2": 1, "s.eq": 3, "s.subset": 4}
	wMBulk  = weights{"m.merge": 4, "m.update": 4, "m.where": 4, "m.eq": 4}
	wCbs    = weights{"s.where": 3, "s.reduce": 3, "s.reduce2": 2, "s.map": 3, "s.mapstr": 1, "s.groupby": 3, "s.fromkeys": 3, "m.where": 4, "m.mapmap": 4, "m.merge": 4, "m.get": 1, "s.ordered": 1, "s.firstn": 1, "s.first": 1, "s.firstnset": 1}
	wElem   = weights{"s.has": 3, "s.any": 2, "s.anyn": 2, "s.elements": 2, "s.map": 2, "s.mapstr": 1, "s.groupby": 3, "s.asany": 1, "s.powerset": 1, "s.fromkeys": 2, "s.iota": 1, "m.get": 4, "m.any": 2, "m.keys": 2, "m.values": 2, "m.project": 3, "m.mapmap": 2, "m.togomap": 1}
	wEqual  = weights{"s.eq": 2, "s.same": 3, "s.pool": 3, "s.key": 3, "m.eq": 2, "m.same": 3, "m.key": 3, "m.nest": 3}
	wIter   = weights{"t.open": 4, "t.openord": 4, "t.mopen": 3, "t.next": 12, "s.ordered": 3, "s.firstn": 3, "s.first": 3, "s.firstnset": 3, "s.elements": 3}
	wBld    = weights{"b.new": 2, "b.add": 6, "b.rem": 4, "b.obs": 2, "b.finish": 3, "mb.new": 2, "mb.put": 6, "mb.rem": 4, "mb.obs": 2, "mb.finish": 3}
	wObs    = weights{"s.obs": 2, "m.obs": 2}
	wRend   = weights{"f.set": 4, "f.width": 2, "f.map": 4, "f.kv": 2, "f.json": 4, "f.mjson": 4}
	wInt    = weights{"i.new": 4, "i.with": 4, "i.without": 4, "i.chain": 4, "i.unchain": 4, "i.union": 4, "i.inter": 4, "i.where": 4, "i.map": 3, "i.eq": 3, "i.subset": 3, "i.same": 1, "i.has": 3, "i.any": 2, "i.elements": 2, "i.obs": 1, "i.key": 1, "f.int": 1, "t.open": 2, "t.next": 4}
	wLazy   = weights{"l.frozen": 4, "l.empty": 1, "l.union": 4, "l.inter": 4, "l.diff": 4, "l.sym": 3, "l.where": 4, "l.map": 4, "l.with": 3, "l.without": 3, "l.pow": 2, "l.freeze": 2, "l.q": 22, "l.all": 4, "l.elem": 2, "t.open": 3, "t.next": 6}
	wRel    = weights{"r.new": 3, "r.join": 6, "r.product": 3, "r.project": 4, "r.nest": 4, "r.unnest": 4, "r.union": 3, "r.eq": 1, "r.obs": 1}
)

// profile is how a property's programs are made.
type profile struct {
	ops    weights // set machine
	mach   weights // machines
	dom    weights // domains of the set machine
	fault  int     // chance in 100 of a fault plan for an operation
	elcode int     // chance in 100 that the failing callback is element code
	re     int     // chance in 100 that callbacks use the library
	multi  int     // chance in 100 of several clients
	mem    int     // chance in 100 of memory hooks
	big    int     // chance in 1000 of a big program
	rep    int     // chance in 1000 that an operation is repeated many times
	final  bool
}

// genOpts are the choices of the driver.
type genOpts struct {
	Thorough bool `json:"thorough,omitempty"`
	Mem      int  `json:"mem,omitempty"` // chance in 100 of memory hooks, if not 0
}

var domAll = weights{"int": 2, "string": 2, "el": 8, "sm": 2, "pt": 1, "any": 1, "nest": 1, "kv": 2, "mapkey": 1}
var domElHeavy = weights{"int": 1, "string": 1, "el": 12, "sm": 3, "kv": 2}

var profiles = map[string]profile{
	"C01": {
		ops:  merge(scale(wBuild, 3), scale(wMBuild, 2), wBulk, wMBulk, wCbs, wElem, wIter, wBld, scale(wObs, 3), wRend, wEqual),
		mach: weights{"set": 20, "int": 3, "lazy": 2, "rel": 1}, dom: domAll, fault: 6, elcode: 30, re: 15, multi: 60, mem: 30, big: 4, final: false,
	},
	"C02": {
		ops:  merge(wBuild, wMBuild, scale(wBulk, 5), scale(wMBulk, 5)),
		mach: weights{"set": 1}, dom: domElHeavy, re: 5, multi: 20, mem: 5, big: 40,
	},
	"C03": {
		ops:  merge(scale(wBuild, 2), wMBuild, scale(wBulk, 2), scale(wMBulk, 2), wCbs, wElem, wIter, wEqual, wRend, wObs, weights{"b.new": 1, "b.add": 2, "b.finish": 1, "mb.new": 1, "mb.put": 2, "mb.finish": 1}),
		mach: weights{"set": 14, "int": 3, "lazy": 4, "rel": 2}, dom: domAll, fault: 2, elcode: 20, re: 10, multi: 100, mem: 100,
	},
	"C04": {
		mach: weights{"lazy": 1}, fault: 10, multi: 60, mem: 20,
	},
	"C05": {
		ops:  merge(wBuild, wMBuild, scale(wBulk, 2), scale(wMBulk, 2), scale(wCbs, 4), weights{"b.new": 2, "b.add": 4, "b.rem": 3, "b.finish": 2, "mb.new": 2, "mb.put": 4, "mb.rem": 3, "mb.finish": 2, "t.openord": 1}),
		mach: weights{"set": 20, "int": 2, "lazy": 2, "rel": 1}, dom: weights{"int": 1, "el": 10, "sm": 3, "kv": 1, "string": 1}, fault: 65, elcode: 35, re: 15, multi: 35, mem: 10, big: 4, rep: 12,
	},
	"C06": {
		ops:  merge(wBuild, wMBuild, scale(wCbs, 6), weights{"s.union": 1, "m.update": 1}),
		mach: weights{"set": 10, "int": 2}, dom: domElHeavy, re: 45, multi: 30, mem: 5, big: 8,
	},
	"C07": {
		ops:  merge(wBuild, wMBuild, scale(wBld, 8), wObs, weights{"s.union": 1, "m.update": 1, "s.where": 1}),
		mach: weights{"set": 1}, dom: domAll, fault: 15, elcode: 100, multi: 30, mem: 5, big: 10, final: true,
	},
	"C08": {
		ops:  merge(wBuild, wMBuild, scale(wIter, 4), wBulk, wElem),
		mach: weights{"set": 12, "int": 2, "lazy": 2}, dom: domAll, fault: 2, multi: 40, mem: 5, big: 20,
	},
	"C09": {
		ops:  merge(wBuild, wMBuild, wBulk, wMBulk, wCbs, wElem, wIter, wBld, wRend, wEqual),
		mach: weights{"set": 12, "int": 2, "lazy": 3, "rel": 2}, dom: domAll, fault: 30, elcode: 30, re: 20, multi: 50, mem: 10, big: 10, rep: 10, final: true,
	},
	"C10": {
		ops:  merge(scale(wBuild, 3), scale(wMBuild, 3), wBulk, wMBulk, scale(wEqual, 4), weights{"b.new": 1, "b.add": 3, "b.rem": 2, "b.finish": 2, "mb.new": 1, "mb.put": 3, "mb.rem": 2, "mb.finish": 2, "m.keys": 2, "s.fromkeys": 1}),
		mach: weights{"set": 10, "int": 2, "lazy": 2, "rel": 1}, dom: domAll, multi: 30, mem: 5, big: 8, final: true,
	},
	"C11": {
		ops:  merge(scale(wBuild, 4), scale(wMBuild, 4), wBulk, wMBulk, scale(wElem, 4)),
		mach: weights{"set": 1}, dom: domAll, multi: 20, mem: 5, big: 10,
	},
	"C12": {mach: weights{"int": 1}, fault: 3, re: 10, multi: 30, mem: 10, big: 10, final: true},
	"C13": {mach: weights{"rel": 1}, multi: 30, mem: 10},
	"C14": {
		ops:  merge(wBuild, wMBuild, scale(wRend, 6), wObs),
		mach: weights{"set": 10, "int": 1}, dom: weights{"int": 2, "string": 3, "el": 6, "sm": 4, "pt": 1, "kv": 1, "any": 1, "nest": 1}, fault: 25, multi: 25, mem: 5,
	},
}

// pick draws a key; the order of keys is fixed.
func (w weights) pick(r *simrt.Rng, keys []string) string {
	total := 0
	for _, k := range keys {
		total += w[k]
	}
	n := r.N(total)
	for _, k := range keys {
		if n -= w[k]; n < 0 {
			return k
		}
	}
	return keys[len(keys)-1]
}

func (w weights) keys() []string {
	var k []string
	for x, n := range w {
		if n > 0 {
			k = append(k, x)
		}
	}
	sortStrings(k)
	return k
}

// available keeps what this harness links.
func available(w weights, prefix string) weights {
	o := weights{}
	for k, n := range w {
		for l := range linked {
			if l == prefix+k || prefix == "" && strings.HasPrefix(l, k+"/") {
				o[k] = n
			}
		}
	}
	return o
}

type gen struct {
	r    *simrt.Rng
	p    *Program
	pf   profile
	ops  weights
	keys []string
	next int
	regs map[byte][]int // registers by kind
	size int            // typical number of elements
	// swarm: operations switched off in this run
	wts weights
}

func (g *gen) chance(p int) bool { return g.r.N(100) < p }

func (g *gen) reg(kind byte) int {
	if kind == 0 {
		return 0
	}
	l := g.regs[kind]
	if len(l) == 0 || g.r.N(30) == 0 {
		return 0
	}
	switch g.r.N(4) {
	case 0, 1: // a recent one
		n := len(l) - 1 - g.r.N(mini(len(l), 4))
		return l[n]
	}
	return l[g.r.N(len(l))]
}

func (g *gen) ids(n int) []int {
	x := make([]int, 0, n)
	u := g.p.U
	switch g.r.N(5) {
	case 0: // a run
		s := g.r.N(u)
		for i := 0; i < n; i++ {
			x = append(x, (s+i)%u)
		}
	case 1: // a run, shuffled
		s := g.r.N(u)
		p := g.r.Perm(n)
		for _, i := range p {
			x = append(x, (s+i)%u)
		}
	case 2: // without repetition
		p := g.r.Perm(u)
		x = append(x, p[:mini(n, u)]...)
	default:
		for i := 0; i < n; i++ {
			x = append(x, g.r.N(u))
		}
	}
	return x
}

func (g *gen) sz() int {
	switch g.r.N(8) {
	case 0:
		return g.r.N(3)
	case 1, 2:
		return 1 + g.r.N(mini(8, g.size))
	case 3:
		return g.size
	}
	return g.r.N(g.size + 1)
}

// op makes one operation of kind k.
func (g *gen) op(k string) Op {
	in := opTable[k]
	o := Op{ID: g.next, K: k}
	g.next++
	o.A, o.B, o.C = g.reg(in.a), g.reg(in.b), g.reg(in.c)
	if in.b != 0 && g.r.N(25) == 0 {
		o.B = o.A
	}
	switch in.x {
	case 1:
		n := 1 + g.r.N(6)
		if g.r.N(6) == 0 {
			n = g.sz()
		}
		o.X = g.ids(mini(n, 400))
	case 2:
		n := g.sz()
		if g.p.Mach == "rel" {
			n = g.r.N(9)
			if g.r.N(8) == 0 {
				n = g.r.N(24)
			}
		}
		o.X = g.ids(n)
	}
	if k == "r.new" {
		// Two to four attributes: overlaps are common.
		for o.N = 0; o.N == 0 && g.r.N(20) != 0; {
			o.N = g.r.N(64)
			if g.r.N(4) != 0 {
				o.N &= g.r.N(64)
			}
		}
	} else {
		o.N = g.r.N(1 << 12)
		if g.chance(50) {
			o.N = g.r.N(maxi(g.p.U, 1))
		}
	}
	o.P = g.r.N(1 << 10)
	if g.chance(25) {
		o.P = g.r.N(8)
	}
	if in.re && g.chance(g.pf.re) && g.size <= 80 {
		o.Re = 1 + g.r.N(20)
	}
	if g.chance(g.pf.fault) {
		o.F = g.fault(k, in)
	}
	if g.r.N(1000) < g.pf.rep && repeatable(k) && g.size <= 80 {
		o.Re = 0
		o.Rep = 10 + g.r.N(70)
	}
	if in.out != 0 {
		g.regs[in.out] = append(g.regs[in.out], o.ID)
	}
	return o
}

// repeatable: the operation leaves nothing behind but its result.
func repeatable(k string) bool {
	switch k {
	case "s.powerset", "s.chain", "s.unchain", "m.chain", "m.unchain", "i.chain", "i.unchain":
		return false
	}
	return strings.HasPrefix(k, "s.") || strings.HasPrefix(k, "m.") || strings.HasPrefix(k, "i.")
}

func (g *gen) fault(k string, in opInfo) *Fault {
	f := &Fault{}
	el := in.el && (g.p.Mach == "set" && (g.p.Dom == "el" || g.p.Dom == "sm") || g.p.Mach == "rel")
	switch {
	case k == "f.json" || k == "f.mjson":
		if g.p.Dom != "el" && g.p.Dom != "sm" {
			return nil
		}
		f.Cb = cbEncode
		f.Mode = []string{"err", "panic"}[g.r.N(2)]
		f.N = 1 + g.r.N(maxi(1, g.size))
		return f
	case len(in.cbs) > 0 && !(el && g.chance(g.pf.elcode)):
		f.Cb = in.cbs[g.r.N(len(in.cbs))]
	case el && g.pf.elcode > 0:
		f.Cb = cbEq
		if g.chance(40) {
			f.Cb = cbHash
		}
	default:
		return nil
	}
	f.Mode = []string{"panic", "panic", "error", "string", "goexit"}[g.r.N(5)]
	n := g.size
	if f.Cb == cbEq || f.Cb == cbHash {
		n = 3*g.size + 3
	}
	switch g.r.N(3) {
	case 0:
		f.N = 1 + g.r.N(3)
	case 1:
		f.N = 1 + g.r.N(maxi(1, n/4))
	default:
		f.N = 1 + g.r.N(maxi(1, n))
	}
	return f
}

func maxi(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// generate makes the program of one seed.
func generate(prop string, seed uint64, opts genOpts) *Program {
	r := simrt.NewRng(seed, 1)
	pf := profiles[prop]
	p := &Program{Prop: prop, Seed: seed, HashSeed: r.U64(), Cap: 4_000_000}
	pf.mach = available(pf.mach, "")
	pf.dom = available(pf.dom, "set/")
	if len(pf.dom) == 0 {
		delete(pf.mach, "set")
	}
	p.Mach = pf.mach.pick(r, pf.mach.keys())
	g := &gen{r: r, p: p, pf: pf, next: 1, regs: map[byte][]int{}}
	p.HashMode = hashModes[0]
	if r.N(3) != 0 {
		p.HashMode = hashModes[r.N(len(hashModes))]
	}
	if opts.Mem != 0 {
		pf.mem = opts.Mem
	}
	p.Mem = g.chance(pf.mem)
	p.Final = pf.final
	maxOps := 6 + r.N(10)
	if opts.Thorough && r.N(2) == 0 {
		maxOps += r.N(25)
		pf.big *= 2
	}
	switch p.Mach {
	case "set":
		p.Dom = pf.dom.pick(r, pf.dom.keys())
		switch r.N(4) {
		case 0:
			p.U = 2 + r.N(8)
		case 1:
			p.U = 8 + r.N(24)
		default:
			p.U = 20 + r.N(61)
		}
		g.size = 1 + r.N(p.U)
		if r.N(1000) < pf.big {
			p.U = 300 + r.N(3000)
			if r.N(4) == 0 {
				p.U = 3000 + r.N(30000)
			}
			if opts.Thorough && r.N(40) == 0 {
				p.U = 1<<18 + r.N(1<<16)
			}
			if p.Dom == "nest" || p.Dom == "any" || p.Dom == "mapkey" {
				p.Dom = "el"
				if linked["set/el"] == nil {
					p.U = 60
				}
			}
			g.size = p.U/2 + r.N(p.U/2)
			p.HashMode = []string{"spread", "spread", "groups", "lowonly"}[r.N(4)]
			p.Mem = false
			p.Cap = 400_000_000
			maxOps = 3 + r.N(3)
			if p.U > 100000 {
				maxOps = 2
				p.Dom = "int"
				if linked["set/int"] == nil {
					p.Dom = "el"
				}
			}
			g.pf.multi /= 4
			g.pf.fault /= 3
		} else if p.HashMode == "same" || p.HashMode == "zero" || p.HashMode == "ones" || p.HashMode == "few" {
			g.size = 1 + r.N(mini(p.U, 16))
		}
		if p.Dom == "nest" || p.Dom == "mapkey" {
			p.U = mini(p.U, 64)
			g.size = mini(g.size, 24)
		}
		g.ops = pf.ops
	case "int":
		var types []string
		for _, t := range []string{"int", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "uintptr"} {
			if linked["int/"+t] != nil {
				types = append(types, t)
			}
		}
		p.Dom = types[r.N(len(types))]
		p.U = 4 + r.N(90)
		g.size = 1 + r.N(p.U)
		g.ops = wInt
		if prop == "C14" {
			g.ops = merge(wInt, weights{"f.int": 14})
		}
	case "lazy":
		p.U = 2 + r.N(11)
		g.size = 1 + r.N(p.U)
		g.ops = wLazy
	case "rel":
		// Hashing and comparing nested relations is expensive.
		p.Cap = 60_000_000
		p.U = 1000
		g.size = 8
		g.ops = wRel
		maxOps = 4 + r.N(7)
	}
	// Swarm: each run has its own mix.
	g.wts = weights{}
	g.keys = g.ops.keys()
	for _, k := range g.keys {
		w := g.ops[k]
		switch r.N(4) {
		case 0:
			w *= 3
		case 1:
			if r.N(2) == 0 {
				w = 0
			}
		}
		g.wts[k] = w
	}
	var prod []string // producers for the setup
	for _, k := range g.keys {
		switch k {
		case "s.new", "s.build", "m.new", "m.build", "i.new", "l.frozen", "r.new", "b.finish", "mb.finish":
			prod = append(prod, k)
		}
		if g.wts[k] == 0 {
			switch k {
			case "s.new", "m.new", "i.new", "l.frozen", "r.new":
				g.wts[k] = 1
			case "t.next", "b.finish", "mb.finish":
				g.wts[k] = g.ops[k]
			}
		}
	}
	ns := 1 + r.N(4)
	if p.Mach == "rel" {
		ns++
	}
	hold := g.pf.fault
	g.pf.fault = 0
	for i := 0; i < ns && len(prod) > 0; i++ {
		k := prod[r.N(len(prod))]
		if k == "b.finish" || k == "mb.finish" {
			k = map[string]string{"b.finish": "s.new", "mb.finish": "m.new"}[k]
		}
		if i > 0 && g.chance(45) {
			k = g.wts.pick(r, g.keys)
		}
		p.Setup = append(p.Setup, g.op(k))
	}
	g.pf.fault = hold
	nc := 1
	if g.chance(g.pf.multi) {
		nc = 2 + r.N(3)
		if opts.Thorough && r.N(3) == 0 {
			nc += r.N(4)
		}
	}
	p.Clients = make([][]Op, nc)
	for i := 0; i < maxOps; i++ {
		c := r.N(nc)
		p.Clients[c] = append(p.Clients[c], g.op(g.wts.pick(r, g.keys)))
	}
	return p
}

// probe is the program that looks for the known findings of a property.
func probe(prop string) *Program {
	if prop == "C04" {
		return &Program{Prop: prop, Mach: "lazy", U: 8, HashMode: "spread", HashSeed: 1, Seed: 1, Cap: 4_000_000,
			Setup: []Op{{ID: 1, K: "l.powempty"}}}
	}
	return nil
}

// schedule is the scheduler configuration of one seed.
func schedule(seed uint64) simrt.Config {
	r := simrt.NewRng(seed, 2)
	c := simrt.Config{Seed: r.U64(), TaskCap: 200000}
	switch r.N(8) {
	case 0:
		c.Policy = simrt.Policy{Kind: "block"}
	case 1, 2, 3:
		c.Policy = simrt.Policy{Kind: "rand", P: []int{3, 10, 30, 100, 400}[r.N(5)], SyncP: []int{0, 20, 50, 90}[r.N(4)]}
	case 4, 5:
		c.Policy = simrt.Policy{Kind: "pct", D: 1 + r.N(6), Len: []int{300, 2000, 10000, 60000}[r.N(4)]}
	default:
		mod := []int{7, 23, 61}[r.N(3)]
		c.Policy = simrt.Policy{Kind: "hot", P: 2 + r.N(4), SyncP: 30, HotMod: mod, HotRes: r.N(mod)}
	}
	c.Policy.Spawn = []int{0, 0, 30, 100}[r.N(4)]
	if r.N(5) == 0 {
		c.Policy.Stall = 1 + r.N(12)
	}
	return c
}

func mini(a, b int) int {
	if a < b {
		return a
	}
	return b
}
