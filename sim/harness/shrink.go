package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"time"

	"fsim/simrt"
)

// shrinker looks for smaller programs and schedules with the same violation.
type shrinker struct {
	prop  string
	key   string
	until time.Time
	tries int
	exec  bool // every try in a process of its own (the process dies)
	tmp   string
}

func (s *shrinker) fails(p *Program, c simrt.Config) (bool, viol) {
	s.tries++
	if s.exec {
		rec := Record{Prop: s.prop, Program: p, Sched: c}
		b, _ := json.Marshal(rec)
		if os.WriteFile(s.tmp, b, 0o644) != nil {
			return false, viol{}
		}
		cmd := exec.Command(os.Args[0], "replay", s.tmp)
		err := cmd.Run()
		ee, ok := err.(*exec.ExitError)
		return ok && ee.ExitCode() != 1, viol{Key: s.key}
	}
	r, _ := one(clone(p), c, newStats())
	for _, v := range r.viols {
		if v.has(s.prop) && v.Key == s.key {
			return true, v
		}
	}
	return false, viol{}
}

func (s *shrinker) over() bool { return time.Now().After(s.until) }

func clone(p *Program) *Program {
	b, _ := json.Marshal(p)
	q := &Program{}
	_ = json.Unmarshal(b, q)
	return q
}

// any tries the schedules worth trying for p.
func (s *shrinker) any(p *Program, cs []simrt.Config) (simrt.Config, bool) {
	for _, c := range cs {
		if ok, _ := s.fails(p, c); ok {
			return c, true
		}
		if s.over() {
			break
		}
	}
	return simrt.Config{}, false
}

type place struct{ c, i int }

func places(p *Program) (l []place) {
	for i := range p.Setup {
		l = append(l, place{-1, i})
	}
	for c := range p.Clients {
		for i := range p.Clients[c] {
			l = append(l, place{c, i})
		}
	}
	return
}

func at(p *Program, l place) *Op {
	if l.c < 0 {
		return &p.Setup[l.i]
	}
	return &p.Clients[l.c][l.i]
}

func keepOps(p *Program, keep map[place]bool) *Program {
	q := *p
	q.Setup, q.Clients = nil, nil
	for i := range p.Setup {
		if keep[place{-1, i}] {
			q.Setup = append(q.Setup, p.Setup[i])
		}
	}
	for c := range p.Clients {
		var ops []Op
		for i := range p.Clients[c] {
			if keep[place{c, i}] {
				ops = append(ops, p.Clients[c][i])
			}
		}
		if len(ops) > 0 || len(p.Clients) == 1 {
			q.Clients = append(q.Clients, ops)
		}
	}
	return clone(&q)
}

// ddmin shrinks a list of n things; test says whether keeping a subset fails.
func (s *shrinker) ddmin(n int, test func(keep []int) bool) []int {
	cur := make([]int, n)
	for i := range cur {
		cur[i] = i
	}
	for chunk := (len(cur) + 1) / 2; chunk >= 1 && len(cur) > 0 && !s.over(); {
		shrunk := false
		for at := 0; at < len(cur) && !s.over(); {
			end := mini(at+chunk, len(cur))
			try := append(append([]int(nil), cur[:at]...), cur[end:]...)
			if test(try) {
				cur = try
				shrunk = true
			} else {
				at = end
			}
		}
		if chunk == 1 && !shrunk {
			break
		}
		if !shrunk || chunk > len(cur) {
			chunk = (chunk + 1) / 2
			if chunk < 1 {
				chunk = 1
			}
		}
	}
	return cur
}

func minimise(in, out string, limit float64) {
	rec := load(in)
	s := &shrinker{prop: rec.Prop, key: rec.Viol.Key, until: time.Now().Add(time.Duration(limit * float64(time.Second)))}
	s.exec = rec.Viol.Key == "death"
	s.tmp = out + ".try"
	defer os.Remove(s.tmp)
	p, c := rec.Program, rec.Sched
	ok, v := s.fails(p, c)
	if !ok {
		// It needs the runs before it.
		fmt.Println("minimise: does not fail by itself")
		os.Exit(3)
	}
	rec.Viol = pickViol(rec.Viol, v)
	variants := func() []simrt.Config {
		cs := []simrt.Config{{Seed: c.Seed, TaskCap: c.TaskCap, Policy: simrt.Policy{Kind: "block"}}, c}
		if c.Policy.Kind != "block" {
			for k := uint64(1); k <= 10; k++ {
				d := c
				d.Seed = mix(c.Seed, k)
				cs = append(cs, d)
			}
		}
		return cs
	}
	accept := func(q *Program) bool {
		d, ok := s.any(q, variants())
		if ok {
			p, c = q, d
		}
		return ok
	}
	if d, ok := s.any(p, variants()[:1]); ok {
		c = d
	}
	for round := 0; round < 3 && !s.over(); round++ {
		before := p.ops()
		l := places(p)
		base := p
		s.ddmin(len(l), func(keep []int) bool {
			m := map[place]bool{}
			for _, k := range keep {
				m[l[k]] = true
			}
			return accept(keepOps(base, m))
		})
		// One client is simpler than several.
		if len(p.Clients) > 1 {
			q := clone(p)
			var ops []Op
			for _, x := range q.Clients {
				ops = append(ops, x...)
			}
			for i := range ops {
				for j := i; j > 0 && ops[j].ID < ops[j-1].ID; j-- {
					ops[j], ops[j-1] = ops[j-1], ops[j]
				}
			}
			q.Clients = [][]Op{ops}
			accept(q)
		}
		for _, pl := range places(p) {
			if s.over() {
				break
			}
			edit := func(f func(o *Op) bool) {
				q := clone(p)
				if f(at(q, pl)) {
					accept(q)
				}
			}
			edit(func(o *Op) bool { d := o.F != nil; o.F = nil; return d })
			edit(func(o *Op) bool { d := o.Re != 0; o.Re = 0; return d })
			edit(func(o *Op) bool { d := o.Rep != 0; o.Rep = 0; return d })
			for step := at(p, pl).Rep / 2; step > 0; step /= 2 {
				edit(func(o *Op) bool { d := o.Rep > step; o.Rep -= step; return d })
			}
			if n := len(at(p, pl).X); n > 0 {
				base := p
				s.ddmin(n, func(keep []int) bool {
					q := clone(base)
					var x []int
					for _, k := range keep {
						x = append(x, at(base, pl).X[k])
					}
					at(q, pl).X = x
					return accept(q)
				})
			}
			edit(func(o *Op) bool { d := o.A != 0; o.A = 0; return d })
			edit(func(o *Op) bool { d := o.B != 0; o.B = 0; return d })
			edit(func(o *Op) bool { d := o.C != 0; o.C = 0; return d })
			edit(func(o *Op) bool { d := o.P > 3; o.P &= 3; return d })
			edit(func(o *Op) bool {
				d := o.F != nil && o.F.N > 1
				if d {
					o.F.N = 1
				}
				return d
			})
		}
		if p.HashMode != "spread" {
			q := clone(p)
			q.HashMode = "spread"
			accept(q)
		}
		if p.ops() == before {
			break
		}
	}
	// Now the schedule: record it, then drop what is not needed.
	_, res := recordTrace(s, p, c)
	if res != nil {
		tr := res.Trace
		d := simrt.Config{Seed: c.Seed, TaskCap: c.TaskCap, UseTrace: true, Replay: append([]simrt.Switch{}, tr...)}
		if ok, v := s.fails(p, d); ok {
			c = d
			rec.Viol = pickViol(rec.Viol, v)
			pick := func(keep []int) simrt.Config {
				e := d
				e.Replay = []simrt.Switch{}
				for _, k := range keep {
					e.Replay = append(e.Replay, tr[k])
				}
				return e
			}
			if len(tr) < 4000 {
				s.until = s.until.Add(time.Duration(limit * 0.3 * float64(time.Second)))
				keep := s.ddmin(len(tr), func(keep []int) bool {
					ok, v := s.fails(p, pick(keep))
					if ok {
						rec.Viol = pickViol(rec.Viol, v)
					}
					return ok
				})
				c = pick(keep)
			}
		}
	}
	rec.Program, rec.Sched = p, c
	if ok, v := s.fails(p, c); ok {
		rec.Viol = pickViol(rec.Viol, v)
	}
	rec.Prefix = nil
	rec.Note = fmt.Sprintf("minimised in %d simulated runs", s.tries)
	b, err := json.MarshalIndent(rec, "", " ")
	check(err)
	check(os.WriteFile(out, b, 0o644))
}

func pickViol(old, v viol) viol {
	if v.Msg == "" {
		return old
	}
	return v
}

func recordTrace(s *shrinker, p *Program, c simrt.Config) (*run, *simrt.Result) {
	if s.exec {
		return nil, nil
	}
	return one(clone(p), c, newStats())
}
