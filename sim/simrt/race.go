package simrt

import (
	"fmt"
	"unsafe"
)

// Shadow memory: for every 8-byte word the set of accesses not yet ordered
// before a later access (per byte mask).
type acc struct {
	clk   uint32
	tid   int32
	site  int32
	task  int32
	mask  uint8
	write bool
	atom  bool
}

type cell struct {
	a []acc
}

const pageWords = 128 // 1 KiB of memory per shadow page

type page struct {
	base  uintptr
	cells [pageWords]cell
}

var (
	shadow   = map[uintptr]*page{}
	pagePool []*page
	lastPage *page
	sinkPtr  unsafe.Pointer
	sinkOn   bool

	// keep holds one pointer into everything the shadow describes, so that a
	// collection during a run cannot hand its address to something else.
	keep []unsafe.Pointer
)

func resetShadow() {
	for k, p := range shadow {
		for i := range p.cells {
			if p.cells[i].a != nil {
				p.cells[i].a = p.cells[i].a[:0]
			}
		}
		if len(pagePool) < 4096 {
			pagePool = append(pagePool, p)
		}
		delete(shadow, k)
	}
	lastPage = nil
	clear(keep)
	keep = keep[:0]
}

func cellFor(word uintptr) *cell {
	base := word / pageWords
	if lastPage == nil || lastPage.base != base {
		p := shadow[base]
		if p == nil {
			if n := len(pagePool); n > 0 {
				p = pagePool[n-1]
				pagePool = pagePool[:n-1]
			} else {
				p = &page{}
			}
			p.base = base
			shadow[base] = p
		}
		lastPage = p
	}
	return &lastPage.cells[word%pageWords]
}

// access records one access by the current task and checks it for races.
//
//go:noinline
func access(p unsafe.Pointer, size uintptr, site int, write, atom bool) {
	if sinkOn {
		sinkPtr = p // keeps accessed variables on the heap
	}
	if p == nil || size == 0 || !raceOn {
		return
	}
	t := s.cur
	s.res.Accesses++
	clk := t.vc[t.tid]
	t.lastAcc = clk
	lo := uintptr(p)
	hi := lo + size
	if size > 1<<16 {
		hi = lo + 1<<16
	}
	for w := lo >> 3; w<<3 < hi; w++ {
		mask := uint8(0xff)
		if w<<3 < lo {
			mask &= 0xff << (lo - w<<3)
		}
		if end := (w + 1) << 3; end > hi {
			mask &= 0xff >> (end - hi)
		}
		c := cellFor(w)
		if len(c.a) == 1 {
			if e := &c.a[0]; int(e.tid) == t.tid && e.clk == clk && e.write == write && e.atom == atom && e.mask == mask {
				continue
			}
		}
		if len(c.a) == 0 {
			keep = append(keep, p)
		}
		out := c.a[:0]
		for _, e := range c.a {
			if int(e.tid) == t.tid || e.clk <= t.vc.get(int(e.tid)) {
				// Ordered before this access: where this access conflicts
				// with at least as much, it stands for both from now on.
				if (write || !e.write) && (!atom || e.atom) {
					if e.mask &^= mask; e.mask == 0 {
						continue
					}
				}
			} else if e.mask&mask != 0 && (e.write || write) && !(e.atom && atom) {
				reportRace(e, t, site, write, atom, p)
			}
			out = append(out, e)
		}
		c.a = append(out, acc{clk: clk, tid: int32(t.tid), site: int32(site), task: int32(t.ID), mask: mask, write: write, atom: atom})
	}
}

func reportRace(e acc, t *Task, site int, write, atom bool, p unsafe.Pointer) {
	a, b := uint64(uint32(e.site)), uint64(uint32(site))
	k := a<<32 | b
	if s.raceSeen[k] || s.raceSeen[b<<32|a] {
		return
	}
	s.raceSeen[k] = true
	kind := func(w, at bool) string {
		r := "read"
		if w {
			r = "write"
		}
		if at {
			r = "atomic " + r
		}
		return r
	}
	s.violate("race", fmt.Sprintf("unordered %s at %s by task %d (%s) and %s at %s by task %d (%s)",
		kind(e.write, e.atom), SiteName(int(e.site)), e.task, s.tasks[e.task].Name,
		kind(write, atom), SiteName(site), t.ID, t.Name))
}
