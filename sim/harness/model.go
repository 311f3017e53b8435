package main

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

// ids is a finite set of element ids (the model of a set).
type ids []uint64

func newIDs(n int) ids { return make(ids, (n+63)/64) }

func (a ids) has(i int) bool {
	return i >= 0 && i>>6 < len(a) && a[i>>6]&(1<<uint(i&63)) != 0
}

func (a ids) clone() ids { return append(ids(nil), a...) }

func (a *ids) put(i int) {
	for i>>6 >= len(*a) {
		*a = append(*a, 0)
	}
	(*a)[i>>6] |= 1 << uint(i&63)
}

func (a ids) del(i int) {
	if i>>6 < len(a) {
		a[i>>6] &^= 1 << uint(i&63)
	}
}

func (a ids) with(i int) ids    { b := a.clone(); b.put(i); return b }
func (a ids) without(i int) ids { b := a.clone(); b.del(i); return b }

func (a ids) count() int {
	n := 0
	for _, w := range a {
		n += bits.OnesCount64(w)
	}
	return n
}

func (a ids) list() []int {
	out := make([]int, 0, a.count())
	for i, w := range a {
		for w != 0 {
			out = append(out, i<<6+bits.TrailingZeros64(w))
			w &= w - 1
		}
	}
	return out
}

func (a ids) at(i int) uint64 {
	if i < len(a) {
		return a[i]
	}
	return 0
}

func zipIDs(a, b ids, f func(x, y uint64) uint64) ids {
	n := len(a)
	if len(b) > n {
		n = len(b)
	}
	out := make(ids, n)
	for i := range out {
		out[i] = f(a.at(i), b.at(i))
	}
	return out
}

func (a ids) union(b ids) ids { return zipIDs(a, b, func(x, y uint64) uint64 { return x | y }) }
func (a ids) inter(b ids) ids { return zipIDs(a, b, func(x, y uint64) uint64 { return x & y }) }
func (a ids) minus(b ids) ids { return zipIDs(a, b, func(x, y uint64) uint64 { return x &^ y }) }
func (a ids) xor(b ids) ids   { return zipIDs(a, b, func(x, y uint64) uint64 { return x ^ y }) }
func (a ids) equal(b ids) bool {
	n := len(a)
	if len(b) > n {
		n = len(b)
	}
	for i := 0; i < n; i++ {
		if a.at(i) != b.at(i) {
			return false
		}
	}
	return true
}
func (a ids) subset(b ids) bool { return a.minus(b).count() == 0 }

func idsOf(x []int) ids {
	var a ids
	for _, i := range x {
		a.put(i)
	}
	return a
}

func (a ids) String() string { return abbrev(a.list()) }

func abbrev(x []int) string {
	if len(x) <= 80 {
		return fmt.Sprint(x)
	}
	return fmt.Sprintf("%v...(%d in all)", x[:80], len(x))
}

// imap is a finite map from ids to int values (the model of a map).
type imap map[int]int

func (m imap) clone() imap {
	o := make(imap, len(m))
	for k, v := range m {
		o[k] = v
	}
	return o
}

func (m imap) keys() []int {
	k := make([]int, 0, len(m))
	for i := range m {
		k = append(k, i)
	}
	sort.Ints(k)
	return k
}

func (m imap) equal(n imap) bool {
	if len(m) != len(n) {
		return false
	}
	for k, v := range m {
		if w, ok := n[k]; !ok || v != w {
			return false
		}
	}
	return true
}

func (m imap) String() string {
	var sb strings.Builder
	for n, k := range m.keys() {
		if n > 60 {
			fmt.Fprintf(&sb, " ...(%d in all)", len(m))
			break
		}
		fmt.Fprintf(&sb, " %d:%d", k, m[k])
	}
	return "{" + strings.TrimSpace(sb.String()) + "}"
}

func mix(a, b uint64) uint64 {
	x := a*0x9E3779B97F4A7C15 ^ b*0xC2B2AE3D27D4EB4F
	x ^= x >> 29
	x *= 0xBF58476D1CE4E5B9
	x ^= x >> 32
	x *= 0x94D049BB133111EB
	x ^= x >> 29
	return x
}

// predOn is the harness's family of predicates over ids: parameter p selects
// one, including always, never and dense or sparse ones.
func predOn(p, id int) bool {
	switch p % 8 {
	case 0:
		return true
	case 1:
		return false
	case 2:
		return mix(uint64(p), uint64(id))%10 < 9
	case 3:
		return mix(uint64(p), uint64(id))%10 < 1
	case 4:
		return id&1 == 0
	default:
		return mix(uint64(p), uint64(id))&1 == 0
	}
}

// mapOn is the harness's family of functions from ids to ids in [0,u).
func mapOn(p, id, u int) int {
	if u <= 0 {
		return 0
	}
	switch p % 6 {
	case 0:
		return id % u
	case 1:
		return 0
	case 2:
		return (id + p) % u
	case 3:
		return id % (1 + p%u)
	case 4:
		return id / 2 % u
	default:
		return int(mix(uint64(p), uint64(id)) % uint64(u))
	}
}

// valOn is the harness's family of functions from (key id, value) to values.
func valOn(p, k, v int) int { return int(mix(uint64(p), uint64(k)*31+uint64(v)) % 64) }

// resolveOn is the harness's family of resolvers.
func resolveOn(p, k, a, b int) int {
	switch p % 5 {
	case 0:
		return a
	case 1:
		return b
	case 2:
		return a*31 + b*7 + k
	case 3:
		return a - b
	default:
		return int(mix(uint64(p), mix(uint64(k), mix(uint64(a), uint64(b)))) % 1000)
	}
}

// sortedKeys lists a set in order, so that what the harness calls does not
// depend on Go's map order.
func sortedKeys[K int | string](m map[K]bool) []K {
	out := make([]K, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}
