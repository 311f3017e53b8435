package simrt

import (
	"fmt"
	"reflect"
	"sort"
	"unsafe"
)

func mem(p unsafe.Pointer, size uintptr, site int, write bool) {
	step(site)
	access(p, size, site, write, false)
}

// R is a load through p.
func R[T any](site int, p *T) *T {
	if memOn {
		mem(unsafe.Pointer(p), unsafe.Sizeof(*p), site, false)
	} else if sinkOn {
		sinkPtr = unsafe.Pointer(p)
	}
	return p
}

// RW is a load and a store through p (used where the store cannot be split).
func RW[T any](site int, p *T) *T {
	if memOn {
		mem(unsafe.Pointer(p), unsafe.Sizeof(*p), site, false)
		mem(unsafe.Pointer(p), unsafe.Sizeof(*p), site, true)
	} else if sinkOn {
		sinkPtr = unsafe.Pointer(p)
	}
	return p
}

// W notes a store through p that has just happened or is about to.
func W[T any](site int, p *T) *T {
	if memOn {
		mem(unsafe.Pointer(p), unsafe.Sizeof(*p), site, true)
	} else if sinkOn {
		sinkPtr = unsafe.Pointer(p)
	}
	return p
}

// Ref is a place about to be stored to.
type Ref[T any] struct {
	P    *T
	Site int
}

// At names a place to store to.
func At[T any](site int, p *T) Ref[T] {
	return Ref[T]{p, site}
}

// Set stores v.
func (r Ref[T]) Set(v T) {
	if memOn {
		mem(unsafe.Pointer(r.P), unsafe.Sizeof(v), r.Site, true)
	} else if sinkOn {
		sinkPtr = unsafe.Pointer(r.P)
	}
	*r.P = v
}

// Loc names a local variable (not shared) to store to.
func Loc[T any](p *T) Ref[T] { return Ref[T]{p, noSite} }

const noSite = -1000

func (r Ref[T]) set(v T) {
	if r.Site == noSite {
		*r.P = v
		return
	}
	r.Set(v)
}

// Set2, Set3 perform tuple assignments.
func Set2[A, B any](a Ref[A], b Ref[B]) func(A, B) {
	return func(x A, y B) { a.set(x); b.set(y) }
}

// Set3 performs a three-way tuple assignment.
func Set3[A, B, C any](a Ref[A], b Ref[B], c Ref[C]) func(A, B, C) {
	return func(x A, y B, z C) { a.set(x); b.set(y); c.set(z) }
}

func sliceSpan[E any](x []E, n int) (unsafe.Pointer, uintptr) {
	var e E
	return unsafe.Pointer(unsafe.SliceData(x)), unsafe.Sizeof(e) * uintptr(n)
}

// App is an append about to happen.
type App[S ~[]E, E any] struct {
	S    S
	Site int
}

// AppendTo starts an append to x.
func AppendTo[S ~[]E, E any](site int, x S) App[S, E] { return App[S, E]{x, site} }

// Add appends listed elements.
func (a App[S, E]) Add(v ...E) S {
	a.note(len(v))
	return append(a.S, v...)
}

// Spread appends the elements of another slice.
func (a App[S, E]) Spread(v []E) S {
	if memOn && len(v) > 0 {
		p, n := sliceSpan(v, len(v))
		mem(p, n, a.Site, false)
	}
	a.note(len(v))
	return append(a.S, v...)
}

func (a App[S, E]) note(n int) {
	if !memOn || n == 0 {
		return
	}
	if len(a.S)+n <= cap(a.S) {
		full := a.S[:len(a.S)+n]
		p, sz := sliceSpan([]E(full[len(a.S):]), n)
		mem(p, sz, a.Site, true)
		return
	}
	if len(a.S) > 0 {
		p, sz := sliceSpan([]E(a.S), len(a.S))
		mem(p, sz, a.Site, false)
	}
}

// Copy replaces the copy builtin.
func Copy[D ~[]E, S ~[]E, E any](site int, dst D, src S) int {
	if memOn {
		n := len(src)
		if len(dst) < n {
			n = len(dst)
		}
		if n > 0 {
			p, sz := sliceSpan([]E(src), n)
			mem(p, sz, site, false)
			p, sz = sliceSpan([]E(dst), n)
			mem(p, sz, site, true)
		}
	}
	return copy(dst, src)
}

// MapR notes a read of a Go map.
func MapR[M ~map[K]V, K comparable, V any](site int, m M) M {
	if memOn && m != nil {
		mem(*(*unsafe.Pointer)(unsafe.Pointer(&m)), 1, site, false)
	}
	return m
}

// MapW notes a write to a Go map.
func MapW[M ~map[K]V, K comparable, V any](site int, m M) M {
	if memOn && m != nil {
		mem(*(*unsafe.Pointer)(unsafe.Pointer(&m)), 1, site, true)
	}
	return m
}

// MapKeys returns the keys of m in an order chosen by the simulator.
func MapKeys[M ~map[K]V, K comparable, V any](site int, m M) []K {
	MapR(site, m)
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	if s == nil {
		return keys
	}
	sortKeys(keys)
	for i := len(keys) - 1; i > 0; i-- {
		j := s.mapRng.N(i + 1)
		keys[i], keys[j] = keys[j], keys[i]
	}
	s.res.SyncOps++
	return keys
}

func sortKeys[K comparable](keys []K) {
	if len(keys) < 2 {
		return
	}
	switch reflect.TypeOf(keys).Elem().Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		sort.Slice(keys, func(i, j int) bool {
			return reflect.ValueOf(keys[i]).Int() < reflect.ValueOf(keys[j]).Int()
		})
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		sort.Slice(keys, func(i, j int) bool {
			return reflect.ValueOf(keys[i]).Uint() < reflect.ValueOf(keys[j]).Uint()
		})
	case reflect.String:
		sort.Slice(keys, func(i, j int) bool {
			return reflect.ValueOf(keys[i]).String() < reflect.ValueOf(keys[j]).String()
		})
	default:
		names := make(map[K]string, len(keys))
		for _, k := range keys {
			names[k] = fmt.Sprintf("%T%v", k, k)
		}
		sort.SliceStable(keys, func(i, j int) bool { return names[keys[i]] < names[keys[j]] })
	}
}

func init() {
	// Escape analysis must assume hooks retain their argument.
	if InitialProcs < 0 {
		sinkOn = true
	}
}
