package main

import (
	"fmt"

	"github.com/arr-ai/frozen"
	"github.com/arr-ai/hash"
)

// Dom is an element type under test, with its bijection to ids.
type Dom[T any] struct {
	Name  string
	Mk    func(id, tag int) T
	ID    func(v T) int
	GoMap func(d *Dom[T], m imap) frozen.Map[T, int] // NewMapFromGoMap, for comparable types
	Inner bool                                       // equality and hash of elements call back into the harness
}

// curRun carries what element code needs to know about the current run.
type runEnv struct {
	hashTab []uintptr
	u       int
}

var env runEnv

// El has its own equality (Equaler) and hash. Tag tells equal elements apart.
type El struct {
	ID  int32
	Tag int32
}

// Equal compares ids only.
func (a El) Equal(b El) bool {
	cbPlain(cbEq)
	return a.ID == b.ID
}

// Hash is chosen by the run's hash table.
func (a El) Hash(seed uintptr) uintptr {
	cbPlain(cbHash)
	return tabHash(int(a.ID), seed)
}

func (a El) String() string {
	_ = encodeCall()
	return fmt.Sprintf("e%d", a.ID)
}

// MarshalJSON can be made to fail.
func (a El) MarshalJSON() ([]byte, error) {
	if err := encodeCall(); err != nil {
		return nil, err
	}
	return []byte(fmt.Sprintf(`"e%d"`, a.ID)), nil
}

// Sm is compared through the untyped Same.
type Sm struct {
	ID  int32
	Tag int32
}

// Same compares ids of Sm values.
func (a Sm) Same(x any) bool {
	cbPlain(cbEq)
	b, ok := x.(Sm)
	return ok && a.ID == b.ID
}

// Hash is chosen by the run's hash table.
func (a Sm) Hash(seed uintptr) uintptr {
	cbPlain(cbHash)
	return tabHash(int(a.ID), seed)
}

// Format writes by itself.
func (a Sm) Format(f fmt.State, _ rune) {
	_ = encodeCall()
	if _, err := fmt.Fprintf(f, "m%d", a.ID); err != nil {
		panic(err)
	}
}

// MarshalJSON can be made to fail.
func (a Sm) MarshalJSON() ([]byte, error) {
	if err := encodeCall(); err != nil {
		return nil, err
	}
	return []byte(fmt.Sprintf(`{"m":%d}`, a.ID)), nil
}

// Pt is a plain comparable struct.
type Pt struct {
	X, Y int
}

func tabHash(id int, seed uintptr) uintptr {
	var h uintptr
	if id >= 0 && id < len(env.hashTab) {
		h = env.hashTab[id]
	} else {
		h = uintptr(mix(uint64(id), 77))
	}
	if seed != 0 {
		h ^= uintptr(mix(uint64(seed), 99))
	}
	return h
}

var domInt = &Dom[int]{
	Name: "int",
	Mk: func(id, _ int) int {
		switch id {
		case 1:
			return -1
		case 2:
			return 1 << 62
		case 3:
			return -1 << 63
		}
		return id * 3
	},
	ID: func(v int) int {
		switch v {
		case -1:
			return 1
		case 1 << 62:
			return 2
		case -1 << 63:
			return 3
		}
		if v%3 != 0 || v < 0 || v == 3 || v == 6 || v == 9 {
			return -1
		}
		return v / 3
	},
	GoMap: goMap[int],
}

func goMap[T comparable](d *Dom[T], m imap) frozen.Map[T, int] {
	g := make(map[T]int, len(m))
	for k, v := range m {
		g[d.Mk(k, 0)] = v
	}
	return frozen.NewMapFromGoMap(g)
}

var domStr = &Dom[string]{
	Name: "string",
	Mk: func(id, _ int) string {
		if id == 0 {
			return ""
		}
		return fmt.Sprintf("k%d", id)
	},
	ID: func(v string) int {
		if v == "" {
			return 0
		}
		n := -1
		if fmt.Sscanf(v, "k%d", &n); n <= 0 {
			return -1
		}
		return n
	},
	GoMap: goMap[string],
}

var domEl = &Dom[El]{
	Name: "el", Inner: true,
	Mk: func(id, tag int) El { return El{int32(id), int32(tag)} },
	ID: func(v El) int { return int(v.ID) },
}

var domSm = &Dom[Sm]{
	Name: "sm", Inner: true,
	Mk: func(id, tag int) Sm { return Sm{int32(id), int32(tag)} },
	ID: func(v Sm) int { return int(v.ID) },
}

var domPt = &Dom[Pt]{
	Name: "pt",
	Mk:   func(id, _ int) Pt { return Pt{id, id % 3} },
	ID: func(v Pt) int {
		if v.Y != v.X%3 {
			return -1
		}
		return v.X
	},
	GoMap: goMap[Pt],
}

// domAny mixes dynamic types in a Set[any].
var domAny = &Dom[any]{
	Name: "any", Inner: true,
	Mk: func(id, tag int) any {
		switch id % 5 {
		case 0:
			return id
		case 1:
			return fmt.Sprint(id)
		case 2:
			return Sm{int32(id), int32(tag)}
		case 3:
			return frozen.KV(id, id+1)
		default:
			return Pt{id, 7}
		}
	},
	ID: func(v any) int {
		switch v := v.(type) {
		case int:
			return v
		case string:
			n := -1
			fmt.Sscan(v, &n)
			return n
		case Sm:
			return int(v.ID)
		case frozen.KeyValue[int, int]:
			if v.Value != v.Key+1 {
				return -1
			}
			return v.Key
		case Pt:
			return v.X
		}
		return -1
	},
}

// domNest has sets as elements: element id is the set of id's one-bits, built
// by a history that depends on the tag.
var domNest = &Dom[frozen.Set[int]]{
	Name: "nest",
	Mk: func(id, tag int) frozen.Set[int] {
		s := frozen.Set[int]{}
		for i := 0; i < 12; i++ {
			j := i
			if tag&1 == 1 {
				j = 11 - i
			}
			if id>>uint(j)&1 == 1 {
				s = s.With(j * 5)
			} else if tag&2 != 0 {
				s = s.With(j * 5).Without(j * 5)
			}
		}
		return s
	},
	ID: func(v frozen.Set[int]) int {
		id := 0
		for i := v.Range(); i.Next(); {
			x := i.Value()
			if x%5 != 0 || x < 0 || x > 55 {
				return -1
			}
			id |= 1 << uint(x/5)
		}
		return id
	},
}

// domKV has entries as elements; many share a key, so their hashes collide.
var domKV = &Dom[frozen.KeyValue[int, int]]{
	Name: "kv",
	Mk:   func(id, _ int) frozen.KeyValue[int, int] { return frozen.KV(id/5, id%5) },
	ID: func(v frozen.KeyValue[int, int]) int {
		if v.Value < 0 || v.Value > 4 {
			return -1
		}
		return v.Key*5 + v.Value
	},
	GoMap: goMap[frozen.KeyValue[int, int]],
}

// domMapKey has maps as elements.
var domMapKey = &Dom[frozen.Map[string, int]]{
	Name: "mapkey",
	Mk: func(id, tag int) frozen.Map[string, int] {
		m := frozen.Map[string, int]{}
		for i := 0; i < 8; i++ {
			j := i
			if tag&1 == 1 {
				j = 7 - i
			}
			if d := id >> uint(2*j) & 3; d != 0 {
				if tag&2 != 0 {
					m = m.With(fmt.Sprint("a", j), 9)
				}
				m = m.With(fmt.Sprint("a", j), d)
			}
		}
		return m
	},
	ID: func(v frozen.Map[string, int]) int {
		id := 0
		for i := v.Range(); i.Next(); {
			j := -1
			fmt.Sscanf(i.Key(), "a%d", &j)
			if j < 0 || j > 7 || i.Value() < 1 || i.Value() > 3 {
				return -1
			}
			id |= i.Value() << uint(2*j)
		}
		return id
	},
}

// hashTable builds the run's element hashes.
func hashTable(mode string, seed uint64, u int) []uintptr {
	t := make([]uintptr, u)
	const top = 64
	for i := range t {
		r := mix(seed, uint64(i)+1)
		switch mode {
		case "spread":
			t[i] = uintptr(r)
		case "same":
			t[i] = uintptr(mix(seed, 5))
		case "zero":
			t[i] = 0
		case "ones":
			t[i] = ^uintptr(0)
		case "few":
			t[i] = uintptr(mix(seed, r%3))
		case "groups":
			// Groups of one to five full colliders.
			t[i] = uintptr(mix(seed, uint64(i)/(1+seed%5)))
		case "prefix":
			// Share all but the lowest few bits.
			t[i] = uintptr(mix(seed, 3)&^0x3f | r&0x3f)
		case "deep":
			// Share a prefix of varying length with a common value.
			n := uint(r>>32) % top
			t[i] = uintptr((mix(seed, 3)>>(top-n))<<(top-n) | r>>n)
			if n == 0 {
				t[i] = uintptr(r)
			}
		case "deepfew":
			n := uint(60 + r>>40%4)
			t[i] = uintptr((mix(seed, 3)>>(top-n))<<(top-n) | r%4)
		case "lowonly":
			t[i] = uintptr(i)
		default:
			panic("hash mode " + mode)
		}
	}
	return t
}

var hashModes = []string{"spread", "same", "zero", "ones", "few", "groups", "prefix", "deep", "deepfew", "lowonly"}

func setHashSeeds(seed uint64) {
	a, h := hash.GetSeeds()
	if h == nil {
		b := make([]byte, len(a))
		for i := range b {
			b[i] = byte(mix(seed, uint64(i)+1000))
		}
		if err := hash.SetSeeds(b, nil); err != nil {
			panic(err)
		}
		return
	}
	k := make([]uintptr, len(h))
	for i := range k {
		k[i] = uintptr(mix(seed, uint64(i)+1000)) | 1
	}
	if err := hash.SetSeeds(nil, k); err != nil {
		panic(err)
	}
}
