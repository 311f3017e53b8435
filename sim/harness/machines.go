package main

import (
	"os"
	"strings"
)

// cfgSerial says that this process runs with concurrency off.
var cfgSerial = strings.EqualFold(os.Getenv("FROZEN_CONCURRENCY"), "off")

// linked machines, by machine and domain. Build tags choose what a check links,
// because every element type costs compile time.
var linked = map[string]func(r *run) machine{}

func link[T any](d *Dom[T]) {
	linked["set/"+d.Name] = func(r *run) machine { return &setMach[T]{r: r, d: d, u: r.p.U} }
}

func linkInt[I integer](name string) {
	linked["int/"+name] = func(r *run) machine { return newIntMach[I](r) }
}

func newMachine(r *run) machine {
	k := r.p.Mach
	if r.p.Dom != "" {
		k += "/" + r.p.Dom
	}
	f := linked[k]
	if f == nil {
		panic("this harness has no machine " + k)
	}
	return f(r)
}
