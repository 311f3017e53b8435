//go:build m_lazy

package main

func init() {
	linked["lazy"] = func(r *run) machine { return &lazyMach{r: r, u: r.p.U, hashes: map[string]uintptr{}} }
}
