//go:build m_rel

package main

func init() {
	linked["rel"] = func(r *run) machine { return newRelMach(r) }
}
