//go:build m_rare

package main

func init() {
	link(domStr)
	link(domNest)
	link(domPt)
	link(domKV)
	link(domMapKey)
}
