//go:build m_more

package main

func init() {
	link(domSm)
	link(domAny)
}
