//go:build m_core

package main

func init() {
	link(domEl)
	link(domInt)
}
