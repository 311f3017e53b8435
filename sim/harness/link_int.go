//go:build m_int

package main

func init() {
	linkInt[int]("int")
	linkInt[int8]("int8")
	linkInt[uint64]("uint64")
}
