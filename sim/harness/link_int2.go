//go:build m_int2

package main

func init() {
	linkInt[int16]("int16")
	linkInt[int32]("int32")
	linkInt[int64]("int64")
	linkInt[uint]("uint")
	linkInt[uint8]("uint8")
	linkInt[uint16]("uint16")
	linkInt[uint32]("uint32")
	linkInt[uintptr]("uintptr")
}
