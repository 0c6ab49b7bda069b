package pbt

import "unsafe"

func ptr(m *[16]uint64) unsafe.Pointer { return unsafe.Pointer(m) }
