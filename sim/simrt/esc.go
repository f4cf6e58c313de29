//go:build !race

package simrt

import "unsafe"

// Esc returns p.
func Esc(p unsafe.Pointer) unsafe.Pointer { return p }
