//go:build race

package simrt

import "unsafe"

var (
	escOn   bool
	escSink unsafe.Pointer
)

// Esc returns p. The compiler cannot tell that p does not outlive the call, so the
// variable it points to is allocated on its own, and a conversion to a pointer to
// something bigger is found by the pointer checks of the race build.
//
//go:noinline
func Esc(p unsafe.Pointer) unsafe.Pointer {
	if escOn {
		escSink = p
	}
	return p
}
