// Package zrt has what the race detector of the simulator needs from the
// machine: the caller's frame, whose return address is the place of an access,
// and the running goroutine's descriptor, which starts with its stack's bounds.
package zrt

func FrameBase() uintptr
func CurG() uintptr
