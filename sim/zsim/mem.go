//go:build go1.23

package zsim

import "unsafe"

// MR, MW, Copy and Append stand for operations on memory whose accesses
// the compiler does not report; the instrumenter uses them with -race only.

func note(k unsafe.Pointer, n int, w bool) {
	if p := P; p != nil && p.cur != nil && !p.dead {
		p.hbAccess(k, n, w)
	}
}

//go:norace
func mapPtr[M ~map[K]V, K comparable, V any](m M) unsafe.Pointer {
	return *(*unsafe.Pointer)(unsafe.Pointer(&m))
}

//go:norace
func MR[M ~map[K]V, K comparable, V any](m M) M { note(mapPtr(m), 1, false); return m }

//go:norace
func MW[M ~map[K]V, K comparable, V any](m M) M { note(mapPtr(m), 1, true); return m }

//go:norace
func Copy[D ~[]T, S ~[]T, T any](d D, s S) int {
	var z T
	n := min(len(d), len(s)) * int(unsafe.Sizeof(z))
	note(unsafe.Pointer(unsafe.SliceData(s)), n, false)
	note(unsafe.Pointer(unsafe.SliceData(d)), n, true)
	return copy(d, s)
}

//go:norace
func Append[D ~[]T, S ~[]T, T any](d D, s S) D {
	var z T
	n := len(s) * int(unsafe.Sizeof(z))
	note(unsafe.Pointer(unsafe.SliceData(s)), n, false)
	l := len(d)
	d = append(d, s...)
	if n > 0 {
		note(unsafe.Pointer(unsafe.SliceData(d[l:])), n, true)
	}
	return d
}

//go:norace
func BufR[S ~[]byte](b S) S { note(unsafe.Pointer(unsafe.SliceData(b)), len(b), false); return b }

//go:norace
func BufW[S ~[]byte](b S) S { note(unsafe.Pointer(unsafe.SliceData(b)), len(b), true); return b }
