//go:build go1.23

// Package zmmap stands in for github.com/edsrzf/mmap-go inside the simulator.
package zmmap

import (
	"errors"

	"github.com/squizzling/osmindex/internal/zsim"
)

const (
	RDONLY = 0
	RDWR   = 1 << iota
	COPY
	EXEC
)

const (
	ANON = 1 << iota
)

type MMap []byte

func Map(f *zsim.OsFile, prot, flags int) (MMap, error) { return MapRegion(f, -1, prot, flags, 0) }

func MapRegion(f *zsim.OsFile, length int, prot, flags int, offset int64) (MMap, error) {
	if offset%4096 != 0 {
		return nil, errors.New("offset parameter must be a multiple of the system's page size")
	}
	if flags&ANON != 0 {
		return nil, errors.New("zmmap: anonymous mappings are not simulated")
	}
	b, err := zsim.MapFile(f, int64(length), offset, prot&(RDWR|COPY) != 0, prot&COPY != 0)
	return MMap(b), err
}

func (m MMap) Lock() error   { return nil }
func (m MMap) Unlock() error { return nil }
func (m MMap) Flush() error  { return zsim.FlushMem(m) }
func (m *MMap) Unmap() error {
	err := zsim.UnmapMem(*m)
	*m = nil
	return err
}
