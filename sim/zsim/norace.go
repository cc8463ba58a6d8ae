//go:build go1.23 && !zrace

package zsim

import "unsafe"

// Without the tag zrace nothing keeps track of what happens before what.

type raceState struct{}

type vclock struct{}

const RaceDetection = false

func (p *Proc) hbStart()                           {}
func (p *Proc) hbEnd(*Result)                      {}
func (p *Proc) hbSpawn(*G)                         {}
func (p *Proc) hbSet(*timer)                       {}
func (p *Proc) hbFire(*timer)                      {}
func (p *Proc) hbFired()                           {}
func (p *Proc) hbRel(unsafe.Pointer)               {}
func (p *Proc) hbAcq(unsafe.Pointer)               {}
func (p *Proc) hbBoth(unsafe.Pointer)              {}
func (p *Proc) hbSend(*chanState, *G)              {}
func (p *Proc) hbRecv(*chanState, *G)              {}
func (p *Proc) hbHand(*chanState, *G, *G)          {}
func (p *Proc) hbClose(*chanState)                 {}
func (p *Proc) hbClosed(*chanState, *G)            {}
func (p *Proc) hbAtomic(unsafe.Pointer, int)       {}
func (p *Proc) hbAccess(unsafe.Pointer, int, bool) {}
func (p *Proc) hbForget(unsafe.Pointer, int)       {}

func anyPtr(any) unsafe.Pointer { return nil }
