// Package hb makes the happens-before edges a real client would have (handing
// an instance over, joining a goroutine) visible to the race detector. The
// simulator's own token passing is hidden from it.
package hb

import "sync/atomic"

// Edge is a point of synchronisation.
type Edge struct{ n atomic.Uint32 }

// Release orders what the caller did before what anyone does after an Acquire.
//
//go:noinline
func (e *Edge) Release() { e.n.Add(1) }

// Acquire is the other end.
//
//go:noinline
func (e *Edge) Acquire() { e.n.Load() }
